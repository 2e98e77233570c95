"""Classes that depend on each other in circles through vectors: only with separate implementation headers."""
import os
from . import common
from .common import RT, Infra, fgen, run, write
from .rig import CppRig, RUSTC, clean, first_errors


def gen(rng):
    n = rng.choice([2, 2, 3, 4, 5])
    edges = [(i, (i + 1) % n, "mk") for i in range(n)]       # one circle through all
    for _ in range(rng.randrange(0, 2 * n)):
        edges.append((rng.randrange(n), rng.randrange(n), rng.choice(["mk", "sum", "res"])))
    cfg = rng.choice([{}, {"use_boost": "1"}, {"variant": "boost"}, {"rustfmt": "1"}])
    return n, sorted(set(edges)), cfg


def emit(n, edges):
    lib, glue = ["#![allow(warnings)]"], []
    for i in range(n):
        K = f"K{i}"
        body, g = [f"pub fn new(v: i64) -> {K} {{ {K}(v) }} pub fn v(&self) -> i64 {{ self.0 }}"], [f"constructor {K}::new(v: i64) -> {K}; fn {K}::v(&self) -> i64;"]
        for a, b, kind in edges:
            if a != i:
                continue
            s = {"mk": f"mk{b}(&self, n: u32) -> Vec<K{b}>", "sum": f"sum{b}(&self, a: Vec<K{b}>) -> i64", "res": f"res{b}(&self, n: u32) -> Result<Vec<K{b}>, String>"}[kind]
            mk = f"(0..n as i64).map(|k| K{b}(self.0 * 10 + k)).collect()"
            body.append(f"pub fn {s} {{ " + {"mk": mk, "sum": "a.iter().enumerate().map(|(k, x)| (k as i64 + 1) * x.0).sum::<i64>() + self.0", "res": f"if n % 2 == 1 {{ return Err(format!(\"odd {{}}\", n)); }} Ok({mk})"}[kind] + " }")
            g.append(f"fn {K}::{s};")
        lib.append(f"pub struct {K}(i64); impl {K} {{ {' '.join(body)} }}")
        glue.append(f"foreign_class!(class {K} {{ self_type {K}; {' '.join(g)} }});")
    return "\n".join(lib + ['include!("glue.rs");']), "\n".join(glue)


def driver(rng, n, edges, cfg):
    boost = cfg.get("use_boost") or cfg.get("variant")
    ks = [f"K{i}" for i in range(n)]

    def inc():
        a, b = rng.sample(ks, n), rng.sample(ks, n)
        return "\n".join(f'#include "{k}.hpp"' for k in (a if rng.random() < 0.7 else [])) + "\n" + "\n".join(f'#include "{k}_impl.hpp"' for k in b)
    st = []
    for a, b, kind in edges:
        v, m = rng.randrange(-10 ** 6, 10 ** 6), rng.randrange(0, 7)
        k = f"K{a} k(int64_t({v})); "
        loop = f"if (r.size() != {m}) return bad({a}, {b}); for (size_t i = 0; i < r.size(); ++i) if (r[i].v() != int64_t({v}) * 10 + (int64_t)i) return bad({a}, {b});"
        if kind == "mk":
            st.append(f"{{ {k}auto r = k.mk{b}({m}); {loop} }}")
        elif kind == "sum":
            # vectors come from Rust only
            mk = next((x for x in edges if x[1] == b and x[2] == "mk"))
            exp = sum((i + 1) * (x) for i, x in enumerate([7 * 10 + i for i in range(m)])) + v
            st.append(f"{{ {k}K{mk[0]} o(int64_t(7)); if (k.sum{b}(o.mk{b}({m})) != {exp}) return bad({a}, {b}); }}")
        else:
            get = "boost::get" if boost else "std::get"
            idx = "which()" if boost else "index()"
            st.append(f"{{ {k}auto x = k.res{b}({m}); if (x.{idx} != {m % 2}) return bad({a}, {b}); " +
                      (f'if ({get}<RustString>(x).to_std_string() != "odd {m}") return bad({a}, {b}); }}' if m % 2 else f"auto &r = {get}<decltype(k.mk{b}({m}))>(x); {loop} }}" if (a, b, "mk") in edges else "}"))
    main = f"""{inc()}
#include <cstdio>
using namespace api;
int other();
static int bad(int a, int b) {{ printf("BAD method of K%d about K%d\\n", a, b); return 5; }}
int main() {{ {' '.join(st)} if (other() != 1) return 6; puts("DONE"); return 0; }}
"""
    a, b, _ = edges[0]
    other = f"{inc()}\nusing namespace api;\nint other() {{ K{a} k(int64_t(4)); auto r = k.mk{b}(2); return r.size() == 2 && r[1].v() == 41; }}\n" if edges[0][2] == "mk" else f"{inc()}\nint other() {{ return 1; }}\n"
    return main, other


def case(ck, i):
    rng = common.rng("C05", "cycles", i)
    n, edges, cfg = gen(rng)
    d = common.scratch("cyc")
    try:
        lib, glue = emit(n, edges)
        tag = f"classes in a circle {i} {cfg}"
        rep = {"glue": glue, "cfg": cfg}
        write(d + "/glue.rs.in", glue)
        write(d + "/lib.rs", lib)
        os.makedirs(d + "/gen")
        rc, e = fgen(d, lang="cpp", out=d + "/gen", name="api", src=d + "/glue.rs.in", dst=d + "/glue.rs", width="64", rustfmt=cfg.get("rustfmt", "0"), separate_impl_headers="1", **{k: v for k, v in cfg.items() if k != "rustfmt"})
        if rc:
            return ck.violation("build", f"[{tag}] refused: {clean(e)}", rep)
        main, other = driver(rng, n, edges, cfg)
        write(d + "/main.cpp", main)
        write(d + "/other.cpp", other)
        for what, cmd in (("rustc", RUSTC + ["--crate-type", "staticlib", "--crate-name", "glue", "-o", d + "/libglue.a", d + "/lib.rs"]),
                          ("c++", ["g++", "-std=c++17", "-O0", "-w", "-pipe"] + CppRig.SAN + ["-I", d + "/gen", d + "/main.cpp", d + "/other.cpp", d + "/libglue.a", "-o", d + "/drv", "-lpthread", "-ldl"])):
            rc, o, e = run(cmd, timeout=400)
            if rc:
                if "No space" in e or "Killed" in e or rc < 0:
                    raise Infra(f"{what}: {e[-500:]}")
                return ck.violation("build", f"[{tag}] {what}: {first_errors(e)}", rep)
        rc, o, e = run([d + "/drv"], timeout=60, hang=True, ASAN_OPTIONS="detect_leaks=1")
        for a, b, k in edges:
            ck.count(("cycle", n, a, b, k, tuple(cfg)), True, {"classes": n, "edge": f"K{a} -> K{b} ({k})", "configuration": cfg} if i == 0 and a == 0 else None)
        if rc or "DONE" not in o:
            ck.violation("circle", f"[{tag}] {(o + e)[-600:]}", dict(rep, main=main))
    finally:
        common.rmtree(d)
