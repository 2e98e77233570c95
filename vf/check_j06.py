"""J06: Java objects a call uses stay alive until the call has ended, whatever the garbage collector does meanwhile."""
import os
import re
from . import common
from .common import RT, Infra, fgen, run, write
from .rig import RUSTC, clean, first_errors, java_deps

RULE = ("a case is one Java object (argument or receiver) of one call of a generated method whose last use in Java is that call, while Rust code inside the call has the "
        "JVM collect garbage and run finalizers; it is non-trivial when the object is not null; distinct by method signature, position and configuration")
PKG = "org.vf.gen"

STORE = {"plain": "K{0}", "rc": "Rc<RefCell<K{0}>>", "arc": "Arc<Mutex<K{0}>>"}
NEW = {"plain": "{0}", "rc": "Rc::new(RefCell::new({0}))", "arc": "Arc::new(Mutex::new({0}))"}
RETS = [None, "i32", "String", "K", "Option<K>", "Result<i32, String>", "Vec<i32>", "bool", "Option<f64>"]


def gen(rng):
    n = rng.choice([1, 2, 3, 4])
    classes = [dict(n=i, store=rng.choice(["plain", "plain", "rc", "arc"]), methods=[]) for i in range(n)]
    names = 0
    for c in classes:
        for _ in range(rng.choice([1, 2, 3])):
            names += 1
            kind = rng.choice(["static", "static", "inst", "inst", "mut", "ctor"])
            args = []
            for _ in range(rng.choice([1, 1, 2, 3, 4, 5, 6, 7])):
                r = rng.random()
                k = rng.choice(classes)
                if r < 0.3:
                    args.append(rng.choice(["i32", "String", "f64", "bool", "u8", "Option<i32>"]))
                elif r < 0.4 and k["store"] == "plain":
                    args.append(("val", k["n"]))
                elif r < 0.7:
                    args.append(("ref", k["n"]))
                elif r < 0.85:
                    args.append(("mut", k["n"]))
                else:
                    args.append(("opt" if k["store"] == "plain" else "ref", k["n"]))
            ret = rng.choice(RETS)
            if kind == "ctor" or (ret and "K" in ret and classes[c["n"]]["store"] != "plain"):
                ret = None
            c["methods"].append(dict(name=f"m{names}", kind=kind, args=args, ret=ret))
    prot = max([sum(isinstance(a, tuple) for a in m["args"]) for c in classes for m in c["methods"]] + [1])
    cfg = {"fence": rng.choice(["std", str(max(prot, rng.choice([1, 3, 8, 20])))])}
    if rng.random() < 0.5:
        cfg["null_annotation"] = "android.support.annotation"
    return classes, cfg


def rty(a, classes):
    if not isinstance(a, tuple):
        return a
    k = f"K{a[1]}"
    return {"val": k, "ref": "&" + k, "mut": "&mut " + k, "opt": f"Option<&{k}>"}[a[0]]


def emit(classes):
    lib = ["#![allow(warnings)]", "mod api {", "use vf_jni_h::*;", "use std::{rc::Rc, cell::{RefCell, Ref, RefMut}, sync::{Arc, Mutex, MutexGuard, atomic::{AtomicI64, Ordering}}};",
           "static LOG: Mutex<Vec<i64>> = Mutex::new(Vec::new());", "static BAD: Mutex<String> = Mutex::new(String::new());", "static NEXT: AtomicI64 = AtomicI64::new(1_000_000);",
           "pub trait Hook { fn hit(&self); }", "thread_local! { static HOOK: RefCell<Option<Box<dyn Hook>>> = RefCell::new(None); }",
           "pub struct Ctl; impl Ctl { pub fn set(h: Box<dyn Hook>) { HOOK.with(|x| *x.borrow_mut() = Some(h)) } pub fn unset() { HOOK.with(|x| *x.borrow_mut() = None) } pub fn bad() -> String { std::mem::take(&mut *BAD.lock().unwrap()) } }",
           # a table of its own: the objects may be gone
           "fn during(what: &str, ids: &[(i64, &str)]) { HOOK.with(|x| if let Some(h) = x.borrow().as_ref() { h.hit() }); let l = LOG.lock().unwrap(); "
           "for (id, w) in ids { if l.contains(id) { BAD.lock().unwrap().push_str(&format!(\"{} {};\", what, w)); } } }"]
    glue = ["use vf_jni_h::*;", "foreign_callback!(callback Hook { self_type Hook; hit = Hook::hit(&self); });",
            "foreign_class!(class Ctl { fn Ctl::set(h: Box<dyn Hook>); fn Ctl::unset(); fn Ctl::bad() -> String; });"]
    for c in classes:
        k = f"K{c['n']}"
        st = STORE[c["store"]].format(c["n"])
        lib.append(f"pub struct {k} {{ pub id: i64, pub pad: [i64; 4] }} impl Drop for {k} {{ fn drop(&mut self) {{ LOG.lock().unwrap().push(self.id); }} }}")
        body = [f"pub fn mk(id: i64) -> {st} {{ {NEW[c['store']].format(k + ' { id, pad: [id; 4] }')} }}"]
        g = [f"constructor {k}::mk(id: i64) -> {st};"]
        for m in c["methods"]:
            args = [f"a{j}: {rty(a, classes)}" for j, a in enumerate(m["args"])]
            ids = [(f"a{j}.map_or(-1, |x| x.id)" if a[0] == "opt" else f"a{j}.id", f"arg{j}") for j, a in enumerate(m["args"]) if isinstance(a, tuple) and a[0] != "val"]
            recv = {"inst": ["&self"], "mut": ["&mut self"]}.get(m["kind"], [])
            if recv:
                ids.append(("self.id", "self"))
            ret = m["ret"] and m["ret"].replace("K", k)
            mk = f"{k} {{ id: NEXT.fetch_add(1, Ordering::SeqCst), pad: [0; 4] }}"
            val = {None: "", "i32": "7", "String": '"s".to_string()', "K": mk, "Option<K>": f"Some({mk})", "Result<i32, String>": "Ok(3)", "Vec<i32>": "vec![1]", "bool": "true",
                   "Option<f64>": "None"}[m["ret"]]
            if m["kind"] == "ctor":
                ret, val = st, NEW[c["store"]].format(mk)
            r = f" -> {ret}" if ret else ""
            body.append(f"pub fn {m['name']}({', '.join(recv + args)}){r} {{ during(\"{m['name']}\", &[{', '.join(f'({a}, {chr(34)}{w}{chr(34)})' for a, w in ids)}]); {val} }}")
            g.append(("constructor " if m["kind"] == "ctor" else "fn ") + f"{k}::{m['name']}({', '.join(recv + args)}){r};")
        lib.append(f"impl {k} {{ " + "\n".join(body) + " }")
        glue.append(f"foreign_class!(class {k} {{ self_type {k}; " + "\n".join(g) + " });")
    lib.append('include!("glue.rs");\n}')
    return "\n".join(lib), "\n".join(glue)


def driver(classes, plan, receivers):
    """plan: per call (class, method, null positions)"""
    o = ["package drv; import org.vf.gen.*;", "public class Drv {", "static long next = 1; static Object keep;"]
    for k in classes:
        o.append(f"static K{k['n']} n{k['n']}() {{ return new K{k['n']}(next++); }}")
    calls = []
    for i, (c, m, nulls) in enumerate(plan):
        k = f"K{c['n']}"
        args = []
        for j, a in enumerate(m["args"]):
            if isinstance(a, tuple):
                args.append("null" if j in nulls else f"n{a[1]}()")
            else:
                args.append({"i32": "5", "String": '"x"', "f64": "1.5", "bool": "true", "u8": "(short) 9", "Option<i32>": "Integer.valueOf(3)"}[a])
        al = ", ".join(args)
        call = {"static": f"{k}.{m['name']}({al});", "ctor": f"keep = new {k}({al});"}.get(m["kind"])
        if call is None:
            call = f"n{c['n']}().{m['name']}({al});" if receivers else f"{k} r = n{c['n']}(); keep = r; r.{m['name']}({al});"
        o.append(f"static void c{i}() throws Exception {{ {call} }}")
        calls.append(f'c{i}(); b = Ctl.bad(); if (!b.isEmpty()) System.out.println("BAD {i} " + b);')
    o.append("public static void main(String[] x) throws Exception { System.load(System.getenv(\"VF_LIB\")); String b; Ctl.set(() -> { for (int i = 0; i < 2; i++) { System.gc(); System.runFinalization(); } });")
    o.append("for (int round = 0; round < 2; round++) {\n" + "\n".join(calls) + "\n}")
    o.append('Ctl.unset(); System.out.println("DONE"); } }')
    return "\n".join(o)


class Build:
    def __init__(self, classes, cfg):
        self.d = d = common.scratch("j06")
        lib, glue = emit(classes)
        self.glue = glue
        write(d + "/glue.rs.in", glue)
        write(d + "/lib.rs", lib)
        os.makedirs(d + "/gen")
        deps = java_deps()
        rc, e = fgen(d, lang="java", out=d + "/gen", name=PKG, src=d + "/glue.rs.in", dst=d + "/glue.rs", width="64", rustfmt="0", **cfg)
        self.err = None
        if rc:
            self.err = "the interface is refused: " + clean(e)
            return
        rc, o, e = run(RUSTC + ["--crate-type", "cdylib", "--crate-name", "glue", "-o", d + "/libglue.so", d + "/lib.rs", "--extern", f"log={deps}/liblog.rlib",
                                "--extern", f"vf_jni_h={deps}/libvf_jni_h.rlib"], timeout=400)
        if rc:
            if "No space" in e or "Killed" in e or rc < 0:
                raise Infra("rustc: " + e[-500:])
            self.err = "the Rust code does not compile: " + first_errors(e)
            return
        if cfg.get("null_annotation"):
            for n in ("NonNull", "Nullable"):
                write(f"{d}/gen/{n}.java", f"package {cfg['null_annotation']}; public @interface {n} {{}}\n")

    def exercise(self, classes, plan, receivers, c2):
        d = self.d
        write(d + "/Drv.java", driver(classes, plan, receivers))
        rc, o, e = run([common.JAVA_HOME + "/bin/javac", "-nowarn", "-J-XX:+UseSerialGC", "-J-XX:TieredStopAtLevel=1", "-proc:none", "-d", d + "/cls", d + "/Drv.java"] +
                       [os.path.join(t, f) for t, _, fs in os.walk(d + "/gen") for f in fs if f.endswith(".java")], timeout=300)
        if rc:
            return [], "the Java code does not compile: " + first_errors(e)
        rc, o, e = run([common.JAVA_HOME + "/bin/java", "-XX:+UseSerialGC", "-Xcomp", "-XX:CompileCommand=quiet", f"-XX:CompileCommand=compileonly,{PKG}.*::*", "-XX:CompileCommand=compileonly,drv.*::*",
                        "-XX:-BackgroundCompilation", "-XX:-TieredCompilation" if c2 else "-XX:TieredStopAtLevel=1", "-Xmx128m", "-XX:-CreateCoredumpOnCrash",
                        f"-XX:ErrorFile={d}/hs_err", "-cp", d + "/cls", "drv.Drv"], timeout=200, hang=True, cwd=d, VF_LIB=d + "/libglue.so")
        bad = re.findall(r"^BAD (\d+) (.*)$", o, re.M)
        if (rc != 0 or "DONE" not in o) and not bad:
            return [], f"the program ends with {rc}: {(o + e)[-400:]}"
        return [(int(i), w) for i, w in bad], None

    def close(self):
        common.rmtree(self.d)


def sig(c, m, classes):
    return f"{m['kind']} {m['name']}({', '.join(rty(a, classes) for a in m['args'])}) -> {m['ret']} of K{c['n']} ({c['store']})"


def case(ck, i):
    rng = common.rng("J06", i)
    classes, cfg = gen(rng)
    b = Build(classes, cfg)
    tag = f"interface {i} {cfg}"
    try:
        if b.err:
            return ck.violation("build", f"[{tag}] {b.err}", {"glue": b.glue, "cfg": cfg})
        plan = []
        for c in classes:
            for m in c["methods"]:
                plan.append((c, m, {j for j, a in enumerate(m["args"]) if isinstance(a, tuple) and a[0] == "opt" and rng.random() < 0.3}))
        bad, e = b.exercise(classes, plan, False, i % 2 == 0)
        if e:
            return ck.violation("run", f"[{tag}] {e}", {"glue": b.glue, "cfg": cfg})
        for c, m, nulls in plan:
            for j, a in enumerate(m["args"]):
                if isinstance(a, tuple):
                    ck.count((m["kind"], tuple(map(str, m["args"])), j, m["ret"], tuple(cfg.items())), j not in nulls,
                             {"configuration": cfg, "method": sig(c, m, classes), "object": f"argument {j}"} if i % 5 == 1 and j == 0 else None)
        for n, w in bad[:1]:
            c, m, nulls = plan[n]
            # alone
            bad2, e2 = b.exercise(classes, [plan[n]], False, i % 2 == 0)
            ck.violation("argument", f"[{tag}] {sig(c, m, classes)}: dropped while the call runs: {w}" + ("" if bad2 or e2 else " (only after other calls)"),
                         {"glue": b.glue, "cfg": cfg, "java": driver(classes, [plan[n]], False)})
        if bad or i % 4:
            return
        plan = [p for p in plan if p[1]["kind"] in ("inst", "mut")]
        if not plan:
            return
        bad, e = b.exercise(classes, plan, True, i % 8 == 0)
        for c, m, _ in plan:
            ck.count(("self", m["kind"], len(m["args"]), m["ret"], tuple(cfg.items())))
        if bad or e:
            n, w = bad[0] if bad else (0, e)
            c, m, _ = plan[n]
            key = "receiver" if all(x.split()[1] == "self" for _, ws in bad for x in ws.split(";") if x) else "argument"
            ck.violation(key, f"[{tag}] {sig(c, m, classes)}: the receiver is dropped while its method runs: {w}", {"glue": b.glue, "cfg": cfg, "java": driver(classes, plan, True)})
    finally:
        b.close()


def main():
    ck = common.Check("J06", RULE, ["OpenJDK 17, compiled code (-Xcomp for the generated classes and their callers), C1 and C2", "System.gc() and runFinalization() collect what the compiler considers dead"])
    common.build_fgen()
    java_deps()

    def job(i):
        if len(ck.violations) < 3 and not ck.over(700):
            case(ck, i)
    common.pool(job, range(600 if ck.thorough else 24))
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
