"""Generates code for a declared surface, has it read back, and compares."""
import os
from . import common, surf
from .common import Infra, fgen, read, run, write
from .rig import RUSTC, clean, first_errors, java_deps, python_deps

NS = {"cpp": "org_n", "java": "org.vf.gen", "python": "surfmod"}


def files(d):
    r = {}
    for top, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(top, f)
            r[os.path.relpath(p, d)] = read(p)
    return r


def once(s, with_docs, rust=True):
    """(key, message) of the first disagreement, or None."""
    d = common.scratch("surf")
    try:
        return once_in(d, s, with_docs, rust)
    finally:
        common.rmtree(d)


def once_in(d, s, with_docs, rust):
    lib, glue = surf.emit(s)
    write(d + "/lib.rs", lib)
    write(d + "/glue.rs.in", glue)
    os.makedirs(d + "/gen", exist_ok=True)
    job = dict(lang=s.lang, name=NS[s.lang], src=d + "/glue.rs.in", dst=d + "/glue.rs", width="64")
    if s.lang != "python":
        job["out"] = d + "/gen"
        job["rustfmt"] = "0"
    rc, err = fgen(d, **job)
    if rc != 0:
        return "refused", f"the interface is refused: {clean(err)}"
    if s.lang == "cpp":
        got, e = surf.cpp_surface(d + "/gen", NS["cpp"])
    elif s.lang == "java":
        got, e = surf.java_surface(d + "/gen", NS["java"])
    else:
        got, e = None, None
    if e:
        return "foreign", f"the {s.lang} code is not valid: {e}"
    if rust or s.lang == "python":
        extra = ["--emit=metadata"]
        if s.lang == "java":
            deps = java_deps()
            extra += ["--extern", f"log={deps}/liblog.rlib", "--extern", f"vf_jni_h={deps}/libvf_jni_h.rlib"]
        if s.lang == "python":
            dep = python_deps()
            extra = ["--extern", "cpython=" + dep, "-L", "dependency=" + os.path.dirname(dep)]
        out = d + f"/{NS['python']}.so" if s.lang == "python" else d + "/x.rmeta"
        rc, o, e = run(RUSTC + ["--crate-type", "cdylib", "--crate-name", NS["python"] if s.lang == "python" else "glue", "-o", out, d + "/lib.rs"] + extra, timeout=300)
        if rc != 0:
            if "No space" in e or "Killed" in e or rc < 0:
                raise Infra("rustc: " + e[-600:])
            return "rustc", "the Rust code does not compile: " + first_errors(e)
    if s.lang == "python":
        got, e = surf.py_surface(d, NS["python"])
        if e:
            return "foreign", f"the module can not be imported: {e}"
    m = surf.diff(s, surf.expected(s), got, with_docs)
    if m:
        return "surface", m
    return c_enums(s, d) or code_blocks(s, d, got)


def c_enums(s, d):
    """C++: the C header of an enum has the same values."""
    es = [it for it in s.items if it["kind"] == "enum"]
    if s.lang != "cpp" or not es:
        return None
    t = "".join(f'#include "c_{e["name"]}.h"\n' for e in es)
    for e in es:
        t += f"C{e['name']} v_{e['name']};\n" + "".join(f"_Static_assert({e['name']}_{x['name']} == {i}, \"value\");\n" for i, x in enumerate(e["items"]))
    write(d + "/e.c", t)
    rc, o, e = run(["gcc", "-std=c11", "-fsyntax-only", "-I", d + "/gen", d + "/e.c"])
    return ("c enum", "the C header of an enum: " + first_errors(e)) if rc else None


def code_blocks(s, d, got):
    """foreign_code arrives verbatim, once, in the file of its class."""
    if s.lang == "python":
        return None
    fs = files(d + "/gen")
    for it in s.items:
        if it["kind"] != "class":
            continue
        for c in it["code"]:
            where = [f for f, t in fs.items() if c in t]
            own = [f for f in where if os.path.basename(f).rsplit(".", 1)[0] == it["name"]]
            n = sum(t.count(c) for t in fs.values())
            if not own or n != it["code"].count(c):
                return "code", f"foreign_code {c!r} of {it['name']} occurs {n} times, in {where}"
    return None


def shrink(s, fails, secs=60):
    import copy
    import time
    end = time.time() + secs
    again = True
    while again and time.time() < end:
        again = False
        for path in list(edits(s)):
            if time.time() > end:
                break
            t = copy.deepcopy(s)
            try:
                apply(t, path)
                ok = fails(t)
            except (IndexError, KeyError, Infra):
                continue
            if ok:
                s, again = t, True
                break
    return s


def edits(s):
    for i in range(len(s.items)):
        yield ("item", i)
    for i, it in enumerate(s.items):
        for j in range(len(it.get("members", ()))):
            yield ("member", i, j)
        for k in ("code", "docs"):
            if it.get(k):
                yield ("clear", i, k)
        for j, m in enumerate(it.get("members", it.get("items", []))):
            for k in range(len(m.get("args", ()))):
                yield ("arg", i, j, k)
            for k in range(len(m.get("docs", ()))):
                yield ("doc", i, j, k)


def apply(s, p):
    it = s.items[p[1]]
    if p[0] == "item":
        n = it["name"]
        if any(a[1][2:] == n for o in s.items for m in o.get("members", ()) for a in m["args"]) or any((m["ret"] or "")[2:] == n for o in s.items for m in o.get("members", ())):
            raise KeyError
        del s.items[p[1]]
    elif p[0] == "member":
        if len(it["members"]) == 1 or (it["kind"] == "class" and it["members"][p[2]]["kind"] == "ctor" and sum(m["kind"] == "ctor" for m in it["members"]) == 1):
            raise KeyError
        del it["members"][p[2]]
    elif p[0] == "clear":
        it[p[2]] = []
    elif p[0] == "arg":
        m = it["members"][p[2]]
        if m.get("kind") == "ctor":
            raise KeyError
        del m["args"][p[3]]
    elif p[0] == "doc":
        del it.get("members", it.get("items"))[p[2]]["docs"][p[3]]


def explore(ck, lang, i, tag, weird=(), with_docs=False, filt=None, rust=True):
    s = surf.gen(common.rng(tag, lang, i), lang, weird)
    if filt:
        filt(s)
    bad = once(s, with_docs, rust)
    n = 0
    for it in s.items:
        for m in it.get("members", it.get("items", ())):
            n += 1
            nt = bool(m.get("docs")) if with_docs else bool(m.get("args") or m.get("ret") or m.get("alias") or it["kind"] == "enum")
            ck.count((lang, it["kind"], m.get("kind"), tuple(m.get("docs", ())) if with_docs else (m.get("access"), m.get("style"), str(m.get("args")), m.get("ret"), m.get("alias"), it.get("camel"))), nt,
                     {"language": lang, "item": f"{it['kind']} {it['name']}", "member": {k: v for k, v in m.items() if v}} if nt and i % 3 == 0 and n % 5 == 2 else None)
    if bad is None:
        return True
    kind = bad[0]

    def fails(t):
        r = once(t, with_docs, rust)
        return r is not None and r[0] == kind
    s = shrink(s, fails)
    bad = once(s, with_docs, rust) or bad
    lib, glue = surf.emit(s)
    ck.violation(f"{lang}:{bad[0]}", f"[{lang} interface {i}] {bad[1]}\n{glue}", {"kind": "surface", "lang": lang, "glue": glue, "lib": lib})
    return False
