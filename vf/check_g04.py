"""G04: callbacks registered for attributes are called once for each use, in order, and what they do to the text ends up in the file."""
import re
from . import common, gens, surf

RULE = "a case is one use of an attribute on a class, method or enum of a generated interface; distinct by language, place, name and neighbours"

NAMES = ["Serialize", "my_attr", "x", "Ext2", "clone_it", "Debug"]


def interface(rng, lang):
    s = surf.gen(rng, lang)
    for it in s.items:
        it["split_attrs"] = rng.random() < 0.3
        if it["kind"] == "class":
            it["attrs"] = rng.sample(NAMES, rng.choice([0, 0, 1, 2, 3]))
            for m in it["members"]:
                m["attrs"] = rng.sample(NAMES, rng.choice([0, 0, 0, 1, 2]))
                if m["attrs"] and rng.random() < 0.2:
                    m["attrs"].append('key = "v w"')
        elif it["kind"] == "enum":
            it["attrs"] = rng.sample(NAMES, rng.choice([0, 1, 2]))
    return s


def strip(s):
    import copy
    t = copy.deepcopy(s)
    for it in t.items:
        it["attrs"] = []
        for m in it.get("members", ()):
            m["attrs"] = []
    return t


def foreign_name(it, m):
    n = m["alias"] or m["rname"]
    return n if m["alias"] or not it["camel"] else surf.camel(n)


def uses(s):
    """[(type, [expected lines of the log])]"""
    r = []
    for it in s.items:
        e = []
        if it["kind"] == "class":
            e += [f"class {a} {it['name']}" for a in it["attrs"]]
            for m in it["members"]:
                v = {"ctor": "ctor", "static": "static", "method": "method"}[m["kind"]]
                e += [f"method {a} {it['name']}.{foreign_name(it, m)} {v}" for a in m["attrs"]]
        elif it["kind"] == "enum":
            e += [f"enum {a} {it['name']}" for a in it["attrs"]]
        if e:
            r.append((it, e))
    return r


def case(ck, lang, i):
    rng = common.rng("G04", lang, i)
    s = interface(rng, lang)
    d = common.scratch("g04")
    glue = surf.emit(s)[1]
    name = f"{lang} interface {i}"

    def bad(key, what):
        ck.violation(f"{lang}:{key}", f"[{name}] {what}", {"lang": lang, "source": glue})
    try:
        us = uses(s)
        attrs = [f"{k} {n}" for k in ("class", "method", "enum") for n in NAMES] + ['method key = "v w"']
        rc, e = gens.generate(d, lang, [glue], attr=attrs, log=d + "/log")
        if rc:
            return bad("refused", "refused: " + gens.refused(rc, e))
        rc, e = gens.generate(d, lang, [surf.emit(strip(s))[1]], out="plain", dst="plain.rs", tag="p")
        if rc:
            return bad("refused", "without attributes: refused: " + gens.refused(rc, e))
        a, b = gens.tree(d + "/gen"), gens.tree(d + "/plain")
        log = [l.rsplit(" ", 1) for l in common.read(d + "/log").split("\n") if l]
        for it, e in us:
            for x in e:
                ck.count((lang, x, tuple(e)), True, {"language": lang, "calls": e} if i % 10 == 3 else None)
        # the C and the C++ file of an enum are two texts
        times = lambda it: 2 if it["kind"] == "enum" and lang == "cpp" else 1
        exp = [x for it, e in us for _ in range(times(it)) for x in e]
        if [x for x, _ in log] != exp:
            n = next((k for k, (x, y) in enumerate(zip([x for x, _ in log] + [None], exp + [None])) if x != y), 0)
            return bad("calls", f"call {n} is {log[n][0] if n < len(log) else None!r}, expected {exp[n] if n < len(exp) else None!r}; all calls: {[x for x, _ in log]}")
        if sorted(a) != sorted(b):
            return bad("files", f"attributes change the set of files: {sorted(set(a) ^ set(b))}")
        # files of a type: without attributes, followed by what the callbacks appended; length seen = what was there then
        seen = {}
        pos = 0
        for it, e in us:
            for _ in range(times(it)):
                seen.setdefault(it["name"], []).append([(x, int(n)) for x, n in log[pos:pos + len(e)]])
                pos += len(e)
        marked = set()
        for it, e in us:
            mark = "".join(f"\n// EXT {x}\n" for x in e).encode()
            fs = [f for f in a if a[f] == b[f] + mark]
            if len(fs) != times(it):
                return bad("text", f"the callbacks of {it['kind']} {it['name']} append {mark!r}; files with exactly that: {fs}; changed files: {[f for f in a if a[f] != b[f]]}")
            for f in fs:
                if f.rsplit(".", 1)[0] not in (it["name"], "c_" + it["name"]):
                    return bad("text", f"callbacks of {it['name']} changed {f}")
                marked.add(f)
            lens = sorted(n for g in seen[it["name"]] for x, n in g[:1])
            if lens != sorted(len(b[f]) for f in fs):
                return bad("text", f"callbacks of {it['name']} were given texts of {lens} bytes, the files have {[len(b[f]) for f in fs]}")
        rest = [f for f in a if f not in marked and a[f] != b[f]]
        if rest:
            return bad("text", f"attributes change {rest}")
        if common.read(d + "/glue.rs") != common.read(d + "/plain.rs"):
            return bad("text", "attributes change the Rust code: " + gens.first_diff(common.read(d + "/plain.rs"), common.read(d + "/glue.rs")))
        # an attribute nobody registered is an error, at its place
        if us:
            it, e = rng.choice(us)
            x = rng.choice(e)
            k, n = x.split(" ")[0], x.split(" ")[1] if "key" not in x else 'key = "v w"'
            it = next(u for u, f in us if any(y.startswith(f"{k} {n} ") for y in f))     # the first one to use it
            rc, err = gens.generate(d, lang, [glue], out="gen2", dst="g2.rs", tag="n", attr=[a for a in attrs if a != f"{k} {n}"])
            ck.count((lang, "unknown", x), True)
            if rc == 0 or n not in err or it["name"] not in err or "At " not in err:
                return bad("unknown", f"attribute {n!r} of a {k} is not registered, used by {it['name']}: " + ("accepted" if rc == 0 else gens.refused(rc, err)))
    finally:
        common.rmtree(d)


def main():
    ck = common.Check("G04", RULE, ["attributes are not offered for Python, and only for classes, methods and enums"])
    common.build_fgen()
    n = 60 if ck.thorough else 1
    js = [(lang, i) for rd in range(n) for lang, k in (("cpp", 70), ("java", 70)) for i in range(rd * k, rd * k + k)]

    def job(x):
        if len(ck.violations) < 3 and not ck.over(700):
            case(ck, *x)
    common.pool(job, js)
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
