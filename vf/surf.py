"""Declared surface of an interface and the surface of the generated code, as the foreign language's own tools see it."""
import json
import os
import re
from . import common
from .common import run, write, read, Infra, fgen

TYPES = {  # rust: (C++ argument, C++ result, Java)
    "i8": ("int8_t", "int8_t", "byte"), "u8": ("uint8_t", "uint8_t", "short"), "i16": ("int16_t", "int16_t", "short"),
    "u16": ("uint16_t", "uint16_t", "int"), "i32": ("int32_t", "int32_t", "int"), "u32": ("uint32_t", "uint32_t", "long"),
    "i64": ("int64_t", "int64_t", "long"), "u64": ("uint64_t", "uint64_t", "long"), "f32": ("float", "float", "float"),
    "f64": ("double", "double", "double"), "bool": ("bool", "bool", "boolean"), "String": ("std::string_view", "RustString", "String"),
    "&str": ("std::string_view", "std::string_view", "String"),
}
ARGN = ["a", "x", "first_arg", "Nm", "idx", "i", "val", "data_2", "longArgumentName", "n0", "_u", "out", "p", "tmp1", "len", "o", "ret", "self_", "obj"]
WORDS = ["foo", "bar", "run", "it", "get", "x", "value", "of", "http2", "a1", "set", "item", "very", "lng", "name", "z9", "by"]
DOCS = ["plain text", "two  spaces inside", "tail \\o/ x", "a \"quoted\" word", "it's", "x < y && y > z", "# Heading", "* bullet", "- item", "@param x the x", "`code` {json: [1]}",
        "http://e.org/?a=1&b=%20", "ünï日本𝄞 text", "100% {} {0} $x ${y} #[z]", "<b>bold</b>", "semi; colon, (paren)", "// slashes // inside", "tab\there", "very " + "long " * 40 + "line",
        "ends with \\ inside", "\\brief x", "a|b^c~d", "???", "0", "'", "`", "\"\"\"", "r#\"raw\"#", "$crate", "?? /", "&nbsp;", "{@link Foo}"]


WEIRD = ["ends with backslash \\", "\\", "two \\\\", "block a\nblock b", "block\n\n  indented { x }\n last;", "*/ int x; /*", "a */ b", "/* open", "*/", "C:\\users\\x", "\\u0041 \\uXYZ", "\\\\u0041",
         "//", "/", "what??/", "#[doc = \"x\"]", "tail //\\", "block with */ end\nand { more", "*", "**/", "block\\\nblock2\\\n", "}", "\\n", "/**", "\"\\"]


def camel(name):
    w = name.split("_")
    return w[0] + "".join(x[0].upper() + x[1:] for x in w[1:])


class Surface:
    """lang, items: dicts (see gen)"""

    def __init__(self, lang, items):
        self.lang, self.items = lang, items


def gen(rng, lang, weird=()):
    used = set()

    def fresh(pool):
        while True:
            n = pool()
            if n.lower() not in used:
                used.add(n.lower())
                return n
    title = lambda: "".join(x.title() for x in rng.sample(WORDS, rng.choice([1, 2, 3]))) + rng.choice(["", "", "2", "_t", "X"])

    def docs(p=0.5):
        if rng.random() > p:
            return []
        n = rng.choice([1, 1, 2, 3, 5])
        r = []
        for _ in range(n):
            r.append(rng.choice(list(weird)) if weird and rng.random() < 0.5 else rng.choice(DOCS) if rng.random() < 0.8 else " ".join(rng.sample(WORDS, 4)))
        if n > 2 and rng.random() < 0.3:
            r[1] = ""
        return r
    items = []
    enums, classes = [], []
    ne, nc, ncb = rng.choice([0, 1, 2]), rng.choice([1, 2, 3]), 0 if lang == "python" else rng.choice([0, 1, 2])
    for en in range(ne):
        name = fresh(title)
        its = []
        for i in range(rng.choice([1, 2, 3, 9])):
            its.append({"name": rng.choice(["ITEM%d", "Item%d", "i_%d", "X%d_Y"]) % (i + 10 * en), "docs": docs(0.4), "path": rng.random() < 0.5})
        order = list(range(len(its)))
        rng.shuffle(order)
        items.append({"kind": "enum", "name": name, "docs": docs(), "items": its, "order": order})
        enums.append(name)

    def args(n=None):
        k = rng.choice([0, 0, 1, 1, 2, 3, 5]) if n is None else n
        names = rng.sample(ARGN, k)
        r = []
        for nm in names:
            t = rng.choice(list(TYPES)) if rng.random() < 0.8 else None
            if t is None:
                c = rng.choice(["E:" + e for e in enums] + ["C:" + c for c in classes] + ["i32"])
                t = c
            r.append([nm if rng.random() < 0.9 else "_", t])
        # no two kinds of strings in one interface of C++
        return [[n, "&str" if t == "String" else t] for n, t in r]

    def ret():
        return rng.choice([None, None] + [t for t in TYPES if t != "&str"] + ["E:" + e for e in enums])
    for _ in range(nc):
        name = fresh(title)
        has_self = rng.random() < 0.8
        c = {"kind": "class", "name": name, "docs": docs(), "camel": rng.random() < 0.4, "self": has_self, "empty": False, "members": [], "code": [], "alias_self": rng.random() < 0.4,
             "old": rng.random() < 0.2}
        ctors = 0
        if has_self:
            c["empty"] = rng.random() < 0.25
            ctors = 0 if c["empty"] else 1 if lang == "python" else rng.choice([1, 1, 2, 3])
        ntot = rng.choice([1, 3, 5, 8])
        kinds = ["ctor"] * ctors + [rng.choice(["method", "static"] if has_self else ["static"]) for _ in range(ntot)]
        rng.shuffle(kinds)
        snake = lambda: "_".join(rng.sample(WORDS, rng.choice([1, 2, 3])))
        mused = set()
        seen_ctor = set()
        for kd in kinds:
            while True:
                n = snake()
                if n not in mused and camel(n) not in mused and n not in ("self",):
                    break
            mused |= {n, camel(n)}
            m = {"kind": kd, "rname": n, "access": rng.choice(["public", "public", "public", "private", "protected"]) if lang != "python" else "public",
                 "args": args(), "ret": ret(), "docs": docs(), "alias": None, "style": "assoc", "old": rng.random() < 0.15, "mut": rng.random() < 0.4}
            if kd == "ctor":
                # overloads of constructors have to differ
                for _ in range(20):
                    key = tuple(jt(t) for _, t in m["args"])
                    if key not in seen_ctor and not (lang != "python" and key in [("long",), ("boolean",)]):
                        break
                    m["args"] = args()
                else:
                    continue
                seen_ctor.add(key)
                m["ret"] = None
            else:
                if kd == "static" or not m["mut"]:
                    m["style"] = rng.choice(["assoc", "assoc", "free", "inline"])
                if m["style"] == "inline":
                    m["args"] = [[f"b{i}" if a == "_" else a, t] for i, (a, t) in enumerate(m["args"])]
                elif rng.random() < 0.3:
                    while True:
                        al = rng.choice([camel(snake()) + "It", snake() + "_al", "Do" + camel(snake())])
                        if al not in mused:
                            break
                    mused.add(al)
                    m["alias"] = al
            c["members"].append(m)
        if has_self and not c["empty"] and not any(m["kind"] == "ctor" for m in c["members"]):
            continue
        if lang != "python":
            for i in range(rng.choice([0, 0, 1, 2])):
                c["code"].append(rng.choice(["/* raw %s %d \\n {} */ int code_%d_%s;", "int code_%d_%s /* %s %d \"q\" 'c' */;"]).replace("%s", name, 1).replace("%d", str(i), 1)
                                 .replace("%d", str(i)).replace("%s", name))
        items.append(c)
        if has_self:
            classes.append(name)
    for _ in range(ncb):
        name = fresh(title)
        ms = []
        for i in range(rng.choice([1, 2, 4])):
            ms.append({"name": rng.choice(["on%dEvent", "on_%d", "Do%d", "x%d_y"]) % i, "rname": f"ev{i}", "args": [[n, "i32" if t[1:2] == ":" else t] for n, t in args()],
                       "ret": rng.choice([None, None, "i32", "bool", "f64", "u8"]), "docs": docs(), "mut": rng.random() < 0.3})
        items.append({"kind": "cb", "name": name, "docs": docs(), "members": ms, "sync": rng.choice(["", "", " + Send", " + Sync + Send"]), "old": rng.random() < 0.3})
    return Surface(lang, items)


def jt(t):
    return TYPES[t][2] if t in TYPES else t[2:]


def rtype(t):
    return "&" + "R" + t[2:] if t[:2] == "C:" else "R" + t[2:] if t[:2] == "E:" else t


def doc(ds, ind):
    r = ""
    for d in ds:
        if "\n" not in d and not (len(d) % 5 == 4 and "/*" not in d and "*/" not in d):
            r += f"{ind}///{' ' if d else ''}{d}\n"
        elif "*/" in d or "/*" in d or len(d) % 2:
            r += f"{ind}#[doc = {json.dumps(d, ensure_ascii=False)}]\n"
        else:
            r += f"{ind}/** {d} */\n"
    return r


def emit(s):
    """(lib.rs, glue.rs.in)"""
    lib, glue = emit_items(s)
    return lib, "\n".join(glue) + "\n"


def emit_items(s):
    lib, glue = emit_r(s)
    for it in s.items:      # an enum has the same name on both sides
        if it["kind"] == "enum":
            fix = lambda x: re.sub(r"\bR%s\b" % it["name"], it["name"], x)
            lib, glue = fix(lib), [fix(x) for x in glue]
    return lib, glue


def derives(it, camel=False):
    d = (["camelCaseAliases"] if camel else []) + it.get("attrs", [])
    if it.get("split_attrs"):
        return "".join(f"  #[derive({x})]\n" for x in d)
    return f"  #[derive({', '.join(d)})]\n" if d else ""


def emit_r(s):
    o, g = ["#![allow(warnings)]"] + (["use vf_jni_h::*;"] if s.lang == "java" else []), []
    frees = []
    for it in s.items:
        n = it["name"]
        if it["kind"] == "enum":
            its = it["items"]
            o.append("#[derive(Clone, Copy)] pub enum R%s { %s }" % (n, ", ".join("V%d" % i for i in range(len(its)))))
            g.append("foreign_enum!(\n%s%senum %s {\n%s});" % (doc(it["docs"], "  "), derives(it), n, "".join(
                "%s    %s = R%s::V%d,\n" % (doc(x["docs"], "    "), x["name"], n, it["order"][i]) for i, x in enumerate(its))))
        elif it["kind"] == "class":
            b, d = [], []
            if it["self"]:
                o.append(f"pub struct R{n};")
                d.append(f"    self_type R{n};")
            if it["empty"]:
                d.append("    private constructor = empty;")
            for i, m in enumerate(it["members"]):
                at = ", ".join(f"{a}: {rtype(t)}" for a, t in m["args"])
                rt = f" -> R{n}" if m["kind"] == "ctor" else "" if m["ret"] is None else " -> " + rtype(m["ret"])
                slf = ("&mut self" if m["mut"] and m["style"] == "assoc" else "&self") if m["kind"] == "method" else ""
                full = ", ".join(x for x in (slf, at) if x)
                bat = ", ".join(f"q{j}: {rtype(t)}" for j, (a, t) in enumerate(m["args"]))
                acc = "" if m["access"] == "public" else m["access"] + " "
                kw = {"ctor": "constructor", "method": "fn", "static": "fn"}[m["kind"]]
                if m["old"] and m["kind"] != "ctor":
                    kw = {"method": "method", "static": "static_method"}[m["kind"]]
                d.append(doc(m["docs"], "    ") + "".join(f"    #[{a}]\n" for a in m.get("attrs", ())) + "    ")
                head = f"{acc}{kw}"
                al = f" alias {m['alias']};" if m["alias"] else ""
                owner = f"R{n}" if it["self"] else f"St{n}"
                if m["style"] == "inline":
                    d[-1] += f"{head} {m['rname']}({full}){rt} {{ unimplemented!() }}"
                elif m["style"] == "free":
                    me = f"this: &R{n}" if m["kind"] == "method" else ""
                    frees.append(f"pub mod m{n} {{ use super::*; pub fn {m['rname']}({', '.join(x for x in (me, bat) if x)}){rt} {{ unimplemented!() }} }}".replace(f"pub mod m{n} ", f"pub mod m{n}{i} "))
                    d[-1] += f"{head} m{n}{i}::{m['rname']}({full}){rt};{al}"
                else:
                    b.append(f"pub fn {m['rname']}({', '.join(x for x in (slf, bat) if x)}){rt} {{ unimplemented!() }}")
                    d[-1] += f"{head} {owner}::{m['rname']}({full}){rt};{al}"
            if not it["self"]:
                o.append(f"pub struct St{n};")
            o.append("impl %s%s { %s }" % ("R" if it["self"] else "St", n, " ".join(b)))
            for k, code in enumerate(it["code"]):
                d.insert((k * 7) % (len(d) + 1), f"    {'foreigner_code' if it['old'] else 'foreign_code'} r##\"{code}\"##;")
            g.append("%s!(\n%s%sclass %s {\n%s\n});" % ("foreigner_class" if it["old"] else "foreign_class", doc(it["docs"], "  "),
                                                    derives(it, it["camel"]) + "  ", n, "\n".join(d)))
        else:
            g.append("%s!(\n%s  %s %s {\n    self_type T%s%s;\n%s});" % (
                "foreign_interface" if it["old"] else "foreign_callback", doc(it["docs"], "  "), "interface" if it["old"] else "callback", n, n, it["sync"],
                "".join("%s    %s = T%s::%s(&%sself%s)%s;\n" % (doc(m["docs"], "    "), m["name"], n, m["rname"], "mut " if m["mut"] else "", "".join(f", {a}: {rtype(t)}" for a, t in m["args"]),
                                                             "" if m["ret"] is None else " -> " + m["ret"]) for m in it["members"])))
            o.append("pub trait T%s { %s }" % (n, " ".join(
                "fn %s(&%sself%s)%s;" % (m["rname"], "mut " if m["mut"] else "", "".join(f", q{j}: {rtype(t)}" for j, (a, t) in enumerate(m["args"])), "" if m["ret"] is None else " -> " + m["ret"])
                for m in it["members"])))
    return "\n".join(o + frees) + '\ninclude!("glue.rs");\n', g


# ---------------------------------------------------------------- expectation

def norm_docs(ds):
    ds = [x.strip() for d in ds for x in d.replace("&#47;", "/").replace("&#92;", "\\").split("\n")]
    while ds and not ds[-1]:
        ds.pop()
    while ds and not ds[0]:
        ds.pop(0)
    return ds


def argnames(args):
    names = {a for a, _ in args}
    r = []
    for i, (a, _) in enumerate(args):
        if a == "_":
            a = f"a{i}"
            while a in names:      # "a" itself may be taken
                a = None
                break
        r.append(a)
    return r


def expected(s):
    """{(type kind, type name): {"docs", "members": {key: docs}}}; key = (kind, access, static, const, name, args, ret)"""
    L = s.lang
    col = {"cpp": 0, "java": 2}.get(L)
    rcol = {"cpp": 1, "java": 2}.get(L)
    r = {}

    def at(t, c):
        if L == "python":
            return ""
        return TYPES[t][c] if t in TYPES else t[2:]

    def args(m):
        return tuple((at(t, col), a) for (_, t), a in zip(m["args"], argnames(m["args"])))
    for it in s.items:
        if it["kind"] == "enum":
            # position in the declaration is the value (Python: the Rust value)
            mem = {("item", "", "", "", x["name"], (), str(i if L != "python" else it["order"][i])): x["docs"] if L != "python" else [] for i, x in enumerate(it["items"])}
            r["enum", it["name"]] = {"docs": it["docs"], "members": mem}
        elif it["kind"] == "class":
            mem = {}
            for m in it["members"]:
                name = m["alias"] or (camel(m["rname"]) if it["camel"] else m["rname"])
                static = "static" if m["kind"] == "static" else ""
                const = "const" if L == "cpp" and m["kind"] == "method" and not (m["mut"] and m["style"] == "assoc") else ""
                if m["kind"] == "ctor":
                    if L == "python":
                        continue
                    mem["ctor", m["access"], "", "", "", args(m), ""] = m["docs"]
                    continue
                ret = "" if L == "python" else "void" if m["ret"] is None else at(m["ret"], rcol)
                mem["method", m["access"], static, const, name, args(m) if L != "python" else (), ret] = m["docs"]
            if it["empty"] and L != "python":
                mem["ctor", "private", "", "", "", (), ""] = []
            docs = it["docs"]
            if L == "python":       # there a constructor has no comment of its own
                docs = docs + [""] + next((m["docs"] for m in it["members"] if m["kind"] == "ctor"), [])
            r["class", it["name"]] = {"docs": docs, "members": mem}
        else:
            mem = {}
            for m in it["members"]:
                const = "const" if L == "cpp" and not m["mut"] else ""
                # arguments go out of Rust: what results are for classes
                a = tuple((at(t, rcol), n) for (_, t), n in zip(m["args"], argnames(m["args"])))
                ret = "void" if m["ret"] is None else at(m["ret"], col)
                mem["method", "public", "", const, m["name"], a, ret] = m["docs"]
            r["cb", it["name"]] = {"docs": it["docs"], "members": mem}
    return r


# ---------------------------------------------------------------- extraction

def clean_type(t, ns):
    t = t.replace(ns + "::", "").replace("class ", "").replace("struct ", "").replace("enum ", "")
    t = t.replace("const ", "").replace("&", "").strip()
    return t


CPP_OWN = {"operator=", "release", "as_rref", "as_cref", "free_mem", "swap", "operator bool", "empty"}


def cpp_surface(d, ns):
    hs = sorted(h for h in os.listdir(d) if h.endswith(".hpp") and not h.startswith("rust_") and not h.endswith("_fwd.hpp"))
    tu = d + "/all__.cpp"
    write(tu, "".join(f'#include "{h}"\n' for h in hs))
    rc, out, err = run(["clang++", "-std=c++17", "-fsyntax-only", "-I", d, "-Xclang", "-ast-dump=json", "-Xclang", f"-ast-dump-filter={ns}::", tu], timeout=200)
    os.unlink(tu)
    if rc != 0:
        return None, "\n".join(l for l in err.splitlines() if "error" in l)[:1500] or err[:800]
    dec = json.JSONDecoder()
    i = 0
    r = {}
    cur = {"file": ""}
    texts = {}

    def text(f):
        if f not in texts:
            texts[f] = read(f).encode()
        return texts[f]

    def docs_at(f, off):
        b = text(f)
        lines = b[:b.rfind(b"\n", 0, off) + 1].decode().split("\n")[:-1]
        ds = []
        k = len(lines) - 1
        # a template header stands between the comment and a class
        while k >= 0 and lines[k].strip().startswith("template"):
            k -= 1
        while k >= 0 and lines[k].strip().startswith("//"):
            ds.insert(0, lines[k].strip()[2:])
            k -= 1
        return norm_docs(ds)

    def track(node):
        """Files are printed only when they change: follow the order of printing."""
        for k in ("loc", "range"):
            v = node.get(k)
            if not v:
                continue
            for p in ([v] if k == "loc" else [v.get("begin"), v.get("end")]):
                for q in (p, (p or {}).get("spellingLoc"), (p or {}).get("expansionLoc")):
                    if q and "file" in q:
                        cur["file"] = q["file"]

    def walk_all(node):
        track(node)
        if "loc" in node:
            node["__f"] = cur["file"]
        for x in node.get("inner", ()):
            if isinstance(x, dict):
                walk_all(x)

    def params(n):
        return tuple((clean_type(p["type"]["qualType"], ns), p.get("name", "")) for p in n.get("inner", ()) if p.get("kind") == "ParmVarDecl")

    def members(rec, own, acc):
        mem = {}
        ctor_names = {rec.get("name")}
        for n in rec.get("inner", ()):
            k = n.get("kind")
            if k == "AccessSpecDecl":
                acc = n["access"]
            elif k in ("CXXMethodDecl", "CXXConstructorDecl") and not n.get("isImplicit"):
                ps = params(n)
                dd = docs_at(n["__f"], n["range"]["begin"]["offset"])
                q = n["type"]["qualType"]
                if k == "CXXConstructorDecl":
                    if n.get("explicitlyDeleted") or any(("Wrapper" in t or "SelfType" in t or own in t) and not nm for t, nm in ps) or any(t.endswith("SelfType") or "Wrapper<" in t or t == rec.get("name") + " &&" for t, _ in ps):
                        continue
                    if len(ps) == 1 and (ps[0][0] in ("SelfType",) or "&&" in q):
                        continue
                    mem["ctor", acc, "", "", "", ps, ""] = dd
                    continue
                if n["name"] in CPP_OWN or n["name"].startswith("operator"):
                    continue
                const = "const" if re.search(r"\)\s*const", q) else ""
                mem["method", acc, "static" if n.get("storageClass") == "static" else "", const, n["name"], ps, clean_type(q[:q.index("(")], ns)] = dd
            elif k == "FieldDecl":
                mem["field", acc, "", "", n.get("name", ""), (), ""] = []
        return mem
    tops = []
    while i < len(out):
        while i < len(out) and out[i] != "{":
            i = out.find("{", i)
            if i < 0:
                break
        if i < 0 or i >= len(out):
            break
        node, i = dec.raw_decode(out, i)
        walk_all(node)
        tops.append(node)
    for n in tops:
        k = n.get("kind")
        if k == "EnumDecl" and n.get("name"):
            mem = {}
            v = -1
            for x in n.get("inner", ()):
                if x.get("kind") != "EnumConstantDecl":
                    continue
                val = find_value(x)
                v = v + 1 if val is None else int(val)
                mem["item", "", "", "", x["name"], (), str(v)] = docs_at(x["__f"], x["range"]["begin"]["offset"])
            r["enum", n["name"]] = {"docs": docs_at(n["__f"], n["range"]["begin"]["offset"]), "members": mem}
        elif k == "ClassTemplateDecl":
            for x in n.get("inner", ()):
                if x.get("kind") == "CXXRecordDecl" and x.get("completeDefinition") and x.get("name", "").endswith("Wrapper"):
                    own = x["name"][:-len("Wrapper")]
                    r["class", own] = {"docs": docs_at(n["__f"], n["range"]["begin"]["offset"]), "members": members(x, own, "private"), "file": n["__f"]}
        elif k == "CXXRecordDecl" and n.get("completeDefinition") and n.get("name") and not n["name"].endswith("Wrapper"):
            nm = n["name"]
            ms = members(n, nm, "private" if n.get("tagUsed") == "class" else "public")
            if any(x.get("pure") for x in n.get("inner", ())):
                ms = {m: dd for m, dd in ms.items() if any(x.get("name") == m[4] and x.get("virtual") for x in n["inner"])}
                r["cb", nm] = {"docs": docs_at(n["__f"], n["range"]["begin"]["offset"]), "members": ms, "file": n["__f"]}
            elif not nm.startswith(("Rust", "CRust", "C_")):
                r["class", nm] = {"docs": docs_at(n["__f"], n["range"]["begin"]["offset"]), "members": ms, "file": n["__f"]}
    return r, None


def find_value(n):
    for x in n.get("inner", ()):
        if "value" in x:
            return x["value"]
        v = find_value(x)
        if v is not None:
            return v
    return None


_surf = {}


def java_tool():
    with common.LOCK:
        if "java" not in _surf:
            d = common.scratch("surfj")
            rc, o, e = run([common.JAVA_HOME + "/bin/javac", "-d", d, os.path.join(os.path.dirname(__file__), "rt", "Surf.java")], timeout=200)
            if rc != 0:
                raise Infra("javac Surf: " + e[-800:])
            _surf["java"] = d
    return _surf["java"]


def unesc(s):
    if s == "-":
        return []
    s = re.sub(r"\\(.)", lambda m: {"n": "\n", "t": "\t", "r": "\r"}.get(m.group(1), m.group(1)), s[1:])
    return norm_docs(s.split("\n"))


def java_surface(d, package):
    t = java_tool()
    o = d + "/surf.out"
    rc, _, err = run([common.JAVA_HOME + "/bin/java", "-XX:TieredStopAtLevel=1", "-cp", t, "Surf", o, d], timeout=200)
    if rc != 0:
        raise Infra("Surf: " + err[-800:])
    r = {}
    cur = None
    for line in read(o).split("\n")[:-1]:
        f = line.split("\t")
        if f[0] == "ERROR":
            return None, " ".join(unesc(f[1]))
        if f[0] == "TYPE":
            kind = {"CLASS": "class", "ENUM": "enum", "INTERFACE": "cb"}[f[2]]
            cur = None
            if f[4] == "public" or not (f[3] in ("InternalPointerMarker", "JNIReachabilityFence")):
                cur = r["class" if f[4] != "public" and kind == "class" else kind, f[3]] = {"docs": unesc(f[5]), "members": {}, "kind": kind, "access": f[4], "package": f[1]}
        elif cur is None:
            continue
        elif f[0] == "METHOD":
            _, acc, st, name, ret, args, throws, docs = f
            ps = tuple((a.rsplit(" ", 1)[0], a.rsplit(" ", 1)[1]) for a in args.split(";") if a)
            if cur["kind"] == "enum" or acc == "package":
                continue
            if acc == "private" and (name == "init" or name.startswith("do_") and st == "static" and (name[3:] in cur.setdefault("names", set()) or name == "do_delete")):
                continue
            if name in ("delete", "finalize") and not ps:
                continue
            if name == "<init>":
                cur["members"]["ctor", acc, "", "", "", ps, ""] = unesc(docs)
            else:
                cur["members"]["method", acc, st, "", name, ps, ret] = unesc(docs)
                cur.setdefault("names", set()).add(name)
        elif f[0] == "FIELD":
            if f[-1] == "item":
                n = sum(m[0] == "item" for m in cur["members"])
                cur["members"]["item", "", "", "", f[2], (), str(n)] = unesc(f[4])
            elif cur["kind"] == "class" and f[2] not in ("mNativeObj",):
                cur["members"]["field", f[1], "", "", f[2], (), ""] = []
    return r, None


PY = r'''
import sys, json, importlib
sys.path.insert(0, sys.argv[1])
m = importlib.import_module(sys.argv[2])
r = []
for n, c in vars(m).items():
    if not isinstance(c, type) or n == "Error":
        continue
    mem = []
    for k, v in c.__dict__.items():
        if k.startswith("__") and k != "__repr__":
            continue
        if callable(v) or isinstance(v, staticmethod):
            f = getattr(c, k)
            mem.append(["method", "static" if isinstance(v, staticmethod) or type(v).__name__ in ("staticmethod", "builtin_function_or_method") else "", k, getattr(f, "__doc__", None)])
        else:
            mem.append(["item", "", k, v])
    r.append([n, c.__dict__.get("__doc__"), mem])
print(json.dumps(r))
'''


def py_surface(d, module):
    write(d + "/surf__.py", PY)
    rc, out, err = run(["python3", d + "/surf__.py", d, module], timeout=100)
    if rc != 0:
        return None, err[-800:]
    r = {}
    for n, dc, mem in json.loads(out):
        items = all(m[0] == "item" for m in mem) and mem
        ms = {}
        for k, st, name, x in mem:
            if k == "item":
                ms["item", "", "", "", name, (), str(x)] = []
            else:
                ms["method", "public", st, "", name, (), ""] = norm_docs((x or "").split("\n"))
        r["enum" if items else "class", n] = {"docs": norm_docs((dc or "").split("\n")), "members": ms}
    return r, None


def diff(s, exp, got, with_docs):
    """First difference, or None."""
    for key, e in exp.items():
        if key not in got:
            return f"{key[0]} {key[1]} is missing; there are {sorted(got)}"
        g = got[key]
        gm = {k: v for k, v in g["members"].items() if k[0] != "field"}
        em = {}
        for k, v in e["members"].items():
            em[k] = v
        # a name for "_" that collides is chosen freely
        loose = lambda k: k[:5] + (tuple((t, n) for t, n in k[5]),) + k[6:]
        for k in em:
            if k not in gm:
                alt = [x for x in gm if x[:5] == k[:5] and x[6] == k[6] and len(x[5]) == len(k[5]) and all(a[0] == b[0] and b[1] in (None, a[1]) for a, b in zip(x[5], k[5]))]
                if not alt:
                    return f"{key[0]} {key[1]}: no {show(k)}; there are: {'; '.join(show(x) for x in gm if x[4] == k[4] or x[0] == k[0])[:700]}"
                gm[k] = gm.pop(alt[0])
        for k in gm:
            if k not in em and not implicit(s, key, k):
                return f"{key[0]} {key[1]}: {show(k)} was not declared"
        if with_docs:
            if not same_docs(e["docs"], g["docs"]):
                return f"{key[0]} {key[1]}: comment is {g['docs']} instead of {norm_docs(e['docs'])}"
            for k, v in em.items():
                if not same_docs(v, gm[k]):
                    return f"{key[0]} {key[1]}, {show(k)}: comment is {gm[k]} instead of {norm_docs(v)}"
    for key in got:
        if key not in exp:
            return f"{key[0]} {key[1]} was not declared"
    return None


def same_docs(exp, got):
    """A line that ends in what C++ reads as a continuation may be closed by punctuation."""
    exp = norm_docs(exp)
    return len(exp) == len(got) and all(
        a == b or (a.endswith(("\\", "??/")) and b.startswith(a) and len(b) <= len(a) + 4 and not re.search(r"\w", b[len(a):])) for a, b in zip(exp, got))


def implicit(s, key, k):
    it = next(x for x in s.items if x["name"] == key[1])
    if k[0] == "ctor" and not k[5] and it["kind"] == "class" and not it["self"]:
        return True                 # nobody can create objects of a class of functions
    return k[1] == "private" and k[0] == "ctor"


def show(k):
    kind, acc, st, const, name, args, ret = k
    return " ".join(x for x in (acc, st, ret, kind if kind != "method" else "", name + "(" + ", ".join(f"{t} {n}" for t, n in args) + ")", const) if x)
