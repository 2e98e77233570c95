"""Interface specifications, the reference model of their behaviour, and op histories."""
import json
import os
import random
from . import types as ty
from .types import enc, has_cls, SHARED


class Cls:
    def __init__(self, name, storage, pad=0, derives=(), lang=""):
        self.name, self.storage, self.pad, self.derives = name, storage, pad, list(derives)

    @property
    def shared(self):
        return self.storage in SHARED

    @property
    def tracked(self):
        return self.storage != "pod"

    @property
    def plainc(self):
        """C++: the class is no template, there is no reference type for it"""
        return "PlainClass" in self.derives

    @property
    def copyable(self):
        return "Copy" in self.derives or "SmartPtrCopy" in self.derives


class Meth:
    """recv: static | ref | mut | ctor | own (this: storage type by value)"""

    def __init__(self, idx, cls, recv, args, ret, name=None, argnames=None, style="assoc", alias=False):
        self.idx, self.cls, self.recv, self.args, self.ret = idx, cls, recv, list(args), ret
        self.name = name or f"m{idx}"
        self.argnames = argnames
        # assoc: K::m, free: free function, inline: body inside foreign_class
        self.style, self.alias = style, alias

    def names(self):
        return self.argnames or [f"a{i}" for i in range(len(self.args))]


# argument names that are also names of helper variables in generated code
ARG_NAMES = ["p0", "größe", "p1", "p2", "p", "x", "tmp", "v", "data", "ok", "err", "obj", "slice", "out", "len", "val", "first", "second",
             "a0", "a1", "a2", "lock", "s", "path", "vec", "arr", "e", "c", "i", "opt", "val_", "inner", "elem", "idx", "name"]


def name_args(spec, rng, pool=ARG_NAMES):
    for m in spec.methods:
        if rng.random() < 0.5:
            m.argnames = rng.sample(pool, len(m.args))
        m.style = rng.choice(["assoc", "assoc", "free", "inline"])
        m.alias = rng.random() < 0.3
        if m.style == "inline" and any(t[0] in ("str", "path", "slice", "mslice") or (t[0] == "cls" and t[2] != "val") for t in ty.walk(m.ret)):
            m.style = "free"   # the lifetime of the result would have to be spelled out
        if m.argnames is None and m.style != "inline" and rng.random() < 0.2:
            m.argnames = ["_"] * len(m.args)


class Spec:
    ext_only = False       # the driver calls methods only through extension operations

    def __init__(self, lang):
        self.lang, self.classes, self.enums, self.reprs, self.methods, self.cbs = lang, [], [], [], [], []
        self.cfg = {}
        self.mk_vecs = []      # element types for which the crate offers a Vec maker

    def cls(self, n):
        for c in self.classes:
            if c.name == n:
                return c
        raise KeyError(n)

    def finish(self):
        """Vec makers needed by the C++ driver."""
        s = []
        for m in self.methods:
            for T in m.args:
                for t in ty.walk(T):
                    e = None
                    if t[0] == "vec" or (t[0] in ("slice", "mslice") and t[1][0] == "cls"):
                        e = t[1]
                    if e is not None and e not in s:
                        s.append(e)
        self.mk_vecs = s
        return self

    def to_json(self):
        return {"lang": self.lang, "cfg": self.cfg, "enums": self.enums, "reprs": self.reprs,
                "classes": [[c.name, c.storage, c.pad, c.derives] for c in self.classes],
                "methods": [[m.idx, m.cls, m.recv, m.args, m.ret, m.name, m.argnames, m.style, m.alias] for m in self.methods],
                "mk_vecs": self.mk_vecs}

    @staticmethod
    def from_json(j):
        s = Spec(j["lang"])
        s.cfg = j["cfg"]
        s.enums = [tuple(e) for e in j["enums"]]
        s.reprs = [(n, tup(f)) for n, f in j["reprs"]]
        s.classes = [Cls(*c) for c in j["classes"]]
        s.methods = [Meth(i, c, r, [tup(a) for a in args], tup(ret), *n) for i, c, r, args, ret, *n in j["methods"]]
        s.mk_vecs = [tup(x) for x in j["mk_vecs"]]
        return s

    def renamed(self, rng, prob=0.3):
        """Sometimes some types get names that internal conversion rules use for their own parameters."""
        if rng.random() >= prob:
            return self
        pool = ["T", "T1", "T2", "T3", "E", "U", "A", "S", "F", "K", "V", "B"]
        rng.shuffle(pool)
        j = json.dumps(self.to_json())
        for n in [c.name for c in self.classes] + [e[0] for e in self.enums] + [r[0] for r in self.reprs]:
            if rng.random() < 0.6 and n != "Stat":
                j = j.replace(f'"{n}"', f'"{pool.pop()}"')
        return type(self).from_json(json.loads(j))

    def no_ctors(self, rng, prob=0.25):
        self.cfg["noctor"] = [c.name for c in self.classes if c.name not in self.cfg.get("newr", []) and rng.random() < prob]

    def rust_val(self, c):
        return ty.STORAGE_TYPE[self.cls(c).storage].format(c=c)


def tup(x):
    return tuple(tup(y) for y in x) if isinstance(x, (list, tuple)) else x


def jval(v):
    """Values to JSON and back (bytes and tuples need tags)."""
    if isinstance(v, bytes):
        return {"b": v.hex()}
    if isinstance(v, ty.Bad):
        return {"bad": v.kind}
    if isinstance(v, tuple):
        return {"t": [jval(x) for x in v]}
    if isinstance(v, list):
        return [jval(x) for x in v]
    if isinstance(v, dict):
        return {"d": {k: jval(x) for k, x in v.items()}}
    return v


def unjval(v):
    if isinstance(v, dict):
        if "b" in v:
            return bytes.fromhex(v["b"])
        if "bad" in v:
            return ty.Bad(v["bad"])
        if "t" in v:
            return tuple(unjval(x) for x in v["t"])
        return {k: unjval(x) for k, x in v["d"].items()}
    if isinstance(v, list):
        return [unjval(x) for x in v]
    return v


# ---------------------------------------------------------------- Rust side

def emit_rust(spec, rt_path):
    """(lib.rs, glue.rs.in)"""
    o = ["#![allow(warnings)]"] + (["#![recursion_limit = \"2048\"]"] if spec.lang == "python" else []) + [f'include!("{rt_path}");']
    if spec.lang == "java":
        d = os.path.dirname(rt_path)
        o += [f'include!("{d}/vf_alloc.rs");', "use vf_jni_h::*;", f'include!("{d}/vf_jni.rs");']
    if spec.lang == "python":
        d = os.path.dirname(rt_path)
        o += [f'include!("{d}/vf_alloc.rs");', f'include!("{d}/vf_py.rs");']
    o += [
         "use std::rc::Rc; use std::sync::{Arc, Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard}; use std::cell::{Ref, RefCell, RefMut}; use std::path::Path; use std::time::SystemTime;"]
    g = []
    for name, n in spec.enums:
        items = [f"{name}I{i}" for i in range(n)]
        o.append(f"#[derive(Clone, Copy, PartialEq, Debug)] pub enum {name} {{ {', '.join(rust_enum(spec, name, items))} }}")
        o.append("vf_enum!(%s: %s);" % (name, ", ".join(f"{it} = {i}" for i, it in enumerate(items))))
        if spec.lang == "python":
            o.append(f"vf_error_enum!({name});")
        g.append("foreign_enum!(enum %s { %s });" % (name, " ".join(f"{it} = {name}::{it}," for it in items)))
    for name, fields in spec.reprs:
        o.append("#[repr(C)] #[derive(Clone, Copy)] pub struct %s { %s }" % (
            name, ", ".join(f"pub f{i}: {t[1]}" for i, t in enumerate(fields))))
        o.append("impl vf::Enc for %s { fn enc(&self, o: &mut String) { o.push_str(\" T%d\"); %s } }" % (
            name, len(fields), " ".join(f"self.f{i}.enc(o);" for i in range(len(fields)))))
        o.append("impl vf::Dec for %s { fn dec(t: &mut vf::Toks) -> Self { t.next(); %s { %s } } }" % (
            name, name, ", ".join(f"f{i}: vf::Dec::dec(t)" for i in range(len(fields)))))
        o.append("impl vf::Mutate for %s { fn mutate(&mut self, t: &mut vf::Toks) { *self = vf::Dec::dec(t); } }" % name)
        g.append('foreign_typemap!(define_c_type!(module = "%s.h"; #[repr(C)] struct %s { %s }); (r_type) %s; (f_type) "%s";);' % (
            name.lower(), name, ", ".join(f"f{i}: {t[1]}" for i, t in enumerate(fields)), name, name))
    for m in spec.cfg.get("umaps", {}).values():
        o.append(m["rust"])
        if m["where"] == "first":
            g.append(m["glue"])
    for c in spec.classes:
        st = c.storage
        if st in ("plain", "clone", "pod"):
            o.append(f"vf_class!({c.name}, {c.pad}, {st});")
            ctor_ret, mk = c.name, f"{c.name}::mk(p)"
        elif st in ("box", "mutex"):
            o.append(f"vf_class!({c.name}, {c.pad}, {'clone' if 'Clone' in c.derives else 'plain'});")
            w = {"box": "Box", "mutex": "Mutex"}[st]
            ctor_ret, mk = f"{w}<{c.name}>", f"{w}::new({c.name}::mk(p))"
        else:
            ptr, weak, inner, wrap = {
                "rc": ("Rc", "std::rc::Weak<RefCell<{c}>>", "RefCell<{c}>", "RefCell::new"),
                "rcplain": ("Rc", "std::rc::Weak<{c}>", "{c}", "std::convert::identity"),
                "arc": ("Arc", "std::sync::Weak<{c}>", "{c}", "std::convert::identity"),
                "arcmutex": ("Arc", "std::sync::Weak<Mutex<{c}>>", "Mutex<{c}>", "Mutex::new"),
                "arcrw": ("Arc", "std::sync::Weak<RwLock<{c}>>", "RwLock<{c}>", "RwLock::new"),
            }[st]
            o.append(f"vf_class!({c.name}, {c.pad}, {'clone' if 'Clone' in c.derives else 'plain'});")
            o.append(f"vf_class!(@shared {c.name}, {ptr}, {weak.format(c=c.name)}, {inner.format(c=c.name)}, {wrap}, "
                     f"crate::vf::{ {'arcmutex': 'hold_mutex', 'arcrw': 'hold_rw'}.get(st, 'no_hold')});")
            ctor_ret, mk = spec.rust_val(c.name), f"{c.name}::share({c.name}::mk(p))"
        if spec.lang == "java" and "Copy" in c.derives and st not in ("clone", "pod"):
            raise ValueError(c.name)
        if c.name not in spec.cfg.get("newr", []):
            o.append(f"impl {c.name} {{ pub fn new(p: i32) -> {ctor_ret} {{ {mk} }} }}")
        else:
            # all constructors of a class have one type
            o.append(f"impl {c.name} {{ pub fn new(p: i32) -> Result<{ctor_ret}, String> {{ Ok({mk}) }} }}")
            o.append(f"impl {c.name} {{ pub fn try_new(p: i32, s: &str, fail: bool) -> Result<{ctor_ret}, String> {{ "
                     f"if fail {{ Err(s.to_string()) }} else {{ Ok({mk}) }} }} }}")
    mk_methods = []
    for t in spec.mk_vecs:
        fn = "mk_vec_" + t[1].lower()
        r = ty.rust(t, spec)
        o.append(f"pub fn {fn}() -> Vec<{r}> {{ vf::ret() }}")
        mk_methods.append(f"    fn {fn}() -> Vec<{r}>;")
    by_cls = {c.name: [] for c in spec.classes}
    by_cls["Stat"] = []
    for m in spec.methods:
        by_cls[m.cls].append(m)
    cbs = None
    if spec.cbs:
        cbs = spec.emit_cbs(None)
        o.append(cbs[0])
        if spec.cfg.get("cb_first"):
            g.append(cbs[1])
    frees = []
    order = spec.cfg.get("order") or [c.name for c in spec.classes] + ["Stat"]
    for cn in order:
        ms = by_cls[cn]
        decl = []
        body = []
        for m in ms:
            d, b = emit_method(spec, m)
            decl += d
            body += [x for x in b if not x.startswith("/*free*/")]
            frees += [x for x in b if x.startswith("/*free*/")]
        if cn == "Stat":
            if spec.cbs:
                _, glue, d, b = cbs
                if not spec.cfg.get("cb_first"):
                    g.append(glue)
                decl.append(d)
                body.append(b)
            o.append("pub struct Stat; impl Stat { %s }" % "\n".join(body))
            g.append("foreign_class!(class Stat {\n%s\n%s\n});" % ("\n".join(mk_methods), "\n".join(decl)))
            continue
        c = spec.cls(cn)
        o.append("impl %s { %s }" % (cn, "\n".join(body)))
        der = f"#[derive({', '.join(c.derives)})] " if c.derives else ""
        clone = [f"    fn {cn}::clone(&self) -> {cn};"] if "Copy" in c.derives else []
        ctor = f"constructor {cn}::new(p: i32) -> {spec.rust_val(cn)};"
        if cn in spec.cfg.get("newr", []):
            ctor = (f"constructor {cn}::new(p: i32) -> Result<{spec.rust_val(cn)}, String>;\n"
                    f"    constructor {cn}::try_new(p: i32, s: &str, fail: bool) -> Result<{spec.rust_val(cn)}, String>;")
        if cn in spec.cfg.get("noctor", []):
            # no constructor for the foreign side: objects come from functions
            ctor = "private constructor = empty%s;\n    fn %s::new(p: i32) -> %s; alias mk_obj;" % (
                "" if c.storage in ("plain", "clone", "pod") and c.pad % 2 else " -> " + spec.rust_val(cn), cn, spec.rust_val(cn))
        g.append("foreign_class!(%sclass %s {\n    self_type %s;\n    %s\n%s\n});" % (
            der, cn, cn, ctor,
            "\n".join(clone + [f"    fn {cn}::vid(&self) -> u64;", f"    fn {cn}::vpay(&self) -> i32;"] + decl)))
    o.append("pub mod vff { use super::*;\n%s\n}" % "\n".join(frees))
    g += [m["glue"] for m in spec.cfg.get("umaps", {}).values() if m["where"] == "second"]
    return "\n".join(o) + '\ninclude!("glue.rs");\n', "\n".join(g) + "\n"


def rust_enum(spec, name, items):
    """The Rust enum has its own order and its own discriminants; the foreign order is that of the foreign_enum!."""
    rng = random.Random(f"{name} {len(items)} {spec.lang} {[c.pad for c in spec.classes]}")
    k = rng.randrange(4)
    r = list(items)
    if k:
        rng.shuffle(r)
    if k < 2:
        return r
    lo, hi = (0, 2**31 - 1) if spec.lang == "python" else (-2**31, 2**31 - 1)
    if k == 2:
        lo, hi = 0, len(items) * 2
    return [f"{x} = {v}" for x, v in zip(r, rng.sample(range(lo, hi + 1), len(r)))]


def enum_values(spec, name, n):
    """Discriminants by index."""
    items = [f"{name}I{i}" for i in range(n)]
    d = {}
    for k, x in enumerate(rust_enum(spec, name, items)):
        x, _, v = x.partition(" = ")
        d[x] = int(v or k)
    return [d[x] for x in items]


def emit_method(spec, m):
    R = lambda t, s=False: ty.rust(t, spec, s)
    names = m.names()
    dargs = ", ".join(f"{n}: {R(t)}" for n, t in zip(names, m.args))
    args = ", ".join(f"a{i}: {R(t)}" for i, t in enumerate(m.args))
    selfarg = {"static": "", "ref": "&self", "mut": "&mut self"}[m.recv]
    full = ", ".join(x for x in (selfarg, args) if x)
    noret = m.ret[0] in ("unit", "fut", "cfn")
    ret = "" if noret else " -> " + R(m.ret)
    ret_s = "" if noret else " -> " + R(m.ret, True)
    ret_inside = m.ret
    hid = None
    if m.ret[0] in ("fut", "cfn"):
        # the result goes to a function the foreign side hands over
        ts = [R(t) for t in m.ret[1]]
        n = "vfcb" if "vfcb" not in names else "vfcb_"
        hid = (n, f"impl FnOnce({ts[0]})" if m.ret[0] == "fut" else 'Option<extern "C" fn(%s)>' % ts[0] if len(ts) == 1 else 'extern "C" fn(%s)' % ", ".join(ts))
        ret_inside = ("unit",)
        dargs = ", ".join(x for x in (dargs, f"{n}: {hid[1]}") if x)
        args = ", ".join(x for x in (args, f"vfcb: {hid[1]}") if x)
        full = ", ".join(x for x in (selfarg, args) if x)
    dfull = ", ".join(x for x in (selfarg, dargs) if x)
    names = names + ([hid[0]] if hid else [])
    pass_on = [f"a{i}" for i in range(len(m.args))] + (["vfcb"] if hid else [])
    rname = f"r{m.idx}" if m.alias or m.style != "assoc" else m.name
    free = f"free_{m.cls}_{rname}"
    if m.style == "assoc":
        decl = [f"    fn {m.cls}::{rname}({dfull}){ret};" + (f" alias {m.name};" if m.alias else "")]
        b = [f"pub fn {rname}({full}){ret_s} {{"]
    else:
        if m.style == "free":
            decl = [f"    fn vff::{free}({dfull}){ret}; alias {m.name};"]
        else:
            decl = [f"    fn {m.name}({dfull}){ret} {{ vff::{free}({', '.join((['this'] if m.recv != 'static' else []) + names)}) }}"]
        b = [f"pub fn {rname}({full}){ret_s} {{"]
        me = {"static": "", "ref": f"this: &{m.cls}", "mut": f"this: &mut {m.cls}"}[m.recv]
        call = f"{m.cls}::{rname}({', '.join((['this'] if m.recv != 'static' else []) + pass_on)})"
        b.insert(0, f"/*free*/ pub fn {free}({', '.join(x for x in (me, args) if x)}){ret_s} {{ {call} }}")
    b.append(f"  let mut c = vf::Call::new({m.idx});")
    if m.recv != "static":
        b.append("  let c = c.arg(&*self);")
    for i in range(len(m.args)):
        b.append(f"  let c = c.arg(&a{i});")
    b.append("  c.done();")
    if m.recv == "mut":
        b.append("  vf::mutate(self);")
    for i, t in enumerate(m.args):
        if is_mut(t):
            b.append(f"  vf::mutate(a{i});" if t[0] != "opt" else f"  if let Some(x) = a{i} {{ vf::mutate(x); }}")
    if hid:
        b.append("  let r: vf::Many = vf::ret(); " + " ".join(f"let x{i}: {R(t, True)} = vf::ret();" for i, t in enumerate(m.ret[1])))
        call = "(%s)(%s)" % ("vfcb" if m.ret[0] == "fut" or len(m.ret[1]) > 1 else "vfcb.unwrap()", ", ".join(f"x{i}" for i in range(len(m.ret[1]))))
        b.append("  " + call + ";")
    if ret_inside[0] != "unit":
        b.append("  vf::ret()")
    b.append("}")
    fr = [x for x in b if x.startswith("/*free*/")]
    return decl, ["\n".join(x for x in b if x not in fr)] + fr


def is_mut(T):
    return T[0] == "mslice" or (T[0] == "cls" and T[2] == "mut") or (T[0] == "opt" and T[1][0] == "cls" and T[1][2] == "mut")


# ---------------------------------------------------------------- model

class Expect:
    __slots__ = ("result", "calls", "live", "clones", "plan", "args")


class Model:
    """Reference model: objects, handles, ownership.  Objects are dicts; a handle label maps to an object or None."""

    def __init__(self, spec):
        self.spec = spec
        self.lang = spec.lang
        self.handles = {}
        self.next_id = 1
        self.kept = []
        self.nph = 0

    # -- helpers
    def new_obj(self, cls, payload, rid=None):
        c = self.spec.cls(cls)
        if rid is None:
            if c.tracked:
                rid = self.next_id
                self.next_id += 1
            else:
                rid = 0
        return {"cls": cls, "p": payload, "rid": rid}

    def live(self):
        s = {}
        for o in list(self.handles.values()) + self.kept:
            if o is not None and self.spec.cls(o["cls"]).tracked:
                s[id(o)] = o["rid"]
        return set(s.values())

    def labels(self, cls):
        return [l for l, o in self.handles.items() if o is not None and o["cls"] == cls]

    def oenc(self, o):
        return ["c%s:%d" % (o["rid"], o["p"])]

    def applicable(self, op):
        m = self.spec.methods[op["m"]]
        used = []
        muts = False
        if m.recv != "static":
            o = self.handles.get(op["self"])
            if o is None:
                return False
            used.append((op["self"], o, "mut" if m.recv == "mut" else "ref"))
        for t, v in zip(m.args, op["args"]):
            for ct, cv in ty.objs(t, v):
                if cv[0] != "h":
                    continue
                o = self.handles.get(cv[1])
                if o is None:
                    return False
                used.append((cv[1], o, self.use_kind(t, ct)))
        for t, v in [(m.ret, op["ret"])]:
            for ct, cv in ty.objs(t, v):
                if cv[0] == "r":
                    o = self.handles.get(cv[1])
                    if o is None:
                        return False
                    # the object must survive until the plan returns it
                    if any(l == cv[1] and k == "own" for l, _, k in used):
                        return False
        for i in range(len(used)):
            for j in range(i):
                (l1, o1, k1), (l2, o2, k2) = used[i], used[j]
                if l1 == l2 and "own" in (k1, k2):
                    return False
                if o1 is o2:
                    st = self.spec.cls(o1["cls"]).storage
                    if "mut" in (k1, k2) or st in ("arcmutex", "arcrw") or (self.lang == "python" and st not in ("arc", "box")):
                        return False
        return True

    def use_kind(self, t, ct):
        if ct[2] == "ref":
            return "ref"
        if ct[2] == "mut":
            return "mut"
        c = self.spec.cls(ct[1])
        if self.lang == "java":
            if t[0] == "opt":
                return "own"
            return "copy" if c.copyable or t[0] == "vec" else "own"
        if self.lang == "python":
            return "ref" if t[0] == "ref" or (t[0] == "opt" and t[1][0] == "ref") else "copy"
        if t[0] in ("slice", "mslice") and self.lang == "cpp":
            return "mut" if t[0] == "mslice" else "own"
        return "own"

    # -- operations; each returns an Expect or None when it does not apply
    def apply(self, op):
        f = getattr(self, "op_" + op["op"])
        return f(op)

    def expect(self, result, calls=(), clones=(), plan=(), args=()):
        e = Expect()
        e.result, e.calls, e.clones, e.plan, e.args = list(result), list(calls), list(clones), list(plan), list(args)
        e.live = self.live()
        return e

    def op_new(self, op):
        o = self.new_obj(op["cls"], op["p"])
        self.handles[op["dst"]] = o
        return self.expect(["u"])

    def op_newr(self, op):
        """Constructor returning Result."""
        if op["err"] is None:
            return self.op_new(op)
        return self.expect(["E"] + enc(("String",), op["err"], None))

    def op_alias(self, op):
        """A second reference to the same foreign object."""
        o = self.handles.get(op["h"])
        if o is None:
            return None
        self.handles[op["dst"]] = o
        return self.expect(["u"])

    def op_del(self, op):
        if op["h"] not in self.handles:
            return None
        del self.handles[op["h"]]
        return self.expect(["u"])

    def op_mv(self, op):
        o = self.handles.get(op["h"])
        if o is None:
            return None
        self.handles[op["dst"]] = o
        self.handles[op["h"]] = None
        return self.expect(self.oenc(o))

    def op_asg(self, op):
        if op["h"] == op["dst"] or op["dst"] not in self.handles:
            return None
        o = self.handles.get(op["h"])
        if o is None:
            return None
        self.handles[op["dst"]] = o
        self.handles[op["h"]] = None
        return self.expect(self.oenc(o))

    def copy_obj(self, o, clones, deep=False):
        c = self.spec.cls(o["cls"])
        if c.shared and not deep:
            return o
        self.nph += 1
        n = {"cls": o["cls"], "p": o["p"], "rid": 0 if c.storage == "pod" else "?%d" % self.nph}
        if c.tracked:
            clones.append((o["rid"], n["rid"]))
        return n

    def op_cpy(self, op):
        if op["h"] not in self.handles or op["dst"] in self.handles:
            return None
        o = self.handles[op["h"]]
        clones = []
        n = None if o is None else self.copy_obj(o, clones)
        self.handles[op["dst"]] = n
        return self.expect(["u"] if n is None else self.oenc(n), clones=clones)

    def op_casg(self, op):
        if op["h"] not in self.handles or op["dst"] not in self.handles:
            return None
        o = self.handles[op["h"]]
        clones = []
        if op["h"] != op["dst"]:
            self.handles[op["dst"]] = None if o is None else self.copy_obj(o, clones)
        n = self.handles[op["dst"]]
        return self.expect(["u"] if n is None else self.oenc(n), clones=clones)

    def op_swap(self, op):
        a, b = op["h"], op["dst"]
        if a == b or self.handles.get(a) is None or self.handles.get(b) is None:
            return None
        self.handles[a], self.handles[b] = self.handles[b], self.handles[a]
        return self.expect(self.oenc(self.handles[a]) + self.oenc(self.handles[b]))

    def op_look(self, op):
        """Read an object through every non-consuming view the language offers."""
        o = self.handles.get(op["h"])
        if o is None:
            return None
        return self.expect(self.oenc(o))

    op_rel = op_look

    def op_gc(self, op):
        """The foreign side forgets its references and the garbage collector runs."""
        hs = [h for h in op["hs"] if h in self.handles]
        for h in hs:
            del self.handles[h]
        n = len(self.live())
        return self.expect(["u"], args=["i%d" % n, "V%d" % len(hs)] + ["h%d" % h for h in hs])

    def op_purge(self, op):
        self.kept = []
        return self.expect(["u"])

    def op_bad(self, op):
        """A call that the foreign side has to refuse: Rust sees nothing of it."""
        m = self.spec.methods[op["m"]]
        drv = []
        if "self" in op and op["self"] not in self.handles:
            return None
        for t, v in zip(m.args, op["args"]):
            drv += enc(t, v, lambda ct, cv: ["h%d" % cv[1]])
        for tok in drv:
            if tok[0] == "h" and int(tok[1:]) not in self.handles or tok.startswith("!handle:") and int(tok[8:]) not in self.handles:
                return None
        return self.expect(["RAISED", op["exc"]], args=drv)

    def op_badnew(self, op):
        return self.expect(["RAISED", op["exc"]])

    def op_call(self, op):
        m = self.spec.methods[op["m"]]
        if not self.applicable(op):
            return None
        plan, mkplan, consumed, clones, muts = [], [], [], [], []
        call = ["M%d(" % m.idx]
        if m.recv != "static":
            so = self.handles[op["self"]]
            call += self.oenc(so)
        rb = []          # values read back after the call
        drv = []         # argument tokens of the driver

        def in_cls(t):
            def f(ct, cv):
                o = self.handles[cv[1]]
                k = self.use_kind(t, ct)
                if k == "own" or (t[0] == "mslice" and self.lang == "cpp"):
                    consumed.append(cv[1])
                elif k == "copy":
                    before = len(clones)
                    o2 = self.copy_obj(o, clones, ct[2] == "inner")
                    return self.oenc(o2)
                return self.oenc(o)
            return f

        for t, v in zip(m.args, op["args"]):
            call += enc(t, v, in_cls(t))
            drv += enc(t, v, lambda ct, cv: ["h%d" % cv[1]])
            if self.lang == "cpp":
                mkplan += vec_plan(t, v)
        call.append(")")
        # mutations
        it = iter(op.get("mut", []))
        if m.recv == "mut":
            nv = next(it)
            plan.append("i%d" % nv)
            muts.append((so, nv))
        for t, v in zip(m.args, op["args"]):
            if not is_mut(t) or v is None:
                continue
            nv = next(it)
            if t[0] == "mslice":
                et = t[1]
                if len(nv) != len(v):
                    return None
                for x in nv:
                    plan += ["i%d" % x] if et[0] == "cls" else enc(et, x, None)
                if et[0] == "cls":
                    for cv, x in zip(v, nv):
                        muts.append((self.handles[cv[1]], x))
                    rb.append(("cls", t, v))
                else:
                    rb.append(("val", t, nv))
            else:
                cv = v if t[0] == "cls" else v[0]
                plan.append("i%d" % nv)
                muts.append((self.handles[cv[1]], nv))
        for o, nv in muts:
            o["p"] = nv
        res = []
        # return value
        new_handles = []

        def plan_cls(ct, cv):
            if ct[0] == "err":
                return enc(("vec", ("String",)), cv, None)
            if ct[0] == "eerr":
                return ["e%d" % cv]
            c = self.spec.cls(ct[1])
            if cv[0] == "r":
                return ["r%s" % self.handles[cv[1]]["rid"]]
            return [("n%d" if c.shared and ct[2] == "val" else "i%d") % cv[1]]

        def res_cls(ct, cv):
            if ct[0] == "err":
                return enc(("String",), b"\nCaused by:\n".join(cv), None)
            if ct[0] == "eerr":
                return enc(("String",), b"%sI%d" % (ct[1].encode(), cv), None)
            if self.lang == "python" and (cv[0] == "k" or ct[2] == "ref"):
                # Python gets a copy of the borrowed object
                o = self.handles[cv[1]] if cv[0] == "r" else self.new_obj(ct[1], cv[1])
                self.kept.append(o)
                o2 = self.copy_obj(o, clones, not self.spec.cls(ct[1]).shared)
                new_handles.append((cv[2], o2))
                return self.oenc(o2)
            if cv[0] == "r":
                o = self.handles[cv[1]]
                new_handles.append((cv[2], o))
            else:
                o = self.new_obj(ct[1], cv[1])
                if ct[2] in ("val", "inner") and cv[2] is not None:
                    new_handles.append((cv[2], o))
                else:
                    self.kept.append(o)
            return self.oenc(o)

        if m.ret[0] != "unit":
            plan += enc(m.ret, op["ret"], plan_cls)
            res += enc(m.ret, op["ret"], res_cls)
        else:
            res += ["u"]
        for kind, t, v in rb:
            if kind == "val":
                res += enc(t, v, None)
            else:
                res += enc(t, v, lambda ct, cv: self.oenc(self.handles[cv[1]]))
        for l in consumed:
            self.handles[l] = None
            if self.lang == "cpp" and self.drop_consumed(l):
                del self.handles[l]
        for l, o in new_handles:
            self.handles[l] = o
        # another thread of Rust has the object's lock when the call begins
        held = [f"HOLD:{self.handles[op['hold']]['rid']}"] if self.handles.get(op.get("hold")) else []
        e = self.expect(res, [" ".join(call)], clones, held + mkplan + plan, drv)
        return e

    def drop_consumed(self, l):
        return False


def vec_plan(T, v):
    """Plan tokens of the Vec<prim> arguments, which only Rust can create."""
    k = T[0]
    if k == "vec":
        if not has_cls(T):
            return enc(T, v, None)
        return []
    if k == "opt":
        return vec_plan(T[1], v[0]) if v is not None else []
    if k == "res":
        return vec_plan(T[1] if v[0] == "O" else T[2], v[1])
    if k == "tup":
        return [x for t, y in zip(T[1], v) for x in vec_plan(t, y)]
    return []
