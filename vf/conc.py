"""Interfaces with objects shared between threads: generation, Rust side, plans (C++ and Java)."""
import json
from . import common

PRIM = ["i32", "i64", "u8", "f64", "bool"]
STR = ["", "a", "größe", "x" * 70, "日本語 text", "line\nbreak", "\u00e9\u00df", "0123456789"]
RETS = [None, "i64", "i32", "bool", "String", "Option<i64>", "Result<i64, String>", "P0", "f64", "tick"]
NOBJ = 3       # shared objects per class
NP = 3         # private objects per thread
MASK = (1 << 64) - 1


def s64(x):
    x &= MASK
    return x - (1 << 64) if x >> 63 else x


def fold(acc, x):
    return s64(acc * 31 + x)


def hs(s):
    b = s.encode()
    return len(b) * 1009 + sum(b)


def gen(rng, lang):
    """An interface: classes behind Arc<Mutex<>>, one behind Arc<>, a plain one and a callback."""
    nm = rng.choice([1, 2, 2, 3])
    f = {"lang": lang, "ms": [{"copy": rng.random() < 0.4} for _ in range(nm)], "meths": [], "cfg": {}}
    if lang == "java":
        if rng.random() < 0.4:
            f["cfg"]["null_annotation"] = "org.ann"
        f["cfg"]["fence"] = rng.choice(["std", "8"])
    else:
        f["cfg"]["separate_impl_headers"] = rng.choice([None, "1"])
    n = 0
    for cls in [f"M{i}" for i in range(nm)] * 3 + ["A0", "P0", "P0"]:
        n += 1
        kind = rng.choice(["ref", "mut", "static"] if cls[0] == "M" else ["ref", "static"] if cls[0] == "A" else ["ref", "mut"])
        args, locks = [], {}
        # C++ class headers include each other: only in one direction
        low = 99 if lang == "java" else {"P": 0, "A": 1}.get(cls[0], 2 + int(cls[1]))
        if cls[0] == "M" and kind != "static":
            locks[cls] = 1
        for _ in range(rng.choice([0, 1, 2, 2, 3, 4, 5])):
            r = rng.random()
            if r < 0.3:
                a = (rng.choice(PRIM + ["Option<i32>"]),)
            elif r < 0.45:
                a = (rng.choice(["String", "&str"]),)
            elif r < 0.62 or low == 0:
                a = ("P", rng.choice(["val", "ref", "mut"]))
            elif r < 0.72 or low == 1:
                a = ("A", rng.choice(["ref", "arc"]))
            else:
                k = rng.randrange(min(nm, low - 1))
                if locks.get(f"M{k}", 0) >= 2:
                    continue
                locks[f"M{k}"] = locks.get(f"M{k}", 0) + 1
                a = ("M", rng.choice(["ref", "mut", "mut", "arc"]), k)
            args.append(a)
        ret = rng.choice(RETS)
        if ret == "tick" and (cls[0] != "M" or kind == "static"):
            ret = "i64"
        f["meths"].append({"n": n, "cls": cls, "kind": kind, "args": args, "ret": ret, "name": rng.choice([f"m{n}", f"run_{n}", f"callIt{n}"]), "w": rng.choice([0, 1, 1, 2, 5])})
    return f


def rty(a):
    if a[0] == "P":
        return {"val": "P0", "ref": "&P0", "mut": "&mut P0"}[a[1]]
    if a[0] == "A":
        return {"ref": "&A0", "arc": "Arc<A0>"}[a[1]]
    if a[0] == "M":
        return {"ref": "&M{}", "mut": "&mut M{}", "arc": "Arc<Mutex<M{}>>"}[a[1]].format(a[2])
    return a[0]


def rret(m):
    return {None: "", "tick": " -> i64"}.get(m["ret"], f" -> {m['ret']}")


def sig(m):
    recv = {"ref": ["&self"], "mut": ["&mut self"]}.get(m["kind"], [])
    return f"{m['cls']}::{m['name']}({', '.join(recv + [f'a{j}: {rty(a)}' for j, a in enumerate(m['args'])] + ['d: i64'])}){rret(m)}"


def locks(m):
    """Objects of Arc<Mutex<>> classes a call locks (the stub locks those given by Arc)."""
    return (m["cls"][0] == "M" and m["kind"] != "static") + sum(a[0] == "M" for a in m["args"])


def emit(f):
    """(lib.rs, glue.rs.in)"""
    java = f["lang"] == "java"
    o = ["#![allow(warnings)]", "mod api {"] if java else ["#![allow(warnings)]"]
    if java:
        o.append("use vf_jni_h::*;")
    o.append("use std::{cell::Cell, rc::Rc, cell::{RefCell, Ref, RefMut}, sync::{Arc, Weak, Mutex, MutexGuard, atomic::{AtomicI64, AtomicBool, AtomicU64, Ordering::SeqCst}}, thread::JoinHandle};")
    o.append("""
static BAD: Mutex<String> = Mutex::new(String::new());
fn bad(s: String) { let mut b = BAD.lock().unwrap(); if b.len() < 2000 { b.push_str(&s); b.push_str("; "); } }
fn fold(acc: i64, x: i64) -> i64 { acc.wrapping_mul(31).wrapping_add(x) }
fn hs(s: &str) -> i64 { s.len() as i64 * 1009 + s.bytes().map(|b| b as i64).sum::<i64>() }
fn pause(n: u32) { for _ in 0..n { std::thread::yield_now(); } }
static THREADS: Mutex<Vec<JoinHandle<()>>> = Mutex::new(Vec::new());
static INSIDE: AtomicI64 = AtomicI64::new(0); static TOGETHER: AtomicI64 = AtomicI64::new(0);
struct Inside; impl Inside { fn new() -> Inside { if INSIDE.fetch_add(1, SeqCst) > 0 { TOGETHER.fetch_add(1, SeqCst); } Inside } } impl Drop for Inside { fn drop(&mut self) { INSIDE.fetch_sub(1, SeqCst); } }
""")
    g = ["use vf_jni_h::*;"] if java else []
    # the plain class
    o.append("""
static LIVE_P: AtomicI64 = AtomicI64::new(0); const MAGIC: u64 = 0x5eed_beef_1234_5678;
pub struct P0 { v: i64, magic: u64 } impl P0 { pub fn new(v: i64) -> P0 { LIVE_P.fetch_add(1, SeqCst); P0 { v, magic: MAGIC } } fn chk(&self) { if self.magic != MAGIC { bad("private object damaged".into()) } } pub fn get(&self) -> i64 { self.chk(); self.v } %P0% }
impl Drop for P0 { fn drop(&mut self) { self.chk(); self.magic = 0; LIVE_P.fetch_sub(1, SeqCst); } }
static LIVE_A: AtomicI64 = AtomicI64::new(0);
pub struct A0 { v: AtomicI64, magic: AtomicU64 } impl A0 { pub fn new(v: i64) -> Arc<A0> { LIVE_A.fetch_add(1, SeqCst); Arc::new(A0 { v: AtomicI64::new(v), magic: AtomicU64::new(MAGIC) }) } fn chk(&self) { if self.magic.load(SeqCst) != MAGIC { bad("shared object damaged".into()) } }
pub fn add(&self, d: i64) { self.chk(); self.v.fetch_add(d, SeqCst); } pub fn sum(&self) -> i64 { self.chk(); self.v.load(SeqCst) } %A0% }
impl Drop for A0 { fn drop(&mut self) { self.chk(); self.magic.store(0, SeqCst); LIVE_A.fetch_sub(1, SeqCst); } }
pub trait Tr { fn on(&self, x: i64) -> i64; fn note(&self, s: &str, k: i32); }
static CBS: [Mutex<Option<Box<dyn Tr + Send>>>; 4] = [Mutex::new(None), Mutex::new(None), Mutex::new(None), Mutex::new(None)]; static FIRED: AtomicI64 = AtomicI64::new(0);
fn fire(i: i32, x: i64) -> i64 { let g = CBS[i as usize].lock().unwrap(); match g.as_ref() { None => -1, Some(c) => { FIRED.fetch_add(1, SeqCst); if x % 4 == 0 { let k = x % 1000; c.note(["", "tick", "größe"][k as usize % 3], k as i32); } c.on(x) } } }
""".replace("%P0%", " ".join(body(m) for m in f["meths"] if m["cls"] == "P0")).replace("%A0%", " ".join(body(m) for m in f["meths"] if m["cls"] == "A0")))
    decl = lambda c: "".join(f" fn {sig(m)};" for m in f["meths"] if m["cls"] == c)
    g.append("foreign_class!(class P0 { self_type P0; constructor P0::new(v: i64) -> P0; fn P0::get(&self) -> i64;%s });" % decl("P0"))
    g.append("foreign_class!(%sclass A0 { self_type A0; constructor A0::new(v: i64) -> Arc<A0>; fn A0::add(&self, d: i64); fn A0::sum(&self) -> i64;%s });" %
             ("" if java else "#[derive(SmartPtrCopy)] ", decl("A0")))
    ctl, cg, live, clear, make = [], [], ["LIVE_P.load(SeqCst)", "LIVE_A.load(SeqCst)"], [], []
    for k, mc in enumerate(f["ms"]):
        M = f"M{k}"
        o.append(f"""
static LIVE_{M}: AtomicI64 = AtomicI64::new(0); static REG_{M}: Mutex<Vec<Weak<Mutex<{M}>>>> = Mutex::new(Vec::new()); static SH_{M}: Mutex<Vec<Arc<Mutex<{M}>>>> = Mutex::new(Vec::new());
pub struct {M} {{ id: usize, x: Cell<i64>, y: Cell<i64>, n: Cell<i64>, busy: AtomicBool, magic: u64 }}
impl {M} {{
pub fn new(v: i64) -> Arc<Mutex<{M}>> {{ LIVE_{M}.fetch_add(1, SeqCst); let mut r = REG_{M}.lock().unwrap(); let a = Arc::new(Mutex::new({M} {{ id: r.len(), x: Cell::new(v), y: Cell::new(v), n: Cell::new(0), busy: AtomicBool::new(false), magic: MAGIC }})); r.push(Arc::downgrade(&a)); a }}
fn held(&self, what: &str) {{ let w = REG_{M}.lock().unwrap()[self.id].clone(); let p: &Mutex<{M}> = match w.upgrade() {{ Some(a) => unsafe {{ std::mem::transmute::<&Mutex<{M}>, &Mutex<{M}>>(&*Arc::as_ptr(&a)) }}, None => {{ bad(format!("{{}}: object of {M} already dropped", what)); return }} }}; if p.try_lock().is_ok() {{ bad(format!("{{}}: object of {M} is not locked", what)) }} }}
fn enter(&self, d: i64, what: &str) {{ if self.magic != MAGIC {{ bad(format!("{{}}: object of {M} damaged", what)) }} if self.busy.swap(true, SeqCst) {{ bad(format!("{{}}: object of {M} is in use by another call", what)) }} if self.x.get() != self.y.get() {{ bad(format!("{{}}: half done change of {M} seen", what)) }} self.x.set(self.x.get().wrapping_add(d)); }}
fn leave(&self, d: i64, what: &str) {{ self.y.set(self.y.get().wrapping_add(d)); self.n.set(self.n.get() + 1); if !self.busy.swap(false, SeqCst) {{ bad(format!("{{}}: object of {M} was in use by another call", what)) }} }}
pub fn bump(&mut self, d: i64) {{ let _i = Inside::new(); self.enter(d, "bump"); self.held("bump"); pause(2); self.leave(d, "bump"); }}
pub fn tick(&mut self) -> i64 {{ let _i = Inside::new(); self.enter(1, "tick"); let n = self.n.get(); pause(1); self.leave(1, "tick"); n }}
pub fn sum(&self) -> i64 {{ if self.x.get() != self.y.get() {{ bad("sum: half done change of {M} seen".into()) }} self.x.get() }}
pub fn count(&self) -> i64 {{ self.n.get() }}
{" ".join(body(m) for m in f["meths"] if m["cls"] == M)}
}}
impl Drop for {M} {{ fn drop(&mut self) {{ if self.magic != MAGIC {{ bad("object of {M} dropped twice".into()) }} if *self.busy.get_mut() {{ bad("object of {M} dropped during a call".into()) }} self.magic = 0; LIVE_{M}.fetch_sub(1, SeqCst); }} }}""")
        g.append("foreign_class!(%sclass %s { self_type %s; constructor %s::new(v: i64) -> Arc<Mutex<%s>>; fn %s::bump(&mut self, d: i64); fn %s::tick(&mut self) -> i64; fn %s::sum(&self) -> i64; fn %s::count(&self) -> i64;%s });" %
                 (("#[derive(SmartPtrCopy)] " if mc["copy"] else "",) + (M,) * 8 + (decl(M),)))
        ctl.append(f"pub fn get_m{k}(i: i32) -> Arc<Mutex<{M}>> {{ SH_{M}.lock().unwrap()[i as usize].clone() }} "
                   f"pub fn bg_m{k}(m: Arc<Mutex<{M}>>, d: i64, n: i32) {{ let h = std::thread::spawn(move || {{ for _ in 0..n {{ m.lock().unwrap().bump(d); }} }}); THREADS.lock().unwrap().push(h); }}")
        cg.append(f"fn Ctl::get_m{k}(i: i32) -> Arc<Mutex<{M}>>; fn Ctl::bg_m{k}(m: Arc<Mutex<{M}>>, d: i64, n: i32);")
        live.append(f"LIVE_{M}.load(SeqCst)")
        make.append(f"for _ in 0..{NOBJ} {{ let a = {M}::new(0); SH_{M}.lock().unwrap().push(a); }}")
        clear.append(f"SH_{M}.lock().unwrap().clear();")
    o.append(f"""
static SH_A0: Mutex<Vec<Arc<A0>>> = Mutex::new(Vec::new());
pub struct Ctl; impl Ctl {{ {" ".join(ctl)}
pub fn get_a0(i: i32) -> Arc<A0> {{ SH_A0.lock().unwrap()[i as usize].clone() }}
pub fn bg_a0(a: Arc<A0>, d: i64, n: i32) {{ let h = std::thread::spawn(move || {{ for _ in 0..n {{ a.add(d); pause(1); }} }}); THREADS.lock().unwrap().push(h); }}
pub fn make() {{ {" ".join(make)} for _ in 0..{NOBJ} {{ let a = A0::new(0); SH_A0.lock().unwrap().push(a); }} }}
pub fn clear() {{ {" ".join(clear)} SH_A0.lock().unwrap().clear(); }}
pub fn live() -> i64 {{ {" + ".join(live)} }}
pub fn bad() -> String {{ std::mem::take(&mut *BAD.lock().unwrap()) }}
pub fn join() {{ let v = std::mem::take(&mut *THREADS.lock().unwrap()); for h in v {{ if h.join().is_err() {{ bad("a thread panicked".into()) }} }} }}
pub fn together() -> i64 {{ TOGETHER.load(SeqCst) }}
pub fn set_cb(i: i32, c: Box<dyn Tr + Send>) {{ let old = CBS[i as usize].lock().unwrap().replace(c); drop(old); }}
pub fn set_cb_bg(i: i32, c: Box<dyn Tr + Send>) {{ std::thread::spawn(move || {{ let old = CBS[i as usize].lock().unwrap().replace(c); drop(old); }}).join().unwrap() }}
pub fn clear_cb(i: i32) {{ let old = CBS[i as usize].lock().unwrap().take(); drop(old); }}
pub fn fire(i: i32, x: i64) -> i64 {{ fire(i, x) }}
pub fn fire_bg(i: i32, x: i64) -> i64 {{ std::thread::spawn(move || fire(i, x)).join().unwrap() }}
pub fn storm(i: i32, x: i64, n: i32) {{ let h = std::thread::spawn(move || {{ for k in 0..n as i64 {{ let r = fire(i, x + k); if r != -1 && r != (x + k) * 3 + 1 {{ bad("wrong result of a callback".into()) }} }} }}); THREADS.lock().unwrap().push(h); }}
pub fn fired() -> i64 {{ FIRED.load(SeqCst) }}
}}
include!("glue.rs");""")
    if java:
        o.append("}")
    g.append("foreign_callback!(callback Cb { self_type Tr + Send; on = Tr::on(&self, x: i64) -> i64; note = Tr::note(&self, s: &str, k: i32); });")
    cb = "Box<dyn Tr + Send>"
    g.append(f"foreign_class!(class Ctl {{ {' '.join(cg)} fn Ctl::get_a0(i: i32) -> Arc<A0>; fn Ctl::bg_a0(a: Arc<A0>, d: i64, n: i32); fn Ctl::make(); fn Ctl::clear(); fn Ctl::live() -> i64; fn Ctl::bad() -> String; fn Ctl::join(); "
             f"fn Ctl::together() -> i64; fn Ctl::set_cb(i: i32, c: {cb}); fn Ctl::set_cb_bg(i: i32, c: {cb}); fn Ctl::clear_cb(i: i32); fn Ctl::fire(i: i32, x: i64) -> i64; fn Ctl::fire_bg(i: i32, x: i64) -> i64; "
             "fn Ctl::storm(i: i32, x: i64, n: i32); fn Ctl::fired() -> i64; });")
    return "\n".join(o), "\n".join(g)


def body(m):
    w = f'"{m["cls"]}::{m["name"]}"'
    b, en, le, lk = [f"let _i = Inside::new(); let mut acc: i64 = {m['n']};"], [], [], []
    obj = []
    if m["cls"][0] == "M" and m["kind"] != "static":
        obj.append("self")
    elif m["cls"] == "P0":
        b.append("acc = fold(acc, self.get());" + (" self.v = self.v.wrapping_add(d);" if m["kind"] == "mut" else ""))
    elif m["cls"] == "A0" and m["kind"] != "static":
        b.append("self.add(d);")
    for j, a in enumerate(m["args"]):
        x = f"a{j}"
        if a[0] == "P":
            b.append(f"acc = fold(acc, {x}.get());" + (f" {x}.v = {x}.v.wrapping_add(d);" if a[1] == "mut" else ""))
        elif a[0] == "A":
            b.append(f"{x}.add(d);")
        elif a[0] == "M":
            if a[1] == "arc":
                lk.append(f"let g{j} = {x}.lock().unwrap();")
                obj.append(f"g{j}")
            else:
                obj.append(x)
        elif a[0] in ("String", "&str"):
            b.append(f"acc = fold(acc, hs(&{x}));")
        elif a[0] == "Option<i32>":
            b.append(f"acc = fold(acc, {x}.map_or(-7, |v| v as i64));")
        else:
            b.append(f"acc = fold(acc, {x} as i64);")
    for x in obj:
        en.append(f"{x}.enter(d, {w});" + (f" {x}.held({w});" if x[0] != "g" else ""))
        le.append((f"{x}.held({w}); " if x[0] != "g" else "") + f"{x}.leave(d, {w});")
    b += lk + en
    tick = "let t = self.n.get();" if m["ret"] == "tick" else ""
    b.append(f"pause({m['w']}); {tick}")
    b += le
    b.append({None: "", "i64": "acc", "i32": "acc as i32", "bool": "acc & 1 != 0", "String": "format!(\"{}é\", acc)", "Option<i64>": "if acc % 4 == 0 { None } else { Some(acc) }",
              "Result<i64, String>": "if acc % 3 == 0 { Err(format!(\"e{}\", acc)) } else { Ok(acc) }", "P0": "P0::new(acc)", "f64": "(acc >> 20) as f64", "tick": "t"}[m["ret"]])
    return f"pub fn {sig(m)[len(m['cls']) + 2:]} {{ {' '.join(b)} }}"


# ---- plans: what each thread does ----

def make_plan(rng, f, nth, nops):
    """Per thread a list of operations; the private part is modelled by expected(), the shared part by sums the driver keeps."""
    plan = []
    ops = len(f["meths"])
    for t in range(nth):
        l = []
        hot = rng.random() < 0.5
        pick = lambda: 0 if hot and rng.random() < 0.7 else rng.randrange(NOBJ)
        for _ in range(nops):
            r = rng.random()
            d = rng.choice([1, 2, -3, 1000, rng.randrange(-10 ** 12, 10 ** 12)])
            k = rng.randrange(len(f["ms"]))
            if r < 0.6:
                m = rng.choice(f["meths"])
                l.append(call(rng, f, m, d, pick))
            elif r < 0.67:
                l.append({"op": f"bump{k}", "a": [rng.randrange(3), pick(), d]})
            elif r < 0.74:
                l.append({"op": f"tick{k}", "a": [rng.randrange(3), pick()]})
            elif r < 0.78:
                l.append({"op": f"drop{k}", "a": [rng.randrange(NOBJ)]})
            elif r < 0.80:
                l.append({"op": f"bg{k}", "a": [rng.randrange(3), pick(), d, rng.randrange(1, 6)]})
            elif r < 0.81:
                l.append({"op": "bga", "a": [pick(), d, rng.randrange(1, 6)]})
            elif r < 0.86:
                l.append({"op": "setcb", "a": [rng.randrange(4), rng.randrange(4), rng.randrange(2)]})
            elif r < 0.88:
                l.append({"op": "clearcb", "a": [rng.randrange(4)]})
            elif r < 0.96:
                l.append({"op": "fire", "a": [rng.randrange(4), rng.randrange(10 ** 6), rng.randrange(2) if rng.random() < 0.5 else 0]})
            elif r < 0.98:
                l.append({"op": "storm", "a": [rng.randrange(4), rng.randrange(10 ** 6), rng.randrange(1, 8)]})
            else:
                l.append({"op": "yield", "a": [rng.randrange(1, 50)]})
        plan.append(l)
    return plan


def call(rng, f, m, d, pick):
    """The arguments of one call of a random method."""
    a, used, usedp = [], {}, set()

    def obj(c, modes):
        """(how to get the object, which): never the same one twice in a call"""
        mode = 3 if len(used.get(c, ())) == NOBJ else rng.choice(modes)
        i = pick()
        while mode != 3 and i in used.get(c, ()):
            i = (i + 1) % NOBJ
        if mode != 3:
            used.setdefault(c, set()).add(i)
        return [mode, i]
    if m["kind"] != "static":
        if m["cls"][0] == "P":
            a.append(rng.randrange(NP))
            usedp.add(a[0])
        else:
            a += obj(m["cls"], [0, 0, 0, 1, 2, 3])
    for x in m["args"]:
        if x[0] == "P":
            free = [q for q in range(NP) if q not in usedp]
            if x[1] == "val" or not free:
                a += [-1, rng.choice([0, -1, rng.randrange(-10 ** 15, 10 ** 15)])]
            else:
                a += [rng.choice(free), 0]
                usedp.add(a[-2])
        elif x[0] == "A":
            a += obj("A0", [0, 1, 3] if x[1] == "ref" or f["lang"] == "cpp" else [1, 3])
        elif x[0] == "M":
            a += obj(f"M{x[2]}", ([1, 1, 3] + ([0, 0, 2] if f["ms"][x[2]]["copy"] else [])) if x[1] == "arc" else [0, 0, 0, 1, 2, 3])
        elif x[0] in ("String", "&str"):
            a.append(rng.randrange(len(STR)))
        elif x[0] == "Option<i32>":
            v = rng.choice([None, 0, -2 ** 31, rng.randrange(2 ** 31)])
            a += [int(v is not None), v or 0]
        else:
            lo, hi = {"i32": (-2 ** 31, 2 ** 31 - 1), "i64": (-2 ** 63, 2 ** 63 - 1), "u8": (0, 255), "f64": (-2 ** 50, 2 ** 50), "bool": (0, 1)}[x[0]]
            a.append(rng.choice([lo, hi, rng.randint(lo, hi)]))
    a.append(d)
    if m["ret"] == "P0":
        a.append(rng.randrange(NP))
    return {"op": f"m{m['n']}", "a": a}


def expected(m, a, p):
    """What the call folds its private arguments to; p: the private objects, changed."""
    it = iter(a)
    d = a[-2] if m["ret"] == "P0" else a[-1]
    acc = m["n"]
    if m["kind"] != "static":
        i = next(it)
        if m["cls"][0] == "P":
            acc = fold(acc, p[i])
            if m["kind"] == "mut":
                p[i] = s64(p[i] + d)
        else:
            next(it)
    for x in m["args"]:
        v = next(it)
        if x[0] == "P":
            w = next(it)
            acc = fold(acc, w if v < 0 else p[v])
            if x[1] == "mut" and v >= 0:
                p[v] = s64(p[v] + d)
        elif x[0] in ("A", "M"):
            next(it)
        elif x[0] in ("String", "&str"):
            acc = fold(acc, hs(STR[v]))
        elif x[0] == "Option<i32>":
            w = next(it)
            acc = fold(acc, w if v else -7)
        else:
            acc = fold(acc, v)
    if m["ret"] == "P0":
        p[a[-1]] = acc
    return acc


def op_names(f):
    r = [f"m{m['n']}" for m in f["meths"]]
    for k in range(len(f["ms"])):
        r += [f"bump{k}", f"tick{k}", f"drop{k}", f"bg{k}"]
    return r + ["bga", "setcb", "clearcb", "fire", "storm", "yield"]


def plan_text(f, plan):
    idx = {n: i for i, n in enumerate(op_names(f))}
    ms = {f"m{m['n']}": m for m in f["meths"]}
    o = [str(len(plan))]
    for t, l in enumerate(plan):
        o.append(str(len(l)))
        p = [t * 1000 + i for i in range(NP)]
        for op in l:
            e = expected(ms[op["op"]], op["a"], p) if op["op"] in ms else 0
            o.append(" ".join(map(str, [idx[op["op"]], e, len(op["a"])] + op["a"])))
    return "\n".join(o) + "\n"


def describe(f, plan, t, i):
    op = plan[t][i]
    m = {f"m{m['n']}": m for m in f["meths"]}.get(op["op"])
    return f"thread {t} operation {i} {op['op']} {op['a']}" + (f" = {sig(m)}" if m else "")


def shrink(f, plan, fails, budget=25):
    """Fewer threads, then fewer operations per thread, while the failure is still seen (two attempts each)."""
    n = 0

    def bad(p):
        nonlocal n
        n += 1
        return n <= budget and any(l for l in p) and (fails(p) or fails(p))
    changed = True
    while changed and n < budget:
        changed = False
        for t in range(len(plan)):
            q = plan[:t] + [[]] + plan[t + 1:]
            if plan[t] and bad(q):
                plan, changed = q, True
    for frac in (2, 4, 8, 16):
        for t in range(len(plan)):
            step = max(1, len(plan[t]) // frac)
            i = 0
            while i < len(plan[t]) and n < budget:
                q = [l[:] for l in plan]
                del q[t][i:i + step]
                if bad(q):
                    plan = q
                else:
                    i += step
    return plan
