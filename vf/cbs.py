"""Callbacks: foreign objects called from Rust.  Rust side, model and history generation (C++ and Java)."""
import copy
from . import engine, types as ty
from .types import enc
from .spec import Spec, Meth, Model, vec_plan

# argument names that could clash with helpers of the generated callback code
CB_NAMES = ["opaque", "pi", "ret", "a0", "a1", "a2", "x", "tmp", "p", "p0", "data", "s", "v", "obj", "len", "out", "env", "cb", "args", "name", "res"]


class Cb:
    """A callback interface; methods are Meth (recv ref|mut)."""

    def __init__(self, name, methods, send):
        self.name, self.methods, self.send = name, methods, send

    @property
    def dyn(self):
        return f"dyn Tr{self.name}" + (" + Send" if self.send else "")


class CbSpec(Spec):
    ext_only = False

    def __init__(self, lang):
        super().__init__(lang)
        self.model_cls = CbModel
        self.regs = []          # (name, [arg types with ('cb', i)])

    def finish(self):
        keep = self.methods
        self.methods = keep + [Meth(0, "Stat", "static", [m.ret], ("unit",)) for c in self.cbs for m in c.methods]
        super().finish()
        self.methods = keep
        return self

    def emit_cbs(self, order):
        return emit(self)

    def to_json(self):
        j = super().to_json()
        j["cbs"] = [[c.name, c.send, [[m.idx, m.recv, m.args, m.ret, m.name, m.argnames] for m in c.methods]] for c in self.cbs]
        j["regs"] = self.regs
        return j


def emit(spec):
    """(Rust text, glue text before Stat, declarations inside Stat, bodies of Stat)"""
    o, g, d, b = [], [], [], []
    R = lambda t, s=False: ty.rust(t, spec, s)
    fire = []
    for ci, c in enumerate(spec.cbs):
        tr = f"Tr{c.name}"
        fns, decl = [], []
        for m in c.methods:
            me = "&self" if m.recv == "ref" else "&mut self"
            args = "".join(f", a{i}: {R(t)}" for i, t in enumerate(m.args))
            dargs = "".join(f", {n}: {R(t)}" for n, t in zip(m.names(), m.args))
            ret = "" if m.ret[0] == "unit" else " -> " + R(m.ret)
            fns.append(f"fn on{m.idx}_rs({me}{args}){ret};")
            decl.append(f"    {m.name} = {tr}::on{m.idx}_rs({me}{dargs}){ret};")
            lets = " ".join(f"let x{i}: {R(t, True)} = vf::ret();" for i, t in enumerate(m.args))
            call = f"cb.on{m.idx}_rs({', '.join(f'x{i}' for i in range(len(m.args)))})"
            fire.append(f"({ci}, {m.idx}) => {{ let cb: &mut ({c.dyn}) = unsafe {{ &mut *vf_cb_{ci}(slot) }}; {lets} "
                        f"let go = vf_force_send(move || {{ let cb = cb; let r = {call}; vf::Call::new({1000 + m.idx}).arg(&r).done(); }}); "
                        f"if thread {{ std::thread::spawn(move || go.go()).join().unwrap(); }} else {{ go.go(); }} }}")
        o.append(f"pub trait {tr} {{ {' '.join(fns)} }}")
        g.append("foreign_callback!(callback %s {\n    self_type %s;\n%s\n});" % (c.name, tr + (" + Send" if c.send else ""), "\n".join(decl)))
        o.append(f"static CBS{ci}: Mutex<vf::Reg<Box<{c.dyn}>>> = Mutex::new(vf::Reg(std::collections::BTreeMap::new()));"
                 f"fn vf_cb_{ci}(slot: u64) -> *mut ({c.dyn}) {{ let mut g = CBS{ci}.lock().unwrap(); let b: &mut Box<{c.dyn}> = g.0.get_mut(&slot).expect(\"slot\"); &mut **b }}"
                 f"fn vf_keep_{ci}(b: Box<{c.dyn}>) {{ let s: u64 = vf::ret(); assert!(CBS{ci}.lock().unwrap().0.insert(s, b).is_none()); }}")
    o.append("struct VfForce<F>(F); unsafe impl<F> Send for VfForce<F> {} impl<F: FnOnce()> VfForce<F> { fn go(self) { (self.0)() } }"
             "fn vf_force_send<'a, F: FnOnce() + 'a>(f: F) -> VfForce<Box<dyn FnOnce() + 'static>> { let b: Box<dyn FnOnce() + 'a> = Box::new(f); VfForce(unsafe { std::mem::transmute(b) }) }"
             "fn vf_fire() { let n: u32 = vf::ret(); for _ in 0..n { let c: u32 = vf::ret(); let m: u32 = vf::ret(); let slot: u64 = vf::ret(); let thread: bool = vf::ret(); match (c, m) { %s _ => panic!() } } }" % "\n".join(fire))
    d.append("    fn Stat::fire();\n    fn Stat::drop_cb();")
    drops = " ".join(f"{ci} => {{ let b = CBS{ci}.lock().unwrap().0.remove(&slot); drop(b.expect(\"slot\")); }}" for ci in range(len(spec.cbs)))
    b.append("pub fn fire() { vf_fire() } pub fn drop_cb() { let c: u32 = vf::ret(); let slot: u64 = vf::ret(); let thread: bool = vf::ret();"
             "let go = vf_force_send(move || { match c { %s _ => panic!() } });"
             " if thread { std::thread::spawn(move || go.go()).join().unwrap(); } else { go.go(); } }" % drops)
    if spec.lang == "java":
        o.append("pub trait TrStorm { fn tick_rs(&self, x: i64) -> i64; }")
        g.append("foreign_callback!(callback Storm { self_type TrStorm + Send; tick = TrStorm::tick_rs(&self, x: i64) -> i64; });")
        bx = "Box<dyn TrStorm + Send>"
        d.append(f"    fn Stat::storm(a: {bx}, b: {bx}, c: {bx}, n: i32, p: i64) -> i64;")
        b.append(f"pub fn storm(a: {bx}, b: {bx}, c: {bx}, n: i32, p: i64) -> i64 {{ let hs: Vec<_> = vec![a, b, c].into_iter().enumerate().map(|(k, cb)| "
                 "std::thread::spawn(move || (0..n as i64).map(|i| cb.tick_rs(p + (k as i64 + 1) * i)).sum::<i64>())).collect(); hs.into_iter().map(|h| h.join().unwrap()).sum() }")
    for ri, (name, args) in enumerate(spec.regs):
        tt = [f"Box<{spec.cbs[t[1]].dyn}>" if t[0] == "cb" else R(t) for t in args]
        d.append(f"    fn Stat::{name}({', '.join(f'r{i}: {t}' for i, t in enumerate(tt))});")
        enc_ = "".join(f" let c = c.arg(&r{i});" for i, t in enumerate(args) if t[0] != "cb")
        keep = " ".join(f"vf_keep_{t[1]}(r{i});" for i, t in enumerate(args) if t[0] == "cb")
        # a "temp" registration fires its callbacks before returning and drops them at once
        b.append(f"pub fn {name}({', '.join(f'r{i}: {t}' for i, t in enumerate(tt))}) {{ let c = vf::Call::new({2000 + ri});{enc_} c.done(); {keep} vf_fire(); vf_drops(); }}")
    o.append("fn vf_drops() { let n: u32 = vf::ret(); for _ in 0..n { Stat::drop_cb(); } }")
    return "\n".join(o), "\n".join(g), "\n".join(d), "\n".join(b)


class CbModel(Model):
    """Callback objects: slot -> (interface, foreign id)."""

    def __init__(self, spec):
        super().__init__(spec)
        self.slots = {}
        self.next_cb = 1
        self.running = []

    def apply(self, op):
        if op["op"] not in ("reg", "fire", "drop", "storm", "alive"):
            return super().apply(op)
        keep = copy.deepcopy((self.handles, self.kept, self.slots, self.next_id, self.next_cb, self.nph))
        e = super().apply(op)
        if e is None:
            self.handles, self.kept, self.slots, self.next_id, self.next_cb, self.nph = keep
            self.running = []
        return e

    # every step appends to: plan (Rust tokens), drv (driver tokens), res (what the foreign side prints), calls
    def op_reg(self, op):
        name, args = self.spec.regs[op["r"]]
        plan, drv, res, call = [], [], [], ["M%d(" % (2000 + op["r"])]
        keep = []
        for t, v in zip(args, op["args"]):
            if t[0] == "cb" and isinstance(v, (list, tuple)):
                # a foreign object that Rust has already: one more owner
                v, old = v
                if v in self.slots or v in [s for s, _, _ in keep] or self.slots.get(old, (None,))[0] != t[1]:
                    return None
                keep.append((v, t[1], self.slots[old][1]))
                drv.append("i%d" % self.slots[old][1])
            elif t[0] == "cb":
                if v in self.slots or v in [s for s, _, _ in keep]:
                    return None
                keep.append((v, t[1], self.next_cb))
                drv.append("i%d" % self.next_cb)
                self.next_cb += 1
            else:
                call += enc(t, v, None)
                drv += enc(t, v, None)
                if self.lang == "cpp":
                    plan += vec_plan(t, v)
        for s, ci, fid in keep:
            plan.append("i%d" % s)
            self.slots[s] = (ci, fid)
        call.append(")")
        calls = [" ".join(call)]
        if not self.fires(op["fires"], plan, drv, res, calls):
            return None
        plan.append("i%d" % len(op["drops"]))
        for s, th in op["drops"]:
            if not self.drop_slot(s, th, plan, res):
                return None
        return self.expect(res, calls, [], plan, drv)

    def drop_slot(self, s, th, plan, res):
        if s not in self.slots or s in self.running:
            return False
        ci, fid = self.slots.pop(s)
        if th and not self.spec.cbs[ci].send:
            return False
        plan += ["i%d" % ci, "i%d" % s, "b%d" % th]
        res += self.dropped(fid)
        return True

    def dropped(self, fid):
        return ["~%d" % fid] if self.lang == "cpp" else []

    def fires(self, fs, plan, drv, res, calls):
        plan.append("i%d" % len(fs))
        for f in fs:
            if not self.fire1(f, plan, drv, res, calls):
                return False
        return True

    def fire1(self, f, plan, drv, res, calls):
        s = f["s"]
        if s not in self.slots or self.slots[s][0] != f["c"] or s in self.running:
            return False
        ci, fid = self.slots[s]
        cb = self.spec.cbs[ci]
        if f["th"] and not cb.send:
            return False
        m = [m for m in cb.methods if m.idx == f["m"]][0]
        plan += ["i%d" % ci, "i%d" % m.idx, "i%d" % s, "b%d" % f["th"]]
        res.append("@%d.%d" % (fid, m.idx))
        new = []

        def res_cls(ct, cv):
            o = self.new_obj(ct[1], cv[1])
            if ct[2] == "val" and cv[2] is not None:
                new.append((cv[2], o))
                drv.append("L%d" % cv[2])
            else:
                self.kept.append(o)
            return self.oenc(o)

        # labels of the objects the callback receives, then its behaviour
        args = []
        for t, v in zip(m.args, f["args"]):
            for ct, cv in ty.objs(t, v):
                if cv[0] != "n" and cv[0] != "k":
                    return False
        before = len(drv)
        for t, v in zip(m.args, f["args"]):
            plan += enc(t, v, lambda ct, cv: [("n%d" if self.spec.cls(ct[1]).shared and ct[2] == "val" else "i%d") % cv[1]])
        for t, v in zip(m.args, f["args"]):
            args += enc(t, v, res_cls)
        res += args
        n = len(drv) - before
        drv.insert(before, "i%d" % n)
        for l, o in new:
            self.handles[l] = o
        self.running.append(s)
        if self.lang == "java":
            drv.append("b%d" % f.get("thr", 0))
        # nested calls made by the callback
        drv.append("i%d" % (1 if f["nest"] else 0))
        if f["nest"]:
            if not self.fires(f["nest"], plan, drv, res, calls):
                return False
        self.running.pop()
        return self.ret_of(m, f, plan, drv, calls)

    def ret_of(self, m, f, plan, drv, calls):
        call = ["M%d(" % (1000 + m.idx)]
        if m.ret[0] == "unit":
            call.append("u")
        else:
            consumed = []
            for ct, cv in ty.objs(m.ret, f["ret"]):
                o = self.handles.get(cv[1])
                if o is None or cv[1] in consumed:
                    return False
                consumed.append(cv[1])
            call += enc(m.ret, f["ret"], lambda ct, cv: self.oenc(self.handles[cv[1]]))
            drv += enc(m.ret, f["ret"], lambda ct, cv: ["h%d" % cv[1]])
            if self.lang == "cpp":
                plan += vec_plan(m.ret, f["ret"])
            for l in consumed:
                self.handles[l] = None
        call.append(")")
        calls.append(" ".join(call))
        return True

    def op_fire(self, op):
        plan, drv, res, calls = [], [], [], []
        if not self.fires(op["fires"], plan, drv, res, calls):
            return None
        return self.expect(res, calls, [], plan, drv)

    def op_storm(self, op):
        """Three callbacks, each called n times from a thread of its own at the same time."""
        n, p = op["n"], op["p"]
        tot = sum(p + k * i for k in (1, 2, 3) for i in range(n))
        return self.expect(["i%d" % n] * 3 + ["i%d" % tot], [], [], [], ["i%d" % n, "i%d" % p])

    def op_alive(self, op):
        """Callback objects the garbage collector must keep, and no others."""
        ids = sorted({fid for _, fid in self.slots.values()})
        return self.expect(["i%d" % i for i in ids])

    def op_drop(self, op):
        plan, res = [], []
        if not self.drop_slot(op["s"], op["th"], plan, res):
            return None
        return self.expect(res, [], [], plan, [])


def gen_history(spec, rng, n, opts=None):
    g = engine.GenState(spec, rng, opts)
    opts = g.opts
    m = g.model
    nslot = [0]

    def outobj(T):
        if T[2] != "val":
            return ("k", g.payload(), None)
        return ("n", g.payload(), g.fresh())

    def gen_fires(depth, slots, avoid_handles):
        r = []
        for _ in range(rng.choice([1, 1, 1, 2, 3]) if depth == 0 else 1):
            if not slots:
                break
            s = rng.choice(list(slots))
            ci = slots[s]
            cb = spec.cbs[ci]
            me = rng.choice(cb.methods)
            nul, lim = opts.get("nul", True), opts.get("lim")
            args = [engine.strip_kept(t, ty.gen(t, rng, outobj, nul, lim)) for t in me.args]
            th = cb.send and rng.random() < 0.4
            rest = {k: v for k, v in slots.items() if k != s}
            nest = gen_fires(depth + 1, rest, avoid_handles) if depth < 3 and rng.random() < 0.2 else []

            def inobj(T):
                ls = [l for l in m.labels(T[1]) if l not in avoid_handles]
                if ls and rng.random() < 0.7:
                    l = rng.choice(ls)
                else:
                    l = g.fresh()
                    g.push({"op": "new", "cls": T[1], "p": g.payload(), "dst": l})
                avoid_handles.add(l)
                return ("h", l)
            ret = () if me.ret[0] == "unit" else ty.gen(me.ret, rng, inobj, nul, lim)
            if opts.get("thr") and me.ret[0] == "unit" and rng.random() < 0.1:
                thr = 1
            else:
                thr = 0
            r.append({"thr": thr, "c": ci, "m": me.idx, "s": s, "th": int(th), "args": args, "nest": nest, "ret": ret})
        return r

    while len(g.ops) < n:
        r = rng.random()
        cur = {s: c for s, (c, _) in m.slots.items()}
        if r < 0.2 or not cur:
            if len(cur) > 8:
                continue
            ri = rng.randrange(len(spec.regs))
            args = []
            fresh = {}
            for t in spec.regs[ri][1]:
                if t[0] == "cb":
                    nslot[0] += 1
                    args.append(nslot[0])
                    fresh[nslot[0]] = t[1]
                    old = [s for s, c in cur.items() if c == t[1]]
                    if opts.get("again") and old and rng.random() < 0.3:
                        args[-1] = (nslot[0], rng.choice(old))
                else:
                    args.append(ty.gen(t, rng, None, opts.get("nul", True), opts.get("lim")))
            both = {**cur, **fresh}
            fires = gen_fires(0, both, set()) if rng.random() < 0.5 else []
            drops = [(s, int(spec.cbs[c].send and rng.random() < 0.3)) for s, c in both.items() if rng.random() < (0.4 if s in fresh else 0.05)]
            g.push({"op": "reg", "x": "reg%d" % ri, "r": ri, "args": args, "fires": fires, "drops": drops})
        elif r < 0.8:
            g.push({"op": "fire", "x": "fire", "fires": gen_fires(0, cur, set())})
        elif r < 0.9:
            s = rng.choice(list(cur))
            g.push({"op": "drop", "x": "drop", "s": s, "th": int(spec.cbs[cur[s]].send and rng.random() < 0.4)})
        elif opts.get("storm") and r < 0.92:
            g.push({"op": "storm", "x": "storm", "n": rng.randint(1, 200), "p": rng.randint(-1000, 1000)})
        elif opts.get("alive") and r < 0.935:
            g.push({"op": "alive", "x": "alive"})
        elif r < 0.95 and m.handles:
            l = rng.choice(list(m.handles))
            if m.handles[l] is not None:
                g.push({"op": "del", "cls": m.handles[l]["cls"], "h": l})
        else:
            g.push({"op": "purge"})
    for s, (ci, _) in list(m.slots.items()):
        g.push({"op": "drop", "x": "drop", "s": s, "th": 0})
    return g.ops, g.exps
