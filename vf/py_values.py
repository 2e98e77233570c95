"""Interfaces and histories of the Python checks."""
from . import engine, pyuniv, types as ty
from .spec import Meth, name_args
from .types import P

NAMES = ["p0", "p", "x", "data", "ok", "obj", "out", "len", "a0", "a1", "inner", "tuple", "ok_inner", "err_inner", "m", "lock", "s", "path", "arr", "e", "c",
         "i", "val", "cls", "msg", "name", "this_", "v", "args", "kwargs", "mem", "value", "ret", "slf", "output", "cpython", "_cls", "std", "params"]


def place(spec, m, rng):
    m.cls = rng.choice(["Stat", "Stat"] + [c.name for c in spec.classes])
    m.recv = "static"
    if m.cls != "Stat":
        recvs = ["static", "ref", "ref"]
        if spec.cls(m.cls).storage not in ("arc", "box"):
            recvs.append("mut")
        m.recv = rng.choice(recvs)
    return m


def finish(spec, rng):
    name_args(spec, rng, NAMES)
    spec.finish()
    spec.mk_vecs = []
    for m in spec.methods:
        if m.style == "inline" and any(t[0] == "ref" for t in ty.walk(m.ret)):
            m.style = "free"
        if rng.random() < 0.3:
            m.name = rng.choice([f"do_{m.idx}", f"m_{m.idx}_", f"x{m.idx}", f"getIt{m.idx}", f"_{m.idx}", f"M{m.idx}"])
    return spec


def deal(spec, rng, ins, outs, extra, univ):
    i = 0
    ins, outs = list(ins), list(outs)
    rng.shuffle(ins)
    rng.shuffle(outs)
    while ins or outs:
        args = [ins.pop() for _ in range(min(len(ins), rng.choice([1, 2, 2, 3])))]
        ret = outs.pop() if outs else ("unit",)
        spec.methods.append(place(spec, Meth(i, "Stat", "static", args, ret), rng))
        i += 1
    for k in range(extra):
        args = [univ.rand("in") for _ in range(rng.choice([0, 1, 2, 4, 6]) if k else 12)]
        ret = univ.rand("out") if rng.random() < 0.9 else ("unit",)
        spec.methods.append(place(spec, Meth(i, "Stat", "static", args, ret), rng))
        i += 1
    return finish(spec, rng)


def make_specs(rng, n, extra):
    s0 = pyuniv.base_spec(rng)
    u = pyuniv.Univ(rng, s0.classes, s0.enums)
    ins, outs = u.basic("in"), u.basic("out")
    rng.shuffle(ins)
    rng.shuffle(outs)
    specs = []
    for k in range(n):
        s = pyuniv.base_spec(rng)
        s.classes, s.enums, s.cfg = s0.classes, s0.enums, dict(s0.cfg)
        deal(s, rng, ins[k::n], outs[k::n], extra, u)
        specs.append(s.renamed(rng))
    return specs


def gen_history(spec, rng, per_method):
    g = engine.GenState(spec, rng, {})
    todo = [m for m in spec.methods for _ in range(per_method)]
    rng.shuffle(todo)
    for m in todo:
        g.gen_call(m)
        if rng.random() < 0.15:
            g.push({"op": "purge"})
        c = rng.choice(spec.classes)
        ls = g.model.labels(c.name)
        if len(ls) > 5:
            g.push({"op": "del", "cls": c.name, "h": rng.choice(ls)})
        elif ls and rng.random() < 0.05:
            g.push({"op": "alias", "cls": c.name, "h": rng.choice(ls), "dst": g.fresh()})
    return g.ops, g.exps
