"""Interfaces and histories of the Java checks."""
from . import engine, javauniv, types as ty
from .spec import Meth, name_args, ARG_NAMES
from .types import P

NAMES = ["p0", "größe", "p", "x", "data", "ok", "obj", "out", "len", "a0", "a1", "a2", "a00", "ret", "convRet", "lock", "s", "path", "arr", "e", "c", "i",
         "val", "jobj", "cls", "msg", "name", "this_", "v", "o", "args", "arg", "mem", "value", "ret0"]


def place(spec, m, rng):
    m.cls = rng.choice(["Stat", "Stat"] + [c.name for c in spec.classes])
    m.recv = "static"
    if m.cls != "Stat":
        recvs = ["static", "ref", "ref"]
        if spec.cls(m.cls).storage not in ("arc", "rcplain"):
            recvs.append("mut")
        m.recv = rng.choice(recvs)
    return m


def deal(spec, rng, ins, outs, extra, univ):
    i = 0
    ins, outs = list(ins), list(outs)
    rng.shuffle(ins)
    rng.shuffle(outs)
    while ins or outs:
        args = [ins.pop() for _ in range(min(len(ins), rng.choice([1, 1, 2, 3])))]
        ret = outs.pop() if outs else ("unit",)
        spec.methods.append(place(spec, Meth(i, "Stat", "static", args, ret), rng))
        i += 1
    for k in range(extra):
        args = [univ.rand("in") for _ in range(rng.choice([0, 1, 2, 4, 6]) if k else 14)]
        ret = univ.rand("out") if rng.random() < 0.9 else ("unit",)
        spec.methods.append(place(spec, Meth(i, "Stat", "static", args, ret), rng))
        i += 1
    finish(spec, rng)
    return spec


def finish(spec, rng):
    name_args(spec, rng, NAMES)
    spec.finish()
    spec.mk_vecs = []
    for m in spec.methods:
        if rng.random() < 0.4:
            # underscores and capitals are special in names of native functions
            m.name = rng.choice([f"do_{m.idx}", f"m_{m.idx}_", f"__{m.idx}x", f"getIt{m.idx}", f"m{m.idx}_1", f"_{m.idx}", f"x_0{m.idx:04x}y", f"M{m.idx}", f"größe{m.idx}"])
    overload(spec, rng)
    return spec


def overload(spec, rng):
    """Methods of one class that share a name, told apart by their Java argument types."""
    from .javadrv import JavaGen
    g = JavaGen(spec)
    sig = lambda m: tuple(g.t(t, "in") for t in m.args)
    for c in {m.cls for m in spec.methods}:
        ms = [m for m in spec.methods if m.cls == c]
        rng.shuffle(ms)
        i = 0
        while i + 1 < len(ms):
            k = rng.choice([1, 1, 2, 3, 5])
            seen = set()
            for m in ms[i:i + k]:
                if sig(m) not in seen:
                    seen.add(sig(m))
                    m.name = ms[i].name
                    m.alias = True
            i += k


def make_specs(rng, n, extra):
    s0 = javauniv.base_spec(rng)
    u = javauniv.Univ(rng, s0.classes, s0.enums)
    ins, outs = u.basic("in"), u.basic("out")
    rng.shuffle(ins)
    rng.shuffle(outs)
    specs = []
    for k in range(n):
        s = javauniv.base_spec(rng)
        s.classes, s.enums, s.cfg = s0.classes, s0.enums, dict(s0.cfg)
        deal(s, rng, ins[k::n], outs[k::n], extra, u)
        specs.append(s.renamed(rng))
    return specs


OPTS = {"lim": javauniv.lim}


def gen_history(spec, rng, per_method, opts=None):
    g = engine.GenState(spec, rng, opts or OPTS)
    todo = [m for m in spec.methods for _ in range(per_method)]
    rng.shuffle(todo)
    for m in todo:
        g.gen_call(m)
        if rng.random() < 0.15:
            g.push({"op": "purge"})
        if rng.random() < 0.5:
            c = rng.choice(spec.classes)
            ls = g.model.labels(c.name)
            if len(ls) > 5:
                g.push({"op": "del", "cls": c.name, "h": rng.choice(ls)})
    return g.ops, g.exps
