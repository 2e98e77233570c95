"""C01: values crossing the C++ border."""
from . import common, engine, explore, types as ty
from .cppuniv import Univ, base_spec
from .rig import CppRig
from .spec import Meth, is_mut, name_args


def used_classes(m):
    return [t[1] for T in m.args + [m.ret] for t in ty.walk(T) if t[0] == "cls"]


def place(spec, m, rng):
    """Chooses a host class; headers may not depend on each other cyclically."""
    names = [c.name for c in spec.classes]
    lo = max([names.index(u) for u in used_classes(m)] + [-1])
    cand = ["Stat"] + names[max(lo, 0):]
    m.cls = rng.choice(cand)
    m.recv = "static"
    if m.cls != "Stat":
        recvs = ["static", "ref", "ref"]
        if spec.cls(m.cls).storage not in ("arc", "rcplain"):
            recvs.append("mut")
        m.recv = rng.choice(recvs)
    return m


def one_string(t, keep, top=True):
    """Inside composite arguments String and &str are the same C++ type and flapigen refuses to have both in one interface."""
    if t[0] in ("String", "str"):
        return t if top else (keep,)
    if t[0] in ("opt", "vec", "slice"):
        return (t[0], one_string(t[1], keep, False))
    if t[0] == "tup":
        return ("tup", tuple(one_string(x, keep, False) for x in t[1]))
    if t[0] == "res":
        return ("res", one_string(t[1], keep, False), one_string(t[2], keep, False))
    return t


def deal(spec, rng, ins, outs, extra, univ):
    """Methods that together use every given type; then `extra` random composites."""
    i = 0
    ins, outs = list(ins), list(outs)
    rng.shuffle(ins)
    rng.shuffle(outs)
    while ins or outs:
        args = [ins.pop() for _ in range(min(len(ins), rng.choice([1, 1, 2, 3])))]
        ret = outs.pop() if outs else ("unit",)
        spec.methods.append(place(spec, Meth(i, "Stat", "static", args, ret), rng))
        i += 1
    for k in range(extra):
        # one method with more than ten arguments
        args = [univ.rand("in") for _ in range(rng.choice([0, 1, 2, 4]) if k else 12)]
        ret = univ.rand("out") if rng.random() < 0.9 else ("unit",)
        spec.methods.append(place(spec, Meth(i, "Stat", "static", args, ret), rng))
        i += 1
    name_args(spec, rng)
    keep = rng.choice(["String", "str"])
    for m in spec.methods:
        m.args = [one_string(t, keep) for t in m.args]
    return spec.finish()


def make_specs(rng, n, extra):
    specs = []
    s0 = base_spec(rng)
    u = Univ(rng, s0.classes, s0.enums, s0.reprs)
    ins, outs = u.basic("in"), u.basic("out")
    rng.shuffle(ins)
    rng.shuffle(outs)
    for k in range(n):
        s = base_spec(rng)
        s.classes, s.enums, s.reprs, s.cfg = s0.classes, s0.enums, s0.reprs, dict(s0.cfg)
        deal(s, rng, ins[k::n], outs[k::n], extra, u)
        specs.append(s.renamed(rng))
    return specs


def gen_history(spec, rng, per_method, opts=None):
    g = engine.GenState(spec, rng, opts)
    todo = [m for m in spec.methods for _ in range(per_method)]
    rng.shuffle(todo)
    for m in todo:
        g.gen_call(m)
        if rng.random() < 0.15:
            g.push({"op": "purge"})
        if rng.random() < 0.5:
            c = rng.choice(spec.classes)
            ls = g.model.labels(c.name)
            if len(ls) > 5:
                g.push({"op": "del", "cls": c.name, "h": rng.choice(ls)})
    return g.ops, g.exps
