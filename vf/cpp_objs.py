"""C02: object lifetimes across the C++ border."""
from . import engine, types as ty
from .types import P
from .spec import Spec, Cls, Meth, name_args
from .cpp_values import place


def objs_spec(rng, n_methods):
    s = Spec("cpp")
    spc = lambda: rng.choice([[], ["SmartPtrCopy"]])
    s.classes = [Cls("Ka", "plain", rng.choice([0, 3, 40])), Cls("Kb", "clone", rng.choice([0, 24]), ["Copy"]),
                 Cls("Kc", "rc", rng.randint(0, 9), spc()), Cls("Kd", "arcmutex", rng.randint(0, 9), spc()),
                 Cls("Ke", "arc", rng.randint(0, 9), ["SmartPtrCopy"]), Cls("Kf", "pod", rng.randint(0, 9), ["Copy"]),
                 Cls("Kg", "clone", rng.choice([1, 8]))]
    if rng.random() < 0.5:
        s.classes.append(Cls("Kh", "rc", 2, ["SmartPtrCopy"]))
    for st, der in [("clone", ["Copy"]), ("plain", []), ("rc", ["SmartPtrCopy"]), ("pod", ["Copy"])]:
        if rng.random() < 0.3:
            s.classes.append(Cls("P" + st, st, rng.choice([0, 5, 24]), ["PlainClass"] + der))
    rng.shuffle(s.classes)
    s.no_ctors(rng)
    s.enums = [("En0", 3)]
    val = [("cls", c.name, "val") for c in s.classes]
    ref = [("cls", c.name, "ref") for c in s.classes]
    mut = [("cls", c.name, "mut") for c in s.classes if c.storage not in ("arc",)]
    direct = [("cls", c.name, "val") for c in s.classes if c.storage in ("plain", "clone", "pod") and not c.plainc]
    dref = [("cls", t[1], "ref") for t in direct]

    def inn(depth=1):
        r = rng.random()
        if r < 0.45 or depth == 0:
            return rng.choice(val)
        if r < 0.6:
            return ("opt", inn(0))
        if r < 0.7:
            return ("tup", tuple(rng.choice(val + [P("i32"), ("str",)]) for _ in range(rng.choice([2, 2, 3]))))
        if r < 0.8:
            return ("vec", rng.choice(direct))
        if r < 0.85:
            return ("opt", ("vec", rng.choice(direct)))
        if r < 0.9:
            return ("opt", ("cls", rng.choice(direct)[1], rng.choice(["ref", "mut"])))
        if r < 0.95:
            return (rng.choice(["slice", "mslice"]), rng.choice(direct))
        return rng.choice(ref + mut)

    def out():
        r = rng.random()
        if r < 0.35:
            return rng.choice(val)
        if r < 0.45:
            return rng.choice(dref)
        if r < 0.6:
            return ("opt", rng.choice(val + dref))
        if r < 0.75:
            a, b = rng.choice(val), rng.choice(val + [("String",), ("enum", "En0", 3)])
            if a == b:
                b = ("String",)
            return ("res", rng.choice([a, ("unit",)]), b)
        if r < 0.85:
            return ("tup", tuple(rng.choice(val + [P("i32"), ("String",)]) for _ in range(rng.choice([2, 2, 3]))))
        if r < 0.95:
            return ("vec", rng.choice(direct))
        return ("opt", ("vec", rng.choice(direct)))

    for i in range(n_methods):
        args = [inn() if rng.random() < 0.8 else rng.choice(ref + mut) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        s.methods.append(place(s, Meth(i, "Stat", "static", args, out() if rng.random() < 0.8 else ("unit",)), rng))
    # every class: by value, by reference and back
    i = len(s.methods)
    for t in val:
        s.methods.append(place(s, Meth(i, "Stat", "static", [t], ("unit",)), rng))
        s.methods.append(place(s, Meth(i + 1, "Stat", "static", [], t), rng))
        i += 2
    name_args(s, rng)
    return s.finish().renamed(rng)


def gen_history(spec, rng, n):
    """A history of n operations over at most ~60 live handles."""
    g = engine.GenState(spec, rng)
    m = g.model
    target = rng.choice([4, 12, 40])

    def lab(c):
        ls = list(l for l, o in m.handles.items() if True)
        return rng.choice(ls) if ls else None

    acts = ["call", "new", "del", "mv", "asg", "cpy", "casg", "swap", "look", "rel", "purge"]
    while len(g.ops) < n:
        crowd = len(m.handles) > target
        a = rng.choices(acts, [30, 6, 45 if crowd else 12, 8, 8, 7, 12, 3, 2, 3, 1])[0]
        if a == "call":
            g.gen_call(rng.choice(spec.methods))
            continue
        if a == "purge":
            g.push({"op": "purge"})
            continue
        c = rng.choice(spec.classes)
        alive = m.labels(c.name)
        mine = [l for l in m.handles if g_cls(g, l) == c.name]
        if a == "new" or not mine:
            l = g.fresh()
            push(g, {"op": "new", "cls": c.name, "p": g.payload(), "dst": l}, c.name, l)
        elif a == "del":
            g.push({"op": "del", "cls": c.name, "h": rng.choice(mine)})
        elif a in ("cpy", "casg") and c.copyable:
            # copies of empty handles, onto full ones too
            src = rng.choice(mine)
            if a == "casg":
                g.push({"op": "casg", "cls": c.name, "h": src, "dst": rng.choice(mine)})
            else:
                l = g.fresh()
                push(g, {"op": "cpy", "cls": c.name, "h": src, "dst": l}, c.name, l)
        elif not alive:
            continue
        elif a == "mv":
            l = g.fresh()
            push(g, {"op": "mv", "cls": c.name, "h": rng.choice(alive), "dst": l}, c.name, l)
        elif a == "asg":
            g.push({"op": "asg", "cls": c.name, "h": rng.choice(alive), "dst": rng.choice(mine)})
        elif a == "swap" and len(alive) > 1:
            g.push({"op": "swap", "cls": c.name, "h": rng.choice(alive), "dst": rng.choice(alive)})
        elif a in ("look", "rel"):
            g.push({"op": a, "cls": c.name, "h": rng.choice(alive)})
    # everything must go away at the end
    for l in list(m.handles):
        cn = g_cls(g, l)
        if cn:
            g.push({"op": "del", "cls": cn, "h": l})
    g.push({"op": "purge"})
    return g.ops, g.exps


def g_cls(g, l):
    """Class of a handle, moved-from ones included."""
    o = g.model.handles.get(l)
    known = g.__dict__.setdefault("hcls", {})
    if o is not None:
        known[l] = o["cls"]
    return known.get(l)


def push(g, op, cls, l):
    if g.push(op):
        g.__dict__.setdefault("hcls", {})[l] = cls
