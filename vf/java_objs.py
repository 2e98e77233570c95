"""J02: object lifetimes across the Java border."""
from . import engine, types as ty
from .types import P
from .spec import Spec, Cls, Meth
from .java_values import place, finish, OPTS
from .cpp_objs import g_cls, push


def objs_spec(rng, n_methods):
    s = Spec("java")
    s.cfg["fence"] = "std"
    spc = lambda: rng.choice([[], ["SmartPtrCopy"]])
    s.classes = [Cls("Ka", "plain", rng.choice([0, 3, 40])), Cls("Kb", "clone", rng.choice([0, 24]), ["Copy"]), Cls("Kc", "rc", rng.randint(0, 9), spc()),
                 Cls("Kd", "arcmutex", rng.randint(0, 9), spc()), Cls("Ke", "arc", rng.randint(0, 9), ["SmartPtrCopy"]), Cls("Kf", "pod", rng.randint(0, 9), ["Copy"]),
                 Cls("Kg", "clone", rng.choice([1, 8]), ["Clone"])]
    if rng.random() < 0.5:
        s.classes.append(Cls("Kh", "rc", 2, ["SmartPtrCopy"]))
    rng.shuffle(s.classes)
    s.cfg["newr"] = [c.name for c in s.classes if rng.random() < 0.5]
    s.no_ctors(rng)
    s.enums = [("En0", 3)]
    val = [("cls", c.name, "val") for c in s.classes]
    ref = [("cls", c.name, "ref") for c in s.classes]
    mut = [("cls", c.name, "mut") for c in s.classes if c.storage != "arc"]
    direct = [("cls", c.name, "val") for c in s.classes if c.storage in ("plain", "clone", "pod")]
    dref = [("cls", t[1], "ref") for t in direct]
    velem = [("cls", c.name, "val") for c in s.classes if c.storage in ("clone", "pod")]

    def inn():
        return rng.choice([rng.choice(val), rng.choice(val), ("opt", rng.choice(val)), ("vec", rng.choice(velem)), ("opt", rng.choice(dref)), rng.choice(ref + mut),
                           rng.choice([P("i32"), ("String",), ("enum", "En0", 3)])])

    def out():
        err = rng.choice([("String",), ("str",)])
        return rng.choice([rng.choice(val), ("opt", rng.choice(val)), ("res", rng.choice(val), err), ("res", ("opt", rng.choice(direct)), err),
                           ("vec", rng.choice(val)), ("res", ("vec", rng.choice(val)), err), ("res", ("unit",), err)])

    for i in range(n_methods):
        args = [inn() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        s.methods.append(place(s, Meth(i, "Stat", "static", args, out() if rng.random() < 0.8 else ("unit",)), rng))
    i = len(s.methods)
    for t in val:
        s.methods.append(place(s, Meth(i, "Stat", "static", [t], ("unit",)), rng))
        s.methods.append(place(s, Meth(i + 1, "Stat", "static", [], t), rng))
        s.methods.append(place(s, Meth(i + 2, "Stat", "static", [("opt", t)], ("vec", t)), rng))
        i += 3
    return finish(s, rng).renamed(rng)


def gen_history(spec, rng, n):
    g = engine.GenState(spec, rng, OPTS)
    m = g.model
    target = rng.choice([4, 12, 40])
    while len(g.ops) < n:
        crowd = len(m.handles) > target
        a = rng.choices(["call", "new", "newr", "del", "look", "gc", "purge"], [30, 5, 3, 30 if crowd else 8, 4, 1.5, 1])[0]
        if a == "call":
            g.gen_call(rng.choice(spec.methods))
            continue
        if a == "purge":
            g.push({"op": "purge"})
            continue
        if a == "gc":
            # references to used-up and to full objects are forgotten alike
            g.push({"op": "gc", "hs": [l for l in m.handles if rng.random() < 0.4]})
            continue
        c = rng.choice(spec.classes)
        if a == "newr" and c.name in spec.cfg["newr"]:
            l = g.fresh()
            bad = rng.random() < 0.4
            op = {"op": "newr", "cls": c.name, "p": g.payload(), "dst": l, "err": ty.gen(("String",), rng, None) if bad else None}
            if bad:
                g.push(op)
            else:
                push(g, op, c.name, l)
            continue
        mine = [l for l in m.handles if g_cls(g, l) == c.name]
        if a == "new" or not mine:
            l = g.fresh()
            push(g, {"op": "new", "cls": c.name, "p": g.payload(), "dst": l}, c.name, l)
        elif a == "del":
            g.push({"op": "del", "cls": c.name, "h": rng.choice(mine)})
        elif m.labels(c.name):
            g.push({"op": "look", "cls": c.name, "h": rng.choice(m.labels(c.name))})
    rest = list(m.handles)
    half = set(rest[: len(rest) // 2])
    for l in half:
        cn = g_cls(g, l)
        if cn is not None:
            g.push({"op": "del", "cls": cn, "h": l})
    g.push({"op": "gc", "hs": [l for l in rest if l in m.handles]})
    g.push({"op": "purge"})
    return g.ops, g.exps
