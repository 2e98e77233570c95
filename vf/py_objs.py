"""Y02: object lifetimes across the Python border; Y03: rejected calls."""
from . import engine, pyuniv, types as ty
from .types import P, Bad, RANGE
from .spec import Spec, Cls, Meth
from .py_values import place, finish
from .cpp_objs import g_cls, push


def objs_spec(rng, n_methods):
    s = Spec("python")
    s.classes = pyuniv.std_classes(rng)
    for c in s.classes:
        c.pad = rng.choice([0, 3, 8, 40])
    rng.shuffle(s.classes)
    s.no_ctors(rng)
    s.enums = [("En0", 3)]
    u = pyuniv.Univ(rng, s.classes, s.enums)
    val = u.val
    ins = u.inval + u.inner + u.inval + u.inner + u.refs + u.muts + u.srefs
    outs = val + u.outinner + u.outref

    def inn():
        t = rng.choice(u.inval + u.inner)
        return rng.choice([rng.choice(ins), rng.choice(ins), ("opt", t), ("vec", t), ("slice", t), ("vec", ("opt", t)),
                           rng.choice([P("i32"), ("String",), ("enum", "En0", 3)])])

    def out():
        t = rng.choice(outs)
        v = rng.choice(val + u.outinner)
        r = rng.choice([t, ("opt", t), ("vec", v), ("slice", rng.choice(u.lend)), ("tup", (v, rng.choice(val), ("opt", rng.choice(val)))),
                        ("opt", ("vec", v)), ("vec", ("opt", v))])
        return r if rng.random() < 0.7 else ("res", r, rng.choice([("err",), ("eerr", "En0", 3)]))

    for i in range(n_methods):
        args = [inn() for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        s.methods.append(place(s, Meth(i, "Stat", "static", args, out() if rng.random() < 0.8 else ("unit",)), rng))
    i = len(s.methods)
    for t in val:
        s.methods.append(place(s, Meth(i, "Stat", "static", [], t), rng))
        s.methods.append(place(s, Meth(i + 1, "Stat", "static", [("vec", P("i8"))], ("vec", t)), rng))
        i += 2
    return finish(s, rng).renamed(rng)


def gen_history(spec, rng, n, bad=0):
    g = engine.GenState(spec, rng, {})
    m = g.model
    target = rng.choice([4, 12, 40])
    while len(g.ops) < n:
        crowd = len(m.handles) > target
        a = rng.choices(["call", "new", "del", "look", "alias", "purge", "bad"], [30, 6, 30 if crowd else 8, 4, 4, 1, bad])[0]
        if a == "call":
            g.gen_call(rng.choice(spec.methods))
            continue
        if a == "bad":
            gen_bad(g)
            continue
        if a == "purge":
            g.push({"op": "purge"})
            continue
        c = rng.choice(spec.classes)
        mine = [l for l in m.handles if g_cls(g, l) == c.name]
        if a == "new" or not mine:
            l = g.fresh()
            push(g, {"op": "new", "cls": c.name, "p": g.payload(), "dst": l}, c.name, l)
        elif a == "del":
            g.push({"op": "del", "cls": c.name, "h": rng.choice(mine)})
        elif a == "alias":
            l = g.fresh()
            push(g, {"op": "alias", "cls": c.name, "h": rng.choice(mine), "dst": l}, c.name, l)
        else:
            g.push({"op": "look", "cls": c.name, "h": rng.choice(mine)})
    g.push({"op": "purge"})
    for l in list(m.handles):
        g.push({"op": "del", "cls": m.handles[l]["cls"], "h": l})
    return g.ops, g.exps


# ---------------------------------------------------------------- calls that have to be refused

T_, O_, V_ = "TypeError", "OverflowError", "ValueError"


def bads(g, T, rng):
    """(kind, exception) pairs that do not fit the leaf type T."""
    k = T[0]
    if k == "p":
        t = T[1]
        if t == "bool":
            return [(x, T_) for x in ("none", "int:0", "int:1", "str:True", "list", "obj", "float:1.0")]
        if t in ("f32", "f64"):
            return [(x, T_) for x in ("none", "str:1.5", "list", "bytes", "obj", "dict")] + [("big", O_)]
        lo, hi = RANGE[t]
        r = [(x, T_) for x in ("none", "float:1.0", "float:0.5", "str:1", "list", "bytes", "obj", "class")]
        return r + [(f"int:{x}", O_) for x in (lo - 1, hi + 1, lo - rng.randint(1, 300), hi + rng.randint(1, 300), hi * 2 + 2, lo - 2**64, hi + 2**64)] + [("big", O_)]
    if k in ("String", "str"):
        return [(x, T_) for x in ("none", "int:1", "bytes", "list", "obj", "float:1.5")] + [("surr", V_)]
    if k == "enum":
        from .spec import enum_values
        ok = enum_values(g.spec, T[1], T[2])
        return [(x, T_) for x in ("none", "str:%sI0" % T[1], "list", "obj", "float:0.0")] + \
            [(f"int:{x}", V_) for x in (*range(T[2] + 2), 2**32 - 1, T[2] + rng.randint(1, 1000), *(v + 1 for v in ok), *(v + 256 for v in ok)) if x not in ok] + [(f"int:{x}", O_) for x in (-1, 2**32, 2**64)]
    if k == "cls":
        r = [(x, T_) for x in ("none", "int:0", "str:x", "list", "obj", "class", "type:" + T[1])]
        other = [l for l, o in g.model.handles.items() if o["cls"] != T[1]]
        if other:
            r += [(f"handle:{rng.choice(other)}", T_)] * 4
        return r
    if k in ("vec", "slice"):
        return [(x, T_) for x in ("none", "int:1", "float:1.5", "obj", "gen", "set", "dict")]
    raise KeyError(T)


def corrupt(g, T, v, rng):
    """(value with one leaf that does not fit, exception)."""
    k = T[0]
    if k == "ref":
        return corrupt(g, T[1], v, rng)
    if k == "opt":
        inner = T[1]
        if v is not None and rng.random() < 0.7:
            x, e = corrupt(g, inner, v[0], rng)
            if isinstance(x, Bad):
                return (x,) if x.kind != "none" else None, e
            return (x,), e
        x, e = leaf(g, inner, rng)
        return (x,), e
    if k in ("vec", "slice"):
        if v and rng.random() < 0.7:
            i = rng.randrange(len(v))
            x, e = corrupt(g, T[1], v[i], rng)
            return v[:i] + [x] + v[i + 1:], e
        return leaf(g, T, rng)
    return leaf(g, T, rng)


def leaf(g, T, rng):
    while T[0] in ("ref", "opt"):
        T = T[1]
    k, e = rng.choice(bads(g, T, rng))
    return Bad(k), e


def gen_bad(g):
    rng, spec = g.rng, g.spec
    if rng.random() < 0.12:
        c = rng.choice(spec.classes)
        how = "any" if c.name in spec.cfg.get("noctor", []) else rng.choice(["none", "str:1", "int:2147483648", "int:-2147483649", "float:1.0", "no", "more", "unknown"])
        g.push({"op": "badnew", "cls": c.name, "how": how, "exc": O_ if how.startswith("int") else T_})
        return
    m = rng.choice(spec.methods)
    op = {"op": "bad", "m": m.idx, "args": [], "exc": T_}
    avoid = set()

    def inobj(T):
        l = g.handle(T[1], avoid)
        o = g.model.handles[l]
        avoid.update(l2 for l2, o2 in g.model.handles.items() if o2 is o)
        return ("h", l)
    if m.recv != "static":
        op["self"] = inobj(("cls", m.cls, "ref"))[1]
    for t in m.args:
        op["args"].append(ty.gen(t, rng, inobj))
    hows = ["extra", "unknown"]
    if m.args:
        hows += ["miss", "value", "value", "value", "value", "value", "value"]
        if "_" not in m.names():
            hows.append("twice")
    if m.recv != "static":
        hows.append("self")
    op["how"] = rng.choice(hows)
    if op["how"] == "value":
        ks = rng.sample(range(len(m.args)), len(m.args))
        i = ks[0]
        v, e = corrupt(g, m.args[i], op["args"][i], rng)
        if not has_bad(m.args[i], v) or noned(m.args[i], v):
            return
        op["args"][i], op["exc"] = v, e
    elif op["how"] == "self":
        other = [l for l, o in g.model.handles.items() if o["cls"] != m.cls and l not in avoid]
        if not other:
            return
        op["self"] = rng.choice(other)
    g.push(op)


def noned(T, v):
    """Is the misfit a None where None is fine?"""
    if T[0] == "ref":
        return noned(T[1], v)
    if T[0] == "opt":
        return v is None or (isinstance(v[0], Bad) and v[0].kind == "none") or (not isinstance(v[0], Bad) and noned(T[1], v[0]))
    if T[0] in ("vec", "slice") and not isinstance(v, Bad):
        return any(noned(T[1], x) for x in v if has_bad(T[1], x))
    return False


def has_bad(T, v):
    if isinstance(v, Bad):
        return True
    if T[0] == "ref":
        return has_bad(T[1], v)
    if T[0] == "opt":
        return v is not None and has_bad(T[1], v[0])
    if T[0] in ("vec", "slice"):
        return any(has_bad(T[1], x) for x in v)
    return False
