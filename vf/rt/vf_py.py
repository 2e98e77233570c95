"""Runs a script against a generated Python module.  Usage: vf_py.py DIR (with glue module and spec.json)."""
import ctypes
import importlib
import json
import os
import struct
import sys

d = sys.argv[1]
sys.path.insert(0, d)
spec = json.load(open(d + "/spec.json"))
mod = importlib.import_module(spec["module"])
lib = ctypes.PyDLL(d + "/" + spec["module"] + ".so")
vf_op, vf_purge = lib.vf_op, lib.vf_purge
vf_op.argtypes = [ctypes.c_int64]

H = {}
ENUM = {n: {getattr(getattr(mod, n), f"{n}I{i}"): i for i in range(k)} for n, k in spec["enums"]}
CLS = {c: getattr(mod, c) for c in spec["classes"]}
STAT = getattr(mod, "Stat")


class Weird:
    pass


class Ctx:
    def __init__(self, toks):
        self.t, self.pos, self.out, self.dst = toks, 0, [], []
        self.extra = 10**9

    def tok(self):
        self.pos += 1
        return self.t[self.pos - 1]

    def num(self):
        return int(self.tok()[1:])

    def next_dst(self):
        if not self.dst:
            self.raw("UNEXPECTED-OBJECT")
            self.extra += 1
            return self.extra
        return self.dst.pop(0)

    def raw(self, s):
        self.out.append(s)


def bad(kind):
    k, _, v = kind.partition(":")
    return {"none": lambda: None, "int": lambda: int(v), "float": lambda: float(v), "str": lambda: v, "list": lambda: [], "dict": lambda: {},
            "set": lambda: {1}, "bytes": lambda: b"ab", "surr": lambda: "a\ud800b", "obj": lambda: Weird(), "true": lambda: True,
            "class": lambda: STAT, "handle": lambda: H[int(v)], "big": lambda: 10**400, "type": lambda: CLS[v], "gen": lambda: (x for x in [1])}[k]()


def rd(c, T):
    if c.t[c.pos][0] == "!":
        return bad(c.tok()[1:])
    k = T[0]
    if k == "p":
        s = c.tok()
        if T[1] == "bool":
            return s == "b1"
        if T[1] == "f32":
            return float("nan") if s == "gnan" else struct.unpack("<f", struct.pack("<I", int(s[1:])))[0]
        if T[1] == "f64":
            return float("nan") if s == "fnan" else struct.unpack("<d", struct.pack("<Q", int(s[1:])))[0]
        return int(s[1:])
    if k in ("String", "str"):
        return bytes.fromhex(c.tok()[1:]).decode()
    if k == "enum":
        return getattr(getattr(mod, T[1]), f"{T[1]}I{c.num()}")
    if k == "cls":
        return H[c.num()]
    if k == "ref":
        return rd(c, T[1])
    if k == "opt":
        return None if c.tok() == "N" else rd(c, T[1])
    if k in ("vec", "slice"):
        n = c.num()
        v = [rd(c, T[1]) for _ in range(n)]
        # any sequence will do
        return tuple(v) if (c.line + c.pos) % 3 == 0 else v
    raise KeyError(T)


def obj(c, v, cls):
    if type(v) is not CLS[cls]:
        c.raw(f"TYPE-DIFFERS:{type(v).__name__}")
    c.raw(f"c{v.vid()}:{v.vpay()}")


def en(c, T, v):
    k = T[0]
    t = type(v)
    if k == "p":
        p = T[1]
        if p == "bool":
            c.raw(("b1" if v else "b0") if t is bool else f"TYPE-DIFFERS:{t.__name__}")
        elif p in ("f32", "f64"):
            if t is not float:
                c.raw(f"TYPE-DIFFERS:{t.__name__}")
            elif v != v:
                c.raw("gnan" if p == "f32" else "fnan")
            elif p == "f32":
                b = struct.pack("<f", v)
                c.raw("g%d" % struct.unpack("<I", b)[0] if struct.unpack("<f", b)[0] == v else "VALUE-DIFFERS")
            else:
                c.raw("f%d" % struct.unpack("<Q", struct.pack("<d", v))[0])
        else:
            c.raw("i%d" % v if t is int else f"TYPE-DIFFERS:{t.__name__}")
    elif k in ("String", "str"):
        c.raw("s" + v.encode("utf-8", "surrogatepass").hex() if t is str else f"TYPE-DIFFERS:{t.__name__}")
    elif k == "unit":
        c.raw("u" if v is None else f"TYPE-DIFFERS:{t.__name__}")
    elif k == "enum":
        c.raw("e%d" % ENUM[T[1]].get(v, -1) if t is int else f"TYPE-DIFFERS:{t.__name__}")
    elif k == "cls":
        obj(c, v, T[1])
        H[c.next_dst()] = v
    elif k == "ref":
        en(c, T[1], v)
    elif k == "opt":
        if v is None:
            c.raw("N")
        else:
            c.raw("S")
            en(c, T[1], v)
    elif k in ("vec", "slice"):
        if t is not list:
            c.raw(f"TYPE-DIFFERS:{t.__name__}")
        c.raw("V%d" % len(v))
        for x in v:
            en(c, T[1], x)
    elif k == "tup":
        c.raw("T%d" % len(v) if t is tuple else f"TYPE-DIFFERS:{t.__name__}")
        for x, y in zip(T[1], v):
            en(c, x, y)
    else:
        raise KeyError(T)


def same(a, b):
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    return a is b or a == b or (a != a and b != b)


def deep(v):
    return type(v)(deep(x) for x in v) if isinstance(v, (list, tuple)) else v


def target(c, m):
    if m["recv"] == "static":
        return getattr(STAT if m["cls"] == "Stat" else CLS[m["cls"]], m["name"])
    # through the object or, with the object as first argument, through the class
    o = H[c.num()]
    if c.line % 5 == 0:
        f = getattr(CLS[m["cls"]], m["name"])
        return lambda *a, **k: f(o, *a, **k)
    return getattr(o, m["name"])


def invoke(c, m, f, args):
    kw = {}
    if m["names"] and c.line % 3 == 1:
        # by keyword
        n = (c.line // 3) % (len(args) + 1)
        ks = list(zip(m["names"][n:], args[n:]))
        if c.line % 2:
            ks.reverse()
        kw, args = dict(ks), args[:n]
    return f(*args, **kw)


def call(c, m):
    f = target(c, m)
    args = [rd(c, T) for T in m["args"]]
    before = deep(args)
    R = m["ret"]
    if R[0] == "res":
        try:
            v = invoke(c, m, f, args)
        except mod.Error as e:
            if type(e) is not mod.Error or len(e.args) != 1:
                c.raw("TYPE-DIFFERS")
            c.raw("E")
            en(c, ("String",), str(e))
        else:
            c.raw("O")
            en(c, R[1], v)
            v = None
    else:
        v = invoke(c, m, f, args)
        en(c, R, v)
        v = None
    if not same(args, before):
        c.raw("ARG-DIFFERS")


def badcall(c, m):
    o = None if m["recv"] == "static" else H[c.num()]
    how = c.tok()
    if how == "self":
        g = getattr(CLS[m["cls"]], m["name"])
        f = lambda *a, **k: g(o, *a, **k)
    elif o is None:
        f = target(c, m)
    else:
        f = getattr(o, m["name"])
    args = [rd(c, T) for T in m["args"]]
    kw = {}
    if how == "miss":
        args.pop()
    elif how == "extra":
        args.append(1)
    elif how == "unknown":
        kw["no_such_arg"] = 1
    elif how == "twice":
        kw[m["names"][0]] = args[0]
    refused(c, lambda: f(*args, **kw))


def refused(c, f):
    try:
        v = f()
    except (TypeError, OverflowError, ValueError) as e:
        c.raw("RAISED " + next(x.__name__ for x in (TypeError, OverflowError, ValueError) if isinstance(e, x)))
    except BaseException as e:
        c.raw(f"EXC:{type(e).__name__}:{str(e)!r}".replace(" ", "_"))
    else:
        c.raw("NOT-RAISED")


def run():
    out = open(os.environ["VF_OUT"], "w", encoding="utf-8")
    for n, line in enumerate(open(os.environ["VF_SCRIPT"], encoding="utf-8").read().split("\n")[:-1]):
        c = Ctx(line.split("\t")[0].split())
        c.line = n
        c.dst = []
        k = c.num()
        for _ in range(k):
            c.dst.append(int(c.tok()))
        op = c.tok()
        vf_op(n)
        try:
            step(c, op)
        except BaseException as e:
            c.raw(f"EXC:{type(e).__name__}:{str(e)!r}".replace(" ", "_"))
            e = None
        if c.dst:
            c.raw("MISSING-OBJECT")
        out.write(f"{n} {' '.join(c.out)}\n")
        out.flush()
        c = None
    vf_op(-1)


def step(c, op):
    if op == "purge":
        vf_purge()
        c.raw("u")
    elif op.startswith("call"):
        call(c, spec["methods"][op[4:]])
    elif op.startswith("bad"):
        badcall(c, spec["methods"][op[3:]])
    else:
        k, cls = op.split("_", 1)
        if k == "newbad":
            how = c.tok()[1:]
            good = [1]
            if cls in spec.get("noctor", ()):
                f = lambda: CLS[cls](*good)
            elif how == "no":
                f = lambda: CLS[cls]()
            elif how == "more":
                f = lambda: CLS[cls](*good, 1)
            elif how == "unknown":
                f = lambda: CLS[cls](*good, no_such_arg=1)
            else:
                f = lambda: CLS[cls](bad(how), *good[1:])
            refused(c, f)
        elif k == "new":
            o = (CLS[cls].mk_obj if cls in spec.get("noctor", ()) else CLS[cls])(c.num())
            if type(o) is not CLS[cls]:
                c.raw("TYPE-DIFFERS")
            H[c.next_dst()] = o
            c.raw("u")
        elif k == "del":
            del H[c.num()]
            c.raw("u")
        elif k == "alias":
            H[c.next_dst()] = H[c.num()]
            c.raw("u")
        elif k == "look":
            obj(c, H[c.num()], cls)
        else:
            raise KeyError(op)


run()
sys.stdout.flush()
