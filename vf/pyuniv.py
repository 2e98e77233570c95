"""Python interface generator: which types are offered where."""
from . import types as ty
from .types import P, PRIMS
from .spec import Spec, Cls, Meth

STR = ("String",)
ERR = ("err",)


class Univ:
    def __init__(self, rng, classes, enums):
        self.rng, self.classes = rng, classes
        self.E = [("enum", n, k) for n, k in enums]
        self.val = [("cls", c.name, "val") for c in classes]
        copy = lambda c: "Clone" in c.derives or "Copy" in c.derives
        shared = ("arc", "arcmutex")
        # objects by value are cloned: the class has to allow that
        self.inval = [("cls", c.name, "val") for c in classes if c.storage in shared or c.storage in ("clone", "pod")]
        self.inner = [("cls", c.name, "inner") for c in classes if copy(c) and c.storage in ("arc", "arcmutex", "box", "mutex")]
        self.refs = [("cls", c.name, "ref") for c in classes]
        self.muts = [("cls", c.name, "mut") for c in classes if c.storage not in ("arc", "box")]
        self.srefs = [("ref", ("cls", c.name, "val")) for c in classes if c.storage in ("arc", "arcmutex", "mutex")]
        self.outinner = [("cls", c.name, "inner") for c in classes if c.storage in ("box", "mutex")]
        self.outref = ([("cls", c.name, "ref") for c in classes if copy(c) and c.storage in ("clone", "pod", "box", "mutex")] +
                       [("ref", ("cls", c.name, "val")) for c in classes if c.storage in shared])
        # elements of slices Rust lends have to be Clone in Rust
        self.lend = [("cls", c.name, "val") for c in classes if c.storage in shared or c.storage in ("clone", "pod")]

    def small(self, d):
        r = [P(p) for p in PRIMS] + [STR, ("str",)] + self.E
        return r + (self.inval + self.inner if d == "in" else self.val + self.outinner)

    def basic(self, d):
        s = self.small(d)
        e = [t for t in s if d == "out" or t[0] != "str"]     # no references as elements of arguments
        r = list(s) + [("opt", t) for t in s] + [("vec", t) for t in e] + [("ref", P(p)) for p in PRIMS] + [("ref", STR)] + [("ref", t) for t in self.E]
        r += [("vec", ("vec", t)) for t in e[::4]] + [("opt", ("vec", t)) for t in e[1::4]] + [("vec", ("opt", t)) for t in e[2::4]]
        if d == "in":
            r += self.refs + self.muts + self.srefs + [("slice", t) for t in e]
            r += [("slice", ("vec", P("u8"))), ("ref", ("vec", P("i16"))), ("ref", ("opt", P("i32")))]
        else:
            r += self.outref + [("slice", P(p)) for p in PRIMS] + [("slice", STR), ("slice", ("str",))] + [("slice", t) for t in self.E + self.lend]
            r += [("opt", t) for t in self.outref] + [("vec", t) for t in self.outref[:2]]
            r += [("ref", ("vec", P("i32"))), ("ref", ("opt", STR)), ("slice", ("vec", P("u8"))), ("slice", ("opt", P("i64")))]
            r += [("res", t, self.err()) for t in s + [("unit",), ("vec", P("u8")), ("opt", P("i32")), ("slice", P("i32")), ("tup", (P("u8"), STR))] + self.outref]
            r += [("tup", (t, P("u16"))) for t in s[::2]] + [("tup", (P("i64"), t)) for t in s[1::2]] + [("tup", (P("f32"), t, P("bool"))) for t in s[::3]]
            r += [("tup", (("tup", (P("u8"), STR)), ("opt", P("i8")), ("vec", P("f64")), self.rng.choice(self.E))),
                  ("opt", ("tup", (P("i32"), STR))), ("vec", ("tup", (P("i32"), P("bool")))), ("tup", (P("u8"), ("tup", (P("i32"), ("tup", (STR, P("i64")))))))]
        return r

    def err(self):
        return self.rng.choice([ERR, ERR] + [("eerr", t[1], t[2]) for t in self.E])

    def rand(self, d, depth=2):
        rng = self.rng
        if depth and rng.random() < 0.35:
            k = rng.choice(["opt", "vec", "tup" if d == "out" else "slice", "res" if d == "out" and depth == 2 else "vec"])
            sub = self.rand(d, depth - 1)
            if k == "tup":
                t = ("tup", tuple(self.rand(d, depth - 1) for _ in range(rng.choice([2, 3, 4]))))
                return t if ok(t, d) else sub
            if k == "res":
                t = ("res", sub, self.err())
                return t if ok(t, d) else sub
            if k == "opt" and sub[0] == "opt":
                return sub
            t = (k, sub)
            return t if ok(t, d) else sub
        return rng.choice(self.basic(d))


def ok(t, d):
    """Combinations with a borrow inside Option or Vec are listed one by one in basic()."""
    for x in ty.walk(t):
        if x is not t and d == "in" and (x[0] in ("ref", "slice", "str") or (x[0] == "cls" and x[2] in ("ref", "mut"))):
            return False
        if x[0] == "res" and x is not t:
            return False
        if x[0] in ("slice", "ref") and any(y[0] == "cls" and y[2] != "ref" and y[1] in ("Kp", "Mx", "Bo") for y in ty.walk(x)):
            return False    # not Clone in Rust
    return True


def std_classes(rng):
    return [Cls("Kp", "plain", rng.randint(0, 40)), Cls("Cl", "clone", rng.randint(0, 9), ["Clone"]), Cls("Po", "pod", rng.randint(0, 9), ["Copy"]),
            Cls("Mx", "mutex", rng.randint(0, 9)), Cls("Mc", "mutex", rng.randint(0, 9), ["Clone"]), Cls("Ak", "arc", rng.randint(0, 9)),
            Cls("Ac", "arc", rng.randint(0, 9), ["Clone"]), Cls("Am", "arcmutex", rng.randint(0, 9)), Cls("Amc", "arcmutex", rng.randint(0, 9), ["Clone"]),
            Cls("Bo", "box", rng.randint(0, 9)), Cls("Bc", "box", rng.randint(0, 9), ["Clone"])]


def base_spec(rng):
    s = Spec("python")
    s.classes = std_classes(rng)
    s.no_ctors(rng)
    s.enums = [("En0", rng.randint(2, 7)), ("En1", 1), ("En2", rng.choice([256, 257, 300]))]
    return s
