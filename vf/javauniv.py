"""Java interface generator: which types are offered where."""
from . import types as ty
from .types import P
from .spec import Spec, Cls, Meth

IN = ["bool", "i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "usize", "f32", "f64"]
OUT = IN + ["isize"]
OPT = ["i8", "i16", "i32", "i64", "f32", "f64"]
ARR = ["i8", "i16", "i32", "i64", "f32", "f64"]
STR = ("String",)


def lim(t, v):
    """Java's long holds no more."""
    return v & (2**63 - 1) if t in ("u64", "usize") else v


class Univ:
    def __init__(self, rng, classes, enums):
        self.rng, self.classes = rng, classes
        self.E = [("enum", n, k) for n, k in enums]
        self.val = [("cls", c.name, "val") for c in classes]
        self.direct = [("cls", c.name, "val") for c in classes if c.storage in ("plain", "clone", "pod")]
        self.refs = [("cls", c.name, "ref") for c in classes]
        self.muts = [("cls", c.name, "mut") for c in classes if c.storage not in ("arc", "rcplain")]
        # elements of array arguments are cloned
        self.velem = [("cls", c.name, "val") for c in classes if c.storage in ("clone", "pod")]

    def basic(self, d):
        r = [P(p) for p in (IN if d == "in" else OUT)] + [STR, ("str",)] + self.E + self.val
        r += [("opt", P(p)) for p in OPT] + [("opt", t) for t in self.E + self.val]
        if d == "in":
            r += [("path",), ("opt", ("str",))] + self.refs + self.muts
            r += [("opt", ("cls", t[1], "ref")) for t in self.direct]
            r += [("slice", P(p)) for p in ARR] + [("vec", t) for t in self.velem]
        else:
            r += [("opt", STR), ("date",)]
            r += [("vec", P(p)) for p in ARR] + [("slice", P(p)) for p in ARR] + [("mslice", P("i32"))]
            r += [("vec", STR)] + [("vec", t) for t in self.val]
            r += [("res", t, e) for t in self.oks() for e in [self.rng.choice([STR, ("str",)])]]
        return r

    def oks(self):
        return ([P(p) for p in OUT] + [STR, ("str",), ("unit",)] + self.val + [("vec", t) for t in self.val] +
                [("vec", STR), ("vec", P("i32")), ("vec", P("f64")), ("opt", P("i32")), ("opt", P("f64")), ("opt", STR), ("slice", P("i32")), ("date",)] +
                [("opt", t) for t in self.direct] + self.E)

    def rand(self, d):
        return self.rng.choice(self.basic(d))


def std_classes(rng):
    spc = lambda: rng.choice([[], ["SmartPtrCopy"]])
    return [Cls("Kp", "plain", rng.randint(0, 40)), Cls("Rk", "rc", rng.randint(0, 9), spc()), Cls("Am", "arcmutex", rng.randint(0, 9), spc()),
            Cls("Ak", "arc", rng.randint(0, 9), ["SmartPtrCopy"]), Cls("Cp", "clone", rng.randint(0, 40), ["Copy"]),
            Cls("Cl", "clone", rng.randint(0, 9), ["Clone"]), Cls("Po", "pod", rng.randint(0, 9), ["Copy"])]


def base_spec(rng):
    s = Spec("java")
    s.cfg["fence"] = "std"
    s.classes = std_classes(rng)
    s.no_ctors(rng)
    s.enums = [("En0", rng.randint(2, 7)), ("En1", 1), ("En2", rng.choice([256, 257, 300]))]
    return s
