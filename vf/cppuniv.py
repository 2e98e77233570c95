"""C++ interface generator: which types are offered where."""
from . import types as ty
from .types import P, INTS, PRIMS
from .spec import Spec, Cls, Meth, is_mut

VECP = INTS + ["f32", "f64"]


class Univ:
    def __init__(self, rng, classes, enums, reprs):
        self.rng, self.classes, self.enums, self.reprs = rng, classes, enums, reprs
        self.val = [("cls", c.name, "val") for c in classes]
        self.E = [("enum", n, k) for n, k in enums]
        self.R = [("repr", n, f) for n, f in reprs]
        # classes whose objects are stored directly in vectors (for Rc<RefCell<..>> elements see known_findings.txt)
        self.elem = [("cls", c.name, "val") for c in classes if c.storage in ("plain", "clone") and not c.plainc]
        self.refable = [("cls", c.name, "ref") for c in classes]
        self.mutable = [("cls", c.name, "mut") for c in classes if c.storage not in ("arc", "rcplain")]
        self.optref = [("cls", c.name, "ref") for c in classes if c.storage in ("plain", "clone") and not c.plainc]

    def leaf(self, d):
        r = [P(p) for p in PRIMS] + [("String",), ("str",)] + self.E + self.val + self.R
        if d == "out":
            r += [("cls", c.name, "ref") for c in self.classes if c.storage in ("plain", "clone") and not c.plainc]
        return r

    def inner(self, d):
        """Types allowed inside Option/Result/tuples."""
        return [P(p) for p in PRIMS] + [("String",), ("str",)] + self.E + self.val

    def basic(self, d):
        """Every basic shape once."""
        r = self.leaf(d)
        if d == "in":
            r += [("path",)] + self.refable + self.mutable
            r += [("opt", t) for t in self.optref]
            r += [("opt", ("cls", t[1], "mut")) for t in self.optref]
            r += [("opt", ("cls", c.name, f)) for c in self.classes if c.plainc and c.storage in ("plain", "clone") for f in ("ref", "mut")]
            r += [("mslice", P(p)) for p in ("u8", "i32", "f64", "u64")] + [("mslice", t) for t in self.elem + self.R]
        else:
            r += [("opt", t) for t in self.optref]
            r += [("res", t, e) for t, e in self.res_pairs()]
        r += [("opt", t) for t in self.inner(d)]
        r += [("vec", P(p)) for p in VECP] + [("vec", t) for t in self.elem + self.R]
        r += [("slice", P(p)) for p in VECP] + [("slice", t) for t in self.elem + self.R]
        r += [("opt", ("vec", P("u8"))), ("opt", ("vec", self.elem[0])), ("opt", ("tup", (P("i32"), P("u8")))), ("opt", ("opt", P("i32")))]
        r += [("tup", (t, P("u16"))) for t in self.inner(d)[::2]] + [("tup", (P("i64"), t)) for t in self.inner(d)[1::2]]
        r += [("tup", (P("f32"), t, P("bool"))) for t in self.inner(d)[::3]]
        return r

    def res_pairs(self):
        rng = self.rng
        errs = [("String",), ("str",)] + self.E + self.val[:2]
        r = [(("unit",), e) for e in errs]
        for i, t in enumerate(self.inner("out") + [("vec", P("u8")), ("vec", self.elem[0]), ("opt", P("i32")), ("tup", (P("i32"), ("String",)))]):
            es = [e for e in errs if e != t]
            r.append((t, es[i % len(es)]))
        return r

    def rand(self, d, depth=2):
        rng = self.rng
        k = rng.random()
        if depth == 0 or k < 0.3:
            return rng.choice(self.inner(d))
        if k < 0.5:
            t = self.rand(d, depth - 1)
            return ("opt", t)
        if k < 0.75:
            n = rng.choice([2, 2, 3])
            return ("tup", tuple(self.rand(d, depth - 1) for _ in range(n)))
        if k < 0.85:
            return ("vec", rng.choice([P(rng.choice(VECP))] + self.elem))
        if d == "out":
            t, e = rng.choice(self.res_pairs())
            return ("res", t, e)
        return rng.choice(self.inner(d))


def std_classes(rng):
    return ([Cls("Pc", rng.choice(["plain", "clone", "plain", "rc", "arc"]), rng.randint(0, 9), ["PlainClass"])] if rng.random() < 0.8 else []) + [Cls("Kp", "plain", rng.randint(0, 40)), Cls("Rk", "rc", rng.randint(0, 9), rng.choice([[], ["SmartPtrCopy"]])),
            Cls("Am", "arcmutex", rng.randint(0, 9), rng.choice([[], ["SmartPtrCopy"]])),
            Cls("Ak", "arc", rng.randint(0, 9), ["SmartPtrCopy"]), Cls("Cp", "clone", rng.randint(0, 40), ["Copy"])]


def base_spec(rng, lang="cpp"):
    s = Spec(lang)
    s.classes = std_classes(rng)
    s.no_ctors(rng)
    s.enums = [("En0", rng.randint(2, 7)), ("En1", 1), ("En2", rng.choice([257, 258, 300]))]
    s.reprs = [("Rr", tuple(P(rng.choice(["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "f32", "f64"])) for _ in range(rng.randint(1, 5))))]
    return s
