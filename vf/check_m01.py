"""M01: type maps that the user writes are applied as written, wherever the type stands."""
from . import common, cppuniv, explore, umaps
from .types import P
from .cpp_values import deal, gen_history
from .cpp_cbs import cb_spec, driver_ops
from .cbs import gen_history as cb_history
from .cppuniv import Univ, std_classes
from .rig import CppRig
from .spec import Meth, Spec

RULE = ("a case is one call through an interface whose types are converted by random user-written type maps; a call is non-trivial "
        "when a value in it differs from the default of its type or an object takes part; cases are distinct by (signature, arguments, return value)")


class UnivM(Univ):
    """User-mapped types in every position, few others."""

    def __init__(self, rng, s, nest, top):
        Univ.__init__(self, rng, s.classes, s.enums, s.reprs)
        self.nest, self.top = nest, top
        c = [t for t in self.val if t[1] in ("Cp", "Am", "Rk")]
        self.other = [P(p) for p in rng.sample(["bool", "i8", "u16", "i32", "u64", "f64"], 3)] + self.E[:1] + [rng.choice(c)]

    def inner(self, d):
        return self.nest * 2 + self.other + [("wr", t) for t in self.rng.sample(self.nest + self.other, 2)]

    def basic(self, d):
        ts = self.nest + self.other
        wr = [("wr", t) for t in ts] + [("wr", ("opt", t)) for t in self.nest] + [("opt", ("wr", t)) for t in self.nest]
        der = {c.name: c.derives for c in self.classes}
        wb = [("wr", t, "We") for t in self.other if t[0] == "enum"] + [("wr", t, "Wk" if "Copy" in der[t[1]] else "Ws") for t in self.val if {"Copy", "SmartPtrCopy"} & set(der[t[1]])]
        wr += wb + [("opt", t) for t in wb] + [("wr", t) for t in wb]
        r = self.nest * 2 + self.top * 2 + wr + [("opt", t) for t in self.nest] + [("opt", ("opt", self.nest[0]))]
        r += [("tup", (t, self.rng.choice(ts))) for t in self.nest] + [("tup", (self.rng.choice(ts), t, self.rng.choice(self.nest))) for t in self.nest]
        r += [("ptr", self.rng.choice(["const", "mut"]), P(p)) for p in self.rng.sample(["i8", "u8", "i16", "i32", "u64", "f32", "f64"], 3)]
        if d == "out":
            r += [("res", t, e) for t, e in self.res_pairs()] + [("opt", t) for t in self.optref[:1]]
            r += [("fut", (t,)) for t in self.nest + self.other]
            r += [("cfn", tuple(P(self.rng.choice(["i8", "u16", "i32", "u64", "f64"])) for _ in range(n))) for n in (1, 2)]
        return r

    def foreign(self, t):
        """Two types with one C++ type make a variant<T, T> (known finding of C01)."""
        return self.maps[t[1]]["ctype"] if t[0] == "um" else t[1].replace("u", "uint").replace("i", "int", t[1][0] == "i") + "_t" if t[0] == "p" and t[1][0] in "iu" else t

    def res_pairs(self):
        rng = self.rng
        es = [t for t in self.nest if t[0] == "um"] + self.E[:1]
        r = [(("unit",), e) for e in es[:3]]
        for t in self.nest + self.other + [("wr", rng.choice(self.nest))]:
            e = rng.choice([e for e in es if e != t and self.foreign(e) != self.foreign(t)])
            r.append((t, e))
        return r


def setup(rng, s):
    s.classes = [c for c in std_classes(rng) if c.name != "Pc"]
    s.enums = [("En0", rng.randint(2, 7))]
    s.cfg.update(rng.choice([{}, {}, {"use_boost": True}, {"optional": "boost"}, {"separate_impl_headers": True}]))
    nest, top = umaps.cpp_maps(rng, s)
    u = UnivM(rng, s, nest, top)
    u.maps = s.cfg["umaps"]
    return u


def cpp_spec(rng, extra):
    s = Spec("cpp")
    u = setup(rng, s)
    return deal(s, rng, u.basic("in"), u.basic("out"), extra, u)


def main():
    ck = common.Check("M01", RULE, ["x86_64 Linux, g++ -std=c++17 with ASan/UBSan, rustc with debug assertions"])
    common.build_fgen()

    def job(k):
        rng = common.rng("M01", k)
        cb = k % 3 == 2
        spec = cb_spec(rng, setup) if cb else cpp_spec(rng, 8)
        tag = f"C++ {'callbacks' if cb else 'maps'} {k}"
        r = CppRig(spec, "m01")
        try:
            if not explore.build(ck, r, tag, **({"ext": driver_ops} if cb else {})):
                return
            for h in range(3 if ck.thorough else 2):
                hr = common.rng("M01", k, h)
                ops, exps = cb_history(spec, hr, 300) if cb else gen_history(spec, hr, 40 if ck.thorough else 15)
                if not explore.history(ck, r, spec, ops, exps, tag):
                    break
        finally:
            r.close()
        ck.extra["interfaces"] = ck.extra.get("interfaces", 0) + 1
        ck.extra["maps"] = ck.extra.get("maps", 0) + len(spec.cfg["umaps"])
    common.pool(job, range(36 if ck.thorough else 6))
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
