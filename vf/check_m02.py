"""M02: user type maps of the Java back end are applied as written, wherever the type stands."""
from . import common, explore, javauniv, jumaps, types as ty
from .types import P
from .rig import JavaRig, java_deps
from .java_values import deal, gen_history
from .java_cbs import cb_spec, driver_ops, OPTS
from .cbs import gen_history as cb_history

RULE = ("a case is one call through an interface whose types are converted by random user-written type maps; a call is non-trivial "
        "when a value in it differs from the default of its type or an object takes part; cases are distinct by (signature, arguments, return value)")
STR = ("String",)
CONFIGS = [{}, {}, {"null_annotation": "org.ann"}, {"optional_package": "o.p"}, {"fence": "30"}]


class UnivM(javauniv.Univ):
    def __init__(self, rng, s, every):
        javauniv.Univ.__init__(self, rng, s.classes, s.enums)
        self.every, self.spec = every, s

    def wt(self, t, w="t"):
        return ("nt", "W%s<%s>" % (w, ty.rust(t, self.spec)), t)

    def basic(self, d):
        rng = self.rng
        other = [P(p) for p in rng.sample(javauniv.IN, 4)] + [STR, ("str",)] + self.E[:2] + self.val[:3]
        r = self.every * 3 + other
        if d == "out":
            r += [("res", t, rng.choice([STR, ("str",)])) for t in self.every]
            ws = [P(p) for p in rng.sample(javauniv.OUT, 5)] + [STR] + self.E[:1] + self.val + [("vec", STR), ("vec", P("i32"))] + [("vec", t) for t in self.val[:2]]
            ws += [t for t in self.every if t[0] == "um"] + [("opt", P("i32")), ("opt", STR), ("date",)]
            s_maps = self.spec.cfg["umaps"]
            der = {c.name: c.derives for c in self.spec.classes}
            ws = [self.wt(t) for t in ws] + [self.wt(t, "b") for t in self.E[:2] + [t for t in self.val if der.get(t[1])]]
            conv = [t for t in self.every if t[0] == "um" and s_maps[t[1]]["kind"] not in ("prim", "plain")]
            ws += [self.wt(t, "v") for t in self.E[:2] + self.val + conv + conv]
            r += ws + [self.wt(t) for t in rng.sample(ws, 3)] + [("res", t, STR) for t in rng.sample(ws, 4)]
        return r


def setup(rng, s):
    s.cfg.update(rng.choice(CONFIGS))
    return jumaps.java_maps(rng, s)


def spec_of(rng, extra):
    s = javauniv.base_spec(rng)
    a, b = setup(rng, s)
    u = UnivM(rng, s, a + b)
    return deal(s, rng, u.basic("in"), u.basic("out"), extra, u)


def main():
    ck = common.Check("M02", RULE, ["x86_64 Linux, OpenJDK 17 with -Xcheck:jni, rustc with debug assertions"])
    common.build_fgen()
    java_deps()

    def job(k):
        rng = common.rng("M02", k)
        cb = k % 3 == 2
        spec = cb_spec(rng, setup) if cb else spec_of(rng, 10)
        tag = f"Java {'callbacks' if cb else 'maps'} {k}"
        r = JavaRig(spec, "m02")
        try:
            if not explore.build(ck, r, tag, **({"ext": driver_ops} if cb else {})):
                return
            for h in range(6 if ck.thorough else 3):
                hr = common.rng("M02", k, h)
                ops, exps = cb_history(spec, hr, 300, OPTS) if cb else gen_history(spec, hr, 25 if ck.thorough else 12)
                if not explore.history(ck, r, spec, ops, exps, tag):
                    break
        finally:
            r.close()
        ck.extra["interfaces"] = ck.extra.get("interfaces", 0) + 1
        ck.extra["maps"] = ck.extra.get("maps", 0) + len(spec.cfg["umaps"])
    common.pool(job, range(48 if ck.thorough else 9))
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
