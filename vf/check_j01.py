"""J01: every value that crosses the Java border arrives unchanged, in both directions."""
from . import common, explore, javauniv
from .java_values import make_specs, gen_history
from .rig import JavaRig, java_deps
from .spec import Meth

RULE = ("a case is one call through the generated Java class into Rust and back; interfaces are random but together use every "
        "supported argument and return shape; a call is non-trivial when a value in it differs from the default of its type "
        "or an object takes part; cases are distinct by (signature, arguments, return value)")


TMP = "argument named tmp"


def probe(ck):
    """Exercises the known finding alone."""
    if not ck.is_known(TMP):
        return
    rng = common.rng("J01", TMP)
    s = javauniv.base_spec(rng)
    arc = next(c.name for c in s.classes if c.storage == "arc")
    s.methods = [Meth(0, "Stat", "static", [("p", "i32"), ("cls", arc, "val")], ("p", "i32"))]
    s.methods[0].argnames = ["tmp", "a"]
    s.finish()
    r = JavaRig(s, "j01")
    try:
        explore.build(ck, r, TMP, key=TMP)
    finally:
        r.close()


def main():
    ck = common.Check("J01", RULE, ["x86_64 Linux, OpenJDK 17 with -Xcheck:jni, rustc with debug assertions",
                                    "values outside Java's range for a type (u64 above i64::MAX, unpaired surrogates, dates before 1970) are not generated"])
    rounds = 8 if ck.thorough else 1
    per = 40 if ck.thorough else 20
    common.build_fgen()
    java_deps()
    for rd in range(rounds):
        rng = common.rng("J01", rd)
        specs = make_specs(rng, 6, 14 if rd else 8)

        def job(k):
            spec = specs[k]
            r = JavaRig(spec, "j01")
            try:
                tag = f"round {rd} interface {k}"
                if not explore.build(ck, r, tag):
                    return
                for h in range(6 if ck.thorough else 4):
                    ops, exps = gen_history(spec, common.rng("J01", rd, k, h), per)
                    if not explore.history(ck, r, spec, ops, exps, tag):
                        break
            finally:
                r.close()
        common.pool(job, range(len(specs)))
        ck.extra["interfaces"] = ck.extra.get("interfaces", 0) + len(specs)
        ck.extra["methods"] = ck.extra.get("methods", 0) + sum(len(s.methods) for s in specs)
        if ck.violations:
            break
    probe(ck)
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
