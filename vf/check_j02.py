"""J02: a Rust object behind a Java object lives until delete() or finalization, and is dropped exactly once."""
from . import common, explore
from .java_objs import objs_spec, gen_history
from .rig import JavaRig, java_deps

RULE = ("a case is one operation of a random history (construct, delete, forget and collect garbage, call that takes, lends or "
        "returns objects, alone or in arrays); after each one the set of live Rust objects is compared with the model; "
        "look/purge are trivial")


def main():
    ck = common.Check("J02", RULE, ["x86_64 Linux, OpenJDK 17 with -Xcheck:jni, rustc with debug assertions",
                                    "use of an object after delete() or after it was handed over is not part of the property"])
    rounds = 8 if ck.thorough else 1
    common.build_fgen()
    java_deps()
    for rd in range(rounds):
        n = 8

        def job(k):
            rng = common.rng("J02", rd, k)
            spec = objs_spec(rng, 24)
            r = JavaRig(spec, "j02")
            tag = f"round {rd} interface {k}"
            try:
                if not explore.build(ck, r, tag):
                    return
                for h in range(12 if ck.thorough else 5):
                    ops, exps = gen_history(spec, common.rng("J02", rd, k, h), 400)
                    if not explore.history(ck, r, spec, ops, exps, tag):
                        break
            finally:
                r.close()
        common.pool(job, range(n))
        ck.extra["interfaces"] = ck.extra.get("interfaces", 0) + n
        if ck.violations:
            break
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
