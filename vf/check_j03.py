"""J03: Java callbacks."""
from . import common, explore
from .java_cbs import cb_spec, driver_ops, OPTS
from .cbs import gen_history
from .rig import JavaRig, java_deps

RULE = ("a case is one operation: hand callback objects to Rust, let Rust call them (also nested, also from another thread), or drop them; "
        "cases are distinct by callbacks called, arguments and return values")


def main():
    ck = common.Check("J03", RULE, ["x86_64 Linux, OpenJDK 17 with -Xcheck:jni, rustc with debug assertions"])
    rounds = 6 if ck.thorough else 1
    common.build_fgen()
    java_deps()
    for rd in range(rounds):
        n = 8 if ck.thorough else 6

        def job(k):
            spec = cb_spec(common.rng("J03", rd, k))
            r = JavaRig(spec, "j03")
            tag = f"round {rd} interface {k}"
            try:
                if not explore.build(ck, r, tag, ext=driver_ops):
                    return
                for h in range(12 if ck.thorough else 5):
                    ops, exps = gen_history(spec, common.rng("J03", rd, k, h), 300, OPTS)
                    if not explore.history(ck, r, spec, ops, exps, tag):
                        break
            finally:
                r.close()
        common.pool(job, range(n))
        ck.extra["interfaces"] = ck.extra.get("interfaces", 0) + n
        if ck.violations:
            break
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
