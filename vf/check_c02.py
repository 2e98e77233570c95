"""C02: every Rust object behind a C++ handle lives exactly as long as the handles that own it."""
from . import common, explore
from .cpp_objs import objs_spec, gen_history
from .rig import CppRig

RULE = ("a case is one operation of a random history (construct, destroy, move, assign, copy, swap, release, call that takes, "
        "lends or returns objects); after each one the set of live Rust objects is compared with the model; look/purge are trivial")


def main():
    ck = common.Check("C02", RULE, ["x86_64 Linux, g++ -std=c++17 with ASan/LSan/UBSan, rustc with debug assertions",
                                    "self-move-assignment of handles is not part of the property"])
    rounds = 8 if ck.thorough else 1
    common.build_fgen()
    for rd in range(rounds):
        n = 8 if ck.thorough else 6

        def job(k):
            rng = common.rng("C02", rd, k)
            spec = objs_spec(rng, 24)
            r = CppRig(spec, "c02")
            tag = f"round {rd} interface {k}"
            try:
                if not explore.build(ck, r, tag):
                    return
                for h in range(12 if ck.thorough else 5):
                    ops, exps = gen_history(spec, common.rng("C02", rd, k, h), 500)
                    if not explore.history(ck, r, spec, ops, exps, tag):
                        break
            finally:
                r.close()
        common.pool(job, range(n))
        ck.extra["interfaces"] = ck.extra.get("interfaces", 0) + n
        if ck.violations:
            break
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
