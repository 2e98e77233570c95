"""C04: C++ callbacks."""
from . import common, explore
from .cpp_cbs import cb_spec, driver_ops
from .cbs import gen_history
from .rig import CppRig

RULE = ("a case is one operation: hand callback objects to Rust, let Rust call them (also nested, also from another thread), or drop them; "
        "cases are distinct by callbacks called, arguments and return values")


def main():
    ck = common.Check("C04", RULE, ["x86_64 Linux, g++ -std=c++17 with ASan/LSan/UBSan, rustc with debug assertions"])
    rounds = 6 if ck.thorough else 1
    common.build_fgen()
    for rd in range(rounds):
        n = 8 if ck.thorough else 6

        def job(k):
            spec = cb_spec(common.rng("C04", rd, k))
            r = CppRig(spec, "c04")
            tag = f"round {rd} interface {k}"
            try:
                if not explore.build(ck, r, tag, ext=driver_ops):
                    return
                for h in range(12 if ck.thorough else 5):
                    ops, exps = gen_history(spec, common.rng("C04", rd, k, h), 300)
                    if not explore.history(ck, r, spec, ops, exps, tag):
                        break
            finally:
                r.close()
        common.pool(job, range(n))
        ck.extra["interfaces"] = ck.extra.get("interfaces", 0) + n
        if ck.violations:
            break
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
