"""C03: the C++ container classes behave like the sequences they stand for."""
from . import common, explore
from .cpp_cont import cont_spec, driver_ops, gen_history
from .rig import CppRig

RULE = ("a case is one operation on a container (vector of numbers, structs or objects, slice, string): make, move, assign, swap, copy, "
        "clear, release, hand to Rust whole or as (mutable) slice, write, sort, push, remove, walk with iterators; looking is trivial")


def main():
    ck = common.Check("C03", RULE, ["x86_64 Linux, g++ -std=c++17 with ASan/LSan/UBSan, rustc with debug assertions"])
    rounds = 6 if ck.thorough else 1
    common.build_fgen()
    for rd in range(rounds):
        n = 8 if ck.thorough else 4

        def job(k):
            rng = common.rng("C03", rd, k)
            spec = cont_spec(rng)
            r = CppRig(spec, "c03")
            tag = f"round {rd} interface {k}"
            try:
                if not explore.build(ck, r, tag, ext=driver_ops):
                    return
                for h in range(16 if ck.thorough else 8):
                    ops, exps = gen_history(spec, common.rng("C03", rd, k, h), 500)
                    if not explore.history(ck, r, spec, ops, exps, tag):
                        break
            finally:
                r.close()
        common.pool(job, range(n))
        ck.extra["interfaces"] = ck.extra.get("interfaces", 0) + n
        if ck.violations:
            break
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
