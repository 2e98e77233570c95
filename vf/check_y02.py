"""Y02: a Rust object behind a Python object lives until the last reference to the Python object goes away."""
from . import common, explore
from .py_objs import objs_spec, gen_history
from .rig import PyRig, python_deps

RULE = ("a case is one operation of a random history (construct, drop a reference, alias, call that copies, lends or returns objects, "
        "alone or in sequences and tuples); after each one the set of live Rust objects is compared with the model; look/purge are trivial")


def main():
    ck = common.Check("Y02", RULE, ["x86_64 Linux, CPython 3.12, rust-cpython 0.7.2, rustc with debug assertions"])
    rounds = 8 if ck.thorough else 1
    common.build_fgen()
    python_deps()
    for rd in range(rounds):
        n = 8

        def job(k):
            rng = common.rng("Y02", rd, k)
            spec = objs_spec(rng, 24)
            r = PyRig(spec, "y02")
            tag = f"round {rd} interface {k}"
            try:
                if not explore.build(ck, r, tag):
                    return
                for h in range(12 if ck.thorough else 6):
                    ops, exps = gen_history(spec, common.rng("Y02", rd, k, h), 500, 2)
                    if not explore.history(ck, r, spec, ops, exps, tag):
                        break
            finally:
                r.close()
        common.pool(job, range(n))
        ck.extra["interfaces"] = ck.extra.get("interfaces", 0) + n
        if ck.violations:
            break
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
