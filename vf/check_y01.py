"""Y01: every value that crosses the Python border arrives unchanged, in both directions."""
from . import common, explore
from .py_values import make_specs, gen_history
from .rig import PyRig, python_deps

RULE = ("a case is one call through the generated Python class into Rust and back; interfaces are random but together use every "
        "supported argument and return shape; a call is non-trivial when a value in it differs from the default of its type "
        "or an object takes part; cases are distinct by (signature, arguments, return value)")


def main():
    ck = common.Check("Y01", RULE, ["x86_64 Linux, CPython 3.12, rust-cpython 0.7.2, rustc with debug assertions"])
    rounds = 8 if ck.thorough else 1
    per = 40 if ck.thorough else 20
    common.build_fgen()
    python_deps()
    for rd in range(rounds):
        rng = common.rng("Y01", rd)
        specs = make_specs(rng, 6, 14 if rd else 8)

        def job(k):
            spec = specs[k]
            r = PyRig(spec, "y01")
            try:
                tag = f"round {rd} interface {k}"
                if not explore.build(ck, r, tag):
                    return
                for h in range(6 if ck.thorough else 4):
                    ops, exps = gen_history(spec, common.rng("Y01", rd, k, h), per)
                    if not explore.history(ck, r, spec, ops, exps, tag):
                        break
            finally:
                r.close()
        common.pool(job, range(len(specs)))
        ck.extra["interfaces"] = ck.extra.get("interfaces", 0) + len(specs)
        ck.extra["methods"] = ck.extra.get("methods", 0) + sum(len(s.methods) for s in specs)
        if ck.violations:
            break
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
