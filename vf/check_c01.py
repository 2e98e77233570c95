"""C01: every value that crosses the C++ border arrives unchanged, in both directions."""
from . import common, cppuniv, engine, explore
from .cpp_values import make_specs, gen_history
from .rig import CppRig
from .spec import Meth

RULE = ("a case is one call through the generated C++ header into Rust and back; interfaces are random but together use every "
        "supported argument and return shape; a call is non-trivial when a value in it differs from the default of its type "
        "or an object takes part; cases are distinct by (signature, arguments, return value)")


def probe(ck, key, meth, env=(), **cfg):
    """Exercises a known finding: the call alone, so that nothing else is hidden by it."""
    if not ck.is_known(key):
        return
    rng = common.rng("C01", key)
    s = cppuniv.base_spec(rng)
    s.methods = [meth]
    s.cfg.update(cfg)
    s.finish()
    r = CppRig(s, "c01")
    r.env = dict(env)
    try:
        if explore.build(ck, r, key):
            ops, exps = gen_history(s, rng, 400)
            explore.history(ck, r, s, ops, exps, key, keyfn=lambda *a: key)
    finally:
        r.close()


def main():
    ck = common.Check("C01", RULE, ["x86_64 Linux, g++ -std=c++17 with ASan/UBSan, rustc with debug assertions"])
    rounds = 6 if ck.thorough else 1
    per = 60 if ck.thorough else 25
    common.build_fgen()
    for rd in range(rounds):
        rng = common.rng("C01", rd)
        specs = make_specs(rng, 6, 14 if rd else 8)

        def job(k):
            spec = specs[k]
            r = CppRig(spec, "c01")
            try:
                tag = f"round {rd} interface {k}"
                if not explore.build(ck, r, tag):
                    return
                for h in range(3 if ck.thorough else 2):
                    ops, exps = gen_history(spec, common.rng("C01", rd, k, h), per)
                    if not explore.history(ck, r, spec, ops, exps, tag):
                        break
            finally:
                r.close()
        common.pool(job, range(len(specs)))
        ck.extra["interfaces"] = ck.extra.get("interfaces", 0) + len(specs)
        ck.extra["methods"] = ck.extra.get("methods", 0) + sum(len(s.methods) for s in specs)
        if ck.violations:
            break
    probe(ck, "rc vectors: wrong elements", Meth(0, "Stat", "static", [], ("vec", ("cls", "Rk", "val"))))
    probe(ck, "null string_view argument", Meth(0, "Stat", "static", [("str",)], ("p", "i32")), {"VF_NULL_STR": "1"})
    probe(ck, "Result of one C++ type", Meth(0, "Stat", "static", [], ("res", ("p", "i32"), ("p", "i32"))), variant="boost")
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
