"""Y03: Python calls whose arguments do not fit are refused with an exception, and nothing else happens."""
from . import common, engine, explore
from .py_objs import objs_spec, gen_history
from .py_values import make_specs
from .rig import PyRig, python_deps
from .spec import Spec, Cls, Meth, jval

RULE = ("a case is one call with one misfit (missing, extra, unknown or doubled argument, wrong object as self, or one value of a wrong type or "
        "out of range at a random depth of an argument) between correct calls; distinct by (signature, arguments); correct calls count as in Y01/Y02")


SAME = "same object twice"


def probe(ck):
    """Exercises the known finding alone."""
    if not ck.is_known(SAME):
        return
    s = Spec("python")
    s.classes = [Cls("Kp", "plain", 0)]
    s.methods = [Meth(0, "Kp", "ref", [("cls", "Kp", "ref")], ("unit",))]
    s.finish()
    r = PyRig(s, "y03")
    r.timeout = 10
    try:
        if explore.build(ck, r, SAME):
            g = engine.GenState(s, common.rng("Y03"))
            g.push({"op": "new", "cls": "Kp", "p": 1, "dst": 1})
            g.model.applicable = lambda op: True
            g.push({"op": "call", "m": 0, "self": 1, "args": [("h", 1)], "mut": [], "ret": ()})
            bad = r.check(g.ops, g.exps)
            if bad:
                ck.violation(SAME, bad[1], {"kind": "history", "spec": s.to_json(), "ops": jval(g.ops)})
    finally:
        r.close()


def main():
    ck = common.Check("Y03", RULE, ["x86_64 Linux, CPython 3.12, rust-cpython 0.7.2, rustc with debug assertions"])
    rounds = 8 if ck.thorough else 1
    common.build_fgen()
    python_deps()
    probe(ck)
    for rd in range(rounds):
        rng = common.rng("Y03", rd)
        specs = make_specs(rng, 5, 8) + [objs_spec(common.rng("Y03o", rd, k), 24) for k in range(3)]

        def job(k):
            spec = specs[k]
            r = PyRig(spec, "y03")
            tag = f"round {rd} interface {k}"
            try:
                if not explore.build(ck, r, tag):
                    return
                for h in range(12 if ck.thorough else 6):
                    ops, exps = gen_history(spec, common.rng("Y03", rd, k, h), 600, 60)
                    ck.extra["refused"] = ck.extra.get("refused", 0) + sum(o["op"].startswith("bad") for o in ops)
                    if not explore.history(ck, r, spec, ops, exps, tag):
                        break
            finally:
                r.close()
        common.pool(job, range(len(specs)))
        ck.extra["interfaces"] = ck.extra.get("interfaces", 0) + len(specs)
        if ck.violations:
            break
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
