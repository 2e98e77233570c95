"""Shared driver of the end-to-end checks: build, generate a history, run, compare, shrink, report."""
import json
from . import common, engine, types as ty
from .common import Infra
from .rig import BuildFail
from .spec import jval


def nontrivial(spec, op):
    """A call counts as non-trivial when some value in it is not the default of its type, or it touches an object."""
    if op["op"] != "call":
        return op["op"] not in ("look", "purge")
    m = spec.methods[op["m"]]
    if m.recv != "static":
        return True
    for t, v in list(zip(m.args, op["args"])) + [(m.ret, op["ret"])]:
        if v not in (0, False, b"", None, [], ()):
            return True
    return False


def opkey(spec, op, tag=""):
    if op["op"] == "bad":
        return (tag, engine.signature(spec, op), repr(op["args"]), op["how"], op.get("self"))
    if op["op"] == "badnew":
        return (tag, op["cls"], op["how"])
    if op["op"] != "call":
        return (tag, spec.cls(op["cls"]).storage if "cls" in op else "", op["op"], op.get("h"), op.get("dst"))
    m = spec.methods[op["m"]]
    return (tag, engine.signature(spec, op), repr(op["args"]), repr(op["ret"]), repr(op.get("mut")))


def report(check, rig, spec, ops, exps, bad, tag, keyfn=None):
    """Shrinks a failing history and reports it."""
    i, what = bad
    ops = ops[: i + 1]
    f = rig.fails_same(None)
    if common.HANG in what:
        rig.timeout = 10
    try:
        if not f(ops):
            ops = engine.simulate(spec, ops)[0]  # needs what came later (e.g. a leak): keep as is
        else:
            ops = engine.shrink(ops, f)
            ops = engine.shrink_values(spec, ops, f)
        keep, exps = engine.simulate(spec, ops)
        r = rig.check(keep, exps)
        if r is not None:
            i, what = r
            ops = keep
    except Infra:
        pass
    key = (keyfn or default_key)(spec, ops[min(i, len(ops) - 1)], what)
    check.violation(key, f"[{tag}] {what}", {"kind": "history", "spec": spec.to_json(), "ops": jval(ops)})


def default_key(spec, op, what):
    return engine.signature(spec, op)


def build(check, rig, tag, key=None, **kw):
    try:
        rig.build(**kw)
        return True
    except BuildFail as e:
        check.violation(key or f"build:{e.stage}", f"[{tag}] an accepted interface does not build ({e.stage}): {e.text}",
                        {"kind": "build", "spec": rig.spec.to_json(), "stage": e.stage, "text": e.text})
        return False


def history(check, rig, spec, ops, exps, tag, keyfn=None, sample_from=3):
    """Runs one history and records it."""
    for j, op in enumerate(ops):
        nt = nontrivial(spec, op)
        s = None
        if nt and j % max(1, len(ops) // sample_from) == 1 and len(check.samples) < 12:
            s = {"interface": tag, "op": engine.describe(spec, op),
                 "args": [engine.cut(" ".join(map(str, exps[j].args)), 160)], "expected": engine.cut(exps[j].result, 160),
                 "rust_sees": engine.cut(" ".join(exps[j].calls), 200)}
        check.count((tag, op["x"], tuple(exps[j].args[1:]), tuple(exps[j].result)) if "x" in op else opkey(spec, op, tag), nt, s)
    bad = rig.check(ops, exps)
    if bad is not None:
        report(check, rig, spec, ops, exps, bad, tag, keyfn)
        return False
    return True
