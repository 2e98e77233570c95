"""History generation, execution comparison, shrinking."""
import re
import time
from . import types as ty
from .spec import Model, is_mut, Expect
from .types import has_cls

BAD = ("DOUBLEDROP", "DEADOBJECT", "CORRUPT", "INVALIDUTF8", "BORROWED", "LOCKED", "DIFFER", "UNEXPECTED", "MISSING", "ITER-", "EMPTY-",
       "RELEASE-", "DIFFERS", "STRVIEWS", "EXC:", "NULL", "NO-HANDLE", "BROKEN-UTF16")


class GenState:
    def __init__(self, spec, rng, opts=None):
        self.spec, self.rng = spec, rng
        self.model = getattr(spec, "model_cls", Model)(spec)
        self.ops, self.exps = [], []
        self.label = 0
        self.opts = opts or {}

    def fresh(self):
        self.label += 1
        return self.label

    def push(self, op):
        e = self.model.apply(op)
        if e is None:
            return False
        self.ops.append(op)
        self.exps.append(e)
        return True

    def payload(self):
        return self.rng.choice([0, 1, -1, 2**31 - 1, -2**31, self.rng.randint(-10**6, 10**6)])

    def handle(self, cls, avoid):
        """Label of a usable handle of `cls` not in avoid (labels)."""
        ls = [l for l in self.model.labels(cls) if l not in avoid]
        if not ls or (len(ls) < 4 and self.rng.random() < 0.3):
            l = self.fresh()
            self.push({"op": "new", "cls": cls, "p": self.payload(), "dst": l})
            return l
        return self.rng.choice(ls)

    def gen_call(self, m):
        rng, spec = self.rng, self.spec
        op = {"op": "call", "m": m.idx, "args": [], "mut": []}
        avoid = set()
        shareable = all(t[0] != "mslice" and not is_mut(t) and (not has_cls(t) or (t[0] == "cls" and t[2] == "ref"))
                        for t in m.args) and m.recv != "mut"

        def inobj(T):
            l = self.handle(T[1], set() if shareable and rng.random() < 0.3 else avoid)
            avoid.add(l)
            # other labels of the same shared object are off limits too
            o = self.model.handles[l]
            if (spec.cls(T[1]).shared or spec.lang == "python") and not shareable:
                for l2, o2 in self.model.handles.items():
                    if o2 is o:
                        avoid.add(l2)
            return ("h", l)

        nul = self.opts.get("nul", True)
        lim = self.opts.get("lim")
        if m.recv != "static":
            op["self"] = inobj(("cls", m.cls, "mut" if m.recv == "mut" else "ref"))[1]
        for t in m.args:
            op["args"].append(ty.gen(t, rng, inobj, nul, lim))
        if m.recv == "mut":
            op["mut"].append(self.payload())
        for t, v in zip(m.args, op["args"]):
            if is_mut(t) and v is not None:
                if t[0] == "mslice":
                    op["mut"].append([self.payload() if t[1][0] == "cls" else ty.gen(t[1], rng, None) for _ in v])
                else:
                    op["mut"].append(self.payload())

        def outobj(T):
            c = spec.cls(T[1])
            if T[2] != "val" and T[2] != "inner":
                return ("k", self.payload(), self.fresh() if spec.lang == "python" else None)
            if c.shared and T[2] == "val" and rng.random() < 0.5:
                ls = [l for l in self.model.labels(T[1]) if l not in avoid]
                if ls:
                    return ("r", rng.choice(ls), self.fresh())
            return ("n", self.payload(), self.fresh())

        if m.ret[0] != "unit":
            op["ret"] = ty.gen(m.ret, rng, outobj, nul, lim)
            # objects inside a borrowed slice are not handed over
            op["ret"] = strip_kept(m.ret, op["ret"]) if spec.lang != "python" else mark_kept(m.ret, op["ret"])
        else:
            op["ret"] = ()
        if rng.random() < 0.06:
            # another thread of Rust has locked one of the objects the call has to lock
            hs = [op["self"]] if m.recv != "static" else []
            hs += [v[1] for t, v in zip(m.args, op["args"]) if t[0] == "cls" and t[2] in ("ref", "mut")]
            hs = [h for h in hs if spec.cls(self.model.handles[h]["cls"]).storage in ("arcmutex", "arcrw")]
            if hs and "('r'" not in repr(op["ret"]):
                op["hold"] = rng.choice(hs)
        return self.push(op)


def mark_kept(T, v, kept=False):
    """Python: what Rust lends is copied."""
    k = T[0]
    if k == "cls":
        return ("k", v[1] if v[0] == "n" else 7, v[2]) if kept and v[0] != "k" else v
    if k == "ref":
        return mark_kept(T[1], v, True)
    if k in ("slice", "vec"):
        return [mark_kept(T[1], x, kept or k == "slice") for x in v]
    if k == "opt":
        return v if v is None else (mark_kept(T[1], v[0], kept),)
    if k == "res":
        return (v[0], mark_kept(T[1] if v[0] == "O" else T[2], v[1], kept))
    if k == "tup":
        return tuple(mark_kept(t, x, kept) for t, x in zip(T[1], v))
    return v


def strip_kept(T, v, kept=False):
    k = T[0]
    if k == "cls":
        return ("n", v[1] if v[0] != "r" else 0, None) if kept else v
    if k in ("slice", "mslice"):
        return [strip_kept(T[1], x, True) for x in v]
    if k == "vec":
        return [strip_kept(T[1], x, kept) for x in v]
    if k == "opt":
        return v if v is None else (strip_kept(T[1], v[0], kept),)
    if k == "res":
        return (v[0], strip_kept(T[1] if v[0] == "O" else T[2], v[1], kept))
    if k == "tup":
        return tuple(strip_kept(t, x, kept) for t, x in zip(T[1], v))
    return v


def simulate(spec, ops):
    """(applicable ops, expectations) of a history."""
    m = getattr(spec, "model_cls", Model)(spec)
    keep, exps = [], []
    for op in ops:
        e = m.apply(op)
        if e is not None:
            keep.append(op)
            exps.append(e)
    return keep, exps


def compare(spec, ops, exps, out_text, log_text, rc, stderr):
    """None, or (op index, description) of the first disagreement."""
    outs = out_text.split("\n")[:-1]
    logs = log_text.split("\n")[:-1]
    bind = {}
    n = len(ops)

    def res(tok):
        if "?" not in tok:
            return tok
        return re.sub(r"\?\d+", lambda x: str(bind.get(x.group(0), x.group(0))), tok)

    for i in range(n):
        if i >= len(outs):
            return i, f"process ended (status {rc}) during operation {i} {describe(spec, ops[i])}: {tail(stderr)}"
        got = outs[i].split()[1:]
        if i < len(logs):
            ev, live, left = [x.strip() for x in logs[i].split("|")][:3]
        elif i == len(outs) - 1:
            break
        else:
            return i, "Rust log ends early"
        ev = ev.split(" ", 1)[1] if " " in ev else ""
        e = exps[i]
        clones = re.findall(r"clone(\d+)>(\d+)", ev)
        for frm, ph in e.clones:
            f = res(str(frm))
            for j, (a, b) in enumerate(clones):
                if a == f:
                    bind[ph] = b
                    del clones[j]
                    break
            else:
                return i, f"{describe(spec, ops[i])}: expected a clone of object {f}, events: {ev}"
        want = [res(x) for x in e.result]
        for b in BAD:
            if b in outs[i] or b in ev:
                return i, f"{describe(spec, ops[i])}: got {outs[i][:300]!r} events {ev[:300]!r}"
        if got != want:
            return i, f"{describe(spec, ops[i])}: foreign side saw {cut(got)} expected {cut(want)}"
        calls = re.findall(r"M\d+\([^)]*\)", ev)
        wcalls = [" ".join(res(x) for x in c.split()) for c in e.calls]
        calls = [" ".join(c.replace("(", "( ").replace(")", " )").split()) for c in calls]
        if calls != wcalls:
            return i, f"{describe(spec, ops[i])}: Rust saw {cut(calls)} expected {cut(wcalls)}"
        wl = {res(str(x)) for x in e.live}
        gl = set(live.split())
        if wl != gl:
            return i, (f"{describe(spec, ops[i])}: live Rust objects differ: leaked {sorted(gl - wl)} "
                       f"destroyed early {sorted(wl - gl)}")
        if left != "0":
            return i, f"{describe(spec, ops[i])}: Rust consumed too little of the plan ({left} tokens left): events {ev[:200]}"
    if rc != 0:
        return max(0, len(outs) - 1), f"process ended with status {rc} after {len(outs)} of {n} operations: {tail(stderr)}"
    return None


def cut(x, n=400):
    s = " ".join(x) if isinstance(x, list) else str(x)
    return s if len(s) <= n else s[:n] + "..."


def tail(s):
    ls = [l for l in s.splitlines() if l.strip()]
    key = [l for l in ls if re.search(r"ERROR: |SUMMARY|runtime error|panicked|assert|terminate|FATAL|what\(\)|Exception|leak|Error", l)]
    return " / ".join((key or ls)[-6:])[:900]


def describe(spec, op):
    if op["op"] in ("call", "bad"):
        m = spec.methods[op["m"]]
        sig = f"{m.cls}::{m.name}({', '.join([m.recv] + [ty.rust(t, spec) for t in m.args])}) -> {ty.rust(m.ret, spec)}"
        if op["op"] == "bad":
            return f"refused call ({op['how']} {[v for v in op['args']]}) of {sig}"[:600]
        return f"call {sig}"
    return " ".join(f"{k}={v}" for k, v in op.items())[:300]


def signature(spec, op):
    """Kind of operation (no values): used to key known findings."""
    if op["op"] in ("call", "bad"):
        m = spec.methods[op["m"]]
        return f"{op['op']}({', '.join([m.recv] + [ty.rust(t, spec) for t in m.args])}) -> {ty.rust(m.ret, spec)}"
    return op["op"]


def shrink(ops, fails, budget=150):
    """Delta-debugging over operations, then over values. fails(ops) -> bool."""
    n = [budget]
    end = time.time() + 60

    def bad(o):
        if n[0] <= 0 or time.time() > end:
            return False
        n[0] -= 1
        return fails(o)

    k = max(1, len(ops) // 2)
    while k >= 1:
        i = 0
        changed = False
        while i < len(ops):
            cand = ops[:i] + ops[i + k:]
            if cand != ops and cand and bad(cand):
                ops = cand
                changed = True
            else:
                i += k
        if k == 1 and not changed:
            break
        k = max(1, k // 2) if not (k == 1 and changed) else 1
        if n[0] <= 0 or time.time() > end:
            break
    return ops


def shrink_values(spec, ops, fails, budget=150):
    n = [budget]
    end = time.time() + 60

    def bad(o):
        if n[0] <= 0 or time.time() > end:
            return False
        n[0] -= 1
        return fails(o)

    progress = True
    while progress and n[0] > 0 and time.time() < end:
        progress = False
        for i in range(len(ops) - 1, -1, -1):
            op = ops[i]
            if op["op"] != "call":
                continue
            m = spec.methods[op["m"]]
            for j, t in enumerate(m.args):
                if is_mut(t):
                    continue
                for v in ty.simplify(t, op["args"][j]):
                    o2 = dict(op, args=op["args"][:j] + [v] + op["args"][j + 1:])
                    c = ops[:i] + [o2] + ops[i + 1:]
                    if bad(c):
                        ops, op, progress = c, o2, True
                        break
            if m.ret[0] != "unit":
                for v in ty.simplify(m.ret, op["ret"]):
                    o2 = dict(op, ret=v)
                    c = ops[:i] + [o2] + ops[i + 1:]
                    if bad(c):
                        ops, op, progress = c, o2, True
                        break
    return ops
