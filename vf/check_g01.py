"""G01: the output is a function of the interface and the configuration; running again changes no file that needs no change."""
import os
from . import common, gens

RULE = ("a case is one generated file compared between independent runs (other process, directory, environment) or across a re-run; it is non-trivial when "
        "it is not empty; distinct by file name and content")

CFGS = {
    "cpp": [{}, {"use_boost": "1"}, {"separate_impl_headers": "1"}, {"rustfmt": "1"}, {"width": "32"}],
    "java": [{}, {"null_annotation": "android.support.annotation"}, {"fence": "std"}, {"fence": "9"}, {"optional_package": "org.opt"}, {"rustfmt": "1"}],
    "python": [{}, {"rustfmt": "1"}],
}
ENVS = [{"HOME": "/nonexistent", "LC_ALL": "C", "TZ": "Asia/Tokyo", "USER": "x"}, {"CARGO_CFG_TARGET_POINTER_WIDTH": "16", "OUT_DIR": "/nonexistent"},
        {"LANG": "tr_TR.UTF-8", "CARGO_MANIFEST_DIR": "/nonexistent", "CARGO_PKG_NAME": "other"}]
OLD = 1_000_000_000


def stamp(d):
    for top, _, fs in os.walk(d):
        for f in fs:
            os.utime(os.path.join(top, f), (OLD, OLD))


def touched(d):
    r = set()
    for top, _, fs in os.walk(d):
        for f in fs:
            p = os.path.join(top, f)
            if os.stat(p).st_mtime_ns != OLD * 10**9:
                r.add(os.path.relpath(p, d))
    return r


def case(ck, lang, i):
    rng = common.rng("G01", lang, i)
    cfg = dict(rng.choice(CFGS[lang]))
    s, ts = gens.texts(rng, lang, rng.choice([0, 2, 5]))
    src = "\n".join(t for _, t in ts)
    own = [k for k, (w, t) in enumerate(ts) if w == "own" and not t.startswith("foreign_enum") and "self_type" not in t]
    env = dict(rng.choice(ENVS))
    if cfg.get("rustfmt"):
        env.pop("HOME", None)       # rustup's rustfmt looks there
    d = common.scratch("g01")
    name = f"{lang} interface {i} {cfg}"
    replay = lambda **k: dict({"lang": lang, "cfg": cfg, "source": src}, **k)
    try:
        os.makedirs(d + "/b/deep/er")
        os.makedirs(d + "/a/out")
        os.makedirs(d + "/b/deep/er/out")
        os.makedirs(d + "/c/out")
        rc, e = gens.generate(d + "/a", lang, [src], out="out/gen", dst="out/glue.rs", **cfg)
        if rc != 0:
            return ck.violation(f"{lang}:refused", f"[{name}] refused: {gens.refused(rc, e)}", replay())
        a = gens.tree(d + "/a/out")
        if rng.random() < 0.5:      # the second directory has old output in it
            gens.generate(d + "/b/deep/er", lang, [gens.texts(common.rng("G01", lang, i, "old"), lang)[1][0][1]], out="out/gen", dst="out/glue.rs", **cfg)
            old = set(gens.tree(d + "/b/deep/er/out"))
        else:
            old = set()
        rc, e = gens.generate(d + "/b/deep/er", lang, [src], out="out/gen", dst="out/glue.rs", cwd="/", env=env, **cfg)
        b = gens.tree(d + "/b/deep/er/out")
        b = {k: v for k, v in b.items() if k in a or k not in old}
        for k, v in a.items():
            ck.count((lang, k, v), bool(v), {"language": lang, "configuration": cfg, "file": k, "bytes": len(v)} if len(v) > 500 and i % 20 == 3 else None)
        m = gens.diff_trees(a, b, "first run", "run in another directory and environment") if rc == 0 else "the second run fails: " + gens.refused(rc, e)
        if m:
            return ck.violation(f"{lang}:runs differ", f"[{name}] {m}", replay(env=env))
        stamp(d + "/a/out")
        rc, e = gens.generate(d + "/a", lang, [src], out="out/gen", dst="out/glue.rs", **cfg)
        t = touched(d + "/a/out")
        m = "the re-run fails: " + gens.refused(rc, e) if rc else f"the re-run touches {sorted(t)}" if t else gens.diff_trees(a, gens.tree(d + "/a/out"), "first run", "re-run")
        if m:
            return ck.violation(f"{lang}:re-run", f"[{name}] {m}", replay())
        # a changed interface: what changes is what a run from scratch gives
        ts2 = list(ts)
        if own and rng.random() < 0.6:
            del ts2[rng.choice(own)]
        else:
            ts2 = ts2[:]
            ts2.append(("own", "foreign_class!(class Added%d { fn added::f(x: i32) -> u8; });" % i))
        src2 = "\n".join(t for _, t in ts2)
        if not any(w == "own" for w, _ in ts2):
            return None
        rc, e = gens.generate(d + "/a", lang, [src2], out="out/gen", dst="out/glue.rs", **cfg)
        rc2, e2 = gens.generate(d + "/c", lang, [src2], out="out/gen", dst="out/glue.rs", **cfg)
        if rc or rc2:
            return ck.violation(f"{lang}:refused", f"[{name}] changed interface refused: {gens.refused(rc, e + e2)}", replay(second=src2))
        c = gens.tree(d + "/c/out")
        got = gens.tree(d + "/a/out")
        m = gens.diff_trees(c, {k: v for k, v in got.items() if k in c or k not in a}, "run from scratch", "run over old output")
        t = {k for k in touched(d + "/a/out") if a.get(k) == c.get(k)}
        m = m or (f"files that did not change are written again: {sorted(t)}" if t else None)
        for k, v in c.items():
            ck.count((lang, k, v), bool(v))
        if m:
            return ck.violation(f"{lang}:update", f"[{name}] {m}", replay(second=src2))
    finally:
        common.rmtree(d)


def main():
    ck = common.Check("G01", RULE, ["two processes of the same build of the generator on one machine"])
    common.build_fgen()
    n = 40 if ck.thorough else 1
    js = [(lang, i) for rd in range(n) for lang, k in (("cpp", 60), ("java", 60), ("python", 25)) for i in range(rd * k, rd * k + k)]

    def job(x):
        if len(ck.violations) < 3 and not ck.over(700):
            case(ck, *x)
    common.pool(job, js)
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
