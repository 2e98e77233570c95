"""J05: the same interface behaves the same under every Java configuration."""
from . import cbs, common, explore, java_cbs, java_objs, java_values, javauniv
from .rig import JavaRig, java_deps

RULE = ("a case is one operation of a history run under one configuration (package name, null annotations, package of Optional, kind of "
        "reachability fence, rustfmt); values, object histories and callbacks are all exercised under each; looking is trivial")

VARIANTS = [
    {"fence": "tight"}, {"fence": "tight", "null_annotation": "org.ann"}, {"fence": "std", "rustfmt": "1"}, {"fence": "30", "ns": "a"}, {"ns": "com.x_y.z1_", "fence": "16"},
    {"null_annotation": "org.ann", "fence": "std"}, {"null_annotation": "android.support.annotation", "fence": "20", "ns": "org.Vf.G_1"},
    {"optional_package": "org.opt_1.util"}, {"optional_package": "zz", "null_annotation": "org.ann", "fence": "14", "rustfmt": "1"},
    {"ns": "_a._1b.c__d", "null_annotation": "org.ann"},
]


def jobs_of(ck, rd):
    rng = common.rng("J05", rd)
    vs = list(VARIANTS)
    rng.shuffle(vs)
    return [(i, v, kind) for i, v in enumerate(vs) for kind in ("values", "objects", "callbacks")]


def main():
    ck = common.Check("J05", RULE, ["x86_64 Linux, OpenJDK 17 with -Xcheck:jni, rustc with debug assertions"])
    rounds = 6 if ck.thorough else 1
    common.build_fgen()
    java_deps()
    for rd in range(rounds):
        def job(x):
            i, cfg, kind = x
            rng = common.rng("J05", rd, i, kind)
            ext = None
            if kind == "values":
                s = javauniv.base_spec(rng)
                u = javauniv.Univ(rng, s.classes, s.enums)
                ins, outs = u.basic("in"), u.basic("out")
                spec = java_values.deal(s, rng, rng.sample(ins, 30), rng.sample(outs, 30), 6, u)
                hist = lambda h: java_values.gen_history(spec, common.rng("J05", rd, i, kind, h), 12)
            elif kind == "objects":
                spec = java_objs.objs_spec(rng, 16)
                hist = lambda h: java_objs.gen_history(spec, common.rng("J05", rd, i, kind, h), 250)
            else:
                spec = java_cbs.cb_spec(rng)
                ext = java_cbs.driver_ops
                hist = lambda h: cbs.gen_history(spec, common.rng("J05", rd, i, kind, h), 150, java_cbs.OPTS)
            spec.cfg.update(cfg)
            tag = f"round {rd} {kind} under {cfg}"
            r = JavaRig(spec, "j05")
            try:
                if not explore.build(ck, r, tag, ext=ext):
                    return
                for h in range(6 if ck.thorough else 3):
                    ops, exps = hist(h)
                    if not explore.history(ck, r, spec, ops, exps, tag):
                        break
            finally:
                r.close()
        js = jobs_of(ck, rd)
        common.pool(job, js)
        ck.extra["interfaces"] = ck.extra.get("interfaces", 0) + len(js)
        if ck.violations:
            break
    ck.extra["configurations"] = len(VARIANTS)
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
