"""C05: the same interface behaves the same under every C++ configuration."""
from . import common, cbs, cpp_cbs, cpp_cycles, cpp_objs, cpp_values, cppuniv, engine, explore
from .rig import CppRig

RULE = ("a case is one operation of a history run under one configuration (optional/variant/string_view flavour, separate implementation headers, "
        "namespace, rustfmt, C++ standard); values, object histories and callbacks are all exercised under each; looking is trivial")

VARIANTS = [
    {"rustfmt": "1"}, {"use_boost": "1", "std": "c++14"}, {"use_boost": "1", "std": "c++20", "ns": "api_v2"},
    {"optional": "boost", "rustfmt": "1"}, {"variant": "boost"}, {"str_view": "boost"},
    {"optional": "boost", "variant": "boost", "std": "c++17"},
    {"separate_impl_headers": "1"}, {"separate_impl_headers": "1", "use_boost": "1", "std": "c++11"}, {"std": "c++20", "ns": "Bindings"},
    {"str_view": "boost", "variant": "boost", "separate_impl_headers": "1"},
]


def jobs_of(ck, rd):
    rng = common.rng("C05", rd)
    vs = list(VARIANTS)
    rng.shuffle(vs)
    r = []
    for i, v in enumerate(vs):
        for kind in ("values", "objects", "callbacks"):
            # every variant gets values; the others alternate in the quick tier
            if ck.thorough or kind == "values" or (i % 2 == (kind == "objects")):
                r.append((i, v, kind))
    return r


def main():
    ck = common.Check("C05", RULE, ["x86_64 Linux, g++ with ASan/UBSan, boost 1.83"])
    rounds = 5 if ck.thorough else 1
    common.build_fgen()
    for rd in range(rounds):
        def job(x):
            i, cfg, kind = x
            rng = common.rng("C05", rd, i, kind)
            ext = None
            if kind == "values":
                s = cppuniv.base_spec(rng)
                u = cppuniv.Univ(rng, s.classes, s.enums, s.reprs)
                ins, outs = u.basic("in"), u.basic("out")
                spec = cpp_values.deal(s, rng, rng.sample(ins, 40), rng.sample(outs, 40), 6, u)
                hist = lambda h: cpp_values.gen_history(spec, common.rng("C05", rd, i, kind, h), 12)
            elif kind == "objects":
                spec = cpp_objs.objs_spec(rng, 16)
                hist = lambda h: cpp_objs.gen_history(spec, common.rng("C05", rd, i, kind, h), 300)
            else:
                spec = cpp_cbs.cb_spec(rng)
                ext = cpp_cbs.driver_ops
                hist = lambda h: cbs.gen_history(spec, common.rng("C05", rd, i, kind, h), 150)
            spec.cfg.update(cfg)
            tag = f"round {rd} {kind} under {cfg}"
            r = CppRig(spec, "c05")
            try:
                if not explore.build(ck, r, tag, ext=ext):
                    return
                for h in range(4 if ck.thorough else 2):
                    ops, exps = hist(h)
                    if not explore.history(ck, r, spec, ops, exps, tag):
                        break
            finally:
                r.close()
        js = jobs_of(ck, rd)
        common.pool(job, js)
        common.pool(lambda i: None if len(ck.violations) > 2 else cpp_cycles.case(ck, i), range(rd * 8, rd * 8 + 8))
        ck.extra["interfaces"] = ck.extra.get("interfaces", 0) + len(js)
        if ck.violations:
            break
    ck.extra["configurations"] = len(VARIANTS)
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
