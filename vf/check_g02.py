"""G02: what a run leaves in the output directory."""
import os
from . import common, gens

RULE = ("a case is one run of the generator inside a history over one output directory (interfaces change, files of the user and damaged outputs lie there, "
        "removal of obsolete files is on or off); non-trivial when the directory was not empty before; distinct by the files before and after")

USER = ["notes.txt", "keep.h", "keep.hpp", "User.java", "mod.rs", "x.HPP", ".hidden.h", "Makefile", "a.h.bak", "sub/keep.h", "sub/User.java", "sub/deep/z.hpp", "hpp", "java", ".java", "b.hh", "c.cpp",
        "c_.h", "Foo Bar.hpp", "ünï.java", "x.class", "InternalPointerMarker.java.orig", "rust_vec.h", "two.java.h"]


def obsolete(lang, p):
    """Documented: files that are not generated, of the kind that is generated."""
    if "/" in p:
        return False
    stem, dot, ext = p.rpartition(".")
    return bool(stem) and ext in {"cpp": ("h", "hpp"), "java": ("java",)}[lang]


def case(ck, lang, i):
    rng = common.rng("G02", lang, i)
    d, f = common.scratch("g02"), common.scratch("g02f")
    hist = []
    disk = {}
    base, _ = gens.texts(rng, lang)[1], 0
    extra = gens.texts(common.rng("G02", lang, i, "x"), lang)[1]
    try:
        os.makedirs(d + "/gen")
        for step in range(rng.choice([3, 5, 8])):
            # what happens to the directory between runs
            for _ in range(rng.choice([0, 1, 3])):
                kind = rng.choice(["user", "user", "cut", "edit", "delete"])
                p = rng.choice(USER) if kind == "user" or not disk else rng.choice(sorted(disk))
                if kind == "delete" and p in disk:
                    os.unlink(f"{d}/gen/{p}")
                    del disk[p]
                elif kind == "cut" and p in disk:
                    disk[p] = disk[p][:rng.randint(0, len(disk[p]))]
                elif kind == "edit" and p in disk:
                    disk[p] = disk[p] + b"\n// edited by the user\n"
                elif kind == "user":
                    disk[p] = b"mine %d\n" % step
                if p in disk:
                    os.makedirs(os.path.dirname(f"{d}/gen/{p}"), exist_ok=True)
                    with open(f"{d}/gen/{p}", "wb") as h:
                        h.write(disk[p])
                hist.append([kind, p])
            pool = rng.choice([base, base, extra])
            ts = [t for w, t in pool if w == "own"]
            if rng.random() < 0.6:
                ts = gens.closed(pool, rng.sample(ts, rng.randint(1, len(ts))))
            remove = rng.choice(["0", "1", None])
            src = "\n".join(ts)
            opts = {} if remove is None else {"remove": remove}
            if rng.random() < 0.3 and lang == "cpp":
                opts["separate_impl_headers"] = "1"
            hist.append(["run", opts, src])
            common.rmtree(f)
            os.makedirs(f)
            rc0, e0 = gens.generate(f, lang, [src], **{k: v for k, v in opts.items() if k != "remove"})
            rc, e = gens.generate(d, lang, [src], **opts)
            if rc or rc0:
                return ck.violation(f"{lang}:refused", f"[{lang} history {i}] refused: {gens.refused(rc, e + e0)}", {"lang": lang, "history": hist})
            fresh = gens.tree(f + "/gen")
            exp = {k: v for k, v in disk.items() if not (remove == "1" and obsolete(lang, k))}
            exp.update(fresh)
            got = gens.tree(d + "/gen")
            ck.count((lang, remove, sorted(disk), sorted(fresh), src), bool(disk),
                     {"language": lang, "remove": remove, "before": sorted(disk)[:20], "after": sorted(got)[:20]} if i % 9 == 2 and step == 2 else None)
            m = gens.diff_trees(exp, got, "expected directory", "directory after the run")
            if m:
                return ck.violation(f"{lang}:directory", f"[{lang} history {i}, run {step}, remove={remove}] {m}", {"lang": lang, "history": hist})
            m = gens.diff_trees({"glue.rs": gens.tree(f)["glue.rs"]}, {"glue.rs": gens.tree(d)["glue.rs"]}, "fresh run", "run")
            if m:
                return ck.violation(f"{lang}:glue", f"[{lang} history {i}, run {step}] {m}", {"lang": lang, "history": hist})
            disk = got
    finally:
        common.rmtree(d)
        common.rmtree(f)


def main():
    ck = common.Check("G02", RULE, ["a local Linux file system; nobody else writes to the directory during a run"])
    common.build_fgen()
    n = 40 if ck.thorough else 1
    js = [(lang, i) for rd in range(n) for lang, k in (("cpp", 40), ("java", 40)) for i in range(rd * k, rd * k + k)]

    def job(x):
        if len(ck.violations) < 3 and not ck.over(700):
            case(ck, *x)
    common.pool(job, js)
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
