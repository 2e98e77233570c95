"""G03: other Rust code passes through unchanged and in order; how an interface is cut into files and where its declarations stand does not matter."""
from . import common, gens

RULE = ("a case is one pass-through item looked up in the output, or one comparison of a whole output with that of a re-arranged source; "
        "distinct by the text of the source and the relation")


def case(ck, lang, i):
    rng = common.rng("G03", lang, i)
    s, ts = gens.texts(rng, lang, rng.choice([3, 8, 15]))
    d = common.scratch("g03")
    src = "\n".join(t for _, t in ts)
    name = f"{lang} interface {i}"
    cfg = rng.choice([{}, {}, {"rustfmt": "1"}])

    def bad(key, what, **k):
        ck.violation(f"{lang}:{key}", f"[{name}] {what}", dict({"lang": lang, "source": src}, **k))

    def gen(tag, srcs, **opts):
        rc, e = gens.generate(d, lang, srcs, out="gen" + tag, dst=f"glue{tag}.rs", tag=tag, **opts)
        if rc:
            bad("refused", f"variant {tag!r} is refused: {gens.refused(rc, e)}", variant=srcs)
            return None
        return gens.tree(d + "/gen" + tag)
    try:
        a = gen("", [src], **cfg)
        if a is None:
            return
        # 1. everything else is still there
        ps = []
        for j, (w, t) in enumerate(ts):
            if w == "pass":
                common.write(f"{d}/p{j}.rs", t)
                ps.append((f"{d}/p{j}.rs", t))
        tk = gens.tokens([p for p, _ in ps] + [d + "/glue.rs"])
        out, pos = tk[d + "/glue.rs"], 0
        if cfg:     # rustfmt may drop or add separators
            drop = lambda x: [t for t in x if t not in (",", ";", "{", "}")]
            tk = {k: drop(v) for k, v in tk.items()}
            out = tk[d + "/glue.rs"]
        for p, t in ps:
            q = gens.find_from(out, tk[p], pos)
            ck.count((lang, "pass", t, bool(cfg)), True, {"language": lang, "item": t} if i % 15 == 4 else None)
            if q < 0:
                how = "is out of order" if gens.find_from(out, tk[p], 0) >= 0 else "is missing or changed"
                return bad("pass-through", f"pass-through item {how} in the output: {t}")
            pos = q + len(tk[p])
        # 2. cut into several files
        k = rng.choice([2, 3, 5])
        cuts = sorted(rng.randint(0, len(ts)) for _ in range(k - 1))
        parts = ["\n".join(t for _, t in ts[x:y]) + "\n" for x, y in zip([0] + cuts, cuts + [len(ts)])]
        b = gen("m", parts, many="1", **cfg)
        if b is None:
            return
        ck.count((lang, "split", src, tuple(cuts)), True, {"language": lang, "files": k, "items": len(ts)} if i % 15 == 5 else None)
        m = gens.diff_trees(a, b, "one source file", "same source in several files")
        if m:
            return bad("split", m, parts=parts)
        if common.read(d + "/glue.rs") != common.read(d + "/gluem.rs"):
            return bad("split", "the Rust code differs when the source is cut into several files: " + gens.first_diff(common.read(d + "/glue.rs"), common.read(d + "/gluem.rs")), parts=parts)
        # 3. without the other code
        own = [t for w, t in ts if w == "own"]
        b = gen("o", ["\n".join(own)], **cfg)
        if b is None:
            return
        ck.count((lang, "bare", src), True)
        m = gens.diff_trees(a, b, "source with other items", "source without them")
        if m:
            return bad("bare", m)
        # 4. comments and layout of the source
        b = gen("w", ["// head\n" + "\n\n/* between */ // x\n".join(reflow(t, rng) for t in own) + "// tail"], **cfg)
        if b is None:
            return
        ck.count((lang, "layout", src), True)
        m = gens.diff_trees(a, b, "source", "source with other layout")
        if m:
            return bad("layout", m)
        # 5. order of the classes and callbacks (enums come before their users)
        enums = [t for t in own if t.startswith("foreign_enum")]
        rest = [t for t in own if not t.startswith("foreign_enum")]
        rng.shuffle(rest)
        rng.shuffle(enums)
        b = gen("s", ["\n".join(enums + rest)])
        c = a if not cfg else gen("s0", [src])
        if b is None or c is None:
            return
        ck.count((lang, "order", src, tuple(rest)), len(rest) > 1)
        m = gens.diff_trees(c, b, "source", "source with its declarations in another order")
        if m:
            return bad("order", m, order=[gens.own_name(t) for t in enums + rest])
    finally:
        common.rmtree(d)


def reflow(t, rng):
    r = []
    for l in t.split("\n"):
        r.append(("  " if rng.random() < 0.5 else "\t") + l + ("" if "//" in l or rng.random() < 0.6 else " // note ; }") if "r##" not in l else l)
        if rng.random() < 0.2:
            r.append("")
    return "\n".join(r)


def main():
    ck = common.Check("G03", RULE, ["tokens are compared as proc-macro2 sees them"])
    common.build_fgen()
    gens.build_toks()
    n = 40 if ck.thorough else 1
    js = [(lang, i) for rd in range(n) for lang, k in (("cpp", 45), ("java", 45), ("python", 25)) for i in range(rd * k, rd * k + k)]

    def job(x):
        if len(ck.violations) < 3 and not ck.over(700):
            case(ck, *x)
    common.pool(job, js)
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
