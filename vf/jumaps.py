"""Random user type maps for the Java back end."""
from . import types as ty
from .types import P
from .umaps import W, consts, rust_int, rust_out, rust_in, rust_chain, chain_glue, newtype, um, TEMPS

JT = {8: "byte", 16: "short", 32: "int", 64: "long"}
WHERE = ["first", "merge", "second"]
LIB = [("java.util.Date", "new java.util.Date({})", "{}.getTime()"), ("java.math.BigInteger", "java.math.BigInteger.valueOf({})", "{}.longValue()"),
       ("java.util.concurrent.atomic.AtomicLong", "new java.util.concurrent.atomic.AtomicLong({})", "{}.get()"), ("java.lang.Long", "Long.valueOf({})", "{}.longValue()")]


def lit(x, w):
    x = x - 2**w if x >= 2**(w - 1) else x
    return f"({x}L)" if w == 64 else f"({x})"


def jmap(rng, i, kind, annot):
    prim = rng.choice([p for p in W if p[0] == "i"] if kind != "lib" else ["i64"])
    w = W[prim]
    u, jt, ji = "u%d" % w, JT[w], "j" + JT[w]
    name = f"Um{i}"
    k = consts(rng, w)
    c = {x: lit(y, w) for x, y in k.items()}
    var = rng.choice(["p", "pin", "x", "o", "ou", "r"])
    D = "$" + var
    out_r = f"({rust_out(k, D + '.0', u)}) as i{w}"
    in_r = rust_in(name, k, f"({D} as {u})", u)
    out_f = f"({jt})(({D} ^ {c['X']}) + {c['B']})"
    if rng.random() < .4:       # the variable more than once
        out_f = f"({jt})(({D} | {c['X']}) - ({D} & {c['X']}) + {c['B']})"
    in_f = lambda e: f"({jt})(({e} + {c['C']}) ^ {c['Z']})"
    java = {}
    uq = rng.random() < .4
    if kind == "obj":
        pk = rng.choice(["org.um", "org.um", "um_x.a1"])
        cn = f"F{i}"
        java[f"{pk.replace('.', '/')}/{cn}.java"] = (f"package {pk}; public final class {cn} {{ private final {jt} v; private {cn}({jt} v) {{ this.v = v; }} "
                                                    f"public static {cn} make({jt} v) {{ return new {cn}(v); }} public {jt} get() {{ return v; }} }}\n")
        ty, wrap, unwrap = f"{pk}.{cn}", lambda e: f"{pk}.{cn}.make({e})", lambda e: f"{e}.get()"
    elif kind == "lib":
        ty, a, b = rng.choice(LIB)
        uq = uq or "Date" in ty or "Long" in ty
        wrap, unwrap = a.format, b.format
    elif kind == "array":
        ty, uq = f"{jt} []", True
        wrap, unwrap = lambda e: f"new {jt} [] {{{e}}}", lambda e: f"{e}[0]"
    else:
        ty, uq = jt, True
        wrap = unwrap = lambda e: e
    pfx = f"/*{rng.choice(['um', 'x ', 'Um_'])}{i}*/" if uq else ""
    opt = f', unique_prefix = "{pfx}"' if uq else ""
    oc, ic = f"$out = {wrap(out_f)};", f"$out = {in_f(unwrap(D))};"
    ts = ""
    if rng.random() < .5:
        t1, t2 = rng.sample(TEMPS, 2)
        ts = f", ${t1}:temporary, ${t2}:temporary"
        oc = f"final {jt} ${t1} = {out_f}; final {ty} ${t2} = {wrap('$' + t1)}; $out = ${t2};"
        ic = f"{jt} ${t1} = {unwrap(D)}; ${t1} = ({jt})(${t1}); final {jt} ${t2} = {in_f('$' + t1)}; $out = ${t2};"
    arms = [f'(${var}:f_type{opt}{ts}) => "{pfx}{ty}" "{oc}";', f'(${var}:f_type{opt}{ts}) <= "{pfx}{ty}" "{ic}";']
    if kind in ("lib", "obj") and rng.random() < .5:
        bo, bi = f"$out = {wrap('0')};", "$out = 0;"
        bad = "wrong"
        an = "@NonNull " if rng.random() < .7 else ""
        ok = [("NullAnnotations" if annot else "NoNullAnnotations", oc, ic, an if annot else ""), ("NoNullAnnotations" if annot else "NullAnnotations", bo, bi, "" if annot else an)]
        arms = []
        for o, a, b, nn in ok:
            arms += [f'(${var}:f_type, option = "{o}"{opt}{ts}) => "{pfx}{nn}{ty}" "{a}";', f'(${var}:f_type, option = "{o}"{opt}{ts}) <= "{pfx}{nn}{ty}" "{b}";']
    rs = [f"(${var}:r_type) {name} => {ji} {{ $out = {out_r}; }};", f"(${var}:r_type) {name} <= {ji} {{ $out = {in_r}; }};"]
    parts = rs + arms
    rng.shuffle(parts)
    glue = "foreign_typemap!(\n" + "\n".join("    " + x for x in parts) + "\n);"
    return {"name": name, "prim": prim, "kind": kind, "rust": rust_int(name, prim, k), "glue": glue, "jtype": ty, "jprim": jt,
            "en": unwrap("v"), "rd": wrap("x"), "java": java}


def plain_map(rng, i):
    """No Java code: usable in callbacks."""
    prim = rng.choice([p for p in W if p != "u64"])
    w = W[prim]
    u = "u%d" % w
    name = f"Um{i}"
    k = consts(rng, w)
    # y as rust_int defines it, computed in Rust
    y = "(({v}.wrapping_mul({M}).wrapping_add({A})) ^ {X}).wrapping_add({B})".format(v="$p.0", **k)
    glue = (f"foreign_typemap!(\n    ($p:r_type) {name} => {prim} {{ $out = ({y}) as {prim}; }};\n"
            f"    ($p:r_type) {name} <= {prim} {{ $out = {name}::of($p); }};\n);")
    from .javadrv import JPRIM
    return {"name": name, "prim": prim, "kind": "plain", "rust": rust_int(name, prim, k), "glue": glue, "jtype": JPRIM[prim], "jprim": JPRIM[prim], "en": "v", "rd": "x", "java": {}}


WT = """foreign_typemap!(
    ($p:r_type) <T> Wt<T> => swig_i_type!(T) {
        let inner = $p.take();
        swig_from_rust_to_i_type!(T, inner, %(r)s)
        $out = %(r)s;
    };
    ($p:f_type, unique_prefix = "/*Wt<swig_subst_type!(T)>*/") => "/*Wt<swig_subst_type!(T)>*/swig_f_type!(T)" "swig_foreign_from_i_type!(T, $p)";
);"""
WT_RUST = ("pub struct Wt<T>(pub i64, pub Option<T>); impl<T> Wt<T> { pub fn take(mut self) -> T { assert_eq!(self.0, 7); self.0 = 8; self.1.take().unwrap() } } impl<T: vf::Enc> vf::Enc for Wt<T> { fn enc(&self, o: &mut String) { self.1.as_ref().unwrap().enc(o); } }"
           "impl<T: vf::Dec> vf::Dec for Wt<T> { fn dec(t: &mut vf::Toks) -> Self { Wt(7, Some(vf::Dec::dec(t))) } }")


def java_maps(rng, spec):
    """Adds maps; returns the terms by use: every position, callbacks too."""
    annot = bool(spec.cfg.get("null_annotation"))
    kinds = ["obj", "lib", "prim", "array"] + rng.choices(["obj", "lib", "prim"], k=2)
    ms = [jmap(rng, i, k, annot) for i, k in enumerate(kinds)]
    n = len(ms)
    pl = [plain_map(rng, n + i) for i in range(3)]
    n += 3
    # chains, one of each kind of base
    for base in (rng.choice(ms), rng.choice(pl)):
        k = consts(rng, W[base["prim"]])
        m = dict(base, name=f"Um{n}", rust=rust_chain(f"Um{n}", base, k), glue=chain_glue(f"Um{n}", base["name"], k), java={})
        (pl if base["kind"] == "plain" else ms).append(m)
        n += 1
    out = {m["name"]: m for m in ms + pl}
    a, b = rng.sample(["String", "&str"], 2)
    fro = {"String": "UmS::back(&$p)", "&str": "UmS::back($p)"}
    out["UmS"] = {"name": "UmS", "rust": newtype("UmS", "String"),
                  "glue": f"foreign_typemap!(\n    ($p:r_type) UmS => String {{ $out = UmS::see(&$p.0); }};\n    ($p:r_type) UmS <= {b} {{ $out = UmS({fro[b]}); }};\n);"}
    out["UmT"] = {"name": "UmT", "rust": newtype("UmT", "String"),
                  "glue": f"foreign_typemap!(\n    ($p:r_type) UmT => &str {{ $out = &*Box::leak(UmT::see(&$p.0).into_boxed_str()); }};\n    ($p:r_type) UmT <= {a} {{ $out = UmT({fro[a].replace('UmS', 'UmT')}); }};\n);"}
    out["UmK"] = {"name": "UmK", "rust": "pub struct UmK(pub Kp); impl vf::Enc for UmK { fn enc(&self, o: &mut String) { self.0.enc(o); } } impl vf::Dec for UmK { fn dec(t: &mut vf::Toks) -> Self { UmK(vf::Dec::dec(t)) } }",
                  "glue": "foreign_typemap!(\n    ($p:r_type) UmK => Kp { $out = $p.0; };\n    ($p:r_type) UmK <= Kp { $out = UmK($p); };\n);"}
    out["Wt"] = {"name": "Wt", "rust": WT_RUST, "glue": WT % {"r": rng.choice(["p0", "ret", "r", "xx"])}}
    tv = "$" + rng.choice(["w9", "outer"])     # not a name the inner map uses for its own
    wv = WT % {"r": rng.choice(["p0", "ret", "r", "xx"])}
    out["Wv"] = {"name": "Wv", "rust": WT_RUST.replace("Wt", "Wv"),
                 "glue": wv.replace("Wt<", "Wv<").replace('($p:f_type, ', f'($p:f_type, {tv}:temporary, ').replace('"swig_foreign_from_i_type!(T, $p)"', f'"final var {tv} = $p; swig_foreign_from_i_type!(T, {tv})"')}
    # one generic type, two maps that differ in the trait the parameter has to have
    for n, tr in (("We", "SwigForeignCLikeEnum"), ("Wk", rng.choice(["SwigForeignClass + Clone", "Clone + SwigForeignClass"])), ("Ws", "SwigForeignClass + SmartPtrCopy")):
        g = (WT % {"r": rng.choice(["p0", "ret", "r", "xx"])}).replace("Wt<", "Wb<").replace("<T> Wb", f"<T: {tr}> Wb").replace("        let inner", f"        um_is_{n}(&$p);\n        let inner", 1)
        rust = ""
        if n == "Ws":        # no trait in Rust
            tr = "UmSmart"
            rust = "pub trait UmSmart {}" + "".join(f"impl UmSmart for {ty.rust(('cls', c.name, 'val'), spec)} {{}}" for c in spec.classes if "SmartPtrCopy" in c.derives)
        out[n] = {"name": n, "glue": g, "rust": f"pub fn um_is_{n}<T: {tr}>(_: &Wb<T>) {{}}" + rust + (WT_RUST.replace("Wt", "Wb") if n == "We" else "")}
    for m in out.values():
        m["where"] = rng.choice(WHERE)
        m.setdefault("java", {})
    spec.cfg["umaps"] = out
    t = lambda m: um(m["name"], m["prim"])
    s = [("nt", "UmS", ("String",)), ("nt", "UmT", ("String",))]
    return [t(m) for m in ms] + [("nt", "UmK", ("cls", "Kp", "val"))], [t(m) for m in pl] + s
