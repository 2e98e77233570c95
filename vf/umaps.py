"""Type maps written by users: random non-symmetric conversions, so that a piece applied twice, not at all or in the wrong direction changes the value."""
from .types import P

W = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64}


def um(name, prim):
    return ("um", name, prim)


def consts(rng, w):
    m = rng.randrange(1, 2**w, 2)
    r = lambda: rng.randrange(1, 2**w)
    return {"M": m, "I": pow(m, -1, 2**w), "A": r(), "X": r(), "B": r(), "C": r(), "Z": r()}


def rust_int(name, prim, k):
    """The Rust type and what the foreign side has to see of it."""
    u = "u%d" % W[prim]
    y = "((self.0.wrapping_mul({M}).wrapping_add({A})) ^ {X}).wrapping_add({B}) as {p}".format(p=prim, **k)
    of = "{n}((((y as {u}).wrapping_sub({B}) ^ {X}).wrapping_sub({A})).wrapping_mul({I}))".format(n=name, u=u, **k)
    return (f"#[derive(Clone, Copy, PartialEq, Debug)] pub struct {name}(pub {u}); impl {name} {{ pub fn y(&self) -> {prim} {{ {y} }} pub fn of(y: {prim}) -> {name} {{ {of} }} }}\n"
            f"impl vf::Enc for {name} {{ fn enc(&self, o: &mut String) {{ self.y().enc(o); }} }} impl vf::Dec for {name} {{ fn dec(t: &mut vf::Toks) -> Self {{ {name}::of(vf::Dec::dec(t)) }} }}"
            f"impl vf::Mutate for {name} {{ fn mutate(&mut self, t: &mut vf::Toks) {{ *self = vf::Dec::dec(t); }} }}")


def rust_out(k, v, u):
    """u -> i (Rust), as expression over the variable's field v; often more than once"""
    if k["A"] % 3 == 0 and k["M"] > 1:
        return f"{v}.wrapping_mul({k['M'] - 1}).wrapping_add({k['A']}).wrapping_add({v})"
    return f"{v}.wrapping_mul({k['M']}).wrapping_add({k['A']})"


def rust_in(name, k, i, u):
    """i -> the Rust value"""
    return f"{name}((((({i} ^ {k['Z']}).wrapping_sub({k['C']}).wrapping_sub({k['B']})) ^ {k['X']}).wrapping_sub({k['A']})).wrapping_mul({k['I']}))"


def newtype(name, inner):
    return (f"#[derive(Clone, PartialEq, Debug)] pub struct {name}(pub {inner}); impl vf::Enc for {name} {{ fn enc(&self, o: &mut String) {{ {name}::see(&self.0).enc(o); }} }}"
            f"impl vf::Dec for {name} {{ fn dec(t: &mut vf::Toks) -> Self {{ let y: {inner} = vf::Dec::dec(t); {name}({name}::back(&y)) }} }}"
            f"impl {name} {{ pub fn see(x: &str) -> String {{ let mut c = x.chars(); match c.next() {{ None => String::new(), Some(h) => c.as_str().to_string() + &h.to_string() }} }}"
            f" pub fn back(x: &str) -> String {{ let mut c = x.chars(); match c.next_back() {{ None => String::new(), Some(h) => h.to_string() + c.as_str() }} }} }}")


WR_RUST = ("pub struct Wr<T>(pub i64, pub T); impl<T: vf::Enc> vf::Enc for Wr<T> { fn enc(&self, o: &mut String) { o.push_str(\" T2\"); self.0.wrapping_add(%d).enc(o); self.1.enc(o); } }"
           "impl<T: vf::Dec> vf::Dec for Wr<T> { fn dec(t: &mut vf::Toks) -> Self { t.next(); let a: i64 = vf::Dec::dec(t); Wr(a.wrapping_sub(%d), vf::Dec::dec(t)) } }")

TEMPS = ["t", "tt", "t0", "t1", "tmp", "a0", "v", "p0", "pp", "xx", "conv", "out2", "output", "ret", "oo", "ra"]


def cpp_map(rng, i, kind, boost):
    """One C++ map. kind: struct | pair | vector | stmt | raw | arms"""
    prim = rng.choice(sorted(W))
    if kind == "pair":
        prim = rng.choice(["u64", "i64"])
    w = W[prim]
    u, ct, cu = "u%d" % w, f"{'u' if prim[0] == 'u' else ''}int{w}_t", f"uint{w}_t"
    name = f"Um{i}"
    k = consts(rng, w)
    sfx = "ull" if w == 64 else "u"
    c = {x: f"{y}{sfx}" for x, y in k.items()}
    hdr, mods, pre, extra = "", [], "", ""
    var = rng.choice(["p", "pin", "x", "o", "ou", "r"])
    D = "$" + var
    ii = rng.choice([u, prim]) if kind != "pair" else None      # the type at the border
    cast = lambda e, t: e if t == u else f"({e}) as {t}"
    asu = lambda e, t: e if t == u else f"({e} as {u})"
    out_r = cast(rust_out(k, f"{D}.0", u), ii)
    in_r = rust_in(name, k, asu(D, ii), u)
    ity = ii
    xor = lambda e, x: f"(static_cast<{cu}>({e}) ^ {x})"
    if rng.random() < .4:       # the variable more than once
        xor = lambda e, x: f"((static_cast<{cu}>({e}) | {x}) - (static_cast<{cu}>({e}) & {x}))"
    out_f = f"static_cast<{ct}>(static_cast<{cu}>({xor(D, c['X'])} + {c['B']}))"
    in_i = f"uint{w}_t" if ii == u else ct
    in_f = lambda e: f"static_cast<{in_i}>(static_cast<{cu}>((static_cast<{cu}>({e}) + {c['C']}) ^ {c['Z']}))"
    en, rd = "v", "x"
    if kind in ("struct", "stmt", "arms"):
        ty = f"umx::F{i}" if rng.random() < .7 else f"umx::in::F{i}"
        ns = ty.split("::")[1:-1]
        mod = f"f_um{i}.h"
        hdr = (f'foreign_code!(module = "{mod}"; r##"#pragma once\n#include <stdint.h>\n#ifdef __cplusplus\nnamespace umx {{ {"namespace in {" if ns else ""}\n'
               f'struct F{i} {{ {ct} v; }};\n{"}" if ns else ""} }}\n#endif\n"##);\n')
        mods = [f'\\"{mod}\\"']
        wrap, unwrap = lambda e: f"{ty}{{{e}}}", lambda e: f"{e}.v"
        rdx, enx = f"{ty}{{x}}", "v.v"
    elif kind == "vector":
        ty, mods = f"std::vector<{ct}>", ["<vector>"]
        wrap, unwrap = lambda e: f"{ty}(1, {e})", lambda e: f"{e}.at(0)"
        rdx, enx = f"{ty}(1, x)", "v.at(0)"
    elif kind == "raw":
        ty, mods = ct, ["<stdint.h>"]
        wrap, unwrap = lambda e: e, lambda e: e
        rdx, enx = "x", "v"
    elif kind == "pair":
        ty, mods = f"std::pair<uint32_t, {ct}>", [f'\\"c_um{i}.h\\"', "<utility>"]
        sw = rng.random() < .5
        cn = f"CUm{i}"
        fs = ["lo: u32", "hi: u32"]
        rng.shuffle(fs)
        pre = f'define_c_type!(module = "c_um{i}.h"; #[repr(C)] {rng.choice(["", "#[derive(Clone, Copy)] "])}pub struct {cn} {{ {", ".join(fs)} }});\n'
        ity = cn
        extra = f'#[repr(C)] #[derive(Clone, Copy)] pub struct {cn} {{ {", ".join("pub " + f for f in fs)} }}\n'
        o = rust_out(k, f"{D}.0", u)
        out_r = f"{cn} {{ lo: ({o}) as u32, hi: (({o}) >> 32) as u32 }}"
        in_r = rust_in(name, k, f"({D}.lo as u64 | ({D}.hi as u64) << 32)", u)
        full = f"static_cast<{ct}>(((static_cast<uint64_t>({D}.hi) << 32 | {D}.lo) ^ {c['X']}) + {c['B']})"
        out_f = f"{ty}(7u, {full})"
        ce = lambda e: f"((static_cast<uint64_t>({e}.second) + {c['C']}) ^ {c['Z']})"
        fld = {"lo: u32": lambda e: f"static_cast<uint32_t>({ce(e)})", "hi: u32": lambda e: f"static_cast<uint32_t>({ce(e)} >> 32)"}
        in_f = lambda e: f"{cn}{{{fld[fs[0]](e)}, {fld[fs[1]](e)}}}"
        wrap, unwrap = lambda e: e, lambda e: e
        rdx, enx = f"{ty}(7u, x)", "v.second"
    uq = kind in ("raw", "pair") or rng.random() < .3
    pfx = f"/*um{i}*/" if uq else ""
    opt = f', unique_prefix = "{pfx}"' if uq else ""
    mo = ", req_modules = [%s]" % ", ".join(f'"{m}"' for m in mods)
    oc, ic = wrap(out_f), in_f(unwrap(D))
    ts = ""
    if kind == "stmt":
        t1, t2 = rng.sample(TEMPS, 2)
        ts = f", ${t1}:temporary, ${t2}:temporary"
        oc = f"auto ${t1} = {out_f}; const auto ${t2} = ${t1}; $out = {wrap('$' + t2)};"
        ic = f"const auto ${t1} = {unwrap(D)}; auto ${t2} = static_cast<{ct}>(${t1}); $out = {in_f('$' + t2)};"
    arms = []

    def arm(o, oc, ic, ok=True):
        a = [f'(${var}:f_type{o}{opt}{mo}{ts}) => "{pfx}{ty}" "{oc}";', f'(${var}:f_type{o}{opt}{mo}{ts}) <= "{pfx}{ty}" "{ic}";']
        return a
    if kind == "arms":
        good, bad = ("Boost", "Std17") if boost else ("Std17", "Boost")
        arms = arm(f', option = "CppOptional::{good}"', oc, ic) + arm(f', option = "CppOptional::{bad}"', wrap("0"), "0")
    else:
        arms = arm("", oc, ic)
    rs = [f"(${var}:r_type) {name} => {ity} {{ $out = {out_r}; }};", f"(${var}:r_type) {name} <= {ity} {{ $out = {in_r}; }};"]
    parts = rs + arms
    rng.shuffle(parts)
    glue = "foreign_typemap!(\n" + pre + hdr + "\n".join("    " + x for x in parts) + "\n);"
    return {"name": name, "prim": prim, "kind": kind, "rust": extra + rust_int(name, prim, k), "glue": glue, "ctype": ty, "cprim": ct, "en": enx, "rd": rdx}


def cpp_maps(rng, spec):
    """Adds maps to a specification; returns the type terms by position."""
    boost = spec.cfg.get("use_boost") or spec.cfg.get("optional") == "boost"
    kinds = ["struct", "pair", "arms"] + rng.choice([["vector", "raw"], ["raw"], ["vector"]]) + ["stmt"]
    ms = [cpp_map(rng, i, k, boost) for i, k in enumerate(kinds)]
    n = len(ms)
    # a chain: over another map, over String and over a class
    base = rng.choice([m for m in ms if m["kind"] != "stmt"])
    k = consts(rng, W[base["prim"]])
    ch = f"Um{n}"
    ms.append({"name": ch, "prim": base["prim"], "kind": "chain", "pair": base["kind"] == "pair", "ctype": base["ctype"], "cprim": base["cprim"], "en": base["en"], "rd": base["rd"],
               "rust": rust_chain(ch, base, k), "glue": chain_glue(ch, base["name"], k)})
    ms.append({"name": "UmS", "kind": "nt", "rust": newtype("UmS", "String"),
               "glue": "foreign_typemap!(\n    ($p:r_type) UmS => String { $out = UmS::see(&$p.0); };\n    ($p:r_type) UmS <= &str { $out = UmS(UmS::back($p)); };\n);"})
    off = rng.randrange(1, 2**62)
    s1, s2 = rng.randrange(1, 2**31), rng.randrange(1, 2**31)
    # out: C++ sees tag + s1 of what Rust sends; Rust sends tag + (off - s1)
    ms.append({"name": "Wr", "kind": "wr", "rust": WR_RUST % (off, off), "glue": WR_CPP % {"o": off - s1, "s1": s1, "i": off - s2, "s2": s2}})
    # one generic type, two maps that differ in the trait the parameter has to have
    for n, tr in (("We", "SwigForeignEnum"), ("Wk", rng.choice(["SwigForeignClass + Clone", "Copy + SwigForeignClass", "SwigForeignClass + Clone + Copy"])), ("Ws", "SwigForeignClass + SmartPtrCopy")):
        s1, s2 = rng.randrange(1, 2**31), rng.randrange(1, 2**31)
        g = (WR_CPP % {"o": off - s1, "s1": s1, "i": off - s2, "s2": s2}).replace("Wr<T>", "Wb<T>").replace("Wr($p", "Wb($p").replace("CWr", "C" + n).replace("umx::Wr<", f"umx::{n}<")
        g = g.replace("struct Wr", "struct " + n).replace("um_wrap.h", f"um_{n}.h").replace("<T> Wb", f"<T: {tr}> Wb").replace("        swig_from_rust", f"        um_is_{n}(&$p);\n        swig_from_rust", 1)
        ms.append({"name": n, "kind": "wr", "glue": g, "rust": f"pub fn um_is_{n}<T: {"Clone" if n == "Wk" else "SwigForeignClass" if n == "Ws" else tr}>(_: &Wb<T>) {{}}" + ((WR_RUST % (off, off)).replace("Wr", "Wb") if n == "We" else "")})
    for m in ms:
        m["where"] = rng.choice(["first", "merge", "second"])
    spec.cfg["umaps"] = {m["name"]: m for m in ms}
    ints = [um(m["name"], m["prim"]) for m in ms if "prim" in m]
    spec.cfg["umaps"]["UmK"] = {"name": "UmK", "kind": "nt", "where": rng.choice(["first", "merge", "second"]),
                                "rust": "pub struct UmK(pub Kp); impl vf::Enc for UmK { fn enc(&self, o: &mut String) { self.0.enc(o); } } impl vf::Dec for UmK { fn dec(t: &mut vf::Toks) -> Self { UmK(vf::Dec::dec(t)) } }",
                                "glue": "foreign_typemap!(\n    ($p:r_type) UmK => Kp { $out = $p.0; };\n    ($p:r_type) UmK <= Kp { $out = UmK($p); };\n);"}
    spec.cfg["umaps"]["CFnOnce"] = {"name": "CFnOnce", "kind": "fn", "where": rng.choice(["first", "merge", "second"]), "rust": "", "glue": FUTURE}
    return ([um(m["name"], m["prim"]) for m in ms if m["kind"] in ("struct", "pair", "vector", "raw", "arms")] + [("nt", "UmS", ("String",)), ("nt", "UmK", ("cls", "Kp", "val"))],
            [um(m["name"], m["prim"]) for m in ms if m["kind"] in ("stmt", "chain")])


def rust_chain(ch, base, k):
    """ch <-> base: base = ch * M + A"""
    n, p = base["name"], base["prim"]
    return (f"#[derive(Clone, Copy, PartialEq, Debug)] pub struct {ch}(pub u{W[p]}); impl {ch} {{ pub fn y(&self) -> {p} {{ {n}(self.0.wrapping_mul({k['M']}).wrapping_add({k['A']})).y() }} pub fn of(y: {p}) -> {ch} {{ {ch}({n}::of(y).0.wrapping_sub({k['A']}).wrapping_mul({k['I']})) }} }}\n"
            f"impl vf::Enc for {ch} {{ fn enc(&self, o: &mut String) {{ self.y().enc(o); }} }} impl vf::Dec for {ch} {{ fn dec(t: &mut vf::Toks) -> Self {{ {ch}::of(vf::Dec::dec(t)) }} }}")


def chain_glue(ch, n, k):
    return (f"foreign_typemap!(\n    ($p:r_type) {ch} => {n} {{ $out = {n}($p.0.wrapping_mul({k['M']}).wrapping_add({k['A']})); }};\n"
            f"    ($p:r_type) {ch} <= {n} {{ $out = {ch}($p.0.wrapping_sub({k['A']}).wrapping_mul({k['I']})); }};\n);")


FUTURE = """foreign_typemap!(
    generic_alias!(CFnOnce = swig_concat_idents!(CFnOnce, swig_i_type!(T, output)));
    define_c_type!(module = "CFnOnce!().h";
        #[repr(C)]
        pub struct CFnOnce!() {
            cb: extern "C" fn(swig_i_type!(T, output), *mut ::std::os::raw::c_void),
            ctx: *mut ::std::os::raw::c_void,
        });
    ($p:r_type) <T> impl FnOnce(T) <= CFnOnce!() {
        $out_no_type = move |x: swig_subst_type!(T)| {
            let _ = & $p;
            swig_from_rust_to_i_type!(T, x, x)
            ($p.cb)(x, $p.ctx);
        };
    };
    ($p:f_type, $tmp:temporary, input_to_output, req_modules = ["\\"CFnOnce!().h\\"", "<future>"]) <= "std::future<swig_f_type!(T, output)>"
        r#"
        auto $tmp = new std::promise<swig_f_type!(T, output)>;
        auto $p = $tmp->get_future();
        $out;
        $out.ctx = $tmp;
        $out.cb = [](swig_i_type!(T, output) arg, void *opaque) {
            auto arg_cpp = swig_foreign_from_i_type!(T, arg);
            auto promise = static_cast<std::promise<swig_f_type!(T, output)> *>(opaque);
            promise->set_value(std::move(arg_cpp));
            delete promise;
        };
"#;
);"""

WR_CPP = """foreign_typemap!(
    generic_alias!(CWr = swig_concat_idents!(CWr, swig_i_type!(T)));
    define_c_type!(module = "CWr!().h"; #[repr(C)] #[derive(Clone, Copy)] pub struct CWr!() { tag: i64, val: swig_i_type!(T) });
    foreign_code!(module = "um_wrap.h"; r##"#pragma once
#ifdef __cplusplus
namespace umx { template<class T> struct Wr { int64_t tag; T val; }; }
#endif
"##);
    ($p:r_type) <T> Wr<T> => CWr!() {
        swig_from_rust_to_i_type!(T, $p.1, p0)
        $out = CWr!() { tag: $p.0.wrapping_add(%(o)d), val: p0 };
    };
    ($p:r_type) <T> Wr<T> <= CWr!() {
        $out = Wr($p.tag.wrapping_sub(%(i)d), { swig_from_i_type_to_rust!(T, $p.val, p0) p0 });
    };
    ($p:f_type, req_modules = ["\\"um_wrap.h\\"", "\\"CWr!().h\\""]) => "umx::Wr<swig_f_type!(T)>" "umx::Wr<swig_f_type!(T)>{static_cast<int64_t>(static_cast<uint64_t>($p.tag) + %(s1)du), swig_foreign_from_i_type!(T, $p.val)}";
    ($p:f_type, req_modules = ["\\"um_wrap.h\\"", "\\"CWr!().h\\""]) <= "umx::Wr<swig_f_type!(T)>" "swig_f_type!(CWr!()){static_cast<int64_t>(static_cast<uint64_t>($p.tag) - %(s2)du), swig_foreign_to_i_type!(T, $p.val)}";
);"""
