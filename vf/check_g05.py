"""G05: what the generator cannot handle is refused by a message that names the file, the line and the column of the culprit; never by an internal failure, never half-written."""
import re
from . import cbs, common, cpp_cbs, cpp_values, gens, java_cbs, java_values, py_values, spec as sp

RULE = "a case is a generated source with one broken construct at a known place, or a valid one changed at one to three random tokens; distinct by language and text; non-trivial if it is refused"

TOK = re.compile(r'''r?"(?:[^"\\]|\\.)*"|///[^\n]*|//[^\n]*|'[a-z_]\w*|\w+|->|=>|::|\s+|.''', re.S)
TYPES = ("[u8; 4]|fn(i32) -> i32|impl Fn(i32)|!|_|()|*const u8|dyn Tr|Box<[u8]>|<T as Tr>::X|Option<Option<i32>>|&'static str|HashMap<String, Vec<u8>>|(i32,)|(i32, u8, String)|T|Unknown|mac!()|&mut str|Box<dyn Fn(i32)>|"
         "Box<dyn Cb>|Result<i32, u8>|Result<(), ()>|Vec<Vec<u8>>|Option<()>|&[&str]|Rc<RefCell<Unknown>>|Arc<Mutex<i32>>|std::string::String|&&i32|dyn Tr + Send|u128|char|Option<&mut i32>|impl Tr|Self|&Self|Option<Self>|'a|"
         "Vec<>|Vec|[u8]|&'a T|for<'a> fn(&'a u8)|Option<Result<i32,String>>|Result<Option<i32>,String>|const u8|extern \"C\" fn()|(i32)|*mut T|*mut c_void|Cow<'a, str>|i32 + 1|{ 5 }").split("|")
POOL = ("self &self &mut fn constructor alias private protected self_type callback class enum -> => ; , : :: ( ) { } < > = & ' 'a dyn static_method method foreign_code interface empty derive(Clone) #[derive(Copy)] "
        "#[derive(Clone)] #[derive(SmartPtrCopy)] #[derive(camelCaseAliases)] #[foo] where impl async unsafe pub const ref mut _ 5 \"x\" 1.5 b'x' ! ? ... .. @ $ # #! = #[doc(hidden)] #[doc] /// x\n").split(" ")
MAPS = ['foreign_typemap!( ($p:r_type) Wrap<i32> => i32 { $out = $p.0; }; ($p:r_type) Wrap<i32> <= i32 { $out = Wrap($p); }; );',
        'foreign_typemap!( ($p:r_type) <T> Wrap<T> => T { $out = $p.0; }; );',
        'foreign_typemap!( ($p:r_type) <T: SwigForeignClass> Wrap<T> => *mut c_void { $out = <swig_subst_type!(T)>::box_object($p.0); }; ($p:f_type) => "swig_f_type!(T)" "$out = $p"; );',
        'foreign_typemap!( ($p:r_type) DateX => jlong { $out = $p.ms(); }; ($p:f_type, option = "NoNullAnnotations") => "java.util.Date" "$out = new java.util.Date($p);"; ($p:f_type, option = "NullAnnotations") => "@NonNull java.util.Date" "$out = new java.util.Date($p);"; );',
        'foreign_typemap!( define_c_type!(module = "CX.h"; #[repr(C)] struct CX { a: i32, b: u8 }); ($p:r_type) X => CX { $out = $p.into(); }; ($p:f_type, req_modules = ["\\"CX.h\\"", "<vector>"]) => "std::pair<int,int>" "$out = std::make_pair($p.a, $p.b)"; );',
        'foreign_typemap!( ($pin:r_type) <T1, T2> (T1, T2) => P<swig_i_type!(T1), swig_i_type!(T2)> { swig_from_rust_to_i_type!(T1, $pin.0, p0) swig_from_rust_to_i_type!(T2, $pin.1, p1) $out = P { first: p0, second: p1 }; }; );']

NO = ("cpp", "java", "python")
NPY = ("cpp", "java")
# (construct, languages which refuse it); %N: a name; the bad part stands on the line marked by the construct's place, <<...>> where it is known
BAD = [
    ("foreign_class!(class Inj {@ fn f(x: %N);@ });", NO), ("foreign_class!(class Inj {@ fn f() -> %N;@ });", NO),
    ("foreign_class!(class Inj {@ fn g(x: i32) -> i32;@ fn f(x: Option<%N>);@ });", NO), ("foreign_class!(class Inj {@ fn f(x: i32,@ y: Vec<%N>) -> i32;@ });", NO),
    ("foreign_class!(class Inj {@ fn f(a: i32, b: &str, c: &%N);@ fn g(x: u8); });", NO),
    ("foreign_class!(class Inj {@ fn g(x: i32);@ fn f(x: [%N; 3]);@ });", NO), ("foreign_class!(class Inj {@ fn f() -> Result<i32, %N<u8>>;@ });", NPY),
    ("foreign_class!(class Inj {@ fn f() -> (i32, %N);@ });", NO), ("foreign_class!(class Inj {@ private fn f(x: %N);@ });", NO),
    ("foreign_class!(class Inj {@ self_type X;@ constructor X::new(x: %N) -> X;@ });", NO),
    ("foreign_class!(#[derive(%N)]@class Inj {@ fn f(x: i32);@ });", NPY), ("foreign_class!(#[%N]@class Inj {@ fn f(x: i32);@ });", NO),
    ("foreign_class!(class Inj {@ #[%N] fn f(x: i32);@ });", NPY), ("foreign_class!(class Inj {@ fn f(x i32);@ });", NO), ("foreign_class!(class Inj {@ fn f(x: i32)@ });", NO),
    ("foreign_class!(class Inj {@ fn f(x: i32);@ alias; });", NO), ("foreign_class!(class Inj {@ alias g;@ });", NO),
    ("foreign_class!(class Inj {@ self_type X;@ constructor X::new() -> X;@ fn X::f(self);@ });", NO), ("foreign_class!(class Inj {@ self_type X;@ constructor X::new() -> X;@ fn X::f(mut self);@ });", NO),
    ("foreign_class!(class Inj {@ self_type X;@ constructor X::new() -> X;@ constructor X::other() -> Y;@ });", NO),
    ("foreign_class!(class Inj {@ self_type X;@ self_type Y;@ });", NO), ("foreign_class!(class {@ fn f(); });", NO), ("foreign_class!(klass Inj {@ fn f(); });", NO),
    ("foreign_class!();", NO), ("foreign_enum!();", NO), ("foreign_callback!();", NO), ("foreign_typemap!();", NO),
    ("foreign_enum!(enum Inj {@ A B@ });", NO), ("foreign_enum!(enum Inj {@ A = 5@ });", NO),
    ("foreign_callback!(callback Inj {@ f = Inj::f(&self);@ });", NO), ("foreign_callback!(callback Inj {@ self_type Inj;@ f = Inj::f(&self, x: %N);@ });", NO),
    ("foreign_callback!(callback Inj {@ self_type Inj;@ f = Inj::f(&self) -> %N;@ });", NO), ("foreign_callback!(callback Inj {@ self_type Inj;@ f Inj::f(&self);@ });", NO),
    ("foreign_callback!(callback Inj {@ self_type Inj;@ f = Inj::f(&self) -> String;@ });", ("java", "python")),
    ("foreign_typemap!(@ ($p:r_type) %N => B { $out = $q; };@ );", NO), ("foreign_typemap!(@ ($p:x_type) %N => B { $out = $p; };@ );", NO),
    ("foreign_typemap!(@ ($p:r_type) %N => B;@ ($p:f_type) => 5; );", NO),
    ("foreign_class!(class Inj {@ fn f(x: i32); garbage@ });", NO), ("foreign_class!(class Inj {@ self_type;@ });", NO),
    ("foreign_class!(class Inj {@ foreign_code 5;@ });", NO), ("foreign_class!(class Inj {@ self_type dyn %N + Send;@ constructor new() -> dyn %N + Send;@ });", NPY),
    ("fn broken( {", NO), ("fn broken() { let x = \"abc; }", NO), ("struct S; }", NO), ("/* open", NO), ("foreign_class!(class Inj { fn f(); }", NO), ("foreign_class! class Inj { fn f(); }", NO),
    # receivers and constructors
    ("foreign_class!(class Inj {@ fn f(&self, x: i32);@ });", NO), ("foreign_class!(class Inj {@ self_type X;@ fn X::f(&self, x: i32);@ });", NO),
    ("foreign_class!(class Inj {@ constructor X::new() -> X;@ });", NO), ("foreign_class!(class Inj {@ self_type X;@ constructor X::new();@ });", NO),
    ("foreign_class!(class Inj {@ self_type X;@ constructor = empty;@ fn X::f(&self); });", NO), ("foreign_class!(class Inj {@ private constructor = empty;@ fn f(); });", NO),
    ("foreign_class!(class Inj {@ self_type X;@ private constructor = empty;@ constructor X::new() -> X;@ });", NO),
    ("foreign_class!(class Inj {@ self_type X;@ constructor X::new() -> X; alias other;@ });", NO), ("foreign_class!(class Inj {@ self_type X;@ constructor X::new(&self) -> X;@ });", NO),
    ("foreign_class!(class Inj {@ self_type X;@ constructor X::new() -> X;@ static_method X::f(&self);@ });", NO),
    ("foreign_class!(class Inj {@ self_type X;@ constructor X::new() -> X;@ method X::f();@ });", NO), ("foreign_class!(class Inj {@ self_type X;@ constructor X::new() -> X;@ method X::f(x: i32);@ });", NO),
    ("foreign_class!(class Inj {@ self_type X;@ constructor X::new() -> X;@ func X::f(&self);@ });", NO), ("foreign_class!(class Inj {@ fn f(x: i32, y: u8, x: i32);@ });", NO),
    ("foreign_class!(class Inj {@ self_type X;@ constructor X::new(a: i32, a: i32) -> X;@ });", NO), ("foreign_class!(class Inj {@ self_type X;@ constructor X::new() -> X;@ fn X::f(&self, this: i32);@ });", NPY),
    ("foreign_class!(class Inj {@ self_type X;@ constructor X::new() -> X;@ fn X::f(&self, env: i32);@ });", ("java",)), ("foreign_class!(class Inj {@ fn f(py: i32);@ });", ("python",)),
    ("foreign_class!(class Inj {@ fn f(x: i32) -> i32 { x };@ fn g(_: i32) -> i32 { 0 }@ });", NO), ("foreign_class!(class Inj {@ fn f(x: i32) -> i32 { x } alias y;@ });", NO),
    ("foreign_class!(class Inj {@ fn f((x, y): (i32, i32));@ });", NO),
    # derives
    ("foreign_class!(#[derive(Copy)]@ class Inj {@ self_type X;@ constructor X::new() -> X;@ fn X::f(&self);@ });", NO), ("foreign_class!(#[derive(SmartPtrCopy)]@ class Inj {@ self_type X;@ constructor X::new() -> X;@ fn X::f(&self);@ });", NPY),
    # callbacks
    ("foreign_callback!(callback Inj {@ self_type Inj;@ f = Inj::f(x: i32);@ });", NO), ("foreign_callback!(callback Inj {@ self_type Inj;@ f = Inj::f();@ });", NO),
    ("foreign_callback!(callback Inj {@ self_type Inj + Nope;@ f = Inj::f(&self);@ });", NO), ("foreign_callback!(callback Inj {@ self_type;@ f = Inj::f(&self);@ });", NO),
    ("foreign_callback!(callback Inj {@ self_type Inj + 'static;@ f = Inj::f(&self, x: %N);@ });", NO), ("foreign_callback!(callback Inj {@ self_type Inj + Send + 'a;@ f = Inj::f(&self)@ });", NO),
    ("foreign_interface!(interface Inj {@ self_type Inj;@ f = Inj::f(&self, x: %N);@ });", NO), ("foreign_callback!(#[nope]@ callback Inj {@ self_type Inj;@ f = Inj::f(&self);@ });", NO),
    ("foreign_callback!(callback Inj {@ self_type Inj;@ #[nope] f = Inj::f(&self);@ });", NO),
    # enums
    ("foreign_enum!(#[derive(Copy)]@ enum Inj {@ A = Inj::A@ });", NO), ("foreign_enum!(#[nope]@ enum Inj {@ A = Inj::A@ });", NO), ("foreign_enum!(enum Inj {@ #[nope] A = Inj::A@ });", NO),
    ("foreign_enum!(enum Inj {@ A = Inj::A; B = Inj::B@ });", NO), ("foreign_enum!(class Inj {@ A = Inj::A@ });", NO), ("foreign_enum!(enum Inj<T> {@ A = Inj::A@ });", NO),
    # type maps
    ("foreign_typemap!(@ ($p:r_type) %N => i32 { $out = $p.0; };@ ($p:r_type) %N => i32 { $out = $p.1; };@ );", NO), ("foreign_typemap!(@ ($p:r_type) %N => i32 { let x = 0; };@ );", NO),
    ("foreign_typemap!(@ ($p:r_type) %N => i32 { $out = $p.0; };@ ($p:f_type, option = \"Nope\") => \"x\";@ );", NPY), ("foreign_typemap!(@ ($p:f_type) => \"x\" \"$out = $p\";@ );", NO),
    ("foreign_typemap!(@ ($p:r_type) %N => i32 { $out = $p.0; };@ ($p:f_type) => \"x\" \"$out = $p\";@ ($p:f_type) => \"y\" \"$out = $p\";@ );", NO),
    ("foreign_typemap!(@ define_c_type!(module = \"C.h\"; struct C { a: i32 });@ ($p:r_type) %N => C { $out = $p.0; };@ );", NO), ("foreign_typemap!(@ (r_type) %N;@ (f_type) 5;@ );", NO),
    ("foreign_typemap!(@ generic_alias!(X = swig_f_type!(T));@ ($p:r_type) %N => i32 { $out = $p.0; };@ );", NO),
    ("foreign_typemap!(@ what!(x);@ ($p:r_type) %N => i32 { $out = $p.0; };@ );", NO), ("foreign_typemap!(@ ($p:r_type, unique_prefix=\"/*chrono*/\") %N => i32 { $out = $p.0; };@ );", NO),
    ("foreign_typemap!(@ ($p:r_type) %N => i32 { $out = $p.0; };@ ($p:f_type, unique_prefix=\"zz\") => \"x\" \"$out = $p\";@ );", NO),
    ("foreign_typemap!(@ ($p:r_type) %N => i32 { $out = $p.0; };@ ($p:f_type, $t:temporary, $t:temporary) => \"x\" \"$out = $p\";@ );", NO),
    # use of a generic map that does not fit
    ("foreign_typemap!( ($p:r_type) <T> Wr<T> => swig_i_type!(T) { swig_from_rust_to_i_type!(T, $p.0, $out) };@ ($p:f_type) => \"swig_f_type!(T)\" \"$out = $p;\"; );@ foreign_class!(class Inj {@ fn f() -> Wr<%N>;@ });", NPY),
]
# signatures only Python refuses; X is kept in a Mutex, Z in Arc, V in Arc<Mutex<>>, W in Box
PYSIG = [
    "fn f(x: &mut i32);", "fn f(x: &mut En1);", "fn f(x: Option<&mut X>);", "fn f(x: Vec<&X>);", "fn f(x: X);", "fn f() -> &X;", "fn f(x: &mut Arc<Z>);", "fn f(x: Mutex<X>);", "fn f(x: &mut Mutex<X>);", "fn f(x: &mut Z);", "fn f(x: Rc<X>);",
    "fn f() -> Rc<X>;", "fn f(x: (i32, u8));", "fn f(x: Box<X>);", "fn f() -> Arc<X>;", "fn f() -> Mutex<Z>;", "fn f(x: &mut W);", "fn f(x: Arc<W>);", "fn f() -> Arc<W>;", "fn f(x: Arc<Mutex<Z>>);", "fn f() -> Arc<Mutex<Z>>;", "fn f() -> Box<Z>;", "fn f() -> V;", "fn f(x: Arc<V>);", "fn f() -> Arc<V>;", "fn f(x: &mut Arc<Mutex<V>>);", "fn f(x: &mut Box<W>);",
]
PRELUDE = """foreign_class!(class X { self_type X; constructor X::new() -> X; });
foreign_class!(class Z { self_type Z; constructor Z::new() -> Arc<Z>; });
foreign_class!(class V { self_type V; constructor V::new() -> Arc<Mutex<V>>; });
foreign_class!(class W { self_type W; constructor W::new() -> Box<W>; });
foreign_enum!(enum En1 { A = En1::A, });
"""
BAD += [("foreign_class!(class Inj {@ fn g(x: i32);@ %s@ });" % s, ("python",)) for s in PYSIG]


def rich(lang):
    r = []
    for k in range(3):
        rng = common.rng("rich", lang, k)
        m = {"cpp": cpp_values, "java": java_values, "python": py_values}[lang]
        for s in m.make_specs(rng, 12, 4)[:4]:
            r.append(sp.emit_rust(s, "x")[1])
        if lang != "python":
            c = {"cpp": cpp_cbs, "java": java_cbs}[lang].cb_spec(rng)
            r.append(sp.emit_rust(c, "x")[1])
    return r


def mutate(rng, t):
    ts = TOK.findall(t)
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        i = rng.randrange(len(ts))
        r = rng.random()
        while ts[i].isspace():
            i = rng.randrange(len(ts))
        if r < .2:
            del ts[i]
        elif r < .3:
            ts.insert(i, ts[i] + " ")
        elif r < .4:
            j = rng.randrange(len(ts))
            ts[i], ts[j] = ts[j], ts[i]
        elif r < .55:
            ts[i] = " " + rng.choice(POOL) + " "
        elif r < .7:
            ts.insert(i, " " + rng.choice(POOL) + " ")
        elif r < .8:
            ts[i] = rng.choice(ts)
        else:
            ks = [k for k, x in enumerate(ts) if x in ("i32", "u8", "String", "bool", "f64", "u32", "i64", "u64", "i8", "f32") or re.fullmatch(r"R[A-Z]\w*", x)]
            if ks:
                ts[rng.choice(ks)] = " " + rng.choice(TYPES) + " "
    return ts


OLD = "// what was here before\n"
AT = re.compile(r"^At crate: (\S+):(\d+):(\d+)$", re.M)


def judge(ck, d, lang, srcs, key, name, must=None):
    """Runs the generator; None or the complaint. must: (source number, first line, last line) of the culprit."""
    common.write(d + "/glue.rs", OLD)
    rc, e = gens.generate(d, lang, srcs, many="1") if len(srcs) > 1 else gens.generate(d, lang, srcs)
    out = e.replace(d, "D")
    if rc == 0:
        return "accepted" if must else None
    if common.read(d + "/glue.rs") != OLD:
        return "refused, but the Rust code was written: " + common.read(d + "/glue.rs")[:200]
    p = re.search(r"panicked at ([^\n]*)\n([^\n]*)", e)
    if not p:
        return "ended without a message: " + out[-600:]
    places = AT.findall(e)
    if not places or p.group(2) != "explicit panic":
        return "internal failure instead of a message with a place: " + out[-1500:]
    here = []
    for f, l, c in places:
        m = re.fullmatch(re.escape(d) + r"/src(\d+)\.rs\.in", f)
        if not m:
            continue
        k, l, c = int(m.group(1)), int(l), int(c)
        lines = srcs[k].split("\n")
        if l < 1 or l > len(lines) or c > len(lines[l - 1].encode()) + 1:
            return f"the message points at line {l}, column {c} of a file with {len(lines)} lines: {out[-1500:]}"
        here.append((k, l))
    if not here:
        return "the message names none of the given files: " + out[-1500:]
    if must and not any(k == must[0] and must[1] <= l <= must[2] for k, l in here):
        return f"the culprit is in file {must[0]}, lines {must[1]}-{must[2]}; the message points at {here}: {out[-1500:]}"
    if must and not re.search(r"^error: \S", e, re.M):
        return "no text in the message: " + out[-1500:]
    return None


def fuzz(ck, lang, i, riches):
    rng = common.rng("G05f", lang, i)
    if rng.random() < .4:
        _, ts = gens.texts(rng, lang, rng.choice([0, 0, 2]))
        src = "\n".join(t for _, t in ts)
    else:
        src = rng.choice(riches[lang])
        if rng.random() < .5:
            src += "\n" + rng.choice(MAPS)
    toks = mutate(rng, src)
    d = common.scratch("g05")
    try:
        w = judge(ck, d, lang, ["".join(toks)], None, None)
        ck.count((lang, "".join(toks)), True, {"language": lang, "fuzz": i} if i % 100 == 3 else None)
        if w is None:
            return
        kind = lambda w: re.sub(r"D/\S+|\d+|`[^`]*`|'[^']*'|\"[^\"]*\"", "_", w)[:200]
        # shrink: drop pieces of text as long as the same complaint stays
        want = re.search(r"panicked at ([^\n]*)", w)
        want = want.group(1) if want else kind(w)
        n = max(1, len(toks) // 2)
        tries = 0
        while n and tries < 60:
            k = 0
            while k < len(toks) and tries < 60:
                t2 = toks[:k] + toks[k + n:]
                tries += 1
                w2 = judge(ck, d, lang, ["".join(t2)], None, None)
                m2 = re.search(r"panicked at ([^\n]*)", w2) if w2 else None
                if w2 and (m2.group(1) if m2 else kind(w2)) == want:
                    toks, w = t2, w2
                else:
                    k += n
            n //= 2
        ck.violation(f"{lang}:fuzz:{kind(w)}", f"[{lang} mutant {i}] {w}", {"lang": lang, "source": "".join(toks)})
    finally:
        common.rmtree(d)


def ok_item(lang, n):
    return "foreign_class!(class %s {\n    fn ok::f(x: i32) -> u8;\n});\n" % n


def inject(ck, lang, i, rd):
    text, langs = BAD[i]
    if lang not in langs:
        return
    rng = common.rng("G05i", lang, i, rd)
    nm = rng.choice(["NoSuchType", "Missing", "Änderung", "T", "Unknown2", "Zz"]) if "foreign_typemap" not in text else rng.choice(["NoSuchType", "Missing"])
    t = text.replace("%N", nm).replace("@", "\n" * rng.choice([1, 1, 2]))
    before = "".join(rng.choice(["// c\n", "fn user() {}\n", "/* a\n b */\n", "\n", "/// ü doc\nstruct U;\n", ok_item(lang, f"Ok{k}")]) for k in range(rng.randint(0, 5)))
    after = "\n" + (ok_item(lang, "After") if rng.random() < .5 else "")
    lead = rng.choice(["", "", "    ", "fn x() {} "])
    src = before + lead + t + after
    if any(text.find(" %s@" % s) > 0 for s in PYSIG):
        before = PRELUDE + before
        src = before + lead + t + after
    first = before.count("\n") + 1
    last = first + t.count("\n")
    if "foreign_" not in text or "/*" in text or text.count("(") != text.count(")") or text.count("{") != text.count("}") or "foreign_class! class" in text:
        last = src.count("\n") + 1          # the end of the file is where it is noticed
        if text.count("{") > text.count("}") or text.count('"') % 2 or "/*" in text:
            first = 1                       # unbalanced text: also at its opening
    elif nm and "%N" in text and "typemap" not in text and not (lang == "python" and re.match("foreign_(callback|interface)", text)) and "dyn" not in text and not text.startswith("foreign_class!(#["):
        # a type nobody knows: at the lines of the member that uses it
        lines = t.split("\n")
        k = next(k for k, l in enumerate(lines) if nm in l)
        s = k
        while s and not re.search(r"\bfn f|constructor|= Inj", lines[s]):
            s -= 1
        first, last = first + s, first + k
    srcs = [src]
    if rng.random() < .6:
        srcs = [ok_item(lang, "One"), src]
        if rng.random() < .4:
            srcs = srcs[::-1]
    d = common.scratch("g05")
    try:
        w = judge(ck, d, lang, srcs, None, None, (srcs.index(src), first, last))
        ck.count((lang, src), True, {"language": lang, "construct": t} if rd == 0 and i % 9 == 2 else None)
        if w:
            ck.violation(f"{lang}:{text}", f"[{lang}] {t}\n{w}", {"lang": lang, "sources": srcs})
    finally:
        common.rmtree(d)


def main():
    ck = common.Check("G05", RULE, ["which constructs are refused is taken from the present generator only for the listed ones, all of which name something that does not exist or break the grammar"])
    common.build_fgen()
    riches = {l: rich(l) for l in ("cpp", "java", "python")}
    n, f = (200, 20000) if ck.thorough else (4, 350)
    js = [("i", lang, i, rd) for rd in range(n) for lang in NO for i in range(len(BAD))] + [("f", lang, i, 0) for i in range(f) for lang in NO]
    if ck.thorough:
        common.rng("G05o").shuffle(js)

    def job(x):
        if len(ck.violations) < 3 and not ck.over(700):
            inject(ck, *x[1:]) if x[0] == "i" else fuzz(ck, x[1], x[2], riches)
    common.pool(job, js)
    return ck.finish()


if __name__ == "__main__":
    common.main(main)
