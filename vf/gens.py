"""The generator as a program: its inputs, its output files, its messages."""
import os
import re
from . import common, surf
from .common import Infra, read, run, write

NS = {"cpp": "org_n", "java": "org.vf.gen", "python": "surfmod"}

PASS = [
    "pub fn %s<T: Clone, const N: usize>(x: &[T; N]) -> Vec<T> where T: Sized { x.iter().cloned().collect() }",
    "/// doc of %s\n#[derive(Debug, Clone)]\npub struct %s2 { pub a: i32, b: &'static str }",
    "const %s: &[u8] = b\"\\x00\\n\\\"#\";", "static %s: f64 = 1.; ", "use std::{collections::HashMap as %s, fmt};",
    "mod %s { pub mod inner { pub fn f() -> u8 { 1 } } /* c */ }", "macro_rules! %s { ($($x:expr),* $(,)?) => { [$($x),*] }; (@ $t:tt) => { stringify!($t) } }",
    "thread_local! { static %s: u32 = 1; }", "impl Tr%s for u8 { fn f(&self) -> bool { *self >= 3 && !(*self << 2 > 7) } }", "pub trait Tr%s { fn f(&self) -> bool; type X where Self: Sized; }",
    "#[cfg(any(unix, feature = \"x\"))]\npub(crate) enum %s { A = 1, B(u8), C { r#type: i8 } }", "union %s { a: u32, b: f32 }", "extern \"C\" { fn %s(a: *const i8, ...) -> i32; }",
    "type %s<'a> = Box<dyn for<'b> Fn(&'b str) -> Option<&'a str> + 'a>;", "pub unsafe extern \"C\" fn %s(p: *mut u8) { *p = b'\\''; }",
    "fn %s() { let s = r##\"a \"# b\"##; let c = '\\u{1F600}'; let _ = (0..=9, 1.0e-3f32, 0xFFu64, 1_000, s, c); 'l: loop { break 'l; } }",
    "async fn %s(x: impl Fn() -> u8) -> Result<(), Box<dyn std::error::Error>> { let y = || async move { x() }; y().await; Ok(()) }",
    "#[inline]\n#[must_use = \"why; not\"]\nfn %s(r#fn: u8) -> u8 { if let Some(x) = Some(r#fn) { x } else { match r#fn { 0 | 1 => 2, n @ 3..=5 if n > 3 => n, _ => 0 } } }",
    "lazy! { foreign_class x; { class %s { self_type X; } } }", "pub fn %s() -> &'static str { \"foreign_class!(class A {})\" }", "const _%s: () = ();",
    "impl<T> %sTr<T> for Vec<T> where for<'a> &'a T: Into<i64> { const K: i32 = -1; fn f<'a>(&'a self, (a, b): (u8, u8)) -> [u8; 2] { [a, b] } }", "extern crate std as %s;",
    # macros of others with names like flapigen's
    "crate::%s::foreign_class!(class X { fn X::f(); });", "other::foreign_enum! { enum %s {} }", "::%s::foreign_callback![];", "self::%s::foreign_typemap!(a => b);",
    "foreign_class_%s! { class X {} }", "foreign_%s!(class X {});", "foreigner_classes! { %s }", "my::foreigner_class!{class %s {}}", "foreign_code!(module = \"%s.h\"; \"x\");",
    "macro_rules! foreign_enum { ($($t:tt)*) => { %s! { $($t)* } }; }", "#[macro_use]\nmod foreign_%s { pub fn foreign_class() {} }",
    "pub macro %s($x:expr) { $x }", "pub(in crate::a) struct %s<const A: char, B: ?Sized = [u8]>(pub(self) *const B);", "static mut %s: [u8; 2] = [0; 2];",
    "const fn %s(x: Option<u8>) -> u8 { let Some(y) = x else { return 0 }; y }", "pub trait %sAlias = Send + Sync;", "unsafe impl Send for %s where for<'x> &'x u8: Copy {}",
]


def passthrough(rng, n):
    return [rng.choice(PASS).replace("%s", f"p{i}x") for i in range(n)]


def texts(rng, lang, n_pass=0, weird=()):
    """(surface, its items as texts: enums first, the pass-through items spread among them)"""
    s = surf.gen(rng, lang, weird)
    _, g = surf.emit_items(s)
    r = [("own", t) for t in g]
    for p in passthrough(rng, n_pass):
        r.insert(rng.randint(0, len(r)), ("pass", p))
    return s, r


def generate(d, lang, srcs, out="gen", dst="glue.rs", tag="", cwd=None, env=None, **opts):
    """srcs: texts of the source files; (rc, messages)."""
    paths = []
    for i, t in enumerate(srcs):
        p = f"{d}/src{tag}{i}.rs.in"
        write(p, t)
        paths.append(p)
    os.makedirs(f"{d}/{out}", exist_ok=True)
    job = dict(lang=lang, name=NS[lang], dst=f"{d}/{dst}", width=opts.pop("width", "64"), rustfmt=opts.pop("rustfmt", "0"))
    if lang != "python":
        job["out"] = f"{d}/{out}"
    job.update(opts)
    lines = []
    for k, v in job.items():
        lines += [f"{k} {x}" for x in (v if isinstance(v, list) else [v])]
    lines += [f"src {p}" for p in paths]
    write(d + "/job" + tag, "\n".join(lines) + "\n")
    rc, o, e = run([common.build_fgen(), d + "/job" + tag], timeout=200, cwd=cwd, **(env or {}))
    return rc, o + e


def tree(d):
    """{relative path: bytes} of a directory"""
    r = {}
    for top, ds, fs in os.walk(d):
        for f in fs:
            p = os.path.join(top, f)
            with open(p, "rb") as h:
                r[os.path.relpath(p, d)] = h.read()
    return r


def diff_trees(a, b, an="first", bn="second"):
    for k in sorted(set(a) | set(b)):
        if k not in a:
            return f"{k} exists only in the {bn}"
        if k not in b:
            return f"{k} exists only in the {an}"
        if a[k] != b[k]:
            return f"{k} differs: {first_diff(a[k], b[k])}"
    return None


def first_diff(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"at byte {n}: {a[max(0, n - 40):n + 60]!r} / {b[max(0, n - 40):n + 60]!r}"


def outdir(d, lang):
    return tree(d + "/gen") if lang != "python" else {}


_toks = {}


def build_toks():
    with common.LOCK:
        if "b" not in _toks:
            rc, o, e = run(["cargo", "build", "--offline", "-q"], timeout=400, cwd=os.path.join(common.VERIF, "harness", "toks"))
            if rc != 0:
                raise Infra("building toks: " + e[-1000:])
            _toks["b"] = os.path.join(common.TARGET, "debug", "toks")
    return _toks["b"]


def tokens(paths):
    rc, o, e = run([build_toks()] + paths, timeout=200)
    if rc != 0:
        raise Infra("toks: " + e[-600:])
    r, cur = {}, None
    for l in o.split("\n")[:-1]:
        if l.startswith("FILE "):
            cur = r.setdefault(l[5:], [])
        else:
            cur.append(l)
    return r


def find_from(hay, needle, start):
    n = len(needle)
    first = needle[0]
    i = start
    while True:
        try:
            i = hay.index(first, i)
        except ValueError:
            return -1
        if hay[i:i + n] == needle:
            return i
        i += 1


def refused(rc, err):
    return "\n".join(l for l in err.splitlines() if "cargo:warning" not in l)[:800]


def own_name(t):
    return re.search(r"\b(?:class|enum|callback|interface) (\w+) \{", t).group(1)


def closed(ts, chosen):
    """The chosen item texts with all they refer to, in the order of ts."""
    names = {own_name(t): t for w, t in ts if w == "own"}
    need, todo = set(), list(chosen)
    while todo:
        t = todo.pop()
        if t in need:
            continue
        need.add(t)
        for n, u in names.items():
            if u not in need and re.search(r"\bR?%s\b" % n, t):
                todo.append(u)
    return [t for w, t in ts if t in need]
