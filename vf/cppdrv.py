"""C++ driver generator: executes a script against the generated C++ interface."""
from . import types as ty
from .types import RANGE, enc
from .spec import is_mut

CPRIM = {"bool": "bool", "f32": "float", "f64": "double", "isize": "intptr_t", "usize": "uintptr_t"}
for _t in ("i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64"):
    CPRIM[_t] = ("u" if _t[0] == "u" else "") + "int" + _t[1:] + "_t"


class CppGen:
    def __init__(self, spec):
        self.spec = spec
        cfg = spec.cfg
        b = cfg.get("use_boost")
        self.opt_ns = "boost" if b or cfg.get("optional") == "boost" else "std"
        self.var_ns = "boost" if b or cfg.get("variant") == "boost" else "std"
        self.sv = "boost::string_view" if b or cfg.get("str_view") == "boost" else "std::string_view"
        self.to_sv = "to_boost_string_view" if self.sv[0] == "b" else "to_string_view"
        self.fns = []
        self.memo = {}

    # ------------------------------------------------------------ types
    def t(self, T, d):
        k = T[0]
        f = lambda x: self.t(x, d)
        if k == "p":
            return CPRIM[T[1]]
        if k == "String":
            return self.sv if d == "in" else "RustString"
        if k in ("str", "path"):
            return self.sv
        if k in ("enum", "repr"):
            return T[1]
        if k == "cls":
            if T[2] == "val":
                return T[1]
            if d == "out":
                return T[1] + "Ref"
            return f"const {T[1]} &" if T[2] == "ref" else f"{T[1]} &"
        if k == "opt":
            if T[1][0] == "cls" and T[1][2] != "val" and d == "in":
                return f"const {T[1][1]} *" if T[1][2] == "ref" else f"{T[1][1]} *"
            return f"{self.opt_ns}::optional<{f(T[1])}>"
        if k == "res":
            if T[1][0] == "unit":
                return f"{self.var_ns}::optional<{f(T[2])}>"
            return f"{self.var_ns}::variant<{f(T[1])}, {f(T[2])}>"
        if k == "vec":
            e = T[1]
            if e[0] == "cls":
                return "RustForeignVec" + e[1]
            return "RustVec" + e[1]
        if k == "slice":
            e = T[1]
            return f"RustForeignSliceConst<{e[1]}Ref>" if e[0] == "cls" else f"RustSlice<const {f(e)}>"
        if k == "mslice":
            e = T[1]
            return f"RustForeignSliceMut<{e[1]}Ref>" if e[0] == "cls" else f"RustSlice<{f(e)}>"
        if k == "tup":
            return ("std::pair<" if len(T[1]) == 2 else "std::tuple<") + ", ".join(f(x) for x in T[1]) + ">"
        if k == "unit":
            return "void"
        if k == "cb":
            return f"std::unique_ptr<{T[1]}>"
        if k == "um":
            return self.spec.cfg["umaps"][T[1]]["ctype"]
        if k == "nt":
            return f(T[2])
        if k == "wr":
            return f"umx::{T[2] if len(T) > 2 else 'Wr'}<{f(T[1])}>"
        if k == "ptr":
            return ("const " if T[1] == "const" else "") + f(T[2]) + " *"
        raise KeyError(T)

    # ------------------------------------------------------------ encoders (Rust -> C++ values)
    def en(self, T, d="out"):
        """Name of a function that appends the encoding of a value received from Rust."""
        key = ("en", T, d)
        if key in self.memo:
            return self.memo[key]
        n = f"en{len(self.memo)}"
        self.memo[key] = n
        ct = self.t(T, d)
        k = T[0]
        b = []
        if k == "p":
            b.append({"bool": "en_bool(c, v);", "f32": "en_f32(c, v);", "f64": "en_f64(c, v);"}.get(T[1], "en_int(c, v);"))
        elif k == "String" and d == "out":
            b.append(f"std::string s1 = v.to_std_string(); auto s2 = v.{self.to_sv}();"
                     "if (s1.size() != v.size() || s2.size() != v.size() || v.empty() != (v.size() == 0) || (v.size() && memcmp(s1.data(), s2.data(), v.size()))) c.out += \" STRVIEWS-DIFFER\";"
                     "en_bytes(c, s1.data(), s1.size());")
        elif k in ("String", "str", "path"):
            b.append("en_bytes(c, v.data(), v.size());")
        elif k == "enum":
            b.append('c.out += " e" + std::to_string(static_cast<uint32_t>(v));')
        elif k == "cls":
            if T[2] == "val":
                b.append(f"en_obj(c, v); H_{T[1]}.emplace(c.next_dst(), std::move(v));")
            else:
                b.append("en_obj(c, v);")
        elif k == "repr":
            b.append(f'en_len(c, \'T\', {len(T[2])});')
            for i, f in enumerate(T[2]):
                b.append(f"{self.en(f, d)}(c, std::move(v.f{i}));")
        elif k == "opt":
            if ct.endswith("*"):
                b.append(f'if (v == nullptr) {{ c.out += " N"; return; }} c.out += " S"; en_obj(c, *v);')
            else:
                b.append(f'if (!v) {{ c.out += " N"; return; }} c.out += " S"; {self.en(T[1], d)}(c, std::move(*v));')
        elif k == "res":
            if T[1][0] == "unit":
                b.append(f'if (!v) {{ c.out += " O u"; return; }} c.out += " E"; {self.en(T[2], d)}(c, std::move(*v));')
            else:
                e1, e2 = self.en(T[1], d), self.en(T[2], d)
                if self.var_ns == "std":
                    b.append(f'if (v.index() == 0) {{ c.out += " O"; {e1}(c, std::get<0>(std::move(v))); }} else {{ c.out += " E"; {e2}(c, std::get<1>(std::move(v))); }}')
                else:
                    t1, t2 = self.t(T[1], d), self.t(T[2], d)
                    b.append(f'if (v.which() == 0) {{ c.out += " O"; {e1}(c, std::move(boost::get<{t1}>(v))); }} else {{ c.out += " E"; {e2}(c, std::move(boost::get<{t2}>(v))); }}')
        elif k in ("vec", "slice", "mslice"):
            e = T[1]
            b.append('en_len(c, \'V\', v.size()); if (v.empty() != (v.size() == 0)) c.out += " EMPTY-WRONG";')
            if e[0] == "cls":
                b.append("for (size_t i = 0; i < v.size(); ++i) { en_obj(c, v[i]); }")
                b.append("{ size_t i = 0; for (auto it = v.begin(); it != v.end(); ++it, ++i) { if (i >= v.size() || (*it).vid() != v[i].vid()) { c.out += \" ITER-DIFFERS\"; break; } } if (i != v.size()) c.out += \" ITER-LEN\"; }")
                if k == "vec":
                    b.append(f"if (!c.dst.empty()) while (!v.empty()) {{ {e[1]} o = v.remove(0); H_{e[1]}.emplace(c.next_dst(), std::move(o)); }}")
            else:
                en = self.en(e, d)
                ce = self.t(e, d)
                b.append(f"for (size_t i = 0; i < v.size(); ++i) {{ {ce} x = v[i]; {en}(c, std::move(x)); }}")
                b.append(f"if (v.size() && (&*v.begin() != &v[0] || v.end() - v.begin() != (std::ptrdiff_t)v.size())) c.out += \" ITER-DIFFERS\";")
        elif k == "tup":
            b.append(f"en_len(c, 'T', {len(T[1])});")
            for i, x in enumerate(T[1]):
                b.append(f"{self.en(x, d)}(c, std::get<{i}>(std::move(v)));")
        elif k == "um":
            m = self.spec.cfg["umaps"][T[1]]
            if m["kind"] == "pair" or m.get("pair"):
                b.append('if (v.first != 7u) c.out += " FIRST-WRONG";')
            b.append(f"{self.en(('p', T[2]), d)}(c, static_cast<{m['cprim']}>({m['en']}));")
        elif k == "nt":
            b.append(f"{self.en(T[2], d)}(c, std::move(v));")
        elif k == "wr":
            b.append(f"en_len(c, 'T', 2); en_int(c, v.tag); {self.en(T[1], d)}(c, std::move(v.val));")
        elif k == "ptr":
            b.append(f'if (v == nullptr) {{ c.out += " N"; return; }} c.out += " S"; auto x = *v; {self.en(T[2], d)}(c, std::move(x));')
        else:
            raise KeyError(T)
        self.fns.append(f"static void {n}(Ctx &c, {ct.replace('&', '').strip()} &&v) {{ {' '.join(b)} }}")
        return n

    # ------------------------------------------------------------ readers (C++ -> Rust values)
    def rd(self, T):
        key = ("rd", T)
        if key in self.memo:
            return self.memo[key]
        n = f"rd{len(self.memo)}"
        self.memo[key] = n
        ct = self.t(T, "in")
        k = T[0]
        if k == "p":
            b = {"bool": "return rd_bool(c);", "f32": "return rd_f32(c);", "f64": "return rd_f64(c);"}.get(
                T[1], f"return rd_int<{ct}>(c);")
        elif k in ("String", "str", "path"):
            b = f"size_t n; const char *p = rd_bytes(c, n); return {ct}(p, n);"
        elif k == "enum":
            b = f"return static_cast<{ct}>(atoi(c.tok().c_str() + 1));"
        elif k == "cls":
            if T[2] == "val":
                b = f"int l = c.label(); {T[1]} r = std::move(H_{T[1]}.at(l)); return r;"
            else:
                b = f"return H_{T[1]}.at(c.label());"
        elif k == "repr":
            b = f"c.tok(); {ct} r;" + "".join(f" r.f{i} = {self.rd(f)}(c);" for i, f in enumerate(T[2])) + " return r;"
        elif k == "opt":
            if ct.endswith("*"):
                b = f'if (c.tok() == "N") return nullptr; return &H_{T[1][1]}.at(c.label());'
            else:
                b = f'if (c.tok() == "N") return {ct}(); return {ct}({self.rd(T[1])}(c));'
        elif k == "res":
            if T[1][0] == "unit":
                b = f'if (c.tok() == "O") {{ c.tok(); return {ct}(); }} return {ct}({self.rd(T[2])}(c));'
            elif self.var_ns == "std":
                b = f'if (c.tok() == "O") return {ct}(std::in_place_index<0>, {self.rd(T[1])}(c)); return {ct}(std::in_place_index<1>, {self.rd(T[2])}(c));'
            else:
                b = f'if (c.tok() == "O") return {ct}({self.rd(T[1])}(c)); return {ct}({self.rd(T[2])}(c));'
        elif k == "vec":
            e = T[1]
            if e[0] == "cls":
                b = f"size_t n = rd_len(c); {ct} r; for (size_t i = 0; i < n; ++i) r.push({self.rd(e)}(c)); return r;"
            else:
                b = f"size_t n = rd_len(c); for (size_t i = 0; i < n; ++i) {self.rd(e)}(c); return Stat::mk_vec_{e[1].lower()}();"
        elif k == "tup":
            b = "c.tok(); " + " ".join(f"auto x{i} = {self.rd(x)}(c);" for i, x in enumerate(T[1]))
            b += f" return {ct}(" + ", ".join(f"std::move(x{i})" for i in range(len(T[1]))) + ");"
        elif k == "um":
            m = self.spec.cfg["umaps"][T[1]]
            b = f"{m['cprim']} x = {self.rd(('p', T[2]))}(c); return {m['rd']};"
        elif k == "nt":
            b = f"return {self.rd(T[2])}(c);"
        elif k == "wr":
            b = f"c.tok(); int64_t tag = rd_int<int64_t>(c); auto val = {self.rd(T[1])}(c); return {ct}{{tag, std::move(val)}};"
        elif k == "ptr":
            x = self.t(T[2], "in")
            b = f'if (c.tok() == "N") return nullptr; static std::deque<{x}> keep; keep.push_back({self.rd(T[2])}(c)); return &keep.back();'
        else:
            raise KeyError(T)
        self.fns.append(f"static {ct} {n}(Ctx &c) {{ {b} }}")
        return n

    # ------------------------------------------------------------ one method
    def arg(self, T, i):
        """(statements, expression, read-back statements)"""
        k = T[0]
        if k in ("slice", "mslice"):
            e = T[1]
            if e[0] == "cls":
                ve = ("vec", e)
                s = f"size_t n{i} = rd_len(c); {self.t(ve, 'in')} v{i}; for (size_t i = 0; i < n{i}; ++i) v{i}.push({self.rd(e)}(c));"
                ex = f"v{i}.as_slice()" if k == "slice" else f"v{i}.as_slice_mut()"
                rb = ""
                if k == "mslice":
                    rb = f"en_len(c, 'V', v{i}.size()); for (size_t i = 0; i < v{i}.size(); ++i) en_obj(c, v{i}[i]);"
                return s, ex, rb
            ce = self.t(e, "in")
            q = "const " if k == "slice" else ""
            s = f"size_t n{i} = rd_len(c); std::unique_ptr<{ce}[]> v{i}(new {ce}[n{i}]); for (size_t i = 0; i < n{i}; ++i) v{i}[i] = {self.rd(e)}(c);"
            rb = ""
            if k == "mslice":
                rb = f"en_len(c, 'V', n{i}); for (size_t i = 0; i < n{i}; ++i) {{ {ce} x = v{i}[i]; {self.en(e)}(c, std::move(x)); }}"
            return s, f"RustSlice<{q}{ce}>(maybe_null(v{i}.get(), n{i}), n{i})", rb
        ct = self.t(T, "in")
        rb = ""
        if T[0] == "cls" and T[2] != "val":
            return f"{ct}a{i} = {self.rd(T)}(c);", f"a{i}", rb
        if ct.endswith("*") or k in ("p", "enum", "repr", "str", "String", "path"):
            return f"{ct} a{i} = {self.rd(T)}(c);", f"a{i}", rb
        return f"{ct} a{i} = {self.rd(T)}(c);", f"std::move(a{i})", rb

    def method(self, m):
        s, ex, rbs = [], [], []
        if m.recv != "static":
            s.append(f"auto &self = H_{m.cls}.at(c.label());")
        for i, T in enumerate(m.args):
            a, b, c = self.arg(T, i)
            s.append(a)
            ex.append(b)
            rbs.append(c)
        if m.ret[0] == "cfn":
            ps = ", ".join(f"{self.t(t, 'out')} x{i}" for i, t in enumerate(m.ret[1]))
            ex.append(f"[]({ps}) {{ Ctx &c = *g_cfn; en_len(c, 'T', {len(m.ret[1])}); " + " ".join(f"{self.en(t)}(c, std::move(x{i}));" for i, t in enumerate(m.ret[1])) + " }")
            s.append("g_cfn = &c;")
        call = (f"{m.cls}::" if m.recv == "static" else "self.") + f"{m.name}({', '.join(ex)})"
        if m.ret[0] == "fut":
            s.append(f"std::future<{self.t(m.ret[1][0], 'out')}> fu = {call}; if (fu.wait_for(std::chrono::seconds(0)) != std::future_status::ready) {{ c.out += \" NOT-READY\"; return; }} en_len(c, 'T', 1); {self.en(m.ret[1][0])}(c, fu.get());")
        elif m.ret[0] == "cfn":
            s.append(call + ";")
        elif m.ret[0] == "unit":
            s.append(call + '; c.out += " u";')
        else:
            s.append(f"{self.en(m.ret)}(c, {call});")
        s += rbs
        return f"static void op_call{m.idx}(Ctx &c) {{ {' '.join(s)} }}"

    def emit(self, ext=None):
        """ext(gen) -> (text, [(op, code)], clear statements) adds operations."""
        sp = self.spec
        cls = [c.name for c in sp.classes]
        plainc = {c.name for c in sp.classes if c.plainc}
        inc = [f'#include "{c}.hpp"' for c in cls] + ['#include "Stat.hpp"']
        if sp.cfg.get("separate_impl_headers"):
            inc += [f'#include "{c}_impl.hpp"' for c in cls + ["Stat"]]
        head = ['#include "vf_drv.hpp"'] + inc + [f"using namespace {sp.cfg.get('ns', 'rust')};"]
        if sp.cfg.get("umaps"):
            head.append("#include <future>\n#include <deque>\nstatic Ctx *g_cfn = nullptr;")
        for c in cls:
            head.append(f"static std::map<int, {c}> H_{c};")
            head.append(('static void en_obj(Ctx &c, const %s &o)' % c if c in plainc else f'template<bool B> static void en_obj(Ctx &c, const {c}Wrapper<B> &o)') + ' { c.out += " c" + std::to_string(o.vid()) + ":" + std::to_string(o.vpay()); }')
        called = [m for m in sp.methods if not sp.ext_only]
        body = [self.method(m) for m in called]
        regs = [f'ops()["call{m.idx}"] = op_call{m.idx};' for m in called]
        for c in sp.classes:
            n = c.name
            b = {
                "new": f"int p = rd_int<int>(c); H_{n}.emplace(c.next_dst(), {n}{'::mk_obj' if n in sp.cfg.get('noctor', []) else ''}(p)); c.out += \" u\";",
                "del": f"H_{n}.erase(c.label()); c.out += \" u\";",
                "mv": f"auto &o = H_{n}.at(c.label()); auto r = H_{n}.emplace(c.next_dst(), std::move(o)); en_obj(c, r.first->second);",
                "asg": f"auto &o = H_{n}.at(c.label()); auto &d = H_{n}.at(c.label()); d = std::move(o); en_obj(c, d);",
                "swap": f"auto &o = H_{n}.at(c.label()); auto &d = H_{n}.at(c.label()); std::swap(o, d); en_obj(c, o); en_obj(c, d);",
                "look": f"const auto &o = H_{n}.at(c.label()); auto r = o.as_rref(); const {n} &q = r.as_cref(); std::string s0 = c.out; c.out.clear(); en_obj(c, o); std::string s1 = c.out; c.out.clear(); en_obj(c, r); std::string s2 = c.out; c.out.clear(); en_obj(c, q); if (c.out != s1 || s2 != s1) s1 += \" VIEWS-DIFFER\" + s2 + c.out; c.out = s0 + s1;",
                "rel": f"auto &o = H_{n}.at(c.label()); auto *raw = o.release(); {n} x(raw); auto *again = o.release(); if (again != nullptr) c.out += \" RELEASE-KEPT\"; o = std::move(x); en_obj(c, o);",
            }
            if c.plainc:
                b["look"] = f"const auto &o = H_{n}.at(c.label()); if (static_cast<{n}::SelfType>(o) == nullptr) c.out += \" NULL\"; en_obj(c, o);"
            if c.copyable:
                own = n if c.plainc else f"{n}Wrapper<true>"
                b["cpy"] = f"const auto &o = H_{n}.at(c.label()); auto r = H_{n}.emplace(c.next_dst(), o); if (static_cast<const {n}Opaque *>(static_cast<{own}::SelfType>(r.first->second)) == nullptr) c.out += \" u\"; else en_obj(c, r.first->second);"
                b["casg"] = f"const auto &o = H_{n}.at(c.label()); auto &d = H_{n}.at(c.label()); d = o; if (static_cast<{own}::SelfType>(d) == nullptr) c.out += \" u\"; else en_obj(c, d);"
            for k, s in b.items():
                body.append(f"static void op_{k}_{n}(Ctx &c) {{ {s} }}")
                regs.append(f'ops()["{k}_{n}"] = op_{k}_{n};')
        body.append('static void op_purge(Ctx &c) { vf_purge(); c.out += " u"; }')
        regs.append('ops()["purge"] = op_purge;')
        clear = " ".join(f"H_{c}.clear();" for c in cls)
        if ext:
            text, xops, xclear = ext(self)
            clear = xclear + clear
            body.append(text)
            for name, code in xops:
                body.append(code)
                regs.append(f'ops()["{name}"] = op_{name};')
        body.append("void vf_clear_handles() { %s }" % clear)
        body.append("int main() { %s return vf_main(); }" % "\n".join(regs))
        return "\n".join(head + self.fns + body) + "\n"


def script_line(spec, model, op, e):
    """One script line `D<k> labels op args \\t plan` of an applied op."""
    k = op["op"]
    if k == "purge":
        return "D0 purge\t"
    if "x" in op:  # operation of a driver extension: opcode in x, arguments computed by the model
        dst = op.get("dst", [])
        return " ".join(["D%d" % len(dst)] + [str(d) for d in dst] + [op["x"]] + e.args) + "\t" + " ".join(e.plan)
    if k == "call":
        m = spec.methods[op["m"]]
        dst = [v[2] for T, v in ty.objs(m.ret, op["ret"]) if v[0] in "nrk" and v[2] is not None] if m.ret[0] != "unit" else []
        s = ["D%d" % len(dst)] + [str(d) for d in dst] + ["call%d" % m.idx]
        if m.recv != "static":
            s.append("h%d" % op["self"])
        s += e.args
        return " ".join(s) + "\t" + " ".join(e.plan)
    if k == "bad":
        return " ".join(["D0", "bad%d" % op["m"]] + (["h%d" % op["self"]] if "self" in op else []) + [op["how"]] + e.args) + "\t"
    if k == "gc":
        return " ".join(["D0 gc"] + e.args) + "\t"
    c = op["cls"]
    if k == "badnew":
        return f"D0 newbad_{c} !{op['how']}\t"
    if k == "newr":
        t = " ".join(enc(("String",), op["err"] or op.get("s", b""), None))
        if op["err"] is None:
            return f"D1 {op['dst']} newr_{c} i{op['p']} {t} b0\t"
        return f"D0 newr_{c} i{op['p']} {t} b1\t"
    if k == "new":
        return f"D1 {op['dst']} new_{c} i{op['p']}\t"
    if k in ("mv", "cpy", "alias"):
        return f"D1 {op['dst']} {k}_{c} h{op['h']}\t"
    if k in ("asg", "casg", "swap"):
        return f"D0 {k}_{c} h{op['h']} h{op['dst']}\t"
    return f"D0 {k}_{c} h{op['h']}\t"
