"""Java driver generator: executes a script against the generated Java interface."""
from . import types as ty
from .spec import is_mut

JPRIM = {"bool": "boolean", "i8": "byte", "u8": "short", "i16": "short", "u16": "int", "i32": "int", "u32": "long", "i64": "long",
         "u64": "long", "isize": "long", "usize": "long", "f32": "float", "f64": "double"}
BOX = {"byte": "Byte", "short": "Short", "int": "Integer", "long": "Long", "float": "Float", "double": "Double", "boolean": "Boolean"}


class JavaGen:
    def __init__(self, spec):
        self.spec = spec
        self.pkg = spec.cfg.get("ns", "org.vf.gen")
        self.opt = spec.cfg.get("optional_package") or "java.util"
        self.fns, self.memo = [], {}

    def t(self, T, d):
        k = T[0]
        if k == "p":
            return JPRIM[T[1]]
        if k in ("String", "str", "path"):
            return "String"
        if k in ("enum", "cls", "cb"):
            return T[1]
        if k == "opt":
            e = T[1]
            if d == "in":
                return BOX[JPRIM[e[1]]] if e[0] == "p" else self.t(e, d)
            if e[0] == "p":
                return self.opt + "." + {"i8": "OptionalInt", "i16": "OptionalInt", "i32": "OptionalInt", "i64": "OptionalLong",
                        "f32": "OptionalDouble", "f64": "OptionalDouble"}[e[1]]
            return f"{self.opt}.Optional<{self.t(e, d)}>"
        if k == "res":
            return self.t(T[1], d)
        if k in ("vec", "slice", "mslice"):
            return self.t(T[1], d) + "[]"
        if k == "date":
            return "java.util.Date"
        if k == "unit":
            return "void"
        if k == "um":
            return self.spec.cfg["umaps"][T[1]]["jtype"]
        if k == "nt":
            return self.t(T[2], d)
        raise KeyError(T)

    def en(self, T, d="out"):
        """Name of a static function appending the encoding of a value."""
        key = ("en", T, d)
        if key in self.memo:
            return self.memo[key]
        n = self.memo[key] = f"en{len(self.memo)}"
        k = T[0]
        if k == "p":
            b = {"bool": "c.b(v);", "f32": "c.f32(v);", "f64": "c.f64(v);"}.get(T[1], "c.i(v);")
        elif k in ("String", "str", "path"):
            b = "c.s(v);"
        elif k == "enum":
            items = " ".join(f'case {T[1]}I{i}: x = {i}; break;' for i in range(T[2]))
            b = f'if (v == null) {{ c.raw(" NULL"); return; }} int x = -1; switch (v) {{ {items} }} c.raw(" e" + x); if (v.getValue() != x) c.raw(" VALUE-DIFFERS");'
        elif k == "cls":
            b = f'if (v == null) {{ c.raw(" NULL"); return; }} obj(c, v); '
            if d == "out":
                b += f"H_{T[1]}.put(c.nextDst(), v);"
        elif k == "opt":
            e = T[1]
            if d == "in":
                b = f'if (v == null) c.raw(" N"); else {{ c.raw(" S"); {self.en(e, d)}(c, v); }}'
            elif e[0] == "p":
                g = {"OptionalInt": "getAsInt", "OptionalLong": "getAsLong", "OptionalDouble": "getAsDouble"}[self.t(T, d).rsplit(".", 1)[1]]
                cast = f"({JPRIM[e[1]]})" if e[1] in ("i8", "i16", "f32") else ""
                chk = f'if (({JPRIM[e[1]]})v.{g}() != v.{g}() && v.{g}() == v.{g}()) c.raw(" VALUE-DIFFERS");' if cast else ""
                b = f'if (!v.isPresent()) c.raw(" N"); else {{ c.raw(" S"); {self.en(e, d)}(c, {cast}v.{g}()); {chk} }}'
            else:
                b = f'if (!v.isPresent()) c.raw(" N"); else {{ c.raw(" S"); {self.en(e, d)}(c, v.get()); }}'
        elif k in ("vec", "slice", "mslice"):
            b = f'if (v == null) {{ c.raw(" NULL"); return; }} c.raw(" V" + v.length); for ({self.t(T[1], d)} x : v) {self.en(T[1], d)}(c, x);'
        elif k == "date":
            b = "c.i(v.getTime());"
        elif k == "um":
            b = "c.i(%s);" % self.spec.cfg["umaps"][T[1]]["en"]
        elif k == "nt":
            b = f"{self.en(T[2], d)}(c, v);"
        else:
            raise KeyError(T)
        self.fns.append(f"static void {n}(Ctx c, {self.t(T, d)} v) {{ {b} }}")
        return n

    def rd(self, T):
        key = ("rd", T)
        if key in self.memo:
            return self.memo[key]
        n = self.memo[key] = f"rd{len(self.memo)}"
        jt = self.t(T, "in")
        k = T[0]
        if k == "p":
            b = {"bool": "return c.rdBool();", "f32": "return c.rdF32();", "f64": "return c.rdF64();"}.get(T[1], f"return ({jt})c.num();")
        elif k in ("String", "str", "path"):
            b = "return c.rdStr();"
        elif k == "enum":
            b = f"int i = (int)c.num(); for ({T[1]} x : {T[1]}.values()) if (x.name().equals(\"{T[1]}I\" + i)) return x; throw new RuntimeException(\"no enum item\");"
        elif k == "cls":
            b = f"{T[1]} o = H_{T[1]}.get(c.label()); if (o == null) throw new RuntimeException(\"no handle\"); return o;"
        elif k == "opt":
            b = f'if (c.tok().equals("N")) return null; return {self.rd(T[1])}(c);'
        elif k in ("vec", "slice", "mslice"):
            b = f"int n = c.len(); {jt} r = new {jt[:-2]}[n]; for (int i = 0; i < n; ++i) r[i] = {self.rd(T[1])}(c); return r;"
        elif k == "um":
            m = self.spec.cfg["umaps"][T[1]]
            b = f"final {m['jprim']} x = ({m['jprim']})c.num(); return {m['rd']};"
        elif k == "nt":
            b = f"return {self.rd(T[2])}(c);"
        else:
            raise KeyError(T)
        self.fns.append(f"static {jt} {n}(Ctx c) {{ {b} }}")
        return n

    def method(self, m):
        s, ex, post = [], [], []
        if m.recv != "static":
            s.append(f"{m.cls} self = H_{m.cls}.get(c.label());")
        for i, T in enumerate(m.args):
            s.append(f"{self.t(T, 'in')} a{i} = {self.rd(T)}(c);")
            ex.append(f"a{i}")
            if T[0] in ("slice", "vec"):
                s.append(f"{self.t(T, 'in')} b{i} = a{i}.clone();")
                post.append(f'if (!java.util.Arrays.equals(a{i}, b{i})) c.raw(" ARG-DIFFERS");')
        call = (f"{m.cls}." if m.recv == "static" else "self.") + f"{m.name}({', '.join(ex)})"
        r = m.ret
        if r[0] == "unit":
            s.append(f'{call}; c.raw(" u");')
        elif r[0] == "res":
            if r[1][0] == "unit":
                body = f'{call}; c.raw(" O u");'
            else:
                body = f'{self.t(r[1], "out")} r = {call}; c.raw(" O"); {self.en(r[1])}(c, r);'
            # only what the method declares counts: java.lang.Exception itself
            s.append(f'try {{ {body} }} catch (Exception e) {{ if (e.getClass() != Exception.class) throw e; c.raw(" E"); c.s(e.getMessage()); }}')
        else:
            s.append(f"{self.t(r, 'out')} r = {call}; {self.en(r)}(c, r);")
        s += post
        return f"static void op_call{m.idx}(Ctx c) throws Throwable {{ {' '.join(s)} }}"

    def emit(self, ext=None):
        sp = self.spec
        cls = [c.name for c in sp.classes]
        head = ["package drv;", f"import {self.pkg}.*;", "import drv.Vf.Ctx;", "import java.util.*;", "public final class Drv {"]
        body, regs = [], []
        for c in cls:
            head.append(f"static final HashMap<Integer, {c}> H_{c} = new HashMap<>();")
            head.append(f'static void obj(Ctx c, {c} v) {{ c.raw(" c" + v.vid() + ":" + v.vpay()); }}')
            ops = {
                "new": f"int p = (int)c.num(); H_{c}.put(c.nextDst(), {c + '.mk_obj' if c in sp.cfg.get('noctor', []) else 'new ' + c}(p)); c.raw(\" u\");",
                "del": f"{c} o = H_{c}.remove(c.label()); o.delete(); o.delete(); c.raw(\" u\");",
                "newr": f"int p = (int)c.num(); String s = c.rdStr(); boolean f = c.rdBool(); try {{ {c} o = new {c}(p, s, f); H_{c}.put(c.nextDst(), o); c.raw(\" u\"); }} "
                        "catch (Exception e) { if (e.getClass() != Exception.class) throw e; c.raw(\" E\"); c.s(e.getMessage()); }" if c in sp.cfg.get("newr", []) else "",
                "look": f"obj(c, H_{c}.get(c.label()));",
            }
            for k, b in ops.items():
                body.append(f"static void op_{k}_{c}(Ctx c) throws Throwable {{ {b} }}")
                regs.append(f'Vf.ops.put("{k}_{c}", Drv::op_{k}_{c});')
        called = [m for m in sp.methods if not sp.ext_only]
        body += [self.method(m) for m in called]
        regs += [f'Vf.ops.put("call{m.idx}", Drv::op_call{m.idx});' for m in called]
        body.append('static void op_purge(Ctx c) { Vf.purge(); c.raw(" u"); }')
        regs.append('Vf.ops.put("purge", Drv::op_purge);')
        drops = " ".join(f"if (Vf.drop(H_{c}.remove(l))) continue;" for c in cls)
        body.append(f'static void op_gc(Ctx c) throws Throwable {{ long want = c.num(); int n = c.len(); for (int i = 0; i < n; ++i) {{ int l = c.label(); {drops} c.raw(" NO-HANDLE"); }} Vf.gc(want); c.raw(" u"); }}')
        regs.append('Vf.ops.put("gc", Drv::op_gc);')
        if ext:
            text, xops, _ = ext(self)
            body.append(text)
            for name, code in xops:
                body.append(code)
                regs.append(f'Vf.ops.put("{name}", Drv::op_{name});')
        # registration is split: one method may hold 64 KB of code only
        init = []
        for i in range(0, len(regs), 100):
            body.append(f"static void reg{i}() {{ {' '.join(regs[i:i + 100])} }}")
            init.append(f"reg{i}();")
        body.append('public static void main(String[] a) throws Throwable { System.load(System.getenv("VF_LIB")); %s Vf.run(); }' % " ".join(init))
        return "\n".join(head + self.fns + body) + "\n}\n"
