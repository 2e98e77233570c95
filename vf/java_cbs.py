"""Java side of the callback checks."""
from . import javauniv, types as ty
from .types import P
from .spec import Meth
from .cbs import Cb, CbSpec, CB_NAMES

OPTS = {"lim": javauniv.lim, "thr": True, "again": True, "storm": True, "alive": True}
NAMES = [n for n in CB_NAMES if n not in ("env",)]


def cb_spec(rng, setup=None):
    s = CbSpec("java")
    s.cfg["fence"] = "std"
    s.cfg["cb_first"] = rng.random() < 0.5
    s.classes = javauniv.std_classes(rng)
    s.enums = [("En0", rng.choice([2, 3, 7, 300]))]
    u = javauniv.Univ(rng, s.classes, s.enums)
    um_all, um_cb = setup(rng, s) if setup else ([], [])
    rets = [P(p) for p in javauniv.IN]
    base = [P(p) for p in javauniv.OUT] + [("String",), ("str",)] + u.E + u.val
    args = base + [("vec", P(p)) for p in javauniv.ARR] + [("slice", P(p)) for p in javauniv.ARR] + [("vec", t) for t in u.val]
    args += [("opt", P(p)) for p in javauniv.OPT] + [("vec", ("String",))]
    args += args + um_cb * 4
    rets += [t for t in um_cb if t[0] == "um"] * 2
    every = list(args)
    rng.shuffle(rets)
    rng.shuffle(args)
    idx = 0
    for ci in range(4):
        ms = []
        for k in range(9):
            n = rng.choice([0, 1, 1, 2, 3, 4]) if k or ci else 12
            a = [args.pop() if args and rng.random() < 0.8 else rng.choice(every) for _ in range(n)]
            r = ("unit",) if rng.random() < 0.4 else (rets.pop() if rets else rng.choice([t for t in um_cb if t[0] == "um"]) if um_cb and rng.random() < .4 else P(rng.choice(javauniv.IN)))
            m = Meth(idx, "Cb%d" % ci, rng.choice(["ref", "ref", "mut"]), a, r)
            m.name = "on%d" % idx
            if rng.random() < 0.6:
                m.argnames = rng.sample(NAMES, len(a))
            ms.append(m)
            idx += 1
        if rng.random() < 0.5:
            # overloaded methods
            ms[0].name = ms[1].name
            if [jsig(t, s) for t in ms[0].args] == [jsig(t, s) for t in ms[1].args]:
                ms[0].name = "on%d" % ms[0].idx
        s.cbs.append(Cb("Cb%d" % ci, ms, rng.random() < 0.5))
    plain = [P(p) for p in javauniv.IN] + [("String",), ("str",)] + u.E + um_cb * 2 + [t for t in um_all if t[0] == "um"] * 2
    for ri in range(6):
        k = [("cb", ri % 4)] + [("cb", rng.randrange(4)) for _ in range(rng.choice([0, 0, 1, 2]))] + [rng.choice(plain) for _ in range(rng.choice([0, 1, 2]))]
        rng.shuffle(k)
        s.regs.append(("reg%d" % ri, k))
    return s.finish()


def jsig(t, s):
    from .javadrv import JavaGen
    return JavaGen(s).t(t, "out")


def driver_ops(g):
    sp = g.spec
    head = ["static Ctx g_ctx; static final TreeMap<Integer, java.lang.ref.WeakReference<Object>> g_cbs = new TreeMap<>();"]
    ops = []
    for c in sp.cbs:
        body, fwd = [], []
        for m in c.methods:
            args = ", ".join(f"{g.t(t, 'out')} v{i}" for i, t in enumerate(m.args))
            st = [f'Ctx c = g_ctx; c.raw(" @" + id + ".{m.idx}"); int n = (int)c.num(); for (int i = 0; i < n; ++i) c.dst.add(c.label());']
            for i, t in enumerate(m.args):
                st.append(f"{g.en(t)}(c, v{i});")
            st.append('if (!c.dst.isEmpty()) c.raw(" MISSING-OBJECT"); boolean thr = c.rdBool(); if (c.num() != 0) Stat.fire(); if (thr) throw new IllegalStateException("on purpose");')
            rt = "void"
            if m.ret[0] != "unit":
                rt = g.t(m.ret, "in")
                st.append(f"return {g.rd(m.ret)}(c);")
            # a name of its own for each overload
            st = " ".join(st)
            body.append(f"@Override public {rt} {m.name}({args}) {{ {st} }}")
            fwd.append(f"@Override public {rt} {m.name}({args}) {{ {'return ' if rt != 'void' else ''}in.{m.name}({', '.join('v%d' % i for i in range(len(m.args)))}); }}")
        head.append(f"""static final class Impl{c.name} implements {c.name} {{ final int id; Impl{c.name}(int i) {{ id = i; }}
 {' '.join(body)} }}""")
        # other classes for the same callback: another order, methods of its own, half of them inherited, no class known when the library was loaded
        rev = [x for i, y in enumerate(reversed(fwd)) for x in (y, f"public int own{i}() {{ throw new Error(\"wrong method\"); }}")]
        head.append(f"static class Rev{c.name} implements Runnable, {c.name} {{ final Impl{c.name} in; Rev{c.name}(Impl{c.name} i) {{ in = i; }} public void run() {{ throw new Error(\"wrong method\"); }}\n {' '.join(rev)} }}")
        h = len(fwd) // 2
        head.append(f"static abstract class Half{c.name} implements {c.name} {{ final Impl{c.name} in; Half{c.name}(Impl{c.name} i) {{ in = i; }}\n {' '.join(fwd[:h])} }}")
        head.append(f"static final class Sub{c.name} extends Half{c.name} {{ Sub{c.name}(Impl{c.name} i) {{ super(i); }}\n {' '.join(fwd[h:])} }}")
        head.append(f"""static {c.name} make{c.name}(int id) {{ final Impl{c.name} in = new Impl{c.name}(id); switch (id % 5) {{ case 1: return new Rev{c.name}(in); case 2: return new Sub{c.name}(in);
  case 3: return ({c.name}) java.lang.reflect.Proxy.newProxyInstance(Ctx.class.getClassLoader(), new Class<?>[] {{ {c.name}.class }}, (p, m, a) -> {{ try {{ return m.invoke(in, a); }} catch (java.lang.reflect.InvocationTargetException e) {{ throw e.getCause(); }} }});
  case 4: return new Rev{c.name}(in) {{ @Override public void run() {{ }} }}; default: return in; }} }}""")
    head.append("static final class ImplStorm implements Storm { int n; long x; public synchronized long tick(long v) { ++n; x += v; return v; } }")
    for ri, (name, args) in enumerate(sp.regs):
        st, ex = ["g_ctx = c; int id;"], []
        for i, t in enumerate(args):
            if t[0] == "cb":
                cn = sp.cbs[t[1]].name
                st.append(f"id = (int)c.num(); {cn} a{i} = g_cbs.containsKey(id) ? ({cn})g_cbs.get(id).get() : make{cn}(id); g_cbs.put(id, new java.lang.ref.WeakReference<>(a{i})); if (a{i} == null) c.raw(\" NULL\");")
            else:
                st.append(f"{g.t(t, 'in')} a{i} = {g.rd(t)}(c);")
            ex.append(f"a{i}")
        ops.append((name, f"static void op_{name}(Ctx c) throws Throwable {{ {' '.join(st)} Stat.{name}({', '.join(ex)}); }}"))
    ops.append(("fire", "static void op_fire(Ctx c) { g_ctx = c; Stat.fire(); }"))
    ops.append(("drop", "static void op_drop(Ctx c) { g_ctx = c; Stat.drop_cb(); }"))
    ops.append(("storm", "static void op_storm(Ctx c) { int n = (int)c.num(); long p = c.num(); ImplStorm x = new ImplStorm(), y = new ImplStorm(), z = new ImplStorm(); "
                "long r = Stat.storm(x, y, z, n, p); c.i(x.n); c.i(y.n); c.i(z.n); if (r != x.x + y.x + z.x) c.raw(\" SUM-DIFFERS\"); c.i(r); }"))
    ops.append(("alive", "static void op_alive(Ctx c) { System.gc(); for (Map.Entry<Integer, java.lang.ref.WeakReference<Object>> e : g_cbs.entrySet()) if (e.getValue().get() != null) c.i(e.getKey()); }"))
    return "\n".join(head), ops, ""
