"""C++ side of the callback checks."""
from . import types as ty
from .types import P, PRIMS
from .spec import Meth, Cls
from .cbs import Cb, CbSpec, CB_NAMES
from .cppuniv import Univ, std_classes
from .cpp_values import one_string


def cb_spec(rng, setup=None):
    s = CbSpec("cpp")
    if setup:
        u = setup(rng, s)
    else:
        s.classes = std_classes(rng)
        s.enums = [("En0", rng.choice([2, 3, 7, 300]))]
        s.reprs = [("Rr", (P("i64"), P("u8"), P("f32")))]
        u = Univ(rng, s.classes, s.enums, s.reprs)
    keep = rng.choice(["String", "str"])
    # types a callback may return: what a method may take, without borrowed data
    rets = [t for t in u.basic("in") if not borrowed(t)]
    args = [t for t in u.basic("out") if t[0] not in ("mslice", "fut", "cfn")]
    rng.shuffle(rets)
    rng.shuffle(args)
    idx = 0
    for ci in range(4):
        ms = []
        for k in range(9):
            n = rng.choice([0, 1, 1, 2, 3, 4]) if k or ci else 12
            a = [args.pop() if args and rng.random() < 0.8 else (u.rand("out") if rng.random() < 0.6 else rng.choice([t for t in u.basic("out") if t[0] not in ("fut", "cfn")])) for _ in range(n)]
            r = ("unit",) if rng.random() < 0.25 else (rets.pop() if rets and rng.random() < 0.8 else u.rand("in"))
            if borrowed(r):
                r = ("unit",)
            m = Meth(idx, "Cb%d" % ci, rng.choice(["ref", "ref", "mut"]), a, one_string(r, keep) if r[0] != "String" else r)
            m.name = "on%d" % idx
            if rng.random() < 0.6:
                m.argnames = rng.sample(CB_NAMES, len(a))
            ms.append(m)
            idx += 1
        s.cbs.append(Cb("Cb%d" % ci, ms, rng.random() < 0.5))
    plain = [P(p) for p in PRIMS] + [("String",), ("str",)] + u.E
    for ri in range(6):
        k = [("cb", ri % 4)] + [("cb", rng.randrange(4)) for _ in range(rng.choice([0, 0, 1, 2]))] + [rng.choice(plain) for _ in range(rng.choice([0, 1, 2]))]
        rng.shuffle(k)
        s.regs.append(("reg%d" % ri, k))
    return s.finish()


def borrowed(t):
    return any(x[0] in ("str", "path", "slice", "mslice", "ptr") or (x[0] == "cls" and x[2] != "val") for x in ty.walk(t))


def driver_ops(g):
    sp = g.spec
    head = ["static Ctx *g_ctx = nullptr;"]
    ops = []
    pre = len(g.fns)
    for c in sp.cbs:
        body = []
        for m in c.methods:
            args = ", ".join(f"{g.t(t, 'out')} v{i}" for i, t in enumerate(m.args))
            st = [f'Ctx &c = *g_ctx; c.out += " @" + std::to_string(id) + ".{m.idx}"; int n = rd_int<int>(c); for (int i = 0; i < n; ++i) c.dst.push_back(atoi(c.tok().c_str() + 1));']
            for i, t in enumerate(m.args):
                st.append(f"{g.en(t)}(c, std::move(v{i}));")
            st.append('if (!c.dst.empty()) c.out += " MISSING-OBJECT"; if (rd_int<int>(c)) Stat::fire();')
            rt = "void"
            if m.ret[0] != "unit":
                rt = g.t(m.ret, "in")
                st.append(f"return {g.rd(m.ret)}(c);")
            body.append(f"{rt} {m.name}({args}) {'const ' if m.recv == 'ref' else ''}noexcept override {{ {' '.join(st)} }}")
        head.append(f'#include "{c.name}.hpp"')
        head.append(f"""class Impl{c.name} final : public {c.name} {{ int id; std::unique_ptr<std::string> guard;
public: explicit Impl{c.name}(int i) : id(i), guard(new std::string("alive")) {{}}
 ~Impl{c.name}() noexcept override {{ if (*guard != "alive") abort(); g_ctx->out += " ~" + std::to_string(id); }}
 {' '.join(body)} }};""")
    for ri, (name, args) in enumerate(sp.regs):
        st, ex = ["g_ctx = &c;"], []
        for i, t in enumerate(args):
            if t[0] == "cb":
                cn = sp.cbs[t[1]].name
                st.append(f"std::unique_ptr<{cn}> a{i}(new Impl{cn}(rd_int<int>(c)));")
            else:
                st.append(f"auto a{i} = {g.rd(t)}(c);")
            ex.append(f"std::move(a{i})")
        ops.append((name, f"static void op_{name}(Ctx &c) {{ {' '.join(st)} Stat::{name}({', '.join(ex)}); }}"))
    ops.append(("fire", "static void op_fire(Ctx &c) { g_ctx = &c; Stat::fire(); }"))
    ops.append(("drop", "static void op_drop(Ctx &c) { g_ctx = &c; Stat::drop_cb(); }"))
    return "\n".join(head), ops, "static Ctx last; g_ctx = &last; "
