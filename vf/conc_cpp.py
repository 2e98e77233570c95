"""The C++ program of a concurrent interface."""
from .conc import NOBJ, NP, STR, locks, op_names


def lit(s):
    return '"' + "".join(c if 32 <= ord(c) < 127 and c not in '"\\?' else "".join('\\%03o' % b for b in c.encode()) for c in s) + '"'


HEAD = r'''
#include <atomic>
#include <cstdio>
#include <cstring>
#include <deque>
#include <fstream>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <variant>
#include <optional>
#include <functional>
%INC%
using namespace rust;
typedef long long ll;
static std::mutex gate, outm;
static std::atomic<int> fails{0}, nextop{0};
static std::atomic<ll> cb_made{0}, cb_gone{0}, cb_calls{0};
static const char *STR[] = {%STR%};
static std::atomic<ll> cont[%NOPS%], done[%NOPS%];
struct T;
static void fail(const T &t, const std::string &what);
struct Obj { std::atomic<ll> sum{0}, calls{0}, flying{0}; };
struct Fly { Obj *o; Fly(Obj *o, int op, ll d) : o(o) { if (!o) return; o->sum += d; o->calls++; if (o->flying++ > 0) cont[op]++; } ~Fly() { if (o) o->flying--; } };
%OBJS%
struct T {
    int id, at, op; const ll *a; ll e; std::vector<std::unique_ptr<P0>> p; std::map<std::pair<int, int>, std::vector<ll>> tick;
%KEPT%
    T(int id) : id(id), at(0), op(0), a(nullptr), e(0) { for (int i = 0; i < %NP%; ++i) p.push_back(std::make_unique<P0>(id * 1000 + i)); }
    P0 &priv(ll i, ll v, std::deque<P0> &tmp) { if (i >= 0) return *p[i]; tmp.emplace_back(v); return tmp.back(); }
};
static void fail(const T &t, const std::string &what) { std::lock_guard<std::mutex> g(outm); fails++; printf("MISMATCH %d %d %s\n", t.id, t.at, what.c_str()); fflush(stdout); }
static void eq(T &t, ll got, ll want, const char *what) { if (got != want) fail(t, std::string(what) + " is " + std::to_string(got) + ", expected " + std::to_string(want)); }
struct Call final : Cb {
    int kind; ll magic = 0x5eedbeef;
    Call(int kind) : kind(kind) { cb_made++; }
    ~Call() noexcept override { if (magic != 0x5eedbeef) { printf("MISMATCH -1 0 callback deleted twice\n"); fails++; } magic = 0; cb_gone++; }
    int64_t on(int64_t x) const noexcept override {
        cb_calls++; if (magic != 0x5eedbeef) { printf("MISMATCH -1 0 deleted callback called\n"); fails++; }
        if (kind == 1) { Fly f(&o_M0[0], OP_BUMP, 5); sh_M0[0]->bump(5); } else if (kind == 2) { o_A0[0].sum += 7; sh_A0[0]->add(7); } else if (kind == 3) { Fly f(&o_M0[1], OP_BUMP, 9); auto m = Ctl::get_m0(1); m.bump(9); }
        return x * 3 + 1;
    }
    void note(std::string_view s, int32_t k) const noexcept override { static const char *tab[] = {"", "tick", "gr\303\266\303\237e"}; if (s != tab[k % 3]) { printf("MISMATCH -1 0 callback text\n"); fails++; } }
};
'''


def emit(f):
    o = []
    ops = op_names(f)
    ks = range(len(f["ms"]))
    objs, kept = [], []
    for c in [f"M{k}" for k in ks] + ["A0"]:
        get = f"Ctl::get_{c.lower()}((int)i)"
        copy = c == "A0" or f["ms"][int(c[1:])]["copy"]
        objs.append(f"static Obj o_{c}[{NOBJ}]; static {c} *sh_{c}[{NOBJ}];")
        kept.append(f"    std::unique_ptr<{c}> k_{c}[{NOBJ}];")
        kept.append(f"    {c} &sel_{c}(ll mode, ll i, std::deque<{c}> &tmp) {{ if (mode == 0) return *sh_{c}[i]; if (mode == 1) tmp.push_back({get}); else if (mode == 3) tmp.emplace_back(0); "
                    f"else {{ if (!k_{c}[i]) k_{c}[i] = std::make_unique<{c}>({'*sh_' + c + '[i]' if copy else get}); return *k_{c}[i]; }} return tmp.back(); }}")
        cp = f"if (mode == 0) return {c}(*sh_{c}[i]); if (mode == 2) {{ std::deque<{c}> tmp; return {c}(sel_{c}(2, i, tmp)); }} " if copy else ""
        kept.append(f"    {c} take_{c}(ll mode, ll i) {{ {cp}if (mode == 3) {{ int64_t z = 0; return {c}(z); }} return {get}; }}")
    head = HEAD.replace("%INC%", "\n".join(f'#include "{c}.hpp"' for c in [f"M{k}" for k in ks] + ["A0", "P0", "Ctl", "Cb"]) + ("".join(f"\n#include \"{c}_impl.hpp\"" for c in [f"M{k}" for k in ks] + ["A0", "P0", "Ctl"]) if f["cfg"].get("separate_impl_headers") else "")).replace("%STR%", ", ".join(lit(s) for s in STR))
    head = head.replace("%NOPS%", str(len(ops))).replace("%OBJS%", f"enum {{ OP_BUMP = {ops.index('bump0')} }};\n" + "\n".join(objs)).replace("%KEPT%", "\n".join(kept)).replace("%NP%", str(NP))
    o.append(head)
    tbl = []
    for oi, name in enumerate(ops):
        b = []
        m = next((m for m in f["meths"] if f"m{m['n']}" == name), None)
        if m:
            tmps, pre, al, flies, post, n, recv = set(), [], [], [], [], 0, None
            D = f"t.a[{sum(asize(x) for x in m['args']) + {'static': 0}.get(m['kind'], 1 if m['cls'] == 'P0' else 2)}]"

            def shared(c, byval):
                nonlocal n
                md, ix = f"t.a[{n}]", f"t.a[{n + 1}]"
                v = f"v{n}"
                if byval:
                    pre.append(f"{c} {v} = t.take_{c}({md}, {ix});")
                else:
                    tmps.add(c)
                    pre.append(f"{c} &{v} = t.sel_{c}({md}, {ix}, tmp_{c});")
                    if c[0] == "M":
                        post.append(f"if ({md} == 3) {{ eq(t, {v}.sum(), {D}, \"sum of a new object\"); eq(t, {v}.count(), 1, \"calls of a new object\"); }}")
                    else:
                        post.append(f"if ({md} == 3) eq(t, {v}.sum(), {D}, \"sum of a new object\");")
                if c[0] == "M":
                    flies.append(f"Fly fly{n}({md} == 3 ? nullptr : &o_{c}[{ix}], t.op, {D});")
                else:
                    flies.append(f"if ({md} != 3) o_{c}[{ix}].sum += {D};")
                n += 2
                return f"std::move({v})" if byval else v
            if m["kind"] != "static":
                if m["cls"] == "P0":
                    recv = "t.p[t.a[0]]->"
                    n = 1
                else:
                    recv = shared(m["cls"], False) + "."
            for x in m["args"]:
                if x[0] == "P":
                    if x[1] == "val":
                        al.append(f"P0(t.a[{n + 1}])")
                    else:
                        tmps.add("P0")
                        pre.append(f"P0 &v{n} = t.priv(t.a[{n}], t.a[{n + 1}], tmp_P0);")
                        al.append(f"v{n}")
                    n += 2
                elif x[0] == "A":
                    al.append(shared("A0", x[1] == "arc"))
                elif x[0] == "M":
                    al.append(shared(f"M{x[2]}", x[1] == "arc"))
                elif x[0] in ("String", "&str"):
                    al.append(f"STR[t.a[{n}]]")
                    n += 1
                elif x[0] == "Option<i32>":
                    al.append(f"t.a[{n}] ? std::optional<int32_t>((int32_t)t.a[{n + 1}]) : std::nullopt")
                    n += 2
                else:
                    ct = {"i32": "int32_t", "i64": "int64_t", "u8": "uint8_t", "f64": "double", "bool": "bool"}[x[0]]
                    al.append(f"({ct})t.a[{n}]")
                    n += 1
            al.append(D)
            b += [f"std::deque<{c}> tmp_{c};" for c in sorted(tmps)] + pre
            if locks(m) >= 2:
                b.append("std::lock_guard<std::mutex> g(gate);")
            callx = (recv or m["cls"] + "::") + f"{m['name']}({', '.join(al)})"
            chk = {None: "", "i64": "eq(t, r, t.e, \"result\");", "i32": "eq(t, r, (int32_t)t.e, \"result\");", "bool": "eq(t, r, t.e & 1, \"result\");", "f64": "eq(t, (ll)r, t.e >> 20, \"result\");",
                   "String": "if (r.to_std_string() != std::to_string(t.e) + \"\\303\\251\") fail(t, \"result is \" + r.to_std_string());",
                   "Option<i64>": "if (r.has_value() != (t.e % 4 != 0) || (r.has_value() && *r != t.e)) fail(t, \"optional result wrong\");",
                   "Result<i64, String>": "if ((r.index() == 0) != (t.e % 3 != 0)) fail(t, \"result of the wrong kind\"); else if (r.index() == 0) eq(t, std::get<0>(r), t.e, \"result\"); else if (std::get<1>(r).to_std_string() != \"e\" + std::to_string(t.e)) fail(t, \"error text is \" + std::get<1>(r).to_std_string());",
                   "P0": f"eq(t, r.get(), t.e, \"returned object\"); *t.p[t.a[{n + 1}]] = std::move(r);",
                   "tick": "if (t.a[0] != 3) t.tick[{%d, (int)t.a[1]}].push_back(r);" % (int(m["cls"][1:]) if m["cls"][0] == "M" else 0)}[m["ret"]]
            b.append(f"{{ {' '.join(flies)} {'auto r = ' if m['ret'] else ''}{callx}; {chk} }}")
            b += post
        elif name[:4] in ("bump", "tick"):
            k = int(name[4:])
            b.append(f"std::deque<M{k}> tmp; M{k} &m = t.sel_M{k}(t.a[0], t.a[1], tmp);")
            if name[0] == "b":
                b.append(f"Fly fl(&o_M{k}[t.a[1]], t.op, t.a[2]); m.bump(t.a[2]);")
            else:
                b.append(f"Fly fl(&o_M{k}[t.a[1]], t.op, 1); ll r = m.tick(); t.tick[{{{k}, (int)t.a[1]}}].push_back(r);")
        elif name[:4] == "drop":
            b.append(f"t.k_M{name[4:]}[t.a[0]].reset();")
        elif name == "bga":
            b.append("o_A0[t.a[0]].sum += t.a[1] * t.a[2]; Ctl::bg_a0(A0(*sh_A0[t.a[0]]), t.a[1], (int)t.a[2]);")
        elif name[:2] == "bg":
            k = name[2:]
            b.append(f"o_M{k}[t.a[1]].sum += t.a[2] * t.a[3]; o_M{k}[t.a[1]].calls += t.a[3]; Ctl::bg_m{k}(t.take_M{k}(1, t.a[1]), t.a[2], (int)t.a[3]);")
        elif name == "setcb":
            b.append("auto c = std::make_unique<Call>((int)t.a[1]); if (t.a[2]) Ctl::set_cb_bg((int)t.a[0], std::move(c)); else Ctl::set_cb((int)t.a[0], std::move(c));")
        elif name == "clearcb":
            b.append("Ctl::clear_cb((int)t.a[0]);")
        elif name == "fire":
            b.append("ll r = t.a[2] ? Ctl::fire_bg((int)t.a[0], t.a[1]) : Ctl::fire((int)t.a[0], t.a[1]); if (r != -1) eq(t, r, t.a[1] * 3 + 1, \"result of a callback\");")
        elif name == "storm":
            b.append("Ctl::storm((int)t.a[0], t.a[1], (int)t.a[2]);")
        else:
            b.append("for (ll i = 0; i < t.a[0]; ++i) std::this_thread::yield();")
        o.append(f"static void op_{name}(T &t) {{ {' '.join(b)} }}")
        tbl.append(f"op_{name}")
    o.append(f"static void (*OPS[])(T &) = {{{', '.join(tbl)}}};")
    cls = [f"M{k}" for k in ks] + ["A0"]
    o.append(r'''
struct Step { int op; ll e; std::vector<ll> a; };
int main(int, char **v) {
    setvbuf(stdout, nullptr, _IOLBF, 0);
    std::ifstream in(v[1]); int nth; in >> nth; std::vector<std::vector<Step>> plan(nth);
    for (auto &l : plan) { size_t n; in >> n; l.resize(n); for (auto &s : l) { size_t k; in >> s.op >> s.e >> k; s.a.resize(k); for (auto &x : s.a) in >> x; } }
    if (!in) { printf("BADPLAN\n"); return 3; }
    Ctl::make();
    ''' + " ".join(f"for (int i = 0; i < {NOBJ}; ++i) sh_{c}[i] = new {c}(Ctl::get_{c.lower()}(i));" for c in cls) + r'''
    {
    std::vector<std::unique_ptr<T>> ts; for (int i = 0; i < nth; ++i) ts.push_back(std::make_unique<T>(i));
    std::atomic<int> ready{0};
    std::vector<std::thread> th;
    for (int i = 0; i < nth; ++i) th.emplace_back([&, i] {
        T &t = *ts[i]; ready++; while (ready < nth) std::this_thread::yield();
        for (auto &s : plan[i]) { t.op = s.op; t.e = s.e; t.a = s.a.data(); OPS[s.op](t); done[s.op]++; t.at++; }
    });
    for (auto &x : th) x.join();
    Ctl::join();
    std::map<std::pair<int, int>, std::set<ll>> all;
    for (auto &t : ts) for (auto &[k, l] : t->tick) { ll last = -1; for (ll x : l) { if (x <= last) { fail(*t, "a later call got the number " + std::to_string(x) + " after " + std::to_string(last)); break; } last = x; if (!all[k].insert(x).second) { fail(*t, "two calls got the number " + std::to_string(x)); break; } } }
    }
    T fin(99);
    for (int i = 0; i < 4; ++i) Ctl::clear_cb(i);
    eq(fin, cb_gone, cb_made, "callbacks deleted"); eq(fin, cb_calls, Ctl::fired(), "callbacks called");
    ''' + " ".join(f"for (int i = 0; i < {NOBJ}; ++i) {{ eq(fin, sh_{c}[i]->sum(), o_{c}[i].sum, \"sum of {c}\");" + (f" eq(fin, sh_{c}[i]->count(), o_{c}[i].calls, \"calls of {c}\");" if c[0] == "M" else "") + f" delete sh_{c}[i]; }}" for c in cls) + r'''
    Ctl::clear(); fin.p.clear();
    eq(fin, Ctl::live(), 0, "objects left");
    { RustString s = Ctl::bad(); if (s.size()) { printf("BAD %s\n", s.to_std_string().c_str()); fails++; } }
    for (size_t i = 0; i < sizeof(cont) / sizeof(cont[0]); ++i) printf("OP %zu %lld %lld\n", i, (ll)done[i], (ll)cont[i]);
    printf("TOGETHER %lld\nDONE %d\n", (ll)Ctl::together(), (int)fails);
    return 0;
}''')
    return "\n".join(o)


def asize(x):
    return 2 if x[0] in ("P", "A", "M", "Option<i32>") else 1
