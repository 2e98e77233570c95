"""C03: the C++ container classes against models of them."""
from . import engine, types as ty
from .types import P, enc
from .spec import Spec, Cls, Meth, Model


class ContModel(Model):
    """Slots: label -> ("v", T, [values]) | ("f", cls, [objs]) | ("t", bytes)."""

    def __init__(self, spec):
        super().__init__(spec)
        self.slots = {}

    def live(self):
        s = set(super().live())
        for sl in self.slots.values():
            if sl[0] == "f":
                s |= {o["rid"] for o in sl[2] if self.spec.cls(o["cls"]).tracked}
        return s

    def meth(self, kind, T):
        for m in self.spec.methods:
            if m.name == f"{kind}_{tname(T)}":
                return m

    def obs(self, sl):
        if sl[0] == "v":
            return enc(("vec", sl[1]), sl[2], None)
        if sl[0] == "f":
            return ["V%d" % len(sl[2])] + [x for o in sl[2] for x in self.oenc(o)]
        return enc(("str",), sl[1], None)

    def op_slot(self, op):
        """All slot operations: op['k'] is the kind of slot, op['a'] the action."""
        a, n = op["a"], op["s"]
        sl = self.slots.get(n)
        if a in ("mk", "new"):
            if sl is not None:
                return None
            k = op["k"]
            plan = []
            if k == "v":
                vals = op.get("vals", [])
                self.slots[n] = ("v", op["T"], list(vals))
                plan = enc(("vec", op["T"]), vals, None) if a == "mk" else []
            elif k == "f":
                objs = [self.new_obj(op["T"][1], p) for p in op.get("vals", [])]
                self.slots[n] = ("f", op["T"][1], objs)
                plan = ["V%d" % len(objs)] + ["i%d" % o["p"] for o in objs] if a == "mk" else []
            else:
                self.slots[n] = ("t", op.get("vals", b""))
                plan = enc(("str",), op["vals"], None) if a == "mk" else []
            calls = [] if a == "new" else ["M%d( )" % self.meth("mk", op["T"]).idx]
            return self.expect(self.obs(self.slots[n]), calls, plan=plan, args=["s%d" % n])
        if sl is None or sl[0] != op["k"] or (sl[0] != "t" and sl[1] != (op["T"] if sl[0] == "v" else op["T"][1])):
            return None
        k = sl[0]
        empty = lambda: ("t", b"") if k == "t" else (k, sl[1], [])
        args = ["s%d" % n]
        if a == "obs":
            return self.expect(self.obs(sl), args=args)
        if a == "del":
            del self.slots[n]
            return self.expect(["u"], args=args)
        if a in ("mv", "asg", "swap", "cpy", "casg"):
            m = op["d"]
            new = a in ("mv", "cpy")
            if new != (m not in self.slots):
                return None
            if not new and (self.slots[m][0] != k or (k != "t" and self.slots[m][1] != sl[1])):
                return None
            if n == m and a != "casg":
                return None
            if a == "swap":
                self.slots[n], self.slots[m] = self.slots[m], self.slots[n]
            else:
                self.slots[m] = sl
                if a in ("mv", "asg"):
                    self.slots[n] = empty()
            r = self.obs(self.slots[n]) + self.obs(self.slots[m])
            return self.expect(r, args=args + ["s%d" % m])
        if a == "clear":
            self.slots[n] = empty()
            return self.expect(self.obs(self.slots[n]), args=args)
        if a == "rel":
            return self.expect(self.obs(empty()) + self.obs(sl), args=args)
        if a == "take":
            call = "M%d( %s )" % (self.meth("take", op["T"]).idx, " ".join(self.obs(sl)))
            self.slots[n] = empty()
            return self.expect(self.obs(self.slots[n]), [call], args=args)
        if a == "slice":
            call = "M%d( %s )" % (self.meth("slice", op["T"]).idx, " ".join(self.obs(sl)))
            return self.expect(self.obs(sl), [call], args=args)
        if a in ("nslice", "nmslice"):
            return self.expect(self.obs(sl), ["M%d( V0 )" % self.meth(a[1:], op["T"]).idx], args=args)
        if a == "mslice":
            call = "M%d( %s )" % (self.meth("mslice", op["T"]).idx, " ".join(self.obs(sl)))
            vals = op["vals"]
            if len(vals) != len(sl[2]):
                return None
            if k == "v":
                plan = [x for v in vals for x in enc(sl[1], v, None)]
                self.slots[n] = ("v", sl[1], list(vals))
            else:
                plan = ["i%d" % v for v in vals]
                for o, v in zip(sl[2], vals):
                    o["p"] = v
            return self.expect(self.obs(self.slots[n]), [call], plan=plan, args=args)
        if a == "write":
            i = op["i"]
            if i >= len(sl[2]):
                return None
            sl[2][i] = op["val"]
            return self.expect(self.obs(sl), args=args + ["i%d" % i] + enc(sl[1], op["val"], None))
        if a == "sort":
            self.slots[n] = ("v", sl[1], sorted(sl[2]))
            return self.expect(self.obs(self.slots[n]), args=args)
        if a == "push":
            o = self.new_obj(sl[1], op["val"])
            sl[2].append(o)
            return self.expect(self.obs(sl), args=args + ["i%d" % op["val"]])
        if a == "rem":
            i = op["i"]
            if i >= len(sl[2]):
                return None
            o = sl[2].pop(i)
            self.handles[op["dst"][0]] = o
            return self.expect(self.obs(sl) + self.oenc(o), args=args + ["i%d" % i])
        if a == "pushh":
            o = self.handles.get(op["h"])
            if o is None or o["cls"] != sl[1]:
                return None
            sl[2].append(o)
            self.handles[op["h"]] = None
            return self.expect(self.obs(sl), args=args + ["h%d" % op["h"]])
        if a == "walk":
            return self.walk(op, sl, args)
        raise KeyError(a)

    def walk(self, op, sl, args):
        """A random walk of two iterators."""
        n = len(sl[2])
        pos = [0, n]
        res, steps = [], []
        at = lambda i: self.oenc(sl[2][i])[0]
        for w, mv, x in op["walk"]:
            i = pos[w]
            if mv in ("inc", "dec", "add", "sub", "plus", "minus"):
                d = {"inc": 1, "dec": -1, "add": x, "sub": -x, "plus": x, "minus": -x}[mv]
                if not 0 <= i + d <= n:
                    return None
                pos[w] = i + d
                i += d
            elif mv == "idx":
                if not 0 <= i + x < n:
                    return None
                res.append(at(i + x))
            elif mv == "copy":
                pos[w] = i = pos[1 - w]
            steps += [str(w), mv, "i%d" % x]
            res += [at(i) if i < n else "end", "d%d" % (pos[0] - pos[1]), "d%d" % (pos[1] - pos[0]),
                    "".join("01"[c] for c in (pos[0] < pos[1], pos[0] > pos[1], pos[0] <= pos[1], pos[0] >= pos[1], pos[0] == pos[1], pos[0] != pos[1]))]
        return self.expect(res, args=args + ["W%d" % len(op["walk"]), "i%d" % op["on"]] + steps)


def tname(T):
    return ("string" if T[0] == "String" else T[1]).lower()


class ContSpec(Spec):
    model_cls = ContModel
    ext_only = True

    @staticmethod
    def from_json(j):
        s = Spec.from_json(j)
        s.__class__ = ContSpec
        s.vel = [tuple(m.args[0][1]) for m in s.methods if m.name.startswith("take_")]
        return s


def cont_spec(rng):
    s = ContSpec("cpp")
    s.classes = [Cls("Ka", "plain", rng.choice([1, 3, 17])), Cls("Kb", "clone", rng.choice([4, 40, 100]), ["Copy"]), Cls("Kp", "pod", rng.choice([0, 4]), ["Copy"])]
    s.reprs = [("Rr", (P("i64"), P("u8"))), ("Rq", (P("u8"), P("u8"), P("u8")))]
    s.vel = [P("u8"), P("i32"), P("u64"), P(rng.choice(["i8", "u16", "i16", "u32", "i64", "usize", "isize"])), P("f32"), P("f64"),
             ("repr",) + s.reprs[0], ("repr",) + s.reprs[1]]
    s.vel += [("cls", c.name, "val") for c in s.classes]
    i = 0
    for T in s.vel:
        # making methods take no argument and return a vector
        for kind, args, ret in (("mk", [], ("vec", T)), ("take", [("vec", T)], ("unit",)), ("slice", [("slice", T)], ("unit",)), ("mslice", [("mslice", T)], ("unit",))):
            s.methods.append(Meth(i, "Stat", "static", args, ret, name=f"{kind}_{tname(T)}"))
            i += 1
    s.methods.append(Meth(i, "Stat", "static", [], ("String",), name="mk_string"))
    s.methods.append(Meth(i + 1, "Stat", "static", [("str",)], ("unit",), name="slice_string"))
    s.methods.append(Meth(i + 2, "Stat", "static", [("String",)], ("unit",), name="take_string"))
    return s


def driver_ops(g):
    """Text, slot operations and clean-up of the driver."""
    spec = g.spec
    ops = []
    head = [
        "static int slotno(Ctx &c) { const std::string &s = c.tok(); return atoi(s.c_str() + 1); }",
        "template <class I> static void walk(Ctx &c, I b, I e) {"
        " size_t n = rd_len(c); I p[2] = {b, e}; bool dummy = rd_int<int>(c) != 0; (void)dummy;"
        " for (size_t k = 0; k < n; ++k) { int w = (int)c.num(); std::string mv = c.tok(); long x = rd_int<long>(c);"
        " if (mv == \"inc\") { I &r = ++p[w]; if (&r != &p[w]) c.out += \" DIFFER\"; } else if (mv == \"dec\") --p[w]; else if (mv == \"add\") p[w] += x; else if (mv == \"sub\") p[w] -= x;"
        " else if (mv == \"plus\") p[w] = p[w] + x; else if (mv == \"minus\") p[w] = p[w] - x;"
        " else if (mv == \"idx\") en_obj(c, p[w][x]); else if (mv == \"copy\") p[w] = p[1 - w];"
        " if (p[w] != e) en_obj(c, *p[w]); else c.out += \" end\";"
        " c.out += \" d\" + std::to_string(p[0] - p[1]) + \" d\" + std::to_string(p[1] - p[0]) + ' ';"
        " for (bool q : {p[0] < p[1], p[0] > p[1], p[0] <= p[1], p[0] >= p[1], p[0] == p[1], p[0] != p[1]}) c.out += q ? '1' : '0'; } }",
    ]
    for T in spec.vel:
        n = tname(T)
        ct = g.t(("vec", T), "in")
        S = f"S_{n}"
        head.append(f"static std::map<int, {ct}> {S};")
        f = T[0] == "cls"
        if f:
            K = T[1]
            head.append(f"""template <class V> static void obsr_{n}(Ctx &c, V &v) {{
  en_len(c, 'V', v.size()); if (v.empty() != (v.size() == 0)) c.out += " EMPTY-WRONG";
  std::vector<unsigned long long> a, b, d, e2; for (size_t i = 0; i < v.size(); ++i) {{ en_obj(c, v[i]); a.push_back(v[i].vid()); }}
  for (auto it = v.begin(); it != v.end(); ++it) {{ if (b.size() > v.size()) break; b.push_back((*it).vid()); }}
  for (auto x : v) e2.push_back(x.vid());
  auto it = v.end(); while (d.size() < v.size()) {{ --it; d.insert(d.begin(), (*it).vid()); }} if (it != v.begin()) c.out += " ITER-BACK";
  if (a != b || a != d || a != e2) c.out += " ITER-DIFFERS"; if (std::distance(v.begin(), v.end()) != (std::ptrdiff_t)v.size()) c.out += " ITER-DISTANCE"; }}""")
            head.append(f"""static void obs_{n}(Ctx &c, {ct} &v) {{ obsr_{n}(c, v); std::string keep = c.out; const {ct} &cv = v; c.out.clear(); obsr_{n}(c, cv); std::string s1 = c.out; c.out.clear();
  auto sl = v.as_slice(); obsr_{n}(c, sl); std::string s2 = c.out; c.out.clear(); auto ms = v.as_slice_mut(); auto ms2 = std::move(ms); obsr_{n}(c, ms2); std::string s3 = c.out; c.out.clear();
  if (ms.size() != 0 || !ms.empty() || ms.begin() != ms.end()) keep += " EMPTY-WRONG"; sl = v.as_slice(); const auto &csl = sl; obsr_{n}(c, csl); if (s1 != c.out || s1 != s2 || s1 != s3 || keep.compare(keep.size() - s1.size(), s1.size(), s1) != 0) keep += " VIEWS-DIFFER"; c.out = keep; }}""")
        else:
            en = g.en(T)
            ce = g.t(T, "in")
            head.append(f"""static void obs_{n}(Ctx &c, {ct} &v) {{ const {ct} &cv = v; en_len(c, 'V', v.size()); if (v.empty() != (v.size() == 0)) c.out += " EMPTY-WRONG";
  for (size_t i = 0; i < v.size(); ++i) {{ {ce} x = v[i]; {en}(c, std::move(x)); if (&cv[i] != &v[i] || v.begin() + i != &v[i] || cv.begin() + i != &v[i]) c.out += " ITER-DIFFERS"; }}
  size_t n = 0; for (const auto &x : cv) {{ (void)x; ++n; }} for (auto &x : v) {{ (void)x; ++n; }} if (n != 2 * v.size()) c.out += " ITER-LEN"; }}""")
        o = {
            "mk": f"int s = slotno(c); auto r = {S}.emplace(s, Stat::mk_{n}()); obs_{n}(c, r.first->second);",
            "new": f"int s = slotno(c); {S}[s]; obs_{n}(c, {S}.at(s));",
            "obs": f"obs_{n}(c, {S}.at(slotno(c)));",
            "del": f'{S}.erase(slotno(c)); c.out += " u";',
            "mv": f"auto &v = {S}.at(slotno(c)); auto r = {S}.emplace(slotno(c), std::move(v)); obs_{n}(c, v); obs_{n}(c, r.first->second);",
            "asg": f"auto &v = {S}.at(slotno(c)); auto &d = {S}.at(slotno(c)); auto &r = (d = std::move(v)); if (&r != &d) c.out += \" DIFFER\"; obs_{n}(c, v); obs_{n}(c, d);",
            "swap": f"auto &v = {S}.at(slotno(c)); auto &d = {S}.at(slotno(c)); std::swap(v, d); obs_{n}(c, v); obs_{n}(c, d);",
            "clear": f"auto &v = {S}.at(slotno(c)); v.clear(); obs_{n}(c, v);",
            "rel": f"auto &v = {S}.at(slotno(c)); auto raw = v.release(); {ct} x{{raw}}; obs_{n}(c, v); v = std::move(x); obs_{n}(c, v);",
            "take": f"auto &v = {S}.at(slotno(c)); Stat::take_{n}(std::move(v)); obs_{n}(c, v);",
        }
        if f:
            o.update({
                "slice": f"auto &v = {S}.at(slotno(c)); Stat::slice_{n}(v.as_slice()); obs_{n}(c, v);",
                "mslice": f"auto &v = {S}.at(slotno(c)); Stat::mslice_{n}(v.as_slice_mut()); obs_{n}(c, v);",
                "nslice": f"auto &v = {S}.at(slotno(c)); auto e = v.as_slice(); auto e2 = std::move(e); Stat::slice_{n}(std::move(e)); obs_{n}(c, v);",
                "nmslice": f"auto &v = {S}.at(slotno(c)); RustForeignSliceMut<{K}Ref> e; Stat::mslice_{n}(std::move(e)); obs_{n}(c, v);",
                "push": f"auto &v = {S}.at(slotno(c)); v.push({K}(rd_int<int>(c))); obs_{n}(c, v);",
                "pushh": f"auto &v = {S}.at(slotno(c)); v.push(std::move(H_{K}.at(c.label()))); obs_{n}(c, v);",
                "rem": f"auto &v = {S}.at(slotno(c)); {K} o = v.remove(rd_int<size_t>(c)); obs_{n}(c, v); en_obj(c, o); H_{K}.emplace(c.next_dst(), std::move(o));",
                "walk": f"auto &v = {S}.at(slotno(c)); const auto &cv = v; auto sl = v.as_slice(); size_t save = c.pos; (void)rd_len(c); int on = rd_int<int>(c); c.pos = save;"
                        f" if (on == 0) walk(c, v.begin(), v.end()); else if (on == 1) walk(c, cv.begin(), cv.end()); else if (on == 2) walk(c, sl.begin(), sl.end()); else {{ const auto &cs = sl; walk(c, cs.begin(), cs.end()); }}",
            })
        else:
            o.update({
                "slice": f"auto &v = {S}.at(slotno(c)); Stat::slice_{n}(RustSlice<const {ce}>(v.begin(), v.size())); obs_{n}(c, v);",
                "mslice": f"auto &v = {S}.at(slotno(c)); RustSlice<{ce}> sl(v.begin(), v.size()); RustSlice<{ce}> s2 = std::move(sl); if (sl.size() || !sl.empty()) c.out += \" EMPTY-WRONG\"; if (s2.size() != v.size() || s2.begin() != v.begin() || s2.end() != v.end()) c.out += \" ITER-DIFFERS\"; Stat::mslice_{n}(std::move(s2)); obs_{n}(c, v);",
                "write": f"auto &v = {S}.at(slotno(c)); size_t i = rd_int<size_t>(c); v.begin()[i] = {g.rd(T)}(c); obs_{n}(c, v);",
            })
            if T[0] == "p" and T[1][0] != "f":
                o["sort"] = f"auto &v = {S}.at(slotno(c)); std::sort(v.begin(), v.end()); obs_{n}(c, v);"
        for k, code in o.items():
            ops.append((f"{k}_{n}", f"static void op_{k}_{n}(Ctx &c) {{ {code} }}"))
    head.append("static std::map<int, RustString> S_string;")
    head.append("static void obs_string(Ctx &c, RustString &v) { std::string s1 = v.to_std_string(); auto s2 = v.to_string_view(); if (s1.size() != v.size() || s2.size() != v.size() || v.empty() != (v.size() == 0) || (v.size() && memcmp(s1.data(), s2.data(), v.size()))) c.out += \" STRVIEWS-DIFFER\"; en_bytes(c, s1.data(), s1.size()); }")
    for k, code in {
        "mk": "auto r = S_string.emplace(slotno(c), Stat::mk_string()); obs_string(c, r.first->second);",
        "new": "int s = slotno(c); S_string[s]; obs_string(c, S_string.at(s));",
        "obs": "obs_string(c, S_string.at(slotno(c)));",
        "del": 'S_string.erase(slotno(c)); c.out += " u";',
        "mv": "auto &v = S_string.at(slotno(c)); auto r = S_string.emplace(slotno(c), std::move(v)); obs_string(c, v); obs_string(c, r.first->second);",
        "asg": "auto &v = S_string.at(slotno(c)); auto &d = S_string.at(slotno(c)); d = std::move(v); obs_string(c, v); obs_string(c, d);",
        "cpy": "auto &v = S_string.at(slotno(c)); auto r = S_string.emplace(slotno(c), v); obs_string(c, v); obs_string(c, r.first->second); if (v.size() && v.to_string_view().data() == r.first->second.to_string_view().data()) c.out += \" DIFFER\";",
        "casg": "auto &v = S_string.at(slotno(c)); auto &d = S_string.at(slotno(c)); d = v; obs_string(c, v); obs_string(c, d);",
        "swap": "auto &v = S_string.at(slotno(c)); auto &d = S_string.at(slotno(c)); std::swap(v, d); obs_string(c, v); obs_string(c, d);",
        "slice": "auto &v = S_string.at(slotno(c)); std::string_view sv = v.to_string_view(); if (sv.data() == nullptr) sv = std::string_view(\"\"); Stat::slice_string(sv); obs_string(c, v);",
    }.items():
        ops.append((f"{k}_string", f"static void op_{k}_string(Ctx &c) {{ {code} }}"))
    clear = " ".join(f"S_{n}.clear();" for n in [tname(T) for T in spec.vel] + ["string"])
    return "\n".join(head), ops, clear


def gen_history(spec, rng, n):
    g = engine.GenState(spec, rng)
    m = g.model
    val = lambda T: g.payload() if T[0] == "cls" else ty.gen(T, rng, None)

    def vals(T, k=None):
        if k is None:
            k = rng.choice([0, 0, 1, 2, 3, 5, 8, 9, 30])
        return [val(T) for _ in range(k)]

    def slots(k, T=None):
        return [l for l, s in m.slots.items() if s[0] == k and (T is None or s[1] == (T if k == "v" else T[1]))]

    while len(g.ops) < n:
        T = rng.choice(spec.vel + [("String",)] * 3)
        k = {"cls": "f", "String": "t"}.get(T[0], "v")
        mine = slots(k, None if k == "t" else T)
        acts = ["obs", "mv", "asg", "swap", "del", "slice"]
        if k == "t":
            acts += ["cpy", "casg", "cpy", "casg"]
        else:
            acts += ["clear", "rel", "take", "mslice", "mslice"]
        if k == "v":
            acts += ["write", "write"] + (["sort"] if T[0] == "p" and T[1][0] != "f" else [])
        if k == "f":
            acts += ["nslice", "nmslice"] + ["push"] * 5 + ["rem"] * 3 + ["pushh"] + ["walk"] * 3
        a = rng.choice(acts)
        if len(mine) < 2 or (len(mine) < 5 and rng.random() < 0.15):
            a = rng.choice(["mk", "mk", "new"])
        base = {"op": "slot", "k": k, "T": T, "a": a, "x": f"{a}_{tname(T)}"}
        if a in ("mk", "new"):
            base["s"] = g.fresh()
            if a == "mk":
                base["vals"] = ty.gen(("str",), rng, None) if k == "t" else vals(T)
            g.push(base)
            continue
        s = base["s"] = rng.choice(mine)
        if a in ("mv", "cpy"):
            base["d"] = g.fresh()
        elif a in ("asg", "swap", "casg"):
            base["d"] = rng.choice(mine)
        elif a == "mslice":
            base["vals"] = vals(T, len(m.slots[s][2]))
        elif a == "write":
            if not m.slots[s][2]:
                continue
            base["i"], base["val"] = rng.randrange(len(m.slots[s][2])), val(T)
        elif a == "push":
            base["val"] = g.payload()
        elif a == "rem":
            if not m.slots[s][2]:
                continue
            base["i"], base["dst"] = rng.randrange(len(m.slots[s][2])), [g.fresh()]
        elif a == "pushh":
            ls = m.labels(T[1])
            if not ls:
                continue
            base["h"] = rng.choice(ls)
        elif a == "walk":
            cnt = len(m.slots[s][2])
            pos, w = [0, cnt], []
            for _ in range(rng.choice([3, 8, 20])):
                i = rng.randrange(2)
                mv = rng.choice(["inc", "dec", "add", "sub", "plus", "minus", "idx", "idx", "copy", "none"])
                x = 0
                if mv == "inc" and pos[i] < cnt:
                    pos[i] += 1
                elif mv == "dec" and pos[i] > 0:
                    pos[i] -= 1
                elif mv in ("add", "plus", "sub", "minus"):
                    t = rng.randint(0, cnt)
                    x = (t - pos[i]) * (1 if mv in ("add", "plus") else -1)
                    pos[i] = t
                elif mv == "idx" and cnt:
                    x = rng.randrange(cnt) - pos[i]
                elif mv == "copy":
                    pos[i] = pos[1 - i]
                elif mv != "none":
                    continue
                w.append((i, mv, x))
            if not w:
                continue
            base["walk"], base["on"] = w, rng.randrange(4)
        g.push(base)
        if rng.random() < 0.03 and m.handles:
            l = rng.choice(list(m.handles))
            o = m.handles[l]
            if o:
                g.push({"op": "del", "cls": o["cls"], "h": l})
    return g.ops, g.exps
