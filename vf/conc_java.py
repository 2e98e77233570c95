"""The Java program of a concurrent interface."""
import json
from .conc import NOBJ, NP, STR, locks, op_names
from .conc_cpp import asize

HEAD = r'''
package drv;
import org.vf.gen.*;
import java.io.*; import java.lang.ref.Reference; import java.nio.file.*; import java.util.*; import java.util.concurrent.atomic.*; import java.util.concurrent.locks.*;
public class Drv {
static final ReentrantLock gate = new ReentrantLock();
static final AtomicInteger fails = new AtomicInteger();
static final AtomicLong cbMade = new AtomicLong(), cbCalls = new AtomicLong();
static final String[] STR = {%STR%}; static final String[] TAB = {"", "tick", "gr\u00f6\u00dfe"};
static final AtomicLong[] cont = al(%NOPS%), done = al(%NOPS%);
static AtomicLong[] al(int n) { AtomicLong[] r = new AtomicLong[n]; for (int i = 0; i < n; ++i) r[i] = new AtomicLong(); return r; }
static class Obj { final AtomicLong sum = new AtomicLong(), calls = new AtomicLong(), flying = new AtomicLong();
  Obj start(int op, long d) { sum.addAndGet(d); calls.incrementAndGet(); if (flying.getAndIncrement() > 0) cont[op].incrementAndGet(); return this; } void end() { flying.decrementAndGet(); } }
static void end(Obj o) { if (o != null) o.end(); }
static synchronized void say(String s) { fails.incrementAndGet(); System.out.println("MISMATCH " + s); System.out.flush(); }
static void fail(T t, String what) { say(t.id + " " + t.at + " " + what); }
static void eq(T t, long got, long want, String what) { if (got != want) fail(t, what + " is " + got + ", expected " + want); }
static Obj[] objs() { Obj[] r = new Obj[%NOBJ%]; for (int i = 0; i < r.length; ++i) r[i] = new Obj(); return r; }
%OBJS%
static class T { int id, at, op; long[] a; long e; P0[] p = new P0[%NP%]; final Map<Integer, ArrayList<Long>> tick = new HashMap<>();
  T(int id) { this.id = id; for (int i = 0; i < p.length; ++i) p[i] = new P0(id * 1000L + i); }
  P0 priv(long i, long v) { return i >= 0 ? p[(int) i] : new P0(v); }
  void ticked(int k, long i, long v) { tick.computeIfAbsent(k * 10 + (int) i, x -> new ArrayList<>()).add(v); }
%KEPT%
}
static class Call implements Cb { final int kind; Call(int kind) { this.kind = kind; cbMade.incrementAndGet(); }
  public long on(long x) { cbCalls.incrementAndGet();
    if (kind == 1) { Obj o = o_M0[0].start(OP_BUMP, 5); sh_M0[0].bump(5); o.end(); } else if (kind == 2) { o_A0[0].sum.addAndGet(7); sh_A0[0].add(7); }
    else if (kind == 3) { Obj o = o_M0[1].start(OP_BUMP, 9); M0 m = Ctl.get_m0(1); m.bump(9); Reference.reachabilityFence(m); o.end(); }
    return x * 3 + 1; }
  public void note(String s, int k) { if (!s.equals(TAB[k % 3])) say("-1 0 callback text"); } }
'''


def emit(f):
    o = []
    ops = op_names(f)
    ks = range(len(f["ms"]))
    objs, kept = [], []
    for c in [f"M{k}" for k in ks] + ["A0"]:
        get = f"Ctl.get_{c.lower()}((int) i)"
        objs.append(f"static final Obj[] o_{c} = objs(); static final {c}[] sh_{c} = new {c}[{NOBJ}];")
        kept.append(f"  final {c}[] k_{c} = new {c}[{NOBJ}];")
        kept.append(f"  {c} sel_{c}(long mode, long i) {{ if (mode == 0) return sh_{c}[(int) i]; if (mode == 1) return {get}; if (mode == 3) return new {c}(0L); if (k_{c}[(int) i] == null) k_{c}[(int) i] = {get}; return k_{c}[(int) i]; }}")
    o.append(HEAD.replace("%STR%", ", ".join(json.dumps(s) for s in STR)).replace("%NOPS%", str(len(ops))).replace("%OBJS%", f"static final int OP_BUMP = {ops.index('bump0')};\n" + "\n".join(objs))
             .replace("%KEPT%", "\n".join(kept)).replace("%NP%", str(NP)).replace("%NOBJ%", str(NOBJ)))
    for oi, name in enumerate(ops):
        b = []
        m = next((m for m in f["meths"] if f"m{m['n']}" == name), None)
        if m:
            pre, al, flies, ends, post, keep, n, recv = [], [], [], [], [], [], 0, None
            D = f"t.a[{sum(asize(x) for x in m['args']) + {'static': 0}.get(m['kind'], 1 if m['cls'] == 'P0' else 2)}]"

            def shared(c, byval):
                nonlocal n
                md, ix = f"t.a[{n}]", f"t.a[{n + 1}]"
                v = f"v{n}"
                pre.append(f"{c} {v} = t.sel_{c}({md}, {ix});")
                keep.append(v)
                if not byval:
                    post.append(f"if ({md} == 3) {{ eq(t, {v}.sum(), {D}, \"sum of a new object\");" + (f" eq(t, {v}.count(), 1, \"calls of a new object\");" if c[0] == "M" else "") + " }")
                    post.append(f"if (({md} == 3 || {md} == 1) && t.at % 3 == 0) {v}.delete();")
                if c[0] == "M":
                    flies.append(f"Obj fly{n} = {md} == 3 ? null : o_{c}[(int) {ix}].start(t.op, {D});")
                    ends.append(f"end(fly{n});")
                else:
                    flies.append(f"if ({md} != 3) o_{c}[(int) {ix}].sum.addAndGet({D});")
                n += 2
                return v
            if m["kind"] != "static":
                if m["cls"] == "P0":
                    recv = "t.p[(int) t.a[0]]."
                    n = 1
                else:
                    recv = shared(m["cls"], False) + "."
            for x in m["args"]:
                if x[0] == "P":
                    if x[1] == "val":
                        al.append(f"new P0(t.a[{n + 1}])")
                    else:
                        pre.append(f"P0 v{n} = t.priv(t.a[{n}], t.a[{n + 1}]);")
                        keep.append(f"v{n}")
                        al.append(f"v{n}")
                    n += 2
                elif x[0] == "A":
                    al.append(shared("A0", x[1] == "arc"))
                elif x[0] == "M":
                    al.append(shared(f"M{x[2]}", x[1] == "arc"))
                elif x[0] in ("String", "&str"):
                    al.append(f"STR[(int) t.a[{n}]]")
                    n += 1
                elif x[0] == "Option<i32>":
                    al.append(f"t.a[{n}] != 0 ? Integer.valueOf((int) t.a[{n + 1}]) : null")
                    n += 2
                else:
                    al.append(f"t.a[{n}] != 0" if x[0] == "bool" else "(%s) t.a[%d]" % ({"i32": "int", "i64": "long", "u8": "short", "f64": "double"}[x[0]], n))
                    n += 1
            al.append(D)
            b += pre
            gate = locks(m) >= 2
            callx = (recv or m["cls"] + ".") + f"{m['name']}({', '.join(al)})"
            jt = {"i64": "long", "i32": "int", "bool": "boolean", "f64": "double", "String": "String", "Option<i64>": "java.util.OptionalLong", "Result<i64, String>": "long", "P0": "P0", "tick": "long", None: None}[m["ret"]]
            chk = {None: "", "i64": "eq(t, r, t.e, \"result\");", "i32": "eq(t, r, (int) t.e, \"result\");", "bool": "if (r != ((t.e & 1) != 0)) fail(t, \"result wrong\");", "f64": "eq(t, (long) r, t.e >> 20, \"result\");",
                   "String": "if (!r.equals(t.e + \"\\u00e9\")) fail(t, \"result is \" + r);",
                   "Option<i64>": "if (r.isPresent() != (t.e % 4 != 0) || (r.isPresent() && r.getAsLong() != t.e)) fail(t, \"optional result wrong\");",
                   "Result<i64, String>": "if (ex != null) { if (t.e % 3 != 0 || !(\"e\" + t.e).equals(ex.getMessage())) fail(t, \"exception \" + ex); } else if (t.e % 3 == 0) fail(t, \"no exception\"); else eq(t, r, t.e, \"result\");",
                   "P0": f"eq(t, r.get(), t.e, \"returned object\"); t.p[(int) t.a[{n + 1}]] = r;",
                   "tick": "if (t.a[0] != 3) t.ticked(%d, t.a[1], r);" % (int(m["cls"][1:]) if m["cls"][0] == "M" else 0)}[m["ret"]]
            if m["ret"] == "Result<i64, String>":
                callx = f"long r = 0; Exception ex = null; try {{ r = {callx}; }} catch (Exception x) {{ ex = x; }}"
            else:
                callx = (f"{jt} r = " if jt else "") + callx + ";"
            if gate:
                b.append("gate.lock(); try {")
            b.append(f"{' '.join(flies)} {callx} {' '.join(ends)} {chk}")
            b += post + [f"Reference.reachabilityFence({v});" for v in keep]
            if gate:
                b.append("} finally { gate.unlock(); }")
        elif name[:4] in ("bump", "tick"):
            k = int(name[4:])
            b.append(f"M{k} m = t.sel_M{k}(t.a[0], t.a[1]); Obj o = o_M{k}[(int) t.a[1]].start(t.op, {'t.a[2]' if name[0] == 'b' else '1'});")
            b.append("m.bump(t.a[2]);" if name[0] == "b" else f"t.ticked({k}, t.a[1], m.tick());")
            b.append("Reference.reachabilityFence(m); o.end();")
        elif name[:4] == "drop":
            k = f"t.k_M{name[4:]}[(int) t.a[0]]"
            b.append(f"if ({k} != null && t.at % 2 == 0) {k}.delete(); {k} = null;")
        elif name == "bga":
            b.append("o_A0[(int) t.a[0]].sum.addAndGet(t.a[1] * t.a[2]); Ctl.bg_a0(Ctl.get_a0((int) t.a[0]), t.a[1], (int) t.a[2]);")
        elif name[:2] == "bg":
            k = name[2:]
            b.append(f"Obj o = o_M{k}[(int) t.a[1]]; o.sum.addAndGet(t.a[2] * t.a[3]); o.calls.addAndGet(t.a[3]); Ctl.bg_m{k}(t.sel_M{k}(1, t.a[1]), t.a[2], (int) t.a[3]);")
        elif name == "setcb":
            b.append("Call c = new Call((int) t.a[1]); if (t.a[2] != 0) Ctl.set_cb_bg((int) t.a[0], c); else Ctl.set_cb((int) t.a[0], c);")
        elif name == "clearcb":
            b.append("Ctl.clear_cb((int) t.a[0]);")
        elif name == "fire":
            b.append("long r = t.a[2] != 0 ? Ctl.fire_bg((int) t.a[0], t.a[1]) : Ctl.fire((int) t.a[0], t.a[1]); if (r != -1) eq(t, r, t.a[1] * 3 + 1, \"result of a callback\");")
        elif name == "storm":
            b.append("Ctl.storm((int) t.a[0], t.a[1], (int) t.a[2]);")
        else:
            b.append("for (long i = 0; i < t.a[0]; ++i) Thread.yield();")
        o.append(f"static void op_{name}(T t) {{ {' '.join(b)} }}")
    o.append("static void run(int op, T t) { switch (op) { " + " ".join(f"case {i}: op_{n}(t); break;" for i, n in enumerate(ops)) + " } }")
    cls = [f"M{k}" for k in ks] + ["A0"]
    o.append(r'''
static volatile boolean stop;

static void work(int[][] op, long[][] e, long[][][] a) throws Exception {
    int nth = op.length; T[] ts = new T[nth]; for (int i = 0; i < nth; ++i) ts[i] = new T(i);
    // handles which every thread deletes
    M0[] doomedM = new M0[40]; P0[] doomedP = new P0[40]; A0[] doomedA = new A0[40]; for (int i = 0; i < 40; ++i) { doomedM[i] = i % 2 == 0 ? new M0(0L) : Ctl.get_m0(i % 3); doomedP[i] = new P0(i); doomedA[i] = Ctl.get_a0(i % 3); }
    Thread[] th = new Thread[nth]; java.util.concurrent.CyclicBarrier bar = new java.util.concurrent.CyclicBarrier(nth);
    for (int i = 0; i < nth; ++i) { final int k = i; th[i] = new Thread(() -> { T t = ts[k]; try { bar.await();
        for (int s = 0; s < op[k].length; ++s) { t.op = op[k][s]; t.e = e[k][s]; t.a = a[k][s]; run(t.op, t); done[t.op].incrementAndGet(); t.at++; } bar.await(); for (M0 m : doomedM) m.delete(); for (P0 x : doomedP) x.delete(); for (A0 x : doomedA) x.delete(); } catch (Throwable x) { fail(t, "threw " + x); } }); th[i].start(); }
    Thread gc = new Thread(() -> { while (!stop) { System.gc(); System.runFinalization(); try { Thread.sleep(3); } catch (InterruptedException x) {} } }); gc.setDaemon(true); gc.start();
    for (Thread x : th) x.join();
    Ctl.join(); stop = true; gc.join();
    Map<Integer, Set<Long>> all = new HashMap<>();
    for (T t : ts) for (Map.Entry<Integer, ArrayList<Long>> k : t.tick.entrySet()) { long last = -1; for (long x : k.getValue()) { if (x <= last) { fail(t, "a later call got the number " + x + " after " + last); break; } last = x;
        if (!all.computeIfAbsent(k.getKey(), q -> new HashSet<>()).add(x)) { fail(t, "two calls got the number " + x); break; } } }
    T fin = new T(99);
    for (int i = 0; i < 4; ++i) Ctl.clear_cb(i);
    eq(fin, cbCalls.get(), Ctl.fired(), "callbacks called");
    ''' + " ".join(f"for (int i = 0; i < {NOBJ}; ++i) {{ eq(fin, sh_{c}[i].sum(), o_{c}[i].sum.get(), \"sum of {c}\");" + (f" eq(fin, sh_{c}[i].count(), o_{c}[i].calls.get(), \"calls of {c}\");" if c[0] == "M" else "") + f" sh_{c}[i] = null; }}" for c in cls) + r'''
    Ctl.clear();
}
public static void main(String[] v) throws Exception {
    System.load(System.getenv("VF_LIB"));
    StreamTokenizer dummy = null;
    Scanner in = new Scanner(Files.readString(Path.of(v[0])));
    int nth = in.nextInt(); int[][] op = new int[nth][]; long[][] e = new long[nth][]; long[][][] a = new long[nth][][];
    for (int i = 0; i < nth; ++i) { int n = in.nextInt(); op[i] = new int[n]; e[i] = new long[n]; a[i] = new long[n][]; for (int j = 0; j < n; ++j) { op[i][j] = in.nextInt(); e[i][j] = in.nextLong(); a[i][j] = new long[in.nextInt()]; for (int k = 0; k < a[i][j].length; ++k) a[i][j][k] = in.nextLong(); } }
    Ctl.make();
    ''' + " ".join(f"for (int i = 0; i < {NOBJ}; ++i) sh_{c}[i] = Ctl.get_{c.lower()}(i);" for c in cls) + r'''
    Thread w = new Thread(() -> { try { work(op, e, a); } catch (Exception x) { say("-1 0 " + x); } }); w.start(); w.join();
    for (int i = 0; i < 400 && Ctl.live() != 0; ++i) { System.gc(); System.runFinalization(); Thread.sleep(i < 20 ? 1 : 20); }
    if (Ctl.live() != 0) say("-1 0 objects left: " + Ctl.live() + ", expected 0");
    String s = Ctl.bad(); if (!s.isEmpty()) { System.out.println("BAD " + s); fails.incrementAndGet(); }
    for (int i = 0; i < cont.length; ++i) System.out.println("OP " + i + " " + done[i] + " " + cont[i]);
    System.out.println("TOGETHER " + Ctl.together() + "\nDONE " + fails.get());
    System.exit(0);
} }''')
    return "\n".join(o)
