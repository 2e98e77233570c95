// Runtime of the generated Java drivers.
package drv;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

public final class Vf {
    public static native void op(long n);
    public static native void purge();
    public static native long live();
    public interface Op { void run(Ctx c) throws Throwable; }
    public static final Map<String, Op> ops = new HashMap<>();

    public static final class Ctx {
        String[] t; int pos; StringBuilder out = new StringBuilder(); ArrayDeque<Integer> dst = new ArrayDeque<>();
        int extra = 1000000000;
        public String tok() { return t[pos++]; }
        public long num() { return Long.parseLong(tok().substring(1)); }
        public int label() { return (int) num(); }
        public int len() { return (int) num(); }
        public int nextDst() { if (dst.isEmpty()) { raw(" UNEXPECTED-OBJECT"); return extra++; } return dst.removeFirst(); }
        public boolean rdBool() { return tok().equals("b1"); }
        public float rdF32() { String s = tok(); return s.equals("gnan") ? Float.NaN : Float.intBitsToFloat((int) Long.parseLong(s.substring(1))); }
        public double rdF64() { String s = tok(); return s.equals("fnan") ? Double.NaN : Double.longBitsToDouble(Long.parseUnsignedLong(s.substring(1))); }
        public String rdStr() {
            String s = tok(); byte[] b = new byte[(s.length() - 1) / 2];
            for (int i = 0; i < b.length; ++i) b[i] = (byte) Integer.parseInt(s.substring(1 + 2 * i, 3 + 2 * i), 16);
            return new String(b, StandardCharsets.UTF_8);
        }
        public void raw(String s) { out.append(s); }
        public void i(long v) { out.append(" i").append(v); }
        public void b(boolean v) { out.append(v ? " b1" : " b0"); }
        public void f32(float v) { out.append(v != v ? " gnan" : " g" + Integer.toUnsignedString(Float.floatToRawIntBits(v))); }
        public void f64(double v) { out.append(v != v ? " fnan" : " f" + Long.toUnsignedString(Double.doubleToRawLongBits(v))); }
        public void s(String v) {
            if (v == null) { out.append(" NULL"); return; }
            byte[] b = v.getBytes(StandardCharsets.UTF_8);
            if (!new String(b, StandardCharsets.UTF_8).equals(v)) out.append(" BROKEN-UTF16");
            out.append(" s");
            for (byte x : b) { out.append(Character.forDigit((x >> 4) & 15, 16)).append(Character.forDigit(x & 15, 16)); }
        }
        public void exc(Throwable e) { out.append(" EXC:").append(e.getClass().getName()).append(":").append(String.valueOf(e.getMessage()).replace(' ', '_').replace('\n', '_')); }
    }
    static FileOutputStream fd;
    static final java.lang.ref.ReferenceQueue<Object> rq = new java.lang.ref.ReferenceQueue<>();
    static final List<java.lang.ref.PhantomReference<Object>> dropped = new ArrayList<>();
    public static boolean drop(Object o) {
        if (o == null) return false;
        dropped.add(new java.lang.ref.PhantomReference<>(o, rq));
        return true;
    }
    static long patience = 10_000_000_000L;
    static boolean pending() {
        // a phantom reference is cleared when the object is gone, i.e. after its finalizer has run
        dropped.removeIf(r -> r.refersTo(null));
        return !dropped.isEmpty();
    }
    public static void gc(long want) throws Exception {
        // finalizers of unreachable objects, until the expected number of Rust objects is left
        long t0 = System.nanoTime();
        for (int i = 0; (live() > want || pending()) && (System.nanoTime() - t0) < patience; ++i) {
            System.gc();
            System.runFinalization();
            if (i > 2) Thread.sleep(5);
        }
        if (live() > want || pending()) patience = 300_000_000L;
        // give wrong (second) finalizations the chance to happen
        System.gc();
        System.runFinalization();
    }
    public static void run() throws Throwable {
        fd = new FileOutputStream(System.getenv("VF_OUT"));
        int n = 0;
        for (String line : Files.readAllLines(Paths.get(System.getenv("VF_SCRIPT")))) {
            Ctx c = new Ctx();
            int tab = line.indexOf('\t');
            c.t = (tab < 0 ? line : line.substring(0, tab)).trim().split(" +");
            int k = (int) c.num();
            for (int i = 0; i < k; ++i) c.dst.add(Integer.parseInt(c.tok()));
            Op f = ops.get(c.tok());
            if (f == null) { System.err.println("vf: unknown op " + line); System.exit(90); }
            c.out.append(n);
            op(n);
            try { f.run(c); } catch (Throwable e) {
                c.exc(e);
                if (e instanceof LinkageError || System.getenv("VF_TRACE") != null) e.printStackTrace();
            }
            if (!c.dst.isEmpty()) c.out.append(" MISSING-OBJECT");
            fd.write((c.out.toString() + "\n").getBytes(StandardCharsets.UTF_8));
            ++n;
        }
        op(-1);
        fd.close();
    }
}
