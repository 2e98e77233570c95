"""Building and running concurrent programs (C++: T01, Java: T02)."""
import os
import re
from . import common, conc, conc_cpp, conc_java
from .common import RT, Infra, fgen, run, write
from .rig import CppRig, RUSTC, clean, first_errors, java_deps

PKG = "org.vf.gen"


class Build:
    def __init__(self, f):
        self.f, self.n = f, 0
        self.d = d = common.scratch("conc")
        self.err = None
        lib, self.glue = conc.emit(f)
        write(d + "/glue.rs.in", self.glue)
        write(d + "/lib.rs", lib)
        os.makedirs(d + "/gen")
        rc, e = fgen(d, lang=f["lang"], out=d + "/gen", name="rust" if f["lang"] == "cpp" else PKG, src=d + "/glue.rs.in", dst=d + "/glue.rs", width="64", rustfmt="0", **f["cfg"])
        if rc:
            self.err = "the interface is refused: " + clean(e)
        elif f["lang"] == "cpp":
            self.cpp()
        else:
            self.java()

    def steps(self, jobs):
        for what, rc, e in jobs:
            if rc:
                if "No space" in e or "Killed" in e or rc < 0:
                    raise Infra(f"{what}: " + e[-500:])
                self.err = f"{what}: " + first_errors(e)
                return

    def both(self, a, b):
        import concurrent.futures as cf
        with cf.ThreadPoolExecutor(2) as ex:
            x = [ex.submit(run, c, 600) for _, c in (a, b)]
            self.steps([(n, r.result()[0], r.result()[2]) for (n, _), r in zip((a, b), x)])

    def cpp(self):
        d = self.d
        write(d + "/drv.cpp", conc_cpp.emit(self.f))
        self.both(("rustc", RUSTC + ["--crate-type", "staticlib", "--crate-name", "glue", "-o", d + "/libglue.a", d + "/lib.rs"]),
                  ("c++", ["g++", "-std=c++17", "-O1", "-w", "-pipe"] + CppRig.SAN + ["-I", d + "/gen", "-I", RT, "-c", d + "/drv.cpp", "-o", d + "/drv.o"]))
        if not self.err:
            rc, o, e = run(["g++"] + CppRig.SAN + [d + "/drv.o", d + "/libglue.a", "-o", d + "/drv", "-lpthread", "-ldl"], timeout=300)
            self.steps([("linker", rc, e)])

    def java(self):
        d = self.d
        deps = java_deps()
        write(d + "/src/drv/Drv.java", conc_java.emit(self.f))
        for n in ("NonNull", "Nullable") if self.f["cfg"].get("null_annotation") else ():
            write(f"{d}/src/{n}.java", f"package {self.f['cfg']['null_annotation']}; public @interface {n} {{}}\n")
        srcs = [os.path.join(t, x) for top in (d + "/gen", d + "/src") for t, _, fs in os.walk(top) for x in fs if x.endswith(".java")]
        self.both(("rustc", RUSTC + ["--crate-type", "cdylib", "--crate-name", "glue", "-o", d + "/libglue.so", d + "/lib.rs", "--extern", f"log={deps}/liblog.rlib", "--extern", f"vf_jni_h={deps}/libvf_jni_h.rlib"]),
                  ("javac", [common.JAVA_HOME + "/bin/javac", "-nowarn", "-J-XX:+UseSerialGC", "-J-XX:TieredStopAtLevel=1", "-encoding", "UTF-8", "-proc:none", "-d", d + "/cls"] + srcs))

    def run(self, plan):
        """(trouble or None, per operation (done, contended), calls together)"""
        self.n += 1
        p = f"{self.d}/plan{self.n}"
        write(p, conc.plan_text(self.f, plan))
        if self.f["lang"] == "cpp":
            rc, o, e = run([self.d + "/drv", p], timeout=60, hang=True, ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=0", UBSAN_OPTIONS="halt_on_error=1:exitcode=78")
        else:
            rc, o, e = run([common.JAVA_HOME + "/bin/java", "-Xcheck:jni", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xmx256m", "-Xshare:auto", "-XX:-CreateCoredumpOnCrash", f"-XX:ErrorFile={self.d}/hs_err",
                            "-cp", self.d + "/cls", "drv.Drv", p], timeout=90, hang=True, cwd=self.d, VF_LIB=self.d + "/libglue.so", MALLOC_PERTURB_="165")
            m = re.search(r"FATAL ERROR in native method[^\n]*|WARNING in native method[^\n]*|LOG-ERROR[^\n]*", o + e)
            if m and rc == 0:
                rc, e = 99, m.group(0)
        os.unlink(p)
        if "BADPLAN" in o:
            raise Infra("plan not read")
        cov = {int(a): (int(b), int(c)) for a, b, c in re.findall(r"^OP (\d+) (\d+) (\d+)$", o, re.M)}
        t = re.search(r"^TOGETHER (\d+)$", o, re.M)
        bad = re.findall(r"^(MISMATCH .*|BAD .*)$", o, re.M)
        trouble = None
        if bad:
            trouble = "; ".join(bad[:3])
        elif rc or "DONE 0" not in o:
            k = re.search(r"ERROR: \w+Sanitizer[^\n]*|runtime error[^\n]*|panicked at[^\n]*\n?[^\n]*|Error: no end[^\n]*|SIG\w+ [^\n]*|FATAL ERROR[^\n]*|WARNING in native[^\n]*|Exception in[^\n]*", o + "\n" + e)
            trouble = f"the program ends with {rc}: " + (k.group(0) if k else (o + e)[-400:])
        return trouble, cov, int(t.group(1)) if t else 0

    def close(self):
        common.rmtree(self.d)


def kind(t):
    """Failures of the same kind, for shrinking."""
    for k in ("not locked", "in use by", "half done", "dropped", "damaged", "expected", "callback", "Sanitizer", "no end within", "panicked"):
        if k in t:
            return k
    return "other"


def case(ck, pid, lang, i, rounds):
    rng = common.rng(pid, i)
    f = conc.gen(rng, lang)
    b = Build(f)
    tag = f"interface {i} {f['cfg']}"
    try:
        if b.err:
            return ck.violation("build", f"[{tag}] {b.err}", {"glue": b.glue, "cfg": f["cfg"]})
        ops = conc.op_names(f)
        ms = {f"m{m['n']}": m for m in f["meths"]}
        for r in range(rounds):
            if ck.over(ck.budget) or len(ck.violations) >= 3:
                return
            nth = rng.choice([2, 3, 4, 4, 6, 8])
            plan = conc.make_plan(rng, f, nth, rng.choice([40, 150, 400]) // (1 if lang == "cpp" else 1))
            t, cov, tog = b.run(plan)
            if t:
                key = kind(t)
                small = conc.shrink(f, plan, lambda p: kind(b.run(p)[0] or "-") == key)
                t2 = b.run(small)[0] or t
                ck.violation(key, f"[{tag}] {sum(bool(l) for l in small)} threads, {sum(map(len, small))} operations: {t2}",
                             {"glue": b.glue, "cfg": f["cfg"], "plan": small, "first": t, "what": [conc.describe(f, small, x, y) for x in range(len(small)) for y in range(min(8, len(small[x])))]})
                return
            for k, (done, cont) in cov.items():
                if done:
                    n = ops[k]
                    s = conc.sig(ms[n]) if n in ms else n
                    ck.count((s, nth), cont > 0, {"operation": s, "threads": nth, "calls": done, "begun during another call of the same object": cont, "configuration": f["cfg"]} if (i + r) % 7 == 0 and n in ms and cont else None)
            ck.calls = getattr(ck, "calls", 0) + sum(x for x, _ in cov.values())
            ck.cont = getattr(ck, "cont", 0) + sum(x for _, x in cov.values())
            ck.tog = getattr(ck, "tog", 0) + tog
    finally:
        b.close()


def check(pid, lang, rule, assumptions):
    ck = common.Check(pid, rule, assumptions)
    ck.budget = 3000 if ck.thorough else 400
    common.build_fgen()
    if lang == "java":
        java_deps()
    n, rounds = ((400, 12) if ck.thorough else (40, 6)) if lang == "cpp" else ((300, 10) if ck.thorough else (32, 6))

    def job(i):
        if len(ck.violations) < 3 and not ck.over(ck.budget):
            case(ck, pid, lang, i, rounds)
    common.pool(job, range(n))
    print(f"{getattr(ck, 'calls', 0)} operations, {getattr(ck, 'cont', 0)} begun during another call of the same object, {getattr(ck, 'tog', 0)} bodies entered while another ran")
    return ck.finish()
