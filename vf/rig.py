"""Turning a specification into a running program, per language."""
import json
import os
import re
import shutil
import threading
from . import common, cppdrv, engine, javadrv, spec as sp
from .common import RT, Infra, fgen, run, write, read

RUSTC = ["rustc", "--edition", "2021", "-Awarnings", "-Cdebug-assertions=on", "-Coverflow-checks=on", "-Copt-level=0",
         "-Cdebuginfo=0", "--cap-lints", "allow"]


_lock, _deps = threading.Lock(), {}


class BuildFail(Exception):
    """The generated interface is unusable: generator refused it or a compiler did."""

    def __init__(self, stage, text):
        super().__init__(f"{stage}: {text}")
        self.stage, self.text = stage, text


class Rig:
    timeout = 100      # of one history; they take a few seconds

    def __init__(self, spec, tag):
        self.spec = spec
        self.dir = common.scratch(tag)
        self.n = 0
        self.env = {}

    def close(self):
        common.rmtree(self.dir)

    def generate(self, lang, name):
        d = self.dir
        self.lib, self.glue = sp.emit_rust(self.spec, os.path.join(RT, "vf_rt.rs"))
        write(d + "/glue.rs.in", self.glue)
        write(d + "/lib.rs", self.lib)
        os.makedirs(d + "/gen", exist_ok=True)
        job = dict(lang=lang, out=d + "/gen", name=name, src=d + "/glue.rs.in", dst=d + "/glue.rs", width="64", rustfmt="0")
        for k in ("use_boost", "optional", "variant", "str_view", "separate_impl_headers", "null_annotation", "fence", "rustfmt", "optional_package"):
            if self.spec.cfg.get(k) is not None:
                job[k] = self.spec.cfg[k]
        if lang == "python":
            job.pop("out")
        merge = []
        for i, m in enumerate(self.spec.cfg.get("umaps", {}).values()):
            if m["where"] == "merge":
                write(d + f"/merge{i}.in", m["glue"])
                merge.append(f"{m['name']} {d}/merge{i}.in")
        if merge:
            job["merge"] = merge
        if job.get("fence") == "tight":      # the smallest fence the generator accepts for this interface
            for n in range(1, 40):
                job["fence"] = str(n)
                rc, err = fgen(d, **job)
                if rc == 0:
                    break
        else:
            rc, err = fgen(d, **job)
        if rc != 0:
            raise BuildFail("generator", clean(err))

    def rustc(self, crate_type, extra=()):
        d = self.dir
        out = d + ("/libglue.a" if crate_type == "staticlib" else "/libglue.so")
        rc, o, e = run(RUSTC + ["--crate-type", crate_type, "--crate-name", "glue", "-o", out, d + "/lib.rs"] + list(extra), timeout=400)
        if rc != 0:
            if "No space left" in e or "Killed" in e or rc < 0:
                raise Infra("rustc: " + e[-800:])
            raise BuildFail("rustc", first_errors(e))
        return out

    def check(self, ops, exps, **kw):
        out, log, rc, err = self.execute(ops, exps, **kw)
        return engine.compare(self.spec, ops, exps, out, log, rc, err)

    def fails_same(self, sig_fn):
        """Predicate for shrinking: the reduced history still disagrees."""
        def f(ops):
            keep, exps = engine.simulate(self.spec, ops)
            if not keep:
                return False
            r = self.check(keep, exps)
            return r is not None and (sig_fn is None or sig_fn(keep, r))
        return f


def clean(err):
    ls = [l for l in err.splitlines() if l.strip() and "RUST_BACKTRACE" not in l]
    return "\n".join(ls)[:1500]


def first_errors(e, n=6):
    ls = e.splitlines()
    r = []
    for i, l in enumerate(ls):
        if re.search(r"\berror\b", l):
            r += ls[i:i + 4]
            if len(r) > n * 4:
                break
    return "\n".join(r or ls[-12:])[:1800]


class CppRig(Rig):
    SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]

    def build(self, std=None, ext=None, extra_head="", sanitize=True):
        d = self.dir
        self.generate("cpp", self.spec.cfg.get("ns", "rust"))
        std = std or self.spec.cfg.get("std", "c++17")
        self.lib_a = None
        g = cppdrv.CppGen(self.spec)
        self.gen = g
        text = g.emit(ext)
        write(d + "/drv.cpp", extra_head + text)
        import concurrent.futures as cf
        san = self.SAN if sanitize else []
        cmd = ["g++", "-std=" + std, "-O0", "-w", "-pipe"] + san + ["-I", d + "/gen", "-I", RT, "-c", d + "/drv.cpp", "-o", d + "/drv.o"]
        with cf.ThreadPoolExecutor(2) as ex:
            f1 = ex.submit(self.rustc, "staticlib")
            f2 = ex.submit(run, cmd, 600)
            lib = f1.result()
            rc, o, e = f2.result()
        if rc != 0:
            if "Killed" in e or "No space" in e:
                raise Infra("g++: " + e[-800:])
            raise BuildFail("c++ compiler", first_errors(e))
        rc, o, e = run(["g++"] + san + [d + "/drv.o", lib, "-o", d + "/drv", "-lpthread", "-ldl"], timeout=300)
        if rc != 0:
            raise BuildFail("linker", first_errors(e))
        for f in ("drv.o", "libglue.a"):
            os.unlink(os.path.join(d, f))
        return self

    def execute(self, ops, exps, timeout=None):
        timeout = timeout or self.timeout
        self.n += 1
        b = f"{self.dir}/r{self.n}"
        lines = [cppdrv.script_line(self.spec, None, op, e) for op, e in zip(ops, exps)]
        write(b + ".script", "\n".join(lines) + "\n")
        rc, o, e = run([self.dir + "/drv"], timeout=timeout, hang=True, VF_SCRIPT=b + ".script", VF_OUT=b + ".out", VF_LOG=b + ".log", **self.env,
                       ASAN_OPTIONS="detect_leaks=1:abort_on_error=0:exitcode=77:detect_stack_use_after_return=1",
                       UBSAN_OPTIONS="halt_on_error=1:exitcode=78")
        r = read(b + ".out", ""), read(b + ".log", ""), rc, e
        for x in (".script", ".out", ".log"):
            try:
                os.unlink(b + x)
            except FileNotFoundError:
                pass
        return r


def java_deps():
    """Compiled once per run of a check: JNI declarations and a stand-in for the `log` crate."""
    with _lock:
        d = os.path.join(common.TARGET, "vf-java")
        if "java" in _deps:
            return d
        tmp = common.scratch("jdeps")
        try:
            for src, name in (("jni_c_header.rs", "vf_jni_h"), ("log_stub.rs", "log")):
                rc, o, e = run(["rustc", "--edition", "2018", "-Awarnings", "--cap-lints", "allow", "--crate-type", "rlib", "--crate-name", name,
                                "--out-dir", tmp, os.path.join(RT, src)], timeout=300)
                if rc != 0:
                    raise Infra("java deps: " + e[-1000:])
            os.makedirs(d, exist_ok=True)
            for f in os.listdir(tmp):
                os.replace(os.path.join(tmp, f), os.path.join(d, f)) if os.stat(tmp).st_dev == os.stat(d).st_dev else shutil.copy(os.path.join(tmp, f), os.path.join(d, f))
        finally:
            common.rmtree(tmp)
        _deps["java"] = True
        return d


class JavaRig(Rig):
    ANN = {"android.support.annotation": ["NonNull", "Nullable"], "org.ann": ["NonNull", "Nullable"]}

    def build(self, ext=None):
        d = self.dir
        pkg = self.spec.cfg.get("ns", "org.vf.gen")
        deps = java_deps()
        self.generate("java", pkg)
        g = self.gen = javadrv.JavaGen(self.spec)
        write(d + "/src/drv/Drv.java", g.emit(ext))
        for p in [self.spec.cfg.get("null_annotation")]:
            if p:
                pk = p.rsplit(".", 1)[0] if p.endswith("NonNull") else p
                for n in ("NonNull", "Nullable"):
                    write(f"{d}/src/{pk.replace('.', '/')}/{n}.java", f"package {pk}; public @interface {n} {{}}\n")
        if self.spec.cfg.get("optional_package"):
            p = self.spec.cfg["optional_package"]
            for n, tp, t, get in [("Optional", "<T>", "T", "get"), ("OptionalInt", "", "int", "getAsInt"), ("OptionalLong", "", "long", "getAsLong"),
                                  ("OptionalDouble", "", "double", "getAsDouble")]:
                null = f"public static <T> Optional<T> ofNullable(T v) {{ return v == null ? empty() : of(v); }}" if tp else ""
                gen = tp + " " if tp else ""
                write(f"{d}/src/{p.replace('.', '/')}/{n}.java", f"package {p}; public final class {n}{tp} {{ private boolean has; private {t} v; "
                      f"public static {gen}{n}{tp} of({t} v) {{ if (v == null) throw new NullPointerException(); {n}{tp} r = new {n}{tp}(); r.has = true; r.v = v; return r; }} "
                      .replace("if (v == null) throw new NullPointerException(); ", "if (v == null) throw new NullPointerException(); " if tp else "") +
                      f"public static {gen}{n}{tp} empty() {{ return new {n}{tp}(); }} {null} public boolean isPresent() {{ return has; }} "
                      f"public {t} {get}() {{ if (!has) throw new java.util.NoSuchElementException(); return v; }} }}\n")
        for m in self.spec.cfg.get("umaps", {}).values():
            for p, text in m["java"].items():
                write(f"{d}/src/{p}", text)
        import concurrent.futures as cf
        srcs = [os.path.join(RT, "Vf.java")] + [os.path.join(p, f) for top in (d + "/gen", d + "/src") for p, _, fs in os.walk(top) for f in fs if f.endswith(".java")]
        cmd = [common.JAVA_HOME + "/bin/javac", "-nowarn", "-J-XX:+UseSerialGC", "-J-XX:TieredStopAtLevel=1", "-encoding", "UTF-8", "-proc:none", "-d", d + "/cls"] + srcs
        with cf.ThreadPoolExecutor(2) as ex:
            f1 = ex.submit(self.rustc, "cdylib", ["--extern", f"log={deps}/liblog.rlib", "--extern", f"vf_jni_h={deps}/libvf_jni_h.rlib"])
            f2 = ex.submit(run, cmd, 400)
            f1.result()
            rc, o, e = f2.result()
        if rc != 0:
            raise BuildFail("javac", first_errors(e))
        return self

    def execute(self, ops, exps, timeout=None):
        timeout = timeout or self.timeout
        self.n += 1
        b = f"{self.dir}/r{self.n}"
        lines = [cppdrv.script_line(self.spec, None, op, e) for op, e in zip(ops, exps)]
        write(b + ".script", "\n".join(lines) + "\n")
        os.makedirs(b, exist_ok=True)
        rc, o, e = run([common.JAVA_HOME + "/bin/java", "-Xcheck:jni", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-Xmx256m", "-Xshare:auto",
                        "-XX:-CreateCoredumpOnCrash", "-XX:ErrorFile=" + b + "/hs_err", "-cp", self.dir + "/cls", "drv.Drv"], timeout=timeout, hang=True, cwd=b,
                       VF_LIB=self.dir + "/libglue.so", VF_SCRIPT=b + ".script", VF_OUT=b + ".out", VF_LOG=b + ".log", MALLOC_PERTURB_="165", **self.env)
        txt = o + "\n" + e
        m = re.search(r"FATAL ERROR in native method[^\n]*|LOG-ERROR(?![^\n]*java throw exception)[^\n]*|WARNING in native method[^\n]*", txt)
        if m and rc == 0:
            rc = 99
        if rc != 0 and not os.path.exists(b + ".log") and "Could not reserve" in txt:
            raise Infra("java: " + txt[-500:])
        err = (m.group(0) + "\n" if m else "") + txt
        r = read(b + ".out", ""), read(b + ".log", ""), rc, err
        for x in (".script", ".out", ".log"):
            try:
                os.unlink(b + x)
            except FileNotFoundError:
                pass
        shutil.rmtree(b, ignore_errors=True)
        return r


def python_deps():
    """The rlibs of the cpython crate, built once per run of a check."""
    with _lock:
        if "python" in _deps:
            return _deps["python"]
        rc, o, e = run(["cargo", "build", "--offline", "--message-format", "json"], timeout=400, cwd=os.path.join(common.VERIF, "harness", "pydeps"))
        if rc != 0:
            raise Infra("python deps: " + e[-1500:])
        lib = None
        for l in o.splitlines():
            if l.startswith("{"):
                j = json.loads(l)
                if j.get("reason") == "compiler-artifact" and j["target"]["name"] == "cpython":
                    lib = [f for f in j["filenames"] if f.endswith(".rlib")][0]
        if lib is None:
            raise Infra("python deps: no rlib of cpython")
        _deps["python"] = lib
        return lib


class PyRig(Rig):
    def build(self):
        d, sp_ = self.dir, self.spec
        name = sp_.cfg.get("ns", "vfmod")
        lib = python_deps()
        self.generate("python", name)
        so = self.rustc("cdylib", ["--extern", "cpython=" + lib, "-L", "dependency=" + os.path.dirname(lib)])
        os.replace(so, f"{d}/{name}.so")
        write(d + "/spec.json", json.dumps({
            "module": name, "enums": sp_.enums, "classes": [c.name for c in sp_.classes],
            "noctor": sp_.cfg.get("noctor", []),
            "methods": {m.idx: {"cls": m.cls, "recv": m.recv, "args": m.args, "ret": m.ret, "name": m.name,
                                "names": None if "_" in m.names() else m.names()} for m in sp_.methods}}))
        return self

    def execute(self, ops, exps, timeout=None):
        timeout = timeout or self.timeout
        self.n += 1
        b = f"{self.dir}/r{self.n}"
        lines = [cppdrv.script_line(self.spec, None, op, e) for op, e in zip(ops, exps)]
        write(b + ".script", "\n".join(lines) + "\n")
        rc, o, e = run(["python3", "-X", "faulthandler", os.path.join(RT, "vf_py.py"), self.dir], timeout=timeout, hang=True,
                       VF_SCRIPT=b + ".script", VF_OUT=b + ".out", VF_LOG=b + ".log", MALLOC_PERTURB_="165", **self.env)
        r = read(b + ".out", ""), read(b + ".log", ""), rc, e
        for x in (".script", ".out", ".log"):
            try:
                os.unlink(b + x)
            except FileNotFoundError:
                pass
        return r
