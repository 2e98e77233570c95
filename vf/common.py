"""Environment, builds, evidence, findings."""
import hashlib
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.environ.get("VF_ROOT", os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = os.environ.get("VF_REPO", "/repo")
TARGET = os.path.join(VERIF, "target")
RT = os.path.join(VERIF, "vf", "rt")
JAVA_HOME = "/usr/lib/jvm/java-17-openjdk-amd64"
JOBS = max(2, os.cpu_count() or 2)


LOCK = threading.Lock()


class Infra(Exception):
    """The check could not do its work (build broken, time-out, out of memory): not a verdict."""


def env(**kw):
    e = dict(os.environ)
    for k in ("CARGO_BUILD_TARGET", "RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(HOME=e.get("HOME", "/root"), RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", CARGO_TARGET_DIR=TARGET, JAVA_HOME=JAVA_HOME, PYTHONDONTWRITEBYTECODE="1",
             RUST_BACKTRACE="0", LC_ALL="C.UTF-8")
    e.pop("CARGO_INCREMENTAL", None)
    e.update(kw)
    return e


HANG = "no end within"


def run(cmd, timeout=300, cwd=None, stdin=None, hang=False, **kw):
    """(rc, stdout, stderr); raises Infra on time-out (hang: status -9 and a note instead)."""
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env(**kw), stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        if hang:
            return -9, "", f"Error: {HANG} {timeout} s"
        raise Infra(f"time-out after {timeout} s: {' '.join(map(str, cmd))[:300]}")
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


_built = {}


def build_fgen():
    """Builds the generator from /repo's current tree; returns the path of the command line tool."""
    if "fgen" in _built:
        return _built["fgen"]
    rc, out, err = run(["cargo", "build", "--offline", "-q"], timeout=800, cwd=os.path.join(VERIF, "harness", "fgen"))
    if rc != 0:
        raise Infra("building flapigen failed:\n" + err[-3000:])
    _built["fgen"] = os.path.join(TARGET, "debug", "fgen")
    return _built["fgen"]


def fgen(workdir, **job):
    """Runs the generator on a job; (rc, stderr)."""
    lines = []
    for k, v in job.items():
        if v is None or v is False:
            continue
        if isinstance(v, list):
            lines += [f"{k} {x}" for x in v]
        elif v is True:
            lines.append(f"{k} 1")
        else:
            lines.append(f"{k} {v}")
    p = os.path.join(workdir, "job")
    with open(p, "w") as f:
        f.write("\n".join(lines) + "\n")
    rc, out, err = run([build_fgen(), p], timeout=200)
    return rc, out + err


def seed():
    return int(os.environ.get("VERIF_SEED", "1") or "1")


def rng(*parts):
    h = hashlib.sha256(repr((seed(),) + parts).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def scratch(tag):
    base = os.environ.get("VF_SCRATCH") or tempfile.gettempdir()
    return tempfile.mkdtemp(prefix=f"vf-{tag}-", dir=base)


def rmtree(p):
    if p and os.path.basename(p).startswith("vf-"):
        shutil.rmtree(p, ignore_errors=True)


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w", encoding="utf-8", newline="") as f:
        f.write(text)


def read(path, default=None):
    try:
        with open(path, encoding="utf-8", errors="replace") as f:
            return f.read()
    except FileNotFoundError:
        if default is None:
            raise
        return default


class Check:
    """Bookkeeping of one property: counts, samples, violations, evidence."""

    def __init__(self, prop, rule, assumptions=()):
        self.prop, self.rule, self.assumptions = prop, rule, list(assumptions)
        self.tier = os.environ.get("VERIF_TIER", "quick")
        for a in sys.argv[1:]:
            if a in ("quick", "thorough"):
                self.tier = a
        self.t0 = time.time()
        self.evals = 0
        self.nontrivial = 0
        self.distinct = set()
        self.samples = []
        self.extra = {}
        self.violations = []
        self.nviol = 0
        self.known_hits = {}
        self.known = load_known(prop)

    @property
    def thorough(self):
        return self.tier == "thorough"

    def over(self, secs):
        return time.time() - self.t0 > secs

    def count(self, key, nontrivial=True, sample=None, n=1):
        self.evals += n
        if nontrivial:
            h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
            self.distinct.add(h)
        if sample is not None and len(self.samples) < 12:
            self.samples.append(sample)

    def violation(self, key, what, replay):
        """key: exact signature matched against known findings."""
        for k in self.known:
            if k["key"] == key:
                self.known_hits.setdefault(key, k["what"])
                return False
        with LOCK:
            self.nviol += 1
            p = os.path.join(VERIF, "replay", f"{self.prop}-{self.nviol - 1}.json")
        write(p, json.dumps({"property": self.prop, "key": key, "what": what, "seed": seed(), "replay": replay}, indent=1, default=enc_json))
        self.violations.append({"what": what[:1500], "key": key, "replay": p})
        print(f"VIOLATION property={self.prop} replay={p}", flush=True)
        print("  " + what[:1500].replace("\n", "\n  "), flush=True)
        return True

    def is_known(self, key):
        return any(k["key"] == key for k in self.known)

    def finish(self):
        for k in self.known:
            hit = k["key"] in self.known_hits
            print(f"KNOWN-FINDING: property={self.prop} {k['what']}" + ("" if hit else " (not exercised by this run)"), flush=True)
        ev = {
            "property": self.prop, "tier": self.tier, "seed": seed(), "level": "exploration",
            "coverage": dict({"evaluations": self.evals, "distinct_nontrivial": len(self.distinct), "rule": self.rule,
                              "samples": self.samples}, **self.extra),
            "wall_s": round(time.time() - self.t0, 2), "assumptions": self.assumptions,
            "violations": self.violations,
        }
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        write(os.path.join(VERIF, "evidence", f"{self.prop}.json"), json.dumps(ev, indent=1, default=enc_json) + "\n")
        print(f"{self.prop}: {self.evals} evaluations, {len(self.distinct)} distinct non-trivial, "
              f"{len(self.violations)} violations, {ev['wall_s']} s", flush=True)
        return 1 if self.violations else 0


def enc_json(x):
    if isinstance(x, bytes):
        return x.hex()
    if isinstance(x, set):
        return sorted(x)
    return repr(x)


def load_known(prop):
    """known_findings.txt: `finding: property=<id> key=<json string> <what>` / `fixed: property=... commit what`."""
    r = []
    for line in read(os.path.join(VERIF, "known_findings.txt"), "").splitlines():
        if line.startswith("finding: property="):
            rest = line[len("finding: property="):]
            p, rest = rest.split(" ", 1)
            if p != prop:
                continue
            assert rest.startswith("key=")
            key, end = json.JSONDecoder().raw_decode(rest[4:])
            r.append({"key": key, "what": rest[4 + end:].strip()})
    return r


def main(fn):
    """Runs a check: 0 held, 1 violation, 2 no verdict."""
    try:
        rc = fn()
    except Infra as e:
        print(f"ERROR (no verdict): {e}", flush=True)
        sys.exit(2)
    sys.exit(rc)


def pool(fn, items, n=None):
    """Ordered map over threads (the work is in child processes)."""
    import concurrent.futures as cf
    with cf.ThreadPoolExecutor(n or JOBS) as ex:
        return list(ex.map(fn, items))
