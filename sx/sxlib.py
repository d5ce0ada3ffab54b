"""Builds the executor and the IR of the code in /repo, runs harnesses on it, replays
counterexamples against the natively compiled code."""
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SX_REPO", "/repo")
TOOLCHAIN = "stable"


class CheckError(Exception):
    """The check itself failed (neither held nor violated)"""


def sh(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise CheckError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def _digest(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:16]


def solver_flags():
    # the newer release if it is there; its C interface is a superset of the system one
    d = "/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3/lib"
    if os.environ.get("SX_OLDZ3") != "1" and os.path.exists(os.path.join(d, "libz3.so")):
        return [os.path.join(d, "libz3.so"), "-Wl,-rpath," + d, "-Wl,--allow-shlib-undefined"]
    return ["-lz3"]


def engine():
    """Path of the executor, compiled from /verif/sx/engine if need be"""
    src = os.path.join(HERE, "engine")
    files = [os.path.join(src, f) for f in sorted(os.listdir(src))]
    out = os.path.join(VERIF, ".build")
    os.makedirs(out, exist_ok=True)
    exe = os.path.join(out, "sx-" + _digest(files))
    if os.path.exists(exe):
        return exe
    tmp = tempfile.mkdtemp(prefix="sxeng.")
    try:
        objs = []
        ps = []
        for n in ("expr", "ir", "sx"):
            o = os.path.join(tmp, n + ".o")
            objs.append(o)
            ps.append(subprocess.Popen(["g++", "-std=c++17", "-O2", "-c", os.path.join(src, n + ".cpp"), "-o", o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True))
        for p in ps:
            t, _ = p.communicate()
            if p.returncode:
                raise CheckError("the executor does not compile:\n" + t[-4000:])
        t = exe + ".%d" % os.getpid()
        sh(["g++", "-o", t] + objs + solver_flags())
        os.rename(t, exe)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return exe


CARGO_TOML = """[package]
name = "gufo_snmp"
version = "0.8.0"
edition = "{edition}"
[lib]
name = "gufo_snmp"
path = "src/lib.rs"
crate-type = ["cdylib"]
[dependencies]
{deps}
[workspace]
[profile.release]
opt-level = 1
lto = "fat"
panic = "abort"
codegen-units = 1
debug = false
[profile.dev]
opt-level = 0
debug = false
"""
# the environment of the code under test; everything else is the real crate
STAND_INS = {"aes": "aes", "des": "des", "md-5": "md-5", "sha1": "sha1", "pyo3": "pyo3", "rand": "rand", "socket2": "socket2"}


class Tree:
    """A scratch copy of the crate with the harness module added"""

    def __init__(self, harness):
        self.dir = tempfile.mkdtemp(prefix="sxtree.")
        self.harness = harness
        self.ll = None
        self._native = {}
        self.build_s = 0.0
        self._make()

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def _make(self):
        import tomllib

        d = self.dir
        shutil.copytree(os.path.join(REPO, "src"), os.path.join(d, "src"), ignore=lambda p, n: [x for x in n if x in ("gufo", "__pycache__")])
        with open(os.path.join(REPO, "Cargo.toml"), "rb") as f:
            manifest = tomllib.load(f)
        deps = []
        for name, spec in manifest.get("dependencies", {}).items():
            if name in STAND_INS:
                deps.append('"%s" = { path = "%s" }' % (name, os.path.join(HERE, "shims", STAND_INS[name])))
            elif isinstance(spec, str):
                deps.append('"%s" = "%s"' % (name, spec))
            else:
                kv = ", ".join("%s = %s" % (k, json.dumps(v)) for k, v in spec.items())
                deps.append('"%s" = { %s }' % (name, kv))
        deps.append('sxrt = { path = "%s" }' % os.path.join(HERE, "shims", "sxrt"))
        with open(os.path.join(d, "Cargo.toml"), "w") as f:
            f.write(CARGO_TOML.format(edition=manifest["package"].get("edition", "2024"), deps="\n".join(deps)))
        v = os.path.join(d, "src", "verif")
        os.makedirs(v)
        mods = ["common"] + [h[:-3] if h.endswith(".rs") else h for h in self.harness]
        with open(os.path.join(v, "mod.rs"), "w") as f:
            for m in mods:
                f.write("pub mod %s;\n" % m)
                shutil.copy(os.path.join(HERE, "harness", m + ".rs"), v)
        with open(os.path.join(d, "src", "lib.rs"), "a") as f:
            f.write("\n#[allow(warnings)]\nmod verif;\n")

    def _env(self, flags, sub):
        e = dict(os.environ)
        e["RUSTFLAGS"] = flags
        e["CARGO_NET_OFFLINE"] = "true"
        e["CARGO_TARGET_DIR"] = os.path.join(self.dir, sub)
        e["RUSTUP_TOOLCHAIN"] = TOOLCHAIN
        e.pop("CARGO_ENCODED_RUSTFLAGS", None)
        return e

    def build_ir(self):
        t0 = time.time()
        # --emit is for the last crate alone: cargo rustc; the flags for all
        flags = "-Awarnings -C no-vectorize-loops -C no-vectorize-slp --cfg sx"
        sh(["cargo", "rustc", "--offline", "--release", "--", "--emit=llvm-ir"], cwd=self.dir, env=self._env(flags, "t-ir"))
        deps = os.path.join(self.dir, "t-ir", "release", "deps")
        ll = [f for f in os.listdir(deps) if f.startswith("gufo_snmp") and f.endswith(".ll")]
        if len(ll) != 1:
            raise CheckError("expected one IR file, found %s" % ll)
        self.ll = os.path.join(deps, ll[0])
        self.build_s += time.time() - t0
        return self.ll

    def native(self, profile):
        """Shared object of the same sources for replay: 'release', 'dev' or 'asan'"""
        if profile in self._native:
            return self._native[profile]
        flags = "-Awarnings --cfg sx_native"
        cmd = ["cargo", "rustc", "--offline", "--lib"]
        env = None
        if profile == "asan":
            env = self._env(flags + " -Zsanitizer=address", "t-asan")
            env["RUSTUP_TOOLCHAIN"] = "nightly"
            cmd += ["--target", "x86_64-unknown-linux-gnu"]
        else:
            env = self._env(flags, "t-" + profile)
            if profile == "release":
                cmd.append("--release")
        if profile == "release":
            env["CARGO_PROFILE_RELEASE_PANIC"] = "unwind"
        # std's reads of the clock go to the model clock of sxrt; for the last
        # crate alone, procedural macros are linked without it
        cmd += ["--", "-C", "link-arg=-Wl,--wrap=clock_gettime"]
        sh(cmd, cwd=self.dir, env=env)
        for root, _, files in os.walk(env["CARGO_TARGET_DIR"]):
            if "libgufo_snmp.so" in files and not root.endswith("deps"):
                self._native[profile] = os.path.join(root, "libgufo_snmp.so")
                return self._native[profile]
        raise CheckError("no native library for replay")

    def replay(self, entry, args, stream_hex, profile, timeout=60):
        """-> (reproduced?, text)"""
        so = self.native(profile)
        code = (
            "import ctypes,sys\n"
            "d=bytes.fromhex(sys.stdin.read().strip())\n"
            "l=ctypes.CDLL(%r)\n"
            "a=(ctypes.c_uint64*%d)(*%r)\n"
            "l.sx_replay_load(d,ctypes.c_size_t(len(d)),a,ctypes.c_size_t(%d))\n"
            "l.%s()\n" % (so, max(1, len(args)), list(args), len(args), entry)
        )
        env = dict(os.environ)
        if profile == "asan":
            lib = subprocess.run(["rustc", "+nightly", "--print", "sysroot"], stdout=subprocess.PIPE, text=True).stdout.strip()
            env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=72"
            for root, _, files in os.walk(lib):
                for f in files:
                    if f.endswith("asan.so"):
                        env["LD_PRELOAD"] = os.path.join(root, f)
            if "LD_PRELOAD" not in env:
                out = subprocess.run(["clang", "-print-file-name=libclang_rt.asan-x86_64.so"], stdout=subprocess.PIPE, text=True).stdout.strip()
                if os.path.exists(out):
                    env["LD_PRELOAD"] = out
        try:
            p = subprocess.run([sys.executable, "-c", code], input=stream_hex, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, env=env, errors="replace")
        except subprocess.TimeoutExpired:
            return True, "does not return within %d s" % timeout
        if p.returncode == 0 or p.returncode == 77:
            return False, p.stdout[-400:]
        return True, "exit %d: %s" % (p.returncode, p.stdout.strip()[-600:])


class Job:
    def __init__(self, entry, args=(), label=None, must_reach=(), **limits):
        self.entry = entry
        self.args = list(args)
        self.label = label or "%s(%s)" % (entry, ",".join(map(str, args)))
        self.must_reach = list(must_reach)
        self.limits = limits
        self.res = None


def run_job(exe, ll, job, workdir, default_time, solver_ms, settled=None):
    out = os.path.join(workdir, "out.%s.json" % hashlib.md5(job.label.encode()).hexdigest()[:12])
    cmd = [exe, "--ll", ll, "--entry", job.entry, "--out", out]
    for a in job.args:
        cmd += ["--arg", str(a)]
    lim = {"time": default_time, "solver_ms": solver_ms, "max_viol": 4}
    lim.update(job.limits)
    for k, v in lim.items():
        cmd += ["--" + k.replace("_", "-"), str(v)]
    # once a violation is found elsewhere, the other jobs have another minute
    with tempfile.TemporaryFile("w+", errors="replace") as log:
        p = subprocess.Popen(cmd, stdout=log, stderr=subprocess.STDOUT)
        while p.poll() is None:
            try:
                p.wait(2)
            except subprocess.TimeoutExpired:
                if settled and time.time() - settled[0] > 60:
                    p.kill()
                    p.wait()
                    return None
        log.seek(0)
        p.stdout = log.read()
        if os.environ.get("SX_FORKS"):
            print(p.stdout)
    if p.returncode not in (0, 1, 2) or not os.path.exists(out):
        job.res = {k: 0 for k in ("paths", "ended_early", "pending", "instructions", "forks", "checks", "checks_symbolic", "queries", "sat", "unsat", "unknown", "cache_hits", "solver_s", "max_query_s", "wall_s")}
        job.res.update({"reached": {}, "functions": [], "violations": [], "samples": [], "exit": 2, "label": job.label, "inconclusive": "executor failed (exit %d): %s" % (p.returncode, p.stdout[-600:])})
        return job
    with open(out) as f:
        job.res = json.load(f)
    job.res["exit"] = p.returncode
    job.res["label"] = job.label
    return job


def run_jobs(tree, jobs, default_time=600, solver_ms=60000, workers=8, progress=False):
    exe = engine()
    if tree.ll is None:
        tree.build_ir()
    with ThreadPoolExecutor(workers) as ex:
        stop = []
        when = []

        def one(j):
            # the verdict is settled: spare the rest
            if len(stop) >= 40:
                return None
            if run_job(exe, tree.ll, j, tree.dir, default_time, solver_ms, when) is None:
                return None
            if j.res["violations"] and not when:
                when.append(time.time())
            stop.extend(j.res["violations"])
            return j

        futs = [ex.submit(one, j) for j in jobs]
        for f in futs:
            j = f.result()
            if j is None:
                continue
            if progress:
                r = j.res
                print("  %-44s paths %-8d %6.1fs q %-6d solver %5.1fs viol %d%s" % (j.label, r["paths"], r["wall_s"], r["queries"], r["solver_s"], len(r["violations"]), " INCONCLUSIVE " + str(r["inconclusive"]) if r["exit"] == 2 else ""), flush=True)
    return [j for j in jobs if j.res is not None]
