"""Shared machinery of the checks: builds /repo's working tree together with a
harness, runs TLC on specifications, validates recorded traces, writes evidence.

Outcome of a check: exit 0 (held), exit 1 with a VIOLATION line, anything else
is an error of the check itself."""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import re
import resource
import shutil
import subprocess
import sys
import threading
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("K52_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA_CP = ("/opt/veriftools/tla/tla2tools.jar:"
          "/opt/veriftools/tla/CommunityModules-deps.jar")
BASE_DEFS = ["-DBUILD_WITH_BOOST_THREAD", "-DBUILD_WITH_FFTW3",
             "-DBUILD_WITH_BOOST_UNIT_TESTS", "-D_USE_MATH_DEFINES"]
CXXFLAGS = ["-O1", "-g1", "-w", "-std=gnu++17"]
LIBS = ["-lboost_thread", "-lboost_system", "-lboost_date_time",
        "-lboost_chrono", "-lfftw3", "-lpthread", "-lrt", "-ldl"]


class CheckError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def sh(cmd, timeout=600, cwd=None, env=None, mem_gb=None, stdin=None):
    def pre():
        os.setsid()
        if mem_gb:
            b = int(mem_gb * (1 << 30))
            resource.setrlimit(resource.RLIMIT_AS, (b, b))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         stdin=subprocess.DEVNULL, cwd=cwd, env=env, preexec_fn=pre)
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out.decode("utf-8", "replace"), False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, 9)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
        return -9, out.decode("utf-8", "replace"), True


def _digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in sorted(paths):
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()[:24]


def repo_headers():
    r = []
    for root in ("include", "src"):
        for d, _, fs in os.walk(os.path.join(REPO, root)):
            if "unit_tests" in d:
                continue
            r += [os.path.join(d, f) for f in fs if not f.endswith((".cpp", ".txt"))]
    return r


def repo_sources(areas):
    """All library sources of the given areas (common, parallel, dsp, optimization);
    'parallel' leaves the MPI sources out, 'mpi' is exactly them."""
    r = []
    for a in areas:
        if a == "mpi":
            r += glob.glob(os.path.join(REPO, "src/parallel/mpi/*.cpp"))
            continue
        for d, _, fs in os.walk(os.path.join(REPO, "src", a)):
            if a == "parallel" and "/mpi" in d:
                continue
            r += [os.path.join(d, f) for f in fs if f.endswith(".cpp")]
    return sorted(r)


class Check:
    def __init__(self, prop, level="model_checking"):
        self.prop = prop
        self.level = level
        self.tier = os.environ.get("VERIF_TIER", "quick")
        if self.tier not in ("quick", "thorough"):
            self.tier = "quick"
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.states = 0
        self.transitions = 0
        self.traces = 0
        self.events = 0
        self.samples = []
        self.extra = {}
        self.models = []
        self.assumptions = []
        self.violations = 0
        self.known = self._load_known()
        self.lock = threading.Lock()
        self.scratch = os.path.join(BUILD, "run-%s-%d" % (prop, os.getpid()))
        shutil.rmtree(self.scratch, ignore_errors=True)
        os.makedirs(self.scratch)

    quick = property(lambda s: s.tier == "quick")

    def _load_known(self):
        r = []
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line)
                if m and m.group(1) == self.prop:
                    r.append((m.group(2), m.group(3).strip()))
        return r

    # ---- building -------------------------------------------------------
    def build(self, name, harness, areas, defs=(), incs=(), flags=(), libs=(),
              exclude=(), drop_base=()):
        """Compile /repo's current sources of `areas` with the harness sources."""
        os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
        base = [d for d in BASE_DEFS if d not in drop_base]
        common = CXXFLAGS + list(flags) + base + list(defs)
        inc = ["-I" + i for i in incs] + ["-I" + os.path.join(REPO, "include"),
                                          "-I" + os.path.join(REPO, "src"),
                                          "-I" + HARNESS]
        hdr = repo_headers() + glob.glob(HARNESS + "/*.h") + \
            [f for i in incs for f in glob.glob(i + "/**/*", recursive=True) if os.path.isfile(f)]
        hkey = _digest(hdr, " ".join(common + inc))
        srcs = [s for s in repo_sources(areas) if os.path.basename(s) not in exclude]
        srcs += [os.path.join(HARNESS, h) for h in harness]
        jobs = []
        for s in srcs:
            o = os.path.join(BUILD, "obj", _digest([s], hkey + s) + ".o")
            jobs.append((s, o))

        def one(j):
            s, o = j
            if os.path.exists(o):
                return None
            tmp = "%s.%d.tmp" % (o, os.getpid())
            rc, out, to = sh(["g++"] + common + inc + ["-c", s, "-o", tmp], timeout=600)
            if rc != 0:
                return "compiling %s failed:\n%s" % (s, out[-3000:])
            os.rename(tmp, o)
            return None
        with cf.ThreadPoolExecutor(max_workers=8) as ex:
            for e in ex.map(one, jobs):
                if e:
                    raise CheckError(e)
        exe = os.path.join(self.scratch, name)
        rc, out, _ = sh(["g++", "-o", exe] + [o for _, o in jobs] + list(flags) +
                        list(libs) + LIBS, timeout=300)
        if rc != 0:
            raise CheckError("linking %s failed:\n%s" % (name, out[-3000:]))
        return exe

    # ---- running the implementation -------------------------------------
    def run_impl(self, exe, args, out_name, timeout=240, env=None, what=""):
        """Run a harness that writes its ndjson trace to a file. A crash or a hang of
        the code under test that repeats is a violation."""
        trace = os.path.join(self.scratch, out_name)
        e = dict(os.environ)
        e.update(env or {})
        for attempt in (1, 2):
            wd = os.path.join(self.scratch, "wd-" + out_name)
            shutil.rmtree(wd, ignore_errors=True)
            os.makedirs(wd)
            if os.path.exists(trace):
                os.remove(trace)
            rc, out, to = sh([exe, trace] + [str(a) for a in args], timeout=timeout,
                             cwd=wd, env=e)
            if rc == 0:
                return trace
            if rc == 78:        # a primitive the scheduler cannot control is in use
                return None
            if rc == 77:
                raise CheckError("harness %s %s gave up: %s" % (exe, args, out[-2000:]))
        last = ""
        if os.path.exists(trace):
            with open(trace, errors="replace") as f:
                ls = f.read().splitlines()
            last = "\n".join(ls[-5:])
        self.violation("%s: the code under test %s in harness %s %s; last events:\n%s\n%s" % (
            what or out_name, "does not finish" if to else "crashed (status %d)" % rc,
            os.path.basename(exe), args, last, out[-1500:]), [trace])

    # ---- TLC ------------------------------------------------------------
    def _tlc(self, module, cfg, env=None, workers="1", timeout=600, heap="3g", extra=()):
        meta = os.path.join(self.scratch, "meta-%s-%d" % (
            os.path.basename(cfg), threading.get_ident()))
        e = dict(os.environ)
        e.update(env or {})
        d = os.path.dirname(module)
        gc = "-XX:+UseSerialGC" if workers == "1" else "-XX:+UseParallelGC"
        rc, out, to = sh(["java", gc, "-Xmx" + heap, "-Xss16m",
                          "-Dtlc2.tool.impl.Tool.cdot=true",
                          "-DTLA-Library=" + SPEC + "/lib", "-cp", TLA_CP, "tlc2.TLC",
                          "-config", cfg, "-metadir", meta, "-workers", workers,
                          "-noGenerateSpecTE", *extra, os.path.basename(module)],
                         timeout=timeout, cwd=d, env=e)
        shutil.rmtree(meta, ignore_errors=True)
        if to:
            raise CheckError("TLC timed out on %s %s" % (module, cfg))
        r = {"rc": rc, "out": out, "gen": 0, "distinct": 0, "depth": 0}
        m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
        if m:
            r["gen"] = int(m[-1][0].replace(",", ""))
            r["distinct"] = int(m[-1][1].replace(",", ""))
        m = re.search(r"depth of the complete state graph search is (\d+)", out)
        if m:
            r["depth"] = int(m.group(1))
        return r

    def model(self, module, cfg, workers="4", timeout=600, heap="4g", expect=None, extra=()):
        """Model-check the design. expect=None: must hold. expect='<name>': a negative
        control: the named property must be reported violated (the specification with
        a deliberately wrong action), which shows the property is not vacuous."""
        path = os.path.join(SPEC, module)
        t = time.time()
        r = self._tlc(path, os.path.join(os.path.dirname(path), cfg), workers=workers,
                      timeout=timeout, heap=heap, extra=extra)
        if expect is None:
            if r["rc"] != 0:
                raise CheckError("specification %s %s: TLC reports\n%s" % (module, cfg, r["out"][-4000:]))
        else:
            if r["rc"] == 0 or not re.search(expect, r["out"]):
                raise CheckError("negative control %s %s not refuted as expected\n%s" % (
                    module, cfg, r["out"][-3000:]))
        with self.lock:
            if expect is None:
                self.states += r["distinct"]
                self.transitions += r["gen"]
            self.models.append({"spec": module, "cfg": cfg, "distinct_states": r["distinct"],
                                "transitions": r["gen"], "depth": r["depth"],
                                "negative_control": bool(expect), "wall_s": round(time.time() - t, 1)})
        return r

    def trace(self, module, cfg, trace, what, episodes=None, timeout=800, heap="6g"):
        """Validate a recorded ndjson trace against a trace specification. The trace is
        accepted iff TLC can consume every line (POSTCONDITION TraceAccepted)."""
        path = os.path.join(SPEC, module)
        n = 0
        with open(trace) as f:
            lines = [x for x in f if x.strip()]
        n = len(lines)
        if n == 0:
            raise CheckError("empty trace " + trace)
        cfgp = os.path.join(os.path.dirname(path), cfg)
        for attempt in (1, 2):
            r = self._tlc(path, cfgp, env={"TRACE": trace}, timeout=timeout, heap=heap)
            if r["rc"] == 0:
                with self.lock:
                    self.traces += episodes if episodes is not None else 1
                    self.events += n
                    self.states += r["distinct"]
                    self.transitions += r["gen"]
                return True
            if "STUCK" in r["out"] or "is violated" in r["out"]:
                continue
            raise CheckError("TLC failed on trace %s of %s:\n%s" % (trace, module, r["out"][-4000:]))
        m = re.search(r"STUCK\D+(\d+)", r["out"])
        k = int(m.group(1)) if m else -1
        ctx = "".join("   %s%s\n" % ("=> " if i == k else "   ", lines[i].rstrip()[:600])
                      for i in range(max(0, k - 8), min(n, k + 2)))
        self.violation("%s: recorded behaviour of the code is not allowed by %s; the "
                       "marked event cannot be explained (event %d of %d):\n%s" %
                       (what, module, k + 1, n, ctx), [trace])

    def parallel(self, jobs, workers=4):
        """Run thunks in parallel; the first exception wins."""
        with cf.ThreadPoolExecutor(max_workers=workers) as ex:
            fs = [ex.submit(j) for j in jobs]
            err = None
            for f in fs:
                try:
                    f.result()
                except BaseException as e:
                    if err is None or isinstance(e, Violation):
                        err = e if err is None or not isinstance(err, Violation) else err
            if err is not None:
                raise err

    # ---- outcomes -------------------------------------------------------
    def violation(self, msg, files=()):
        raise Violation(msg, files)

    def sample(self, trace, n=6, start=0):
        with open(trace) as f:
            for i, line in enumerate(f):
                if i >= start + n:
                    break
                if i >= start:
                    self.samples.append(json.loads(line))

    def write_evidence(self):
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov = {"states": self.states, "transitions": self.transitions,
               "traces_validated_against_impl": self.traces,
               "trace_events": self.events, "samples": self.samples[:12],
               "models": self.models}
        cov.update(self.extra)
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed,
              "level": self.level, "coverage": cov, "assumptions": self.assumptions,
              "wall_s": round(time.time() - self.t0, 2), "violations": self.violations}
        p = os.path.join(VERIF, "evidence", self.prop + ".json")
        with open(p + ".tmp", "w") as f:
            json.dump(ev, f, indent=1)
        os.rename(p + ".tmp", p)


class Violation(Exception):
    def __init__(self, msg, files=()):
        Exception.__init__(self, msg)
        self.files = list(files)


def main(prop, fn, level="model_checking"):
    c = Check(prop, level)
    rc = 2
    try:
        try:
            fn(c)
            rc = 0
        except Violation as v:
            c.violations = 1
            d = os.path.join(VERIF, "replays", prop)
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            for f in v.files:
                if f and os.path.exists(f):
                    shutil.copy(f, d)
            with open(os.path.join(d, "violation.txt"), "w") as f:
                f.write(str(v) + "\n")
            log(str(v))
            log("VIOLATION property=%s replay=%s" % (prop, os.path.join(d, "violation.txt")))
            rc = 1
        if rc == 0:
            for _, text in c.known:
                pass
        c.write_evidence()
        if rc == 0:
            log("OK property=%s tier=%s states=%d transitions=%d traces=%d events=%d wall=%.1fs" % (
                prop, c.tier, c.states, c.transitions, c.traces, c.events, time.time() - c.t0))
    except CheckError as e:
        log("CHECK-ERROR property=%s: %s" % (prop, e))
        rc = 2
    finally:
        shutil.rmtree(c.scratch, ignore_errors=True)
    sys.stdout.flush()
    os._exit(rc)
