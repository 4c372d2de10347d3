"""C01-C04: worker pools."""
import json

H = ["pool_harness.cpp", "vsched.cpp"]


def _stats(trace):
    with open(trace) as f:
        return json.loads(f.read().splitlines()[-1])


def _schedules(c, faults, what):
    exe = c.build("pool", H, ["parallel"])
    q = c.quick
    plan = []
    for w in (2, 3) if q else (2, 3, 4, 5):
        plan += [("dev", w, 6000 if q else 60000), ("rand", w, 6000 if q else 60000),
                 ("pct", w, 6000 if q else 60000)]
    plan.append(("free", 4, 150 if q else 1500))
    plan += [("bigrand", 3, 27 if q else 90), ("bigfree", 8, 18 if q else 60)]
    runs = {}

    def one(mode, w, n):
        def f():
            t = c.run_impl(exe, [mode, w, faults, n, c.seed], "t-%s-%d" % (mode, w),
                           timeout=200 if q else 700, what=what)
            if t is None:       # not controllable: real threads only
                t = c.run_impl(exe, ["free", w, faults, 400 if q else 4000, c.seed],
                               "tf-%s-%d" % (mode, w), timeout=400, what=what)
            s = _stats(t)
            runs["%s/%d workers" % (mode, w)] = {k: v for k, v in s.items() if k != "e"}
            if mode == "rand" and w == 2:
                c.sample(t, 12)
            c.trace("pool/PoolTrace.tla", "PoolTrace.cfg", t, what, episodes=s["distinct"])
        return f
    jobs = [one(*p) for p in plan]
    return jobs, runs


def _bugs(c, names):
    return [(lambda n=n, e=e: c.model("pool/ThreadPool.tla", "Bug_%s.cfg" % n, expect=e, workers="2"))
            for n, e in names]


def _pool(c, faults, quick_cfg, deep, bugs, what):
    jobs, runs = _schedules(c, faults, what)
    jobs.append(lambda: c.model("pool/ThreadPool.tla", quick_cfg))
    if not c.quick:
        for d in deep:
            jobs.append(lambda d=d: c.model("pool/ThreadPool.tla", d, timeout=850, heap="8g"))
    jobs += _bugs(c, bugs)
    c.parallel(jobs, 6)
    c.extra["schedules_run"] = runs
    c.extra["schedules_total"] = sum(r["runs"] for r in runs.values())
    c.assumptions += [
        "threads are switched only at pthread synchronisation operations, thread start/end "
        "and inside tasks (sequentially consistent memory between them)",
        "one caller at a time uses a pool (the documented use)"]


def C01(c):
    _pool(c, 0, "ThreadPool_plain.cfg", ["ThreadPool_deep.cfg", "ThreadPool_deep2.cfg"],
          [("ifInsteadOfWhile", "violated"), ("doneBeforeResult", "ResultsInOrder is violated"),
           ("wrongSlot", "violated")], "thread pool batches")


def C02(c):
    _pool(c, 1, "ThreadPool_quick.cfg", ["ThreadPool_deep.cfg"],
          [("noDoneOnFailure", "BatchTerminates was violated")], "thread pool with failing tasks")


def C03(c):
    _pool(c, 0, "ThreadPool_quick.cfg", ["ThreadPool_deep.cfg"],
          [("lostInterrupt", "DestroyTerminates was violated"),
           ("stopSkipsOne", "DestroyTerminates was violated"),
           ("noJoin", "NoWorkerAfterDestroy is violated")], "thread pool shutdown")


def C04(c):
    exe = c.build("pool", H, ["parallel"])
    for mode in ("seq", "best"):
        t = c.run_impl(exe, [mode, 2, 0, 0, c.seed], "t-" + mode, timeout=200,
                       what="worker pool factory / sequential pool")
        c.sample(t, 6, 30)
        c.trace("pool/SeqPoolTrace.tla", "SeqPoolTrace.cfg", t,
                "sequential pool" if mode == "seq" else "best pool of the factory",
                episodes=_stats(t)["distinct"])
