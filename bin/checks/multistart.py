"""C17: multi-start search."""


def C17(c):
    exe = c.build("multistart", ["multistart_harness.cpp", "vsched.cpp"], ["common", "parallel", "optimization"])

    def one(mode, n, k):
        def f():
            what = "random search (%s)" % mode
            t = c.run_impl(exe, [mode, n, c.seed * 100 + k], "t-ms-%s-%d" % (mode, k), timeout=300, what=what)
            if t is None:
                t = c.run_impl(exe, ["real", n, c.seed * 100 + k], "tf-ms-%s-%d" % (mode, k), timeout=300, what=what)
            with open(t) as fh:
                s = sum(1 for x in fh if '"e":"Search"' in x)
            if mode == "threads" and k == 0:
                c.sample(t, 10, 40)
            c.trace("multistart/MultiTrace.tla", "MultiTrace.cfg", t, what, episodes=s)
        return f
    plan = [("seq", 1500, 1), ("threads", 2500, 2), ("real", 400, 1)] if c.quick else \
        [("seq", 3000, 4), ("threads", 3500, 40), ("real", 2000, 4)]
    jobs = [one(m, n, k) for m, n, files in plan for k in range(files)]
    jobs += [lambda: c.model("multistart/MultiStart.tla", "MultiStart_quick.cfg" if c.quick else "MultiStart_deep.cfg", timeout=850)]
    jobs += [lambda n=n: c.model("multistart/MultiStart.tla", "Bug_%s.cfg" % n, expect="violated", workers="1")
             for n in ("sharedParameters", "ignoresDirection", "doesNotWait", "skipsLast")]
    c.parallel(jobs, 6)
    c.assumptions += ["objective values are integers (ties are frequent); not-a-number objectives are out of scope"]


def C39(c):
    exe = c.build("grid", ["grid_harness.cpp", "vsched.cpp"], ["common", "parallel", "optimization"])

    def one(n, k):
        def f():
            t = c.run_impl(exe, [n, c.seed * 100 + k], "t-grid-%d" % k, timeout=300, what="grid search")
            with open(t) as fh:
                s = sum(1 for x in fh)
            if k == 0:
                c.sample(t, 5, 10)
            c.trace("multistart/GridTrace.tla", "GridTrace.cfg", t, "grid searches", episodes=s)
        return f
    jobs = [one(700 if c.quick else 3000, k) for k in range(2 if c.quick else 30)]
    jobs += [lambda: c.model("multistart/GridSearch.tla", "Grid_quick.cfg" if c.quick else "Grid_deep.cfg", timeout=850)]
    jobs += [lambda n=n: c.model("multistart/GridSearch.tla", "GridBug_%s.cfg" % n, expect="violated", workers="1")
             for n in ("lastMissing", "oneAxis", "turned")]
    c.parallel(jobs, 6)
    c.assumptions += ["bounds and steps are multiples of a power of two, so that the grid is decided exactly; objective values are integers (ties are frequent)"]
