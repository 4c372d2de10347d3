"""C08-C13: the genetic algorithm."""

BUGS = {"C08": ["staleCache"], "C09": ["bestOfGeneration"], "C10": ["invalidMutant", "invalidStart"],
        "C11": ["worstElite", "twoPoints"], "C12": ["lateStop"], "C13": []}


def ga_traces(c, prop, files, scenarios):
    exe = c.build("ga", ["ga_harness.cpp"], ["common", "parallel", "optimization"])

    def one(k):
        def f():
            t = c.run_impl(exe, [scenarios, c.seed * 1000 + k], "t-ga-%d" % k, timeout=80,
                           what="genetic algorithm")
            with open(t) as fh:
                runs = sum(1 for x in fh if x.startswith('{"e":"Run"'))
            if k == 0:
                c.sample(t, 8, 40)
            c.trace("ga/GaTrace.tla", "GaTrace_%s.cfg" % prop, t, "runs of the genetic algorithm", episodes=runs)
        return f
    return [one(k) for k in range(files)]


def _ga(c, prop):
    jobs = ga_traces(c, prop, 4 if c.quick else 40, 150 if c.quick else 400)
    if c.quick:
        jobs += [lambda: c.model("ga/Ga.tla", "Ga_quick.cfg", workers="2")]
    else:
        jobs += [lambda n=n: c.model("ga/Ga.tla", n + ".cfg", timeout=850)
                 for n in ("Ga_quick", "Ga_quick2", "Ga_deep", "Ga_deep2", "Ga_deep3")]
    jobs += [lambda n=n: c.model("ga/Ga.tla", "Bug_%s.cfg" % n, expect="violated", workers="1") for n in BUGS[prop]]
    c.parallel(jobs, 6)
    c.assumptions += ["objective values are small non-negative integers (the algorithm refuses negative ones), so sums and averages are exact",
                      "the library's use of rand() is served by a seeded generator of the harness"]


def C08(c): _ga(c, "C08")
def C09(c): _ga(c, "C09")
def C10(c): _ga(c, "C10")
def C11(c): _ga(c, "C11")
def C12(c): _ga(c, "C12")
def C13(c): _ga(c, "C13")


def C35(c):
    jobs = ga_traces(c, "C35", 3 if c.quick else 20, 120 if c.quick else 400)
    exe = c.build("select", ["select_harness.cpp"], ["common", "parallel", "optimization"])

    def one(k):
        def f():
            t = c.run_impl(exe, [1500 if c.quick else 4000, c.seed * 100 + k], "t-select-%d" % k, timeout=200,
                           what="repeated breeding")
            c.trace("ga/SelectionTrace.tla", "SelectionTrace.cfg", t, "repeated breeding", episodes=5)
        return f
    jobs += [one(k) for k in range(8 if c.quick else 40)]
    jobs += [lambda: c.model("ga/Selection.tla", "Selection_quick.cfg" if c.quick else "Selection_deep.cfg", workers="2", timeout=800)]
    jobs += [lambda n=n: c.model("ga/Selection.tla", "BugS_%s.cfg" % n, expect="violated", workers="1")
             for n in ("skipsFirst", "uniform", "secondUncounted", "rejectedUncounted", "notReset")]
    c.parallel(jobs, 6)
    c.assumptions += ["frequencies are judged at six standard deviations, from a seeded generator behind rand()",
                      "objective values are small integers, or such integers times a constant"]
