"""C20: the random source; C21: mutation schedules."""
from checks.ga import ga_traces


def _run(c, mode, spec, n, k):
    exe = c.build("random", ["random_harness.cpp"], ["common", "parallel", "optimization"])

    def f():
        t = c.run_impl(exe, [mode, n, c.seed * 1000 + k], "t-%s-%d" % (mode, k), timeout=200, what=mode)
        if k == 0:
            c.sample(t, 3, 5)
            c.sample(t, 3, 205)
        with open(t) as fh:
            e = sum(1 for x in fh)
        c.trace("random/%s.tla" % spec, spec + ".cfg", t, mode, episodes=e)
    return f


def C20(c):
    jobs = [_run(c, "random", "RandomTrace", 200 if c.quick else 1500, k) for k in range(2 if c.quick else 12)]
    jobs += [lambda: c.model("random/Draws.tla", "Draws_quick.cfg" if c.quick else "Draws_deep.cfg", workers="2"),
             lambda: c.model("random/Bits.tla", "Bits_quick.cfg" if c.quick else "Bits_deep.cfg", workers="1")]
    jobs += [lambda n=n: c.model("random/%s.tla" % n[0], "Bug_%s.cfg" % n[1], expect="violated|equal to FALSE", workers="1")
             for n in (("Draws", "excludesMax"), ("Draws", "beyondMax"), ("Draws", "zeroHappens"), ("Bits", "reusesBits"))]
    c.parallel(jobs, 6)
    c.assumptions += ["the generator is rand(), replaced by a scripted one that plays its whole output range: both ends with 700 neighbours, all single bits, an even spread"]


def C21(c):
    jobs = [_run(c, "mutators", "MutTrace", 300 if c.quick else 1500, k) for k in range(2 if c.quick else 12)]
    jobs += ga_traces(c, "C21", 2 if c.quick else 20, 150 if c.quick else 400)
    jobs += [lambda: c.model("random/Mutators.tla", "Mutators_quick.cfg", workers="2")]
    jobs += [lambda n=n: c.model("random/Mutators.tla", "MutBug_%s.cfg" % n, expect="violated|equal to FALSE", workers="1")
             for n in ("longGap", "fullDivisor")]
    c.parallel(jobs, 6)
