"""C18: pattern search; C19: simplex method; C28: guarded evaluation and annealing."""


def _run(c, mode, spec, cfg, n, k, what):
    exe = c.build("local", ["local_harness.cpp"], ["common", "parallel", "optimization"])

    def f():
        t = c.run_impl(exe, [mode, n, c.seed * 1000 + k], "t-%s-%d" % (mode, k), timeout=300, what=what)
        if k == 0:
            c.sample(t, 4, 20)
        with open(t) as fh:
            e = sum(1 for x in fh if '"Eval"' not in x)
        c.trace("local/%s.tla" % spec, cfg + ".cfg", t, what, episodes=e)
    return f


def _models(c, module, good, bugs, prefix, timeout=850):
    jobs = [lambda g=g: c.model("local/%s.tla" % module, g + ".cfg", timeout=timeout) for g in good]
    return jobs + [lambda b=b: c.model("local/%s.tla" % module, "%s_%s.cfg" % (prefix, b), expect="violated", workers="1") for b in bugs]


def C18(c):
    good = ["Hooke_quick", "Hooke_quick2"] if c.quick else ["Hooke_deep", "Hooke_deep2", "Hooke_quick"]
    jobs = _models(c, "HookeJeeves", good, ("onlyForward", "stopsEarly", "acceptsWorse"), "BugHooke")
    jobs += [_run(c, "hj", "LocalTrace", "LocalTrace_C18", 4000 if c.quick else 20000, k, "pattern search") for k in range(2 if c.quick else 16)]
    c.parallel(jobs, 6)
    c.assumptions += ["objective functions are integer-valued on a grid of 1/64; runs of over 20000 evaluations are broken off"]


def C19(c):
    good = ["Nelder_quick", "Nelder_quick2"] if c.quick else ["Nelder_deep", "Nelder_deep2"]
    jobs = _models(c, "NelderMead", good, ("returnsWorst", "staleReduction", "noProjection", "alwaysExpands"), "BugNelder")
    jobs += [_run(c, "nm", "LocalTrace", "LocalTrace_C19", 1500 if c.quick else 8000, k, "simplex method") for k in range(2 if c.quick else 16)]
    jobs += [_run(c, "nm1", "NmTrace", "NmTrace", 400 if c.quick else 900, k, "simplex method in one dimension") for k in range(2 if c.quick else 16)]
    c.parallel(jobs, 6)
    c.assumptions += ["objective functions are integer-valued on a grid of 1/64; the starting point lies inside the bounds"]


def C37(c):
    good = ["Pattern_quick", "Pattern_quick2"] if c.quick else ["Pattern_deep", "Pattern_deep2", "Pattern_deep3"]
    jobs = _models(c, "PatternSearch", good, ("leapsBack", "acceptsEqual", "oldBase", "keepsStep", "oneMore", "onlyForward"), "BugPattern")
    jobs += [_run(c, "hjm", "HjTrace", "HjTrace", 500 if c.quick else 600, k, "moves of the pattern search") for k in range(2 if c.quick else 24)]
    c.parallel(jobs, 6)
    c.assumptions += ["objective functions are integer-valued on a grid of 1/64, steps and leaps stay on it; runs of over 250 evaluations are broken off"]


def C38(c):
    good = ["Simplex2_quick", "Simplex2_quick2"] if c.quick else ["Simplex2_deep", "Simplex2_deep2", "Simplex2_quick"]
    jobs = _models(c, "Simplex2", good, ("staleReduction", "noProjection", "returnsWorst", "alwaysExpands", "towardsWorst", "replacesBest"), "BugSimplex2")
    jobs += [_run(c, "nmn", "NmMoves", "NmMoves", 600 if c.quick else 700, k, "moves of the simplex method") for k in range(2 if c.quick else 24)]
    c.parallel(jobs, 6)
    c.assumptions += ["two to four dimensions; objective functions are integer-valued, points are rounded to 1/4096; runs of over 120 evaluations are broken off"]


def C28(c):
    good = ["Anneal_quick", "Anneal_quick2"] if c.quick else ["Anneal_deep", "Anneal_deep2", "Anneal_deep3"]
    jobs = _models(c, "Anneal", good, ("evaluatesAnyway", "silent", "ignoresDirection"), "BugAnneal")
    jobs += [_run(c, "guard", "LocalTrace", "LocalTrace_C28", 3000 if c.quick else 10000, k, "guarded evaluation") for k in range(3 if c.quick else 24)]
    c.parallel(jobs, 6)
    c.assumptions += ["objective values are integers up to 1e9, and NaN is out of scope; the random source is rand(), replaced by a seeded generator of the same range"]


def C34(c):
    good = ["Anneal_quick", "Anneal_quick2"] if c.quick else ["Anneal_deep", "Anneal_deep2", "Anneal_deep3"]
    jobs = _models(c, "Anneal", good, ("beyondBounds", "ignoresDirection", "losesBetter", "alwaysHot", "returnsLast"), "BugAnneal")
    jobs += [_run(c, "guard", "LocalTrace", "LocalTrace_C34", 3000 if c.quick else 10000, k, "guarded annealing") for k in range(1 if c.quick else 8)]
    jobs += [_run(c, "anneal", "AnnealTrace", "AnnealTrace", 1000 if c.quick else 1400, k, "annealing walk") for k in range(2 if c.quick else 24)]
    jobs += [_run(c, "leave", "LocalTrace", "LocalTrace_C34", 20000, k, "annealing acceptance") for k in range(2 if c.quick else 20)]
    c.parallel(jobs, 6)
    c.assumptions += ["the random source is rand(), replaced by a seeded generator of the same range; objective values are integers up to 1e9, and NaN is out of scope"]


def _descent(c, mode, spec, n, k, what):
    exe = c.build("descent", ["descent_harness.cpp"], ["common", "parallel", "optimization"])

    def f():
        t = c.run_impl(exe, [mode, n, c.seed * 1000 + k], "t-%s-%d" % (mode, k), timeout=300, what=what)
        if k == 0:
            c.sample(t, 4, 20)
        c.trace("descent/%s.tla" % spec, spec + ".cfg", t, what, episodes=n)
    return f


def C32(c):
    jobs = [lambda g=g: c.model("descent/Descent.tla", g + ".cfg", timeout=850) for g in (["Descent_quick", "Descent_quick2"] if c.quick else ["Descent_deep", "Descent_deep2"])]
    jobs += [lambda b=b: c.model("descent/Descent.tla", "DescentBug_%s.cfg" % b, expect="violated", workers="1") for b in ("uphill", "coarse", "noCheckAtStart", "oneMore", "returnsPrevious")]
    jobs += [_descent(c, "gradient", "DescentTrace", 4000 if c.quick else 20000, k, "gradient methods") for k in range(3 if c.quick else 20)]
    c.parallel(jobs, 6)
    c.assumptions += ["the objective is a strictly convex polynomial of degree two or (steepest descent) four, of up to four variables; whether a gradient is within the precision, a step leads down the gradient and ends where the gradient is across it is decided by the harness with the exact gradient, allowing for rounding and for the precision of the line search"]


def C33(c):
    jobs = [lambda g=g: c.model("descent/Rosenbrock.tla", g + ".cfg", timeout=850) for g in (["Rosenbrock_quick", "Rosenbrock_quick2"] if c.quick else ["Rosenbrock_deep", "Rosenbrock_deep2", "Rosenbrock_quick"])]
    jobs += [lambda b=b: c.model("descent/Rosenbrock.tla", "RosenbrockBug_%s.cfg" % b, expect="violated", workers="1") for b in ("acceptsEqual", "noCap", "keepsFailed", "onlyGrows", "stopsEarly", "stays", "oneMore")]
    for mode in ("sweeps", "line"):
        jobs += [_descent(c, mode, "RosenbrockTrace", 4000, k, "Rosenbrock sweeps" if mode == "sweeps" else "Rosenbrock method on a line") for k in range(2 if c.quick else 20)]
    c.parallel(jobs, 6)
    c.assumptions += ["up to three coordinates; displacements are compared in units of 1/4096, on a line exactly; a sweep is what a run with one sweep more evaluates and returns"]
