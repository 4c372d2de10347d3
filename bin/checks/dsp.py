"""C23 splines, C24 scales, C25 exact transforms, C27 concurrent FFTs, C31 wavelet transformation, C36 wavelet functions."""
BUG = r"violated|equal to FALSE|is false"
ASAN = ["-fsanitize=address", "-fno-omit-frame-pointer"]


def bugs(c, spec, prefix, names):
    return [lambda n=n: c.model("dsp/" + spec, prefix + n + ".cfg", expect=BUG, workers="1") for n in names.split()]


def traces(c, exe, what, spec, argses, count, start=0):
    def one(k, args):
        def f():
            t = c.run_impl(exe, args, "t-%s-%d" % (what.split()[0], k), timeout=180, what=what,
                           env={"ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1"})
            if t is None:
                return
            if k == 0:
                c.sample(t, 5, start)
            with open(t) as fh:
                n = sum(1 for x in fh if any('"e":"%s"' % e in x for e in count))
            c.trace("dsp/" + spec + ".tla", spec + ".cfg", t, what, episodes=n)
        return f
    return [one(k, a) for k, a in enumerate(argses)]


def C23(c):
    exe = c.build("spline", ["spline_harness.cpp"], ["common", "dsp"], flags=ASAN)
    n = 800 if c.quick else 1500
    jobs = traces(c, exe, "spline histories", "SplineTrace", [[n, c.seed * 1000 + k] for k in range(3 if c.quick else 40)], ["Value", "Wavelet", "Between"], 10)
    jobs += [lambda: c.model("dsp/Spline.tla", "Spline_quick.cfg" if c.quick else "Spline_deep.cfg", timeout=850)]
    jobs += bugs(c, "Spline.tla", "SplineBug_", "nanReadsBefore lastKnotMissing nextInterval")
    c.parallel(jobs, 6)
    c.assumptions += ["knots are integers for exact values between knots; arbitrary doubles for the values at knots, straight lines and the interval of definition",
                      "the interpolated values between knots follow Akima's published formulas (average of the neighbouring slopes where the weights vanish)"]


def C24(c):
    exe = c.build("cwt", ["cwt_harness.cpp"], ["common", "dsp"], flags=ASAN)
    n = 2000 if c.quick else 4000
    jobs = traces(c, exe, "scales", "CwtTrace", [["scale", n, c.seed * 1000 + k] for k in range(3 if c.quick else 24)], ["Linear", "Log", "Wide"])
    jobs += [lambda: c.model("dsp/Scale.tla", "Scale_quick.cfg" if c.quick else "Scale_deep.cfg", timeout=850)]
    jobs += bugs(c, "Scale.tla", "ScaleBug_", "oneEntry oneShort startsLate")
    c.parallel(jobs, 6)
    c.assumptions += ["limits of linear scales are multiples of 1/64 (judged by the exact formula), or arbitrary (by the distance from an even spacing, to 2^-40)"]


def C25(c):
    exe = c.build("transform", ["transform_harness.cpp"], ["common", "dsp"], flags=ASAN)
    n = 1000 if c.quick else 2000
    jobs = traces(c, exe, "transforms", "TransformTrace", [[n, c.seed * 1000 + k] for k in range(3 if c.quick else 30)], ["Conv", "Dft", "Laws", "Refuse"])
    for m in (["quick", "quick2", "quick3"] if c.quick else ["quick", "quick2", "quick3", "deep", "deep5"]):
        jobs.append(lambda m=m: c.model("dsp/Transforms.tla", "Transforms_%s.cfg" % m, timeout=850))
    jobs += bugs(c, "Transforms.tla", "TransBug_", "correlation wrapsShort lastTermMissing noConjugate")
    c.parallel(jobs, 6)
    c.assumptions += ["signals are Gaussian integers; lengths up to 16 are judged against the defining sums (with cosines to six digits), lengths up to 128 by laws of the transform and by agreement of its implementations",
                      "results are compared to six digits; direct convolution exactly"]


def C27(c):
    exe = c.build("fft", ["fft_harness.cpp", "vsched.cpp"], ["common", "dsp"])
    q = c.quick
    s = c.seed * 1000
    a = [["dfs", 1200 if q else 4000, s + k] for k in range(1 if q else 12)]
    a += [["random", 250 if q else 400, s + 100 + k] for k in range(2 if q else 24)]
    a += [["real", 150 if q else 300, s + 200 + k] for k in range(1 if q else 12)]
    jobs = traces(c, exe, "concurrent transforms", "FftTrace", a, ["Start"], 20)
    for m in (["quick"] if q else ["quick", "deep", "deep4"]):
        jobs.append(lambda m=m: c.model("dsp/FftLife.tla", "FftLife_%s.cfg" % m, timeout=850))
    jobs += bugs(c, "FftLife.tla", "FftBug_", "sharedBuffers ownLocks refusalKeepsLock noLockOnDestroy")
    c.parallel(jobs, 6)
    c.assumptions += ["each transform object is used by one thread at a time; scheduling points are the library's mutex operations and every call into FFTW (interposed)"]


def C31(c):
    exe = c.build("cwt", ["cwt_harness.cpp"], ["common", "dsp"], flags=ASAN)
    n = 1200 if c.quick else 2500
    jobs = traces(c, exe, "wavelet transformations", "CwtTrace", [["cwt", n, c.seed * 1000 + k] for k in range(3 if c.quick else 24)], ["Cwt"])
    jobs += [lambda: c.model("dsp/Cwt.tla", "Cwt_quick.cfg" if c.quick else "Cwt_deep.cfg", timeout=850)]
    jobs += bugs(c, "Cwt.tla", "CwtBug_", "shortBuffer notCentred noStepRuns oneByOne")
    c.parallel(jobs, 6)
    c.assumptions += ["the analysing function takes integer values on the grid the sampled wavelets are defined on and the signal is integer, so that the squared moduli are decided exactly",
                      "sampled wavelets of even length, logarithmic or linear"]


def C36(c):
    exe = c.build("cwt", ["cwt_harness.cpp"], ["common", "dsp"], flags=ASAN)
    n = 3000 if c.quick else 20000
    jobs = traces(c, exe, "wavelet functions", "WavesTrace", [["waves", n, c.seed * 1000 + k] for k in range(2 if c.quick else 8)], ["Morlet", "Hat", "Sums"])
    jobs += [lambda: c.model("dsp/Waves.tla", "Waves.cfg", workers="1")]
    jobs += bugs(c, "Waves.tla", "BugWv_", "halfWidth bell notConjugate")
    c.parallel(jobs, 6)
    c.assumptions += ["values are taken at multiples of 1/16 (3/16 for the Mexican hat) up to 16 (48) and compared to three digits; sums over unit steps from any start to six digits"]
