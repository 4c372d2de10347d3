"""C07: cached wavelet transforms."""


def C07(c):
    exe = c.build("fwt", ["fwt_harness.cpp"], ["common", "dsp"])

    def one(k):
        def f():
            t = c.run_impl(exe, [250 if c.quick else 600, c.seed * 1000 + k], "t-fwt-%d" % k, timeout=120, what="wavelet transform")
            with open(t) as fh:
                n = sum(1 for x in fh if '"e":"One"' in x or '"e":"All"' in x)
            if k == 0:
                c.sample(t, 4, 8)
            c.trace("dsp/FwtTrace.tla", "FwtTrace.cfg", t, "histories of wavelet transforms", episodes=n)
        return f
    jobs = [one(k) for k in range(3 if c.quick else 60)]
    jobs += [lambda: c.model("dsp/Fwt.tla", "Fwt_quick.cfg", workers="2")]
    jobs += [lambda n=n: c.model("dsp/Fwt.tla", "Bug_%s.cfg" % n, expect="violated", workers="1")
             for n in ("keyWithoutScale", "keyWithoutWavelet", "rotatesCached")]
    c.parallel(jobs, 6)
    c.assumptions += ["wavelets and signals take small integer values and scales are powers of two, so that every value is decided exactly; the code treats values as opaque numbers"]
