"""C14, C15, C16: parameter encoding, bounds, initialisation guards."""
import vlib


def _exe(c):
    return c.build("params", ["params_harness.cpp"], ["common", "parallel", "optimization"])


def _run(c, exe, mode, spec, n, seed, marker):
    def f():
        t = c.run_impl(exe, [mode, n, seed], "t-%s-%d" % (mode, seed), timeout=120, what=mode + " of parameters")
        with open(t) as fh:
            eps = sum(1 for x in fh if marker in x)
        c.sample(t, 4, 40)
        c.trace("params/%s.tla" % spec, spec + ".cfg", t, mode + " of parameters", episodes=eps)
    return f


def C14(c):
    exe = _exe(c)
    jobs = [_run(c, exe, "codec", "CodecTrace", 60 if c.quick else 150, c.seed * 100 + k, '"e":"Range"')
            for k in range(2 if c.quick else 30)]
    jobs += [_run(c, exe, "store", "StoreTrace", 150, c.seed * 100 + 50 + k, '"e":"Reset"')
             for k in range(1 if c.quick else 20)]
    jobs += [lambda: c.model("params/Codec.tla", "Codec_quick.cfg" if c.quick else "Codec_deep.cfg", workers="1")]
    jobs += [lambda n=n: c.model("params/Codec.tla", "BugCodec_%s.cfg" % n, expect="violated", workers="1")
             for n in ("fewBits", "truncate", "noClamp", "overlap")]
    c.parallel(jobs, 6)
    c.assumptions += ["integer ranges up to 34 wide are exhausted; wider ones (to the full 2^32) at all powers of two, the ends and random values",
                      "errors of real parameters are measured in floating point with a relative slack of 1e-7"]


def C15(c):
    exe = _exe(c)
    jobs = [_run(c, exe, "store", "StoreTrace", 250, c.seed * 100 + k, '"e":"Reset"')
            for k in range(3 if c.quick else 60)]
    jobs += [lambda: c.model("params/ParamStore.tla", "ParamStore_quick.cfg" if c.quick else "ParamStore_deep.cfg")]
    jobs += [lambda n=n: c.model("params/ParamStore.tla", "BugStore_%s.cfg" % n, expect="violated", workers="1")
             for n in ("refusalWrites", "startOutside")]
    c.parallel(jobs, 6)


def C16(c):
    exe = _exe(c)
    jobs = [_run(c, exe, "guard", "GuardTrace", 700, c.seed * 100 + k, '"e":"Reset"')
            for k in range(1 if c.quick else 12)]
    jobs += [_run(c, exe, "store", "StoreTrace", 250, c.seed * 100 + 70 + k, '"e":"Reset"')
             for k in range(2 if c.quick else 30)]
    jobs += [lambda: c.model("params/ParamStore.tla", "ParamStore_quick.cfg" if c.quick else "ParamStore_deep.cfg")]
    jobs += [lambda: c.model("params/ParamStore.tla", "BugStore_refusalWrites.cfg", expect="violated", workers="1")]
    c.parallel(jobs, 6)
