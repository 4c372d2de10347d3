"""C06: the usage-aware cache."""


def C06(c):
    exe = c.build("cache", ["cache_harness.cpp"], ["common"])

    def one(k):
        def f():
            t = c.run_impl(exe, [400 if c.quick else 900, c.seed * 1000 + k], "t-cache-%d" % k, timeout=120, what="cache")
            with open(t) as fh:
                n = sum(1 for x in fh if '"e":"Create"' in x)
            if k == 0:
                c.sample(t, 10, 20)
            c.trace("cache/CacheTrace.tla", "CacheTrace.cfg", t, "histories of the usage-aware cache", episodes=n)
        return f
    jobs = [one(k) for k in range(3 if c.quick else 60)]
    jobs += [lambda: c.model("cache/Cache.tla", "Cache_quick.cfg" if c.quick else "Cache_deep.cfg")]
    jobs += [lambda n=n: c.model("cache/Cache.tla", "Bug_%s.cfg" % n, expect="violated", workers="1")
             for n in ("evictUsed", "evictAfter", "firstWins", "readInserts")]
    c.parallel(jobs, 6)
