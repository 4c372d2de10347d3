"""C22: settings."""


def C22(c):
    exe = c.build("settings", ["settings_harness.cpp"], ["common"])

    def one(k):
        def f():
            t = c.run_impl(exe, [3000 if c.quick else 6000, c.seed * 1000 + k], "t-settings-%d" % k, timeout=300, what="settings")
            if k == 0:
                c.sample(t, 6, 20)
            with open(t) as fh:
                e = sum(1 for x in fh if '"New"' in x or '"Merge"' in x)
            c.trace("settings/SettingsTrace.tla", "SettingsTrace.cfg", t, "settings", episodes=e)
        return f
    jobs = [one(k) for k in range(2 if c.quick else 24)]
    jobs += [lambda: c.model("settings/Settings.tla", "Settings_quick.cfg" if c.quick else "Settings_deep.cfg", timeout=850)]
    jobs += [lambda n=n: c.model("settings/Settings.tla", "Bug_%s.cfg" % n, expect="violated|is false", workers="1")
             for n in ("firstWins", "refusedWrites", "lastArgOnly", "loadKeeps", "badLoadClears", "dropsSubtree", "rightWins")]
    c.parallel(jobs, 6)
    c.assumptions += ["names are non-empty words without empty dot-separated parts; no name occurs twice among the children of one node of a merged tree"]
