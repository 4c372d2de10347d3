"""C05, C26: MPI worker pool protocol, call chains and object registry."""
import json
import os
import vlib

DEFS = ["-DBUILD_WITH_MPI", "-include", os.path.join(vlib.HARNESS, "mpi_shim.h")]
STUB = [os.path.join(vlib.HARNESS, "mpi_stub")]


def _stats(trace):
    with open(trace) as f:
        return json.loads(f.read().splitlines()[-1])


def C05(c):
    exe = c.build("mpi", ["mpi_harness.cpp", "mpi_stub.cpp", "vsched.cpp"], ["parallel", "mpi"],
                  defs=DEFS, incs=STUB)
    runs = {}

    def one(k):
        def f():
            t = c.run_impl(exe, ["x", 1500 if c.quick else 2000, c.seed * 100 + k], "t-%d" % k,
                           timeout=300, what="MPI pool")
            if t is None:
                raise vlib.CheckError("MPI pool not controllable")
            s = _stats(t)
            runs[k] = s["runs"]
            if k == 0:
                c.sample(t, 14, 200)
            c.trace("mpi/MpiTrace.tla", "MpiTrace.cfg", t, "MPI pool protocol", episodes=s["distinct"])
        return f
    jobs = [one(k) for k in range(4 if c.quick else 40)]
    jobs += [lambda x=x: c.model("mpi/MpiPool.tla", x) for x in
             (["MpiPool_quick.cfg", "MpiPool_deep1.cfg"] if c.quick else
              ["MpiPool_quick.cfg", "MpiPool_deep1.cfg", "MpiPool_deep.cfg"])]
    jobs += [lambda n=n: c.model("mpi/MpiPool.tla", "Bug_%s.cfg" % n, expect="violated", workers="1")
             for n in ("noWait", "wrongRank", "noDrain", "skipLast", "lateCheck")]
    fexe = c.build("factory", ["factory_harness.cpp", "mpi_stub.cpp", "vsched.cpp"], ["parallel", "mpi"],
                   defs=DEFS, incs=STUB)

    def factory(k):
        def f():
            n = 800 if c.quick else 4000
            t = c.run_impl(fexe, [n, c.seed * 100 + k], "t-factory-%d" % k, timeout=300, what="pool factory")
            c.trace("mpi/FactoryTrace.tla", "FactoryTrace.cfg", t, "pool factory", episodes=n)
        return f
    jobs += [factory(k) for k in range(1 if c.quick else 8)]
    jobs += [lambda: c.model("mpi/Factory.tla", "Factory.cfg", workers="1")]
    jobs += [lambda n=n: c.model("mpi/Factory.tla", "BugF_%s.cfg" % n, expect="violated", workers="1")
             for n in ("threadsFirst", "unchecked", "forgets")]
    c.parallel(jobs, 6)
    c.extra["schedules_total"] = sum(runs.values())
    c.assumptions += ["MPI itself is replaced by an in-process stand-in: ordered reliable channels, "
                      "each pending receive may be seen as finished at any later poll",
                      "tasks do not throw on the workers and workers do not die"]


def C26(c):
    exe = c.build("chain", ["chain_harness.cpp", "mpi_stub.cpp", "vsched.cpp"], ["parallel", "mpi"],
                  defs=DEFS, incs=STUB)

    def run(mode, spec, n, k):
        def f():
            t = c.run_impl(exe, [mode, n, c.seed * 100 + k], "t-%s-%d" % (mode, k), timeout=120, what=mode)
            c.sample(t, 6, 3000)
            with open(t) as fh:
                eps = sum(1 for x in fh if '"e":"Chain"' in x or '"e":"Group"' in x)
            c.trace("mpi/%s.tla" % spec, spec + ".cfg", t, mode, episodes=eps)
        return f
    jobs = [run("chain", "ChainTrace", 1500, k) for k in range(1 if c.quick else 12)]
    jobs += [run("registry", "RegistryTrace", 0, k) for k in range(2 if c.quick else 20)]
    jobs += [lambda: c.model("mpi/Chain.tla", "Chain_quick.cfg" if c.quick else "Chain_deep.cfg")]
    jobs += [lambda n=n: c.model("mpi/Chain.tla", "BugC_%s.cfg" % n, expect="violated", workers="1")
             for n in ("noGuard", "keepLatch")]
    c.parallel(jobs, 4)
    c.assumptions += ["MPI requests are replaced by stand-ins whose completion the harness controls"]


def C30(c):
    areas = ["common", "parallel", "mpi", "optimization"]
    shared = ["mpi_ranks.cpp", "mpi_stub.cpp", "vsched.cpp"]
    # the real pool factory makes one MPI pool per process only
    kw = dict(defs=DEFS, incs=STUB, exclude=["worker_pool_factory.cpp"])
    transfer = c.build("transfer", ["transfer_harness.cpp"] + shared, areas, **kw)
    multi = c.build("multistart-mpi", ["multistart_harness.cpp"] + shared, areas, **kw)
    skipped = []

    def one(exe, mode, n, k, spec, what, event):
        def f():
            t = c.run_impl(exe, [mode, n, c.seed * 100 + k], "t-%s-%d" % (mode, k), timeout=300, what=what)
            if t is None:
                raise vlib.CheckError("MPI pool not controllable")
            with open(t) as fh:
                lines = fh.read().splitlines()
            if k == 0:
                c.sample(t, 5, 600)
            if mode == "runs":
                skipped.append(json.loads(lines[-1]).get("skipped", 0))
            c.trace(spec + ".tla", spec.split("/")[1] + ".cfg", t, what,
                    episodes=sum(1 for x in lines if event in x))
        return f
    plan = [(transfer, "objects", 3000, 2, "mpi/TransferTrace", "transfer of parameters and optimisers", '"Transfer"'),
            (transfer, "runs", 1200, 2, "mpi/TransferTrace", "distributed runs", '"Distributed"'),
            (multi, "mpi", 2000, 2, "multistart/MultiTrace", "random search over MPI", '"Search"')]
    if not c.quick:
        plan = [p[:3] + (p[3] * 12,) + p[4:] for p in plan]
    jobs = [one(e, m, n, k, s, w, x) for e, m, n, files, s, w, x in plan for k in range(files)]
    jobs += [lambda x=x: c.model("mpi/Transfer.tla", x, timeout=850) for x in
             (["Transfer_quick.cfg"] if c.quick else ["Transfer_quick.cfg", "Transfer_deep.cfg", "Transfer_deep3.cfg"])]
    jobs += [lambda n=n: c.model("mpi/Transfer.tla", "BugT_%s.cfg" % n, expect="violated", workers="1")
             for n in ("swapped", "noDirection", "notRead", "answersStart", "anySource")]
    c.parallel(jobs, 6)
    c.extra["not_comparable_runs"] = sum(skipped)
    c.assumptions += ["MPI itself is replaced by an in-process stand-in: ordered reliable channels, "
                      "each pending receive may be seen as finished at any later poll",
                      "all ranks share one registry of prototypes, and the objective function is the registered one",
                      "tasks do not throw on the workers and workers do not die"]
