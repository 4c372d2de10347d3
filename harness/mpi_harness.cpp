// Runs the MPI worker pool with every rank as a thread of this process under the
// deterministic scheduler, over an in-process stand-in for Boost.MPI.
// usage: mpi_harness TRACE MODE RUNS SEED
#include "mpi_shim.h"
#include <boost/mpi.hpp>
#include <boost/bind.hpp>
#include <k52/parallel/mpi/async_call_chain.h>
#include <k52/parallel/mpi/i_mpi_task.h>
#include <k52/parallel/mpi/i_mpi_task_result.h>
#include <k52/parallel/mpi/identifyable_objects_manager.h>
#include "parallel/mpi/mpi_worker_pool.h"
#include "mpi_stub.h"
#include "trace.h"
#include "vsched.h"
#include <fcntl.h>
#include <pthread.h>

using namespace k52::parallel;
using namespace k52::parallel::mpi;

void verif_exit(int code) { WorkerExit e = { code }; throw e; }

static Out out;
static std::vector<std::string> ev;
static std::set<std::string> seen;
static long runs = 0, distinct = 0;
static void emit(const J& j) { ev.push_back(j.done()); }

struct Payload { int id; };

// Results arrive in `parts` asynchronous calls; some of the calls need no request.
struct Res : public IMpiTaskResult
{
    int id, parts, got_parts, shape;
    boost::mpi::communicator* comm; int source;
    Payload buf; int sum;
    Res(int i, int sh) : id(i), parts(1 + sh % 3), got_parts(0), shape(sh), comm(0), source(0), sum(0) { buf.id = 0; }
    boost::optional<boost::mpi::request> part(int k)
    {
        if(k > 0 && shape >= 3 && k == parts - 1)
        {   // a call without a request, as allowed: done at once, on the previous data
            emit(J("Got").i("t", id));
            return boost::none;
        }
        boost::mpi::request r = comm->irecv(source, 0, buf);
        bool last = k == parts - 1;
        r.s->on_done = [this, last]() { id = buf.id; if(last) emit(J("Got").i("t", id)); };
        return r;
    }
    virtual AsyncCallChain::shared_ptr ReceiveAsync(boost::mpi::communicator* c, int s)
    {
        comm = c; source = s;
        AsyncCallChain::shared_ptr chain = AsyncCallChain::CreateAsyncCallChain(boost::bind(&Res::part, this, 0));
        for(int k = 1; k < parts; k++) chain->Add(boost::bind(&Res::part, this, k));
        return chain;
    }
    virtual void Send(boost::mpi::communicator* c)
    {
        emit(J("Answer").i("t", id).i("w", c->rank()));
        Payload p = { id };
        for(int k = 0; k < parts; k++)
            if(!(k > 0 && shape >= 3 && k == parts - 1)) c->send(0, 0, p);
    }
};

template <int KIND> struct TaskOf : public IMpiTask
{
    int id; mutable bool sent;
    TaskOf(int i) : id(i), sent(false) {}
    virtual Res* Perform() const
    {
        emit(J("Perform").i("t", id).i("w", mpi_stub::rank()).i("kind", KIND));
        vs_yield();
        return new Res(id, KIND);
    }
    virtual IMpiTaskResult::shared_ptr CreateEmptyResult() const { return IMpiTaskResult::shared_ptr(new Res(0, KIND)); }
    virtual TaskOf* Clone() const { return new TaskOf(id); }
    virtual void Send(boost::mpi::communicator* c, int target) const
    {
        emit(J("Send").i("t", id).i("w", target).i("kind", KIND));
        Payload p = { id };
        c->send(target, 0, p);
    }
    virtual void Receive(boost::mpi::communicator* c, int source)
    {
        Payload p;
        c->recv(source, 0, p);
        id = p.id;
    }
};

// no task of an MPI pool
struct Foreign : public ITask
{
    virtual Res* Perform() const { emit(J("Perform").i("t", 0).i("w", mpi_stub::rank()).i("kind", -1)); return new Res(0, 0); }
    virtual Foreign* Clone() const { return new Foreign(); }
};

static void* worker_main(void* arg)
{
    int rank = (int)(long)arg;
    mpi_stub::set_rank(rank);
    try
    {
        MpiWorkerPool pool;
        emit(J("WorkerLeaks").i("w", rank));      // the loop must never end normally
    }
    catch(const WorkerExit& e) { emit(J("Exit").i("w", rank).i("code", e.code)); }
    catch(const std::exception& e) { emit(J("WorkerError").i("w", rank).str("what", e.what())); }
    return 0;
}

static std::set<std::string> task_ids;

// before batch `foreign` (if there is one) a batch with a strange task at `at`
static void play(int workers, const std::vector<std::vector<int> >& batches, int foreign = -1, int at = 0)
{
    mpi_stub::reset(workers + 1);
    emit(J("Start").i("workers", workers));
    mpi_stub::on_post = [](int from, int to, const std::any& v)
    {
        const std::string* s = std::any_cast<std::string>(&v);
        if(from == 0 && s && !task_ids.count(*s)) emit(J("EndSent").i("w", to));
    };
    std::vector<pthread_t> th(workers);
    for(int i = 0; i < workers; i++) pthread_create(&th[i], 0, worker_main, (void*)(long)(i + 1));
    {
        MpiWorkerPool pool;
        emit(J("Valid").b("v", pool.IsValid()));
        for(size_t b = 0; b < batches.size(); b++)
        {
            if(workers > 0 && foreign-- == 0)
            {   // one strange task among the others (or none at all): the whole batch is refused
                std::vector<IMpiTask::shared_ptr> tasks;
                std::vector<const ITask*> ptrs;
                Foreign strange;
                for(size_t i = 0; i < batches[b].size(); i++)
                {
                    tasks.push_back(IMpiTask::shared_ptr(new TaskOf<0>(9000 + (int)i)));
                    ptrs.push_back(tasks.back().get());
                }
                ptrs.insert(ptrs.begin() + at % (ptrs.size() + 1), at % 7 ? (const ITask*)&strange : (const ITask*)0);
                emit(J("Foreign").i("n", ptrs.size()));
                try { pool.DoTasks(ptrs); emit(J("NotRefused")); }
                catch(const std::exception&) { emit(J("Refused")); }
            }
            std::vector<IMpiTask::shared_ptr> tasks;
            std::vector<const ITask*> ptrs;
            for(size_t i = 0; i < batches[b].size(); i++)
            {
                int id = (int)(b + 1) * 100 + (int)i + 1;
                IMpiTask* t = 0;
                switch(batches[b][i])
                {
                case 0: t = new TaskOf<0>(id); break;
                case 1: t = new TaskOf<1>(id); break;
                case 2: t = new TaskOf<2>(id); break;
                case 4: t = new TaskOf<4>(id); break;
                default: t = new TaskOf<5>(id); break;
                }
                tasks.push_back(IMpiTask::shared_ptr(t));
                ptrs.push_back(t);
            }
            if(workers == 0)
            {
                try { pool.DoTasks(ptrs); emit(J("NotRefused")); }
                catch(const std::exception&) { emit(J("Refused")); }
                continue;
            }
            emit(J("DoTasks").i("b", b + 1).seq("kinds", batches[b]));
            try
            {
                std::vector<ITaskResult::shared_ptr> r = pool.DoTasks(ptrs);
                std::vector<int> ids;
                for(size_t i = 0; i < r.size(); i++)
                {
                    Res* x = dynamic_cast<Res*>(r[i].get());
                    ids.push_back(x ? x->id : -1);
                }
                emit(J("Return").seq("res", ids));
            }
            catch(const std::exception& e) { emit(J("Raise").str("what", e.what())); }
            std::vector<WorkerStatistics> st = pool.GetStatistics();
            std::vector<int> cnt(workers, 0);
            int err = 0, bad = 0;
            for(size_t i = 0; i < st.size(); i++)
            {
                if(st[i].get_id() >= 1 && st[i].get_id() <= workers) cnt[st[i].get_id() - 1] += st[i].get_counted();
                else bad++;
                err += st[i].get_errors();
            }
            emit(J("Statistics").seq("counted", cnt).i("errors", err).i("strange", bad));
        }
        emit(J("Destroy"));
    }
    emit(J("Destroyed"));
    for(int i = 0; i < workers; i++) pthread_join(th[i], 0);
    emit(J("Over").i("undelivered", mpi_stub::pending()));
}

static void flush_run()
{
    runs++;
    std::string all;
    for(size_t i = 0; i < ev.size(); i++) all += ev[i] + "\n";
    ev.clear();
    if(seen.insert(all).second) { distinct++; fputs(all.c_str(), out.f); }
}

static void finish()
{
    out.put(J("Stats").i("runs", runs).i("distinct", distinct));
    out.close();
    _exit(0);
}
static void stuck(const char* why) { emit(J("Stuck").str("why", why)); flush_run(); finish(); }

int main(int argc, char** argv)
{
    out.open(argv[1]);
    std::string mode = argv[2];
    long max_runs = atol(argv[3]);
    unsigned long long seed = strtoull(argv[4], 0, 10);
    dup2(open("/dev/null", O_WRONLY), 1);
    vs_on_stuck = stuck;
    TaskOf<0> t0(0); TaskOf<1> t1(0); TaskOf<2> t2(0); TaskOf<4> t4(0); TaskOf<5> t5(0);
    IdentifyableObjectsManager& m = IdentifyableObjectsManager::Instance();
    m.RegisterObject(t0); m.RegisterObject(t1); m.RegisterObject(t2); m.RegisterObject(t4); m.RegisterObject(t5);
    task_ids.insert(m.GetId(t0)); task_ids.insert(m.GetId(t1)); task_ids.insert(m.GetId(t2));
    task_ids.insert(m.GetId(t4)); task_ids.insert(m.GetId(t5));

    unsigned long long rng = seed * 0x9E3779B97F4A7C15ULL + 99;
    std::vector<std::vector<std::vector<int> > > scs;
    int kinds[] = { 0, 1, 2, 4, 5 };
    for(int n1 = 0; n1 <= 6; n1++) for(int n2 = -1; n2 <= 3; n2++)
    {
        std::vector<std::vector<int> > sc;
        std::vector<int> b;
        for(int i = 0; i < n1; i++) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; b.push_back(kinds[rng % 5]); }
        sc.push_back(b); b.clear();
        if(n2 >= 0)
        {
            for(int i = 0; i < n2; i++) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; b.push_back(kinds[rng % 5]); }
            sc.push_back(b);
        }
        scs.push_back(sc);
    }
    scs.push_back(std::vector<std::vector<int> >());
    for(long r = 0; r < max_runs; r++)
    {
        VsStrategy s;
        s.kind = r % 2 ? 2 : 1;
        s.seed = seed * 1000003ULL + r + 1;
        s.depth = 1 + r % 6;
        s.max_steps = 400000;
        mpi_stub::set_delay((r / 2) % 4, s.seed);
        int workers = r % 97 == 0 ? 0 : 1 + (int)((r / 3) % 4);
        std::vector<std::vector<int> > sc = scs[(r / 5) % scs.size()];
        if(r % 6 == 5)
        {   // larger: more batches, tasks and workers
            sc.clear();
            workers = 1 + (int)((r / 6) % 8);
            rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
            size_t batches = 1 + rng % 4;
            bool huge = r % 60 == 29;
            if(huge) { workers = 1 + (int)((rng >> 20) % 16); batches = 1 + rng % 2; s.max_steps = 20000000; }
            for(size_t b = 0; b < batches; b++)
            {
                rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
                size_t n = huge ? 35 + (rng >> 8) % 110 : (rng >> 8) % ((rng >> 3) % 3 ? 12 : 34);
                std::vector<int> v;
                for(size_t i = 0; i < n; i++) { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; v.push_back(kinds[rng % 5]); }
                sc.push_back(v);
            }
        }
        int foreign = r % 4 == 3 ? (int)((r / 4) % 3) : -1, at = (int)((r / 12) % 35);
        vs_run(s, [&] { play(workers, sc, foreign, at); });
        flush_run();
    }
    finish();
}
