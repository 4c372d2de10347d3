// Drives the thread worker pool under the deterministic scheduler and records, for
// each schedule, what an observer sees: tasks beginning and ending, batch calls and
// their results, and the end of the pool.
// usage: pool_harness TRACE MODE WORKERS FAULTS RUNS SEED
#include <k52/parallel/worker_pool_factory.h>
#include "trace.h"
#include "vsched.h"
#include <fcntl.h>
#include <pthread.h>
#include <stdexcept>
#include <string.h>
#include <unistd.h>
#include <atomic>

using namespace k52::parallel;

static Out out;
static std::vector<std::string> ev;
static pthread_mutex_t ev_mutex = PTHREAD_MUTEX_INITIALIZER;
static bool free_mode = false;
static std::set<std::string> seen;
static long runs = 0, distinct = 0;
static int baseline_threads = 0;

static void emit(const J& j)
{
    if(free_mode) pthread_mutex_lock(&ev_mutex);
    ev.push_back(j.done());
    if(free_mode) pthread_mutex_unlock(&ev_mutex);
}

struct Result : public ITaskResult { int id; Result(int i) : id(i) {} };

struct Boom : public std::runtime_error { Boom() : std::runtime_error("boom") {} };
struct Odd : public std::exception { const char* what() const throw() { return "odd"; } };

static std::atomic<int> last_number(0);
static void work(int id)
{
    if(free_mode) usleep((id * 7919u) % 200);
    else vs_yield();
}

struct Task : public ITask
{
    int id, kind;
    Task(int i, int k) : id(i), kind(k) {}
    virtual Result* Perform() const
    {
        emit(J("Begin").i("t", id));
        work(id);
        if(kind == 1) { emit(J("Fail").i("t", id)); throw Boom(); }
        if(kind == 2) { emit(J("Fail").i("t", id)); throw Odd(); }
        if(kind == 3) { emit(J("Fail").i("t", id)); last_number = id; throw id; }
        emit(J("End").i("t", id));
        return new Result(id);
    }
};

// a scenario: one pool, a sequence of batches, each a string of task kinds
typedef std::vector<std::string> Scenario;

static int thread_count() { return vs_plain_alive(); }

static void play(const Scenario& sc, int workers)
{
    vs_hardware_concurrency = workers;
    IWorkerPool::shared_ptr pool = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool);
    emit(J("Create").b("valid", pool->IsValid()));
    for(size_t b = 0; b < sc.size(); b++)
    {
        std::vector<Task> tasks;
        std::vector<const ITask*> ptrs;
        for(size_t i = 0; i < sc[b].size(); i++) tasks.push_back(Task((int)(b + 1) * 10000 + (int)i + 1, sc[b][i] - '0'));
        for(size_t i = 0; i < tasks.size(); i++) ptrs.push_back(&tasks[i]);
        emit(J("DoTasks").i("b", b + 1).i("n", tasks.size()));
        try
        {
            std::vector<ITaskResult::shared_ptr> r = pool->DoTasks(ptrs);
            std::vector<int> ids;
            for(size_t i = 0; i < r.size(); i++)
            {
                Result* x = dynamic_cast<Result*>(r[i].get());
                ids.push_back(x ? x->id : r[i] ? -1 : 0);
            }
            emit(J("Return").seq("res", ids));
        }
        catch(const std::exception&) { emit(J("Raise")); }
    }
    emit(J("Destroy"));
    pool.reset();
    int alive;
    if(free_mode) alive = thread_count() - baseline_threads;
    else alive = vs_alive();
    emit(J("Destroyed").i("alive", alive));
}

// The sequential pool, or the pool the factory considers best for `hw` hardware threads.
static void play_other(const Scenario& sc, bool seq, int hw)
{
    vs_hardware_concurrency = hw;
    IWorkerPool::shared_ptr pool;
    try
    {
        pool = seq ? WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kSequentialWorkerPool)
                   : WorkerPoolFactory::CreateBestWorkerPool();
    }
    catch(const std::exception& x)
    {
        emit(J("FactoryRefuses").i("hw", hw).str("what", x.what()));
        return;
    }
    emit(J("New").str("kind", seq ? "seq" : "any").i("hw", hw).b("valid", pool->IsValid()));
    for(size_t b = 0; b < sc.size(); b++)
    {
        std::vector<Task> tasks;
        std::vector<const ITask*> ptrs;
        for(size_t i = 0; i < sc[b].size(); i++) tasks.push_back(Task((int)(b + 1) * 10000 + (int)i + 1, sc[b][i] - '0'));
        for(size_t i = 0; i < tasks.size(); i++) ptrs.push_back(&tasks[i]);
        emit(J("DoTasks").i("b", b + 1).i("n", tasks.size()));
        try
        {
            std::vector<ITaskResult::shared_ptr> r = pool->DoTasks(ptrs);
            std::vector<int> ids;
            for(size_t i = 0; i < r.size(); i++)
            {
                Result* x = dynamic_cast<Result*>(r[i].get());
                ids.push_back(x ? x->id : r[i] ? -1 : 0);
            }
            emit(J("Return").seq("res", ids));
        }
        catch(const Boom& x) { emit(J("Raise").str("what", "boom")); }
        catch(int x) { emit(J("Raise").str("what", x == last_number ? "boom" : "another number")); }
        catch(const std::exception& x) { emit(J("Raise").str("what", x.what())); }
        if(seq)
        {
            std::vector<WorkerStatistics> st = pool->GetStatistics();
            std::vector<int> c;
            for(size_t i = 0; i < st.size(); i++) c.push_back(st[i].get_counted());
            emit(J("Statistics").seq("counted", c));
        }
    }
}

// Batches too long for a line per task: what happened to the tasks is counted.
struct HugeTask : public ITask
{
    int id; bool fails, slow; mutable std::atomic<int>* times;
    virtual Result* Perform() const { if(slow) usleep(2000); (*times)++; if(fails && id % 2) throw id; if(fails) throw Boom(); return new Result(id); }
};

static void play_huge(const std::vector<int>& sizes, int workers, int every)
{
    vs_hardware_concurrency = workers;
    IWorkerPool::shared_ptr pool = WorkerPoolFactory::CreateWorkerPool(WorkerPoolFactory::kThreadWorkerPool);
    emit(J("Create").b("valid", pool->IsValid()));
    for(size_t b = 0; b < sizes.size(); b++)
    {
        int n = sizes[b];
        std::vector<std::atomic<int> > times(n);
        std::vector<HugeTask> tasks(n);
        std::vector<const ITask*> ptrs(n);
        int failing = 0;
        for(int i = 0; i < n; i++)
        {
            times[i] = 0; tasks[i].id = i + 1; tasks[i].times = &times[i];
            tasks[i].slow = i + 20 > n; tasks[i].fails = every && i % every == every - 1;
            failing += tasks[i].fails;
            ptrs[i] = &tasks[i];
        }
        int size = 0, right = 0; bool raised = false;
        int once = 0;
        try
        {
            std::vector<ITaskResult::shared_ptr> r = pool->DoTasks(ptrs);
            for(int i = 0; i < n; i++) once += times[i] == 1;
            size = (int)r.size();
            for(size_t i = 0; i < r.size(); i++)
            {
                Result* x = dynamic_cast<Result*>(r[i].get());
                if((int)i < n) right += tasks[i].fails ? !r[i] : x && x->id == (int)i + 1;
            }
        }
        catch(const std::exception&) { raised = true; for(int i = 0; i < n; i++) once += times[i] == 1; }
        emit(J("Huge").i("b", b + 1).i("n", n).i("failing", failing).i("once", once).b("raised", raised)
            .i("size", size).i("right", right));
    }
    emit(J("Destroy"));
    pool.reset();
    emit(J("Destroyed").i("alive", thread_count() - baseline_threads));
}

static void flush_run()
{
    runs++;
    std::string all;
    for(size_t i = 0; i < ev.size(); i++) all += ev[i] + "\n";
    ev.clear();
    if(seen.insert(all).second) { distinct++; fputs(all.c_str(), out.f); }
}

static void stuck(const char* why)
{
    emit(J("Stuck").str("why", why));
    flush_run();
    out.put(J("Stats").i("runs", runs).i("distinct", distinct));
    out.close();
    _exit(0);
}

static void* free_watchdog(void*)
{
    long last = -1; int same = 0;
    for(;;)
    {
        sleep(1);
        same = runs == last ? same + 1 : 0;
        last = runs;
        if(same > 30) { pthread_mutex_lock(&ev_mutex); free_mode = false; stuck("Hang"); }
    }
}

int main(int argc, char** argv)
{
    out.open(argv[1]);
    std::string mode = argv[2];
    int workers = atoi(argv[3]);
    int faults = atoi(argv[4]);
    long max_runs = atol(argv[5]);
    unsigned long long seed = strtoull(argv[6], 0, 10);
    int devnull = open("/dev/null", O_WRONLY);
    dup2(devnull, 1);
    vs_on_stuck = stuck;

    std::vector<Scenario> scs;
    const char* plain[] = { "", "E", "0", "00", "000", "0|0", "00|00", "000|0", "0||00", "0000", "00000|00", "0|0|0", "0000|0000", 0 };
    const char* faulty[] = { "1", "10", "01", "1|0", "010", "11|00", "2|0|1|0", "0120|000", "1|1|0", "111|000", "0|11|0", "3", "03|0", "3|3|00", "0300|000", "13|32|0", 0 };
    const char** list = faults ? faulty : plain;
    // long batches: expanded below ("*N": N tasks, in a faulty run every eleventh fails)
    static const char* large[] = { "*17|*5", "*40", "*33|*33|*1", "*65|0|*64", "*9|*130|00", "*260", "*12|*12|*12|*12|*12", "*530|*3", "*1030|0", 0 };
    bool big = mode.substr(0, 3) == "big";
    if(big) { list = large; mode = mode.substr(3); }
    for(int i = 0; list[i]; i++)
    {
        Scenario s;
        std::string x = list[i];
        if(x == "E") s.push_back("");
        else if(!x.empty())
        {
            size_t p = 0, q;
            while((q = x.find('|', p)) != std::string::npos) { s.push_back(x.substr(p, q - p)); p = q + 1; }
            s.push_back(x.substr(p));
        }
        for(size_t b = 0; b < s.size(); b++) if(!s[b].empty() && s[b][0] == '*')
        {
            int n = atoi(s[b].c_str() + 1);
            s[b].clear();
            for(int k = 0; k < n; k++) s[b] += faults && k % 11 == (int)(seed + b) % 11 ? "123"[k % 3] : '0';
        }
        scs.push_back(s);
    }
    // lazy initialisation in the libraries must not differ between runs
    { free_mode = true; play(Scenario(1, "00"), 2); ev.clear(); free_mode = false; }

    if(mode == "seq" || mode == "best")
    {
        // every sequence of up to 3 batches of up to 3 tasks with any failing subset
        free_mode = true;
        std::vector<std::string> batches;
        for(int n = 0; n <= 3; n++) for(int m = 0; m < (1 << n); m++)
        {
            std::string b;
            for(int i = 0; i < n; i++) b += (m >> i) & 1 ? "13"[(n + i) % 2] : '0';
            if(mode == "seq" || m == 0) batches.push_back(b);
        }
        for(int hw = 0; hw <= (mode == "seq" ? 0 : 9); hw++)
        for(size_t a = 0; a < batches.size(); a++)
        {
            play_other(Scenario(1, batches[a]), mode == "seq", hw); flush_run();
            for(size_t b = 0; b < batches.size(); b++)
            {
                Scenario sc(1, batches[a]); sc.push_back(batches[b]);
                if(mode == "seq")
                {
                    play_other(sc, true, hw); flush_run();
                    sc.push_back(batches[(a * 7 + b * 3 + seed) % batches.size()]);
                }
                play_other(sc, mode == "seq", hw); flush_run();
            }
        }
        // long batches
        for(int n = 10; n <= 90; n += 20)
        {
            Scenario sc(2, std::string(n, '0'));
            play_other(sc, mode == "seq", 4); flush_run();
        }
        if(mode == "seq") for(int n = 100; n <= 900; n += 400) { play_other(Scenario(1, std::string(n, '0')), true, 4); flush_run(); }
        for(int hw = 16; hw <= 64; hw *= 2) { play_other(Scenario(2, "00000"), mode == "seq", hw); flush_run(); }
    }
    else if(mode == "free")
    {
        free_mode = true;
        baseline_threads = thread_count();
        pthread_t t;
        pthread_create(&t, 0, free_watchdog, 0);
        usleep(10000);
        baseline_threads = thread_count();
        for(long r = 0; r < max_runs; r++) { play(scs[r % scs.size()], workers); flush_run(); }
        if(big) for(int every = 0; every <= 30011 * faults; every += 30011)
        {
            static const int sizes[] = { 257, 4097, 66000, 1, 33000 };
            play_huge(std::vector<int>(sizes, sizes + 5), workers, every); flush_run();
        }
    }
    else if(mode == "dev")
    {
        // every schedule that differs from the default one in at most one decision,
        // then those that differ in two (all of them, or a random sample)
        long per = max_runs / scs.size() + 1;
        long complete1 = 0, complete2 = 0;
        unsigned long long rng = seed * 0x9E3779B97F4A7C15ULL + 12345;
        for(size_t k = 0; k < scs.size(); k++)
        {
            long n = 0;
            std::vector<std::vector<int> > level(1), next;
            for(int dev = 0; dev <= 2 && n < per; dev++)
            {
                next.clear();
                if(dev == 2) // shuffle, so that a truncated level is a fair sample
                    for(size_t i = level.size(); i > 1; i--)
                    {
                        rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
                        std::swap(level[i - 1], level[rng % i]);
                    }
                size_t done = 0;
                for(; done < level.size() && n < per; done++)
                {
                    VsStrategy s;
                    s.kind = 0; s.prefix = level[done]; s.preemption_bound = 1000000;
                    s.spurious_budget = 1;
                    VsResult r = vs_run(s, [&] { play(scs[k], workers); });
                    flush_run();
                    n++;
                    if(dev == 2) continue;
                    std::vector<int> base;
                    for(size_t i = 0; i < r.decisions.size(); i++)
                    {
                        if(i >= level[done].size())
                            for(int c = 1; c < r.decisions[i].options; c++)
                            {
                                next.push_back(base);
                                next.back().push_back(c);
                            }
                        base.push_back(r.decisions[i].chosen);
                    }
                }
                if(done == level.size()) { if(dev == 1) complete1++; if(dev == 2) complete2++; }
                level.swap(next);
            }
        }
        out.put(J("Stats").i("runs", runs).i("distinct", distinct).i("complete1", complete1)
            .i("complete2", complete2).i("scenarios", scs.size()));
        out.close();
        _exit(0);
    }
    else
    {
        for(long r = 0; r < max_runs; r++)
        {
            VsStrategy s;
            s.kind = mode == "pct" ? 2 : 1;
            s.seed = seed * 1000003ULL + r + 1;
            s.depth = 1 + r % 5;
            s.spurious_budget = r % 3;
            vs_run(s, [&] { play(scs[r % scs.size()], workers); });
            flush_run();
        }
    }
    out.put(J("Stats").i("runs", runs).i("distinct", distinct));
    out.close();
    _exit(0);
}
