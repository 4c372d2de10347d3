// usage: factory_harness TRACE HISTORIES SEED
// The pool factory of a program built with MPI, in a process of its own per history.
#include <k52/parallel/worker_pool_factory.h>
#include <k52/parallel/i_task.h>
#include <boost/thread.hpp>
#include "mpi_stub.h"
#include "trace.h"
#include <cxxabi.h>
#include <fcntl.h>
#include <random>
#include <sys/wait.h>
#include <typeinfo>
#include <unistd.h>
using namespace k52::parallel;
static Out out;
static unsigned hw = 1;
namespace boost { unsigned thread::hardware_concurrency() BOOST_NOEXCEPT { return hw; } }
void verif_exit(int code) { throw WorkerExit{code}; }
class Res : public ITaskResult { public: explicit Res(int i) : id(i) {} int id; };
class Work : public ITask
{
public:
    explicit Work(int i) : id_(i) {}
    ITaskResult* Perform() const { return new Res(id_); }
    Work* Clone() const { return new Work(id_); }
private:
    int id_;
};
static std::string kind_of(IWorkerPool* p)
{
    int st = 0;
    char* n = abi::__cxa_demangle(typeid(*p).name(), 0, 0, &st);
    std::string s = n ? n : "?";
    free(n);
    if(s.find("Mpi") != s.npos) return "mpi";
    if(s.find("Thread") != s.npos) return "thread";
    if(s.find("Sequential") != s.npos) return "sequential";
    return s;
}
static bool usable(IWorkerPool* p)
{
    std::vector<Work> w;
    std::vector<const ITask*> t;
    for(int i = 0; i < 5; i++) w.push_back(Work(i));
    for(int i = 0; i < 5; i++) t.push_back(&w[i]);
    try
    {
        std::vector<ITaskResult::shared_ptr> r = p->DoTasks(t);
        for(int i = 0; i < 5; i++) if(r.size() != 5 || dynamic_cast<Res&>(*r[i]).id != i) return false;
    }
    catch(const std::exception&) { return false; }
    return true;
}
static void history(std::mt19937& g)
{
    int workers = g() % 4;
    hw = g() % 4;
    mpi_stub::reset(workers + 1);
    out.put(J("Program").i("w", workers).i("hw", hw));
    std::vector<IWorkerPool::shared_ptr> keep;
    for(int k = 1 + g() % 8; k > 0; k--)
    {
        static const WorkerPoolFactory::WorkerPoolType types[] =
            { WorkerPoolFactory::kMpiWorkerPool, WorkerPoolFactory::kThreadWorkerPool, WorkerPoolFactory::kSequentialWorkerPool };
        static const char* const names[] = { "mpi", "thread", "sequential" };
        int t = g() % 3, op = g() % 4;
        if(op == 0) { out.put(J("Can").str("kind", names[t]).b("v", WorkerPoolFactory::CanCreateWorkerPool(types[t]))); continue; }
        IWorkerPool::shared_ptr p;
        std::string got = "refused";
        try { p = op == 1 ? WorkerPoolFactory::CreateWorkerPool(types[t]) : WorkerPoolFactory::CreateBestWorkerPool(); got = kind_of(p.get()); }
        catch(const std::exception&) {}
        bool valid = p && p->IsValid();
        bool works = valid && (got == "mpi" || usable(p.get()));
        out.put(J(op == 1 ? "Create" : "Best").str("kind", op == 1 ? names[t] : "best").str("got", got).b("valid", valid).b("works", works));
        if(p && g() % 2) keep.push_back(p);
    }
}
int main(int, char** argv)
{
    out.open(argv[1]);
    int n = atoi(argv[2]);
    std::mt19937 seeds(atol(argv[3]) * 7919 + 5);
    dup2(open("/dev/null", O_WRONLY), 1);
    for(int i = 0; i < n; i++)
    {
        std::mt19937 g(seeds());
        out.flush();
        pid_t c = fork();
        if(c < 0) return 77;
        if(c == 0) { alarm(20); history(g); out.flush(); _exit(0); }
        int st = 0;
        waitpid(c, &st, 0);
        fseek(out.f, 0, SEEK_END);
        if(!WIFEXITED(st) || WEXITSTATUS(st)) out.put(J("Died"));
    }
    out.close();
    return 0;
}
