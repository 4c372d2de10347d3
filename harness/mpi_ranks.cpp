#include "mpi_shim.h"
#include <boost/mpi.hpp>
#include "mpi_ranks.h"
#include "mpi_stub.h"
#include <k52/parallel/worker_pool_factory.h>
#include "parallel/mpi/mpi_worker_pool.h"
#include "parallel/sequential_worker_pool.h"
#include "optimization/count_objective_function_task.h"
#include "optimization/optimization_task.h"
#include <pthread.h>
#include <typeinfo>
using namespace k52::parallel;
using k52::parallel::mpi::MpiWorkerPool;
int mpi_workers = 2;
long mpi_left = 0, mpi_lost = 0;
static bool live = false;
void (*mpi_on_create)() = 0;
const char* mpi_count_task() { return typeid(k52::optimization::CountObjectiveFunctionTask).name(); }
const char* mpi_optimization_task() { return typeid(k52::optimization::OptimizationTask).name(); }
void verif_exit(int code) { WorkerExit e = { code }; throw e; }
static void* worker_main(void* arg)
{
    mpi_stub::set_rank((int)(long)arg);
    try { MpiWorkerPool pool; mpi_lost++; }
    catch(const WorkerExit& e) { if(e.code != 0) mpi_lost++; }
    // a worker that dies leaves the master waiting for ever: reported as a hang
    catch(const std::exception&) { mpi_lost++; }
    return 0;
}
namespace
{
struct Ranks : public IWorkerPool
{
    std::vector<pthread_t> th;
    MpiWorkerPool* pool;
    Ranks()
    {
        live = true;
        mpi_stub::reset(mpi_workers + 1);
        th.resize(mpi_workers);
        for(int i = 0; i < mpi_workers; i++) pthread_create(&th[i], 0, worker_main, (void*)(long)(i + 1));
        pool = new MpiWorkerPool();
    }
    ~Ranks()
    {
        delete pool;
        for(size_t i = 0; i < th.size(); i++) pthread_join(th[i], 0);
        mpi_left += mpi_stub::pending();
        live = false;
    }
    bool IsValid() { return pool->IsValid(); }
    std::vector<ITaskResult::shared_ptr> DoTasks(const std::vector<const ITask*>& t) { return pool->DoTasks(t); }
    std::vector<WorkerStatistics> GetStatistics() { return pool->GetStatistics(); }
};
}
namespace k52 { namespace parallel {
IWorkerPool::shared_ptr WorkerPoolFactory::CreateBestWorkerPool()
{
    if(mpi_on_create) mpi_on_create();
    if(mpi_workers > 0 && !live) return IWorkerPool::shared_ptr(new Ranks());
    return IWorkerPool::shared_ptr(new SequentialWorkerPool());
}
IWorkerPool::shared_ptr WorkerPoolFactory::CreateWorkerPool(WorkerPoolType) { return CreateBestWorkerPool(); }
bool WorkerPoolFactory::CanCreateWorkerPool(WorkerPoolType) { return true; }
bool WorkerPoolFactory::was_mpi_worker_pool_created_ = false;
} }
