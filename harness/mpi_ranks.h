// Stand-in for the pool factory in the MPI builds: the best pool is an MPI pool of this
// process (the real factory makes one per process only), whose worker ranks are threads.
#ifndef MPI_RANKS_H
#define MPI_RANKS_H
// number of worker ranks of the next pool; 0: a sequential pool
extern int mpi_workers;
// messages nobody has received when pools were destroyed, and workers that ended otherwise than asked to
extern long mpi_left, mpi_lost;
extern void (*mpi_on_create)();
// identifiers of the library's own kinds of tasks
const char* mpi_count_task();
const char* mpi_optimization_task();
#endif
