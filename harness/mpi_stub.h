#ifndef MPI_STUB_H
#define MPI_STUB_H
#include <any>
#include <functional>
namespace mpi_stub
{
void reset(int size);
void set_rank(int r);       // of the calling thread
void set_delay(int kind, unsigned long long seed);
extern std::function<void(int from, int to, const std::any&)> on_post;
int pending();              // undelivered messages
}
#endif
