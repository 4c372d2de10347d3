// Force-included in the MPI builds: a worker process that would exit ends its thread.
#ifndef VERIF_MPI_SHIM_H
#define VERIF_MPI_SHIM_H
#include <cstdlib>
#include <stdlib.h>
#include <unistd.h>
#include <stdexcept>
#include <iostream>
#include <sstream>
#include <list>
#include <vector>
#include <string>
struct WorkerExit { int code; };
void verif_exit(int code);
namespace std { using ::verif_exit; }
#define exit verif_exit
#endif
