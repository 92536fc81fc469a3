// Stand-in for MPI where only MPI_Abort matters.
#pragma once
#include <unistd.h>
typedef int MPI_Comm;
#define MPI_COMM_WORLD 0
inline int MPI_Abort(MPI_Comm, int code) { _exit(code); }
