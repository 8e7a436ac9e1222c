#include <mpi.h>
#undef OMPI_MAJOR_VERSION
#define OMPI_MAJOR_VERSION 5
