// Stand-in for an MPI library: just what redGrapes/dispatch/mpi/request_pool.hpp uses.
// The harness (harness/mpi.cpp) decides when requests complete and in which order they are reported.
#pragma once
extern "C"
{
    typedef int MPI_Request;
    typedef struct
    {
        int MPI_SOURCE;
        int MPI_TAG;
        int MPI_ERROR;
        int count;
    } MPI_Status;

#define MPI_SUCCESS 0
#define MPI_ERR_PENDING 18
#define MPI_ERR_IN_STATUS 17
#define MPI_UNDEFINED (-32766)
#define MPI_REQUEST_NULL (-1)
#define MPI_STATUS_IGNORE ((MPI_Status*) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status*) 0)

    int MPI_Test(MPI_Request* req, int* flag, MPI_Status* status);
    int MPI_Testany(int n, MPI_Request* reqs, int* index, int* flag, MPI_Status* status);
    int MPI_Testsome(int n, MPI_Request* reqs, int* outcount, int* indices, MPI_Status* statuses);
    int MPI_Testall(int n, MPI_Request* reqs, int* flag, MPI_Status* statuses);
}
