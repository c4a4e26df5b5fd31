// Simulated MPI: the subset preCICE uses, implemented by the simulator (mpi.cpp).
#pragma once
#include <cstddef>
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
typedef struct SimMpiComm *MPI_Comm;
typedef struct SimMpiReq  *MPI_Request;
typedef int                MPI_Datatype;
typedef int                MPI_Op;
typedef int                MPI_Info;
typedef int                MPI_Fint;
struct MPI_Status {
  int MPI_SOURCE, MPI_TAG, MPI_ERROR;
  int bytes;
};
#define MPI_COMM_NULL ((MPI_Comm)0)
#define MPI_COMM_WORLD ((MPI_Comm)1)
#define MPI_COMM_SELF ((MPI_Comm)2)
#define MPI_REQUEST_NULL ((MPI_Request)0)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_INFO_NULL 0
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_UNDEFINED (-32766)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_MAX_PORT_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_MULTIPLE 3
// datatype = code<<8 | size
#define MPI_CHAR (0x100 | 1)
#define MPI_UNSIGNED_CHAR (0x200 | 1)
#define MPI_UNSIGNED_SHORT (0x300 | 2)
#define MPI_INT (0x400 | 4)
#define MPI_UNSIGNED (0x500 | 4)
#define MPI_UNSIGNED_LONG (0x600 | 8)
#define MPI_LONG (0x700 | 8)
#define MPI_DOUBLE (0x800 | 8)
#define MPI_BYTE (0x900 | 1)
#define MPI_LONG_LONG (0xa00 | 8)
#define MPI_FLOAT (0xb00 | 4)
#define MPI_C_BOOL (0xc00 | 1)
#define MPI_CXX_BOOL MPI_C_BOOL
#define MPI_SUM 1
#define MPI_MIN 2
#define MPI_MAX 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
extern "C" {
int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalized(int *);
int MPI_Finalize();
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_remote_size(MPI_Comm, int *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_disconnect(MPI_Comm *);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Open_port(MPI_Info, char *);
int MPI_Close_port(const char *);
int MPI_Comm_accept(const char *, MPI_Info, int, MPI_Comm, MPI_Comm *);
int MPI_Comm_connect(const char *, MPI_Info, int, MPI_Comm, MPI_Comm *);
int MPI_Error_string(int, char *, int *);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime();
MPI_Comm MPI_Comm_f2c(MPI_Fint);
MPI_Fint MPI_Comm_c2f(MPI_Comm);
}
