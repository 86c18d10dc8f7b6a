/* Simulated MPI: the subset of the C API a message-passing C++ library may use,
 * implemented by sim/rt/mpi.cpp on the deterministic scheduler. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request; typedef long MPI_Aint; typedef int MPI_Errhandler; typedef int MPI_Info; typedef int MPI_Group; typedef long long MPI_Count;
typedef struct MPI_Status { int MPI_SOURCE, MPI_TAG, MPI_ERROR; size_t _bytes; int _cancelled; } MPI_Status;
typedef void MPI_User_function(void*, void*, int*, MPI_Datatype*);
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_ERRORS_ARE_FATAL 1
#define MPI_ERRORS_RETURN 2
#define MPI_INFO_NULL 0
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-4)
#define MPI_UNDEFINED (-32766)
#define MPI_REQUEST_NULL 0
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_IN_PLACE ((void*)1)
#define MPI_BOTTOM ((void*)0)
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_TAG_UB 4
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
enum { MPI_DATATYPE_NULL = 0, MPI_CHAR = 1, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_BYTE, MPI_SHORT, MPI_UNSIGNED_SHORT, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_UNSIGNED_LONG_LONG, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE, MPI_C_BOOL, MPI_CXX_BOOL, MPI_INT8_T, MPI_UINT8_T, MPI_INT16_T, MPI_UINT16_T, MPI_INT32_T, MPI_UINT32_T, MPI_INT64_T, MPI_UINT64_T, MPI_DOUBLE_INT, MPI_2INT, MPI_AINT_T, MPI_LAST_TYPE };
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_AINT MPI_AINT_T
enum { MPI_OP_NULL = 0, MPI_MAX = 1, MPI_MIN, MPI_SUM, MPI_PROD, MPI_LAND, MPI_BAND, MPI_LOR, MPI_BOR, MPI_LXOR, MPI_BXOR, MPI_MAXLOC, MPI_MINLOC, MPI_REPLACE };
int MPI_Init(int*, char***); int MPI_Init_thread(int*, char***, int, int*); int MPI_Initialized(int*); int MPI_Finalized(int*); int MPI_Finalize(void); int MPI_Abort(MPI_Comm, int); int MPI_Query_thread(int*); int MPI_Is_thread_main(int*);
int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*); int MPI_Comm_dup(MPI_Comm, MPI_Comm*); int MPI_Comm_free(MPI_Comm*); int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler); int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Get_processor_name(char*, int*); double MPI_Wtime(void); double MPI_Wtick(void); int MPI_Type_size(MPI_Datatype, int*); int MPI_Error_string(int, char*, int*);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*); int MPI_Type_commit(MPI_Datatype*); int MPI_Type_free(MPI_Datatype*);
int MPI_Op_create(MPI_User_function*, int, MPI_Op*); int MPI_Op_free(MPI_Op*);
int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*); int MPI_Get_elements(const MPI_Status*, MPI_Datatype, int*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*); int MPI_Waitall(int, MPI_Request*, MPI_Status*); int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*); int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*); int MPI_Test(MPI_Request*, int*, MPI_Status*); int MPI_Testall(int, MPI_Request*, int*, MPI_Status*); int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*); int MPI_Request_free(MPI_Request*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*); int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Reduce_scatter_block(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Reduce_scatter(const void*, void*, const int*, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm); int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm); int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm); int MPI_Scatterv(const void*, const int*, const int*, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm); int MPI_Alltoallv(const void*, const int*, const int*, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm);
#ifdef __cplusplus
}
#endif
#endif
