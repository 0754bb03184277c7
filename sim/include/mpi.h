/* MPI interface of the simulator (a subset of MPI-3.1). */
#pragma once
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm;
typedef int MPI_Datatype;
typedef int MPI_Op;
typedef int MPI_Request;
typedef int MPI_Group;
typedef int MPI_Info;
typedef int MPI_Errhandler;
typedef long MPI_Aint;
typedef long long MPI_Offset;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR, sim_count; } MPI_Status;

#define MPI_COMM_NULL 0
#define MPI_COMM_WORLD 1
#define MPI_COMM_SELF 2
#define MPI_DATATYPE_NULL 0
#define MPI_CHAR 0x101
#define MPI_SIGNED_CHAR 0x102
#define MPI_UNSIGNED_CHAR 0x103
#define MPI_BYTE 0x104
#define MPI_SHORT 0x201
#define MPI_UNSIGNED_SHORT 0x202
#define MPI_INT 0x401
#define MPI_UNSIGNED 0x402
#define MPI_FLOAT 0x403
#define MPI_INT32_T 0x401
#define MPI_UINT32_T 0x402
#define MPI_LONG 0x801
#define MPI_UNSIGNED_LONG 0x802
#define MPI_LONG_LONG 0x801
#define MPI_LONG_LONG_INT 0x801
#define MPI_UNSIGNED_LONG_LONG 0x802
#define MPI_INT64_T 0x801
#define MPI_UINT64_T 0x802
#define MPI_DOUBLE 0x803
#define MPI_CXX_BOOL 0x110
#define MPI_C_BOOL 0x110
#define MPI_DOUBLE_INT 0x1001
#define MPI_OP_NULL 0
#define MPI_SUM 1
#define MPI_MIN 2
#define MPI_MAX 3
#define MPI_PROD 4
#define MPI_LAND 5
#define MPI_LOR 6
#define MPI_BAND 7
#define MPI_BOR 8
#define MPI_MINLOC 9
#define MPI_MAXLOC 10
#define MPI_REQUEST_NULL 0
#define MPI_INFO_NULL 0
#define MPI_SUCCESS 0
#define MPI_ERR_ARG 13
#define MPI_ERR_OTHER 16
#define MPI_PROC_NULL (-2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_IN_PLACE ((void*)-1)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 2
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_MAX_PROCESSOR_NAME 128
#define MPI_MAX_ERROR_STRING 256
#define MPI_COMM_TYPE_SHARED 1

int MPI_Init(int*, char***);
int MPI_Init_thread(int*, char***, int, int*);
int MPI_Finalize(void);
int MPI_Initialized(int*);
int MPI_Finalized(int*);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Get_processor_name(char*, int*);
int MPI_Error_string(int, char*, int*);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Comm_rank(MPI_Comm, int*);
int MPI_Comm_size(MPI_Comm, int*);
int MPI_Comm_dup(MPI_Comm, MPI_Comm*);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*);
int MPI_Comm_free(MPI_Comm*);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*);
int MPI_Dims_create(int, int, int*);
int MPI_Cart_create(MPI_Comm, int, int const*, int const*, int, MPI_Comm*);
int MPI_Cart_coords(MPI_Comm, int, int, int*);
int MPI_Cart_rank(MPI_Comm, int const*, int*);
int MPI_Cart_shift(MPI_Comm, int, int, int*, int*);
int MPI_Cart_sub(MPI_Comm, int const*, MPI_Comm*);
int MPI_Cart_get(MPI_Comm, int, int*, int*, int*);
int MPI_Cartdim_get(MPI_Comm, int*);
int MPI_Send(void const*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(void const*, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Sendrecv(void const*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*);
int MPI_Sendrecv_replace(void*, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status*);
int MPI_Isend(void const*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*);
int MPI_Wait(MPI_Request*, MPI_Status*);
int MPI_Waitall(int, MPI_Request*, MPI_Status*);
int MPI_Test(MPI_Request*, int*, MPI_Status*);
int MPI_Get_count(MPI_Status const*, MPI_Datatype, int*);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(void const*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(void const*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(void const*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(void const*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(void const*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(void const*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Scatter(void const*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgatherv(void const*, int, MPI_Datatype, void*, int const*, int const*, MPI_Datatype, MPI_Comm);
int MPI_Gatherv(void const*, int, MPI_Datatype, void*, int const*, int const*, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(void const*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Testall(int, MPI_Request*, int*, MPI_Status*);
int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*);
int MPI_Probe(int, int, MPI_Comm, MPI_Status*);
int MPI_Type_size(MPI_Datatype, int*);
#ifdef __cplusplus
}
#endif
