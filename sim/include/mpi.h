/* mpi.h of the simulated message layer: implemented in simmpi.cpp */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct SimComm * MPI_Comm;
typedef struct SimType * MPI_Datatype;
typedef struct SimReq * MPI_Request;
typedef struct SimOp * MPI_Op;
typedef struct SimGroup * MPI_Group;
typedef struct SimInfo * MPI_Info;
typedef ptrdiff_t MPI_Aint;
typedef long long MPI_Offset;
typedef struct MPI_Status { int MPI_SOURCE; int MPI_TAG; int MPI_ERROR; size_t sim_bytes; } MPI_Status;

MPI_Comm sim_mpi_world(void);
MPI_Comm sim_mpi_self(void);
#define MPI_COMM_WORLD (sim_mpi_world())
#define MPI_COMM_SELF (sim_mpi_self())
#define MPI_COMM_NULL ((MPI_Comm) 0)
#define MPI_REQUEST_NULL ((MPI_Request) 0)
#define MPI_DATATYPE_NULL ((MPI_Datatype) 0)
#define MPI_INFO_NULL ((MPI_Info) 0)
#define MPI_IN_PLACE ((void *) (intptr_t) -1)
#define MPI_BOTTOM ((void *) 0)
#define MPI_STATUS_IGNORE ((MPI_Status *) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status *) 0)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-3)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_ERR_OTHER 15
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#define MPI_COMM_TYPE_SHARED 1
#define MPI_ERRORS_RETURN 1
#define MPI_ERRORS_ARE_FATAL 0

#define SIM_T(n) extern struct SimType sim_t_##n;
SIM_T(char) SIM_T(schar) SIM_T(uchar) SIM_T(byte) SIM_T(short) SIM_T(ushort) SIM_T(int) SIM_T(uint)
SIM_T(long) SIM_T(ulong) SIM_T(llong) SIM_T(ullong) SIM_T(float) SIM_T(double) SIM_T(aint) SIM_T(cbool)
SIM_T(int8) SIM_T(int16) SIM_T(int32) SIM_T(int64) SIM_T(uint8) SIM_T(uint16) SIM_T(uint32) SIM_T(uint64) SIM_T(offset)
SIM_T(intint) SIM_T(doubleint) SIM_T(longint)
#undef SIM_T
#define MPI_CHAR (&sim_t_char)
#define MPI_SIGNED_CHAR (&sim_t_schar)
#define MPI_UNSIGNED_CHAR (&sim_t_uchar)
#define MPI_BYTE (&sim_t_byte)
#define MPI_PACKED (&sim_t_byte)
#define MPI_SHORT (&sim_t_short)
#define MPI_UNSIGNED_SHORT (&sim_t_ushort)
#define MPI_INT (&sim_t_int)
#define MPI_UNSIGNED (&sim_t_uint)
#define MPI_LONG (&sim_t_long)
#define MPI_UNSIGNED_LONG (&sim_t_ulong)
#define MPI_LONG_LONG (&sim_t_llong)
#define MPI_LONG_LONG_INT (&sim_t_llong)
#define MPI_UNSIGNED_LONG_LONG (&sim_t_ullong)
#define MPI_FLOAT (&sim_t_float)
#define MPI_DOUBLE (&sim_t_double)
#define MPI_AINT (&sim_t_aint)
#define MPI_OFFSET (&sim_t_offset)
#define MPI_C_BOOL (&sim_t_cbool)
#define MPI_INT8_T (&sim_t_int8)
#define MPI_INT16_T (&sim_t_int16)
#define MPI_INT32_T (&sim_t_int32)
#define MPI_INT64_T (&sim_t_int64)
#define MPI_UINT8_T (&sim_t_uint8)
#define MPI_UINT16_T (&sim_t_uint16)
#define MPI_UINT32_T (&sim_t_uint32)
#define MPI_UINT64_T (&sim_t_uint64)
#define MPI_2INT (&sim_t_intint)
#define MPI_DOUBLE_INT (&sim_t_doubleint)
#define MPI_LONG_INT (&sim_t_longint)

#define SIM_O(n) extern struct SimOp sim_o_##n;
SIM_O(sum) SIM_O(max) SIM_O(min) SIM_O(prod) SIM_O(lor) SIM_O(land) SIM_O(bor) SIM_O(band) SIM_O(bxor) SIM_O(lxor) SIM_O(maxloc) SIM_O(minloc)
#undef SIM_O
#define MPI_SUM (&sim_o_sum)
#define MPI_MAX (&sim_o_max)
#define MPI_MIN (&sim_o_min)
#define MPI_PROD (&sim_o_prod)
#define MPI_LOR (&sim_o_lor)
#define MPI_LAND (&sim_o_land)
#define MPI_LXOR (&sim_o_lxor)
#define MPI_BOR (&sim_o_bor)
#define MPI_BAND (&sim_o_band)
#define MPI_BXOR (&sim_o_bxor)
#define MPI_MAXLOC (&sim_o_maxloc)
#define MPI_MINLOC (&sim_o_minloc)

int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalize(void);
int MPI_Finalized(int *);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
int MPI_Get_processor_name(char *, int *);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int *);
int MPI_Comm_set_errhandler(MPI_Comm, int);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_struct(int, const int *, const MPI_Aint *, const MPI_Datatype *, MPI_Datatype *);
int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype *);
int MPI_Type_dup(MPI_Datatype, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *);
int MPI_Type_free(MPI_Datatype *);
int MPI_Type_size(MPI_Datatype, int *);
int MPI_Type_extent(MPI_Datatype, MPI_Aint *);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Barrier(MPI_Comm);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Alltoallv(const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request *, MPI_Status *);
int MPI_Waitany(int, MPI_Request *, int *, MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Testall(int, MPI_Request *, int *, MPI_Status *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *);
int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Error_string(int, char *, int *);
#ifdef __cplusplus
}
#endif
#endif
