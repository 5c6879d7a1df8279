/* simmpi: a deterministic, adversarial MPI-3.1 subset for checking ARMCI-MPI.
 * Variant (chosen with -DSIM_VARIANT) only changes the vendor macros that the
 * library under test switches on. */
#ifndef SIMMPI_H
#define SIMMPI_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif

#define MPI_VERSION 3
#define MPI_SUBVERSION 1

#ifndef SIM_VARIANT
#define SIM_VARIANT 1
#endif
#if SIM_VARIANT == 1
#define OPEN_MPI 1
#define OMPI_MAJOR_VERSION 4
#define OMPI_MINOR_VERSION 1
#define OMPI_RELEASE_VERSION 6
#elif SIM_VARIANT == 2
#define OPEN_MPI 1
#define OMPI_MAJOR_VERSION 5
#define OMPI_MINOR_VERSION 0
#define OMPI_RELEASE_VERSION 3
#elif SIM_VARIANT == 3
#define MPICH_VERSION "4.2.0"
#define MPICH_NUMVERSION 40200300
#endif

typedef ptrdiff_t MPI_Aint;
typedef long long MPI_Offset;
typedef long long MPI_Count;
typedef int MPI_Fint;

typedef struct simh_comm *MPI_Comm;
typedef struct simh_group *MPI_Group;
typedef struct simh_type *MPI_Datatype;
typedef struct simh_op *MPI_Op;
typedef struct simh_win *MPI_Win;
typedef struct simh_info *MPI_Info;
typedef struct simh_req *MPI_Request;
typedef struct simh_errh *MPI_Errhandler;
typedef struct simh_msg *MPI_Message;

typedef struct MPI_Status {
  int MPI_SOURCE, MPI_TAG, MPI_ERROR;
  int sim_cancelled;
  size_t sim_bytes;
} MPI_Status;

typedef void (MPI_User_function)(void *, void *, int *, MPI_Datatype *);
typedef int (MPI_Comm_copy_attr_function)(MPI_Comm, int, void *, void *, void *, int *);
typedef int (MPI_Comm_delete_attr_function)(MPI_Comm, int, void *, void *);
typedef void (MPI_Comm_errhandler_function)(MPI_Comm *, int *, ...);
typedef void (MPI_Win_errhandler_function)(MPI_Win *, int *, ...);

#define SIM_H(kind, n) ((uintptr_t)(((uintptr_t)(kind) << 40) | ((uintptr_t)(n) << 4)))
#define MPI_COMM_NULL  ((MPI_Comm) SIM_H(0x51, 0))
#define MPI_COMM_WORLD ((MPI_Comm) SIM_H(0x51, 1))
#define MPI_COMM_SELF  ((MPI_Comm) SIM_H(0x51, 2))
#define MPI_GROUP_NULL  ((MPI_Group) SIM_H(0x52, 0))
#define MPI_GROUP_EMPTY ((MPI_Group) SIM_H(0x52, 1))
#define MPI_WIN_NULL ((MPI_Win) SIM_H(0x54, 0))
#define MPI_INFO_NULL ((MPI_Info) SIM_H(0x55, 0))
#define MPI_INFO_ENV ((MPI_Info) SIM_H(0x55, 1))
#define MPI_REQUEST_NULL ((MPI_Request) SIM_H(0x56, 0))
#define MPI_ERRHANDLER_NULL ((MPI_Errhandler) SIM_H(0x58, 0))
#define MPI_ERRORS_ARE_FATAL ((MPI_Errhandler) SIM_H(0x58, 1))
#define MPI_ERRORS_RETURN ((MPI_Errhandler) SIM_H(0x58, 2))

#define MPI_OP_NULL ((MPI_Op) SIM_H(0x57, 0))
#define MPI_SUM     ((MPI_Op) SIM_H(0x57, 1))
#define MPI_PROD    ((MPI_Op) SIM_H(0x57, 2))
#define MPI_MAX     ((MPI_Op) SIM_H(0x57, 3))
#define MPI_MIN     ((MPI_Op) SIM_H(0x57, 4))
#define MPI_LAND    ((MPI_Op) SIM_H(0x57, 5))
#define MPI_LOR     ((MPI_Op) SIM_H(0x57, 6))
#define MPI_LXOR    ((MPI_Op) SIM_H(0x57, 7))
#define MPI_BAND    ((MPI_Op) SIM_H(0x57, 8))
#define MPI_BOR     ((MPI_Op) SIM_H(0x57, 9))
#define MPI_BXOR    ((MPI_Op) SIM_H(0x57, 10))
#define MPI_REPLACE ((MPI_Op) SIM_H(0x57, 11))
#define MPI_NO_OP   ((MPI_Op) SIM_H(0x57, 12))
#define MPI_MAXLOC  ((MPI_Op) SIM_H(0x57, 13))
#define MPI_MINLOC  ((MPI_Op) SIM_H(0x57, 14))

#define SIM_T(n) ((MPI_Datatype) SIM_H(0x53, n))
#define MPI_DATATYPE_NULL SIM_T(0)
#define MPI_BYTE SIM_T(1)
#define MPI_CHAR SIM_T(2)
#define MPI_SIGNED_CHAR SIM_T(3)
#define MPI_UNSIGNED_CHAR SIM_T(4)
#define MPI_SHORT SIM_T(5)
#define MPI_UNSIGNED_SHORT SIM_T(6)
#define MPI_INT SIM_T(7)
#define MPI_UNSIGNED SIM_T(8)
#define MPI_LONG SIM_T(9)
#define MPI_UNSIGNED_LONG SIM_T(10)
#define MPI_LONG_LONG SIM_T(11)
#define MPI_LONG_LONG_INT SIM_T(11)
#define MPI_UNSIGNED_LONG_LONG SIM_T(12)
#define MPI_FLOAT SIM_T(13)
#define MPI_DOUBLE SIM_T(14)
#define MPI_LONG_DOUBLE SIM_T(15)
#define MPI_C_BOOL SIM_T(16)
#define MPI_INT8_T SIM_T(17)
#define MPI_INT16_T SIM_T(18)
#define MPI_INT32_T SIM_T(19)
#define MPI_INT64_T SIM_T(20)
#define MPI_UINT8_T SIM_T(21)
#define MPI_UINT16_T SIM_T(22)
#define MPI_UINT32_T SIM_T(23)
#define MPI_UINT64_T SIM_T(24)
#define MPI_AINT SIM_T(25)
#define MPI_OFFSET SIM_T(26)
#define MPI_COUNT SIM_T(27)
#define MPI_PACKED SIM_T(28)
#define MPI_C_COMPLEX SIM_T(29)
#define MPI_C_FLOAT_COMPLEX SIM_T(29)
#define MPI_C_DOUBLE_COMPLEX SIM_T(30)
#define MPI_COMPLEX SIM_T(31)
#define MPI_DOUBLE_COMPLEX SIM_T(32)
#define MPI_INTEGER SIM_T(33)
#define MPI_REAL SIM_T(34)
#define MPI_DOUBLE_PRECISION SIM_T(35)
#define MPI_2INT SIM_T(36)
#define MPI_WCHAR SIM_T(37)
#define SIM_NBASIC 38

#define MPI_SUCCESS 0
#define MPI_ERR_BUFFER 1
#define MPI_ERR_COUNT 2
#define MPI_ERR_TYPE 3
#define MPI_ERR_TAG 4
#define MPI_ERR_COMM 5
#define MPI_ERR_RANK 6
#define MPI_ERR_REQUEST 7
#define MPI_ERR_ROOT 8
#define MPI_ERR_GROUP 9
#define MPI_ERR_OP 10
#define MPI_ERR_TOPOLOGY 11
#define MPI_ERR_DIMS 12
#define MPI_ERR_ARG 13
#define MPI_ERR_UNKNOWN 14
#define MPI_ERR_TRUNCATE 15
#define MPI_ERR_OTHER 16
#define MPI_ERR_INTERN 17
#define MPI_ERR_IN_STATUS 18
#define MPI_ERR_PENDING 19
#define MPI_ERR_WIN 45
#define MPI_ERR_NO_MEM 34
#define MPI_ERR_RMA_SYNC 50
#define MPI_ERR_RMA_RANGE 55
#define MPI_ERR_LASTCODE 92

#define MPI_ANY_SOURCE (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-4)
#define MPI_ANY_TAG (-1)
#define MPI_UNDEFINED (-32766)
#define MPI_BOTTOM ((void *) 0)
#define MPI_IN_PLACE ((void *) 1)
#define MPI_STATUS_IGNORE ((MPI_Status *) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status *) 0)
#define MPI_ERRCODES_IGNORE ((int *) 0)
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_LIBRARY_VERSION_STRING 256
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_OBJECT_NAME 64
#define MPI_MAX_INFO_KEY 255
#define MPI_MAX_INFO_VAL 1024
#define MPI_KEYVAL_INVALID (-1)
#define MPI_BSEND_OVERHEAD 128

#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3

#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3

#define MPI_ORDER_C 56
#define MPI_ORDER_FORTRAN 57

#define MPI_LOCK_EXCLUSIVE 234
#define MPI_LOCK_SHARED 235
#define MPI_MODE_NOCHECK 1024
#define MPI_MODE_NOSTORE 2048
#define MPI_MODE_NOPUT 4096
#define MPI_MODE_NOPRECEDE 8192
#define MPI_MODE_NOSUCCEED 16384

#define MPI_TAG_UB 9001
#define MPI_HOST 9002
#define MPI_IO 9003
#define MPI_WTIME_IS_GLOBAL 9004
#define MPI_APPNUM 9005
#define MPI_UNIVERSE_SIZE 9006
#define MPI_WIN_BASE 9011
#define MPI_WIN_SIZE 9012
#define MPI_WIN_DISP_UNIT 9013
#define MPI_WIN_CREATE_FLAVOR 9014
#define MPI_WIN_MODEL 9015
#define MPI_WIN_FLAVOR_CREATE 1
#define MPI_WIN_FLAVOR_ALLOCATE 2
#define MPI_WIN_FLAVOR_DYNAMIC 3
#define MPI_WIN_FLAVOR_SHARED 4
#define MPI_WIN_SEPARATE 1
#define MPI_WIN_UNIFIED 2
#define MPI_COMM_TYPE_SHARED 1

int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Finalize(void);
int MPI_Initialized(int *);
int MPI_Finalized(int *);
int MPI_Query_thread(int *);
int MPI_Is_thread_main(int *);
int MPI_Abort(MPI_Comm, int);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Get_version(int *, int *);
int MPI_Get_library_version(char *, int *);
int MPI_Get_processor_name(char *, int *);
int MPI_Error_string(int, char *, int *);
int MPI_Error_class(int, int *);

int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_remote_size(MPI_Comm, int *);
int MPI_Comm_remote_group(MPI_Comm, MPI_Group *);
int MPI_Comm_test_inter(MPI_Comm, int *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_dup_with_info(MPI_Comm, MPI_Info, MPI_Comm *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm *);
int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm *);
int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_disconnect(MPI_Comm *);
int MPI_Comm_group(MPI_Comm, MPI_Group *);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int *);
int MPI_Comm_set_name(MPI_Comm, const char *);
int MPI_Comm_get_name(MPI_Comm, char *, int *);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_Comm_set_info(MPI_Comm, MPI_Info);
int MPI_Comm_get_attr(MPI_Comm, int, void *, int *);
int MPI_Intercomm_create(MPI_Comm, int, MPI_Comm, int, int, MPI_Comm *);
int MPI_Intercomm_merge(MPI_Comm, int, MPI_Comm *);

int MPI_Group_size(MPI_Group, int *);
int MPI_Group_rank(MPI_Group, int *);
int MPI_Group_incl(MPI_Group, int, const int[], MPI_Group *);
int MPI_Group_excl(MPI_Group, int, const int[], MPI_Group *);
int MPI_Group_range_incl(MPI_Group, int, int[][3], MPI_Group *);
int MPI_Group_union(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_intersection(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_difference(MPI_Group, MPI_Group, MPI_Group *);
int MPI_Group_translate_ranks(MPI_Group, int, const int[], MPI_Group, int[]);
int MPI_Group_compare(MPI_Group, MPI_Group, int *);
int MPI_Group_free(MPI_Group *);

int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *);
int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Sendrecv_replace(void *, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Get_elements(const MPI_Status *, MPI_Datatype, int *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request[], MPI_Status[]);
int MPI_Waitany(int, MPI_Request[], int *, MPI_Status *);
int MPI_Waitsome(int, MPI_Request[], int *, int[], MPI_Status[]);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Testall(int, MPI_Request[], int *, MPI_Status[]);
int MPI_Testany(int, MPI_Request[], int *, int *, MPI_Status *);
int MPI_Testsome(int, MPI_Request[], int *, int[], MPI_Status[]);
int MPI_Request_free(MPI_Request *);
int MPI_Request_get_status(MPI_Request, int *, MPI_Status *);

int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request *);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Reduce_local(const void *, void *, int, MPI_Datatype, MPI_Op);
int MPI_Reduce_scatter_block(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int[], const int[], MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int[], const int[], MPI_Datatype, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);

int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hvector(int, int, MPI_Aint, MPI_Datatype, MPI_Datatype *);
int MPI_Type_indexed(int, const int[], const int[], MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hindexed(int, const int[], const MPI_Aint[], MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_indexed_block(int, int, const int[], MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_hindexed_block(int, int, const MPI_Aint[], MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_struct(int, const int[], const MPI_Aint[], const MPI_Datatype[], MPI_Datatype *);
int MPI_Type_create_subarray(int, const int[], const int[], const int[], int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype *);
int MPI_Type_dup(MPI_Datatype, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *);
int MPI_Type_free(MPI_Datatype *);
int MPI_Type_size(MPI_Datatype, int *);
int MPI_Type_size_x(MPI_Datatype, MPI_Count *);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *);
int MPI_Type_get_extent_x(MPI_Datatype, MPI_Count *, MPI_Count *);
int MPI_Type_get_true_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *);
int MPI_Type_get_true_extent_x(MPI_Datatype, MPI_Count *, MPI_Count *);
int MPI_Type_set_name(MPI_Datatype, const char *);
int MPI_Type_get_name(MPI_Datatype, char *, int *);
int MPI_Pack(const void *, int, MPI_Datatype, void *, int, int *, MPI_Comm);
int MPI_Unpack(const void *, int, int *, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Pack_size(int, MPI_Datatype, MPI_Comm, int *);
int MPI_Get_address(const void *, MPI_Aint *);
MPI_Aint MPI_Aint_add(MPI_Aint, MPI_Aint);
MPI_Aint MPI_Aint_diff(MPI_Aint, MPI_Aint);

int MPI_Op_create(MPI_User_function *, int, MPI_Op *);
int MPI_Op_free(MPI_Op *);
int MPI_Op_commutative(MPI_Op, int *);

int MPI_Info_create(MPI_Info *);
int MPI_Info_set(MPI_Info, const char *, const char *);
int MPI_Info_get(MPI_Info, const char *, int, char *, int *);
int MPI_Info_get_valuelen(MPI_Info, const char *, int *, int *);
int MPI_Info_get_nkeys(MPI_Info, int *);
int MPI_Info_get_nthkey(MPI_Info, int, char *);
int MPI_Info_delete(MPI_Info, const char *);
int MPI_Info_dup(MPI_Info, MPI_Info *);
int MPI_Info_free(MPI_Info *);

int MPI_Alloc_mem(MPI_Aint, MPI_Info, void *);
int MPI_Free_mem(void *);

int MPI_Win_create(void *, MPI_Aint, int, MPI_Info, MPI_Comm, MPI_Win *);
int MPI_Win_allocate(MPI_Aint, int, MPI_Info, MPI_Comm, void *, MPI_Win *);
int MPI_Win_allocate_shared(MPI_Aint, int, MPI_Info, MPI_Comm, void *, MPI_Win *);
int MPI_Win_shared_query(MPI_Win, int, MPI_Aint *, int *, void *);
int MPI_Win_free(MPI_Win *);
int MPI_Win_lock(int, int, int, MPI_Win);
int MPI_Win_unlock(int, MPI_Win);
int MPI_Win_lock_all(int, MPI_Win);
int MPI_Win_unlock_all(MPI_Win);
int MPI_Win_flush(int, MPI_Win);
int MPI_Win_flush_all(MPI_Win);
int MPI_Win_flush_local(int, MPI_Win);
int MPI_Win_flush_local_all(MPI_Win);
int MPI_Win_sync(MPI_Win);
int MPI_Win_fence(int, MPI_Win);
int MPI_Win_get_attr(MPI_Win, int, void *, int *);
int MPI_Win_get_group(MPI_Win, MPI_Group *);
int MPI_Win_set_info(MPI_Win, MPI_Info);
int MPI_Win_get_info(MPI_Win, MPI_Info *);
int MPI_Win_set_name(MPI_Win, const char *);
int MPI_Win_get_name(MPI_Win, char *, int *);
int MPI_Win_set_errhandler(MPI_Win, MPI_Errhandler);

int MPI_Put(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Get(void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win);
int MPI_Accumulate(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Get_accumulate(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win);
int MPI_Fetch_and_op(const void *, void *, MPI_Datatype, int, MPI_Aint, MPI_Op, MPI_Win);
int MPI_Compare_and_swap(const void *, const void *, void *, MPI_Datatype, int, MPI_Aint, MPI_Win);
int MPI_Rput(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request *);
int MPI_Rget(void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Win, MPI_Request *);
int MPI_Raccumulate(const void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win, MPI_Request *);
int MPI_Rget_accumulate(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Aint, int, MPI_Datatype, MPI_Op, MPI_Win, MPI_Request *);

#ifdef __cplusplus
}
#endif
#endif
