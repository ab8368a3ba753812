/* MPI interface of the simulator. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stddef.h>
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
#ifdef __cplusplus
extern "C" {
#endif
typedef int MPI_Comm; typedef int MPI_Datatype; typedef int MPI_Op; typedef int MPI_Request; typedef int MPI_Group; typedef int MPI_Info; typedef int MPI_Errhandler;
typedef ptrdiff_t MPI_Aint; typedef int MPI_Fint; typedef long long MPI_Offset; typedef long long MPI_Count;
typedef struct MPI_Status { int MPI_SOURCE; int MPI_TAG; int MPI_ERROR; int sim_cancelled; size_t sim_bytes; } MPI_Status;
typedef void (MPI_User_function) (void *, void *, int *, MPI_Datatype *);
enum { MPI_COMM_NULL = 0, MPI_COMM_WORLD = 1, MPI_COMM_SELF = 2 };
enum { MPI_DATATYPE_NULL = 0, MPI_BYTE = 1, MPI_CHAR, MPI_SIGNED_CHAR, MPI_UNSIGNED_CHAR, MPI_SHORT, MPI_UNSIGNED_SHORT, MPI_INT, MPI_UNSIGNED, MPI_LONG, MPI_UNSIGNED_LONG, MPI_LONG_LONG, MPI_LONG_LONG_INT, MPI_FLOAT, MPI_DOUBLE, MPI_LONG_DOUBLE,
  MPI_INT8_T, MPI_INT16_T, MPI_INT32_T, MPI_INT64_T, MPI_UINT8_T, MPI_UINT16_T, MPI_UINT32_T, MPI_UINT64_T, MPI_PACKED, MPI_UNSIGNED_LONG_LONG, MPI_AINT, MPI_OFFSET, MPI_COUNT, MPI_C_BOOL, MPI_INTEGER, MPI_2INT, MPI_DOUBLE_INT, MPI_FLOAT_INT, MPI_LONG_INT, SIM_MPI_NBASIC };
enum { MPI_OP_NULL = 0, MPI_SUM = 1, MPI_MAX, MPI_MIN, MPI_PROD, MPI_BOR, MPI_BAND, MPI_BXOR, MPI_LOR, MPI_LAND, MPI_LXOR, MPI_MAXLOC, MPI_MINLOC };
enum { MPI_REQUEST_NULL = 0 };
enum { MPI_SUCCESS = 0, MPI_ERR_ARG = 12, MPI_ERR_OTHER = 15, MPI_ERR_COMM = 5, MPI_ERR_TYPE = 3, MPI_ERR_COUNT = 2, MPI_ERR_INTERN = 17, MPI_ERR_TRUNCATE = 15 + 1, MPI_ERR_BUFFER = 1, MPI_ERR_REQUEST = 7, MPI_ERR_RANK = 6, MPI_ERR_TAG = 4, MPI_ERR_OP = 10 };
enum { MPI_IDENT = 0, MPI_CONGRUENT = 1, MPI_SIMILAR = 2, MPI_UNEQUAL = 3 };
enum { MPI_THREAD_SINGLE = 0, MPI_THREAD_FUNNELED = 1, MPI_THREAD_SERIALIZED = 2, MPI_THREAD_MULTIPLE = 3 };
enum { MPI_ANY_SOURCE = -1, MPI_ANY_TAG = -1, MPI_PROC_NULL = -2, MPI_UNDEFINED = -32766, MPI_ROOT = -3 };
#define MPI_STATUS_IGNORE ((MPI_Status *) 0)
#define MPI_STATUSES_IGNORE ((MPI_Status *) 0)
#define MPI_IN_PLACE ((void *) 1)
#define MPI_BOTTOM ((void *) 0)
#define MPI_MAX_PROCESSOR_NAME 64
#define MPI_MAX_ERROR_STRING 64
enum { MPI_ERRORS_ARE_FATAL = 1, MPI_ERRORS_RETURN = 2, MPI_INFO_NULL = 0 };
int MPI_Init (int *, char ***); int MPI_Init_thread (int *, char ***, int, int *); int MPI_Initialized (int *); int MPI_Finalized (int *); int MPI_Finalize (void); int MPI_Query_thread (int *); int MPI_Is_thread_main (int *); int MPI_Abort (MPI_Comm, int);
int MPI_Comm_rank (MPI_Comm, int *); int MPI_Comm_size (MPI_Comm, int *); int MPI_Comm_dup (MPI_Comm, MPI_Comm *); int MPI_Comm_split (MPI_Comm, int, int, MPI_Comm *); int MPI_Comm_free (MPI_Comm *); int MPI_Comm_compare (MPI_Comm, MPI_Comm, int *);
MPI_Comm MPI_Comm_f2c (MPI_Fint); MPI_Fint MPI_Comm_c2f (MPI_Comm); MPI_Datatype MPI_Type_f2c (MPI_Fint); MPI_Fint MPI_Type_c2f (MPI_Datatype);
int MPI_Comm_set_errhandler (MPI_Comm, MPI_Errhandler); int MPI_Errhandler_set (MPI_Comm, MPI_Errhandler);
int MPI_Send (const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend (const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Bsend (const void *, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Rsend (const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv (void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend (const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *); int MPI_Issend (const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *); int MPI_Irecv (void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv (const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Sendrecv_replace (void *, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status *);
int MPI_Send_init (const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Recv_init (void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *); int MPI_Start (MPI_Request *); int MPI_Startall (int, MPI_Request *);
int MPI_Wait (MPI_Request *, MPI_Status *); int MPI_Waitall (int, MPI_Request *, MPI_Status *); int MPI_Waitany (int, MPI_Request *, int *, MPI_Status *); int MPI_Waitsome (int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Test (MPI_Request *, int *, MPI_Status *); int MPI_Testall (int, MPI_Request *, int *, MPI_Status *); int MPI_Testany (int, MPI_Request *, int *, int *, MPI_Status *);
int MPI_Probe (int, int, MPI_Comm, MPI_Status *); int MPI_Iprobe (int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Cancel (MPI_Request *); int MPI_Request_free (MPI_Request *); int MPI_Test_cancelled (const MPI_Status *, int *);
int MPI_Get_count (const MPI_Status *, MPI_Datatype, int *);
int MPI_Barrier (MPI_Comm); int MPI_Bcast (void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Gather (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Gatherv (const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, int, MPI_Comm);
int MPI_Scatter (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm); int MPI_Scatterv (const void *, const int *, const int *, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Allgather (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm); int MPI_Allgatherv (const void *, int, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Alltoall (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm); int MPI_Alltoallv (const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm);
int MPI_Ialltoallv (const void *, const int *, const int *, MPI_Datatype, void *, const int *, const int *, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Ialltoall (const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Iallreduce (const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request *); int MPI_Ibarrier (MPI_Comm, MPI_Request *); int MPI_Ibcast (void *, int, MPI_Datatype, int, MPI_Comm, MPI_Request *);
int MPI_Reduce (const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Allreduce (const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Scan (const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Exscan (const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Op_create (MPI_User_function *, int, MPI_Op *); int MPI_Op_free (MPI_Op *);
int MPI_Type_contiguous (int, MPI_Datatype, MPI_Datatype *); int MPI_Type_vector (int, int, int, MPI_Datatype, MPI_Datatype *); int MPI_Type_create_hindexed (int, const int *, const MPI_Aint *, MPI_Datatype, MPI_Datatype *); int MPI_Type_indexed (int, const int *, const int *, MPI_Datatype, MPI_Datatype *); int MPI_Type_create_struct (int, const int *, const MPI_Aint *, const MPI_Datatype *, MPI_Datatype *); int MPI_Type_create_resized (MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype *);
int MPI_Type_dup (MPI_Datatype, MPI_Datatype *);
int MPI_Type_commit (MPI_Datatype *); int MPI_Type_free (MPI_Datatype *); int MPI_Type_size (MPI_Datatype, int *); int MPI_Type_get_extent (MPI_Datatype, MPI_Aint *, MPI_Aint *); int MPI_Get_address (const void *, MPI_Aint *);
double MPI_Wtime (void); double MPI_Wtick (void); int MPI_Get_processor_name (char *, int *); int MPI_Error_string (int, char *, int *);
#ifdef __cplusplus
}
#endif
#endif
