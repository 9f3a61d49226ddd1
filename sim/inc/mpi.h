/* MPI interface of the simulator.  Only what an MPI program of this kind uses;
   every function is implemented in sim/host/mpi.cc. */
#ifndef SIM_MPI_H
#define SIM_MPI_H
#include <stdint.h>
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef struct sim_comm_s *MPI_Comm;
typedef struct sim_type_s *MPI_Datatype;
typedef struct sim_op_s *MPI_Op;
typedef struct sim_req_s *MPI_Request;
typedef struct sim_file_s *MPI_File;
typedef struct sim_info_s *MPI_Info;
typedef struct sim_errh_s *MPI_Errhandler;
typedef struct sim_msg_s *MPI_Message;
typedef struct sim_group_s *MPI_Group;
typedef int64_t MPI_Offset;
typedef int64_t MPI_Count;
typedef intptr_t MPI_Aint;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int cancelled; size_t bytes; } MPI_Status;

#define SIM_H(T, n) ((T)(intptr_t)(n))
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_MAX_LIBRARY_VERSION_STRING 256
#define MPI_COMM_NULL SIM_H(MPI_Comm, 0)
#define MPI_COMM_WORLD SIM_H(MPI_Comm, 0x101)
#define MPI_COMM_SELF SIM_H(MPI_Comm, 0x102)
#define MPI_REQUEST_NULL SIM_H(MPI_Request, 0)
#define MPI_FILE_NULL SIM_H(MPI_File, 0)
#define MPI_INFO_NULL SIM_H(MPI_Info, 0)
#define MPI_MESSAGE_NULL SIM_H(MPI_Message, 0)
#define MPI_MESSAGE_NO_PROC SIM_H(MPI_Message, 1)
#define MPI_STATUS_IGNORE ((MPI_Status *)0)
#define MPI_STATUSES_IGNORE ((MPI_Status *)0)
#define MPI_IN_PLACE ((void *)1)
#define MPI_BOTTOM ((void *)0)
#define MPI_DATATYPE_NULL SIM_H(MPI_Datatype, 0)
/* low byte of a type handle is its size in bytes */
#define MPI_CHAR SIM_H(MPI_Datatype, 0x1001)
#define MPI_PACKED SIM_H(MPI_Datatype, 0x2801)
#define MPI_BYTE SIM_H(MPI_Datatype, 0x1101)
#define MPI_SIGNED_CHAR SIM_H(MPI_Datatype, 0x1201)
#define MPI_UNSIGNED_CHAR SIM_H(MPI_Datatype, 0x1301)
#define MPI_SHORT SIM_H(MPI_Datatype, 0x1402)
#define MPI_UNSIGNED_SHORT SIM_H(MPI_Datatype, 0x1502)
#define MPI_INT SIM_H(MPI_Datatype, 0x1604)
#define MPI_UNSIGNED SIM_H(MPI_Datatype, 0x1704)
#define MPI_LONG SIM_H(MPI_Datatype, 0x1808)
#define MPI_UNSIGNED_LONG SIM_H(MPI_Datatype, 0x1908)
#define MPI_LONG_LONG SIM_H(MPI_Datatype, 0x1a08)
#define MPI_LONG_LONG_INT MPI_LONG_LONG
#define MPI_UNSIGNED_LONG_LONG SIM_H(MPI_Datatype, 0x1b08)
#define MPI_FLOAT SIM_H(MPI_Datatype, 0x1c04)
#define MPI_DOUBLE SIM_H(MPI_Datatype, 0x1d08)
#define MPI_INT8_T SIM_H(MPI_Datatype, 0x1e01)
#define MPI_UINT8_T SIM_H(MPI_Datatype, 0x1f01)
#define MPI_INT32_T SIM_H(MPI_Datatype, 0x2004)
#define MPI_UINT32_T SIM_H(MPI_Datatype, 0x2104)
#define MPI_INT64_T SIM_H(MPI_Datatype, 0x2208)
#define MPI_UINT64_T SIM_H(MPI_Datatype, 0x2308)
#define MPI_C_BOOL SIM_H(MPI_Datatype, 0x2401)
#define MPI_CXX_BOOL SIM_H(MPI_Datatype, 0x2401)
#define MPI_OFFSET SIM_H(MPI_Datatype, 0x2508)
#define MPI_AINT SIM_H(MPI_Datatype, 0x2608)
#define MPI_DOUBLE_INT SIM_H(MPI_Datatype, 0x2710)
#define MPI_OP_NULL SIM_H(MPI_Op, 0)
#define MPI_SUM SIM_H(MPI_Op, 1)
#define MPI_MAX SIM_H(MPI_Op, 2)
#define MPI_MIN SIM_H(MPI_Op, 3)
#define MPI_PROD SIM_H(MPI_Op, 4)
#define MPI_LAND SIM_H(MPI_Op, 5)
#define MPI_LOR SIM_H(MPI_Op, 6)
#define MPI_BAND SIM_H(MPI_Op, 7)
#define MPI_BOR SIM_H(MPI_Op, 8)
#define MPI_BXOR SIM_H(MPI_Op, 9)
#define MPI_MAXLOC SIM_H(MPI_Op, 10)
#define MPI_MINLOC SIM_H(MPI_Op, 11)
#define MPI_ERRORS_ARE_FATAL SIM_H(MPI_Errhandler, 1)
#define MPI_ERRORS_RETURN SIM_H(MPI_Errhandler, 2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-2)
#define MPI_PROC_NULL (-3)
#define MPI_ROOT (-4)
#define MPI_UNDEFINED (-32766)
#define MPI_TAG_UB 5
enum { MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE };
enum { MPI_SUCCESS = 0, MPI_ERR_BUFFER, MPI_ERR_COUNT, MPI_ERR_TYPE, MPI_ERR_TAG, MPI_ERR_COMM,
       MPI_ERR_RANK, MPI_ERR_REQUEST, MPI_ERR_ROOT, MPI_ERR_OP, MPI_ERR_ARG, MPI_ERR_TRUNCATE,
       MPI_ERR_OTHER, MPI_ERR_INTERN, MPI_ERR_IN_STATUS, MPI_ERR_PENDING, MPI_ERR_ACCESS,
       MPI_ERR_AMODE, MPI_ERR_BAD_FILE, MPI_ERR_FILE, MPI_ERR_FILE_EXISTS, MPI_ERR_FILE_IN_USE,
       MPI_ERR_IO, MPI_ERR_NO_SPACE, MPI_ERR_NO_SUCH_FILE, MPI_ERR_QUOTA, MPI_ERR_READ_ONLY,
       MPI_ERR_UNKNOWN, MPI_ERR_LASTCODE };
enum { MPI_MODE_CREATE = 1, MPI_MODE_RDONLY = 2, MPI_MODE_WRONLY = 4, MPI_MODE_RDWR = 8,
       MPI_MODE_DELETE_ON_CLOSE = 16, MPI_MODE_UNIQUE_OPEN = 32, MPI_MODE_EXCL = 64,
       MPI_MODE_APPEND = 128, MPI_MODE_SEQUENTIAL = 256 };
enum { MPI_SEEK_SET = 600, MPI_SEEK_CUR, MPI_SEEK_END };
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_VERSION 3
#define MPI_SUBVERSION 1

int MPI_Init(int *, char ***);
int MPI_Init_thread(int *, char ***, int, int *);
int MPI_Initialized(int *);
int MPI_Finalized(int *);
int MPI_Finalize(void);
int MPI_Abort(MPI_Comm, int);
int MPI_Query_thread(int *);
int MPI_Is_thread_main(int *);
int MPI_Comm_rank(MPI_Comm, int *);
int MPI_Comm_size(MPI_Comm, int *);
int MPI_Comm_dup(MPI_Comm, MPI_Comm *);
int MPI_Comm_free(MPI_Comm *);
int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler);
int MPI_File_set_errhandler(MPI_File, MPI_Errhandler);
int MPI_Error_string(int, char *, int *);
int MPI_Error_class(int, int *);
int MPI_Get_processor_name(char *, int *);
double MPI_Wtime(void);
double MPI_Wtick(void);
int MPI_Type_size(MPI_Datatype, int *);
int MPI_Get_count(const MPI_Status *, MPI_Datatype, int *);
int MPI_Get_elements(const MPI_Status *, MPI_Datatype, int *);
int MPI_Send(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ssend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Rsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Recv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status *);
int MPI_Isend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Issend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irecv(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Sendrecv(const void *, int, MPI_Datatype, int, int, void *, int, MPI_Datatype, int, int,
                 MPI_Comm, MPI_Status *);
int MPI_Wait(MPI_Request *, MPI_Status *);
int MPI_Waitall(int, MPI_Request[], MPI_Status *);
int MPI_Waitany(int, MPI_Request[], int *, MPI_Status *);
int MPI_Waitsome(int, MPI_Request[], int *, int[], MPI_Status *);
int MPI_Test(MPI_Request *, int *, MPI_Status *);
int MPI_Testall(int, MPI_Request[], int *, MPI_Status *);
int MPI_Testany(int, MPI_Request[], int *, int *, MPI_Status *);
int MPI_Testsome(int, MPI_Request[], int *, int[], MPI_Status *);
int MPI_Request_free(MPI_Request *);
int MPI_Cancel(MPI_Request *);
int MPI_Iprobe(int, int, MPI_Comm, int *, MPI_Status *);
int MPI_Probe(int, int, MPI_Comm, MPI_Status *);
int MPI_Mprobe(int, int, MPI_Comm, MPI_Message *, MPI_Status *);
int MPI_Improbe(int, int, MPI_Comm, int *, MPI_Message *, MPI_Status *);
int MPI_Mrecv(void *, int, MPI_Datatype, MPI_Message *, MPI_Status *);
int MPI_Imrecv(void *, int, MPI_Datatype, MPI_Message *, MPI_Request *);
int MPI_Pack_size(int, MPI_Datatype, MPI_Comm, int *);
int MPI_Pack(const void *, int, MPI_Datatype, void *, int, int *, MPI_Comm);
int MPI_Unpack(const void *, int, int *, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Reduce_local(const void *, void *, int, MPI_Datatype, MPI_Op);
int MPI_Reduce_scatter(const void *, void *, const int[], MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Alloc_mem(MPI_Aint, MPI_Info, void *);
int MPI_Free_mem(void *);
int MPI_Get_address(const void *, MPI_Aint *);
int MPI_Type_get_extent(MPI_Datatype, MPI_Aint *, MPI_Aint *);
int MPI_Info_create(MPI_Info *);
int MPI_Info_set(MPI_Info, const char *, const char *);
int MPI_Info_free(MPI_Info *);
int MPI_Comm_compare(MPI_Comm, MPI_Comm, int *);
int MPI_Get_version(int *, int *);
int MPI_Get_library_version(char *, int *);
int MPI_Bsend_init(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Igather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm, MPI_Request *);
int MPI_Ialltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Barrier(MPI_Comm);
int MPI_Ibarrier(MPI_Comm, MPI_Request *);
int MPI_Bcast(void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Reduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm);
int MPI_Allreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Allgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Gather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoall(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm);
int MPI_Scan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Exscan(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_Sendrecv_replace(void *, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status *);
int MPI_Bsend(const void *, int, MPI_Datatype, int, int, MPI_Comm);
int MPI_Ibsend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Irsend(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Buffer_attach(void *, int);
int MPI_Buffer_detach(void *, int *);
int MPI_Send_init(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Ssend_init(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Rsend_init(const void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Recv_init(void *, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request *);
int MPI_Start(MPI_Request *);
int MPI_Startall(int, MPI_Request[]);
int MPI_Test_cancelled(const MPI_Status *, int *);
int MPI_Request_get_status(MPI_Request, int *, MPI_Status *);
int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype *);
int MPI_Type_commit(MPI_Datatype *);
int MPI_Type_free(MPI_Datatype *);
int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm *);
int MPI_Comm_get_attr(MPI_Comm, int, void *, int *);
int MPI_Iallreduce(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request *);
int MPI_Ireduce(const void *, void *, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Request *);
int MPI_Ibcast(void *, int, MPI_Datatype, int, MPI_Comm, MPI_Request *);
int MPI_Iallgather(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, MPI_Comm, MPI_Request *);
int MPI_Allgatherv(const void *, int, MPI_Datatype, void *, const int[], const int[], MPI_Datatype, MPI_Comm);
int MPI_Gatherv(const void *, int, MPI_Datatype, void *, const int[], const int[], MPI_Datatype, int, MPI_Comm);
int MPI_Scatter(const void *, int, MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Scatterv(const void *, const int[], const int[], MPI_Datatype, void *, int, MPI_Datatype, int, MPI_Comm);
int MPI_Alltoallv(const void *, const int[], const int[], MPI_Datatype, void *, const int[], const int[], MPI_Datatype, MPI_Comm);
int MPI_Reduce_scatter_block(const void *, void *, int, MPI_Datatype, MPI_Op, MPI_Comm);
int MPI_File_iread(MPI_File, void *, int, MPI_Datatype, MPI_Request *);
int MPI_File_iwrite(MPI_File, const void *, int, MPI_Datatype, MPI_Request *);
int MPI_File_iread_at(MPI_File, MPI_Offset, void *, int, MPI_Datatype, MPI_Request *);
int MPI_File_iwrite_at(MPI_File, MPI_Offset, const void *, int, MPI_Datatype, MPI_Request *);
int MPI_File_open(MPI_Comm, const char *, int, MPI_Info, MPI_File *);
int MPI_File_close(MPI_File *);
int MPI_File_delete(const char *, MPI_Info);
int MPI_File_seek(MPI_File, MPI_Offset, int);
int MPI_File_get_position(MPI_File, MPI_Offset *);
int MPI_File_get_size(MPI_File, MPI_Offset *);
int MPI_File_set_size(MPI_File, MPI_Offset);
int MPI_File_preallocate(MPI_File, MPI_Offset);
int MPI_File_sync(MPI_File);
int MPI_File_set_view(MPI_File, MPI_Offset, MPI_Datatype, MPI_Datatype, const char *, MPI_Info);
int MPI_File_read(MPI_File, void *, int, MPI_Datatype, MPI_Status *);
int MPI_File_read_all(MPI_File, void *, int, MPI_Datatype, MPI_Status *);
int MPI_File_read_at(MPI_File, MPI_Offset, void *, int, MPI_Datatype, MPI_Status *);
int MPI_File_read_at_all(MPI_File, MPI_Offset, void *, int, MPI_Datatype, MPI_Status *);
int MPI_File_write(MPI_File, const void *, int, MPI_Datatype, MPI_Status *);
int MPI_File_write_all(MPI_File, const void *, int, MPI_Datatype, MPI_Status *);
int MPI_File_write_at(MPI_File, MPI_Offset, const void *, int, MPI_Datatype, MPI_Status *);
int MPI_File_write_at_all(MPI_File, MPI_Offset, const void *, int, MPI_Datatype, MPI_Status *);
#ifdef __cplusplus
}
#endif
#endif
