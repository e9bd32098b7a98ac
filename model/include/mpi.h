// MPI interface of the verification model (semantics in vmpi.cpp).
#pragma once
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
#define VMPI_MODEL 1
#define MPI_VERSION 3
#define MPI_SUBVERSION 1
struct vmpi_comm; struct vmpi_group; struct vmpi_type; struct vmpi_op; struct vmpi_req; struct vmpi_file; struct vmpi_info;
typedef struct vmpi_comm* MPI_Comm; typedef struct vmpi_group* MPI_Group; typedef struct vmpi_type* MPI_Datatype; typedef struct vmpi_op* MPI_Op; typedef struct vmpi_req* MPI_Request; typedef struct vmpi_file* MPI_File; typedef struct vmpi_info* MPI_Info;
typedef ptrdiff_t MPI_Aint; typedef long long MPI_Offset; typedef long long MPI_Count; typedef void* MPI_Errhandler; typedef void* MPI_Win; typedef void* MPI_Message;
typedef struct { int MPI_SOURCE, MPI_TAG, MPI_ERROR; int _cancelled; size_t _bytes; } MPI_Status;
typedef void(MPI_User_function)(void*, void*, int*, MPI_Datatype*);
typedef MPI_User_function MPI_Op_function;
extern struct vmpi_comm *vfshared_world, *vfshared_commnull; extern struct vmpi_comm* vmpi_self(void); struct vmpi_comm* vmpi_world(void); struct vmpi_comm* vmpi_null(void);
#define MPI_COMM_WORLD (vmpi_world())
#define MPI_COMM_SELF (vmpi_self())
#define MPI_COMM_NULL ((MPI_Comm)(size_t)1)
#define MPI_GROUP_NULL ((MPI_Group)(size_t)1)
#define MPI_GROUP_EMPTY ((MPI_Group)(size_t)3)
#define MPI_REQUEST_NULL ((MPI_Request)(size_t)1)
#define MPI_DATATYPE_NULL ((MPI_Datatype)(size_t)1)
#define MPI_OP_NULL ((MPI_Op)(size_t)1)
#define MPI_FILE_NULL ((MPI_File)(size_t)1)
#define MPI_INFO_NULL ((MPI_Info)(size_t)1)
#define MPI_ERRHANDLER_NULL ((MPI_Errhandler)0)
#define MPI_ERRORS_RETURN ((MPI_Errhandler)2)
#define MPI_ERRORS_ARE_FATAL ((MPI_Errhandler)3)
#define MPI_IN_PLACE ((void*)(size_t)1)
#define MPI_BOTTOM ((void*)0)
#define MPI_STATUS_IGNORE ((MPI_Status*)0)
#define MPI_STATUSES_IGNORE ((MPI_Status*)0)
#define MPI_UNWEIGHTED ((int*)2)
#define MPI_ANY_SOURCE (-1)
#define MPI_ANY_TAG (-1)
#define MPI_PROC_NULL (-2)
#define MPI_ROOT (-4)
#define MPI_UNDEFINED (-32766)
#define MPI_SUCCESS 0
#define MPI_ERR_TRUNCATE 15
#define MPI_ERR_OTHER 16
#define MPI_ERR_IO 35
#define MPI_ERR_FILE 30
#define MPI_ERR_NO_SUCH_FILE 37
#define MPI_ERR_FILE_EXISTS 25
#define MPI_ERR_AMODE 21
#define MPI_ERR_COUNT 2
#define MPI_ERR_PENDING 19
#define MPI_ERR_PROC_FAILED 75
#define MPI_MAX_ERROR_STRING 256
#define MPI_MAX_PROCESSOR_NAME 256
#define MPI_MAX_OBJECT_NAME 64
#define MPI_THREAD_SINGLE 0
#define MPI_THREAD_FUNNELED 1
#define MPI_THREAD_SERIALIZED 2
#define MPI_THREAD_MULTIPLE 3
#define MPI_CART 1
#define MPI_GRAPH 2
#define MPI_DIST_GRAPH 3
#define MPI_ORDER_C 0
#define MPI_ORDER_FORTRAN 1
#define MPI_IDENT 0
#define MPI_CONGRUENT 1
#define MPI_SIMILAR 2
#define MPI_UNEQUAL 3
#define MPI_MODE_CREATE 1
#define MPI_MODE_RDONLY 2
#define MPI_MODE_WRONLY 4
#define MPI_MODE_RDWR 8
#define MPI_MODE_DELETE_ON_CLOSE 16
#define MPI_MODE_UNIQUE_OPEN 32
#define MPI_MODE_EXCL 64
#define MPI_MODE_APPEND 128
#define MPI_MODE_SEQUENTIAL 256
#define MPI_SEEK_SET 600
#define MPI_SEEK_CUR 602
#define MPI_SEEK_END 604
#define MPI_COMBINER_NAMED 0
#define MPI_COMBINER_DUP 1
#define MPI_COMBINER_CONTIGUOUS 2
#define MPI_COMBINER_VECTOR 3
#define MPI_COMBINER_INDEXED 7
#define MPI_COMBINER_HINDEXED 8
#define MPI_COMBINER_INDEXED_BLOCK 10
#define MPI_COMBINER_HINDEXED_BLOCK 11
#define MPI_COMBINER_STRUCT 12
#define MPI_COMBINER_SUBARRAY 14
#define MPI_TAG_UB 0
#define MPI_COMM_TYPE_SHARED 0
struct vmpi_type { int kind; size_t size; ptrdiff_t lb, extent; int nseg; ptrdiff_t* off; size_t* len; struct vmpi_type* base; int combiner; int ni, na, nd; int* ints; ptrdiff_t* aints; struct vmpi_type** types; int committed; };
#define VMPI_T(n) extern struct vmpi_type vfshared_t_##n;
VMPI_T(char) VMPI_T(schar) VMPI_T(uchar) VMPI_T(byte) VMPI_T(short) VMPI_T(ushort) VMPI_T(int) VMPI_T(uint) VMPI_T(long) VMPI_T(ulong) VMPI_T(llong) VMPI_T(ullong) VMPI_T(float) VMPI_T(double) VMPI_T(ldouble) VMPI_T(bool) VMPI_T(cfloat) VMPI_T(cdouble) VMPI_T(packed) VMPI_T(2int) VMPI_T(doubleint)
#define MPI_CHAR (&vfshared_t_char)
#define MPI_SIGNED_CHAR (&vfshared_t_schar)
#define MPI_UNSIGNED_CHAR (&vfshared_t_uchar)
#define MPI_BYTE (&vfshared_t_byte)
#define MPI_PACKED (&vfshared_t_packed)
#define MPI_SHORT (&vfshared_t_short)
#define MPI_UNSIGNED_SHORT (&vfshared_t_ushort)
#define MPI_INT (&vfshared_t_int)
#define MPI_UNSIGNED (&vfshared_t_uint)
#define MPI_LONG (&vfshared_t_long)
#define MPI_UNSIGNED_LONG (&vfshared_t_ulong)
#define MPI_LONG_LONG (&vfshared_t_llong)
#define MPI_LONG_LONG_INT (&vfshared_t_llong)
#define MPI_UNSIGNED_LONG_LONG (&vfshared_t_ullong)
#define MPI_FLOAT (&vfshared_t_float)
#define MPI_DOUBLE (&vfshared_t_double)
#define MPI_LONG_DOUBLE (&vfshared_t_ldouble)
#define MPI_C_BOOL (&vfshared_t_bool)
#define MPI_CXX_BOOL (&vfshared_t_bool)
#define MPI_C_FLOAT_COMPLEX (&vfshared_t_cfloat)
#define MPI_C_DOUBLE_COMPLEX (&vfshared_t_cdouble)
#define MPI_DOUBLE_COMPLEX (&vfshared_t_cdouble)
#define MPI_COMPLEX (&vfshared_t_cfloat)
#define MPI_CXX_DOUBLE_COMPLEX (&vfshared_t_cdouble)
#define MPI_CXX_FLOAT_COMPLEX (&vfshared_t_cfloat)
#define MPI_INT8_T MPI_SIGNED_CHAR
#define MPI_UINT8_T MPI_UNSIGNED_CHAR
#define MPI_INT16_T MPI_SHORT
#define MPI_UINT16_T MPI_UNSIGNED_SHORT
#define MPI_INT32_T MPI_INT
#define MPI_UINT32_T MPI_UNSIGNED
#define MPI_INT64_T MPI_LONG
#define MPI_UINT64_T MPI_UNSIGNED_LONG
#define MPI_OFFSET MPI_LONG_LONG
#define MPI_AINT MPI_LONG
#define MPI_COUNT MPI_LONG_LONG
#define MPI_2INT (&vfshared_t_2int)
#define MPI_DOUBLE_INT (&vfshared_t_doubleint)
struct vmpi_op { int kind; MPI_User_function* fn; };
#define VMPI_O(n) extern struct vmpi_op vfshared_o_##n;
VMPI_O(sum) VMPI_O(prod) VMPI_O(max) VMPI_O(min) VMPI_O(land) VMPI_O(lor) VMPI_O(band) VMPI_O(bor) VMPI_O(bxor) VMPI_O(lxor) VMPI_O(maxloc) VMPI_O(minloc) VMPI_O(replace)
#define MPI_SUM (&vfshared_o_sum)
#define MPI_PROD (&vfshared_o_prod)
#define MPI_MAX (&vfshared_o_max)
#define MPI_MIN (&vfshared_o_min)
#define MPI_LAND (&vfshared_o_land)
#define MPI_LOR (&vfshared_o_lor)
#define MPI_BAND (&vfshared_o_band)
#define MPI_BOR (&vfshared_o_bor)
#define MPI_BXOR (&vfshared_o_bxor)
#define MPI_LXOR (&vfshared_o_lxor)
#define MPI_MAXLOC (&vfshared_o_maxloc)
#define MPI_MINLOC (&vfshared_o_minloc)
#define MPI_REPLACE (&vfshared_o_replace)

int MPI_Init(int*, char***); int MPI_Init_thread(int*, char***, int, int*); int MPI_Initialized(int*); int MPI_Finalized(int*); int MPI_Finalize(void); int MPI_Abort(MPI_Comm, int); double MPI_Wtime(void); int MPI_Query_thread(int*); int MPI_Get_processor_name(char*, int*); int MPI_Get_version(int*, int*);
int MPI_Comm_rank(MPI_Comm, int*); int MPI_Comm_size(MPI_Comm, int*); int MPI_Comm_dup(MPI_Comm, MPI_Comm*); int MPI_Comm_free(MPI_Comm*); int MPI_Comm_split(MPI_Comm, int, int, MPI_Comm*); int MPI_Comm_split_type(MPI_Comm, int, int, MPI_Info, MPI_Comm*); int MPI_Comm_create(MPI_Comm, MPI_Group, MPI_Comm*); int MPI_Comm_create_group(MPI_Comm, MPI_Group, int, MPI_Comm*); int MPI_Comm_group(MPI_Comm, MPI_Group*); int MPI_Comm_compare(MPI_Comm, MPI_Comm, int*); int MPI_Comm_set_errhandler(MPI_Comm, MPI_Errhandler); int MPI_Comm_get_attr(MPI_Comm, int, void*, int*); int MPI_Comm_set_name(MPI_Comm, const char*); int MPI_Comm_remote_size(MPI_Comm, int*);
int MPI_Group_incl(MPI_Group, int, const int*, MPI_Group*); int MPI_Group_excl(MPI_Group, int, const int*, MPI_Group*); int MPI_Group_size(MPI_Group, int*); int MPI_Group_rank(MPI_Group, int*); int MPI_Group_free(MPI_Group*); int MPI_Group_translate_ranks(MPI_Group, int, const int*, MPI_Group, int*);
int MPI_Cart_create(MPI_Comm, int, const int*, const int*, int, MPI_Comm*); int MPI_Cart_get(MPI_Comm, int, int*, int*, int*); int MPI_Cart_coords(MPI_Comm, int, int, int*); int MPI_Cart_rank(MPI_Comm, const int*, int*); int MPI_Cart_shift(MPI_Comm, int, int, int*, int*); int MPI_Cart_sub(MPI_Comm, const int*, MPI_Comm*); int MPI_Cartdim_get(MPI_Comm, int*); int MPI_Topo_test(MPI_Comm, int*); int MPI_Dims_create(int, int, int*);
int MPI_Send(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Ssend(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Bsend(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Rsend(const void*, int, MPI_Datatype, int, int, MPI_Comm); int MPI_Recv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*); int MPI_Isend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Issend(const void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Irecv(void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Request*); int MPI_Sendrecv(const void*, int, MPI_Datatype, int, int, void*, int, MPI_Datatype, int, int, MPI_Comm, MPI_Status*); int MPI_Sendrecv_replace(void*, int, MPI_Datatype, int, int, int, int, MPI_Comm, MPI_Status*);
int MPI_Wait(MPI_Request*, MPI_Status*); int MPI_Waitall(int, MPI_Request*, MPI_Status*); int MPI_Waitany(int, MPI_Request*, int*, MPI_Status*); int MPI_Waitsome(int, MPI_Request*, int*, int*, MPI_Status*); int MPI_Test(MPI_Request*, int*, MPI_Status*); int MPI_Testall(int, MPI_Request*, int*, MPI_Status*); int MPI_Testany(int, MPI_Request*, int*, int*, MPI_Status*); int MPI_Request_free(MPI_Request*); int MPI_Cancel(MPI_Request*); int MPI_Probe(int, int, MPI_Comm, MPI_Status*); int MPI_Iprobe(int, int, MPI_Comm, int*, MPI_Status*); int MPI_Get_count(const MPI_Status*, MPI_Datatype, int*); int MPI_Get_elements(const MPI_Status*, MPI_Datatype, int*);
int MPI_Barrier(MPI_Comm); int MPI_Bcast(void*, int, MPI_Datatype, int, MPI_Comm); int MPI_Ibcast(void*, int, MPI_Datatype, int, MPI_Comm, MPI_Request*); int MPI_Ibarrier(MPI_Comm, MPI_Request*); int MPI_Reduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm); int MPI_Ireduce(const void*, void*, int, MPI_Datatype, MPI_Op, int, MPI_Comm, MPI_Request*); int MPI_Allreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Iallreduce(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm, MPI_Request*); int MPI_Scan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Exscan(const void*, void*, int, MPI_Datatype, MPI_Op, MPI_Comm); int MPI_Gather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm); int MPI_Gatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, int, MPI_Comm); int MPI_Allgather(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm); int MPI_Allgatherv(const void*, int, MPI_Datatype, void*, const int*, const int*, MPI_Datatype, MPI_Comm); int MPI_Scatter(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm); int MPI_Scatterv(const void*, const int*, const int*, MPI_Datatype, void*, int, MPI_Datatype, int, MPI_Comm); int MPI_Alltoall(const void*, int, MPI_Datatype, void*, int, MPI_Datatype, MPI_Comm);
int MPI_Op_create(MPI_User_function*, int, MPI_Op*); int MPI_Op_free(MPI_Op*);
int MPI_Type_commit(MPI_Datatype*); int MPI_Type_free(MPI_Datatype*); int MPI_Type_size(MPI_Datatype, int*); int MPI_Type_get_extent(MPI_Datatype, MPI_Aint*, MPI_Aint*); int MPI_Type_contiguous(int, MPI_Datatype, MPI_Datatype*); int MPI_Type_vector(int, int, int, MPI_Datatype, MPI_Datatype*); int MPI_Type_indexed(int, const int*, const int*, MPI_Datatype, MPI_Datatype*); int MPI_Type_create_indexed_block(int, int, const int*, MPI_Datatype, MPI_Datatype*); int MPI_Type_create_hindexed(int, const int*, const MPI_Aint*, MPI_Datatype, MPI_Datatype*); int MPI_Type_create_hindexed_block(int, int, const MPI_Aint*, MPI_Datatype, MPI_Datatype*); int MPI_Type_create_struct(int, const int*, const MPI_Aint*, const MPI_Datatype*, MPI_Datatype*); int MPI_Type_create_subarray(int, const int*, const int*, const int*, int, MPI_Datatype, MPI_Datatype*); int MPI_Type_create_resized(MPI_Datatype, MPI_Aint, MPI_Aint, MPI_Datatype*); int MPI_Type_dup(MPI_Datatype, MPI_Datatype*); int MPI_Type_get_envelope(MPI_Datatype, int*, int*, int*, int*); int MPI_Type_get_contents(MPI_Datatype, int, int, int, int*, MPI_Aint*, MPI_Datatype*); int MPI_Get_address(const void*, MPI_Aint*); MPI_Aint MPI_Aint_diff(MPI_Aint, MPI_Aint); MPI_Aint MPI_Aint_add(MPI_Aint, MPI_Aint);
int MPI_Info_create(MPI_Info*); int MPI_Info_set(MPI_Info, const char*, const char*); int MPI_Info_free(MPI_Info*); int MPI_Error_string(int, char*, int*); int MPI_Error_class(int, int*);
int MPI_File_open(MPI_Comm, const char*, int, MPI_Info, MPI_File*); int MPI_File_close(MPI_File*); int MPI_File_delete(const char*, MPI_Info); int MPI_File_get_size(MPI_File, MPI_Offset*); int MPI_File_set_size(MPI_File, MPI_Offset); int MPI_File_set_view(MPI_File, MPI_Offset, MPI_Datatype, MPI_Datatype, const char*, MPI_Info); int MPI_File_seek(MPI_File, MPI_Offset, int); int MPI_File_sync(MPI_File); int MPI_File_preallocate(MPI_File, MPI_Offset); int MPI_File_set_atomicity(MPI_File, int);
int MPI_File_write(MPI_File, const void*, int, MPI_Datatype, MPI_Status*); int MPI_File_write_all(MPI_File, const void*, int, MPI_Datatype, MPI_Status*); int MPI_File_write_at(MPI_File, MPI_Offset, const void*, int, MPI_Datatype, MPI_Status*); int MPI_File_write_at_all(MPI_File, MPI_Offset, const void*, int, MPI_Datatype, MPI_Status*); int MPI_File_read(MPI_File, void*, int, MPI_Datatype, MPI_Status*); int MPI_File_read_all(MPI_File, void*, int, MPI_Datatype, MPI_Status*); int MPI_File_read_at(MPI_File, MPI_Offset, void*, int, MPI_Datatype, MPI_Status*); int MPI_File_read_at_all(MPI_File, MPI_Offset, void*, int, MPI_Datatype, MPI_Status*);
int MPI_Pack_size(int, MPI_Datatype, MPI_Comm, int*); int MPI_Pack(const void*, int, MPI_Datatype, void*, int, int*, MPI_Comm); int MPI_Unpack(const void*, int, int*, void*, int, MPI_Datatype, MPI_Comm); int MPI_Alloc_mem(MPI_Aint, MPI_Info, void*); int MPI_Free_mem(void*);
#ifdef __cplusplus
}
#endif
