// The predefined handles of the MPI library are addresses of objects
extern "C" {
#define OBJ(n) char n[1024] __attribute__((aligned(16)))
OBJ(ompi_mpi_comm_world); OBJ(ompi_mpi_comm_null); OBJ(ompi_mpi_comm_self); OBJ(ompi_request_null);
OBJ(ompi_mpi_char); OBJ(ompi_mpi_int); OBJ(ompi_mpi_unsigned); OBJ(ompi_mpi_long_double); OBJ(ompi_mpi_double); OBJ(ompi_mpi_op_max); OBJ(ompi_mpi_op_sum); OBJ(ompi_mpi_byte); OBJ(ompi_mpi_info_null); OBJ(ompi_mpi_op_null);
OBJ(ompi_mpi_uint64_t); OBJ(ompi_mpi_long); OBJ(ompi_mpi_unsigned_long); OBJ(ompi_mpi_op_min);
}
