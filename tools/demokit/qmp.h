// The message-layer interface QDP++ is written against, as declared by the
// simulator (QMP itself is not installed here).
#ifndef SIM_QMP_H
#define SIM_QMP_H
#include <stddef.h>
#include <stdint.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef enum { QMP_FALSE = 0, QMP_TRUE = 1 } QMP_bool_t;
typedef enum { QMP_SUCCESS = 0, QMP_ERROR = 0x1001, QMP_NOT_INITED, QMP_RTENV_ERR, QMP_CPUINFO_ERR, QMP_NODEINFO_ERR,
  QMP_NOMEM_ERR, QMP_MEMSIZE_ERR, QMP_HOSTNAME_ERR, QMP_INITSVC_ERR, QMP_TOPOLOGY_EXISTS, QMP_CH_TIMEOUT,
  QMP_NOTSUPPORTED, QMP_SVC_BUSY, QMP_BAD_MESSAGE, QMP_INVALID_ARG, QMP_INVALID_TOPOLOGY } QMP_status_t;
typedef enum { QMP_SWITCH, QMP_GRID, QMP_FATTREE } QMP_ictype_t;
typedef enum { QMP_THREAD_SINGLE, QMP_THREAD_FUNNELED, QMP_THREAD_SERIALIZED, QMP_THREAD_MULTIPLE } QMP_thread_level_t;
typedef uint32_t QMP_u32_t;
typedef int32_t QMP_s32_t;
typedef struct QMP_mem_struct QMP_mem_t;
typedef struct QMP_msgmem_struct* QMP_msgmem_t;
typedef struct QMP_msghandle_struct* QMP_msghandle_t;
typedef struct QMP_comm_struct* QMP_comm_t;
typedef void (*QMP_binary_func)(void* inout, void* in);
#define QMP_MEM_NONCACHE 0x01
#define QMP_MEM_COMMS 0x02
#define QMP_MEM_FAST 0x04
#define QMP_MEM_DEFAULT (QMP_MEM_COMMS | QMP_MEM_FAST)

QMP_status_t QMP_init_msg_passing(int* argc, char*** argv, QMP_thread_level_t req, QMP_thread_level_t* prov);
QMP_bool_t QMP_is_initialized(void);
void QMP_finalize_msg_passing(void);
void QMP_abort(int code);
void QMP_abort_string(int code, char* msg);
int QMP_verbose(int v);
const char* QMP_error_string(QMP_status_t s);
QMP_status_t QMP_declare_logical_topology(const int* dims, int nd);
QMP_status_t QMP_layout_grid(int* dims, int nd);
QMP_bool_t QMP_logical_topology_is_declared(void);
int QMP_get_logical_number_of_dimensions(void);
const int* QMP_get_logical_dimensions(void);
const int* QMP_get_logical_coordinates(void);
int* QMP_get_logical_coordinates_from(int node);
int QMP_get_node_number(void);
int QMP_get_node_number_from(const int* coord);
int QMP_get_number_of_nodes(void);
QMP_ictype_t QMP_get_msg_passing_type(void);
QMP_bool_t QMP_is_primary_node(void);
QMP_mem_t* QMP_allocate_aligned_memory(size_t n, size_t align, int flags);
QMP_mem_t* QMP_allocate_memory(size_t n);
void* QMP_get_memory_pointer(QMP_mem_t* m);
void QMP_free_memory(QMP_mem_t* m);
QMP_msgmem_t QMP_declare_msgmem(const void* p, size_t n);
void QMP_free_msgmem(QMP_msgmem_t m);
QMP_msghandle_t QMP_declare_send_to(QMP_msgmem_t m, int node, int prio);
QMP_msghandle_t QMP_declare_receive_from(QMP_msgmem_t m, int node, int prio);
QMP_msghandle_t QMP_declare_send_relative(QMP_msgmem_t m, int axis, int dir, int prio);
QMP_msghandle_t QMP_declare_receive_relative(QMP_msgmem_t m, int axis, int dir, int prio);
QMP_msghandle_t QMP_declare_multiple(QMP_msghandle_t* h, int n);
void QMP_free_msghandle(QMP_msghandle_t h);
QMP_status_t QMP_start(QMP_msghandle_t h);
QMP_bool_t QMP_is_complete(QMP_msghandle_t h);
QMP_status_t QMP_wait(QMP_msghandle_t h);
QMP_status_t QMP_barrier(void);
QMP_status_t QMP_broadcast(void* p, size_t n);
QMP_status_t QMP_sum_int(int* v);
QMP_status_t QMP_sum_float(float* v);
QMP_status_t QMP_sum_double(double* v);
QMP_status_t QMP_sum_float_array(float* v, int n);
QMP_status_t QMP_sum_double_array(double* v, int n);
QMP_status_t QMP_max_float(float* v);
QMP_status_t QMP_max_double(double* v);
QMP_status_t QMP_min_float(float* v);
QMP_status_t QMP_min_double(double* v);
QMP_status_t QMP_xor_ulong(unsigned long* v);
QMP_status_t QMP_binary_reduction(void* p, size_t n, QMP_binary_func f);
QMP_comm_t QMP_comm_get_default(void);
QMP_status_t QMP_get_hidden_comm(QMP_comm_t c, void** h);
#ifdef __cplusplus
}
/* from QIO/DML, used for routing between arbitrary nodes */
extern "C" int DML_route_bytes(char* buf, size_t size, int fromnode, int tonode);
#endif
#endif
