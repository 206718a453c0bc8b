#ifndef SIM_QMT_H
#define SIM_QMT_H
#ifdef __cplusplus
extern "C" {
#endif
typedef void (*qmt_userfunc_t)(int lo, int hi, int id, const void* arg);
int qmt_init(void);
void qmt_finalize(void);
void qmt_call(qmt_userfunc_t f, int count, const void* arg);
int qmt_thread_num(void);
int qmt_num_threads(void);
#ifdef __cplusplus
}
#endif
#endif
