// Calls from node code into the simulator.
#ifndef SIM_API_H
#define SIM_API_H
#include "spec.h"
extern "C" {
// program position
void sim_op_begin(int idx);
void sim_op_end(int idx);
// data reported by a node, compared with the reference model
void sim_layout(long nsites, const int* coords);
void sim_field(int slot, int kind, const void* words, long nsites);   // raw local memory of a field
void sim_values(const double* v, int n);                              // values returned by the current op
void sim_string(const char* p, long n);                               // bytes returned by the current op
void sim_note(const char* what, long v);                              // free-form fact, checked by name
void sim_fail(const char* cls, const char* msg);                      // node-side check failed
const sim::Spec* sim_spec(void);
int sim_phase_no(void);
long sim_mem_mark(void);
long sim_mem_live(long mark);
long sim_clock_reads(int* ok, long* us);                             // clock readings of this node so far, and the last one
long sim_output(int err, long from, const char** p);                  // what this node has printed so far, from an offset
int sim_rand(int n, const char* tag);                                 // scheduler-controlled value
void sim_blob(const char* name, const void* p, long n);               // keep bytes across phases (oracle side)
long sim_get_blob(const char* name, void* p, long n);
}
#endif
