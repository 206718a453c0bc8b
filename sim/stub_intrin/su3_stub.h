// Stand-in for the (absent) libintrin submodule: plain C versions of its eight kernels.
#ifndef SIM_SU3_STUB_H
#define SIM_SU3_STUB_H
typedef struct { float e[3][3][2]; } su3_matrixf;
typedef struct { float c[3][2]; } su3_vectorf;
typedef struct { su3_vectorf h[2]; } half_wilson_vectorf;
namespace sim_su3 {
struct cf { float r, i; };
inline cf get(const su3_matrixf* m, int i, int j, bool adj) { return adj ? cf{m->e[j][i][0], -m->e[j][i][1]} : cf{m->e[i][j][0], m->e[i][j][1]}; }
inline void mm(const su3_matrixf* a, bool aa, const su3_matrixf* b, bool ba, su3_matrixf* d) {
  su3_matrixf t;
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) {
    float r = 0, m = 0;
    for (int k = 0; k < 3; ++k) { cf x = get(a, i, k, aa), y = get(b, k, j, ba); r += x.r * y.r - x.i * y.i; m += x.r * y.i + x.i * y.r; }
    t.e[i][j][0] = r; t.e[i][j][1] = m;
  }
  *d = t;
}
inline void mv(const su3_matrixf* a, bool aa, const su3_vectorf* b, su3_vectorf* d) {
  su3_vectorf t;
  for (int i = 0; i < 3; ++i) {
    float r = 0, m = 0;
    for (int k = 0; k < 3; ++k) { cf x = get(a, i, k, aa); r += x.r * b->c[k][0] - x.i * b->c[k][1]; m += x.r * b->c[k][1] + x.i * b->c[k][0]; }
    t.c[i][0] = r; t.c[i][1] = m;
  }
  *d = t;
}
}
inline void intrin_sse_mult_su3_nn(su3_matrixf* a, su3_matrixf* b, su3_matrixf* d) { sim_su3::mm(a, false, b, false, d); }
inline void intrin_sse_mult_su3_an(su3_matrixf* a, su3_matrixf* b, su3_matrixf* d) { sim_su3::mm(a, true, b, false, d); }
inline void intrin_sse_mult_su3_na(su3_matrixf* a, su3_matrixf* b, su3_matrixf* d) { sim_su3::mm(a, false, b, true, d); }
inline void intrin_sse_mult_su3_mat_vec(su3_matrixf* a, su3_vectorf* b, su3_vectorf* d) { sim_su3::mv(a, false, b, d); }
inline void intrin_sse_mult_adj_su3_mat_vec(su3_matrixf* a, su3_vectorf* b, su3_vectorf* d) { sim_su3::mv(a, true, b, d); }
inline void intrin_sse_mult_su3_mat_hwvec(su3_matrixf* a, half_wilson_vectorf* b, half_wilson_vectorf* d) { sim_su3::mv(a, false, &b->h[0], &d->h[0]); sim_su3::mv(a, false, &b->h[1], &d->h[1]); }
inline void intrin_sse_mult_adj_su3_mat_hwvec(su3_matrixf* a, half_wilson_vectorf* b, half_wilson_vectorf* d) { sim_su3::mv(a, true, &b->h[0], &d->h[0]); sim_su3::mv(a, true, &b->h[1], &d->h[1]); }
inline void intrin_sse_add_su3_vector(su3_vectorf* a, su3_vectorf* b, su3_vectorf* d) { for (int i = 0; i < 3; ++i) for (int k = 0; k < 2; ++k) d->c[i][k] = a->c[i][k] + b->c[i][k]; }
#endif
