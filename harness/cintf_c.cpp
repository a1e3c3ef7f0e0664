// The C and Fortran side of cintf.cpp: sees the library through hiopInterface.h and hiopFortranInterface.h only.
#include <assert.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <math.h>
extern "C" {
#include "hiopFortranInterface.c"
typedef void (*fn)();
struct CP { int mds; cHiopMDSProblem m; cHiopDenseProblem d; void* ud; double* sol; fn* f; };
// f: x0 sizes vars cons f g c J blocks H
void* vc_make(int mds, void* ud, double* sol, fn* f) {
  CP* p = (CP*)malloc(sizeof(CP)); memset(p, 0x5a, sizeof(CP)); p->mds = mds; p->ud = ud; p->sol = sol; p->f = f;
#define SET(q) q.user_data = ud; q.solution = sol; *(fn*)&q.get_starting_point = f[0]; *(fn*)&q.get_prob_sizes = f[1]; *(fn*)&q.get_vars_info = f[2]; *(fn*)&q.get_cons_info = f[3]; *(fn*)&q.eval_f = f[4]; *(fn*)&q.eval_grad_f = f[5]; *(fn*)&q.eval_cons = f[6]; *(fn*)&q.eval_Jac_cons = f[7];
  if(mds) { SET(p->m) *(fn*)&p->m.get_sparse_dense_blocks_info = f[8]; *(fn*)&p->m.eval_Hess_Lagr = f[9]; hiop_mds_create_problem(&p->m); } else { SET(p->d) hiop_dense_create_problem(&p->d); }
  return p;
}
void* vc_nlp(void* q) { CP* p = (CP*)q; return p->mds ? p->m.refcppHiop : p->d.refcppHiop; }
int vc_solve(void* q, double* obj, int* st, int* it) { CP* p = (CP*)q; int r; if(p->mds) { r = hiop_mds_solve_problem(&p->m); *obj = p->m.obj_value; } else { r = hiop_dense_solve_problem(&p->d); *obj = p->d.obj_value; *st = p->d.status; *it = p->d.niters; } return r; }
#define KEPT(q) (q.user_data == p->ud && q.solution == p->sol && *(fn*)&q.get_starting_point == p->f[0] && *(fn*)&q.get_prob_sizes == p->f[1] && *(fn*)&q.get_vars_info == p->f[2] && *(fn*)&q.get_cons_info == p->f[3] && *(fn*)&q.eval_f == p->f[4] && *(fn*)&q.eval_grad_f == p->f[5] && *(fn*)&q.eval_cons == p->f[6] && *(fn*)&q.eval_Jac_cons == p->f[7])
int vc_kept(void* q) { CP* p = (CP*)q; return p->mds ? KEPT(p->m) && *(fn*)&p->m.get_sparse_dense_blocks_info == p->f[8] && *(fn*)&p->m.eval_Hess_Lagr == p->f[9] : KEPT(p->d); }
int vc_destroy(void* q) { CP* p = (CP*)q; int r = p->mds ? hiop_mds_destroy_problem(&p->m) : hiop_dense_destroy_problem(&p->d); memset(p, 0xa5, sizeof(CP)); free(p); return r; }
// Fortran: the arrays handed over belong to the caller again afterwards
void* vf_make(int n, int m, const double* xl, const double* xu, const double* cl, const double* cu, const double* x0, void* ff, void* fc, void* fg, void* fj) {
  double* a[5]; const double* s[5] = {xl, xu, cl, cu, x0}; int len[5] = {n, n, m, m, n}; for(int i = 0; i < 5; i++) { a[i] = (double*)malloc((len[i] + 1) * sizeof(double)); memcpy(a[i], s[i], len[i] * sizeof(double)); }
  void* p = FC_GLOBAL(hiopdenseprob, HIOPDENSEPROB)(&n, &m, a[0], a[1], a[2], a[3], a[4], (f_eval_f_cb)ff, (f_eval_c_cb)fc, (f_eval_grad_cb)fg, (f_eval_jac_dense_cb)fj);
  for(int i = 0; i < 5; i++) { for(int k = 0; k < len[i]; k++) a[i][k] = 1e3; free(a[i]); } n = m = -1; return p;
}
void* vf_nlp(void* q) { return ((FDenseProb*)q)->c_prob->refcppHiop; }
void vf_x0(void* q, const double* x) { FDenseProb* p = (FDenseProb*)q; memcpy(p->x0, x, p->n * sizeof(double)); }
void vf_solve(void* q, double* obj, double* sol, int* st, int* it) { FC_GLOBAL(hiopdensesolve, HIOPDENSESOLVE)(&q, obj, sol); *st = ((FDenseProb*)q)->c_prob->status; *it = ((FDenseProb*)q)->c_prob->niters; }
int vf_destroy(void* q) { FC_GLOBAL(deletehiopdenseprob, DELETEHIOPDENSEPROB)(&q); return q != 0; }
}
