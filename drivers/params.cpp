// irv-exceptions
// irv-libhifir
// the C interface and the parameter tables
#include <complex>
#define HIF_STDOUT(m) ((void)0)
#define HIF_STDERR(m) ((void)0)
#include "libhifir.cpp"
#include "irv.h"
// a stream whose tokens are given: the k-th read yields the k-th token
struct Tokens {
  const double *d; const int *i; int pos;
  Tokens &operator>>(double &x) { x = d[pos++]; return *this; }
  Tokens &operator>>(int &x) { x = i[pos++]; return *this; }
};
extern "C" {
void drv_set_double(double v, hif::Options *o) { bool r = hif::set_option_attr<double>(std::string(), v, *o); irv_ensure(1, (int)r); }
void drv_set_int(int v, hif::Options *o) { bool r = hif::set_option_attr<int>(std::string(), v, *o); irv_ensure(1, (int)r); }
void drv_set_param(double v, hif::Options *o) { bool r = hif::set_param_attr<double>(std::string(), v, *o); irv_ensure(1, (int)r); }
void drv_stream(const double *d, const int *i, hif::Options *o) { Tokens t; t.d = d; t.i = i; t.pos = 0; t >> *o; irv_ensure(1, t.pos); }
void drv_defaults(hif::Options *a, hif::Options *b, hif::Options *c) {
  *a = hif::get_default_options(); *b = hif::get_default_params(); *c = hif_get_default_params(); irv_ensure(1);
}
void drv_cdefaults(double *p) { int s = lhfSetDefaultParams(p); irv_ensure(1, s); }
void drv_create_params(const double *p, hif::Options *o) { *o = libhifir_impl::create_params(p); irv_ensure(1); }
void drv_droptol(double v, double *p) { int s = lhfSetDroptol(v, p); irv_ensure(1, s); }
void drv_alpha(double v, double *p) { int s = lhfSetAlpha(v, p); irv_ensure(1, s); }
void drv_kappa(double v, double *p) { int s = lhfSetKappa(v, p); irv_ensure(1, s); }
void drv_errmsg() { const char *a = lhfGetErrorMsg(); irv_ensure(1, a); const char *b = lhfGetErrorMsg(); irv_ensure(2, b); }
#define MSG if (s == LHF_HIFIR_ERROR) { const char *m = lhfGetErrorMsg(); irv_ensure(8, m); const char *m2 = lhfGetErrorMsg(); irv_ensure(9, m2); }
#define API(p, V, C)                                                                                                                     \
  void drv_##p##_create(int rm, size_t n, bool a, bool b, bool c, const LhfIndPtr *ip, const LhfInt *ix, const C *v) {                   \
    Lhf##p##MatrixHdl m = lhf##p##CreateMatrix(rm, n, a ? ip : nullptr, b ? ix : nullptr, c ? v : nullptr);                              \
    if (!m) { irv_ensure(1); return; }                                                                                                   \
    irv_ensure(2, m->indptr, m->indices, m->vals, m->n, (int)m->is_rowmajor, lhf##p##GetMatrixSize(m), lhf##p##GetMatrixNnz(m));         \
    int s = lhf##p##DestroyMatrix(m); irv_ensure(3, s);                                                                                  \
  }                                                                                                                                      \
  void drv_##p##_wrap(bool h, Lhf##p##Matrix *m0, size_t n, bool a, bool b, bool c, const LhfIndPtr *ip, const LhfInt *ix, const C *v) { \
    Lhf##p##MatrixHdl m = h ? m0 : nullptr;                                                                                              \
    int s = lhf##p##WrapMatrix(m, n, a ? ip : nullptr, b ? ix : nullptr, c ? v : nullptr);                                               \
    irv_ensure(1, s, m0->indptr, m0->indices, m0->vals, m0->n, (int)m0->is_rowmajor);                                                    \
    size_t z = lhf##p##GetMatrixSize(m), k = lhf##p##GetMatrixNnz(m); irv_ensure(2, z, k);                                               \
  }                                                                                                                                      \
  void drv_##p##_setup(bool h, bool a, bool au, bool f, bool fu, bool pr, Lhf##p##Hif *M, Lhf##p##Matrix *A, Lhf##p##Matrix *S, const double *params) { \
    if (au) A->indptr = nullptr; if (fu) S->indptr = nullptr;                                                                            \
    int s = lhf##p##Setup(h ? M : nullptr, a ? A : nullptr, f ? S : nullptr, pr ? params : nullptr);                                     \
    irv_ensure(1, s, M->A); MSG                                                                                                          \
  }                                                                                                                                      \
  void drv_##p##_refac(bool h, bool f, bool fu, bool pr, Lhf##p##Hif *M, Lhf##p##Matrix *S, const double *params) {                      \
    if (fu) S->indptr = nullptr; Lhf##p##MatrixHdl A0 = M->A;                                                                            \
    int s = lhf##p##Refactorize(h ? M : nullptr, f ? S : nullptr, pr ? params : nullptr);                                                \
    irv_ensure(1, s, M->A, A0); MSG                                                                                                      \
  }                                                                                                                                      \
  void drv_##p##_update(bool h, bool a, Lhf##p##Hif *M, Lhf##p##Matrix *A) {                                                             \
    int s = lhf##p##Update(h ? M : nullptr, a ? A : nullptr); irv_ensure(1, s, M->A);                                                    \
  }                                                                                                                                      \
  void drv_##p##_apply(bool h, int op, bool a, bool au, bool be, bool st, Lhf##p##Hif *M, Lhf##p##Matrix *A, const C *b, int nirs, const double *betas, int rank, C *x, int *irs) { \
    M->A = a ? A : nullptr; if (au) A->indptr = nullptr;                                                                                 \
    int s = lhf##p##Apply(h ? M : nullptr, (LhfOperationType)op, b, nirs, be ? betas : nullptr, rank, x, st ? irs : nullptr);            \
    irv_ensure(1, s); MSG                                                                                                                \
  }                                                                                                                                      \
  void drv_##p##_solve(bool h, Lhf##p##Hif *M, const C *b, C *x) { int s = lhf##p##Solve(h ? M : nullptr, b, x); irv_ensure(1, s); MSG } \
  void drv_##p##_stats(bool h, Lhf##p##Hif *M, size_t *stats) {                                                                          \
    int s = lhf##p##GetStats(h ? M : nullptr, stats); irv_ensure(1, s);                                                                  \
    Lhf##p##Hif *H = h ? M : nullptr;                                                                                                    \
    size_t z = lhf##p##GetNnz(H), l = lhf##p##GetLevels(H), ss = lhf##p##GetSchurSize(H), sr = lhf##p##GetSchurRank(H);                  \
    irv_ensure(2, z, l, ss, sr);                                                                                                         \
  }                                                                                                                                      \
  void drv_##p##_new(bool a, bool au, bool f, bool fu, bool pr, Lhf##p##Matrix *A, Lhf##p##Matrix *S, const double *params) {            \
    if (au) A->indptr = nullptr; if (fu) S->indptr = nullptr;                                                                            \
    Lhf##p##HifHdl M = lhf##p##Create(a ? A : nullptr, f ? S : nullptr, pr ? params : nullptr);                                          \
    if (!M) { irv_ensure(1); return; }                                                                                                   \
    irv_ensure(2, M->A); int s = lhf##p##Destroy(M); irv_ensure(3, s);                                                                   \
  }                                                                                                                                      \
  void drv_##p##_destroy0() { int s = lhf##p##Destroy(nullptr); s |= lhf##p##DestroyMatrix(nullptr); irv_ensure(1, s); }
API(d, double, double)
API(s, float, float)
API(z, std::complex<double>, double _Complex)
API(c, std::complex<float>, float _Complex)
#define MIX(p, q, W, C)                                                                                                                  \
  void drv_##p##q##_update(bool h, bool a, Lhf##p##Hif *M, Lhf##q##Matrix *A) {                                                          \
    int s = lhf##p##q##Update(h ? M : nullptr, a ? A : nullptr); irv_ensure(1, s, M->W);                                                 \
  }                                                                                                                                      \
  void drv_##p##q##_apply(bool h, int op, bool a, bool au, bool be, bool st, Lhf##p##Hif *M, Lhf##q##Matrix *A, const C *b, int nirs, const double *betas, int rank, C *x, int *irs) { \
    M->W = a ? A : nullptr; if (au) A->indptr = nullptr;                                                                                 \
    int s = lhf##p##q##Apply(h ? M : nullptr, (LhfOperationType)op, b, nirs, be ? betas : nullptr, rank, x, st ? irs : nullptr);         \
    irv_ensure(1, s); MSG                                                                                                                \
  }                                                                                                                                      \
  void drv_##p##q##_solve(bool h, Lhf##p##Hif *M, const C *b, C *x) { int s = lhf##p##q##Solve(h ? M : nullptr, b, x); irv_ensure(1, s); MSG }
MIX(s, d, Ad, double)
MIX(c, z, Az, double _Complex)
}
