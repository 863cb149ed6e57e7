// Reference definitions of the BLAS entry points the library calls, so that a
// call is judged by what it computes from its arguments.
#pragma once
#include <complex>
#include <cstdlib>
namespace blasref
{
inline float cj(float x) { return x;} inline double cj(double x) { return x;}
template <typename T> inline std::complex<T> cj(std::complex<T> x) { return std::complex<T>(x.real(), -x.imag());}
inline bool no(char c) { return c == 'n' || c == 'N';}
inline bool cc(char c) { return c == 'c' || c == 'C';}
inline bool tt(char c) { return c == 't' || c == 'T';}
template <typename T> inline T at(char t, T const *a, long ld, long i, long j) { return no(t) ? a[i+j*ld] : cc(t) ? cj(a[j+i*ld]) : a[j+i*ld];}
template <typename T, bool C> inline T dot(long n, T const *x, long ix, T const *y, long iy)
{
  T r = T(); long x0 = ix < 0 ? (1-n)*ix : 0, y0 = iy < 0 ? (1-n)*iy : 0;
  for (long i=0;i<n;++i) r += (C ? cj(x[x0+i*ix]) : x[x0+i*ix]) * y[y0+i*iy];
  return r;
}
template <typename T> inline void gemv(char t, long m, long n, T alpha, T const *a, long lda, T const *x, long ix, T beta, T *y, long iy)
{
  if (!(no(t)||tt(t)||cc(t)) || m < 0 || n < 0 || lda < (m>1?m:1) || ix == 0 || iy == 0) abort();
  long lx = no(t) ? n : m, ly = no(t) ? m : n;
  long x0 = ix < 0 ? (1-lx)*ix : 0, y0 = iy < 0 ? (1-ly)*iy : 0;
  for (long i=0;i<ly;++i) { T s = T(); for (long k=0;k<lx;++k) s += at(t,a,lda,i,k)*x[x0+k*ix]; y[y0+i*iy] = beta == T(0) ? alpha*s : alpha*s + beta*y[y0+i*iy];}
}
template <typename T> inline void gemm(char ta, char tb, long m, long n, long k, T alpha, T const *a, long lda, T const *b, long ldb, T beta, T *c, long ldc)
{
  long ra = no(ta) ? m : k, rb = no(tb) ? k : n;
  if (!(no(ta)||tt(ta)||cc(ta)) || !(no(tb)||tt(tb)||cc(tb)) || m<0 || n<0 || k<0 || lda < (ra>1?ra:1) || ldb < (rb>1?rb:1) || ldc < (m>1?m:1)) abort();
  for (long j=0;j<n;++j) for (long i=0;i<m;++i)
  { T s = T(); for (long l=0;l<k;++l) s += at(ta,a,lda,i,l)*at(tb,b,ldb,l,j); c[i+j*ldc] = beta == T(0) ? alpha*s : alpha*s + beta*c[i+j*ldc];}
}
template <typename T, bool C> inline void ger(long m, long n, T alpha, T const *x, long ix, T const *y, long iy, T *a, long lda)
{
  if (m<0 || n<0 || lda < (m>1?m:1) || ix==0 || iy==0) abort();
  long x0 = ix < 0 ? (1-m)*ix : 0, y0 = iy < 0 ? (1-n)*iy : 0;
  for (long j=0;j<n;++j) for (long i=0;i<m;++i) a[i+j*lda] += alpha*x[x0+i*ix]*(C ? cj(y[y0+j*iy]) : y[y0+j*iy]);
}
}
extern "C" {
float sdot_(int *n, float *x, int *ix, float *y, int *iy) { return blasref::dot<float,false>(*n,x,*ix,y,*iy);}
double ddot_(int *n, double *x, int *ix, double *y, int *iy) { return blasref::dot<double,false>(*n,x,*ix,y,*iy);}
#define CD(F,T,C) T _Complex F(int *n, std::complex<T> *x, int *ix, std::complex<T> *y, int *iy) { std::complex<T> r = blasref::dot<std::complex<T>,C>(*n,x,*ix,y,*iy); T _Complex q; __real__ q = r.real(); __imag__ q = r.imag(); return q;}
CD(cdotu_,float,false) CD(zdotu_,double,false) CD(cdotc_,float,true) CD(zdotc_,double,true)
#undef CD
#define GV(F,T) void F(char *t, int *m, int *n, T *al, T *a, int *lda, T *x, int *ix, T *be, T *y, int *iy) { blasref::gemv<T>(*t,*m,*n,*al,a,*lda,x,*ix,*be,y,*iy);}
GV(sgemv_,float) GV(dgemv_,double) GV(cgemv_,std::complex<float>) GV(zgemv_,std::complex<double>)
#undef GV
#define GM(F,T) void F(char *ta, char *tb, int *m, int *n, int *k, T *al, T *a, int *lda, T *b, int *ldb, T *be, T *c, int *ldc) { blasref::gemm<T>(*ta,*tb,*m,*n,*k,*al,a,*lda,b,*ldb,*be,c,*ldc);}
GM(sgemm_,float) GM(dgemm_,double) GM(cgemm_,std::complex<float>) GM(zgemm_,std::complex<double>)
#undef GM
#define GR(F,T,C) void F(int *m, int *n, T *al, T *x, int *ix, T *y, int *iy, T *a, int *lda) { blasref::ger<T,C>(*m,*n,*al,x,*ix,y,*iy,a,*lda);}
GR(sger_,float,false) GR(dger_,double,false) GR(cgerc_,std::complex<float>,true) GR(zgerc_,std::complex<double>,true) GR(cgeru_,std::complex<float>,false) GR(zgeru_,std::complex<double>,false)
#undef GR
}
