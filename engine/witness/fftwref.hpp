// Reference definitions of the FFTW entry points the library calls, so that a
// plan and its executions are judged by what they compute from their arguments.
#pragma once
#include <fftw3.h>
#include <complex>
#include <cmath>
#include <cstdlib>
#include <cstdint>
struct fftw_plan_s { int kind, sign, rank; unsigned flags; bool inplace; fftw_iodim dims[3];};
struct fftwf_plan_s { int kind, sign, rank; unsigned flags; bool inplace; fftwf_iodim dims[3];};
namespace fftwref
{
template <typename T> inline std::complex<T> tw(int sign, long k, long n) { double a = 6.283185307179586 * (double)(k % n) / (double)n; return std::complex<T>(std::cos(a), sign * std::sin(a));}
// transform of a dense row-major array of sizes n[0..2] at index k
template <typename T> inline std::complex<T> at(int sign, std::complex<T> const *x, long n0, long n1, long n2, long k0, long k1, long k2)
{
  std::complex<T> s(0,0);
  for (long i=0;i<n0;++i) for (long j=0;j<n1;++j) for (long l=0;l<n2;++l)
    s += x[(i*n1+j)*n2+l]*tw<T>(sign,k0*i,n0)*tw<T>(sign,k1*j,n1)*tw<T>(sign,k2*l,n2);
  return s;
}
// element of the full array from its half along dimension h (Hermitian symmetry)
template <typename T> inline std::complex<T> herm(std::complex<T> const *x, int h, long n0, long n1, long n2, long i, long j, long l)
{
  long nh = h==0?n0:h==1?n1:n2, ih = h==0?i:h==1?j:l; bool c = ih > nh/2;
  if (c) { i=(n0-i)%n0; j=(n1-j)%n1; l=(n2-l)%n2;}
  long m1 = h==1?n1/2+1:n1, m2 = h==2?n2/2+1:n2;
  std::complex<T> v = x[(i*m1+j)*m2+l];
  return c ? std::complex<T>(v.real(),-v.imag()) : v;
}
enum { C2C, R2C, C2R };
template <typename P, typename D> inline P *plan(int kind, int rank, D const *d, int hr, void const *in, void const *out, int sign, unsigned flags)
{
  if (rank < 1 || rank > 3 || hr != 0 || in == 0 || out == 0) abort();
  if (kind == C2R && rank > 1 && (flags & FFTW_PRESERVE_INPUT)) return 0;
  P *p = (P*)malloc(sizeof(P)); p->kind=kind; p->sign=sign; p->rank=rank; p->flags=flags; p->inplace = in==out;
  for (int i=0;i<3;++i) { p->dims[i].n = i<rank?d[i].n:1; p->dims[i].is = i<rank?d[i].is:0; p->dims[i].os = i<rank?d[i].os:0; }
  return p;
}
template <typename T, typename P> inline void exec(P const *p, int kind, void *in, void *out)
{
  if (p->kind != kind || p->inplace != (in == out)) abort();
  if (!(p->flags & FFTW_UNALIGNED) && (((uintptr_t)in | (uintptr_t)out) & 15)) abort();
  long n[3], is[3], os[3];
  // dimensions are moved to the end: [1][1][n] for rank one
  for (int i=0;i<3;++i) { int q = i-(3-p->rank); n[i] = q<0?1:p->dims[q].n; is[i] = q<0?0:p->dims[q].is; os[i] = q<0?0:p->dims[q].os; }
  long total = n[0]*n[1]*n[2];
  std::complex<T> *x = (std::complex<T>*)malloc(total*sizeof(std::complex<T>));
  long h = n[2]/2+1;
  for (long i=0;i<n[0];++i) for (long j=0;j<n[1];++j) for (long l=0;l<n[2];++l)
  {
    if (kind==R2C) x[(i*n[1]+j)*n[2]+l] = std::complex<T>(((T*)in)[i*is[0]+j*is[1]+l*is[2]], 0);
    else if (kind==C2C) x[(i*n[1]+j)*n[2]+l] = ((std::complex<T>*)in)[i*is[0]+j*is[1]+l*is[2]];
    else
    {
      bool c = l >= h; long a=i,b=j,k=l; if (c) { a=(n[0]-i)%n[0]; b=(n[1]-j)%n[1]; k=n[2]-l;}
      std::complex<T> v = ((std::complex<T>*)in)[a*is[0]+b*is[1]+k*is[2]];
      x[(i*n[1]+j)*n[2]+l] = c ? std::complex<T>(v.real(),-v.imag()) : v;
    }
  }
  // a multi-dimensional complex-to-real transform destroys its input
  if (kind==C2R && !(p->flags & FFTW_PRESERVE_INPUT)) for (long i=0;i<n[0];++i) for (long j=0;j<n[1];++j) for (long l=0;l<h;++l) ((std::complex<T>*)in)[i*is[0]+j*is[1]+l*is[2]] = std::complex<T>(-777,-777);
  int sign = kind==C2C ? p->sign : kind==R2C ? -1 : 1;
  for (long i=0;i<n[0];++i) for (long j=0;j<n[1];++j) for (long l=0;l<(kind==R2C?h:n[2]);++l)
  {
    std::complex<T> v = at<T>(sign,x,n[0],n[1],n[2],i,j,l); long o = i*os[0]+j*os[1]+l*os[2];
    if (kind==C2R) ((T*)out)[o] = v.real(); else ((std::complex<T>*)out)[o] = v;
  }
  free(x);
}
}
extern "C" {
#define FR(X,T) \
X(plan) X(plan_guru_dft)(int r, X(iodim) const *d, int hr, X(iodim) const *, X(complex) *i, X(complex) *o, int s, unsigned f) { return fftwref::plan<X(plan_s)>(fftwref::C2C,r,d,hr,i,o,s,f);} \
X(plan) X(plan_guru_dft_r2c)(int r, X(iodim) const *d, int hr, X(iodim) const *, T *i, X(complex) *o, unsigned f) { return fftwref::plan<X(plan_s)>(fftwref::R2C,r,d,hr,i,o,-1,f);} \
X(plan) X(plan_guru_dft_c2r)(int r, X(iodim) const *d, int hr, X(iodim) const *, X(complex) *i, T *o, unsigned f) { return fftwref::plan<X(plan_s)>(fftwref::C2R,r,d,hr,i,o,1,f);} \
void X(execute_dft)(X(plan) const p, X(complex) *i, X(complex) *o) { fftwref::exec<T>(p,fftwref::C2C,i,o);} \
void X(execute_dft_r2c)(X(plan) const p, T *i, X(complex) *o) { fftwref::exec<T>(p,fftwref::R2C,i,o);} \
void X(execute_dft_c2r)(X(plan) const p, X(complex) *i, T *o) { fftwref::exec<T>(p,fftwref::C2R,i,o);} \
void X(destroy_plan)(X(plan) p) { free(p);}
#define FD(x) fftw_##x
#define FF(x) fftwf_##x
FR(FF,float)
FR(FD,double)
#undef FD
#undef FF
#undef FR
}
