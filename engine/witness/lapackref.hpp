// Reference definitions of the LAPACK entry points the solvers call: textbook
// algorithms over LAPACK's argument conventions and packed forms. An argument
// LAPACK would reject is reported through info as LAPACK does; the workspace
// an entry point may use is written, so that a short one is out of bounds.
#pragma once
#include "blasref.hpp"
#include <cmath>
namespace lapackref
{
using blasref::cj; using blasref::no; using blasref::cc; using blasref::tt;
typedef std::complex<float> cf; typedef std::complex<double> cd;
template <typename T> struct sc { typedef T type; static T re(T x) { return x;} static T im(T) { return T();} static T mk(T a, T) { return a;} static bool const cx = false;};
template <typename T> struct sc<std::complex<T> > { typedef T type; typedef std::complex<T> C; static T re(C x) { return x.real();} static T im(C x) { return x.imag();} static C mk(T a, T b) { return C(a,b);} static bool const cx = true;};
template <typename T> typename sc<T>::type ab2(T x) { return sc<T>::re(x)*sc<T>::re(x)+sc<T>::im(x)*sc<T>::im(x);}
inline bool up(char c) { return c == 'u' || c == 'U';} inline bool lo(char c) { return c == 'l' || c == 'L';}
inline bool ri(char c) { return c == 'r' || c == 'R';} inline bool un(char c) { return c == 'u' || c == 'U';}
inline int mx(int a, int b) { return a > b ? a : b;}
template <typename T> inline T quo(T a, T b) { return a / b;}
template <typename T> inline std::complex<T> quo(std::complex<T> a, std::complex<T> b)
{ T d = b.real()*b.real()+b.imag()*b.imag(); return std::complex<T>((a.real()*b.real()+a.imag()*b.imag())/d, (a.imag()*b.real()-a.real()*b.imag())/d);}
template <typename T> inline T mul(T a, T b) { return a * b;}
template <typename T> inline std::complex<T> mul(std::complex<T> a, std::complex<T> b) { return std::complex<T>(a.real()*b.real()-a.imag()*b.imag(), a.real()*b.imag()+a.imag()*b.real());}

// op(A) X = alpha B or X op(A) = alpha B, A triangular
template <typename T> void trsm(char side, char uplo, char ta, char diag, int m, int n, T alpha, T const *a, int lda, T *b, int ldb)
{
  bool left = lo(side), u = up(uplo), unit = un(diag);
  if (!(left || ri(side)) || !(u || lo(uplo)) || !(no(ta)||tt(ta)||cc(ta)) || !(unit || no(diag)) || m<0 || n<0 || lda < mx(1,left?m:n) || ldb < mx(1,m)) abort();
  int k = left ? m : n, l = left ? n : m; bool fwd = (u != no(ta)) == left; // the substitution runs forward
  for (int q=0;q<l;++q) for (int s=0;s<k;++s)
  {
    int i = fwd ? s : k-1-s; T &r = left ? b[i+q*ldb] : b[q+i*ldb]; T v = mul(alpha,r);
    for (int t=0;t<s;++t) { int j = fwd ? t : k-1-t; v -= left ? mul(blasref::at(ta,a,lda,i,j),b[j+q*ldb]) : mul(b[q+j*ldb],blasref::at(ta,a,lda,j,i));}
    r = unit ? v : quo(v, blasref::at(ta,a,lda,i,i));
  }
}
template <typename T> void potrf(char uplo, int n, T *a, int lda, int *info)
{
  typedef typename sc<T>::type S; bool u = up(uplo); *info = 0;
  if (!u && !lo(uplo)) { *info = -1; return;} if (n<0) { *info = -2; return;} if (lda < mx(1,n)) { *info = -4; return;}
  for (int j=0;j<n;++j)
  {
    S d = sc<T>::re(a[j+j*lda]); for (int k=0;k<j;++k) d -= ab2(u ? a[k+j*lda] : a[j+k*lda]);
    if (!(d > 0)) { *info = j+1; return;}
    S r = std::sqrt(d); a[j+j*lda] = T(r);
    for (int i=j+1;i<n;++i)
      if (u) { T v = a[j+i*lda]; for (int k=0;k<j;++k) v -= mul(cj(a[k+j*lda]),a[k+i*lda]); a[j+i*lda] = quo(v,T(r));}
      else { T v = a[i+j*lda]; for (int k=0;k<j;++k) v -= mul(a[i+k*lda],cj(a[j+k*lda])); a[i+j*lda] = quo(v,T(r));}
  }
}
template <typename T> void potrs(char uplo, int n, int nrhs, T *a, int lda, T *b, int ldb, int *info)
{
  bool u = up(uplo); *info = 0;
  if (!u && !lo(uplo)) { *info = -1; return;} if (n<0) { *info = -2; return;} if (nrhs<0) { *info = -3; return;} if (lda < mx(1,n)) { *info = -5; return;} if (ldb < mx(1,n)) { *info = -7; return;}
  trsm<T>('L', uplo, u ? 'C' : 'N', 'N', n, nrhs, T(1), a, lda, b, ldb);
  trsm<T>('L', uplo, u ? 'N' : 'C', 'N', n, nrhs, T(1), a, lda, b, ldb);
}
template <typename T> void getrf(int m, int n, T *a, int lda, int *ipiv, int *info)
{
  typedef typename sc<T>::type S; *info = 0;
  if (m<0) { *info = -1; return;} if (n<0) { *info = -2; return;} if (lda < mx(1,m)) { *info = -4; return;}
  for (int j=0;j<(m<n?m:n);++j)
  {
    int p = j; S best = ab2(a[j+j*lda]); for (int i=j+1;i<m;++i) { S v = ab2(a[i+j*lda]); if (v > best) { best = v; p = i;}}
    ipiv[j] = p+1;
    if (best == S()) { if (!*info) *info = j+1; continue;}
    for (int k=0;k<n;++k) { T t = a[j+k*lda]; a[j+k*lda] = a[p+k*lda]; a[p+k*lda] = t;}
    for (int i=j+1;i<m;++i) { T f = quo(a[i+j*lda],a[j+j*lda]); a[i+j*lda] = f; for (int k=j+1;k<n;++k) a[i+k*lda] -= mul(f,a[j+k*lda]);}
  }
}
template <typename T> void getrs(char t, int n, int nrhs, T *a, int lda, int *ipiv, T *b, int ldb, int *info)
{
  *info = 0;
  if (!(no(t)||tt(t)||cc(t))) { *info = -1; return;} if (n<0) { *info = -2; return;} if (nrhs<0) { *info = -3; return;} if (lda < mx(1,n)) { *info = -5; return;} if (ldb < mx(1,n)) { *info = -8; return;}
  if (no(t))
  {
    for (int i=0;i<n;++i) for (int k=0;k<nrhs;++k) { int p = ipiv[i]-1; T v = b[i+k*ldb]; b[i+k*ldb] = b[p+k*ldb]; b[p+k*ldb] = v;}
    trsm<T>('L','L','N','U',n,nrhs,T(1),a,lda,b,ldb); trsm<T>('L','U','N','N',n,nrhs,T(1),a,lda,b,ldb);
  }
  else
  {
    trsm<T>('L','U',t,'N',n,nrhs,T(1),a,lda,b,ldb); trsm<T>('L','L',t,'U',n,nrhs,T(1),a,lda,b,ldb);
    for (int i=n;i-->0;) for (int k=0;k<nrhs;++k) { int p = ipiv[i]-1; T v = b[i+k*ldb]; b[i+k*ldb] = b[p+k*ldb]; b[p+k*ldb] = v;}
  }
}
// H^H (alpha; x) = (beta; 0), H = I - tau (1;v)(1;v)^H; beta is real and v replaces x
template <typename T> void larfg(int n, T &alpha, T *x, int inc, T &tau)
{
  typedef typename sc<T>::type S; typedef sc<T> c;
  S s = S(); for (int i=0;i<n-1;++i) s += ab2(x[i*inc]);
  S ar = c::re(alpha), ai = c::im(alpha);
  if (s == S() && ai == S()) { tau = T(); return;}
  S beta = std::sqrt(ar*ar+ai*ai+s); if (ar >= 0) beta = -beta;
  tau = c::mk((beta-ar)/beta, -ai/beta); T f = quo(T(1), alpha-T(beta));
  for (int i=0;i<n-1;++i) x[i*inc] = mul(x[i*inc],f);
  alpha = T(beta);
}
// C := (I - tau (1;v)(1;v)^H) C from the left or C (I - tau (1;v)(1;v)^H) from the right; cv: v is conjugated
template <typename T> void larf(bool left, int m, int n, T const *v, int inc, bool cv, T tau, T *c, int ldc)
{
  int k = left ? m : n, l = left ? n : m;
  for (int q=0;q<l;++q)
  {
    T w = T();
    for (int i=0;i<k;++i) { T vi = i ? cv ? cj(v[(i-1)*inc]) : v[(i-1)*inc] : T(1); w += left ? mul(cj(vi),c[i+q*ldc]) : mul(c[q+i*ldc],vi);}
    w = mul(tau,w);
    for (int i=0;i<k;++i) { T vi = i ? cv ? cj(v[(i-1)*inc]) : v[(i-1)*inc] : T(1); if (left) c[i+q*ldc] -= mul(vi,w); else c[q+i*ldc] -= mul(w,cj(vi));}
  }
}
template <typename T> void scratch(T *w, int n) { for (int i=0;i<n;++i) w[i] = T();}
template <typename T> void geqrf(int m, int n, T *a, int lda, T *tau, T *work, int lwork, int *info)
{
  *info = 0;
  if (m<0) { *info = -1; return;} if (n<0) { *info = -2; return;} if (lda < mx(1,m)) { *info = -4; return;} if (lwork < mx(1,n)) { *info = -7; return;}
  scratch(work, lwork);
  for (int i=0;i<(m<n?m:n);++i)
  {
    larfg(m-i, a[i+i*lda], a+i+1+i*lda, 1, tau[i]);
    if (i+1<n) larf<T>(true, m-i, n-i-1, a+i+1+i*lda, 1, false, cj(tau[i]), a+i+(i+1)*lda, lda);
  }
}
// C := op(Q) C or C op(Q), Q = H(1) .. H(k)
template <typename T> void ormqr(char side, char t, int m, int n, int k, T *a, int lda, T *tau, T *c, int ldc, T *work, int lwork, int *info)
{
  bool left = lo(side), n_ = no(t); int q = left ? m : n, w = left ? n : m; *info = 0;
  if (!left && !ri(side)) { *info = -1; return;} if (!n_ && !(sc<T>::cx ? cc(t) : tt(t))) { *info = -2; return;}
  if (m<0) { *info = -3; return;} if (n<0) { *info = -4; return;} if (k<0 || k>q) { *info = -5; return;} if (lda < mx(1,q)) { *info = -7; return;} if (ldc < mx(1,m)) { *info = -10; return;} if (lwork < mx(1,w)) { *info = -12; return;}
  scratch(work, lwork);
  for (int s=0;s<k;++s)
  {
    int i = left == n_ ? k-1-s : s; T f = n_ ? tau[i] : cj(tau[i]);
    larf<T>(left, left ? m-i : m, left ? n : n-i, a+i+1+i*lda, 1, false, f, left ? c+i : c+i*ldc, ldc);
  }
}
// Q^H A P = B bidiagonal
template <typename T> void gebrd(int m, int n, T *a, int lda, typename sc<T>::type *d, typename sc<T>::type *e, T *tauq, T *taup, T *work, int lwork, int *info)
{
  *info = 0;
  if (m<0) { *info = -1; return;} if (n<0) { *info = -2; return;} if (lda < mx(1,m)) { *info = -4; return;} if (lwork < mx(1,mx(m,n))) { *info = -10; return;}
  scratch(work, lwork);
  int p = m < n ? m : n, off = m >= n ? 0 : 1; // off: rows first
  for (int i=0;i<p;++i) for (int half=0;half<2;++half)
    if ((half == 0) == (m >= n)) // a column
    {
      int r = i+off; // its first element
      if (r >= m) { if (off) tauq[i] = T(); continue;}
      larfg(m-r, a[r+i*lda], a+r+1+i*lda, 1, tauq[i]);
      (off ? e : d)[i] = sc<T>::re(a[r+i*lda]);
      if (i+1<n) larf<T>(true, m-r, n-i-1, a+r+1+i*lda, 1, false, cj(tauq[i]), a+r+(i+1)*lda, lda);
    }
    else // a row
    {
      int c = i+1-off; // its first element
      if (c >= n) { if (!off) taup[i] = T(); continue;}
      for (int j=c;j<n;++j) a[i+j*lda] = cj(a[i+j*lda]);
      larfg(n-c, a[i+c*lda], a+i+(c+1)*lda, lda, taup[i]);
      (off ? d : e)[i] = sc<T>::re(a[i+c*lda]);
      if (i+1<m) larf<T>(false, m-i-1, n-c, a+i+(c+1)*lda, lda, false, taup[i], a+i+1+c*lda, lda);
      for (int j=c+1;j<n;++j) a[i+j*lda] = cj(a[i+j*lda]);
    }
}
// Q or P^H of gebrd
template <typename T> void orgbr(char vect, int m, int n, int k, T *a, int lda, T *tau, T *work, int lwork, int *info)
{
  bool q = vect == 'Q' || vect == 'q'; int mn = m < n ? m : n; *info = 0;
  if (!q && vect != 'P' && vect != 'p') { *info = -1; return;} if (m<0) { *info = -2; return;}
  if (n<0 || (q && (n>m || n < (m<k?m:k))) || (!q && (m>n || m < (n<k?n:k)))) { *info = -3; return;}
  if (k<0) { *info = -4; return;} if (lda < mx(1,m)) { *info = -6; return;} if (lwork < mx(1,mn)) { *info = -9; return;}
  scratch(work, lwork);
  int len = q ? m : n, cnt = q ? n : m; // cnt orthonormal columns (rows) of length len
  bool full = q ? m >= k : k < n; // otherwise the reflectors start one below (right of) the diagonal
  int r = full ? k : len-1, sh = full ? 0 : 1;
  T w[16], x[16]; if (len > 4 || cnt > 4) abort();
  for (int c=0;c<cnt;++c)
  {
    for (int i=0;i<len;++i) x[i+c*4] = T(i == c);
    for (int s=r;s-->0;) // Q e_c = H(1) .. H(r) e_c; row c of P^H is (P e_c)^H
    {
      T *v = q ? a+s+sh+1+s*lda : a+s+(s+sh+1)*lda;
      larf<T>(true, len-s-sh, 1, v, q ? 1 : lda, !q, tau[s], x+s+sh+c*4, 4);
    }
  }
  (void)w;
  for (int c=0;c<cnt;++c) for (int i=0;i<len;++i) if (q) a[i+c*lda] = x[i+c*4]; else a[c+i*lda] = cj(x[i+c*4]);
}
// B = Q S P^T by one-sided rotations; VT := P^T VT, U := U Q
template <typename T> void bdsqr(char uplo, int n, int ncvt, int nru, int ncc, typename sc<T>::type *d, typename sc<T>::type *e, T *vt, int ldvt, T *u, int ldu, T *c, int ldc, typename sc<T>::type *work, int *info)
{
  typedef typename sc<T>::type S; bool U = up(uplo); *info = 0;
  if (!U && !lo(uplo)) { *info = -1; return;} if (n<0) { *info = -2; return;} if (ncvt<0) { *info = -3; return;} if (nru<0) { *info = -4; return;} if (ncc<0) { *info = -5; return;}
  if (ldvt < mx(1, ncvt ? n : 1)) { *info = -9; return;} if (ldu < mx(1,nru)) { *info = -11; return;} if (ldc < mx(1, ncc ? n : 1)) { *info = -13; return;}
  if (n == 0) return;
  if (n > 3 || ncc) abort();
  for (int i=0;i<4*(n-1)+(n==1);++i) work[i] = S();
  S b[9], v[9]; for (int i=0;i<9;++i) b[i] = S(), v[i] = S(i % 4 == 0);
  for (int i=0;i<n;++i) b[i*4] = d[i];
  for (int i=0;i+1<n;++i) b[U ? i+(i+1)*3 : i+1+i*3] = e[i];
  for (int sweep=0;sweep<(n == 3 ? 6 : 1);++sweep) for (int p=0;p<n;++p) for (int q=p+1;q<n;++q)
  {
    S x = S(), y = S(), z = S(); for (int i=0;i<n;++i) { x += b[i+p*3]*b[i+p*3]; y += b[i+q*3]*b[i+q*3]; z += b[i+p*3]*b[i+q*3];}
    // tan of the angle; no rotation (z == 0) is the limit
    S h = y-x, t = 2*z/((h >= 0 ? S(1) : S(-1))*((h >= 0 ? h : -h)+std::sqrt(h*h+4*z*z))); t = z == 0 ? S() : t;
    S co = 1/std::sqrt(1+t*t), si = t*co;
    for (int i=0;i<n;++i) { S f = b[i+p*3], g = b[i+q*3]; b[i+p*3] = co*f-si*g; b[i+q*3] = si*f+co*g; f = v[i+p*3]; g = v[i+q*3]; v[i+p*3] = co*f-si*g; v[i+q*3] = si*f+co*g;}
  }
  S s[3]; for (int j=0;j<n;++j) { S x = S(); for (int i=0;i<n;++i) x += b[i+j*3]*b[i+j*3]; s[j] = std::sqrt(x);}
  for (int p=0;p<n;++p) for (int q=p+1;q<n;++q) // in decreasing order
  { bool w = s[q] > s[p]; S f = s[p], g = s[q]; s[p] = w ? g : f; s[q] = w ? f : g; for (int i=0;i<n;++i) { f = b[i+p*3]; g = b[i+q*3]; b[i+p*3] = w ? g : f; b[i+q*3] = w ? f : g; f = v[i+p*3]; g = v[i+q*3]; v[i+p*3] = w ? g : f; v[i+q*3] = w ? f : g;}}
  for (int j=0;j<n;++j) { d[j] = s[j]; for (int i=0;i<n;++i) b[i+j*3] /= s[j];}
  T row[3];
  for (int c=0;c<ncvt;++c) { for (int i=0;i<n;++i) { row[i] = T(); for (int k=0;k<n;++k) row[i] += mul(T(v[k+i*3]),vt[k+c*ldvt]);} for (int i=0;i<n;++i) vt[i+c*ldvt] = row[i];}
  for (int r=0;r<nru;++r) { for (int i=0;i<n;++i) { row[i] = T(); for (int k=0;k<n;++k) row[i] += mul(u[r+k*ldu],T(b[k+i*3]));} for (int i=0;i<n;++i) u[r+i*ldu] = row[i];}
}
}
extern "C" {
#define LR(X,T,S,M) \
void X##trsm_(char *s, char *u, char *t, char *d, int *m, int *n, T *al, T *a, int *lda, T *b, int *ldb) { lapackref::trsm<T >(*s,*u,*t,*d,*m,*n,*al,a,*lda,b,*ldb);}\
void X##potrf_(char *u, int *n, T *a, int *lda, int *i) { lapackref::potrf<T >(*u,*n,a,*lda,i);}\
void X##potrs_(char *u, int *n, int *r, T *a, int *lda, T *b, int *ldb, int *i) { lapackref::potrs<T >(*u,*n,*r,a,*lda,b,*ldb,i);}\
void X##getrf_(int *m, int *n, T *a, int *lda, int *p, int *i) { lapackref::getrf<T >(*m,*n,a,*lda,p,i);}\
void X##getrs_(char *t, int *n, int *r, T *a, int *lda, int *p, T *b, int *ldb, int *i) { lapackref::getrs<T >(*t,*n,*r,a,*lda,p,b,*ldb,i);}\
void X##geqrf_(int *m, int *n, T *a, int *lda, T *tau, T *w, int *lw, int *i) { lapackref::geqrf<T >(*m,*n,a,*lda,tau,w,*lw,i);}\
void X##geqr2_(int *m, int *n, T *a, int *lda, T *tau, T *w, int *i) { lapackref::geqrf<T >(*m,*n,a,*lda,tau,w,*n,i);}\
void X##M##mqr_(char *s, char *t, int *m, int *n, int *k, T *a, int *lda, T *tau, T *c, int *ldc, T *w, int *lw, int *i) { lapackref::ormqr<T >(*s,*t,*m,*n,*k,a,*lda,tau,c,*ldc,w,*lw,i);}\
void X##gebrd_(int *m, int *n, T *a, int *lda, S *d, S *e, T *tq, T *tp, T *w, int *lw, int *i) { lapackref::gebrd<T >(*m,*n,a,*lda,d,e,tq,tp,w,*lw,i);}\
void X##M##gbr_(char *v, int *m, int *n, int *k, T *a, int *lda, T *tau, T *w, int *lw, int *i) { lapackref::orgbr<T >(*v,*m,*n,*k,a,*lda,tau,w,*lw,i);}
LR(s,float,float,or) LR(d,double,double,or) LR(c,lapackref::cf,float,un) LR(z,lapackref::cd,double,un)
#undef LR
#define LB(X,T,S,W) void X##bdsqr_(char *ul, int *n, int *nv, int *nu, int *nc, S *d, S *e, T *vt, int *ldvt, T *u, int *ldu, T *c, int *ldc, W *w, int *i) { lapackref::bdsqr<T >(*ul,*n,*nv,*nu,*nc,d,e,vt,*ldvt,u,*ldu,c,*ldc,(S*)w,i);}
LB(s,float,float,float) LB(d,double,double,double) LB(c,lapackref::cf,float,lapackref::cf) LB(z,lapackref::cd,double,lapackref::cd)
#undef LB
int ilaenv_(int *, char const *, char const *, int *, int *, int *, int *) { return 2;}
}
