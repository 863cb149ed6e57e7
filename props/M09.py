"""Linear-system solvers: Cholesky, LU, QR and singular-value solver objects, least-squares, covariance and Toeplitz
solvers, judged by the equation each result must satisfy, over reference definitions of the LAPACK entry points."""
from vp import *
RULE = "what a solver computes satisfies the equation that defines it (A x = b, Q^H Q = I, A = U S V^H, ...) for every operand layout, and a copied or assigned solver solves the same system"
PRE = r'''#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/math.hpp>
#include <vsip/solvers.hpp>
#include "mac.hpp"
#include "lapackref.hpp"
using namespace vsip;
template <typename T> T cj(T x) { return x;} template <typename T> std::complex<T> cj(std::complex<T> x) { return std::complex<T>(x.real(), -x.imag());}
template <typename T> T ml(T a, T b) { return a*b;}
template <typename T> std::complex<T> ml(std::complex<T> a, std::complex<T> b) { return lapackref::mul(a,b);}
// small dense matrices of the specification
template <typename T> struct X
{
  int r, c; T v[16];
  X(int r_, int c_) : r(r_), c(c_) { for (int i=0;i<r*c;++i) v[i] = T();}
  T &operator()(int i, int j) { return v[i*c+j];} T const &operator()(int i, int j) const { return v[i*c+j];}
  X h() const { X y(c,r); for (int i=0;i<r;++i) for (int j=0;j<c;++j) y(j,i) = cj((*this)(i,j)); return y;}
  X t() const { X y(c,r); for (int i=0;i<r;++i) for (int j=0;j<c;++j) y(j,i) = (*this)(i,j); return y;}
  X operator*(X const &b) const { X y(r,b.c); for (int i=0;i<r;++i) for (int j=0;j<b.c;++j) for (int k=0;k<c;++k) y(i,j) += ml((*this)(i,k),b(k,j)); return y;}
  X cols(int lo, int n) const { X y(r,n); for (int i=0;i<r;++i) for (int j=0;j<n;++j) y(i,j) = (*this)(i,lo+j); return y;}
  X scale(T s) const { X y(r,c); for (int i=0;i<r*c;++i) y.v[i] = ml(s,v[i]); return y;}
};
// elements a, plus d at column (i+s)%c of row i: nonsingular and, for s, in need of pivoting
template <typename T> X<T> mk(T const *a, int r, int c, double d = 0, int s = 0) { X<T> x(r,c); for (int i=0;i<r;++i) for (int j=0;j<c;++j) x(i,j) = a[i*c+j] + T(j == (i+s)%c ? d : 0); return x;}
template <typename V, typename T> void put(V v, X<T> const &x) { for (int i=0;i<x.r;++i) for (int j=0;j<x.c;++j) v.put(i,j,x(i,j));}
template <typename T, typename V> X<T> get(V v) { X<T> x(v.size(0),v.size(1)); for (int i=0;i<x.r;++i) for (int j=0;j<x.c;++j) x(i,j) = v.get(i,j); return x;}
template <typename T> X<T> eye(int n) { X<T> x(n,n); for (int i=0;i<n;++i) x(i,i) = T(1); return x;}
template <typename T> T *out(T *o, X<T> const &x) { for (int i=0;i<x.r*x.c;++i) *o++ = x.v[i]; return o;}
template <typename T> T *dif(T *o, X<T> const &x, X<T> const &y) { if (x.r != y.r || x.c != y.c) abort(); for (int i=0;i<x.r*x.c;++i) *o++ = x.v[i]-y.v[i]; return o;}
template <typename T> T *zero(T *o, int n) { for (int i=0;i<n;++i) *o++ = T(); return o;}
// the Hermitian matrix whose chosen triangle is x
template <typename T> X<T> herm(X<T> const &x, bool up) { X<T> y(x.r,x.r); for (int i=0;i<x.r;++i) for (int j=0;j<x.r;++j) y(i,j) = i == j ? T(lapackref::sc<T>::re(x(i,i))) : (i<j) == up ? x(i,j) : cj(x(j,i)); return y;}
// its storage: the other triangle is not to be read
template <typename T> X<T> tri(X<T> const &x, bool up) { X<T> y(x); for (int i=0;i<x.r;++i) for (int j=0;j<x.r;++j) if (i == j) y(i,j) = T(lapackref::sc<T>::re(x(i,i))); else if ((i<j) != up) y(i,j) = T(77); return y;}
'''
TY = ['float', 'double', 'cfloat', 'cdouble']
ORD = {'r': 'row2_type', 'c': 'col2_type'}
def D(T, o, v, R, C): return 'Matrix<%s,Dense<2,%s,%s > > %s(%s,%s,%s(55)); ' % (T, T, ORD[o], v, R, C, T)
def Sub(T, o, v, R, C): return 'Matrix<%s,Dense<2,%s,%s > > %s_(2*(%s),2*(%s),%s(55)); Matrix<%s,Dense<2,%s,%s > >::subview_type %s=%s_(Domain<2>(Domain<1>(1,2,%s),Domain<1>(0,2,%s))); ' % (T, T, ORD[o], v, R, C, T, T, T, ORD[o], v, v, R, C)
def tus(tier):
    full = tier == 'thorough'; tu = []; o = []; ES = 'fr'
    def A(T, *names): return [PT(T, x, '-1..1') for x in names] + [PT(T, 'o')]
    def ob(nm, T, args, impl, spec, what, n=10, **k):
        ext = {'o': '600'}; o.append(Ob(nm, A(T, *args), impl, spec, n=n, what=what, extent=ext, **k))
    V = [('r', 'r', 'r'), ('c', 'c', 'c'), ('r', 'c', 'r'), ('c', 'r', 'c')]
    def views(T, i, a, b, x):
        "matrices m, b, x of the given sizes, in one of several layouts"
        va, vb, vx = V[i % 4]; k = i // 4 % 3
        return (Sub if k == 1 else D)(T, va, 'm', *a) + (Sub if k == 2 else D)(T, vb, 'w', *b) + (Sub if k == 1 else D)(T, vx, 'u', *x)
    # ---- Cholesky
    k = 0
    for T in TY:
        for up in ('upper', 'lower'):
            for n, p in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2)) if T in ('double', 'cfloat') or full else ((2, 1),):
                for mech in ('by_reference', 'by_value'):
                    k += 1; u = 'true' if up == 'upper' else 'false'
                    head = views(T, k, (n, n), (n, p), (n, p)) + 'X<%s> A=mk(a,%d,%d,8), B=mk(b,%d,%d); put(m,tri(A,%s)); put(w,B); chold<%s,%s> s(%s,%d); ' % (T, n, n, n, p, u, T, mech, up, n)
                    solve = 's.solve(w,u)' if mech == 'by_reference' else '(u=s.solve(w),true)'
                    ob('chold_%s_%s_%d_%d_%s' % (T, up, n, p, mech), T, 'ab', head + 'bool ok=s.decompose(m)&&%s; out(o,herm(A,%s)*get<%s>(u)); o[%d]=%s(ok&&s.length()==%d&&s.uplo()==%s);' % (solve, u, T, n * p, T, n, up),
                       'out(o,mk(b,%d,%d)); o[%d]=%s(1);' % (n, p, n * p, T), 'Cholesky solution of order %d with %d right-hand sides' % (n, p))
            for n, i in ((1, 0), (2, 0), (2, 1), (3, 2)):
                ob('chold_not_pd_%s_%s_%d_%d' % (T, up, n, i), T, 'a', D(T, 'c', 'm', n, n) + 'X<%s> A=mk(a,%d,%d,8); A(%d,%d)=%s(-2); put(m,tri(A,%s)); chold<%s,by_reference> s(%s,%d); o[0]=%s(s.decompose(m));' % (T, n, n, i, i, T, 'true' if up == 'upper' else 'false', T, up, n, T), 'o[0]=%s(0);' % T, 'decomposition of a matrix that is not positive definite') if T in ('float', 'cdouble') else 0
    tu += chunks(o, 14, 'm09chol', PRE, [], dict(unroll=1, share=12)); o = []
    # ---- LU
    for T in TY:
        for tr in ('mat_ntrans', 'mat_trans') + (('mat_herm',) if T[0] == 'c' else ()):
            for n, p, s in ((1, 1, 0), (2, 1, 1), (2, 2, 0), (3, 2, 1), (3, 1, 2)) if T in ('float', 'cdouble') or full else ((2, 1, 1),):
                k += 1; mech = ('by_reference', 'by_value')[k % 2]
                head = views(T, k, (n, n), (n, p), (n, p)) + 'X<%s> A=mk(a,%d,%d,7,%d), B=mk(b,%d,%d); put(m,A); put(w,B); lud<%s,%s> s(%d); ' % (T, n, n, s, n, p, T, mech, n)
                solve = 's.solve<%s>(w,u)' % tr if mech == 'by_reference' else '(u=s.solve<%s>(w),true)' % tr
                ob('lud_%s_%s_%d_%d_%d' % (T, tr, n, p, s), T, 'ab', head + 'bool ok=s.decompose(m)&&%s; out(o,A%s*get<%s>(u)); o[%d]=%s(ok&&s.length()==%d);' % (solve, {'mat_ntrans': '', 'mat_trans': '.t()', 'mat_herm': '.h()'}[tr], T, n * p, T, n),
                   'out(o,mk(b,%d,%d)); o[%d]=%s(1);' % (n, p, n * p, T), 'LU solution (%s) of order %d with %d right-hand sides' % (tr, n, p))
        ob('lud_singular_%s' % T, T, 'a', D(T, 'c', 'm', 2, 2) + 'X<%s> A=mk(a,2,2,7); A(0,1)=A(1,1)=%s(); put(m,A); lud<%s,by_reference> s(2); o[0]=%s(s.decompose(m));' % (T, T, T, T), 'o[0]=%s(0);' % T, 'decomposition of a singular matrix')
    tu += chunks(o, 12, 'm09lu', PRE, [], dict(unroll=1, share=12)); o = []
    # ---- QR
    for T in TY:
        H = 'mat_herm' if T[0] == 'c' else 'mat_trans'; main = T in ('float', 'cdouble') or full
        for m, n in ((1, 1), (2, 1), (2, 2), (3, 2), (3, 1), (3, 3)) if main else ((2, 1), (2, 2)):
            p = 2 if m < 3 else 1
            for st in ('qrd_saveq', 'qrd_saveq1'):
                q = m if st == 'qrd_saveq' else n; k += 1
                head = D(T, 'rc'[k % 2], 'm', m, n) + 'X<%s> A=mk(a,%d,%d,6); put(m,A); qrd<%s,by_value> s(%d,%d,%s); if (!s.decompose(m)) abort(); Matrix<%s> I_(%d,%d); put(I_,eye<%s>(%d)); X<%s> Q=get<%s>(s.prodq<mat_ntrans,mat_lside>(I_)); ' % (T, m, n, T, m, n, st, T, q, q, T, q, T, T)
                ob('qrd_q_%s_%s_%d_%d' % (T, st, m, n), T, 'a', head + '%s *e=dif(o,Q.h()*Q,eye<%s>(%d)); X<%s> R=Q.h()*A; e=dif(e,Q*R,A); for (int j=0;j<%d;++j) for (int i=j+1;i<%d;++i) *e++=R(i,j); *e=%s(s.rows()==%d&&s.columns()==%d&&s.qstorage()==%s);' % (T, T, q, T, n, q, T, m, n, st),
                   '*zero(o,%d)=%s(1);' % (q * q + m * n + sum(max(q - j - 1, 0) for j in range(n)), T), 'Q of a %dx%d matrix is orthonormal, Q R is the matrix and R is triangular' % (m, n))
                for tr in ('mat_ntrans', H):
                    for side in ('mat_lside', 'mat_rside'):
                        nt = tr == 'mat_ntrans'; br, bc = ((q if nt else m), p) if side == 'mat_lside' else (p, (m if nt else q))
                        xr, xc = ((m if nt else q), p) if side == 'mat_lside' else (p, (q if nt else m)); k += 1
                        mech = ('by_reference', 'by_value')[k % 2]
                        call = 's2.prodq<%s,%s>(w,u)' % (tr, side) if mech == 'by_reference' else 'u=s2.prodq<%s,%s>(w)' % (tr, side)
                        Q = 'Q' if nt else 'Q.h()'
                        ob('qrd_prodq_%s_%s_%d_%d_%s_%s' % (T, st, m, n, tr, side), T, 'ab', head + (Sub if k % 3 == 1 else D)(T, 'rc'[k // 2 % 2], 'w', br, bc) + (Sub if k % 3 == 2 else D)(T, 'rc'[k // 4 % 2], 'u', xr, xc) + 'X<%s> B=mk(b,%d,%d); put(w,B); put(m,A); qrd<%s,%s> s2(%d,%d,%s); s2.decompose(m); %s; dif(o,get<%s>(u),%s);' % (T, br, bc, T, mech, m, n, st, call, T, 'B*' + Q if side == 'mat_rside' else Q + '*B'),
                           'zero(o,%d);' % (xr * xc), 'product with Q (%s, %s) of a %dx%d matrix' % (tr, side, m, n))
                if q == m or True:
                    # R X = alpha B  <=>  A X = alpha Q1 B ;  R^H X = alpha B  <=>  A^H Q1 X = alpha B
                    for tr in ('mat_ntrans', H):
                        k += 1; mech = ('by_reference', 'by_value')[k % 2]; call = 's2.rsol<%s>(w,b[8],u)' % tr if mech == 'by_reference' else 'u=s2.rsol<%s>(w,b[8])' % tr
                        ob('qrd_rsol_%s_%s_%d_%d_%s' % (T, st, m, n, tr), T, 'ab', head + views(T, k, (m, n), (n, p), (n, p)).split('; ', 1)[1].replace('m_(Domain', 'm(Domain') if False else head + D(T, 'rc'[k % 2], 'w', n, p) + (Sub if k % 3 == 2 else D)(T, 'rc'[k // 2 % 2], 'u', n, p) + 'X<%s> B=mk(b,%d,%d); put(w,B); put(m,A); qrd<%s,%s> s2(%d,%d,%s); s2.decompose(m); %s; X<%s> Q1=Q.cols(0,%d); dif(o,%s);' % (T, n, p, T, mech, m, n, st, call, T, n, 'A*get<%s>(u),(Q1*B).scale(b[8])' % T if tr == 'mat_ntrans' else 'A.h()*(Q1*get<%s>(u)),B.scale(b[8])' % T),
                           'zero(o,%d);' % ((m if tr == 'mat_ntrans' else n) * p), 'triangular solution (%s) with R of a %dx%d matrix' % (tr, m, n))
            for st in ('qrd_nosaveq', 'qrd_saveq', 'qrd_saveq1'):
                if st == 'qrd_saveq1' and not full: continue
                for f in ('covsol', 'lsqsol'):
                    br = n if f == 'covsol' else m; k += 1; mech = ('by_reference', 'by_value')[k % 2]
                    call = 's.%s(w,u)' % f if mech == 'by_reference' else 'u=s.%s(w)' % f
                    ob('qrd_%s_%s_%s_%d_%d' % (f, T, st, m, n), T, 'ab', views(T, k, (m, n), (br, p), (n, p)) + 'X<%s> A=mk(a,%d,%d,6), B=mk(b,%d,%d); put(m,A); put(w,B); qrd<%s,%s> s(%d,%d,%s); s.decompose(m); %s; dif(o,A.h()*(A*get<%s>(u)),%s);' % (T, m, n, br, p, T, mech, m, n, st, call, T, 'B' if f == 'covsol' else 'A.h()*B'),
                       'zero(o,%d);' % (n * p), ('solution of A^H A x = b' if f == 'covsol' else 'least-squares solution of A x = b') + ' for a %dx%d matrix' % (m, n))
            for f in ('covsol', 'llsqsol'):
                for mech in ('ref', 'val'):
                    br = n if f == 'covsol' else m; k += 1
                    call = '%s(m,w,u)' % f if mech == 'ref' else 'u=%s(m,w)' % f
                    ob('%s_%s_%s_%d_%d' % (f, mech, T, m, n), T, 'ab', views(T, k, (m, n), (br, p), (n, p)) + 'X<%s> A=mk(a,%d,%d,6), B=mk(b,%d,%d); put(m,A); put(w,B); %s; dif(o,A.h()*(A*get<%s>(u)),%s);' % (T, m, n, br, p, call, T, 'B' if f == 'covsol' else 'A.h()*B'),
                       'zero(o,%d);' % (n * p), '%s of a %dx%d matrix' % (f, m, n))
    tu += chunks(o, 10, 'm09qr', PRE, [], dict(unroll=1, share=12)); o = []
    # ---- SVD
    for T in TY:
        H = 'mat_herm' if T[0] == 'c' else 'mat_trans'; main = T in ('double', 'cfloat') or full
        R_ = {'float': 'float', 'double': 'double', 'cfloat': 'float', 'cdouble': 'double'}[T]
        for m, n in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3), (3, 1), (1, 3)) + (((3, 3),) if full else ()) if main else ((2, 1), (2, 2), (1, 2)):
            q = min(m, n)
            for us in ('svd_uvnos', 'svd_uvpart', 'svd_uvfull'):
                for vs in ('svd_uvnos', 'svd_uvpart', 'svd_uvfull'):
                    if 'svd_uvnos' in (us, vs) and not (main and (m, n) in ((2, 2), (3, 2), (1, 2))): continue
                    k += 1; mech = ('by_reference', 'by_value')[k % 2]
                    uc = m if us == 'svd_uvfull' else q; vc = n if vs == 'svd_uvfull' else q
                    head = D(T, 'rc'[k % 2], 'm', m, n) + 'X<%s> A=mk(a,%d,%d,3); put(m,A); svd<%s,%s> s(%d,%d,%s,%s); Vector<%s> d(%d); %s; ' % (T, m, n, T, mech, m, n, us, vs, R_, q, 'if (!s.decompose(m,d)) abort()' if mech == 'by_reference' else 'd=s.decompose(m)')
                    body = '%s *e=o; ' % T; nz = 0
                    def part(letter, rows, cols):
                        if mech == 'by_reference': return D(T, 'rc'[k // 2 % 2], letter + '_', rows, cols) + 's.%s(0,%d,%s_); X<%s> %s=get<%s>(%s_); ' % (letter, cols - 1, letter, T, letter.upper(), T, letter)
                        return 'X<%s> %s=get<%s>(s.%s(0,%d)); ' % (T, letter.upper(), T, letter, cols - 1)
                    G = 'A.h()*A' if m >= n else 'A*A.h()'
                    if us != 'svd_uvnos': body += part('u', m, uc) + 'e=dif(e,U.h()*U,eye<%s>(%d)); ' % (T, uc); nz += uc * uc
                    if vs != 'svd_uvnos': body += part('v', n, vc) + 'e=dif(e,V.h()*V,eye<%s>(%d)); ' % (T, vc); nz += vc * vc
                    if us != 'svd_uvnos' and vs != 'svd_uvnos': body += 'X<%s> S(%d,%d); for (int i=0;i<%d;++i) S(i,i)=%s(d.get(i)); e=dif(e,U*S*V.h(),A); ' % (T, uc, vc, q, T); nz += m * n
                    elif us != 'svd_uvnos': body += 'X<%s> S(%d,%d); for (int i=0;i<%d;++i) S(i,i)=%s(d.get(i)*d.get(i)); e=dif(e,U*S*U.h(),A*A.h()); ' % (T, uc, uc, q, T); nz += m * m
                    elif vs != 'svd_uvnos': body += 'X<%s> S(%d,%d); for (int i=0;i<%d;++i) S(i,i)=%s(d.get(i)*d.get(i)); e=dif(e,V*S*V.h(),A.h()*A); ' % (T, vc, vc, q, T); nz += n * n
                    else: body += 'X<%s> G=%s; %s t=0, w=0; for (int i=0;i<%d;++i) { t+=lapackref::sc<%s>::re(G(i,i)); for (int j=0;j<%d;++j) w+=lapackref::ab2(G(i,j)); } for (int i=0;i<%d;++i) { %s x=d.get(i)*d.get(i); t-=x; w-=x*x; } *e++=%s(t); *e++=%s(w); ' % (T, G, R_, q, T, q, q, R_, T, T); nz += 2
                    body += 'bool ok=s.rows()==%d&&s.columns()==%d&&s.ustorage()==%s&&s.vstorage()==%s; for (int i=0;i<%d;++i) ok=ok&&d.get(i)>=(i+1<%d?d.get(i+1<%d?i+1:i):%s()); *e=%s(ok);' % (m, n, us, vs, q, q, q, R_, T)
                    ob('svd_%s_%d_%d_%s_%s' % (T, m, n, us[4:], vs[4:]), T, 'a', head + body, '*zero(o,%d)=%s(1);' % (nz, T), 'singular values and vectors of a %dx%d matrix (%s, %s)' % (m, n, us, vs))
                    if us == vs and us != 'svd_uvnos' and q * 4 and (m, n) in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)):
                        for letter, rows, cols, L in (('u', m, uc, 'U'), ('v', n, vc, 'V')):
                            for tr in ('mat_ntrans', H):
                                for side in ('mat_lside', 'mat_rside'):
                                    if not main and (tr == 'mat_ntrans') == (side == 'mat_lside'): continue
                                    nt = tr == 'mat_ntrans'; br, bc = ((cols if nt else rows), 2) if side == 'mat_lside' else (2, (rows if nt else cols))
                                    xr, xc = ((rows if nt else cols), 2) if side == 'mat_lside' else (2, (cols if nt else rows))
                                    k += 1; M_ = L if nt else L + '.h()'
                                    call = 's.prod%s<%s,%s>(w,x)' % (letter, tr, side) if mech == 'by_reference' else 'x=s.prod%s<%s,%s>(w)' % (letter, tr, side)
                                    ob('svd_prod%s_%s_%d_%d_%s_%s_%s' % (letter, T, m, n, us[4:], tr, side), T, 'ab', head + part(letter, rows, cols) + (Sub if k % 3 == 1 else D)(T, 'rc'[k % 2], 'w', br, bc) + (Sub if k % 3 == 2 else D)(T, 'rc'[k // 2 % 2], 'x', xr, xc) + 'X<%s> B=mk(b,%d,%d); put(w,B); %s; dif(o,get<%s>(x),%s);' % (T, br, bc, call, T, 'B*' + M_ if side == 'mat_rside' else M_ + '*B'),
                                       'zero(o,%d);' % (xr * xc), 'product with the matrix of %s singular vectors (%s, %s)' % ({'u': 'left', 'v': 'right'}[letter], tr, side))
                        if uc > 1: # a range of vectors
                            ob('svd_range_%s_%d_%d_%s' % (T, m, n, us[4:]), T, 'a', head + part('u', m, uc) + ''.join(D(T, 'r', 'z%d' % i, m, 1) + ('s.u(%d,%d,z%d); ' % (i, i, i) if mech == 'by_reference' else 'z%d=s.u(%d,%d); ' % (i, i, i)) for i in range(1, uc)) + '%s *e=o; ' % T + ''.join('e=dif(e,get<%s>(z%d),U.cols(%d,1)); ' % (T, i, i) for i in range(1, uc)), 'zero(o,%d);' % (m * (uc - 1)), 'a range of singular vectors')
    tu += chunks(o, 8, 'm09svd', PRE, [], dict(unroll=1, share=12)); o = []
    # ---- Toeplitz
    for T in TY:
        for n in (1, 2, 3, 4) if T in ('double', 'cfloat') or full else (1, 3):
            for mech in ('ref', 'val'):
                k += 1; st = k % 2 + 1
                vs = ''.join('Vector<%s> %s_(%d,%s(44)); Vector<%s>::subview_type %s=%s_(Domain<1>(0,%d,%d)); ' % (T, v, n * st, T, T, v, v, st, n) for v in 'twyu')
                call = 'toepsol(t,w,y,u)' if mech == 'ref' else 'u=toepsol(t,w,y)'
                ob('toepsol_%s_%d_%s' % (T, n, mech), T, 'ab', vs + 'for (int i=0;i<%d;++i) { t.put(i,i?a[i]:%s(9)); w.put(i,b[i]); } %s; for (int i=0;i<%d;++i) { %s s=%s(); for (int j=0;j<%d;++j) s+=ml(j>=i?t.get(j-i):cj(t.get(i-j)),u.get(j)); o[i]=s; }' % (n, T, call, n, T, T, n),
                   'for (int i=0;i<%d;++i) o[i]=b[i];' % n, 'solution of a Toeplitz system of order %d' % n)
    tu += chunks(o, 8, 'm09toep', PRE, [], dict(unroll=1, share=12)); o = []
    # ---- copies
    for T in TY if full else ('float', 'cdouble'):
        for how, mk_ in (('copy', '%s t(s);'), ('assign', '%s t(%s); t=s;')):
            for nm, typ, ctor, use in (('chold', 'chold<%s,by_reference>' % T, 'lower,2', 't.solve(w,u); e=dif(e,herm(A,false)*get<%s>(u),B);' % T), ('lud', 'lud<%s,by_reference>' % T, '2', 't.solve<mat_ntrans>(w,u); e=dif(e,A*get<%s>(u),B);' % T),
                                       ('qrd', 'qrd<%s,by_reference>' % T, '2,2,qrd_saveq', 't.lsqsol(w,u); e=dif(e,A*get<%s>(u),B); t.prodq<mat_ntrans,mat_lside>(w,u); Matrix<%s> u2(2,2); s0.prodq<mat_ntrans,mat_lside>(w,u2); e=dif(e,get<%s>(u),get<%s>(u2));' % (T, T, T, T)),
                                       ('svd', 'svd<%s,by_reference>' % T, '2,2,svd_uvfull,svd_uvpart', 't.u(0,1,u); X<%s> U=get<%s>(u); t.v(0,1,u); X<%s> V=get<%s>(u); X<%s> Z=U.h()*A*V; *e++=Z(0,1); *e++=Z(1,0); e=dif(e,U.h()*U,eye<%s>(2)); *e++=%s(t.rows()+t.columns()+(t.ustorage()==svd_uvfull)+(t.vstorage()==svd_uvpart)-6);' % (T, T, T, T, T, T, T))):
                dec = 's.decompose(m%s);' % (',d' if nm == 'svd' else '')
                n0 = {'chold': 4, 'lud': 4, 'qrd': 8, 'svd': 7}[nm]; Ax = 'tri(A,false)' if nm == 'chold' else 'A'; R_ = {'float': 'float', 'double': 'double', 'cfloat': 'float', 'cdouble': 'double'}[T]
                other = '{ X<%s> C=mk(b,2,2,5); put(m,%s); %s } ' % (T, Ax.replace('A', 'C') if nm != 'chold' else 'tri(C,false)', dec)
                ob('%s_%s_%s' % (nm, how, T), T, 'ab', D(T, 'r', 'm', 2, 2) + D(T, 'r', 'w', 2, 2) + D(T, 'c', 'u', 2, 2) + 'Vector<%s> d(2); X<%s> A=mk(a,2,2,7,%d), B=mk(b,2,2); put(w,B); %s s(%s); put(m,%s); %s %s%s ' % (R_, T, 1 if nm in ('lud', 'qrd') else 0, typ, ctor, Ax, dec, mk_ % (typ if how == 'copy' else (typ, ctor)), '' if nm != 'qrd' else '%s s0(%s); put(m,A); s0.decompose(m); ' % (typ, ctor)) + other + '%s *e=o; ' % T + use, 'zero(o,%d);' % n0, '%s of a solver, which then is used for another system' % {'copy': 'a copy', 'assign': 'an assignment'}[how])
    tu += chunks(o, 6, 'm09copy', PRE, [], dict(unroll=1, share=12))
    return tu
