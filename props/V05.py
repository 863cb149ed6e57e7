"""Printed views: the text of a domain, index, length or view names every element once, in order, separated, rows on lines of
their own.  The library's inserters are compiled against a stream that records what is inserted."""
from vp import *
PRE = P + '''#include <ovxx/type_name.hpp>
#include <ovxx/domain_utils.hpp>
#include <ostream>
#include <sstream>
namespace std
{
// what is inserted: numbers, whether text came between them, and how many lines were ended before each
struct vp_stream
{
  double *o; int n, sep, lines;
  vp_stream(double *p) : o(p), n(0), sep(1), lines(0) {}
  void num(double v) { o[4*n]=v; o[4*n+1]=sep; o[4*n+2]=lines; ++n; sep=0; }
  void text(char c) { if (c) sep=1; if (c==10) ++lines; }
  vp_stream &operator<<(char c) { text(c); return *this; }
  vp_stream &operator<<(char const *s) { for (int i=0;i<10 && s[i];++i) text(s[i]); return *this; }
  vp_stream &operator<<(unsigned long v) { num((double)v); return *this; }
  vp_stream &operator<<(long v) { num((double)v); return *this; }
  vp_stream &operator<<(unsigned v) { num((double)v); return *this; }
  vp_stream &operator<<(int v) { num((double)v); return *this; }
  vp_stream &operator<<(float v) { num((double)v); return *this; }
  vp_stream &operator<<(double v) { num(v); return *this; }
  vp_stream &operator<<(complex<float> v) { num(v.real()); sep=1; num(v.imag()); return *this; }
  vp_stream &operator<<(vp_stream &(*f)(vp_stream &)) { return f(*this); }
};
inline vp_stream &vp_endl(vp_stream &s) { s.text(10); return s; }
}
#define ostream vp_stream
#define endl vp_endl
#include <ovxx/output.hpp>
#undef ostream
#undef endl
using ovxx::operator<<;
using std::vp_stream;
// the reference: one number, with the separation and line that it must have
#define NUM(v,s,l) { out[4*q]=(double)(v); out[4*q+1]=s; out[4*q+2]=l; ++q; }
'''
def tus(tier):
    o=[]
    U=[PT('double','out')]
    I='vp_stream o_(out); o_ << '
    for t in ('float','int','cfloat'):
        num=lambda e,s,l: ('NUM((%s).real(),%s,%s) NUM((%s).imag(),1,%s) '%(e,s,l,e,l) if t=='cfloat' else 'NUM(%s,%s,%s) '%(e,s,l))
        o.append(Ob('vec_'+t, U+[PT(t,'a'),N(lo=0,hi=5),S('s')], 'VW(%s,v,a,n,s) '%t+I+'v; out[100]=o_.n; out[101]=o_.lines;', 'int q=0; for (index_type i=0;i<n;++i) { NUM(i,1,i) %s } out[100]=q; out[101]=n;'%num('a[(stride_type)i*s]',1,'i'), n=120, what='printed vector'))
        for od in ('row2_type','col2_type'):
            ad='a[i*m+j]' if od[0]=='r' else 'a[j*n+i]'
            o.append(Ob('mat_%s_%s'%(od[:3],t), U+[PT(t,'a'),N(lo=0,hi=4),N('m',lo=0,hi=4)], 'DM(%s,%s,v,a,n,m) '%(t,od)+I+'v; out[300]=o_.n; out[301]=o_.lines;', 'int q=0; for (index_type i=0;i<n;++i) { NUM(i,1,i) for (index_type j=0;j<m;++j) { %s } } out[300]=q; out[301]=n;'%num(ad,1,'i'), n=320, what='printed matrix'))
        o.append(Ob('ten_'+t, U+[PT(t,'a'),N(lo=0,hi=3),N('m',lo=0,hi=3),N('k',lo=0,hi=3)], 'DT(%s,row3_type,v,a,n,m,k) '%t+I+'v; out[400]=o_.n;',
          'int q=0; for (index_type i=0;i<n;++i) { NUM(i,1,i*(m+2)) for (index_type j=0;j<m;++j) { NUM(j,1,i*(m+2)+1+j) for (index_type l=0;l<k;++l) { %s } } } out[400]=q;'%num('a[(i*m+j)*k+l]',1,'i*(m+2)+1+j'), n=420, what='printed tensor'))
    A=[('index_type','a','r(0,9)'),('stride_type','b','ch([-2,1,3])'),('length_type','c','r(1,5)'),('index_type','d','r(0,9)'),('length_type','e','r(1,5)')]
    o.append(Ob('dom1', U+A, I+'Domain<1>(a,b,c); out[50]=o_.n;', 'int q=0; NUM(a,1,0) NUM(b,1,0) NUM(c,1,0) out[50]=q;', n=60, what='printed domain'))
    o.append(Ob('dom2', U+A, I+'Domain<2>(Domain<1>(a,b,c),Domain<1>(d,2,e)); out[50]=o_.n;', 'int q=0; NUM(a,1,0) NUM(b,1,0) NUM(c,1,0) NUM(d,1,0) NUM(2,1,0) NUM(e,1,0) out[50]=q;', n=60, what='printed domain'))
    o.append(Ob('dom3', U+A, I+'Domain<3>(Domain<1>(a,b,c),Domain<1>(d,2,e),Domain<1>(1,b,e)); out[50]=o_.n;', 'int q=0; NUM(a,1,0) NUM(b,1,0) NUM(c,1,0) NUM(d,1,0) NUM(2,1,0) NUM(e,1,0) NUM(1,1,0) NUM(b,1,0) NUM(e,1,0) out[50]=q;', n=60, what='printed domain'))
    for D in (1,2,3):
        v=['a','c','d'][:D]
        for ty in ('Index','ovxx::Length'):
            o.append(Ob('%s%d'%(ty[-5:].lower().strip(':'),D), U+A, I+'%s<%d>(%s); out[50]=o_.n;'%(ty,D,','.join(v)), 'int q=0; '+''.join('NUM(%s,1,0) '%x for x in v)+'out[50]=q;', n=60, what='printed '+ty))
    return chunks(o, 6, 'v05', PRE)
