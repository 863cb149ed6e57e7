"""Correlation: every output element is the sum of its definition, for each region of support, with the scaling asked for."""
from vp import *
PRE = P + '#include <vsip/signal.hpp>\n#include <ovxx/strided.hpp>\n' + '''
enum { FULL, SAME, MIN };
inline length_type osz(int r, length_type m, length_type n) { return r==FULL ? n+m-1 : r==SAME ? n : n-m+1; }
inline length_type shift(int r, length_type m) { return r==FULL ? m-1 : r==SAME ? m/2 : 0; }
inline float cj(float x) { return x; }
inline double cj(double x) { return x; }
inline cfloat cj(cfloat x) { return cfloat(x.real(),-x.imag()); }
inline cdouble cj(cdouble x) { return cdouble(x.real(),-x.imag()); }
// the number of terms of output o, which is what unbiased results are divided by
inline length_type terms(int r, length_type m, length_type n, length_type o)
{ length_type c=0; for (length_type k=0;k<m;++k) if (o+k>=shift(r,m) && o+k-shift(r,m)<n) ++c; return c; }
// ... except that the definition of C-VSIPL for one dimension and same support says
inline length_type terms1(int r, length_type m, length_type n, length_type o)
{ return r!=SAME ? terms(r,m,n,o) : o<m/2 ? o+(m+1)/2 : o>=n-m/2 ? n-1+(m+1)/2-o : m; }
template <typename T, typename C, typename X, typename Y> inline void scorr(int r, bool ub, length_type m, length_type n, C c, X x, Y y)
{
  for (length_type o=0;o<osz(r,m,n);++o)
  {
    T sum=T();
    for (length_type k=0;k<m;++k) if (o+k>=shift(r,m) && o+k-shift(r,m)<n) sum+=c(k)*cj(x(o+k-shift(r,m)));
    y(o,ub ? sum/T(terms1(r,m,n,o)) : sum);
  }
}
template <typename T, typename C, typename X, typename Y> inline void scorr2(int r, bool ub, length_type m0, length_type m1, length_type n0, length_type n1, C c, X x, Y y)
{
  for (length_type o=0;o<osz(r,m0,n0);++o) for (length_type q=0;q<osz(r,m1,n1);++q)
  {
    T sum=T();
    for (length_type k=0;k<m0;++k) for (length_type l=0;l<m1;++l)
      if (o+k>=shift(r,m0) && o+k-shift(r,m0)<n0 && q+l>=shift(r,m1) && q+l-shift(r,m1)<n1) sum+=c(k,l)*cj(x(o+k-shift(r,m0),q+l-shift(r,m1)));
    y(o,q,ub ? sum/T(terms(r,m0,n0,o)*terms(r,m1,n1,q)) : sum);
  }
}
'''
REG=[('support_full','FULL'),('support_same','SAME'),('support_min','MIN')]
def tus(tier):
    o=[]; NW=dict(nowiden=1); full=tier!='quick'
    for t in ('float','double','cfloat','cdouble'):
        for re,ri in REG:
            nm='_%s_%s'%(t,ri)
            C1='Correlation<const_Vector,%s,%s> f((Domain<1>(k)),Domain<1>(n)); '%(re,t)
            A=[PT(t,'y'),PT(t,'x'),PT(t,'c'),('length_type','k','r(1,4)'),N(lo=1,hi=8),('bool','ub','{0,1}')]
            B='ub?unbiased:biased'
            L=lambda e: '[=](index_type i){return %s;}'%e
            Y=lambda e: '[=](index_type i,%s z){y[%s]=z;}'%(t,e)
            o.append(Ob('v'+nm, A+[S('xs'),S('ys'),S('cs')], 'VW(%s,K,c,k,cs) VW(%s,u,x,n,xs) '%(t,t)+C1+'VW(%s,v,y,f.output_size().size(),ys) f(%s,K,u,v);'%(t,B),
              'scorr<%s>(%s,ub,k,n,%s,%s,%s);'%(t,ri,L('c[(stride_type)i*cs]'),L('x[(stride_type)i*xs]'),Y('(stride_type)i*ys')), n=24, what='1-D correlation', where='k<=n', opts=NW))
            o.append(Ob('sub'+nm, A+[S('xs','ch([-2,-1,1,2])'),S('ys','ch([-3,-1,1,2])'),S('cs','ch([-2,-1,1,2])')], C1+'length_type P=f.output_size().size(); DVI(%s,K,c,2*k) DVI(%s,U,x,2*n) DVI(%s,V,y,3*P) f(%s,K(Domain<1>(cs<0?2*k-1:0,cs,k)),U(Domain<1>(xs<0?2*n-1:0,xs,n)),V(Domain<1>(ys<0?3*P-1:0,ys,P))); V_b.release(true);'%(t,t,t,B),
              'length_type P=osz(%s,k,n); scorr<%s>(%s,ub,k,n,%s,%s,%s);'%(ri,t,ri,L('c[(stride_type)i*cs+(cs<0?2*k-1:0)]'),L('x[(stride_type)i*xs+(xs<0?2*n-1:0)]'),Y('(stride_type)i*ys+(ys<0?3*P-1:0)')), n=16, what='1-D correlation of sub-views', where='k<=n', opts=NW))
            o.append(Ob('size'+nm, A[3:5]+[('length_type','q','r(0,3)')], C1+'return q==0?f.reference_size().size():q==1?f.input_size().size():q==2?f.output_size().size():f.support()==%s;'%re,
              'return q==0?k:q==1?n:q==2?osz(%s,k,n):1;'%ri, ret='length_type', n=24, what='sizes of a 1-D correlation', where='k<=n', opts=NW))
            if t in ('float','cfloat') or full:
                o.append(Ob('two'+nm, A, C1+'VW(%s,K,c,k,1) DVI(%s,u,x,n) VW(%s,v,y,f.output_size().size(),1) f(%s,K,u,v); VW(%s,z,y+64,f.output_size().size(),2) f(%s,K+K,u+u,z); '%(t,t,t,B,t,'ub?biased:unbiased'),
                  'scorr<%s>(%s,ub,k,n,%s,%s,%s); scorr<%s>(%s,!ub,k,n,%s,%s,%s);'%(t,ri,L('c[i]'),L('x[i]'),Y('i'),t,ri,L('c[i]+c[i]'),L('x[i]+x[i]'),Y('64+2*i')), n=12, what='repeated use; dense and expression input', where='k<=n', opts=NW))
                C2='Correlation<const_Matrix,%s,%s> f(Domain<2>(k,l),Domain<2>(n,m)); '%(re,t)
                A2=[PT(t,'y'),PT(t,'x'),PT(t,'c'),('length_type','k','r(1,3)'),('length_type','l','r(1,3)'),N(lo=1,hi=5),N('m',1,5),('bool','ub','{0,1}')]
                L2=lambda e: '[=](index_type i,index_type j){return %s;}'%e
                Y2=lambda e: '[=](index_type i,index_type j,%s z){y[%s]=z;}'%(t,e)
                o.append(Ob('m'+nm, A2+[('stride_type','e','ch([1,2])')], C2+'MW(%s,K,c,k,l,l,1) MW(%s,u,x,n,2*m,m,2) MW(%s,v,y,f.output_size()[0].size(),e,f.output_size()[1].size(),16*e) f(%s,K,u,v);'%(t,t,t,B),
                  'scorr2<%s>(%s,ub,k,l,n,m,%s,%s,%s);'%(t,ri,L2('c[i*l+j]'),L2('x[2*m*i+2*j]'),Y2('i*e+16*e*j')), n=12, what='2-D correlation', where='k<=n and l<=m', opts=NW))
                o.append(Ob('msub'+nm, A2+[('stride_type','a','ch([-1,1])'),('stride_type','b','ch([-2,-1,1,2])')], C2+'DM(%s,col2_type,K,c,k,l) DM(%s,row2_type,U,x,n,2*m) length_type P=f.output_size()[0].size(),Q=f.output_size()[1].size(); DM(%s,col2_type,V,y,2*P,Q) f(%s,K,U(Domain<2>(Domain<1>(a<0?n-1:0,a,n),Domain<1>(b<0?2*m-1:0,b,m))),V(Domain<2>(Domain<1>(b<0?2*P-1:0,b,P),Domain<1>(a<0?Q-1:0,a,Q)))); V_b.release(true);'%(t,t,t,B),
                  'length_type p0=osz(%s,k,n),p1=osz(%s,l,m); (void)p1; scorr2<%s>(%s,ub,k,l,n,m,%s,%s,%s);'%(ri,ri,t,ri,L2('c[j*k+i]'),L2('x[(a<0?n-1-i:i)*2*m+(b<0?2*m-1:0)+(stride_type)j*b]'),Y2('(a<0?p1-1-j:j)*2*p0+(b<0?2*p0-1:0)+(stride_type)i*b')), n=12, what='2-D correlation of sub-views', where='k<=n and l<=m', opts=NW))
                o.append(Ob('msize'+nm, A2[3:7]+[('length_type','q','r(0,5)')], C2+'return q<2?f.reference_size()[q].size():q<4?f.input_size()[q-2].size():f.output_size()[q-4].size();',
                  'return q==0?k:q==1?l:q==2?n:q==3?m:q==4?osz(%s,k,n):osz(%s,l,m);'%(ri,ri), ret='length_type', n=24, what='sizes of a 2-D correlation', where='k<=n and l<=m', opts=NW))
    for re,ri in REG:
        for a,b in (('split_complex','array'),('array','split_complex'),('interleaved_complex','split_complex')):
            o.append(Ob('fmt_%s_%s_%s'%(ri,a[:3],b[:3]), [PT('cfloat','y'),PT('cfloat','x'),PT('cfloat','c'),('length_type','k','r(1,3)'),N(lo=1,hi=5)],
              'Correlation<const_Vector,%s,cfloat> f((Domain<1>(k)),Domain<1>(n)); VW(cfloat,K,c,k,1) Vector<cfloat,ovxx::Strided<1,cfloat,Layout<1,row1_type,dense,%s> > > u(n); Vector<cfloat,ovxx::Strided<1,cfloat,Layout<1,row1_type,dense,%s> > > v(f.output_size().size()); for (index_type i=0;i<n;++i) u.put(i,x[i]); f(biased,K,u,v); for (index_type i=0;i<v.size();++i) y[i]=v.get(i);'%(re,a,b),
              'scorr<cfloat>(%s,false,k,n,[=](index_type i){return c[i];},[=](index_type i){return x[i];},[=](index_type i,cfloat z){y[i]=z;});'%ri, n=10, what='correlation of complex data in other formats', where='k<=n', opts=NW))
    return chunks(o, 5, 's02', PRE)
