"""Convolution: every output element is the sum of its definition, for each region of support, symmetry and decimation, and the
announced sizes are those of the definition."""
from vp import *
PRE = P + '#include <vsip/signal.hpp>\n#include <ovxx/strided.hpp>\n' + '''
enum { FULL, SAME, MIN };
inline length_type ksz(int s, length_type k) { return s==0 ? k : s==1 ? 2*k-1 : 2*k; }
inline index_type fold(int s, length_type k, index_type i) { return i<k ? i : ksz(s,k)-1-i; }
inline length_type osz(int r, length_type m, length_type n, length_type d) { return r==FULL ? (n+m-2)/d+1 : r==SAME ? (n-1)/d+1 : (n-m)/d+1; }
inline length_type shift(int r, length_type m) { return r==FULL ? 0 : r==SAME ? m/2 : m-1; }
template <typename T, typename X, typename Y> inline void sconv(int r, int s, T const *c, length_type k, length_type d, length_type n, X x, Y y)
{
  length_type m=ksz(s,k);
  for (length_type o=0;o<osz(r,m,n,d);++o)
  {
    T sum=T(); length_type p=o*d+shift(r,m);
    for (length_type j=0;j<m;++j) if (p>=j && p-j<n) sum+=c[fold(s,k,j)]*x(p-j);
    y(o,sum);
  }
}
template <typename T, typename X, typename Y> inline void sconv2(int r, int s, T const *c, length_type k0, length_type k1, length_type d, length_type n0, length_type n1, X x, Y y)
{
  length_type m0=ksz(s,k0), m1=ksz(s,k1);
  for (length_type o=0;o<osz(r,m0,n0,d);++o)
    for (length_type q=0;q<osz(r,m1,n1,d);++q)
    {
      T sum=T(); length_type p0=o*d+shift(r,m0), p1=q*d+shift(r,m1);
      for (length_type j=0;j<m0;++j) for (length_type i=0;i<m1;++i) if (p0>=j && p0-j<n0 && p1>=i && p1-i<n1) sum+=c[fold(s,k0,j)*k1+fold(s,k1,i)]*x(p0-j,p1-i);
      y(o,q,sum);
    }
}
'''
SYM=[('nonsym',0),('sym_even_len_odd',1),('sym_even_len_even',2)]
REG=[('support_full','FULL'),('support_same','SAME'),('support_min','MIN')]
def ml(si,k='k'): return {0:k,1:'2*%s-1'%k,2:'2*%s'%k}[si]
def tus(tier):
    o=[]; NW=dict(nowiden=1)
    full=tier!='quick'
    for t in ('float','cfloat','int') + (('double','cdouble') if full else ()):
        for sy,si in SYM:
            for re,ri in REG:
                if t=='int' and si!=0 and not full: continue
                nm='_%s_%d_%s'%(t,si,ri)
                T1='Convolution<const_Vector,%s,%s,%s> f(K,Domain<1>(n),d); '%(sy,re,t)
                w='%s<=n'%ml(si)
                A=[PT(t,'y'),PT(t,'x'),PT(t,'c'),('length_type','k','r(1,4)'),('length_type','d','r(1,3)'),N(lo=1,hi=9)]
                X=[S('xs'),S('ys'),S('cs','ch([1,2,-1])')]
                OS='osz(%s,%s,n,d)'%(ri,ml(si))
                o.append(Ob('v'+nm, A+X, 'VW(%s,K,c,k,cs) VW(%s,u,x,n,xs) '%(t,t)+T1+'VW(%s,v,y,f.output_size().size(),ys) f(u,v);'%t,
                  '%s q[4]; for (length_type i=0;i<k;++i) q[i]=c[(stride_type)i*cs]; sconv(%s,%d,q,k,d,n,[=](index_type i){return x[(stride_type)i*xs];},[=](index_type i,%s z){y[(stride_type)i*ys]=z;});'%(t,ri,si,t), n=24, what='1-D convolution', where=w, opts=NW))
                o.append(Ob('size'+nm, A[2:]+[('length_type','q','r(0,6)')], 'VW(%s,K,c,k,1) '%t+T1+'return q==0?f.kernel_size().size():q==1?f.filter_order().size():q==2?f.input_size().size():q==3?f.output_size().size():q==4?f.decimation():q==5?f.symmetry()==%s:f.support()==%s;'%(sy,re),
                  'return q<2?%s:q==2?n:q==3?%s:q==4?d:1;'%(ml(si),OS), ret='length_type', n=24, what='sizes of a 1-D convolution', where=w, opts=NW))
                if t!='int' and (si==0 or full):
                    o.append(Ob('sub'+nm, A+[S('xs','ch([-2,-1,1,2])'),S('ys','ch([-3,-1,1,2])')], 'VW(%s,K,c,k,1) '%t+T1+'length_type P=f.output_size().size(); DVI(%s,U,x,2*n) DVI(%s,V,y,3*P) f(U(Domain<1>(xs<0?2*n-1:0,xs,n)),V(Domain<1>(ys<0?3*P-1:0,ys,P))); V_b.release(true);'%(t,t),
                      'length_type P=%s; sconv(%s,%d,c,k,d,n,[=](index_type i){return x[(stride_type)i*xs+(xs<0?2*n-1:0)];},[=](index_type i,%s z){y[(stride_type)i*ys+(ys<0?3*P-1:0)]=z;});'%(OS,ri,si,t), n=16, what='1-D convolution of sub-views', where=w, opts=NW))
                if t=='float' or full:
                    o.append(Ob('two'+nm, A, 'VW(%s,K,c,k,1) DVI(%s,u,x,n) '%(t,t)+T1+'VW(%s,v,y,f.output_size().size(),1) f(u,v); VW(%s,z,y+64,f.output_size().size(),2) f(u+u,z); '%(t,t),
                      'sconv(%s,%d,c,k,d,n,[=](index_type i){return x[i];},[=](index_type i,%s z){y[i]=z;}); sconv(%s,%d,c,k,d,n,[=](index_type i){return x[i]+x[i];},[=](index_type i,%s z){y[64+2*i]=z;});'%(ri,si,t,ri,si,t), n=12, what='repeated use; dense and expression input', where=w, opts=NW))
                if t!='int':
                    T2='Convolution<const_Matrix,%s,%s,%s> f(K,Domain<2>(n,m),d); '%(sy,re,t)
                    A2=[PT(t,'y'),PT(t,'x'),PT(t,'c'),('length_type','k','r(1,2)' if si else 'r(1,3)'),('length_type','l','r(1,2)' if si else 'r(1,3)'),('length_type','d','r(1,2)'),N(lo=1,hi=5),N('m',1,5)]
                    w2='%s<=n and %s<=m'%(ml(si),ml(si,'l'))
                    P1='osz(%s,%s,m,d)'%(ri,ml(si,'l')); P0='osz(%s,%s,n,d)'%(ri,ml(si))
                    SP=lambda xi,yi: 'length_type const p1=%s,p0=%s; (void)p0; (void)p1; sconv2(%s,%d,c,k,l,d,n,m,[=](index_type i,index_type j){return x[%s];},[=](index_type i,index_type j,%s z){y[%s]=z;});'%(P1,P0,ri,si,xi,t,yi)
                    o.append(Ob('m'+nm, A2+[('stride_type','e','ch([1,2])')], 'MW(%s,K,c,k,l,l,1) MW(%s,u,x,n,2*m,m,2) '%(t,t)+T2+'MW(%s,v,y,f.output_size()[0].size(),e,f.output_size()[1].size(),16*e) f(u,v);'%t, SP('2*m*i+2*j','i*e+16*e*j'), n=12, what='2-D convolution', where=w2, opts=NW))
                    if si==0 or full:
                        o.append(Ob('mc'+nm, A2, 'MW(%s,K,c,k,l,l,1) DM(%s,col2_type,u,x,n,m) '%(t,t)+T2+'MW(%s,v,y,f.output_size()[0].size(),16,f.output_size()[1].size(),1) f(u,v);'%t, SP('j*n+i','16*i+j'), n=12, what='2-D convolution of a column-major dense matrix', where=w2, opts=NW))
                    if si==0 or full:
                        o.append(Ob('msub'+nm, A2+[('stride_type','a','ch([-1,1])'),('stride_type','b','ch([-2,-1,1,2])')], 'MW(%s,K,c,k,l,l,1) DM(%s,row2_type,U,x,n,2*m) '%(t,t)+T2+'length_type P=f.output_size()[0].size(),Q=f.output_size()[1].size(); DM(%s,col2_type,V,y,2*P,Q) f(U(Domain<2>(Domain<1>(a<0?n-1:0,a,n),Domain<1>(b<0?2*m-1:0,b,m))),V(Domain<2>(Domain<1>(b<0?2*P-1:0,b,P),Domain<1>(a<0?Q-1:0,a,Q)))); V_b.release(true);'%t,
                          SP('(a<0?n-1-i:i)*2*m+(b<0?2*m-1:0)+(stride_type)j*b','(a<0?p1-1-j:j)*2*p0+(b<0?2*p0-1:0)+(stride_type)i*b'), n=12, what='2-D convolution of sub-views', where=w2, opts=NW))
                    o.append(Ob('msize'+nm, A2[2:]+[('length_type','q','r(0,9)')], 'MW(%s,K,c,k,l,l,1) '%t+T2+'return q<2?f.kernel_size()[q].size():q<4?f.filter_order()[q-2].size():q<6?f.input_size()[q-4].size():q<8?f.output_size()[q-6].size():q==8?f.decimation():f.support()==%s;'%re,
                      'return q<4?(q%%2?%s:%s):q<6?(q%%2?m:n):q<8?(q%%2?%s:%s):q==8?d:1;'%(ml(si,'l'),ml(si),P1,P0), ret='length_type', n=24, what='sizes of a 2-D convolution', where=w2, opts=NW))
    for re,ri in REG:
        for a,b in (('split_complex','array'),('array','split_complex'),('interleaved_complex','split_complex')):
            o.append(Ob('fmt_%s_%s_%s'%(ri,a[:3],b[:3]), [PT('cfloat','y'),PT('cfloat','x'),PT('cfloat','c'),('length_type','k','r(1,3)'),('length_type','d','r(1,2)'),N(lo=1,hi=5)],
              'VW(cfloat,K,c,k,1) Convolution<const_Vector,nonsym,%s,cfloat> f(K,Domain<1>(n),d); Vector<cfloat,ovxx::Strided<1,cfloat,Layout<1,row1_type,dense,%s> > > u(n); Vector<cfloat,ovxx::Strided<1,cfloat,Layout<1,row1_type,dense,%s> > > v(f.output_size().size()); for (index_type i=0;i<n;++i) u.put(i,x[i]); f(u,v); for (index_type i=0;i<v.size();++i) y[i]=v.get(i);'%(re,a,b),
              'sconv(%s,0,c,k,d,n,[=](index_type i){return x[i];},[=](index_type i,cfloat z){y[i]=z;});'%ri, n=10, what='convolution of complex data in other formats', where='k<=n', opts=NW))
    # the kernel sizes a backend is asked about
    for s_,e in (('nonsym','%s'),('sym_even_len_odd','2*%s-1'),('sym_even_len_even','2*%s')):
        o.append(Ob('ks_'+s_, [('index_type','a','r(1,9)'),('index_type','b','r(1,9)'),('index_type','q','r(0,2)')],
          'Domain<2> d=ovxx::signal::conv_kernel_size<%s,2>(Domain<2>(a,b)); return q<2?d[q].size():ovxx::signal::conv_kernel_size<%s,1>(Domain<1>(a)).size();'%(s_,s_), 'return q==1?%s:%s;'%(e%'b',e%'a'), ret='length_type', n=30, what='kernel size of '+s_))
    return chunks(o, 6, 's01', PRE)
