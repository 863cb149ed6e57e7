"""IIR filters: every call applies the cascade of biquad sections of the definition, and the state carries over between calls
exactly when it is to be saved."""
from vp import *
PRE = P + '#include <vsip/signal.hpp>\n' + '''
// one frame: the cascade of sections over x (spaced xs) into y (spaced ys), from state w
template <typename T> inline void siir(T const *b, T const *a, T *w, length_type m, length_type n, T const *x, stride_type xs, T *y, stride_type ys)
{
  for (length_type i=0;i<n;++i)
  {
    T v=x[(stride_type)i*xs];
    for (length_type s=0;s<m;++s)
    {
      T w0=v-a[2*s]*w[2*s]-a[2*s+1]*w[2*s+1];
      v=b[3*s]*w0+b[3*s+1]*w[2*s]+b[3*s+2]*w[2*s+1];
      w[2*s+1]=w[2*s]; w[2*s]=w0;
    }
    y[(stride_type)i*ys]=v;
  }
}
template <typename T> inline void zero(T *w) { for (int i=0;i<64;++i) w[i]=T(); }
'''
def tus(tier):
    o=[]
    for t in ('float','double','cfloat','cdouble'):
        A=[PT(t,'y'),PT(t,'x'),PT(t,'b'),PT(t,'a'),N(lo=1,hi=5),('length_type','m','r(1,3)')]
        F='MW(%s,B,b,m,3,3,1) MW(%s,A,a,m,2,2,1) '%(t,t)
        for st,sv in (('state_save',1),('state_no_save',0)):
            C=F+'Iir<%s,%s> f(B,A,n); '%(t,st)
            W='%s w[64]; zero(w); '%t
            Z='' if sv else 'zero(w); '
            SF=lambda k,xs='xs',ys='ys': 'siir(b,a,w,m,n,x+%s,%s,y+%s,%s); '%('(stride_type)(%d*n)*%s'%(k,xs),xs,'(stride_type)(%d*n)*%s'%(k,ys),ys)
            LV=lambda k,nm,p,s: 'VW(%s,%s%d,%s+(stride_type)(%d*n)*%s,n,%s) '%(t,nm,k,p,k,s,s)
            NM='_%s_%d'%(t,sv)
            X=[S('xs'),S('ys')]
            o.append(Ob('run'+NM, A+X, C+''.join(LV(k,'u','x','xs')+LV(k,'v','y','ys')+'f(u%d,v%d); '%(k,k) for k in range(3)), W+''.join(SF(k)+Z for k in range(3)), n=25, what='three successive frames'))
            o.append(Ob('reset'+NM, A+X, C+LV(0,'u','x','xs')+LV(0,'v','y','ys')+LV(1,'u','x','xs')+LV(1,'v','y','ys')+'f(u0,v0); f.reset(); f(u1,v1);', W+SF(0)+'zero(w); '+SF(1), n=20, what='reset between two frames'))
            o.append(Ob('copy'+NM, A+X, C+''.join(LV(k,'u','x','xs')+LV(k,'v','y','ys') for k in range(3))+'f(u0,v0); Iir<%s,%s> g(f); f(u1,v1); g(u2,v2);'%(t,st),
               W+'%s q[64]; zero(q); '%t+SF(0)+('for (int i=0;i<64;++i) q[i]=w[i]; ' if sv else '')+Z+SF(1)+SF(2).replace(',w,',',q,'), n=20, what='a copy continues from the state and is independent'))
            o.append(Ob('asg'+NM, A+X+[PT(t,'b2'),PT(t,'a2')], C+'MW(%s,B2,b2,m,3,3,1) MW(%s,A2,a2,m,2,2,1) Iir<%s,%s> g(B2,A2,n); '%(t,t,t,st)+''.join(LV(k,'u','x','xs')+LV(k,'v','y','ys') for k in range(3))+'f(u0,v0); g=f; f(u1,v1); g(u2,v2);',
               W+'%s q[64]; zero(q); '%t+SF(0)+('for (int i=0;i<64;++i) q[i]=w[i]; ' if sv else '')+Z+SF(1)+SF(2).replace(',w,',',q,'), n=20, what='an assigned filter has the coefficients and the state'))
            o.append(Ob('place'+NM, A+[S('ys')], C+LV(0,'v','y','ys')+'f(v0,v0); f(v0,v0);', W+'siir(b,a,w,m,n,y,ys,y,ys); '+Z+'siir(b,a,w,m,n,y,ys,y,ys);', n=20, what='in place'))
        o.append(Ob('size_'+t, [PT(t,'b'),PT(t,'a'),N(lo=1),('length_type','m','r(1,3)'),('length_type','k','r(0,4)')], F+'Iir<%s> f(B,A,n); return k==0?f.kernel_size():k==1?f.filter_order():k==2?f.input_size():k==3?f.output_size():f.continuous_filtering==state_save;'%t, 'return k<2?2*m:k<4?n:1;', ret='length_type', n=20, what='sizes'))
    return chunks(o, 6, 's04', PRE)
