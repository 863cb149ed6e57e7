"""FIR filters: the outputs of successive calls are the convolution of the concatenated input with the (unfolded) kernel,
decimated; without saved state each call starts afresh."""
from vp import *
PRE = P + '#include <vsip/signal.hpp>\n#include "blasref.hpp"\n' + '''
// elements past the returned count are unspecified
template <typename F, typename U, typename V> inline length_type call(F &f, U u, V v)
{ length_type r=f(u,v); for (length_type i=r;i<f.output_size();++i) v.put(i,typename V::value_type()); return r; }
// the unfolded kernel: k given coefficients, symmetry s
template <typename T> inline length_type unfold(T const *c, length_type k, int s, T *u)
{
  length_type m = s==0 ? k : s==1 ? 2*k-1 : 2*k;
  for (length_type i=0;i<m;++i) u[i] = i<k ? c[i] : c[m-1-i];
  return m;
}
// outputs q, q+1, ... are at positions 0, d, 2d, ... of the endless input of which frame f (of n) is now given; inputs before
// the position `zero' count as zero.  Returns the number of outputs within this frame.
template <typename T> inline length_type sfir(T const *u, length_type m, length_type d, T const *x, stride_type xs, length_type f, length_type zero, length_type n, T *y, stride_type ys)
{
  length_type q=((f-zero)*n+d-1)/d, r=((f+1-zero)*n+d-1)/d;
  for (length_type o=q;o<r;++o)
  {
    T sum=T();
    length_type p=zero*n+o*d;
    for (length_type k=0;k<m;++k) if (p>=k+zero*n) sum+=u[k]*x[(stride_type)(p-k)*xs];
    y[(stride_type)(o-q)*ys]=sum;
  }
  for (length_type o=r-q;o<(n+d-1)/d;++o) y[(stride_type)o*ys]=T();
  return r-q;
}
'''
SYM=[('nonsym',0),('sym_even_len_odd',1),('sym_even_len_even',2)]
def tus(tier):
    o=[]
    for t in ('float','double','cfloat','cdouble'):
        for sy,si in SYM:
            # input at least the order of the filter, decimation below the length
            A=[PT(t,'y'),PT(t,'x'),PT(t,'c'),('length_type','k','r(%d,3)'%(2 if si==0 else 1)),('length_type','d','r(1,3)'),N(lo=1,hi=7)]
            ML={0:'k',1:'2*k-1',2:'2*k'}[si]
            w='d<%s and n>=%s-1 and %s>1'%(ML,ML,ML)
            for st,sv in (('state_save',1),('state_no_save',0)):
                T_='Fir<%s,%s,%s>'%(t,sy,st)
                C='VW(%s,K,c,k,1) %s f(K,n,d); '%(t,T_)
                U='%s u[8]; length_type const m=unfold(c,k,%d,u); '%(t,si)
                LV=lambda k,xs='xs',ys='ys': 'VW(%s,u%d,x+(stride_type)(%d*n)*%s,n,%s) VW(%s,v%d,y+(stride_type)(%d*n)*%s,f.output_size(),%s) '%(t,k,k,xs,xs,t,k,k,ys,ys)
                SP=lambda k,z: 'sfir(u,m,d,x,xs,%d,%d,n,y+(stride_type)(%d*n)*ys,ys)'%(k,z,k)
                NM='_%s_%s_%d'%(t,sy,sv)
                X=[S('xs','ch([-2,-1,1,2])'),S('ys','ch([-2,-1,1,2])')]
                R='length_type r=0; '
                full = t in ('float','cfloat') or tier!='quick'
                if full or si==1:
                    o.append(Ob('run'+NM, A+X, C+R+''.join(LV(k)+'r=10*r+call(f,u%d,v%d); '%(k,k) for k in range(3))+'return r;',
                       U+R+''.join('r=10*r+%s; '%SP(k,0 if sv else k) for k in range(3))+'return r;', ret='length_type', n=20, what='three successive frames', where=w, opts=dict(nowiden=1)))
                if full and (si==0 or tier!='quick'):
                    o.append(Ob('reset'+NM, A+X, C+R+LV(0)+LV(1)+LV(2)+'r=call(f,u0,v0); f.reset(); r=10*r+call(f,u1,v1); r=10*r+call(f,u2,v2); return r;',
                       U+R+'r=%s; r=10*r+%s; r=10*r+%s; return r;'%(SP(0,0),SP(1,1),SP(2,1 if sv else 2)), ret='length_type', n=15, what='reset between two frames', where=w, opts=dict(nowiden=1)))
                    for cp,cc in (('copy','%s g(f); '%T_),('asg','VW(%s,K2,c2,2,1) Fir<%s> h(K2,4,1); %s g(K,n,1); g=f; '%(t,t,T_))):
                        o.append(Ob(cp+NM, A+X+([PT(t,'c2')] if cp=='asg' else [])+[('length_type','n2','{0}')], C+R+LV(0)+LV(1)+'VW(%s,v2,y+(stride_type)(2*n)*ys,f.output_size(),ys) '%t+'r=call(f,u0,v0); '+cc+'r=10*r+call(f,u1,v1); r=10*r+call(g,u1,v2); return r;',
                           U+R+'r=%s; r=10*r+%s; r=10*r+%s; return r;'%(SP(0,0),SP(1,0 if sv else 1),SP(1,0 if sv else 1).replace('y+(stride_type)(1*n)','y+(stride_type)(2*n)')), ret='length_type', n=12, what='a copy continues from the state and is independent', where=w, opts=dict(nowiden=1)))
        o.append(Ob('place_'+t, [PT(t,'y'),PT(t,'c'),('length_type','k','r(2,3)'),N(lo=2,hi=5),S('ys','ch([-2,-1,1,2])')], 'VW(%s,K,c,k,1) Fir<%s> f(K,n,1); VW(%s,v,y,n,ys) return f(v,v);'%(t,t,t),
            '%s z[32]; for (length_type i=0;i<n;++i) z[i]=y[(stride_type)i*ys]; for (length_type i=0;i<n;++i) { %s s=%s(); for (length_type j=0;j<k && j<=i;++j) s+=c[j]*z[i-j]; y[(stride_type)i*ys]=s; } return n;'%(t,t,t), ret='length_type', n=12, what='in place', opts=dict(nowiden=1)) if 0 else None)
        for sy,si in SYM:
            ML={0:'k',1:'2*k-1',2:'2*k'}[si]
            o.append(Ob('size_%s_%s'%(t,sy), [PT(t,'c'),('length_type','k','r(%d,5)'%(2 if si==0 else 1)),('length_type','d','r(1,3)'),N(lo=1,hi=30),('length_type','q','r(0,6)')],
               'VW(%s,K,c,k,1) Fir<%s,%s> f(K,n,d); return q==0?f.kernel_size():q==1?f.filter_order():q==2?f.input_size():q==3?f.output_size():q==4?f.decimation():q==5?f.continuous_filtering()==state_save:f.symmetry==%s;'%(t,t,sy,sy),
               'return q<2?%s:q==2?n:q==3?(n%%d?n/d+1:n/d):q==4?d:1;'%ML, ret='length_type', n=20, what='sizes', where='d<%s and n>=%s-1 and %s>1'%(ML,ML,ML), opts=dict(nowiden=1)))
    o=[x for x in o if x]
    return chunks(o, 3, 's03', PRE)
