"""Histogram: every element is counted in exactly one bin, the bins are those of the definition, and counts accumulate across
calls exactly when asked."""
from vp import *
PRE = P + '#include <vsip/signal.hpp>\n'
BIN = '''template <typename T> inline index_type sbin(T lo, T hi, length_type num, T v)
{ if (v<lo) return 0; if (v>=hi) return num-1; return (index_type)((double)(v-lo)*(num-2)/(double)(hi-lo))+1; }
'''
def tus(tier):
    o=[]
    for t in ('float','double','int'):
        # values on a grid of quarters; the range is chosen so that no bin edge falls between representable values
        rng=[(t,'lo','ch([-2,0,1])'),(t,'w','ch([1,2,4,8])' if t!='int' else 'ch([1,3,4,7,15])'),('length_type','b','ch([3,4,6,10])')]
        C='Histogram<const_Vector,%s> h(lo,lo+w,b); '%t
        H='for (index_type i=0;i<b;++i) out[i]='
        def cnt(arr, idx, n, pre='0', decl=True): return ('int c_[16]; ' if decl else '')+'for (index_type i=0;i<b;++i) c_[i]=%s; for (index_type i=0;i<%s;++i) c_[sbin<%s>(lo,(%s)(lo+w),b,%s)]++; '%(pre,n,t,t,idx)
        dom = '{-3.25,-2.5,-2,-1.75,-1,-0.5,0,0.5,1,1.25,2,3,3.75,4,5,6.5,7,8,9,12}' if t!='int' else '{-4,-3,-2,-1,0,1,2,3,4,5,6,7,8,9,10,11,12,13,14,15,16}'
        IN=[PT(t,'a',dom)]
        for q,(a,im,ix,n) in enumerate([([N(hi=9),S('s')],'VW(%s,v,a,n,s)'%t,'a[(stride_type)i*s]','n'),([N(hi=9)],'DVI(%s,v,a,n)'%t,'a[i]','n')]):
            o.append(Ob('v%d_%s'%(q,t), [PT('int','out')]+IN+a+rng, im+C+'const_Vector<int> r=h(v); '+H+'r.get(i);', cnt('a',ix,n)+H+'c_[i];', n=60, what='counts of a vector'))
            o.append(Ob('vacc%d_%s'%(q,t), [PT('int','out')]+IN+a+rng+[('bool','x','{0,1}'),('bool','y','{0,1}')], im+C+'h(v,x); h(v(Domain<1>(n/2)),y); const_Vector<int> r=h(v,true); '+H+'r.get(i);',
               cnt('a',ix,n)+'if (!y) for (index_type i=0;i<b;++i) c_[i]=0; for (index_type i=0;i<n/2;++i) c_[sbin<%s>(lo,(%s)(lo+w),b,%s)]++; for (index_type i=0;i<n;++i) c_[sbin<%s>(lo,(%s)(lo+w),b,%s)]++; '%(t,t,ix,t,t,ix)+H+'c_[i];', n=60, what='accumulation over three calls'))
        for od,ix in (('row2_type','i*m+j'),('col2_type','j*n+i')):
            o.append(Ob('m_%s_%s'%(od[:3],t), [PT('int','out')]+IN+[N(hi=3),N('m',0,3)]+rng+[('bool','x','{0,1}')], 'DM(%s,%s,v,a,n,m) Histogram<const_Matrix,%s> h(lo,lo+w,b); h(v); const_Vector<int> r=h(v,x); '%(t,od,t)+H+'r.get(i);',
               'int c_[16]; for (index_type i=0;i<b;++i) c_[i]=0; for (index_type i=0;i<n;++i) for (index_type j=0;j<m;++j) c_[sbin<%s>(lo,(%s)(lo+w),b,a[%s])]+=x?2:1; '%(t,t,ix)+H+'c_[i];', n=40, what='counts of a matrix'))
        o.append(Ob('init_'+t, [PT('int','out'),PT('int','p')]+IN+[N(hi=5)]+rng+[('bool','x','{0,1}')], 'VW(%s,v,a,n,1) VW(int,q,p,b,1) Histogram<const_Vector,%s> h(lo,lo+w,q); const_Vector<int> r=h(v,x); '%(t,t)+H+'r.get(i);',
             cnt('a','a[i]','n')+H+'c_[i]+(x?p[i]:0);', n=40, what='counts added to given ones'))
        o.append(Ob('copy_'+t, [PT('int','out')]+IN+[N(hi=5)]+rng, 'VW(%s,v,a,n,1) '%t+C+'h(v); '+'for (index_type i=0;i<b;++i) { const_Vector<int> r=h(v,true); out[i]=r.get(i); }', cnt('a','a[i]','n')+'for (index_type i=0;i<b;++i) out[i]=c_[i]*(i+2);', n=30, what='repeated accumulation'))
    return chunks(o, 10, 's05', PRE+BIN)
