"""Frequency swap: element i of the result is element (i + ceil(M/2)) mod M of the argument, in every dimension, for every
destination, nested expression and for a swap in place."""
from vp import *
PRE = P + '#include <vsip/signal.hpp>\n'
def sh(i,n): return '((%s)+((%s)+1)/2)%%(%s)'%(i,n,n)
def tus(tier):
    o=[]
    for t in ('float','double','cfloat','int'):
        tg=t.replace('std::complex<float>','cf')
        A=[PT(t,'out'),PT(t,'a')]
        n=[N(hi=11,lo=1)]
        L='for (index_type i=0;i<n;++i) '
        o.append(Ob('v_'+tg, A+n+[S('s'),S('u')], 'VW(%s,v,a,n,s) VW(%s,w,out,n,u) w=freqswap(v);'%(t,t), L+'out[(stride_type)i*u]=a[(stride_type)(%s)*s];'%sh('i','n'), n=40, what='strided vector to strided vector'))
        o.append(Ob('vd_'+tg, A+n+[('index_type','f','{0,1,3}')], 'DVI(%s,v,a,n+f) DVI(%s,w,out,n) w=freqswap(v(Domain<1>(f,1,n)));  w_b.release(true);'%(t,t), L+'out[i]=a[f+%s];'%sh('i','n'), n=40, what='sub-view of a dense vector'))
        o.append(Ob('vi_'+tg, [PT(t,'a')]+n, 'DVI(%s,v,a,n) v=freqswap(v); v_b.release(true);'%t, t+' c[300]; '+L+'c[i]=a[i]; '+L+'a[i]=c[%s];'%sh('i','n'), n=40, what='in place'))
        o.append(Ob('vis_'+tg, [PT(t,'a'),N(hi=5,lo=1),('index_type','f','{0,1,3}'),('stride_type','s','{1,2}')], 'DVI(%s,v,a,f+2*n) v(Domain<1>(f,s,n))=freqswap(v(Domain<1>(f,s,n))); v_b.release(true);'%t, t+' c[300]; '+L+'c[i]=a[f+(stride_type)i*s]; '+L+'a[f+(stride_type)i*s]=c[%s];'%sh('i','n'), n=40, what='in place through a sub-view'))
        o.append(Ob('vx_'+tg, A+[PT(t,'b')]+n, 'VW(%s,v,a,n,1) VW(%s,x,b,n,1) VW(%s,w,out,n,1) w=freqswap(v+x);'%(t,t,t), L+'out[i]=a[%s]+b[%s];'%(sh('i','n'),sh('i','n')), n=40, what='of an expression'))
        o.append(Ob('vy_'+tg, A+[PT(t,'b')]+n, 'VW(%s,v,a,n,1) VW(%s,x,b,n,1) VW(%s,w,out,n,1) w=freqswap(v)*x;'%(t,t,t), L+'out[i]=a[%s]*b[i];'%sh('i','n'), n=40, what='in an expression'))
        o.append(Ob('vt_'+tg, A+n, 'VW(%s,v,a,n,1) VW(%s,w,out,n,1) w=freqswap(freqswap(v));'%(t,t), L+'out[i]=a[(%s)];'%sh(sh('i','n'),'n'), n=40, what='twice'))
        o.append(Ob('ve_'+tg, A+n, 'VW(%s,v,a,n,1) VW(%s,w,out,n,1) ovxx::signal::freqswap(const_Vector<%s,typename decltype(v)::block_type>(v),w);'%(t,t,t), L+'out[i]=a[%s];'%sh('i','n'), n=30, what='two-argument form'))
        mn=[N(hi=6,lo=1),N('m',1,6)]
        LL='for (index_type i=0;i<n;++i) for (index_type j=0;j<m;++j) '
        for a,ia in (('row2_type','(%s)*m+(%s)'),('col2_type','(%s)+(%s)*n')):
            k=a[:3]+tg
            for b,ib in (('row2_type','i*m+j'),('col2_type','j*n+i')):
                o.append(Ob('m_%s_%s'%(b[:3],k), A+mn, 'DM(%s,%s,v,a,n,m) DM(%s,%s,w,out,n,m) w=freqswap(v); w_b.release(true);'%(t,a,t,b), LL+'out[%s]=a[%s];'%(ib,ia%(sh('i','n'),sh('j','m'))), n=45, what='matrix, both orders'))
                for d in ('row','col'):
                    o.append(Ob('m%s_%s_%s'%(d,b[:3],k), A+mn, 'DM(%s,%s,v,a,n,m) DM(%s,%s,w,out,n,m) ovxx::signal::freqswap<%s>(const_Matrix<%s,Dense<2,%s,%s> >(v),w); w_b.release(true);'%(t,a,t,b,d,t,t,a), LL+'out[%s]=a[%s];'%(ib,ia%(('i',sh('j','m')) if d=='row' else (sh('i','n'),'j'))), n=45, what='rows or columns only'))
            o.append(Ob('mi_'+k, [PT(t,'a')]+mn, 'DM(%s,%s,v,a,n,m) v=freqswap(v); v_b.release(true);'%(t,a), t+' c[2000]; '+LL+'c[%s]=a[%s]; '%(ia%('i','j'),ia%('i','j'))+LL+'a[%s]=c[%s];'%(ia%('i','j'),ia%(sh('i','n'),sh('j','m'))), n=45, what='matrix in place'))
            o.append(Ob('mis_'+k, [PT(t,'a'),N(hi=4,lo=1),N('m',1,4)], 'DM(%s,%s,v,a,n+1,m+2) v(Domain<2>(Domain<1>(1,1,n),Domain<1>(1,1,m)))=freqswap(v(Domain<2>(Domain<1>(1,1,n),Domain<1>(1,1,m)))); v_b.release(true);'%(t,a),
              t+' c[2000]; '+LL+'c[i*m+j]=a[%s]; '%(('(i+1)*(m+2)+j+1') if a[0]=='r' else 'i+1+(j+1)*(n+1)')+LL+'a[%s]=c[%s];'%((('(i+1)*(m+2)+j+1') if a[0]=='r' else 'i+1+(j+1)*(n+1)'),'(%s)*m+%s'%(sh('i','n'),sh('j','m'))), n=45, what='matrix in place through a sub-view'))
            o.append(Ob('mit_'+k, [PT(t,'a'),N(hi=4,lo=1),N('m',1,4)], 'DM(%s,%s,v,a,n,n) v.transpose()=freqswap(v.transpose()); v_b.release(true);'%(t,a),
              t+' c[2000]; for (index_type i=0;i<n*n;++i) c[i]=a[i]; for (index_type i=0;i<n;++i) for (index_type j=0;j<n;++j) a[i*n+j]=c[(%s)*n+%s];'%(sh('i','n'),sh('j','n')), n=30, what='matrix in place through its transpose'))
            o.append(Ob('mx_'+k, A+mn, 'DM(%s,%s,v,a,n,m) MW(%s,w,out,n,(stride_type)m,m,1) w=freqswap(v)+v;'%(t,a,t), LL+'out[i*m+j]=a[%s]+a[%s];'%(ia%(sh('i','n'),sh('j','m')),ia%('i','j')), n=45, what='matrix expression'))
    return chunks(o, 10, 's07', PRE)
