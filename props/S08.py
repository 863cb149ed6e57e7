"""Fourier transforms: Fft computes the discrete Fourier transform of its definition (sign, scale, axis with half-size
spectrum, sizes) in one to three dimensions, out of place, in place and by value, for every operand layout, leaving its
input untouched.  The library plumbs operands to FFTW; FFTW's entry points are given their documented meaning by
reference definitions."""
from vp import *
PRE = P + '#include <vsip/signal.hpp>\n#include <ovxx/fftw/fft.cpp>\n#include "fftwref.hpp"\n' + '''
#define SPL(T,D,v,dom) ovxx::Strided<D,T,Layout<D,tuple<0,1,2>,dense,split_complex> > v##_b(dom);
'''
TUP={'r':'row2_type','c':'col2_type'}
def ix2(o,i,j,n,m): return '(%s)*(%s)+(%s)'%(i,m,j) if o=='r' else '(%s)+(%s)*(%s)'%(i,j,n)
def ix3(od,i,n):
    "index in the dense layout of order od (major first)"
    return '(((%s)*(%s)+(%s))*(%s)+(%s))'%(i[od[0]],n[od[1]],i[od[1]],n[od[2]],i[od[2]])
SP1 = 'n'
VN={1:'Vector',2:'Matrix',3:'Tensor'}
def spl(D,T,od,v,dims):
    "a split-complex block and its view"
    return 'ovxx::Strided<%d,%s,Layout<%d,tuple<%s>,dense,split_complex> > %s_b(Domain<%d>(%s)); %s<%s,decltype(%s_b)> %s(%s_b); '%(D,T,D,','.join(map(str,od)),v,D,','.join(dims),VN[D],T,v,v,v)
def split_obs(D,t,pre,call,kinds,dims,A,orders):
    """the same transform on split-complex operands.  kinds: (name, constructor, x, half dims or None, value at the loop indexes)"""
    c='c'+t; T='_'+t; o=[]; I=('i','j','k')[:D]
    def loop(d): return ''.join('for (length_type %s=0;%s<%s;++%s) '%(v,v,n,v) for v,n in zip(I,d))
    def lin(d): return {2:'i*(%s)+j'%d[1],3:'((i*(%s)+j)*(%s)+k)'%(d[1],d[-1])}[D]
    ix=','.join(I)
    for nm,ctor,kind,half,gat,val in kinds:
        for od in orders:
            q='%s_%s_%s%s'%(pre,nm,''.join(map(str,od[:D])),T); ind,outd=(dims,dims) if kind=='c2c' else (dims,half) if kind=='r2c' else (half,dims)
            fill=lambda v,d: loop(d)+'%s.put(%s,a[%s]); '%(v,ix,lin(d))
            read=lambda v,d: loop(d)+'out[%s]=%s.get(%s);'%(lin(d),v,ix)
            sp=gat('a[%s]'%lin(ind))+loop(outd)+'out[%s]=%s;'%(lin(outd),val)
            g=[PT(c if kind!='c2r' else t,'out'),PT(c if kind!='r2c' else t,'a')]+A
            od2=orders[0]
            iv=spl(D,c,od,'v',ind) if kind!='r2c' else '%s<%s> v(%s); '%(VN[D],t,','.join(ind)); ov=spl(D,c,od2,'w',outd) if kind!='c2r' else '%s<%s> w(%s); '%(VN[D],t,','.join(outd))
            o.append(Ob('sp'+q, g, ctor+iv+ov+fill('v',ind)+'f(v,w); '+read('w',outd), sp, n=12, opts={'nowiden':1}, what='split-complex storage'))
            if kind=='c2c': o.append(Ob('spi'+q, g, ctor+iv+fill('v',ind)+'f(v); '+read('v',outd), sp, n=12, opts={'nowiden':1}, what='split-complex storage in place'))
    return o
def tus(tier):
    o=[]
    thorough = tier!='quick'
    L='for (length_type i=0;i<n;++i) '
    SC=lambda t:(t,'g','ch([1,2,0.5])')
    NN=('length_type','n','ch([1,2,3,4,5,6,8])')
    def OBJ(V,I,O,s,r,dom,sc='g'): return 'Fft<const_%s,%s,%s,%s,%s> f(%s,%s); '%(V,I,O,s,r,dom,sc)
    for t in ('float','double'):
        c='c'+t; T='_'+t
        # ------------------------------------------------ one dimension
        for d,s in (('fft_fwd',-1),('fft_inv',1)):
            q='_%s%s'%(d[4:],T)
            sp=L+'out[%%s]=g*fftwref::at<%s>(%d,%%s,1,1,n,0,0,i);'%(t,s)
            A=[PT(c,'out'),PT(c,'a'),NN,SC(t)]
            F=OBJ('Vector',c,c,d,'by_reference','Domain<1>(n)'); FV=OBJ('Vector',c,c,d,'by_value','Domain<1>(n)','1')
            gat=lambda e: '%s x[600]; for (length_type i=0;i<n;++i) x[i]=%s; '%(c,e)
            o.append(Ob('c1'+q, A+[S('s'),S('u')], F+'VW(%s,v,a,n,s) VW(%s,w,out,n,u) f(v,w);'%(c,c), gat('a[(stride_type)i*s]')+sp%('(stride_type)i*u','x'), n=25, what='strided views'))
            o.append(Ob('c1d'+q, A+[('index_type','p','{0,1,2,4}'),('index_type','r_','{0,1,4}')], F+'DVI(%s,v,a,n+p) DVI(%s,w,out,n+r_) f(v(Domain<1>(p,1,n)),w(Domain<1>(r_,1,n))); w_b.release(true); v_b.release(true);'%(c,c), gat('a[p+i]')+sp%('r_+i','x'), n=25, what='dense views and sub-views with any offset'))
            o.append(Ob('c1ds'+q, A+[('stride_type','s','{1,2,3}'),('stride_type','u','{1,2}')], F+'DVI(%s,v,a,n*s) DVI(%s,w,out,n*u) f(v(Domain<1>(0,s,n)),w(Domain<1>(0,u,n))); w_b.release(true); v_b.release(true);'%(c,c), gat('a[i*s]')+sp%('i*u','x'), n=25, what='strided sub-views'))
            o.append(Ob('c1i'+q, A[1:]+[('index_type','p','{0,1,4}'),('stride_type','s','{1,1,2}')], F+'DVI(%s,v,a,p+n*s) f(v(Domain<1>(p,s,n))); v_b.release(true);'%c, gat('a[p+i*s]')+sp.replace('out[','a[')%('p+i*s','x'), n=25, what='in place'))
            o.append(Ob('c1iw'+q, A[1:]+[S('s')], F+'VW(%s,v,a,n,s) f(v);'%c, gat('a[(stride_type)i*s]')+sp.replace('out[','a[')%('(stride_type)i*s','x'), n=25, what='in place'))
            o.append(Ob('c1v'+q, A+[S('s')], FV+'VW(%s,v,a,n,s) DVI(%s,w,out,n) w=f(v); w_b.release(true);'%(c,c), gat('a[(stride_type)i*s]')+(sp%('i','x')).replace('=g*','='), n=25, what='by value'))
            o.append(Ob('c1e'+q, A+[PT(c,'b'),S('s')], FV+'VW(%s,v,a,n,1) VW(%s,z,b,n,s) VW(%s,w,out,n,1) w=f(v+z)*z;'%(c,c,c), gat('a[i]+b[(stride_type)i*s]')+L+'out[i]=fftwref::at<%s>(%d,x,1,1,n,0,0,i)*b[(stride_type)i*s];'%(t,s), n=25, what='by value within an expression'))
            o.append(Ob('c1s'+q, A, F+'SPL(%s,1,v,n) SPL(%s,1,w,n) for (index_type i=0;i<n;++i) v_b.put(i,a[i]); Vector<%s,decltype(v_b)> v(v_b); Vector<%s,decltype(w_b)> w(w_b); f(v,w); f(v); '%(c,c,c,c)+L+'{ out[2*i]=w.get(i); out[2*i+1]=v.get(i); }', gat('a[i]')+L+'out[2*i]=out[2*i+1]=g*fftwref::at<%s>(%d,x,1,1,n,0,0,i);'%(t,s), n=20, what='split-complex storage'))
            o.append(Ob('c1t'+q, A, F+'DVI(%s,v,a,n) DVI(%s,w,out,2*n) f(v,w(Domain<1>(n))); f(w(Domain<1>(n)),w(Domain<1>(n,1,n))); w_b.release(true); v_b.release(true);'%(c,c), gat('a[i]')+L+'{ out[i]=g*fftwref::at<%s>(%d,x,1,1,n,0,0,i); } '%(t,s)+L+'out[n+i]=g*fftwref::at<%s>(%d,out,1,1,n,0,0,i);'%(t,s), n=20, what='the object used twice'))
            o.append(Ob('c1q'+q, [NN,SC(t)], F+'return f.input_size().size()*1000000+f.output_size().size()*10000+(f.scale()==g?100:0)+(f.forward()?10:0)+f.input_size()[0].first()+f.output_size()[0].first();', 'return n*1000000+n*10000+100+%d;'%(10 if s<0 else 0), ret='length_type', n=20, what='sizes, scale and direction'))
        for r_,I,O in (('r2c',t,c),('c2r',c,t)):
            q='_%s%s'%(r_,T); R=r_=='r2c'
            A=[PT(O,'out'),PT(I,'a'),NN,SC(t)]
            F=OBJ('Vector',I,O,'0','by_reference','Domain<1>(n)'); FV=OBJ('Vector',I,O,'0','by_value','Domain<1>(n)','1')
            if R:
                gat=lambda e: '%s x[600]; for (length_type i=0;i<n;++i) x[i]=%s(%s,0); '%(c,c,e)
                sp='for (length_type i=0;i<n/2+1;++i) out[%%s]=g*fftwref::at<%s>(-1,x,1,1,n,0,0,i);'%t
            else:
                gat=lambda e: '%s y[600], x[600]; for (length_type i=0;i<n/2+1;++i) y[i]=%s; for (length_type i=0;i<n;++i) x[i]=fftwref::herm<%s>(y,2,1,1,n,0,0,i); '%(c,e,t)
                sp=L+'out[%%s]=g*fftwref::at<%s>(1,x,1,1,n,0,0,i).real();'%t
            ni,no=('n','(n/2+1)') if R else ('(n/2+1)','n')
            o.append(Ob('w1'+q, A+[S('s'),S('u')], F+'VW(%s,v,a,%s,s) VW(%s,w,out,%s,u) f(v,w);'%(I,ni,O,no), gat('a[(stride_type)i*s]')+sp%'(stride_type)i*u', n=25, what='strided views'))
            o.append(Ob('d1'+q, A+[('index_type','p','{0,1,2,8}'),('index_type','r_','{0,1,8}'),('stride_type','s','{1,1,2}'),('stride_type','u','{1,1,2}')], F+'DVI(%s,v,a,p+%s*s) DVI(%s,w,out,r_+%s*u) f(v(Domain<1>(p,s,%s)),w(Domain<1>(r_,u,%s))); w_b.release(true); v_b.release(true);'%(I,ni,O,no,ni,no), gat('a[p+i*s]')+sp%'r_+i*u', n=30, what='dense views and sub-views'))
            o.append(Ob('v1'+q, A+[S('s')], FV+'VW(%s,v,a,%s,s) DVI(%s,w,out,%s) w=f(v); w_b.release(true);'%(I,ni,O,no), gat('a[(stride_type)i*s]')+(sp%'i').replace('=g*','='), n=25, what='by value'))
            o.append(Ob('q1'+q, [NN,SC(t)], F+'return f.input_size().size()*1000000+f.output_size().size()*10000+(f.scale()==g?100:0)+(f.forward()?10:0);', 'return %s*1000000+%s*10000+100+%d;'%(ni,no,10 if R else 0), ret='length_type', n=20, what='sizes, scale and direction'))
            cs=c
            o.append(Ob('s1'+q, A, F+('SPL(%s,1,w,%s) VW(%s,v,a,n,1) Vector<%s,decltype(w_b)> w(w_b); f(v,w); for (length_type i=0;i<%s;++i) out[i]=w.get(i);'%(c,no,I,c,no) if R else 'SPL(%s,1,v,%s) for (index_type i=0;i<%s;++i) v_b.put(i,a[i]); Vector<%s,decltype(v_b)> v(v_b); VW(%s,w,out,n,1) f(v,w);'%(c,ni,ni,c,O)), gat('a[i]')+sp%'i', n=20, what='split-complex storage'))
    o1=o; o=[]
    # ---------------------------------------------------- two dimensions
    Z2=[('length_type','n','ch([1,2,3,4])'),('length_type','m','ch([1,2,3])')]
    LL='for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) '
    D2='Domain<2>(n,m)'
    for t in ('float','double') if thorough else ('float',):
        c='c'+t; T='_'+t
        for d,s in (('fft_fwd',-1),('fft_inv',1)):
            F=OBJ('Matrix',c,c,d,'by_reference',D2); FV=OBJ('Matrix',c,c,d,'by_value',D2)
            A=[PT(c,'out'),PT(c,'a')]+Z2+[SC(t)]
            gat=lambda e: '%s x[4000]; '%c+LL+'x[i*m+j]=%s; '%e
            val='g*fftwref::at<%s>(%d,x,1,n,m,0,i,j)'%(t,s)
            for oa in 'rc':
                for ob in 'rc':
                    o.append(Ob('c2_%s%s_%s%s'%(oa,ob,d[4:],T), A, F+'DM(%s,%s,v,a,n,m) DM(%s,%s,w,out,n,m) f(v,w); w_b.release(true); v_b.release(true);'%(c,TUP[oa],c,TUP[ob]), gat('a[%s]'%ix2(oa,'i','j','n','m'))+LL+'out[%s]=%s;'%(ix2(ob,'i','j','n','m'),val), n=15, opts={'nowiden':1}, what='matrix, each order'))
                q='_%s_%s%s'%(oa,d[4:],T)
                o.append(Ob('c2i'+q, A[1:], F+'DM(%s,%s,v,a,n,m) f(v); v_b.release(true);'%(c,TUP[oa]), gat('a[%s]'%ix2(oa,'i','j','n','m'))+LL+'a[%s]=%s;'%(ix2(oa,'i','j','n','m'),val), n=15, opts={'nowiden':1}, what='matrix in place'))
                o.append(Ob('c2is'+q, A[1:], F+'DM(%s,%s,v,a,2*n,m+1) f(v(Domain<2>(Domain<1>(0,2,n),Domain<1>(1,1,m)))); v_b.release(true);'%(c,TUP[oa]), gat('a[%s]'%ix2(oa,'2*i','j+1','2*n','m+1'))+LL+'a[%s]=%s;'%(ix2(oa,'2*i','j+1','2*n','m+1'),val), n=15, opts={'nowiden':1}, what='sub-matrix in place'))
                o.append(Ob('c2v'+q, A, FV+'DM(%s,%s,v,a,n,m) MW(%s,w,out,n,(stride_type)m,m,1) w=f(v);'%(c,TUP[oa],c), gat('a[%s]'%ix2(oa,'i','j','n','m'))+LL+'out[i*m+j]=%s;'%val, n=15, opts={'nowiden':1}, what='matrix by value'))
            o.append(Ob('c2w_%s%s'%(d[4:],T), A, F+'MC(%s,v,a,n,1,m,(stride_type)n+1) MW(%s,w,out,n,(stride_type)m*2,m,2) f(v,w);'%(c,c), gat('a[i+j*(n+1)]')+LL+'out[i*m*2+j*2]=%s;'%val, n=15, opts={'nowiden':1}, what='strided matrices'))
            o.append(Ob('c2q_%s%s'%(d[4:],T), Z2+[SC(t)], F+'return f.input_size()[0].size()*1000000+f.input_size()[1].size()*10000+f.output_size()[0].size()*1000+f.output_size()[1].size()*100+(f.scale()==g?10:0)+(f.forward()?1:0);', 'return n*1000000+m*10000+n*1000+m*100+10+%d;'%(s<0), ret='length_type', n=20, what='sizes, scale and direction'))
        for r_,I,O in (('r2c',t,c),('c2r',c,t)):
            R=r_=='r2c'
            for S_ in (0,1):
                A=[PT(O,'out'),PT(I,'a')]+Z2+[SC(t)]
                F=OBJ('Matrix',I,O,S_,'by_reference',D2); FV=OBJ('Matrix',I,O,S_,'by_value',D2)
                hn,hm=('(n/2+1)','m') if S_==0 else ('n','(m/2+1)')
                LH='for (length_type i=0;i<%s;++i) for (length_type j=0;j<%s;++j) '%(hn,hm)
                if R: gat=lambda e: '%s x[4000]; '%c+LL+'x[i*m+j]=%s(%s,0); '%(c,e)
                else: gat=lambda e: '%s x[4000], y[4000]; '%c+LH+'y[i*%s+j]=%s; '%(hm,e)+LL+'x[i*m+j]=fftwref::herm<%s>(y,%d,1,n,m,0,i,j); '%(t,S_+1)
                val='g*fftwref::at<%s>(-1,x,1,n,m,0,i,j)'%t if R else 'g*fftwref::at<%s>(1,x,1,n,m,0,i,j).real()'%t
                (n0,m0),(n1,m1)=(('n','m'),(hn,hm)) if R else ((hn,hm),('n','m'))
                LO=LH if R else LL
                q='_%s%d%s'%(r_,S_,T)
                for oa in 'rc':
                    for ob in 'rc':
                        if oa!=ob and not thorough and S_==0: continue
                        o.append(Ob('h2_%s%s%s'%(oa,ob,q), A, F+'DM(%s,%s,v,a,%s,%s) DM(%s,%s,w,out,%s,%s) f(v,w); w_b.release(true); v_b.release(true);'%(I,TUP[oa],n0,m0,O,TUP[ob],n1,m1), gat('a[%s]'%ix2(oa,'i','j',n0,m0))+LO+'out[%s]=%s;'%(ix2(ob,'i','j',n1,m1),val), n=15, opts={'nowiden':1}, what='matrix, half-size spectrum along one axis'))
                o.append(Ob('h2v'+q, A, FV+'DM(%s,row2_type,v,a,%s,%s) MW(%s,w,out,%s,(stride_type)%s,%s,1) w=f(v);'%(I,n0,m0,O,n1,m1,m1), gat('a[i*%s+j]'%m0)+LO+'out[i*%s+j]=%s;'%(m1,val), n=15, opts={'nowiden':1}, what='by value'))
                o.append(Ob('h2q'+q, Z2+[SC(t)], F+'return f.input_size()[0].size()*1000000+f.input_size()[1].size()*10000+f.output_size()[0].size()*1000+f.output_size()[1].size()*100+(f.scale()==g?10:0)+(f.forward()?1:0);', 'return %s*1000000+%s*10000+%s*1000+%s*100+10+%d;'%(n0,m0,n1,m1,R), ret='length_type', n=20, what='sizes, scale and direction'))
    def sk(D,t,dims,ctor,hv,LF):
        "the transforms of split_obs in D dimensions"
        c='c'+t; N='1,n,m,0,i,j' if D==2 else 'n,m,l,i,j,k'; lin={2:'i*m+j',3:'(i*m+j)*l+k'}[D]; LL='for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) '+('for (length_type k=0;k<l;++k) ' if D==3 else '')
        r=[]
        for d,s in (('fft_fwd',-1),('fft_inv',1)): r.append((d[4:],OBJ(VN[D],c,c,d,'by_reference',ctor),'c2c',None,lambda e:'%s x[4000]; '%c+LL+'x[%s]=%s; '%(lin,e),'g*fftwref::at<%s>(%d,x,%s)'%(t,s,N)))
        for S_ in range(D):
            h=list(dims); h[S_]='(%s/2+1)'%h[S_]
            LH=''.join('for (length_type %s=0;%s<%s;++%s) '%(v,v,n,v) for v,n in zip('ijk',h)); lh={2:'i*%s+j'%h[1],3:'(i*%s+j)*%s+k'%(h[1],h[-1])}[D]
            r.append(('r2c%d'%S_,OBJ(VN[D],t,c,S_,'by_reference',ctor),'r2c',h,lambda e:'%s x[4000]; '%c+LL+'x[%s]=%s(%s,0); '%(lin,c,e),'g*fftwref::at<%s>(-1,x,%s)'%(t,N)))
            r.append(('c2r%d'%S_,OBJ(VN[D],c,t,S_,'by_reference',ctor),'c2r',h,lambda e,LH=LH,lh=lh,S_=S_:'%s x[4000], y[4000]; '%c+LH+'y[%s]=%s; '%(lh,e)+LL+'x[%s]=fftwref::herm<%s>(y,%d,%s); '%(lin,t,S_+3-D,N),'g*fftwref::at<%s>(1,x,%s).real()'%(t,N)))
        return r
    for t in ('float','double') if thorough else ('float',): o+=split_obs(2,t,'2',None,sk(2,t,('n','m'),D2,0,0),('n','m'),Z2+[SC(t)],[(0,1,2),(1,0,2)])
    o2=o; o=[]
    # ---------------------------------------------------- three dimensions
    Z3=[('length_type','n','ch([1,2])'),('length_type','m','ch([1,2,3])'),('length_type','l','ch([1,2,3])')]
    L3='for (length_type i=0;i<%s;++i) for (length_type j=0;j<%s;++j) for (length_type k=0;k<%s;++k) '
    LL=L3%('n','m','l'); D3='Domain<3>(n,m,l)'; OD=[(0,1,2),(1,0,2),(2,1,0),(0,2,1),(1,2,0),(2,0,1)]
    IJ=('i','j','k')
    for t in ('float','double') if thorough else ('float',):
        c='c'+t; T='_'+t
        for d,s in (('fft_fwd',-1),('fft_inv',1)):
            F=OBJ('Tensor',c,c,d,'by_reference',D3)
            A=[PT(c,'out'),PT(c,'a')]+Z3+[SC(t)]
            for od in OD if thorough else OD[:4]:
                q='_%d%d%d_%s%s'%(od+(d[4:],T)); tp='tuple<%d,%d,%d>'%od; TY='ovxx_t%d%d%d'%od
                gat='%s x[4000]; '%c+LL+'x[(i*m+j)*l+k]=a[%s]; '%ix3(od,IJ,('n','m','l'))
                val='g*fftwref::at<%s>(%d,x,n,m,l,i,j,k)'%(t,s)
                td='typedef %s %s; '%(tp,TY)
                if od in OD[:2] or thorough:
                    o.append(Ob('c3'+q, A, F+td+'DT(%s,%s,v,a,n,m,l) DT(%s,row3_type,w,out,n,m,l) f(v,w); w_b.release(true); v_b.release(true);'%(c,TY,c), gat+LL+'out[(i*m+j)*l+k]=%s;'%val, n=10, opts={'nowiden':1}, what='tensor'))
                o.append(Ob('c3i'+q, A[1:], F+td+'DT(%s,%s,v,a,n,m,l) f(v); v_b.release(true);'%(c,TY), gat+LL+'a[%s]=%s;'%(ix3(od,IJ,('n','m','l')),val), n=10, opts={'nowiden':1}, what='tensor in place'))
        for r_,I,O in (('r2c',t,c),('c2r',c,t)):
            R=r_=='r2c'
            for S_ in (0,1,2):
                h=['n','m','l']; h[S_]='(%s/2+1)'%h[S_]; F=OBJ('Tensor',I,O,S_,'by_reference',D3)
                LH=L3%tuple(h); A=[PT(O,'out'),PT(I,'a')]+Z3+[SC(t)]
                full=('n','m','l'); ni,no=(full,h) if R else (h,full)
                for od in OD if thorough else OD[:1]:
                    q='_%s%d_%d%d%d%s'%((r_,S_)+od+(T,)); TY='ovxx_t%d%d%d'%od; td='typedef tuple<%d,%d,%d> %s; '%(od+(TY,))
                    if R: gat='%s x[4000]; '%c+LL+'x[(i*m+j)*l+k]=%s(a[%s],0); '%(c,ix3(od,IJ,ni))
                    else: gat='%s x[4000], y[4000]; '%c+LH+'y[(i*%s+j)*%s+k]=a[%s]; '%(h[1],h[2],ix3(od,IJ,ni))+LL+'x[(i*m+j)*l+k]=fftwref::herm<%s>(y,%d,n,m,l,i,j,k); '%(t,S_)
                    val='g*fftwref::at<%s>(%d,x,n,m,l,i,j,k)%s'%(t,-1 if R else 1,'' if R else '.real()')
                    o.append(Ob('h3'+q, A, F+td+'DT(%s,%s,v,a,%s,%s,%s) DT(%s,row3_type,w,out,%s,%s,%s) f(v,w); w_b.release(true); v_b.release(true);'%((I,TY)+tuple(ni)+(O,)+tuple(no)), gat+(LH if R else LL)+'out[(i*%s+j)*%s+k]=%s;'%(no[1],no[2],val), n=10, opts={'nowiden':1}, what='tensor, half-size spectrum along one axis'))
                o.append(Ob('h3q_%s%d%s'%(r_,S_,T), Z3+[SC(t)], F+'return (f.input_size()[0].size()*10+f.input_size()[1].size())*10+f.input_size()[2].size()+1000*((f.output_size()[0].size()*10+f.output_size()[1].size())*10+f.output_size()[2].size())+1000000*((f.scale()==g?2:0)+(f.forward()?1:0));', 'return (%s*10+%s)*10+%s+1000*((%s*10+%s)*10+%s)+1000000*(2+%d);'%(tuple(ni)+tuple(no)+(R,)), ret='length_type', n=15, what='sizes, scale and direction'))
    return chunks(o1, 9, 's08a', PRE)+chunks(o2, 9, 's08b', PRE)+chunks(o, 7, 's08c', PRE)
