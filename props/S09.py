"""Multiple transforms: Fftm transforms every row or every column of a matrix independently by the definition of the
transform (sign, scale, half-size spectrum), out of place, in place and by value, for every operand layout."""
from vp import *
from S08 import PRE, TUP, ix2, split_obs
def tus(tier):
    o=[]
    thorough = tier!='quick'
    SC=lambda t:(t,'g','ch([1,2,0.5])')
    # a row of four or eight elements takes the aligned code path
    Z=[('length_type','n','ch([1,2,3,4,8])'),('length_type','m','ch([1,2,3,4,8])')]
    LL='for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) '
    def OBJ(I,O,a,d,r): return 'Fftm<%s,%s,%s,%s,%s> f(Domain<2>(n,m),g); '%(I,O,a,d,r)
    for t in ('float','double') if thorough else ('float',):
        c='c'+t; T='_'+t
        for ax in ('row','col'):
            R=ax=='row'
            # value at (i,j) of the transform of the gathered full array x (row-major n x m)
            def val(s,tail=''):
                return ('fftwref::at<%s>(%d,x+i*m,1,1,m,0,0,j)'%(t,s) if R else 'fftwref::at<%s>(%d,x+j*n,1,1,n,0,0,i)'%(t,s))+tail
            pos=lambda i,j:'(%s)*m+(%s)'%(i,j) if R else '(%s)*n+(%s)'%(j,i)     # the transformed axis is contiguous in x
            for d,s in (('fft_fwd',-1),('fft_inv',1)):
                F=OBJ(c,c,ax,d,'by_reference'); FV=OBJ(c,c,ax,d,'by_value')
                A=[PT(c,'out'),PT(c,'a')]+Z+[SC(t)]
                gat=lambda e:'%s x[4000]; '%c+LL+'x[%s]=%s; '%(pos('i','j'),e)
                q='_%s_%s%s'%(ax,d[4:],T)
                for oa in 'rc':
                    for ob in 'rc':
                        o.append(Ob('c_%s%s%s'%(oa,ob,q), A, F+'DM(%s,%s,v,a,n,m) DM(%s,%s,w,out,n,m) f(v,w); w_b.release(true); v_b.release(true);'%(c,TUP[oa],c,TUP[ob]), gat('a[%s]'%ix2(oa,'i','j','n','m'))+LL+'out[%s]=g*%s;'%(ix2(ob,'i','j','n','m'),val(s)), n=14, opts={'nowiden':1}, what='dense matrices of either order'))
                    o.append(Ob('ci_%s%s'%(oa,q), A[1:], F+'DM(%s,%s,v,a,n,m) f(v); v_b.release(true);'%(c,TUP[oa]), gat('a[%s]'%ix2(oa,'i','j','n','m'))+LL+'a[%s]=g*%s;'%(ix2(oa,'i','j','n','m'),val(s)), n=14, opts={'nowiden':1}, what='in place'))
                    o.append(Ob('cis_%s%s'%(oa,q), A[1:], F+'DM(%s,%s,v,a,2*n,m+1) f(v(Domain<2>(Domain<1>(1,1,n),Domain<1>(1,1,m)))); v_b.release(true);'%(c,TUP[oa]), gat('a[%s]'%ix2(oa,'i+1','j+1','2*n','m+1'))+LL+'a[%s]=g*%s;'%(ix2(oa,'i+1','j+1','2*n','m+1'),val(s)), n=14, opts={'nowiden':1}, what='sub-matrix in place'))
                    o.append(Ob('cs_%s%s'%(oa,q), A, F+'DM(%s,%s,v,a,n,2*m) DM(%s,%s,w,out,n+1,m+4) f(v(Domain<2>(n,Domain<1>(0,2,m))),w(Domain<2>(n,Domain<1>(4,1,m)))); w_b.release(true); v_b.release(true);'%(c,TUP[oa],c,TUP[oa]), gat('a[%s]'%ix2(oa,'i','2*j','n','2*m'))+LL+'out[%s]=g*%s;'%(ix2(oa,'i','j+4','n+1','m+4'),val(s)), n=14, opts={'nowiden':1}, what='sub-matrices'))
                    o.append(Ob('cv_%s%s'%(oa,q), A, FV+'DM(%s,%s,v,a,n,m) MW(%s,w,out,n,(stride_type)m,m,1) w=f(v);'%(c,TUP[oa],c), gat('a[%s]'%ix2(oa,'i','j','n','m'))+LL+'out[i*m+j]=g*%s;'%val(s), n=14, opts={'nowiden':1}, what='by value'))
                o.append(Ob('cw'+q, A, F+'MC(%s,v,a,n,1,m,(stride_type)n+1) MW(%s,w,out,n,(stride_type)m*2,m,2) f(v,w);'%(c,c), gat('a[i+j*(n+1)]')+LL+'out[i*m*2+j*2]=g*%s;'%val(s), n=14, opts={'nowiden':1}, what='strided matrices'))
                o.append(Ob('c2'+q, A, F+'DM(%s,row2_type,v,a,n,m) DM(%s,row2_type,w,out,n,m) f(v,w); f(w); w_b.release(true); v_b.release(true);'%(c,c), gat('a[i*m+j]')+'%s y[4000]; '%c+LL+'y[%s]=g*%s; '%(pos('i','j'),val(s))+LL+'x[%s]=y[%s]; '%(pos('i','j'),pos('i','j'))+LL+'out[i*m+j]=g*%s;'%val(s), n=10, opts={'nowiden':1}, what='the object used twice'))
                o.append(Ob('cq'+q, Z+[SC(t)], F+'return f.input_size()[0].size()*1000000+f.input_size()[1].size()*10000+f.output_size()[0].size()*1000+f.output_size()[1].size()*100+(f.scale()==g?10:0)+(f.forward()?1:0);', 'return n*1000000+m*10000+n*1000+m*100+10+%d;'%(s<0), ret='length_type', n=20, what='sizes, scale and direction'))
            for r_,I,O in (('r2c',t,c),('c2r',c,t)):
                C=r_=='r2c'
                A=[PT(O,'out'),PT(I,'a')]+Z+[SC(t)]
                d='fft_fwd' if C else 'fft_inv'
                F=OBJ(I,O,ax,d,'by_reference'); FV=OBJ(I,O,ax,d,'by_value')
                hn,hm=('n','(m/2+1)') if R else ('(n/2+1)','m')
                LH='for (length_type i=0;i<%s;++i) for (length_type j=0;j<%s;++j) '%(hn,hm)
                (n0,m0),(n1,m1)=(('n','m'),(hn,hm)) if C else ((hn,hm),('n','m'))
                if C: gat=lambda e:'%s x[4000]; '%c+LL+'x[%s]=%s(%s,0); '%(pos('i','j'),c,e); LO=LH
                else:
                    LO=LL
                    if R: gat=lambda e:'%s x[4000], y[4000]; '%c+LH+'y[i*%s+j]=%s; '%(hm,e)+LL+'x[i*m+j]=fftwref::herm<%s>(y+i*%s,2,1,1,m,0,0,j); '%(t,hm)
                    else: gat=lambda e:'%s x[4000], y[4000]; '%c+LH+'y[j*%s+i]=%s; '%(hn,e)+LL+'x[j*n+i]=fftwref::herm<%s>(y+j*%s,2,1,1,n,0,0,i); '%(t,hn)
                v='g*'+(val(-1) if C else val(1,'.real()'))
                q='_%s_%s%s'%(ax,r_,T)
                for oa in 'rc':
                    for ob in 'rc':
                        o.append(Ob('h_%s%s%s'%(oa,ob,q), A, F+'DM(%s,%s,v,a,%s,%s) DM(%s,%s,w,out,%s,%s) f(v,w); w_b.release(true); v_b.release(true);'%(I,TUP[oa],n0,m0,O,TUP[ob],n1,m1), gat('a[%s]'%ix2(oa,'i','j',n0,m0))+LO+'out[%s]=%s;'%(ix2(ob,'i','j',n1,m1),v), n=14, opts={'nowiden':1}, what='dense matrices of either order, half-size spectrum'))
                    o.append(Ob('hs_%s%s'%(oa,q), A, F+'DM(%s,%s,v,a,%s+1,%s) DM(%s,%s,w,out,%s,%s+1) f(v(Domain<2>(Domain<1>(1,1,%s),%s)),w(Domain<2>(%s,Domain<1>(1,1,%s)))); w_b.release(true); v_b.release(true);'%(I,TUP[oa],n0,m0,O,TUP[oa],n1,m1,n0,m0,n1,m1), gat('a[%s]'%ix2(oa,'i+1','j',n0+'+1',m0))+LO+'out[%s]=%s;'%(ix2(oa,'i','j+1',n1,m1+'+1'),v), n=14, opts={'nowiden':1}, what='sub-matrices, half-size spectrum'))
                o.append(Ob('hw'+q, A, F+'MC(%s,v,a,%s,1,%s,(stride_type)%s+1) MW(%s,w,out,%s,(stride_type)%s*2,%s,2) f(v,w);'%(I,n0,m0,n0,O,n1,m1,m1), gat('a[i+j*(%s+1)]'%n0)+LO+'out[i*%s*2+j*2]=%s;'%(m1,v), n=14, opts={'nowiden':1}, what='strided matrices'))
                o.append(Ob('hv'+q, A, FV+'DM(%s,row2_type,v,a,%s,%s) MW(%s,w,out,%s,(stride_type)%s,%s,1) w=f(v);'%(I,n0,m0,O,n1,m1,m1), gat('a[i*%s+j]'%m0)+LO+'out[i*%s+j]=%s;'%(m1,v), n=14, opts={'nowiden':1}, what='by value'))
                o.append(Ob('hq'+q, Z+[SC(t)], F+'return f.input_size()[0].size()*1000000+f.input_size()[1].size()*10000+f.output_size()[0].size()*1000+f.output_size()[1].size()*100+(f.scale()==g?10:0)+(f.forward()?1:0);', 'return %s*1000000+%s*10000+%s*1000+%s*100+10+%d;'%(n0,m0,n1,m1,C), ret='length_type', n=20, what='sizes, scale and direction'))
        kinds=[]; LL='for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) '
        for ax in ('row','col'):
            R=ax=='row'; tr=lambda s,x='x',R=R:'fftwref::at<%s>(%d,x+i*m,1,1,m,0,0,j)'%(t,s) if R else 'fftwref::at<%s>(%d,x+j*n,1,1,n,0,0,i)'%(t,s)
            pos='i*m+j' if R else 'j*n+i'; h=('n','(m/2+1)') if R else ('(n/2+1)','m')
            LH='for (length_type i=0;i<%s;++i) for (length_type j=0;j<%s;++j) '%h
            g0=lambda e,pos=pos:'%s x[4000]; '%c+LL+'x[%s]=%s; '%(pos,e)
            for d,s in (('fft_fwd',-1),('fft_inv',1)): kinds.append(('%s_%s'%(ax,d[4:]),OBJ(c,c,ax,d,'by_reference'),'c2c',None,g0,'g*'+tr(s)))
            kinds.append((ax+'_r2c',OBJ(t,c,ax,'fft_fwd','by_reference'),'r2c',h,lambda e,pos=pos:'%s x[4000]; '%c+LL+'x[%s]=%s(%s,0); '%(pos,c,e),'g*'+tr(-1)))
            kinds.append((ax+'_c2r',OBJ(c,t,ax,'fft_inv','by_reference'),'c2r',h,
                (lambda e,LH=LH,h=h:'%s x[4000], y[4000]; '%c+LH+'y[i*%s+j]=%s; '%(h[1],e)+LL+'x[i*m+j]=fftwref::herm<%s>(y+i*%s,2,1,1,m,0,0,j); '%(t,h[1])) if R else
                (lambda e,LH=LH,h=h:'%s x[4000], y[4000]; '%c+LH+'y[j*%s+i]=%s; '%(h[0],e)+LL+'x[j*n+i]=fftwref::herm<%s>(y+j*%s,2,1,1,n,0,0,i); '%(t,h[0])),'g*'+tr(1)+'.real()'))
        o+=split_obs(2,t,'m',None,kinds,('n','m'),Z+[SC(t)],[(0,1,2),(1,0,2)])
    return chunks(o, 10, 's09', PRE)
