"""Vector-matrix element-wise multiplication: every element of the result is the product of the matrix element and the
vector element of its column (dimension 0) or row (dimension 1), for every storage order of source and destination."""
from vp import *
def tus(tier):
    o = []
    def M(t,k,v,p,n,m,who):
        if k=='w': return 'MW(%s,%s,%s,%s,s%s,%s,r%s) '%(t,v,p,n,who,m,who)
        return 'DM(%s,%s2_type,%s,%s,%s,%s) '%(t,{'r':'row','c':'col'}[k],v,p,n,m)
    def ix(k,i,j,n,m,who): return {'w':'(stride_type)%s*s%s+(stride_type)%s*r%s'%(i,who,j,who),'r':'%s*%s+%s'%(i,m,j),'c':'%s*%s+%s'%(j,n,i)}[k]
    for tv,tm in (('float','float'),('float','cfloat'),('cfloat','cfloat'),('int','int'),('double','cdouble')):
        tr = tm
        for d in (0,1):
            for kd in 'rcw':
                for km in 'rcw':
                    if tv!='float' and (kd+km) not in ('rr','cr','rc','cc'): continue
                    for kv in 'dw':
                        if kv=='w' and tv in ('int','double'): continue
                        A=[PT(tr,'c'),PT(tv,'a'),PT(tm,'b'),N('n',1,4),N('m',1,4),S('sv')]
                        if kd=='w': A+=[('stride_type','sc','ch([5,6,-7])'),('stride_type','rc','ch([1,-1])')]
                        if km=='w': A+=[('stride_type','sb','ch([5,6,-7])'),('stride_type','rb','ch([1,-1])')]
                        L='m' if d==0 else 'n'
                        V='DV(%s,v,a,%s) '%(tv,L) if kv=='d' else 'VW(%s,v,a,%s,sv) '%(tv,L)
                        vi='j' if d==0 else 'i'
                        ve='a[%s]'%vi if kv=='d' else 'a[(stride_type)%s*sv]'%vi
                        o.append(Ob('vm%d_%s%s%s_%s_%s'%(d,kd,km,kv,tv,tm), A, M(tr,kd,'u','c','n','m','c')+M(tm,km,'w','b','n','m','b')+V+'u=vmmul<%d>(v,w);'%d,
                          'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) c[%s]=%s*b[%s];'%(ix(kd,'i','j','n','m','c'),ve,ix(km,'i','j','n','m','b')), what='vmmul<%d> of a %s vector and a %s matrix (destination %s, matrix %s)'%(d,tv,tm,kd,km)))
    for d in (0,1):
        t='float'; L='m' if d==0 else 'n'; vi='j' if d==0 else 'i'
        A=[PT(t,'c'),PT(t,'a'),PT(t,'b'),N('n',1,4),N('m',1,4)]
        B='DM(float,row2_type,u,c,n,m) DM(float,row2_type,w,b,n,m) DV(float,v,a,%s) '%L
        o.append(Ob('vm%d_expr'%d, A, B+'u=vmmul<%d>(v*v,w+w);'%d, 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) c[i*m+j]=a[%s]*a[%s]*(b[i*m+j]+b[i*m+j]);'%(vi,vi), what='vmmul of expressions'))
        o.append(Ob('vm%d_add'%d, A, B+'u+=vmmul<%d>(v,w);'%d, 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) c[i*m+j]+=a[%s]*b[i*m+j];'%vi, what='compound assignment from vmmul'))
        o.append(Ob('vm%d_get'%d, [PT(t,'a'),PT(t,'b'),N('n',1,4),N('m',1,4),('index_type','x','r(0,n-1)'),('index_type','y','r(0,m-1)')], B.replace('DM(float,row2_type,u,c,n,m) ','')+'return vmmul<%d>(v,w).get(x,y);'%d, 'return a[%s]*b[x*m+y];'%{'j':'y','i':'x'}[vi], ret='float', what='element of a vmmul expression'))
        o.append(Ob('vm%d_size'%d, [PT(t,'a'),PT(t,'b'),N('n',1,4),N('m',1,4),PT('length_type','z')], B.replace('DM(float,row2_type,u,c,n,m) ','')+'z[0]=vmmul<%d>(v,w).size(0); z[1]=vmmul<%d>(v,w).size(1); z[2]=vmmul<%d>(v,w).size();'%(d,d,d), 'z[0]=n; z[1]=m; z[2]=n*m;', what='shape of a vmmul expression'))
    return chunks(o, 13, 'm06')
