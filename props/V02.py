"""Element-wise assignment: for every view kind, storage order, dispatch path and expression shape,
assigning an expression to a view leaves each destination element equal to the expression applied to
the operand elements at the same index, and changes nothing else."""
from vp import *
def tus(tier):
    o = []
    # operators over strided vectors
    VV = [PT('float','a'),PT('float','b'),PT('float','c'),N(),S('sa'),S('sb'),S('sc')]
    V3 = 'VW(float,u,a,n,sa) VW(float,v,b,n,sb) VW(float,w,c,n,sc) '
    def lp(e): return 'for (length_type i=0;i<n;++i) a[(stride_type)i*sa] = %s;' % e
    x, y = 'b[(stride_type)i*sb]', 'c[(stride_type)i*sc]'
    for nm, i, s in [('add','v+w','X+Y'),('sub','v-w','X-Y'),('mul','v*w','X*Y'),('div','v/w','X/Y'),('neg','-v','-X'),('plus','+v','X'),
                     ('adds','v+2.5f','X+2.5f'),('sadd','2.5f+v','2.5f+X'),('subs','v-2.5f','X-2.5f'),('ssub','2.5f-v','2.5f-X'),('muls','v*2.5f','X*2.5f'),('smul','2.5f*v','X*2.5f'),
                     ('divs','v/4.f','X/4.f'),('sdiv','2.5f/v','2.5f/X'),('ma','v*w+v','X*Y+X'),('am','v+v*w','X*Y+X'),('mm','v*w+v*v','X*Y+X*X'),
                     ('msb','v*w-w','X*Y-Y'),('sbm','w-v*w','Y-X*Y'),('mmm','v*w-v*v','X*Y-X*X'),('big','(v-w)*(v+w)/2.f - v','(X-Y)*(X+Y)/2.f-X'),('copy','v','X'),
                     ('smam','2.f*v+w','2.f*X+Y'),('deep','((v+w)*v-w)*(w-v*v)+3.f','((X+Y)*X-Y)*(Y-X*X)+3.f')]:
        o.append(Ob('v_'+nm, VV, V3+'u = %s;' % i, lp(s.replace('X', x).replace('Y', y)), what='vector assignment u = %s' % i))
    # dense vectors: direct-data and loop-fusion paths
    DVs = [PT('float','a'),PT('float','b'),PT('float','c'),N()]
    D3 = 'DV(float,u,a,n) DV(float,v,b,n) DV(float,w,c,n) '
    for nm, i, s in [('add','v+w','b[i]+c[i]'),('copy','v','b[i]'),('ma','v*w+v','b[i]*c[i]+b[i]'),('fill','2.5f','2.5f'),('self','u*v','a[i]*b[i]')]:
        o.append(Ob('d_'+nm, DVs, D3+'u = %s;' % i, 'for (length_type i=0;i<n;++i) a[i]=%s;' % s, what='dense vector assignment u = %s' % i))
    # mixed value types
    for t1, t2, t3, e in [('cfloat','float','cfloat','x*y'),('cfloat','cfloat','float','x*y'),('cfloat','cfloat','cfloat','x*y+x'),('double','float','double','x+y'),('int','int','int','x*y-x'),('cfloat','cfloat','cfloat','x-y'),('cdouble','cdouble','cdouble','x+y')]:
        nm = 't_%s_%s_%s_%d' % (t1, t2, t3, len(o))
        o.append(Ob(nm, [PT(t1,'a'),PT(t2,'b'),PT(t3,'c'),N(),S('sa'),S('sb'),S('sc')],
           'VW(%s,u,a,n,sa) VW(%s,x,b,n,sb) VW(%s,y,c,n,sc) u = %s;' % (t1,t2,t3,e),
           'for (length_type i=0;i<n;++i) { %s x=b[(stride_type)i*sb]; %s y=c[(stride_type)i*sc]; a[(stride_type)i*sa]=%s; }' % (t2,t3,e), what='vector assignment over %s, %s -> %s' % (t2,t3,t1)))
    tu = [TU('v02v', P, o[:18]), TU('v02v2', P, o[18:])]
    # matrices: all order combinations, dense and strided
    o = []
    for la in ('row','col'):
        for lb in ('row','col'):
            for t in ('float','cfloat'):
                ia = 'i*m+j' if la=='row' else 'j*n+i'; ib = 'i*m+j' if lb=='row' else 'j*n+i'
                for nm, e, s in [('copy','v','B'),('fill','u*0.f+2.f','2.f'),('expr','v*v+v','B*B+B')]:
                    if nm == 'fill': e = '%s(2)' % t; s = '%s(2)' % t
                    o.append(Ob('dm_%s_%s_%s_%s' % (la,lb,t,nm), [PT(t,'a'),PT(t,'b'),N('n',0,4),N('m',0,4)],
                      'DM(%s,%s2_type,u,a,n,m) DM(%s,%s2_type,v,b,n,m) u = %s;' % (t,la,t,lb,e),
                      'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) a[%s]=%s;' % (ia, s.replace('B','b[%s]' % ib)), what='%s-major dense %s matrix = %s (%s-major)' % (la,t,e,lb)))
    tu.append(TU('v02dm', P, o))
    o = []
    MA = [PT('float','a'),PT('float','b'),N('n',0,4),N('m',0,4),S('sa','m+r(0,2)'),S('sb','m+r(0,2)')]
    MA2 = MA + [S('ta','ch([1])'),S('tb','ch([1])')]
    o.append(Ob('m_copy', MA, 'MW(float,u,a,n,sa,m,1) MW(float,v,b,n,sb,m,1) u=v;', 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) a[i*sa+j]=b[i*sb+j];', what='strided matrix copy'))
    o.append(Ob('m_expr', MA, 'MW(float,u,a,n,sa,m,1) MW(float,v,b,n,sb,m,1) u=v*3.f-u;', 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) a[i*sa+j]=3*b[i*sb+j]-a[i*sa+j];', what='strided matrix expression'))
    o.append(Ob('m_trans', [PT('float','a'),PT('float','b'),N('n',0,4),N('m',0,4),S('sa','m+r(0,2)'),S('sb','n+r(0,2)')], 'MW(float,u,a,n,sa,m,1) MW(float,v,b,m,sb,n,1) u=v.transpose()*2.f;', 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) a[i*sa+j]=2*b[j*sb+i];', what='transposed operand'))
    for la in ('row','col'):
        for lb in ('row','col'):
            ia = 'i*m+j' if la=='row' else 'j*n+i'; ib = 'j*n+i' if lb=='row' else 'i*m+j'   # b is m x n, transposed view
            for nm,e,s in [('t','v.transpose()','b[%s]'),('te','v.transpose()+u','b[%s]+a[@]')]:
                o.append(Ob('dmt_%s_%s_%s' % (la,lb,nm), [PT('float','a'),PT('float','b'),N('n',0,4),N('m',0,4)],
                      'DM(float,%s2_type,u,a,n,m) DM(float,%s2_type,v,b,m,n) u = %s;' % (la,lb,e),
                      'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) a[%s]=%s;' % (ia, (s%ib).replace('@',ia)), what='dense transpose assignment %s <- %s transposed' % (la,lb)))
            # sub-domain views of dense matrices (non-unit strides on both sides)
            o.append(Ob('dms_%s_%s' % (la,lb), [PT('float','a'),PT('float','b'),N('n',1,4),N('m',1,4),('stride_type','p','r(1,2)'),('stride_type','q','r(1,3)')],
              'DM(float,%s2_type,u,a,n*p,m*q) DM(float,%s2_type,v,b,n*q,m*p) u(Domain<2>(Domain<1>(0,p,n),Domain<1>(0,q,m))) = v(Domain<2>(Domain<1>(0,q,n),Domain<1>(0,p,m)));' % (la,lb),
              'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) a[%s]=b[%s];' % ('(i*p)*(m*q)+j*q' if la=='row' else '(j*q)*(n*p)+i*p', '(i*q)*(m*p)+j*p' if lb=='row' else '(j*p)*(n*q)+i*q'), what='strided sub-domain copy between %s and %s dense matrices' % (la,lb)))
            o.append(Ob('dmst_%s_%s' % (la,lb), [PT('float','a'),PT('float','b'),N('n',1,4),N('m',1,4),('stride_type','p','r(1,2)'),('stride_type','q','r(1,3)')],
              'DM(float,%s2_type,u,a,n*p,m*q) DM(float,%s2_type,v,b,m*q,n*p) u(Domain<2>(Domain<1>(0,p,n),Domain<1>(0,q,m))) = v(Domain<2>(Domain<1>(0,q,m),Domain<1>(0,p,n))).transpose();' % (la,lb),
              'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) a[%s]=b[%s];' % ('(i*p)*(m*q)+j*q' if la=='row' else '(j*q)*(n*p)+i*p', '(j*q)*(n*p)+i*p' if lb=='row' else '(i*p)*(m*q)+j*q'), what='strided sub-domain transpose between %s and %s dense matrices' % (la,lb)))
    tu.append(TU('v02m', P, o))
    # tensors
    o = []
    ords = ['row3_type','col3_type','tuple<1,0,2>','tuple<0,2,1>','tuple<1,2,0>','tuple<2,0,1>']
    perm = {'row3_type':(0,1,2),'col3_type':(2,1,0),'tuple<1,0,2>':(1,0,2),'tuple<0,2,1>':(0,2,1),'tuple<1,2,0>':(1,2,0),'tuple<2,0,1>':(2,0,1)}
    def ix(p):
        d = [('i','n'),('j','m'),('k','l')]; a,b,c = [d[x] for x in p]
        return '((%s)*%s+%s)*%s+%s' % (a[0],b[1],b[0],c[1],c[0])
    for A in ords:
        for B in ('row3_type','col3_type') if tier=='quick' else ords:
            for nm,e,s in [('copy','v','B'),('expr','v*2.f+u','B*2+A')]:
                o.append(Ob('dt_%d%d%d_%d%d%d_%s' % (perm[A]+perm[B]+(nm,)), [PT('float','a'),PT('float','b'),N('n',0,3),N('m',0,3),N('l',0,3)],
                  'typedef %s OA; typedef %s OB; DT(float,OA,u,a,n,m,l) DT(float,OB,v,b,n,m,l) u = %s;' % (A,B,e),
                  'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) for (length_type k=0;k<l;++k) a[%s]=%s;' % (ix(perm[A]), s.replace('B','b[%s]' % ix(perm[B])).replace('A','a[%s]' % ix(perm[A]))), what='dense tensor assignment %s <- %s (%s)' % (A,B,e)))
    o.append(Ob('t_expr', [PT('float','a'),PT('float','b'),N('n',0,3),N('m',0,3),N('l',0,3)], 'TW(float,u,a,n,m*l,m,l,l,1) TW(float,v,b,n,1,m,n,l,n*m) u = v+1.f;',
      'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) for (length_type k=0;k<l;++k) a[(i*m+j)*l+k]=b[i+n*(j+m*k)]+1.f;', what='strided tensor expression'))
    h = len(o)//2
    tu += [TU('v02t', P, o[:h]), TU('v02t2', P, o[h:])]
    return tu
