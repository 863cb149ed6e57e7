"""Matrix-vector operations: dot products, matrix products, generalized products and sums, outer and Kronecker
products, transposition, cumulative sums and modulation, for dense and strided operands in either storage order,
including every call the library hands to BLAS (judged by reference definitions of the BLAS entry points)."""
from vp import *
PB = '#include "mac.hpp"\n#include "blasref.hpp"\n'
Sx = 'ch([1,2,3])'; 
def cnj(t): return 'std::conj(%s)' if t[0]=='c' else '%s'
ORD = {'r':'row2_type','c':'col2_type'}
def ix(o, i, j, R, C, p='1', q='1', rv='', ):
    "element (i,j) of the p,q-strided sub-domain of an (R*p) x (C*q) dense matrix"
    i = '(%s)*%s' % (i, p); j = '(%s)*%s' % (j, q)
    return '(%s)*((%s)*%s)+(%s)' % (i, C, q, j) if o == 'r' else '(%s)*((%s)*%s)+(%s)' % (j, R, p, i)
def M(t, o, v, ptr, R, C, p=None, q=None):
    if p is None: return 'DM(%s,%s,%s,%s,%s,%s) ' % (t, ORD[o], v, ptr, R, C)
    return 'DM(%s,%s,%s_,%s,(%s)*%s,(%s)*%s) typename Matrix<%s,Dense<2,%s,%s> >::subview_type %s(%s_(Domain<2>(Domain<1>(0,%s,%s),Domain<1>(0,%s,%s)))); '.replace('typename ','') % (t, ORD[o], v, ptr, R, p, C, q, t, t, ORD[o], v, v, p, R, q, C)
def tus(tier):
    tu = []; o = []
    # ---- dot products
    for t in ('float','double','cfloat','cdouble','int'):
        c = t[0]=='c'
        for f in ('dot','cvjdot') if c else ('dot',):
            b2 = 'std::conj(y)' if f=='cvjdot' else 'y'
            ret = 'void' if c else t
            out = [PT(t,'out')] if c else []
            wr = 'out[0]=%s;' if c else 'return %s;'
            spec = '%s r=0; for (length_type i=0;i<n;++i) { %s x=a[%%s]; %s y=b[%%s]; r+=x*%s; } %s' % (t,t,t,b2,wr%'r')
            if t in ('float','cfloat','int'):
                o.append(Ob('%s_w_%s'%(f,t), [PT(t,'a'),PT(t,'b'),N(),S('s'),S('q')]+out, 'VW(%s,v,a,n,s) VW(%s,w,b,n,q) %s' % (t,t,wr%('%s(v,w)'%f)), spec%('(stride_type)i*s','(stride_type)i*q'), ret=ret, what='%s of strided %s vectors' % (f,t)))
            if t != 'int':
                o.append(Ob('%s_d_%s'%(f,t), [PT(t,'a'),PT(t,'b'),N(lo=1)]+out, 'DV(%s,v,a,n) DV(%s,w,b,n) %s' % (t,t,wr%('%s(v,w)'%f)), spec%('i','i'), ret=ret, what='%s of dense %s vectors' % (f,t)))
                o.append(Ob('%s_s_%s'%(f,t), [PT(t,'a'),PT(t,'b'),N(lo=1),('stride_type','s',Sx),('stride_type','q',Sx)]+out, 'DV(%s,v,a,n*s) DV(%s,w,b,n*q) %s' % (t,t,wr%('%s(v(Domain<1>(0,s,n)),w(Domain<1>(0,q,n)))'%f)), spec%('i*s','i*q'), ret=ret, what='%s of strided sub-domains of dense %s vectors' % (f,t)))
                o.append(Ob('%s_r_%s'%(f,t), [PT(t,'a'),PT(t,'b'),N(lo=1)]+out, 'DV(%s,v,a,n) DV(%s,w,b,n) %s' % (t,t,wr%('%s(v(Domain<1>(n-1,-1,n)),w)'%f)), spec%('n-1-i','i'), ret=ret, what='%s with a reversed dense %s vector' % (f,t)))
    o.append(Ob('dot_mix', [PT('float','a'),PT('cfloat','b'),N(),PT('cfloat','out')], 'DV(float,v,a,n) DV(cfloat,w,b,n) out[0]=dot(v,w);', 'cfloat r=0; for (length_type i=0;i<n;++i) r+=a[i]*b[i]; out[0]=r;', what='dot of a real and a complex vector'))
    tu += chunks(o, 12, 'm05dot', PB); o = []
    # ---- matrix * matrix
    types = ('float','cfloat') if tier=='quick' else ('float','cfloat','double','cdouble')
    Z = [('length_type','n','r(1,3)'),('length_type','m','r(1,3)'),('length_type','k','r(1,3)')]
    def prods(t): 
        l = [('prod','v','w','k','m','Y'),]
        return l
    for t in types:
        for oa in 'rc':
            for ob in 'rc':
                for oc in 'rc':
                    A = [PT(t,'c'),PT(t,'a'),PT(t,'b')]+Z
                    sp = 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) { %s r=0; for (length_type l=0;l<k;++l) r+=a[%%s]*b[%%s]; c[%%s]=r; }' % t
                    o.append(Ob('mm_%s%s%s_%s'%(oa,ob,oc,t), A, M(t,oc,'u','c','n','m')+M(t,oa,'v','a','n','k')+M(t,ob,'w','b','k','m')+'u=prod(v,w);',
                       sp % (ix(oa,'i','l','n','k'),ix(ob,'l','j','k','m'),ix(oc,'i','j','n','m')), what='matrix product of dense %s matrices (%s,%s)->%s' % (t,oa,ob,oc), extent=None))
                    if t in ('float','cfloat'):
                        PQ = [('stride_type','p','ch([1,1,2])'),('stride_type','q','ch([1,1,2])')]
                        for who in 'abc':
                            pq = {x: ('p','q') if x==who else (None,None) for x in 'abc'}
                            pp = {x: ('p','q') if x==who else ('1','1') for x in 'abc'}
                            if t=='cfloat' and who!='c': continue
                            o.append(Ob('mms%s_%s%s%s_%s'%(who,oa,ob,oc,t), A+PQ, M(t,oc,'u','c','n','m',*pq['c'])+M(t,oa,'v','a','n','k',*pq['a'])+M(t,ob,'w','b','k','m',*pq['b'])+'u=prod(v,w);',
                              sp % (ix(oa,'i','l','n','k',*pp['a']),ix(ob,'l','j','k','m',*pp['b']),ix(oc,'i','j','n','m',*pp['c'])), n=40, what='matrix product with a sub-domain as %s' % {'a':'left operand','b':'right operand','c':'destination'}[who]))
    tu += chunks(o, 12, 'm05mm', PB); o = []
    # ---- matrix * vector, vector * matrix
    for t in types:
        for om in 'rc':
            sp1 = 'for (length_type i=0;i<n;++i) { %s r=0; for (length_type l=0;l<k;++l) r+=a[%%s]*b[%%s]; c[%%s]=r; }' % t
            sp2 = 'for (length_type j=0;j<m;++j) { %s r=0; for (length_type l=0;l<k;++l) r+=a[%%s]*b[%%s]; c[%%s]=r; }' % t
            Z1 = [PT(t,'c'),PT(t,'a'),PT(t,'b'),('length_type','n','r(1,3)'),('length_type','k','r(1,3)')]
            Z2 = [PT(t,'c'),PT(t,'a'),PT(t,'b'),('length_type','m','r(1,3)'),('length_type','k','r(1,3)')]
            PQ = [('stride_type','p','ch([1,1,2])'),('stride_type','q','ch([1,1,2])')]
            o.append(Ob('mv_%s_%s'%(om,t), Z1, 'DV(%s,u,c,n) '%t+M(t,om,'v','a','n','k')+'DV(%s,w,b,k) u=prod(v,w);'%t, sp1%(ix(om,'i','l','n','k'),'l','i'), what='%s %s-major matrix times vector'%(t,om)))
            o.append(Ob('vm_%s_%s'%(om,t), Z2, 'DV(%s,u,c,m) DV(%s,v,a,k) '%(t,t)+M(t,om,'w','b','k','m')+'u=prod(v,w);', sp2%('l',ix(om,'l','j','k','m'),'j'), what='vector times %s %s-major matrix'%(t,om)))
            if t in ('float','cfloat'):
                o.append(Ob('mvs_%s_%s'%(om,t), Z1+PQ, 'DV(%s,u,c,n) '%t+M(t,om,'v','a','n','k','p','q')+'DV(%s,w,b,k) u=prod(v,w);'%t, sp1%(ix(om,'i','l','n','k','p','q'),'l','i'), n=40, what='sub-domain of a %s-major matrix times vector'%om))
                o.append(Ob('vms_%s_%s'%(om,t), Z2+PQ, 'DV(%s,u,c,m) DV(%s,v,a,k) '%(t,t)+M(t,om,'w','b','k','m','p','q')+'u=prod(v,w);', sp2%('l',ix(om,'l','j','k','m','p','q'),'j'), n=40, what='vector times sub-domain of a %s-major matrix'%om))
                o.append(Ob('mvv_%s_%s'%(om,t), Z1+PQ, 'DV(%s,u,c,n*p) '%t+M(t,om,'v','a','n','k')+'DV(%s,w,b,k*q) u(Domain<1>(0,p,n))=prod(v,w(Domain<1>(0,q,k)));'%t, sp1%(ix(om,'i','l','n','k'),'l*q','i*p'), n=40, what='matrix (%s) times strided vector into a strided vector'%om))
                o.append(Ob('vmv_%s_%s'%(om,t), Z2+PQ, 'DV(%s,u,c,m*p) DV(%s,v,a,k*q) '%(t,t)+M(t,om,'w','b','k','m')+'u(Domain<1>(0,p,m))=prod(v(Domain<1>(0,q,k)),w);', sp2%('l*q',ix(om,'l','j','k','m'),'j*p'), n=40, what='strided vector times matrix (%s) into a strided vector'%om))
                o.append(Ob('mvr_%s_%s'%(om,t), Z1, 'DV(%s,u,c,n) '%t+M(t,om,'v','a','n','k')+'DV(%s,w,b,k) u=prod(v,w(Domain<1>(k-1,-1,k)));'%t, sp1%(ix(om,'i','l','n','k'),'k-1-l','i'), what='matrix (%s) times reversed vector'%om))
                o.append(Ob('vmr_%s_%s'%(om,t), Z2, 'DV(%s,u,c,m) DV(%s,v,a,k) '%(t,t)+M(t,om,'w','b','k','m')+'u=prod(v(Domain<1>(k-1,-1,k)),w);', sp2%('k-1-l',ix(om,'l','j','k','m'),'j'), what='reversed vector times matrix (%s)'%om))
                o.append(Ob('mvd_%s_%s'%(om,t), Z1, 'DV(%s,u,c,n) '%t+M(t,om,'v','a','n','k')+'DV(%s,w,b,k) u(Domain<1>(n-1,-1,n))=prod(v,w);'%t, sp1%(ix(om,'i','l','n','k'),'l','n-1-i'), what='matrix (%s) times vector into a reversed vector'%om))
                o.append(Ob('mrv_%s_%s'%(om,t), Z1, 'DV(%s,u,c,n) '%t+M(t,om,'v','a','n','k')+'DV(%s,w,b,k) u=prod(v(Domain<2>(Domain<1>(n-1,-1,n),k)),w);'%t, sp1%(ix(om,'n-1-i','l','n','k'),'l','i'), what='row-reversed matrix (%s) times vector'%om))
                o.append(Ob('mcv_%s_%s'%(om,t), Z1, 'DV(%s,u,c,n) '%t+M(t,om,'v','a','n','k')+'DV(%s,w,b,k) u=prod(v(Domain<2>(n,Domain<1>(k-1,-1,k))),w);'%t, sp1%(ix(om,'i','k-1-l','n','k'),'l','i'), what='column-reversed matrix (%s) times vector'%om))
                if t=='float':
                    A = [PT(t,'c'),PT(t,'a'),PT(t,'b')]+Z
                    sp = 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) { %s r=0; for (length_type l=0;l<k;++l) r+=a[%%s]*b[%%s]; c[%%s]=r; }' % t
                    o.append(Ob('mmr_%s_%s'%(om,t), A, M(t,om,'u','c','n','m')+M(t,om,'v','a','n','k')+M(t,om,'w','b','k','m')+'u=prod(v(Domain<2>(Domain<1>(n-1,-1,n),k)),w);',
                       sp % (ix(om,'n-1-i','l','n','k'),ix(om,'l','j','k','m'),ix(om,'i','j','n','m')), what='product of a row-reversed matrix (%s)'%om))
                    o.append(Ob('mmc_%s_%s'%(om,t), A, M(t,om,'u','c','n','m')+M(t,om,'v','a','n','k')+M(t,om,'w','b','k','m')+'u=prod(v,w(Domain<2>(k,Domain<1>(m-1,-1,m))));',
                       sp % (ix(om,'i','l','n','k'),ix(om,'l','m-1-j','k','m'),ix(om,'i','j','n','m')), what='product with a column-reversed matrix (%s)'%om))
    tu += chunks(o, 10, 'm05mv', PB); o = []
    # ---- generic paths (int), prod3/prod4, prodh/prodj/prodt
    Z = [('length_type','n','r(1,3)'),('length_type','m','r(1,3)'),('length_type','k','r(1,3)')]
    sp = 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) { %s r=0; for (length_type l=0;l<k;++l) r+=%s*%s; c[i*m+j]=r; }'
    for t in ('int','float','cfloat'):
        A = [PT(t,'c'),PT(t,'a'),PT(t,'b')]+Z; G = 'MW(%s,u,c,n,m,m,1) MW(%s,v,a,n,k,k,1) '%(t,t)
        o.append(Ob('gmm_'+t, A, G+'MW(%s,w,b,k,m,m,1) u=prod(v,w);'%t, sp%(t,'a[i*k+l]','b[l*m+j]'), what='generic matrix product'))
        o.append(Ob('gmt_'+t, A, G+'MW(%s,w,b,m,k,k,1) u=prodt(v,w);'%t, sp%(t,'a[i*k+l]','b[j*k+l]'), what='product with transpose'))
        o.append(Ob('gmv_'+t, [PT(t,'c'),PT(t,'a'),PT(t,'b'),Z[0],Z[2],S('s'),S('q')], 'VW(%s,u,c,n,s) MW(%s,v,a,n,k,k,1) VW(%s,w,b,k,q) u=prod(v,w);'%(t,t,t), 'for (length_type i=0;i<n;++i) { %s r=0; for (length_type l=0;l<k;++l) r+=a[i*k+l]*b[(stride_type)l*q]; c[(stride_type)i*s]=r; }'%t, what='generic matrix-vector product'))
        o.append(Ob('gvm_'+t, [PT(t,'c'),PT(t,'a'),PT(t,'b'),Z[1],Z[2],S('s'),S('q')], 'VW(%s,u,c,m,s) VW(%s,v,a,k,q) MW(%s,w,b,k,m,m,1) u=prod(v,w);'%(t,t,t), 'for (length_type j=0;j<m;++j) { %s r=0; for (length_type l=0;l<k;++l) r+=a[(stride_type)l*q]*b[l*m+j]; c[(stride_type)j*s]=r; }'%t, what='generic vector-matrix product'))
        D = 'DM(%s,row2_type,u,c,n,m) DM(%s,row2_type,v,a,n,k) '%(t,t)
        o.append(Ob('dmt_'+t, A, D+'DM(%s,row2_type,w,b,m,k) u=prodt(v,w);'%t, sp%(t,'a[i*k+l]','b[j*k+l]'), what='dense product with transpose'))
        if t=='cfloat':
            for nm,g in (('g',G),('d',D)):
                X = 'MW(%s,w,b,%%s,%%s,%%s,1) '%t if nm=='g' else 'DM(%s,row2_type,w,b,%%s,%%s) '%t
                o.append(Ob(nm+'mh_'+t, A, g+(X%('m','k','k') if nm=='g' else X%('m','k'))+'u=prodh(v,w);', sp%(t,'a[i*k+l]','std::conj(b[j*k+l])'), what='product with Hermitian transpose'))
                o.append(Ob(nm+'mj_'+t, A, g+(X%('k','m','m') if nm=='g' else X%('k','m'))+'u=prodj(v,w);', sp%(t,'a[i*k+l]','std::conj(b[l*m+j])'), what='product with conjugate'))
        if t!='int':
          for d in (3,4):
            o.append(Ob('p%dmm_%s'%(d,t), [PT(t,'c'),PT(t,'a'),PT(t,'b'),Z[1]], 'DM(%s,row2_type,u,c,%d,m) DM(%s,row2_type,v,a,%d,%d) DM(%s,row2_type,w,b,%d,m) u=prod%d(v,w);'%(t,d,t,d,d,t,d,d), 'length_type n=%d,k=%d; '%(d,d)+sp%(t,'a[i*k+l]','b[l*m+j]'), what='prod%d'%d))
            o.append(Ob('p%dmv_%s'%(d,t), [PT(t,'c'),PT(t,'a'),PT(t,'b')], 'DV(%s,u,c,%d) DM(%s,row2_type,v,a,%d,%d) DV(%s,w,b,%d) u=prod%d(v,w);'%(t,d,t,d,d,t,d,d), 'for (length_type i=0;i<%d;++i) { %s r=0; for (length_type l=0;l<%d;++l) r+=a[i*%d+l]*b[l]; c[i]=r; }'%(d,t,d,d), what='prod%d with a vector'%d))
    tu += chunks(o, 10, 'm05g', PB); o = []
    # ---- gemp / gems
    OPS = {'n':('mat_ntrans',0,0),'t':('mat_trans',1,0),'h':('mat_herm',1,1),'c':('mat_conj',0,1)}
    def el(op, oo, arr, i, j, R, C, t):
        tr, cj = OPS[op][1:]
        e = '%s[%s]' % (arr, ix(oo, j, i, C, R) if tr else ix(oo, i, j, R, C))
        return 'std::conj(%s)' % e if cj and t[0]=='c' else e
    for t in ('float','cfloat'):
        for pa in 'nthc':
            for pb in 'nthc':
                for oa,ob,oc in (('r','r','r'),('r','r','c'),('c','r','r')) if t=='float' else (('r','r','r'),):
                    da = ('k','n') if OPS[pa][1] else ('n','k'); db = ('m','k') if OPS[pb][1] else ('k','m')
                    al = [('float','ar',''),('float','br','')]
                    o.append(Ob('gemp_%s%s_%s%s%s_%s'%(pa,pb,oa,ob,oc,t), [PT(t,'c'),PT(t,'a'),PT(t,'b')]+al+Z, '%s alpha(ar), beta(br); '%t+M(t,oc,'u','c','n','m')+M(t,oa,'v','a',*da)+M(t,ob,'w','b',*db)+'gemp<%s,%s>(alpha,v,w,beta,u);'%(OPS[pa][0],OPS[pb][0]),
                      'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) { %s r=0; for (length_type l=0;l<k;++l) r+=%s*%s; c[%s]=ar*r+br*c[%s]; }'%(t,el(pa,oa,'a','i','l','n','k',t),el(pb,ob,'b','l','j','k','m',t),ix(oc,'i','j','n','m'),ix(oc,'i','j','n','m')), what='gemp<%s,%s> over %s (%s%s%s)'%(OPS[pa][0],OPS[pb][0],t,oa,ob,oc), n=12))
    for oc in 'rc':
        t='float'
        o.append(Ob('gemps_'+oc, [PT(t,'c'),PT(t,'a'),PT(t,'b'),('float','ar',''),('float','br','')]+Z+[('stride_type','p','ch([1,1,2])'),('stride_type','q','ch([1,1,2])')], M(t,oc,'u','c','n','m','p','q')+M(t,oc,'v','a','n','k')+M(t,oc,'w','b','k','m')+'gemp<mat_ntrans,mat_ntrans>(ar,v,w,br,u);',
            'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) { float r=0; for (length_type l=0;l<k;++l) r+=a[%s]*b[%s]; c[%s]=ar*r+br*c[%s]; }'%(ix(oc,'i','l','n','k'),ix(oc,'l','j','k','m'),ix(oc,'i','j','n','m','p','q'),ix(oc,'i','j','n','m','p','q')), n=40, what='gemp into a strided sub-domain'))
    for t in ('float','cfloat'):
        for pa in 'nthc':
            for oa,oc in (('r','r'),('c','r')):
                da = ('m','n') if OPS[pa][1] else ('n','m')
                o.append(Ob('gems_%s_%s%s_%s'%(pa,oa,oc,t), [PT(t,'c'),PT(t,'a'),('float','ar',''),('float','br','')]+Z[:2], '%s alpha(ar), beta(br); '%t+M(t,oc,'u','c','n','m')+M(t,oa,'v','a',*da)+'gems<%s>(alpha,v,beta,u);'%OPS[pa][0],
                    'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) c[%s]=ar*%s+br*c[%s];'%(ix(oc,'i','j','n','m'),el(pa,oa,'a','i','j','n','m',t),ix(oc,'i','j','n','m')), what='gems<%s> over %s (%s%s)'%(OPS[pa][0],t,oa,oc), n=12))
    tu += chunks(o, 12, 'm05ge', PB); o = []
    # ---- outer, kron, trans, herm, cumsum, modulate
    for t in ('float','cfloat','int','double'):
        cj = 'std::conj(%s)' if t[0]=='c' else '%s'
        o.append(Ob('outer_d_'+t, [PT(t,'c'),PT(t,'a'),PT(t,'b'),N('n',1,4),N('m',1,4),('float' if t!='int' else 'int','al','r(-3,3)')], 'DM(%s,row2_type,u,c,n,m) DV(%s,v,a,n) DV(%s,w,b,m) u=outer(%s(al),v,w);'%(t,t,t,t), 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) c[i*m+j]=%s(al)*a[i]*%s;'%(t,cj%'b[j]'), what='outer product of dense %s vectors'%t))
        o.append(Ob('outer_w_'+t, [PT(t,'c'),PT(t,'a'),PT(t,'b'),N('n',1,4),N('m',1,4),S('s'),S('q'),('float' if t!='int' else 'int','al','r(-3,3)')], 'DM(%s,row2_type,u,c,n,m) VW(%s,v,a,n,s) VW(%s,w,b,m,q) u=outer(%s(al),v,w);'%(t,t,t,t), 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) c[i*m+j]=%s(al)*a[(stride_type)i*s]*%s;'%(t,cj%'b[(stride_type)j*q]'), what='outer product of strided %s vectors'%t))
        o.append(Ob('outer_s_'+t, [PT(t,'c'),PT(t,'a'),PT(t,'b'),N('n',1,4),N('m',1,4),('stride_type','s','ch([1,1,2])'),('stride_type','q','ch([1,1,2])'),('float' if t!='int' else 'int','al','r(-3,3)')], 'DM(%s,row2_type,u,c,n,m) DV(%s,v,a,n*s) DV(%s,w,b,m*q) u=outer(%s(al),v(Domain<1>(0,s,n)),w(Domain<1>(0,q,m)));'%(t,t,t,t), 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) c[i*m+j]=%s(al)*a[i*s]*%s;'%(t,cj%'b[j*q]'), what='outer product of strided sub-domains of dense %s vectors'%t))
        for o2 in 'rc':
            o.append(Ob('trans_%s_%s'%(o2,t), [PT(t,'c'),PT(t,'a'),N('n',1,4),N('m',1,4)], M(t,'r','u','c','m','n')+M(t,o2,'v','a','n','m')+'u=trans(v);', 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) c[j*n+i]=a[%s];'%ix(o2,'i','j','n','m'), what='trans'))
            if t[0]=='c': o.append(Ob('herm_%s_%s'%(o2,t), [PT(t,'c'),PT(t,'a'),N('n',1,4),N('m',1,4)], M(t,'r','u','c','m','n')+M(t,o2,'v','a','n','m')+'u=herm(v);', 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) c[j*n+i]=std::conj(a[%s]);'%ix(o2,'i','j','n','m'), what='herm'))
    for t in ('float','cfloat'):
        o.append(Ob('kronv_'+t, [PT(t,'c'),PT(t,'a'),PT(t,'b'),N('n',1,3),N('m',1,3),S('s'),S('q'),('float','al','')], 'DM(%s,row2_type,u,c,m,n) VW(%s,v,a,n,s) VW(%s,w,b,m,q) u=kron(%s(al),v,w);'%(t,t,t,t), 'for (length_type i=0;i<m;++i) for (length_type j=0;j<n;++j) c[i*n+j]=al*b[(stride_type)i*q]*a[(stride_type)j*s];', what='Kronecker product of vectors'))
        o.append(Ob('kronm_'+t, [PT(t,'c'),PT(t,'a'),PT(t,'b'),N('n',1,3),N('k',1,3),('float','al','')], 'length_type const m=2,l=3; DM(%s,row2_type,u,c,n*k,m*l) MW(%s,v,a,n,m,m,1) MW(%s,w,b,k,l,l,1) u=kron(%s(al),v,w);'%(t,t,t,t), 'length_type const m=2,l=3; for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) for (length_type x=0;x<k;++x) for (length_type y=0;y<l;++y) c[(i*k+x)*(m*l)+j*l+y]=al*a[i*m+j]*b[x*l+y];', what='Kronecker product of matrices', n=10))
    for t in ('float','cfloat','int'):
        o.append(Ob('cums_v_'+t, [PT(t,'c'),PT(t,'a'),N(),S('s'),S('q')], 'VW(%s,u,c,n,s) VW(%s,v,a,n,q) cumsum<0>(v,u);'%(t,t), '%s r=0; for (length_type i=0;i<n;++i) { r+=a[(stride_type)i*q]; c[(stride_type)i*s]=r; }'%t, what='cumulative sum of a vector'))
        o.append(Ob('cums_0_'+t, [PT(t,'c'),PT(t,'a'),N('n',0,4),N('m',0,4)], 'MW(%s,u,c,n,m,m,1) MW(%s,v,a,n,m,m,1) cumsum<0>(v,u);'%(t,t), 'for (length_type i=0;i<n;++i) { %s r=0; for (length_type j=0;j<m;++j) { r+=a[i*m+j]; c[i*m+j]=r; } }'%t, what='cumulative sum along rows'))
        o.append(Ob('cums_1_'+t, [PT(t,'c'),PT(t,'a'),N('n',0,4),N('m',0,4)], 'MW(%s,u,c,n,m,m,1) MW(%s,v,a,n,m,m,1) cumsum<1>(v,u);'%(t,t), 'for (length_type j=0;j<m;++j) { %s r=0; for (length_type i=0;i<n;++i) { r+=a[i*m+j]; c[i*m+j]=r; } }'%t, what='cumulative sum along columns'))
    for t in ('float','cfloat'):
        o.append(Ob('modulate_'+t, [PT('cfloat','c'),PT(t,'a'),N(),S('s'),S('q'),('float','nu','fr(-1,1)'),('float','phi','fr(-1,1)')], 'VW(cfloat,u,c,n,s) VW(%s,v,a,n,q) return modulate(v,nu,phi,u);'%t, 'for (length_type i=0;i<n;++i) { float p=i*nu+phi; cfloat e=std::exp(cfloat(0,p)); c[(stride_type)i*s]=a[(stride_type)i*q]*e; } return n*nu+phi;', ret='float', what='modulation by a complex frequency'))
    tu += chunks(o, 12, 'm05o', PB)
    return tu
