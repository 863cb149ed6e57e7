"""Sub-views: rows, columns, diagonals, transposes, sub-domains, fixed-index slices and real/imaginary
components of a view refer to exactly the parent elements their definition names, for reading and for writing."""
from vp import *
I1 = [('index_type','f','r(0,3)'),('stride_type','st','ch([1,2,3])'),('length_type','l','r(0,3)')]
def tus(tier):
    o = []; 
    def add(nm, args, i, s, what, ret='void', **kw): o.append(Ob(nm, args, i, s, ret=ret, what=what, **kw))
    FA = ('float*','a','')
    VA = [FA, N('n',1,6), S('sa')]
    add('v_get', VA+[('index_type','i','r(0,5)')], 'VW(float,v,a,n,sa) return v.get(i);', 'return a[(stride_type)i*sa];', 'Vector::get', 'float')
    add('v_put', VA+[('index_type','i','r(0,5)')], 'VW(float,v,a,n,sa) v.put(i,3.f);', 'a[(stride_type)i*sa]=3.f;', 'Vector::put')
    add('v_idx', VA+[('index_type','i','r(0,5)')], 'VW(float,v,a,n,sa) v(i)+=3.f; v(i)*=2.f;', 'a[(stride_type)i*sa]=(a[(stride_type)i*sa]+3.f)*2.f;', 'Vector::operator()(i) proxy compound assignment')
    add('v_sub', VA+I1, 'VW(float,v,a,n,sa) v(Domain<1>(f,st,l))=7.f;', 'for (length_type i=0;i<l;++i) a[(stride_type)(f+i*st)*sa]=7.f;', 'Vector sub-domain write')
    add('v_subneg', VA+[('index_type','f','r(6,9)'),('length_type','l','r(0,3)')], 'VW(float,v,a,n,sa) v(Domain<1>(f,-2,l))=7.f;', 'for (length_type i=0;i<l;++i) a[((stride_type)f-2*(stride_type)i)*sa]=7.f;', 'Vector sub-domain with negative stride')
    add('v_subget', VA+I1+[('index_type','i','r(0,2)')], 'VW(float,v,a,n,sa) return v.get(Domain<1>(f,st,l)).get(i);', 'return a[(stride_type)(f+i*st)*sa];', 'Vector::get(Domain)', 'float')
    add('v_subsub', VA+I1+[('index_type','g','r(0,2)'),('stride_type','su','ch([1,2])'),('length_type','k','r(0,3)')], 'VW(float,v,a,n,sa) v(Domain<1>(f,st,l))(Domain<1>(g,su,k))=7.f;', 'for (length_type i=0;i<k;++i) a[(stride_type)(f+(g+i*su)*st)*sa]=7.f;', 'nested Vector sub-domains')
    add('v_size', VA+I1, 'VW(float,v,a,n,sa) return v(Domain<1>(f,st,l)).size()*1000+v.size()*10+v(Domain<1>(f,st,l)).size(0)+v.length()*100000;', 'return l*1000+n*10+l+n*100000;', 'Vector sizes', 'length_type')
    add('v_copyctor', VA+[('index_type','i','r(0,5)')], 'VW(float,v,a,n,sa) Vector<float,Blk<1,float> > w(v); w.put(i,3.f);', 'a[(stride_type)i*sa]=3.f;', 'view copies are references to the same block')
    MA = [FA, N('n',1,4), N('m',1,4), S('s','ch([5,7,-6])'), S('t','ch([1,2,-1])')]
    E = lambda i,j: 'a[(stride_type)(%s)*s+(stride_type)(%s)*t]' % (i,j)
    M = 'MW(float,v,a,n,s,m,t) '
    ij = [('index_type','i','r(0,3)'),('index_type','j','r(0,3)')]
    add('m_get', MA+ij, M+'return v.get(i,j);', 'return %s;' % E('i','j'), 'Matrix::get', 'float')
    add('m_put', MA+ij, M+'v.put(i,j,2.f); v(i,j)-=3.f;', '%s=-1.f;' % E('i','j'), 'Matrix::put and element proxy')
    add('m_row', MA+[('index_type','r','r(0,3)')], M+'v.row(r)=2.f;', 'for (length_type j=0;j<m;++j) %s=2.f;' % E('r','j'), 'Matrix::row write')
    add('m_col', MA+[('index_type','r','r(0,3)')], M+'v.col(r)=2.f;', 'for (length_type j=0;j<n;++j) %s=2.f;' % E('j','r'), 'Matrix::col write')
    add('m_rowget', MA+ij, M+'const_Matrix<float,Blk<2,float> > c(v); return c.row(i).get(j)*2.f+c.col(j).get(i)+c.row(i).size()*100.f+c.col(i).size()*10000.f;', 'return 3*%s+m*100.f+n*10000.f;' % E('i','j'), 'const row/col read', 'float')
    add('m_rowcolsub', MA+[('index_type','r','r(0,3)')]+I1, M+'v.row(r)(Domain<1>(f,st,l))=2.f;', 'for (length_type j=0;j<l;++j) %s=2.f;' % E('r','f+j*st'), 'sub-domain of a row')
    add('m_colsub', MA+[('index_type','r','r(0,3)')]+I1, M+'v.col(r)(Domain<1>(f,st,l))=2.f;', 'for (length_type j=0;j<l;++j) %s=2.f;' % E('f+j*st','r'), 'sub-domain of a column')
    for d in ('0','dd'):
        add('m_diag'+d, MA+([('stride_type','dd','r(-2,2)')] if d=='dd' else []), M+'v.diag(%s)=2.f;' % d,
            'stride_type d=%s; length_type k = d>=0 ? ((stride_type)m-d<0?0:(n<m-d?n:m-d)) : ((stride_type)n+d<0?0:(n+d<m?n+d:m)); for (length_type j=0;j<k;++j) %s=2.f;' % (d,E('j+(d<0?-d:0)','j+(d>0?d:0)')), 'Matrix::diag write', where='abs(dd)<min(n,m)' if d=='dd' else None)
    add('m_diagget', MA+ij+[('stride_type','d','r(-2,2)')], M+'const_Matrix<float,Blk<2,float> > c(v); return c.diag(d).get(i);', 'return %s;' % E('(stride_type)i+(d<0?-d:0)','(stride_type)i+(d>0?d:0)'), 'const diag read', 'float')
    add('m_trans', MA+ij, M+'v.transpose().put(i,j,4.f);', '%s=4.f;' % E('j','i'), 'transposed write')
    add('m_transsz', MA, M+'return v.transpose().size(0)*100+v.transpose().size(1)+v.size(0)*10000+v.size(1)*1000000;', 'return m*100+n+n*10000+m*1000000;', 'transposed sizes', 'length_type')
    add('m_transrow', MA+[('index_type','r','r(0,3)')], M+'v.transpose().row(r)=2.f;', 'for (length_type j=0;j<n;++j) %s=2.f;' % E('j','r'), 'row of a transpose')
    add('m_transtrans', MA+ij, M+'v.transpose().transpose().put(i,j,4.f);', '%s=4.f;' % E('i','j'), 'double transpose')
    D2 = [('index_type','f','r(0,2)'),('stride_type','st','ch([1,2])'),('length_type','l','r(0,3)'),('index_type','g','r(0,2)'),('stride_type','su','ch([1,3])'),('length_type','k','r(0,3)')]
    dd = 'Domain<2>(Domain<1>(f,st,l),Domain<1>(g,su,k))'
    add('m_sub', MA+D2, M+'v(%s)=2.f;' % dd, 'for (length_type i=0;i<l;++i) for (length_type j=0;j<k;++j) %s=2.f;' % E('f+i*st','g+j*su'), 'Matrix sub-domain write')
    add('m_subget', MA+D2+ij, M+'return v.get(%s).get(i,j)+v(%s).size(0)*1000.f+v(%s).size(1)*100000.f;' % (dd,dd,dd), 'return %s+l*1000.f+k*100000.f;' % E('f+i*st','g+j*su'), 'Matrix::get(Domain)', 'float')
    add('m_subtrans', MA+D2+ij, M+'v(%s).transpose().put(i,j,1.f);' % dd, '%s=1.f;' % E('f+j*st','g+i*su'), 'transpose of a sub-domain')
    add('m_transsub', MA+D2+ij, M+'v.transpose()(%s).put(i,j,1.f);' % dd, '%s=1.f;' % E('g+j*su','f+i*st'), 'sub-domain of a transpose')
    add('m_subrow', MA+D2+[('index_type','r','r(0,2)')], M+'v(%s).row(r)=1.f;' % dd, 'for (length_type j=0;j<k;++j) %s=1.f;' % E('f+r*st','g+j*su'), 'row of a sub-domain')
    add('m_subdiag', MA+D2, M+'v(%s).diag()=1.f;' % dd, 'for (length_type j=0;j<(l<k?l:k);++j) %s=1.f;' % E('f+j*st','g+j*su'), 'diagonal of a sub-domain')
    # extents over a wide range of shapes and offsets
    WA=[FA,N('n',1,40),N('m',1,40)]; MD='MW(float,v,a,n,(stride_type)m,m,1) '
    add('z_diag', WA+[('stride_type','d','r(1-n,m-1)')], MD+'return v.diag(d).size()*1000+v.diag(d).size(0);', 'length_type q=d<0?(n+d<m?n+d:m):(m-d<n?m-d:n); return q*1000+q;', 'length of a diagonal', 'length_type', n=200)
    add('z_cdiag', WA+[('stride_type','d','r(1-n,m-1)')], 'DM(float,row2_type,v,a,n,m) const_Matrix<float> c(v); return c.transpose().diag(-d).size()*1000+c.diag(d).size();', 'length_type q=d<0?(n+d<m?n+d:m):(m-d<n?m-d:n); return q*1000+q;', 'length of a diagonal of a const transposed view', 'length_type', n=200)
    add('z_sub', WA+[('index_type','f','r(0,9)'),('stride_type','st','ch([1,2,3])'),('length_type','l','r(0,12)'),('length_type','k','r(0,12)')], MD+'return v(Domain<2>(Domain<1>(f,st,l),Domain<1>(f,1,k))).size()+1000*v(Domain<2>(Domain<1>(f,st,l),Domain<1>(f,1,k))).size(0)+1000000*v(Domain<2>(Domain<1>(f,st,l),Domain<1>(f,1,k))).transpose().size(0);', 'return l*k+1000*l+1000000*k;', 'extents of a sub-domain', 'length_type', n=100)
    tu = [TU('v01m', P, o)]; o = []
    # complex components
    CA = [('cfloat*','a',''), N('n',1,5), S('sa')]
    add('c_realget', CA+[('index_type','i','r(0,4)')], 'VW(cfloat,v,a,n,sa) return v.real().get(i)+10.f*v.imag().get(i);', 'return a[(stride_type)i*sa].real()+10.f*a[(stride_type)i*sa].imag();', 'real()/imag() read', 'float')
    add('c_realput', CA, 'VW(cfloat,v,a,n,sa) v.real()=2.f;', 'for (length_type i=0;i<n;++i) a[(stride_type)i*sa]=cfloat(2.f,a[(stride_type)i*sa].imag());', 'real() write leaves the imaginary part')
    add('c_imagput', CA, 'VW(cfloat,v,a,n,sa) v.imag()=2.f;', 'for (length_type i=0;i<n;++i) a[(stride_type)i*sa]=cfloat(a[(stride_type)i*sa].real(),2.f);', 'imag() write leaves the real part')
    add('c_swap', CA+[('cfloat*','b','')], 'VW(cfloat,v,a,n,sa) VW(cfloat,w,b,n,1) v.imag()=w.real(); v.real()=w.imag();', 'for (length_type i=0;i<n;++i) a[(stride_type)i*sa]=cfloat(b[i].imag(),b[i].real());', 'component to component assignment')
    add('c_mreal', [('cfloat*','a',''), N('n',1,4), N('m',1,4)], 'DM(cfloat,row2_type,v,a,n,m) v.imag()=v.real()*2.f;', 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) a[i*m+j]=cfloat(a[i*m+j].real(),2.f*a[i*m+j].real());', 'components of a dense matrix')
    add('c_dreal', [('cfloat*','a',''), N('n',1,4)]+[('float*','b','')], 'DV(cfloat,v,a,n) DV(float,w,b,n) w=v.real()-v.imag(); v.real()=w;', 'for (length_type i=0;i<n;++i) {b[i]=a[i].real()-a[i].imag(); a[i]=cfloat(b[i],a[i].imag());}', 'components of a dense vector')
    add('c_subreal', CA+I1, 'VW(cfloat,v,a,n,sa) v(Domain<1>(f,st,l)).imag()=2.f;', 'for (length_type i=0;i<l;++i) a[(stride_type)(f+i*st)*sa]=cfloat(a[(stride_type)(f+i*st)*sa].real(),2.f);', 'imag of a sub-domain')
    add('c_idx', CA+[('index_type','i','r(0,4)')], 'VW(cfloat,v,a,n,sa) v(i)=cfloat(1.f,2.f); v(i)*=cfloat(0.f,1.f);', 'a[(stride_type)i*sa]=cfloat(-2.f,1.f);', 'complex element proxy')
    # dense blocks of all orders
    for O,ix in [('row2_type','i*m+j'),('col2_type','j*n+i')]:
        D = 'DM(float,%s,v,a,n,m) ' % O
        DA = [FA,N('n',1,4),N('m',1,4)]
        E2 = lambda i,j: 'a[%s]' % (('(%s)*m+(%s)' if O[0]=='r' else '(%s)+(%s)*n') % (i,j))
        add('d_%s_put'%O, DA+ij, D+'v.put(i,j,2.f); v(i,j)+=3.f;', '%s=5.f;' % E2('i','j'), 'dense %s element' % O)
        add('d_%s_row'%O, DA+[('index_type','r','r(0,3)')], D+'v.row(r)=2.f;', 'for (length_type j=0;j<m;++j) %s=2.f;' % E2('r','j'), 'row of dense %s' % O)
        add('d_%s_col'%O, DA+[('index_type','r','r(0,3)')], D+'v.col(r)=v.col(0)+1.f;', 'for (length_type j=0;j<n;++j) %s=%s+1.f;' % (E2('j','r'),E2('j','0')), 'column of dense %s' % O)
        add('d_%s_diag'%O, DA+[('index_type','d','r(0,3)')], D+'v.diag(d)=2.f;', 'length_type k=n<m-d?n:m-d; for (length_type j=0;j<k;++j) %s=2.f;' % E2('j','j+d'), 'diagonal of dense %s' % O, where='d<m')
        add('d_%s_sub'%O, DA+D2, D+'v(%s)=v(%s)*2.f;' % (dd,dd), 'for (length_type i=0;i<l;++i) for (length_type j=0;j<k;++j) %s=2*%s;' % (E2('f+i*st','g+j*su'),E2('f+i*st','g+j*su')), 'sub-domain of dense %s' % O)
        add('d_%s_rowcopy'%O, DA+[('index_type','r','r(0,3)'),('float*','b','')], D+'DV(float,w,b,m) w=v.row(r); v.row(0)=w;', 'for (length_type j=0;j<m;++j) {b[j]=%s; } for (length_type j=0;j<m;++j) %s=b[j];' % (E2('r','j'),E2('0','j')), 'row copies of dense %s' % O)
    tu.append(TU('v01c', P, o)); o = []
    # tensors
    TA = [FA,N('n',1,3),N('m',1,3),N('p',1,3),S('s','ch([30,-31])'),S('t','ch([7,6])'),S('u','ch([1,2,-1])')]
    E3 = lambda i,j,k: 'a[(stride_type)(%s)*s+(stride_type)(%s)*t+(stride_type)(%s)*u]' % (i,j,k)
    T3 = 'TW(float,v,a,n,s,m,t,p,u) '
    wd = 'v.whole_domain'
    ijk = [('index_type','i','r(0,2)'),('index_type','j','r(0,2)'),('index_type','k','r(0,2)')]
    add('t_get', TA+ijk, T3+'return v.get(i,j,k);', 'return %s;' % E3('i','j','k'), 'Tensor::get', 'float')
    add('t_put', TA+ijk, T3+'v.put(i,j,k,2.f); v(i,j,k)*=3.f;', '%s=6.f;' % E3('i','j','k'), 'Tensor::put and proxy')
    W = 'whole_domain'
    sh = {'i':'n','j':'m','k':'p'}
    for fix in ('i','j','k','ij','ik','jk'):
        args = [('index_type',c,'r(0,2)') for c in fix]
        call = ','.join(c if c in fix else W for c in 'ijk')
        free = [c for c in 'ijk' if c not in fix]
        spec = ''.join('for (length_type %s=0;%s<%s;++%s) ' % (c,c,sh[c],c) for c in free) + '%s=2.f;' % E3('i','j','k')
        add('t_slice_'+fix, TA+args, T3+'v(%s)=2.f;' % call, spec, 'Tensor slice fixing %s' % fix)
        call2 = ','.join(c if c in fix else 'Domain<1>(f%s,2,l%s)' % (c,c) for c in 'ijk')
        args2 = args + sum([[('index_type','f'+c,'r(0,1)'),('length_type','l'+c,'r(0,2)')] for c in free],[])
        spec2 = ''.join('for (length_type %s=0;%s<l%s;++%s) ' % (c,c,c,c) for c in free) + '%s=2.f;' % E3(*[c if c in fix else 'f%s+2*%s' % (c,c) for c in 'ijk'])
        add('t_dslice_'+fix, TA+args2, T3+'v(%s)=2.f;' % call2, spec2, 'Tensor sub-domain slice fixing %s' % fix)
        add('t_cslice_'+fix, TA+ijk, T3+'const_Tensor<float,Blk<3,float> > c(v); return c(%s).get(%s)+%s;' % (call, ','.join(free), '+'.join('c(%s).size(%d)*%g' % (call,q,1000.*10**q) for q in range(len(free)))), 'return %s+%s;' % (E3('i','j','k'), '+'.join('%s*%g' % (sh[c],1000.*10**q) for q,c in enumerate(free))), 'const Tensor slice fixing %s' % fix, 'float')
    add('t_sub', TA+[('index_type','f','r(0,2)'),('index_type','g','r(0,2)'),('index_type','h','r(0,2)'),('length_type','l','r(0,2)'),('length_type','q','r(0,2)'),('length_type','w','r(0,2)')], T3+'v(Domain<3>(Domain<1>(f,1,l),Domain<1>(g,2,q),Domain<1>(h,3,w)))=2.f;', 'for (length_type i=0;i<l;++i) for (length_type j=0;j<q;++j) for (length_type k=0;k<w;++k) %s=2.f;' % E3('f+i','g+2*j','h+3*k'), 'Tensor sub-domain')
    for a,b,c in [(0,1,2),(0,2,1),(1,0,2),(1,2,0),(2,0,1),(2,1,0)]:
        if (a,b,c) in ((1,2,0),(2,0,1)) : continue
        v = ['i','j','k']; d=[a,b,c]
        src=[None]*3
        for pos,dim in enumerate(d): src[dim]=v[pos]
        add('t_tr_%d%d%d'%(a,b,c), TA+ijk, T3+'v.transpose<%d,%d,%d>().put(i,j,k,2.f);' % (a,b,c), '%s=2.f;' % E3(*src), 'Tensor transpose<%d,%d,%d>' % (a,b,c))
        add('t_trs_%d%d%d'%(a,b,c), TA, T3+'return v.transpose<%d,%d,%d>().size(0)*100+v.transpose<%d,%d,%d>().size(1)*10+v.transpose<%d,%d,%d>().size(2);' % (3*(a,b,c)), 'length_type z[3]={n,m,p}; return z[%d]*100+z[%d]*10+z[%d];' % (a,b,c), 'Tensor transpose<%d,%d,%d> sizes' % (a,b,c), 'length_type')
    ords = ['row3_type','col3_type','tuple<1,0,2>','tuple<0,2,1>','tuple<1,2,0>','tuple<2,0,1>']
    perm = {'row3_type':(0,1,2),'col3_type':(2,1,0),'tuple<1,0,2>':(1,0,2),'tuple<0,2,1>':(0,2,1),'tuple<1,2,0>':(1,2,0),'tuple<2,0,1>':(2,0,1)}
    for A in ords:
        q = perm[A]; z=['n','m','p']; iv=['i','j','k']
        ix = '((%s)*%s+%s)*%s+%s' % (iv[q[0]],z[q[1]],iv[q[1]],z[q[2]],iv[q[2]])
        D='typedef %s OA; DT(float,OA,v,a,n,m,p) ' % A
        DA=[FA,N('n',1,3),N('m',1,3),N('p',1,3)]
        nm='%d%d%d'%q
        add('dt_put_'+nm, DA+ijk, D+'v.put(i,j,k,2.f);', 'a[%s]=2.f;' % ix, 'dense tensor %s element' % A)
        add('dt_sl_'+nm, DA+[('index_type','j','r(0,2)')], D+'v(whole_domain,j,whole_domain)=2.f;', 'for (length_type i=0;i<n;++i) for (length_type k=0;k<p;++k) a[%s]=2.f;' % ix, 'slice of dense tensor %s' % A)
    tu += [TU('v01t%d' % i, P, o[i:i+16]) for i in range(0,len(o),16)]
    return tu
