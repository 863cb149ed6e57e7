"""Sum, sum of squares, mean, mean square, all/any reductions over vectors, matrices and tensors in every
storage order equal the reduction of the elements of the view, whatever its length, strides or sub-domain."""
from vp import *
MG = '(x.real()*x.real()+x.imag()*x.imag())'
def fn(t):
    c = t.startswith('c'); s = {'cfloat':'float','cdouble':'double'}.get(t,t)
    l = [('sumval',t,'r+=x;',''),('sumsqval',t,'r+=x*x;','')]
    if t != 'int': l += [('meanval',t,'r+=x;','r/=(%s)cnt;' % s)]
    l += [('meansqval',s,'r+=%s;' % (MG if c else 'x*x'),'r/=(%s)cnt;' % s)]
    return l
def tus(tier):
    o = []
    for t in ('float','double','cfloat','cdouble','int'):
        for f,r,u,fin in fn(t):
            if t=='int' and f=='meansqval': continue
            A = [PT(t,'a'), ('length_type','n','ch([1,2,3,5,4095,4096,4097,8192,9001] if t<12 else [4])') if t in('float','cfloat') else N('n',1,5), S('s','ch([-2,1,2,3])')]
            body = '%s r=0; for (length_type i=0;i<n;++i) { %s x=a[(stride_type)i*s]; %s } length_type cnt=n; %s return r;' % (r,t,u,fin)
            ret = r
            if r in ('cfloat','cdouble'):
                A = A + [PT(r,'out')]; ret='void'
                impl = 'VW(%s,v,a,n,s) out[0]=%s(v);' % (t,f); body = body.replace('return r;','out[0]=r;')
            else: impl = 'VW(%s,v,a,n,s) return %s(v);' % (t,f)
            o.append(Ob('v_%s_%s'%(f,t), A, impl, body, ret=ret, what='%s of a strided %s vector' % (f,t)))
            # dense and dense-strided paths (direct data access)
            A2 = [a for a in A if a[1]!='s']
            def mk(i): return i if ret!='void' else i
            if t in ('float','cfloat'):
                ex = ('out[0]=%s' if ret=='void' else 'return %s')
                o.append(Ob('d_%s_%s'%(f,t), A2, 'DV(%s,v,a,n) %s;' % (t, ex % ('%s(v)'%f)), body.replace('(stride_type)i*s','i'), ret=ret, what='%s of a dense %s vector' % (f,t)))
                o.append(Ob('db_%s_%s'%(f,t), [a if a[1]!='n' else ('length_type','n','[8192,12288,12289,16384,20479][t%5]') for a in A2], 'DV(%s,v,a,n) %s;' % (t, ex % ('%s(v)'%f)), body.replace('(stride_type)i*s','i'), ret=ret, n=5, what='%s of a long dense %s vector, at the boundaries of the blocks it is summed in' % (f,t)))
                o.append(Ob('ds_%s_%s'%(f,t), A2+[('stride_type','q','ch([1,2,3])')], 'DV(%s,v,a,n*q) %s;' % (t, ex % ('%s(v(Domain<1>(0,q,n)))'%f)), body.replace('(stride_type)i*s','i*q'), ret=ret, what='%s of a strided sub-domain of a dense %s vector' % (f,t)))
                o.append(Ob('dx_%s_%s'%(f,t), A2, 'DV(%s,v,a,n) %s;' % (t, ex % ('%s(v+v)'%f)), body.replace('x=a[(stride_type)i*s]','x=a[i]+a[i]'), ret=ret, what='%s of an expression' % f))
    o.append(Ob('col_sumval', [PT('float','a'),('length_type','n','ch([1,3,4096,4500])'),('length_type','m','r(1,2)')], 'DM(float,row2_type,v,a,n,m) return sumval(v.col(0));', 'float r=0; for (length_type i=0;i<n;++i) r+=a[i*m]; return r;', ret='float', n=10, what='sum of a matrix column'))
    tu = [TU('m03v%d'%i, P, o[i:i+11]) for i in range(0,len(o),11)]
    o = []
    for O,ix in [('row2_type','i*m+j'),('col2_type','j*n+i')]:
        for t in ('float','cfloat','double'):
            for f,r,u,fin in fn(t):
                out = r=='cfloat'
                A = [PT(t,'a'),N('n',1,4),N('m',1,4)] + ([PT(r,'out')] if out else [])
                o.append(Ob('m_%s_%s_%s'%(O[:3],f,t), A, 'DM(%s,%s,v,a,n,m) %s%s(v);' % (t,O,'out[0]=' if out else 'return ',f),
                   '%s r=0; for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) { %s x=a[%s]; %s } length_type cnt=n*m; %s %s' % (r,t,ix,u,fin,'out[0]=r;' if out else 'return r;'), ret='void' if out else r, what='%s of a %s matrix' % (f,O)))
    ords = {'row3_type':(0,1,2),'col3_type':(2,1,0),'tuple<1,0,2>':(1,0,2),'tuple<0,2,1>':(0,2,1),'tuple<1,2,0>':(1,2,0),'tuple<2,0,1>':(2,0,1)}
    for O,q in ords.items():
        z=['n','m','p']; iv=['i','j','k']; ix='((%s)*%s+%s)*%s+%s' % (iv[q[0]],z[q[1]],iv[q[1]],z[q[2]],iv[q[2]])
        for f,r,u,fin in fn('float'):
            o.append(Ob('t_%d%d%d_%s'%(q+(f,)), [PT('float','a'),N('n',1,3),N('m',1,3),N('p',1,3)], 'typedef %s OA; DT(float,OA,v,a,n,m,p) return %s(v);' % (O,f),
              'float r=0; for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) for (length_type k=0;k<p;++k) { float x=a[%s]; %s } length_type cnt=n*m*p; %s return r;' % (ix,u,fin), ret='float', what='%s of a tensor stored %s' % (f,O)))
    L2 = 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) '
    for t in ('bool','int'):
        o.append(Ob('all_v_'+t, [PT(t,'a','{0,1,1,1}' if t=='bool' else '{-1,7,6,15,5}'),N('n',0,4),S('s')], 'VW(%s,v,a,n,s) return alltrue(v);'%t, '%s r=%s; for (length_type i=0;i<n;++i) r=r & a[(stride_type)i*s]; return r;' % (t,'true' if t=='bool' else '~0'), ret=t, what='alltrue'))
        o.append(Ob('any_v_'+t, [PT(t,'a','{0,0,0,1}' if t=='bool' else '{0,-1,1,2,4}'),N('n',0,4),S('s')], 'VW(%s,v,a,n,s) return anytrue(v);'%t, '%s r=0; for (length_type i=0;i<n;++i) r=r | a[(stride_type)i*s]; return r;' % t, ret=t, what='anytrue'))
        o.append(Ob('all_m_'+t, [PT(t,'a','{0,1,1,1,1,1}' if t=='bool' else '{-1,7,6,15,5}'),N('n',0,3),N('m',0,3)], 'DM(%s,row2_type,v,a,n,m) return alltrue(v);'%t, '%s r=%s; %s r=r & a[i*m+j]; return r;' % (t,'true' if t=='bool' else '~0',L2), ret=t, what='alltrue of a matrix'))
        o.append(Ob('any_m_'+t, [PT(t,'a','{0,0,0,0,1}' if t=='bool' else '{0,-1,1,2,4}'),N('n',0,3),N('m',0,3)], 'DM(%s,col2_type,v,a,n,m) return anytrue(v);'%t, '%s r=0; %s r=r | a[j*n+i]; return r;' % (t,L2), ret=t, what='anytrue of a matrix'))
        o.append(Ob('all_t_'+t, [PT(t,'a','{0,1,1,1,1,1}' if t=='bool' else '{-1,7,6,15,5}'),N('n',0,2),N('m',0,2),N('p',0,3)], 'DT(%s,row3_type,v,a,n,m,p) return alltrue(v);'%t, '%s r=%s; for (length_type i=0;i<n*m*p;++i) r=r & a[i]; return r;' % (t,'true' if t=='bool' else '~0'), ret=t, what='alltrue of a tensor'))
        o.append(Ob('any_t_'+t, [PT(t,'a','{0,0,0,0,1}' if t=='bool' else '{0,-1,1,2,4}'),N('n',0,2),N('m',0,2),N('p',0,3)], 'DT(%s,row3_type,v,a,n,m,p) return anytrue(v);'%t, '%s r=0; for (length_type i=0;i<n*m*p;++i) r=r | a[i]; return r;' % t, ret=t, what='anytrue of a tensor'))
    o.append(Ob('sum_bool', [PT('bool','a'),N(),S('s')], 'VW(bool,v,a,n,s) return sumval(v);', 'length_type r=0; for (length_type i=0;i<n;++i) r+=a[(stride_type)i*s]?1:0; return r;', ret='length_type', what='sumval of bool counts the true elements'))
    o.append(Ob('sum_bool_m', [PT('bool','a'),N('n',0,3),N('m',0,3)], 'DM(bool,row2_type,v,a,n,m) return sumval(v);', 'length_type r=0; for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) r+=a[i*m+j]?1:0; return r;', ret='length_type', what='sumval of a bool matrix'))
    tu += [TU('m03m%d'%i, P, o[i:i+18]) for i in range(0,len(o),18)]
    return tu
