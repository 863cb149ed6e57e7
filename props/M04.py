"""Index-returning reductions: the returned value is the extremum over all elements of the view and the
returned index names an element attaining it (the first one for vectors)."""
from vp import *
def tus(tier):
    o = []
    R = [('maxval','x','>'),('minval','x','<'),('maxmgval','std::fabs(x)','>'),('minmgval','std::fabs(x)','<')]
    MGC = 'x.real()*x.real()+x.imag()*x.imag()'
    C = [('maxmgval','std::abs(x)','>'),('minmgval','std::abs(x)','<'),('maxmgsqval',MGC,'>'),('minmgsqval',MGC,'<')]
    for t,L in (('float',R),('cfloat',C),('double',R[:2]),('int',R[:2])):
        s = {'cfloat':'float'}.get(t,t)
        for f,e,op in L:
            nm = f+'_'+t
            o.append(Ob('v_'+nm, [PT(t,'a'),N('n',1,6),S('s'),PT('index_type','ix')], 'VW(%s,v,a,n,s) Index<1> i; %s r=%s(v,i); ix[0]=i[0]; return r;' % (t,s,f),
              '%s r; index_type q=0; { %s x=a[0]; r=%s;} for (length_type i=0;i<n;++i) { %s x=a[(stride_type)i*s]; %s y=%s; if (y %s r) { r=y; q=i; } } ix[0]=q; return r;' % (s,t,e,t,s,e,op), ret=s, what='%s of a %s vector: value and first index' % (f,t)))
            for O in ('row2_type','col2_type'):
                ij = 'i*m+j' if O[0]=='r' else 'j*n+i'
                o.append(Ob('m_%s_%s'%(O[:3],nm), [PT(t,'a'),N('n',1,4),N('m',1,4),PT(s,'at')], 'DM(%s,%s,v,a,n,m) Index<2> ix; %s r=%s(v,ix); { index_type i=ix[0], j=ix[1]; %s x=(i<n && j<m) ? a[%s] : %s(77); at[0]=%s; } return r;' % (t,O,s,f,t,ij,t,e),
                  '%s r; { %s x=a[0]; r=%s;} for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) { %s x=a[%s]; %s y=%s; if (y %s r) r=y; } at[0]=r; return r;' % (s,t,e,t,ij,s,e,op), ret=s, what='%s of a %s %s matrix: value, and the element at the returned index attains it' % (f,O,t)))
    tu = [TU('m04v%d'%i, P, o[i:i+13]) for i in range(0,len(o),13)]
    o = []
    ords = {'row3_type':(0,1,2),'col3_type':(2,1,0),'tuple<1,0,2>':(1,0,2),'tuple<0,2,1>':(0,2,1),'tuple<1,2,0>':(1,2,0),'tuple<2,0,1>':(2,0,1)}
    for O,q in ords.items():
        z=['n','m','p']; iv=['i','j','k']; ijk='((%s)*%s+%s)*%s+%s' % (iv[q[0]],z[q[1]],iv[q[1]],z[q[2]],iv[q[2]])
        for t,L in (('float',R),('cfloat',C)):
            for f,e,op in L:
                s='float'
                o.append(Ob('t_%d%d%d_%s_%s'%(q+(f,t)), [PT(t,'a'),N('n',1,3),N('m',1,3),N('p',1,3),PT(s,'at')], 'typedef %s OA; DT(%s,OA,v,a,n,m,p) Index<3> ix; %s r=%s(v,ix); { index_type i=ix[0], j=ix[1], k=ix[2]; %s x=(i<n && j<m && k<p) ? a[%s] : %s(77); at[0]=%s; } return r;' % (O,t,s,f,t,ijk,t,e),
                  '%s r; { %s x=a[0]; r=%s;} for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) for (length_type k=0;k<p;++k) { %s x=a[%s]; %s y=%s; if (y %s r) r=y; } at[0]=r; return r;' % (s,t,e,t,ijk,s,e,op), ret=s, what='%s of a %s tensor stored %s' % (f,t,O)))
    tu += [TU('m04t%d'%i, P, o[i:i+12]) for i in range(0,len(o),12)]
    return tu
