"""In-place updates, fills and element access: view op= operand updates exactly the addressed elements with op applied
once, scalars reach every element, element references read and write the element they name, fresh views own fresh
storage, and copies of a view alias the same elements."""
from vp import *
OPS=[('add','+'),('sub','-'),('mul','*'),('div','/')]
def tus(tier):
    o=[]
    types=[('float','float'),('cfloat','cfloat'),('cfloat','float'),('double','double'),('int','int'),('double','float')]
    for t,u in types:
        for nm,op in OPS:
            if op=='/' and t=='int': continue
            d='' if op!='/' else '{1,2,4}'
            if op=='/' and u=='cfloat': d=''
            k='%s_%s_%s'%(nm,t,u)
            A=[PT(t,'a'),PT(u,'b',d),N(),S('s'),S('q')]
            sc=[('float','xr','{1,2,4}'),('float','xi','{1,2,4}')] if u=='cfloat' else [(u,'x','{1,2,4}')]
            dc='cfloat x(xr,xi); ' if u=='cfloat' else ''
            o.append(Ob('v_'+k, A, 'VW(%s,u,a,n,s) VW(%s,v,b,n,q) u %s= v;'%(t,u,op), 'for (length_type i=0;i<n;++i) a[(stride_type)i*s]=a[(stride_type)i*s]%sb[(stride_type)i*q];'%op, what='%s vector %s= %s vector'%(t,op,u)))
            o.append(Ob('vs_'+k, [PT(t,'a'),N(),S('s')]+sc, dc+'VW(%s,u,a,n,s) u %s= x;'%(t,op), dc+'for (length_type i=0;i<n;++i) a[(stride_type)i*s]=a[(stride_type)i*s]%sx;'%op, what='%s vector %s= %s scalar'%(t,op,u)))
            if (t,u) in types[:3]:
                o.append(Ob('dv_'+k, [PT(t,'a'),PT(u,'b',d),N()], 'DV(%s,u,a,n) DV(%s,v,b,n) u %s= v;'%(t,u,op), 'for (length_type i=0;i<n;++i) a[i]=a[i]%sb[i];'%op, what='dense %s vector %s= %s vector'%(t,op,u)))
                o.append(Ob('dvs_'+k, [PT(t,'a'),N()]+sc, dc+'DV(%s,u,a,n) u %s= x;'%(t,op), dc+'for (length_type i=0;i<n;++i) a[i]=a[i]%sx;'%op, what='dense %s vector %s= %s scalar'%(t,op,u)))
                for oo in 'rc':
                    ix={'r':'i*m+j','c':'j*n+i'}
                    for pp in 'rc':
                        o.append(Ob('m_%s%s_%s'%(oo,pp,k), [PT(t,'a'),PT(u,'b',d),N('n',0,3),N('m',0,3)], 'DM(%s,%s2_type,u,a,n,m) DM(%s,%s2_type,v,b,n,m) u %s= v;'%(t,{'r':'row','c':'col'}[oo],u,{'r':'row','c':'col'}[pp],op), 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) a[%s]=a[%s]%sb[%s];'%(ix[oo],ix[oo],op,ix[pp]), what='matrix %s= matrix, orders %s, %s'%(op,oo,pp)))
                    o.append(Ob('ms_%s_%s'%(oo,k), [PT(t,'a'),N('n',0,3),N('m',0,3)]+sc, dc+'DM(%s,%s2_type,u,a,n,m) u %s= x;'%(t,{'r':'row','c':'col'}[oo],op), dc+'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) a[%s]=a[%s]%sx;'%(ix[oo],ix[oo],op), what='matrix %s= scalar, order %s'%(op,oo)))
            if (t,u) in types[:2]:
                o.append(Ob('t_'+k, [PT(t,'a'),PT(u,'b',d),N('n',0,3),N('m',0,3),N('l',0,3)], 'DT(%s,row3_type,u,a,n,m,l) DT(%s,col3_type,v,b,n,m,l) u %s= v;'%(t,u,op), 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) for (length_type k=0;k<l;++k) a[(i*m+j)*l+k]=a[(i*m+j)*l+k]%sb[i+n*(j+m*k)];'%op, what='tensor %s= tensor'%op))
                o.append(Ob('ts_'+k, [PT(t,'a'),N('n',0,3),N('m',0,3),N('l',0,3)]+sc, dc+'TW(%s,u,a,n,m*l,m,l,l,1) u %s= x;'%(t,op), dc+'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) for (length_type k=0;k<l;++k) a[(i*m+j)*l+k]=a[(i*m+j)*l+k]%sx;'%op, what='tensor %s= scalar'%op))
    # sub-views as targets
    t='float'
    for nm,op in OPS:
        B=[PT(t,'a'),PT(t,'b','{1,2,4}')]
        o.append(Ob('sub_'+nm, B+[N('n',1,4),('index_type','f','r(0,3)'),('stride_type','p','r(1,3)')], 'DV(float,u,a,f+n*p) DV(float,v,b,n) u(Domain<1>(f,p,n)) %s= v;'%op, 'for (length_type i=0;i<n;++i) a[f+i*p]=a[f+i*p]%sb[i];'%op, what='sub-vector %s= vector'%op))
        o.append(Ob('subs_'+nm, B[:1]+[N('n',1,4),('index_type','f','r(0,3)'),('stride_type','p','r(1,3)'),('float','x','{1,2,4}')], 'DV(float,u,a,f+n*p) u(Domain<1>(f,p,n)) %s= x;'%op, 'for (length_type i=0;i<n;++i) a[f+i*p]=a[f+i*p]%sx;'%op, what='sub-vector %s= scalar'%op))
        for rc in ('row','col'):
            L={'row':'m','col':'n'}[rc]; R={'row':'n','col':'m'}[rc]
            for oo in 'rc':
                ix={'r':'I*m+J','c':'J*n+I'}[oo].replace('I',{'row':'x','col':'i'}[rc]).replace('J',{'row':'i','col':'x'}[rc])
                o.append(Ob('%s_%s_%s'%(rc,oo,nm), B+[N('n',1,4),N('m',1,4),('index_type','x','r(0,%s-1)'%R)], 'DM(float,%s2_type,u,a,n,m) DV(float,v,b,%s) u.%s(x) %s= v;'%({'r':'row','c':'col'}[oo],L,rc,op), 'for (length_type i=0;i<%s;++i) a[%s]=a[%s]%sb[i];'%(L,ix,ix,op), what='%s of a matrix (order %s) %s= vector'%(rc,oo,op)))
        o.append(Ob('diag_'+nm, B+[N('n',1,4),N('m',1,4)], 'DM(float,row2_type,u,a,n,m) DV(float,v,b,n<m?n:m) u.diag() %s= v;'%op, 'for (length_type i=0;i<n && i<m;++i) a[i*m+i]=a[i*m+i]%sb[i];'%op, what='diagonal %s= vector'%op))
        o.append(Ob('trans_'+nm, B+[N('n',1,4),N('m',1,4)], 'DM(float,row2_type,u,a,n,m) DM(float,row2_type,v,b,m,n) u.transpose() %s= v;'%op, 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) a[i*m+j]=a[i*m+j]%sb[j*n+i];'%op, what='transpose %s= matrix'%op))
        for part,ofs in (('real',0),('imag',1)):
            o.append(Ob('%s_%s'%(part,nm), [PT('cfloat','a'),PT(t,'b','{1,2,4}'),N(),S('s')], 'VW(cfloat,u,a,n,s) VW(float,v,b,n,1) u.%s() %s= v;'%(part,op), 'float*r=(float*)a; for (length_type i=0;i<n;++i) r[2*(stride_type)i*s+%d]=r[2*(stride_type)i*s+%d]%sb[i];'%(ofs,ofs,op), what='%s part %s= vector'%(part,op)))
            o.append(Ob('%ss_%s'%(part,nm), [PT('cfloat','a'),N(),('float','x','{1,2,4}')], 'DV(cfloat,u,a,n) u.%s() %s= x;'%(part,op), 'float*r=(float*)a; for (length_type i=0;i<n;++i) r[2*i+%d]=r[2*i+%d]%sx;'%(ofs,ofs,op), what='dense %s part %s= scalar'%(part,op)))
        # element references
        for tt in ('float','cfloat','int'):
            if tt=='int' and op=='/': continue
            sc=[('float','xr','{1,2,4}'),('float','xi','{1,2,4}')] if tt=='cfloat' else [(tt,'x','{1,2,4}')]
            dc='cfloat x(xr,xi); ' if tt=='cfloat' else ''
            o.append(Ob('ev_%s_%s'%(nm,tt), [PT(tt,'a'),N('n',1,5),S('s'),('index_type','i','r(0,n-1)')]+sc, dc+'VW(%s,u,a,n,s) u(i) %s= x;'%(tt,op), dc+'a[(stride_type)i*s]=a[(stride_type)i*s]%sx;'%op, what='%s element reference %s= value'%(tt,op)))
            o.append(Ob('ed_%s_%s'%(nm,tt), [PT(tt,'a'),N('n',1,5),('index_type','i','r(0,n-1)')]+sc, dc+'DV(%s,u,a,n) u(i) %s= x;'%(tt,op), dc+'a[i]=a[i]%sx;'%op, what='dense %s element reference %s= value'%(tt,op)))
            o.append(Ob('em_%s_%s'%(nm,tt), [PT(tt,'a'),N('n',1,3),N('m',1,3),('index_type','i','r(0,n-1)'),('index_type','j','r(0,m-1)')]+sc, dc+'DM(%s,col2_type,u,a,n,m) u(i,j) %s= x;'%(tt,op), dc+'a[j*n+i]=a[j*n+i]%sx;'%op, what='matrix %s element reference %s= value'%(tt,op)))
            o.append(Ob('et_%s_%s'%(nm,tt), [PT(tt,'a'),N('n',1,3),N('m',1,3),N('l',1,3),('index_type','i','r(0,n-1)'),('index_type','j','r(0,m-1)'),('index_type','k','r(0,l-1)')]+sc, dc+'TW(%s,u,a,n,m*l,m,l,l,1) u(i,j,k) %s= x;'%(tt,op), dc+'a[(i*m+j)*l+k]=a[(i*m+j)*l+k]%sx;'%op, what='tensor %s element reference %s= value'%(tt,op)))
        o.append(Ob('ep_%s'%nm, [PT('float','a'),PT('float','b','{1,2,4}'),N('n',1,5),('index_type','i','r(0,n-1)'),('index_type','j','r(0,n-1)'),PT('float','z')], 'VW(float,u,a,n,1) VW(float,v,b,n,2) z[0]=u(i)%sv(j); z[1]=u(i)%s2.f; z[2]=8.f%sv(j); float y=3; y%s=v(j); z[3]=y;'%(op,op,op,op), 'z[0]=a[i]%sb[2*j]; z[1]=a[i]%s2.f; z[2]=8.f%sb[2*j]; z[3]=3.f%sb[2*j];'%(op,op,op,op), what='arithmetic between element references and values (%s)'%op))
    # fills
    for t in ('float','cfloat','int','double','bool'):
        sc=[('float','xr'),('float','xi')] if t=='cfloat' else [(t,'x','{0,1}')] if t=='bool' else [(t,'x')]
        sc=[x if len(x)==3 else x+('',) for x in sc]
        dc='cfloat x(xr,xi); ' if t=='cfloat' else ''
        o.append(Ob('fv_'+t, [PT(t,'a'),N(),S('s')]+sc, dc+'VW(%s,u,a,n,s) u=x;'%t, dc+'for (length_type i=0;i<n;++i) a[(stride_type)i*s]=x;', what='%s vector = scalar'%t))
        o.append(Ob('fd_'+t, [PT(t,'a'),N()]+sc, dc+'DV(%s,u,a,n) u=x;'%t, dc+'for (length_type i=0;i<n;++i) a[i]=x;', what='dense %s vector = scalar'%t))
        for oo,q in (('row2_type','i*m+j'),('col2_type','j*n+i')):
            o.append(Ob('fm%s_%s'%(oo[0],t), [PT(t,'a'),N('n',0,3),N('m',0,3)]+sc, dc+'DM(%s,%s,u,a,n,m) u=x;'%(t,oo), dc+'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) a[%s]=x;'%q, what='%s matrix = scalar'%t))
            o.append(Ob('fms%s_%s'%(oo[0],t), [PT(t,'a'),N('n',1,3),N('m',1,3),('stride_type','p','r(1,2)'),('stride_type','q','r(1,3)')]+sc, dc+'DM(%s,%s,u,a,n*p,m*q) u(Domain<2>(Domain<1>(0,p,n),Domain<1>(0,q,m)))=x;'%(t,oo), dc+'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) a[%s]=x;'%('i*p*m*q+j*q' if oo[0]=='r' else 'j*q*n*p+i*p'), what='%s sub-matrix = scalar'%t))
        o.append(Ob('ft_'+t, [PT(t,'a'),N('n',0,3),N('m',0,3),N('l',0,3)]+sc, dc+'DT(%s,row3_type,u,a,n,m,l) u=x;'%t, dc+'for (length_type i=0;i<n*m*l;++i) a[i]=x;', what='%s tensor = scalar'%t))
        # fresh storage and aliasing copies
        o.append(Ob('own_'+t, [PT(t,'c'),N('n',1,4)]+sc, dc+'Vector<%s> u(n,x); VW(%s,w,c,n,1) w=u;'%(t,t), dc+'for (length_type i=0;i<n;++i) c[i]=x;', what='new %s vector holds its initial value'%t))
        o.append(Ob('tmp_'+t, [PT(t,'c'),PT(t,'a'),N('n',1,4)], 'VW(%s,v,a,n,1) VW(%s,w,c,n,1) Vector<%s> u(n); u=v; v=%s(); w=u;'%(t,t,t,t), 'for (length_type i=0;i<n;++i) { %s x=a[i]; a[i]=%s(); c[i]=x; }'%(t,t), what='new %s vector owns its elements'%t))
        o.append(Ob('alias_'+t, [PT(t,'a'),N('n',1,4),S('s'),('index_type','i','r(0,n-1)')]+sc, dc+'VW(%s,v,a,n,s) Vector<%s,W::Blk<1,%s> > w(v), z(w); z.put(i,x);'%(t,t,t), dc+'a[(stride_type)i*s]=x;', what='copies of a view refer to the same elements'))
        o.append(Ob('dalias_'+t, [PT(t,'c'),N('n',1,4),('index_type','i','r(0,n-1)')]+sc, dc+'Vector<%s> v(n,%s()), w(v); const_Vector<%s> k(w); w.put(i,x); VW(%s,z,c,n,1) z=k;'%(t,t,t,t), dc+'for (length_type j=0;j<n;++j) c[j]= j==i ? x : %s();'%t, what='copies of a dense view share its block'))
        o.append(Ob('mown_'+t, [PT(t,'c'),N('n',1,3),N('m',1,3)]+sc, dc+'Matrix<%s> u(n,m,x); MW(%s,w,c,n,m,m,1) w=u;'%(t,t), dc+'for (length_type i=0;i<n*m;++i) c[i]=x;', what='new %s matrix holds its initial value'%t))
        o.append(Ob('town_'+t, [PT(t,'c'),N('n',1,3),N('m',1,3),N('l',1,3)]+sc, dc+'Tensor<%s> u(n,m,l,x); TW(%s,w,c,n,m*l,m,l,l,1) w=u;'%(t,t), dc+'for (length_type i=0;i<n*m*l;++i) c[i]=x;', what='new %s tensor holds its initial value'%t))
    return chunks(o, 24, 'v03')
