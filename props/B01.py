"""Block storage layout: every block maps an index to exactly the documented memory position for its dimension order,
packing and complex format; strides, sizes, extents and direct pointers agree with that mapping."""
from vp import *
PRE = P + '#include <ovxx/strided.hpp>\n#include <ovxx/layout.hpp>\nusing ovxx::Applied_layout; using ovxx::Rt_layout; using ovxx::Rt_tuple;\n'
ORD2 = [(0,1,2),(1,0,2)]
ORD3 = [(0,1,2),(0,2,1),(1,0,2),(1,2,0),(2,0,1),(2,1,0)]
tup = lambda o: 'vsip::tuple<%d,%d,%d>' % o
IX = ['i','j','k']; SZ = ['n','m','l']
def strides(dim, o, al=0):
    "expression of the stride of each dimension"
    up = lambda e: e if not al else '((((%s)+%d)/%d)*%d)' % (e, al-1, al, al)
    s = {}
    if dim == 1: s[0] = '1'
    elif dim == 2: s[o[1]] = '1'; s[o[0]] = up(SZ[o[1]])
    else: s[o[2]] = '1'; s[o[1]] = up(SZ[o[2]]); s[o[0]] = '(%s)*%s' % (s[o[1]], SZ[o[1]])
    return [s[d] for d in range(dim)]
def idx(dim, st): return '+'.join('%s*(%s)' % (IX[d], st[d]) for d in range(dim))
def tus(tier):
    o = []
    Z = [PT('length_type','z')]
    # ---- applied layouts
    packs = ['dense','unit_stride','aligned','aligned_8','aligned_16','aligned_32','aligned_64','aligned_128','aligned_256','aligned_512','aligned_1024']
    for pk in packs:
        al = int(pk.split('_')[1]) if pk.startswith('aligned_') else 0
        hi = 3 if al == 0 else 2*al+1
        for dim in (1,2,3):
            if dim > 1 and pk in ('unit_stride','aligned'): continue
            for od in ([(0,1,2)] if dim==1 else ORD2 if dim==2 else ORD3):
                st = strides(dim, od, al if dim>1 else 0)
                SA = [('length_type',SZ[d],'r(1,%d)'%hi) for d in range(dim)]
                IA = [('index_type',IX[d],'r(0,%s-1)'%SZ[d]) for d in range(dim)]
                L = 'Applied_layout<Layout<%d,%s,%s,array> > q' % (dim, tup(od), pk)
                nm = '%s_%s' % (pk, ''.join(map(str,od[:dim])))
                tot = {1:'n', 2:'%s*(%s-1)+%s' % (st[od[0]],SZ[od[0]],SZ[od[1]]) if dim==2 else '', 3:'%s*(%s)'%(SZ[od[0]],st[od[0]])}[dim]
                inits = ['((Domain<%d>(%s)))'%(dim,','.join(SZ[:dim])), '((ovxx::Length<%d>(%s)))'%(dim,','.join(SZ[:dim]))] + (['(n,m)'] if dim==2 else ['(n)'] if dim==1 else [])
                for q,init in enumerate(inits):
                    o.append(Ob('lay_%s_%d'%(nm,q), Z+SA+IA, '%s%s; z[0]=q.index(Index<%d>(%s)); z[1]=q.index(%s); z[2]=q.total_size(); %s' % (L,init,dim,','.join(IX[:dim]),','.join(IX[:dim]),' '.join('z[%d]=q.stride(%d); z[%d]=q.size(%d);'%(3+2*d,d,4+2*d,d) for d in range(dim))),
                      'z[0]=%s; z[1]=z[0]; z[2]=%s; %s' % (idx(dim,st), tot, ' '.join('z[%d]=%s; z[%d]=%s;'%(3+2*d,st[d],4+2*d,SZ[d]) for d in range(dim))), n=80, what='%d-D %s layout in dimension order %s'%(dim,pk,od[:dim])))
    o.append(Ob('any1', Z+[N(lo=1),S('s'),('index_type','i','r(0,n-1)')], 'Applied_layout<Layout<1,row1_type,any_packing,array> > q(n,s); z[0]=q.index(i); z[1]=q.stride(0); z[2]=q.size(0); z[3]=q.index(Index<1>(i));', 'z[0]=i*s; z[1]=s; z[2]=n; z[3]=z[0];', what='1-D layout of arbitrary stride'))
    o.append(Ob('any2', Z+[N(lo=1),S('s'),N('m',1,4),S('t'),('index_type','i','r(0,n-1)'),('index_type','j','r(0,m-1)')], 'Applied_layout<Layout<2,col2_type,any_packing,array> > q(n,s,m,t); z[0]=q.index(i,j); z[1]=q.stride(0); z[2]=q.stride(1); z[3]=q.size(0); z[4]=q.size(1); z[5]=q.index(Index<2>(i,j));', 'z[0]=i*s+j*t; z[1]=s; z[2]=t; z[3]=n; z[4]=m; z[5]=z[0];', what='2-D layout of arbitrary strides'))
    # ---- run-time layouts: same mapping, the alignment given in bytes
    for dim in (1,2,3):
        for od in ([(0,1,2)] if dim==1 else ORD2 if dim==2 else ORD3):
            for al,es in ((0,4),(16,4),(32,8),(64,8)):
                ea = al//es
                st = strides(dim, od, ea if dim>1 else 0)
                SA = [('length_type',SZ[d],'r(1,%d)'%(2*ea+2)) for d in range(dim)]
                IA = [('index_type',IX[d],'r(0,%s-1)'%SZ[d]) for d in range(dim)]
                o.append(Ob('rt_%s_%d_%d'%(''.join(map(str,od[:dim])),al,es), Z+SA+IA,
                  'Applied_layout<Rt_layout<%d> > q(Rt_layout<%d>(%s,Rt_tuple(%s()),split_complex,%d),Domain<%d>(%s),%d); z[0]=q.index(Index<%d>(%s)); z[1]=q.total_size(); z[2]=q.storage_format()==split_complex; %s'%(dim,dim,'aligned' if al else 'dense',tup(od),al,dim,','.join(SZ[:dim]),es,dim,','.join(IX[:dim]),' '.join('z[%d]=q.stride(%d); z[%d]=q.size(%d);'%(3+2*d,d,4+2*d,d) for d in range(dim))),
                  'z[0]=%s; z[1]=%s; z[2]=1; %s'%(idx(dim,st),'%s*(%s)'%(SZ[od[0]],st[od[0]]),' '.join('z[%d]=%s; z[%d]=%s;'%(3+2*d,st[d],4+2*d,SZ[d]) for d in range(dim))), n=80, what='%d-D run-time layout, order %s, alignment %d bytes of %d-byte elements'%(dim,od[:dim],al,es)))
    for dim in (1,2,3):
        A=[('stride_type','s%d'%d,'ch([1,2,5,-3])') for d in range(dim)]+[('length_type',SZ[d],'r(1,3)') for d in range(dim)]+[('index_type',IX[d],'r(0,%s-1)'%SZ[d]) for d in range(dim)]
        o.append(Ob('phys%d'%dim, Z+A, 'Applied_layout<Rt_layout<%d> > q(Domain<%d>(%s),array); z[0]=q.index(Index<%d>(%s)); %s'%(dim,dim,','.join('Domain<1>(0,s%d,%s)'%(d,SZ[d]) for d in range(dim)),dim,','.join(IX[:dim]),' '.join('z[%d]=q.stride(%d); z[%d]=q.size(%d);'%(3+2*d,d,4+2*d,d) for d in range(dim))),
          'z[0]=%s; %s'%('+'.join('%s*s%d'%(IX[d],d) for d in range(dim)),' '.join('z[%d]=s%d; z[%d]=%s;'%(3+2*d,d,4+2*d,SZ[d]) for d in range(dim))), what='run-time layout from physical strides'))
    # ---- layout tables
    for pk in packs+['any_packing']:
        al = int(pk.split('_')[1]) if pk.startswith('aligned_') else 0
        isal = pk.startswith('aligned')
        dims=(1,) if pk in ('unit_stride','aligned','any_packing') else (1,2,3)
        for dim in dims:
            od={1:(0,1,2),2:(1,0,2),3:(2,0,1)}[dim]
            o.append(Ob('tab_%s_%d'%(pk,dim), Z, 'typedef Layout<%d,%s,%s,array> L; z[0]=ovxx::layout_packing(L()); z[1]=ovxx::layout_alignment(L()); z[2]=ovxx::layout_nth_dim(L(),0); z[3]=ovxx::layout_nth_dim(L(),1); z[4]=ovxx::layout_nth_dim(L(),2); z[5]=ovxx::is_packing_aligned<%s>::value; z[6]=ovxx::is_aligned(%s); z[7]=vsip::is_packing_unit_stride<%s>::value; z[8]=ovxx::layout_storage_format(L())==array;'%(dim,tup(od),pk,pk,pk,pk),
              'z[0]=%s; z[1]=%d; z[2]=%d; z[3]=%d; z[4]=%d; z[5]=%d; z[6]=%d; z[7]=%d; z[8]=1;'%(pk,al,od[0],od[1],od[2],isal,isal,pk not in('any_packing',)), what='traits of the %s packing'%pk))
    lay = o; o = []
    # ---- blocks over user storage: one element written, one element read, strides, sizes and pointer
    for t,fm in (('float','array'),('int','array'),('cfloat','array'),('cfloat','interleaved_complex'),('cfloat','split_complex'),('cdouble','split_complex')):
        u = {'cfloat':'float','cdouble':'double'}.get(t,t)
        for pk in ('dense','aligned_16','aligned_64'):
            al = int(pk.split('_')[1]) if '_' in pk else 0
            for dim in (1,2,3):
                for od in ([(0,1,2)] if dim==1 else ORD2 if dim==2 else ORD3):
                    if al and (t not in ('float','cfloat') or dim==3 and od not in ORD3[1:4]): continue
                    if t in ('int','cdouble') and dim==3 and od!=(2,0,1): continue
                    st = strides(dim, od, al if dim>1 else 0)
                    SA = [('length_type',SZ[d],'r(1,%d)'%(3 if not al else al+2)) for d in range(dim)]
                    IA = [('index_type',IX[d],'r(0,%s-1)'%SZ[d]) for d in range(dim)]
                    JA = [('index_type',IX[d]+'2','r(0,%s-1)'%SZ[d]) for d in range(dim)]
                    B = 'ovxx::Strided<%d,%s,Layout<%d,%s,%s,%s> > q(Domain<%d>(%s),%%s); q.admit(true); '%(dim,t,dim,tup(od),pk,fm,dim,','.join(SZ[:dim]))
                    pa,pe = {'array':([PT(t,'p')],'p'),'interleaved_complex':([PT(u,'p')],'p'),'split_complex':([PT(u,'p'),PT(u,'w')],'p,w')}[fm]
                    f1=idx(dim,st); f2='+'.join('%s2*(%s)'%(IX[d],st[d]) for d in range(dim))
                    xs=[(u,'xr'),(u,'xi')] if t[0]=='c' else [(t,'x')]
                    xv='%s(xr,xi)'%t if t[0]=='c' else 'x'
                    rd=lambda f: {'array':'p[%s]'%f,'interleaved_complex':'%s(p[2*(%s)],p[2*(%s)+1])'%(t,f,f),'split_complex':'%s(p[%s],w[%s])'%(t,f,f)}[fm]
                    wrt=lambda f: {'array':'p[%s]=%s;'%(f,xv),'interleaved_complex':'p[2*(%s)]=xr; p[2*(%s)+1]=xi;'%(f,f),'split_complex':'p[%s]=xr; w[%s]=xi;'%(f,f)}[fm]
                    nm='%s_%s_%s_%s'%(t,fm[:3],pk,''.join(map(str,od[:dim])))
                    o.append(Ob('el_'+nm, [PT(t,'out')]+pa+SA+IA+JA+[(a,b,'') for a,b in xs], B%pe+'q.put(%s,%s); out[0]=q.get(%s); q.release(true);'%(','.join(IX[:dim]),xv,','.join(a+'2' for a in IX[:dim])), wrt(f1)+' out[0]=%s;'%rd(f2), n=80, what='element access of a %d-D %s %s block, order %s, %s'%(dim,pk,t,od[:dim],fm)))
                    if pk=='dense' and dim>1:
                        o.append(Ob('lin_'+nm, [PT(t,'out')]+pa+SA+[('index_type','i','r(0,%s-1)'%'*'.join(SZ[:dim])),('index_type','i2','r(0,%s-1)'%'*'.join(SZ[:dim]))]+[(a,b,'') for a,b in xs], B%pe+'q.put(i,%s); out[0]=q.get(i2); q.release(true);'%xv, wrt('i')+' out[0]=%s;'%rd('i2'), what='one-dimensional access of a %d-D dense block'%dim))
                    o.append(Ob('sz_'+nm, Z+pa+SA, B%pe+'z[0]=q.size(); z[1]=q.size(1,0); z[2]=q.stride(1,0); %s'%' '.join('z[%d]=q.size(%d,%d); z[%d]=q.stride(%d,%d);'%(3+2*d,dim,d,4+2*d,dim,d) for d in range(dim)),
                      'z[0]=%s; z[1]=z[0]; z[2]=1; %s'%('*'.join(SZ[:dim]),' '.join('z[%d]=%s; z[%d]=%s;'%(3+2*d,SZ[d],4+2*d,st[d]) for d in range(dim))), what='sizes and strides of a block'))
                    if fm=='array':
                        o.append(Ob('ref_'+nm, pa+SA+IA+JA, B%pe+'q.ref(%s)=q.ref(%s); q.ptr()[0]=q.ref(%s);'%(','.join(IX[:dim]),','.join(a+'2' for a in IX[:dim]),','.join(IX[:dim])), 'p[%s]=p[%s]; p[0]=p[%s];'%(f1,f2,f1), n=80, what='element references and direct pointer of a block'))
    # ---- freshly constructed blocks
    for t in ('float','cfloat','int'):
        for dim in (1,2,3):
            od={1:(0,1,2),2:(1,0,2),3:(1,2,0)}[dim]
            SA=[('length_type',SZ[d],'r(1,3)') for d in range(dim)]; IA=[('index_type',IX[d],'r(0,%s-1)'%SZ[d]) for d in range(dim)]
            xs=[('float','xr',''),('float','xi','')] if t=='cfloat' else [(t,'x','')]; xv='cfloat(xr,xi)' if t=='cfloat' else 'x'
            for kind in ('Dense<%d,%s,%s> q'%(dim,t,tup(od)),'ovxx::Strided<%d,%s,Layout<%d,%s,aligned_16,%s> > q'%(dim,t,dim,tup(od),'split_complex' if t=='cfloat' else 'array')):
                o.append(Ob('init_%s_%d_%s'%(t,dim,kind[0]), [PT(t,'out')]+SA+IA+xs, '%s(Domain<%d>(%s),%s); out[0]=q.get(%s); q.put(%s,out[1]); out[2]=q.get(%s);'%(kind,dim,','.join(SZ[:dim]),xv,','.join(IX[:dim]),','.join(IX[:dim]),','.join(IX[:dim])), 'out[0]=%s; out[2]=out[1];'%xv, what='a block filled at construction'))
    return chunks(lay, 40, 'b01l', PRE) + chunks(o, 22, 'b01b', PRE)
