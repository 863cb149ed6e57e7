"""Direct data access: a Data object presents the block's elements at ptr()+index*stride in the requested layout and complex
format, copying in, out or neither according to the synchronization policy, through the block's own storage or a buffer."""
import re
from vp import *
from B01 import ORD2, ORD3, tup, strides, idx, IX, SZ
PRE = P + '#include <ovxx/strided.hpp>\n#include <ovxx/dda/runtime.hpp>\n#include <ovxx/dda/persistent.hpp>\nusing ovxx::Rt_layout; using ovxx::Rt_tuple;\n'
SIZE = 1
REAL = {'cfloat':'float','cdouble':'double'}
def fetch(t,f,p,o):
    return {'array':'%s[%s]'%(p,o),'interleaved_complex':'%s(%s[2*(%s)],%s[2*(%s)+1])'%(t,p,o,p,o),'split_complex':'%s(%s.first[%s],%s.second[%s])'%(t,p,o,p,o)}[f]
def store(t,f,p,o,v):
    return {'array':'%s[%s]=%s;'%(p,o,v),'interleaved_complex':'{%s q_=%s; %s[2*(%s)]=q_.real(); %s[2*(%s)+1]=q_.imag();}'%(t,v,p,o,p,o),'split_complex':'{%s q_=%s; %s.first[%s]=q_.real(); %s.second[%s]=q_.imag();}'%(t,v,p,o,p,o)}[f]
def PTR(t,f): return {'array':'%s*'%t,'interleaved_complex':'%s*'%REAL.get(t),'split_complex':'std::pair<%s*,%s*>'%(REAL.get(t),REAL.get(t))}[f]
def loops(dim, S): return ''.join('for (index_type %s=0;%s<%s;++%s) '%(IX[d],IX[d],S[d],IX[d]) for d in range(dim))
def lin(dim,S): return 'i' if dim==1 else 'i*%s+j'%S[1] if dim==2 else '(i*%s+j)*%s+k'%(S[1],S[2])
ixs=lambda dim: ','.join(IX[:dim])
def sources():
    "(name, element type, dim, sizes, argument list, declaration of block b, is writable)"
    D=[]
    SA=lambda dim: [('length_type',SZ[d],'r(1,3)') for d in range(dim)]
    for t in ('float','cfloat','int'):
        D.append(('dense1_'+t,t,1,'n',SA(1),[PT(t,'p')],'Dense<1,%s> b(n,p); b.admit(true);'%t,1))
        D.append(('sub1_'+t,t,1,'n',[N(lo=1,hi=4),('index_type','f','r(0,2)'),S('s','ch([1,2,3])')],[PT(t,'p')],'Dense<1,%s> b0(f+s*n,p); b0.admit(true); Vector<%s> v(b0); Vector<%s>::subview_type w=v(Domain<1>(f,s,n)); Vector<%s>::subview_type::block_type &b=w.block();'%(t,t,t,t),1))
        for od in ORD2:
            nm='dense2%d%d_%s'%(od[0],od[1],t); B='Dense<2,%s,%s> b0(Domain<2>(n,m),p); b0.admit(true); '%(t,tup(od)); M='typedef Matrix<%s,Dense<2,%s,%s> > M; M v(b0); '%(t,t,tup(od))
            D.append((nm,t,2,'nm',SA(2),[PT(t,'p')],B.replace('b0','b'),1))
            if t=='int': continue
            D.append(('row_'+nm,t,1,'m',SA(2)+[('index_type','f','r(0,n-1)')],[PT(t,'p')],B+M+'M::row_type w=v.row(f); M::row_type::block_type &b=w.block();',1))
            D.append(('col_'+nm,t,1,'n',SA(2)+[('index_type','f','r(0,m-1)')],[PT(t,'p')],B+M+'M::col_type w=v.col(f); M::col_type::block_type &b=w.block();',1))
            D.append(('trans_'+nm,t,2,'mn',SA(2),[PT(t,'p')],B+M+'M::transpose_type w=v.transpose(); M::transpose_type::block_type &b=w.block();',1))
            D.append(('diag_'+nm,t,1,('std::min<length_type>(e<0?n+e:n,e>0?m-e:m)',),SA(2)+[('stride_type','e','r(1-n,m-1)')],[PT(t,'p')],B+M+'M::diag_type w=v.diag(e); M::diag_type::block_type &b=w.block();',1))
            D.append(('sub_'+nm,t,2,('n','m'),[N(lo=1,hi=3),N('m',1,3),('index_type','f','r(0,2)'),('index_type','g','r(0,2)'),S('s','ch([1,2])'),S('u','ch([1,2])')],[PT(t,'p')],'Dense<2,%s,%s> b0(Domain<2>(f+s*n,g+u*m),p); b0.admit(true); '%(t,tup(od))+M+'M::subview_type w=v(Domain<2>(Domain<1>(f,s,n),Domain<1>(g,u,m))); M::subview_type::block_type &b=w.block();',1))
            if t=='cfloat': D.append(('imag_'+nm,'float',2,'nm',SA(2),[PT(t,'p')],B+M+'M::imagview_type w=v.imag(); M::imagview_type::block_type &b=w.block();',1))
            D.append(('sum_'+nm,t,2,'nm',SA(2),[PT(t,'p')],B+M+'auto w=v+v; auto const &b=w.block();',0))
        if t=='cfloat': D.append(('real1','float',1,'n',SA(1),[PT(t,'p')],'Dense<1,cfloat> b0(n,p); b0.admit(true); Vector<cfloat> v(b0); Vector<cfloat>::realview_type w=v.real(); Vector<cfloat>::realview_type::block_type &b=w.block();',1))
        for od in {'float':ORD3,'int':ORD3[:1],'cfloat':ORD3[3:5]}[t]:
            nm='dense3%d%d%d_%s'%(od+(t,)); B='Dense<3,%s,%s> b0(Domain<3>(n,m,l),p); b0.admit(true); '%(t,tup(od))
            D.append((nm,t,3,'nml',[('length_type',SZ[d],'r(1,2)') for d in range(3)],[PT(t,'p')],B.replace('b0','b'),1))
            if t=='float': D.append(('slice_'+nm,t,2,'nl',[('length_type',SZ[d],'r(1,2)') for d in range(3)]+[('index_type','f','r(0,m-1)')],[PT(t,'p')],B+'typedef Tensor<%s,Dense<3,%s,%s> > M; M v(b0); M::submatrix<1>::type w=v(whole_domain,f,whole_domain); M::submatrix<1>::type::block_type &b=w.block();'%(t,t,tup(od)),1))
    # blocks with storage of their own, in every internal format and packing; filled element by element
    for t,f in (('float','array'),('cfloat','array'),('cfloat','interleaved_complex'),('cfloat','split_complex')):
        for pk in ('dense','aligned_16','aligned_64'):
            for dim,od in ((1,ORD2[0]),(2,ORD2[0]),(2,ORD2[1])):
                sz='nml'[:dim]
                D.append(('own_%s_%s_%s_%s'%(t,f[:3],pk,''.join(map(str,od[:dim]))),t,dim,sz,[('length_type',SZ[d],'r(1,%d)'%(3 if dim<3 else 2)) for d in range(dim)],[PT(t,'p')],
                   'ovxx::Strided<%d,%s,Layout<%d,%s,%s,%s> > b((Domain<%d>(%s))); %s b.put(%s,p[%s]);'%(dim,t,dim,tup(od),pk,f,dim,','.join(sz),loops(dim,sz),ixs(dim),lin(dim,sz)),2))
    return D
def layouts(t,dim,full):
    for od in ([ORD2[0]] if dim==1 else ORD2 if dim==2 else (ORD3 if full else [ORD3[0],ORD3[3]])):
        for pk in ('dense','unit_stride','any_packing','aligned_16'):
            for f in (['array','interleaved_complex','split_complex'] if t in REAL else ['array']): yield od,pk,f
def pick(tier):
    "the quick tier leaves out combinations that repeat the same code with another type or order"
    for x in sources():
        nm,t,dim=x[:3]
        if tier!='thorough':
            if t=='int' and not nm.startswith('dense1'): continue
            if dim==3 and nm not in ('dense3012_float','dense3120_float','dense3210_float','dense3201_cfloat','dense3120_cfloat'): continue
            if nm.startswith(('row','col','trans','diag','sum','slice')) and (t=='cfloat' or '21' in nm) and not nm.startswith(('trans_dense210_cfloat','slice_dense3120')): continue
            if nm.startswith('own') and ('_aligned_64' in nm or '_int_' in nm): continue
        yield x
def tus(tier):
    o=[]
    for nm,t,dim,SS,SA,PA,decl,wr in pick(tier):
        full = nm.startswith('dense')
        n_=60
        G=loops(dim,SS); LN=lin(dim,SS); off='+'.join('%s*d.stride(%d)'%(IX[q],q) for q in range(dim))
        BT='BT_'
        bdecl=decl; 
        if 'BT_' in decl: bdecl=decl.replace('BT_','ovxx::expr::Binary<ovxx::expr::op::Add,M::block_type,M::block_type,true>')
        for od,pk,f in layouts(t,dim,full):
            own=nm.startswith('own'); deep=tier=='thorough'
            canon_od=od==((0,1,2) if dim<3 else ORD3[3])
            if own and (pk=='unit_stride' or f=='interleaved_complex'): continue
            if not full and not canon_od and (pk!='dense' or f!='array'): continue
            if not full and not own and pk in ('any_packing','aligned_16') and not (deep or nm.startswith('sub')): continue
            if dim==3 and full and not canon_od and (pk!='dense' or (t!='float' and f!='array')): continue
            # the same fallible cast keeps this combination from compiling for blocks whose strides are run-time values
            main = pk=='dense' and f!='interleaved_complex' and (canon_od or (full and dim==2))
            L='Layout<%d,%s,%s,%s>'%(dim,tup(od),pk,f)
            id_='%s_%s_%s_%s'%(nm,''.join(map(str,od[:dim])),pk,f[:3])
            w='%s accessed as %s'%(nm,L)
            B='%s typedef ovxx::remove_const<decltype(b)>::type R_; typedef std::remove_reference<decltype(b)>::type B_; '%bdecl
            st=None
            # required layout facts, as extra observations
            es={'float':4,'int':4,'cfloat':8,'double':8}[t] if f=='array' else 4
            minor=od[dim-1] if dim>1 else 0
            szsub=dict(zip(SZ[:dim],SS))
            if pk=='dense':
                e=idx(dim,strides(dim,od)); e=re.sub(r'\b[nml]\b',lambda m:'(%s)'%szsub[m.group(0)],e)
                fi=G+'z[%s]=%s;'%(LN,off); fs=G+'z[%s]=%s;'%(LN,e)
            elif pk=='unit_stride': fi='z[0]=d.stride(%d);'%minor; fs='z[0]=1;'
            elif pk=='aligned_16':
                fi='z[0]=d.stride(%d);'%minor+''.join('z[%d]=(d.stride(%d)*%d)%%16;'%(q+1,q,es if f!='split_complex' else 4) for q in range(dim) if q!=minor); fs='z[0]=1;'+''.join('z[%d]=0;'%(q+1) for q in range(dim) if q!=minor)
            else: fi=fs=''
            szi=''.join('y[%d]=d.size(%d);'%(q,q) for q in range(dim))+'y[%d]=d.size();'%dim
            szs=''.join('y[%d]=%s;'%(q,SS[q]) for q in range(dim))+'y[%d]=%s;'%(dim,'*'.join(SS))
            ZA=[PT('stride_type','z'),PT('length_type','y')]
            o.append(Ob('in_'+id_, [PT(t,'out')]+PA+ZA+SA, B+'{ dda::Data<B_,dda::in,%s> d(b); typedef dda::Data<B_,dda::in,%s>::ptr_type Q_; Q_ q=d.ptr(); %s out[%s]=%s; %s %s }'%(L,L,G,LN,fetch(t,f,'q',off),fi,szi), B+G+'out[%s]=b.get(%s); %s %s'%(LN,ixs(dim),fs,szs), n=n_, what='in: '+w))
            if not wr: continue
            # read the block back through get after the accessor is gone
            RB=(G+'out[%s]=b.get(%s);'%(LN,ixs(dim))) if wr==2 else ''
            OA=[PT(t,'out')] if wr==2 else []
            o.append(Ob('io_'+id_, OA+PA+[PT(t,'x')]+SA, B+'{ dda::Data<B_,dda::inout,%s> d(b); auto q=d.ptr(); %s { index_type o_=%s; %s } } %s'%(L,G,off,store(t,f,'q','o_','x[%s]+%s'%(LN,fetch(t,f,'q','o_'))),RB), B+G+'b.put(%s,x[%s]+b.get(%s)); %s'%(ixs(dim),LN,ixs(dim),RB), n=n_, what='inout: '+w))
            if main or deep: o.append(Ob('out_'+id_, OA+PA+[PT(t,'x')]+SA, B+'{ dda::Data<B_,dda::out,%s> d(b); auto q=d.ptr(); %s { index_type o_=%s; %s } } %s'%(L,G,off,store(t,f,'q','o_','x[%s]'%LN),RB), B+G+'b.put(%s,x[%s]); %s'%(ixs(dim),LN,RB), n=n_, what='out: '+w))
            if main or (deep and (pk=='dense' or full)):
                # a forced copy is never the block's own storage: what is written to it stays private
                o.append(Ob('cp_'+id_, OA+PA+[PT(t,'x')]+SA, B+'{ dda::Data<B_,dda::in|dda::copy,%s> d(b); auto q=d.ptr(); %s { index_type o_=%s; %s } } %s'%(L,G,off,store(t,f,'q','o_','x[%s]'%LN),RB), B+RB+';', n=n_, what='in|copy leaves the block alone: '+w))
                # explicit synchronization in both directions
                o.append(Ob('sy_'+id_, OA+PA+[PT(t,'x'),PT(t,'y')]+SA, B+'{ dda::Data<B_,dda::inout,%s> d(b); auto q=d.ptr(); %s { index_type o_=%s; %s } d.sync_out(); %s b.put(%s,b.get(%s)+y[%s]); d.sync_in(); %s { index_type o_=%s; %s } } %s'%(L,G,off,store(t,f,'q','o_','x[%s]'%LN),G,ixs(dim),ixs(dim),LN,G,off,store(t,f,'q','o_','x[%s]+%s'%(LN,fetch(t,f,'q','o_'))),RB), B+G+'b.put(%s,x[%s]+(x[%s]+y[%s])); %s'%(ixs(dim),LN,LN,LN,RB), n=n_, what='sync_out then sync_in: '+w))
                if full:
                    # a buffer the user provides is used whenever a copy is made, and is large enough at required_buffer_size
                    Q=PTR(t,f); U=REAL.get(t)
                    new={'array':'%s*u=new %s[k_]();'%(t,t),'interleaved_complex':'%s*u=new %s[2*k_]();'%(U,U),'split_complex':'std::pair<%s*,%s*> u(new %s[k_](),new %s[k_]());'%(U,U,U,U)}[f]
                    dl={'array':'delete[] u;','interleaved_complex':'delete[] u;','split_complex':'delete[] u.first; delete[] u.second;'}[f]
                    o.append(Ob('ub_'+id_, PA+[PT(t,'x'),PT('int','z')]+SA, B+'length_type k_=dda::required_buffer_size<%s>(b,true); %s { dda::Data<B_,dda::inout|dda::copy,%s> d(b,u); auto q=d.ptr(); z[0]=(q==u); %s { index_type o_=%s; %s } } %s'%(L,new,L,G,off,store(t,f,'q','o_','x[%s]+%s'%(LN,fetch(t,f,'q','o_'))),dl), B+G+'b.put(%s,x[%s]+b.get(%s)); z[0]=1;'%(ixs(dim),LN,ixs(dim)), n=n_, what='with a user buffer: '+w))
    # ---- layouts known only at run time
    for nm,t,dim,SS,SA,PA,decl,wr in pick(tier):
        if t=='int' or nm.startswith(('row','col','real','own_cfloat_int')): continue
        if dim==3 and nm not in ('dense3012_float','dense3120_cfloat','dense3210_float'): continue
        G=loops(dim,SS); LN=lin(dim,SS); off='+'.join('%s*d.stride(%d)'%(IX[q],q) for q in range(dim))
        szsub=dict(zip(SZ[:dim],SS))
        for od in ([ORD2[0]] if dim==1 else ORD2 if dim==2 else (ORD3[3],ORD3[5])):
            for pk,al in (('dense',0),('unit_stride',0),('aligned',16),('aligned',64)):
                if pk=='unit_stride' and (dim==3 or nm.startswith('own') or od!=ORD2[0]): continue
                if al==64 and (dim==3 or tier!='thorough'): continue
                for f in (['array','interleaved_complex','split_complex'] if t in REAL else ['array']):
                    if f=='interleaved_complex' and not nm.startswith('dense2'): continue
                    w='%s accessed with run-time layout %s %s %s alignment %d'%(nm,od[:dim],pk,f,al)
                    id_='rt_%s_%s_%s%d_%s'%(nm,''.join(map(str,od[:dim])),pk,al,f[:3])
                    B='%s typedef std::remove_reference<decltype(b)>::type B_; Rt_layout<%d> L_(%s,Rt_tuple(%s()),%s,%d); '%(decl,dim,pk,tup(od),f,al)
                    get='auto q=d.ptr();' if t not in REAL else 'auto q=d.ptr().template as<%s>();'%f
                    # a compatible block of the other cast-compatible format is presented as it is
                    fmt='q_' if t in REAL else ''
                    es=4 if t=='float' or f=='split_complex' else 8
                    minor=od[dim-1] if dim>1 else 0
                    if pk=='dense':
                        e=idx(dim,strides(dim,od)); e=re.sub(r'\b[nml]\b',lambda m:'(%s)'%szsub[m.group(0)],e)
                        fi=G+'z[%s]=%s;'%(LN,off); fs=G+'z[%s]=%s;'%(LN,e)
                    else:
                        fi='z[0]=d.stride(%d);'%minor; fs='z[0]=1;'
                        if al:
                            fi+=''.join('z[%d]=(d.stride(%d)*%d)%%%d;'%(q+1,q,es,al) for q in range(dim) if q!=minor); fs+=''.join('z[%d]=0;'%(q+1) for q in range(dim) if q!=minor)
                    szi=''.join('y[%d]=d.size(%d);'%(q,q) for q in range(dim)); szs=''.join('y[%d]=%s;'%(q,SS[q]) for q in range(dim))
                    if SIZE: szi+='y[%d]=d.size();'%dim; szs+='y[%d]=%s;'%(dim,'*'.join(SS))
                    o.append(Ob('in_'+id_, [PT(t,'out')]+PA+[PT('stride_type','z'),PT('length_type','y')]+SA, B+'{ ovxx::dda::Rt_data<B_,dda::in> d(b,L_); %s %s out[%s]=%s; %s %s }'%(get,G,LN,fetch(t,f,'q',off),fi,szi), B+G+'out[%s]=b.get(%s); %s %s'%(LN,ixs(dim),fs,szs), n=40, what='in: '+w))
                    if wr!=1: continue
                    o.append(Ob('io_'+id_, PA+[PT(t,'x')]+SA, B+'{ ovxx::dda::Rt_data<B_,dda::inout> d(b,L_); %s %s { index_type o_=%s; %s } }'%(get,G,off,store(t,f,'q','o_','x[%s]+%s'%(LN,fetch(t,f,'q','o_')))), B+G+'b.put(%s,x[%s]+b.get(%s));'%(ixs(dim),LN,ixs(dim)), n=40, what='inout: '+w))
                    if pk=='dense' and od==ORD2[0]:
                        o.append(Ob('fc_'+id_, [PT(t,'out')]+PA+[PT('int','z')]+SA, B+'{ ovxx::dda::Rt_data<B_,dda::in> d(b,true,L_); %s %s out[%s]=%s; z[0]=d.cost(); }'%(get,G,LN,fetch(t,f,'q',off)), B+G+'out[%s]=b.get(%s); z[0]=2;'%(LN,ixs(dim)), n=40, what='forced copy: '+w))
    # ---- data held on to across changes of the block
    for nm,t,dim,SS,SA,PA,decl,wr in pick(tier):
        if not wr==1 or t=='int' or nm.startswith(('row','col')) or dim==3: continue
        for f in (['array','split_complex'] if t in REAL else ['array']):
            od=ORD2[0]; G=loops(dim,SS); LN=lin(dim,SS); off='+'.join('%s*d.stride(%d)'%(IX[q],q) for q in range(dim))
            L='Layout<%d,%s,dense,%s>'%(dim,tup(od),f)
            B='%s typedef std::remove_reference<decltype(b)>::type B_; '%decl
            o.append(Ob('pe_%s_%s'%(nm,f[:3]), [PT(t,'out')]+PA+[PT(t,'x')]+SA, B+'{ ovxx::dda::Persistent_data<B_,%s> d(b); %s b.put(%s,x[%s]); d.sync_in(); auto q=const_cast<ovxx::dda::Persistent_data<B_,%s> const &>(d).ptr(); %s out[%s]=%s; }'%(L,G,ixs(dim),LN,L,G,LN,fetch(t,f,'q',off)), G+'out[%s]=x[%s]; '%(LN,LN)+B+G+'b.put(%s,x[%s]);'%(ixs(dim),LN), n=40, what='persistent access sees changes after sync_in: %s as %s'%(nm,L)))
    return chunks(o, 30, 'b03', PRE)
