"""B05: a descriptor states element type, shape and strides of the data it describes, and a block type is reported compatible with
exactly the descriptors whose data it can be rebound to."""
from vp import *
from B01 import ORD2, ORD3, tup
PRE = P + '#include <ovxx/strided.hpp>\n#include <vsip/serialization.hpp>\nnamespace s=vsip::serialization; typedef unsigned char UC;\n'
RULE = "descriptor fields equal the layout in force; compatibility equals equality of type, dimension and dense strides in the block's order"
TY = {'bool': '0', 'char': '1', 'float': '4', 'cfloat': '5', 'double': '6', 'cdouble': '7', 'short': '(2ul<<10|1<<8)', 'int': '(4ul<<10|1<<8)', 'unsigned': '(4ul<<10|3<<8)', 'long': '(8ul<<10|1<<8)', 'ulong': '(8ul<<10|3<<8)', 'UC': '(1ul<<10|3<<8)', 's::int8_type': '(1ul<<10|1<<8)', 's::uint16_type': '(2ul<<10|3<<8)'}
CODES = sorted({eval(v.replace('ul', '')) for v in TY.values()} | {2, 3, 8})
SZ = 'nml'
DESC = 's::Descriptor d; d.value_type=vt; d.dimensions=dm; d.storage_format=1; d.size[0]=n; d.size[1]=m; d.size[2]=l; d.stride[0]=s0; d.stride[1]=s1; d.stride[2]=s2; d.storage_size=n; '
def dense(od, D):
    "condition that the strides are those of a dense array of this order"
    c = []; p = ['1']
    for k in range(D - 1, -1, -1):
        c.append('s%d==(long)(%s)' % (od[k], '*'.join(p))); p.append(SZ[od[k]])
    return '&&'.join(c)
def rank(od, D):
    # exactness is claimed as far as the strides matter: the code asks for equality whatever the sizes
    return dense(od, D)
OUT = 'c[0]=d.value_type; c[1]=d.dimensions; c[2]=d.storage_format; '
def tus(tier):
    o = []
    cases = [(1, (0, 1, 2))] + [(2, x) for x in ORD2] + [(3, x) for x in ORD3]
    dens = {1: ['1'], }
    for D, od in cases:
        od = tuple(od) + tuple(x for x in range(3) if x not in od)
        nm = '%d%s' % (D, ''.join(map(str, od[:D])))
        for t in ('float', 'int', 'cfloat', 'double', 'ulong', 'bool', 'char', 'cdouble', 'short', 'UC', 'unsigned'):
            if D == 3 and t in ('cdouble', 'bool', 'char', 'UC', 'unsigned'): continue
            # strides drawn near the dense ones of some order
            st = 'ch([1,1,n,m,l,n*m,m*l,n*l,2*m,-1,-n])'
            a = [('ulong', 'vt', 'ch([%s]+%s)' % (','.join([TY[t].replace('ul', '')] * 60), CODES)), ('uchar', 'dm', 'ch([1,2,3,%s])' % ','.join([str(D)] * 9)),
                 ('ulong', 'n', 'r(1,3)'), ('ulong', 'm', 'r(1,3)'), ('ulong', 'l', 'r(1,3)')]
            dn = {}; p = '1'
            for k in range(D - 1, -1, -1): dn[od[k]] = p; p += '*' + SZ[od[k]]
            for k in range(3): a.append(('long', 's%d' % k, 'ch([%s,1,n,m,l,n*m,m*l,n*l,2*m,-1])' % ','.join([dn.get(k, '1')] * 25)))
            for B, bt in (('dense', 'Dense<%d,%s,%s>' % (D, t, tup(od))), ('strided', 'ovxx::Strided<%d,%s,Layout<%d,%s,dense,%s> >' % (D, t, D, tup(od), 'array'))):
                if B == 'strided' and t not in ('float', 'int', 'cfloat'): continue
                o.append(Ob('is_%s_%s_%s' % (B, nm, t), a, DESC + 'return s::is_compatible<%s>(d);' % bt, 'return vt==%s && dm==%d && %s;' % (TY[t], D, dense(od, D)), ret='bool', n=400, what='compatibility of %s' % bt))
    for t in ('float', 'cfloat'):
        # block types that cannot be rebound are compatible with nothing
        o.append(Ob('isnot_' + t, [('ulong', 'vt', 'ch([4,5])'), ('uchar', 'dm', 'r(1,3)'), ('ulong', 'n', 'r(1,3)'), ('ulong', 'm', 'r(1,3)'), ('ulong', 'l', 'r(1,3)'), ('long', 's0', 'r(1,3)'), ('long', 's1', 'r(1,3)'), ('long', 's2', 'r(1,3)')], DESC + 'return s::is_compatible<ovxx::Strided<2,%s,Layout<2,row2_type,aligned_32,array> > >(d);' % t, 'return false;', ret='bool', what='compatibility of an aligned block'))
    # describing blocks
    for t in TY:
        A1 = [PT('long', 'c')]
        if ':' in t or t in ('bool','UC'): 
            continue
        for D, od in cases:
            if D == 3 and t not in ('float', 'cfloat', 'int'): continue
            od = tuple(od) + tuple(x for x in range(3) if x not in od)
            nm = '%d%s_%s' % (D, ''.join(map(str, od[:D])), t)
            sz = SZ[:D]; dom = 'n' if D == 1 else 'Domain<%d>(%s)' % (D, ','.join(sz))
            aa = [PT('long', 'c'), PT(t, 'p')] + [('length_type', x, 'r(1,4)') for x in sz]
            dn = {}; p = '1'
            for k in range(D - 1, -1, -1): dn[od[k]] = p; p += '*' + SZ[od[k]]
            fmt = '1' if t[0] != 'c' or t == 'char' else None
            exp = 'c[0]=%s; c[1]=%d; ' % (TY[t], D) + ''.join('c[%d]=%s; c[%d]=%s; ' % (3 + 2 * k, SZ[k], 4 + 2 * k, dn[k]) for k in range(D))
            got = 'c[0]=d.value_type; c[1]=d.dimensions; ' + ''.join('c[%d]=d.size[%d]; c[%d]=d.stride[%d]; ' % (3 + 2 * k, k, 4 + 2 * k, k) for k in range(D))
            zero = ''.join('c[%d]=0; c[%d]=0; ' % (3 + 2 * k, 4 + 2 * k) for k in range(D, 3)); gz = ''.join('c[%d]=d.size[%d]; c[%d]=d.stride[%d]; ' % (3 + 2 * k, k, 4 + 2 * k, k) for k in range(D, 3))
            B = 'Dense<%d,%s,%s> b(%s,p); ' % (D, t, tup(od), dom)
            o.append(Ob('us_' + nm, aa, B + 's::Descriptor d; s::describe_user_storage(b,d); ' + got + gz + 'c[2]=d.storage_format;', exp + zero + 'c[2]=array;', what='descriptor of the user storage of a block'))
            o.append(Ob('dd_' + nm, aa, B + 'b.admit(true); { dda::Data<Dense<%d,%s,%s>,dda::in> x(b); s::Descriptor d; s::describe_data(x,d); ' % (D, t, tup(od)) + got + 'c[2]=s::is_compatible<Dense<%d,%s,%s> >(d); c[9]=x.ptr()==(void*)p; } b.release(false);' % (D, t, tup(od)), exp + 'c[2]=1; c[9]=1;' , what='descriptor of the data of a block, compatible with its own type'))
            if t in ('float', 'int', 'short', 'double') and D > 1:
                # another order, another dimension: compatible exactly if the strides happen to agree
                for od2 in (ORD2 if D == 2 else ORD3):
                    od2 = tuple(od2) + tuple(x for x in range(3) if x not in od2)
                    if od2 == od: continue
                    cond = dense(od2, D)
                    for k in range(D): cond = cond.replace('s%d' % k, '(long)(%s)' % dn[k])
                    o.append(Ob('ot_%s_%s' % (nm, ''.join(map(str, od2[:D]))), aa, B + 's::Descriptor d; s::describe_user_storage(b,d); c[0]=s::is_compatible<Dense<%d,%s,%s> >(d); c[1]=s::is_compatible<Dense<%d,%s> >(d);' % (D, t, tup(od2), 5 - D, t), 'c[0]=%s; c[1]=0;' % cond, what='compatibility with another order of dimensions'))
    # data in another layout, sub-views
    for t in ('float', 'int', 'cfloat'):
        for al in ('dense', 'aligned_8', 'aligned_16'):
            for od in ORD3:
                # the data are where the Data object says they are (B03): compatible exactly if that is the dense row-major place
                aa = [PT(t, 'p')] + [('length_type', x, 'ch([1,2,3,8,16])') for x in SZ]
                X = 'Dense<3,%s> b(Domain<3>(n,m,l),p); b.admit(true); bool r; { dda::Data<Dense<3,%s>,dda::in,Layout<3,%s,%s,array> > x(b); %%s } b.release(false); return r;' % (t, t, tup(od), al)
                o.append(Ob('lay3_%s_%s_%s' % (al, ''.join(map(str, od)), t), aa, X % ('s::Descriptor d; s::describe_data(x,d); r=s::is_compatible<Dense<3,%s> >(d);' % t), X % 'r=x.size(0)==n && x.size(1)==m && x.size(2)==l && x.stride(2)==1 && x.stride(1)==(long)l && x.stride(0)==(long)(l*m);', ret='bool', n=60, what='compatibility with data in a %s layout of order %s' % (al, od)))
        for od in ORD2:
            aa = [PT('long', 'c'), PT(t, 'p'), N('n', 1, 4), N('m', 1, 4), ('index_type', 'f', 'r(0,2)'), ('length_type', 'k', 'ch([1,2])')]
            s0, s1 = ('k*(f+k*m)', 'k') if tuple(od)[:2] == (0, 1) else ('k', 'k*(f+k*n)')
            o.append(Ob('sub2_%s_%s' % (''.join(map(str, od)), t), aa, 'typedef Dense<2,%s,%s> B; B b(Domain<2>(f+k*n,f+k*m),p); b.admit(true); Matrix<%s,B> v(b); typedef Matrix<%s,B>::subview_type V; V w=v(Domain<2>(Domain<1>(f,k,n),Domain<1>(f,k,m))); { dda::Data<V::block_type,dda::in> x(w.block()); s::Descriptor d; s::describe_data(x,d); c[0]=d.size[0]; c[1]=d.size[1]; c[2]=d.stride[0]; c[3]=d.stride[1]; c[4]=d.dimensions; c[5]=d.value_type; }' % (t, tup(od), t, t), 'c[0]=n; c[1]=m; c[2]=%s; c[3]=%s; c[4]=2; c[5]=%s;' % (s0, s1, TY[t]), what='descriptor of a sub-matrix'))
        # writing, describing, rebinding another block to the data: the same elements
        for D in (1, 2, 3):
            for od in {1: [(0, 1, 2)], 2: ORD2, 3: ORD3}[D]:
                od = tuple(od) + tuple(x for x in range(3) if x not in od)
                sz = SZ[:D]; dom = 'n' if D == 1 else 'Domain<%d>(%s)' % (D, ','.join(sz))
                ix = 'ije'[:D]; lp = ''.join('for (index_type %s=0;%s<%s;++%s) ' % (i, i, x, i) for i, x in zip(ix, sz))
                off = {0: 'i', 1: 'j', 2: 'e'}; p = '1'; ex = []
                for k in range(D - 1, -1, -1): ex.append('%s*(%s)' % ('ije'[od[k]], p)); p += '*' + SZ[od[k]]
                lin = {1: 'i', 2: 'i*m+j', 3: '(i*m+j)*l+e'}[D]
                bt = 'Dense<%d,%s,%s>' % (D, t, tup(od))
                o.append(Ob('rt_%d%s_%s' % (D, ''.join(map(str, od[:D])), t), [PT(t, 'c'), PT(t, 'p')] + [N(x, 1, 3) for x in sz], bt + ' b(%s,p); s::Descriptor d; s::describe_user_storage(b,d); ' % dom + bt + ' e2(%s,(%s*)0); if (!s::is_compatible<%s >(d)) throw 1; e2.rebind(p,%s); e2.admit(true); ' % ('1' if D == 1 else 'Domain<%d>(%s)' % (D, ','.join('1' * D)), t, bt, {1: 'Domain<1>(d.size[0])', 2: 'Domain<2>(d.size[0],d.size[1])', 3: 'Domain<3>(d.size[0],d.size[1],d.size[2])'}[D]) + lp + 'c[%s]=e2.get(%s);' % (lin, ','.join(ix)), lp + 'c[%s]=p[%s];' % (lin, '+'.join(ex)), what='rebinding a block to described data'))
    return chunks(o, 14, 'b05', PRE)
