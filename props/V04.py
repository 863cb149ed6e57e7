"""V04: the utilities around views: iterators over the processors of a map, casts, clones, local copies, comparisons, and
the small geometric types."""
from vp import *
from pm import *
RULE = "the summarised effect of each utility equals its definition, and nothing but the named result is written"
PRE = P + '#include <ovxx/value_iterator.hpp>\n#include <ovxx/vector_iterator.hpp>\n#include <ovxx/is_same_ptr.hpp>\n#include <ovxx/equal.hpp>\n#include <ovxx/view/cast.hpp>\n#include <ovxx/view/utils.hpp>\n#include <ovxx/domain_utils.hpp>\nusing ovxx::equal;\ntypedef std::complex<float> cfloat; typedef std::complex<double> cdouble;\n'
def tus(tier):
    out = []; o = []
    q = PT('long', 'q')
    # iterators: after every operation, what the iterator names and where it ends up
    ops = {'post_inc': ('{ long r_=*I++; q[0]=r_; q[1]=*I; }', 'k', 'k+1'), 'post_dec': ('{ long r_=*I--; q[0]=r_; q[1]=*I; }', 'k', 'k-1'), 'pre_inc': ('{ long r_=*++I; q[0]=r_; q[1]=*I; }', 'k+1', 'k+1'), 'pre_dec': ('{ long r_=*--I; q[0]=r_; q[1]=*I; }', 'k-1', 'k-1'),
           'plus_eq': ('{ long r_=*(I+=d); q[0]=r_; q[1]=*I; }', 'k+d', 'k+d'), 'minus_eq': ('{ long r_=*(I-=d); q[0]=r_; q[1]=*I; }', 'k-d', 'k-d'), 'plus': ('{ long r_=*(I+d); q[0]=r_; q[1]=*I; }', 'k+d', 'k'), 'minus': ('{ long r_=*(I-d); q[0]=r_; q[1]=*I; }', 'k-d', 'k'),
           'copy': ('{ It J(I); ++J; q[0]=*J; q[1]=*I; }', 'k+1', 'k'), 'keep': ('{ It J=I++; ++I; q[0]=*J; q[1]=*I; }', 'k', 'k+2')}
    kd = [('int', 'k', 'r(3,6)'), ('int', 'd', 'r(-2,2)')]
    for nm, (b, x, y) in ops.items():
        o.append(Ob('value_' + nm, [q] + kd + [('unsigned', 'e', 'r(1,4)')], 'typedef ovxx::value_iterator<unsigned,unsigned> It; It I(40+k*e,e); ' + b, 'q[0]=40+(%s)*(int)e; q[1]=40+(%s)*(int)e;' % (x, y), extent={'q': '16'}, what='value iterators: the returned and the remaining position'))
        for T, st in (('int', 1), ('float', 3)):
            o.append(Ob('vector_%s_%s' % (nm, T), [q, PT(T, 'a', '0..9')] + kd, 'typedef ovxx::vector_iterator<Vector<%s,Blk<1,%s> > > It; Vector<%s,Blk<1,%s> > v(*new Blk<1,%s>(a,10,%d)); It I(v,k); ' % (T, T, T, T, T, st) + b if 0 else
                        'typedef Blk<1,%s> Bk; Bk bk(a,10,%d); typedef ovxx::vector_iterator<Vector<%s,Bk> > It; Vector<%s,Bk> v(bk); It I(v,k); ' % (T, st, T, T) + b, 'q[0]=a[(%s)*%d]; q[1]=a[(%s)*%d];' % (x, st, y, st), extent={'q': '16'}, what='vector iterators: the returned and the remaining element'))
    cmp_ = '{ q[0]=I==J; q[1]=I!=J; q[2]=I<J; q[3]=J-I; }'
    o.append(Ob('value_compare', [q, ('int', 'k', 'r(3,6)'), ('int', 'l', 'r(3,6)')], 'typedef ovxx::value_iterator<unsigned,unsigned> It; It I(k,1), J(l,1); ' + cmp_, 'q[0]=k==l; q[1]=k!=l; q[2]=k<l; q[3]=l-k;'))
    o.append(Ob('vector_compare', [q, PT('int', 'a'), ('int', 'k', 'r(3,6)'), ('int', 'l', 'r(3,6)')], 'typedef Blk<1,int> Bk; Bk bk(a,10,1); typedef ovxx::vector_iterator<Vector<int,Bk> > It; Vector<int,Bk> v(bk); It I(v,k), J(v,l); ' + cmp_, 'q[0]=k==l; q[1]=k!=l; q[2]=k<l; q[3]=l-k;'))
    o.append(Ob('value_assign', [q, ('int', 'k', 'r(3,6)'), ('int', 'l', 'r(3,6)')], 'typedef ovxx::value_iterator<unsigned,unsigned> It; It I(k,1), J(l,2); I=J; ++I; q[0]=*I; q[1]=*J;', 'q[0]=l+2; q[1]=l;'))
    o.append(Ob('vector_assign', [q, PT('int', 'a'), PT('int', 'b'), ('index_type', 'k', 'r(0,4)'), ('index_type', 'l', 'r(0,3)')], 'typedef ovxx::vector_iterator<Vector<int> > It; Vector<int> v(5,7), w(5,8); for (index_type i=0;i<5;++i) { v.put(i,a[i]); w.put(i,b[i]); } It I(v,k), J(w,l); I=J; ++I; q[0]=*I; q[1]=*J; q[2]=v.get(k); q[3]=v.get(0); q[4]=w.get(0);',
                'q[0]=b[l+1]; q[1]=b[l]; q[2]=a[k]; q[3]=a[0]; q[4]=b[0];', what='assigning an iterator moves the iterator and leaves both vectors alone'))
    out += chunks(o, 12, 'iter', PRE, [], {})
    # every map: walking the processors of every subblock with *it++
    o = []
    W = ('W',); B = lambda n: ('B', n); C = lambda n, c=1: ('C', n, c)
    X = '#include <ovxx/parallel/subset_map.hpp>\n#include <ovxx/parallel/transpose_map_decl.hpp>\n#include <ovxx/parallel/scalar_map.hpp>\n'
    def walk(nm, P, decl, T, holders, dom):
        k = 0; impl = ''; spec = ''
        for sb, hs in enumerate(holders):
            impl += '{ %s::processor_iterator b=m.processor_begin(%d), e=m.processor_end(%d); index_type z=0; for (; b!=e && z<%d; ) o[%d+z++]=*b++; o[%d]=z; o[%d]=b==e; }' % (T, sb, sb, len(hs) + 1, k, k + len(hs) + 1, k + len(hs) + 2)
            spec += ''.join('o[%d]=%d;' % (k + j, x) for j, x in enumerate(hs)) + 'o[%d]=%d; o[%d]=1;' % (k + len(hs) + 1, len(hs), k + len(hs) + 2)
            k += len(hs) + 3
        for pr in sorted({0, P - 1}):
            o.append(Ob('walk_%s_%d_%d' % (nm, P, pr), [('index_type*', 'o', '')], 'world(%d,[&](int pr_){ if (pr_!=%d) return; %s %s %s },1);' % (P, pr, decl, 'm.impl_apply(%s);' % dom if dom else '', impl), spec, extent={'o': str(8 * k)}, what='walking the processors that hold a subblock'))
    def mp(P, m, dom): walk(m.name().replace('-', '_'), P, 'typedef %s Ma; ' % m.type() + m.decl('m'), 'Ma', [[p] for p in m.pv] if not m.repl else [list(m.pv)], dom)
    mp(3, M([B(3)]), 'Domain<1>(7)'); mp(3, M([C(2, 2)], [2, 0]), 'Domain<1>(7)'); mp(4, M([B(2), C(2)], [3, 1, 0, 2]), 'Domain<2>(4,5)'); mp(2, M([W], [1]), 'Domain<1>(3)')
    mp(4, M([W], [0, 2, 3], repl=True), 'Domain<1>(3)'); mp(3, M([W, W], [2], repl=True), 'Domain<2>(3,2)'); mp(8, M([B(2), C(2, 1), B(2)], [7, 6, 5, 4, 3, 2, 1, 0]), 'Domain<3>(4,3,2)')
    for pr in (0, 2): o.append(Ob('walk_local_%d' % pr, [('index_type*', 'o', '')], 'world(3,[&](int pr_){ if (pr_!=%d) return; Local_map m; Local_map::processor_iterator b=m.processor_begin(0), e=m.processor_end(0); o[0]=*b++; o[1]=b==e; },1);' % pr, 'o[0]=%d; o[1]=1;' % pr, extent={'o': '16'}))
    for pr in (0, 2): o.append(Ob('walk_scalar_%d' % pr, [('index_type*', 'o', '')], 'world(3,[&](int pr_){ if (pr_!=%d) return; ovxx::parallel::scalar_map<1> m; ovxx::parallel::scalar_map<1>::processor_iterator b=m.processor_begin(0), e=m.processor_end(0); index_type z=0; for (;b!=e && z<4;) o[z++]=*b++; o[4]=z; },1);' % pr, 'o[0]=0; o[1]=1; o[2]=2; o[4]=3;', extent={'o': '40'}))
    o.append(Ob('walk_assign', [('index_type*', 'o', '')], 'world(3,[&](int pr_){ if (pr_!=1) return; Vector<processor_type> s1(1), s2(2); s1.put(0,2); s2.put(0,1); s2.put(1,0); Replicated_map<1> a(s1), b(s2); Replicated_map<1>::processor_iterator i=a.processor_begin(0); i=b.processor_begin(0); ++i; o[0]=*i; o[1]=*a.processor_begin(0); o[2]=a.subblock(2); o[3]=a.subblock(0)==no_subblock; },1);', 'o[0]=0; o[1]=2; o[2]=0; o[3]=1;', extent={'o': '32'}, what='re-seating an iterator of one replicated map on another leaves the maps alone'))
    out += chunks(o, 6, 'walk', PAR + X, [], PAROPT)
    # casts
    o = []
    ix = {1: ('i',), 2: ('i', 'j'), 3: ('i', 'j', 'k')}; VN = {1: 'Vector', 2: 'Matrix', 3: 'Tensor'}
    def lp(D): return ''.join('for (index_type %s=0;%s<n%d;++%s) ' % (v, v, d, v) for d, v in enumerate(ix[D]))
    def lin(D): return {1: 'i', 2: 'i*n1+j', 3: '(i*n1+j)*n2+k'}[D]
    def sa(D): return '+'.join('%s*s%d' % (v, d) for d, v in enumerate(ix[D]))
    for D in (1, 2, 3):
        sz = [N('n%d' % d, 1, 4 if D < 3 else 2) for d in range(D)]; st = [('stride_type', 's%d' % d, ['r(1,3)', 'r(3,8)', 'r(11,13)'][d]) for d in range(D)]
        for T, U in (('float', 'double'), ('double', 'float'), ('int', 'float'), ('int', 'double'), ('float', 'int'), ('cfloat', 'cdouble'), ('cdouble', 'cfloat'), ('float', 'cfloat'), ('float', 'float'), ('int', 'long'), ('long', 'short')):
            mk = 'typedef Blk<%d,%s> Bk; Bk bk(a,%s); %s<%s,Bk> v(bk); ' % (D, T, ','.join('n%d,s%d' % (d, d) for d in range(D)), VN[D], T)
            o.append(Ob('cast_%d_%s_%s' % (D, T, U), [PT(U, 'c'), PT(T, 'a')] + sz + st, mk + 'if (%s) throw 1; %s c[%s]=ovxx::view_cast<%s>(v).get(%s);' % ('||'.join('ovxx::view_cast<%s>(v).size(%d)!=n%d' % (U, d, d) for d in range(D)), lp(D), lin(D), U, ','.join(ix[D])), lp(D) + 'c[%s]=static_cast<%s>(a[%s]);' % (lin(D), U, sa(D)), what='view_cast: every element converted, the sizes kept'))
        o.append(Ob('cast_assign_%d' % D, [PT('double', 'c'), PT('float', 'a'), PT('double', 'b')] + sz + st, 'typedef Blk<%d,float> Bk; Bk bk(a,%s); %s<float,Bk> v(bk); typedef Blk<%d,double> Bd; %s Bd bc(c,%s); Bd bb(b,%s); %s<double,Bd> w(bc), x(bb); w=ovxx::view_cast<double>(v)*x;' % (D, ','.join('n%d,s%d' % (d, d) for d in range(D)), VN[D], D, 'stride_type t0=%s; ' % {1: '1', 2: 'n1', 3: 'n1*n2'}[D] + {1: '', 2: 'stride_type t1=1; ', 3: 'stride_type t1=n2, t2=1; '}[D], *(2 * [','.join('n%d,t%d' % (d, d) for d in range(D))]), VN[D]), lp(D) + 'c[%s]=(double)a[%s]*b[%s];' % (lin(D), sa(D), lin(D)), what='a cast view inside an expression'))
        # clones and creation: right sizes, own storage
        for T in ('float', 'cfloat', 'int'):
            V = '%s<%s>' % (VN[D], T); dn = ','.join('n%d' % d for d in range(D)); I = ','.join(ix[D]); szs = lambda e: '||'.join('%s.size(%d)!=n%d' % (e, d, d) for d in range(D))
            o.append(Ob('clone_%d_%s' % (D, T), [PT(T, 'c'), PT(T, 'a')] + sz + st, 'typedef Blk<%d,%s> Bk; Bk bk(a,%s); const_%s<%s,Bk> v(bk); %s w=ovxx::clone_view<%s >(v); if (%s) throw 1; %s w.put(%s,v.get(%s)); %s c[%s]=w.get(%s);' % (D, T, ','.join('n%d,s%d' % (d, d) for d in range(D)), VN[D], T, V, V, szs('w'), lp(D), I, I, lp(D), lin(D), I), lp(D) + 'c[%s]=a[%s];' % (lin(D), sa(D)), what='a clone has the sizes of the original and storage of its own'))
            o.append(Ob('clonem_%d_%s' % (D, T), [PT(T, 'c'), PT(T, 'a')] + sz + st, 'typedef Blk<%d,%s> Bk; Bk bk(a,%s); const_%s<%s,Bk> v(bk); Local_map lm; %s w=ovxx::clone_view<%s >(v,lm); if (%s) throw 1; %s w.put(%s,v.get(%s)); %s c[%s]=w.get(%s);' % (D, T, ','.join('n%d,s%d' % (d, d) for d in range(D)), VN[D], T, V, V, szs('w'), lp(D), I, I, lp(D), lin(D), I), lp(D) + 'c[%s]=a[%s];' % (lin(D), sa(D)), what='a clone with a map'))
            dom = 'Domain<1>(f,2,n0)' if D == 1 else 'Domain<%d>(Domain<1>(f,2,n0),%s)' % (D, ','.join('Domain<1>(3,1,n%d)' % d for d in range(1, D)))
            for kind, ar in (('', ''), ('m', ',lm'), ('v', ',x,lm')):
                o.append(Ob('create%s_%d_%s' % (kind, D, T), [PT(T, 'c'), (T if T != 'cfloat' else 'float', 'x', ''), N('f', 0, 4)] + sz, 'Local_map lm; %s w=ovxx::create_view<%s >(%s%s); if (%s) throw 1; %s %s c[%s]=w.get(%s);' % (V, V, dom, ar, szs('w'), '' if kind == 'v' else lp(D) + 'w.put(%s,x);' % I, lp(D), lin(D), I), lp(D) + 'c[%s]=x;' % lin(D), what='a created view has the sizes of the domain%s' % (' and the given value' if kind == 'v' else '')))
            o.append(Ob('local_%d_%s' % (D, T), [PT(T, 'c'), PT(T, 'a')] + sz + st, 'typedef Blk<%d,%s> Bk; Bk bk(a,%s); %s<%s,Bk> v(bk); %s c[%s]=ovxx::convert_to_local(v).get(%s);' % (D, T, ','.join('n%d,s%d' % (d, d) for d in range(D)), VN[D], T, lp(D), lin(D), I), lp(D) + 'c[%s]=a[%s];' % (lin(D), sa(D)), what='a local view is its own local view'))
    out += chunks(o, 12, 'cast', PRE, [], {})
    # comparisons
    o = []
    for T in ('float', 'double'):
        al = lambda a, b, rel='%s(1e-4)' % T, ab='%s(1e-6)' % T: '({ %s x_=%s,y_=%s; %s d_=x_<y_?y_-x_:x_-y_; x_=x_<0?-x_:x_; y_=y_<0?-y_:y_; d_<%s || (x_<y_ ? d_/x_ : d_/y_)<=%s; })' % (T, a, b, T, ab, rel)
        near = [(T, 'x', 'ch([1.,-1.,0.25,2.,-3.])'), (T, 'e', 'ch([0.,1e-5,-1e-5,3e-4,-3e-4,1e-7,0.5])')]
        o.append(Ob('equal_' + T, near, 'return equal(x,x+e);', 'return %s;' % al('x', 'x+e'), ret='bool', n=60, what='equality within the relative and absolute tolerance'))
        o.append(Ob('almost_' + T, near + [(T, 'u', 'ch([1e-6,1e-3])'), (T, 'w', 'ch([1e-8,1e-2])')], 'return ovxx::almost_equal(x,x+e,u,w);', 'return %s;' % al('x', 'x+e', 'u', 'w'), ret='bool', n=60))
        o.append(Ob('equal_c_' + T, near + [(T, 'y', 'ch([1.,-2.])'), (T, 'g', 'ch([0.,1e-5,3e-4])')], 'return equal(complex<%s>(x,y),complex<%s>(x+e,y+g));' % (T, T), 'return %s && %s;' % (al('x', 'x+e'), al('y', 'y+g')), ret='bool', n=60))
        o.append(Ob('equal_int_' + T, [(T, 'e', 'ch([0.,1e-5,3e-4])'), ('int', 'k', 'ch([1,-2,3])')], 'return equal(k,%s(k)+e);' % T, 'return %s;' % al('%s(k)' % T, 'k+e'), ret='bool'))
    o.append(Ob('equal_int', [('int', 'k', 'r(-2,2)'), ('int', 'l', 'r(-2,2)')], 'return equal(k,l);', 'return k==l;', ret='bool'))
    for D in (1, 2, 3):
        V = VN[D]; sz = [N('n%d' % d, 0, 4 if D < 3 else 2) for d in range(D)]; dn = ','.join('n%d' % d for d in range(D))
        for T in ('int',):
            st2 = {1: ('1', '2'), 2: ('n1', '1', '1', 'n0'), 3: None}[D]
            bA, bB = {1: ('a,n0,1', 'b,n0,2'), 2: ('a,n0,n1,n1,1', 'b,n0,1,n1,n0'), 3: ('a,n0,n1*n2,n1,n2,n2,1', 'b,n0,1,n1,n0,n2,n0*n1')}[D]
            B2 = {1: 'i*2', 2: 'i+j*n0', 3: 'i+j*n0+k*n0*n1'}[D]
            o.append(Ob('equal_view_%d' % D, [PT('int', 'a', '0..1'), PT('int', 'b', '0..1')] + sz, 'typedef Blk<%d,int> Bk; Bk x(%s), y(%s); %s<int,Bk> v(x); const_%s<int,Bk> w(y); return equal(v,w);' % (D, bA, bB, V, V), 'bool e=true; %s if (a[%s]!=b[%s]) e=false; return e;' % (lp(D), lin(D), B2), ret='bool', n=80, what='views are equal exactly if all elements are'))
            o.append(Ob('equal_self_%d' % D, [PT('int', 'a', '0..1'), N('p', 0, 30)] + sz, 'typedef Blk<%d,int> Bk; Bk x(%s), y(%s); %s<int,Bk> v(x), w(y); return equal(v,w);' % (D, bA, bA, V), 'return true;', ret='bool', n=30))
        o.append(Ob('equal_size_%d' % D, [PT('int', 'a', '0..1')] + sz + [N('m%d' % d, 1, 3) for d in range(D)], 'typedef Blk<%d,int> Bk; Bk x(%s), y(%s); %s<int,Bk> v(x), w(y); return equal(v,w);' % (D, ','.join('a,' [:0] or 'n%d,0' % d for d in range(D)).join(('a,', '')), ','.join('m%d,0' % d for d in range(D)).join(('a,', '')), V), 'return %s;' % '&&'.join('n%d==m%d' % (d, d) for d in range(D)), ret='bool', n=80, what='views of different sizes are not equal'))
    o.append(Ob('equal_proxy', [PT('int', 'a', '0..1'), PT('int', 'b', '0..1'), N('i', 0, 3), N('j', 0, 3), q], 'typedef Dense<1,int> D1; D1 x(4,a), y(4,b); x.admit(true); y.admit(true); ovxx::element_proxy<D1,1> e(x,i), g(y,j); q[0]=equal(e,b[j]); q[1]=equal(a[i],g); q[2]=equal(e,g); x.release(true); y.release(true);', 'bool s=a[i]==b[j]; q[0]=s; q[1]=s; q[2]=s;', what='elements named by proxies'))
    # pointers
    o.append(Ob('same_ptr', [PT('float', 'a'), N('i', 0, 2), N('j', 0, 2), q], 'using ovxx::is_same_ptr; float const *c=a+j; q[0]=is_same_ptr(a+i,a+j); q[1]=is_same_ptr(a+i,c); q[2]=is_same_ptr((double*)a,a); typedef std::pair<float*,float*> pp; typedef std::pair<float const*,float const*> cp; q[3]=is_same_ptr(pp(a+i,a+1),pp(a+j,a+1)); q[4]=is_same_ptr(pp(a,a+i),cp(a,a+j)); q[5]=is_same_ptr(pp(a,a+i),pp(a+j,a+i));',
                'q[0]=i==j; q[1]=i==j; q[2]=0; q[3]=i==j; q[4]=i==j; q[5]=j==0;', what='pointer identity, also of split-complex pairs'))
    # vertices, lengths, domains
    for D in (1, 2, 3):
        xs = [N('x%d' % d, 0, 5) for d in range(D)]; ys = [N('y%d' % d, 0, 5) for d in range(D)]; X_ = ','.join(v for _, v, _ in xs); Y_ = ','.join(v for _, v, _ in ys)
        for C_, cx in (('Length<%d>' % D, 'ovxx::Length<%d>' % D), ('Vertex', 'ovxx::Vertex<index_type,%d>' % D), ('Index', 'Index<%d>' % D)):
            o.append(Ob('vertex_%s_%d' % (C_.split('<')[0], D), [q] + xs + ys, 'typedef %s L; L z, a(%s), b(%s), c(a); q[0]=a==b; q[1]=a!=b; q[2]=a==c; q[3]=a!=c; c=b; q[4]=c==b; %s %s' % (cx, X_, Y_, ''.join('q[%d]=z[%d]; q[%d]=a[%d];' % (5 + 2 * d, d, 6 + 2 * d, d) for d in range(D)), ''.join('c[%d]=9+%d; q[%d]=c[%d];' % (d, d, 11 + d, d) for d in range(D))),
                        'bool e=%s; q[0]=e; q[1]=!e; q[2]=1; q[3]=0; q[4]=1; %s %s' % ('&&'.join('x%d==y%d' % (d, d) for d in range(D)), ''.join('q[%d]=0; q[%d]=x%d;' % (5 + 2 * d, 6 + 2 * d, d) for d in range(D)), ''.join('q[%d]=9+%d;' % (11 + d, d) for d in range(D))), n=60, what='vertices: default, copy, element access, equality'))
        o.append(Ob('length_%d' % D, [q] + xs, 'ovxx::Length<%d> a(%s); q[0]=ovxx::total_size(a); %s Blk<%d,int> b(0,%s); ovxx::Length<%d> e=ovxx::extent<%d>(b); %s' % (D, X_, ''.join('q[%d]=ovxx::size_of_dim(a,%d);' % (1 + d, d) for d in range(D)), D, ','.join('x%d,1' % d for d in range(D)), D, D, ''.join('q[%d]=e[%d];' % (4 + d, d) for d in range(D))), 'q[0]=%s; %s %s' % ('*'.join('x%d' % d for d in range(D)), ''.join('q[%d]=x%d;' % (1 + d, d) for d in range(D)), ''.join('q[%d]=x%d;' % (4 + d, d) for d in range(D))), what='lengths of blocks and their product'))
        for E in range(1, D + 1):
            dom = ['Domain<1>(x%d,y%d+1,l%d)' % (d, d, d) for d in range(D)]; dd = dom[0] if D == 1 else 'Domain<%d>(%s)' % (D, ','.join(dom))
            o.append(Ob('project_%d_%d' % (D, E), [q] + xs + ys + [N('l%d' % d, 1, 4) for d in range(D)], 'Domain<%d> a=%s; Domain<%d> p=ovxx::project<%d>(a); Domain<1> s[]={%s}; Domain<%d> c=ovxx::construct_domain<%d>(s); if (!(c==a)) throw 1; %s' % (D, dd, E, E, ','.join(dom), D, D, ''.join('q[%d]=p[%d].first(); q[%d]=p[%d].stride(); q[%d]=p[%d].length();' % (3 * d, d, 3 * d + 1, d, 3 * d + 2, d) for d in range(E))),
                        ''.join('q[%d]=x%d; q[%d]=y%d+1; q[%d]=l%d;' % (3 * d, d, 3 * d + 1, d, 3 * d + 2, d) for d in range(E)), what='projecting and assembling domains'))
    out += chunks(o, 12, 'cmp', PRE, [], {})
    # the local copy of a distributed view
    o = []
    for nm, P, Ts, m, sizes in (('b', 3, 'float', M([B(3)]), (5,)), ('c', 2, 'cfloat', M([C(2, 1)]), (4,)), ('s', 3, 'int', M([B(2)], [2, 1]), (3,)), ('r', 2, 'float', M([W], [0, 1], repl=True), (3,)), ('m', 4, 'float', M([B(2), B(2)]), (3, 2)), ('t', 2, 'float', M([W, B(2), W]), (2, 2, 2))):
        a = A('a', Ts, m, P, sizes); gs = list(a.all()); n = len(gs)
        x = dict(a.extent()); x['o'] = str(P * n * {'float': 4, 'int': 4, 'cfloat': 8}[Ts])
        eq = a.same(); acc = ''.join('o[pr_*%d+%d]=l.get(%s);' % (n, k, ','.join(map(str, g))) for k, g in enumerate(gs))
        V = VN[len(sizes)]
        o.append(Ob('to_local_' + nm, a.args() + [PT(Ts, 'o')], eq + par(P, [a], 'auto l=ovxx::convert_to_local(a); ' + acc, 2), eq + ''.join('o[%d]=%s;' % (p * n + k, a.ref(g)) for p in range(P) for k, g in enumerate(gs)), extent=x, what='every process gets a local view of all elements'))
    out += chunks(o, 2, 'conv', PAR + '#include <ovxx/view/utils.hpp>\n', ['@inline=225'], PAROPT)
    return out
