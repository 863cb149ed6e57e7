"P01: where a map says global data lives."
from vp import *
from pm import *
import itertools, re
RULE = "the summarised effect of each map query equals that of a reference that finds the answer by enumerating the global indices"
REF = '''
namespace mr // layout by enumeration
{
struct D { int k; index_type n, c;}; // kind: 0 whole 1 block 2 cyclic
__attribute__((noinline)) index_type sb(D const &d, index_type size, index_type i)
{
  if (d.k==0) return 0;
  index_type j=0, left=0;
  for (index_type x=0; x!=i; ++x) // walk to i, one element at a time
  {
    if (d.k==1) { ++left; if (left == size/d.n + (j<size%d.n ? 1 : 0)) { left=0; ++j;}}
    else { ++left; if (left==d.c) { left=0; ++j; if (j==d.n) j=0;}}
  }
  return j;
}
__attribute__((noinline)) index_type patch(D const &d, index_type size, index_type i)
{ return d.k==2 ? i/(d.c*d.n) : 0;}
__attribute__((noinline)) index_type size(D const &d, index_type size, index_type s)
{ index_type r=0; for (index_type i=0; i!=size; ++i) if (sb(d,size,i)==s) ++r; return r;}
__attribute__((noinline)) index_type local(D const &d, index_type size, index_type g)
{ index_type r=0; for (index_type i=0; i!=g; ++i) if (sb(d,size,i)==sb(d,size,g)) ++r; return r;}
__attribute__((noinline)) index_type global(D const &d, index_type size, index_type s, index_type l)
{ index_type r=0; for (index_type i=0; i!=size; ++i) if (sb(d,size,i)==s) { if (l==0) r=i; --l;} return r;}
__attribute__((noinline)) index_type patches(D const &d, index_type size, index_type s)
{
  if (d.k!=2) return 1;
  index_type r=0; for (index_type i=0; i!=size; ++i) if (sb(d,size,i)==s && i%d.c==0) ++r; return r;
}
__attribute__((noinline)) index_type plen(D const &d, index_type size, index_type s, index_type p)
{ index_type r=0; for (index_type i=0; i!=size; ++i) if (sb(d,size,i)==s && patch(d,size,i)==p) ++r; return r;}
__attribute__((noinline)) index_type gfirst(D const &d, index_type size, index_type s, index_type p)
{
  if (d.k==1) { index_type r=0; for (index_type j=0; j!=s; ++j) r+=mr::size(d,size,j); return r;}
  return d.k==2 ? (s+p*d.n)*d.c : 0;
}
__attribute__((noinline)) index_type lfirst(D const &d, index_type size, index_type s, index_type p)
{ index_type r=0; for (index_type j=0; j!=p; ++j) r+=plen(d,size,s,j); return r;}
}
using mr::D;
'''
K = {'W': 0, 'B': 1, 'C': 2}
def rd(d): return 'D{%d,%s,%s}' % (K[d[0]], d[1] if d[0] != 'W' else 1, d[2] if d[0] == 'C' else 1)
def tus(tier):
    th = tier == 'thorough'
    out = []
    # the arithmetic of one distribution, at symbolic sizes, counts and contiguities
    o = []
    n, k, c = ('length_type', 'n', 'r(0,14)' if not th else 'r(0,30)'), ('length_type', 'k', 'r(1,5)'), ('length_type', 'c', 'r(1,4)')
    i, s, p, q = ('index_type', 'i', 'r(0,13)'), ('index_type', 's', 'r(0,4)'), ('index_type', 'p', 'r(0,6)'), ('index_type*', 'o', '')
    U = 'using namespace ovxx::parallel; '
    seg = [('size', [n, k, s], 's<k', 'segment_size(n,k,s)', 'mr::size(D{1,k,1},n,s)'),
           ('csize', [n, k, c, s], 's<k', 'segment_size(n,k,c,s)', 'mr::size(D{2,k,c},n,s)'),
           ('chunks', [n, k, c, s], 's<k', 'segment_chunks(n,k,c,s)', 'mr::patches(D{2,k,c},n,s)'),
           ('chunk_size', [n, k, c, s, p], 's<k && p<mr::patches(D{2,k,c},n,s)', 'segment_chunk_size(n,k,c,s,p)', 'mr::plen(D{2,k,c},n,s,p)'),
           ('start', [n, k, s], 's<k', 'segment_start(n,k,s)', 'mr::gfirst(D{1,k,1},n,s,0)')]
    for name, a, cond, impl, spec in seg:
        o.append(Ob('segment_' + name, [q] + a, U + 'if (%s) o[0]=%s;' % (cond, impl), 'if (%s) o[0]=%s;' % (cond, spec), extent={'o': '8'}))
    for nm, a, cx, R in (('Whole', [n], 'Whole_dist d;', 'D{0,1,1}'), ('Block', [n, k], 'Block_dist d(k);', 'D{1,k,1}'), ('Cyclic', [n, k, c], 'Cyclic_dist d(k,c);', 'D{2,k,c}')):
        kk = 'k' if nm != 'Whole' else '1'
        def one(name, args, cond, impl, spec, ext=8):
            o.append(Ob(nm + '_' + name, [q] + a + args, 'Domain<1> dm(n); %s if (%s) { %s }' % (cx, cond, impl), 'if (%s) { %s }' % (cond, spec), extent={'o': str(ext)}))
        one('desc', [], 'true', 'o[0]=d.num_subblocks(); o[1]=d.cyclic_contiguity(); o[2]=d.distribution();', 'o[0]=%s; o[1]=%s; o[2]=%s;' % (kk, 'c' if nm == 'Cyclic' else '0', nm.lower()), 24)
        one('patches', [s], 's<' + kk, 'o[0]=d.impl_subblock_patches(dm,s);', 'o[0]=mr::patches(%s,n,s);' % R)
        one('size', [s], 's<' + kk, 'o[0]=d.impl_subblock_size(dm,s);', 'o[0]=mr::size(%s,n,s);' % R)
        ok = 's<%s && p<mr::patches(%s,n,s)' % (kk, R)
        if nm == 'Whole': ok += ' && n>0'
        one('global', [s, p], ok, 'od(o,d.impl_patch_global_dom(dm,s,p));', 'od(o,Domain<1>(mr::gfirst(%s,n,s,p),1,mr::plen(%s,n,s,p)));' % (R, R), 24)
        one('local', [s, p], ok, 'od(o,d.impl_patch_local_dom(dm,s,p));', 'od(o,Domain<1>(mr::lfirst(%s,n,s,p),1,mr::plen(%s,n,s,p)));' % (R, R), 24)
        one('sb_of', [i], 'i<n', 'o[0]=d.impl_subblock_from_index(dm,i);', 'o[0]=mr::sb(%s,n,i);' % R)
        one('patch_of', [i], 'i<n', 'o[0]=d.impl_patch_from_index(dm,i);', 'o[0]=mr::patch(%s,n,i);' % R)
        one('local_of', [i], 'i<n', 'o[0]=d.impl_local_from_global_index(dm,i);', 'o[0]=mr::local(%s,n,i);' % R)
        one('global_of', [s, i], 's<%s && i<mr::size(%s,n,s)' % (kk, R), 'o[0]=d.impl_global_from_local_index(dm,s,i);', 'o[0]=mr::global(%s,n,s,i);' % R)
    out += chunks(o, 12, 'dist', PAR + REF, [], PAROPT)
    W = ('W',); B = lambda n: ('B', n); C = lambda n, c=1: ('C', n, c)
    # whole maps: 1-3 dimensions, concrete subblock grids, symbolic sizes
    def grid(m, P, dim):
        R = [rd(d) for d in m.ds]; nsb = m.nsb
        sizes = [('length_type', 'n%d' % d, 'r(0,7)' if dim == 1 else 'r(1,5)' if dim == 2 else 'r(1,3)') for d in range(dim)]
        dom = 'Domain<%d>(%s)' % (dim, ','.join('n%d' % d for d in range(dim)))
        ks = [1 if d[0] == 'W' else d[1] for d in m.ds]
        split = '; '.join('index_type s%d=s%s%%%d' % (d, '' if d == dim - 1 else '/%d' % prod(ks[d + 1:]), ks[d]) for d in range(dim)) + ';'
        npat = [ 'mr::patches(%s,n%d,s%d)' % (R[d], d, d) for d in range(dim)]
        tag = '%d_%s' % (P, m.name())
        mk = m.decl('m') + ' m.impl_apply(%s);' % dom
        def w(body, rank=0): return 'world(%d,[&](int pr_){ if (pr_!=%d) return; %s %s },1);' % (P, rank, mk, body)
        sbs = ('index_type', 's', 'r(0,%d)' % (nsb - 1)); pa = ('index_type', 'p', 'r(0,4)')
        q = ('index_type*', 'o', '')
        pd = 'index_type p_=p; ' + ''.join('index_type p%d=p_%%k%d; p_/=k%d; ' % (d, d, d) for d in reversed(range(dim)))
        ok = ''.join('index_type k%d=%s; ' % (d, npat[d]) for d in range(dim))
        put = lambda e: ''.join('od(o+%d,e%s);' % (3 * d, '' if dim == 1 else '[%d]' % d) for d in range(dim)) if e is None else 'Domain<%d> e=%s; ' % (dim, e) + ''.join('od(o+%d,e[%d]);' % (3 * d, d) for d in range(dim))
        cond = '%sif (p<%s) ' % (ok, '*'.join('k%d' % d for d in range(dim)))
        def one(name, args, impl, spec, ext): o.append(Ob('%s_%s' % (name, tag), [q] + sizes + args, impl, spec, extent={'o': str(8 * ext)}))
        one('subblock_domain', [sbs], w(put('m.impl_subblock_domain<%d>(s)' % dim)), split + ''.join('od(o+%d,Domain<1>(mr::size(%s,n%d,s%d)));' % (3 * d, R[d], d, d) for d in range(dim)), 3 * dim)
        one('subblock_extent', [sbs], w('ovxx::Length<%d> e=m.impl_subblock_extent<%d>(s); ' % (dim, dim) + ''.join('o[%d]=e[%d];' % (d, d) for d in range(dim)) + 'o[%d]=m.impl_num_patches(s);' % dim),
            split + ''.join('o[%d]=mr::size(%s,n%d,s%d);' % (d, R[d], d, d) for d in range(dim)) + 'o[%d]=%s;' % (dim, '*'.join(npat)), dim + 1)
        one('none', [], w('index_type s=no_subblock; ' + put('m.impl_subblock_domain<%d>(s)' % dim) + 'o[%d]=m.impl_num_patches(s); ovxx::Length<%d> x=m.impl_subblock_extent<%d>(s);' % (3 * dim, dim, dim) + ''.join('o[%d]=x[%d];' % (3 * dim + 1 + d, d) for d in range(dim))
            + '{o+=%d;' % (4 * dim + 1) + put('m.impl_global_domain<%d>(s,0)' % dim) + '} {o+=%d;' % (3 * dim) + put('m.impl_local_domain<%d>(s,0)' % dim) + '}'),
            ''.join('od(o+%d,Domain<1>(0));' % (3 * d) for d in range(dim)) + ''.join('o[%d]=0;' % (3 * dim + d) for d in range(dim + 1)) + 'o+=%d;' % (4 * dim + 1) + ''.join('od(o+%d,Domain<1>(0));' % (3 * d) for d in range(2 * dim)), 10 * dim + 1)
        one('global_domain', [sbs, pa], split + cond + '{' + w(put('m.impl_global_domain<%d>(s,p)' % dim)) + '}', split + cond + '{' + pd + ''.join('od(o+%d,Domain<1>(mr::gfirst(%s,n%d,s%d,p%d),1,mr::plen(%s,n%d,s%d,p%d)));' % (3 * d, R[d], d, d, d, R[d], d, d, d) for d in range(dim)) + '}', 3 * dim)
        one('local_domain', [sbs, pa], split + cond + '{' + w(put('m.impl_local_domain<%d>(s,p)' % dim)) + '}', split + cond + '{' + pd + ''.join('od(o+%d,Domain<1>(mr::lfirst(%s,n%d,s%d,p%d),1,mr::plen(%s,n%d,s%d,p%d)));' % (3 * d, R[d], d, d, d, R[d], d, d, d) for d in range(dim)) + '}', 3 * dim)
        ix = [('index_type', 'i%d' % d, 'r(0,5)' if dim == 1 else 'r(0,4)' if dim == 2 else 'r(0,2)') for d in range(dim)]
        inn = 'if (%s) ' % ' && '.join('i%d<n%d' % (d, d) for d in range(dim))
        I = 'Index<%d>(%s)' % (dim, ','.join('i%d' % d for d in range(dim)))
        own = ''.join('index_type s%d=mr::sb(%s,n%d,i%d); ' % (d, R[d], d, d) for d in range(dim))
        fold = lambda a, k: a[0] if len(a) == 1 else '(%s)*%s+%s' % (fold(a[:-1], k[:-1]), k[-1], a[-1])
        one('of_index', ix, inn + '{' + w('o[0]=m.impl_subblock_from_global_index(%s); o[1]=m.impl_patch_from_global_index(%s); ' % (I, I) + ''.join('o[%d]=m.impl_local_from_global_index(%d,i%d); o[%d]=m.impl_global_from_local_index(%d,o[0],o[%d]); o[%d]=m.impl_dim_subblock_from_index(%d,i%d); o[%d]=m.impl_dim_patch_from_index(%d,i%d);' % (2 + 4 * d, d, d, 3 + 4 * d, d, 2 + 4 * d, 4 + 4 * d, d, d, 5 + 4 * d, d, d) for d in range(dim))) + '}',
            inn + '{' + own + 'o[0]=%s; o[1]=%s;' % (fold(['s%d' % d for d in range(dim)], [str(k) for k in ks]), fold(['mr::patch(%s,n%d,i%d)' % (R[d], d, d) for d in range(dim)], npat)) + ''.join('o[%d]=mr::local(%s,n%d,i%d); o[%d]=i%d; o[%d]=s%d; o[%d]=mr::patch(%s,n%d,i%d);' % (2 + 4 * d, R[d], d, d, 3 + 4 * d, d, 4 + 4 * d, d, 5 + 4 * d, R[d], d, d) for d in range(dim)) + '}', 2 + 4 * dim)
        # who holds what, asked on every process
        k = 0; impl = ''; spec = []
        for pr in range(P + 1):
            impl += 'o[%d]=m.subblock(%d);' % (k, pr); k += 1
            spec.append(m.pv.index(pr) if pr in m.pv else 'no_subblock')
        for sb in range(nsb):
            impl += '{ Ma::processor_iterator b=m.processor_begin(%d), e=m.processor_end(%d); o[%d]=*b; ++b; o[%d]=(b==e); }' % (sb, sb, k, k + 1); k += 2
            spec += [m.pv[sb], 1]
        impl += 'o[%d]=m.num_subblocks(); o[%d]=m.num_processors(); const_Vector<processor_type> ps=m.processor_set(); o[%d]=ps.size();' % (k, k + 1, k + 2); k += 3
        spec += [nsb, len(m.pv), len(m.pv)]
        for j, x in enumerate(m.pv): impl += 'o[%d]=ps.get(%d);' % (k, j); k += 1; spec.append(x)
        for d in range(dim):
            impl += 'o[%d]=m.num_subblocks(%d); o[%d]=m.cyclic_contiguity(%d); o[%d]=m.distribution(%d);' % (k, d, k + 1, d, k + 2, d); k += 3
            spec += [ks[d], m.ds[d][2] if m.ds[d][0] == 'C' else 0, {'W': 'whole', 'B': 'block', 'C': 'cyclic'}[m.ds[d][0]]]
        one('holders', [], 'world(%d,[&](int pr_){ typedef %s Ma; %s o[pr_]=m.subblock(); if (pr_!=%d) return; o+=%d; %s },1);' % (P, m.type(), m.decl('m') + ' m.impl_apply(%s);' % dom, P - 1, P, impl),
            ''.join('o[%d]=%s;' % (pr, m.pv.index(pr) if pr in m.pv else 'no_subblock') for pr in range(P)) + ''.join('o[%d]=%s;' % (P + j, x) for j, x in enumerate(spec)), P + k)
    o = []
    for m, P in ((M([B(3)]), 4), (M([C(2, 2)], [2, 0]), 3), (M([C(3, 1)]), 3), (M([W]), 2), (M([B(1)], [1]), 2)): grid(m, P, 1)
    out += chunks(o, 6, 'map1', PAR + REF, [], PAROPT)
    o = []
    for m, P in ((M([B(2), B(3)]), 6), (M([C(2, 2), B(2)], [3, 1, 0, 2]), 5), (M([W, C(3, 1)]), 3), (M([B(2), C(2, 1)]), 4)): grid(m, P, 2)
    out += chunks(o, 6, 'map2', PAR + REF, [], PAROPT)
    o = []
    for m, P in ((M([B(2), W, B(2)]), 4), (M([B(2), C(2, 1), B(2)], [7, 6, 5, 4, 3, 2, 1, 0]), 8), (M([C(2, 1), B(3), W]), 6)): grid(m, P, 3)
    out += chunks(o, 6, 'map3', PAR + REF, [], PAROPT)
    # what the functions on views report, on every process, against the layout model
    o = []
    def view(m, P, sizes, sel=None, e='a', index=True):
        """sel: per dimension an index, a (first, stride, length) or None for everything; e: the C++ expression of that view"""
        a = A('a', 'float', m, P, sizes); H = m.holds(P, sizes); one = m.repl or m.local
        par_sb = lambda pr: 0 if one else m.pv.index(pr)
        hold = {}   # subblock -> dims -> patches
        rank = {}   # process -> subblock
        dims = list(range(len(sizes)))
        if sel == 'T': H = [None if h is None else h[::-1] for h in H]; sizes = sizes[::-1]
        elif sel:
            for pr, h in enumerate(H):
                if h is None: continue
                x = []; keep = True
                for h1, q in zip(h, sel):
                    if q is None: x.append(h1)
                    elif isinstance(q, int): keep = keep and any(q in y for y in h1)
                    else:
                        pos = {q[0] + q[1] * i: i for i in range(q[2])}
                        x.append([[pos[i] for i in y if i in pos] for y in h1]); keep = keep and (any(x[-1]) or one)
                H[pr] = x if keep else None
            sizes = [q[2] if isinstance(q, tuple) else n for n, q in zip(sizes, sel) if not isinstance(q, int)]
        dim = len(sizes)
        for j, sb in enumerate(sorted({par_sb(pr) for pr in range(P) if H[pr] is not None})):
            for pr in range(P):
                if H[pr] is not None and par_sb(pr) == sb: rank[pr] = j; hold[j] = H[pr]
        nsb = len(hold)
        mine = lambda pr: rank.get(pr)
        impl = []; spec = [[] for _ in range(P)]
        def dom(e, f):
            impl.append("".join("oe(o+%d,(%s)[%d]);" % (dom.k + 3 * d, e, d) for d in range(dim))); dom.k += 3 * dim
            for pr in range(P):
                v = f(pr)
                for d in range(dim): spec[pr] += [v[d][0] if v[d][1] else 0, 1, v[d][1]]
        def num(e, f):
            impl.append('o[%d]=%s;' % (dom.k, e)); dom.k += 1
            for pr in range(P): spec[pr].append(f(pr))
        dom.k = 0
        empty = [(0, 0)] * dim
        npt = lambda sb: prod([len(x) for x in hold[sb]])
        def split(h, p):
            r = []
            for x in reversed(h): r.append(p % len(x)); p //= len(x)
            return r[::-1]
        def pg(sb, p): return [(x[i][0] if x[i] else 0, len(x[i])) for x, i in zip(hold[sb], split(hold[sb], p))]
        def pl(sb, p): return [(sum(len(y) for y in x[:i]), len(x[i])) for x, i in zip(hold[sb], split(hold[sb], p))]
        num('num_subblocks(a)', lambda pr: nsb)
        num('subblock(a)', lambda pr: 'no_subblock' if mine(pr) is None else mine(pr))
        if not m.local:
            for r in range(P): num('subblock(a,%d)' % r, lambda pr: 'no_subblock' if mine(r) is None else mine(r))
        num('num_patches(a)', lambda pr: 0 if mine(pr) is None else npt(mine(pr)))
        dom('subblock_domain(a)', lambda pr: empty if mine(pr) is None else [(0, sum(map(len, x))) for x in hold[mine(pr)]])
        dom('subblock_domain(a,no_subblock)', lambda pr: empty)
        dom('local_domain(a)', lambda pr: empty if mine(pr) is None else pl(mine(pr), 0))
        dom('global_domain(a)', lambda pr: empty if mine(pr) is None else pg(mine(pr), 0))
        for sb in range(nsb):
            if sb not in hold: continue
            dom('subblock_domain(a,%d)' % sb, lambda pr: [(0, sum(map(len, x))) for x in hold[sb]])
            num('num_patches(a,%d)' % sb, lambda pr: npt(sb))
            for p in range(npt(sb)):
                dom('local_domain(a,%d,%d)' % (sb, p), lambda pr: pl(sb, p))
                dom('global_domain(a,%d,%d)' % (sb, p), lambda pr: pg(sb, p))
        if not m.local and index:
            for g in itertools.islice(itertools.product(*[range(n) for n in sizes]), 0, None, 2 if dim > 1 else 1):
                w = [sb for sb in hold if all(any(i in q for q in x) for i, x in zip(g, hold[sb]))][0]
                I = 'Index<%d>(%s)' % (dim, ','.join(map(str, g)))
                fl = [sum(x, []) for x in hold[w]]; l = [x.index(i) for x, i in zip(fl, g)]
                pn = 0
                for x, i in zip(hold[w], g): pn = pn * len(x) + [i in q for q in x].index(True)
                num('subblock_from_global_index(a,%s)' % I, lambda pr: w)
                num('patch_from_global_index(a,%s)' % I, lambda pr: pn)
                J = 'Index<%d>(%s)' % (dim, ','.join(map(str, l)))
                for d in range(dim):
                    num('local_from_global_index(a,%s)[%d]' % (I, d), lambda pr: l[d])
                    num('local_from_global_index(a,%d,%d)' % (d, g[d]), lambda pr: l[d])
                    num('global_from_local_index(a,%d,%s)[%d]' % (w, J, d), lambda pr: g[d])
                    num('global_from_local_index(a,%d,%d,%d)' % (d, w, l[d]), lambda pr: g[d])
                    num('(subblock(a)==%d ? global_from_local_index(a,%s)[%d] : 0)' % (w, J, d), lambda pr: g[d] if mine(pr) == w else 0)
                    num('(subblock(a)==%d ? global_from_local_index(a,%d,%d) : 0)' % (w, d, l[d]), lambda pr: g[d] if mine(pr) == w else 0)
        K_ = dom.k
        x = a.extent(); x['o'] = str(8 * K_ * P)
        o.append(Ob('view_%d_%s_%s%s' % (P, m.name(), 'x'.join(map(str, a.sizes)), '' if e == 'a' else '_' + re.sub('[^A-Za-z0-9]+', '_', e)), [('index_type*', 'o', '')] + a.args(), par(P, [a], 'index_type *o_=o; {index_type *o=o_+pr_*%d; auto e_=%s; { auto const &a=e_; %s}}' % (K_, e, '\n'.join(impl)), 1),
                    ''.join('o[%d]=%s;' % (pr * K_ + i, v) for pr in range(P) for i, v in enumerate(spec[pr])), extent=x))
    view(M([B(3)]), 4, (7,)); view(M([C(2, 2)], [2, 0]), 3, (7,)); view(M([B(3)]), 4, (2,)); view(M([W], [0, 2], repl=True), 3, (4,)); view(M([W], local=True), 2, (3,))
    view(M([B(2), B(2)]), 5, (3, 3)); view(M([B(2), C(2, 1)], [3, 2, 1, 0]), 4, (3, 3)); view(M([W, W], [1, 0], repl=True), 3, (2, 2))
    view(M([B(2), W, C(2, 1)]), 4, (2, 2, 3))
    m3 = M([B(2), C(2, 1), B(2)], [7, 6, 5, 4, 3, 2, 1, 0]); m2 = M([B(2), C(2, 1)]); mb = M([B(2), B(3)])
    for i in (0, 2): view(m2, 5, (3, 4), (i, None), 'a.row(%d)' % i); view(m2, 4, (3, 4), (None, i), 'a.col(%d)' % i)
    view(m3, 8, (3, 2, 3), (2, None, None), 'a(2,whole_domain,whole_domain)'); view(m3, 8, (3, 2, 3), (None, 1, None), 'a(whole_domain,1,whole_domain)'); view(m3, 8, (3, 2, 3), (None, None, 1), 'a(whole_domain,whole_domain,1)')
    view(m3, 8, (3, 2, 3), (0, 1, None), 'a(0,1,whole_domain)'); view(m3, 8, (3, 2, 3), (2, None, 0), 'a(2,whole_domain,0)'); view(m3, 8, (3, 2, 3), (None, 0, 2), 'a(whole_domain,0,2)')
    D = lambda *x: 'a(' + ','.join('Domain<1>(%d,%d,%d)' % y for y in x) + ')' if len(x) == 1 else 'a(Domain<%d>(' % len(x) + ','.join('Domain<1>(%d,%d,%d)' % y for y in x) + '))'
    for x in ((1, 1, 3), (3, 1, 1), (2, 2, 3), (0, 3, 3), (0, 1, 7)): view(M([B(3)]), 4, (7,), [x], D(x), False)
    for x in (((1, 1, 2), (0, 2, 2)), ((0, 2, 2), (3, 1, 1))): view(mb, 6, (3, 4), x, D(*x), False)
    view(M([B(2), B(2), W]), 5, (3, 3, 2), ((1, 1, 2), (0, 2, 2), (1, 1, 1)), D((1, 1, 2), (0, 2, 2), (1, 1, 1)), False)
    view(M([W], [0, 2], repl=True), 3, (4,), [(1, 1, 2)], D((1, 1, 2)), False)
    view(mb, 6, (3, 4), 'T', 'a.transpose()', False); view(m2, 5, (3, 3), 'T', 'a.transpose()', False)
    view(M([B(2)]), 3, (4,), None, 'a.real()') if 0 else None
    out += chunks(o, 2, 'view', PAR, [], PAROPT)
    # which maps lay data out alike
    o = []
    def same(ms, P, dim):
        k = 0; impl = ''; spec = ''
        for i, m in enumerate(ms): impl += m.decl('m%d' % i)
        eq = lambda x, y: x.ds == y.ds and x.pv[:x.nsb] == y.pv[:y.nsb] and (not x.repl or x.pv == y.pv)
        for i, x in enumerate(ms):
            for j, y in enumerate(ms):
                e = eq(x, y)
                impl += 'o[%d]=ovxx::parallel::map_equal<%d,%s,%s>::value(m%d,m%d);' % (k, dim, x.type(), y.type(), i, j); spec += 'o[%d]=%d;' % (k, e); k += 1
                if not x.repl:
                    impl += 'o[%d]=(m%d==m%d); o[%d]=map_equiv<%d>(m%d,m%d);' % (k, i, j, k + 1, dim, i, j); spec += 'o[%d]=%d; o[%d]=%d;' % (k, e, k + 1, e); k += 2
        o.append(Ob('same_%d_%s' % (P, '__'.join(m.name() for m in ms)), [('index_type*', 'o', '')], 'world(%d,[&](int pr_){ if (pr_) return; %s },1);' % (P, impl), spec, extent={'o': str(8 * k)}))
    same([M([B(3)]), M([B(2)]), M([B(3)], [0, 1, 2]), M([B(3)], [0, 2, 1])], 3, 1)
    same([M([C(2, 1)]), M([C(2, 2)]), M([C(3, 1)]), M([C(2, 2)], [1, 0])], 3, 1)
    same([M([B(2), C(2, 1)]), M([B(2), C(2, 2)]), M([B(2), C(1, 1)]), M([B(1), C(2, 1)]), M([B(2), C(2, 1)], [0, 1, 2, 3])], 4, 2)
    same([M([B(2), W, C(2, 1)]), M([B(2), W, C(2, 2)]), M([B(1), W, C(2, 2)]), M([B(2), W, C(2, 1)], [0, 2, 1, 3])], 4, 3)
    same([M([W, B(2), B(1)]), M([W, B(1), B(2)]), M([W, B(2), B(2)]), M([W, B(2), B(2)], [3, 2, 1, 0])], 4, 3)
    same([M([W], [0, 1], repl=True), M([W], [0, 1, 2], repl=True), M([W], [1, 0], repl=True), M([W], [0, 1], repl=True)], 3, 1)
    # two types never lay data out alike as far as the library may assume
    o.append(Ob('same_types', [('index_type*', 'o', '')], 'world(2,[&](int pr_){ if (pr_) return; Map<Bl> a((Bl(2))); Map<Cy> b((Cy(2))); o[0]=ovxx::parallel::map_equal<1,Map<Bl>,Map<Cy> >::value(a,b); o[1]=(a==b); },1);', 'o[0]=0; o[1]=0;', extent={'o': '16'}))
    # a global domain in local terms
    for m, P in ((M([B(3)]), 3), (M([W]), 2), (M([B(2), B(2)], [2, 0, 3, 1]), 4), (M([B(2), W, B(2)]), 4)):
        dim = len(m.ds); sizes = [('length_type', 'n%d' % d, 'r(1,7)' if dim == 1 else 'r(2,4)' if dim == 2 else 'ch([3])') for d in range(dim)]
        doms = sum(([('index_type', 'f%d' % d, 'r(0,3)' if dim == 1 else 'r(0,2)' if dim == 2 else 'ch([0,1])'), ('stride_type', 'u%d' % d, 'r(1,3)' if dim < 3 else 'ch([1,2])'), ('length_type', 'l%d' % d, 'r(1,3)' if dim < 3 else 'ch([1,2])')] for d in range(dim)), [])
        if dim > 1: doms = [x for x in doms if x[1] in ('f0', 'l1', 'u0')]; F = lambda d: 'Domain<1>(%s,%s,%s)' % (('f0', 'u0', '1') if d == 0 else ('1', '1', 'l1') if d == 1 else ('0', '2', '2'))
        else: F = lambda d: 'Domain<1>(f0,u0,l0)'
        ks = [1 if d[0] == 'W' else d[1] for d in m.ds]
        split = '; '.join('index_type s%d=s%s%%%d' % (d, '' if d == dim - 1 else '/%d' % prod(ks[d + 1:]), ks[d]) for d in range(dim)) + ';'
        ok = 'if (%s) ' % ' && '.join('%s.first()+(%s.length()-1)*%s.stride()<n%d' % (F(d), F(d), F(d), d) for d in range(dim))
        impl = ok + 'world(%d,[&](int pr_){ if (pr_) return; %s m.impl_apply(Domain<%d>(%s)); Domain<%d> e=m.impl_local_from_global_domain<%d>(s,Domain<%d>(%s)); %s },1);' % (P, m.decl('m'), dim, ','.join('n%d' % d for d in range(dim)), dim, dim, dim, ','.join(F(d) for d in range(dim)), 'if (e.size()) { ' + ''.join('o[%d]=e[%d].first(); if (e[%d].length()>1) o[%d]=e[%d].stride(); o[%d]=e[%d].length();' % (3 * d, d, d, 3 * d + 1, d, 3 * d + 2, d) for d in range(dim)) + '}')
        spec = ok + '{' + split + ''.join('index_type c%d=0, a%d=0; for (index_type i=0; i!=%s.length(); ++i) { index_type g=%s.first()+i*%s.stride(); if (mr::sb(%s,n%d,g)==s%d) { if (c%d==0) a%d=mr::local(%s,n%d,g); ++c%d; } }' % (d, d, F(d), F(d), F(d), rd(m.ds[d]), d, d, d, d, rd(m.ds[d]), d, d) for d in range(dim)) + 'if (%s) {' % ' && '.join('c%d' % d for d in range(dim)) + ''.join('o[%d]=a%d; if (c%d>1) o[%d]=%s.stride(); o[%d]=c%d;' % (3 * d, d, d, 3 * d + 1, F(d), 3 * d + 2, d) for d in range(dim)) + '} }'
        o.append(Ob('to_local_%d_%s' % (P, m.name()), [('index_type*', 'o', ''), ('index_type', 's', 'r(0,%d)' % (m.nsb - 1))] + sizes + doms, impl, spec, extent={'o': str(24 * dim)}))
    out += chunks(o, 3, 'same', PAR + REF, [], PAROPT)
    return out
