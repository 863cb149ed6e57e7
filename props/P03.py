"P03: element access, local views, data access and user storage of distributed blocks."
from vp import *
from pm import *
import itertools, re
RULE = "the summarised effect of the access on every process equals that of the element accesses an independent layout model assigns to that process"
W = ('W',); B = lambda n: ('B', n); C = lambda n, c=1: ('C', n, c)
R = lambda *pv: M([W], pv, repl=True)
R2 = lambda *pv: M([W, W], pv, repl=True)
R3 = lambda *pv: M([W, W, W], pv, repl=True)
ix = lambda g: ','.join(map(str, g))
def tus(tier):
    out = []; o = []; seen = set()
    def ob(name, P, arrays, body, spec, args=(), rounds=2, again=False, extent={}):
        x = dict(extent)
        for a in arrays: x.update(a.extent())
        eq = ''.join(a.same() for a in arrays)
        i = re.sub('[^A-Za-z0-9]+', '_', name.replace('_R', '_r'))
        assert i not in seen, i
        seen.add(i)
        o.append(Ob(i, sum([a.args() for a in arrays], []) + list(args), eq + par(P, arrays, body, rounds, again), eq + spec, extent=x))
    def flush(k, nm):
        out.extend(chunks(list(o), k, nm, PAR, ['@inline=225'], PAROPT)); del o[:]
    F = lambda T='float', n='o': (T + '*', n, '')
    def held(a):
        "per process: the elements it holds, (local offset, global index)"
        r = [[] for _ in range(a.P)]
        for g in a.all():
            for p, q in a.w[g]: r[p].append((q, g))
        return [sorted(x) for x in r]
    # reading elements: every process gets the value
    def get(T, P, sizes, m, order=None, which=None, rd='%s.get(%s)'):
        a = A('a', T, m, P, sizes, order); gs = which or list(a.all()); n = len(gs)
        ob('get_%s_%d_%s_%s%s%s' % (T, P, 'x'.join(map(str, sizes)), m.name(), ''.join(map(str, order or '')), '' if 'get' in rd else '_op'), P, [a], ''.join('o[pr_*%d+%d]=%s;' % (n, k, rd % ('a', ix(g))) for k, g in enumerate(gs)),
           ''.join('o[%d]=%s;' % (p * n + k, a.ref(g)) for p in range(P) for k, g in enumerate(gs)), [F(T)])
    for m in (M([B(3)]), M([C(2, 2)]), M([B(2)], [2, 1]), R(0, 1, 2), R(0, 2), R(1), M([C(3, 1)], [1, 2, 0])): get('float', 3, (5,), m)
    for T in ('cfloat', 'double', 'int'): get(T, 2, (3,), M([B(2)], [1, 0]))
    get('float', 4, (3, 3), M([B(2), C(2)], [3, 1, 0, 2]), (1, 0), [(0, 0), (2, 1), (1, 2)]); get('cfloat', 2, (2, 3), M([W, B(2)])); get('float', 3, (2, 2), R2(0, 2), (1, 0)); get('float', 2, (2, 2), R2(0, 1), (1, 0)); get('float', 4, (3, 2, 3), M([B(2), W, C(2, 1)]), (2, 0, 1), [(0, 0, 0), (2, 1, 1), (1, 0, 2)]); get('float', 2, (1, 2, 2), R3(0, 1)); get('float', 2, (1, 2, 2), R3(1))
    get('float', 2, (4,), M([C(2, 1)]), rd='(float)%s(%s)')
    flush(3, 'get')
    # writing elements: on the processes that hold them
    def put(T, P, sizes, m, order=None, which=None, wr='%s.put(%s,%s);', nm=''):
        a = A('a', T, m, P, sizes, order); gs = which or list(a.all())
        ob('put%s_%s_%d_%s_%s%s' % (nm, T, P, 'x'.join(map(str, sizes)), m.name(), ''.join(map(str, order or ''))), P, [a], ''.join(wr % ('a', ix(g), 'x[%d]' % k) for k, g in enumerate(gs)),
           ''.join('%s=x[%d];' % (q, k) for k, g in enumerate(gs) for q in a.refs(g)), [F(T, 'x')])
    for m in (M([B(3)]), M([C(2, 2)]), M([B(2)], [2, 1]), R(0, 1, 2), R(0, 2), M([C(3, 1)], [1, 2, 0])): put('float', 3, (5,), m, which=[(i,) for i in (0, 2, 3, 4)])
    put('cfloat', 2, (3,), M([B(2)])); put('int', 2, (2, 3), M([W, C(2, 1)]), (1, 0)); put('float', 4, (3, 3), M([B(2), C(2)], [3, 1, 0, 2]), None, [(0, 0), (2, 1), (1, 2)]); put('float', 3, (2, 2), R2(0, 2)); put('float', 4, (3, 2, 3), M([B(2), W, C(2, 1)]), (2, 0, 1), [(0, 0, 0), (2, 1, 1), (1, 0, 2)]); put('float', 2, (1, 2, 2), R3(0, 1), (2, 1, 0))
    put('float', 2, (4,), M([C(2, 1)]), wr='%s(%s)=%s;', nm='op')
    # through sub-views and expressions
    a = A('a', 'float', M([C(2, 1)]), 2, (5,)); b = A('b', 'float', M([B(2)], [1, 0]), 2, (5,)); m = A('m', 'float', M([B(2), C(2)]), 4, (3, 3)); z = A('z', 'cfloat', M([B(2)]), 2, (3,))
    P2 = lambda e: ''.join('o[%d]=%s;' % (p, e) for p in range(2)); P4 = lambda e: ''.join('o[%d]=%s;' % (p, e) for p in range(4))
    ob('get_part', 2, [b], 'o[pr_]=b(Domain<1>(2,2,2)).get(1);', P2(b.ref((4,))), [F()]); ob('get_row', 4, [m], 'o[pr_]=m.row(2).get(1);', P4(m.ref((2, 1))), [F()]); ob('get_trans', 4, [m], 'o[pr_]=m.transpose().get(1,0);', P4(m.ref((0, 1))), [F()]); ob('get_real', 2, [z], 'o[pr_]=z.imag().get(2);', P2('%s.imag()' % z.ref((2,))), [F()])
    ob('get_sum', 2, [a, b], 'o[pr_]=(a+b).get(3);', P2('%s+%s' % (a.ref((3,)), b.ref((3,)))), [F()]); ob('get_fn', 2, [a], 'o[pr_]=(-a*2.f).get(4);', P2('-%s*2.f' % a.ref((4,))), [F()])
    ob('put_part', 2, [b], 'b(Domain<1>(2,2,2)).put(1,x);', '%s=x;' % b.ref((4,)), [('float', 'x', '')]); ob('put_row', 4, [m], 'm.row(2).put(1,x);', '%s=x;' % m.ref((2, 1)), [('float', 'x', '')]); ob('put_col', 4, [m], 'm.col(1).put(0,x);', '%s=x;' % m.ref((0, 1)), [('float', 'x', '')]); ob('put_diag', 4, [m], 'm.transpose().put(1,0,x);', '%s=x;' % m.ref((0, 1)), [('float', 'x', '')]); ob('put_real', 2, [z], 'z.real().put(1,x);', '%s=cfloat(x,%s.imag());' % (z.ref((1,)), z.ref((1,))), [('float', 'x', '')])
    flush(3, 'put')
    # the local view: the local part, in local order
    def local(nm, P, arr, expr, sel, sizes, dim, order=None):
        "sel: index in the sub-view -> global index; every process lists the elements of the sub-view it holds"
        T = arr.T; gs = list(itertools.product(*[range(n) for n in sizes])); N = max(1, prod(sizes))
        spec = ''
        for p in range(P):
            per = [sorted({g[d] for g in gs if any(q == p for q, _ in arr.w[sel(g)])}) for d in range(dim)]
            # local order of a dimension is that of the local offsets
            loc = [g for g in gs if any(q == p for q, _ in arr.w[sel(g)])]
            ax = []
            for d in range(dim):
                vals = sorted({g[d] for g in loc}); key = lambda v, d=d: min(next(o_ for q, o_ in arr.w[sel(g)] if q == p) for g in loc if g[d] == v)
                ax.append(sorted(vals, key=key))
            spec += ''.join('s[%d]=%d;' % (p * dim + d, len(ax[d])) for d in range(dim))
            for k, g in enumerate(itertools.product(*ax)):
                q = next('%s%d[%d]' % (arr.n, pp, of) for pp, of in arr.w[sel(g)] if pp == p)
                spec += 'o[%d]=%s;%s=%s+(%s)%d;' % (p * N + k, q, q, q, T, k + 1)
        V = VN[dim]
        loops = {1: 'for (index_type i=0;i!=l.size(0);++i) { o[pr_*%d+k]=l.get(i); l.put(i,l.get(i)+(%s)(float)++k); }',
                 2: 'for (index_type i=0;i!=l.size(0);++i) for (index_type j=0;j!=l.size(1);++j) { o[pr_*%d+k]=l.get(i,j); l.put(i,j,l.get(i,j)+(%s)(float)++k); }',
                 3: 'for (index_type i=0;i!=l.size(0);++i) for (index_type j=0;j!=l.size(1);++j) for (index_type h=0;h!=l.size(2);++h) { o[pr_*%d+k]=l.get(i,j,h); l.put(i,j,h,l.get(i,j,h)+(%s)(float)++k); }'}[dim] % (N, T)
        ob('local_' + nm, P, [arr], 'auto v=%s; typename decltype(v)::local_type l=v.local(); int k=0; %s %s' % (expr, ''.join('s[pr_*%d+%d]=l.size(%d);' % (dim, d, d) for d in range(dim)), loops), spec, [F(T), ('length_type*', 's', '')], rounds=1)
    idn = lambda g: g
    for m in (M([B(3)]), M([C(2, 2)]), M([B(2)], [2, 1]), R(0, 1, 2), R(0, 2), M([C(3, 1)], [1, 2, 0])): local('v_' + m.name(), 3, A('a', 'float', m, 3, (5,)), 'a', idn, (5,), 1)
    for n in (1, 2): local('few%d' % n, 3, A('a', 'float', M([B(3)]), 3, (n,)), 'a', idn, (n,), 1)
    local('cx', 2, A('a', 'cfloat', M([C(2, 1)]), 2, (3,)), 'a', idn, (3,), 1); local('m', 4, A('a', 'float', M([B(2), C(2)], [3, 1, 0, 2]), 4, (3, 3)), 'a', idn, (3, 3), 2); local('mc', 2, A('a', 'float', M([W, B(2)]), 2, (2, 3), (1, 0)), 'a', idn, (2, 3), 2); local('t', 4, A('a', 'float', M([B(2), W, C(2, 1)]), 4, (3, 2, 3), (2, 0, 1)), 'a', idn, (3, 2, 3), 3)
    local('part', 3, A('a', 'float', M([B(3)]), 3, (7,)), 'a(Domain<1>(1,1,4))', lambda g: (g[0] + 1,), (4,), 1); local('tail', 2, A('a', 'float', M([B(2)]), 2, (5,)), 'a(Domain<1>(3,1,2))', lambda g: (g[0] + 3,), (2,), 1)
    mm = A('a', 'float', M([B(2), B(2)], [3, 1, 0, 2]), 4, (3, 4))
    local('row', 4, mm, 'a.row(1)', lambda g: (1, g[0]), (4,), 1); local('col', 4, mm, 'a.col(3)', lambda g: (g[0], 3), (3,), 1); local('trans', 4, mm, 'a.transpose()', lambda g: (g[1], g[0]), (4, 3), 2); local('box', 4, mm, 'a(Domain<2>(Domain<1>(1,1,2),Domain<1>(1,1,2)))', lambda g: (g[0] + 1, g[1] + 1), (2, 2), 2)
    tt = A('a', 'float', M([B(2), W, B(2)]), 4, (3, 2, 3))
    local('plane', 4, tt, 'a(whole_domain,1,whole_domain)', lambda g: (g[0], 1, g[1]), (3, 3), 2); local('plane0', 4, tt, 'a(2,whole_domain,whole_domain)', lambda g: (2,) + g, (2, 3), 2); local('line', 4, tt, 'a(0,1,whole_domain)', lambda g: (0, 1, g[0]), (3,), 1)
    rr = A('a', 'float', R2(0, 2), 3, (2, 3)); rt = A('a', 'float', R3(1, 2), 3, (2, 2, 2), (2, 1, 0))
    local('rrow', 3, rr, 'a.row(1)', lambda g: (1, g[0]), (3,), 1); local('rcol', 3, rr, 'a.col(2)', lambda g: (g[0], 2), (2,), 1); local('rpart', 3, rr, 'a(Domain<2>(Domain<1>(1,1,1),Domain<1>(0,2,2)))', lambda g: (1, g[1] * 2), (1, 2), 2); local('rtrans', 3, rr, 'a.transpose()', lambda g: g[::-1], (3, 2), 2)
    local('rplane', 3, rt, 'a(whole_domain,1,whole_domain)', lambda g: (g[0], 1, g[1]), (2, 2), 2); local('rline', 3, rt, 'a(1,whole_domain,0)', lambda g: (1, g[0], 0), (2,), 1)
    flush(3, 'local')
    # foreach_point
    def fp(nm, P, a):
        D = a.dim
        w = lambda v: '+'.join('(float)%s[%d]*%d.f' % (v, d, 10 ** d) for d in range(D))
        spec = ''
        for p, h in enumerate(a.m.holds(P, a.sizes)):
            if h is None: continue
            fl = [sum(x, []) for x in h]
            for li in itertools.product(*[range(len(f)) for f in fl]):
                g = tuple(f[i] for f, i in zip(fl, li)); q = next('%s%d[%d]' % (a.n, pp, of) for pp, of in a.w[g] if pp == p)
                spec += '%s=%s*2.f+%d.f+%d.f;' % (q, q, sum(l * 10 ** d for d, l in enumerate(li)), 1000 * sum(l * 10 ** d for d, l in enumerate(g)))
        ob('point_' + nm, P, [a], 'ovxx::parallel::foreach_point(a,[](float v, Index<%d> const &l, Index<%d> const &g) { return v*2.f+(%s)+1000.f*(%s);});' % (D, D, w('l'), w('g')), spec, rounds=1)
    fp('b', 3, A('a', 'float', M([B(3)]), 3, (5,))); fp('c', 3, A('a', 'float', M([C(2, 2)], [2, 0]), 3, (7,))); fp('r', 3, A('a', 'float', R(0, 2), 3, (3,))); fp('m', 4, A('a', 'float', M([B(2), C(2)]), 4, (3, 4), (1, 0))); fp('t', 2, A('a', 'float', M([W, W, C(2, 1)]), 2, (2, 2, 3), (2, 1, 0)))
    flush(2, 'point')
    # foreach_patch
    def fpatch(nm, P, a):
        D = a.dim; spec = ''; st = [prod(a.sizes[d + 1:]) for d in range(D)]; n = prod(a.sizes)
        for p, h in enumerate(a.m.holds(P, a.sizes)):
            if h is None: continue
            for ps in itertools.product(*h):
                for li in itertools.product(*[range(len(x)) for x in ps]):
                    g = tuple(x[i] for x, i in zip(ps, li)); q = next('%s%d[%d]' % (a.n, pp, of) for pp, of in a.w[g] if pp == p)
                    spec += 'o[%d]=%s;' % (p * n + sum(x * y for x, y in zip(g, st)), q)
                spec += 'k[%d]+=1;' % p
        lp = {1: 'for (index_type i=0;i!=v.size();++i) q[g[0].impl_nth(i)]=v.get(i);', 2: 'for (index_type i=0;i!=v.size(0);++i) for (index_type j=0;j!=v.size(1);++j) q[g[0].impl_nth(i)*%d+g[1].impl_nth(j)]=v.get(i,j);' % st[0]}[D]
        ob('patch_' + nm, P, [a], 'float *q=o+pr_*%d; int *c=k+pr_; ovxx::parallel::foreach_patch(a,[q,c](auto v, Domain<%d> const &g) { ++*c; %s });' % (n, D, lp), spec, [F(), ('int*', 'k', '')], rounds=1)
    fpatch('b', 3, A('a', 'float', M([B(3)]), 3, (5,))); fpatch('c', 3, A('a', 'float', M([C(2, 2)], [2, 0]), 3, (7,))); fpatch('m', 4, A('a', 'float', M([B(2), C(2)]), 4, (3, 4), (1, 0)))
    flush(3, 'patch')
    # data access: the whole array, on every process
    def dd(nm, P, a, sync, expr='a', sel=lambda g: g, sizes=None, lay=None):
        sizes = sizes or a.sizes; D = len(sizes); gs = list(itertools.product(*[range(n) for n in sizes])); N = len(gs); T = a.T
        L_ = '' if not lay else ',' + lay
        at = '+'.join('(int)i%d*(int)d.stride(%d)' % (d, d) for d in range(D)); lin = '0'
        for d in range(D): lin = '(%s)*%d+i%d' % (lin, sizes[d], d)
        lp = ''.join('for (index_type i%d=0;i%d!=d.size(%d);++i%d) ' % (d, d, d, d) for d in range(D))
        rd = lp + 'o[pr_*%d+%s]=p[%s];' % (N, lin, at); wr = lp + 'p[%s]=%s;' % (at, 'p[%s]*(%s)2+(%s)(float)(%s)' % (at, T, T, lin) if 'in' in sync else 'x[%s]' % lin)
        body = 'auto v=%s; { dda::Data<typename decltype(v)::block_type,dda::%s%s> d(v.block()); %s%s %s }' % (expr, sync, L_, 'auto *p=d.ptr();' if sync != 'in' else '%s const *p=d.ptr();' % T, rd if 'in' in sync else '', wr if 'out' in sync else '')
        spec = ''
        if 'in' in sync: spec += ''.join('o[%d]=%s;' % (p * N + k, a.ref(sel(g))) for p in range(P) for k, g in enumerate(gs))
        if 'out' in sync: spec += ''.join('%s t_%d=%s;' % (T, k, a.ref(sel(g)) + '*(%s)2+(%s)(float)%d' % (T, T, k) if 'in' in sync else 'x[%d]' % k) for k, g in enumerate(gs)) + ''.join('%s=t_%d;' % (q, k) for k, g in enumerate(gs) for q in a.refs(sel(g)))
        ob('data_%s_%s' % (sync, nm), P, [a], body, spec, [F(T)] + ([F(T, 'x')] if sync == 'out' else []), again=True, extent={'x': '%d' % (N * {'float': 4, 'cfloat': 8, 'double': 8}[T])} if sync == 'out' else {}, rounds=3)
    for sync in ('in', 'out', 'inout'):
        dd('b', 3, A('a', 'float', M([B(3)], [1, 2, 0]), 3, (4,)), sync); dd('c', 2, A('a', 'cfloat', M([C(2, 1)]), 2, (3,)), sync); dd('m', 2, A('a', 'float', M([W, B(2)]), 2, (2, 3)), sync); dd('mc', 2, A('a', 'float', M([B(2), W]), 2, (3, 2), (1, 0)), sync); dd('part', 2, A('a', 'float', M([B(2)]), 2, (5,)), sync, 'a(Domain<1>(1,1,3))', lambda g: (g[0] + 1,), (3,)); dd('row', 2, A('a', 'float', M([W, B(2)]), 2, (2, 3)), sync, 'a.row(1)', lambda g: (1, g[0]), (3,)); dd('col', 2, A('a', 'float', M([W, B(2)]), 2, (2, 3)), sync, 'a.col(2)', lambda g: (g[0], 2), (2,))
        dd('r', 2, A('a', 'float', R(0, 1), 2, (3,)), sync); dd('mt', 2, A('a', 'float', M([B(2), W]), 2, (2, 3)), sync, 'a.transpose()', lambda g: g[::-1], (3, 2)); dd('colmaj', 2, A('a', 'float', M([B(2), W]), 2, (2, 3)), sync, lay='Layout<2,col2_type,dense,array>')
    flush(2, 'data')
    # between local and distributed
    Lo = lambda: M([W], local=True); Lo2 = lambda: M([W, W], local=True)
    def al(nm, P, d, l, lsizes=None):
        ob('assign_from_%s' % nm, P, [d, l], 'ovxx::parallel::assign_local(l,d);', assign([(l.refs(g), d.ref(g)) for g in d.all()], d.T))
        ob('assign_to_%s' % nm, P, [d, l], 'ovxx::parallel::assign_local(d,l);', ''.join('%s=%s;' % (q, 'l%d[%d]' % (p, dict(l.w[g])[p])) for g in d.all() for q, (p, _) in zip(d.refs(g), d.w[g])))
    al('b', 3, A('d', 'float', M([B(3)], [1, 2, 0]), 3, (4,)), A('l', 'float', Lo(), 3, (4,))); al('cx', 2, A('d', 'cfloat', M([C(2, 1)]), 2, (3,)), A('l', 'cfloat', Lo(), 2, (3,))); al('m', 2, A('d', 'float', M([W, B(2)]), 2, (2, 3)), A('l', 'float', Lo2(), 2, (2, 3), (1, 0))); al('r', 2, A('d', 'float', R(0, 1), 2, (3,)), A('l', 'float', Lo(), 2, (3,)))
    flush(2, 'alocal')
    # user storage of the local part
    def us(nm, P, m, sizes, T, body, spec, args=(), rounds=1, extent={}):
        a = A('a', T, m, P, sizes)
        N = [prod(l) for l in a.ls]
        o.append(Ob('user_' + nm, list(args), 'world(%d,[&](int pr_){ %s typedef Dense<%d,%s,%s,%s > D_; Domain<%d> dom(%s); %s },%d);' % (P, m.decl('mp'), len(sizes), T, OT[a.order], m.type(), len(sizes), ','.join(map(str, sizes)), body, rounds), spec(a, N), extent=extent))
    for nm, m, n in (('b', M([B(2)], [1, 0]), 3), ('c', M([C(2, 1)]), 3), ('none', M([B(2)], [1, 2]), 3)):
        P = 3
        mx = 3
        us('value_' + nm, P, m, (n,), 'float', 'D_ b(dom,x,mp); Vector<float,D_> v(b); int k=0; for (index_type i=0;i!=v.local().size();++i) o[pr_*3+k++]=v.local().get(i); s[pr_]=b.user_storage()==no_user_format && b.admitted();', lambda a, N: ''.join('o[%d]=x;' % (p * 3 + k) for p in range(P) for k in range(N[p])) + 's[0]=s[1]=s[2]=1;', [('float', 'x', ''), F(), ('int*', 's', '')])
        us('admit_' + nm, P, m, (n,), 'float', 'float *u=x+pr_*3; D_ b(dom,u,mp); Vector<float,D_> v(b); s[pr_]=b.admitted(); b.admit(true); s[3+pr_]=b.admitted(); for (index_type i=0;i!=v.local().size();++i) v.local().put(i,v.local().get(i)*2.f); float *q; b.release(true,q); s[6+pr_]=b.admitted(); s[9+pr_]=q==u; b.find(q); s[12+pr_]=q==u; s[15+pr_]=b.user_storage()==vsip::array_format;',
           lambda a, N: ''.join('x[%d]=x[%d]*2.f;' % (p * 3 + k, p * 3 + k) for p in range(P) for k in range(N[p])) + ''.join('s[%d]=%d;' % (g * 3 + p, (0, 1, 0, 1, 1, 1)[g]) for g in range(6) for p in range(P)), [F('float', 'x'), ('int*', 's', '')])
        us('rebind_' + nm, P, m, (n,), 'float', 'float *u=x+pr_*3, *w=y+pr_*3; D_ b(dom,u,mp); Vector<float,D_> v(b); b.admit(true); b.release(true); b.rebind(w); b.admit(true); for (index_type i=0;i!=v.local().size();++i) v.local().put(i,v.local().get(i)*2.f); b.release(true); float *q; b.find(q); s[pr_]=q==w;',
           lambda a, N: ''.join('y[%d]=y[%d]*2.f;' % (p * 3 + k, p * 3 + k) for p in range(P) for k in range(N[p])) + 's[0]=s[1]=s[2]=1;', [F('float', 'x'), F('float', 'y'), ('int*', 's', '')])
        us('inter_' + nm, P, m, (n,), 'cfloat', 'float *u=x+pr_*6; D_ b(dom,u,mp); Vector<cfloat,D_> v(b); b.admit(true); for (index_type i=0;i!=v.local().size();++i) { o[pr_*3+i]=v.local().get(i); v.local().put(i,cfloat(1.f,2.f));} float *q; b.release(true,q); s[pr_]=q==u && b.user_storage()==vsip::interleaved_format;',
           lambda a, N: ''.join('o[%d]=cfloat(x[%d],x[%d]);' % (p * 3 + k, p * 6 + 2 * k, p * 6 + 2 * k + 1) + 'x[%d]=1.f;x[%d]=2.f;' % (p * 6 + 2 * k, p * 6 + 2 * k + 1) for p in range(P) for k in range(N[p])) + 's[0]=s[1]=s[2]=1;', [F('float', 'x'), F('cfloat'), ('int*', 's', '')])
        us('split_' + nm, P, m, (n,), 'cfloat', 'float *u=x+pr_*3, *w=y+pr_*3; D_ b(dom,u,w,mp); Vector<cfloat,D_> v(b); b.admit(true); for (index_type i=0;i!=v.local().size();++i) { o[pr_*3+i]=v.local().get(i); v.local().put(i,cfloat(1.f,2.f));} float *q,*r; b.release(true,q,r); s[pr_]=q==u && r==w && b.user_storage()==vsip::split_format;',
           lambda a, N: ''.join('o[%d]=cfloat(x[%d],y[%d]);' % (p * 3 + k, p * 3 + k, p * 3 + k) + 'x[%d]=1.f;y[%d]=2.f;' % (p * 3 + k, p * 3 + k) for p in range(P) for k in range(N[p])) + 's[0]=s[1]=s[2]=1;', [F('float', 'x'), F('float', 'y'), F('cfloat'), ('int*', 's', '')])
    flush(2, 'user')
    # messages between two processes
    a = A('a', 'float', Lo(), 2, (4,)); b = A('b', 'cfloat', Lo2(), 2, (2, 3), (1, 0))
    CM = 'ovxx::parallel::Communicator &c=ovxx::parallel::default_communicator(); '
    ob('send_v', 2, [a], CM + 'if (pr_==1) ovxx::parallel::buf_send(c,0,Vector<float>(a(Domain<1>(0,2,2)))); else ovxx::parallel::recv(c,1,a(Domain<1>(1,1,2)));', 'a0[1]=a1[0];a0[2]=a1[2];', again=True)
    ob('send_m', 2, [b], CM + 'if (pr_==0) ovxx::parallel::buf_send(c,1,const_Matrix<cfloat,typename decltype(b)::block_type>(b)); else ovxx::parallel::recv(c,0,b);', ''.join('%s=%s;' % tuple(reversed(b.refs(g))) for g in b.all()), again=True)
    flush(2, 'send')
    # what a distributed object says about itself
    for nm, P, a in (('b', 3, A('a', 'float', M([B(2)], [2, 0]), 3, (5,))), ('m', 4, A('a', 'float', M([B(2), C(2)]), 4, (3, 5))), ('r', 3, A('a', 'float', R(0, 2), 3, (3,))), ('few', 3, A('a', 'float', M([B(3)]), 3, (2,)))):
        D = a.dim; q = D + 3; sb = [a.m.pv.index(p) if p in a.m.pv[:a.m.nsb] else -1 for p in range(P)]
        if a.m.repl: sb = [0 if p in a.m.pv else -1 for p in range(P)]
        ob('about_' + nm, P, [a], 'o[pr_*%d]=a.size();' % q + ''.join('o[pr_*%d+%d]=a.size(%d);' % (q, d + 1, d) for d in range(D)) + 'o[pr_*%d+%d]=a_b.size();o[pr_*%d+%d]=(int)a.block().map().subblock();' % (q, D + 1, q, D + 2),
           ''.join(''.join('o[%d]=%d;' % (p * q + k, v) for k, v in enumerate([prod(a.sizes)] + list(a.sizes) + [prod(a.sizes), sb[p]])) for p in range(P)), [('int*', 'o', '')], rounds=1)
    flush(4, 'about')
    return out
