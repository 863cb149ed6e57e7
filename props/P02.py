"P02: assignment between distributed views."
from vp import *
from pm import *
import itertools, re
RULE = "the summarised effect of the assignment on every process's memory, messages included, equals the element-wise assignment of the global views under an independent layout model"
W = ('W',); B = lambda n: ('B', n); C = lambda n, c=1: ('C', n, c)
R = lambda *pv: M([W], pv, repl=True)
R2 = lambda *pv: M([W, W], pv, repl=True)
R3 = lambda *pv: M([W, W, W], pv, repl=True)
L = lambda: M([W], local=True)
def tus(tier):
    out = []; o = []; seen = set()
    def ob(name, P, arrays, body, pairs, T, rounds=2, again=False):
        x = {}
        for a in arrays: x.update(a.extent())
        eq = ''.join(a.same() for a in arrays)
        i = re.sub('[^A-Za-z0-9]+', '_', name.replace('_R', '_r'))
        assert i not in seen, i
        seen.add(i)
        o.append(Ob(i, sum([a.args() for a in arrays], []), eq + par(P, arrays, body, rounds, again), eq + assign(pairs, T), extent=x))
    def ass(P, T, sizes, m1, m2, oa=None, ob_=None, T2=None):
        a = A('a', T, m1, P, sizes, oa); b = A('b', T2 or T, m2, P, sizes, ob_)
        ob('copy_%s%s_%d_%s_%s%s_%s%s' % (T, T2 or '', P, 'x'.join(map(str, sizes)), m1.name(), ''.join(map(str, oa or '')), m2.name(), ''.join(map(str, ob_ or ''))), P, [a, b], 'b=a;', [(b.refs(g), a.ref(g)) for g in a.all()], T2 or T)
    def flush(k, nm):
        out.extend(chunks(list(o), k, nm, PAR, ['@inline=225'], PAROPT)); del o[:]
    # one dimension: every pair of layouts
    ms = [M([B(3)]), M([C(2, 2)]), M([B(2)], [2, 1]), R(0, 1, 2), R(0, 2), M([C(3, 1)], [1, 2, 0])]
    for x, y in itertools.product(ms, ms):
        if x is not y: ass(3, 'float', (5,), x, y)
    ass(3, 'float', (7,), M([B(3)]), M([B(3)], [0, 1, 2])); ass(3, 'float', (2,), M([B(3)]), M([C(2, 1)])); ass(3, 'float', (2,), M([C(2, 1)]), M([B(3)])); ass(4, 'float', (3,), M([B(4)]), M([B(4)], [3, 2, 1, 0])); ass(4, 'float', (9,), M([C(2, 2)]), M([C(3, 1)], [3, 0, 2]))
    ass(2, 'float', (1,), M([B(2)]), M([B(2)], [1, 0])); ass(1, 'float', (4,), M([B(1)]), M([C(1, 2)]))
    flush(4, 'one')
    for T in ('cfloat', 'double', 'cdouble', 'int', 'short', 'char'):
        ass(3, T, (5,), M([B(3)]), M([C(2, 2)])); ass(3, T, (4,), M([B(2)]), R(0, 1, 2))
    ass(2, 'float', (5,), M([B(2)]), M([C(2, 1)]), T2='double'); ass(2, 'float', (5,), M([B(2)]), M([C(2, 1)]), T2='cfloat')
    flush(4, 'type')
    # two dimensions: corner turns and the rest, both storage orders
    ass(2, 'float', (4, 3), M([B(2), W]), M([W, B(2)])); ass(2, 'float', (3, 4), M([B(2), W]), M([W, B(2)]), None, (1, 0)); ass(2, 'float', (3, 4), M([W, B(2)]), M([B(2), W]), (1, 0))
    ass(4, 'cfloat', (3, 3), M([B(2), B(2)]), M([W, C(3)]), None, (1, 0)); ass(4, 'float', (4, 4), M([B(2), B(2)]), M([C(2), C(2)], [3, 1, 2, 0])); ass(3, 'float', (3, 2), M([B(3), W]), R2(0, 1, 2)); ass(3, 'float', (3, 2), R2(0, 1, 2), M([C(2, 1), W], [2, 0]), (1, 0))
    ass(3, 'double', (3, 2), M([B(3), W]), R2(0, 2), None, (1, 0)); ass(3, 'float', (4, 3), M([C(3, 1), W]), M([W, B(3)], [2, 1, 0]), (1, 0), (1, 0))
    flush(2, 'two')
    # three dimensions
    ass(2, 'float', (3, 2, 2), M([B(2), W, W]), M([W, W, B(2)])); ass(2, 'float', (2, 2, 3), M([W, B(2), W]), M([B(2), W, W]), (2, 1, 0)); ass(4, 'float', (2, 2, 2), M([B(2), W, B(2)]), M([W, C(2), C(2)], [3, 2, 1, 0]), None, (1, 2, 0)); ass(2, 'cfloat', (2, 3, 2), M([W, W, B(2)]), M([W, B(2), W]), (0, 2, 1), (2, 0, 1))
    flush(1, 'three')
    # parts of views
    def sub1(nm, n, da, db, ma, mb, P, T='float'):
        a = A('a', T, ma, P, (n,)); b = A('b', T, mb, P, (n,))
        f = lambda d: 'Domain<1>(%d,%d,%d)' % d
        ob('part_%s' % nm, P, [a, b], 'b%s=a%s;' % ('' if db is None else '(%s)' % f(db), '' if da is None else '(%s)' % f(da)),
           [(b.refs((db[0] + db[1] * i if db else i,)), a.ref((da[0] + da[1] * i if da else i,))) for i in range(da[2] if da else n)], T)
    sub1('bb', 7, (1, 1, 4), (2, 1, 4), M([B(3)]), M([B(2)], [2, 0]), 3); sub1('stride', 7, (1, 2, 3), (0, 3, 3), M([B(3)]), M([B(2)]), 3); sub1('dst', 6, (0, 1, 6), (0, 1, 6), M([B(3)]), M([B(2)]), 3); sub1('few', 7, (6, 1, 1), (0, 1, 1), M([B(3)]), M([B(3)]), 3); sub1('same', 7, (0, 2, 3), (1, 2, 3), M([B(3)]), M([B(3)]), 3)
    sub1('alike', 7, (1, 1, 5), (1, 1, 5), M([B(3)]), M([B(3)]), 3); sub1('repl', 5, (1, 1, 3), (2, 1, 3), R(0, 1), M([B(2)]), 2); sub1('torepl', 5, (1, 2, 2), (3, 1, 2), M([B(2)]), R(0, 1), 2); sub1('cx', 6, (1, 1, 4), (0, 1, 4), M([B(2)]), M([B(3)]), 3, 'cfloat')
    flush(3, 'part')
    def gen(nm, P, arrays, body, pairs, T='float', rounds=2, again=False): ob(nm, P, arrays, body, pairs, T, rounds, again)
    m = A('m', 'float', M([B(2), B(2)]), 4, (3, 4)); v = A('v', 'float', M([C(3, 1)]), 4, (4,)); w = A('w', 'float', M([B(2)], [3, 1]), 4, (3,))
    for i in (0, 2): gen('row%d' % i, 4, [m, v], 'v=m.row(%d);' % i, [(v.refs((j,)), m.ref((i, j))) for j in range(4)])
    gen('col', 4, [m, w], 'w=m.col(3);', [(w.refs((j,)), m.ref((j, 3))) for j in range(3)])
    gen('torow', 4, [m, v], 'm.row(1)=v;', [(m.refs((1, j)), v.ref((j,))) for j in range(4)]); gen('tocol', 4, [m, w], 'm.col(0)=w;', [(m.refs((j, 0)), w.ref((j,))) for j in range(3)])
    m2 = A('b', 'float', M([W, B(2)]), 4, (4, 3))
    gen('transpose', 4, [m, m2], 'b=m.transpose();', [(m2.refs((j, i)), m.ref((i, j))) for i in range(3) for j in range(4)]); 
    mb = A('b', 'float', M([W, B(3)], [1, 2, 3]), 4, (3, 4))
    gen('block', 4, [m, mb], 'b(Domain<2>(Domain<1>(0,1,2),Domain<1>(1,1,3)))=m(Domain<2>(Domain<1>(1,1,2),Domain<1>(0,1,3)));', [(mb.refs((i, j + 1)), m.ref((i + 1, j))) for i in range(2) for j in range(3)])
    t = A('e', 'float', M([B(2), W, C(2, 1)]), 4, (2, 2, 3)); x = A('x', 'float', M([W, B(2)]), 4, (2, 3)); y = A('y', 'float', M([B(3)]), 4, (3,))
    gen('slice1', 4, [t, x], 'x=e(whole_domain,1,whole_domain);', [(x.refs((i, k)), t.ref((i, 1, k))) for i in range(2) for k in range(3)]); gen('slice0', 4, [t, x], 'x=e(1,whole_domain,whole_domain);', [(x.refs((j, k)), t.ref((1, j, k))) for j in range(2) for k in range(3)]); gen('line', 4, [t, y], 'y=e(0,1,whole_domain);', [(y.refs((k,)), t.ref((0, 1, k))) for k in range(3)])
    gen('toslice', 4, [t, x], 'e(whole_domain,0,whole_domain)=x;', [(t.refs((i, 0, k)), x.ref((i, k))) for i in range(2) for k in range(3)])
    # copies on some of the processes only
    m = A('m', 'float', R2(0, 2), 3, (2, 3)); v = A('v', 'float', M([B(3)]), 3, (3,)); w = A('w', 'float', R(1), 3, (2,)); u = A('u', 'float', R(1, 2), 3, (5,)); x = A('x', 'float', M([B(2), W], [1, 2]), 3, (3, 2))
    gen('rrow', 3, [m, v], 'v=m.row(1);', [(v.refs((j,)), m.ref((1, j))) for j in range(3)]); gen('rcol', 3, [m, w], 'w=m.col(2);', [(w.refs((i,)), m.ref((i, 2))) for i in range(2)]); gen('torrow', 3, [m, v], 'm.row(0)=v;', [(m.refs((0, j)), v.ref((j,))) for j in range(3)]); gen('torcol', 3, [m, w], 'm.col(1)=w;', [(m.refs((i, 1)), w.ref((i,))) for i in range(2)])
    gen('rtrans', 3, [m, x], 'x=m.transpose();', [(x.refs((j, i)), m.ref((i, j))) for i in range(2) for j in range(3)]); gen('rpart', 3, [u, v], 'v=u(Domain<1>(0,2,3));', [(v.refs((j,)), u.ref((2 * j,))) for j in range(3)]); gen('torpart', 3, [u, v], 'u(Domain<1>(4,-1,3))=v;' if 0 else 'u(Domain<1>(2,1,3))=v;', [(u.refs((j + 2,)), v.ref((j,))) for j in range(3)])
    gen('rrowrow', 3, [m, u], 'u(Domain<1>(1,1,3))=m.row(0)+m.row(1);', [(u.refs((j + 1,)), '%s+%s' % (m.ref((0, j)), m.ref((1, j)))) for j in range(3)])
    e = A('e', 'float', R3(0, 1), 3, (2, 2, 3)); gen('rplane', 3, [e, x], 'x.transpose()=e(1,whole_domain,whole_domain);', [(x.refs((j, i)), e.ref((1, i, j))) for i in range(2) for j in range(3)]); gen('rline', 3, [e, v], 'v=e(1,0,whole_domain);', [(v.refs((j,)), e.ref((1, 0, j))) for j in range(3)]); gen('torline', 3, [e, v], 'e(0,1,whole_domain)=v;', [(e.refs((0, 1, j)), v.ref((j,))) for j in range(3)])
    flush(2, 'slice')
    # expressions: leaves laid out differently from the result
    def e1(nm, body, f, ms, n=5, P=3, T='float'):
        vs = [A(c, T, q, P, (n,)) for c, q in zip('dabc', ms)]
        gen(nm, P, vs, body, [(vs[0].refs((i,)), f(*[q.ref((i,)) for q in vs[1:]])) for i in range(n)], T)
    b3, c2, p2 = M([B(3)]), M([C(2, 2)]), M([B(2)], [2, 1])
    e1('sum', 'd=a+b;', lambda a, b: '%s+%s' % (a, b), [b3, c2, p2]); e1('sum_same', 'd=a+b;', lambda a, b: '%s+%s' % (a, b), [b3, b3, b3]); e1('sum_one', 'd=a+b;', lambda a, b: '%s+%s' % (a, b), [b3, b3, c2]); e1('ma', 'd=a*b-c;', lambda a, b, c: '%s*%s-%s' % (a, b, c), [p2, b3, c2, b3])
    e1('scalar', 'd=a*2.f+1.f;', lambda a: '%s*2.f+1.f' % a, [c2, b3]); e1('repl', 'd=a+b;', lambda a, b: '%s+%s' % (a, b), [b3, R(0, 1, 2), c2]); e1('torepl', 'd=a*b;', lambda a, b: '%s*%s' % (a, b), [R(0, 1, 2), b3, c2]); e1('neg', 'd=-a;', lambda a: '-%s' % a, [p2, b3]); e1('conj', 'd=conj(a)*b;', lambda a, b: 'std::conj(%s)*%s' % (a, b), [b3, c2, p2], T='cfloat')
    e1('fill', 'd=3.f;', lambda: '3.f', [p2])
    flush(3, 'expr')
    def upd(nm, body, f, ms, n=5, P=3, T='float'):
        vs = [A(c, T, q, P, (n,)) for c, q in zip('dabc', ms)]
        gen(nm, P, vs, body, [(vs[0].refs((i,)), f(*[q.ref((i,)) for q in vs])) for i in range(n)], T, again=True)
    upd('plus', 'd+=a;', lambda d, a: '%s+%s' % (d, a), [b3, c2]); upd('minus', 'd-=a*d;', lambda d, a: '%s-%s*%s' % (d, a, d), [c2, p2]); upd('times', 'd*=2.f;', lambda d: '%s*2.f' % d, [p2]); upd('plus_same', 'd+=a;', lambda d, a: '%s+%s' % (d, a), [b3, b3]); upd('self', 'd=d*a;', lambda d, a: '%s*%s' % (d, a), [R(0, 1, 2), b3])
    flush(3, 'upd')
    mm = lambda nm, *q: [A(c, 'float', z, P_, s) for c, z, P_, s in q]
    a = A('a', 'float', M([B(2), W]), 2, (3, 2)); b = A('b', 'float', M([W, B(2)]), 2, (3, 2)); d = A('d', 'float', M([W, B(2)]), 2, (3, 2)); dt = A('d', 'float', M([W, B(2)]), 2, (2, 3))
    gen('mexpr', 2, [d, a, b], 'd=a+b;', [(d.refs(g), '%s+%s' % (a.ref(g), b.ref(g))) for g in d.all()]); gen('mtrans', 2, [dt, a], 'd=a.transpose()*2.f;', [(dt.refs(g), '%s*2.f' % a.ref(g[::-1])) for g in dt.all()]); gen('mfill', 2, [a], 'a=2.f;', [(a.refs(g), '2.f') for g in a.all()])
    r = A('r', 'float', M([W, W], [0, 1], repl=True), 2, (3, 2)); gen('mrepl', 2, [r, a], 'r=a*2.f;', [(r.refs(g), '%s*2.f' % a.ref(g)) for g in a.all()])
    # real and imaginary parts
    z = A('z', 'cfloat', M([B(2)]), 2, (3,)); q = A('q', 'float', M([C(2, 1)]), 2, (3,))
    gen('real', 2, [z, q], 'q=z.real();', [(q.refs(g), '%s.real()' % z.ref(g)) for g in q.all()]); gen('imag', 2, [z, q], 'q=z.imag();', [(q.refs(g), '%s.imag()' % z.ref(g)) for g in q.all()])
    gen('toreal', 2, [z, q], 'z.real()=q;', [(z.refs(g), 'cfloat(%s,%s.imag())' % (q.ref(g), z.ref(g))) for g in q.all()], 'cfloat'); gen('toimag', 2, [z, q], 'z.imag()=q;', [(z.refs(g), 'cfloat(%s.real(),%s)' % (z.ref(g), q.ref(g))) for g in q.all()], 'cfloat')
    # several assignments in a row
    a, b, c = A('a', 'float', b3, 3, (5,)), A('b', 'float', c2, 3, (5,)), A('c', 'float', p2, 3, (5,))
    gen('two', 3, [a, b, c], 'b=a; c=a;', [(b.refs(g) + c.refs(g), a.ref(g)) for g in a.all()]); gen('chain', 3, [a, b, c], 'b=a; c=b;', [(b.refs(g) + c.refs(g), a.ref(g)) for g in a.all()], rounds=3)
    flush(2, 'mexpr')
    return out
