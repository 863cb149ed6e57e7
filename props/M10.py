"M10: random number generators produce the sequences the standard's C binding defines."
from vp import *
RULE = "the state and the results of the generator, as functions of the seed, equal the closed form of the linear congruential sequence"
A0, C0, A1, MASK = 1664525, 1013904223, 69069, (1 << 32) - 1
PRIMES = [p for p in range(3, 548) if all(p % q for q in range(2, int(p ** .5) + 1))][:100]
PRE = '#include <vsip/random.hpp>\n#include <vsip/vector.hpp>\n#include <vsip/matrix.hpp>\n#include <vsip/tensor.hpp>\nusing namespace vsip; typedef std::complex<float> cfloat; typedef std::complex<double> cdouble;\n'
def jump(a, c, n):
    "the affine map x -> A x + C that is n steps of x -> a x + c"
    A, C = 1, 0
    while n:
        if n & 1: A, C = A * a & MASK, (C * a + c) & MASK
        a, c = a * a & MASK, (c * (a + 1)) & MASK
        n >>= 1
    return A, C
def draws(k, i, portable, n):
    "n draws of process i of k as (A, C): the draw is (unsigned)(A*seed+C)"
    out = []
    if portable:
        skip = (MASK // k) * (i - 1); x1 = 1
        for d in range(n):
            A, C = jump(A0, C0, skip + d + 1)
            x1 = (x1 * A1 + PRIMES[i - 1]) & MASK
            out.append((A, (C - x1) & MASK))
    else:
        for d in range(n): out.append(jump(A0, C0, i + k * (d + 1)))
    return out
def u(T, d): return '%s((unsigned)((unsigned)s*%du+%du)/4294967296.0)' % (T, d[0], d[1])
def normal(T, d, portable):
    s = '+'.join(u(T, x) for x in d)
    return ('%s(6)-(%s)' if portable else '(%s)+%s(-6)') % ((T, s) if portable else (s, T))
def cnormal(T, d):
    a = '(%s)' % '+'.join(u(T, x) for x in d[:3]); b = '(%s)' % '+'.join(u(T, x) for x in d[3:])
    return 'std::complex<%s>(%s(3)-%s-%s,%s-%s)' % (T, T, b, a, a, b)
def tus(tier):
    o = []; wrap = [0]; full = tier == 'thorough'
    def ob(nm, T, k, i, portable, body, vals, typ=None):
        ctor = '%sRand<%s > g((index_type)s%s,%s);' % ('', typ or T, '' if (k, i) == (1, 1) else ',%d,%d' % (k, i), 'true' if portable else 'false')
        o.append(Ob('%s_%s_%s_%d_%d' % (nm, (typ or T), 'p' if portable else 'n', k, i), [('unsigned', 's', ''), ((typ or T) + '*', 'o', '')], 'world(1,[&](int){ %s},1);' % (ctor + body) if wrap[0] else ctor + body, ''.join('o[%d]=%s;' % x for x in enumerate(vals)), extent={}))
    pairs = [(1, 1), (2, 1), (2, 2), (3, 2), (4, 3), (4, 4), (5, 5), (6, 4), (8, 7), (12, 5), (100, 57)] + ([(k, i) for k in (7, 10, 16, 24, 64) for i in range(1, k + 1, 3)] if full else [])
    for k, i in pairs:
        for p in (True, False):
            d = draws(k, i, p, 6)
            ob('u', 'double', k, i, p, 'for (int j=0;j<6;++j) o[j]=g.randu();', [u('double', x) for x in d])
            if (k, i) in pairs[:6]: ob('u', 'float', k, i, p, 'for (int j=0;j<6;++j) o[j]=g.randu();', [u('float', x) for x in d])
    for i in range(1, 101):
        if full or i in (1, 2, 3, 10, 25, 50, 51, 99, 100): ob('prime', 'double', 100, i, True, 'o[0]=g.randu();', [u('double', x) for x in draws(100, i, True, 1)])
    for k, i in ((1, 1), (3, 2), (4, 4)):
        for p in (True, False):
            for T, c in (('float', 'cfloat'), ('double', 'cdouble')):
                d = draws(k, i, p, 25)
                ob('n', T, k, i, p, 'o[0]=g.randn(); o[1]=g.randn(); o[2]=g.randu();', [normal(T, d[:12], p), normal(T, d[12:24], p), u(T, d[24])])
                ob('cu', T, k, i, p, 'o[0]=g.randu(); o[1]=g.randu();', ['%s(%s,%s)' % (c, u(T, d[2 * j]), u(T, d[2 * j + 1])) for j in range(2)], c)
                ob('cn', T, k, i, p, 'o[0]=g.randn(); o[1]=g.randn(); o[2]=g.randu();', [cnormal(T, d[:6]), cnormal(T, d[6:12]), '%s(%s,%s)' % (c, u(T, d[12]), u(T, d[13]))], c)
    out = chunks(o, 6, 'rand', PRE, [], dict(unroll=1)); o = []; wrap[0] = 1
    # views: one draw per element in row-major order, continuing the sequence
    d = draws(1, 1, True, 60)
    ob('view1', 'double', 1, 1, True, 'Vector<double> v(3), w(2); v=g.randu(3); double x=g.randu(); w=g.randu(2); for (int j=0;j<3;++j) o[j]=v.get(j); o[3]=x; o[4]=w.get(0); o[5]=w.get(1);', [u('double', x) for x in d[:6]])
    ob('view2', 'double', 1, 1, True, 'Matrix<double> v(2,3); v=g.randu(2,3); for (int j=0;j<6;++j) o[j]=v.get(j/3,j%3); o[6]=g.randu();', [u('double', x) for x in d[:7]])
    ob('view3', 'double', 1, 1, True, 'Tensor<double> v(2,1,3); v=g.randu(2,1,3); for (int j=0;j<6;++j) o[j]=v.get(j/3,0,j%3); o[6]=g.randu();', [u('double', x) for x in d[:7]])
    ob('nview1', 'double', 1, 1, True, 'Vector<double> v(3); v=g.randn(3); for (int j=0;j<3;++j) o[j]=v.get(j);', [normal('double', d[12 * j:12 * j + 12], True) for j in range(3)])
    ob('nview2', 'double', 1, 1, True, 'Matrix<double> v(2,1); v=g.randn(2,1); for (int j=0;j<2;++j) o[j]=v.get(j,0);', [normal('double', d[12 * j:12 * j + 12], True) for j in range(2)])
    ob('cview1', 'float', 1, 1, True, 'Vector<cfloat> v(3); v=g.randn(3); for (int j=0;j<3;++j) o[j]=v.get(j);', [cnormal('float', d[6 * j:6 * j + 6]) for j in range(3)], 'cfloat')
    ob('expr', 'double', 1, 1, True, 'Vector<double> v(3); v=2.*g.randu(3)-1.; for (int j=0;j<3;++j) o[j]=v.get(j);', ['2.*%s-1.' % u('double', x) for x in d[:3]])
    return out + chunks(o, 4, 'view', PAR + '#include <vsip/random.hpp>\n', ['@inline=225'], PAROPT)
