"P05: functions, products, generators and transforms of distributed views."
from vp import *
from pm import *
import itertools
RULE = "the summarised effect on every process's memory, messages included, of a function, product, generator or transform applied to distributed views equals the same function of the global data under an independent layout model; what is not supported for a layout is refused with an exception"
W = ('W',); B = lambda n: ('B', n); C = lambda n, c=1: ('C', n, c)
R = lambda *pv: M([W], pv, repl=True)
R2 = lambda *pv: M([W, W], pv, repl=True)
FUN = '''
extern "C" __attribute__((const)) float vp_f1(float) noexcept; extern "C" __attribute__((const)) float vp_f2(float,float) noexcept; extern "C" __attribute__((const)) float vp_f3(float,float,float) noexcept;
struct Uf1 { typedef float argument_type; typedef float result_type; float g; float operator()(float a) const { return vp_f2(g,a);} };
struct Uf2 { typedef float first_argument_type; typedef float second_argument_type; typedef float result_type; float g; float operator()(float a, float b) const { return vp_f3(g,a,b);} };
struct Uf3 { typedef float first_argument_type; typedef float second_argument_type; typedef float third_argument_type; typedef float result_type; float g; float operator()(float a, float b, float c) const { return vp_f3(g,a,vp_f2(b,c));} };
inline Uf1 uf1(float g) { Uf1 f; f.g=g; return f;} inline Uf2 uf2(float g) { Uf2 f; f.g=g; return f;} inline Uf3 uf3(float g) { Uf3 f; f.g=g; return f;}
'''
THROW = 'OVXX_DO_THROW(ovxx::unimplemented(""));'
def tus(tier):
    out = []; o = []; seen = set()
    def gen(i, P, arrays, body, pairs, T='float', rounds=2, again=False, scal=[], refuse=False, pre=''):
        x = {}
        for a in arrays: x.update(a.extent())
        eq = ''.join(a.same() for a in arrays)
        assert i not in seen, i
        seen.add(i)
        o.append(Ob(i, sum([a.args() for a in arrays], []) + scal, eq + par(P, arrays, body, rounds, again), eq + THROW if refuse else eq + pre + assign(pairs, T), extent=x, opts={'tol': 1} if 0 else {}))
    def flush(k, nm, pre=PAR):
        out.extend(chunks(list(o), k, nm, pre, ['@inline=225'], PAROPT)); del o[:]
    b3, c2, p2 = M([B(3)]), M([C(2, 2)]), M([B(2)], [2, 1])
    # functions that carry an object: thresholds, user functions
    S4 = [('float', x, '') for x in ('g', 'h', 'u', 'q')]
    def e1(nm, body, f, ms, n=5, P=3, T='float', Ts=None, **k):
        vs = [A(c, t, q, P, (n,)) for c, q, t in zip('dabc', ms, Ts or [T] * 4)]
        gen(nm, P, vs, body, [(vs[0].refs((i,)), f(*[q.ref((i,)) for q in vs[1:]])) for i in range(n)], vs[0].T, **k)
    clipv = lambda a: '(%s<=g ? u : %s<h ? %s : q)' % (a, a, a); iclip = lambda a: '(%s<g ? %s : %s<h ? u : %s<=w ? q : %s)' % (a, a, a, a, a)
    for i, ms in enumerate(([b3, b3], [b3, c2], [c2, b3], [p2, c2])):
        e1('clip%d' % i, 'd=clip(a,g,h,u,q);', clipv, ms, scal=S4)
        e1('invclip%d' % i, 'd=invclip(a,g,h,w,u,q);', iclip, ms, scal=S4 + [('float', 'w', '')])
    flush(2, 'clip', PAR + FUN)
    for i, ms in enumerate(([b3, b3, b3, b3], [c2, b3, p2, c2])):
        e1('unary%d' % i, 'd=unary(uf1(g),a);', lambda a: 'vp_f2(g,%s)' % a, ms[:2], scal=S4[:1]); e1('binary%d' % i, 'd=binary(uf2(g),a,b);', lambda a, b: 'vp_f3(g,%s,%s)' % (a, b), ms[:3], scal=S4[:1]); e1('ternary%d' % i, 'd=ternary<float>(uf3(g),a,b,c);', lambda a, b, c: 'vp_f3(g,%s,vp_f2(%s,%s))' % (a, b, c), ms, scal=S4[:1])
    flush(2, 'user', PAR + FUN)
    # products of the rows or columns of a matrix with a vector
    def vm(i, d, P, sizes, mm, vv, mr=None, T='float', om=None, refuse=False, body=None):
        z = A('z', T, mr or mm, P, sizes, om); n = A('n', T, mm, P, sizes, om); v = A('v', T, vv, P, (sizes[1 - d],))
        gen(i, P, [z, n, v], body or 'z=vmmul<%d>(v,n);' % d, [(z.refs(g), '%s*%s' % (v.ref((g[1 - d],)), n.ref(g))) for g in z.all()], T, refuse=refuse)
    vm('vm_r0', 0, 3, (4, 2), M([B(3), W]), R(0, 1, 2)); vm('vm_c0', 0, 3, (2, 4), M([W, B(3)]), M([B(3)])); vm('vm_r1', 1, 3, (2, 4), M([W, B(3)]), R(0, 1, 2)); vm('vm_c1', 1, 3, (4, 2), M([B(3), W]), M([B(3)]))
    vm('vm_cy0', 0, 2, (2, 5), M([W, C(2, 2)]), M([C(2, 2)])); vm('vm_cy1', 1, 2, (5, 2), M([C(2, 2), W]), M([C(2, 2)])); vm('vm_perm', 1, 3, (4, 2), M([B(2), W], [2, 0]), M([B(2)], [2, 0]))
    vm('vm_repl', 0, 2, (2, 3), R2(0, 1), R(0, 1)); vm('vm_cx', 1, 2, (3, 2), M([B(2), W]), M([B(2)]), T='cfloat'); vm('vm_col', 0, 2, (2, 3), M([W, B(2)]), M([B(2)]), om=(1, 0))
    flush(2, 'vmmul')
    # a vector that is not laid out alike is refused, never read as if it were
    vm('vm_x_c0', 0, 3, (2, 4), M([W, B(3)]), M([C(3, 1)]), refuse=True); vm('vm_x_c1', 1, 3, (4, 2), M([B(3), W]), M([B(3)], [2, 1, 0]), refuse=True); vm('vm_x_r0', 0, 3, (4, 2), M([B(3), W]), M([B(3)]), refuse=True); vm('vm_x_few', 0, 3, (4, 2), M([B(3), W]), R(0, 1), refuse=True); vm('vm_x_rd', 0, 2, (2, 4), M([W, B(2)]), R(0, 1), refuse=True); vm('vm_x_m', 1, 3, (4, 2), M([B(3), W]), M([B(3)]), M([C(3, 1), W]), refuse=True)
    flush(2, 'vmmulx')
    # generators
    def rampv(nm, m, n=5, P=3):
        d = A('d', 'float', m, P, (n,))
        gen(nm, P, [d], 'd=ramp(g,h,%d);' % n, [(d.refs((i,)), 'g+%d*h' % i) for i in range(n)], scal=S4[:2])
    rampv('ramp_b', b3); rampv('ramp_c', c2); rampv('ramp_p', p2); rampv('ramp_r', R(0, 1, 2)); rampv('ramp_few', b3, 2)
    for i, ms in enumerate(([c2, c2], [b3, b3], [p2, p2])):
        d, a = A('d', 'float', ms[0], 3, (5,)), A('a', 'float', ms[1], 3, (5,))
        gen('ramp_plus%d' % i, 3, [d, a], 'd=a+ramp(g,h,5);', [(d.refs((k,)), '%s+(g+%d*h)' % (a.ref((k,)), k)) for k in range(5)], scal=S4[:2])
    flush(2, 'ramp')
    # element-wise functions of several value types
    MIX = ([b3, b3, b3, b3], [c2, b3, p2, c2])
    for i, ms in enumerate(MIX):
        e1('mag%d' % i, 'd=mag(a);', lambda a: 'std::abs(%s)' % a, ms[:2], Ts=['float', 'cfloat'])
        e1('arg%d' % i, 'd=real(a)*imag(a);', lambda a: '%s.real()*%s.imag()' % (a, a), ms[:2], Ts=['float', 'cfloat'])
        e1('euler%d' % i, 'd=jmul(a,b);', lambda a, b: '%s*std::conj(%s)' % (a, b), ms[:3], T='cfloat')
        e1('ma%d' % i, 'd=ma(a,b,c);', lambda a, b, c: '%s*%s+%s' % (a, b, c), ms); e1('sbm%d' % i, 'd=sbm(a,b,c);', lambda a, b, c: '(%s-%s)*%s' % (a, b, c), ms); e1('mas%d' % i, 'd=ma(a,g,c);', lambda a, c: '%s*g+%s' % (a, c), ms[:3], scal=S4[:1]) if 0 else None
        e1('max%d' % i, 'd=max(a,b);', lambda a, b: 'std::max(%s,%s)' % (a, b), ms[:3]); e1('lt%d' % i, 'd=lt(a,b);', lambda a, b: '%s<%s' % (a, b), ms[:3], Ts=['bool', 'float', 'float']); e1('ge%d' % i, 'd=ge(a,g);', lambda a: '%s>=g' % a, ms[:2], Ts=['bool', 'float'], scal=S4[:1])
        e1('ite%d' % i, 'd=ite(a,b,c);', lambda a, b, c: '%s?%s:%s' % (a, b, c), ms, Ts=['float', 'bool', 'float', 'float']); e1('expo%d' % i, 'd=expoavg(g,a,b);', lambda a, b: 'g*%s+(1-g)*%s' % (a, b), ms[:3], scal=S4[:1]); e1('cast%d' % i, 'd=view_cast<int>(a);', lambda a: '(int)%s' % a, ms[:2], Ts=['int', 'short']); e1('lnot%d' % i, 'd=lnot(a);', lambda a: '!%s' % a, ms[:2], T='bool')
        e1('sc%d' % i, 'd=g-a*h;', lambda a: 'g-%s*h' % a, ms[:2], scal=S4[:2])
    flush(4, 'fun')
    for i, ms in enumerate(MIX):
        x, y = A('x', 'float', ms[0], 3, (5,)), A('y', 'float', ms[0], 3, (5,))
        gen('swap%d' % i, 3, [x, y], 'swap(x,y);', sum([[(x.refs(g), y.ref(g)), (y.refs(g), x.ref(g))] for g in x.all()], []), again=True)
    flush(2, 'swap')
    # frequency swap: on one subblock only
    def fs(nm, m, n, P, **k):
        x, y = A('x', 'float', m, P, (n,)), A('y', 'float', k.pop('m2', m), P, (n,))
        gen(nm, P, [x, y], 'y=freqswap(x);', [(y.refs((i,)), x.ref(((i + n - n // 2) % n if n % 2 == 0 else (i + n // 2 + n % 2 - 0) % n,))) for i in range(n)] if 0 else [(y.refs((i,)), x.ref(((n // 2 + n % 2 + i) % n if i < n // 2 else i - n // 2,))) if not (n % 2 and i == n - 1) else (y.refs((i,)), x.ref((n // 2,))) for i in range(n)], **k)
    fs('fs_one', M([B(1)], [1]), 5, 2); fs('fs_one_even', M([B(1)], [0]), 4, 2); fs('fs_repl', R(0, 1), 3, 2)
    fs('fs_x', b3, 5, 3, refuse=True); fs('fs_x_cyc', c2, 5, 3, refuse=True)
    x, y = [A(c, 'float', M([B(1), B(1)], [1]), 2, (3, 2)) for c in 'xy']
    FI = lambda i, n: (n // 2 + n % 2 + i if i < n // 2 else i - n // 2) if not (n % 2 and i == n - 1) else n // 2
    gen('fs_one2', 2, [x, y], 'y=freqswap(x);', [(y.refs((i, j)), x.ref((FI(i, 3), FI(j, 2)))) for i, j in x.all()])
    x, y = [A(c, 'float', M([B(2), W]), 2, (3, 2)) for c in 'xy']; gen('fs_x2', 2, [x, y], 'y=freqswap(x);', [], refuse=True)
    flush(2, 'fswap', PAR + '#include <vsip/signal.hpp>\n')
    # filters, convolution, correlation, histogram: the kernel local, the data distributed
    SIG = PAR + '#include "blasref.hpp"\n#include <vsip/signal.hpp>\n'
    K2 = 'Vector<float> k_(2); k_.put(0,g); k_.put(1,h); '
    for i, (m1, m2) in enumerate(((M([B(2)]), M([B(2)])), (M([B(2)], [1, 0]), M([C(2, 1)])), (R(0, 1), M([B(2)])))):
        x, y, z = A('x', 'float', m1, 2, (3,)), A('y', 'float', m2, 2, (4,)), A('y', 'float', m2, 2, (3,))
        X = lambda k: x.ref((k,)) if 0 <= k < 3 else '0.f'
        gen('conv%d' % i, 2, [x, y], K2 + 'Convolution<const_Vector,nonsym,support_full,float> f_(k_,Domain<1>(3)); f_(x,y);', [(y.refs((k,)), 'g*%s+h*%s' % (X(k), X(k - 1))) for k in range(4)], scal=S4[:2])
        gen('corr%d' % i, 2, [x, y], K2 + 'Correlation<const_Vector,support_full,float> f_(Domain<1>(2),Domain<1>(3)); f_(biased,k_,x,y);', [(y.refs((k,)), 'g*%s+h*%s' % (X(k - 1), X(k))) for k in range(4)], scal=S4[:2])
        gen('fir%d' % i, 2, [x, z], K2 + 'Fir<float> f_(k_,3); f_(x,y);', [(z.refs((k,)), 'g*%s+h*%s' % (X(k), X(k - 1))) for k in range(3)], scal=S4[:2])
    flush(2, 'filt', SIG)
    # transforms
    FFT = PAR + '#include <vsip/signal.hpp>\n#include <ovxx/fftw/fft.cpp>\n#include "fftwref.hpp"\n'
    def f1(nm, n, m1, m2, P, kind='c2c', inv=False, inplace=False, by='by_reference', **k):
        I, O = {'c2c': ('cfloat', 'cfloat'), 'r2c': ('float', 'cfloat'), 'c2r': ('cfloat', 'float')}[kind]; ni = n // 2 + 1 if kind == 'c2r' else n; no = n // 2 + 1 if kind == 'r2c' else n
        x, y = A('x', I, m1, P, (ni,)), A('y', O, m2 or m1, P, (no,))
        pre = 'cfloat s_[%d]; ' % n + ''.join('s_[%d]=%s;' % (i, x.ref((i,))) for i in range(ni))
        if kind == 'c2r': pre += 'cfloat h_[%d]; for (int i=0;i<%d;++i) h_[i]=s_[i]; for (int i=0;i<%d;++i) s_[i]=fftwref::herm<float>(h_,2,1,1,%d,0,0,i);' % (n, ni, n, n)
        ob = 'Fft<const_Vector,%s,%s,%s,%s> f_(Domain<1>(%d),1.f); ' % (I, O, '0' if kind != 'c2c' else 'fft_inv' if inv else 'fft_fwd', by, n)
        sgn = 1 if inv or kind == 'c2r' else -1
        gen(nm, P, [x] if inplace else [x, y], ob + ('f_(x);' if inplace else 'f_(x,y);' if by == 'by_reference' else 'y=f_(x);'), [((x if inplace else y).refs((i,)), 'fftwref::at<float>(%d,s_,1,1,%d,0,0,%d)%s' % (sgn, n, i, '.real()' if kind == 'c2r' else '')) for i in range(no)], O, pre=pre, again=inplace, **k)
    B2, C2 = M([B(2)]), M([C(2, 1)])
    f1('fft', 3, B2, None, 2); f1('fft_mix', 3, B2, C2, 2, inv=True); f1('fft_rc', 4, B2, C2, 2, 'r2c'); f1('fft_cr', 4, C2, B2, 2, 'c2r'); f1('fft_in', 3, B2, None, 2, inplace=True); f1('fft_repl', 3, R(0, 1), None, 2); f1('fft_few', 2, M([B(2)], [2, 0]), None, 3)
    flush(2, 'fft', FFT)
    def f2(nm, sizes, m1, m2, P, axis=None, by='by_reference', inplace=False, o1=None, o2=None, **k):
        n, m = sizes; x, y = A('x', 'cfloat', m1, P, sizes, o1), A('y', 'cfloat', m2 or m1, P, sizes, o2 or o1)
        pre = 'cfloat s_[%d]; ' % (n * m) + ''.join('s_[%d]=%s;' % (i * m + j, x.ref((i, j))) for i, j in x.all())
        if axis is None: ob = 'Fft<const_Matrix,cfloat,cfloat,fft_fwd,%s> f_(Domain<2>(%d,%d),1.f); ' % (by, n, m); at = lambda i, j: 'fftwref::at<float>(-1,s_,1,%d,%d,0,%d,%d)' % (n, m, i, j)
        else:
            ob = 'Fftm<cfloat,cfloat,%s,fft_fwd,%s> f_(Domain<2>(%d,%d),1.f); ' % ('row' if axis == 0 else 'col', by, n, m)
            L_ = m if axis == 0 else n
            for q in range(n if axis == 0 else m): pre += 'cfloat l_%d[%d]={%s}; ' % (q, L_, ','.join('s_[%d]' % (q * m + i if axis == 0 else i * m + q) for i in range(L_)))
            at = lambda i, j: 'fftwref::at<float>(-1,l_%d,1,1,%d,0,0,%d)' % ((i, L_, j) if axis == 0 else (j, L_, i))
        gen(nm, P, [x] if inplace else [x, y], ob + ('f_(x);' if inplace else 'f_(x,y);' if by == 'by_reference' else 'y=f_(x);'), [((x if inplace else y).refs((i, j)), at(i, j)) for i, j in x.all()], 'cfloat', pre=pre, again=inplace and not k.get('refuse'), **k)
    RB, CB = M([B(2), W]), M([W, B(2)])
    f2('fft2', (2, 2), RB, None, 2); f2('fft2_mix', (2, 2), RB, CB, 2); f2('fft2_in', (2, 2), CB, None, 2, inplace=True); f2('fft2_v1', (2, 2), M([B(1), W], [1]), None, 2, by='by_value')
    f2('fft2_x', (2, 2), RB, None, 2, by='by_value', refuse=True); f2('fft2_x_c', (2, 2), CB, None, 2, by='by_value', refuse=True)
    flush(2, 'fft2', FFT)
    for by in ('by_reference', 'by_value'):
        q = by[3]
        f2('fftm_r' + q, (3, 2), RB, None, 2, 0, by); f2('fftm_c' + q, (2, 3), CB, None, 2, 1, by); f2('fftm_ro' + q, (3, 2), RB, None, 2, 0, by, o1=(1, 0), o2=(0, 1)); f2('fftm_few' + q, (1, 2), RB, None, 2, 0, by); f2('fftm_cyc' + q, (3, 2), M([C(2, 1), W], [1, 0]), None, 2, 0, by)
        f2('fftm_x' + q, (2, 2), CB, None, 2, 0, by, refuse=True); f2('fftm_xc' + q, (2, 2), RB, None, 2, 1, by, refuse=True)
    f2('fftm_in', (3, 2), RB, None, 2, 0, inplace=True); f2('fftm_inc', (2, 3), CB, None, 2, 1, inplace=True); f2('fftm_xin', (2, 2), CB, None, 2, 0, inplace=True, refuse=True)
    flush(2, 'fftm', FFT)
    return out
