"""Hash-consed value-graph terms: polynomials over opaque atoms (integers
modulo 2^w, reals over the rationals), pointers as (base, byte offset),
conditions as reduced ordered decision graphs."""
from fractions import Fraction
import sys
sys.setrecursionlimit(100000)

class Unsupported(Exception):
    pass

# ---------------------------------------------------------------- atoms
_atoms = {}
_alist = []

def atom(*key):
    a = _atoms.get(key)
    if a is None:
        a = len(_alist)
        _atoms[key] = a
        _alist.append(key)
    return a

def akey(a):
    return _alist[a]

def reset():
    _atoms.clear(); del _alist[:]; _polys.clear(); _bdds.clear(); _bcache.clear()
    _bdds[(None, None, None, 1)] = TRUE; _bdds[(None, None, None, 0)] = FALSE
    _free.clear(); _allbv.clear(); _abases.clear()

# ---------------------------------------------------------------- polynomials
_polys = {}

class Poly(object):
    __slots__ = ('ring', 'm', 'h', '_k')
    def __new__(cls, ring, m):
        k = (ring, frozenset(m.items()))
        p = _polys.get(k)
        if p is None:
            p = object.__new__(cls)
            p.ring = ring; p.m = dict(m); p.h = hash(k); p._k = k
            _polys[k] = p
        return p
    def __hash__(self): return self.h
    def __eq__(self, o): return self is o
    def const(self):
        if not self.m: return 0
        if len(self.m) == 1 and () in self.m: return self.m[()]
        return None
    def isconst(self): return not self.m or (len(self.m) == 1 and () in self.m)
    def single(self):
        "the atom id if the polynomial is exactly one atom"
        if len(self.m) == 1:
            (mo, c), = self.m.items()
            if c == 1 and len(mo) == 1: return mo[0]
        return None
    def atoms(self):
        s = set()
        for mo in self.m: s.update(mo)
        return s
    def __repr__(self): return show(self)

def norm(ring, m):
    if ring != 'f':
        M = 1 << ring
        r = {}
        for k, c in m.items():
            c %= M
            if c: r[k] = c
        return Poly(ring, r)
    r = Poly(ring, {k: c for k, c in m.items() if c})
    # long real sums are named, not multiplied out (the option `share`)
    if SHARE and len(r.m) > SHARE: return A('f', 'share', r)
    return r
SHARE = 0

def K(ring, c): return norm(ring, {(): Fraction(c) if ring == 'f' else int(c)})
def A(ring, *key): return Poly(ring, {(atom(*key),): Fraction(1) if ring == 'f' else 1})
def AA(ring, a): return Poly(ring, {(a,): Fraction(1) if ring == 'f' else 1})

def add(p, q, s=1):
    if p.ring != q.ring: raise Unsupported('ring mix')
    m = dict(p.m)
    for k, c in q.m.items(): m[k] = m.get(k, 0) + s * c
    return norm(p.ring, m)

def sub(p, q): return add(p, q, -1)

def mul(p, q):
    if p.ring != q.ring: raise Unsupported('ring mix')
    if len(p.m) * len(q.m) > 4000: raise Unsupported('poly blowup')
    m = {}
    for k, c in p.m.items():
        for l, d in q.m.items():
            n = tuple(sorted(k + l))
            m[n] = m.get(n, 0) + c * d
    r = norm(p.ring, m)
    if p.ring == 'f': r = cancel(r)
    return r

def cancel(p):
    "x * (1/x) -> 1 inside monomials"
    m = {}; ch = False
    for k, c in p.m.items():
        if len(k) > 1:
            k = list(k)
            for a in list(k):
                ka = _alist[a]
                if ka[0] == 'inv' and a in k:
                    s = ka[1].single()
                    if s is not None and s in k:
                        k.remove(a); k.remove(s); ch = True
            k = tuple(k)
        m[k] = m.get(k, 0) + c
    return norm(p.ring, m) if ch else p

def scale(p, c): return norm(p.ring, {k: c * d for k, d in p.m.items()})
def neg(p): return scale(p, -1)

def fdiv(p, q):
    c = q.const()
    if c is not None:
        if c == 0: return A('f', 'fdiv0', p)
        return scale(p, Fraction(1) / c)
    # pull the leading coefficient out of the denominator
    lead = next(iter(q.m.values())) if len(q.m) == 1 else 1
    if lead != 1: q2 = scale(q, Fraction(1) / lead)
    else: q2 = q
    return scale(mul(p, A('f', 'inv', q2)), Fraction(1) / lead)

# ---------------------------------------------------------------- conditions
_bdds = {}
_bcache = {}

class Bdd(object):
    "reduced ordered decision graph; leaf when v is None"
    __slots__ = ('v', 'hi', 'lo', 'leaf')
    def __new__(cls, v, hi, lo, leaf=None):
        if v is not None and hi is lo: return hi
        k = (v, hi, lo, leaf)
        b = _bdds.get(k)
        if b is None:
            b = object.__new__(cls); b.v = v; b.hi = hi; b.lo = lo; b.leaf = leaf
            _bdds[k] = b
        return b
    def __hash__(self): return id(self)
    def __eq__(self, o): return self is o

TRUE = Bdd(None, None, None, 1)
FALSE = Bdd(None, None, None, 0)

def bvar(a): return Bdd(a, TRUE, FALSE)

def bite(f, g, h):
    if f is TRUE: return g
    if f is FALSE: return h
    if g is h: return g
    if g is TRUE and h is FALSE: return f
    k = (f, g, h)
    r = _bcache.get(k)
    if r is None:
        v = min(x.v for x in (f, g, h) if x.v is not None)
        def c(x, s): return (x.hi if s else x.lo) if x.v == v else x
        r = Bdd(v, bite(c(f, 1), c(g, 1), c(h, 1)), bite(c(f, 0), c(g, 0), c(h, 0)))
        _bcache[k] = r
    return r

def band(a, b): return bite(a, b, FALSE)
def bor(a, b): return bite(a, TRUE, b)
def bnot(a): return bite(a, FALSE, TRUE)
def bxor(a, b): return bite(a, bnot(b), b)

def bsupport(b, s=None):
    if s is None: s = set()
    if b.v is not None and b.v not in s or b.v is not None:
        s.add(b.v); bsupport(b.hi, s); bsupport(b.lo, s)
    return s

# ---------------------------------------------------------------- pointers & vectors
class Ptr(object):
    __slots__ = ('base', 'off')
    def __init__(self, base, off): self.base = base; self.off = off
    def __hash__(self): return hash((self.base, self.off))
    def __eq__(self, o): return isinstance(o, Ptr) and o.base == self.base and o.off is self.off
    def __repr__(self): return 'Ptr(%r,%s)' % (self.base, show(self.off))

class Agg(object):
    "aggregate / vector value"
    __slots__ = ('e',)
    def __init__(self, e): self.e = tuple(e)
    def __hash__(self): return hash(self.e)
    def __eq__(self, o): return isinstance(o, Agg) and o.e == self.e

class Undef(object):
    __slots__ = ()
    def __repr__(self): return 'undef'
UNDEF = Undef()

Z64 = lambda: K(64, 0)

def icmp(p, a, b):
    "integer comparison -> condition"
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if a.base == b.base: return icmp(p, a.off, b.off)
            if p in ('eq', 'ne'):
                known = lambda x: isinstance(x.base, tuple) and x.base[0] in ('arg', 'alloca', 'new', 'null', 'g', 'fn')
                if known(a) and known(b): return TRUE if p == 'ne' else FALSE
                x = bvar(atom('peq', *sorted((a, b), key=repr)))
                return x if p == 'eq' else bnot(x)
            raise Unsupported('pointer order')
        raise Unsupported('ptr/int compare')
    if isinstance(a, Bdd) or isinstance(b, Bdd):
        a = tobdd(a); b = tobdd(b)
        x = bxor(a, b)
        if p == 'ne': return x
        if p == 'eq': return bnot(x)
        if p == 'ult': return band(bnot(a), b)
        if p == 'ugt': return band(a, bnot(b))
        raise Unsupported('i1 compare')
    if isinstance(a, Agg): raise Unsupported('vector compare')
    if p == 'ne': return bnot(icmp('eq', a, b))
    if p == 'ugt': return icmp('ult', b, a)
    if p == 'uge': return bnot(icmp('ult', a, b))
    if p == 'ule': return bnot(icmp('ult', b, a))
    if p == 'sgt': return icmp('slt', b, a)
    if p == 'sge': return bnot(icmp('slt', a, b))
    if p == 'sle': return bnot(icmp('slt', b, a))
    w = a.ring; ca, cb = a.const(), b.const()
    if p == 'eq':
        d = sub(a, b)
        c = d.const()
        if c is not None: return TRUE if c == 0 else FALSE
        # sign-normalise, and divide by a common odd/even constant factor when exact
        lo = min(d.m, key=lambda k: (len(k), k))
        if d.m[lo] > (1 << (w - 1)): d = neg(d)
        s = d
        if len(d.m) == 1 and (d.m[lo] & 1): s = norm(w, {lo: 1})
        if len(s.m) == 1:
            (mo, c), = s.m.items()
            if c == 1 and len(mo) == 1:
                k = akey(mo[0])
                if k[0] in ('zext', 'sext'): return icmp('eq', k[2], K(k[2].ring, 0))
        # equality of a conditional value with a constant
        ms = [mo for mo in s.m if mo]
        if len(ms) == 1 and len(ms[0]) == 1 and s.m[ms[0]] in (1, (1 << w) - 1):
            k = akey(ms[0][0])
            if k[0] == 'mt':
                c0 = K(w, s.m.get((), 0)); sg = 1 if s.m[ms[0]] == 1 else -1
                f = lambda x: icmp('eq', add(x if sg == 1 else neg(x), c0), K(w, 0))
                return bite(bvar(k[1]), f(k[2]), f(k[3]))
        return bvar(atom('eq', s))
    if ca is not None and cb is not None:
        if p == 'slt':
            sg = lambda x: x - (1 << w) if x >> (w - 1) else x
            ca, cb = sg(ca), sg(cb)
        return TRUE if ca < cb else FALSE
    if a is b: return FALSE
    if p == 'ult':
        if cb == 0: return FALSE
        if cb == 1: return icmp('eq', a, K(w, 0))
        if ca == 0: return icmp('ne', b, K(w, 0))
        if ca == (1 << w) - 1: return FALSE
    # x < c  versus  not (c-1 < x): canonical: constant on the right
    if p == 'ult' and ca is not None: return bnot(icmp('ult', b, K(w, ca + 1)))
    if p == 'slt' and ca is not None and ca != (1 << (w - 1)) - 1: return bnot(icmp('slt', b, K(w, ca + 1)))
    return bvar(atom(p, a, b))

def tobdd(x):
    if isinstance(x, Bdd): return x
    if isinstance(x, Poly):
        c = x.const()
        if c is not None: return TRUE if c & 1 else FALSE
        if x.ring == 1:
            s = x.single()
            if s is not None and akey(s)[0] == 'b': return akey(s)[1]
            return bvar(atom('i1', x))
    raise Unsupported('tobdd')

def fcmp(p, a, b):
    # NaN-free reading: ordered/unordered variants coincide
    if p in ('true',): return TRUE
    if p in ('false',): return FALSE
    if p == 'ord': return TRUE
    if p == 'uno': return FALSE
    q = p[1:]
    if q in ('gt',): return fcmp('olt', b, a)
    if q == 'ge': return bnot(fcmp('olt', a, b))
    if q == 'le': return bnot(fcmp('olt', b, a))
    d = sub(a, b)
    c = d.const()
    if q == 'eq':
        if c is not None: return TRUE if c == 0 else FALSE
        lo = min(d.m, key=lambda k: (len(k), k))
        d = scale(d, Fraction(1) / d.m[lo])
        return bvar(atom('feq', d))
    if q == 'ne': return bnot(fcmp('oeq', a, b))
    if q == 'lt':
        if c is not None: return TRUE if c < 0 else FALSE
        lo = min(d.m, key=lambda k: (len(k), k))
        d = scale(d, Fraction(1) / abs(d.m[lo]))
        return bvar(atom('flt0', d))
    raise Unsupported('fcmp ' + p)

def ite(c, a, b):
    "conditional value"
    if c is TRUE: return a
    if c is FALSE: return b
    if isinstance(a, Bdd) or isinstance(b, Bdd): return bite(c, tobdd(a), tobdd(b))
    if a == b: return a
    if isinstance(a, Undef): return b
    if isinstance(b, Undef): return a
    if isinstance(a, Agg) and isinstance(b, Agg): return Agg(ite(c, x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.base == b.base: return Ptr(a.base, ite(c, a.off, b.off))
        return Ptr(('psel', c, a, b), K(64, 0))
    if not (isinstance(a, Poly) and isinstance(b, Poly)): raise Unsupported('ite kinds %r %r' % (a, b))
    # min/max recognition
    if c.hi is TRUE and c.lo is FALSE or c.hi is FALSE and c.lo is TRUE:
        k = akey(c.v); t, e = (a, b) if c.hi is TRUE else (b, a)
        if k[0] in ('ult', 'slt'):
            if t is k[1] and e is k[2]: return minmax(k[0][0] + 'min', t, e)
            if t is k[2] and e is k[1]: return minmax(k[0][0] + 'max', t, e)
        if k[0] == 'eq':
            # substitute the equality where it makes the branches equal (x==c ? c : x)
            d = sub(t, e)
            if d is k[1] or d is neg(k[1]): return e
        # a zero-trip guard around a loop result
        r = zerotrip(k, t, e) if k[0] == 'eq' else None
        if r is not None: return r
    return mt(c, a, b)

zerotrip_hook = [None]
def zerotrip(k, t, e):
    return zerotrip_hook[0](k, t, e) if zerotrip_hook[0] else None

def minmax(op, a, b):
    x = sorted((a, b), key=id)
    if a.isconst() and b.isconst():
        w = a.ring; va, vb = a.const(), b.const()
        sg = (lambda x: x - (1 << w) if x >> (w - 1) else x) if op[0] == 's' else (lambda x: x)
        return a if ((sg(va) < sg(vb)) == (op[1:] == 'min')) else b
    if a is b: return a
    return A(a.ring, op, frozenset((a, b)))

def mt(c, a, b):
    "decision graph with value leaves, ordered like the conditions"
    def top(x):
        s = x.single()
        if s is not None and akey(s)[0] == 'mt': return akey(s)[1]
        return None
    def cof(x, v, s):
        if top(x) == v: return akey(x.single())[2 if s else 3]
        return x
    memo = {}
    def go(f, g, h):
        if f is TRUE: return g
        if f is FALSE: return h
        if g is h: return g
        k = (f, g, h)
        r = memo.get(k)
        if r is None:
            v = min([f.v] + [t for t in (top(g), top(h)) if t is not None])
            cf = lambda s: (f.hi if s else f.lo) if f.v == v else f
            hi = go(cf(1), cof(g, v, 1), cof(h, v, 1))
            lo = go(cf(0), cof(g, v, 0), cof(h, v, 0))
            r = hi if hi is lo else A(g.ring, 'mt', v, hi, lo)
            memo[k] = r
        return r
    return go(c, a, b)

# ---------------------------------------------------------------- printing
_sup = {}
def show(x, d=0):
    if isinstance(x, Poly):
        if not x.m: return '0'
        out = []
        M = None if x.ring == 'f' else 1 << x.ring
        for k, c in sorted(x.m.items(), key=lambda t: (-len(t[0]), t[0])):
            if M and c > M // 2: c -= M
            s = '*'.join(showatom(a, d) for a in k)
            if not s: s = str(c)
            elif c == -1: s = '-' + s
            elif c != 1: s = '%s*%s' % (c, s)
            out.append(s)
        return '+'.join(out).replace('+-', '-')
    if isinstance(x, Bdd):
        if d > (3 if SHARE else 12): return '...'
        if x is TRUE: return 'T'
        if x is FALSE: return 'F'
        if x.hi is TRUE and x.lo is FALSE: return showatom(x.v, d)
        if x.hi is FALSE and x.lo is TRUE: return '!' + showatom(x.v, d)
        return '(%s?%s:%s)' % (showatom(x.v, d), show(x.hi, d), show(x.lo, d))
    if isinstance(x, Ptr): return '[%s + %s]' % (showb(x.base, d), show(x.off, d))
    if isinstance(x, Agg): return '{' + ', '.join(show(e, d) for e in x.e) + '}'
    if isinstance(x, (tuple, frozenset)): return '(' + ' '.join(show(e, d) for e in x) + ')'
    return str(x)

def showb(b, d=0):
    if isinstance(b, tuple): return ':'.join(show(e, d + 1) if not isinstance(e, (str, int)) else str(e) for e in b)
    return str(b)

def showatom(a, d=0):
    k = akey(a)
    if d > (3 if SHARE else 12): return '...'
    if k[0] == 'arg': return 'a%s' % k[1]
    if k[0] == 'share': return '~%d' % a
    if k[0] == 'iv': return 'i%s' % k[1]
    if k[0] == 'ld': return 'M%s[%s+%s]' % (k[1], showb(k[2], d), show(k[3], d + 1))
    return '%s(%s)' % (k[0], ', '.join(show(e, d + 1) for e in k[1:]))

# ---------------------------------------------------------------- restrict / cofactor
def restrict(f, care):
    "simplify f where care does not hold (generalised cofactor)"
    memo = {}
    def go(f, c):
        if c is TRUE or f is TRUE or f is FALSE: return f
        if c is FALSE: return f
        k = (f, c)
        r = memo.get(k)
        if r is not None: return r
        if c.v < f.v: r = go(f, bor(c.hi, c.lo))
        else:
            ch, cl = (c.hi, c.lo) if c.v == f.v else (c, c)
            if ch is FALSE: r = go(f.lo, cl)
            elif cl is FALSE: r = go(f.hi, ch)
            else: r = Bdd(f.v, go(f.hi, ch), go(f.lo, cl))
        memo[k] = r
        return r
    return go(f, care)

def cofactor(f, v, s):
    memo = {}
    def go(f):
        if f.v is None or f.v > v: return f
        if f.v == v: return f.hi if s else f.lo
        r = memo.get(f)
        if r is None:
            r = Bdd(f.v, go(f.hi), go(f.lo)); memo[f] = r
        return r
    return go(f)

def vrestrict(x, care):
    "simplify conditional values under a guard"
    if care is TRUE: return x
    if isinstance(x, Bdd): return restrict(x, care)
    if isinstance(x, Poly):
        s = x.single()
        if s is not None and akey(s)[0] == 'mt':
            def go(p, c):
                s = p.single()
                if s is None or c is TRUE: return p
                k = akey(s)
                if k[0] != 'mt': return p
                h, l = band(c, bvar(k[1])), band(c, bnot(bvar(k[1])))
                if h is FALSE: return go(k[3], l)
                if l is FALSE: return go(k[2], h)
                return ite(bvar(k[1]), go(k[2], h), go(k[3], l))
            return go(x, care)
        return x
    if isinstance(x, Agg): return Agg(vrestrict(e, care) for e in x.e)
    if isinstance(x, Ptr):
        if isinstance(x.base, tuple) and x.base[0] == 'psel':
            c = x.base[1]
            if band(c, care) is FALSE: return vrestrict(Ptr(x.base[3].base, add(x.base[3].off, x.off)), care)
            if band(bnot(c), care) is FALSE: return vrestrict(Ptr(x.base[2].base, add(x.base[2].off, x.off)), care)
        return Ptr(x.base, vrestrict(x.off, care))
    return x

# ---------------------------------------------------------------- integer operators
def sgn(x, w): return x - (1 << w) if x >> (w - 1) & 1 else x

def exactdiv(p, c):
    "divide every coefficient (as a signed number) by c when exact"
    w = p.ring; m = {}
    for k, v in p.m.items():
        v = sgn(v, w)
        if v % c: return None
        m[k] = v // c
    return norm(w, m)

def ibin(op, a, b):
    w = a.ring; ca, cb = a.const(), b.const()
    if op == 'add': return add(a, b)
    if op == 'sub': return sub(a, b)
    if op == 'mul': return mul(a, b)
    if op == 'shl':
        if cb is not None: return scale(a, 1 << cb) if cb < w else K(w, 0)
        if ca == 0: return a
        return A(w, 'shl', a, b)
    M = (1 << w) - 1
    if ca is not None and cb is not None:
        sa, sb = sgn(ca, w), sgn(cb, w)
        if op == 'udiv': return K(w, ca // cb) if cb else A(w, 'undefi')
        if op == 'urem': return K(w, ca % cb) if cb else A(w, 'undefi')
        if op in ('sdiv', 'srem'):
            if not cb: return A(w, 'undefi')
            q = abs(sa) // abs(sb)
            if (sa < 0) != (sb < 0): q = -q
            return K(w, q if op == 'sdiv' else sa - q * sb)
        if op == 'lshr': return K(w, ca >> cb if cb < w else 0)
        if op == 'ashr': return K(w, sa >> min(cb, w - 1))
        if op == 'and': return K(w, ca & cb)
        if op == 'or': return K(w, ca | cb)
        if op == 'xor': return K(w, ca ^ cb)
    if op in ('and', 'or', 'xor'):
        if ca is not None: a, b, ca, cb = b, a, cb, ca
        if cb == 0: return b if op == 'and' else a
        if cb == M:
            return {'and': a, 'or': b, 'xor': sub(b, a)}[op]
        if a is b: return a if op != 'xor' else K(w, 0)
        if op == 'and' and cb is not None:
            if cb & (cb + 1) == 0:            # low mask
                m = norm(w, {k: v & cb for k, v in a.m.items()})
                if not m.m: return m
                if m.isconst(): return K(w, m.const() & cb)
                return A(w, 'lowbits', m, cb)
            inv = M & ~cb
            if inv & (inv + 1) == 0: return sub(a, ibin('and', a, K(w, inv)))
        if op == 'and':
            # and of 0/1 conditional values
            pass
        if cb is None: a, b = sorted((a, b), key=lambda p: sorted(p.m.items()).__repr__())
        return A(w, op, a, b)
    if op == 'lshr':
        if cb == 0: return a
        s = a.single()
        if cb == 32 and s is not None and akey(s)[0] == 'cat': return ext('zext', akey(s)[2], 64)
        if cb is not None:
            q = exactdiv(a, 1 << cb)
            if q is not None: return q
    if op == 'ashr' and cb is not None:
        q = exactdiv(a, 1 << cb)
        if q is not None: return q
        return A(w, 'ashr', a, b)
    if op in ('udiv', 'sdiv') and cb is not None:
        s = sgn(cb, w)
        if s == 1: return a
        if s > 1:
            q = exactdiv(a, s)
            if q is not None: return q
        if op == 'udiv' and cb & (cb - 1) == 0: return ibin('lshr', a, K(w, cb.bit_length() - 1))
    if op in ('urem', 'srem') and cb == 1: return K(w, 0)
    if op == 'urem' and cb is not None and cb & (cb - 1) == 0: return ibin('and', a, K(w, cb - 1))
    if op in ('udiv', 'urem', 'lshr') and ca == 0: return a
    if op in ('udiv', 'sdiv') and a is b: return K(w, 1)
    if op in ('urem', 'srem') and a is b: return K(w, 0)
    return A(w, op, a, b)

def tovec(x, w):
    "i1 condition as a w-bit 0/1 value"
    return ite(x, K(w, 1), K(w, 0)) if isinstance(x, Bdd) else x

def trunc(p, w):
    if isinstance(p, Bdd): return p if w == 1 else tovec(p, w)
    if w == 1:
        s = p.single()
        if s is not None and akey(s)[0] == 'mt':
            k = akey(s); return bite(bvar(k[1]), trunc(k[2], 1), trunc(k[3], 1))
        if p.isconst(): return TRUE if p.const() & 1 else FALSE
        return bvar(atom('bit0', p))
    W = p.ring
    r = K(w, 0)
    for mo, c in p.m.items():
        t = K(w, c)
        for a in mo:
            k = akey(a)
            if k[0] in ('zext', 'sext') and k[2].ring == w: x = k[2]
            elif k[0] in ('zext', 'sext') and k[2].ring > w: x = trunc(k[2], w)
            elif k[0] == 'mt': x = ite(bvar(k[1]), trunc(k[2], w), trunc(k[3], w))
            elif k[0] == 'cat' and w <= 32: x = trunc(k[1], w) if w < 32 else k[1]
            elif k[0] == 'ld' and k[1] == 'i%d' % W: x = A(w, 'ld', 'i%d' % w, k[2], k[3])
            elif k[0] == 'lshr' and k[2].isconst() and k[1].single() is not None and akey(k[1].single())[0] == 'ld' \
                    and k[2].const() % 8 == 0 and k[2].const() + w <= k[1].ring:
                l = akey(k[1].single())
                x = A(w, 'ld', 'i%d' % w, l[2], add(l[3], K(64, k[2].const() // 8)))
            else: x = A(w, 'trunc', w, AA(W, a))
            t = mul(t, x)
        r = add(r, t)
    return r

def ext(kind, p, w):
    if isinstance(p, Bdd):
        return ite(p, K(w, 1 if kind == 'zext' else -1), K(w, 0))
    if p.isconst():
        c = p.const()
        return K(w, c if kind == 'zext' else sgn(c, p.ring))
    s = p.single()
    if s is not None:
        k = akey(s)
        if k[0] == 'mt': return ite(bvar(k[1]), ext(kind, k[2], w), ext(kind, k[3], w))
        if k[0] == 'zext': return A(w, 'zext', w, k[2])
        if k[0] == 'sext' and kind == 'sext': return A(w, 'sext', w, k[2])
    return A(w, kind, w, p)

def i2f(signed, p):
    if isinstance(p, Bdd): return ite(p, K('f', -1 if signed else 1), K('f', 0))
    if p.isconst():
        c = p.const()
        return K('f', sgn(c, p.ring) if signed or p.ring == 64 else c)
    s = p.single()
    if s is not None:
        k = akey(s)
        if k[0] == 'mt': return ite(bvar(k[1]), i2f(signed, k[2]), i2f(signed, k[3]))
        if k[0] in ('zext', 'sext'): return i2f(k[0] == 'sext', k[2])
    if p.ring == 64:
        r = K('f', 0)
        for mo, c in p.m.items():
            t = K('f', sgn(c, 64))
            for a in mo: t = mul(t, A('f', 'i2f', 1, AA(64, a)))
            r = add(r, t)
        return r
    return A('f', 'i2f', 1 if signed else 0, p)

def fmul(a, b):
    try: return mul(a, b)
    except Unsupported:
        return A('f', 'prod', *sorted((a, b), key=lambda p: len(p.m)))

# ---------------------------------------------------------------- free leaves
LEAF = {'arg', 'iv', 'bv', 'phi', 't', 'out', 'tb', 'outb', 'phib', 'clk'}
_free = {}
_abases = {}
def free(x):
    "leaf atoms a term depends on (bound sum variables excluded)"
    if isinstance(x, (str, int, Fraction)) or x is None or isinstance(x, Undef): return frozenset()
    if isinstance(x, Poly):
        r = _free.get(x._k)
        if r is None:
            r = frozenset().union(*[freea(a) for a in x.atoms()]) if x.m else frozenset()
            _free[x._k] = r
        return r
    if isinstance(x, Bdd):
        if x.v is None: return frozenset()
        r = _free.get(('B', id(x)))
        if r is None:
            r = freea(x.v) | free(x.hi) | free(x.lo); _free[('B', id(x))] = r
        return r
    if isinstance(x, Ptr): return free(x.base) | free(x.off)
    if isinstance(x, Agg): return frozenset().union(*[free(e) for e in x.e]) if x.e else frozenset()
    if isinstance(x, (tuple, frozenset)): return frozenset().union(*[free(e) for e in x]) if x else frozenset()
    raise Unsupported('free %r' % (x,))

def freea(a):
    r = _free.get(a)
    if r is not None: return r
    k = akey(a)
    if k[0] in LEAF: r = frozenset((a,))
    elif k[0] == 'psum':
        r = free(k[2]) | (free(k[3]) - {atom('bv', k[1])})
    elif k[0] == 'mt': r = freea(k[1]) | free(k[2]) | free(k[3])
    else: r = free(k[1:])
    _free[a] = r
    return r

def bvheight(x):
    return max([akey(a)[1] for a in allbv(x)] or [0])

_allbv = {}
def allbv(x):
    "every sum variable occurring in a term, bound ones included"
    if isinstance(x, Poly): return frozenset().union(*[allbva(a) for a in x.atoms()]) if x.m else frozenset()
    if isinstance(x, Bdd):
        if x.v is None: return frozenset()
        r = _allbv.get(id(x))
        if r is None:
            r = allbva(x.v) | allbv(x.hi) | allbv(x.lo); _allbv[id(x)] = r
        return r
    if isinstance(x, Ptr): return allbv(x.base) | allbv(x.off)
    if isinstance(x, Agg): return allbv(x.e)
    if isinstance(x, (tuple, frozenset)): return frozenset().union(*[allbv(e) for e in x]) if x else frozenset()
    return frozenset()

def allbva(a):
    r = _allbv.get(('a', a))
    if r is None:
        k = akey(a)
        if k[0] == 'bv': r = frozenset((a,))
        elif k[0] == 'mt': r = allbva(k[1]) | allbv(k[2]) | allbv(k[3])
        elif k[0] == 'psum': r = allbv(k[1:]) | {atom('bv', k[1])}
        else: r = allbv(k[1:])
        _allbv[('a', a)] = r
    return r

def psum(upto, ivatom, body):
    "sum of body over 0 <= iv < upto; linear in the part that depends on iv"
    ring = body.ring
    if upto.isconst() and upto.const() == 0 or not body.m: return K(ring, 0)
    groups = {}
    for mo, c in body.m.items():
        dep = tuple(a for a in mo if ivatom in freea(a))
        ind = tuple(a for a in mo if ivatom not in freea(a))
        groups.setdefault(dep, {})[ind] = groups.get(dep, {}).get(ind, 0) + c
    r = K(ring, 0)
    for dep, ind in groups.items():
        f = norm(ring, ind)
        if not dep:
            n = upto if ring == 64 else i2f(True, upto) if ring == 'f' else trunc(upto, ring) if ring < 64 else ext('zext', upto, ring)
            r = add(r, mul(f, n)); continue
        b = norm(ring, {dep: Fraction(1) if ring == 'f' else 1})
        h = bvheight(b) + 1
        bv = A(64, 'bv', h)
        b = rebuild(b, lambda a: bv if a == ivatom else None)
        r = add(r, mul(f, A(ring, 'psum', h, upto, b)))
    return r

# ---------------------------------------------------------------- rebuilding (substitution)
def rebuild(x, fa, memo=None):
    if memo is None: memo = {}
    if isinstance(x, (str, int, Fraction)) or x is None or isinstance(x, Undef): return x
    if isinstance(x, Poly):
        k = ('p', x._k)
        r = memo.get(k)
        if r is not None: return r
        r = K(x.ring, 0); same = True
        sub_ = {}
        for a in x.atoms():
            sub_[a] = rbatom(a, x.ring, fa, memo)
            if not (isinstance(sub_[a], Poly) and sub_[a].single() == a): same = False
        if same: r = x
        else:
            s = x.single()
            if s is not None: r = sub_[s]
            else:
                for mo, c in x.m.items():
                    t = K(x.ring, c)
                    for a in mo: t = mul(t, sub_[a])
                    r = add(r, t)
        memo[k] = r
        return r
    if isinstance(x, Bdd):
        if x.v is None: return x
        k = ('b', id(x))
        r = memo.get(k)
        if r is None:
            r = bite(rbcond(x.v, fa, memo), rebuild(x.hi, fa, memo), rebuild(x.lo, fa, memo)); memo[k] = r
        return r
    if isinstance(x, Ptr):
        b = rebuild(x.base, fa, memo); o = rebuild(x.off, fa, memo)
        if isinstance(b, Ptr): return Ptr(b.base, add(b.off, o))
        return Ptr(b, o)
    if isinstance(x, Agg): return Agg(rebuild(e, fa, memo) for e in x.e)
    if isinstance(x, tuple): return tuple(rebuild(e, fa, memo) for e in x)
    if isinstance(x, frozenset): return frozenset(rebuild(e, fa, memo) for e in x)
    raise Unsupported('rebuild %r' % (x,))

def rbcond(a, fa, memo):
    r = memo.get(('c', a))
    if r is not None: return r
    r = fa(a)
    if r is None:
        k = akey(a)
        if k[0] == 'eq': q = rebuild(k[1], fa, memo); r = icmp('eq', q, K(q.ring, 0))
        elif k[0] in ('ult', 'slt'): r = icmp(k[0], rebuild(k[1], fa, memo), rebuild(k[2], fa, memo))
        elif k[0] == 'feq': r = fcmp('oeq', rebuild(k[1], fa, memo), K('f', 0))
        elif k[0] == 'flt0': r = fcmp('olt', rebuild(k[1], fa, memo), K('f', 0))
        elif k[0] == 'bit0': r = trunc(rebuild(k[1], fa, memo), 1)
        elif k[0] == 'i1': r = tobdd(rebuild(k[1], fa, memo))
        elif k[0] == 'peq': r = icmp('eq', rebuild(k[1], fa, memo), rebuild(k[2], fa, memo))
        elif k[0] in LEAF: r = bvar(a)
        else: r = bvar(atom(k[0], *[rebuild(e, fa, memo) for e in k[1:]]))
    memo[('c', a)] = r
    return r

def rbatom(a, ring, fa, memo):
    r = memo.get(('a', a))
    if r is not None: return r
    r = fa(a)
    if r is None:
        k = akey(a)
        if k[0] in LEAF: r = AA(ring, a)
        elif k[0] == 'mt': r = ite(rbcond(k[1], fa, memo), rebuild(k[2], fa, memo), rebuild(k[3], fa, memo))
        elif k[0] in ('umin', 'umax', 'smin', 'smax'):
            l = list(rebuild(k[1], fa, memo))
            r = l[0] if len(l) == 1 else minmax(k[0], l[0], l[1])
        elif k[0] in IBIN: r = ibin(k[0], rebuild(k[1], fa, memo), rebuild(k[2], fa, memo))
        elif k[0] == 'lowbits': r = ibin('and', rebuild(k[1], fa, memo), K(ring, k[2]))
        elif k[0] == 'trunc': r = trunc(rebuild(k[2], fa, memo), k[1])
        elif k[0] in ('zext', 'sext'): r = ext(k[0], rebuild(k[2], fa, memo), k[1])
        elif k[0] == 'i2f': r = i2f(bool(k[1]), rebuild(k[2], fa, memo))
        elif k[0] == 'share': r = norm('f', rebuild(k[1], fa, memo).m)
        elif k[0] == 'inv': r = fdiv(K('f', 1), rebuild(k[1], fa, memo))
        elif k[0] == 'psum':
            up = rebuild(k[2], fa, memo); b = rebuild(k[3], fa, memo)
            if up is k[2] and b is k[3]: r = AA(ring, a)
            else: r = psum(up, atom('bv', k[1]), b)
        else: r = A(ring, k[0], *[rebuild(e, fa, memo) for e in k[1:]])
    memo[('a', a)] = r
    return r

IBIN = {'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor'}
