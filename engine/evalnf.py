"""Identity testing of two summaries: the closed-form terms of both sides are
evaluated at common points of their parameters (random interpretation).  Used
only to separate summaries whose normal forms differ; the program itself is
never executed."""
import cmath, math, random, hashlib
from fractions import Fraction
import terms as T
from terms import Poly, Bdd, Ptr, Agg, Undef, akey, atom, TRUE, FALSE, Unsupported

class Limit(Exception): pass
class Stop(Exception): pass

class RP(object):
    __slots__ = ('o', 'off')
    def __init__(self, o, off): self.o = o; self.off = off
    def __eq__(self, x): return isinstance(x, RP) and x.o == self.o and x.off == self.off
    def __hash__(self): return hash((self.o, self.off))
    def __repr__(self): return '%s+%d' % (self.o, self.off)

class FB(object):
    "the bit pattern of a float"
    __slots__ = ('f', 'sz')
    def __init__(self, f, sz): self.f = f; self.sz = sz
    def __repr__(self): return 'bits(%r)' % self.f

class Cat(object):
    __slots__ = ('a', 'b')
    def __init__(self, a, b): self.a = a; self.b = b
    def __repr__(self): return 'cat(%r,%r)' % (self.a, self.b)

class Junk(object):
    def __repr__(self): return 'uninitialised'
JUNK = Junk()

def h64(*k):
    return int.from_bytes(hashlib.blake2b(repr(k).encode(), digest_size=8).digest(), 'little')

def isnum(x): return isinstance(x, (int, float))

class Mem(object):
    def __init__(self, seed, argtypes, opts):
        self.seed = seed; self.types = argtypes
        self.cells = {}       # obj -> {off: (size, value)}
        self.size = {}        # obj -> byte size for bounded objects
        self.kind = {}; self.live = {}
        self.addr = {}; self.raddr = {}
        self.n = 0
        self.written = {}     # obj -> set of offsets written
        self.opts = opts
    def address(self, o):
        if o == ('null',): return 0
        a = self.addr.get(o)
        if a is None:
            if o[0] == 'arg': i = 16 + o[1]
            else: i = 64 + len(self.addr)
            a = (i << 28) + self.opts.get('mis', {}).get(o, 0)
            if o[0] == 'new' and self.kind.get(o) in ('malloc', 'new', 'new[]'): a += 16
            self.addr[o] = a; self.raddr[i] = o
        return a
    def obj_at(self, n):
        i = n >> 28
        o = self.raddr.get(i)
        if o is None: return RP(('null',), n) if n < 1 << 28 else RP(('wild', n >> 28), n & ((1 << 28) - 1))
        return RP(o, n - self.addr[o])
    def gen(self, o, off):
        "lazily materialise the element of a parameter array that covers off"
        t = self.types.get(o)
        if t is None: return False
        name, lo, hi, choices = t
        sz = {'f32': 4, 'f64': 8, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'b': 1, 'p': 8}[name]
        e = off // sz
        r = h64(self.seed, o, e)
        if choices is not None: v = choices[r % len(choices)]
        elif name[0] == 'f':
            if lo is None:
                v = ((r % 65) - 32) / 8.0
                if v == 0 and (r >> 32) % 4: v = 0.625
            else: v = lo + (hi - lo) * ((r % 4097) / 4096.0)
        elif name == 'b': v = r & 1
        elif lo is not None: v = lo + r % (hi - lo + 1)
        else: v = r % 41 - 20 if name[0] == 'i' else r % 41
        if name[0] in 'iu': v &= (1 << (8 * sz)) - 1
        self.cells.setdefault(o, {})[e * sz] = (sz, v)
        return True
    def load(self, ty, p, what=None):
        if isinstance(p, Junk): return JUNK
        if isinstance(p, int): p = self.obj_at(p)
        o, off = p.o, p.off
        s = T_size(ty)
        if o == ('null',) or o[0] in ('wild', 'fn'): raise Stop('invalid read of %r' % (p,))
        if o in self.live and not self.live[o]: raise Stop('read after free of %r' % (o,))
        if o in self.size and (off < 0 or off + s > self.size[o]):
            raise Stop('out-of-bounds read: object of %s bytes at offset %d' % (self.size[o], off))
        c = self.cells.setdefault(o, {})
        x = c.get(off)
        if x is None:
            # inside a wider cell?
            for w in (8, 4, 2):
                b = off // w * w if off % w else None
                for d in range(1, 16):
                    y = c.get(off - d)
                    if y is not None:
                        if y[0] > d: return self.part(y, d, s, ty)
                        break
                break
            if not self.gen(o, off):
                if o[0] == 'g': return self.gval(o, off, ty)
                return JUNK
            x = c.get(off)
            if x is None: return self.load(ty, p) if any((off - d) in c for d in range(1, 8)) else JUNK
        sz, v = x
        if sz == s: return self.conv(v, ty)
        if sz > s: return self.part(x, 0, s, ty)
        # wider read
        if s == 2 * sz:
            w = self.load('i%d' % (8 * sz), RP(o, off + sz))
            v = self.conv(v, 'i%d' % (8 * sz))
            if isinstance(v, Junk) and isinstance(w, Junk): return JUNK
            if isinstance(v, int) and isinstance(w, int): return self.conv(v | w << (8 * sz), ty)
            if ty in ('i64', 'p'): return Cat(v, w)
            return JUNK
        vals = [self.load('i8', RP(o, off + i)) for i in range(s)]
        if all(isinstance(b, int) for b in vals):
            return self.conv(sum(b << (8 * i) for i, b in enumerate(vals)), ty)
        return JUNK
    def gval(self, o, off, ty):
        r = h64('g', self.seed, o, off)
        if ty == 'p': return RP(('gobj', o[1], off), 0)
        return JUNK
    def part(self, cell, d, s, ty):
        sz, v = cell
        if isinstance(v, Cat) and s == 4 and d in (0, 4): return self.conv(v.a if d == 0 else v.b, ty)
        if isinstance(v, FB): v = v.f
        if isinstance(v, float):
            if v == 0: return self.conv(0, ty)
            import struct
            try: v = struct.unpack('<I', struct.pack('<f', v))[0] if sz == 4 else struct.unpack('<Q', struct.pack('<d', v))[0]
            except (OverflowError, struct.error): return JUNK
        if isinstance(v, int):
            if d + s > sz: return JUNK
            return self.conv((v >> (8 * d)) & ((1 << (8 * s)) - 1), ty)
        return JUNK
    def conv(self, v, ty):
        if ty in ('f32', 'f64'):
            if isinstance(v, FB): return v.f
            if isinstance(v, int):
                if v == 0: return 0.0
                import struct
                return struct.unpack('<f', struct.pack('<I', v & 0xffffffff))[0] if ty == 'f32' else struct.unpack('<d', struct.pack('<Q', v & (2**64 - 1)))[0]
            return v
        if ty == 'p':
            if isinstance(v, int): return self.obj_at(v) if v >> 28 else RP(('null',), v)
            return v
        # integer
        if isinstance(v, float): return FB(v, T_size(ty)) if v != 0 else 0
        if isinstance(v, RP): return self.address(v.o) + v.off
        return v
    def store(self, ty, p, v):
        if isinstance(p, int): p = self.obj_at(p)
        if isinstance(p, Junk): raise Stop('store through an uninitialised pointer')
        o, off = p.o, p.off
        s = T_size(ty)
        if o == ('null',) or o[0] in ('wild', 'fn'): raise Stop('invalid write to %r' % (p,))
        if o in self.live and not self.live[o]: raise Stop('write after free of %r' % (o,))
        if o in self.size and (off < 0 or off + s > self.size[o]):
            raise Stop('out-of-bounds write: object of %s bytes at offset %d' % (self.size[o], off))
        if isinstance(v, Cat):
            self.raw(o, off, 4, v.a); self.raw(o, off + 4, 4, v.b); return
        self.raw(o, off, s, v)
    def raw(self, o, off, s, v):
        c = self.cells.setdefault(o, {})
        if o in self.types: self.gen(o, off) if off not in c else None
        for d in range(1, 16):
            y = c.get(off - d)
            if y is not None:
                if y[0] > d: self.split(c, off - d)
                break
        y = c.get(off)
        if y is not None and y[0] > s: self.split(c, off)
        for d in range(1, s): c.pop(off + d, None)
        if isinstance(v, FB): v = v.f
        c[off] = (s, v)
        self.written.setdefault(o, set()).add(off)
    def split(self, c, at):
        sz, v = c.pop(at)
        for i in range(0, sz, 4 if sz % 4 == 0 and sz > 4 else 1):
            q = 4 if sz % 4 == 0 and sz > 4 else 1
            x = self.part((sz, v), i, q, 'i%d' % (8 * q))
            if isinstance(v, Cat) and q == 4: x = (v.a if i == 0 else v.b)
            c[at + i] = (q, x)
    def copy(self, d, s, n):
        if n <= 0: return
        if isinstance(d, int): d = self.obj_at(d)
        if isinstance(s, int): s = self.obj_at(s)
        if n > 1 << 20: raise Limit('copy of %d bytes' % n)
        for p, w in ((d, 'write'), (s, 'read')):
            if p.o == ('null',) or p.o[0] in ('wild', 'fn'): raise Stop('invalid %s of %d bytes at %r' % (w, n, p))
            if p.o in self.live and not self.live[p.o]: raise Stop('%s after free' % w)
            if p.o in self.size and (p.off < 0 or p.off + n > self.size[p.o]): raise Stop('out-of-bounds %s: %d bytes at offset %d of object of %s bytes' % (w, n, p.off, self.size[p.o]))
        c = self.cells.setdefault(s.o, {})
        if s.o in self.types:
            x = s.off
            while x < s.off + n:
                if x not in c: self.gen(s.o, x)
                x += c[x][0] if x in c else 1
        items = sorted((o, v) for o, v in c.items() if s.off <= o < s.off + n) if False else [(o, c[o]) for o in sorted(o for o in c if s.off <= o < s.off + n)]
        for o, (sz, v) in items:
            if o + sz > s.off + n:
                for i in range(s.off + n - o): self.raw(d.o, d.off + o - s.off + i, 1, self.part((sz, v), i, 1, 'i8'))
            else: self.raw(d.o, d.off + o - s.off, sz, v)
    def fill(self, d, v, n):
        if n <= 0: return
        if isinstance(d, int): d = self.obj_at(d)
        if n > 1 << 20: raise Limit('fill of %d bytes' % n)
        if d.o in self.size and (d.off < 0 or d.off + n > self.size[d.o]): raise Stop('out-of-bounds fill: %d bytes at offset %d of object of %s bytes' % (n, d.off, self.size[d.o]))
        if d.o == ('null',): raise Stop('fill of a null pointer')
        t = self.types.get(d.o)
        x = d.off; e = d.off + n
        while x < e:
            s = 1
            if v == 0:
                w = {'f32': 4, 'f64': 8, 'i32': 4, 'i64': 8, 'u32': 4, 'u64': 8}.get(t[0], 1) if t else 4
                if x % w == 0 and x + w <= e: s = w
            self.raw(d.o, x, s, v & 255); x += s

def T_size(ty):
    import nf
    return nf.tsize(ty)

MF = {}
def _m(n, f): MF[n] = f
for n in 'sin cos tan asin acos atan sinh cosh tanh acosh exp log log10 sqrt atan2 hypot log1p expm1 log2 ldexp copysign'.split():
    _m(n, getattr(math, n))
# an argument that misses the domain of a function by a rounding error is taken to lie on its border
MF['sqrt'] = lambda x: math.sqrt(0.0 if -1e-9 < x < 0 else x)
for _n in ('asin', 'acos'): MF[_n] = lambda x, f=MF[_n]: f(math.copysign(1.0, x) if 1 < abs(x) < 1 + 1e-9 else x)
MF['acosh'] = lambda x: math.acosh(1.0 if 1 - 1e-9 < x < 1 else x)
CF = {}
for n in 'sqrt exp log sin cos tan sinh cosh tanh asin acos atan asinh acosh atanh'.split(): CF['c' + n] = CF['c' + n + 'f'] = getattr(cmath, n)
CF['cpow'] = CF['cpowf'] = lambda z, w: cmath.exp(w * cmath.log(z)) if z != 0 else z
def snap(x, y):
    "a complex argument, its vanishing parts exactly zero: the side of a branch cut does not hang on rounding"
    m = 1e-9 * max(abs(x), abs(y))
    return complex(x if abs(x) > m else 0.0, y if abs(y) > m else 0.0)
_m('ceil', lambda x: float(math.ceil(x))); _m('floor', lambda x: float(math.floor(x)))
_m('pow', lambda x, y: math.pow(x, y)); _m('fmod', math.fmod)
_m('exp2', lambda x: 2.0 ** x); _m('exp10', lambda x: 10.0 ** x)
_m('rint', lambda x: float(round(x))); _m('nearbyint', lambda x: float(round(x)))
_m('round', lambda x: math.copysign(math.floor(abs(x) + .5), x)); _m('trunc', lambda x: float(math.trunc(x)))
_m('cbrt', lambda x: math.copysign(abs(x) ** (1 / 3.), x)); _m('fabs', abs)

class Ev(object):
    def __init__(self, seed, args, argtypes, opts):
        self.m = Mem(seed, argtypes, opts)
        self.seed = seed
        self.args = args
        self.env = {}
        self.cache = {}
        self.trace = []
        self.objs = {}
        self.steps = 0
        self.badfree = []
        self.opts = opts
        self.evn = 0
        self.lastloc = None

    # -------- terms
    def ev(self, x):
        if isinstance(x, Poly):
            if x.ring == 'f':
                t = 0.0
                for mo, c in x.m.items():
                    p = float(c)
                    for a in mo:
                        v = self.atom(a, 'f')
                        if isinstance(v, Junk): return JUNK
                        if isinstance(v, FB): v = v.f
                        if isinstance(v, RP) or isinstance(v, Cat): return JUNK
                        try: p *= v
                        except OverflowError: p = float('inf')
                    t += p
                return t
            w = x.ring
            s = x.single()
            if s is not None:
                v = self.atom(s, w)
                return v % (1 << w) if isinstance(v, int) else v
            t = 0
            for mo, c in x.m.items():
                p = c
                for a in mo:
                    v = self.atom(a, w)
                    if isinstance(v, RP): v = self.m.address(v.o) + v.off
                    if not isinstance(v, int): return JUNK
                    p *= v
                t += p
            return t % (1 << w)
        if isinstance(x, Bdd):
            while x.v is not None:
                v = self.cond(x.v)
                if isinstance(v, Junk):
                    p, q = self.ev(x.hi), self.ev(x.lo)
                    return p if isinstance(p, bool) and p is q else JUNK
                x = x.hi if v else x.lo
            return x is TRUE
        if isinstance(x, Ptr):
            b = self.base(x.base)
            o = self.ev(x.off)
            if isinstance(b, Junk) or isinstance(o, Junk): return JUNK
            if isinstance(b, int): b = self.m.obj_at(b)
            if not isinstance(b, RP) or not isinstance(o, int): return JUNK
            return RP(b.o, b.off + T.sgn(o, 64))
        if isinstance(x, Agg): return tuple(self.ev(e) for e in x.e)
        if isinstance(x, Undef): return JUNK
        raise Limit('eval %r' % (x,))

    def base(self, b):
        if b[0] == 'pv': return self.ev(b[1])
        if b[0] == 'psel':
            c = self.ev(b[1])
            if isinstance(c, Junk): return JUNK
            return self.ev(b[2] if c else b[3])
        if b[0] in ('new', 'alloca'):
            return self.objs.get(b, JUNK)
        return RP(b, 0)

    def atom(self, a, ring):
        v = self.cache.get(a)
        if v is not None: return v
        v = self.atom1(a, ring)
        self.steps += 1
        if self.steps > 3000000: raise Limit('steps')
        if not any(akey(f)[0] == 'bv' for f in T.freea(a)): self.cache[a] = v
        return v

    def atom1(self, a, ring):
        k = akey(a); n = k[0]
        if n == 'arg': return self.args[k[1]]
        if n in T.LEAF:
            return self.env.get(a, 0 if ring != 'f' else 0.0) if n in ('iv', 'bv') else self.env.get(a, JUNK)
        if n == 'ld':
            try: return self.m.load(k[1], self.ev(Ptr(k[2], k[3])))
            except Stop:
                return JUNK
        if n == 'mt':
            c = self.cond(k[1])
            if isinstance(c, Junk):
                x, y = self.ev(k[2]), self.ev(k[3])
                return x if type(x) == type(y) and x == y else JUNK
            return self.ev(k[2] if c else k[3])
        if n == 'psum':
            u = self.ev(k[2]); b = atom('bv', k[1])
            if isinstance(u, Junk): return JUNK
            if u > 40000: raise Limit('sum of %d terms' % u)
            old = self.env.get(b)
            t = 0.0 if ring == 'f' else 0
            for j in range(u):
                self.env[b] = j
                v = self.ev(k[3])
                if isinstance(v, Junk): t = JUNK; break
                t += v
            if old is None: self.env.pop(b, None)
            else: self.env[b] = old
            return t
        if n in ('umin', 'umax', 'smin', 'smax'):
            vs = [self.ev(p) for p in k[1]]
            if any(not isinstance(v, int) for v in vs): return JUNK
            w = list(k[1])[0].ring
            key = (lambda v: T.sgn(v, w)) if n[0] == 's' else (lambda v: v)
            return (min if n[1:] == 'min' else max)(vs, key=key)
        if n == 'inv':
            v = self.ev(k[1])
            if isinstance(v, Junk): return JUNK
            if v == 0: return float('inf')
            return 1.0 / v
        if n == 'share': return self.ev(k[1])
        if n == 'fconst': return float(k[1])
        if n == 'prod': 
            v = [self.ev(e) for e in k[1:]]
            return JUNK if any(isinstance(e, Junk) for e in v) else v[0] * v[1]
        if n == 'fdiv0':
            v = self.ev(k[1])
            return JUNK if isinstance(v, Junk) else float('nan') if v == 0 or v != v else math.copysign(float('inf'), v)
        if n == 'i2f':
            v = self.ev(k[2])
            if not isinstance(v, int): return JUNK
            return float(T.sgn(v, k[2].ring) if k[1] else v)
        if n == 'f2i':
            v = self.ev(k[3])
            if isinstance(v, Junk) or v != v or abs(v) > 1e18: return JUNK
            return int(v) % (1 << k[1])
        if n == 'p2i':
            b = self.base(k[1])
            if isinstance(b, RP): return self.m.address(b.o) + b.off
            return b
        if n in ('zext', 'sext', 'trunc'):
            v = self.ev(k[2])
            if isinstance(v, Cat) and n == 'trunc' and k[1] == 32: return v.a
            if isinstance(v, FB) and n == 'trunc' and k[1] == 8 * v.sz: return v
            if not isinstance(v, int): return v if n != 'trunc' and isinstance(v, FB) else JUNK if not isinstance(v, RP) else v
            if n == 'sext': return T.sgn(v, k[2].ring) % (1 << k[1])
            return v % (1 << k[1])
        if n == 'lowbits':
            v = self.ev(k[1])
            if isinstance(v, RP): v = self.m.address(v.o) + v.off
            return v & k[2] if isinstance(v, int) else JUNK
        if n == 'cat': return Cat(self.ev(k[1]), self.ev(k[2]))
        if n == 'b2f':
            v = self.ev(k[2])
            return self.m.conv(v, k[1])
        if n == 'f2b':
            v = self.ev(k[2])
            if isinstance(v, Junk): return v
            return FB(v, k[1] // 8) if v != 0 else 0
        if n in T.IBIN:
            x, y = self.ev(k[1]), self.ev(k[2]); w = k[1].ring
            if n == 'lshr' and isinstance(x, Cat) and y == 32: return x.b
            if n == 'or' and w == 64:
                # gluing two float halves
                for p, q in ((x, y), (y, x)):
                    pass
            if isinstance(x, RP): x = self.m.address(x.o) + x.off
            if not isinstance(x, int) or not isinstance(y, int): return JUNK
            M = (1 << w) - 1; sx, sy = T.sgn(x, w), T.sgn(y, w)
            if n == 'shl': return (x << y) & M if y < w else JUNK
            if n == 'lshr': return x >> y if y < w else JUNK
            if n == 'ashr': return (sx >> y) & M if y < w else JUNK
            if n == 'and': return x & y
            if n == 'or': return x | y
            if n == 'xor': return x ^ y
            if y == 0: return JUNK
            if n == 'udiv': return x // y
            if n == 'urem': return x % y
            q = abs(sx) // abs(sy)
            if (sx < 0) != (sy < 0): q = -q
            return q & M if n == 'sdiv' else (sx - q * sy) & M
        if n == 'call':
            vs = [self.ev(e) if not isinstance(e, (str, int)) else e for e in k[2:]]
            if any(isinstance(v, Junk) for v in vs): return JUNK
            f = MF.get(k[1])
            if f:
                try: return f(*vs)
                except (ValueError, ZeroDivisionError): return float('nan')
                except OverflowError: return float('inf')
            b, _, i = k[1].rpartition('.')
            f = CF.get(b) if i in ('0', '1') else None
            if f and all(isinstance(v, float) for v in vs) and len(vs) in (2, 4):
                try:
                    z = f(*(snap(vs[j], vs[j + 1]) for j in range(0, len(vs), 2)))
                    return z.imag if i == '1' else z.real
                except (ValueError, ZeroDivisionError): return float('nan')
                except OverflowError: return float('inf')
            if ring == 'f': return (h64('call', k[1], [rnd(v) for v in vs]) % 4096) / 512.0
            return h64('call', k[1], [rnd(v) for v in vs]) % (1 << ring)
        if n == 'undefi': return JUNK
        raise Limit('atom ' + n)

    def cond(self, a):
        k = akey(a); n = k[0]
        if n == 'eq':
            v = self.ev(k[1])
            if isinstance(v, FB) or isinstance(v, Cat): return False
            if isinstance(v, RP): return v.o == ('null',) and v.off == 0
            return JUNK if isinstance(v, Junk) else v == 0
        if n in ('ult', 'slt'):
            x, y = self.ev(k[1]), self.ev(k[2])
            if isinstance(x, RP): x = self.m.address(x.o) + x.off
            if isinstance(y, RP): y = self.m.address(y.o) + y.off
            if not isinstance(x, int) or not isinstance(y, int): return JUNK
            w = k[1].ring
            return x < y if n == 'ult' else T.sgn(x, w) < T.sgn(y, w)
        if n == 'feq':
            v = self.ev(k[1]); return JUNK if isinstance(v, Junk) else v == 0
        if n == 'flt0':
            v = self.ev(k[1]); return JUNK if isinstance(v, Junk) else v < 0
        if n == 'bit0':
            v = self.ev(k[1]); return bool(v & 1) if isinstance(v, int) else JUNK
        if n == 'i1':
            v = self.ev(k[1]); return bool(v & 1) if isinstance(v, int) else JUNK
        if n == 'peq':
            x, y = self.ev(k[1]), self.ev(k[2])
            if isinstance(x, Junk) or isinstance(y, Junk): return JUNK
            return x == y
        if n == 'callb':
            return bool(h64('callb', k[1], [rnd(self.ev(e)) for e in k[2:]]) & 1)
        if n == 'arg': return bool(self.args[k[1]])
        if n in T.LEAF:
            # the exit taken by a loop that did not run: any value will do, since
            # the term is a function in which that choice is guarded away
            return self.env.get(a, False if n == 'outb' else JUNK)
        raise Limit('cond ' + n)

    # -------- statements
    def bind(self, t, v):
        if isinstance(t, Poly):
            s = t.single()
            if s is None: raise Limit('bind')
            self.env[s] = v
        elif isinstance(t, Bdd): self.env[t.v] = v
        elif isinstance(t, Ptr):
            s = t.off.single()
            if s is not None and akey(s)[0] in T.LEAF:
                b = self.base(t.base)
                if isinstance(v, Junk) or isinstance(b, Junk): self.env[s] = JUNK
                else:
                    if v.o != b.o: raise Limit('pointer left its object')
                    self.env[s] = (v.off - b.off) % (1 << 64)
            else: self.env[t.base[1].single()] = v
        elif isinstance(t, Agg):
            for x, y in zip(t.e, v if isinstance(v, tuple) else [JUNK] * len(t.e)): self.bind(x, y)
        elif isinstance(t, Undef): pass
        else: raise Limit('bind')

    def run(self, stmts):
        for s in stmts:
            if s.g is not TRUE:
                g = self.ev(s.g)
                # (a loop of no rounds may have lost the guard that says so)
                if isinstance(g, Junk) and s.k == 'loop' and s.a[2] is not None and self.ev(s.a[2]) == 0: continue
                if isinstance(g, Junk): raise Stop('control depends on an uninitialised value')
                if not g: continue
            self.lastloc = s.l
            k = s.k; a = s.a
            if k == 'st':
                v = self.ev(a[2])
                if isinstance(v, bool): v = int(v)
                self.m.store(a[0], self.ev(a[1]), v)
            elif k == 'let':
                # a read may have been moved above the choice that selects its address, so a bad
                # one only makes its value undefined; using that value is what counts
                try: v = self.m.load(a[1], self.ev(a[2]))
                except Stop: v = JUNK
                if isinstance(a[0], Bdd): v = bool(v & 1) if isinstance(v, int) else v
                self.bind(a[0], v); self.cache.clear()
            elif k == 'loop': self.loop(a)
            elif k == 'cpy':
                n = self.ev(a[2])
                if isinstance(n, Junk): raise Stop('copy of uninitialised length')
                self.m.copy(self.ev(a[0]), self.ev(a[1]), n)
            elif k == 'set':
                n = self.ev(a[2]); v = self.ev(a[1])
                if isinstance(n, Junk): raise Stop('fill of uninitialised length')
                self.m.fill(self.ev(a[0]), v if isinstance(v, int) else 0, n)
            elif k == 'alloca':
                self.m.n += 1; o = ('alloca', self.m.n); self.objs[a[0]] = RP(o, 0); self.m.size[o] = a[1]
                self.cache.clear()
            elif k == 'alloc':
                self.m.n += 1; o = ('new', self.m.n)
                sz = self.ev(a[2]) if isinstance(a[2], Poly) else a[2]
                self.objs[a[0]] = RP(o, 0); self.m.size[o] = sz; self.m.kind[o] = a[1]; self.m.live[o] = True
                self.cache.clear()
            elif k == 'free':
                p = self.ev(a[1])
                if isinstance(p, Junk): raise Stop('free of an uninitialised pointer')
                if isinstance(p, int): p = self.m.obj_at(p)
                if p.o == ('null',): continue
                if p.o not in self.m.live: raise Stop('free of memory not allocated here (%r)' % (p,))
                if not self.m.live[p.o]: raise Stop('double free')
                if p.off != 0: raise Stop('free of an interior pointer')
                if self.m.kind[p.o] != a[0] and (self.m.kind[p.o], a[0]) != ('memalign', 'malloc'): raise Stop('%s memory released as %s' % (self.m.kind[p.o], a[0]))
                if a[2] is not None and isinstance(a[2], Poly):
                    n = self.ev(a[2])
                    if isinstance(n, int) and n != self.m.size[p.o]: raise Stop('block of %s bytes released as %s bytes' % (self.m.size[p.o], n))
                self.m.live[p.o] = False
            elif k == 'abort' and a[0].startswith('LIMIT'): raise Limit(a[0])
            elif k == 'abort': raise Stop('abort: ' + a[0])
            elif k == 'event':
                vs = [self.ev(x) for x in a[1]]
                self.evn += 1
                self.trace.append((a[0], tuple(vs)))
                h = self.opts.get('evalevent')
                r = h(self, a[0], vs) if h else None
                if r is None: r = self.evn
                if a[2] is not None: self.bind(a[2], r); self.cache.clear()
            else: raise Limit('stmt ' + k)

    def loop(self, a):
        uid, d, count, carr, body, econds, outs, nex = a
        iv = atom('iv', d)
        saved = self.env.get(iv)
        for rep, init, nxt in carr: self.bind(rep, self.ev(init))
        n = None
        if count is not None:
            n = self.ev(count)
            if isinstance(n, Junk): raise Stop('loop count uninitialised')
            if n > 40000: raise Limit('loop count %d' % n)
        i = 0
        while True:
            if n is not None and i >= n: break
            self.env[iv] = i; self.cache.clear()
            self.run(body)
            self.cache.clear()
            ex = False
            if n is None:
                es = [self.ev(e) for e in econds]
                if any(isinstance(e, Junk) for e in es): raise Stop('loop exit depends on an uninitialised value')
                ex = any(es)
            last = ex or (n is not None and i == n - 1)
            if last:
                vals = [(x, self.ev(v)) for v, x in outs]
                for x, v in vals: self.bind(x, v)
                if n is None:
                    for j, e in enumerate(es): self.env[atom('outb', uid, 'exit', j)] = e
            nv = [(rep, self.ev(nxt)) for rep, init, nxt in carr] if not ex else []
            for rep, v in nv: self.bind(rep, v)
            i += 1
            if ex: break
            if i > 20000: raise Limit('loop does not finish')
        if saved is None: self.env.pop(iv, None)
        else: self.env[iv] = saved
        self.cache.clear()

def rnd(v):
    if isinstance(v, float):
        return float('%.9g' % v) + 0.0
    return v

def observe(stmts, ret, seed, args, types, opts):
    e = Ev(seed, args, types, opts)
    stop = None
    for o, s in opts.get('extent', {}).items(): e.m.size[o] = s
    try:
        e.run(stmts)
        rv = e.ev(ret) if not isinstance(ret, Undef) else None
    except Stop as x:
        stop = str(x); rv = None
    held = set()
    if any(e.m.live.values()):
        # what a variable of static storage duration still refers to has not been lost
        work = [c[1] for o, cl in e.m.cells.items() if o[0] == 'g' for c in cl.values()]
        while work:
            v = work.pop()
            if isinstance(v, RP) and v.o not in held:
                held.add(v.o); work += [c[1] for c in e.m.cells.get(v.o, {}).values()]
    leak = sorted(e.m.kind[o] for o, l in e.m.live.items() if l and o not in held and not (isinstance(rv, RP) and rv.o == o)) if stop is None else []
    return e, stop, rv, leak

def close(a, b, tol):
    if isinstance(a, tuple) and isinstance(b, tuple): return len(a) == len(b) and all(close(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, FB): a = a.f
    if isinstance(b, FB): b = b.f
    if isinstance(a, Cat) and isinstance(b, Cat): return close(a.a, b.a, tol) and close(a.b, b.b, tol)
    if isinstance(a, float) or isinstance(b, float):
        if not isnum(a) or not isnum(b): return False
        if a != a and b != b: return True
        if a == b: return True
        return abs(a - b) <= tol * (1 + abs(a) + abs(b))
    if isinstance(a, Junk) and isinstance(b, Junk): return True
    if isinstance(a, RP) and isinstance(b, RP):
        return a == b or (a.o[0] == b.o[0] and a.o[0] in ('new', 'alloca') and a.off == b.off)
    return a == b
