"""Canonical form of a summary: dead locals removed, memory copies of typed
arrays read as element loops, loop nests distributed over their stores and
put in a fixed order, local names renumbered."""
import itertools
import terms as T
from terms import (Poly, Bdd, Ptr, Agg, Undef, K, A, AA, akey, atom, add, sub, mul, scale, free, rebuild, TRUE, FALSE,
                   band, Unsupported, restrict, vrestrict)
from nf import Stmt, tsize

def bases_in(x, acc):
    "object bases mentioned in a term"
    if isinstance(x, Poly):
        for a in x.atoms(): abases(a, acc)
    elif isinstance(x, Bdd):
        for a in T.bsupport(x): abases(a, acc)
    elif isinstance(x, Ptr): bbase(x.base, acc); bases_in(x.off, acc)
    elif isinstance(x, Agg):
        for e in x.e: bases_in(e, acc)
    elif isinstance(x, (tuple, frozenset, list)):
        for e in x: bases_in(e, acc)

def bbase(b, acc):
    acc.add(b)
    for e in b: bases_in(e, acc) if not isinstance(e, (str, int)) else None

def abases(a, acc):
    r = T._abases.get(a)
    if r is None:
        r = set(); abases1(a, r); T._abases[a] = r
    acc |= r

def abases1(a, acc):
    k = akey(a)
    if k[0] in ('arg', 'iv', 'bv', 't', 'phi', 'out', 'tb', 'outb'): return
    if k[0] == 'mt': abases(k[1], acc); bases_in(k[2], acc); bases_in(k[3], acc); return
    for e in k[1:]:
        if isinstance(e, tuple) and e and isinstance(e[0], str) and e[0] in ('arg', 'alloca', 'new', 'g', 'fn', 'null', 'pv', 'psel'): bbase(e, acc)
        elif not isinstance(e, (str, int)): bases_in(e, acc)

def walk(stmts):
    for s in stmts:
        yield s
        if s.k == 'loop':
            for x in walk(s.a[4]): yield x

def uses(s, acc_atoms, acc_bases, stores_too=False):
    "atoms and bases a statement reads (address of its own store excluded)"
    def u(x):
        acc_atoms |= free(x); bases_in(x, acc_bases)
    def go(x):
        acc_atoms.update(free(x)); bases_in(x, acc_bases)
    go(s.g)
    k, a = s.k, s.a
    if k == 'st':
        acc_atoms.update(free(a[1])); go(a[1].off); go(a[2])
        if isinstance(a[1].base, tuple) and a[1].base[0] in ('pv', 'psel'): go(a[1].base)
    elif k == 'let': go(a[2])
    elif k == 'loop':
        uid, d, count, carr, body, econds, outs, n = a
        if count is not None: go(count)
        for r, i, x in carr: go(i); go(x)
        for e in econds or (): go(e)
        for v, x in outs: go(v)
        for b in body: uses(b, acc_atoms, acc_bases)
    elif k == 'cpy': go(a[0].off); acc_atoms.update(free(a[0])); go(a[1]); go(a[2])
    elif k == 'set': go(a[0].off); acc_atoms.update(free(a[0])); go(a[1]); go(a[2])
    elif k == 'alloc': go(a[2])
    elif k == 'free':
        acc_atoms.update(free(a[1]))
    elif k == 'event':
        for x in a[1]: go(x)

def dce(stmts, ret):
    "drop local names and local memory nobody reads"
    while True:
        at, bs = set(), set()
        for s in stmts: uses(s, at, bs)
        at |= free(ret); bases_in(ret, bs)
        ch = [False]
        frees = {}; touch = {}
        for x in walk(stmts):
            if x.k == 'free':
                if isinstance(x.a[1], Ptr): frees.setdefault(x.a[1].base, []).append(x)
            elif x.k in ('st', 'cpy', 'set'): touch[x.a[1 if x.k == 'st' else 0].base] = True
        def local(p): return isinstance(p, Ptr) and p.base[0] in ('alloca', 'new') and p.base not in bs
        def go(l):
            r = []
            for s in l:
                k = s.k
                if k == 'let' and not (free(s.a[0]) & at): ch[0] = True; continue
                if k in ('st',) and local(s.a[1]): ch[0] = True; continue
                if k in ('cpy', 'set') and local(s.a[0]): ch[0] = True; continue
                if k == 'alloca' and s.a[0] not in bs and s.a[0] not in touch: ch[0] = True; continue
                if k == 'alloc' and s.a[0] not in bs:
                    fs = frees.get(s.a[0], ())
                    if len(fs) == 1 and s.a[0] not in touch and fs[0].a[0] == s.a[1] and fs[0].a[1].off.const() == 0 and fs[0].g is s.g \
                            and (fs[0].a[2] is None or fs[0].a[2] is s.a[2]) and any(y is fs[0] for y in l):
                        ch[0] = True; l2 = fs[0]; dead.add(id(l2)); continue
                if id(s) in dead: continue
                if k == 'loop':
                    uid, d, count, carr, body, econds, outs, n = s.a
                    nb = go(body)
                    no = [(v, x) for v, x in outs if free(x) & at]
                    if len(no) != len(outs): ch[0] = True
                    if count is not None and not nb and not no: ch[0] = True; continue
                    if not nb and not no and count is None:
                        # exit values may still be used
                        if not any(akey(a)[0] == 'outb' and akey(a)[1] == uid for a in at): ch[0] = True; continue
                    s = Stmt(s.g, k, (uid, d, count, carr if True else None, nb, econds, no, n), s.l)
                r.append(s)
            return r
        dead = set()
        stmts = go(stmts)
        if not ch[0]: return stmts

ESZ = {'f32': 4, 'f64': 8, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'i8': 1, 'u8': 1, 'i16': 2, 'u16': 2, 'b': 1}
ETY = {'f32': 'f32', 'f64': 'f64', 'i32': 'i32', 'u32': 'i32', 'i64': 'i64', 'u64': 'i64', 'i8': 'i8', 'u8': 'i8', 'i16': 'i16', 'u16': 'i16', 'b': 'i8'}

def expand_copies(stmts, types, stored):
    "memcpy/memset of typed parameter arrays -> element loops"
    def go(l, depth):
        r = []
        for s in l:
            if s.k == 'loop':
                a = list(s.a); a[4] = go(a[4], a[1]); s = Stmt(s.g, s.k, tuple(a), s.l)
            elif s.k == 'cpy':
                d, sr, n = s.a
                td = types.get(d.base) if isinstance(d, Ptr) else None
                ts = types.get(sr.base) if isinstance(sr, Ptr) else None
                if td and ts and ESZ.get(td[0]) == ESZ.get(ts[0]) and sr.base not in stored:
                    es = ESZ[td[0]]
                    c = T.exactdiv(n, es)
                    if c is not None:
                        iv = A(64, 'iv', depth + 1)
                        o = scale(iv, es)
                        r0 = 'f' if td[0][0] == 'f' else es * 8
                        v = A(r0, 'ld', ETY[td[0]], sr.base, add(sr.off, o))
                        st = Stmt(TRUE, 'st', (ETY[td[0]], Ptr(d.base, add(d.off, o)), v), s.l)
                        s = Stmt(s.g, 'loop', (0, depth + 1, c, [], [st], None, [], 1), s.l)
            elif s.k == 'set':
                d, v, n = s.a
                td = types.get(d.base) if isinstance(d, Ptr) else None
                if td and isinstance(v, Poly) and v.const() == 0:
                    es = ESZ[td[0]]; c = T.exactdiv(n, es)
                    if c is not None:
                        iv = A(64, 'iv', depth + 1)
                        st = Stmt(TRUE, 'st', (ETY[td[0]], Ptr(d.base, add(d.off, scale(iv, es))), K('f' if td[0][0] == 'f' else es * 8, 0)), s.l)
                        s = Stmt(s.g, 'loop', (0, depth + 1, c, [], [st], None, [], 1), s.l)
            r.append(s)
        return r
    return go(stmts, 0)

def split64(stmts, types):
    "i64 moves of f32 pairs -> two f32 moves; integer moves of float cells -> float moves"
    def go(l):
        r = []
        for s in l:
            if s.k == 'loop':
                a = list(s.a); a[4] = go(a[4]); r.append(Stmt(s.g, s.k, tuple(a), s.l)); continue
            if s.k == 'st' and s.a[0] in ('i64', 'i32') and isinstance(s.a[1].base, tuple):
                ty, p, v = s.a
                td = types.get(p.base)
                sg = v.single() if isinstance(v, Poly) else None
                k = akey(sg) if sg is not None else None
                fty = {'i64': 'f64', 'i32': 'f32'}[ty]
                if td and td[0] == fty:
                    if k and k[0] == 'ld': r.append(Stmt(s.g, 'st', (fty, p, A('f', 'ld', fty, k[2], k[3])), s.l)); continue
                    if k and k[0] == 'f2b': r.append(Stmt(s.g, 'st', (fty, p, k[2]), s.l)); continue
                    if isinstance(v, Poly) and v.const() == 0: r.append(Stmt(s.g, 'st', (fty, p, K('f', 0)), s.l)); continue
                if td and td[0] == 'f32' and ty == 'i64':
                    if k and k[0] == 'ld':
                        for o in (0, 4):
                            r.append(Stmt(s.g, 'st', ('f32', Ptr(p.base, add(p.off, K(64, o))), A('f', 'ld', 'f32', k[2], add(k[3], K(64, o)))), s.l))
                        continue
                    if isinstance(v, Poly) and v.isconst():
                        import struct
                        from fractions import Fraction
                        for o in (0, 4):
                            f = struct.unpack('<f', struct.pack('<I', (v.const() >> (8 * o)) & 0xffffffff))[0]
                            r.append(Stmt(s.g, 'st', ('f32', Ptr(p.base, add(p.off, K(64, o))), K('f', Fraction(f))), s.l))
                        continue
            r.append(s)
        return r
    return go(stmts)

def sub_iv(s, m):
    "rename loop variables in a statement; m: depth -> Poly"
    mm = {atom('iv', d): v for d, v in m.items()}
    fa = lambda a: mm.get(a)
    memo = {}
    rb = lambda x: rebuild(x, fa, memo)
    return mapstmt(s, rb)

def mapstmt(s, rb):
    k, a = s.k, s.a
    if k == 'st': a = (a[0], rb(a[1]), rb(a[2]))
    elif k == 'let': a = (rb(a[0]), a[1], rb(a[2]))
    elif k == 'loop':
        uid, d, count, carr, body, econds, outs, n = a
        a = (uid, d, rb(count) if count is not None else None, [(rb(x), rb(y), rb(z)) for x, y, z in carr],
             [mapstmt(b, rb) for b in body], [rb(e) for e in econds] if econds is not None else None,
             [(rb(v), rb(x)) for v, x in outs], n)
    elif k in ('cpy', 'set'): a = (rb(a[0]), rb(a[1]), rb(a[2]))
    elif k == 'alloc': a = (a[0], a[1], rb(a[2]))
    elif k == 'free': a = (a[0], rb(a[1]), rb(a[2]) if a[2] is not None else None)
    elif k == 'event': a = (a[0], tuple(rb(x) for x in a[1]), rb(a[2]) if a[2] is not None else None)
    return Stmt(rb(s.g), k, a, s.l)

def show_stmt(s):
    return repr(tup(s))

def tup(s):
    g = T.show(s.g); k, a = s.k, s.a
    if k == 'loop':
        uid, d, count, carr, body, econds, outs, n = a
        return ('loop', g, d, T.show(count) if count is not None else None, tuple((T.show(x), T.show(y), T.show(z)) for x, y, z in carr),
                tuple(tup(b) for b in body), tuple(T.show(e) for e in econds) if econds is not None else None, tuple((T.show(v), T.show(x)) for v, x in outs), n)
    return (k, g) + tuple(x if isinstance(x, (str, int)) else T.show(x) for x in a)

def key(s):
    "structural identity (hash-consed terms)"
    k, a = s.k, s.a
    if k == 'loop':
        uid, d, count, carr, body, econds, outs, n = a
        return ('loop', s.g, d, count, tuple(carr), tuple(key(b) for b in body), tuple(econds) if econds is not None else None, tuple(outs), n)
    return (k, s.g) + tuple(a)

def nests(l):
    r = []
    for s in l:
        if s.k != 'loop': r.append(s); continue
        uid, d, count, carr, body, econds, outs, n = s.a
        body = nests(body)
        if count is None or carr or outs:
            r.append(Stmt(s.g, 'loop', (uid, d, count, carr, body, econds, outs, n), s.l)); continue
        if count.isconst() and count.const() == 1:
            # single iteration
            for b in body:
                b = sub_iv(b, {d: K(64, 0)})
                r.append(Stmt(band(s.g, b.g), b.k, b.a, b.l))
            continue
        # distribute over simple statements
        simple = all(b.k == 'st' or (b.k == 'loop' and puren(b)) for b in body)
        parts = [[b] for b in body] if simple else [body]
        for p in parts:
            g = s.g
            # guards that do not depend on the loop move out
            if len(p) == 1 and atom('iv', d) not in free(p[0].g) and p[0].g is not TRUE:
                g = band(g, p[0].g); p = [Stmt(TRUE, p[0].k, p[0].a, p[0].l)]
            r.append(Stmt(g, 'loop', (0, d, count, [], p, None, [], n), s.l))
    return [permute(s) for s in r]

def puren(s):
    if s.k == 'st': return True
    if s.k != 'loop': return False
    return s.a[2] is not None and not s.a[3] and not s.a[6] and all(puren(b) for b in s.a[4])

def permute(s):
    if s.k != 'loop' or not puren(s): return s
    chain = []; x = s
    while x.k == 'loop' and len(x.a[4]) == 1 and (x is s or x.g is TRUE):
        chain.append(x); x = x.a[4][0]
    if x.k != 'st' : return s
    if len(chain) < 2 or len(chain) > 4: return s
    ds = [c.a[1] for c in chain]
    ivs = set(atom('iv', d) for d in ds)
    if any(free(c.a[2]) & ivs for c in chain): return s
    best = None
    for perm in itertools.permutations(range(len(chain))):
        # position j of the new nest runs old loop perm[j]
        m = {ds[perm[j]]: A(64, 'iv', ds[j]) for j in range(len(chain))}
        y = sub_iv(x, m)
        counts = [chain[perm[j]].a[2] for j in range(len(chain))]
        kk = (repr(tup(y)), [T.show(c) for c in counts])
        if best is None or kk < best[0]: best = (kk, y, counts)
    y = best[1]
    for j in reversed(range(len(chain))):
        y = Stmt(s.g if j == 0 else TRUE, 'loop', (0, ds[j], best[2][j], [], [y], None, [], 1), s.l)
    return y

def renumber(stmts, ret):
    m = {}
    cnt = {'t': 0, 'l': 0}
    um = {}
    def scan(l):
        for s in l:
            if s.k == 'let' or s.k == 'event' and s.a[2] is not None:
                t = s.a[0] if s.k == 'let' else s.a[2]
                for a in free(t):
                    if akey(a)[0] in ('t', 'tb') and a not in m:
                        cnt['t'] += 1; m[a] = atom(akey(a)[0], cnt['t'], *akey(a)[2:])
            elif s.k == 'loop':
                if s.a[0] not in um:
                    cnt['l'] += 1; um[s.a[0]] = cnt['l']
                scan(s.a[4])
    scan(stmts)
    rings = {}
    def fa(a):
        k = akey(a)
        if a in m: return mk(a, m[a])
        if k[0] in ('out', 'outb') and k[1] in um: return mk(a, atom(k[0], um[k[1]], *k[2:]))
        if k[0] in ('phi', 'phib') and k[2] in um: return mk(a, atom(k[0], k[1], um[k[2]], *k[3:]))
        return None
    memo = {}
    class R(object): pass
    # rebuild() asks for a replacement of the right sort: handle both rings
    def rb(x):
        return reb(x)
    def reb(x):
        return rebuild_leaf(x, lambda a: (m.get(a) if a in m else
                                          atom(akey(a)[0], um[akey(a)[1]], *akey(a)[2:]) if akey(a)[0] in ('out', 'outb') and akey(a)[1] in um else
                                          atom(akey(a)[0], akey(a)[1], um[akey(a)[2]], *akey(a)[3:]) if akey(a)[0] in ('phi', 'phib') and akey(a)[2] in um else None))
    out = [mapstmt(s, reb) for s in stmts]
    def uids(l):
        r = []
        for s in l:
            if s.k == 'loop':
                a = list(s.a); a[0] = um.get(a[0], a[0]); a[4] = uids(a[4]); s = Stmt(s.g, s.k, tuple(a), s.l)
            r.append(s)
        return r
    return uids(out), reb(ret)

class Leaf(object):
    def __init__(self, f): self.f = f

def rebuild_leaf(x, ren):
    "rename leaf atoms keeping their sort"
    memo = {}
    polyfa = {}
    # two passes through rebuild: the polynomial and condition cases differ only in the wrapper
    def fa(a):
        b = ren(a)
        if b is None: return None
        return BOTH(b)
    class BOTH(object):
        pass
    return _rl(x, ren, {})

def _rl(x, ren, memo):
    orig_rb, orig_rc = T.rbatom, T.rbcond
    ringof = {}
    def fa_poly(a): return None
    # custom traversal through T.rebuild with sort-aware leaves
    def rbatom(a, ring, fa, mm):
        b = ren(a)
        if b is not None: return AA(ring, b)
        return orig_rb(a, ring, fa, mm)
    def rbcond(a, fa, mm):
        b = ren(a)
        if b is not None: return T.bvar(b)
        return orig_rc(a, fa, mm)
    T.rbatom, T.rbcond = rbatom, rbcond
    try: return rebuild(x, lambda a: None, {})
    finally: T.rbatom, T.rbcond = orig_rb, orig_rc

def canon(stmts, ret, types):
    stored = set()
    for s in walk(stmts):
        if s.k == 'st': stored.add(s.a[1].base)
        elif s.k in ('cpy', 'set'): stored.add(s.a[0].base)
    stmts = dce(stmts, ret)
    stmts = expand_copies(stmts, types, stored)
    stmts = split64(stmts, types)
    stmts = nests(stmts)
    stmts, ret = renumber(stmts, ret)
    return stmts, ret

def same(a, ra, b, rb):
    if len(a) != len(b): return False
    if isinstance(ra, Undef) != isinstance(rb, Undef): return False
    if not isinstance(ra, Undef) and ra != rb: return False
    return all(key(x) == key(y) for x, y in zip(a, b))
