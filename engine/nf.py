"""Normal-form summaries of LLVM IR functions.

A function is rewritten, without executing it, into a guarded statement list
over closed-form terms: loops become `for iv < count` with affine address
polynomials and symbolic sums, joins become decision graphs, calls into the
module are expanded, local memory is forwarded.  Two functions whose normal
forms coincide compute the same observable effect."""
from fractions import Fraction
import json, re
import terms as T
from terms import (Unsupported, Poly, Bdd, Ptr, Agg, Undef, UNDEF, K, A, AA, atom, akey, add, sub, mul, neg, scale,
                   icmp, fcmp, ite, tobdd, band, bor, bnot, bite, bvar, restrict, vrestrict, cofactor, TRUE, FALSE,
                   ibin, trunc, ext, i2f, fdiv, fmul, minmax, free, freea, rebuild, psum, tovec)

RW = {'i1': 1, 'i8': 8, 'i16': 16, 'i24': 24, 'i32': 32, 'i64': 64, 'i128': 128}

def tsize(t):
    if isinstance(t, str):
        if t == 'p' or t == 'f64' or t == 'i64': return 8
        if t == 'f32' or t == 'i32': return 4
        if t == 'i16': return 2
        if t in ('i8', 'i1'): return 1
        if t == 'i128' or t == 'f80': return 16
        if t[0] == 'i': return (int(t[1:]) + 7) // 8
        raise Unsupported('size of %s' % t)
    if t[0] == 'vec': return t[1] * tsize(t[2])
    if t[0] == 'st': return max([o + tsize(e) for o, e in t[1:]] or [0])
    if t[0] == 'arr': return t[1] * t[2]
    raise Unsupported('size')

class Module(object):
    def __init__(self, js):
        self.fns = {}
        for f in js['functions']: self.fns[f['name']] = Fn(f)
        self.globals = js['globals']

class Fn(object):
    def __init__(self, f):
        self.name = f['name']; self.args = f['args']; self.ret = f['ret']
        self.blocks = {b['id']: b for b in f['blocks']}
        self.order = [b['id'] for b in f['blocks']]
        self.entry = self.order[0]
        self.loops = f['loops']
        self.hdr = {}
        for i, l in enumerate(self.loops):
            l['set'] = set(l['blocks']); self.hdr[l['header']] = i
        # ids defined inside each loop that are used outside it
        defb = {}; uses = {}
        for b in f['blocks']:
            for i in b['i']:
                defb[i['id']] = b['id']
                def u(o, blk):
                    if isinstance(o, list):
                        if len(o) == 2 and o[0] == 'r': uses.setdefault(o[1], set()).add(blk)
                        else:
                            for e in o: u(e, blk)
                if i['o'] == 'phi':
                    for v, p in i['a']: u(v, b['id'])      # the phi's own block
                else:
                    u(i['a'], b['id']); u(i.get('idx'), b['id']); u(i.get('fp'), b['id'])
        for l in self.loops:
            l['liveout'] = [d for d, b in defb.items() if b in l['set'] and any(x not in l['set'] for x in uses.get(d, ()))]
        # parent chain: blocks -> innermost loop
        self.inner = {}
        for i, l in enumerate(self.loops):      # preorder: inner loops later
            for b in l['blocks']: self.inner[b] = i

# ------------------------------------------------------------ context
class Stmt(object):
    __slots__ = ('g', 'k', 'a', 'l')
    def __init__(self, g, k, a, l=None): self.g = g; self.k = k; self.a = a; self.l = l

class Loop(object):
    "a=(uid, depth, count|None, carried[(phi atom/kind, init, next)], body, exits, outs)"

MATH = {}
for n in '''sin cos tan asin acos atan sinh cosh tanh acosh exp log log10 sqrt ceil floor atan2 pow fmod hypot exp2 log2
            exp10 rint round cbrt log1p expm1 trunc fabs fmin fmax ldexp nearbyint copysign'''.split():
    MATH[n] = n; MATH[n + 'f'] = n; MATH[n + 'l'] = n
    MATH['__%s_finite' % n] = n; MATH['__%sf_finite' % n] = n

NORET = {'_ZSt9terminatev', '__cxa_throw', 'abort', 'exit', '__assert_fail', '_Unwind_Resume', '__cxa_rethrow', '_ZSt20__throw_length_errorPKc',
         '__clang_call_terminate', '__cxa_bad_cast', '__cxa_throw_bad_array_new_length'}

ALLOC = {'_Znwm': 'new', '_Znam': 'new[]', 'malloc': 'malloc', '_ZnwmSt11align_val_t': 'newa', '_ZnamSt11align_val_t': 'newa[]'}
FREE = {'_ZdlPv': 'new', '_ZdlPvm': 'new', '_ZdaPv': 'new[]', '_ZdaPvm': 'new[]', 'free': 'malloc', '_ZdlPvSt11align_val_t': 'newa', '_ZdaPvSt11align_val_t': 'newa[]',
        '_ZdlPvmSt11align_val_t': 'newa'}

class Ctx(object):
    UNROLL = 200
    def __init__(self, mod, opts=None):
        self.m = mod
        self.opts = opts or {}
        self.known_stored = set()      # bases written anywhere (from the previous pass)
        self.all_stored = False
        self.reset()
    def reset(self):
        self.stmts = []; self.guard = TRUE; self.cells = Cells(); self.nlet = 0; self.nalloc = 0; self.nloop = 0; self.ncall = 0
        self.nalloca = 0
        self.stored = set(); self.writes = Writes(); self.depth = 0; self.stack = []; self.aborts = FALSE; self.path = TRUE; self.narrow = []
        self.letdef = {}
        self.thread = 0
        self.vptr = {}                 # (object, offset) -> vtable address last stored there
        self.loc = None
        self.steps = 0
    def emit(self, g, k, *a):
        g = band(self.guard, g)
        if g is FALSE: return
        self.stmts.append(Stmt(g, k, a, self.loc))

def isconst_base(b): return isinstance(b, tuple) and b[0] in ('g', 'fn', 'null')
def isobj(b): return isinstance(b, tuple) and b[0] in ('arg', 'alloca', 'new', 'g', 'fn', 'null')

def alias(b1, b2):
    "may two bases name the same object"
    if b1 == b2: return True
    if isobj(b1) and isobj(b2): return False
    for x, y in ((b1, b2), (b2, b1)):
        if x[0] in ('alloca', 'new') and y[0] in ('pv', 'psel'): return escapes_possible
    return True
escapes_possible = True

class Cells(object):
    """known memory contents: (object, offset, size) -> value.  Kept per object, and
    what is known about an object is shared between snapshots until it changes"""
    __slots__ = ('top', 'own', 'other')
    def __init__(self, src=None):
        self.top = {}; self.own = set(); self.other = set()
        if src is not None:
            for k, v in src.items(): self[k] = v
    def copy(self):
        r = Cells(); r.top = dict(self.top); r.other = set(self.other); self.own = set()
        return r
    def get(self, k, d=None):
        t = self.top.get(k[0])
        return d if t is None else t.get(k, d)
    def __getitem__(self, k): return self.top[k[0]][k]
    def __contains__(self, k):
        t = self.top.get(k[0])
        return t is not None and k in t
    def mine(self, b):
        t = self.top.get(b)
        if b not in self.own:
            t = self.top[b] = {} if t is None else dict(t)
            self.own.add(b)
            if not isobj(b): self.other.add(b)
        return t
    def __setitem__(self, k, v): self.mine(k[0])[k] = v
    def __delitem__(self, k):
        t = self.mine(k[0]); del t[k]
        if not t: self.drop(k[0])
    def drop(self, b):
        self.top.pop(b, None); self.own.discard(b)
    def items(self):
        for t in self.top.values():
            for x in t.items(): yield x
    def __iter__(self):
        for t in self.top.values():
            for k in t: yield k
    def of(self, b): return self.top.get(b) or {}
    def __eq__(self, o):
        if self.top.keys() != o.top.keys(): return False
        return all(t is o.top[b] or t == o.top[b] for b, t in self.top.items())
    def __ne__(self, o): return not self == o
    __hash__ = None

class Writes(list):
    "distinct writes, in order"
    def __init__(self, src=()): list.__init__(self, src); self.seen = set(self)
    def add(self, w):
        if w not in self.seen: self.seen.add(w); self.append(w)
    def __delitem__(self, i): list.__delitem__(self, i); self.seen = set(self)

class Frame(object):
    def __init__(self, fn): self.fn = fn; self.vals = {}; self.rets = []; self.retcells = []

def ringof(t):
    if isinstance(t, list): return None
    if t in RW: return RW[t]
    if t in ('f32', 'f64', 'f80'): return 'f'
    return None

def psame(a, b, care):
    "equality of values whose pointers may be conditional"
    if a == b or care is FALSE: return True
    if not isinstance(a, Ptr) or not isinstance(b, Ptr): return False
    for x, y in ((a, b), (b, a)):
        if x.base[0] == 'psel':
            c, p, q = x.base[1:4]
            return psame(Ptr(p.base, add(p.off, x.off)), y, band(care, c)) and psame(Ptr(q.base, add(q.off, x.off)), y, band(care, bnot(c)))
    a, b = vrestrict(a, care), vrestrict(b, care)
    return a == b

MESSAGE = ('_ZNSt7__cxx1112basic_string', '_ZNSt13runtime_error', '_ZNSt11logic_error', '_ZNSt12out_of_range', '_ZNSt12domain_error', '_ZNSt9exceptionD')

class Summariser(object):
    MAXSTEPS = 400000

    UNROLL = 200
    def __init__(self, mod, opts=None):
        self.c = Ctx(mod, opts); self.m = mod

    # ---------------- values
    def fresh(self, ty, name, *key):
        "an opaque value of IR type ty made from leaf atoms"
        if ty == 'i1': return bvar(atom(name + 'b', *key))
        r = ringof(ty)
        if r is not None: return A(r, name, *key)
        if ty == 'p': return Ptr(('pv', A(64, name, *key)), K(64, 0))
        if isinstance(ty, list):
            if ty[0] == 'vec': return Agg(self.fresh(ty[2], name, *(key + (i,))) for i in range(ty[1]))
            if ty[0] == 'st': return Agg(self.fresh(e[1], name, *(key + (i,))) for i, e in enumerate(ty[1:]))
            if ty[0] == 'arr': return Agg(self.fresh(ty[3], name, *(key + (i,))) for i in range(ty[1]))
        raise Unsupported('fresh %s' % (ty,))

    def zero(self, ty):
        if ty == 'i1': return FALSE
        r = ringof(ty)
        if r is not None: return K(r, 0)
        if ty == 'p': return Ptr(('null',), K(64, 0))
        if ty[0] == 'vec': return Agg([self.zero(ty[2])] * ty[1])
        if ty[0] == 'st': return Agg(self.zero(e[1]) for e in ty[1:])
        if ty[0] == 'arr': return Agg([self.zero(ty[3])] * ty[1])
        raise Unsupported('zero')

    def opval(self, fr, o):
        k = o[0]
        if k == 'r':
            if o[1] not in fr.vals: return UNDEF
            return fr.vals[o[1]]
        if k == 'i':
            v = int(o[2])
            return (TRUE if v & 1 else FALSE) if o[1] == 1 else K(o[1], v)
        if k == 'f':
            if o[1] in ('nan', 'inf', '-inf'):
                return neg(A('f', 'fconst', 'inf')) if o[1] == '-inf' else A('f', 'fconst', o[1])
            return K('f', Fraction(float.fromhex(o[1])))
        if k == 'null': return Ptr(('null',), K(64, 0))
        if k == 'undef': return UNDEF
        if k == 'zero': return self.zero(o[1])
        if k == 'fn': return Ptr(('fn', o[1]), K(64, 0))
        if k == 'g': return Ptr(('g', o[1]), K(64, o[2]))
        if k == 'agg': return Agg(self.opval(fr, e) for e in o[2:])
        if k == 'md' or k == 'asm': return UNDEF
        raise Unsupported('operand %s' % k)

    # ---------------- entry
    def summarise(self, name, args):
        fn = self.m.fns[name]
        c = self.c
        for _ in range(6):
            c.reset()
            # function-local statics as they are before their first use
            for pat in c.opts.get('first_use', ()):
                for gn, gd in [(n + s, d) for n, d in self.m.globals.items() for s in (('', '@1', '@2') if c.opts.get('threads') else ('',))]:
                    if pat in gn and gn.startswith('_ZGV'): c.cells[(('g', gn), K(64, 0), 1)] = K(8, 0)
                    elif pat in gn and not gd.get('const') and gd.get('init') in (['zero'], ['null'], ['c', '0']):
                        for ty in ('p', 'i8', 'i64'): c.cells[(('g', gn), K(64, 0), tsize(ty))] = self.zero(ty)
                    elif pat in gn and not gd.get('const') and gd.get('init', [''])[0] == 'i':
                        w = int(gd['init'][1]); c.cells[(('g', gn), K(64, 0), max(w // 8, 1))] = K(max(w, 8), int(gd['init'][2]))
            ret = self.call_fn(fn, args)
            s = set(b for b in c.stored)
            if s <= c.known_stored: break
            c.known_stored |= s
        stmts = c.stmts
        return stmts, ret

    def call_fn(self, fn, args):
        c = self.c
        if len(c.stack) > 60 or c.stack.count(fn.name) > 3: raise Unsupported('call depth at ' + fn.name)
        c.stack.append(fn.name)
        fr = Frame(fn)
        for i, a in enumerate(args): fr.vals[i] = a
        g0 = c.guard
        self.region(fr, set(fn.blocks), fn.entry, None, None)
        c.guard = g0
        c.stack.pop()
        # merge returns
        rets = fr.rets
        if not rets:
            c.dead = TRUE
            return UNDEF
        care = FALSE
        for g, v, cl in rets: care = bor(care, g)
        val = self.merge_vals([(restrict(g, care), v) for g, v, cl in rets])
        c.cells = self.merge_cells([(restrict(g, care), cl) for g, v, cl in rets])
        if care is not TRUE:
            # paths that do not return have aborted: what follows is under `care`
            fr.care = care
            c.dead = bnot(care)
        return val

    def merge_vals(self, l):
        v = l[-1][1]
        for g, x in reversed(l[:-1]): v = ite(g, x, v)
        return v

    def merge_cells(self, l):
        if len(l) == 1: return l[0][1].copy()
        r = Cells()
        first = l[0][1]; first.own = set()
        for b, t in first.top.items():
            if all(cl.top.get(b) is t for g, cl in l[1:]):
                r.top[b] = t
                if not isobj(b): r.other.add(b)
                for g, cl in l[1:]: cl.own.discard(b)
                continue
            ts = [cl.top.get(b) for g, cl in l[1:]]
            if any(x is None for x in ts): continue
            for k, v in t.items():
                vs = [(l[0][0], v)]
                for (g, cl), x in zip(l[1:], ts):
                    if k not in x: break
                    vs.append((g, x[k]))
                else:
                    if all(x == v for g, x in vs): r[k] = v
                    else:
                        try: r[k] = self.merge_vals(vs)
                        except Unsupported: pass
        return r

    # ---------------- regions
    def topo(self, fn, scope, entry, loop):
        "reverse post-order of the region with inner loops collapsed onto their header"
        def node(b):
            # outermost loop strictly inside `loop` that contains b
            i = fn.inner.get(b, -1)
            cand = None
            while i != -1 and i != loop:
                cand = i; i = fn.loops[i]['parent']
            return b if cand is None else fn.loops[cand]['header']
        seen = set(); out = []
        def succs(n):
            i = fn.hdr.get(n)
            if i is not None and i != loop and n != (fn.loops[loop]['header'] if loop is not None else None):
                r = []
                for b in fn.loops[i]['blocks']:
                    for s in fn.blocks[b]['succ']:
                        if s not in fn.loops[i]['set']: r.append(s)
                return r
            return fn.blocks[n]['succ']
        st = [(entry, None)]
        # iterative dfs
        stack = [(entry, iter([node(s) for s in succs(entry) if s in scope and not (loop is not None and s == fn.loops[loop]['header'])]))]
        seen.add(entry)
        while stack:
            n, it = stack[-1]
            for s in it:
                if s not in seen and s != entry:
                    seen.add(s)
                    stack.append((s, iter([node(x) for x in succs(s) if x in scope and not (loop is not None and x == fn.loops[loop]['header'])])))
                    break
            else:
                out.append(n); stack.pop()
        out.reverse()
        return out

    def region(self, fr, scope, entry, loop, phivals):
        """process the blocks of `scope` from `entry`; returns (back edges, exits):
        lists of (src, dst, condition relative to the region entry, cells)"""
        fn = fr.fn; c = self.c
        base = c.guard
        edges = {}; estate = {}
        back = []; exits = []
        hdr = fn.loops[loop]['header'] if loop is not None else None
        guard = {entry: TRUE}
        for n in self.topo(fn, scope, entry, loop):
            inc = []
            if n == entry:
                g = TRUE; cells = c.cells
            else:
                inc = [(s, e) for (s, d), e in edges.items() if d == n and e is not FALSE]
                if not inc: continue
                g = FALSE
                for s, e in inc: g = bor(g, e)
                if g is FALSE: continue
                cells = self.merge_cells([(restrict(e, g), estate[(s, n)]) for s, e in inc])
            c.cells = cells
            c.guard = band(base, g)
            if c.guard is FALSE: continue
            i = fn.hdr.get(n)
            if i is not None and n != hdr:
                ex = self.do_loop(fr, i, g, [(s, restrict(e, g)) for s, e in inc] if n != entry else [])
                for s, d, cond, cl in ex:
                    e = band(g, cond)
                    if e is FALSE: continue
                    self.addedge(fn, scope, hdr, edges, estate, back, exits, s, d, e, cl)
                continue
            # plain block
            b = fn.blocks[n]
            alive = TRUE
            newphi = {}
            for ins in b['i']:
                if ins['o'] != 'phi': break
                if n == entry and phivals is not None: newphi[ins['id']] = phivals[ins['id']]; continue
                vals = []
                dd = dict((p, v) for v, p in ins['a'])
                for s, e in inc: vals.append((restrict(e, g), self.opval(fr, dd[s])))
                newphi[ins['id']] = self.merge_vals(vals) if vals else UNDEF
            fr.vals.update(newphi)
            dead = False
            for ins in b['i']:
                if ins['o'] == 'phi': continue
                c.steps += 1
                if c.steps > self.MAXSTEPS: raise Unsupported('too many steps')
                if 'l' in ins: c.loc = ins['l']
                o = ins['o']
                if o == 'br':
                    su = ins['succ']
                    if len(su) == 1: es = [(su[0], TRUE)]
                    else:
                        cc = self.cond(fr, ins['a'][0], g)
                        es = [(su[0], cc), (su[1], bnot(cc))] if su[0] != su[1] else [(su[0], TRUE)]
                    for d, cc in es:
                        e = band(band(g, alive), cc)
                        self.addedge(fn, scope, hdr, edges, estate, back, exits, n, d, e, c.cells)
                    break
                if o == 'switch':
                    v = self.opval(fr, ins['a'][0]); rest = TRUE; per = {}
                    for cv, d in ins['cases']:
                        q = icmp('eq', v, K(v.ring, int(cv))) if isinstance(v, Poly) else (v if int(cv) else bnot(v))
                        q = band(rest, q); rest = band(rest, bnot(q))
                        per[d] = bor(per.get(d, FALSE), q)
                    per[ins['dflt']] = bor(per.get(ins['dflt'], FALSE), rest)
                    for d, cc in per.items():
                        self.addedge(fn, scope, hdr, edges, estate, back, exits, n, d, band(band(g, alive), cc), c.cells)
                    break
                if o == 'ret':
                    v = self.opval(fr, ins['a'][0]) if ins['a'] else UNDEF
                    fr.rets.append((band(g, alive), v, c.cells.copy()))
                    break
                if o == 'unreachable' or o == 'resume':
                    break
                c.dead = FALSE
                r = self.instr(fr, ins)
                if r == 'NORET': break
                if c.dead is not FALSE:
                    alive = band(alive, bnot(c.dead)); c.guard = band(c.guard, bnot(c.dead)); c.dead = FALSE
                if o == 'invoke':
                    self.addedge(fn, scope, hdr, edges, estate, back, exits, n, ins['normal'], band(g, alive), c.cells)
                    break
        c.guard = base
        return back, exits

    def addedge(self, fn, scope, hdr, edges, estate, back, exits, s, d, e, cells):
        if e is FALSE: return
        if hdr is not None and d == hdr: back.append((s, d, e, cells.copy())); return
        if d not in scope: exits.append((s, d, e, cells.copy())); return
        k = (s, d)
        if k in edges:
            tot = bor(edges[k], e)
            if estate[k] != cells: estate[k] = self.merge_cells([(restrict(e, tot), cells.copy()), (TRUE, estate[k])])
            edges[k] = tot
        else: edges[k] = e; estate[k] = cells.copy()

    def cond(self, fr, o, g):
        v = self.opval(fr, o)
        if isinstance(v, Undef): return FALSE
        return tobdd(v)

    # ---------------- loops
    def peel(self, fr, li, init):
        """run the first iteration on its own, then the loop from the second one: a pointer that is
        null on entry and set once (storage allocated on first use) is then unchanged by the rest"""
        c = self.c; L = fr.fn.loops[li]; outer = c.guard
        back, exits = self.region(fr, L['set'], L['header'], li, dict(init))
        live = {i: fr.vals[i] for i in L['liveout'] if i in fr.vals}
        care = FALSE
        for s, d, e, cl in back: care = bor(care, e)
        if care is FALSE: c.guard = outer; return exits
        c.guard = band(outer, care)
        c.cells = self.merge_cells([(restrict(e, care), cl) for s, d, e, cl in back])
        if c.guard is FALSE: c.guard = outer; return exits
        ex2 = self.do_loop(fr, li, care, [(s, restrict(e, care)) for s, d, e, cl in back if e is not FALSE], True)
        first = FALSE
        for s, d, e, cl in exits: first = bor(first, e)
        for i, v in live.items():
            w = fr.vals.get(i)
            if w is None or isinstance(w, Undef): fr.vals[i] = v
            elif not isinstance(v, Undef) and first is not FALSE: fr.vals[i] = ite(first, v, w)
        c.guard = outer
        return exits + [(s, d, band(care, e), cl) for s, d, e, cl in ex2]

    def unroll(self, fr, li, init):
        """run a loop whose every exit test is decided by the state it is reached in, one iteration after
        the other; None (and nothing changed) when a test is not"""
        c = self.c; L = fr.fn.loops[li]; h = L['header']; outer = c.guard
        phis = [i for i in fr.fn.blocks[h]['i'] if i['o'] == 'phi']
        snap = (c.nlet, c.nalloc, c.nloop, c.ncall, c.nalloca, len(c.stmts), len(c.writes), c.cells, dict(fr.vals))
        c.cells = c.cells.copy(); vals = dict(init)
        for n in range(self.UNROLL):
            back, exits = self.region(fr, L['set'], h, li, dict(vals))
            c.guard = outer
            back = [b for b in back if b[2] is not FALSE]; exits = [x for x in exits if x[2] is not FALSE]
            if not back: return exits
            if exits: break
            care = FALSE
            for s, d, e, cl in back: care = bor(care, e)
            if care is not TRUE and band(outer, care) is not outer: break
            nv = {}
            for p in phis:
                dd = dict((b, v) for v, b in p['a'])
                nv[p['id']] = vrestrict(self.merge_vals([(restrict(e, care), self.opval(fr, dd[s])) for s, d, e, cl in back]), care)
            vals = nv
            c.cells = self.merge_cells([(restrict(e, care), cl) for s, d, e, cl in back])
        c.nlet, c.nalloc, c.nloop, c.ncall, c.nalloca = snap[:5]
        del c.stmts[snap[5]:]; del c.writes[snap[6]:]; c.cells = snap[7]; fr.vals = snap[8]; c.guard = outer
        return None

    def do_loop(self, fr, li, g, inc, peeled=False):
        fn = fr.fn; c = self.c; L = fn.loops[li]; h = L['header']
        outer_guard = c.guard
        phis = [i for i in fn.blocks[h]['i'] if i['o'] == 'phi']
        init = {}
        for p in phis:
            dd = dict((b, v) for v, b in p['a'])
            vals = [(e, self.opval(fr, dd[s])) for s, e in inc]
            v = self.merge_vals(vals)
            if isinstance(v, Ptr) and v.base[0] == 'psel': v = vrestrict(v, band(c.path, outer_guard))
            init[p['id']] = v
        pre = (c.nlet, c.nalloc, c.nloop, c.ncall, c.nalloca)
        if not peeled and c.opts.get('unroll'):
            ex = self.unroll(fr, li, init)
            if ex is not None: return ex
        c.nloop += 1; uid = c.nloop
        c.depth += 1; d = c.depth
        iv = A(64, 'iv', d); iva = atom('iv', d)
        cells0 = c.cells.copy()
        save = (c.nlet, c.nalloc, c.nloop, c.ncall, c.nalloca)
        stmts0 = c.stmts; writes0 = c.writes; path0 = c.path; c.path = band(c.path, outer_guard)
        rep = {}; kind = {}
        for n, p in enumerate(phis):
            k = p['id']; kind[k] = 'opaque'
            v0 = init[k]
            if p['ty'] == 'p' and isinstance(v0, Ptr):
                # optimistic: unchanged round the loop until shown otherwise
                if self.walks(fr, L, p): rep[k] = Ptr(v0.base, A(64, 'phi', d, uid, n)); kind[k] = 'ptr'
                else: rep[k] = v0; kind[k] = 'hyp'
            elif isinstance(v0, Poly) and v0.ring != 'f' and p['ty'] != 'p' and not self.walks(fr, L, p): rep[k] = v0; kind[k] = 'hyp'
            else: rep[k] = self.fresh(p['ty'], 'phi', d, uid, n)
        dropped = set()
        for it in range(60):
            c.nlet, c.nalloc, c.nloop, c.ncall, c.nalloca = save
            c.stmts = []; c.writes = Writes(); c.guard = TRUE
            c.cells = cells0.copy()
            for k in dropped: del c.cells[k]
            back, exits = self.region(fr, L['set'], h, li, dict(rep))
            changed = False
            # memory contents: assumed unchanged round the loop until an iteration is seen to change them
            for k, v in cells0.items():
                if k in dropped: continue
                for s, dd_, e, cl in back:
                    if e is not FALSE and not (k in cl and (cl[k] is v or psame(cl[k], v, TRUE))):
                        dropped.add(k); changed = True; break
            if changed and not peeled and any(isinstance(v, Ptr) and v.base[0] == 'null' and k in dropped for k, v in cells0.items()):
                c.nlet, c.nalloc, c.nloop, c.ncall, c.nalloca = pre
                c.depth -= 1; c.stmts = stmts0; c.writes = writes0; c.guard = outer_guard; c.cells = cells0; c.path = path0
                return self.peel(fr, li, init)
            # next values
            care = FALSE
            for s, dd_, e, cl in back: care = bor(care, e)
            nxt = {}
            for p in phis:
                dd = dict((b, v) for v, b in p['a'])
                vals = [(restrict(e, care), self.opval(fr, dd[s])) for s, dd_, e, cl in back]
                nxt[p['id']] = vrestrict(self.merge_vals(vals), care) if vals else rep[p['id']]
            if changed: continue
            cont = care
            for n, p in enumerate(phis):
                k = p['id']
                if kind[k] == 'hyp' and not psame(nxt[k], rep[k], TRUE):
                    if isinstance(rep[k], Ptr): rep[k] = Ptr(init[k].base, A(64, 'phi', d, uid, n)); kind[k] = 'ptr'
                    else: rep[k] = self.fresh(p['ty'], 'phi', d, uid, n); kind[k] = 'opaque'
                    changed = True
            if changed: continue
            opaque = set()
            for p in phis:
                if kind[p['id']] in ('opaque', 'ptr', 'ptrbase'): opaque |= free(rep[p['id']])
            body_lets = lambda x: any((akey(a)[0] in ('t', 'tb', 'out', 'outb') and self.inner_let(akey(a), save)) for a in free(x))
            for n, p in enumerate(phis):
                k = p['id']
                if kind[k] not in ('opaque', 'ptr'): continue
                x, nx, v0 = rep[k], nxt[k], init[k]
                if kind[k] == 'ptr':
                    if not isinstance(nx, Ptr) or nx.base != x.base:
                        if isinstance(nx, Ptr) and nx == x: pass
                        else:
                            rep[k] = self.fresh('p', 'phi', d, uid, n); kind[k] = 'ptrbase'; changed = True; continue
                    x, nx, v0 = x.off, nx.off, v0.off
                if nx is x or nx == x:
                    rep[k] = init[k]; kind[k] = 'inv'; changed = True; continue
                if isinstance(x, Bdd):
                    if isinstance(v0, Bdd) and isinstance(nx, Bdd) and v0 is nx and not (free(nx) & opaque): rep[k] = v0; kind[k] = 'inv'; changed = True
                    continue
                if not isinstance(x, Poly) or not isinstance(v0, Poly) or not isinstance(nx, Poly): continue
                dlt = sub(nx, x)
                f = free(dlt)
                if f & opaque or body_lets(dlt): continue
                if self.reads_stored(dlt, d): continue
                if iva not in f:
                    n_iv = iv if x.ring == 64 else (i2f(True, iv) if x.ring == 'f' else trunc(iv, x.ring))
                    y = add(v0, mul(dlt, n_iv)); kind[k] = 'affine'
                else:
                    y = add(v0, psum(iv, iva, dlt)); kind[k] = 'sum'
                rep[k] = Ptr(rep[k].base, y) if isinstance(rep[k], Ptr) else y
                changed = True
            if not changed: break
        else:
            raise Unsupported('loop does not stabilise')
        body = c.stmts
        c.stmts = stmts0; c.guard = outer_guard; c.path = path0
        for x in c.writes:
            writes0.add(x)
        c.writes = writes0
        carried = [p for p in phis if kind[p['id']] in ('opaque', 'ptr', 'ptrbase')]
        # trip count
        count = None
        exits = [e for e in exits if e[2] is not FALSE]
        if len(exits) == 1 or len(set(e[1] for e in exits)) == 1 and exits:
            ec = FALSE
            for e in exits: ec = bor(ec, e[2])
            tot = bor(ec, cont)            # the remaining paths abort
            ec = restrict(ec, tot)
            if ec is bnot(restrict(cont, tot)): count = self.trip(ec, iv, iva, d, uid, carried, rep, outer_guard, body, exits)
        loopphis = set()
        for p in carried: loopphis |= free(rep[p['id']])
        outs = []
        def final(v, allow_next=True):
            "value of an in-loop term once the loop has finished"
            if isinstance(v, Undef): return v
            if count is not None:
                for p in phis:
                    if kind[p['id']] in ('affine', 'sum') and not isinstance(v, Undef) and v == nxt[p['id']]:
                        return self.subst_iv(rep[p['id']], iva, count)
                if not (free(v) & loopphis) and not body_lets(v) and not self.reads_stored(v, d):
                    return self.subst_iv(v, iva, sub(count, K(64, 1)))
            elif iva not in free(v) and not (free(v) & loopphis) and not body_lets(v) and not self.reads_stored(v, d): return v
            if isinstance(v, Undef): return v
            for j, (jv, x) in enumerate(outs):
                if jv == v: return x
            x = self.outval(v, uid, len(outs))
            outs.append((v, x))
            return x
        # carried phis as outs: give them their next value
        live = L['liveout']
        res = []
        for i in live:
            if i in fr.vals: fr.vals[i] = final(fr.vals[i])
        ex2 = []
        for n, (s, dst, e, cl) in enumerate(exits):
            if count is not None: cond = TRUE if len(exits) == 1 else None
            else: cond = None
            if cond is None:
                if len(exits) == 1: cond = TRUE
                elif n == len(exits) - 1:
                    cond = TRUE
                    for q in ex2: cond = band(cond, bnot(q[2]))
                else: cond = bvar(atom('outb', uid, 'exit', n))
                if n < len(exits) - 1:
                    for q in ex2: cond = band(cond, bnot(q[2]))
            cells = Cells()
            for k, v in cells0.items():
                if k in dropped or k not in cl: continue
                x = cl[k]
                if x is v or psame(x, v, TRUE): cells[k] = v
                elif not isinstance(x, (Undef, Agg)) and iva not in free(x) and not (free(x) & loopphis) and not body_lets(x): cells[k] = x
            ex2.append((s, dst, cond, cells))
        c.depth -= 1
        if not exits:
            # never leaves normally (every path aborts or it is infinite)
            ex2 = []
        carr = [(rep[p['id']], init[p['id']], nxt[p['id']]) for p in carried]
        econds = [e[2] for e in exits]
        # zero-trip guard: a counted loop whose count is zero when the guard fails needs no guard
        gg = outer_guard
        if count is not None: gg = self.drop_zerotrip(gg, count)
        if body or outs or count is None:
            simple = count is not None and not body and not outs and not carr
            if not simple:
                c.stmts.append(Stmt(gg, 'loop', (uid, d, count, carr, body, econds if count is None else None, outs, len(exits)), c.loc))
        return ex2

    def walks(self, fr, L, p):
        "is the phi advanced by arithmetic on itself?"
        defs = getattr(fr.fn, 'defs', None)
        if defs is None:
            defs = fr.fn.defs = {}
            for b in fr.fn.blocks.values():
                for i in b['i']:
                    if 'id' in i: defs[i['id']] = i
        for v, b in p['a']:
            if b not in L['set']: continue
            for _ in range(8):
                if v[0] != 'r': break
                if v[1] == p['id']: return True
                i = defs.get(v[1])
                if i is None: break
                if i['o'] in ('add', 'sub') and any(w == ['r', p['id']] for w in i['a']): return True
                if i['o'] not in ('getelementptr', 'add', 'sub'): break
                v = i['a'][0]
                if not isinstance(v, list): break
        return False

    def inner_let(self, k, save):
        if k[0] in ('t', 'tb'): return k[1] > save[0]
        return k[1] > save[2]

    def outval(self, v, uid, j):
        if isinstance(v, Bdd): return bvar(atom('outb', uid, j))
        if isinstance(v, Poly): return A(v.ring, 'out', uid, j)
        if isinstance(v, Ptr):
            if not (free(v.base)): return Ptr(v.base, A(64, 'out', uid, j))
            return Ptr(('pv', A(64, 'out', uid, j)), K(64, 0))
        if isinstance(v, Agg): return Agg(self.outval(e, uid, (j, n)) for n, e in enumerate(v.e))
        if isinstance(v, Undef): return v
        raise Unsupported('outval')

    def subst_iv(self, v, iva, x):
        return rebuild(v, lambda a: x if a == iva else None)

    def reads_stored(self, v, depth):
        "pure loads are only made from memory nobody stores to, so never"
        return False

    def drop_zerotrip(self, g, count):
        for a in sorted(T.bsupport(g)):
            k = akey(a)
            if k[0] == 'eq' and cofactor(g, a, 1) is FALSE:
                if self.vanishes(count, k[1]): return cofactor(g, a, 0)
        return g

    def vanishes(self, count, p):
        "count is zero whenever polynomial p is"
        if count is p or count is neg(p): return True
        if count.isconst(): return False
        s = p.single()
        if s is not None: return all(s in mo for mo in count.m)
        for c in (-1, 2, 4, 8, -2, -4, -8):
            if scale(p, c) is count or scale(count, c) is p: return True
        return False

    def trip(self, ec, iv, iva, d, uid, carried, rep, guard, body, exits):
        "closed-form iteration count of a do-while loop leaving when ec first holds"
        loopphis = set()
        for p in carried: loopphis |= free(rep[p['id']])
        f = free(ec)
        if f & loopphis or any(akey(a)[0] in ('t', 'tb') for a in f): return None
        if any(akey(a)[0] in ('out', 'outb') and akey(a)[1] > uid for a in f): return None
        if ec is TRUE: return K(64, 1)
        if ec.v is None: return None
        pos = ec.hi is TRUE and ec.lo is FALSE; ng = ec.hi is FALSE and ec.lo is TRUE
        if not (pos or ng): return None
        k = akey(ec.v)
        def lin(p):
            "p = c*iv + r with constant c"
            c = 0; r = {}
            for mo, co in p.m.items():
                if mo == (iva,): c = co
                elif any(iva in freea(a) for a in mo): return None
                else: r[mo] = co
            w = p.ring
            return T.sgn(c, w), T.norm(w, r)
        def widen(p): return p if p.ring == 64 else ext('sext', p, 64)
        if k[0] == 'eq' and pos:
            p = k[1]
            if p.ring != 64:
                # look through trunc(iv)
                q = None
                for mo in p.m:
                    for a in mo:
                        if akey(a)[0] == 'trunc' and akey(a)[2].single() == iva: q = a
                if q is None: return None
                c = 0; r = {}
                for mo, co in p.m.items():
                    if mo == (q,): c = co
                    elif any(iva in freea(a) for a in mo): return None
                    else: r[mo] = co
                w = p.ring; c = T.sgn(c, w); r = T.norm(w, r)
                x = T.exactdiv(neg(r), c) if abs(c) > 1 else (neg(r) if c == 1 else r)
                if x is None: return None
                return add(ext('zext', x, 64) if not x.isconst() else K(64, x.const()), K(64, 1)) if not self.plus1(x) else ext('zext', self.plus1(x), 64)
            l = lin(p)
            if not l or l[0] == 0: return None
            c, r = l
            x = T.exactdiv(neg(r), c)
            if x is None: return None
            return add(x, K(64, 1))
        if k[0] in ('ult', 'slt') and ng:
            # leaves when not (a < b)
            a, b = k[1], k[2]
            if a.ring != 64: return None
            la, lb = lin(a), lin(b)
            if not la or not lb: return None
            if la[0] == 1 and lb[0] == 0:
                # iv + r < b continues; first iv with iv + r >= b: count = max(b - r + 1, 1)
                n = add(sub(b, la[1]), K(64, 1))
                zero = icmp('eq', n, K(64, 0)) if k[0] == 'ult' else None
                nm1 = sub(n, K(64, 1))
                # do-while: at least once
                if self.implies(guard, icmp('ne', n, K(64, 0))) and k[0] == 'ult': return n
                if k[0] == 'slt' and self.implies(guard, icmp('sgt', n, K(64, 0))): return n
                return minmax('smax', n, K(64, 1))
        if k[0] in ('ult', 'slt') and pos:
            a, b = k[1], k[2]
            if a.ring != 64: return None
            la, lb = lin(a), lin(b)
            if not la or not lb: return None
            # leaves when a < b, i.e. not (b <= a): b = iv + r, a const: iv + r > a
            if lb[0] == 1 and la[0] == 0:
                n = add(sub(a, lb[1]), K(64, 2))
                return minmax('smax', n, K(64, 1))
        return None

    def plus1(self, x):
        return add(x, K(x.ring, 1))

    def implies(self, g, c): return band(g, bnot(c)) is FALSE

    # ---------------- memory
    def killed(self, cell, writes):
        b, o, s = cell
        for (wb, wo, ws) in writes:
            if wb == '*':
                if b[0] in ('alloca',) and not self.c.opts.get('escape', True): continue
                return True
            if b == wb:
                if wo is None: return True
                d = sub(o, wo).const()
                if d is None: return True
                d = T.sgn(d, 64)
                if d < ws and -d < s: return True
            elif alias(b, wb): return True
        return False

    def note_write(self, base, off, size):
        c = self.c
        if base != '*': c.stored.add(base)
        cells = c.cells
        w1 = [(base, off, size)]
        if base != '*' and isobj(base):
            cand = list(cells.of(base))
            for b in cells.other: cand.extend(cells.of(b))
        else: cand = list(cells)
        for k in cand:
            if self.killed(k, w1): del cells[k]
        w = (base, off if off is not None and not free_iv(off) else None, size)
        c.writes.add(w)

    def load(self, ty, p):
        c = self.c
        if isinstance(p, Undef): return UNDEF
        if not isinstance(p, Ptr): raise Unsupported('load through %r' % (p,))
        b, o = p.base, p.off
        if isinstance(b, tuple) and b[0] == 'psel':
            cnd, x, y = b[1], b[2], b[3]
            return ite(cnd, self.load(ty, Ptr(x.base, add(x.off, o))), self.load(ty, Ptr(y.base, add(y.off, o))))
        if isinstance(ty, list):
            if ty[0] == 'vec': return Agg(self.load(ty[2], Ptr(b, add(o, K(64, i * tsize(ty[2]))))) for i in range(ty[1]))
            if ty[0] == 'st': return Agg(self.load(e[1], Ptr(b, add(o, K(64, e[0])))) for e in ty[1:])
            if ty[0] == 'arr': return Agg(self.load(ty[3], Ptr(b, add(o, K(64, i * ty[2])))) for i in range(ty[1]))
        s = tsize(ty)
        if b == ('null',): return UNDEF
        if b[0] == 'g':
            if b[1] == '__libc_single_threaded': return K(8, 1)
            v = self.gload(b[1], o, ty)
            if v is not None: return v
        v = c.cells.get((b, o, s))
        if v is not None:
            v2 = self.coerce(v, ty)
            if isinstance(v2, Ptr) and v2.base[0] == 'psel': v2 = vrestrict(v2, band(c.path, c.guard))
            if v2 is not None: return v2
        # a wide integer over two known halves
        if s == 8 and ty == 'i64':
            lo, hi = c.cells.get((b, o, 4)), c.cells.get((b, add(o, K(64, 4)), 4))
            if isinstance(lo, Poly) and isinstance(hi, Poly):
                lo, hi = [self.bitcast(x, 'i32') if x.ring == 'f' else x for x in (lo, hi)]
                if lo.isconst() and hi.isconst(): return K(64, lo.const() | hi.const() << 32)
                return A(64, 'cat', lo, hi)
        # half of a wider integer
        if s == 4 and ty in ('i32', 'f32'):
            for up in (0, 1):
                v = c.cells.get((b, add(o, K(64, -4 * up)), 8))
                if isinstance(v, Poly) and v.ring == 64: return self.bitcast(trunc(ibin('lshr', v, K(64, 32)) if up else v, 32), ty)
        pure = not self.maybe_stored(b)
        if pure: return self.ldterm(ty, b, o)
        c.nlet += 1
        t = self.fresh(ty, 't', c.nlet)
        c.emit(TRUE, 'let', t, ty, Ptr(b, o))
        if isinstance(t, Ptr): c.letdef[t.base[1].single()] = Ptr(b, o)
        if c.guard is TRUE or True:
            c.cells[(b, o, s)] = t
        return t

    def ldterm(self, ty, b, o):
        if ty == 'i1': return tobdd(A(1, 'ld', 'i1', b, o))
        r = ringof(ty)
        if r is not None:
            # fold a conditional offset outwards
            return A(r, 'ld', ty, b, o)
        if ty == 'p': return Ptr(('pv', A(64, 'ld', 'p', b, o)), K(64, 0))
        raise Unsupported('load type %s' % (ty,))

    def maybe_stored(self, b):
        c = self.c
        for s in c.known_stored | c.stored:
            if s == '*' or alias(s, b): return True
        return False

    def coerce(self, v, ty):
        if isinstance(v, Undef): return v
        if isinstance(v, Ptr): return v if ty == 'p' else (self.p2i(v) if ty == 'i64' else None)
        if isinstance(v, Bdd): return tovec(v, RW[ty]) if ty in RW and ty != 'i1' else v if ty == 'i1' else None
        if isinstance(v, Poly):
            r = ringof(ty)
            if r == v.ring: return v
            if ty == 'p' and v.ring == 64: return self.i2p(v)
            if v.isconst() and v.const() == 0 and r is not None: return K(r, 0) if ty != 'i1' else FALSE
            return self.bitcast(v, ty)
        return None

    def bitcast(self, v, ty):
        "reinterpret i32/i64 <-> f32/f64"
        if isinstance(v, Undef): return v
        r = ringof(ty)
        if isinstance(v, Poly):
            if r == 'f' and v.ring != 'f':
                s = v.single()
                if v.isconst():
                    import struct
                    n = v.const()
                    f = struct.unpack('<f', struct.pack('<I', n))[0] if v.ring == 32 else struct.unpack('<d', struct.pack('<Q', n))[0]
                    if f != f or f in (float('inf'), float('-inf')): return A('f', 'fconst', repr(f))
                    return K('f', Fraction(f))
                if s is not None:
                    k = akey(s)
                    if k[0] == 'ld': return A('f', 'ld', ty, k[2], k[3])
                    if k[0] == 'f2b': return k[2]
                    if k[0] == 'mt': return ite(bvar(k[1]), self.bitcast(k[2], ty), self.bitcast(k[3], ty))
                return A('f', 'b2f', ty, v)
            if v.ring == 'f' and r != 'f' and r is not None:
                s = v.single()
                if s is not None:
                    k = akey(s)
                    if k[0] == 'b2f': return k[2]
                    if k[0] == 'ld' and k[1] in ('f32', 'f64'): return A(r, 'ld', 'i%d' % (32 if k[1] == 'f32' else 64), k[2], k[3])
                if v.isconst():
                    import struct
                    f = float(v.const())
                    return K(r, struct.unpack('<I', struct.pack('<f', f))[0] if r == 32 else struct.unpack('<Q', struct.pack('<d', f))[0])
                return A(r, 'f2b', r, v)
            if v.ring == r: return v
        if isinstance(v, Agg) and r is not None:
            # vector -> scalar
            n = len(v.e)
            es = v.e
            if r == 64 and n == 2:
                es = [self.bitcast(e, 'i32') for e in es]
                a, b = [e.single() if isinstance(e, Poly) else None for e in es]
                if a is not None and b is not None:
                    ka, kb = akey(a), akey(b)
                    if ka[0] == 'ld' and kb[0] == 'ld' and ka[2] == kb[2] and sub(kb[3], ka[3]).const() == 4:
                        return A(64, 'ld', 'i64', ka[2], ka[3])
                return A(64, 'cat', es[0], es[1])
        if isinstance(ty, list) and ty[0] == 'vec' and isinstance(v, Poly) and v.ring == 64 and ty[1] == 2:
            s = v.single(); k = akey(s) if s is not None else ('',)
            if k[0] == 'ld': return Agg(self.ldterm(ty[2], k[2], add(k[3], K(64, 4 * i))) for i in range(2))
            if k[0] == 'cat': return Agg(self.bitcast(k[1 + i], ty[2]) for i in range(2))
            if v.isconst(): return Agg(self.bitcast(K(32, v.const() >> (32 * i)), ty[2]) for i in range(2))
            lo = trunc(v, 32); hi = trunc(ibin('lshr', v, K(64, 32)), 32)
            return Agg([self.bitcast(lo, ty[2]), self.bitcast(hi, ty[2])])
        if isinstance(v, Agg) and isinstance(ty, list) and ty[0] == 'vec' and ty[1] == len(v.e):
            return Agg(self.bitcast(e, ty[2]) for e in v.e)
        return None

    def gload(self, name, off, ty):
        g = self.m.globals.get(name)
        if not g or not g.get('const') or 'init' not in g: return None
        o = off.const()
        if o is None:
            # small constant table indexed symbolically
            return None
        return self.gfield(g['init'], g['ty'], o, ty)

    def gfield(self, init, gty, o, ty):
        if init[0] == 'zero': return self.zero(ty)
        if isinstance(gty, list) and init[0] == 'agg':
            if gty[0] == 'arr':
                i = o // gty[2]
                if i < gty[1]: return self.gfield(init[2 + i], gty[3], o % gty[2], ty)
                return None
            if gty[0] == 'st':
                for n, (fo, ft) in enumerate(gty[1:]):
                    if fo <= o < fo + max(tsize(ft), 1): return self.gfield(init[2 + n], ft, o - fo, ty)
            if gty[0] == 'vec':
                es = tsize(gty[2]); i = o // es
                if i < gty[1]: return self.gfield(init[2 + i], gty[2], o % es, ty)
            return None
        if o != 0: return None
        try: v = self.opval(None, init)
        except Unsupported: return None
        return self.coerce(v, ty)

    def store(self, ty, v, p):
        c = self.c
        if isinstance(v, Undef): return
        if not isinstance(p, Ptr): raise Unsupported('store through %r' % (p,))
        b, o = p.base, p.off
        if isinstance(v, Ptr) and v.base[0] == 'g' and str(v.base[1]).startswith('_ZTV'): c.vptr[(b, o)] = v
        if isinstance(b, tuple) and b[0] == 'psel':
            g0 = c.guard
            cells0 = c.cells.copy()
            c.guard = band(g0, b[1]); 
            if c.guard is not FALSE: self.store(ty, v, Ptr(b[2].base, add(b[2].off, o)))
            cells1 = c.cells; c.cells = cells0.copy()
            c.guard = band(g0, bnot(b[1]))
            if c.guard is not FALSE: self.store(ty, v, Ptr(b[3].base, add(b[3].off, o)))
            c.cells = self.merge_cells([(b[1], cells1), (TRUE, c.cells)])
            c.guard = g0
            return
        if isinstance(ty, list) and isinstance(v, Agg):
            if ty[0] == 'vec':
                for i, e in enumerate(v.e): self.store(ty[2], e, Ptr(b, add(o, K(64, i * tsize(ty[2])))))
                return
            if ty[0] == 'st':
                for (fo, ft), e in zip(ty[1:], v.e): self.store(ft, e, Ptr(b, add(o, K(64, fo))))
                return
            if ty[0] == 'arr':
                for i, e in enumerate(v.e): self.store(ty[3], e, Ptr(b, add(o, K(64, i * ty[2]))))
                return
        # i64 holding two 32-bit halves
        if ty == 'i64' and isinstance(v, Poly):
            s = v.single()
            if s is not None:
                k = akey(s)
                if k[0] == 'cat':
                    for i in range(2):
                        f = self.bitcast(k[1 + i], 'f32')
                        self.store('f32', f, Ptr(b, add(o, K(64, 4 * i))))
                    return
        s = tsize(ty)
        self.note_write(b, o, s)
        c.emit(TRUE, 'st', ty, Ptr(b, o), v)
        c.cells[(b, o, s)] = v

    def p2i(self, p):
        if p.base == ('null',): return p.off
        return add(A(64, 'p2i', p.base), p.off)

    def i2p(self, v):
        if isinstance(v, Undef): return v
        if v.isconst(): return Ptr(('null',), v)
        for mo, co in v.m.items():
            if co == 1 and len(mo) == 1 and akey(mo[0])[0] == 'p2i':
                return Ptr(akey(mo[0])[1], sub(v, AA(64, mo[0])))
        # align-down / conditional forms
        s = v.single()
        if s is not None and akey(s)[0] == 'mt':
            k = akey(s); return ite(bvar(k[1]), self.i2p(k[2]), self.i2p(k[3]))
        if s is not None and akey(s)[0] == 'ld' and akey(s)[1] == 'i64':
            k = akey(s); return Ptr(('pv', A(64, 'ld', 'p', k[2], k[3])), K(64, 0))
        return Ptr(('pv', v), K(64, 0))

    # ---------------- instructions
    def instr(self, fr, ins):
        o = ins['o']; ty = ins['ty']; c = self.c
        if o in ('call', 'invoke'): return self.do_call(fr, ins)
        r = self.ins1(fr, ins, o, ty)
        if r is not None: fr.vals[ins['id']] = r

    def ins1(self, fr, ins, o, ty):
        c = self.c
        a = [self.opval(fr, x) for x in ins['a']]
        if o == 'getelementptr':
            if ins.get('bad'): raise Unsupported('gep')
            p = a[0]
            if isinstance(p, Undef): return p
            off = add(p.off, K(64, ins['off']))
            for v, t, s in ins['idx']:
                x = self.opval(fr, v)
                if isinstance(x, Undef): return UNDEF
                if isinstance(x, Bdd): x = tovec(x, 64)
                if x.ring != 64: x = ext('sext', x, 64) if x.ring < 64 else trunc(x, 64)
                off = add(off, scale(x, s))
            return Ptr(p.base, off)
        if o == 'load': return self.load(ty, a[0])
        if o == 'store': self.store(ins['sty'], a[0], a[1]); return None
        if o == 'alloca':
            c.nalloca += 1
            n = a[0].const() if a else 1
            if n is None: raise Unsupported('dynamic alloca')
            b = ('alloca', c.nalloca)
            c.emit(TRUE, 'alloca', b, ins['sz'] * n)
            return Ptr(b, K(64, 0))
        if o == 'extractvalue':
            v = a[0]
            if isinstance(v, Undef): return v
            for i in ins['ix']: v = v.e[i]
            return v
        if o == 'insertvalue':
            def put(v, ix, x, t):
                if not ix: return x
                n = len(t) - 1 if t[0] == 'st' else t[1]
                e = list(v.e) if isinstance(v, Agg) else [UNDEF] * n
                st = t[1 + ix[0]][1] if t[0] == 'st' else t[3] if t[0] == 'arr' else t[2]
                e[ix[0]] = put(e[ix[0]], ix[1:], x, st)
                return Agg(e)
            return put(a[0], ins['ix'], a[1], ty)
        if o == 'select':
            if isinstance(a[0], Undef): return a[1]
            if isinstance(a[0], Agg): return Agg(ite(tobdd(x), y, z) for x, y, z in zip(a[0].e, a[1].e, a[2].e))
            return ite(tobdd(a[0]), a[1], a[2])
        if o == 'freeze': return a[0]
        if o == 'fence': return None
        if o == 'landingpad': return UNDEF
        if o == 'extractelement':
            if isinstance(a[0], Undef): return a[0]
            i = a[1].const()
            if i is None: raise Unsupported('extractelement')
            return a[0].e[i]
        if o == 'insertelement':
            e = list(a[0].e) if isinstance(a[0], Agg) else [UNDEF] * ty[1]
            i = a[2].const()
            if i is None: raise Unsupported('insertelement')
            e[i] = a[1]; return Agg(e)
        if o == 'shufflevector':
            n = ins['a'] and None
            e = []
            for i in range(2):
                e.append(a[i])
            def el(i):
                l = len(e[0].e) if isinstance(e[0], Agg) else len(e[1].e) if isinstance(e[1], Agg) else 0
                if i < 0 or l == 0: return UNDEF
                v = e[0] if i < l else e[1]
                return v.e[i % l] if isinstance(v, Agg) else UNDEF
            return Agg(el(i) for i in ins['ix'])
        if o == 'atomicrmw':
            old = self.load(ty, a[0])
            if isinstance(old, Undef): return old
            r = ins['rmw']
            nv = add(old, a[1]) if r == 'add' else sub(old, a[1]) if r == 'sub' else a[1] if r == 'xchg' else None
            if nv is None: raise Unsupported('atomicrmw ' + r)
            self.store(ty, nv, a[0]); return old
        # vector lifting
        if any(isinstance(x, Agg) for x in a) and o not in ('bitcast', 'insertvalue'):
            n = max(len(x.e) for x in a if isinstance(x, Agg))
            out = []
            ety = ty[2] if isinstance(ty, list) else ty
            sty = ins.get('sty')
            esty = sty[2] if isinstance(sty, list) and sty[0] == 'vec' else sty
            for i in range(n):
                xs = [x.e[i] if isinstance(x, Agg) else x for x in a]
                out.append(self.scalar(ins, o, ety, xs, esty))
            return Agg(out)
        return self.scalar(ins, o, ty, a, ins.get('sty'))

    def scalar(self, ins, o, ty, a, sty):
        if any(isinstance(x, Undef) for x in a): return UNDEF
        if o in ('add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor'):
            if ty == 'i1':
                x, y = tobdd(a[0]), tobdd(a[1])
                if o == 'and' or o == 'mul': return band(x, y)
                if o == 'or': return bor(x, y)
                if o in ('xor', 'add', 'sub'): return T.bxor(x, y)
                raise Unsupported('i1 ' + o)
            x, y = [self.p2i(v) if isinstance(v, Ptr) else tovec(v, RW[ty]) for v in a]
            if o == 'or' and ins.get('dj'): return add(x, y)
            if o in ('and', 'or', 'xor'):
                # bitwise operations on 0/1 conditional values
                bx, by = self.asbool(x), self.asbool(y)
                if bx is not None and by is not None:
                    f = {'and': band, 'or': bor, 'xor': T.bxor}[o](bx, by)
                    return tovec(f, RW[ty])
            # two float halves glued into an i64
            if o in ('or', 'add') and ty == 'i64' or o == 'or' and ins.get('dj'):
                pass
            return ibin(o, x, y)
        if o == 'fadd': return add(a[0], a[1])
        if o == 'fsub': return sub(a[0], a[1])
        if o == 'fmul': return fmul(a[0], a[1])
        if o == 'fdiv': return fdiv(a[0], a[1])
        if o == 'fneg': return neg(a[0])
        if o == 'frem': return A('f', 'call', 'fmod', a[0], a[1])
        if o == 'icmp': return icmp(ins['p'], *self.cmpargs(a))
        if o == 'fcmp': return fcmp(ins['p'], a[0], a[1])
        if o == 'trunc':
            return trunc(self.p2i(a[0]) if isinstance(a[0], Ptr) else a[0], RW[ty])
        if o in ('zext', 'sext'): return ext(o, a[0], RW[ty])
        if o == 'fptrunc' and ins.get('sty') == 'f64' and ins['ty'] == 'f32':
            if not any(x == self.c.loc for x in self.c.narrow): self.c.narrow.append(self.c.loc)
        if o in ('fpext', 'fptrunc'): return a[0]
        if o in ('uitofp', 'sitofp'): return i2f(o == 'sitofp', a[0])
        if o in ('fptosi', 'fptoui'):
            if a[0].isconst():
                return K(RW[ty], int(a[0].const()))
            s = a[0].single()
            if s is not None and akey(s)[0] == 'i2f' and akey(s)[2].ring == RW[ty]: return akey(s)[2]
            return A(RW[ty], 'f2i', RW[ty], 1 if o == 'fptosi' else 0, a[0])
        if o == 'ptrtoint':
            v = self.p2i(a[0]); return v if RW[ty] == 64 else trunc(v, RW[ty])
        if o == 'inttoptr': return self.i2p(a[0])
        if o == 'bitcast':
            v = self.bitcast(a[0], ty)
            if v is None: raise Unsupported('bitcast to %s' % (ty,))
            return v
        raise Unsupported('instruction ' + o)

    def asbool(self, x):
        if isinstance(x, Bdd): return x
        if x.isconst(): return TRUE if x.const() == 1 else FALSE if x.const() == 0 else None
        s = x.single()
        if s is not None and akey(s)[0] == 'mt':
            k = akey(s); h, l = self.asbool(k[2]), self.asbool(k[3])
            if h is not None and l is not None: return bite(bvar(k[1]), h, l)
        return None

    def cmpargs(self, a):
        x, y = a
        if isinstance(x, Ptr) and isinstance(y, Poly): y = self.i2p(y)
        if isinstance(y, Ptr) and isinstance(x, Poly): x = self.i2p(x)
        if isinstance(x, Ptr) and isinstance(y, Ptr):
            for p, q in ((x, y), (y, x)):
                if isinstance(p.base, tuple) and p.base[0] == 'psel': pass
        return x, y

    # ---------------- calls
    def do_call(self, fr, ins):
        c = self.c
        name = ins.get('fn'); ty = ins['ty']
        a = [self.opval(fr, x) for x in ins['a']]
        if name is None:
            fp = self.opval(fr, ins['fp'])
            if isinstance(fp, Ptr) and fp.base[0] == 'fn': name = fp.base[1]
            else:
                return self.virtual_call(fr, ins, fp, a)
        return self.named_call(fr, ins, name, a)

    def named_call(self, fr, ins, name, a):
        c = self.c; ty = ins['ty']
        def ret(v):
            if v is not None: fr.vals[ins['id']] = v
        hook = self.c.opts.get('calls', {}).get(name)
        if hook is not None:
            v = hook(self, ins, a)
            if v == 'NORET': return v
            return ret(v)
        if name.startswith('llvm.'): return ret(self.intrinsic(fr, ins, name, a))
        if name in NORET or name in self.c.opts.get('noret', ()):
            kind = name
            if name == '__cxa_throw':
                t = a[1]
                kind = 'throw ' + (t.base[1] if isinstance(t, Ptr) and len(t.base) > 1 else '?')
            c.emit(TRUE, 'abort', kind)
            return 'NORET'
        if name in self.m.fns and name not in self.c.opts.get('opaque', ()):
            fn = self.m.fns[name]
            bv = dict(ins.get('byval', []))
            for i, sz in bv.items():
                # callee works on its own copy
                c.nalloca += 1
                b = ('alloca', c.nalloca); c.emit(TRUE, 'alloca', b, sz)
                self.memcpy(Ptr(b, K(64, 0)), a[i], K(64, sz))
                a[i] = Ptr(b, K(64, 0))
            v = self.call_fn(fn, a)
            if ins.get('noret'): return 'NORET'
            return ret(v)
        if name in ('abs', 'labs', 'llabs') and isinstance(a[0], Poly):
            return ret(ite(icmp('slt', a[0], K(a[0].ring, 0)), neg(a[0]), a[0]))
        if name in MATH and ringof(ty) == 'f':
            return ret(self.mathcall(MATH[name], a))
        if name in ALLOC:
            return ret(self.alloc(ALLOC[name], a[0]))
        if name == 'posix_memalign':
            self.store('p', self.alloc('memalign', a[2]), a[0]); return ret(K(32, 0))
        if name in FREE:
            c.emit(TRUE, 'free', FREE[name], a[0], None); self.forget(a[0]); return
        if name in ('memcpy', 'memmove'): self.memcpy(a[0], a[1], a[2]); return ret(a[0])
        if name == 'memset': self.memset(a[0], a[1], a[2]); return ret(a[0])
        if name == 'strlen' and isinstance(a[0], Ptr) and a[0].base[0] == 'g' and a[0].off.isconst():
            # of a string constant
            for n in range(4096):
                b = self.gload(a[0].base[1], add(a[0].off, K(64, n)), 'i8')
                if not isinstance(b, Poly) or not b.isconst(): break
                if b.const() == 0: return ret(K(64, n))
        if name.startswith(MESSAGE):
            # the text of an exception: no part of what is compared
            if isinstance(a[0], Ptr) and a[0].base[0] not in ('null', 'fn'): self.note_write(a[0].base, None, 0); self.forget(a[0])
            return ret(UNDEF) if ty != 'v' else None
        if name == '__cxa_allocate_exception':
            return ret(self.alloc('exc', a[0]))
        if name == '__cxa_free_exception': return
        if name == 'vp_thread':
            if c.guard is not TRUE or not a[0].isconst(): raise Unsupported('conditional change of thread')
            c.thread = a[0].const(); return
        # the locks that order threads are decided by T01
        if name in ('pthread_mutex_lock', 'pthread_mutex_unlock'): return ret(K(32, 0))
        if name in ('__cxa_guard_acquire', '__cxa_guard_release'):
            mine = isinstance(a[0], Ptr) and a[0].base[0] == 'g' and any(pat in a[0].base[1] for pat in c.opts.get('first_use', ()))
            if name == '__cxa_guard_acquire': return ret(K(32, 1 if mine else 0))
            if mine: self.store('i8', K(8, 1), a[0])
            return
        if ins.get('rn'):
            args = [x for x in a]
            return ret(self.purecall(name, ty, args))
        if ins.get('noret'):
            c.emit(TRUE, 'abort', name); return 'NORET'
        ev = self.c.opts.get('events')
        if ev is not None and (ev is True or name in ev or any(name.startswith(e) for e in ev if e.endswith('*') and name.startswith(e[:-1]))):
            return ret(self.event(name, ty, a))
        raise Unsupported('call to ' + name)

    def event(self, name, ty, a):
        c = self.c
        c.ncall += 1
        v = None
        if ty != 'v':
            v = self.fresh(ty, 't', 'r%d' % c.ncall) if False else None
            c.nlet += 1
            v = self.fresh(ty, 't', c.nlet)
        # memory reachable through pointer arguments may change
        for x in a:
            if isinstance(x, Ptr) and x.base[0] not in ('null', 'fn') and not (x.base[0] == 'g' and self.m.globals.get(x.base[1], {}).get('const')):
                self.note_write(x.base, None, 0)
        c.emit(TRUE, 'event', name, tuple(a), v)
        return v

    def purecall(self, name, ty, a):
        if any(isinstance(x, Agg) for x in a): a = [y for x in a for y in (x.e if isinstance(x, Agg) else (x,))]
        if any(isinstance(x, Undef) for x in a): return UNDEF
        if ty == 'i1': return bvar(atom('callb', name, *a))
        if isinstance(ty, list):
            el = [ty[2]] * ty[1] if ty[0] == 'vec' else [e[1] for e in ty[1:]] if ty[0] == 'st' else [ty[3]] * ty[1]
            return Agg(self.purecall('%s.%d' % (name, i), t, a) for i, t in enumerate(el))
        r = ringof(ty)
        if r is None: raise Unsupported('pure call type')
        return A(r, 'call', name, *a)

    def mathcall(self, n, a):
        if any(isinstance(x, Undef) for x in a): return UNDEF
        if any(isinstance(x, Agg) for x in a):
            k = max(len(x.e) for x in a if isinstance(x, Agg))
            return Agg(self.mathcall(n, [x.e[i] if isinstance(x, Agg) else x for x in a]) for i in range(k))
        if n == 'fabs':
            if a[0].isconst(): return K('f', abs(a[0].const()))
            return ite(fcmp('olt', a[0], K('f', 0)), neg(a[0]), a[0])
        if n in ('fmin', 'fmax'):
            lt = fcmp('olt', a[0], a[1])
            return ite(lt, a[0], a[1]) if n == 'fmin' else ite(lt, a[1], a[0])
        if n == 'pow' and a[1].isconst() and a[1].const() == 2: return fmul(a[0], a[0])
        return A('f', 'call', n, *a)

    def intrinsic(self, fr, ins, name, a):
        ty = ins['ty']; b = name[5:]
        root = b.split('.')[0]
        if root == 'threadlocal':
            # the variable of the thread that runs ('vp_thread' in the obligation says which)
            t = self.c.thread
            return a[0] if t == 0 or not (isinstance(a[0], Ptr) and a[0].base[0] == 'g') else Ptr(('g', '%s@%d' % (a[0].base[1], t)), a[0].off)
        if root in ('umin', 'umax', 'smin', 'smax'):
            if any(isinstance(x, Undef) for x in a): return UNDEF
            if isinstance(a[0], Agg): return Agg(minmax(root, x, y) for x, y in zip(a[0].e, a[1].e))
            return self.mm(root, a[0], a[1])
        if root in ('sin', 'cos', 'sqrt', 'exp', 'log', 'log10', 'pow', 'fabs', 'floor', 'ceil', 'exp2', 'log2', 'rint', 'round', 'trunc', 'copysign', 'nearbyint'):
            return self.mathcall(root, a)
        if root in ('minnum', 'minimum'): return self.mathcall('fmin', a)
        if root in ('maxnum', 'maximum'): return self.mathcall('fmax', a)
        if root in ('fma', 'fmuladd'): return add(fmul(a[0], a[1]), a[2])
        if root == 'abs':
            x = a[0]
            return ite(icmp('slt', x, K(x.ring, 0)), neg(x), x)
        if root in ('memcpy', 'memmove'): self.memcpy(a[0], a[1], a[2], root == 'memmove'); return None
        if root == 'memset': self.memset(a[0], a[1], a[2]); return None
        if root in ('umul', 'uadd', 'usub', 'smul', 'sadd', 'ssub') and 'with.overflow' in b:
            op = root[1:]
            r = {'mul': mul, 'add': add, 'sub': sub}[op](a[0], a[1])
            ov = FALSE
            if root == 'usub': ov = icmp('ult', a[0], a[1])
            return Agg([r, ov])
        if root == 'usub' and 'sat' in b:
            return ite(icmp('ult', a[0], a[1]), K(a[0].ring, 0), sub(a[0], a[1]))
        if root == 'expect': return a[0]
        if root == 'is' or root == 'objectsize': return FALSE if ty == 'i1' else K(64, -1)
        if root == 'trap':
            self.c.emit(TRUE, 'abort', 'trap'); return None
        if root == 'ctpop' or root == 'ctlz' or root == 'cttz' or root == 'bswap' or root == 'fshl' or root == 'fshr' or root == 'bitreverse':
            if a[0].isconst() and root == 'ctpop': return K(a[0].ring, bin(a[0].const()).count('1'))
            return A(RW[ty], 'call', root, RW[ty], *[x for x in a if isinstance(x, Poly)])
        if root in ('stacksave', 'stackrestore', 'prefetch', 'eh', 'sideeffect', 'ubsantrap'): return UNDEF
        if root == 'vector' and 'reduce' in b:
            op = b.split('.')[2]
            if op in ('add', 'mul', 'xor', 'or', 'and'):
                v = a[0].e[0]
                for x in a[0].e[1:]: v = ibin(op, v, x) if isinstance(v, Poly) else {'or': bor, 'and': band}[op](v, x)
                return v
        raise Unsupported('intrinsic ' + name)

    def mm(self, op, a, b):
        return minmax(op, a, b)

    def alloc(self, kind, size):
        c = self.c
        c.nalloc += 1
        b = ('new', c.nalloc)
        c.emit(TRUE, 'alloc', b, kind, size)
        return Ptr(b, K(64, 0))

    def forget(self, p):
        c = self.c
        if isinstance(p, Ptr):
            c.cells.drop(p.base)

    def virtual_call(self, fr, ins, fp, a):
        "the default allocator is reached through a virtual call on a library global"
        c = self.c
        if isinstance(fp, Undef): c.emit(TRUE, 'abort', 'undef call'); return 'NORET'
        def ldp(p):
            if isinstance(p, Ptr) and p.base[0] == 'pv' and p.off.isconst():
                s = p.base[1].single()
                if s is not None and akey(s)[0] == 'ld': return Ptr(akey(s)[2], akey(s)[3])
                if s is not None and s in c.letdef: return c.letdef[s]
            return None
        if isinstance(fp.base, tuple) and fp.base[0] == 'psel':
            h = self.c.opts.get('vcalls')
            r = h(self, ins, a[0], None, 16 if len(a) == 2 else 24, a) if h is not None and a and isinstance(a[0], Ptr) else NotImplemented
            if r is NotImplemented: raise Unsupported('selected call target')
            if r is not None: fr.vals[ins['id']] = r
            return
        slot = ldp(fp)
        if slot is not None:
            obj = ldp(Ptr(slot.base, K(64, 0)))
            if obj is not None and (obj.base, obj.off) in c.vptr:
                # the dynamic type of a live object does not change: the vtable its constructor stored decides
                vt = c.vptr[(obj.base, obj.off)]
                t = self.gload(vt.base[1], add(vt.off, slot.off), 'p')
                if isinstance(t, Ptr) and t.base[0] == 'fn': return self.named_call(fr, ins, t.base[1], a)
            if obj is not None:
                n = T.sgn(slot.off.const(), 64) if slot.off.isconst() else None
                root = ldp(Ptr(obj.base, K(64, 0)))
                h = self.c.opts.get('vcalls')
                if h is not None:
                    r = h(self, ins, obj, root, n, a)
                    if r is not NotImplemented:
                        if r == 'NORET': return r
                        if r is not None: fr.vals[ins['id']] = r
                        return
        raise Unsupported('indirect call through %r of %r' % (fp, slot and ldp(Ptr(slot.base, K(64, 0)))))

    def memcpy(self, d, s, n, move=False):
        c = self.c
        if isinstance(n, Poly) and n.ring != 64: n = ext('zext', n, 64)
        if n.isconst() and n.const() == 0: return
        if isinstance(d, Undef) or isinstance(s, Undef): return
        k = n.const()
        if k is not None and k <= 256 and isinstance(d.base, tuple) and d.base[0] in ('alloca', 'new') or k is not None and k <= 64 \
                and isinstance(s.base, tuple) and s.base[0] in ('alloca',):
            # forward known cells of a small object
            src = []
            for (b, o, sz), v in list(c.cells.of(s.base).items()):
                if True:
                    x = sub(o, s.off).const()
                    if x is not None:
                        x = T.sgn(x, 64)
                        if x >= 0 and x + sz <= k: src.append((x, sz, v))
            self.note_write(d.base, d.off, k)
            c.emit(TRUE, 'cpy', d, s, n)
            for x, sz, v in src: c.cells[(d.base, add(d.off, K(64, x)), sz)] = v
            return
        if isinstance(s.base, tuple) and s.base[0] == 'psel' or isinstance(d.base, tuple) and d.base[0] == 'psel':
            pass
        self.note_write(d.base, None, 0)
        c.emit(TRUE, 'cpy', d, s, n)

    def memset(self, d, v, n):
        c = self.c
        if isinstance(n, Poly) and n.ring != 64: n = ext('zext', n, 64)
        if isinstance(d, Undef): return
        k = n.const()
        self.note_write(d.base, d.off if k is not None else None, k or 0)
        c.emit(TRUE, 'set', d, v, n)
        if k is not None and k <= 256 and isinstance(v, Poly) and v.isconst() and v.const() == 0:
            for o in range(0, k, 8):
                if o + 8 <= k: c.cells[(d.base, add(d.off, K(64, o)), 8)] = K(64, 0)

def free_iv(x):
    return any(akey(a)[0] in ('iv', 'phi') for a in free(x))

def _zerotrip(k, t, e):
    p = k[1]
    s = p.single()
    z = K(p.ring, 0)
    def fa(a):
        ka = akey(a)
        if ka[0] == 'psum' and _van(ka[2], p): return K(ka[3].ring, 0)
        if a == s: return z
        return None
    try:
        if rebuild(e, fa) is rebuild(t, lambda a: z if a == s else None): return e
    except Unsupported: pass
    return None

def _van(count, p):
    return Summariser.vanishes(None, count, p)
T.zerotrip_hook[0] = _zerotrip
