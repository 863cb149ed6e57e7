"An independent model of how a map lays global data out over processes, and generators over it."
import itertools
def dist(d, n):
    "per subblock: the global indices it holds, in local order, patch by patch"
    if d[0] == 'W': return [[list(range(n))]]
    if d[0] == 'B':
        k = d[1]; r = []; s = 0
        for j in range(k):
            l = n // k + (j < n % k); r.append([list(range(s, s + l))]); s += l
        return r
    k, c = d[1], d[2]; r = [[] for _ in range(k)]
    for j, s in enumerate(range(0, n, c)): r[j % k].append(list(range(s, min(s + c, n))))
    return r
def cpp(d): return {'W': 'Wh()', 'B': 'Bl(%s)', 'C': 'Cy(%s,%s)'}[d[0]] % tuple(d[1:])
CN = {'W': 'Wh', 'B': 'Bl', 'C': 'Cy'}
class M:
    "ds: one distribution per dimension; pv: processor of each subblock; repl: every processor of pv holds everything"
    def __init__(self, ds, pv=None, repl=False, local=False):
        self.ds = ds; self.repl = repl; self.local = local
        n = 1
        for d in ds:
            if d[0] != 'W': n *= d[1]
        self.nsb = n; self.pv = list(pv) if pv is not None else list(range(n)); self.own = pv is not None
    def name(self):
        if self.local: return 'L'
        if self.repl: return 'R' + ''.join(map(str, self.pv))
        return '_'.join(''.join(map(str, d)) for d in self.ds) + ('p' + ''.join(map(str, self.pv)) if self.own else '')
    def type(self):
        if self.local: return 'Local_map'
        if self.repl: return 'Replicated_map<%d>' % len(self.ds)
        return 'Map<%s>' % ','.join(CN[d[0]] for d in self.ds)
    def decl(self, v):
        "declaration of variable v of the map type"
        if self.local: return 'Local_map %s;' % v
        pv = ''
        if self.repl or self.own:
            pv = 'Vector<processor_type> %s_p(%d);' % (v, len(self.pv)) + ''.join('%s_p.put(%d,%d);' % (v, i, p) for i, p in enumerate(self.pv))
        if self.repl: return pv + '%s %s((%s_p));' % (self.type(), v, v)
        return pv + '%s %s(%s%s);' % (self.type(), v, (v + '_p,') if self.own else '', ','.join('(%s)' % cpp(d) for d in self.ds))
    def holds(self, P, sizes):
        "per process: list over dimensions of the list of patches (lists of global indices), or None"
        r = [None] * P
        if self.repl or self.local:
            for p in (range(P) if self.local else self.pv): r[p] = [[list(range(n))] for n in sizes]
            return r
        per = [dist(d, n) for d, n in zip(self.ds, sizes)]
        for sb, ix in enumerate(itertools.product(*[range(len(x)) for x in per])):
            r[self.pv[sb]] = [x[i] for x, i in zip(per, ix)]
        return r
    def where(self, P, sizes, order=None):
        "global index tuple -> list of (process, local offset); and the local sizes"
        order = order or tuple(range(len(sizes)))
        w = {}; ls = []
        for p, h in enumerate(self.holds(P, sizes)):
            if h is None: ls.append([0] * len(sizes)); continue
            fl = [sum(x, []) for x in h]; ln = [len(x) for x in fl]; ls.append(ln)
            for li in itertools.product(*[range(l) for l in ln]):
                o = 0
                for d in order: o = o * ln[d] + li[d]
                w.setdefault(tuple(f[i] for f, i in zip(fl, li)), []).append((p, o))
        return w, ls
def prod(l):
    r = 1
    for x in l: r *= x
    return r
ROW = {1: 'row1_type', 2: 'row2_type', 3: 'row3_type'}
OT = {(0,): 'row1_type', (0, 1): 'row2_type', (1, 0): 'col2_type', (0, 1, 2): 'row3_type', (2, 1, 0): 'col3_type', (1, 0, 2): 'tuple<1,0,2>', (0, 2, 1): 'tuple<0,2,1>', (1, 2, 0): 'tuple<1,2,0>', (2, 0, 1): 'tuple<2,0,1>'}
VN = {1: 'Vector', 2: 'Matrix', 3: 'Tensor'}
class A:
    "a distributed array of an obligation: argument names are <n>0, <n>1, ..., one per process"
    def __init__(self, n, T, m, P, sizes, order=None, const=False):
        self.n = n; self.T = T; self.m = m; self.P = P; self.sizes = sizes; self.order = tuple(order or range(len(sizes)))
        self.w, self.ls = m.where(P, sizes, self.order); self.dim = len(sizes)
    def args(self, dom=''): return [(self.T + '*', '%s%d' % (self.n, p), dom) for p in range(self.P)]
    def extent(self):
        sz = {'float': 4, 'double': 8, 'int': 4, 'cfloat': 8, 'cdouble': 16, 'bool': 1, 'char': 1, 'short': 2, 'long': 8}[self.T]
        return {'%s%d' % (self.n, p): str(sz * prod(self.ls[p])) for p in range(self.P)}
    def pre(self):
        "statements declaring map, block and view (user storage), admitted"
        n = self.n; dom = 'Domain<%d>(%s)' % (self.dim, ','.join(map(str, self.sizes)))
        return '''%s
 %s *%s_q[]={%s}; typedef Dense<%d,%s,%s,%s > %s_t; %s_t %s_b(%s,%s_q[pr_],%s_m); %s_b.admit(); %s<%s,%s_t> %s(%s_b);''' % (
            self.m.decl(n + '_m'), self.T, n, ','.join('%s%d' % (n, p) for p in range(self.P)), self.dim, self.T, OT[self.order], self.m.type(), n, n, n, dom, n, n, n, VN[self.dim], self.T, n, n, n)
    def post(self): return '%s_b.release(true);' % self.n
    def ref(self, g):
        "an element as any of its holders has it"
        p, o = self.w[tuple(g)][0]
        return '%s%d[%d]' % (self.n, p, o)
    def refs(self, g): return ['%s%d[%d]' % (self.n, p, o) for p, o in self.w[tuple(g)]]
    def same(self):
        "make the copies of a replicated array equal"
        if len({len(l) for l in self.w.values()}) == 1 and len(next(iter(self.w.values()))) == 1: return ''
        return ''.join('%s=%s;' % (x, self.ref(g)) for g in self.all() for x in self.refs(g)[1:])
    def all(self): return itertools.product(*[range(n) for n in self.sizes])
def par(P, arrays, body, rounds=2, again=False):
    "again: the body also reads what it writes, so every round starts from the original contents"
    keep = back = ''
    if again or rounds > 2:
        for a in arrays:
            for p in range(P):
                k = prod(a.ls[p])
                if not k: continue
                keep += '%s %s_k%d[%d]; for (int i_=0;i_<%d;++i_) %s_k%d[i_]=%s%d[i_];\n' % (a.T, a.n, p, k, k, a.n, p, a.n, p)
                back += 'if (pr_==%d) for (int i_=0;i_<%d;++i_) %s%d[i_]=%s_k%d[i_];\n' % (p, k, a.n, p, a.n, p)
    return keep + 'world(%d,[&](int pr_){ %s%s\n%s\n%s },%d);' % (P, back, '\n'.join(a.pre() for a in arrays), body, ' '.join(a.post() for a in arrays), rounds)
def assign(pairs, tmp):
    "element assignments, read before any is written"
    return ''.join('%s t_%d=%s;' % (tmp, i, s) for i, (d, s) in enumerate(pairs)) + ''.join('%s=t_%d;' % (x, i) for i, (d, s) in enumerate(pairs) for x in d)
