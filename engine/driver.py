"""Obligations: pairs of functions (what the library's templates compile to, and
what the property says) whose normal forms must agree."""
import os, signal, sys, json, subprocess, time, random, re, hashlib, tempfile, shutil, traceback
from concurrent.futures import ProcessPoolExecutor, ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
import terms as T, nf, canon, evalnf
from terms import K, A, Ptr, Unsupported

CT = {'float': 'f32', 'double': 'f64', 'int': 'i32', 'unsigned': 'i32', 'long': 'i64', 'ulong': 'i64', 'bool': 'i1', 'short': 'i16', 'char': 'i8',
      'uchar': 'i8', 'length_type': 'i64', 'index_type': 'i64', 'stride_type': 'i64', 'i1': 'i1', 'dimension_type': 'i32'}
CPP = {'ulong': 'unsigned long', 'uchar': 'unsigned char', 'length_type': 'vsip::length_type', 'index_type': 'vsip::index_type', 'stride_type': 'vsip::stride_type',
       'cfloat': 'std::complex<float>', 'cdouble': 'std::complex<double>', 'dimension_type': 'unsigned int'}
ELEM = {'float': 'f32', 'double': 'f64', 'int': 'i32', 'unsigned': 'u32', 'long': 'i64', 'ulong': 'u64', 'bool': 'b', 'short': 'i16', 'char': 'i8', 'uchar': 'u8',
        'cfloat': 'f32', 'cdouble': 'f64', 'length_type': 'u64', 'index_type': 'u64', 'stride_type': 'i64'}

class Ob(object):
    """One obligation.  args: list of (ctype, name, domain).  Pointer domain:
    '' or 'lo..hi' or '{a,b}' element values; scalar domain: Python expression over
    r(lo,hi), ch([..]) and earlier argument names."""
    def __init__(self, id, args, impl, spec, ret='void', n=24, what='', extent=None, opts=None, where=None, tol=1e-4, unit=None):
        self.id = id; self.args = args; self.impl = impl; self.spec = spec; self.ret = ret; self.n = n
        self.what = what; self.extent = extent or {}; self.opts = opts or {}; self.where = where; self.tol = tol; self.unit = unit
    def sig(self, suffix):
        l = []
        for ct, n, d in self.args:
            if ct.endswith('*'):
                b = ct[:-1]; c = ''
                if b.startswith('const '): b = b[6:]; c = 'const '
                l.append('%s%s *__restrict %s' % (c, CPP.get(b, b), n))
            else: l.append('%s %s' % (CPP.get(ct, ct), n))
        return 'extern "C" %s %s__%s(%s)' % (CPP.get(self.ret, self.ret), self.id, suffix, ', '.join(l))
    def text(self):
        return '%s\n{ %s }\n%s\n{ %s }\n' % (self.sig('impl'), self.impl, self.sig('spec'), self.spec)

class TU(object):
    def __init__(self, name, prelude, obs, flags=(), opts=None):
        self.name = name; self.prelude = prelude; self.obs = obs; self.flags = list(flags); self.opts = opts or {}

def include_flags():
    f = []
    if os.path.exists(REPO + '/_build/src/ovxx/detail/config.hpp'): f.append('-I' + REPO + '/_build/src')
    else: f.append('-I' + HERE + '/fallback')
    f += ['-I' + REPO + '/src', '-I' + REPO + '/support', '-I' + HERE + '/witness', '-DOMPI_SKIP_MPICXX',
          '-I/usr/lib/x86_64-linux-gnu/openmpi/include', '-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi']
    return f

CFLAGS = ['-w', '-std=gnu++14', '-O2', '-DNDEBUG', '-fno-vectorize', '-fno-slp-vectorize', '-mllvm', '-unroll-runtime=false', '-mllvm', '-unroll-allow-partial=false',
          '-mllvm', '-inline-threshold=100000', '-mllvm', '-inlinecold-threshold=100000', '-ffp-contract=off', '-fno-builtin', '-fno-math-errno', '-fcx-limited-range',
          '-fno-discard-value-names', '-gline-tables-only', '-emit-llvm', '-c']

class Broken(Exception): pass

def irdump_path():
    p = os.path.join(HERE, 'build', 'irdump')
    src = os.path.join(HERE, 'irdump.cpp')
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src): build_irdump(p, src)
    return p

def lockset_path():
    p = os.path.join(HERE, 'build', 'lockset'); src = os.path.join(HERE, 'lockset.cpp')
    if not os.path.exists(p) or os.path.getmtime(p) < os.path.getmtime(src): build_irdump(p, src)
    return p

def build_irdump(p, src):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    ll = '/usr/lib/llvm-18/bin/llvm-config'
    cf = subprocess.check_output([ll, '--cxxflags'], text=True).split()
    cf = [x for x in cf if not x.startswith('-std=') and x not in ('-fno-exceptions',)]
    lf = subprocess.check_output([ll, '--ldflags', '--libs'], text=True).split()
    tmp = '%s.%d' % (p, os.getpid())
    subprocess.check_call(['g++', '-w', '-O1', '-std=c++17', src] + cf + ['-fexceptions'] + lf + ['-o', tmp])
    os.replace(tmp, p)

def compile_module(text, name, flags, wd, cflags=None):
    src = os.path.join(wd, name + '.cpp'); bc = os.path.join(wd, name + '.bc')
    with open(src, 'w') as f: f.write(text)
    cf = list(cflags or CFLAGS)
    for f in flags:
        # '@inline=n': leave more of the calls to the summariser (large translation units)
        if f.startswith('@inline='): cf = ['-inline-threshold=' + f[8:] if x.startswith('-inline-threshold=') else x for x in cf]
    cmd = ['clang++-18'] + include_flags() + cf + [f for f in flags if f[0] != '@'] + [src, '-o', bc]
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    if p.returncode:
        raise Broken('compilation of %s failed:\n%s' % (name, p.stdout[:6000]))
    out = subprocess.run([irdump_path(), bc], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if out.returncode: raise Broken('irdump failed on %s: %s' % (name, out.stderr[:2000]))
    js = json.loads(out.stdout)
    os.unlink(bc)
    return nf.Module(js)

def default_vcalls(S, ins, obj, root, n, a):
    "ovxx::allocator virtual interface: slot 2 allocate(size), slot 3 deallocate(p, size)"
    if root is not None and root.base == ('g', '_ZN4ovxx9allocator8default_E'):
        if n == 16: return S.alloc('ovxx', a[1])
        if n == 24:
            S.c.emit(T.TRUE, 'free', 'ovxx', a[1], a[2]); S.forget(a[1]); return None
    # an allocator that has been read back from a block: that it is the default one is left to the evaluation
    here = any(f.endswith('ovxx/allocator.hpp') for f, l, fn in (S.c.loc or ())[:2])
    if here and a and isinstance(a[0], Ptr) and ((n == 16 and len(a) == 2) or (n == 24 and len(a) == 3)):
        d = S.ldterm('p', ('g', '_ZN4ovxx9allocator8default_E'), T.K(64, 0))
        c = T.bnot(T.icmp('eq', a[0], d))
        if c is not T.FALSE: S.c.emit(c, 'abort', 'LIMIT unknown allocator')
        if n == 16: return S.alloc('ovxx', a[1])
        S.c.emit(T.TRUE, 'free', 'ovxx', a[1], a[2]); S.forget(a[1]); return None
    return NotImplemented

def parse_elem(ct, dom):
    b = ct[:-1].replace('const ', '').strip()
    e = ELEM[b]
    dom = (dom or '').strip()
    if dom.startswith('{'): return (e, None, None, [conv(x, e) for x in dom[1:-1].split(',')])
    if '..' in dom:
        lo, hi = dom.split('..'); return (e, conv(lo, e), conv(hi, e), None)
    return (e, None, None, None)

def conv(x, e): return float(x) if e[0] == 'f' else int(x)

FLOATY = re.compile(r'float|fftw?f')

LIMIT = 120
class Late(BaseException): pass
def late(*a): raise Late()

def run_ob(mod, ob, tuopts, seed, verdict_only=False):
    "verdict for one obligation: (status, detail dict)"
    opts = dict(calls={}, vcalls=default_vcalls); opts.update(tuopts); opts.update(ob.opts); ob.eopts = opts
    args = []; types = {}; syms = []; T.SHARE = opts.get('share', 0)
    for i, (ct, n, d) in enumerate(ob.args):
        if ct.endswith('*'):
            args.append(Ptr(('arg', i), K(64, 0))); types[('arg', i)] = parse_elem(ct, d)
        else:
            ty = CT[ct]
            if ty == 'i1': args.append(T.bvar(T.atom('arg', i)))
            elif ty in ('f32', 'f64'): args.append(A('f', 'arg', i))
            else: args.append(A(nf.RW[ty], 'arg', i))
    sides = {}
    for w in ('impl', 'spec'):
        name = '%s__%s' % (ob.id, w)
        if name not in mod.fns: raise Broken('function %s vanished' % name)
        fn = mod.fns[name]
        if len(fn.args) != len(args): raise Broken('%s: unexpected signature' % name)
        S = nf.Summariser(mod, opts)
        try: sides[w] = S.summarise(name, args)
        except Unsupported as e: return 'UNDECIDED', dict(side=w, why=str(e)[:300], loc=locstr(S.c.loc))
        except RecursionError: return 'UNDECIDED', dict(side=w, why='recursion')
        sides[w + 'stats'] = S.c.steps
        if w == 'impl' and S.c.narrow and not FLOATY.search(' '.join(a[0] for a in ob.args) + ' ' + ob.impl + ' ' + (ob.ret or '')):
            return 'DIFFER', dict(why='an obligation over double values rounds an intermediate result to float', loc=locstr(S.c.narrow[0]), sites=[locstr(x) for x in S.c.narrow[:5]])
    try:
        ci = canon.canon(sides['impl'][0], sides['impl'][1], types)
        cs = canon.canon(sides['spec'][0], sides['spec'][1], types)
        eq = canon.same(ci[0], ci[1], cs[0], cs[1])
    except Unsupported as e:
        ci = sides['impl']; cs = sides['spec']; eq = False
    d = dict(size=sum(1 for _ in canon.walk(ci[0])), steps=sides['implstats'])
    if eq: return 'PROVED', d
    # separate the two normal forms, or fail to
    rng = random.Random(hash_s(ob.id) ^ seed)
    want = ob.n * SCALE
    agree = 0; lim = None; vals = []
    # after the points of the stated domain, points in which one size leaves the usual small range
    wide = [i for i, (ct, n, dm) in enumerate(ob.args) if ct == 'length_type' and re.match(r'r\(\d+,\d+\)$', dm or '')] if not opts.get('nowiden') else []
    total = want + (min(10, max(4, want // 4)) * (2 if SCALE > 1 else 1) if wide else 0)
    for t in range(total * 20):
        if agree >= total: break
        env = {}
        wi = rng.choice(wide) if wide and agree >= want else None
        g = dict(r=lambda a, b: rng.randint(a, b) if a <= b else a, ch=lambda l: rng.choice(l), fr=lambda a, b: round((a + (b - a) * rng.random()) * 64) / 64.0, min=min, max=max, abs=abs, t=agree)
        av = []
        try:
            for i, (ct, n, dm) in enumerate(ob.args):
                if ct.endswith('*'): av.append(None); continue
                ty = CT[ct]
                if i == wi:
                    lo, hi = [int(x) for x in re.findall(r'\d+', dm)]; dm = 'r(%d,%d)' % (lo, 4 * hi + 3)
                v = eval(dm, g, env) if dm else (rng.randint(-20, 20) / 4.0 if ty[0] == 'f' else 1)
                if isinstance(v, (set, frozenset)): v = rng.choice(sorted(v))
                env[n] = v
                if ty in ('f32', 'f64'): v = float(v)
                elif ty == 'i1': v = bool(v)
                else: v = int(v) % (1 << nf.RW[ty])
                av.append(v)
            if ob.where and not eval(ob.where, g, env): continue
        except Exception as e: raise Broken('domain of %s: %r' % (ob.id, e))
        eo = dict(opts.get('eval', {}))
        ext = {}
        for i, (ct, n, dm) in enumerate(ob.args):
            if n in ob.extent:
                ext[('arg', i)] = int(eval(ob.extent[n], g, env))
        if ext: eo['extent'] = ext
        s = seed * 1000003 + t
        try:
            r = {}
            for w in ('impl', 'spec'):
                r[w] = evalnf.observe(sides[w][0], sides[w][1], s, av, types, eo)
        except evalnf.Limit as e:
            lim = str(e); agree += 0
            if t > total * 3: break
            continue
        diff = compare(r['impl'], r['spec'], ob)
        if diff:
            d.update(why=diff, valuation={n: env.get(n) for ct, n, dm in ob.args if not ct.endswith('*')}, seed=s,
                     loc=locstr(r['impl'][0].lastloc), impl=[canon.tup(x) for x in ci[0]][:40], spec=[canon.tup(x) for x in cs[0]][:40],
                     iret=T.show(ci[1]) if not isinstance(ci[1], T.Undef) else None, sret=T.show(cs[1]) if not isinstance(cs[1], T.Undef) else None, sites=sites(ci[0], cs[0]))
            return 'DIFFER', d
        sx = r['spec'][1]
        if sx is not None and not sx.startswith('abort'):
            # two identical bad accesses say nothing: the reference must be well defined
            lim = 'the specification itself stops: ' + sx
            if t > total * 3: break
            continue
        agree += 1
    if agree == 0: return 'UNDECIDED', dict(why='no common point evaluated: %s' % lim)
    d['points'] = agree
    d['impl'] = [canon.tup(x) for x in ci[0]][:6]; d['spec'] = [canon.tup(x) for x in cs[0]][:6]
    d['iret'] = T.show(ci[1]) if not isinstance(ci[1], T.Undef) else None; d['sret'] = T.show(cs[1]) if not isinstance(cs[1], T.Undef) else None
    return 'AGREE', d

def sites(a, b):
    "source constructs of impl statements that have no counterpart in the specification"
    kb = set()
    for s in canon.walk(b):
        try: kb.add(canon.key(s))
        except TypeError: pass
    out = []
    for s in canon.walk(a):
        if s.k == 'loop': continue
        try:
            if canon.key(s) in kb: continue
        except TypeError: continue
        l = locstr(s.l)
        if l and l not in out: out.append(l)
    return out[:5]

def hash_s(s): return int(hashlib.md5(s.encode()).hexdigest()[:8], 16)

def locstr(l):
    if not l: return None
    return ' < '.join('%s:%d (%s)' % (f.split('/repo/')[-1] if '/repo/' in f else os.path.relpath(f, REPO) if f.startswith(REPO) else f, n, fn) for f, n, fn in l if 'verif' not in f)[:600]

def compare(x, y, ob):
    ex, sx, rx, lx = x; ey, sy, ry, ly = y
    if (sx is None) != (sy is None) or (sx is not None and sx != sy and not (sx.startswith('abort') and sy.startswith('abort') and ob.opts.get('anyabort'))):
        return 'library: %s; specification: %s' % (sx or 'completes', sy or 'completes')
    if lx != ly: return 'storage still allocated on return: library %s, specification %s' % (lx, ly)
    if sx is None:
        if not evalnf.close(rx, ry, ob.tol): return 'result: library %r, specification %r' % (rx, ry)
    tx = [(n, v) for n, v in ex.trace]; ty = [(n, v) for n, v in ey.trace]
    if len(tx) != len(ty): return 'calls: library %s; specification %s' % (short(tx), short(ty))
    for p, q in zip(tx, ty):
        if p[0] != q[0] or not evalnf.close(p[1], q[1], ob.tol): return 'call: library %s; specification %s' % (short(p), short(q))
    objs = set(o for e in (ex, ey) for o in e.m.written if o[0] in ('arg', 'g', 'gobj'))
    # the witness's own bookkeeping is nobody's behaviour
    ghost = ob.eopts.get('ghost', ())
    for o in sorted(objs, key=repr):
        if o[0] == 'g' and any(x in o[1] for x in ghost): continue
        offs = ex.m.written.get(o, set()) | ey.m.written.get(o, set())
        for off in sorted(offs):
            t = ex.m.types.get(o)
            if t:
                sz = {'f32': 4, 'f64': 8, 'i32': 4, 'u32': 4, 'i64': 8, 'u64': 8, 'i8': 1, 'u8': 1, 'b': 1, 'i16': 2, 'u16': 2}[t[0]]
                ty = canon.ETY[t[0]]; off = off // sz * sz
            else:
                c = ex.m.cells.get(o, {}).get(off) or ey.m.cells.get(o, {}).get(off); sz = c[0] if c else 8; ty = 'i%d' % (8 * sz)
            try: a = ex.m.load(ty, evalnf.RP(o, off)); b = ey.m.load(ty, evalnf.RP(o, off))
            except evalnf.Stop: continue
            if not evalnf.close(a, b, ob.tol):
                nm = ob.args[o[1]][1] if o[0] == 'arg' else o[1]
                return '%s[element %d]: library %r, specification %r' % (nm, off // sz, a, b)
    return None

def short(x):
    s = repr(x); return s if len(s) < 300 else s[:300] + '...'

SCALE = 1
def do_tu(job):
    global SCALE
    tu, seed, wd, SCALE = job
    t0 = time.time()
    T.reset()
    text = tu.prelude + '\n' + ''.join('#line 1 "%s"\n%s' % (o.id, o.text()) for o in tu.obs)
    try: mod = compile_module(text, tu.name, tu.flags, wd)
    except Broken as e:
        if len(tu.obs) == 1:
            o = tu.obs[0]; st = 'BROKEN'; why = str(e)
            if tu.opts.get('compiles'):
                # a program written against the documented interface: that it is accepted is part of the property,
                # provided the rest of the unit still is
                try:
                    alone = Ob(o.id, o.args, o.spec, o.spec, o.ret)
                    compile_module(tu.prelude + '\n' + alone.text(), tu.name + '_a', tu.flags, wd)
                    err = re.search(r'(\S+:\d+:\d+: (?:fatal )?error: .*)', why)
                    st = 'DIFFER'; why = 'a program using the documented interface does not compile: %s' % (err.group(1)[:300] if err else why[:300])
                except Broken: pass
            return tu.name, [(o.id, st, dict(why=why, what=o.what))], time.time() - t0
        out = []            # find out which obligations no longer compile; the others are still decided
        h = len(tu.obs) // 2
        for i, part in enumerate((tu.obs[:h], tu.obs[h:])):
            out += do_tu((TU('%s_%d' % (tu.name, i), tu.prelude, part, tu.flags, tu.opts), seed, wd, SCALE))[1]
        return tu.name, out, time.time() - t0
    except subprocess.TimeoutExpired: return tu.name, [(o.id, 'BROKEN', dict(why='compiler timeout')) for o in tu.obs], time.time() - t0
    res = []
    for o in tu.obs:
        signal.signal(signal.SIGALRM, late); signal.alarm(LIMIT if SCALE == 1 else 3 * LIMIT)
        try: st, d = run_ob(mod, o, tu.opts, seed)
        except Late: st, d = 'UNDECIDED', dict(why='time limit')
        except Broken as e: st, d = 'BROKEN', dict(why=str(e))
        except Exception as e: st, d = 'UNDECIDED', dict(why='engine: %r' % e, tb=traceback.format_exc()[-1500:])
        finally: signal.alarm(0)
        d['what'] = o.what
        res.append((o.id, st, d))
    return tu.name, res, time.time() - t0

def run_tus(tus, seed, jobs=8, scale=1):
    irdump_path()
    wd = tempfile.mkdtemp(prefix='vpnf.')
    try:
        out = []
        with ProcessPoolExecutor(max_workers=jobs) as ex:
            for name, res, t in ex.map(do_tu, [(t, seed, wd, scale) for t in tus]):
                out.append((name, res, t))
        return out
    finally: shutil.rmtree(wd, ignore_errors=True)

if __name__ == '__main__': print(irdump_path(), lockset_path())
