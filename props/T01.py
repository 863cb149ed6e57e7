"""State shared by threads. The library's own sources and a program that instantiates its templates are linked as LLVM IR; for every variable with
static storage, for the state behind FFTW's planner and the MPI environment, and for the counts of references, the analysis computes which locks are
held at each access (a must-analysis over the control-flow graph, with the locks held on entry to internal functions taken from all their callers) and
requires any two conflicting accesses to have a lock, the one-time guard of the variable's initialization, or atomicity in common."""
from vp import *
import subprocess, tempfile, shutil, json, re, glob
LEVEL = 'proof'
RULE = ('every access to a variable shared by threads is ordered by a common lock, by one-time initialization, or is atomic; what a thread wrote before it gave up its reference is visible to '
        'the thread that destroys the object (release on decrement, acquire before destruction); locks are taken in one order, never twice, and released on every way out')
ASSUME = ['clang 18 -disable-llvm-passes IR of this tree; functions of the C++ library and those that take or release locks are inlined first',
          'a function that is defined in a header or has no caller in the analysed modules may be called by any thread with no lock held; others are called as they are here',
          'objects reached through pointers are not tracked, except the reference counts; MPI is used by one thread at a time outside initialization']
WIT = r'''
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/map.hpp>
#include <vsip/parallel.hpp>
#include <vsip/selgen.hpp>
#include <vsip/math.hpp>
#include <vsip/signal.hpp>
#include <vsip/solvers.hpp>
#include <vsip/random.hpp>
#include <vsip/dda.hpp>
#include <vsip/serialization.hpp>
#include <ovxx/output.hpp>
#include <ovxx/view/cast.hpp>
#include <ovxx/view/utils.hpp>
#include <ovxx/timer.hpp>
#include <ovxx/check_config.hpp>
#include <ovxx/type_name.hpp>
#include <ovxx/parallel/util.hpp>
#include <ovxx/signal/fft/dft.hpp>
#include <ovxx/huge_page_allocator.hpp>
#include <iostream>
using namespace vsip;
typedef std::complex<float> C; typedef std::complex<double> Z;
#define T01 extern "C" void
T01 t_elem(Vector<float> a, Vector<float> b, Matrix<C> c, Tensor<double> t) { a = b*2.f+sin(b)-max(a,b); c = conj(c)*c; t = t+1.; a.put(0, sumval(b)+meanval(a)); Index<1> i; a.put(1, maxval(b, i)); Index<2> j; b.put(0, maxmgval(c, j));}
T01 t_sub(Vector<float> a, Matrix<float> m, Tensor<float> t) { a(Domain<1>(2)) = m.row(0)(Domain<1>(2)); m.transpose() = m; m.diag() = a; t(0, whole_domain, whole_domain) = m; t.transpose<1,0,2>() = t;}
T01 t_bool(Vector<bool> a, Vector<bool> b) { if (alltrue(a) || anytrue(b)) a = b; Vector<Index<1> > ix(4); indexbool(a, ix);}
T01 t_selgen(Vector<float> a, Vector<index_type> ix) { a = ramp<float>(0,1,4); first(0, std::less<float>(), a, a); clip(a,0.f,1.f,0.f,1.f); invclip(a,0.f,1.f,2.f,0.f,1.f); swap<float>(a,a); Vector<Index<1> > x(4); gather(a, x); scatter(a, x, a);}
T01 t_matvec(Matrix<float> a, Matrix<float> b, Vector<float> v, Matrix<C> c) { a = prod(a,b); b = prodt(a,b); v = prod(a,v); a = outer(1.f,v,v); c = prodh(c,c); v.put(0,dot(v,v)); gemp<mat_ntrans,mat_ntrans>(1.f,a,b,0.f,a); gems<mat_ntrans>(1.f,a,0.f,b); cumsum<0>(v,v); modulate(v, 1.f,1.f,Vector<C>(4)); a = vmmul<0>(v,a); a = trans(b); c = herm(c); a = kron(1.f,a,b);}
T01 t_map(Vector<float, Dense<1,float,row1_type,Map<> > > a, Vector<float, Dense<1,float,row1_type,Map<Cyclic_dist> > > b, Matrix<C, Dense<2,C,row2_type,Map<> > > m) { a = b; a = a*2.f; a.put(1,sumval(b)); m = m; m.local() = m.local(); Index<1> i; maxval(a,i); Vector<bool, Dense<1,bool,row1_type,Map<> > > x(4); alltrue(x); Vector<float, Dense<1,float,row1_type,Replicated_map<1> > > r(4); r = a; Vector<float> l(4); const_Vector<processor_type> p = processor_set(); l.put(0,p.get(0)+num_processors()+local_processor());}
template <typename T> void ffts(Vector<std::complex<T> > c, Vector<T> r, Matrix<std::complex<T> > m, Matrix<T> mr)
{
  typedef std::complex<T> X;
  Fft<const_Vector,X,X,fft_fwd,by_reference> f(Domain<1>(64),1); f(c,c); f(c); Fft<const_Vector,X,X,fft_inv,by_value> fi(Domain<1>(64),1); c = fi(c);
  Fft<const_Vector,T,X,0,by_reference> rc(Domain<1>(64),1); rc(r,c); Fft<const_Vector,X,T,0,by_value> cr(Domain<1>(64),1); r = cr(c);
  Fft<const_Matrix,X,X,fft_fwd,by_reference> f2(Domain<2>(8,8),1); f2(m,m); Fft<const_Matrix,T,X,1,by_reference> rc2(Domain<2>(8,8),1); rc2(mr,m);
  Fftm<X,X,row,fft_fwd,by_reference> fm(Domain<2>(8,8),1); fm(m,m); Fftm<X,X,col,fft_inv,by_value> fv(Domain<2>(8,8),1); m = fv(m); Fftm<T,X,row,fft_fwd,by_value> fr(Domain<2>(8,8),1); m = fr(mr);
}
T01 t_fft(Vector<C> c, Vector<float> r, Matrix<C> m, Matrix<float> mr, Vector<Z> cz, Vector<double> rz, Matrix<Z> mz, Matrix<double> mrz) { ffts<float>(c,r,m,mr); ffts<double>(cz,rz,mz,mrz);}
T01 t_signal(Vector<float> a, Vector<C> c, Matrix<float> m)
{
  Convolution<const_Vector,nonsym,support_full,float> cv(a,Domain<1>(8),1); cv(a,a); Convolution<const_Matrix,nonsym,support_same,float> c2(m,Domain<2>(8,8),1); c2(m,m);
  Correlation<const_Vector,support_full,float> co(Domain<1>(4),Domain<1>(8)); co(biased,a,a,a); Fir<float,nonsym,state_save> f(a,8,1); f(a,a); Iir<float,state_save> ii(m,m,8); ii(a,a);
  Histogram<const_Vector,float> h(0.f,1.f,4); Vector<scalar_i> v(4); v = h(a); a = hanning(8); a = kaiser(8,1.f); a = blackman(8); a = cheby(8,100.f); a = freqswap(a); m = freqswap(m);
}
T01 t_solve(Matrix<float> a, Matrix<C> b, Vector<float> v, Matrix<double> d)
{
  lud<float,by_reference> l(4); l.decompose(a); l.solve<mat_ntrans>(a,a); chold<C,by_reference> c(lower,4); c.decompose(b); c.solve(b,b); qrd<float,by_reference> q(4,4,qrd_saveq); q.decompose(a); q.lsqsol(a,a);
  svd<double,by_reference> s(4,4,svd_uvfull,svd_uvfull); Vector<double> sv(4); s.decompose(d,sv); s.u(0,3,d); toepsol(v,v,v,v); covsol(a,a,a); llsqsol(a,a,a);
}
T01 t_rand(Vector<float> a, Vector<C> c) { Rand<float> r(0,1,1,1); a.put(0,r.randu()+r.randn()); a = r.randu(4); Rand<C> q(0); c = q.randn(4);}
T01 t_dda(Vector<float> a, Matrix<float> m, float *p) { dda::Data<Vector<float>::block_type,dda::in> d(a.block()); p[0] = d.ptr()[0]; dda::Data<Matrix<float>::block_type,dda::inout> e(m.block()); e.ptr()[0] = p[1]; Dense<1,float> u(Domain<1>(4),p); u.admit(true); u.release(true); u.rebind(p); std::cout << a << m;}
T01 t_alloc(ovxx::refcounted_ptr<ovxx::stored_block<float,Layout<1,row1_type,dense> > > a, ovxx::refcounted_ptr<ovxx::stored_block<float,Layout<1,row1_type,dense> > > b) { a = b; ovxx::aligned_array<float> x(8); ovxx::library l; Index<1> i; ovxx::mpi::Datatype<Index<2> >::value(); ovxx::mpi::Datatype<bool>::value();}
T01 t_timer(double &d) { ovxx::timer t; d = t.elapsed();}
'''
GROUPS = ['calls=the planner of FFTW (float):fftwf_plan_,fftwf_destroy_plan,fftwf_init_threads,fftwf_cleanup,fftwf_import,fftwf_forget',
          'calls=the planner of FFTW (double):fftw_plan_,fftw_destroy_plan,fftw_init_threads,fftw_cleanup,fftw_import,fftw_forget',
          'calls=the MPI environment:MPI_Init$,MPI_Init_thread$,MPI_Finalize$,MPI_Buffer_attach$,MPI_Buffer_detach$',
          'calls=the C library\'s hidden state:strtok$,rand$,srand$,random$,drand48$,localtime$,gmtime$,asctime$,ctime$,setenv$,putenv$',
          'field=class.ovxx::refcounted:0']
FL = ['-w', '-std=gnu++14', '-O1', '-Xclang', '-disable-llvm-passes', '-g', '-DNDEBUG', '-emit-llvm', '-c']
INV = ('match varDecl(hasStaticStorageDuration(), unless(isConstexpr()), unless(hasType(qualType(isConstQualified()))), unless(parmVarDecl()), isExpansionInFileMatching("/src/(vsip|ovxx)/")).bind("v")')
def sources():
    l = [REPO + '/src/ovxx/' + f for f in ('library.cpp', 'allocator.cpp', 'chrono.cpp', 'check_config.cpp', 'fftw/fft.cpp', 'parallel/copy_chain.cpp', 'signal/window.cpp')]
    l += sorted(glob.glob(REPO + '/src/ovxx/mpi/*.cpp'))
    return [f for f in l if os.path.exists(f)]
def cid(s): return re.sub(r'_+', '_', re.sub(r'\W+', '_', s))[:80].strip('_')
def analyses(tier):
    wd = tempfile.mkdtemp(prefix='vpt01')
    try: return run(wd)
    finally: shutil.rmtree(wd, ignore_errors=True)
def run(wd):
    res = []
    wit = os.path.join(wd, 'threads.cpp'); open(wit, 'w').write(WIT)
    jobs = []
    for i, f in enumerate(sources() + [wit]):
        bc = os.path.join(wd, 'm%d.bc' % i)
        jobs.append((f, bc, subprocess.Popen(['clang++-18'] + include_flags() + FL + [f, '-o', bc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    inv = [(f, subprocess.Popen(['clang-query', '-c', 'set output diag', '-c', INV, f, '--'] + include_flags() + ['-std=gnu++14', '-w'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)) for f in sources() + [wit]]
    bcs = []
    for f, bc, p in jobs:
        out = p.communicate()[0]
        if p.returncode: res.append(dict(id='compile_' + cid(os.path.basename(f)), kind='input', status='BROKEN', detail=dict(why='%s does not compile: %s' % (f, out[:1500])))); continue
        bcs.append(bc)
    if len(bcs) < len(jobs): return res
    p = subprocess.run([lockset_path()] + bcs + ['--'] + GROUPS, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if p.returncode: return [dict(id='analysis', kind='lockset', status='BROKEN', detail=dict(why='lockset failed: ' + p.stderr[:1500]))]
    d = json.loads(p.stdout)
    COVERAGE.update(functions=d['functions'], call_sites=d['calls'], memory_accesses=d['memory'], lock_sites=d['locks'], per_thread=d['threadlocal'], modules=[os.path.relpath(f, REPO) if f.startswith(REPO) else 'witness program' for f, b, q in jobs])
    ids = {}
    def add(i, kind, ok, what, why, **k):
        i = cid(i); n = ids.get(i, 0); ids[i] = n + 1
        res.append(dict(id=i + ('_%d' % n if n else ''), kind=kind, status='PROVED' if ok else 'DIFFER', detail=dict(what=what, why=why, **k)))
    nacc = 0
    for o in d['objects']:
        nacc += len(o['accesses'])
        name = o['name'].replace('calls:', '').replace('field:class.ovxx::refcounted:0', 'the count of references of an object')
        add('shared_' + name, 'lockset', o['verdict'] == 'ok', 'accesses to %s are ordered' % name, o['why'], analysed='%d accesses' % len(o['accesses']), sites=sorted(set(a['where'] + ' ' + a['in'] for a in o['accesses'] if not a['init']))[:8])
    seen = {}
    for x in d['decrements']:
        k = (x['where'],); e = seen.setdefault(k, dict(n=0, rel=True, bad='', des=False))
        e['n'] += 1; e['rel'] &= x['release']; e['bad'] = e['bad'] or x['unacquired']; e['des'] |= x['destroys']
    if not seen: add('count_given_up', 'ordering', False, 'giving up a reference', 'no atomic decrement of a count of references was found')
    for (w,), e in sorted(seen.items()):
        add('release_%s' % w, 'ordering', e['rel'], 'giving up a reference publishes what the thread wrote', 'the decrement at %s %s' % (w, 'is a release' if e['rel'] else 'is not a release operation'), analysed='%d instantiations' % e['n'])
        add('acquire_%s' % w, 'ordering', not e['bad'], 'the object is destroyed after acquiring what others wrote', 'destroyed at %s without an acquire' % e['bad'] if e['bad'] else 'acquire on every path', analysed='%d instantiations' % e['n'])
    edges = {}
    for x in d['orders']: edges.setdefault((x['held'], x['takes']), x)
    for (h, t), x in sorted(edges.items()):
        add('twice_%s' % x['where'], 'lock order', h != t, 'a lock is not taken twice', '%s is taken at %s (%s) while it is held' % (t, x['where'], x['in']))
    # cycles
    g = {}
    for h, t in edges:
        if h != t: g.setdefault(h, set()).add(t)
    def reach(a, b, seen):
        if a == b: return True
        seen.add(a)
        return any(reach(n, b, seen) for n in g.get(a, ()) if n not in seen)
    for (h, t), x in sorted(edges.items()):
        if h != t: add('order_%s' % x['where'], 'lock order', not reach(t, h, set()), 'locks are taken in one order', '%s is taken at %s (%s) while holding %s, elsewhere the other way round' % (t, x['where'], x['in'], h))
    lk = {}
    for x in d['leaks']: lk.setdefault((x['lock'], x['in']), x)
    for (l, f), x in sorted(lk.items()): add('kept_%s' % f, 'lock release', False, 'locks are released', '%s is still held when %s is left at %s' % (l, f, x['where']))
    add('locks_released', 'lock release', not lk, 'every lock that is taken is released on every way out of the function', '%d places take a lock' % d['locks'])
    # inventory from the syntax tree: also what no analysed program instantiates
    lines = {}
    for gl in d['globals']: lines.setdefault((os.path.realpath(gl['file']), gl['line']), gl)
    found = set()
    for f, q in inv:
        out = q.communicate()[0]
        if 'matches.' not in out and 'match.' not in out:
            res.append(dict(id='inventory_' + cid(os.path.basename(f)), kind='inventory', status='BROKEN', detail=dict(why='clang-query gave no answer'))); continue
        for m in re.finditer(r'^(/\S+):(\d+):\d+: note: "v" binds here', out, re.M): found.add((os.path.realpath(m.group(1)), int(m.group(2))))
    byid = {o['id']: o for o in d['objects']}
    for f, l in sorted(found):
        w = '%s:%d' % (os.path.relpath(f, REPO), l); gl = lines.get((f, l)); st = 'PROVED'; why = ''
        if gl is None:
            # the declaration of a member: the definition is elsewhere; or a template that is never instantiated
            near = [x for (a, b), x in lines.items() if a == f and abs(b - l) <= 6]
            if near or not re.search(r'\bstatic\b', open(f).read().split('\n')[l - 1]): why = 'declaration; see its definition'
            else: st, why = ('PROVED', 'declared static member') if any(x['name'].split('::')[-1] in open(f).read().split('\n')[l - 1] for x in d['globals']) else ('UNDECIDED', 'no analysed program instantiates it')
        else: o = byid.get(gl['id']); why = 'per thread' if gl['tls'] else o['why'] if o else 'not accessed after its initialization'
        res.append(dict(id=cid('static_' + w), kind='inventory', status=st, detail=dict(what='variable with static storage at ' + w, why=why)))
    COVERAGE.update(shared_objects=len(d['objects']), accesses=nacc, lock_order_edges=len(edges), static_variables=len(found))
    return res
COVERAGE = {}
