"""R02: the life of the library: every thread that has a library object has an allocator and a communicator of its own, MPI is initialised by the
first library object of the process and finalised with the last one (unless the program did so itself), and nothing is left behind."""
from vp import *
import itertools
RULE = "for every history of library objects coming and going in up to three threads: the state of the library after each step is the one its reference definition gives"
PRE = '''#include "mpiref.hpp"
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/math.hpp>
#include <ovxx/library.cpp>
#include <ovxx/allocator.cpp>
#include <ovxx/mpi/communicator.cpp>
#include <ovxx/mpi/service.cpp>
extern "C" void vp_thread(int);
static int clocks_;
void ovxx::chrono::high_resolution_clock::init() { ++clocks_;}
#define NI static __attribute__((noinline))
NI void up(int t, ovxx::library **p) { vp_thread(t); *p = new ovxx::library;}
NI void down(int t, ovxx::library *p) { vp_thread(t); delete p;}
// what thread t can rely on: 0 nothing; 1 an allocator and a communicator of this world
NI int has(int t) { vp_thread(t); bool a = ovxx::allocator::get_default() != 0, c = communicator != 0; return a && c ? 1 + (vsip::num_processors() != 3) : a ? 3 : c ? 4 : 0;}
'''
OPT = dict(unroll=1, threads=1, first_use=['16bufferE', 'finalize_mpi', '112communicatorE', '8datatype', '12global_countE', '18thread_local_countE', 'default_E', '5first', 'clocks_'], ghost=['mpiref', '_GLOBAL__N_1', 'default_', 'tics_per', 'first', 'datatype', 'clocks_'])
def histories(nt, steps):
    "sequences of (thread, object, +1/-1) that end with no object left and do so only once"
    out = []
    def go(h, live, nobj):
        if h and not live:
            out.append(h); return
        if len(h) + len(live) > steps: return
        if len(h) + len(live) + 2 <= steps:
            used = max([t for t, o, d in h] + [-1])
            for t in range(min(nt, used + 2)): go(h + [(t, nobj, 1)], live + [(t, nobj)], nobj + 1)
        for x in live: go(h + [(x[0], x[1], -1)], [y for y in live if y != x], nobj)
    go([], [], 0)
    return out
def ob(h, user=0):
    nt = 1 + max(t for t, o, d in h); k = 0; i = 'mpiref::setup(3, 1, %d); mpiref::enter(0, 0); ovxx::library *l[%d]; ' % (user, 1 + max(o for t, o, d in h)); s = ''
    cnt = [0] * nt; init = fin = 0
    for t, o, d in h:
        i += 'up(%d, &l[%d]); ' % (t, o) if d > 0 else 'down(%d, l[%d]); ' % (t, o)
        cnt[t] += d
        if d > 0 and not init: init = 1
        if init and not sum(cnt): fin = 1
        for u in range(nt): i += 'c[%d]=has(%d); ' % (k, u); s += 'c[%d]=%d; ' % (k, 1 if cnt[u] else 0); k += 1
        i += 'c[%d]=mpiref::state_; ' % k; s += 'c[%d]=%d; ' % (k, 1 if user else 2 if fin else 1); k += 1
    i += 'c[%d]=clocks_; ' % k; s += 'c[%d]=1; ' % k; k += 1
    i += 'vp_thread(0); c[%d]=mpiref::live_+mpiref::bad_+(mpiref::buffer_!=0);' % k; s += 'c[%d]=0;' % k
    nm = 'h_' + '_'.join('%s%d%s' % ('u' if d > 0 else 'd', t, '' if nt == 1 else '') + ('' if d > 0 else 'o%d' % o) for t, o, d in h) + ('_user' if user else '')
    return Ob(nm, [PT('int', 'c')], i, s, n=2, what='library objects: ' + ' '.join('%s%d in thread %d' % ('+' if d > 0 else '-', o, t) for t, o, d in h) + (' (MPI initialised by the program)' if user else ''))
def tus(tier):
    hs = histories(3, 6) if tier != 'thorough' else histories(3, 8)
    o = [ob(h) for h in hs] + [ob(h, 1) for h in (hs if tier == 'thorough' else histories(2, 4))]
    return chunks(o, 12, 'r02', PRE, opts=OPT)
