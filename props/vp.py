"Vocabulary shared by the obligation files."
import os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'engine'))
from driver import Ob, TU, run_tus, compile_module, include_flags, REPO, VERIF, Broken, CFLAGS, locstr, run_ob, irdump_path, lockset_path
P = '#include "mac.hpp"\n'
def N(n='n', lo=0, hi=5): return ('length_type', n, 'r(%d,%d)' % (lo, hi))
def S(n, d='ch([-3,-1,1,2,4])'): return ('stride_type', n, d)
def PT(t, n, d=''): return (t + '*', n, d)
def chunks(obs, k, name, prelude=P, flags=(), opts=None):
    return [TU('%s_%d' % (name, i), prelude, obs[i:i + k], flags, opts) for i in range(0, len(obs), k)]
# A small world of processes: every process runs `f`, over the reference definitions of MPI.
PAR = '''#include "mpiref.hpp"
#include <vsip/initfin.hpp>
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/map.hpp>
#include <vsip/parallel.hpp>
#include <vsip/selgen.hpp>
#include <vsip/math.hpp>
#include <ovxx/mpi/communicator.cpp>
#include <ovxx/mpi/service.cpp>
using namespace vsip;
typedef std::complex<float> cfloat; typedef std::complex<double> cdouble;
typedef Whole_dist Wh; typedef Block_dist Bl; typedef Cyclic_dist Cy;
template <typename F> void world(int P, F f, int rounds = 2)
{
  mpiref::setup(P, rounds);
  int argc = 0; char **argv = 0;
  ovxx::mpi::initialize(argc, argv);
  for (int round=0; round<rounds; ++round) for (int rank=0; rank<P; ++rank) { mpiref::enter(round, rank); f(rank);}
  ovxx::mpi::finalize(true);
  if (mpiref::done()) abort();
}
template <typename D> void oe(index_type *o, D const &d) { o[0]=d.length() ? d.first() : 0; o[1]=1; o[2]=d.length();} // an empty one is anywhere
template <typename D> void od(index_type *o, D const &d) { o[0]=d.first(); o[1]=d.stride(); o[2]=d.length();}
'''
PAROPT = dict(unroll=1, first_use=['16bufferE', 'finalize_mpi', '5first', '112communicatorE', '8datatype', '11pset_block_'], ghost=['mpiref', 'pset_block_', '_GLOBAL__N_1', 'first', 'datatype'])
