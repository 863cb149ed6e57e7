"P04: reductions over distributed data, communicators, groups and error reports."
from vp import *
from pm import *
import itertools, re
PAR = PAR.replace('#include <ovxx/mpi/service.cpp>', '#include <ovxx/mpi/group.cpp>\n#include <ovxx/mpi/service.cpp>\n#include <vector>')
RULE = "the summarised effect of the operation on every process equals that of its definition over the global data; handles obtained from MPI are released once; an error reported by MPI is thrown"
W = ('W',); B = lambda n: ('B', n); C = lambda n, c=1: ('C', n, c)
R = lambda *pv: M([W], pv, repl=True)
def tus(tier):
    out = []; o = []; seen = set()
    def ob(name, P, arrays, body, spec, args=(), rounds=2, again=False, extent={}):
        x = dict(extent)
        for a in arrays: x.update(a.extent())
        eq = ''.join(a.same() for a in arrays)
        i = re.sub('[^A-Za-z0-9]+', '_', name.replace('_R', '_r'))
        assert i not in seen, i
        seen.add(i)
        o.append(Ob(i, sum([a.args() for a in arrays], []) + list(args), eq + par(P, arrays, body, rounds, again), eq + spec, extent=x))
    def flush(k, nm, prelude=PAR, flags=()):
        out.extend(chunks(list(o), k, nm, prelude, ['@inline=225'] + list(flags), PAROPT)); del o[:]
    # reductions: every process gets the value of the global view
    def red(nm, a, call, spec, T, expr='a', arrays=None, init='', rounds=2):
        P = a.P
        ob(nm, P, arrays or [a], 'o[pr_]=%s(%s);' % (call, expr), init + '%s q=%s;' % (T, spec) + ''.join('o[%d]=q;' % p for p in range(P)), [(T + '*', 'o', '')], rounds)
    S_ = lambda a, f='%s': '+'.join(f.replace('%s', a.ref(g)) for g in a.all())
    maps = [('b', 3, M([B(3)]), (4,)), ('c', 2, M([C(2, 1)], [1, 0]), (3,)), ('own', 3, M([B(2)], [2, 1]), (3,)), ('r', 2, R(0, 1), (3,)), ('r1', 3, R(1, 2), (3,)), ('m', 4, M([B(2), C(2)], [3, 1, 0, 2]), (2, 3)), ('t', 2, M([W, B(2), W]), (2, 2, 1))]
    for nm, P, m, sz in maps:
        a = A('a', 'float', m, P, sz); n = prod(sz)
        red('sum_' + nm, a, 'sumval', S_(a), 'float')
        red('sumsq_' + nm, a, 'sumsqval', S_(a, '%s*%s'), 'float')
        red('mean_' + nm, a, 'meanval', '(%s)/%d.f' % (S_(a), n), 'float')
        mx = a.ref(next(iter(a.all())))
        ini = 'float m=%s;' % mx + ''.join('if (%s>m) m=%s;' % (a.ref(g), a.ref(g)) for g in a.all())
        D = a.dim
        ob('max_' + nm, P, [a], 'Index<%d> i; o[pr_]=maxval(a,i); %s' % (D, ''.join('k[pr_*%d+%d]=i[%d];' % (D, d, d) for d in range(D))),
           'float m=%s; %s' % (mx, ''.join('index_type j%d=0;' % d for d in range(D))) + ''.join('if (%s>m) { m=%s; %s}' % (a.ref(g), a.ref(g), ''.join('j%d=%d;' % (d, g[d]) for d in range(D))) for g in a.all())
           + ''.join('o[%d]=m;' % p + ''.join('k[%d]=j%d;' % (p * D + d, d) for d in range(D)) for p in range(P)), [('float*', 'o', ''), ('index_type*', 'k', '')], 2)
    flush(3, 'red')
    a = A('a', 'cfloat', M([B(2)]), 2, (3,)); red('sum_cx', a, 'sumval', S_(a), 'cfloat'); red('magsq_cx', a, 'meansqval', '(%s)/3.f' % S_(a, 'std::norm(%s)'), 'float')
    a = A('a', 'int', M([C(2, 1)]), 2, (3,)); red('sum_int', a, 'sumval', S_(a), 'int')
    a = A('a', 'float', M([B(2)]), 2, (4,)); b = A('b', 'float', M([C(2, 1)], [1, 0]), 2, (4,)); red('sum_expr', a, 'sumval', '+'.join('%s*%s' % (a.ref(g), b.ref(g)) for g in a.all()), 'float', 'a*b', [a, b]); red('sum_part', a, 'sumval', '%s+%s' % (a.ref((1,)), a.ref((2,))), 'float', 'a(Domain<1>(1,1,2))')
    red('dot', a, 'dot', '+'.join('%s*%s' % (a.ref(g), b.ref(g)) for g in a.all()), 'float', 'a,b', [a, b])
    m = A('a', 'float', M([B(2), B(2)]), 4, (3, 2)); red('sum_row', m, 'sumval', '%s+%s' % (m.ref((2, 0)), m.ref((2, 1))), 'float', 'a.row(2)')
    flush(3, 'red2')
    # collective reduction of one value per process
    CM = 'ovxx::parallel::Communicator &c=ovxx::parallel::default_communicator(); '
    def allr(nm, T, kind, f, P=3):
        e = 'x[0]'
        for p in range(1, P): e = f % (e, 'x[%d]' % p)
        o.append(Ob('allreduce_%s_%s' % (nm, T), [(T + '*', 'x', 'ch([0,1,2,3,-1])' if T != 'bool' else ''), (T + '*', 'o', '')], 'world(%d,[&](int pr_){ %so[pr_]=c.allreduce(%s,x[pr_]);});' % (P, CM, 'ovxx::' + kind), '%s q=%s;' % (T, e) + ''.join('o[%d]=q;' % p for p in range(P))))
    for T in ('int', 'float', 'double', 'long'):
        allr('sum', T, 'reduce_sum', '(%s+%s)'); allr('min', T, 'reduce_min', 'std::min(%s,%s)'); allr('max', T, 'reduce_max', 'std::max(%s,%s)')
    allr('all', 'int', 'reduce_all_true', '(%s&&%s)'); allr('any', 'int', 'reduce_any_true', '(%s||%s)'); allr('all', 'bool', 'reduce_all_true_bool', '(%s&&%s)'); allr('any', 'bool', 'reduce_any_true_bool', '(%s||%s)')
    flush(6, 'allreduce')
    # types on the wire, broadcast, send and receive
    for T, X in (('char', 'CHAR'), ('short', 'SHORT'), ('int', 'INT'), ('long', 'LONG'), ('unsigned char', 'UNSIGNED_CHAR'), ('unsigned short', 'UNSIGNED_SHORT'), ('unsigned int', 'UNSIGNED'), ('unsigned long', 'UNSIGNED_LONG'), ('float', 'FLOAT'), ('double', 'DOUBLE'), ('long double', 'LONG_DOUBLE'), ('bool', 'BYTE')):
        o.append(Ob('datatype_' + T.replace(' ', '_'), [('int*', 'o', '')], 'o[0]=ovxx::mpi::Datatype<%s >::value()==MPI_%s;' % (T, X), 'o[0]=1;'))
    for T, n in (('cfloat', 2), ('cdouble', 2), ('Index<2>', 2), ('Index<3>', 3)):
        o.append(Ob('datatype_' + re.sub('[<>]', '', T), [('long*', 'o', '')], 'world(1,[&](int){ MPI_Datatype t=ovxx::mpi::Datatype<%s >::value(); o[0]=t->n; o[1]=t->ext; o[2]=t->off[%d]; o[3]=t==ovxx::mpi::Datatype<%s >::value();},1);' % (T, n - 1, T), 'o[0]=%d;o[1]=sizeof(%s);o[2]=sizeof(%s)/%d*%d;o[3]=1;' % (n, T, T, n, n - 1)))
    for T in ('float', 'cdouble', 'int', 'char', 'bool', 'short'):
        o.append(Ob('bcast_' + T, [(T + '*', 'x', '')], 'world(3,[&](int pr_){ %sc.broadcast(1,x+2*pr_,2);});' % CM, 'for (int p=0;p<3;p+=2) for (int i=0;i<2;++i) x[2*p+i]=x[2+i];'))
        o.append(Ob('sendrecv_' + T, [(T + '*', 'x', '')], 'world(3,[&](int pr_){ %sif (pr_==2) { ovxx::parallel::Communicator::request_type r; c.send(0,x+4,2,r); c.wait(r); c.buf_send(1,x+5,1);} else c.recv(2,x+2*pr_,2-pr_);});' % CM, 'x[0]=x[4];x[1]=x[5];x[2]=x[5];'))
    o.append(Ob('counts', [('int*', 'o', '')], 'world(3,[&](int pr_){ o[3*pr_]=num_processors(); o[3*pr_+1]=local_processor(); o[3*pr_+2]=local_processor_index(); for (int i=0;i<3;++i) o[9+3*pr_+i]=processor_set().get(i); o[18+pr_]=processor_set().size();},1);', ''.join('o[%d]=3;o[%d]=o[%d]=%d;' % (3 * p, 3 * p + 1, 3 * p + 2, p) + ''.join('o[%d]=%d;' % (9 + 3 * p + i, i) for i in range(3)) + 'o[%d]=3;' % (18 + p) for p in range(3))))
    flush(6, 'wire')
    # communicators and groups: members, and every handle released once
    def gr(nm, P, body, spec, args=[('long*', 'o', '')], rounds=1, pre='', x=None): o.append(Ob('comm_' + nm, args, 'world(%d,[&](int pr_){ %s %s %s},%d);' % (P, pre, CM, body, rounds), spec, extent=x or {}))
    U = 'using ovxx::parallel::Communicator; using ovxx::parallel::Group; '
    gr('dup', 2, U + 'Communicator d(c,Communicator::comm_duplicate); Communicator e(d), f; f=e; o[pr_*4]=d.size(); o[pr_*4+1]=d.rank(); o[pr_*4+2]=(f==d) && !(d==c) && (d!=c); o[pr_*4+3]=d.pvec().size();', ''.join('o[%d]=2;o[%d]=%d;o[%d]=1;o[%d]=2;' % (4 * p, 4 * p + 1, p, 4 * p + 2, 4 * p + 3) for p in range(2)))
    gr('own', 2, U + 'MPI_Comm m; MPI_Comm_dup(MPI_COMM_WORLD,&m); Communicator d(m,Communicator::comm_take_ownership); { Communicator e=d; } o[pr_]=d.size();', 'o[0]=o[1]=2;')
    gr('attach', 2, U + 'MPI_Comm m; MPI_Comm_dup(MPI_COMM_WORLD,&m); { Communicator d(m,Communicator::comm_attach); o[pr_]=d.size();} MPI_Comm_free(&m);', 'o[0]=o[1]=2;')
    gr('null', 2, U + 'Communicator d(MPI_COMM_NULL,Communicator::comm_take_ownership); o[pr_]=(bool)d;', 'o[0]=o[1]=0;')
    gr('world', 2, U + 'Communicator d; o[pr_*3]=d.size(); o[pr_*3+1]=d==c; o[pr_*3+2]=d.pvec().size();', ''.join('o[%d]=2;o[%d]=1;o[%d]=2;' % (3 * p, 3 * p + 1, 3 * p + 2) for p in range(2)))
    gr('group', 3, U + 'Group g=c.group(); Group h=g; o[pr_*2]=g.size(); o[pr_*2+1]=h.rank();', ''.join('o[%d]=3;o[%d]=%d;' % (2 * p, 2 * p + 1, p) for p in range(3)))
    who = lambda rs, P: ''.join('o[%d]=%d;o[%d]=%s;' % (2 * p, len(rs), 2 * p + 1, rs.index(p) if p in rs else '(long)ovxx::no_rank') for p in range(P))
    res = 'o[pr_*2]=h.size(); o[pr_*2+1]=h.rank();'
    V = 'std::vector<int> v(%d);%s '
    def vec(l): return V % (len(l), ''.join('v[%d]=%d;' % x for x in enumerate(l)))
    for l in ([0, 2], [2, 0], [1], []):
        k = ''.join(map(str, l)) or 'none'
        gr('incl_' + k, 3, U + 'Group g=c.group(); %s Group h=g.include(v.begin(),v.end()); %s' % (vec(l), res), who(l, 3)); gr('excl_' + k, 3, U + 'Group g=c.group(); %s Group h=g.exclude(v.begin(),v.end()); %s' % (vec(l), res), who([p for p in range(3) if p not in l], 3))
        gr('inclp_' + k, 3, U + 'Group g=c.group(); int v[]={%s}; Group h=g.include(v,v+%d); %s' % (','.join(map(str, l)) or '0', len(l), res), who(l, 3)); gr('exclp_' + k, 3, U + 'Group g=c.group(); int v[]={%s}; Group h=g.exclude(v,v+%d); %s' % (','.join(map(str, l)) or '0', len(l), res), who([p for p in range(3) if p not in l], 3))
    ab = 'Group g=c.group(); int u[]={0,1},w[]={1,2}; Group a=g.include(u,u+2), b=g.include(w,w+2); '
    for nm, op, l in (('union', '|', [0, 1, 2]), ('inter', '&', [1]), ('diff', '-', [0])): gr(nm, 3, U + ab + 'Group h=a%sb; %s' % (op, res), who(l, 3))
    gr('self', 3, U + ab + 'Group h=a-a; %s' % res, who([], 3)); gr('empty', 3, U + ab + 'Group h=a|Group(); h=h&Group(); %s' % res, who([], 3)); gr('assign', 3, U + ab + 'Group h; h=a; h=b; a=h; %s' % res, who([1, 2], 3))
    gr('translate', 3, U + ab + 'int r[]={0,1},q[2]; int *e=a.translate_ranks(r,r+2,b,q); std::vector<int> v(r,r+2), z(2); std::vector<int>::iterator f=a.translate_ranks(v.begin(),v.end(),b,z.begin()); o[0]=q[0];o[1]=q[1];o[2]=e-q;o[3]=z[0];o[4]=z[1];o[5]=f-z.begin();', 'o[0]=o[3]=MPI_UNDEFINED;o[1]=o[4]=0;o[2]=o[5]=2;')
    gr('sub', 3, U + ab + 'Communicator d(c,b); o[pr_*3]=(bool)d; if (d) { o[pr_*3+1]=d.rank(); o[pr_*3+2]=d.size()*10+d.pvec().size();}', 'o[0]=0;o[3]=1;o[4]=0;o[5]=22;o[6]=1;o[7]=1;o[8]=22;')
    gr('split', 3, U + 'mpiref::color_[0]=mpiref::color_[2]=7; mpiref::color_[1]=4; Communicator d=c.split(pr_==1?4:7); o[pr_*2]=d.rank(); o[pr_*2+1]=d.size();', 'o[0]=0;o[1]=2;o[2]=0;o[3]=1;o[4]=1;o[5]=2;')
    gr('default', 2, U + 'Communicator d(c,Communicator::comm_duplicate); Communicator old=ovxx::parallel::set_default_communicator(d); o[pr_*2]=ovxx::parallel::default_communicator()==d; ovxx::parallel::set_default_communicator(old); o[pr_*2+1]=ovxx::parallel::default_communicator()==old;', 'o[0]=o[1]=o[2]=o[3]=1;')
    flush(6, 'comm')
    # the library and the program share MPI: who initialises it finalises it, and MPI keeps no buffer of the library
    def life(nm, user, body, spec='o[0]=2;'):
        o.append(Ob('life_' + nm, [('long*', 'o', '')], 'mpiref::setup(2,2,%d); int argc=0; char **argv=0; %s if (mpiref::done()) abort();' % (user, body), spec))
    one = 'ovxx::mpi::initialize(argc,argv); mpiref::enter(0,0); o[0]=ovxx::parallel::default_communicator().size(); ovxx::mpi::finalize(true); '
    life('library', 0, one); life('program', 1, one); life('program_twice', 1, one + one)
    life('thread', 0, 'ovxx::mpi::initialize(argc,argv); mpiref::enter(0,0); ovxx::mpi::finalize(false); ovxx::mpi::initialize(argc,argv); o[0]=ovxx::parallel::default_communicator().size(); ovxx::mpi::finalize(true);')
    life('outlive', 0, 'ovxx::mpi::initialize(argc,argv); mpiref::enter(0,0); { ovxx::mpi::Communicator d(ovxx::parallel::default_communicator(),ovxx::mpi::Communicator::comm_duplicate); o[0]=d.size(); ovxx::mpi::finalize(true); free((void*)(MPI_Comm)d);} mpiref::live_=0;')
    life('bsend', 1, 'float x=1; ovxx::mpi::initialize(argc,argv); mpiref::enter(0,0); ovxx::parallel::default_communicator().buf_send(0,&x,1); mpiref::box_[0].taken=1; o[0]=2; ovxx::mpi::finalize(true);')
    o.append(Ob('what', [('long*', 'o', '')], 'ovxx::mpi::exception const e("ab",3); std::exception const &b=e; o[0]=b.what()==e.what(); o[1]=e.result_code(); o[2]=e.error_class();', 'o[0]=1;o[1]=3;o[2]=4;', what='what() through the base class'))
    flush(4, 'life', PAR, ['-D_GLIBCXX_EXTERN_TEMPLATE=0'])
    # an error MPI reports is thrown
    FAILP = '#define MPIREF_FAIL\n' + PAR
    def fail(nm, what, body, P=2):
        o.append(Ob('error_' + nm, [('float*', 'x', '')], 'mpiref::setup(%d,1); int argc=0; char **argv=0; ovxx::mpi::initialize(argc,argv); mpiref::enter(0,0); %s%s mpiref::fail_=mpiref::%s; %s mpiref::fail_=0;' % (P, U, CM, what, body) if 0 else 'mpiref::setup(%d,1); int argc=0; char **argv=0; mpiref::fail_=-1; ovxx::mpi::initialize(argc,argv); mpiref::enter(0,0); %s%s mpiref::fail_=mpiref::%s; %s mpiref::fail_=-1;' % (P, U, CM, what, body), 'throw ovxx::mpi::exception("MPI",5);'))
    fail('rank', 'rank', 'c.rank();'); fail('size', 'size', 'c.size();'); fail('barrier', 'barrier', 'c.barrier();'); fail('dup', 'dup', 'Communicator d(c,Communicator::comm_duplicate);'); fail('split', 'split', 'c.split(0,0);'); fail('group', 'cgroup', 'c.group();'); fail('compare', 'compare', 'x[0]=c==c;')
    fail('send', 'isend', 'Communicator::request_type r; c.send(1,x,1,r);'); fail('bsend', 'bsend', 'c.buf_send(1,x,1);'); fail('recv', 'recv', 'c.recv(1,x,1);'); fail('wait', 'wait', 'Communicator::request_type r; c.send(1,x,1,r); c.wait(r);'); fail('bcast', 'bcast', 'c.broadcast(1,x,1);'); fail('allreduce', 'allreduce', 'x[0]=c.allreduce(ovxx::reduce_sum,x[0]);')
    fail('chain', 'isend', 'ovxx::parallel::Communicator::request_type r; MPI_Datatype t=MPI_FLOAT; c.send(1,t,r);'); fail('rchain', 'recv', 'MPI_Datatype t=MPI_FLOAT; c.recv(1,t);'); fail('vector', 'vector', 'ovxx::parallel::Chain_builder b; b.add<float>(0,1,2);'); fail('commit', 'commit', 'ovxx::parallel::Chain_builder b; b.add<float>(0,1,2);'); fail('struct', 'tstruct', 'ovxx::parallel::Chain_builder b; b.add<float>(0,1,2); b.get_chain();')
    g = 'Group g=c.group(); int v[]={0}; '
    for k, w, e in (('incl', 'incl', 'g.include(v,v+1);'), ('excl', 'excl', 'g.exclude(v,v+1);'), ('union', 'gunion', 'g|g;'), ('inter', 'ginter', 'g&g;'), ('diff', 'gdiff', 'g-g;'), ('translate', 'translate', 'g.translate_ranks(v,v+1,g,v);'), ('grank', 'grank', 'g.rank();'), ('gsize', 'gsize', 'g.size();')):
        o.append(Ob('error_' + k, [('float*', 'x', '')], 'mpiref::setup(2,1); int argc=0; char **argv=0; mpiref::fail_=-1; ovxx::mpi::initialize(argc,argv); mpiref::enter(0,0); %s%s%s mpiref::fail_=mpiref::%s; %s' % (U, CM, g, w, e), 'throw ovxx::mpi::exception("MPI",5);'))
    flush(7, 'fail', FAILP, ['-fno-jump-tables'])
    return out
