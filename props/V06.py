"""Small services: the timer reports the seconds between two readings of the monotonic clock, time points and durations add up,
byte swapping reverses the bytes of every component.  The clock is replaced by one that returns given readings."""
from vp import *
PRE = P + '''#include <ovxx/timer.hpp>
#include <ovxx/byteswap.hpp>
#include <ovxx/inttypes.hpp>
#include <cstring>
static long const *vp_now; static int *vp_ids; static int vp_reads;
extern "C" int clock_gettime(clockid_t id, struct timespec *t) throw() { vp_ids[vp_reads]=id; t->tv_sec=vp_now[2*vp_reads]; t->tv_nsec=vp_now[2*vp_reads+1]; ++vp_reads; return 0; }
'''
def tus(tier):
    o = []
    T4 = [PT('double', 'c')] + [('long', 's%d' % i, 'r(0,40)') for i in range(4)] + [('long', 'n%d' % i, 'r(0,999)') for i in range(4)]
    CL = ' vp_now=0; vp_ids=0; vp_reads=0;'
    pre = 'long now[8]={s0,n0*1000003,s1,n1*1000003,s2,n2*1000003,s3,n3*1000003}; int ids[8]; vp_now=now; vp_ids=ids; vp_reads=0; '
    def el(a, b): return '((s%d-s%d)*1e9+(n%d-n%d)*1000003.)/1e9' % (b, a, b, a)
    def ob(nm, i, s, w): o.append(Ob(nm, T4, pre + i + CL, s + CL, n=40, what=w))
    ob('elapsed', 'ovxx::timer t; c[0]=t.elapsed();', 'c[0]=%s;' % el(0, 1), 'seconds since the timer was made')
    ob('elapsed2', 'ovxx::timer t; c[0]=t.elapsed(); c[1]=t.elapsed(); c[2]=t.elapsed();', 'c[0]=%s; c[1]=%s; c[2]=%s;' % (el(0, 1), el(0, 2), el(0, 3)), 'reading a timer does not restart it')
    ob('restart', 'ovxx::timer t; c[0]=t.elapsed(); t.restart(); c[1]=t.elapsed();', 'c[0]=%s; c[1]=%s;' % (el(0, 1), el(2, 3)), 'restart')
    ob('two', 'ovxx::timer t, u; c[0]=t.elapsed(); c[1]=u.elapsed();', 'c[0]=%s; c[1]=%s;' % (el(0, 2), el(1, 3)), 'two timers')
    ob('copy', 'ovxx::timer t, u; u=t; c[0]=t.elapsed(); c[1]=u.elapsed();', 'c[0]=%s; c[1]=%s;' % (el(0, 2), el(0, 3)), 'a copied timer counts from the same start')
    ob('mono', 'ovxx::timer t; t.elapsed(); t.restart(); c[0]=ids[0]==CLOCK_MONOTONIC; c[1]=ids[1]==CLOCK_MONOTONIC; c[2]=ids[2]==CLOCK_MONOTONIC; c[3]=vp_reads;', 'c[0]=1; c[1]=1; c[2]=1; c[3]=3;', 'the clock is one that is never set back, read once')
    ob('now', 'ovxx::clock::time_point a=ovxx::clock::now(), b=ovxx::clock::now(); c[0]=(double)(b.time_since_epoch().count()-a.time_since_epoch().count());', 'c[0]=(s1-s0)*1e9+(n1-n0)*1000003.;', 'readings count nanoseconds')
    DD = [PT('double', 'c'), ('long', 'p', 'r(-99,99)'), ('long', 'q', 'r(-99,99)'), ('long', 'r', 'r(-99,99)')]
    pre = 'typedef ovxx::chrono::nanoseconds N; typedef ovxx::clock::time_point TP; '
    def od(nm, i, s, w): o.append(Ob(nm, DD, pre + i, s, n=40, what=w))
    od('dur', 'N a(p), b(q); c[0]=a.count(); a+=b; c[1]=a.count(); a-=N(r); c[2]=a.count(); N d; d=a; d+=d; c[3]=d.count();', 'c[0]=p; c[1]=p+q; c[2]=p+q-r; c[3]=2*(p+q-r);', 'durations add')
    od('durz', 'N z=N::zero(); c[0]=z.count();', 'c[0]=0;', 'the zero duration is zero')
    od('tp', 'TP a((N(p))), b((N(q))); c[0]=a.time_since_epoch().count(); TP d=a-b; c[1]=d.time_since_epoch().count(); a+=N(r); c[2]=a.time_since_epoch().count(); a-=N(q); c[3]=a.time_since_epoch().count(); c[4]=b; c[5]=(double)(a-b);', 'c[0]=p; c[1]=p-q; c[2]=p+r; c[3]=p+r-q; c[4]=q; c[5]=p+r-2*q;', 'time points and their differences')
    od('tp0', 'TP a; c[0]=a.time_since_epoch().count(); a+=N(p); c[1]=a.time_since_epoch().count();', 'c[0]=0; c[1]=p;', 'a time point starts at the epoch')
    # ------------------------------------------------------------ byte swapping
    REV = 'unsigned char const *x=(unsigned char const *)a; unsigned char *y=(unsigned char *)c; '
    for t, n, k in (('char', 1, 1), ('signed char', 1, 1), ('ovxx::uint16_type', 2, 1), ('ovxx::int16_type', 2, 1), ('int', 4, 1), ('unsigned', 4, 1), ('long', 8, 1), ('unsigned long', 8, 1), ('float', 4, 1), ('double', 8, 1), ('cfloat', 4, 2), ('cdouble', 8, 2)):
        nm = t.replace('ovxx::', '').replace(' ', '')
        sz = n*k
        A = [PT('uchar', 'c'), PT('uchar', 'a')]
        sw = ''.join('c[%d]=a[%d];' % (j*n+i, j*n+n-1-i) for j in range(k) for i in range(n))
        id_ = ''.join('c[%d]=a[%d];' % (i, i) for i in range(sz))
        b = 'alignas(16) unsigned char buf[%d]; std::memcpy(buf,a,%d); %s &v=*reinterpret_cast<%s *>(buf); ' % (sz, sz, t, t)
        e = ' std::memcpy(c,buf,%d);' % sz
        # neighbours stay
        o.append(Ob('bs_%s' % nm, A, b + 'ovxx::byteswap(v);' + e, sw, n=20, what='byteswap'))
        o.append(Ob('bst_%s' % nm, A, b + 'ovxx::byteswap<true>(v);' + e, sw, n=20, what='byteswap<true>'))
        o.append(Ob('bsf_%s' % nm, A, b + 'ovxx::byteswap<false>(v);' + e, id_, n=20, what='byteswap<false>'))
        o.append(Ob('bsr_%s' % nm, A + [('int', 'g', 'r(0,1)')], b + 'ovxx::byteswap(v,g!=0);' + e, 'if (g) { %s } else { %s }' % (sw, id_), n=20, what='byteswap on demand'))
        o.append(Ob('bs2_%s' % nm, A, b + 'ovxx::byteswap(v); ovxx::byteswap(v);' + e, id_, n=20, what='swapping twice'))
        o.append(Ob('bsn_%s' % nm, A, 'alignas(16) unsigned char buf[%d]; std::memcpy(buf,a,%d); %s *v=reinterpret_cast<%s *>(buf); ovxx::byteswap(v[1]); std::memcpy(c,buf,%d);' % (3*sz, 3*sz, t, t, 3*sz),
                    ''.join('c[%d]=a[%d];' % (i, i) for i in range(sz)) + ''.join('c[%d]=a[%d];' % (sz+j*n+i, sz+j*n+n-1-i) for j in range(k) for i in range(n)) + ''.join('c[%d]=a[%d];' % (i, i) for i in range(2*sz, 3*sz)), n=20, what='one element of an array'))
    return chunks(o, 8, 'v06', PRE)
