"""R01: storage lives exactly as long as its last owner: blocks, views, sub-views, expressions, counted pointers and arrays keep what
they refer to alive, release it once, in the way it was obtained, and leave nothing behind."""
from vp import *
RULE = "no access after release, no second release, no release in another way or size than obtained, nothing left allocated on return"
PRE = P + r'''
#include <ovxx/refcounted.hpp>
#include <ovxx/aligned_array.hpp>
#include <ovxx/strided.hpp>
#include <ovxx/storage/host.hpp>
#include <vsip/selgen.hpp>
#include <vsip/complex.hpp>
#include <vector>
#include <utility>
struct X : ovxx::refcounted<X> { int *d; int id; X(int *p,int i):d(p),id(i){} ~X() { ++d[id]; } };
typedef ovxx::refcounted_ptr<X> XP;
struct Node : ovxx::refcounted<Node> { int *d; int id; ovxx::refcounted_ptr<Node> next; Node(int *p,int i,Node *n):d(p),id(i),next(n,false){} ~Node() { ++d[id]; } }; typedef ovxx::refcounted_ptr<Node> NP;
template <typename T> Vector<T> mk(T const *a,length_type n) { Vector<T> v(n); for (index_type i=0;i<n;++i) v.put(i,a[i]); return v; }
template <typename T> Matrix<T> mkm(T const *a,length_type n,length_type m) { Matrix<T> v(n,m); for (index_type i=0;i<n;++i) for (index_type j=0;j<m;++j) v.put(i,j,a[i*m+j]); return v; }
template <typename T> Tensor<T> mkt(T const *a,length_type n,length_type m,length_type l) { Tensor<T> v(n,m,l); for (index_type i=0;i<n;++i) for (index_type j=0;j<m;++j) for (index_type k=0;k<l;++k) v.put(i,j,k,a[(i*m+j)*l+k]); return v; }
'''
def tus(tier):
    o = []
    # ------------------------------------------------------------------ counted pointers: every operation, from every state
    E = ('int', 'e', 'r(0,3)'); F = ('int', 'f', 'r(0,3)')
    X2 = 'X *x=new X(d,0), *y=new X(d,1); for (int i=0;i<e;++i) x->increment_count(); for (int i=0;i<f;++i) y->increment_count(); '
    # what is reported: which objects are gone once the operation is over, and once all other owners have let go
    END = ' for (int i=0;i<e;++i) x->decrement_count(); for (int i=0;i<f;++i) y->decrement_count(); '
    def ops(nm, body, gx, gy, what):
        "gx, gy: owners that the pointers hold of x, y after the operation (beyond the e, f others)"
        sp = 'd[0]=0; d[1]=0; c[0]=%s; c[1]=%s; d[0]=1; d[1]=1;'
        o.append(Ob(nm, [PT('int', 'c'), PT('int', 'd'), E, F], 'd[0]=0; d[1]=0; ' + X2 + '{ ' + body + ' c[0]=d[0]; c[1]=d[1]; } ' + END, sp % ('e+%s==0' % gx, 'f+%s==0' % gy), n=24, what=what))
    ops('p_assign', 'XP a(x,false), b(y,false); a=b;', '0', '1', 'assignment')
    ops('p_self', 'XP a(x,false), b(y,false); XP &r=a; a=r;', '1', '1', 'self-assignment')
    ops('p_same', 'XP a(x,false), b(y,false); XP q(a); a=q;', '1', '1', 'assignment of a pointer to the same object')
    o.append(Ob('p_null', [PT('int', 'c'), PT('int', 'd'), E, ('int', 'g', 'r(0,1)')], 'd[0]=0; X *x=new X(d,0); for (int i=0;i<e;++i) x->increment_count(); { XP a(x,false); XP q(g?x:0); a=q; c[0]=d[0]; c[1]=a.get()==(g?x:0); } for (int i=0;i<e;++i) x->decrement_count();', 'c[0]=(e==0 && g==0); c[1]=1; d[0]=1;', n=24, what='assignment of a pointer that may be null'))
    ops('p_tonull', 'XP a(x,false), b(y,false); XP q; q=a;', '1', '1', 'assignment to a null pointer')
    ops('p_nullnull', 'XP a(x,false), b(y,false); XP q, r; q=r;', '1', '1', 'assignment of null to null')
    ops('p_copy', 'XP a(x,false), b(y,false); { XP q(a); } ', '1', '1', 'copy')
    ops('p_copynull', 'XP a(x,false), b(y,false); XP q; XP r(q);', '1', '1', 'copy of null')
    ops('p_addref', 'XP a(x,false), b(y,false); { XP q(x); }', '1', '1', 'taking a further reference')
    ops('p_reset', 'XP a(x,false), b(y,false); a.reset(0);', '0', '1', 'reset')
    ops('p_resetto', 'XP a(x,false), b(y,false); a.reset(y,true);', '0', '1', 'reset to another object')
    ops('p_resetsame', 'XP a(x,false), b(y,false); a.reset(x,true); a.reset(a.get(),true);', '1', '1', 'reset to the object already held')
    ops('p_resetnew', 'XP a, b(y,false); a.reset(x);', '1', '1', 'reset takes over a new object')
    ops('p_swap', 'XP a(x,false), b(y,false); XP q(a); a=b; b=q;', '1', '1', 'exchange')
    ops('p_get', 'XP a(x,false), b(y,false); if (a.get()!=x || &*b!=y || a->id!=0) throw 1;', '1', '1', 'access')
    ops('p_vec', 'XP a(x,false), b(y,false); { std::vector<XP> v; v.push_back(a); v.push_back(b); v.push_back(a); v.erase(v.begin()); }', '1', '1', 'pointers in a container')
    # the assignment takes its operand from the object it releases
    for f in (0,1):
        o.append(Ob('p_chain%d' % f, [PT('int', 'c'), PT('int', 'd')], 'd[0]=0; d[1]=0; Node *x=new Node(d,0,0); Node *y=new Node(d,1,x); %s { NP h(y,false); h=y->next; c[0]=d[0]; c[1]=d[1]; if (h.get()!=x) throw 1; } %s' % (('y->increment_count();','y->decrement_count();') if f else ('','')), 'c[0]=0; c[1]=%d; d[0]=1; d[1]=1;' % (1-f), n=4, what='assigning a pointer from the object that the assignment releases'))
    # ------------------------------------------------------------------ blocks and views
    for t in ('float', 'cfloat', 'int'):
        V = 'Vector<%s>' % t; M = 'Matrix<%s>' % t; TT = 'Tensor<%s>' % t
        a1 = [PT(t, 'c'), PT(t, 'a'), N('n', 0, 4)]
        a2 = [PT(t, 'c'), PT(t, 'a'), N('n', 1, 3), N('m', 1, 3)]
        a3 = [PT(t, 'c'), PT(t, 'a'), N('n', 1, 2), N('m', 1, 3), N('l', 1, 2)]
        L1 = 'for (length_type i=0;i<n;++i) '; L2 = L1 + 'for (length_type j=0;j<m;++j) '; L3 = L2 + 'for (length_type k=0;k<l;++k) '
        ix = ('index_type', 'p', 'r(0,n-1)'); iy = ('index_type', 'q', 'r(0,m-1)')
        def ob(nm, A, i, s, w, n=20): o.append(Ob('%s_%s' % (nm, t), A, i, s, n=n, what=w))
        ob('v_ret', a1, 'auto v=mk(a,n); ' + L1 + 'c[i]=v.get(i);', L1 + 'c[i]=a[i];', 'a view returned from the function that made its block')
        ob('v_last', a1, 'Dense<1,%s> *b=new Dense<1,%s>(n); %s v(*b); b->decrement_count(); ' % (t, t, V) + L1 + 'v.put(i,a[i]); ' + L1 + 'c[i]=v.get(i);', L1 + 'c[i]=a[i];', 'a view is the last owner of its block')
        ob('v_share', a1, V + ' v(n); { ' + V + ' w(v); ' + L1 + 'w.put(i,a[i]); } ' + L1 + 'c[i]=v.get(i);', L1 + 'c[i]=a[i];', 'a copied view shares the block')
        ob('v_const', a1, 'const_%s v(mk(a,n)); ' % V + L1 + 'c[i]=v.get(i);', L1 + 'c[i]=a[i];', 'a const view keeps the block of a temporary')
        ob('v_sub', a1 + [('index_type', 'f', 'r(0,2)'), ('stride_type', 's', '{1,2}')], '%s::subview_type w=[&]{ %s v(f+n*s+1); for (index_type i=0;i<f+n*s+1;++i) v.put(i,a[i]); return v(Domain<1>(f,s,n)); }(); ' % (V, V) + L1 + 'c[i]=w.get(i);', L1 + 'c[i]=a[f+i*s];', 'a sub-view outlives the view it was taken from')
        ob('v_sub2', a1, 'auto w=mk(a,n+2)(Domain<1>(1,1,n+1))(Domain<1>(1,1,n)); ' + L1 + 'c[i]=w.get(i);', L1 + 'c[i]=a[i+2];', 'a sub-view of a sub-view of a temporary')
        ob('v_expr', a1, V + ' w(n); w=mk(a,n)*mk(a+n,n)+mk(a,n); ' + L1 + 'c[i]=w.get(i);', L1 + 'c[i]=a[i]*a[n+i]+a[i];', 'an expression of temporaries')
        ob('v_expr2', a1 + [(t if t != 'cfloat' else 'float', 'g', '')], V + ' w(n); w=%s(g)*mk(a,n)-mk(a,n)*%s(g)*mk(a,n); ' % (t, t) + L1 + 'c[i]=w.get(i);', L1 + 'c[i]=%s(g)*a[i]-a[i]*%s(g)*a[i];' % (t, t), 'an expression of temporaries')
        ob('v_exprsub', a1, V + ' w(n); w=(mk(a,n+1)+mk(a,n+1))(Domain<1>(1,1,n)); ' + L1 + 'c[i]=w.get(i);', L1 + 'c[i]=a[i+1]+a[i+1];', 'a sub-view of an expression of temporaries')
        ob('v_vec', [PT(t, 'c'), PT(t, 'a'), N('n', 0, 3), ('int', 'k', 'r(0,4)')], 'std::vector<%s > x; for (int i=0;i<k;++i) x.push_back(mk(a+i*n,n)); if (k>1) x.erase(x.begin()); for (int z=(k>1);z<k;++z) for (length_type i=0;i<n;++i) c[z*n+i]=x[z-(k>1)].get(i);' % V, 'for (int z=(k>1);z<k;++z) for (length_type i=0;i<n;++i) c[z*n+i]=a[z*n+i];', 'views in a container that grows and shrinks', 24)
        ob('v_user', a1 + [PT(t, 'b')], '{ %s w=[&]{ Dense<1,%s> x(n,b); x.admit(false); ' % (V, t) + V + ' v(x); ' + L1 + 'v.put(i,a[i]); x.release(true); return mk(a,n); }(); ' + L1 + 'c[i]=w.get(i); }', L1 + 'b[i]=a[i]; ' + L1 + 'c[i]=a[i];', 'storage of the user is not released')
        ob('m_row', a2 + [ix], 'auto w=mkm(a,n,m).row(p); for (length_type j=0;j<m;++j) c[j]=w.get(j);', 'for (length_type j=0;j<m;++j) c[j]=a[p*m+j];', 'a row outlives its matrix')
        ob('m_col', a2 + [iy], 'auto w=mkm(a,n,m).col(q); ' + L1 + 'c[i]=w.get(i);', L1 + 'c[i]=a[i*m+q];', 'a column outlives its matrix')
        ob('m_diag', a2, 'auto w=mkm(a,n,m).diag(); for (length_type i=0;i<w.size();++i) c[i]=w.get(i);', 'for (length_type i=0;i<(n<m?n:m);++i) c[i]=a[i*m+i];', 'a diagonal outlives its matrix')
        ob('m_trans', a2, 'auto w=mkm(a,n,m).transpose(); ' + L2 + 'c[j*n+i]=w.get(j,i);', L2 + 'c[j*n+i]=a[i*m+j];', 'a transpose outlives its matrix')
        ob('m_sub', a2, 'auto w=mkm(a,n+1,m+1)(Domain<2>(Domain<1>(1,1,n),Domain<1>(1,1,m))).transpose().row(0); ' + L1 + 'c[i]=w.get(i);', L1 + 'c[i]=a[(i+1)*(m+1)+1];', 'a row of the transpose of a sub-matrix of a temporary')
        ob('m_expr', a2 + [ix], V + ' w(m); w=(mkm(a,n,m)+mkm(a+n*m,n,m)).row(p); for (length_type j=0;j<m;++j) c[j]=w.get(j);', 'for (length_type j=0;j<m;++j) c[j]=a[p*m+j]+a[n*m+p*m+j];', 'a row of an expression of temporaries')
        ob('m_exprt', a2, M + ' w(m,n); w=(mkm(a,n,m)*mkm(a,n,m)).transpose(); ' + L2 + 'c[j*n+i]=w.get(j,i);', L2 + 'c[j*n+i]=a[i*m+j]*a[i*m+j];', 'the transpose of an expression of temporaries')
        ob('m_vmmul', a2, M + ' w(n,m); w=vmmul<0>(mk(a,m),mkm(a+m,n,m)); ' + L2 + 'c[i*m+j]=w.get(i,j);', L2 + 'c[i*m+j]=a[j]*a[m+i*m+j];', 'a vector-matrix product of temporaries')
        ob('m_last', a2, 'Dense<2,%s,col2_type> *b=new Dense<2,%s,col2_type>(Domain<2>(n,m)); { Matrix<%s,Dense<2,%s,col2_type> > v(*b); ' % (t, t, t, t) + L2 + 'v.put(i,j,a[i*m+j]); } ' + L2 + 'c[i*m+j]=b->get(i,j); b->decrement_count();', L2 + 'c[i*m+j]=a[i*m+j];', 'a block outlives its views')
        ob('t_sub', a3 + [ix], 'auto w=mkt(a,n,m,l)(p,whole_domain,whole_domain); for (length_type j=0;j<m;++j) for (length_type k=0;k<l;++k) c[j*l+k]=w.get(j,k);', 'for (length_type j=0;j<m;++j) for (length_type k=0;k<l;++k) c[j*l+k]=a[(p*m+j)*l+k];', 'a plane outlives its tensor')
        ob('t_line', a3 + [ix, ('index_type', 'r_', 'r(0,l-1)')], 'auto w=mkt(a,n,m,l)(p,whole_domain,r_); for (length_type j=0;j<m;++j) c[j]=w.get(j);', 'for (length_type j=0;j<m;++j) c[j]=a[(p*m+j)*l+r_];', 'a line outlives its tensor')
        ob('t_exp', a3, TT + ' w(n,m,l); w=mkt(a,n,m,l)+mkt(a,n,m,l); ' + L3 + 'c[(i*m+j)*l+k]=w.get(i,j,k);', L3 + 'c[(i*m+j)*l+k]=a[(i*m+j)*l+k]+a[(i*m+j)*l+k];', 'a tensor expression of temporaries')
        ob('dda', a1 + [('stride_type', 's', '{1,2}')], V + ' v(n*s); for (length_type i=0;i<n*s;++i) v.put(i,a[i]); auto w=v(Domain<1>(0,s,n)); typedef decltype(w)::block_type B; { dda::Data<B,dda::inout,Layout<1,row1_type,unit_stride> > x(w.block()); ' + L1 + 'x.ptr()[i]+=a[i]; } ' + L1 + 'c[i]=v.get(i*s);', L1 + 'c[i]=a[i*s]+a[i];', 'the buffer of a data access')
        ob('arr', [PT(t, 'c'), PT(t, 'a'), N('n', 1, 4)], 'typedef ovxx::aligned_array<%s> A; A x(n); ' % t + L1 + 'x[i]=a[i]; A y(x); A z(16,n+1,a+n); A u; u=y; z=u; ' + L1 + 'c[i]=z[i]; if (x.size()||y.size()||u.size()||x.get()||z.size()!=n) throw 1;', L1 + 'c[i]=a[i];', 'aligned arrays hand over their storage')
        ob('arrf', [PT(t, 'c'), PT(t, 'a'), N('n', 1, 4)], 'typedef ovxx::aligned_array<%s> A; auto f=[&](length_type k)->A { return A(32,k,a); }; A x(f(n)); x=f(n+1); ' % t + 'for (length_type i=0;i<n+1;++i) c[i]=x[i]; if (x.size()!=n+1) throw 1;', 'for (length_type i=0;i<n+1;++i) c[i]=a[i];', 'aligned arrays returned from a function')
    for t, c in (('float', 'cfloat'), ('double', 'cdouble')):
        a1 = [PT(t, 'c'), PT(c, 'a'), N('n', 0, 4)]; L1 = 'for (length_type i=0;i<n;++i) '
        def ob(nm, A, i, s, w, n=20): o.append(Ob('%s_%s' % (nm, t), A, i, s, n=n, what=w))
        ob('z_real', a1, 'auto w=mk(a,n).real(); ' + L1 + 'c[i]=w.get(i);', L1 + 'c[i]=a[i].real();', 'the real part outlives its view')
        ob('z_imag', a1, 'auto w=mk(a,n+1)(Domain<1>(1,1,n)).imag(); ' + L1 + 'c[i]=w.get(i);', L1 + 'c[i]=a[i+1].imag();', 'the imaginary part of a sub-view of a temporary')
        ob('z_fun', a1, 'Vector<%s> w(n); w=magsq(mk(a,n))+real(mk(a,n))*imag(conj(mk(a,n))); ' % t + L1 + 'c[i]=w.get(i);', L1 + 'c[i]=std::norm(a[i])-a[i].real()*a[i].imag();', 'functions of a view of temporaries')
        ob('z_cmplx', [PT(c, 'c'), PT(t, 'a'), N('n', 0, 4)], 'Vector<%s> w(n); w=cmplx(mk(a,n),mk(a+n,n)); ' % c + L1 + 'c[i]=w.get(i);', L1 + 'c[i]=%s(a[i],a[n+i]);' % c, 'a complex view of two real ones of temporaries')
        ob('z_ite', [PT(t, 'c'), PT(t, 'a'), N('n', 0, 4)], 'Vector<%s> w(n); w=ite(mk(a,n)<mk(a+n,n),mk(a,n),mk(a+n,n)); ' % t + L1 + 'c[i]=w.get(i);', L1 + 'c[i]=a[i]<a[n+i]?a[i]:a[n+i];', 'a choice between views of temporaries')
        ob('z_clip', [PT(t, 'c'), PT(t, 'a'), N('n', 0, 4)], 'Vector<%s> w(n); w=clip(mk(a,n),%s(-1),%s(1),%s(-2),%s(3)); ' % (t, t, t, t, t) + L1 + 'c[i]=w.get(i);', L1 + 'c[i]=a[i]<=-1?-2:a[i]<1?a[i]:3;', 'clip of a temporary')
        ob('z_split', [PT(c, 'c'), PT(c, 'a'), N('n', 0, 4)], 'typedef ovxx::Strided<1,%s,Layout<1,row1_type,dense,split_complex> > B; Vector<%s,B> w=[&]{ Vector<%s,B> v(n); ' % (c, c, c) + L1 + 'v.put(i,a[i]); return v; }(); ' + L1 + 'c[i]=w.get(i);', L1 + 'c[i]=a[i];', 'both halves of a split block')
        ob('z_gather', [PT(t, 'c'), PT(t, 'a'), N('n', 0, 4)], 'auto w=[&]{ auto v=mk(a,n+1); Vector<Index<1> > x(n); for (index_type i=0;i<n;++i) x.put(i,Index<1>(n-i)); return gather(v,x); }(); ' + L1 + 'c[i]=w.get(i);', L1 + 'c[i]=a[n-i];', 'gather of temporaries')
    ps=[x for x in o if x.id.startswith('p_')]
    # null pointers are dereferenced where the source does, not assumed away
    # ------------------------------------------------------------------ storage handles: own memory or the user's, through every resize
    hs = []
    H = {'f_array': ('float', 'float', 'array', 'b', '(float*)0', 'h.ptr()[i]'), 'z_array': ('cfloat', 'cfloat', 'array', 'b', '(cfloat*)0', 'h.ptr()[i]'),
         'z_inter': ('cfloat', 'float', 'interleaved_complex', 'b', '(float*)0', 'h.ptr()[2*(i)]'), 'z_split': ('cfloat', 'float', 'split_complex', 'std::make_pair(b,b+9)', 'std::pair<float*,float*>((float*)0,(float*)0)', 'h.ptr().first[i]'),
         'z_any_a': ('cfloat', 'cfloat', 'any_storage_format', 'ovxx::pointer<cfloat>(b)', 'ovxx::pointer<cfloat>()', 'h.ptr().as<array>()[i]'),
         'z_any_s': ('cfloat', 'float', 'any_storage_format', 'ovxx::pointer<cfloat>(std::make_pair(b,b+9))', 'ovxx::pointer<cfloat>()', 'h.ptr().as<split_complex>().first[i]')}
    for hn, (T, Bt, fmt, buf, null, el) in H.items():
        HT = 'ovxx::host_storage<%s,%s>' % (T, fmt); at = lambda e: el.replace('i]', e + ']').replace('(i)', '(' + e + ')')
        step = '2*' if fmt == 'interleaved_complex' else ''
        for seq in [(x,) for x in 'ou'] + [(x, y) for x in 'ou' for y in 'rbz'] + [(x, y, z) for x in 'ou' for y in 'rbz' for z in 'rbz']:
            if len(seq) == 3 and tier != 'thorough' and hn not in ('f_array', 'z_split', 'z_any_s'): continue
            if 'any' in hn and seq[0] == 'u' and len(seq) > 1 and hn[-1] == 's': pass
            impl = 'ovxx::allocator *al=ovxx::allocator::get_default(); '; spec = ''; user = False; size = 'n'
            for k, x in enumerate(seq):
                if k == 0:
                    impl += '{ %s h(al,n,%s); ' % (HT, buf if x == 'u' else ('split_complex' if hn[-1] == 's' else 'array') if 'any' in hn else 'true'); user = x == 'u'
                elif x == 'b': impl += 'h.resize(m,%s); ' % buf; user = True; size = 'm'
                elif x == 'r': impl += 'h.resize(l); '; user = False; size = 'l'
                else: impl += 'h.resize(k,%s); ' % null; user = False; size = 'k'
                impl += 'if (h.size()!=%s || !h.is_allocated()) throw 1; for (index_type i=0;i<%s;++i) %s=a[i]+%s(%d); ' % (size, size, el, Bt, k)
                if user: spec += 'for (index_type i=0;i<%s;++i) b[%si]=a[i]+%s(%d); ' % (size, step, Bt, k)
                impl += 'c[%d]=%s; ' % (k, at(size + '-1')); spec += 'c[%d]=a[%s-1]+%s(%d); ' % (k, size, Bt, k)
            hs.append(Ob('hs_%s_%s' % (hn, ''.join(seq)), [PT(Bt, 'c'), PT(Bt, 'a'), PT(Bt, 'b'), N('n', 1, 4), N('m', 1, 4), N('l', 1, 4), N('k', 1, 4)], impl + '}', spec, n=10, what='a storage handle over ' + ', then '.join({'o': 'its own memory', 'u': "the user's memory", 'r': 'resized', 'b': "resized to the user's memory", 'z': 'resized with no memory given'}[x] for x in seq)))
    o += hs
    return chunks(ps, 10, 'r01p', PRE, flags=['-fno-delete-null-pointer-checks']) + chunks([x for x in o if x not in ps], 10, 'r01', PRE)
