"M08: user-supplied functions (function pointers, function objects, std::function) are applied to each element exactly as given."
from vp import *
RULE = "element i of the result is the user's function of elements i of the operands; the function itself is left uninterpreted"
PRE = '''
#include <functional>
extern "C" __attribute__((const)) float ufff(float) noexcept;
extern "C" __attribute__((const)) double udd(double) noexcept;
extern "C" __attribute__((const)) int uif(float) noexcept;
extern "C" __attribute__((const)) double ufd(float) noexcept;
extern "C" __attribute__((const)) int uii(int) noexcept;
extern "C" __attribute__((const)) float bff(float,float) noexcept;
extern "C" __attribute__((const)) double bdd(double,double) noexcept;
extern "C" __attribute__((const)) int bif(float,int) noexcept;
extern "C" __attribute__((const)) double bfd(float,double) noexcept;
extern "C" __attribute__((const)) float tff(float,float,float) noexcept;
extern "C" __attribute__((const)) double tdd(double,double,double) noexcept;
extern "C" __attribute__((const)) int tfid(float,int,double) noexcept;
template <typename R,typename A> struct FU { typedef A argument_type; typedef R result_type; R (*f)(A); FU(R(*x)(A)):f(x){} R operator()(A a) const { return f(a);} };
template <typename R,typename A,typename B> struct FB { typedef A first_argument_type; typedef B second_argument_type; typedef R result_type; R (*f)(A,B); FB(R(*x)(A,B)):f(x){} R operator()(A a,B b) const { return f(a,b);} };
template <typename R,typename A,typename B,typename C> struct FT { R (*f)(A,B,C); FT(R(*x)(A,B,C)):f(x){} R operator()(A a,B b,C c) const { return f(a,b,c);} };
template <typename R,typename A> FU<R,A> fu(R(*f)(A)) { return FU<R,A>(f); }
template <typename R,typename A,typename B> FB<R,A,B> fb(R(*f)(A,B)) { return FB<R,A,B>(f); }
template <typename R,typename A,typename B,typename C> FT<R,A,B,C> ft(R(*f)(A,B,C)) { return FT<R,A,B,C>(f); }
struct Shift { typedef float argument_type; typedef float result_type; float k; int m; Shift(float x,int y):k(x),m(y){} float operator()(float a) const { return a*k+m; } };
struct Mix { typedef float first_argument_type; typedef float second_argument_type; typedef float result_type; float k; Mix(float x):k(x){} float operator()(float a,float b) const { return a-k*b; } };
'''
UN = [('ufff', 'float', 'float'), ('udd', 'double', 'double'), ('uif', 'int', 'float'), ('ufd', 'double', 'float'), ('uii', 'int', 'int')]
BI = [('bff', 'float', 'float', 'float'), ('bdd', 'double', 'double', 'double'), ('bif', 'int', 'float', 'int'), ('bfd', 'double', 'float', 'double')]
TE = [('tff', 'float', 'float', 'float', 'float'), ('tdd', 'double', 'double', 'double', 'double'), ('tfid', 'int', 'float', 'int', 'double')]
SH = {1: ('VW(%s,%s,%s,n,%s)', ('s', 'q', '1', 'w')), 2: ('MW(%s,%s,%s,n,%s,m,%s)', (('m', '1'), ('1', '9'), ('2*m', '2'), ('1', 'n'))), 3: ('TW(%s,%s,%s,n,%s,m,%s,l,%s)', (('m*l', 'l', '1'), ('1', '5', '25'), ('25', '1', '5'), ('l*m', '1', 'm')))}
def arrs(d, ts):
    "declarations of views v0.. over pointers p0.., and the element expressions"
    f, st = SH[d]; dec = ''; el = []
    for i, t in enumerate(ts):
        if d == 1: dec += f % (t, 'v%d' % i, 'p%d' % i, st[i]) + ' '; el.append('p%d[(stride_type)i*%s]' % (i, st[i]))
        else: dec += f % ((t, 'v%d' % i, 'p%d' % i) + st[i]) + ' '; el.append('p%d[%s]' % (i, '+'.join('%s*(%s)' % x for x in zip('ije', st[i]))))
    return dec, el
def args(d, ts):
    a = [PT(t, 'p%d' % i) for i, t in enumerate(ts)]
    if d == 1: return a + [N(), S('s'), S('q'), S('w')]
    return a + [N('n', 0, 3), N('m', 0, 3)] + ([N('l', 0, 3)] if d == 3 else [])
LOOP = {1: 'for (length_type i=0;i<n;++i) %s', 2: 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) %s', 3: 'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) for (length_type e=0;e<l;++e) %s'}
def tus(tier):
    o = []
    for d in (1, 2, 3):
        D = 'VMT'[d - 1]
        def ob(nm, ts, expr, res, what):
            dec, el = arrs(d, ts)
            o.append(Ob('%s_%s' % (nm, D), args(d, ts), dec + 'v0=%s;' % expr, LOOP[d] % ('%s=%s;' % (el[0], res % tuple(el[1:]))), what=what))
        for f, R, A in UN:
            ob('up_' + f, (R, A), 'unary(%s,v1)' % f, f + '(%s)', 'unary of a function pointer')
            ob('uo_' + f, (R, A), 'unary(fu(%s),v1)' % f, f + '(%s)', 'unary of a function object')
            ob('ur_' + f, (R, A), 'unary<%s>(fu(%s),v1)' % (R, f), f + '(%s)', 'unary of a function object with a stated result type')
            ob('us_' + f, (R, A), 'unary<%s>(std::ptr_fun(%s),v1)' % (R, f), f + '(%s)', 'unary of an adapted function pointer')
        ob('ue', ('float', 'float', 'float'), 'unary(ufff,v1*v2)+v2', 'ufff(%s*%s)' % ('%s', '%s') + '+' + arrs(d, ('float',) * 3)[1][2].replace('%', '%%'), 'unary inside an expression')
        ob('un', ('double', 'float'), 'unary(udd,unary(ufd,v1))', 'udd(ufd(%s))', 'nested unary')
        for f, R, A, B in BI:
            ob('bp_' + f, (R, A, B), 'binary(%s,v1,v2)' % f, f + '(%s,%s)', 'binary of a function pointer')
            ob('bo_' + f, (R, A, B), 'binary(fb(%s),v1,v2)' % f, f + '(%s,%s)', 'binary of a function object')
            ob('br_' + f, (R, A, B), 'binary<%s>(fb(%s),v1,v2)' % (R, f), f + '(%s,%s)', 'binary of a function object with a stated result type')
            ob('bs_' + f, (R, A, B), 'binary<%s>(std::ptr_fun(%s),v1,v2)' % (R, f), f + '(%s,%s)', 'binary of an adapted function pointer')
        for f, R, A, B, C in TE:
            ob('tp_' + f, (R, A, B, C), 'ternary(%s,v1,v2,v3)' % f, f + '(%s,%s,%s)', 'ternary of a function pointer')
            ob('tr_' + f, (R, A, B, C), 'ternary<%s>(ft(%s),v1,v2,v3)' % (R, f), f + '(%s,%s,%s)', 'ternary of a function object')
        # what the result is to its own reader: element type, element access, reductions, further expressions
        GET={1:'n ? unary(%s,v1).get(n-1) : 0',2:'n&&m ? unary(%s,v1).get(n-1,m-1) : 0',3:'n&&m&&l ? unary(%s,v1).get(n-1,m-1,l-1) : 0'}[d]
        for f,R,A in UN:
            dec, el = arrs(d, (R, A))
            o.append(Ob('ug_%s_%s' % (f, D), args(d, (R, A)), dec + 'return '+GET % f+';', {1:'if (!n) return 0; length_type i=n-1;',2:'if (!n||!m) return 0; length_type i=n-1,j=m-1;',3:'if (!n||!m||!l) return 0; length_type i=n-1,j=m-1,e=l-1;'}[d]+' return %s(%s);' % (f, el[1]), ret=R, what='an element of the result of unary'))
            o.append(Ob('ux_%s_%s' % (f, D), args(d, (R, A)), dec + 'v0=unary(%s,v1)+v0;' % f, LOOP[d] % ('%s=%s(%s)+%s;' % (el[0], f, el[1], el[0])), what='the result of unary as an operand'))
            o.append(Ob('uz_%s_%s' % (f, D), args(d, (R, A)), dec + 'v0=min(unary(%s,v1),v0);' % f, LOOP[d] % ('%s=std::min(%s(%s),%s);' % (el[0], f, el[1], el[0])), what='the result of unary as the operand of a function'))
        for f,R,A,B in BI:
            dec, el = arrs(d, (R, A, B))
            o.append(Ob('bg_%s_%s' % (f, D), args(d, (R, A, B)), dec + 'return '+GET.replace('unary(%s,v1)','binary(%s,v1,v2)') % f+';', {1:'if (!n) return 0; length_type i=n-1;',2:'if (!n||!m) return 0; length_type i=n-1,j=m-1;',3:'if (!n||!m||!l) return 0; length_type i=n-1,j=m-1,e=l-1;'}[d]+' return %s(%s,%s);' % (f, el[1], el[2]), ret=R, what='an element of the result of binary'))
        for f,R,A,B,C in TE:
            dec, el = arrs(d, (R, A, B, C))
            o.append(Ob('tg_%s_%s' % (f, D), args(d, (R, A, B, C)), dec + 'return '+GET.replace('unary(%s,v1)','ternary(%s,v1,v2,v3)') % f+';', {1:'if (!n) return 0; length_type i=n-1;',2:'if (!n||!m) return 0; length_type i=n-1,j=m-1;',3:'if (!n||!m||!l) return 0; length_type i=n-1,j=m-1,e=l-1;'}[d]+' return %s(%s,%s,%s);' % (f, el[1], el[2], el[3]), ret=R, what='an element of the result of ternary'))
        # in place
        dec, el = arrs(d, ('float', 'float'))
        o.append(Ob('ui_' + D, args(d, ('float', 'float')), dec + 'v0=binary(bff,v1,v0);', LOOP[d] % ('%s=bff(%s,%s);' % (el[0], el[1], el[0])), what='binary with the destination as its second operand'))
        o.append(Ob('uu_' + D, args(d, ('float', 'float')), dec + 'v0+=unary(ufff,v1);', LOOP[d] % ('%s+=ufff(%s);' % (el[0], el[1])), what='compound assignment of unary'))
        # function objects that carry state
        o.append(Ob('st1_' + D, args(d, ('float', 'float')) + [('float', 'k', ''), ('int', 'z', 'r(-3,3)')], dec + 'v0=unary(Shift(k,z),v1);', LOOP[d] % ('%s=%s*k+z;' % (el[0], el[1])), what='unary of a function object with state'))
        o.append(Ob('st2_' + D, args(d, ('float', 'float')) + [('float', 'k', '')], dec + 'v0=binary(Mix(k),v1,v0);', LOOP[d] % ('%s=%s-k*%s;' % (el[0], el[1], el[0])), what='binary of a function object with state'))
        o.append(Ob('ty_' + D, args(d, ('float', 'float')), dec + 'Vector<float> x(1,0.f); (void)x; length_type a=unary(ufff,v1).size(); return a;', 'return %s;' % {1: 'n', 2: 'n*m', 3: 'n*m*l'}[d], ret='length_type', what='the size of the result'))
    return chunks(o, 12, 'm08', P + PRE, opts=dict(compiles=True))
