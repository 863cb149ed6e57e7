"""Element-wise functions: every named function and operator over views computes its scalar definition on
the operands in the documented order, for view/view, view/scalar and scalar/view arguments, and its result
has the documented value type."""
from vp import *
CPPN={'cfloat':'std::complex<float>','cdouble':'std::complex<double>'}
def tus(tier):
    o = []
    def un(f, e, t='float', r=None, dom=''):
        r = r or t; fn = {'~':'bnot_','!':'lnot_','-':'minus_','+':'plus_'}.get(f,f)
        o.append(Ob('u_%s_%s' % (fn,t), [PT(r,'a'),PT(t,'b',dom),N(),S('sa'),S('sb')], 'VW(%s,u,a,n,sa) VW(%s,v,b,n,sb) u=%s(v);' % (r,t,f),
           'for (length_type i=0;i<n;++i) { %s x=b[(stride_type)i*sb]; a[(stride_type)i*sa]=%s; }' % (t,e), what='%s over %s' % (f,t)))
        if t in ('float','double','cfloat') and f not in ('bnot','lnot','!','~','-','+'):
            o.append(Ob('us_%s_%s' % (f,t), [PT(r,'a'),PT(t,'b',dom)], 'a[0]=vsip::%s(b[0]);' % f, '%s x=b[0]; a[0]=%s;' % (t,e), what='scalar %s over %s' % (f,t)))
    for f in 'acos asin atan ceil cos cosh exp floor log log10 sin sinh sqrt tan tanh'.split():
        un(f, 'std::%s(x)' % f, dom='-0.9..0.9' if f in('acos','asin') else '0.1..5' if f in ('log','log10','sqrt') else '-3..3')
    for f in 'ceil cos exp floor sqrt atan log'.split(): un(f, 'std::%s(x)' % f, 'double', dom='0.1..3')
    for f in 'cos exp sin sqrt log cosh sinh tan tanh'.split(): un(f, 'std::%s(x)' % f, 'cfloat', dom='0.1..1')
    un('exp10','::exp10f(x)',dom='-2..2'); un('exp10','::exp10(x)','double',dom='-2..2')
    un('neg','-x'); un('neg','-x','cfloat'); un('neg','-x','int')
    un('sq','x*x'); un('sq','x*x','cfloat'); un('recip','1.f/x',dom='0.5..3'); un('recip','cfloat(1)/x','cfloat',dom='0.5..3')
    un('rsqrt','1.f/std::sqrt(x)',dom='0.5..3'); un('mag','std::fabs(x)'); un('mag','std::fabs(x)','double'); un('mag','x<0?-x:x','int')
    un('magsq','x*x'); un('mag','std::abs(x)','cfloat','float'); un('magsq','x.real()*x.real()+x.imag()*x.imag()','cfloat','float')
    un('conj','cfloat(x.real(),-x.imag())','cfloat'); un('real','x.real()','cfloat','float'); un('imag','x.imag()','cfloat','float')
    un('arg','std::arg(x)','cfloat','float'); un('euler','cfloat(std::cos(x),std::sin(x))','float','cfloat')
    un('bnot','~x','int'); un('lnot','!x','bool','bool'); un('~','~x','int'); un('!','!x','bool','bool')
    un('-','-x','cfloat'); un('+','x','cfloat')
    nu = len(o)
    tu = [TU('m01u%d' % i, P, o[i:i+22]) for i in range(0,nu,22)]
    o2 = []
    def bi(f, e, t1='float', t2='float', r=None, d1='', d2='', forms='vv vs sv ss'):
        r = r or t1
        L = 'for (length_type i=0;i<n;++i) { %s x=%s; %s y=%s; a[(stride_type)i*sa]=%s; }'
        nm = {'==':'eq_','>=':'ge_','>':'gt_','<=':'le_','<':'lt_','!=':'ne_','&&':'land_','&':'band_','||':'lor_','|':'bor_','^':'bxor_'}.get(f,f)
        if nm == f: fx = lambda p,q: '%s(%s,%s)' % (f,p,q)
        else: fx = lambda p,q: '(%s %s %s)' % (p,f,q)
        A = [PT(r,'a'),PT(t1,'b',d1),PT(t2,'c',d2),N(),S('sa'),S('sb'),S('sc')]
        V = 'VW(%s,u,a,n,sa) VW(%s,v,b,n,sb) VW(%s,w,c,n,sc) ' % (r,t1,t2)
        X='b[(stride_type)i*sb]'; Y='c[(stride_type)i*sc]'
        k = '%s_%s_%s' % (nm,t1,t2)
        if 'vv' in forms: o2.append(Ob('b_vv_'+k, A, V+'u=%s;' % fx('v','w'), L % (t1,X,t2,Y,e), what='%s(view, view)' % f))
        if 'vs' in forms: o2.append(Ob('b_vs_'+k, A, V+'%s s=c[0]; u=%s;' % (t2,fx('v','s')), '%s s=c[0];' % t2 + L % (t1,X,t2,'s',e), what='%s(view, scalar)' % f))
        if 'sv' in forms: o2.append(Ob('b_sv_'+k, A, V+'%s s=b[0]; u=%s;' % (t1,fx('s','w')), '%s s=b[0];' % t1 + L % (t1,'s',t2,Y,e), what='%s(scalar, view)' % f))
        if 'ss' in forms and nm == f: o2.append(Ob('b_ss_'+k, [PT(r,'a'),PT(t1,'b',d1),PT(t2,'c',d2)], '%s x=b[0]; %s y=c[0]; a[0]=vsip::%s(x,y);' % (t1,t2,f), '%s x=b[0]; %s y=c[0]; a[0]=%s;' % (t1,t2,e), what='scalar %s' % f))
    noss='vv vs sv'
    bi('add','x+y'); bi('sub','x-y'); bi('mul','x*y'); bi('div','x/y',d2='1..4'); bi('atan2','std::atan2(x,y)'); bi('fmod','std::fmod(x,y)',d1='1..9',d2='1..4'); bi('hypot','::hypotf(x,y)')
    bi('hypot','::hypot(x,y)','double','double'); bi('pow','std::pow(x,y)',d1='0.5..2',d2='0.5..2')
    bi('max','x<y?y:x',forms='vv vs sv ss'); bi('min','y<x?y:x'); bi('max','x<y?y:x','int','int'); 
    CC=('cfloat','cfloat')
    bi('sub','x-y',*CC); bi('mul','x*y',*CC); bi('add','x+y','cfloat','float'); bi('jmul','x*std::conj(y)',*CC); bi('sub','x-y','float','cfloat','cfloat')
    mg=lambda v:'(%s.real()*%s.real()+%s.imag()*%s.imag())' % (v,v,v,v)
    bi('maxmg','std::abs(x)>std::abs(y)?std::abs(x):std::abs(y)','cfloat','cfloat','float'); bi('minmg','std::abs(x)<std::abs(y)?std::abs(x):std::abs(y)','cfloat','cfloat','float')
    bi('maxmgsq','%s>%s?%s:%s' % (mg('x'),mg('y'),mg('x'),mg('y')),'cfloat','cfloat','float'); bi('minmgsq','%s<%s?%s:%s' % (mg('x'),mg('y'),mg('x'),mg('y')),'cfloat','cfloat','float')
    bi('maxmg','std::fabs(x)>std::fabs(y)?std::fabs(x):std::fabs(y)'); bi('minmg','std::fabs(x)<std::fabs(y)?std::fabs(x):std::fabs(y)'); bi('maxmgsq','x*x>y*y?x*x:y*y'); bi('minmgsq','x*x<y*y?x*x:y*y')
    for f,e in [('eq','x==y'),('ne','x!=y'),('ge','x>=y'),('gt','x>y'),('le','x<=y'),('lt','x<y')]:
        bi(f,e,r='bool',d1='{0,1,2}',d2='{0,1,2}'); bi({'eq':'==','ne':'!=','ge':'>=','gt':'>','le':'<=','lt':'<'}[f],e,r='bool',d1='{0,1,2}',d2='{0,1,2}')
    bi('eq','x==y','cfloat','cfloat','bool','{0,1}','{0,1}'); bi('!=','x!=y','int','int','bool','{0,1}','{0,1}')
    for f,e in [('band','x&y'),('bor','x|y'),('bxor','x^y'),('&','x&y'),('|','x|y'),('^','x^y')]: bi(f,e,'int','int')
    for f,e in [('land','x&&y'),('lor','x||y'),('lxor','x!=y'),('&&','x&&y'),('||','x||y'),('^','x!=y')]: bi(f,e,'bool','bool','bool')
    # operands of different types: the computation is in the promoted type
    for t1,t2,r in (('int','float','float'),('float','int','float'),('float','double','double'),('double','float','double'),('short','long','long'),('long','short','long'),
                    ('char','int','int'),('int','char','int'),('char','float','float'),('short','double','double'),('long','float','float')):
        e=lambda op: '%s(x)%s%s(y)' % (CPPN.get(r,r),op,CPPN.get(r,r))
        for f,op in (('+','+'),('-','-'),('*','*')): bi({'+':'add','-':'sub','*':'mul'}[f],e(op),t1,t2,r,'{-3,2,100}' if t1 in ('char','short') else '','{-3,2,100}' if t2 in ('char','short') else '',forms='vv vs sv' if t1 in ('int','float') else 'vv')
    TY=('bool','char','short','int','long','float','double'); CX=['cfloat','cdouble']
    def prom(a,b):
        c=a in CX or b in CX; a={'cfloat':'float','cdouble':'double'}.get(a,a); b={'cfloat':'float','cdouble':'double'}.get(b,b)
        t=TY[max(TY.index(a),TY.index(b))]; return 'std::complex<%s>' % t if c else t
    for a in TY+tuple(CX):
        o2.append(Ob('prom_'+a, [('index_type','q','r(0,%d)'%(len(TY)+1))], 'switch (q) {'+''.join('case %d: return ovxx::is_same<typename Promotion<%s,%s>::type,%s>::value; ' % (i,CPPN.get(a,a),CPPN.get(b,b),prom(a,b)) for i,b in enumerate(TY+tuple(CX)) if not (a in CX and b in TY[:5] or b in CX and a in TY[:5]))+'} return true;', 'return true;', ret='bool', what='promotion of %s' % a))
    tu += [TU('m01b%d' % i, P, o2[i:i+20]) for i in range(0,len(o2),20)]
    o3 = []
    def te(f,e,t='float'):
        A=[PT(t,'a'),PT(t,'b'),PT(t,'c'),PT(t,'d'),N(),S('sa'),S('sb'),S('sc'),S('sd')]
        V=''.join('VW(%s,%s,%s,n,s%s) ' % (t,n,p,p) for n,p in (('u','a'),('x','b'),('y','c'),('z','d')))
        for form in ('vvv','vvs','vsv','svv','vss','svs','ssv'):
            if f=='ite': continue
            D=''; S2=''; call=[]; sp=[]
            for q,(n,p) in enumerate((('x','b'),('y','c'),('z','d'))):
                if form[q]=='v': call.append(n); sp.append('%s %s=%s[(stride_type)i*s%s];' % (t,n,p,p))
                else: D+='%s s%d=%s[0];' % (t,q,p); call.append('s%d'%q); sp.append('%s %s=s%d;' % (t,n,q))
            o3.append(Ob('t_%s_%s_%s' % (f,form,t), A, V+D+'u=%s(%s);' % (f,','.join(call)), D+'for (length_type i=0;i<n;++i) { %s a[(stride_type)i*sa]=%s; }' % (''.join(sp),e), what='%s(%s)' % (f,form)))
        o3.append(Ob('ts_%s_%s' % (f,t), [PT(t,'a'),PT(t,'b')], 'a[0]=vsip::%s(b[0],b[1],b[2]);' % f, '%s x=b[0],y=b[1],z=b[2]; a[0]=%s;' % (t,e), what='scalar %s' % f))
    te('am','(x+y)*z'); te('ma','x*y+z'); te('msb','x*y-z'); te('sbm','(x-y)*z'); te('expoavg','x*y+(1.f-x)*z'); te('ma','x*y+z','cfloat'); te('expoavg','x*y+(cfloat(1)-x)*z','cfloat')
    o3.append(Ob('t_ite', [PT('float','a'),PT('bool','p'),PT('float','b'),PT('float','c'),N(),S('sa'),S('sp'),S('sb'),S('sc')], 'VW(float,u,a,n,sa) VW(bool,q,p,n,sp) VW(float,v,b,n,sb) VW(float,w,c,n,sc) u=ite(q,v,w);', 'for (length_type i=0;i<n;++i) a[(stride_type)i*sa]=p[(stride_type)i*sp]?b[(stride_type)i*sb]:c[(stride_type)i*sc];', what='ite(views)'))
    o3.append(Ob('t_ite2', [PT('float','a'),PT('float','b'),N(),S('sa'),S('sb')], 'VW(float,u,a,n,sa) VW(float,v,b,n,sb) u=ite(v>0.5f,v,2.f*v);', 'for (length_type i=0;i<n;++i) {float x=b[(stride_type)i*sb]; a[(stride_type)i*sa]=x>0.5f?x:2.f*x;}', what='ite(expression)'))
    tu += [TU('m01t%d' % i, P, o3[i:i+20]) for i in range(0,len(o3),20)]
    return tu
def analyses(tier): return []
