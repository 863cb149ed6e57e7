"""Selection and generation: gather, scatter, indexbool, first, ramp, clip, invclip and swap produce exactly the
elements, positions and counts their definitions give."""
from vp import *
def tus(tier):
    o = []
    ID = '{0,1,2}'
    IX1='W::Blk<1,Index<1> > ib(reinterpret_cast<Index<1>*>(x),%s,1); Vector<Index<1>,W::Blk<1,Index<1> > > iv(ib); '
    IX2='W::Blk<1,Index<2> > ib(reinterpret_cast<Index<2>*>(x),%s,1); Vector<Index<2>,W::Blk<1,Index<2> > > iv(ib); '
    IX3='W::Blk<1,Index<3> > ib(reinterpret_cast<Index<3>*>(x),%s,1); Vector<Index<3>,W::Blk<1,Index<3> > > iv(ib); '
    for t in ('float','cfloat','int','double','bool'):
        if t!='bool':
            o.append(Ob('gather1_'+t,[PT(t,'c'),PT(t,'a'),PT('index_type','x',ID),N('n',1,4),S('s')],'DV(%s,u,c,n) VW(%s,v,a,5,s) '%(t,t)+IX1%'n'+'u=gather(v,iv);','for (length_type i=0;i<n;++i) c[i]=a[(stride_type)x[i]*s];',what='gather from a %s vector'%t))
            o.append(Ob('gather2_'+t,[PT(t,'c'),PT(t,'a'),PT('index_type','x',ID),N('n',1,4),S('s'),S('r')],'DV(%s,u,c,n) MW(%s,v,a,5,s,5,r) '%(t,t)+IX2%'n'+'u=gather(v,iv);','for (length_type i=0;i<n;++i) c[i]=a[(stride_type)x[2*i]*s+(stride_type)x[2*i+1]*r];',what='gather from a %s matrix'%t))
            o.append(Ob('scatter1_'+t,[PT(t,'c'),PT(t,'a'),PT('index_type','x',ID),N('n',0,4),S('s'),S('q')],'VW(%s,u,c,5,s) VW(%s,v,a,n,q) '%(t,t)+IX1%'n'+'scatter(v,iv,u);','for (length_type i=0;i<n;++i) c[(stride_type)x[i]*s]=a[(stride_type)i*q];',what='scatter into a %s vector'%t))
            o.append(Ob('scatter2_'+t,[PT(t,'c'),PT(t,'a'),PT('index_type','x',ID),N('n',0,4),S('s'),S('r')],'MW(%s,u,c,5,s,5,r) VW(%s,v,a,n,1) '%(t,t)+IX2%'n'+'scatter(v,iv,u);','for (length_type i=0;i<n;++i) c[(stride_type)x[2*i]*s+(stride_type)x[2*i+1]*r]=a[i];',what='scatter into a %s matrix'%t))
        if t in ('float','int'):
            o.append(Ob('gather3_'+t,[PT(t,'c'),PT(t,'a'),PT('index_type','x',ID),N('n',1,4),S('s')],'DV(%s,u,c,n) TW(%s,v,a,4,s,4,7*s,4,50*s) '%(t,t)+IX3%'n'+'u=gather(v,iv);','for (length_type i=0;i<n;++i) c[i]=a[(stride_type)x[3*i]*s+(stride_type)x[3*i+1]*7*s+(stride_type)x[3*i+2]*50*s];',what='gather from a %s tensor'%t))
            o.append(Ob('scatter3_'+t,[PT(t,'c'),PT(t,'a'),PT('index_type','x',ID),N('n',0,4),S('s')],'TW(%s,u,c,4,s,4,7*s,4,50*s) VW(%s,v,a,n,1) '%(t,t)+IX3%'n'+'scatter(v,iv,u);','for (length_type i=0;i<n;++i) c[(stride_type)x[3*i]*s+(stride_type)x[3*i+1]*7*s+(stride_type)x[3*i+2]*50*s]=a[i];',what='scatter into a %s tensor'%t))
    for t in ('bool','int'):
        o.append(Ob('ib1_'+t,[PT(t,'a','0..1'),PT('index_type','x'),N('n',0,6),N('k',0,6),S('s')],'VW(%s,v,a,n,s) '%t+IX1%'k'+'return indexbool(v,iv);','length_type z=0; for (length_type i=0;i<n;++i) if (a[(stride_type)i*s]) { if (z<k) x[z]=i; ++z; } return z;',ret='length_type',n=40,what='indexbool of a %s vector, index vector of any length'%t))
        o.append(Ob('ib2_'+t,[PT(t,'a','0..1'),PT('index_type','x'),N('n',0,3),N('m',0,3),N('k',0,6)],'MW(%s,v,a,n,m,m,1) '%t+IX2%'k'+'return indexbool(v,iv);','length_type z=0; for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) if (a[i*m+j]) { if (z<k) { x[2*z]=i; x[2*z+1]=j; } ++z; } return z;',ret='length_type',n=40,what='indexbool of a %s matrix, index vector of any length'%t))
    for t in ('float','int'):
        for op,fn in (('>','std::greater'),('==','std::equal_to')):
            o.append(Ob('first_%s_%s'%({'>':'gt','==':'eq'}[op],t),[PT(t,'a','{0,1,2}'),PT(t,'b','{0,1,2}'),N('n',1,5),('index_type','g','r(0,7)'),S('s'),S('q')],'VW(%s,v,a,n,s) VW(%s,w,b,n,q) return first(g,%s<%s>(),v,w);'%(t,t,fn,t),'if (g>n) return g; for (length_type i=g;i<n;++i) if (a[(stride_type)i*s] %s b[(stride_type)i*q]) return i; return n;'%op,ret='length_type',n=60,what='first index from a start at which a predicate holds'))
    for t in ('float','double','int','cfloat'):
        ar = [(t,'x',''),(t,'y','')] if t!='cfloat' else [('float','xr',''),('float','xi',''),('float','yr',''),('float','yi','')]
        dc = '' if t!='cfloat' else 'cfloat x(xr,xi), y(yr,yi); '
        o.append(Ob('ramp_'+t,[PT(t,'c'),N('n',1,6),S('s')]+ar,'VW(%s,u,c,n,s) %su=ramp(x,y,n);'%(t,dc),dc+'processor_set(); for (length_type i=0;i<n;++i) c[(stride_type)i*s]=x+%s(i)*y;'%t,what='ramp of %s'%t))
        o.append(Ob('rampe_'+t,[PT(t,'c'),PT(t,'b'),N('n',1,6)]+ar,'VW(%s,u,c,n,1) VW(%s,w,b,n,1) %su=w*ramp(x,y,n)+w;'%(t,t,dc),dc+'processor_set(); for (length_type i=0;i<n;++i) c[i]=b[i]*(x+%s(i)*y)+b[i];'%t,what='ramp of %s inside an expression'%t))
    for t,u in (('float','float'),('int','int'),('float','double'),('float','int')):
        th=[(t,'l','r(-2,0)'),(t,'h','r(0,2)'),(u,'p','r(-9,9)'),(u,'q','r(-9,9)')]
        o.append(Ob('clip_%s_%s'%(t,u),[PT(u,'c'),PT(t,'a','{-3,-2,-1,0,1,2,3}'),N('n',0,6),S('s'),S('sa')]+th,'VW(%s,w,c,n,s) VW(%s,v,a,n,sa) w=clip(v,l,h,p,q);'%(u,t),'for (length_type i=0;i<n;++i) { %s x=a[(stride_type)i*sa]; c[(stride_type)i*s]= x<=l ? p : x<h ? (%s)x : q; }'%(t,u),n=60,what='clip of a %s vector to %s'%(t,u)))
        o.append(Ob('clipm_%s_%s'%(t,u),[PT(u,'c'),PT(t,'a','{-3,-2,-1,0,1,2,3}'),N('n',1,3),N('m',1,3)]+th,'DM(%s,col2_type,w,c,n,m) DM(%s,row2_type,v,a,n,m) w=clip(v,l,h,p,q);'%(u,t),'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) { %s x=a[i*m+j]; c[j*n+i]= x<=l ? p : x<h ? (%s)x : q; }'%(t,u),n=40,what='clip of a %s matrix to %s'%(t,u)))
        th=[(t,'l','r(-2,0)'),(t,'z','r(-1,1)'),(t,'h','r(0,2)'),(u,'p','r(-9,9)'),(u,'q','r(-9,9)')]
        o.append(Ob('iclip_%s_%s'%(t,u),[PT(u,'c'),PT(t,'a','{-3,-2,-1,0,1,2,3}'),N('n',0,6),S('s'),S('sa')]+th,'VW(%s,w,c,n,s) VW(%s,v,a,n,sa) w=invclip(v,l,z,h,p,q);'%(u,t),'for (length_type i=0;i<n;++i) { %s x=a[(stride_type)i*sa]; c[(stride_type)i*s]= x<l ? (%s)x : x<z ? p : x<=h ? q : (%s)x; }'%(t,u,u),n=60,what='invclip of a %s vector to %s'%(t,u)))
    for t in ('float','cfloat','int'):
        o.append(Ob('swapv_'+t,[PT(t,'a'),PT(t,'b'),N(),S('s'),S('r')],'VW(%s,v,a,n,s) VW(%s,w,b,n,r) vsip::swap(v,w);'%(t,t),'for (length_type i=0;i<n;++i) { %s x=a[(stride_type)i*s]; a[(stride_type)i*s]=b[(stride_type)i*r]; b[(stride_type)i*r]=x; }'%t,what='swap of %s vectors'%t))
        o.append(Ob('swapd_'+t,[PT(t,'a'),PT(t,'b'),N('n',1,5)],'DV(%s,v,a,n) DV(%s,w,b,n) vsip::swap(v,w);'%(t,t),'for (length_type i=0;i<n;++i) { %s x=a[i]; a[i]=b[i]; b[i]=x; }'%t,what='swap of dense %s vectors'%t))
        for oa in 'rc':
            for ob in 'rc':
                f=lambda k:'i*m+j' if k=='r' else 'j*n+i'
                o.append(Ob('swapm_%s%s_%s'%(oa,ob,t),[PT(t,'a'),PT(t,'b'),N('n',1,3),N('m',1,3)],'DM(%s,%s,v,a,n,m) DM(%s,%s,w,b,n,m) vsip::swap(v,w);'%(t,{'r':'row2_type','c':'col2_type'}[oa],t,{'r':'row2_type','c':'col2_type'}[ob]),'for (length_type i=0;i<n;++i) for (length_type j=0;j<m;++j) { %s x=a[%s]; a[%s]=b[%s]; b[%s]=x; }'%(t,f(oa),f(oa),f(ob),f(ob)),n=40,what='swap of %s matrices of orders %s and %s'%(t,oa,ob)))
    rp=[x for x in o if x.id.startswith('ramp')]; o=[x for x in o if not x.id.startswith('ramp')]
    inc='#include <vsip/selgen.hpp>\n#include <functional>\n'
    # ramps are decided in the serial configuration (the default map of a generator asks the communicator otherwise)
    return chunks(o, 11, 'm07', '#include "mac.hpp"\n'+inc) + chunks(rp, 8, 'm07r', '#include <ovxx/config.hpp>\n#undef OVXX_PARALLEL\n#undef OVXX_HAVE_MPI\n#include "mac.hpp"\n'+inc, opts=dict(first_use=['pset_block_']))
