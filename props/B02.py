"""User-specified storage: admit makes the block's elements equal to the user's data, release writes the block's elements
back, the update flags suppress exactly the copying, rebind replaces the user's data, and find, user_storage and admitted
report the state, for every storage format the user supplies and every format the block uses internally."""
from vp import *
PRE = P + '#include <ovxx/strided.hpp>\n'
def tus(tier):
    o=[]
    fmts={'float':['array'],'int':['array'],'double':['array'],'cfloat':['array','interleaved_complex','split_complex'],'cdouble':['array','split_complex']}
    U={'cfloat':'float','cdouble':'double'}
    kinds={'float':'a','int':'a','double':'a','cfloat':'ais','cdouble':'ais'}
    K={'a':'array_format','i':'interleaved_format','s':'split_format'}
    for t in fmts:
        u=U.get(t,t); c=t[0]=='c'
        for f in fmts[t]:
            for k in kinds[t]:
                for dim in ((1,2) if t in('float','cfloat') else (1,)):
                    SZ='nm'[:dim]; tot='*'.join(SZ)
                    od='row1_type' if dim==1 else 'col2_type'
                    SA=[('length_type',x,'r(1,3)') for x in SZ]
                    def arg(p): return [PT(t,p)] if k=='a' else [PT(u,p)] if k=='i' else [PT(u,p+'r'),PT(u,p+'i')]
                    def use(p): return p if k in 'ai' else p+'r,'+p+'i'
                    def el(p,i): return {'a':'%s[%s]'%(p,i),'i':'%s(%s[2*(%s)],%s[2*(%s)+1])'%(t,p,i,p,i),'s':'%s(%sr[%s],%si[%s])'%(t,p,i,p,i)}[k]
                    def st(p,i,v): return {'a':'%s[%s]=%s;'%(p,i,v),'i':'{%s q_=%s; %s[2*(%s)]=q_.real(); %s[2*(%s)+1]=q_.imag();}'%(t,v,p,i,p,i),'s':'{%s q_=%s; %sr[%s]=q_.real(); %si[%s]=q_.imag();}'%(t,v,p,i,p,i)}[k]
                    B='ovxx::Strided<%d,%s,Layout<%d,%s,dense,%s> > q(Domain<%d>(%s),%%s); '%(dim,t,dim,od,f,dim,','.join(SZ))
                    compat = (f=='split_complex')==(k=='s')
                    nm='%s_%s_%s%d'%(t,f[:3],k,dim)
                    L='for (index_type i=0;i<%s;++i) '%tot
                    w='%s storage, %s block of %s, %d-D'%(K[k],f,t,dim)
                    neg=lambda e:'%s+%s(1)'%(e,t)
                    # admit copies in
                    o.append(Ob('in_'+nm, [PT(t,'out')]+arg('p')+SA, B%use('p')+'q.admit(true); '+L+'out[i]=q.get(i);', L+'out[i]=%s;'%el('p','i'), what='admit(true): '+w))
                    # release copies out
                    o.append(Ob('io_'+nm, arg('p')+SA, B%use('p')+'q.admit(true); '+L+'q.put(i,%s); q.release(true);'%neg('q.get(i)'), L+st('p','i',neg(el('p','i'))), what='admit, modify, release: '+w))
                    o.append(Ob('ov_'+nm, [PT(t,'x')]+arg('p')+SA, B%use('p')+'q.admit(false); '+L+'q.put(i,x[i]); q.release(true);', L+st('p','i','x[i]'), what='admit(false), overwrite, release: '+w))
                    # releasing without update leaves the user's data alone when it is held elsewhere
                    if not compat:
                        o.append(Ob('nr_'+nm, [PT(t,'x')]+arg('p')+SA, B%use('p')+'q.admit(true); '+L+'q.put(i,x[i]); q.release(false);', ';', what='release(false) of a block held in another format: '+w))
                        o.append(Ob('na_'+nm, [PT(t,'x'),PT(t,'out')]+arg('p')+SA, B%use('p')+'q.admit(false); '+L+'q.put(i,x[i]); q.release(false); q.admit(false); '+L+'out[i]=q.get(i);', L+'out[i]=x[i];', what='no copying without update: '+w))
                    # a second admit must not fetch the user's data again, a second release must not write it again
                    o.append(Ob('aa_'+nm, [PT(t,'x')]+arg('p')+SA, B%use('p')+'q.admit(true); '+L+'q.put(i,x[i]); q.admit(true); q.release(true);', L+st('p','i','x[i]'), what='admitting twice: '+w))
                    o.append(Ob('rr_'+nm, [PT(t,'x'),PT(t,'y')]+arg('p')+SA, B%use('p')+'q.admit(true); '+L+'q.put(i,x[i]); q.release(true); '+L+st('p','i','y[i]')+' q.release(true);', L+st('p','i','y[i]'), what='releasing twice: '+w))
                    # data changed by the user between release and admit is seen
                    o.append(Ob('ra_'+nm, [PT(t,'x'),PT(t,'out')]+arg('p')+SA, B%use('p')+'q.admit(true); q.release(true); '+L+st('p','i','x[i]')+' q.admit(true); '+L+'out[i]=q.get(i);', L+'{ out[i]=x[i]; '+st('p','i','x[i]')+' }', what='re-admitting changed data: '+w))
                    # state queries
                    fa={'a':'%s*w=0; q.find(w);'%t,'i':'%s*w=0; q.find(w);'%u,'s':'%s*w=0,*v=0; q.find(w,v);'%u}[k]
                    fr={'a':'%s*w=0; q.release(true,w);'%t,'i':'%s*w=0; q.release(true,w);'%u,'s':'%s*w=0,*v=0; q.release(true,w,v);'%u}[k]
                    T={'a':t,'i':u,'s':u}[k]
                    eqs='w==%s'%('p' if k!='s' else 'pr && v==pi')
                    o.append(Ob('state_'+nm, [PT('int','z')]+arg('p')+SA, B%use('p')+'z[0]=q.admitted(); z[1]=q.user_storage(); q.admit(true); z[2]=q.admitted(); z[3]=q.user_storage(); q.release(true); z[4]=q.admitted(); {%s z[5]=%s;}'%(fa,eqs),
                       'z[0]=0; z[1]=%s; z[2]=1; z[3]=%s; z[4]=0; z[5]=1;'%(K[k],K[k]), what='state queries: '+w))
                    o.append(Ob('relp_'+nm, [PT('int','z'),PT(t,'x')]+arg('p')+SA, B%use('p')+'q.admit(true); '+L+'q.put(i,x[i]); %s z[0]=%s; z[1]=q.admitted();'%(fr,eqs),
                       L+st('p','i','x[i]')+' z[0]=1; z[1]=0;', what='release returning the user\'s pointer: '+w))
                    # rebinding
                    for k2 in kinds[t]:
                        if dim==2 and k2!=k: continue
                        save=k
                        k=k2; A2=arg('b'); u2=use('b'); r2=el('b','i'); w2=st('b','i','x[i]'); k=save
                        o.append(Ob('rb_%s_%s'%(nm,k2), [PT(t,'x'),PT(t,'out'),PT('int','z')]+arg('p')+A2+SA, B%use('p')+'q.admit(true); q.release(true); q.rebind(%s); z[0]=q.admitted(); z[1]=q.user_storage(); q.admit(true); '%u2+L+'{ out[i]=q.get(i); q.put(i,x[i]); } q.release(true);',
                          L+'{ out[i]=%s; %s } z[0]=0; z[1]=%s;'%(r2,w2,K[k2]), what='rebinding to %s: '%K[k2]+w))
                        if dim==1:
                            o.append(Ob('rs_%s_%s'%(nm,k2), [PT(t,'x'),PT(t,'out'),PT('length_type','z')]+arg('p')+A2+SA+[('length_type','g','r(1,4)')], B%use('p')+'q.rebind(%s,Domain<1>(g)); z[0]=q.size(); z[1]=q.size(1,0); q.admit(true); '%u2+'for (index_type i=0;i<g;++i) '+'{ out[i]=q.get(i); q.put(i,x[i]); } q.release(true);',
                              'for (index_type i=0;i<g;++i) '+'{ out[i]=%s; %s } z[0]=g; z[1]=g;'%(r2,w2), what='rebinding with a new size: '+w))
                        elif k=='a':
                            o.append(Ob('rs_%s_%s'%(nm,k2), [PT(t,'x'),PT('length_type','z')]+arg('p')+A2+SA+[('length_type','g','r(1,3)'),('length_type','h','r(1,3)')], B%use('p')+'q.rebind(%s,Domain<2>(g,h)); z[0]=q.size(2,0); z[1]=q.size(2,1); q.admit(true); for (index_type i=0;i<g;++i) for (index_type j=0;j<h;++j) q.put(i,j,x[i*h+j]); q.release(true);'%u2,
                              'for (index_type i=0;i<g;++i) for (index_type j=0;j<h;++j) b[j*g+i]=x[i*h+j]; z[0]=g; z[1]=h;', what='rebinding with a new shape: '+w))
            # blocks without user storage
            for dim in (1,2):
                SZ='nm'[:dim]; tot='*'.join(SZ); SA=[('length_type',x,'r(1,3)') for x in SZ]
                B='ovxx::Strided<%d,%s,Layout<%d,%s,dense,%s> > q((Domain<%d>(%s))); '%(dim,t,dim,'row1_type' if dim==1 else 'col2_type',f,dim,','.join(SZ))
                nm='%s_%s%d'%(t,f[:3],dim); L='for (index_type i=0;i<%s;++i) '%tot
                o.append(Ob('none_'+nm, [PT('int','z'),PT(t,'x'),PT(t,'out')]+SA, B+'z[0]=q.admitted(); z[1]=q.user_storage(); '+L+'q.put(i,x[i]); q.admit(true); '+L+'out[i]=q.get(i);', L+'out[i]=x[i]; z[0]=1; z[1]=no_user_format;', what='a %s %s block without user storage: admit'%(f,t)))
                o.append(Ob('noner_'+nm, [PT('int','z'),PT(t,'x'),PT(t,'out')]+SA, B+L+'q.put(i,x[i]); %s*w; q.release(true,w); z[0]=!w; q.admit(true); '%t+L+'out[i]=q.get(i);', L+'out[i]=x[i]; z[0]=1;', what='a %s %s block without user storage: release and admit keep the elements and report a null pointer'%(f,t)))
                fs=['%s*w; q.find(w); z[0]=!w;'%t]
                if c: fs+=['%s*w; q.find(w); z[0]=!w;'%u,'%s*w,*v; q.find(w,v); z[0]=!w && !v;'%u,'std::pair<%s*,%s*> w; q.find(w); z[0]=!w.first && !w.second;'%(u,u)]
                for i,e in enumerate(fs): o.append(Ob('nonef%d_%s'%(i,nm), [PT('int','z')]+SA, B+e, 'z[0]=1;', what='find on a block without user storage gives null'))
                for i,e in enumerate(['(%s*)0'%t]+(['(%s*)0'%u,'(%s*)0,(%s*)0'%(u,u)] if c else [])):
                    Bn=B.replace('q((','q(').replace('))); ','),%s); '%e)
                    o.append(Ob('null%d_%s'%(i,nm), [PT('int','z'),PT(t,'x'),PT(t,'out')]+SA, Bn+'z[0]=q.user_storage(); q.admit(true); '+L+'q.put(i,x[i]); '+L+'out[i]=q.get(i);', L+'out[i]=x[i]; z[0]=no_user_format;', what='a block given a null pointer has no user storage and can be admitted'))
    # bool: stored as its own type
    o.append(Ob('bool', [PT('bool','p'),N(lo=1)], 'Dense<1,bool> q(n,p); q.admit(true); for (index_type i=0;i<n;++i) q.put(i,!q.get(i)); q.release(true);', 'for (index_type i=0;i<n;++i) p[i]=!p[i];', what='bool storage'))
    return chunks(o, 22, 'b02', PRE)
