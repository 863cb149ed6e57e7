"""Domain and index algebra: the indexes a domain names, domain arithmetic, equality, conformance, intersection and the
translation of an intersection to another domain's coordinates."""
from vp import *
PRE = P + '#include <ovxx/domain_utils.hpp>\nusing ovxx::intersect; using ovxx::apply_intr; using ovxx::subset_from_intr;\n#define PUT(k,d) z[k]=(d).first(); z[k+1]=(d).stride(); z[k+2]=(d).length();\n'
def D1(x, lo=1, s='ch([1,2,3,-1,-2])'): return [('index_type','f'+x,'r(20,30)'),('stride_type','s'+x,s),('length_type','l'+x,'r(%d,6)'%lo)]
def dom(dim, lo=1, s='ch([1,2,3,-1,-2])', p=''):
    A=[]; 
    for d in range(dim): A+=D1(p+str(d),lo,s)
    e=['Domain<1>(f%s%d,s%s%d,l%s%d)'%(p,d,p,d,p,d) for d in range(dim)]
    return A, e[0] if dim==1 else 'Domain<%d>(%s)'%(dim,', '.join(e))
def tus(tier):
    o=[]; Z=[PT('stride_type','z')]
    PUTS=lambda dim: ' '.join('PUT(%d,q[%d])'%(3*d,d) for d in range(dim))
    for dim in (1,2,3):
        A,E = dom(dim)
        base=lambda f,s: ' '.join('z[%d]=%s; z[%d]=%s; z[%d]=l%d;'%(3*d,f%d,3*d+1,s%d,3*d+2,d) for d in range(dim))
        o.append(Ob('make%d'%dim, Z+A, 'Domain<%d> q=%s; Domain<%d> p; p=q; %s z[9]=p.size();'%(dim,E,dim,PUTS(dim).replace('q[','p[')), base('f%d','s%d')+' z[9]=%s;'%'*'.join('l%d'%d for d in range(dim)), what='a domain keeps its first index, stride and length; its size is the product of the lengths'))
        for k,(ex,f,s,a) in enumerate((('q+k','f%d+k','s%d',('stride_type','k','r(-8,9)')),('k+q','f%d+k','s%d',('stride_type','k','r(-8,9)')),('q-k','f%d-k','s%d',('stride_type','k','r(-8,8)')),('q*k','f%d','s%d*(stride_type)k',('length_type','k','r(1,2)')),('k*q','f%d','s%d*(stride_type)k',('length_type','k','r(1,2)')),('q/k','f%d','s%d/(stride_type)k',('length_type','k','r(1,3)')))):
            o.append(Ob('arith%d_%d'%(dim,k), Z+A+[a], 'Domain<%d> p=%s; Domain<%d> q=%s; %s'%(dim,E,dim,ex.replace('q','p'),PUTS(dim)), base(f,s), what='domain arithmetic %s on %d-dimensional domains'%(ex,dim)))
        A1=[(x[0],x[1],{'f':'r(4,6)','s':'ch([1,2,-1,-2])','l':'r(1,3)'}[x[1][0]]) for x in dom(dim)[0]]; A2=[(x[0],x[1],{'f':'r(4,6)','s':'ch([1,2,-1,-2])','l':'r(1,3)'}[x[1][0]]) for x in dom(dim,p='x')[0]]; E2=dom(dim,p='x')[1]
        # same set of indexes: for lengths of at least two, same progression forwards or backwards
        one=lambda d: '(l{0}==lx{0} && (l{0}==1 ? f{0}==fx{0} : ((s{0}==sx{0} && f{0}==fx{0}) || (s{0}==-sx{0} && f{0}==fx{0}+(lx{0}-1)*sx{0}))))'.format(d)
        eq=' && '.join(one(d) for d in range(dim))
        o.append(Ob('eq%d'%dim, A1+A2, 'return %s == %s;'%(E,E2), 'return %s;'%eq, ret='bool', n=300, what='two domains are equal exactly if they contain the same indexes'))
        o.append(Ob('ne%d'%dim, A1+A2, 'return %s != %s;'%(E,E2), 'return !(%s);'%eq, ret='bool', n=300, what='inequality of domains'))
        o.append(Ob('conf%d'%dim, A1+A2, 'return %s.element_conformant(%s);'%(E,E2), 'return %s;'%' && '.join('l%d==lx%d'%(d,d) for d in range(dim)), ret='bool', n=60, what='element conformance: equal lengths in every dimension'))
        if dim<3:
            B2,F2=dom(2,p='x'); B2=[(x[0],x[1],'r(1,3)' if x[1][0]=='l' else x[2]) for x in B2]
            o.append(Ob('pconf%d'%dim, A1+B2, 'return %s.product_conformant(%s);'%(E,F2), 'return %s;'%('false' if dim==1 else 'l1==lx0'), ret='bool', n=60, what='product conformance'))
        o.append(Ob('nth%d'%dim, Z+A+[('index_type','i%d'%d,'r(0,l%d-1)'%d) for d in range(dim)], 'Index<%d> w=ovxx::domain_nth(%s, Index<%d>(%s)); %s'%(dim,E,dim,','.join('i%d'%d for d in range(dim)),' '.join('z[%d]=w[%d];'%(d,d) for d in range(dim))), ' '.join('z[%d]=f%d+s%d*(stride_type)i%d;'%(d,d,d,d) for d in range(dim)), what='n-th index of a domain'))
        o.append(Ob('last%d'%dim, Z+A, 'Domain<%d> q=%s; %s'%(dim,E,' '.join('z[%d]=q[%d].impl_last();'%(d,d) for d in range(dim))), ' '.join('z[%d]=f%d+s%d*(stride_type)(l%d-1);'%(d,d,d,d) for d in range(dim)), what='last index of a domain'))
        o.append(Ob('norm%d'%dim, Z+A, 'Domain<%d> q=ovxx::normalize(%s); %s'%(dim,E,PUTS(dim)), ' '.join('z[%d]=0; z[%d]=1; z[%d]=l%d;'%(3*d,3*d+1,3*d+2,d) for d in range(dim)), what='normalised domain'))
        o.append(Ob('size%d'%dim, Z+A, 'Domain<%d> q=%s; ovxx::Length<%d> e=ovxx::extent(q); z[0]=ovxx::size(q); z[1]=ovxx::total_size(e); %s'%(dim,E,dim,' '.join('z[%d]=e[%d]; z[%d]=ovxx::size_of_dim(q,%d);'%(2+2*d,d,3+2*d,d) for d in range(dim))), 'z[0]=z[1]=%s; '%'*'.join('l%d'%d for d in range(dim))+' '.join('z[%d]=z[%d]=l%d;'%(2+2*d,3+2*d,d) for d in range(dim)), what='size and extent of a domain'))
        # intersections
        for tag,st in (('u','ch([1])'),('s','ch([1,2,3])')):
            I1=[]; I2=[]
            for d in range(dim):
                I1+=[('index_type','f%d'%d,'r(0,9)'),('length_type','l%d'%d,'r(1,9)')]
                I2+=[('index_type','fx%d'%d,'r(0,9)'),('stride_type','sx%d'%d,st),('length_type','lx%d'%d,'r(1,6)')]
            P1=['Domain<1>(f%d,1,l%d)'%(d,d) for d in range(dim)]; P2=['Domain<1>(fx%d,sx%d,lx%d)'%(d,d,d) for d in range(dim)]
            mk=lambda q: q[0] if dim==1 else 'Domain<%d>(%s)'%(dim,', '.join(q))
            sp=''
            for d in range(dim):
                sp+='index_type b{0}=0; length_type n{0}=0; for (index_type k=0;k<lx{0};++k) {{ index_type x=fx{0}+k*sx{0}; if (x>=f{0} && x<f{0}+l{0}) {{ if (!n{0}) b{0}=x; ++n{0}; }} }} '.format(d)
            sp+='if (!(%s)) return false; '%' && '.join('n%d'%d for d in range(dim))+' '.join('z[%d]=b%d; z[%d]=sx%d; z[%d]=n%d;'%(3*d,d,3*d+1,d,3*d+2,d) for d in range(dim))+' return true;'
            o.append(Ob('intr%d%s'%(dim,tag), Z+I1+I2, 'Domain<%d> q; if (!intersect(%s,%s,q)) return false; %s return true;'%(dim,mk(P1),mk(P2),PUTS(dim)), sp, ret='bool', n=400, what='intersection of a unit-stride domain with a domain: exactly the common indexes'))
            if tag=='u':
                # translating an intersection: element k of intr within y corresponds to element k of the result within x
                X=[]
                for d in range(dim): X+=[('index_type','g%d'%d,'r(0,9)'),('stride_type','t%d'%d,'ch([1,2,3])'),('index_type','h%d'%d,'r(0,9)'),('index_type','o%d'%d,'r(0,5)'),('stride_type','w%d'%d,'ch([1,2])'),('length_type','m%d'%d,'r(1,5)')]
                o.append(Ob('apply%d'%dim, Z+X, 'Domain<%d> q=apply_intr(%s,%s,%s); %s'%(dim,mk(['Domain<1>(g%d,t%d,50)'%(d,d) for d in range(dim)]),mk(['Domain<1>(h%d,1,50)'%d for d in range(dim)]),mk(['Domain<1>(h%d+o%d,w%d,m%d)'%(d,d,d,d) for d in range(dim)]),PUTS(dim)),
                   ' '.join('z[%d]=g%d+o%d*t%d; z[%d]=t%d*w%d; z[%d]=m%d;'%(3*d,d,d,d,3*d+1,d,d,3*d+2,d) for d in range(dim)), what='an intersection in one coordinate system names the same elements in the other'))
                o.append(Ob('subset%d'%dim, Z+X, 'Domain<%d> q=subset_from_intr(%s,%s); %s'%(dim,mk(['Domain<1>(g%d,t%d,50)'%(d,d) for d in range(dim)]),mk(['Domain<1>(g%d+o%d*t%d,t%d,m%d)'%(d,d,d,d,d) for d in range(dim)]),PUTS(dim)),
                   ' '.join('z[%d]=o%d; z[%d]=1; z[%d]=m%d;'%(3*d,d,3*d+1,3*d+2,d) for d in range(dim)), what='position of an intersection inside its domain'))
        # traversal visits every index once, in the given order
        dims=['n','m','k'][:dim]
        A3=[PT('length_type','z')]+[N(x,0,3) for x in dims]
        for ords in ([(0,)],[(0,1),(1,0)],[(0,1,2),(0,2,1),(1,0,2),(1,2,0),(2,0,1),(2,1,0)])[dim-1]:
            T='vsip::tuple<%s>'%','.join(map(str,list(ords)+[x for x in (0,1,2) if x not in ords]))
            ix=['i','j','l'][:dim]
            loops=' '.join('for (index_type %s=0;%s<%s;++%s)'%(ix[d],ix[d],dims[d],ix[d]) for d in ords)
            o.append(Ob('next%d_%s'%(dim,''.join(map(str,ords))), A3, 'ovxx::Length<%d> e(%s); length_type c=0; for (Index<%d> q; ovxx::valid(e,q); ovxx::next<%s>(e,q)) { %s c+=%d; } z[500]=c;'%(dim,','.join(dims),dim,T,' '.join('z[c+%d]=q[%d];'%(d,d) for d in range(dim)),dim),
               'length_type c=0; %s { %s c+=%d; } z[500]=c;'%(loops,' '.join('z[c+%d]=%s;'%(d,ix[d]) for d in range(dim)),dim), n=60, what='traversal in dimension order %s visits every index once'%(ords,)))
    return chunks(o, 12, 'b04', PRE)
