"""Window functions: blackman, hanning, kaiser and cheby produce the samples of their defining formulas at every length."""
from vp import *
PRE = P + '''#include <vsip/signal.hpp>
#include <ovxx/signal/window.cpp>
#include <cmath>
template <typename T> inline T i0(T x)
{
  // Abramowitz & Stegun 9.8.1 up to 3, the power series of I0 beyond
  if (std::fabs(x) <= 3)
  {
    T t=(x/3)*(x/3);
    return 1+t*((T)2.2499997+t*((T)1.2656208+t*((T)0.3163866+t*((T)0.0444479+t*((T)0.0039444+t*(T)0.0002100)))));
  }
  T q=x*x/4, term=1, s=1;
  for (int k=1;k<200;++k) { term=term*q/((T)k*(T)k); s+=term; if (term<=1e-8) break; }
  return s;
}
'''
PREC = PAR + '''#include <vsip/signal.hpp>
#include <ovxx/signal/window.cpp>
#include <ovxx/fftw/fft.cpp>
#include "fftwref.hpp"
#include <cmath>
// Dolph-Chebyshev: the inverse transform of the Chebyshev polynomial sampled around the unit circle, centred, peak one
template <typename T> inline void cheb(T *out, length_type n, T ripple)
{
  double dp=std::pow(10.0,-ripple/20.0), m=(n-1)/2.0;
  double df=std::acos(1/std::cosh(std::acosh((1+dp)/dp)/(n-1)))/OVXX_PI;
  double x0=(3-std::cos(2*OVXX_PI*df))/(1+std::cos(2*OVXX_PI*df)), al=(x0+1)/2, be=(x0-1)/2;
  double w[24];
  for (index_type k=0;k<n;++k) w[k]=0;
  for (index_type i=0;i<n;++i)
  {
    double f=(double)i/n, x=al*std::cos(2*OVXX_PI*f)+be;
    double p=x>1 ? std::cosh(m*std::acosh(x)) : std::cos(m*std::acos(x<-1?-1:x));
    p*=dp;
    for (index_type k=0;k<n;++k)
    {
      // sum over i of p(f_i) exp(-j pi f_i) (even) with the upper half negated, times the transform's kernel: real by symmetry
      double ph=2*OVXX_PI*i*k/n, s=1;
      if (n%2==0) { ph+=OVXX_PI*f; if (i>=n/2) s=-1; }
      w[k]+=s*p*std::cos(ph);
    }
  }
  for (index_type k=0;k<n;++k) out[(k+n/2)%n]=(T)(w[k]/w[0]);
}
'''
def tus(tier):
    o=[]
    L='for (index_type i=0;i<n;++i) '
    for t in ('float','double'):
        A=[PT(t,'out'),N(lo=2,hi=20)]
        for w,ref in (('blackman','0.42-0.5*std::cos((T)(2*OVXX_PI/(n-1))*i)+0.08*std::cos(2*(T)(2*OVXX_PI/(n-1))*i)'),('hanning','0.5*(1-(T)std::cos((T)(2*OVXX_PI/(n+1))*(i+1)))')):
            o.append(Ob(w+'_'+t, A, 'const_Vector<%s> v=ovxx::signal::%s<%s>(n); '%(t,w,t)+L+'out[i]=v.get(i);', 'typedef %s T; '%t+L+'out[i]=%s;'%ref, n=40, what=w+' samples'))
            o.append(Ob(w+'z_'+t, [N(lo=0,hi=20)], 'const_Vector<%s> v=ovxx::signal::%s<%s>(n); return v.size();'%(t,w,t), 'return n;', ret='length_type', n=30, what=w+' length'))
        o.append(Ob('kaiser_'+t, A+[(t,'beta','ch([0.5,1,2.5,4,7,9])')], 'const_Vector<%s> v=ovxx::signal::kaiser<%s>(n,beta); '%(t,t)+L+'out[i]=v.get(i);',
          'typedef %s T; T d=i0<T>(beta); '%t+L+'{ T c=(T)(2.0/(n-1))*i-1; if (c>1) c=1; out[i]=i0<T>(beta*(T)std::sqrt(1-c*c))/d; }', n=40, what='kaiser samples'))
    A=[PT('float','out'),N(lo=2,hi=12)]
    for w in ('blackman','hanning'):
        o.append(Ob('pub_'+w, A, 'const_Vector<float> v=vsip::%s(n); '%w+L+'out[i]=v.get(i);', 'const_Vector<float> v=ovxx::signal::%s<float>(n); '%w+L+'out[i]=v.get(i);', n=30, what='public function'))
    o.append(Ob('pub_kaiser', A+[('float','beta','ch([1,4])')], 'const_Vector<float> v=vsip::kaiser(n,beta); '+L+'out[i]=v.get(i);', 'const_Vector<float> v=ovxx::signal::kaiser<float>(n,beta); '+L+'out[i]=v.get(i);', n=30, what='public function'))
    o=chunks(o, 6, 's06', PRE)
    c=[]
    for t in ('float','double'):
        c.append(Ob('cheby_'+t, [PT(t,'out'),('index_type','n','ch([2,3,4,5,6,7,8,9])'),(t,'ripple','ch([20,30,50,80])')], 'world(1,[&](int){ const_Vector<%s> v=ovxx::signal::cheby<%s>(n,ripple); '%(t,t)+L+'out[i]=v.get(i);},1);', 'typedef %s T; cheb<T>(out,n,ripple);'%t, n=24, what='cheby samples', ))
    return o+chunks(c, 1, 's06c', PREC, ['@inline=225'], PAROPT)
