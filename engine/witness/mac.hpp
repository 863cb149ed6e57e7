// Short names for views over witness blocks and over the library's own Dense blocks.
#pragma once
#include "w.hpp"
// strided views of parameter memory
#define VW(T,v,p,n,s) W::Blk<1,T> v##_b(p,n,s); vsip::Vector<T,W::Blk<1,T> > v(v##_b);
#define MW(T,v,p,n,s,m,t) W::Blk<2,T> v##_b(p,n,s,m,t); vsip::Matrix<T,W::Blk<2,T> > v(v##_b);
#define MC(T,v,p,n,s,m,t) W::Blk<2,T,vsip::col2_type> v##_b(p,n,s,m,t); vsip::Matrix<T,W::Blk<2,T,vsip::col2_type> > v(v##_b);
#define TW(T,v,p,n,s,m,t,l,u) W::Blk<3,T> v##_b(p,n,s,m,t,l,u); vsip::Tensor<T,W::Blk<3,T> > v(v##_b);
// dense user-storage views
#define DV(T,v,p,n) vsip::Dense<1,T> v##_b(n,p); v##_b.admit(false); vsip::Vector<T,vsip::Dense<1,T> > v(v##_b);
#define DVI(T,v,p,n) vsip::Dense<1,T> v##_b(n,p); v##_b.admit(true); vsip::Vector<T,vsip::Dense<1,T> > v(v##_b);
#define DM(T,O,v,p,n,m) vsip::Dense<2,T,O> v##_b(vsip::Domain<2>(n,m),p); v##_b.admit(true); vsip::Matrix<T,vsip::Dense<2,T,O> > v(v##_b);
#define DT(T,O,v,p,n,m,l) vsip::Dense<3,T,O> v##_b(vsip::Domain<3>(n,m,l),p); v##_b.admit(true); vsip::Tensor<T,vsip::Dense<3,T,O> > v(v##_b);
typedef std::complex<float> cfloat;
typedef std::complex<double> cdouble;
