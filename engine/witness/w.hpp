// Witness vocabulary: affine parameter blocks through which the library's view
// and expression machinery is analysed with symbolic sizes and strides.
#pragma once
#include <vsip/vector.hpp>
#include <vsip/matrix.hpp>
#include <vsip/tensor.hpp>
#include <vsip/math.hpp>
namespace W
{
using namespace vsip;
template <dimension_type D, typename T, typename O = typename ovxx::row_major<D>::type>
struct Blk
{
  static dimension_type const dim = D;
  typedef T value_type; typedef T &reference_type; typedef T const &const_reference_type;
  typedef Local_map map_type;
  T *p; length_type n[3]; stride_type s[3]; map_type m;
  Blk(T *q, length_type n0, stride_type s0) : p(q) { n[0]=n0; s[0]=s0; n[1]=n[2]=1; s[1]=s[2]=0;}
  Blk(T *q, length_type n0, stride_type s0, length_type n1, stride_type s1) : p(q) { n[0]=n0; s[0]=s0; n[1]=n1; s[1]=s1; n[2]=1; s[2]=0;}
  Blk(T *q, length_type n0, stride_type s0, length_type n1, stride_type s1, length_type n2, stride_type s2) : p(q) { n[0]=n0; s[0]=s0; n[1]=n1; s[1]=s1; n[2]=n2; s[2]=s2;}
  length_type size() const { return D==1?n[0]:D==2?n[0]*n[1]:n[0]*n[1]*n[2];}
  length_type size(dimension_type, dimension_type i) const { return n[i];}
  map_type const &map() const { return m;}
  void increment_count() const {}
  void decrement_count() const {}
  T get(index_type i) const { return p[i*s[0]];}
  T get(index_type i, index_type j) const { return p[i*s[0]+j*s[1]];}
  T get(index_type i, index_type j, index_type k) const { return p[i*s[0]+j*s[1]+k*s[2]];}
  void put(index_type i, T v) { p[i*s[0]]=v;}
  void put(index_type i, index_type j, T v) { p[i*s[0]+j*s[1]]=v;}
  void put(index_type i, index_type j, index_type k, T v) { p[i*s[0]+j*s[1]+k*s[2]]=v;}
};
}
namespace ovxx
{
template <vsip::dimension_type D, typename T, typename O>
struct block_traits<W::Blk<D,T,O> > : by_value_traits<W::Blk<D,T,O> > {};
template <vsip::dimension_type D, typename T, typename O>
struct is_modifiable_block<W::Blk<D,T,O> > { static bool const value = true;};
}
using namespace W;
