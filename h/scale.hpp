// Collections with many types, and with segments of many elements, against a
// light reference model.
#ifndef PCV_SCALE_HPP
#define PCV_SCALE_HPP
#ifndef KIND
#error KIND not defined
#endif
#include "core.hpp"
#include <algorithm>
#include <array>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <utility>
#include <vector>
#include <boost/poly_collection/algorithm.hpp>
#include <boost/poly_collection/exception.hpp>
#if KIND==0
#include <boost/poly_collection/base_collection.hpp>
#elif KIND==1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#endif

namespace pcv{
namespace bpc=boost::poly_collection;
enum{NTY=32};
extern long alive[NTY];

#if KIND==0
struct SB{virtual ~SB(){} virtual int operator()(int)const=0;};
#define PCV_SB :SB
#else
#define PCV_SB
#endif
template<int I> struct T PCV_SB
{
  int v;char pad[I==3?300:I==NTY-1?70001:I%5*7+1]={};
  explicit T(int v):v(v){++alive[I];}
  T(const T& x):v(x.v){++alive[I];}
  T(T&& x)noexcept(I%3!=2):v(x.v){++alive[I];x.v=-1;}
  T& operator=(const T& x){v=x.v;return *this;}
  T& operator=(T&& x){int w=x.v;x.v=-1;v=w;return *this;}
  ~T(){--alive[I];v=-2;}
  bool operator==(const T& x)const{return v==x.v;}
  int operator()(int a)const{return a+v;}
};
extern long fail_at; // allocation to fail, counting down; never if negative
template<typename X> struct FAl
{
  typedef X value_type;
  FAl()=default;
  template<typename U> FAl(const FAl<U>&){}
  X* allocate(std::size_t n)
  {
    if(fail_at==0){fail_at=-1;throw std::bad_alloc();}
    if(fail_at>0)--fail_at;
    return std::allocator<X>().allocate(n);
  }
  void deallocate(X* p,std::size_t n){std::allocator<X>().deallocate(p,n);}
  friend bool operator==(const FAl&,const FAl&){return true;}
  friend bool operator!=(const FAl&,const FAl&){return false;}
};
#if KIND==0
using Col=boost::base_collection<SB,FAl<SB>>;
#elif KIND==1
using Col=boost::function_collection<int(int),FAl<bpc::function_collection_value_type<int(int)>>>;
#else
using Con=boost::type_erasure::callable<int(int),const boost::type_erasure::_self>;
using Col=boost::any_collection<Con,FAl<bpc::any_collection_value_type<Con>>>;
#endif
typedef std::vector<int> Seg;

// runs an algorithm on a part of the collection, whose elements in order are given;
// types with even index may be restituted
void algorithms(const Col& c,const Seg& flat,Rng& r);
}
#endif
