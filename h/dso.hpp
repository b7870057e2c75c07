// Collections shared by two modules of a program, each with std::type_info
// objects of its own for the same types. Compiled once per module.
#ifndef PCV_DSO_HPP
#define PCV_DSO_HPP
#include "core.hpp"
#ifndef KIND
#error KIND not defined
#endif
#include <functional>
#include <memory>
#include <vector>
#if KIND==0
#include <boost/poly_collection/base_collection.hpp>
#elif KIND==1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/mpl/vector.hpp>
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/any.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/operators.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#endif
#include <boost/poly_collection/algorithm.hpp>

namespace pcvdso{
using pcv::u64;

#if KIND==0
struct Base{virtual ~Base(){} virtual int get()const=0;};
template<int I> struct El:Base
{
  int v;explicit El(int v=0):v(v){}
  int get()const override{return v;}
  bool operator==(const El& x)const{return v==x.v;}
};
template<int I> struct FEl final:Base
{
  int v;double pad=0;explicit FEl(int v=0):v(v){}
  int get()const override{return v;}
  bool operator==(const FEl& x)const{return v==x.v;}
};
typedef boost::base_collection<Base> C;
inline int get(const Base& x){return x.get();}
#else
template<int I> struct El
{
  int v;explicit El(int v=0):v(v){}
  int operator()()const{return v;}
  int get()const{return v;}
  bool operator==(const El& x)const{return v==x.v;}
};
template<int I> struct FEl final
{
  int v;double pad=0;explicit FEl(int v=0):v(v){}
  int operator()()const{return v;}
  int get()const{return v;}
  bool operator==(const FEl& x)const{return v==x.v;}
};
#if KIND==1
typedef boost::function_collection<int()> C;
#else
namespace te=boost::type_erasure;
typedef boost::mpl::vector<te::copy_constructible<>,te::callable<int(),const te::_self>,te::typeid_<>,te::relaxed> Concept;
typedef boost::any_collection<Concept> C;
#endif
template<typename T> int get(const T& x){return x();}
#endif
enum{NT=4};
template<int TI> struct type_at;
template<> struct type_at<0>{typedef El<0> type;};
template<> struct type_at<1>{typedef FEl<1> type;};
template<> struct type_at<2>{typedef El<2> type;};
template<> struct type_at<3>{typedef FEl<3> type;};
template<int TI> using T=typename type_at<TI>::type;

struct Seen{int ti,v;const void* p;}; // ti -1: through the polymorphic interface

struct Ops
{
  const std::type_info* info[NT];
  void(*make)(C&,int how,int ti,int v,int pos);
  void(*reg)(C&,int ti);
  bool(*registered)(const C&,int ti);
  int(*look)(const C&,int ti,std::vector<int>&);  // -1: unregistered_type thrown
  void(*erase)(C&,int ti,int pos);
  void(*clear)(C&,int ti);
  void(*reserve)(C&,int ti,int n);
  void(*append)(C& dst,const C& src,int how);
  void(*assign)(C& dst,C& src,int how);
  bool(*equal)(const C&,const C&);
  void(*run)(C&,int list,std::vector<Seen>&,bool& algs);
};
extern "C" __attribute__((visibility("default"))) const Ops* pcv_library_ops();
}
#endif
