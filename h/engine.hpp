// Random operation engine with a reference model, for one kind of collection.
#ifndef PCV_ENGINE_HPP
#define PCV_ENGINE_HPP
#ifndef KIND
#error KIND not defined
#endif
#ifndef PCV_ALLOC
#define PCV_ALLOC -1   // -1: std::allocator, otherwise propagation bits of TrackAlloc
#endif
#include "core.hpp"
#include "zoo.hpp"
#include "alloc.hpp"
#include <algorithm>
#include <array>
#include <iterator>
#include <list>
#include <memory>
#include <functional>
#include <boost/poly_collection/exception.hpp>
#if KIND==0
#include <boost/poly_collection/base_collection.hpp>
#elif KIND==1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#endif

namespace pcv{

namespace bpc=boost::poly_collection;

enum{K=KIND};
#if KIND==0
using V=Root<0>;
template<typename Al> using CollT=boost::base_collection<Root<0>,Al>;
using DefaultAl=std::allocator<V>;
#elif KIND==1
using Sig=u64(Query&);
using V=boost::poly_collection::function_collection_value_type<Sig>;
template<typename Al> using CollT=boost::function_collection<Sig,Al>;
using DefaultAl=std::allocator<V>;
#else
using Concept=boost::type_erasure::callable<u64(Query&),const boost::type_erasure::_self>;
using V=boost::poly_collection::any_collection_value_type<Concept>;
template<typename Al> using CollT=boost::any_collection<Concept,Al>;
using DefaultAl=std::allocator<V>;
#endif

#if PCV_ALLOC<0
using Al=DefaultAl;
enum{stateful=0,POCCA=0,POCMA=1,POCS=0};
inline Al make_al(int){return Al();}
inline int al_id(const Al&){return 0;}
inline int socc_id(int id){return id;}
#else
using Al=TrackAlloc<V,PCV_ALLOC>;
enum{stateful=1,POCCA=(PCV_ALLOC&1)!=0,POCMA=(PCV_ALLOC&2)!=0,POCS=(PCV_ALLOC&4)!=0};
inline Al make_al(int id){return Al(id);}
inline int al_id(const Al& al){return al.id;}
inline int socc_id(int id){return (PCV_ALLOC&8)&&id<1000000?id+100:id;}
#endif
using C=CollT<Al>;
using It=C::iterator;
using CIt=C::const_iterator;
using LB=C::local_base_iterator;
using CLB=C::const_local_base_iterator;

const std::size_t npos=~std::size_t(0);

struct Mdl
{
  bool reg[NT]={};
  std::vector<u64> seg[NT];
  std::vector<int> order;   // observed traversal order of registered types
  int al=0;
  std::size_t size()const{std::size_t n=0;for(auto& s:seg)n+=s.size();return n;}
  std::size_t gpos(int ti,std::size_t pos)const // global position
  {
    std::size_t n=0;
    for(int t:order){if(t==ti)return n+pos;n+=seg[t].size();}
    return npos;
  }
  // element at global position g
  std::pair<int,std::size_t> at(std::size_t g)const
  {
    for(int t:order){if(g<seg[t].size())return {t,g};g-=seg[t].size();}
    return {-1,0};
  }
};

struct Watch // iterators and references taken before an operation
{
  int ti;std::size_t pos;u64 val;
  const void* self;
  CIt git;
  CLB lit;
  It  mgit;
  LB  mlit;
};

struct Slot
{
  std::unique_ptr<C> c;
  Mdl m;
  bool order_free=true;  // traversal order may have changed
  std::size_t caps[NT],sizes[NT];  // capacities and sizes before the operation
  std::size_t keep[NT];  // number of leading elements whose iterators stay valid
  bool keep_none=false;
  std::vector<Watch> watch;
  CIt end_watch;
  bool have_end=false;
};

enum{STRONG=1,BASIC=0};
struct Touch{int slot;int ti;int guarantee;};

struct Eng
{
  Rng r;
  std::vector<Slot> s;
  u64 next_val=1;
  int nslots=2;
  int max_size=24;
  bool watch_on=false;
  bool faults=false;
  bool laws=false;
  bool ident=false;
  bool heavy_alias=false;
  std::vector<Touch> touched;
  std::vector<u64> inserted;   // values on their way into a collection
  const char* opname="";
  const char* opgroup="";
  bool big=false;              // larger segments
  int last_variant=0,last_ti=-1;
  u64 ops_ok=0,ops_threw=0;

  explicit Eng(u64 seed):r(seed){}
  u64 val(){return next_val++;}
  Slot& pick(){return s[r.below(s.size())];}
  int idx(const Slot& x)const{std::less<const Slot*> lt;return !lt(&x,s.data())&&lt(&x,s.data()+s.size())?int(&x-s.data()):-1;}

  void touch(Slot& x,int ti,int g){touched.push_back({idx(x),ti,g});}
  void keep(Slot& x,int ti,std::size_t n){if(x.keep[ti]>n)x.keep[ti]=n;}

  // inserts vals at pos of segment ti in the model; cap: capacity before
  void model_insert(Slot& x,int ti,std::size_t pos,const std::vector<u64>& v,std::size_t cap)
  {
    auto& sg=x.m.seg[ti];
    keep(x,ti,sg.size()+v.size()>cap?0:pos);
    sg.insert(sg.begin()+pos,v.begin(),v.end());
  }
  void model_register(Slot& x,int ti)
  {
    if(!x.m.reg[ti]){x.m.reg[ti]=true;x.order_free=true;}
  }
};

/* ---- observation ---- */

struct Seen{u64 val;const Tracker* tr;const void* self;};
inline Seen probe(const V& v){Query q;u64 a=v(q);return {a,q.tr,q.self};}

template<typename T> const std::type_info& info_of(Eng& e)
{
  std::size_t k=e.r.below(4);
  if(k<2)return typeid(T);
  return alias_of(typeid(T),unsigned(k));
}
const std::type_info& info_of(Eng& e,int ti);
const std::type_info& true_info(int ti);
int ti_from(const std::type_info& i); // -1 if unknown

std::size_t capacity_of(Slot& x,int ti); // 0 if not registered

// full consistency check of all views of the collection against the model
void check_slot(Eng& e,Slot& x);
// reads the contents of the collection into a model, checking that its views
// agree with each other
Mdl  observe(Eng& e,Slot& x);
void after_op(Eng& e);           // model, order, watch, allocator checks
void take_watches(Eng& e);
void after_fault(Eng& e);
void resync(Eng& e,Slot& x);     // adopts observed state as the model
void verify_same(Eng& e,Slot& x,const char* why); // content equals model
std::string show(const Mdl& m);

// checks the iterator refers to element pos of segment ti, whose value is v
void expect_at(Eng& e,Slot& x,CIt it,int ti,std::size_t pos,const char* what);
void expect_at(Eng& e,Slot& x,CLB it,int ti,std::size_t pos,const char* what);
template<typename T>
void expect_at_typed(Eng& e,Slot& x,typename C::template const_local_iterator<T> it,std::size_t pos,const char* what);

CIt nth(const C& c,std::size_t n);
It  nth(C& c,std::size_t n);

/* ---- exceptions ---- */

template<typename E,typename F>
void expect_throw(const char* what,const std::type_info& info,F f)
{
  bool ok=false;
  try{f();}
  catch(const E& x){
    ok=true;
    PCV_CHECK(x.pinfo!=nullptr&&*x.pinfo==info,"exception-info","%s: exception reports type %s, expected %s",
      what,x.pinfo?x.pinfo->name():"(null)",info.name());
  }
  PCV_CHECK(ok,"missing-exception","%s: expected exception not thrown",what);
}

/* ---- operations ---- */

struct Op{const char* name;const char* group;int weight;void(*fn)(Eng&);};
void add_ops_single(std::vector<Op>&);
void add_ops_poly(std::vector<Op>&);
void add_ops_range(std::vector<Op>&);
void add_ops_erase(std::vector<Op>&);
void add_ops_copy(std::vector<Op>&);
void add_ops_eq(std::vector<Op>&);
void add_ops_reg(std::vector<Op>&);

// call f<T>() for the type of index ti
template<template<typename> class F,typename... Ts>
void dispatch(tl<Ts...>,Eng& e,int ti)
{
  using fn=void(*)(Eng&);
  static const fn t[]={&F<Ts>::run...};
  t[ti](e);
}
template<template<typename> class F> void dispatch(Eng& e,int ti){dispatch<F>(Types<K>(),e,ti);}

inline void sig(u64 a,u64 b=0,u64 c=0,u64 d=0,u64 f=0)
{stats().sig.insert(mix(mix(mix(a,b),mix(c,d)),mix(f,K)));}

}
#endif
