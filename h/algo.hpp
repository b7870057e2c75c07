// Algorithms checked against their std counterparts, over all subranges, with
// function objects and output iterators that look at what they are given.
#ifndef PCV_ALGO_HPP
#define PCV_ALGO_HPP
#ifndef KIND
#error KIND not defined
#endif
#ifndef LISTSET
#define LISTSET 0
#endif
#include "core.hpp"
#include <algorithm>
#include <limits>
#include <forward_list>
#include <functional>
#include <iterator>
#include <list>
#include <memory>
#include <random>
#include <vector>
#include <boost/poly_collection/algorithm.hpp>
#if KIND==0
#include <boost/poly_collection/base_collection.hpp>
#elif KIND==1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#endif

namespace pcv{
namespace bpc=boost::poly_collection;

struct Probe{int key=0,id=-1,ti=-1,add=0;const void* self=nullptr;};

#if KIND==0
struct ABase{virtual ~ABase(){} virtual int operator()(Probe&)const=0;};
struct AFront{virtual ~AFront(){} char pad[24]={};};
#define PCV_ABASE :ABase
#define PCV_ABASE2 :AFront,ABase
#else
#define PCV_ABASE
#define PCV_ABASE2
#endif
enum{NE=5};
// E<0..3>: element types; E<4> is never in the collection but may be listed
template<int I> struct E PCV_ABASE
{
  mutable int key;int id;char pad[I*8+1]={};
  E(int key,int id):key(key),id(id){}
  int operator()(Probe& p)const{key+=p.add;p.key=key;p.id=id;p.ti=I;p.self=this;return key;}
};
template<> struct E<2> PCV_ABASE2
{
  char pad[5]={};
  mutable int key;int id;
  E(int key,int id):key(key),id(id){}
  int operator()(Probe& p)const{key+=p.add;p.key=key;p.id=id;p.ti=2;p.self=this;return key;}
};
// E<3> derives from E<1>: listing one must not catch the other
template<> struct E<3>:E<1>
{
  long extra=7;
  E(int key,int id):E<1>(key,id){}
  int operator()(Probe& p)const{key+=p.add;p.key=key;p.id=id;p.ti=3;p.self=this;return key;}
};

#if KIND==0
using Col=boost::base_collection<ABase>;
#elif KIND==1
using Col=boost::function_collection<int(Probe&)>;
#else
using Col=boost::any_collection<boost::type_erasure::callable<int(Probe&),const boost::type_erasure::_self>>;
#endif
using AV=Col::value_type;
using AIt=Col::iterator;
using ACIt=Col::const_iterator;

template<typename... Ts> struct tl{};
template<typename T> struct tag_of{enum{value=-2};};
template<int I> struct tag_of<E<I>>{enum{value=I};};
template<> struct tag_of<AV>{enum{value=-1};};
template<typename T> using tag=tag_of<typename std::remove_cv<typename std::remove_reference<T>::type>::type>;
template<typename T> struct is_elem:std::integral_constant<bool,int(tag<T>::value)!=-2>{};

// lists of types for restitution
#if LISTSET==0
using Lists=tl<tl<>,tl<E<2>,E<0>>,tl<E<1>,E<4>,E<3>,E<0>,E<2>>>;
#elif LISTSET==1
using Lists=tl<tl<E<0>>,tl<E<1>,E<1>>,tl<E<3>,E<2>>,tl<E<2>,E<1>,E<0>>>;
#else
using Lists=tl<tl<E<1>>,tl<E<4>>,tl<E<3>,E<3>,E<0>>,tl<E<0>,E<1>,E<2>,E<3>>,tl<E<4>,E<3>,E<2>,E<1>,E<0>>>;
#endif
template<typename> struct mask_of;
template<> struct mask_of<tl<>>{enum{value=0};};
template<int I,typename... Ts> struct mask_of<tl<E<I>,Ts...>>{enum{value=(1<<I)|int(mask_of<tl<Ts...>>::value)};};

struct Info{int key,id,ti;const void* self;const void* vaddr;};
struct Key
{
  int k=0,tok=0;
  Key()=default;
  Key(int k,int tok=0):k(k),tok(tok){}
};

struct Ctx
{
  Rng r{1};
  Col c,c2;
  std::vector<Info> seq,seq2;
  std::vector<AIt> its;std::vector<ACIt> cits;
  std::vector<AIt> its2;
  std::vector<int> index,index2; // id -> position; second collection: ids from 1000
  std::size_t i=0,j=0;       // current subrange
  int mask=0;bool cst=false;
  const char* alg="";
  long calls=0;
  long steps=0;
  std::vector<char> table;   // random unary predicate by position
  std::vector<char> rel;     // random relation: position x key
  std::vector<char> rel2;    // random relation: position x position
  int mod=2;
  std::size_t n()const{return seq.size();}
  std::string where()const
  {
    char b[200];std::snprintf(b,sizeof b,"%s%s over [%zu,%zu) of %zu, restitution mask %d",alg,cst?" (const)":"",i,j,seq.size(),mask);
    return b;
  }

  template<bool Second=false,typename X> int note(X& x)
  {
    typedef typename std::remove_const<X>::type T;
    Probe p;
    x(p);
    if(p.id>=1000){
      std::size_t k=p.id-1000;
      PCV_CHECK(k<seq2.size(),"element","%s: unknown element passed",where().c_str());
      k=index2[k];
      PCV_CHECK(seq2[k].self==p.self,"element","%s: unknown element passed",where().c_str());
      PCV_CHECK(tag<T>::value==-1&&(const void*)std::addressof(x)==seq2[k].vaddr,"restitution",
        "%s: element of second range not passed as obtained from its iterator",where().c_str());
      return int(1000+k);
    }
    PCV_CHECK(p.id>=0&&p.id<(int)index.size()&&index[p.id]>=0,"element","%s: function object applied to something not in the collection",where().c_str());
    std::size_t k=index[p.id];
    const Info& f=seq[k];
    PCV_CHECK(f.self==p.self,"element","%s: function object got a copy of element %zu",where().c_str(),k);
    PCV_CHECK(k>=i&&k<j,"range","%s: function object applied to element %zu",where().c_str(),k);
    if(tag<T>::value>=0){
      PCV_CHECK(tag<T>::value==f.ti,"restitution","%s: element %zu of type %d passed as type %d",where().c_str(),k,f.ti,int(tag<T>::value));
      PCV_CHECK((mask>>f.ti)&1,"restitution","%s: element %zu of unlisted type %d passed with its concrete type",where().c_str(),k,f.ti);
      PCV_CHECK((const void*)std::addressof(x)==f.self,"restitution","%s: wrong address for element %zu of type %d",where().c_str(),k,f.ti);
      stats().add("restituted");
    }
    else{
      PCV_CHECK(!((mask>>f.ti)&1),"restitution","%s: element %zu of listed type %d passed without its concrete type",where().c_str(),k,f.ti);
      PCV_CHECK((const void*)std::addressof(x)==f.vaddr,"restitution","%s: wrong reference for element %zu",where().c_str(),k);
      stats().add("polymorphic");
    }
    PCV_CHECK(std::is_const<X>::value==cst,"constness","%s: element %zu passed as %s",where().c_str(),k,cst?"non-const":"const");
    return int(k);
  }
};
extern Ctx* cur;

// comparisons among elements and keys, going through the monitor
inline int key_at(int k){return k>=1000?cur->seq2[k-1000].key:cur->seq[k].key;}
template<typename X> struct undeduced_v{typedef X type;};
template<typename X> int key_of(const X& x) // constness is lost through ==, so it is not judged here
{
  bool c=cur->cst;cur->cst=true;
  int k=cur->note(x);
  cur->cst=c;
  return key_at(k);
}
inline int key_of(const Key& x){return x.k;}
template<typename X,typename Y> struct both:std::integral_constant<bool,
  (is_elem<X>::value&&is_elem<Y>::value)||(is_elem<X>::value&&std::is_same<Y,Key>::value)||(std::is_same<X,Key>::value&&is_elem<Y>::value)||
  (std::is_same<X,Key>::value&&std::is_same<Y,Key>::value)>{};
template<typename X,typename Y> typename std::enable_if<both<X,Y>::value,bool>::type
operator==(const X& x,const Y& y){++cur->calls;return key_of(x)==key_of(y);}

/* ---- function objects ---- */

struct Truth // what a predicate may return: something contextually convertible to bool
{
  bool b;
  explicit Truth(bool b):b(b){}
  operator bool()const{return b;}
};
struct UPred
{
  template<typename X> bool operator()(X& x)const{++cur->calls;return cur->table[cur->note(x)]!=0;}
};
struct UPredMut // not callable when const, state shared by address
{
  template<typename X> Truth operator()(X& x){++cur->calls;return Truth(cur->table[cur->note(x)]!=0);}
};
struct RelKey // element, key of the other range
{
  template<typename X> bool operator()(X& x,const Key& y)const{++cur->calls;int k=cur->note(x);return cur->rel[k*8+y.k%8]!=0;}
};
struct RelKeyEl // arguments in either order and kind, equivalence
{
  template<typename X,typename Y> bool operator()(X& x,Y& y)const{++cur->calls;return at(x)%cur->mod==at(y)%cur->mod;}
  static int at(const Key& k){return k.k;}
  template<typename X> static typename std::enable_if<is_elem<X>::value,int>::type at(X& x){return key_at(cur->note(x));}
};
struct RelRel // element of the range, element of the second collection
{
  template<typename X,typename Y> bool operator()(X& x,Y& y)const
  {
    ++cur->calls;int k=cur->note(x);int l=cur->note(y);
    PCV_CHECK(k<1000&&l>=1000,"arguments","%s: arguments swapped",cur->where().c_str());
    return cur->rel[k*8+cur->seq2[l-1000].key%8]!=0;
  }
};
struct Rel2 // two elements of the range
{
  template<typename X,typename Y> bool operator()(X& x,Y& y)const
  {++cur->calls;int k=cur->note(x);int l=cur->note(y);return cur->rel2[k*64+l]!=0;}
};

/* ---- outputs ---- */

struct Rec{int idx;bool moved;int k;};
struct Sink
{
  typedef std::output_iterator_tag iterator_category;
  typedef void value_type;typedef std::ptrdiff_t difference_type;typedef void pointer;typedef void reference;
  std::vector<Rec>* v;
  std::size_t pos=0;
  explicit Sink(std::vector<Rec>& v):v(&v){}
  struct Proxy
  {
    Sink* s;
    void put(Rec r)const
    {
      PCV_CHECK(s->pos==s->v->size(),"output","%s: output written at %zu when %zu were written",cur->where().c_str(),s->pos,s->v->size());
      s->v->push_back(r);
    }
    template<typename X> const Proxy& operator=(X&& x)const{store(std::forward<X>(x));return *this;}
    void store(const Key& k)const{put({-1,false,k.k});}
    template<typename X> typename std::enable_if<is_elem<X>::value>::type store(X&& x)const
    {
      const bool rv=!std::is_lvalue_reference<X>::value;
      int k=cur->note(x);
      put({k,rv,0});
    }
  };
  Proxy operator*(){return Proxy{this};}
  Sink& operator++(){++pos;return *this;}
  Sink operator++(int){Sink t(*this);++pos;return t;}
};
inline void expect_out(const std::vector<Rec>& got,const std::vector<Rec>& want,std::size_t endpos,bool moved=false)
{
  auto show=[](const std::vector<Rec>& v){std::string s;for(auto& x:v){s+=x.idx<0?"k"+std::to_string(x.k):std::to_string(x.idx);s+=' ';}return s;};
  bool ok=got.size()==want.size()&&endpos==want.size();
  for(std::size_t k=0;ok&&k<got.size();++k)
    ok=got[k].idx==want[k].idx&&(want[k].idx>=0?got[k].moved==moved:got[k].k==want[k].k);
  PCV_CHECK(ok,"algorithm-output","%s: wrote [ %s] (end %zu), expected [ %s]",cur->where().c_str(),show(got).c_str(),endpos,show(want).c_str());
}
inline void expect_res(std::size_t got,std::size_t want)
{
  PCV_CHECK(got==want,"algorithm-result","%s: result %zu, expected %zu",cur->where().c_str(),got,want);
}
inline void expect_calls(long want)
{
  PCV_CHECK(cur->calls==want,"applications","%s: %ld applications, expected exactly %ld",cur->where().c_str(),cur->calls,want);
}
inline void expect_max(long want)
{
  PCV_CHECK(cur->calls<=want,"applications","%s: %ld applications, expected at most %ld",cur->where().c_str(),cur->calls,want);
}

// input iterator, single pass, over a vector
template<typename T> struct In
{
  typedef std::input_iterator_tag iterator_category;
  typedef T value_type;typedef std::ptrdiff_t difference_type;typedef const T* pointer;typedef const T& reference;
  const T* p;
  const T** furthest; // shared position: going back is an error
  explicit In(const T* p,const T** f):p(p),furthest(f){}
  const T& operator*()const{PCV_CHECK(p>=*furthest,"input-iterator","%s: single pass range read twice",cur->where().c_str());return *p;}
  In& operator++(){++p;if(p>*furthest)*furthest=p;return *this;}
  struct Old{T v;const T& operator*()const{return v;}};
  Old operator++(int){Old o{**this};++*this;return o;} // *i++ is valid on input iterators
  friend bool operator==(const In& x,const In& y){return x.p==y.p;}
  friend bool operator!=(const In& x,const In& y){return x.p!=y.p;}
};

/* ---- runs ---- */

template<typename It> const std::vector<It>& iters();
template<> inline const std::vector<AIt>& iters<AIt>(){return cur->its;}
template<> inline const std::vector<ACIt>& iters<ACIt>(){return cur->cits;}

// position of an iterator; must be exactly one the traversal went through
template<typename It> std::size_t posof(const It& it)
{
  auto& v=iters<It>();
  for(std::size_t k=cur->i;k<=cur->j;++k)if(v[k]==it)return k;
  for(std::size_t k=0;k<v.size();++k)if(v[k]==it)return k;
  violation("algorithm-result","%s: returned an iterator that is not in the collection",cur->where().c_str());
}

#define PCV_CALLER(name) \
struct call_##name{template<typename... Ts,typename... A> auto operator()(tl<Ts...>,A&&... a)const \
  ->decltype(bpc::name<Ts...>(std::forward<A>(a)...)){return bpc::name<Ts...>(std::forward<A>(a)...);}};

typedef void(*Run)();
struct AlgEntry{const char* name;int list;int mask;bool cst;Run run;};
std::vector<AlgEntry>& table();

// every algorithm is a class template Alg<L,It> with static void run(L,f,l)
template<template<typename,typename> class Alg,typename L,typename It> void run_one()
{
  const auto& v=iters<It>();
  Alg<L,It>::run(v[cur->i],v[cur->j]);
}
template<template<typename,typename> class Alg,typename... Ls> void add_alg(const char* name,tl<Ls...>)
{
  int k=0;
  int dummy[]={(table().push_back({name,k,int(mask_of<Ls>::value),false,&run_one<Alg,Ls,AIt>}),
                table().push_back({name,k,int(mask_of<Ls>::value),true ,&run_one<Alg,Ls,ACIt>}),++k)...};
  (void)dummy;
}
#define PCV_ALG(name) template<typename L,typename It> struct name{static void run(const It& f,const It& l)
#define PCV_END };
#define PCV_ADD(name) add_alg<name>(#name,Lists())

std::vector<Key> near_keys(std::size_t i,std::size_t j);   // keys of the subrange, maybe altered
std::vector<Key> some_keys(std::size_t max);

void add_group_a();void add_group_b();void add_group_c();void add_group_d();
}
#endif
