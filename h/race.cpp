// Threads: const use of shared collections, writes to distinct elements, use
// of distinct collections (copies of a common source among them). The race
// detector watches; results are compared with those of a single thread on a
// twin collection (built the same way, so that the shared one is untouched
// when the threads start).
#ifndef KIND
#error KIND not defined
#endif
#include "core.hpp"
#include <algorithm>
#include <atomic>
#include <functional>
#include <memory>
#include <random>
#include <sched.h>
#include <string>
#include <thread>
#include <vector>
#include <boost/poly_collection/algorithm.hpp>
#if KIND==0
#include <boost/poly_collection/base_collection.hpp>
#elif KIND==1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/mpl/vector.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#endif

namespace pcv{
namespace bpc=boost::poly_collection;

// delays injected into element operations of the threads
struct Jitter{u64 s=0;bool on=false;};
static thread_local Jitter jit;
static inline void jitter()
{
  if(!jit.on)return;
  jit.s=jit.s*6364136223846793005ull+1442695040888963407ull;
  unsigned k=unsigned(jit.s>>40);
  if(k%64==0)sched_yield();
  else if(k%16==1){volatile int z=0;for(int i=0;i<60;++i)z=z+1;}
}

struct Msg{int op=0;u64 out=0;};

#if KIND==0
struct RB{virtual ~RB(){} virtual u64 operator()(Msg&)const=0;virtual void set(int)=0;};
#define PCV_RB :RB
#else
#define PCV_RB
#endif
enum{NR=6,NREG=5}; // R<5> is never registered
template<int I> struct R PCV_RB
{
  int v;std::string s;char pad[I*8+1]={};
  explicit R(int v=0):v(v),s(std::string(size_t(v%40),char('a'+v%7))){}
  R(const R& x):v(x.v),s(x.s){jitter();}
  R(R&& x)noexcept:v(x.v),s(std::move(x.s)){jitter();}
  R& operator=(const R& x){jitter();v=x.v;s=x.s;return *this;}
  R& operator=(R&& x)noexcept{jitter();v=x.v;s=std::move(x.s);return *this;}
  bool operator==(const R& x)const{jitter();return v==x.v&&s==x.s;}
  u64 operator()(Msg& m)const{jitter();m.out=mix(u64(v)*8+I,s.size());return m.out;}
  void set(int n){v=n;s.assign(size_t(n%50),'z');}
};
// R<3>: move only, not comparable
template<> struct R<3> PCV_RB
{
  std::unique_ptr<int> p;
  explicit R(int v=0):p(new int(v)){}
  R(R&&)noexcept=default;
  R& operator=(R&&)noexcept=default;
  u64 operator()(Msg& m)const{jitter();m.out=mix(u64(p?*p:-1)*8+3,7);return m.out;}
  void set(int n){*p=n;}
};

#if KIND==0
using Col=boost::base_collection<RB>;
#elif KIND==1
using Col=boost::function_collection<u64(Msg&)>;
#else
using Col=boost::any_collection<boost::mpl::vector<boost::type_erasure::callable<u64(Msg&),const boost::type_erasure::_self>,boost::type_erasure::typeid_<>>>;
#endif
using V=Col::value_type;

static const std::type_info* const infos[NR]={&typeid(R<0>),&typeid(R<1>),&typeid(R<2>),&typeid(R<3>),&typeid(R<4>),&typeid(R<5>)};
static const std::type_info* aliases[NR][3];

template<typename F> static u64 with_type(int t,F f)
{
  switch(t){
  case 0:return f((R<0>*)nullptr);case 1:return f((R<1>*)nullptr);case 2:return f((R<2>*)nullptr);
  case 3:return f((R<3>*)nullptr);case 4:return f((R<4>*)nullptr);default:return f((R<5>*)nullptr);
  }
}
template<typename T> static u64 val(const T& x){Msg m;return x(m);}

static void build(Col& c,u64 seed)
{
  Rng r(seed);
  const bool mo=r.chance(1,4);
  const bool lazy=r.chance(1,2);
  for(int t=0;t<NREG;++t){
    if(t==3&&!mo)continue;
    if(r.chance(1,6))continue;
    with_type(t,[&](auto* p){
      typedef typename std::remove_pointer<decltype(p)>::type T;
      if(!lazy||r.chance(1,2))c.template register_types<T>();
      int n=r.chance(1,5)?0:int(r.below(9));
      if(r.chance(1,3))c.template reserve<T>(r.below(12));
      for(int k=0;k<n;++k)c.template emplace<T>(int(r.below(30)));
      return u64(0);
    });
  }
  // some lookups before the collection is shared
  for(int k=int(r.below(4));k>0;--k){
    int t=int(r.below(NREG));
    if(c.is_registered(*infos[t]))c.begin(r.chance(1,2)?*infos[t]:*aliases[t][r.below(3)]);
  }
}
static u64 sum(const Col& c)
{
  u64 h=1;
  for(auto it=c.begin();it!=c.end();++it)h=mix(h,val(*it));
  return h;
}

struct Op{int what;u64 a;};
enum{O_SIZE,O_SIZE_T,O_SIZE_I,O_REG,O_CAP,O_TRAV,O_TRAV_T,O_TRAV_I,O_SEG,O_SEGT,O_FOREACH,O_RFOREACH,O_FIND,O_COUNT,O_ALLOF,O_EQUAL,
     O_COPY,O_COPYA,O_RANGE,O_ALGO2,O_MISC,O_COPYIF,O_ALGOS,O_VALUE,O_OWN,O_WRITE,NOPS};
static const char* opname[NOPS]={"size","size<T>","size(info)","is_registered","capacity","traversal","traversal<T>","traversal(info)","segment<T>","segment_traversal",
  "for_each","for_each<Ts>","find_if","count_if","all_of<Ts>","comparison","copy_construction","copy_assignment","range_insertion","two_ranges","max_size","copy_if<Ts>","algorithms","polymorphic_value","own_collection","element_writes"};

struct Shared
{
  Col c,d,w;
  std::vector<Col::iterator> wits;          // all elements of w
  int nthreads;
};

// unregistered_type must carry the type looked up
template<typename F> static u64 guarded(F f)
{
  try{return f();}
  catch(const bpc::unregistered_type& e){return mix(77,e.pinfo->hash_code());}
  catch(const bpc::not_copy_constructible& e){return mix(78,e.pinfo->hash_code());}
  catch(const bpc::not_equality_comparable& e){return mix(79,e.pinfo->hash_code());}
}

struct RSink
{
  typedef std::output_iterator_tag iterator_category;typedef void value_type;typedef std::ptrdiff_t difference_type;typedef void pointer;typedef void reference;
  struct Slot{u64* p;template<typename T> void operator=(const T& x){*p=val(x);}};
  u64* p;
  Slot operator*()const{return {p};}
  RSink& operator++(){++p;return *this;}
  RSink operator++(int){RSink t=*this;++p;return t;}
};

template<typename T> static u64 add_copy(Col& o,const T& x){auto q=o.insert(x);auto s=o.template segment<T>();o.insert(s.begin(),s.begin());return val(*q);}
static u64 add_copy(Col& o,const R<3>&){return o.size();}

static u64 own_work(const Col& src,u64 a)
{
  Rng r(a);
  Col o,o2;
  u64 h=3;
  bool threw=false;
  if(r.chance(1,2)){try{Col tmp(src);o=std::move(tmp);}catch(const bpc::not_copy_constructible&){threw=true;}}
  if(r.chance(1,4)){try{o2=src;}catch(const bpc::not_copy_constructible&){threw=true;}}
  h=mix(h,threw);
  for(int k=0;k<16;++k){
    int t=int(r.below(NREG));
    h=mix(h,guarded([&]{return with_type(t,[&](auto* p)->u64{
      typedef typename std::remove_pointer<decltype(p)>::type T;
      const int v=int(r.below(50));
      auto pos=[&](std::size_t n){return std::ptrdiff_t(r.below(n+1));};
      switch(r.below(26)){
      case 0:o.template emplace<T>(v);return o.template size<T>();
      case 1:o.insert(T(v));return o.size();
      case 2:{if(o.begin(*infos[t])!=o.end(*infos[t]))o.erase(o.begin(*aliases[t][0]));return o.size();}
      case 3:o.clear(*aliases[t][1]);return o.size();
      case 4:{Col m(std::move(o));o.clear();o.swap(m);return sum(o);}
      case 5:o.template reserve<T>(20);return o.template capacity<T>()>=20;
      case 6:{u64 s=0;bpc::for_each<T>(o.begin(),o.end(),[&](const auto& x){s=mix(s,val(x));});return s;}
      case 7:o.shrink_to_fit();return o.template size<T>();
      case 8:if(o.empty())return 5;{auto it=o.begin();auto q=o.insert(it,T(v));h=mix(h,val(*q));}return o.size();
      case 9:{o.template register_types<T>();auto q=o.emplace_pos(o.template begin<T>()+pos(o.template size<T>()),v);return val(*q);}
      case 10:{o.template register_types<T>();auto q=o.template emplace_pos<T>(o.begin(*aliases[t][2])+pos(o.template size<T>()),v);return val(*q);}
      case 11:{auto q=o.template emplace_hint<T>(o.begin(),v);return val(*q);}
      case 12:{o.template register_types<T>();auto q=o.insert(o.template cbegin<T>()+pos(o.template size<T>()),T(v));return val(*q);}
      case 13:{std::vector<T> w;for(int i=0;i<3;++i)w.emplace_back(v+i);o.insert(std::make_move_iterator(w.begin()),std::make_move_iterator(w.end()));return o.size();}
      case 14:{std::vector<T> w;for(int i=0;i<3;++i)w.emplace_back(v+i);o.template register_types<T>();
        auto q=o.insert(o.template begin<T>()+pos(o.template size<T>()),std::make_move_iterator(w.begin()),std::make_move_iterator(w.end()));return val(*q);}
      case 15:{auto b=o.template begin<T>();std::size_t n=o.template size<T>();auto i=pos(n),j=pos(n);if(i>j)std::swap(i,j);o.erase(b+i,b+j);return o.size();}
      case 16:{auto b=o.begin(*infos[t]);std::size_t n=o.template size<T>();auto i=pos(n),j=pos(n);if(i>j)std::swap(i,j);o.erase(b+i,b+j);return o.size();}
      case 17:{std::size_t n=o.size();auto i=pos(n),j=pos(n);if(i>j)std::swap(i,j);o.erase(std::next(o.cbegin(),i),std::next(o.cbegin(),j));return o.size();}
      case 18:if(o.empty())return 6;{auto q=o.erase(std::next(o.begin(),pos(o.size()-1)));return std::distance(o.begin(),q);}
      case 19:{o2.template register_types<R<0>,R<1>,R<2>,R<4>>();
        u64 z=guarded([&]()->u64{o2.insert(o2.begin(),o.begin(),o.end());return 1;});return mix(z,sum(o2));}
      case 20:return mix(o==o2,o!=o2);
      case 21:o2=std::move(o);o=Col();return sum(o2);
      case 22:{Col m(o2,o2.get_allocator());Col n(std::move(m),o.get_allocator());return sum(n);}
      case 23:o.template clear<T>();o.reserve(3);o.shrink_to_fit(*infos[t]);return o.size();
      case 24:o.reserve(*aliases[t][0],30);return o.capacity(*infos[t])>=30;
      default:{const T x=T(v);return guarded([&]()->u64{return add_copy(o,x);});}
      }
    });}));
  }
  h=mix(h,sum(o));
  h=mix(h,sum(o2));
  return h;
}

// every algorithm, with and without restitution
static u64 algos(const Col& c,const Col& d,u64 a)
{
  auto b=c.begin(),e=c.end();
  auto f=d.begin(),g=d.end();
  const u64 m=a>>20;
  auto un=[m](const auto& x){return val(x)%5!=m%5;};
  auto bi=[m](const auto& x,const auto& y){return val(x)%3==val(y)%3;};
  auto to=[m](const auto& x,u64 y){return val(x)%3==y;};
  auto dist=[&](const Col::const_iterator& it)->u64{return std::distance(b,it);};
  std::vector<u64> out(2*c.size()+2);
  auto outs=[&](const RSink& s){u64 h=s.p-out.data();for(u64 x:out)h=mix(h,x);return h;};
  RSink o{out.data()};
  const std::size_t n=c.size();
  typedef R<0> A;typedef R<1> B;
  switch((a>>3)%27){
  case 0:return a&1?dist(bpc::for_each_n<A>(b,n/2,[](const auto& x){val(x);})):dist(bpc::for_each_n(b,n,[](const auto& x){val(x);}));
  case 1:return a&1?dist(bpc::find_if_not<A,B>(b,e,un)):dist(bpc::find_if_not(b,e,un));
  case 2:{u64 k[2]={m%3,(m+1)%3};return a&1?dist(bpc::find_first_of<B>(b,e,k,k+2,to)):dist(bpc::find_first_of(b,e,k,k+2,to));}
  case 3:return a&1?dist(bpc::adjacent_find<A,B>(b,e,bi)):dist(bpc::adjacent_find(b,e,bi));
  case 4:return a&1?bpc::is_permutation<A>(b,e,f,g,bi):bpc::is_permutation(b,e,b,bi);
  case 5:{auto k=f;if(k!=g)++k;return a&1?dist(bpc::find_end<B,A>(b,e,f,k,bi)):dist(bpc::find_end(b,e,f,k,bi));}
  case 6:return a&1?dist(bpc::search_n<A>(b,e,2,m%3,to)):dist(bpc::search_n(b,e,3,m%3,to));
  case 7:return outs(a&1?bpc::copy<A>(b,e,o):bpc::copy(b,e,o));
  case 8:return outs(a&1?bpc::copy_n<A,B>(b,n/2,o):bpc::copy_n(b,n,o));
  case 9:return outs(RSink{a&1?bpc::transform<A>(b,e,o.p,[](const auto& x){return val(x);}):bpc::transform(b,e,o.p,[](const auto& x){return val(x);})});
  case 10:return outs(RSink{bpc::transform<B>(b,e,b,o.p,[](const auto& x,const auto& y){return val(x)^(val(y)*3);})});
  case 11:return outs(a&1?bpc::remove_copy_if<A>(b,e,o,un):bpc::remove_copy_if(b,e,o,un));
  case 12:return outs(a&1?bpc::unique_copy<A,B>(b,e,o,bi):bpc::unique_copy(b,e,o,bi));
  case 13:{auto k=b;std::advance(k,n?m%n:0);return outs(a&1?bpc::rotate_copy<A>(b,k,e,o):bpc::rotate_copy(b,k,e,o));}
  case 14:{std::mt19937 rg(unsigned(m%1000));return outs(a&1?bpc::sample<A>(b,e,o,n/2,rg):bpc::sample(b,e,o,2,rg));}
  case 15:return a&1?bpc::is_partitioned<A>(b,e,un):bpc::is_partitioned(b,e,un);
  case 16:{RSink o2{out.data()+n+1};auto pr=a&1?bpc::partition_copy<A>(b,e,o,o2,un):bpc::partition_copy(b,e,o,o2,un);return mix(outs(pr.first),pr.second.p-o2.p);}
  case 17:return a&1?dist(bpc::partition_point<A>(b,e,[](const auto& x){return val(x)!=0;})):dist(bpc::partition_point(b,e,[](const auto& x){return val(x)!=0;}));
  case 18:return a&1?bpc::any_of<A>(b,e,un):bpc::any_of(b,e,un);
  case 19:return a&1?bpc::equal<A>(b,e,b,bi):bpc::equal(b,e,b,bi);
  case 20:return a&1?dist(bpc::mismatch<A>(b,e,b,bi).first):dist(bpc::mismatch(b,e,f,g,bi).first);
  case 21:return outs(a&1?bpc::replace_copy_if<A>(b,e,o,un,A(4)):bpc::replace_copy_if(b,e,o,un,A(4)));
  case 22:return outs(bpc::move<A>(b,e,o));
  case 23:return a&1?bpc::count_if<A,B>(b,e,un):bpc::count_if(b,e,un);
  case 24:return bpc::none_of<A>(b,e,un)+2*bpc::all_of(b,e,un);
  case 25:return dist(bpc::search(b,e,f,g,bi));
  default:{u64 h=0;auto fn=bpc::for_each(b,e,[h](const auto& x)mutable{h=mix(h,val(x));return h;});return fn(A(1));}
  }
}

// what a value gives access to
static u64 values(const Col& c,u64 a)
{
  u64 h=0;
  for(const auto& x:c){
#if KIND==0
    if(auto* p=dynamic_cast<const R<0>*>(&x))h=mix(h,p->v);
    h=mix(h,typeid(x).hash_code());
#elif KIND==1
    h=mix(h,x.target_type().hash_code());
    if(auto* p=x.template target<R<0>>())h=mix(h,p->v);
    if(auto* p=x.template target<R<4>>())h=mix(h,p->v);
    h=mix(h,bool(x));
    if(a&1)h=mix(h,val(std::function<u64(Msg&)>(x)));
#else
    h=mix(h,boost::type_erasure::typeid_of(x).hash_code());
    if(auto* p=boost::type_erasure::any_cast<const R<0>*>(&x))h=mix(h,p->v);
#endif
    (void)a;
  }
  return h;
}

static u64 run_op(const Op& op,Shared& s,int thread)
{
  const Col& c=s.c;const Col& d=s.d;
  u64 a=op.a;
  int t=int(a%NR);
  const std::type_info& al=*aliases[t][(a>>8)%3];
  const std::type_info& in=(a>>16)%2?al:*infos[t];
  return guarded([&]()->u64{
    switch(op.what){
    case O_SIZE:return mix(c.size(),c.empty());
    case O_SIZE_T:return with_type(t,[&](auto* p)->u64{typedef typename std::remove_pointer<decltype(p)>::type T;return mix(c.template size<T>(),c.template empty<T>());});
    case O_SIZE_I:return mix(c.size(in),c.empty(in));
    case O_REG:{u64 h=0;for(int k=0;k<NR;++k)h=h*4+2*c.is_registered(*aliases[k][(a>>8)%3])+s.w.is_registered(*infos[k]);
      return h*2+with_type(t,[&](auto* p)->u64{typedef typename std::remove_pointer<decltype(p)>::type T;return c.template is_registered<T>();});}
    case O_CAP:return c.capacity(in)>=c.size(in);
    case O_TRAV:{u64 h=sum(c);h=mix(h,sum(d));for(const auto& x:c)h=mix(h,val(x));return mix(h,std::distance(c.cbegin(),c.cend()));}
    case O_TRAV_T:return with_type(t,[&](auto* p)->u64{typedef typename std::remove_pointer<decltype(p)>::type T;
      u64 h=0;for(auto it=c.template begin<T>();it!=c.template end<T>();++it)h=mix(h,val(*it));
      for(auto it=c.template cend<T>();it!=c.template cbegin<T>();)h=mix(h,val(*--it));return h;});
    case O_TRAV_I:{u64 h=0;for(auto it=c.begin(in);it!=c.end(in);++it)h=mix(h,val(*it));
      h=mix(h,c.cend(in)-c.cbegin(in));return h;}
    case O_SEG:return with_type(t,[&](auto* p)->u64{typedef typename std::remove_pointer<decltype(p)>::type T;
      u64 h=0;for(auto& x:c.template segment<T>())h=mix(h,val(x));for(auto& x:c.segment(in))h=mix(h,val(x));return h;});
    case O_SEGT:{u64 h=0;for(auto si:c.segment_traversal()){h=mix(h,si.type_info().hash_code());for(auto& x:si)h=mix(h,val(x));}return h;}
    case O_FOREACH:{u64 h=0;bpc::for_each(c.begin(),c.end(),[&](const auto& x){h=mix(h,val(x));});return h;}
    case O_RFOREACH:{u64 h=0;
      if(a&1)bpc::for_each<R<0>,R<2>,R<4>>(c.begin(),c.end(),[&](const auto& x){h=mix(h,val(x)*31+sizeof x);});
      else bpc::for_each<R<3>,R<1>>(c.begin(),c.end(),[&](const auto& x){h=mix(h,val(x)*31+sizeof x);});
      return h;}
    case O_FIND:{u64 m=a>>20;auto it=bpc::find_if<R<1>,R<0>>(c.begin(),c.end(),[&](const auto& x){return val(x)%7==m%7;});return std::distance(c.begin(),it);}
    case O_COUNT:{u64 m=a>>20;return bpc::count_if(c.begin(),c.end(),[&](const auto& x){return val(x)%3==m%3;});}
    case O_ALLOF:return bpc::all_of<R<4>,R<0>>(c.begin(),c.end(),[&](const auto& x){return val(x)!=5;})+2*bpc::none_of<R<2>>(c.begin(),c.end(),[&](const auto& x){return val(x)==6;});
    case O_EQUAL:return (c==c)*2+(a&1?c==d:d==c)+4*(c!=d);
    case O_COPY:{Col o(c);return mix(sum(o),o.size());}
    case O_COPYA:{Col o;if(a&1)o.emplace<R<1>>(1);o=c;return mix(sum(o),o.size());}
    case O_RANGE:{Col o;o.register_types<R<0>,R<1>,R<2>,R<4>>();u64 h=guarded([&]()->u64{if(a&1)o.insert(c.begin(),c.end());else{auto si=c.segment(in);o.insert(si.begin(),si.end());}return 1;});
      u64 n=o.size();return mix(h,n&&h!=1?0:n);}
    case O_ALGO2:{u64 h=bpc::equal(c.begin(),c.end(),d.begin(),d.end(),[](const auto& x,const auto& y){return val(x)==val(y);});
      auto p=bpc::mismatch<R<0>,R<1>>(c.begin(),c.end(),d.begin(),d.end(),[](const auto& x,const auto& y){return val(x)==val(y);});
      h=mix(h,std::distance(c.begin(),p.first));
      auto q=bpc::search<R<2>>(c.begin(),c.end(),d.begin(),d.end(),[](const auto& x,const auto& y){return val(x)%5==val(y)%5;});
      return mix(h,std::distance(c.begin(),q));}
    case O_MISC:{u64 h=c.max_size(in)>0;h=mix(h,c.get_allocator()==d.get_allocator());
      for(auto it=c.cbegin();it!=c.cend();++it){auto jt=it;++jt;h=h*3+(jt!=it)+(jt==c.end());}
      return h;}
    case O_COPYIF:{
      std::vector<u64> all(c.size()+1);
      auto e=bpc::copy_if<R<0>>(c.begin(),c.end(),RSink{all.data()},[](const auto& x){return val(x)%2==0;});
      u64 h=e.p-all.data();
      for(u64 x:all)h=mix(h,x);
      return h;}
    case O_ALGOS:return algos(c,d,a);
    case O_VALUE:return values(c,a);
    case O_OWN:return own_work(c,a);
    case O_WRITE:{ // thread k owns the elements k, k+n, ...
      u64 h=0;
      int n=s.nthreads;
      for(std::size_t k=thread;k<s.wits.size();k+=n){
        auto& x=*s.wits[k];
        h=mix(h,val(x));
      }
      h=mix(h,s.w.size());h=mix(h,s.w.size(*infos[0]));h=mix(h,s.w.is_registered(al));
      return h;}
    }
    return 0;
  });
}
// writes go through pointers to the concrete elements, and are interleaved with reads through the collection
struct Writer
{
  std::vector<std::pair<int,void*>> el; // in global order
  void set(std::size_t k,int n)const
  {
    with_type(el[k].first,[&](auto* p)->u64{static_cast<decltype(p)>(el[k].second)->set(n);return 0;});
  }
};

static void race_case(u64 seed,long)
{
  for(int t=0;t<NR;++t)for(int k=0;k<3;++k)aliases[t][k]=&alias_of(*infos[t],unsigned(k));
  Rng r(seed);
  Shared s;
  const int nt=2+int(r.below(3));
  s.nthreads=nt;
  u64 sc=r.next(),sd=r.chance(1,2)?sc:r.next(),sw=r.next();
  const bool copied=r.chance(1,3);   // the collections are copies of a common source used by nobody
  std::unique_ptr<Col> source;
  auto make=[&](Col& c,u64 sx){
    build(c,sx);
  };
  make(s.c,sc);make(s.d,sd);make(s.w,sw);
  if(copied&&!(s.c.is_registered<R<3>>()&&s.c.size<R<3>>())){
    source.reset(new Col(s.c));
    s.d=*source;sd=sc;
  }
  Shared twin;
  twin.nthreads=nt;
  make(twin.c,sc);make(twin.d,sd);make(twin.w,sw);
  Writer wr;
  for(auto si:s.w.segment_traversal()){
    int t=0;while(!(si.type_info()==*infos[t]))++t;
    with_type(t,[&](auto* p)->u64{typedef typename std::remove_pointer<decltype(p)>::type T;
      for(auto& x:s.w.template segment<T>())wr.el.push_back({t,&x});return 0;});
  }
  for(auto it=s.w.begin();it!=s.w.end();++it)s.wits.push_back(it);
  for(auto it=twin.w.begin();it!=twin.w.end();++it)twin.wits.push_back(it);
  PCV_CHECK(wr.el.size()==s.wits.size(),"views","traversal length");
  // the threads' programs
  const int nops=10+int(r.below(30));
  std::vector<std::vector<Op>> prog(nt);
  const int focus=r.chance(1,2)?int(r.below(NOPS)):-1;
  for(auto& p:prog)for(int k=0;k<nops;++k){
    int w=focus>=0&&r.chance(2,3)?focus:int(r.below(NOPS));
    p.push_back({w,r.next()});
  }
  std::string desc;
  for(int k=0;k<nt;++k){
    desc+="thread "+std::to_string(k)+":";
    for(auto& o:prog[k]){desc+=" ";desc+=opname[o.what];}
    desc+="\n";
  }
  trace("%d threads, %zu+%zu+%zu elements\n%s",nt,s.c.size(),s.d.size(),s.w.size(),desc.c_str());
  std::vector<std::vector<u64>> got(nt,std::vector<u64>(nops)),want=got;
  std::vector<std::vector<unsigned>> began(nt,std::vector<unsigned>(nops)),ended=began;
  std::atomic<unsigned> ticket{0};
  std::atomic<int> waiting{0};
  auto body=[&](int k){
    jit.on=true;jit.s=seed*31+k;
    waiting.fetch_add(1,std::memory_order_relaxed);
    while(waiting.load(std::memory_order_relaxed)<nt)sched_yield();
    for(int i=0;i<nops;++i){
      began[k][i]=ticket.fetch_add(1,std::memory_order_relaxed);
      if(prog[k][i].what==O_WRITE)for(std::size_t e=k;e<wr.el.size();e+=nt)wr.set(e,int((prog[k][i].a+e)%100));
      got[k][i]=run_op(prog[k][i],s,k);
      ended[k][i]=ticket.fetch_add(1,std::memory_order_relaxed);
    }
    jit.on=false;
  };
  {
    std::vector<std::thread> th;
    for(int k=0;k<nt;++k)th.emplace_back(body,k);
    for(auto& t:th)t.join();
  }
  // the same programs, one after the other, on the twin
  Writer tw;
  for(auto si:twin.w.segment_traversal()){
    int t=0;while(!(si.type_info()==*infos[t]))++t;
    with_type(t,[&](auto* p)->u64{typedef typename std::remove_pointer<decltype(p)>::type T;
      for(auto& x:twin.w.template segment<T>())tw.el.push_back({t,&x});return 0;});
  }
  for(int k=0;k<nt;++k)for(int i=0;i<nops;++i){
    if(prog[k][i].what==O_WRITE)for(std::size_t e=k;e<tw.el.size();e+=nt)tw.set(e,int((prog[k][i].a+e)%100));
    want[k][i]=run_op(prog[k][i],twin,k);
    PCV_CHECK(got[k][i]==want[k][i],"thread-result","thread %d, operation %d (%s): result %llu differs from that of a single thread (%llu)",k,i,opname[prog[k][i].what],
      (unsigned long long)got[k][i],(unsigned long long)want[k][i]);
    stats().add(opname[prog[k][i].what]);
  }
  PCV_CHECK(sum(s.c)==sum(twin.c)&&sum(s.d)==sum(twin.d)&&sum(s.w)==sum(twin.w),"thread-result","collections differ after the threads ended");
  // what the schedule was: operations of different threads in progress at the same time
  for(int k=0;k<nt;++k)for(int i=0;i<nops;++i)for(int l=k+1;l<nt;++l)for(int j=0;j<nops;++j){
    if(began[l][j]<ended[k][i]&&began[k][i]<ended[l][j]){
      stats().add("overlapping_operations");
      int x=prog[k][i].what,y=prog[l][j].what;
      stats().sig.insert(mix(mix(x<y?x:y,x<y?y:x),mix(began[l][j]<began[k][i],mix(int(ended[l][j]<ended[k][i])+2*KIND,nt))));
    }
  }
  stats().add("threads",nt);
}
}
int main(int argc,char** argv){return pcv::drive(argc,argv,&pcv::race_case);}
