// Work done by operations as sizes grow: executed edges of the (instrumented)
// library and standard library templates, element operations per type, and
// allocations.
#ifndef KIND
#error KIND not defined
#endif
#include "core.hpp"
#include <algorithm>
#include <cstring>
#include <functional>
#include <iterator>
#include <memory>
#include <random>
#include <string>
#include <vector>
#include <boost/poly_collection/algorithm.hpp>
#if KIND==0
#include <boost/poly_collection/base_collection.hpp>
#elif KIND==1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#endif

namespace pcv{
extern u64 edges; // see edges.cpp
namespace bpc=boost::poly_collection;

enum{NC=6}; // the last one is not measured by itself
struct Work{u64 made=0,copied=0,moved=0,assigned=0,gone=0,eq=0;u64 total()const{return made+copied+moved+assigned;}};
static Work work[NC];
static u64 allocs;

#if KIND==0
struct CB{virtual ~CB(){} virtual int operator()(int)const=0;};
#define PCV_CB :CB
#else
#define PCV_CB
#endif
// 0: regular  1: move may throw  2: not assignable  3: large, no moves  4: final  5: companion
template<int I> struct P PCV_CB
{
  int v;char pad[I==3?200:I*12+1]={};
  explicit P(int v=0):v(v){++work[I].made;}
  P(const P& x):v(x.v){++work[I].copied;}
  P(P&& x)noexcept(I!=1):v(x.v){++work[I].moved;}
  P& operator=(const P& x){v=x.v;++work[I].assigned;return *this;}
  P& operator=(P&& x){v=x.v;++work[I].assigned;return *this;}
  ~P(){++work[I].gone;}
  bool operator==(const P& x)const{++work[I].eq;return v==x.v;}
  int operator()(int a)const{return a+v;}
};
template<> struct P<2> PCV_CB
{
  const int v;
  explicit P(int v=0):v(v){++work[2].made;}
  P(const P& x):v(x.v){++work[2].copied;}
  P(P&& x)noexcept:v(x.v){++work[2].moved;}
  ~P(){++work[2].gone;}
  bool operator==(const P& x)const{++work[2].eq;return v==x.v;}
  int operator()(int a)const{return a+v;}
};
template<> struct P<3> PCV_CB
{
  int v;char pad[200]={};
  explicit P(int v=0):v(v){++work[3].made;}
  P(const P& x):v(x.v){++work[3].copied;}
  P& operator=(const P& x){v=x.v;++work[3].assigned;return *this;}
  ~P(){++work[3].gone;}
  bool operator==(const P& x)const{++work[3].eq;return v==x.v;}
  int operator()(int a)const{return a+v;}
};
template<> struct P<4> final PCV_CB
{
  int v;
  explicit P(int v=0):v(v){++work[4].made;}
  P(const P& x):v(x.v){++work[4].copied;}
  P(P&& x)noexcept:v(x.v){++work[4].moved;}
  P& operator=(const P& x){v=x.v;++work[4].assigned;return *this;}
  ~P(){++work[4].gone;}
  bool operator==(const P& x)const{++work[4].eq;return v==x.v;}
  int operator()(int a)const{return a+v;}
};

template<typename T> struct CAl
{
  typedef T value_type;
  CAl()=default;
  template<typename U> CAl(const CAl<U>&){}
  T* allocate(std::size_t n){++allocs;return std::allocator<T>().allocate(n);}
  void deallocate(T* p,std::size_t n){std::allocator<T>().deallocate(p,n);}
  friend bool operator==(const CAl&,const CAl&){return true;}
  friend bool operator!=(const CAl&,const CAl&){return false;}
};
#if KIND==0
using Col=boost::base_collection<CB,CAl<CB>>;
#elif KIND==1
using Col=boost::function_collection<int(int),CAl<bpc::function_collection_value_type<int(int)>>>;
#else
using Con=boost::type_erasure::callable<int(int),const boost::type_erasure::_self>;
using Col=boost::any_collection<Con,CAl<bpc::any_collection_value_type<Con>>>;
#endif
template<typename T> static int val(const T& x){return x(0);}

struct Meter
{
  u64 e0,a0;Work w0[NC];
  Meter(){a0=allocs;for(int i=0;i<NC;++i)w0[i]=work[i];e0=edges;}
};
struct Cost{u64 edges=0,allocs=0;Work w[NC];};
static Cost stop(const Meter& m)
{
  Cost c;
  c.edges=edges-m.e0;c.allocs=allocs-m.a0;
  for(int i=0;i<NC;++i){
    c.w[i].made=work[i].made-m.w0[i].made;c.w[i].copied=work[i].copied-m.w0[i].copied;c.w[i].moved=work[i].moved-m.w0[i].moved;
    c.w[i].assigned=work[i].assigned-m.w0[i].assigned;c.w[i].gone=work[i].gone-m.w0[i].gone;c.w[i].eq=work[i].eq-m.w0[i].eq;
  }
  return c;
}

template<int I> static void fill(Col& c,std::size_t n)
{
  c.template register_types<P<I>>();
  std::vector<P<I>> v;v.reserve(n);
  for(std::size_t k=0;k<n;++k)v.emplace_back(int(k%1000));
  c.insert(v.begin(),v.end());
}

struct Row{const char* name;std::function<Cost(std::size_t n,std::size_t d,std::size_t others,u64 seed)> run;
  int cls;      // growth of the cost with n: 0 constant, 1 linear
  bool spread;  // also measured with other segments growing
  std::function<u64(std::size_t n,std::size_t d)> bound; // element operations allowed
};

template<int I> static void others(Col& c,std::size_t n)
{
  if(I!=0)fill<0>(c,n);
  if(I!=1)fill<1>(c,n/2);
  if(I!=2)fill<2>(c,n);
  if(I!=3)fill<3>(c,n/8);
  if(I!=4)fill<4>(c,n/3);
}
template<typename T> static void room(Col& c,std::size_t k){c.template reserve<T>(c.template size<T>()+k);}

#define ROW(nm,cls,spread,bnd,pre,...) \
  rows.push_back({nm,[](std::size_t n,std::size_t d,std::size_t oth,u64 seed){ \
    typedef P<I> T;Col c;others<I>(c,oth);fill<I>(c,n);const Col& cc=c;(void)cc;(void)d;Rng r(seed);(void)r; \
    pre;Meter m;__VA_ARGS__;return stop(m);},cls,spread,[](std::size_t n,std::size_t d)->u64{(void)n;(void)d;return bnd;}});

// global iterator to the element at distance d from the end of its segment
template<typename T> static typename Col::iterator at(Col& c,std::size_t d)
{
  auto p=c.begin();
  for(auto* q=std::addressof(c.end(typeid(T))[-1-(std::ptrdiff_t)d]);p!=c.end();++p)if(std::addressof(*p)==q)break;
  return p;
}
// single pass
template<typename T> struct Once
{
  typedef std::input_iterator_tag iterator_category;typedef T value_type;typedef std::ptrdiff_t difference_type;typedef const T* pointer;typedef const T& reference;
  std::size_t n;T x{3};
  explicit Once(std::size_t n):n(n){}
  const T& operator*()const{return x;}
  const T* operator->()const{return &x;}
  Once& operator++(){--n;return *this;}
  Once operator++(int){Once t(*this);--n;return t;}
  friend bool operator==(const Once& a,const Once& b){return a.n==b.n;}
  friend bool operator!=(const Once& a,const Once& b){return a.n!=b.n;}
};
struct Null
{
  typedef std::output_iterator_tag iterator_category;typedef void value_type;typedef std::ptrdiff_t difference_type;typedef void pointer;typedef void reference;
  struct Slot{template<typename T> void operator=(const T&)const{}};
  Slot operator*()const{return {};}
  Null& operator++(){return *this;}
  Null operator++(int){return *this;}
};

template<int I> static std::vector<Row>& table()
{
  static std::vector<Row> rows;
  if(!rows.empty())return rows;
  enum{C=0,L=1};
  // constant
  ROW("size<T>()",C,true,0,,(void)cc.template size<T>();)
  ROW("size()",C,true,0,,(void)cc.size();)
  ROW("empty()",C,true,0,,(void)cc.empty();)
  ROW("size(info)",C,true,0,,(void)cc.size(typeid(T));)
  ROW("capacity<T>()",C,true,0,,(void)cc.template capacity<T>();)
  ROW("is_registered<T>()",C,true,0,,(void)cc.template is_registered<T>();)
  ROW("begin()/end()",C,true,0,,(void)(cc.begin()==cc.end());)
  ROW("begin<T>()/end<T>()",C,true,0,,(void)(cc.template begin<T>()==cc.template end<T>());)
  ROW("begin(info)/end(info)",C,true,0,,(void)(cc.end(typeid(T))-cc.begin(typeid(T)));)
  ROW("segment<T>()",C,true,0,,(void)(cc.template segment<T>().begin());)
  ROW("segment(info)",C,true,0,,(void)(cc.segment(typeid(T)).end());)
  ROW("segment_traversal",C,true,0,,for(auto s:cc.segment_traversal())(void)(s.end()-s.begin());)
  ROW("local_base_iterator arithmetic",C,true,0,auto f=c.begin(typeid(T));auto l=c.end(typeid(T)),
    auto x=f+(l-f)/2;x+=1;x-=2;(void)(x<l);(void)x[1];)
  ROW("local_iterator arithmetic",C,true,0,auto f=c.template begin<T>();auto l=c.template end<T>(),
    auto x=f+(l-f)/2;x+=1;x-=2;(void)(x<l);(void)x[1];)
  ROW("local_base_iterator to local_iterator",C,true,0,auto f=c.begin(typeid(T))+1,typename Col::template local_iterator<T> x(f);(void)x;)
  ROW("++iterator",C,true,0,auto f=c.begin(),++f;)
  ROW("reserve within capacity",C,true,0,,c.template reserve<T>(1);c.reserve(typeid(T),2);)
  ROW("move construction",C,true,0,,Col o(std::move(c));)
  ROW("move assignment to empty",C,true,0,Col o,o=std::move(c);)
  ROW("swap",C,true,0,Col o;fill<I>(o,n),o.swap(c);)
  ROW("insert at end within capacity",C,true,16,T x(3);room<T>(c,8),c.insert(x);)
  ROW("insert rvalue at end within capacity",C,true,16,T x(3);room<T>(c,8),c.insert(std::move(x));)
  ROW("emplace within capacity",C,true,16,room<T>(c,8),c.template emplace<T>(3);)
  ROW("insert value at end within capacity",C,true,16,T x(3);room<T>(c,8);auto it=c.begin(typeid(T)),c.insert(*it);)
  ROW("emplace_hint with a foreign hint within capacity",C,true,16,room<T>(c,8);auto e=c.end(),c.template emplace_hint<T>(e,3);)
  ROW("emplace_pos near the end within capacity",C,true,8*d+24,room<T>(c,8);auto p=c.end(typeid(T))-d,c.template emplace_pos<T>(p,3);)
  ROW("local emplace_pos near the end within capacity",C,true,8*d+24,room<T>(c,8);auto p=c.template end<T>()-d,c.emplace_pos(p,3);)
  ROW("local insert near the end within capacity",C,true,8*d+24,T x(1);room<T>(c,8);auto p=c.template end<T>()-d,c.insert(p,x);)
  ROW("insert(lbit) near the end within capacity",C,true,8*d+24,T x(1);room<T>(c,8);auto p=c.end(typeid(T))-d,c.insert(p,x);)
  ROW("short range near the end within capacity",C,true,8*d+64,std::vector<T> v(3,T(2));room<T>(c,8);auto p=c.template end<T>()-d,c.insert(p,v.begin(),v.end());)
  ROW("short range at the end within capacity",C,true,64,std::vector<T> v(3,T(2));room<T>(c,8),c.insert(v.begin(),v.end());)
  ROW("erase near the end",C,true,8*d+24,auto p=c.template end<T>()-d-1,c.erase(p);)
  ROW("erase(lbit) near the end",C,true,8*d+24,auto p=c.end(typeid(T))-d-1,c.erase(p);)
  ROW("erase(it) near the end",C,true,8*d+24,
    auto p=c.begin();for(std::size_t k=0;p!=c.end();++p){if(std::addressof(*p)==std::addressof(c.end(typeid(T))[-1-(std::ptrdiff_t)d]))break;},c.erase(p);)
  ROW("erase range near the end",C,true,8*d+64,auto p=c.template end<T>()-d-4;auto q=p+4,c.erase(p,q);)
  ROW("erase(lbit range) near the end",C,true,8*d+64,auto p=c.end(typeid(T))-d-4;auto q=p+4,c.erase(p,q);)
  ROW("find_if stopping early",C,true,0,,(void)bpc::find_if(cc.begin(),cc.end(),[](const auto&){return true;});)
  ROW("any_of<T> stopping early",C,true,0,,(void)bpc::any_of<T>(cc.begin(),cc.end(),[](const auto&){return true;});)
  ROW("for_each_n of few",C,true,0,,bpc::for_each_n<T>(cc.begin(),2,[](const auto&){});)
  ROW("shrink_to_fit with nothing to do",C,true,0,c.template shrink_to_fit<T>(),c.template shrink_to_fit<T>();)
  ROW("max_size",C,true,0,,(void)cc.template max_size<T>();(void)cc.max_size(typeid(T));)
  ROW("is_registered(info)",C,true,0,,(void)cc.is_registered(typeid(T));(void)cc.is_registered(typeid(int));)
  ROW("empty<T>()",C,true,0,,(void)cc.template empty<T>();(void)cc.empty(typeid(T));)
  ROW("register_types again",C,true,0,,c.template register_types<T>();)
  ROW("register_types of another",C,true,0,,c.template register_types<P<5>>();)
  ROW("insertion of another type",C,true,16,P<5> x(2),c.insert(x);)
  ROW("get_allocator",C,true,0,,(void)cc.get_allocator();)
  ROW("move construction with allocator",C,true,0,Col* q=nullptr;struct G{Col*& q;~G(){delete q;}} g{q},q=new Col(std::move(c),CAl<int>());)
  ROW("move assignment to a small one",C,true,64,Col o;fill<I>(o,8),o=std::move(c);)
  ROW("const local iterator arithmetic",C,true,0,auto f=cc.template begin<T>();auto l=cc.template end<T>(),
    auto x=f+(l-f)/2;x+=1;x-=2;(void)(x<l);(void)x[1];--x;x++;(void)(x==typename Col::template const_local_iterator<T>(c.template begin<T>()));)
  ROW("insert(hint) near the end within capacity",C,true,8*d+24,T x(1);room<T>(c,8);auto p=at<T>(c,d),c.insert(p,x);)
  ROW("emplace_hint near the end within capacity",C,true,8*d+24,room<T>(c,8);auto p=at<T>(c,d),c.template emplace_hint<T>(p,7);)
  ROW("range(hint) near the end within capacity",C,true,8*d+64,std::vector<T> v(3,T(2));room<T>(c,8);auto p=at<T>(c,d),c.insert(p,v.begin(),v.end());)
  ROW("erase(it range) near the end",C,true,8*d+64,auto p=at<T>(c,d+4);auto q=std::next(p,4),c.erase(p,q);)
  ROW("erase tail",C,false,8*d+64,auto p=c.cbegin();std::advance(p,c.size()-d-2),c.erase(p,c.cend());)
  ROW("find_if_not stopping early",C,true,0,,(void)bpc::find_if_not<T>(cc.begin(),cc.end(),[](const auto&){return false;});)
  ROW("all_of stopping early",C,true,0,,(void)bpc::all_of(cc.begin(),cc.end(),[](const auto&){return false;});(void)bpc::none_of<T>(cc.begin(),cc.end(),[](const auto&){return true;});)
  ROW("mismatch stopping early",C,true,0,,(void)bpc::mismatch<T>(cc.begin(),cc.end(),cc.begin(),cc.end(),[&](const auto&,const auto&){return false;});
    (void)bpc::equal<T>(cc.begin(),cc.end(),cc.begin(),[&](const auto&,const auto&){return false;});)
  ROW("search stopping early",C,true,0,auto k=cc.begin();++k,(void)bpc::search<T>(cc.begin(),cc.end(),cc.begin(),k,[&](const auto&,const auto&){return true;});
    (void)bpc::search_n(cc.begin(),cc.end(),2,1,[&](const auto&,int){return true;});(void)bpc::adjacent_find<T>(cc.begin(),cc.end(),[&](const auto&,const auto&){return true;});)
  ROW("copy_n of few",C,true,0,,bpc::copy_n<T>(cc.begin(),2,Null());)
  // linear
  ROW("reserve of all",L,false,8*n+64,,c.reserve(3*n);)
  ROW("shrink_to_fit of all",L,false,8*n+64,c.reserve(3*n),c.shrink_to_fit();)
  ROW("shrink_to_fit(info)",L,true,4*n+16,c.template reserve<T>(2*n),c.shrink_to_fit(typeid(T));)
  ROW("copy construction with allocator",L,false,4*n+16,,Col o(cc,CAl<int>());)
  ROW("construction from range",L,true,16*n+64,std::vector<T> v(n,T(3)),Col o(v.begin(),v.end());)
  ROW("range of input iterators",L,true,16*n+64,Once<T> x(n);Once<T> z(0),c.insert(x,z);)
  ROW("local range of input iterators at the end",L,true,24*n+64,Once<T> x(n);Once<T> z(0),c.insert(c.template end<T>(),x,z);)
  ROW("erase across the beginning",L,false,8*n+64,auto p=at<T>(c,n/2),c.erase(c.cbegin(),p);)
  ROW("comparison of different",L,false,16,Col o(cc);o.template emplace<T>(-1);c.template emplace<T>(-2),(void)(o==cc);)
  ROW("distance of iterators",L,false,0,,(void)std::distance(cc.begin(),cc.end());)
  ROW("partition_point",L,false,0,,(void)bpc::partition_point<T>(cc.begin(),cc.end(),[](const auto& x){return val(x)>=0;});)
  ROW("replace_copy_if",L,false,n+2*1000+16,T x(2),bpc::replace_copy_if<T>(cc.begin(),cc.end(),Null(),[](const auto& x){return val(x)%2==0;},x);)
  ROW("move",L,false,0,,bpc::move<T>(c.begin(),c.end(),Null());)
  ROW("all_of",L,false,0,,(void)bpc::all_of<T>(cc.begin(),cc.end(),[](const auto& x){return val(x)>=0;});(void)bpc::any_of(cc.begin(),cc.end(),[](const auto& x){return val(x)<0;});
    (void)bpc::none_of<T>(cc.begin(),cc.end(),[](const auto& x){return val(x)<0;});(void)bpc::find_if_not(cc.begin(),cc.end(),[](const auto& x){return val(x)>=0;});)
  ROW("search of a short sequence",L,false,0,int ks[3];ks[0]=7;ks[1]=8;ks[2]=-3,(void)bpc::search<T>(cc.begin(),cc.end(),ks,ks+3,[](const auto& x,int y){return val(x)==y;});)
  ROW("find_end of a short sequence",L,false,0,int ks[2];ks[0]=7;ks[1]=8,(void)bpc::find_end<T>(cc.begin(),cc.end(),ks,ks+2,[](const auto& x,int y){return val(x)==y;});)
  ROW("clear<T>()",L,true,0,,c.template clear<T>();)
  ROW("clear(info)",L,true,0,,c.clear(typeid(T));)
  ROW("clear()",L,false,0,,c.clear();)
  ROW("destruction",L,false,0,auto* o=new Col(std::move(c)),delete o;)
  ROW("reserve",L,true,4*n+16,,c.template reserve<T>(c.template capacity<T>()*2+1);)
  ROW("reserve(info)",L,true,4*n+16,,c.reserve(typeid(T),c.template capacity<T>()*2+1);)
  ROW("shrink_to_fit",L,true,4*n+16,c.template reserve<T>(2*n),c.template shrink_to_fit<T>();)
  ROW("copy construction",L,false,4*n+16,,Col o(cc);)
  ROW("copy assignment",L,false,4*n+16,Col o;fill<I>(o,n/2),o=cc;)
  ROW("comparison",L,false,16,Col o(cc),(void)(o==cc);)
  ROW("emplace_pos at the beginning",L,true,8*n+24,auto p=c.begin(typeid(T)),c.template emplace_pos<T>(p,3);)
  ROW("local insert at the beginning",L,true,8*n+24,T x(2);auto p=c.template begin<T>(),c.insert(p,x);)
  ROW("insert(lbit) at the beginning",L,true,8*n+24,T x(2);auto p=c.begin(typeid(T)),c.insert(p,x);)
  ROW("erase at the beginning",L,true,8*n+24,auto p=c.template begin<T>(),c.erase(p);)
  ROW("erase range of half",L,true,8*n+24,auto p=c.template begin<T>()+n/4;auto q=p+n/2,c.erase(p,q);)
  ROW("erase(lbit range) of half",L,true,8*n+24,auto p=c.begin(typeid(T))+n/4;auto q=p+n/2,c.erase(p,q);)
  ROW("erase global range",L,false,8*n+24,auto p=c.begin();auto q=c.end(),c.erase(p,q);)
  ROW("short range at the beginning",L,true,24*n+64,std::vector<T> v(3,T(2));auto p=c.template begin<T>(),c.insert(p,v.begin(),v.end());)
  ROW("short range(lbit) at the beginning",L,true,24*n+64,std::vector<T> v(3,T(2));auto p=c.begin(typeid(T)),c.insert(p,v.begin(),v.end());)
  ROW("range at the end",L,true,10*n+64,std::vector<T> v(n,T(2)),c.insert(v.begin(),v.end());)
  ROW("range of values",L,true,10*n+64,Col o(c),o.insert(c.begin(typeid(T)),c.end(typeid(T)));)
  ROW("range of a collection",L,false,10*n+64,Col o(c),o.insert(c.cbegin(),c.cend());)
  ROW("global traversal",L,false,0,long s=0,for(const auto& x:cc)s+=val(x);)
  ROW("local traversal",L,true,0,long s=0,for(auto& x:c.segment(typeid(T)))s+=val(x);for(auto& x:cc.template segment<T>())s+=x.v;)
  ROW("for_each",L,false,0,long s=0,bpc::for_each(cc.begin(),cc.end(),[&](const auto& x){s+=val(x);});)
  ROW("for_each<T>",L,false,0,long s=0,bpc::for_each<T>(cc.begin(),cc.end(),[&](const auto& x){s+=val(x);});)
  ROW("count_if<T>",L,false,0,,(void)bpc::count_if<T>(cc.begin(),cc.end(),[&](const auto& x){return val(x)>3;});)
  ROW("find_if",L,false,0,,(void)bpc::find_if<P<2>,T>(cc.begin(),cc.end(),[&](const auto& x){return val(x)<0;});)
  ROW("adjacent_find",L,false,0,,(void)bpc::adjacent_find<T>(cc.begin(),cc.end(),[&](const auto& x,const auto& y){return val(x)+val(y)<0;});)
  ROW("equal",L,false,0,,(void)bpc::equal<T>(cc.begin(),cc.end(),cc.begin(),cc.end(),[&](const auto& x,const auto& y){return val(x)==val(y);});)
  ROW("mismatch",L,false,0,,(void)bpc::mismatch<T>(cc.begin(),cc.end(),cc.begin(),cc.end(),[&](const auto& x,const auto& y){return val(x)==val(y);});)
  ROW("search_n",L,false,0,,(void)bpc::search_n<T>(cc.begin(),cc.end(),3,-1,[&](const auto& x,int y){return val(x)==y;});)
  ROW("copy",L,false,0,,bpc::copy<T>(cc.begin(),cc.end(),Null());)
  ROW("copy_n",L,false,0,,bpc::copy_n<T>(cc.begin(),n,Null());)
  ROW("copy_if",L,false,0,,bpc::copy_if<T>(cc.begin(),cc.end(),Null(),[](const auto& x){return val(x)%2==0;});)
  ROW("for_each_n",L,false,0,,bpc::for_each_n<T>(cc.begin(),n,[](const auto&){});)
  ROW("transform",L,false,0,,bpc::transform<T>(cc.begin(),cc.end(),Null(),[](const auto& x){return val(x);});)
  ROW("transform of two",L,false,0,,bpc::transform<T>(cc.begin(),cc.end(),cc.begin(),Null(),[](const auto& x,const auto& y){return val(x)+val(y);});)
  ROW("rotate_copy",L,false,0,auto mid=cc.begin();std::advance(mid,n/2),bpc::rotate_copy<T>(cc.begin(),mid,cc.end(),Null());)
  ROW("unique_copy",L,false,0,,bpc::unique_copy<T>(cc.begin(),cc.end(),Null(),[](const auto& x,const auto& y){return val(x)==val(y);});)
  ROW("partition_copy",L,false,0,,bpc::partition_copy<T>(cc.begin(),cc.end(),Null(),Null(),[](const auto& x){return val(x)%2==0;});)
  ROW("sample",L,false,0,std::mt19937 g(5),bpc::sample<T>(cc.begin(),cc.end(),Null(),n/2,g);)
  ROW("is_partitioned",L,false,0,,(void)bpc::is_partitioned<T>(cc.begin(),cc.end(),[](const auto& x){return val(x)>=0;});)
  ROW("remove_copy_if",L,false,0,,bpc::remove_copy_if<T>(cc.begin(),cc.end(),Null(),[](const auto& x){return val(x)%2==0;});)
  ROW("find_first_of",L,false,0,int ks[3];ks[0]=-1;ks[1]=-2;ks[2]=-3,(void)bpc::find_first_of<T>(cc.begin(),cc.end(),ks,ks+3,[](const auto& x,int y){return val(x)==y;});)
  ROW("is_permutation of itself",L,false,0,,(void)bpc::is_permutation<T>(cc.begin(),cc.end(),cc.begin(),cc.end(),[](const auto& x,const auto& y){return val(x)==val(y);});)
  // amortized: n insertions one after another
  #define GROW(nm,pre,...) ROW(nm,L,true,16*n+200,{Col o;o.template register_types<T>();others<I>(o,oth);c.swap(o);}pre,for(std::size_t k=0;k<n;++k){__VA_ARGS__;})
  GROW("n insertions",T x(3),c.insert(x);)
  GROW("n insertions of rvalues",,c.insert(T(int(k)));)
  GROW("n emplacements",,c.template emplace<T>(int(k));)
  GROW("n emplacements with hint",,c.template emplace_hint<T>(c.end(),int(k));)
  GROW("n emplace_pos at the end",,c.template emplace_pos<T>(c.end(typeid(T)),int(k));)
  GROW("n local emplace_pos at the end",,c.emplace_pos(c.template end<T>(),int(k));)
  GROW("n local insertions at the end",T x(1),c.insert(c.template end<T>(),x);)
  GROW("n insertions(lbit) at the end",T x(1),c.insert(c.end(typeid(T)),x);)
  GROW("n insertions of values",c.template emplace<T>(9),c.insert(*c.begin(typeid(T)));)
  GROW("n short ranges",std::vector<T> v(2,T(4)),c.insert(v.begin(),v.end());)
  GROW("n short ranges at local end",std::vector<T> v(2,T(4)),c.insert(c.template end<T>(),v.begin(),v.end());)
  GROW("n short ranges(lbit) at the end",std::vector<T> v(1,T(4)),c.insert(c.end(typeid(T)),v.begin(),v.end());)
  GROW("n short ranges of values",Col s;s.template emplace<T>(1),c.insert(s.begin(),s.end());)
  GROW("n short ranges of local values",Col s;s.template emplace<T>(1),c.insert(s.begin(typeid(T)),s.end(typeid(T)));)
  GROW("n short ranges with a foreign hint",std::vector<T> v(2,T(4)),c.insert(c.cend(),v.begin(),v.end());)
  GROW("n short ranges of values with a foreign hint",Col s;s.template emplace<T>(1),c.insert(c.cend(),s.begin(),s.end());)
  GROW("n short ranges of local values with a foreign hint",Col s;s.template emplace<T>(1),c.insert(c.cend(),s.template begin<T>(),s.template end<T>());)
  GROW("n insertions with a foreign hint",T x(3),c.insert(c.cend(),x);)
  // reserved beforehand: no allocation, no element moved
  #define RESERVED(nm,per,pre,...) ROW("reserved: " nm,L,true,per*n,{Col o;o.template register_types<T>();others<I>(o,oth);c.swap(o);}c.template reserve<T>(3*n+8);pre,for(std::size_t k=0;k<n;++k){__VA_ARGS__;})
  RESERVED("n insertions",1,T x(3),c.insert(x);)
  RESERVED("n emplacements",1,,c.template emplace<T>(int(k));)
  RESERVED("n emplace_pos at the end",1,,c.template emplace_pos<T>(c.end(typeid(T)),int(k));)
  RESERVED("n insertions(lbit) at the end",1,T x(1),c.insert(c.end(typeid(T)),x);)
  RESERVED("n insertions of values",1,Col s;s.template emplace<T>(1),c.insert(*s.begin());)
  RESERVED("n short ranges",2,std::vector<T> v(2,T(4)),c.insert(v.begin(),v.end());)
  RESERVED("n short ranges at local end",2,std::vector<T> v(2,T(4)),c.insert(c.template end<T>(),v.begin(),v.end());)
  RESERVED("n short ranges of values",1,Col s;s.template emplace<T>(1),c.insert(s.begin(),s.end());)
  GROW("n insertions of two types",P<5> y(2);T x(1),c.insert(x);c.insert(y);)
  GROW("n ranges of two types",Col s;s.template emplace<T>(1);s.template emplace<P<5>>(1),c.insert(s.begin(),s.end());)
  GROW("n insertions after reserve",c.template reserve<T>(n/8);T x(1),c.insert(x);)
  GROW("n insertions and erasures at the end",T x(2),c.insert(x);c.insert(x);c.erase(c.template end<T>()-1);)
  return rows;
}

static std::vector<Row>& rows_of(int i){return i==0?table<0>():i==1?table<1>():i==2?table<2>():i==3?table<3>():table<4>();}

static std::string show(const Cost& c)
{
  char b[300];std::snprintf(b,sizeof b,"%llu edges, %llu allocations, element operations %llu/%llu/%llu/%llu/%llu",(unsigned long long)c.edges,(unsigned long long)c.allocs,
    (unsigned long long)c.w[0].total(),(unsigned long long)c.w[1].total(),(unsigned long long)c.w[2].total(),(unsigned long long)c.w[3].total(),(unsigned long long)c.w[4].total());
  return b;
}
static bool grows(const std::string& n){return n.compare(0,2,"n ")==0;}

static void cost_case(u64 seed,long index)
{
  Rng r(seed);
  const int ti=int(index%5);
  auto& rows=rows_of(ti);
  Row& row=rows[std::size_t(index/5)%rows.size()];
  const std::size_t d=r.below(6);
  const bool grow=grows(row.name);
  const std::size_t base=64+r.below(config().thorough?900:200),big=base*(grow?64:16);
  const std::size_t oth=8+r.below(40);
  const bool whole=!row.spread; // operation on the whole collection: other segments count as size
  trace("%s on type %d, sizes %zu and %zu, distance %zu, other segments %zu",row.name,ti,base,big,d,oth);
  Cost a=row.run(base,d,oth,seed);
  Cost b=row.run(big,d,oth,seed);
  auto tot=[](const Cost& c){u64 t=0;for(auto& w:c.w)t+=w.total();return t;};
  auto slack=whole?3*oth+200:u64(0);
  auto check=[&](const Cost& c,std::size_t n){
    PCV_CHECK(tot(c)<=row.bound(n,d)+slack*6,"element-operations","%s, type %d, size %zu, distance %zu: %s (allowed %llu)",row.name,ti,n,d,show(c).c_str(),
      (unsigned long long)(row.bound(n,d)+slack*6));
    if(row.spread)for(int k=0;k<5;++k)if(k!=ti)
      PCV_CHECK(c.w[k].total()==0&&(c.w[k].gone==0||std::string(row.name)=="move construction"),"other-segments","%s, type %d, size %zu: elements of other segments were touched: %s",row.name,ti,n,show(c).c_str());
  };
  check(a,base);check(b,big);
  const u64 f=row.cls==0?2:grow?110:32;
  const bool reserved=!std::strncmp(row.name,"reserved",8);
  if(reserved)PCV_CHECK(a.allocs==0&&b.allocs==0,"reallocation","%s, type %d: size %zu: %s; size %zu: %s",row.name,ti,base,show(a).c_str(),big,show(b).c_str());
  const bool dtor=std::string(row.name)=="move construction";
  if(!dtor)PCV_CHECK(b.edges<=f*a.edges+300,"growth","%s, type %d, distance %zu: size %zu: %s; size %zu: %s",row.name,ti,d,base,show(a).c_str(),big,show(b).c_str());
  if(row.cls==0)PCV_CHECK(b.allocs<=a.allocs+4,"growth","%s, type %d: allocations grow: size %zu: %s; size %zu: %s",row.name,ti,base,show(a).c_str(),big,show(b).c_str());
  else PCV_CHECK(b.allocs<=3*a.allocs+60,"growth","%s, type %d: allocations grow: size %zu: %s; size %zu: %s",row.name,ti,base,show(a).c_str(),big,show(b).c_str());
  if(row.spread&&!dtor){
    Cost c=row.run(base,d,oth*40,seed);
    trace("with other segments of %zu",oth*40);
    check(c,base);
    PCV_CHECK(c.edges<=2*a.edges+300&&c.allocs<=a.allocs+8,"other-segments","%s, type %d, size %zu: cost depends on the size of other segments: %s with %zu, %s with %zu elements",
      row.name,ti,base,show(a).c_str(),oth,show(c).c_str(),oth*40);
  }
  stats().add("measurements",row.spread?3:2);
  stats().add("edges",a.edges+b.edges);
  stats().sig.insert(mix(mix(ti,KIND),mix(std::size_t(&row-rows.data()),d)));
  if(config().verbose)std::printf("%-50s t%d n=%zu: %s | %s\n",row.name,ti,base,show(a).c_str(),show(b).c_str());
}
}
int main(int argc,char** argv){return pcv::drive(argc,argv,&pcv::cost_case);}
