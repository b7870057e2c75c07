// Unusual but legitimate element types, signatures and concepts, taken through
// short histories; after each step every polymorphic value must act on its own
// stored element.
#include "core.hpp"
#ifndef KIND
#error KIND not defined
#endif
#include <algorithm>
#include <functional>
#include <initializer_list>
#include <memory>
#include <string>
#include <tuple>
#include <vector>
#include <boost/poly_collection/exception.hpp>
#if KIND==0
#include <boost/poly_collection/base_collection.hpp>
#elif KIND==1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/mpl/vector.hpp>
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/any.hpp>
#include <boost/type_erasure/any_cast.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#include <boost/type_erasure/operators.hpp>
#include <boost/type_erasure/typeid_of.hpp>
#endif
#include <boost/poly_collection/algorithm.hpp>

namespace pcv{
namespace bpc=boost::poly_collection;

template<typename T> struct Maker{static T make(int id){return T(id);} enum{limit=1000};};
template<typename T> struct Copyable:std::is_copy_constructible<T>{};

// Suite: static const char* name(); types Ts; template check<TI>(V&,T&,int id)
template<typename Suite,typename C,typename... Ts> struct Hist
{
  typedef typename C::value_type V;
  enum{N=sizeof...(Ts)};
  Rng& r;
  std::unique_ptr<C> c;
  std::vector<int> m[N];
  explicit Hist(Rng& r):r(r),c(new C){}

  int fresh(int limit){return int(r.below(limit));}

  template<int TI,typename T> void verify()
  {
    C& x=*c;
    const C& cx=x;
    if(!x.template is_registered<T>()){
      PCV_CHECK(m[TI].empty(),"content","%s: segment %d lost",Suite::name(),TI);
      return;
    }
    PCV_CHECK(x.template size<T>()==m[TI].size(),"content","%s: segment %d has %zu elements, expected %zu",Suite::name(),TI,x.template size<T>(),m[TI].size());
    auto it=x.template begin<T>();
    auto bit=x.begin(typeid(T));
    auto cit=cx.template begin<T>();
    auto cbit=cx.begin(typeid(T));
    for(std::size_t k=0;k<m[TI].size();++k,++it,++bit,++cit,++cbit){
      PCV_CHECK(std::addressof(*it)==std::addressof(*cit)&&std::addressof(*bit)==std::addressof(*cbit),"views","%s: const view differs",Suite::name());
      Suite::template check<TI>(*bit,*it,m[TI][k]);
      stats().add(Suite::name());
    }
  }
  template<int... Is> void verify_all(std::integer_sequence<int,Is...>)
  {
    int d[]={(verify<Is,Ts>(),0)...};(void)d;
    std::size_t n=0;for(auto& v:m)n+=v.size();
    PCV_CHECK(c->size()==n,"content","%s: size() %zu, expected %zu",Suite::name(),c->size(),n);
  }
  void verify_all(){verify_all(std::make_integer_sequence<int,N>());}

  template<int TI,typename T> void insert_copy(const T& t,int id,std::true_type)
  {
    if(r.chance(1,2)){c->insert(t);m[TI].push_back(id);}
    else{
      c->template register_types<T>();
      std::size_t p=r.below(m[TI].size()+1);
      auto it=c->insert(c->template begin<T>()+p,t);
      PCV_CHECK(std::size_t(it-c->template begin<T>())==p,"returned-iterator","%s: insert position",Suite::name());
      m[TI].insert(m[TI].begin()+p,id);
    }
  }
  template<int TI,typename T> void insert_copy(const T&,int,std::false_type){}
  template<int TI,typename T> void insert_existing(std::true_type)
  {
    if(m[TI].empty())return;
    std::size_t p=r.below(m[TI].size());
    const V& v=*(c->begin(typeid(T))+p);
    c->insert(v); // may be an element of this very collection
    m[TI].push_back(m[TI][p]);
  }
  template<int TI,typename T> void insert_existing(std::false_type){}
  template<int TI,typename T> void insert_range(std::true_type)
  {
    std::vector<T> v;std::vector<int> ids;
    for(std::size_t n=r.below(4);n--;){ids.push_back(fresh(Maker<T>::limit));v.push_back(Maker<T>::make(ids.back()));}
    if(r.chance(1,2)){c->insert(v.begin(),v.end());if(!ids.empty())m[TI].insert(m[TI].end(),ids.begin(),ids.end());}
    else{
      c->template register_types<T>();
      std::size_t p=r.below(m[TI].size()+1);
      c->insert(c->template begin<T>()+p,v.begin(),v.end());
      m[TI].insert(m[TI].begin()+p,ids.begin(),ids.end());
    }
  }
  template<int TI,typename T> void insert_range(std::false_type){}

  template<int TI,typename T> void op()
  {
    int id=fresh(Maker<T>::limit);
    switch(r.below(11)){
    case 0:{T t(Maker<T>::make(id));insert_copy<TI,T>(t,id,Copyable<T>());break;}
    case 1:c->insert(Maker<T>::make(id));m[TI].push_back(id);break;
    case 2:c->template emplace<T>(Maker<T>::make(id));m[TI].push_back(id);break;
    case 3:{c->template register_types<T>();
      std::size_t p=r.below(m[TI].size()+1);
      c->insert(c->template begin<T>()+p,Maker<T>::make(id));m[TI].insert(m[TI].begin()+p,id);break;}
    case 4:{c->template register_types<T>();
      std::size_t p=r.below(m[TI].size()+1);
      c->emplace_pos(c->template begin<T>()+p,Maker<T>::make(id));m[TI].insert(m[TI].begin()+p,id);break;}
    case 5:if(!m[TI].empty()){std::size_t p=r.below(m[TI].size());c->erase(c->template begin<T>()+p);m[TI].erase(m[TI].begin()+p);}break;
    case 6:if(!m[TI].empty()){std::size_t p=r.below(m[TI].size());c->erase(c->begin(typeid(T))+p);m[TI].erase(m[TI].begin()+p);}break;
    case 7:c->template reserve<T>(r.below(40));break;
    case 8:if(c->template is_registered<T>())c->template shrink_to_fit<T>();break;
    case 9:insert_existing<TI,T>(Copyable<T>());break;
    case 10:insert_range<TI,T>(Copyable<T>());break;
    }
  }
  template<int... Is> void any_op(std::integer_sequence<int,Is...>)
  {
    typedef void(Hist::*fn)();
    static const fn t[]={&Hist::template op<Is,Ts>...};
    (this->*t[r.below(N)])();
  }
  void run()
  {
    bool all_copyable=true;
    {bool b[]={Copyable<Ts>::value...};for(bool x:b)all_copyable=all_copyable&&x;}
    int n=5+int(r.below(25));
    trace("suite %s, %d operations",Suite::name(),n);
    for(int k=0;k<n;++k){
      switch(r.below(12)){
      case 0:{std::unique_ptr<C> d(new C(std::move(*c)));c=std::move(d);break;}
      case 1:{C d;d=std::move(*c);c->swap(d);break;}
      case 2:if(all_copyable){std::unique_ptr<C> d(new C(*c));c=std::move(d);}break;
      case 3:if(all_copyable){C d;d=*c;*c=C();*c=d;}break;
      default:any_op(std::make_integer_sequence<int,N>());
      }
      verify_all();
    }
    stats().sig.insert(mix(mix(n,KIND),mix(m[0].size(),Suite::name()[0]*256+Suite::name()[1])));
  }
};

struct Odd{int x;};
// overloads what generic code should not use
template<typename Base> struct EvilBase:Base
{
  Odd operator&()const{return {1};}
  template<typename T> Odd operator,(T&&)const{return {2};}
};
struct Nothing{};
// has its own allocation functions, not meant for elements kept in segments
struct OwnNew
{
  static void* operator new(std::size_t n){violation("construction","the element's own allocation function is used");return ::operator new(n);}
  static void* operator new(std::size_t,void* p){violation("construction","the element's own placement form of new is used");return p;}
  static void operator delete(void* p){violation("construction","the element's own deallocation function is used");::operator delete(p);}
  static void operator delete(void*,void*){}
};
template<typename Rtt> struct IL // parentheses and braces mean different things
{};

#if KIND==1
/* ---------------- functions ---------------- */

inline int f0(int a){return a*16+0;} inline int f1(int a){return a*16+1;}
inline int f2(int a){return a*16+2;} inline int f3(int a){return a*16+3;}
typedef int(*FP)(int);
template<> struct Maker<FP>{static FP make(int id){static const FP t[]={f0,f1,f2,f3};return t[id%4];} enum{limit=4};};

struct Plain{int id;explicit Plain(int id):id(id){} int operator()(int a)const{return a*16+id;}};
struct Evil:EvilBase<Nothing>{int id;explicit Evil(int id):id(id){} int operator()(int a)const{return a*16+id;}};
struct NewF:OwnNew{int id;explicit NewF(int id):id(id){} int operator()(int a)const{return a*16+id;}};
struct NewLam:OwnNew{const int id;explicit NewLam(int id):id(id){} int operator()(int a)const{return a*16+id;}}; // not assignable
struct Stateful{int id;int calls=0;explicit Stateful(int id):id(id){} int operator()(int a){++calls;return a*16+id;}};
struct MoveOnly{std::unique_ptr<int> p;explicit MoveOnly(int id):p(new int(id)){} int operator()(int a)const{return a*16+*p;}};
struct Overloaded{int id;explicit Overloaded(int id):id(id){}
  int operator()(int a)const{return a*16+id;} int operator()(double)const{return -1;} int operator()(long)const{return -2;}
  template<typename T> int operator()(T)const{return -3;}};
struct alignas(128) Wide{char c[100];int id;explicit Wide(int id):id(id){} int operator()(int a)const{return reinterpret_cast<std::uintptr_t>(this)%128?-7:a*16+id;}};
struct BraceTrap // T(x) and T{x} differ
{
  int id;
  explicit BraceTrap(int id):id(id){}
  BraceTrap(std::initializer_list<BraceTrap>):id(-1){}
  int operator()(int a)const{return a*16+id;}
};
struct Greedy // swallows anything in its constructor
{
  int id;
  explicit Greedy(int id):id(id){}
  template<typename T,typename=typename std::enable_if<!std::is_same<typename std::decay<T>::type,Greedy>::value&&!std::is_same<typename std::decay<T>::type,int>::value>::type>
  explicit Greedy(T&&):id(-5){}
  Greedy(const Greedy&)=default;Greedy(Greedy&&)=default;
  Greedy(Greedy& x):id(x.id){}
  Greedy& operator=(const Greedy&)=default;
  int operator()(int a)const{return a*16+id;}
};
typedef std::function<int(int)> SF;
template<> struct Maker<SF>{static SF make(int id){return SF([id](int a){return a*16+id;});} enum{limit=1000};};
inline auto make_lambda(int id){return [id](int a){return a*16+id;};}
typedef decltype(make_lambda(0)) Lam; // neither assignable nor default constructible
template<> struct Maker<Lam>{static Lam make(int id){return make_lambda(id);} enum{limit=1000};};

template<typename T> const void* addr(const T& t){return std::addressof(t);}

struct IntSuite
{
  static const char* name(){return "int(int)";}
  template<typename T> static void state(T&,int,int){}
  static int calls(const Stateful& s){return s.calls;}
  template<typename T> static int calls(const T&){return -1;}
  template<int TI,typename V,typename T> static void check(V& v,T& t,int id)
  {
    int before=calls(t);
    int a=7;
    PCV_CHECK(v(a)==a*16+id,"call","type %d: call gives %d, expected %d",TI,v(a),a*16+id);
    if(before>=0)PCV_CHECK(calls(t)>before,"call","type %d: state of the stored callable did not change",TI);
    PCV_CHECK(v.data()==addr(t)&&v.template target<T>()==addr(t)&&v.target_type()==typeid(T)&&bool(v),"identity","type %d: wrong target",TI);
    PCV_CHECK(v.template target<double>()==nullptr,"identity","type %d: target of another type",TI);
    std::function<int(int)> f=v;
    before=calls(t);
    PCV_CHECK(f(3)==3*16+id,"call","type %d: std::function calls something else",TI);
    if(before>=0)PCV_CHECK(calls(t)==before+1,"call","type %d: std::function calls a copy",TI);
    const V& cv=v;
    PCV_CHECK(cv(5)==5*16+id&&cv.data()==addr(t)&&cv.template target<T>()==addr(t),"identity","type %d: const value",TI);
  }
};
/* move only argument and result */
struct UP1{int id;explicit UP1(int id):id(id){} std::unique_ptr<int> operator()(std::unique_ptr<int> p)const{*p+=id;return p;}};
struct UP2{int id;explicit UP2(int id):id(id){} std::unique_ptr<int> operator()(std::unique_ptr<int>&& p)const{*p+=id;return std::move(p);}};
struct UpSuite
{
  static const char* name(){return "unique_ptr(unique_ptr)";}
  template<int TI,typename V,typename T> static void check(V& v,T&,int id)
  {
    std::unique_ptr<int> p(new int(5));
    int* raw=p.get();
    auto q=v(std::move(p));
    PCV_CHECK(q.get()==raw&&*q==5+id&&!p,"call","move-only argument or result not handed over");
  }
};
/* reference result */
struct Holder{int s[4]={};int a=0,b=0,c=0,d=0;};
struct RefF{int id;explicit RefF(int id):id(id%4){} int& operator()(Holder& h)const{return h.s[id];}};
typedef int Holder::*MP;
template<> struct Maker<RefF>{static RefF make(int id){return RefF(id);} enum{limit=4};};
template<> struct Maker<MP>{static MP make(int id){static const MP t[]={&Holder::a,&Holder::b,&Holder::c,&Holder::d};return t[id%4];} enum{limit=4};};
struct RefSuite
{
  static const char* name(){return "int&(Holder&)";}
  template<int TI,typename V,typename T> static void check(V& v,T&,int id)
  {
    Holder h;
    int& r=v(h);
    int* w=TI==0?&h.s[id]:TI==1?&(h.*Maker<MP>::make(id)):nullptr;
    PCV_CHECK(&r==w,"call","reference result does not refer to what the callable returned");
    r=9;
    PCV_CHECK(*w==9,"call","reference result");
  }
};
/* argument categories */
struct Cat1
{
  int id;explicit Cat1(int id):id(id){}
  void operator()(std::string& a,const std::string& b,std::string&& c,int* d)const{a+=b;a+=std::move(c);std::string t(std::move(c));*d+=id;}
};
struct Cat2 // returns something which has to be discarded
{
  int id;explicit Cat2(int id):id(id){}
  int operator()(std::string& a,const std::string& b,std::string&& c,int* d)const{a+=b;a+=c;std::string t(std::move(c));*d+=id;return 3;}
};
struct CatSuite
{
  static const char* name(){return "void(string&,const string&,string&&,int*)";}
  template<int TI,typename V,typename T> static void check(V& v,T&,int id)
  {
    std::string a="a",b="b",c="a long string that is certainly not stored inside of the string object";
    int d=1;
    v(a,b,std::move(c),&d);
    PCV_CHECK(a=="aba long string that is certainly not stored inside of the string object"&&b=="b"&&d==1+id,"call","arguments altered on their way");
    PCV_CHECK(c.empty(),"call","rvalue argument not passed as rvalue");
  }
};
/* copies made of by-value arguments */
struct Counted
{
  int v=0;
  static int copies,moves;
  explicit Counted(int v):v(v){}
  Counted(const Counted& x):v(x.v){++copies;}
  Counted(Counted&& x)noexcept:v(x.v){++moves;x.v=-1;}
};
int Counted::copies=0,Counted::moves=0;
struct ByVal{int id;explicit ByVal(int id):id(id){} int operator()(Counted c)const{return c.v+id;}};
struct ByRef{int id;explicit ByRef(int id):id(id){} int operator()(const Counted& c)const{return c.v+id;}};
struct ValSuite
{
  static const char* name(){return "int(Counted)";}
  template<int TI,typename V,typename T> static void check(V& v,T&,int id)
  {
    Counted c(10);
    Counted::copies=Counted::moves=0;
    PCV_CHECK(v(c)==10+id&&c.v==10,"call","by-value argument");
    PCV_CHECK(Counted::copies==1,"call","by-value argument copied %d times",Counted::copies);
    Counted::copies=0;
    PCV_CHECK(v(Counted(20))==20+id,"call","by-value argument");
    PCV_CHECK(Counted::copies==0,"call","by-value rvalue argument copied");
  }
};
/* converted results, no arguments, exceptions */
struct R1{int id;explicit R1(int id):id(id){} char operator()()const{return char(id%100);}};
struct R2{int id;explicit R2(int id):id(id){} long operator()()const{return id;}};
struct R3{int id;explicit R3(int id):id(id){} long operator()()const{throw id;}};
struct RetSuite
{
  static const char* name(){return "long()";}
  template<int TI,typename V,typename T> static void check(V& v,T&,int id)
  {
    if(TI==2){
      int got=-1;
      try{v();}catch(int x){got=x;}
      PCV_CHECK(got==id,"call","exception of the callable did not get through");
    }
    else PCV_CHECK(v()==(TI==0?id%100:id),"call","converted result");
  }
};
struct Same{int id;explicit Same(int id):id(id){} const std::string& operator()(const std::string& s)const{return s;}};
struct Own{int id;std::string s;explicit Own(int id):id(id),s(std::to_string(id)){} const std::string& operator()(const std::string&)const{return s;}};
struct SameSuite
{
  static const char* name(){return "const string&(const string&)";}
  static const std::string* want(const Same&,const std::string& a){return &a;}
  static const std::string* want(const Own& o,const std::string&){return &o.s;}
  template<int TI,typename V,typename T> static void check(V& v,T& t,int id)
  {
    std::string a="x";
    const std::string& r=v(a);
    PCV_CHECK(&r==want(t,a),"call","reference result does not refer to what the callable returned");
    (void)id;
  }
};
/* values of collections with another signature */
static void foreign(Rng& r)
{
  boost::function_collection<int(int)> a;
  boost::function_collection<long(short)> b;
  trace("values of a collection with another signature");
  for(int k=0;k<6;++k){a.insert(Plain(k));if(k%2)a.insert(Stateful(k));}
  auto n=a.size();
  bool threw=false;
  auto first=a.begin();
  try{b.insert(*first);}
  catch(const bpc::unregistered_type& e){threw=*e.pinfo==first->target_type();}
  PCV_CHECK(threw&&b.empty(),"missing-exception","insertion of a value of unregistered type");
  b.register_types<Plain,Stateful>();
  if(r.chance(1,2))b.insert(a.begin(),a.end());
  else for(auto& x:a)b.insert(x);
  PCV_CHECK(b.size()==n&&b.size<Plain>()==6&&b.size<Stateful>()==3,"content","values of another signature not stored with their concrete type");
  for(int k=0;k<6;++k)PCV_CHECK((b.begin<Plain>()+k)->id==k,"content","order");
  for(auto& f:b)PCV_CHECK(f(short(2))>=32,"call","call through another signature");
  b.insert(b.begin(),std::move(*a.begin()));
  PCV_CHECK(b.size()==n+1,"content","size");
  stats().add("foreign");
}

static void run_case(Rng& r)
{
  switch(r.below(10)){
  case 0:{Hist<IntSuite,boost::function_collection<int(int)>,FP,Plain,Evil,Stateful,MoveOnly>(r).run();break;}
  case 1:{Hist<IntSuite,boost::function_collection<int(int)>,FP,Stateful,SF,Lam,Overloaded>(r).run();break;}
  case 2:{Hist<IntSuite,boost::function_collection<int(int)>,Wide,BraceTrap,Greedy,Lam,NewF,NewLam>(r).run();break;}
  case 3:{Hist<UpSuite,boost::function_collection<std::unique_ptr<int>(std::unique_ptr<int>)>,UP1,UP2>(r).run();break;}
  case 4:{Hist<RefSuite,boost::function_collection<int&(Holder&)>,RefF,MP>(r).run();break;}
  case 5:{Hist<CatSuite,boost::function_collection<void(std::string&,const std::string&,std::string&&,int*)>,Cat1,Cat2>(r).run();break;}
  case 6:{Hist<ValSuite,boost::function_collection<int(Counted)>,ByVal,ByRef>(r).run();break;}
  case 7:{Hist<RetSuite,boost::function_collection<long()>,R1,R2,R3>(r).run();break;}
  case 8:{Hist<SameSuite,boost::function_collection<const std::string&(const std::string&)>,Same,Own>(r).run();break;}
  case 9:foreign(r);break;
  }
}
#elif KIND==2
/* ---------------- type-erased values ---------------- */
namespace te=boost::type_erasure;

typedef boost::any_collection<te::incrementable<>> IncC;
struct Inc{int n;explicit Inc(int n):n(n){} Inc& operator++(){++n;return *this;}};
struct EvilInc:EvilBase<Nothing>{int n;explicit EvilInc(int n):n(n){} EvilInc& operator++(){++n;return *this;}};
struct NewInc:OwnNew{int n;explicit NewInc(int n):n(n){} NewInc& operator++(){++n;return *this;}};
struct MoInc{std::unique_ptr<int> n;explicit MoInc(int n):n(new int(n)){} MoInc& operator++(){++*n;return *this;}};
struct alignas(64) WideInc{char c[70];int n;explicit WideInc(int n):n(n){} WideInc& operator++(){if(reinterpret_cast<std::uintptr_t>(this)%64)violation("alignment","misaligned element");++n;return *this;}};
struct BraceInc{int n;explicit BraceInc(int n):n(n){} BraceInc(std::initializer_list<BraceInc>):n(-1){} BraceInc& operator++(){++n;return *this;}};
inline int val(const Inc& x){return x.n;} inline int val(const EvilInc& x){return x.n;} inline int val(const MoInc& x){return *x.n;}
inline int val(const WideInc& x){return x.n;} inline int val(int x){return x;} inline int val(double x){return int(x);}
inline int val(const BraceInc& x){return x.n;} inline int val(const NewInc& x){return x.n;} inline int val(const char* p);
static char buffer[4096];
inline int val(const char* p){return int(p-buffer);}
inline void dec(Inc& x){--x.n;} inline void dec(EvilInc& x){--x.n;} inline void dec(MoInc& x){--*x.n;} inline void dec(WideInc& x){--x.n;}
inline void dec(int& x){--x;} inline void dec(double& x){x-=1;} inline void dec(BraceInc& x){--x.n;} inline void dec(NewInc& x){--x.n;} inline void dec(const char*& p){--p;}
template<> struct Maker<const char*>{static const char* make(int id){return buffer+id;} enum{limit=1000};};
struct IncSuite
{
  static const char* name(){return "incrementable";}
  template<int TI,typename V,typename T> static void check(V& v,T& t,int id)
  {
    PCV_CHECK(val(t)==id,"content","type %d: value %d, expected %d",TI,val(t),id);
    ++v;
    PCV_CHECK(val(t)==id+1,"call","type %d: operation did not act on the stored element",TI);
    dec(t);
    const V& cv=v;
    PCV_CHECK(te::typeid_of(cv)==typeid(T),"identity","type %d: typeid_of",TI);
    PCV_CHECK(std::addressof(te::any_cast<T&>(v))==std::addressof(t)&&std::addressof(te::any_cast<const T&>(cv))==std::addressof(t)&&
      te::any_cast<T*>(std::addressof(v))==std::addressof(t)&&te::any_cast<void*>(std::addressof(v))==(void*)std::addressof(t),"identity","type %d: any_cast",TI);
    PCV_CHECK(te::any_cast<Odd*>(std::addressof(v))==nullptr,"identity","type %d: any_cast to another type",TI);
  }
};
/* several operations, and a concept which already has typeid_ */
struct add_to{};
typedef boost::mpl::vector<te::typeid_<>,te::copy_constructible<>,te::callable<int(int),const te::_self>,te::equality_comparable<>,te::incrementable<>> Rich;
struct Cal{int n;explicit Cal(int n):n(n){} int operator()(int a)const{return a*16+n;} bool operator==(const Cal& x)const{return n==x.n;} Cal& operator++(){++n;return *this;}};
struct Cal2{double z=0;int n;explicit Cal2(int n):n(n){} int operator()(int a)const{return a*16+n;} bool operator==(const Cal2& x)const{return n==x.n;} Cal2& operator++(){++n;return *this;}};
struct RichSuite
{
  static const char* name(){return "rich concept";}
  template<int TI,typename V,typename T> static void check(V& v,T& t,int id)
  {
    PCV_CHECK(v(3)==48+id&&t(3)==48+id,"call","type %d: call",TI);
    PCV_CHECK(v==v,"call","type %d: comparison",TI);
    ++v;
    PCV_CHECK(t.n==id+1,"call","type %d: operation did not act on the stored element",TI);
    --t.n;
    PCV_CHECK(std::addressof(te::any_cast<T&>(v))==std::addressof(t)&&te::typeid_of(v)==typeid(T),"identity","type %d: any_cast",TI);
  }
};
/* owning anys: with typeid_ they stand for their contents, without it they are elements */
typedef te::any<boost::mpl::vector<te::typeid_<>,te::copy_constructible<>,te::assignable<>,te::incrementable<>>> Box;
typedef te::any<boost::mpl::vector<te::copy_constructible<>,te::assignable<>,te::incrementable<>>> Blind;
struct Bumper{int* p;Bumper& operator++(){++*p;return *this;}};
static void boxes(Rng& r)
{
  trace("owning anys");
  IncC c;
  bool threw=false;
  Box b{Inc(5)};
  try{c.insert(b);}catch(const bpc::unregistered_type& e){threw=*e.pinfo==typeid(Inc);}
  PCV_CHECK(threw&&c.empty(),"missing-exception","insertion of an any holding an unregistered type");
  c.register_types<Inc,int>();
  c.insert(b);
  c.insert(Box(7));
  const Box cb{Inc(6)};
  if(r.chance(1,2))c.insert(c.begin(),cb);else c.insert(cb);
  PCV_CHECK(c.size<Inc>()==2&&c.size<int>()==1&&*c.begin<int>()==7,"content","anys not stored as their contents");
  PCV_CHECK((c.begin<Inc>()->n==5&&(c.begin<Inc>()+1)->n==6)||(c.begin<Inc>()->n==6&&(c.begin<Inc>()+1)->n==5),"content","contents of anys");
  std::vector<Box> v;
  for(int k=0;k<4;++k)if(k%2)v.push_back(Box(k));else v.push_back(Box(Inc(k)));
  c.insert(v.begin(),v.end());
  PCV_CHECK(c.size<Inc>()==4&&c.size<int>()==3&&*(c.begin<int>()+1)==1&&*(c.begin<int>()+2)==3&&(c.begin<Inc>()+2)->n==0&&(c.begin<Inc>()+3)->n==2,"content","range of anys");
  int bumps=0;
  Blind x{Bumper{&bumps}};
  c.insert(x);
  PCV_CHECK(c.is_registered<Blind>()&&c.size<Blind>()==1,"content","an any without typeid_ is an element by itself");
  auto& w=*c.begin(typeid(Blind));
  ++w;
  ++*c.begin<Blind>();
  PCV_CHECK(bumps==2,"call","operation on an any stored as an element");
  // values of a collection with another concept
  boost::any_collection<Rich> rc;
  for(int k=0;k<4;++k){rc.insert(Cal(k));if(k%2)rc.insert(Cal2(k));}
  IncC d;
  threw=false;
  try{d.insert(*rc.begin());}catch(const bpc::unregistered_type& e){threw=*e.pinfo==te::typeid_of(*rc.begin());}
  PCV_CHECK(threw&&d.empty(),"missing-exception","insertion of a value of unregistered type");
  d.register_types<Cal,Cal2>();
  d.insert(rc.begin(),rc.end());
  PCV_CHECK(d.size()==6&&d.size<Cal>()==4&&d.size<Cal2>()==2,"content","values of another concept not stored with their concrete type");
  for(int k=0;k<4;++k)PCV_CHECK((d.begin<Cal>()+k)->n==k,"content","order");
  // value initialization
  d.emplace<int>();
  d.emplace<double>();
  PCV_CHECK(*d.begin<int>()==0&&*d.begin<double>()==0,"content","emplace without arguments does not value-initialize");
  stats().add("boxes");
}
static void run_case(Rng& r)
{
  switch(r.below(5)){
  case 0:{Hist<IncSuite,IncC,Inc,EvilInc,MoInc,int>(r).run();break;}
  case 1:{Hist<IncSuite,IncC,WideInc,double,BraceInc,NewInc>(r).run();break;}
  case 2:{Hist<IncSuite,IncC,int,const char*,Inc,BraceInc>(r).run();break;}
  case 3:{Hist<RichSuite,boost::any_collection<Rich>,Cal,Cal2>(r).run();break;}
  case 4:boxes(r);break;
  }
}
#else
/* ---------------- class hierarchies ---------------- */

struct Node // concrete: may be an element itself
{
  int n;
  explicit Node(int n):n(n){}
  virtual ~Node(){}
  virtual int id()const{return n;}
  virtual const void* self()const{return this;}
  virtual void bump(){++n;}
};
#define PCV_SELF const void* self()const override{return this;}
struct Mid:Node{long pad=5;explicit Mid(int n):Node(n){} PCV_SELF};
struct Leaf final:Mid{char c[9]={};explicit Leaf(int n):Mid(n){} PCV_SELF};
struct Other{int z=1;virtual ~Other(){}};
struct Second:Other,Node{explicit Second(int n):Node(n){} PCV_SELF};   // base not at the beginning
struct NonPoly{double d[3]={};};
struct Third:NonPoly,Other,Node{explicit Third(int n):Node(n){} PCV_SELF};
struct EvilNode:EvilBase<Nothing>,Node{explicit EvilNode(int n):Node(n){} PCV_SELF};
struct NewNode:OwnNew,Node{explicit NewNode(int n):Node(n){} PCV_SELF};
struct MoNode:Node{std::unique_ptr<int> p;explicit MoNode(int n):Node(n),p(new int(n)){} MoNode(MoNode&&)=default;MoNode& operator=(MoNode&&)=default;PCV_SELF
  int id()const override{return p?n:-9;}};
struct alignas(64) WideNode:NonPoly,Node{explicit WideNode(int n):Node(n){} PCV_SELF int id()const override{return reinterpret_cast<std::uintptr_t>(this)%64?-7:n;}};
struct BraceNode:Node{explicit BraceNode(int n):Node(n){} BraceNode(std::initializer_list<BraceNode>):Node(-1){} PCV_SELF};
// assignment of bases hidden, only construction possible
struct ConstNode:Node{const int k;explicit ConstNode(int n):Node(n),k(n){} ConstNode(const ConstNode&)=default;ConstNode& operator=(const ConstNode&)=delete;PCV_SELF
  int id()const override{return k==n?n:-3;}};
struct NodeSuite
{
  static const char* name(){return "hierarchy";}
  template<int TI,typename V,typename T> static void check(V& v,T& t,int id)
  {
    PCV_CHECK(v.id()==id&&t.id()==id,"call","type %d: virtual call gives %d, expected %d",TI,v.id(),id);
    PCV_CHECK(typeid(v)==typeid(T)&&v.self()==(const void*)std::addressof(t)&&std::addressof(v)==static_cast<Node*>(std::addressof(t)),"identity","type %d: not the base subobject",TI);
    check_bump(v,t,id,std::is_same<T,ConstNode>());
  }
  template<typename V,typename T> static void check_bump(V& v,T& t,int id,std::false_type)
  {v.bump();PCV_CHECK(t.n==id+1,"call","virtual call did not act on the stored element");--t.n;}
  template<typename V,typename T> static void check_bump(V&,T&,int,std::true_type){}
};
static void via_bases(Rng& r)
{
  trace("insertion through intermediate bases");
  boost::base_collection<Node> c;
  Leaf l(4);Mid m(5);Second s(6);
  Mid& ml=l;Node& ns=s;
  bool threw=false;
  try{c.insert(ml);}catch(const bpc::unregistered_type& e){threw=*e.pinfo==typeid(Leaf);}
  PCV_CHECK(threw&&c.empty(),"missing-exception","insertion through a base of an unregistered type");
  c.register_types<Leaf,Mid,Second,Node>();
  c.insert(ml);c.insert(ns);c.insert(static_cast<Mid&>(m));c.insert(std::move(ns));
  if(r.chance(1,2))c.insert(c.cbegin(),ml);else c.insert(c.begin(typeid(Leaf)),ml);
  PCV_CHECK(c.size<Leaf>()==2&&c.size<Mid>()==1&&c.size<Second>()==2&&c.size<Node>()==0,"content","elements sliced or misplaced");
  for(auto& x:c)PCV_CHECK(x.id()>=4&&x.id()<=6,"content","wrong contents");
  std::vector<Mid*> p={&l,&m};
  stats().add("via_bases");
}
static void run_case(Rng& r)
{
  switch(r.below(5)){
  case 0:{Hist<NodeSuite,boost::base_collection<Node>,Node,Mid,Leaf,Second>(r).run();break;}
  case 1:{Hist<NodeSuite,boost::base_collection<Node>,Third,EvilNode,MoNode>(r).run();break;}
  case 2:{Hist<NodeSuite,boost::base_collection<Node>,WideNode,BraceNode,ConstNode,NewNode>(r).run();break;}
  case 3:{Hist<NodeSuite,boost::base_collection<Node>,Node,Third,ConstNode,Leaf,Mid>(r).run();break;}
  case 4:via_bases(r);break;
  }
}
#endif
static void body(u64 seed,long){Rng r(seed);run_case(r);}
}
int main(int argc,char** argv){return pcv::drive(argc,argv,&pcv::body);}
