// Element types. K: 0 base_collection, 1 function_collection, 2 any_collection.
// All elements are callable with a Query&, through which their identity can be
// observed from the polymorphic side.
#ifndef PCV_ZOO_HPP
#define PCV_ZOO_HPP
#include "core.hpp"
#include <utility>
#include <type_traits>

namespace pcv{

struct Query
{
  const Tracker* tr=nullptr;
  const void*    self=nullptr; // address of most derived object
  int            arg=0;
};

// the answer to a Query: value or moved_mark
inline u64 answer(const Tracker& t){return t.st==ALIVE?t.val:moved_mark;}

// constructor argument; shows whether it was passed on as an rvalue
struct Val
{
  u64  v;
  bool moved=false;
  explicit Val(u64 x):v(x){}
  Val(const Val& x):v(x.v){}
  Val(Val&& x)noexcept:v(x.v){x.moved=true;x.v=~x.v;}
  Val& operator=(const Val&)=delete;
};

template<int K> struct Root{};
template<> struct Root<0>
{
  virtual ~Root(){}
  virtual u64 operator()(Query&)const=0;
  Root()=default;
  Root(const Root&)=default;
  Root& operator=(const Root&)=default;
};
template<int K> struct Front{};  // displaces Root<0> inside big elements
template<> struct Front<0>{virtual ~Front(){} char pad[40]={};Front()=default;};

enum{TI_A,TI_D,TI_Q,TI_M,TI_N,TI_L,TI_S,TI_X,NT};

#define PCV_CALL u64 operator()(Query& q)const{q.tr=&t;q.self=this;return answer(t);}

// A: copyable, nothrow movable, assignable, comparable
template<int K> struct A:Root<K>
{
  enum{ti=TI_A};
  Tracker t;
  explicit A(Val v):t((tick(F_CTOR),v.v),TI_A){}
  A(Val v,int& n,const char*):t((tick(F_CTOR),v.v),TI_A){++n;}
  explicit A(const u64& v):t((tick(F_CTOR),v),TI_A){}
  A(const A& x):Root<K>(),t((tick(F_COPY),x.t),TI_A){}
  A(A&& x)noexcept:t(std::move(x.t),TI_A){}
  A& operator=(const A& x){tick(F_ASSIGN);t=x.t;return *this;}
  A& operator=(A&& x)noexcept{t=std::move(x.t);return *this;}
  bool operator==(const A& x)const{tick(F_EQ);++counters().eq;return answer(t)==answer(x.t);}
  PCV_CALL
protected:
  A(u64 v,int ti_):t(v,ti_){}
  A(const A& x,int ti_):Root<K>(),t(x.t,ti_){}
  A(A&& x,int ti_)noexcept:t(std::move(x.t),ti_){}
};
// D: derived from A
template<int K> struct D:A<K>
{
  enum{ti=TI_D};
  u64 extra;
  explicit D(Val v):A<K>((tick(F_CTOR),v.v),TI_D),extra(~v.v){}
  D(Val v,int& n,const char*):A<K>((tick(F_CTOR),v.v),TI_D),extra(~v.v){++n;}
  explicit D(const u64& v):A<K>((tick(F_CTOR),v),TI_D),extra(~v){}
  D(const D& x):A<K>((tick(F_COPY),static_cast<const A<K>&>(x)),TI_D),extra(x.extra){}
  D(D&& x)noexcept:A<K>(std::move(static_cast<A<K>&>(x)),TI_D),extra(x.extra){}
  D& operator=(const D& x){A<K>::operator=(x);extra=x.extra;return *this;}
  D& operator=(D&& x)noexcept{A<K>::operator=(std::move(x));extra=x.extra;return *this;}
  bool operator==(const D& x)const{return A<K>::operator==(x)&&extra==x.extra;}
  u64 operator()(Query& q)const
  {
    q.tr=&this->t;q.self=this;
    if(this->t.st==ALIVE&&extra!=~this->t.val)violation("element-integrity","derived part of element lost");
    return answer(this->t);
  }
};
// Q: copyable, potentially throwing move
template<int K> struct Q:Root<K>
{
  enum{ti=TI_Q};
  char c;
  Tracker t;
  explicit Q(Val v):c(0),t((tick(F_CTOR),v.v),TI_Q){}
  Q(Val v,int& n,const char*):c(0),t((tick(F_CTOR),v.v),TI_Q){++n;}
  explicit Q(const u64& v):c(0),t((tick(F_CTOR),v),TI_Q){}
  Q(const Q& x):Root<K>(),c(0),t((tick(F_COPY),x.t),TI_Q){}
  Q(Q&& x):c(0),t((tick(F_MOVE),std::move(x.t)),TI_Q){}
  Q& operator=(const Q& x){tick(F_ASSIGN);t=x.t;return *this;}
  Q& operator=(Q&& x){tick(F_ASSIGN);t=std::move(x.t);return *this;}
  friend bool operator==(const Q& x,const Q& y){tick(F_EQ);++counters().eq;return answer(x.t)==answer(y.t);}
  PCV_CALL
};
// M: move only, nothrow, not comparable
template<int K> struct M:Root<K>
{
  enum{ti=TI_M};
  Tracker t;
  explicit M(Val v):t((tick(F_CTOR),v.v),TI_M){}
  M(Val v,int& n,const char*):t((tick(F_CTOR),v.v),TI_M){++n;}
  explicit M(const u64& v):t((tick(F_CTOR),v),TI_M){}
  M(const M&)=delete;
  M(M&& x)noexcept:t(std::move(x.t),TI_M){}
  M& operator=(const M&)=delete;
  M& operator=(M&& x)noexcept{t=std::move(x.t);return *this;}
  PCV_CALL
};
// N: copyable, not assignable, nothrow move construction
template<int K> struct N:Root<K>
{
  enum{ti=TI_N};
  Tracker t;
  const u64 twin;
  explicit N(Val v):t((tick(F_CTOR),v.v),TI_N),twin(v.v){}
  N(Val v,int& n,const char*):t((tick(F_CTOR),v.v),TI_N),twin(v.v){++n;}
  explicit N(const u64& v):t((tick(F_CTOR),v),TI_N),twin(v){}
  N(const N& x):Root<K>(),t((tick(F_COPY),x.t),TI_N),twin(x.twin){}
  N(N&& x)noexcept:t(std::move(x.t),TI_N),twin(x.twin){}
  N& operator=(const N&)=delete;
  N& operator=(N&&)=delete;
  bool operator==(const N& x)const{tick(F_EQ);++counters().eq;return answer(t)==answer(x.t);}
  u64 operator()(Query& q)const
  {
    q.tr=&t;q.self=this;
    if(t.st==ALIVE&&twin!=t.val)violation("element-integrity","element state torn");
    return answer(t);
  }
};
// L: large, over-aligned, base class not at offset 0
template<int K> struct alignas(64) L:Front<K>,Root<K>
{
  enum{ti=TI_L};
  unsigned char fill[70];
  Tracker t;
  void paint(u64 v){for(auto& b:fill)b=(unsigned char)(v*31+7);}
  explicit L(Val v):t((tick(F_CTOR),v.v),TI_L){paint(v.v);}
  L(Val v,int& n,const char*):t((tick(F_CTOR),v.v),TI_L){paint(v.v);++n;}
  explicit L(const u64& v):t((tick(F_CTOR),v),TI_L){paint(v);}
  L(const L& x):Front<K>(),Root<K>(),t((tick(F_COPY),x.t),TI_L){paint(x.t.val);}
  L(L&& x)noexcept:t(std::move(x.t),TI_L){paint(x.t.val);}
  L& operator=(const L& x){tick(F_ASSIGN);t=x.t;paint(x.t.val);return *this;}
  L& operator=(L&& x)noexcept{t=std::move(x.t);paint(t.val);return *this;}
  friend bool operator==(const L& x,const L& y){tick(F_EQ);++counters().eq;return answer(x.t)==answer(y.t);}
  u64 operator()(Query& q)const
  {
    q.tr=&t;q.self=this;
    if(reinterpret_cast<std::uintptr_t>(this)%64)violation("alignment","over-aligned element at %p",(const void*)this);
    for(auto b:fill)if(b!=(unsigned char)(t.val*31+7))violation("element-integrity","element contents overwritten");
    return answer(t);
  }
};
// S: final, copyable, no move operations of its own, not comparable
template<int K> struct S final:Root<K>
{
  enum{ti=TI_S};
  Tracker t;
  explicit S(Val v):t((tick(F_CTOR),v.v),TI_S){}
  S(Val v,int& n,const char*):t((tick(F_CTOR),v.v),TI_S){++n;}
  explicit S(const u64& v):t((tick(F_CTOR),v),TI_S){}
  S(const S& x):Root<K>(),t((tick(F_COPY),x.t),TI_S){}
  S& operator=(const S& x){tick(F_ASSIGN);t=x.t;return *this;}
  PCV_CALL
};
// X: move only, potentially throwing
template<int K> struct X:Root<K>
{
  enum{ti=TI_X};
  Tracker t;
  explicit X(Val v):t((tick(F_CTOR),v.v),TI_X){}
  X(Val v,int& n,const char*):t((tick(F_CTOR),v.v),TI_X){++n;}
  explicit X(const u64& v):t((tick(F_CTOR),v),TI_X){}
  X(const X&)=delete;
  X(X&& x):t((tick(F_MOVE),std::move(x.t)),TI_X){}
  X& operator=(const X&)=delete;
  X& operator=(X&& x){tick(F_ASSIGN);t=std::move(x.t);return *this;}
  bool operator==(const X& x)const{tick(F_EQ);++counters().eq;return answer(t)==answer(x.t);}
  PCV_CALL
};

template<typename...> struct tl{};
template<int K> using Types=tl<A<K>,D<K>,Q<K>,M<K>,N<K>,L<K>,S<K>,X<K>>;

struct Traits{const char* name;bool copyable,nothrow_move,assignable,comparable;bool moves;};
static const Traits zoo[NT]={
  {"A",true ,true ,true ,true ,true},
  {"D",true ,true ,true ,true ,true},
  {"Q",true ,false,true ,true ,true},
  {"M",false,true ,true ,false,true},
  {"N",true ,true ,false,true ,true},
  {"L",true ,true ,true ,true ,true},
  {"S",true ,false,true ,false,false},
  {"X",false,false,true ,true ,true},
};
}
#endif
