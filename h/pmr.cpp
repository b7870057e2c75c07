// Elements that use allocators themselves, in collections with polymorphic and
// scoped allocators: elements are constructed through the allocator of the
// collection, hence must end up using its memory resource.
#include "core.hpp"
#ifndef KIND
#error KIND not defined
#endif
#ifndef ALSET
#define ALSET 0   // 0: polymorphic_allocator  1: scoped_allocator_adaptor  2: the latter without propagation
#endif
#include <memory>
#include <memory_resource>
#include <scoped_allocator>
#include <string>
#include <vector>
#include <unordered_map>
#include <boost/poly_collection/exception.hpp>
#if KIND==0
#include <boost/poly_collection/base_collection.hpp>
#elif KIND==1
#include <boost/poly_collection/function_collection.hpp>
#else
#include <boost/poly_collection/any_collection.hpp>
#include <boost/type_erasure/builtin.hpp>
#include <boost/type_erasure/callable.hpp>
#endif

namespace pcv{
namespace bpc=boost::poly_collection;

struct Res:std::pmr::memory_resource
{
  int id;
  std::unordered_map<void*,std::pair<std::size_t,std::size_t>> live;
  explicit Res(int id):id(id){}
  void* do_allocate(std::size_t n,std::size_t al)override
  {
    if(al<alignof(std::max_align_t))al=alignof(std::max_align_t);
    void* p=std::aligned_alloc(al,(n+al)/al*al);
    if(!p)throw std::bad_alloc();
    live[p]={n,al};
    stats().add("resource_allocations");
    return p;
  }
  void do_deallocate(void* p,std::size_t n,std::size_t al)override
  {
    if(al<alignof(std::max_align_t))al=alignof(std::max_align_t);
    auto it=live.find(p);
    PCV_CHECK(it!=live.end(),"allocator","block returned to resource %d does not belong to it",id);
    PCV_CHECK(it->second.first==n&&it->second.second==al,"allocator","block of %zu bytes returned as %zu bytes",it->second.first,n);
    live.erase(it);
    std::free(p);
  }
  bool do_is_equal(const std::pmr::memory_resource& x)const noexcept override{return this==&x;}
};
enum{NRES=4}; // the last one is the default resource
static Res& res(int i){static Res r[NRES]={Res(0),Res(1),Res(2),Res(3)};return r[i];}

#if ALSET==0
template<typename T> using RAl=std::pmr::polymorphic_allocator<T>;
enum{P_COPY=0,P_MOVE=0,P_SWAP=0,S_COPY=1};
#else
enum{P_COPY=ALSET==1,P_MOVE=ALSET==1,P_SWAP=ALSET==1,S_COPY=0};
template<typename T> struct RAl
{
  typedef T value_type;
  typedef std::integral_constant<bool,ALSET==1> propagate_on_container_copy_assignment;
  typedef std::integral_constant<bool,ALSET==1> propagate_on_container_move_assignment;
  typedef std::integral_constant<bool,ALSET==1> propagate_on_container_swap;
  Res* r;
  RAl():r(&res(NRES-1)){}
  RAl(Res* r):r(r){}
  template<typename U> RAl(const RAl<U>& x):r(x.r){}
  T* allocate(std::size_t n){return static_cast<T*>(r->allocate(n*sizeof(T),alignof(T)));}
  void deallocate(T* p,std::size_t n){r->deallocate(p,n*sizeof(T),alignof(T));}
  Res* resource()const{return r;}
  friend bool operator==(const RAl& x,const RAl& y){return x.r==y.r;}
  friend bool operator!=(const RAl& x,const RAl& y){return x.r!=y.r;}
};
#endif
typedef RAl<char> CharAl;
typedef std::basic_string<char,std::char_traits<char>,CharAl> Str;

struct Look{int v=-1;const std::pmr::memory_resource* r=nullptr;const void* self=nullptr;};

#if KIND==0
struct RootE{virtual ~RootE(){} virtual int operator()(Look&)const=0;};
#define PCV_ROOT :RootE
#else
#define PCV_ROOT
#endif
static void fill(Str& s,int v){s.assign(40+v%50,char('a'+v%26));}
static void look(Look& l,int v,const Str& s,const void* self)
{
  l.v=v;l.r=s.get_allocator().resource();l.self=self;
  if(s.size()!=std::size_t(40+v%50)||s[0]!=char('a'+v%26)||s.back()!=s[0])l.v=-2; // e.g. moved from
}
// allocator last, regular
struct E0 PCV_ROOT
{
  enum{ti=0,copyable=1,aware=1};
  typedef CharAl allocator_type;
  int v;Str s;
  explicit E0(int v,const CharAl& a=CharAl()):v(v),s(a){fill(s,v);}
  E0(const E0& x):v(x.v),s(x.s){}
  E0(E0&& x)noexcept:v(x.v),s(std::move(x.s)){}
  E0(const E0& x,const CharAl& a):v(x.v),s(x.s,a){}
  E0(E0&& x,const CharAl& a):v(x.v),s(std::move(x.s),a){}
  E0& operator=(const E0& x){v=x.v;s.assign(x.s.data(),x.s.size());return *this;}
  E0& operator=(E0&& x){v=x.v;if(s.get_allocator()==x.s.get_allocator())s.swap(x.s);else s.assign(x.s.data(),x.s.size());return *this;}
  int operator()(Look& l)const{look(l,v,s,this);return l.v;}
};
// allocator first, not assignable
struct E1 PCV_ROOT
{
  enum{ti=1,copyable=1,aware=1};
  typedef CharAl allocator_type;
  const int v;Str s;
  explicit E1(int v):v(v),s(CharAl()){fill(s,v);}
  E1(std::allocator_arg_t,const CharAl& a,int v):v(v),s(a){fill(s,v);}
  E1(const E1& x):v(x.v),s(x.s){}
  E1(E1&& x)noexcept:v(x.v),s(std::move(x.s)){}
  E1(std::allocator_arg_t,const CharAl& a,const E1& x):v(x.v),s(x.s,a){}
  E1(std::allocator_arg_t,const CharAl& a,E1&& x):v(x.v),s(std::move(x.s),a){}
  int operator()(Look& l)const{look(l,v,s,this);return l.v;}
};
// move only
struct E2 PCV_ROOT
{
  enum{ti=2,copyable=0,aware=1};
  typedef CharAl allocator_type;
  int v;Str s;
  explicit E2(int v,const CharAl& a=CharAl()):v(v),s(a){fill(s,v);}
  E2(E2&& x)noexcept:v(x.v),s(std::move(x.s)){}
  E2(E2&& x,const CharAl& a):v(x.v),s(std::move(x.s),a){}
  E2& operator=(E2&& x){v=x.v;if(s.get_allocator()==x.s.get_allocator())s.swap(x.s);else s.assign(x.s.data(),x.s.size());return *this;}
  int operator()(Look& l)const{look(l,v,s,this);return l.v;}
};
// does not use allocators
struct E3 PCV_ROOT
{
  enum{ti=3,copyable=1,aware=0};
  int v;std::string s;
  explicit E3(int v):v(v),s(40,'x'){}
  int operator()(Look& l)const{l.v=s.size()==40?v:-2;l.self=this;return l.v;}
};
enum{NE=4};

#if KIND==0
typedef RootE V;
#elif KIND==1
typedef bpc::function_collection_value_type<int(Look&)> V;
#else
typedef boost::type_erasure::callable<int(Look&),const boost::type_erasure::_self> Con;
typedef bpc::any_collection_value_type<Con> V;
#endif
#if ALSET==0
typedef RAl<V> Al;
#else
typedef std::scoped_allocator_adaptor<RAl<V>> Al;
#endif
#if KIND==0
typedef boost::base_collection<RootE,Al> C;
#elif KIND==1
typedef boost::function_collection<int(Look&),Al> C;
#else
typedef boost::any_collection<Con,Al> C;
#endif

struct Slot
{
  std::unique_ptr<C> c;
  int r=0;
  std::vector<int> m[NE];
};

struct Run
{
  Rng& g;
  Slot s[3];
  int next=1;
  explicit Run(Rng& g):g(g)
  {
    for(auto& x:s){x.r=int(g.below(NRES-1));x.c.reset(new C(Al(&res(x.r))));}
  }
  int val(){return next++;}
  Slot& pick(){return s[g.below(3)];}

  template<typename T> void check(Slot& x)
  {
    C& c=*x.c;
    const C& cc=c;
    auto& m=x.m[T::ti];
    if(!cc.template is_registered<T>()){PCV_CHECK(m.empty(),"content","segment %d lost",int(T::ti));return;}
    PCV_CHECK(cc.template size<T>()==m.size(),"content","segment %d has %zu elements, expected %zu",int(T::ti),cc.template size<T>(),m.size());
    auto it=cc.template begin<T>();
    auto bit=cc.begin(typeid(T));
    for(std::size_t i=0;i<m.size();++i,++it,++bit){
      Look a,b;
      (*it)(a);(*bit)(b);
      PCV_CHECK(a.self==b.self&&a.v==b.v,"views","typed and polymorphic views differ");
      PCV_CHECK(a.v==m[i],"content","element %zu of segment %d is %d, expected %d",i,int(T::ti),a.v,m[i]);
      if(T::aware){
        PCV_CHECK(a.r==&res(x.r),"allocator","element %zu of segment %d uses memory resource %d, that of the collection is %d",i,int(T::ti),
          static_cast<const Res*>(a.r)->id,x.r);
        stats().add("element_resources_checked");
      }
    }
  }
  void check_all()
  {
    for(auto& x:s){
      PCV_CHECK(x.c->get_allocator()==Al(&res(x.r)),"allocator","get_allocator() is not the allocator expected");
      check<E0>(x);check<E1>(x);check<E2>(x);check<E3>(x);
    }
  }
  template<typename F> void with(F f)
  {
    switch(g.below(NE)){
    case 0:f((E0*)nullptr);break;
    case 1:f((E1*)nullptr);break;
    case 2:f((E2*)nullptr);break;
    default:f((E3*)nullptr);
    }
  }
  template<typename T> void one(Slot& x,T*)
  {
    C& c=*x.c;
    auto& m=x.m[T::ti];
    int v=val();
    std::size_t p=g.below(m.size()+1);
    const unsigned k=unsigned(g.below(9));
    trace("single %u type %d pos %zu of %zu",k,int(T::ti),p,m.size());
    stats().sig.insert(mix(mix(1,k),mix(T::ti*64+KIND*4+ALSET,(p==m.size())+2*(m.size()==(c.template is_registered<T>()?c.template capacity<T>():0)))));
    switch(k){
    case 0:c.template emplace<T>(v);m.push_back(v);break;
    case 1:c.template register_types<T>();c.template emplace_pos<T>(c.begin(typeid(T))+p,v);m.insert(m.begin()+p,v);break;
    case 2:c.template register_types<T>();c.template emplace_pos<T>(c.template begin<T>()+p,v);m.insert(m.begin()+p,v);break;
    case 3:{T t(v);c.insert(std::move(t));m.push_back(v);break;}
    case 4:{T t(v);c.template register_types<T>();c.insert(c.template begin<T>()+p,std::move(t));m.insert(m.begin()+p,v);break;}
    case 5:c.template emplace_hint<T>(c.end(),v);m.push_back(v);break;
    case 6:if(!m.empty()){std::size_t q=g.below(m.size());c.erase(c.template begin<T>()+q);m.erase(m.begin()+q);}break;
    case 7:c.template reserve<T>(g.below(20));break;
    default:if(c.template is_registered<T>())c.template shrink_to_fit<T>();
    }
  }
  template<typename T> typename std::enable_if<bool(T::copyable)>::type copies(Slot& x,T*)
  {
    C& c=*x.c;
    auto& m=x.m[T::ti];
    std::size_t p=g.below(m.size()+1);
    const unsigned k=unsigned(g.below(6));
    trace("copy insertion %u type %d pos %zu of %zu",k,int(T::ti),p,m.size());
    stats().sig.insert(mix(mix(2,k),mix(T::ti*64+KIND*4+ALSET,p==m.size())));
    std::vector<T> ts;
    std::vector<int> vs;
    for(std::size_t n=1+g.below(4);n--;){vs.push_back(val());ts.emplace_back(vs.back());}
    switch(k){
    case 0:c.insert(ts[0]);m.push_back(vs[0]);break;
    case 1:c.template register_types<T>();c.insert(c.template begin<T>()+p,ts[0]);m.insert(m.begin()+p,vs[0]);break;
    case 2:c.insert(ts.begin(),ts.end());m.insert(m.end(),vs.begin(),vs.end());break;
    case 3:c.template register_types<T>();c.insert(c.template begin<T>()+p,ts.begin(),ts.end());m.insert(m.begin()+p,vs.begin(),vs.end());break;
    case 4:{ // through the polymorphic interface, from another collection or this one
      Slot& y=pick();
      auto& n=y.m[T::ti];
      if(n.empty())break;
      std::size_t q=g.below(n.size());
      int v=n[q];
      c.template register_types<T>();
      const V& ref=*(y.c->begin(typeid(T))+q);
      if(g.chance(1,2)){c.insert(ref);m.push_back(v);}
      else{c.insert(c.begin(typeid(T))+p,ref);m.insert(m.begin()+p,v);}
      break;
    }
    default:{ // whole segment of another collection
      Slot& y=pick();
      auto& n=y.m[T::ti];
      if(&y==&x||n.empty())break;
      c.template register_types<T>();
      if(g.chance(1,2)){c.insert(y.c->begin(typeid(T)),y.c->end(typeid(T)));m.insert(m.end(),n.begin(),n.end());}
      else{c.insert(c.begin(typeid(T))+p,y.c->cbegin(typeid(T)),y.c->cend(typeid(T)));m.insert(m.begin()+p,n.begin(),n.end());}
    }
    }
  }
  template<typename T> typename std::enable_if<!bool(T::copyable)>::type copies(Slot&,T*){}
  void take(Slot& x,const Slot& y){for(int i=0;i<NE;++i)x.m[i]=y.m[i];}
  void empty(Slot& x){x.c->clear();for(auto& m:x.m)m.clear();}
  void drop_uncopyable(Slot& x){if(x.c->is_registered<E2>())x.c->clear<E2>();x.m[2].clear();}
  void whole(Slot& x)
  {
    Slot& y=pick();
    const unsigned k=unsigned(g.below(9));
    trace("whole %u: resources %d %d",k,x.r,y.r);
    stats().sig.insert(mix(mix(3,k),mix(KIND*4+ALSET,(x.r==y.r)+2*(&x==&y)+4*y.c->empty())));
    switch(k){
    case 0:drop_uncopyable(y);{std::unique_ptr<C> n(new C(*y.c));int r=S_COPY?NRES-1:y.r;if(&x!=&y)take(x,y);x.c=std::move(n);x.r=r;}break;
    case 1:drop_uncopyable(y);{int r=int(g.below(NRES));std::unique_ptr<C> n(new C(*y.c,Al(&res(r))));if(&x!=&y)take(x,y);x.c=std::move(n);x.r=r;}break;
    case 2:if(&x!=&y){x.c.reset(new C(std::move(*y.c)));take(x,y);x.r=y.r;empty(y);}break;
    case 3:if(&x!=&y){int r=int(g.below(NRES));x.c.reset(new C(std::move(*y.c),Al(&res(r))));take(x,y);x.r=r;empty(y);}break;
    case 4:drop_uncopyable(y);*x.c=*y.c;if(&x!=&y){take(x,y);if(P_COPY)x.r=y.r;}break;
    case 5:case 6:if(&x!=&y){*x.c=std::move(*y.c);take(x,y);if(P_MOVE)x.r=y.r;empty(y);}break;
    case 7:if(P_SWAP||x.r==y.r){x.c->swap(*y.c);if(&x!=&y){for(int i=0;i<NE;++i)x.m[i].swap(y.m[i]);if(P_SWAP)std::swap(x.r,y.r);}}break;
    default:x.c->shrink_to_fit();
    }
  }
  void step()
  {
    Slot& x=pick();
    std::size_t n=0;for(auto& m:x.m)n+=m.size();
    if(n>40){trace("clear");empty(x);}
    else switch(g.below(8)){
    case 0:case 1:case 2:case 3:with([&](auto* p){one(x,p);});break;
    case 4:case 5:with([&](auto* p){copies(x,p);});break;
    default:whole(x);
    }
    check_all();
  }
};

static void body(u64 seed,long)
{
  Rng g(seed);
  std::pmr::set_default_resource(&res(NRES-1));
  {
    Run r(g);
    r.check_all();
    for(std::size_t n=5+g.below(40);n--;)r.step();
  }
  for(int i=0;i<NRES;++i)PCV_CHECK(res(i).live.empty(),"allocator","%zu blocks of resource %d not returned",res(i).live.size(),i);
}
}
int main(int argc,char** argv){return pcv::drive(argc,argv,&pcv::body);}
