#include "engine.hpp"
namespace pcv{

template<typename... Ts>
static const std::type_info& ti_impl(tl<Ts...>,int ti)
{
  static const std::type_info* t[]={&typeid(Ts)...};
  return *t[ti];
}
const std::type_info& true_info(int ti){return ti_impl(Types<K>(),ti);}
const std::type_info& info_of(Eng& e,int ti)
{
  std::size_t k=e.r.below(4);
  if(k<2)return true_info(ti);
  return alias_of(true_info(ti),unsigned(k));
}
int ti_from(const std::type_info& i)
{
  for(int t=0;t<NT;++t)if(true_info(t)==i)return t;
  return -1;
}
std::size_t capacity_of(Slot& x,int ti)
{
  return x.c->is_registered(true_info(ti))?x.c->capacity(true_info(ti)):0;
}
std::string show(const Mdl& m)
{
  std::string r;
  for(int t=0;t<NT;++t)if(m.reg[t]){
    r+=zoo[t].name;r+="[";
    for(auto v:m.seg[t]){r+=v==moved_mark?std::string("moved"):std::to_string(v);r+=" ";}
    if(r.back()==' ')r.pop_back();
    r+="] ";
  }
  return r;
}

CIt nth(const C& c,std::size_t n){auto it=c.begin();while(n--)++it;return it;}
It  nth(C& c,std::size_t n){auto it=c.begin();while(n--)++it;return it;}

static void seen_ok(const Seen& sn,int ti,const char* what)
{
  PCV_CHECK(sn.tr&&is_live(sn.tr,ti),"lifetime","%s: element is not a live object of type %s",what,zoo[ti].name);
}

void expect_at(Eng&,Slot& x,CIt it,int ti,std::size_t pos,const char* what)
{
  auto& m=x.m;
  const C& c=*x.c;
  const std::size_t n=m.size();
  if(ti<0){PCV_CHECK(it==c.end(),"returned-iterator","%s: expected end() to be returned",what);return;}
  PCV_CHECK(it!=c.end(),"returned-iterator","%s: end() returned, expected position %zu of segment %s",what,pos,zoo[ti].name);
  auto sn=probe(*it);
  seen_ok(sn,ti,what);
  PCV_CHECK(sn.val==m.seg[ti][pos],"returned-iterator","%s: iterator to value %llu, expected %llu (position %zu of segment %s)",
    what,(unsigned long long)sn.val,(unsigned long long)m.seg[ti][pos],pos,zoo[ti].name);
  // the returned iterator traverses the remaining elements and can be compared
  std::size_t g=0;
  for(auto j=c.begin();j!=it;++j){
    PCV_CHECK(g<n,"returned-iterator","%s: returned iterator not reachable from begin()",what);
    ++g;
  }
  std::size_t k=0;
  for(auto j=it;j!=c.end();++j){
    PCV_CHECK(k<=n,"returned-iterator","%s: end() not reachable from returned iterator",what);
    ++k;
  }
  PCV_CHECK(g+k==n,"returned-iterator","%s: returned iterator splits traversal in %zu+%zu elements of %zu",what,g,k,n);
}

void expect_at(Eng&,Slot& x,CLB it,int ti,std::size_t pos,const char* what)
{
  const C& c=*x.c;
  auto& sg=x.m.seg[ti];
  PCV_CHECK(std::size_t(it-c.begin(true_info(ti)))==pos,"returned-iterator","%s: local iterator at %td, expected %zu",what,
    it-c.begin(true_info(ti)),pos);
  PCV_CHECK(std::size_t(c.end(true_info(ti))-it)==sg.size()-pos,"returned-iterator","%s: local iterator at wrong distance to end",what);
  if(pos<sg.size()){
    auto sn=probe(*it);
    seen_ok(sn,ti,what);
    PCV_CHECK(sn.val==sg[pos],"returned-iterator","%s: local iterator to value %llu, expected %llu",what,
      (unsigned long long)sn.val,(unsigned long long)sg[pos]);
  }
}

/* typed views of the segment for T */

template<typename T> struct typed
{
  // appends typed view of the segment
  static void read(const C& c,std::vector<std::pair<u64,const T*>>& out,std::size_t limit)
  {
    for(auto it=c.template begin<T>(),last=c.template end<T>();it!=last;++it){
      PCV_CHECK(out.size()<limit,"views","typed traversal of segment %s does not end",zoo[T::ti].name);
      const T& x=*it;
      Query q;
      out.push_back({x.T::operator()(q),std::addressof(x)});
    }
  }
  static void run(Eng&){}

  template<typename LIt,typename BIt>
  static void laws(Eng& e,LIt b,LIt l,BIt bb,BIt bl,const char* what)
  {
    const std::ptrdiff_t n=l-b;
    PCV_CHECK(n==bl-bb,"iterator-laws","%s: typed and base ranges differ in length",what);
    PCV_CHECK(n>=0&&!(l<b)&&b<=l&&l>=b,"iterator-laws","%s: range order",what);
    // round trips between base and typed iterators, at all positions
    for(std::ptrdiff_t i=0;i<=n;++i){
      LIt li=b+i;
      BIt bi=bb+i;
      PCV_CHECK(LIt(bi)==li,"iterator-laws","%s: base to typed conversion at %td of %td",what,i,n);
      PCV_CHECK(BIt(li)==bi,"iterator-laws","%s: typed to base conversion at %td of %td",what,i,n);
      PCV_CHECK(LIt(BIt(li))==li&&BIt(LIt(bi))==bi,"iterator-laws","%s: conversion round trip at %td of %td",what,i,n);
    }
    if(!n)return;
    for(int k=0;k<4;++k){
      std::ptrdiff_t i=(std::ptrdiff_t)e.r.below(n+1),j=(std::ptrdiff_t)e.r.below(n+1);
      LIt x=b+i,y=b+j;
      BIt u=bb+i,w=bb+j;
      PCV_CHECK(y-x==j-i&&w-u==j-i,"iterator-laws","%s: difference",what);
      PCV_CHECK((x<y)==(i<j)&&(u<w)==(i<j)&&(x<=y)==(i<=j)&&(u<=w)==(i<=j)&&(x>y)==(i>j)&&(u>w)==(i>j)&&
        (x>=y)==(i>=j)&&(u>=w)==(i>=j)&&(x==y)==(i==j)&&(u==w)==(i==j)&&(x!=y)==(i!=j)&&(u!=w)==(i!=j),
        "iterator-laws","%s: comparison of positions %td, %td",what,i,j);
      LIt x2=x;x2+=j-i;
      BIt u2=u;u2+=j-i;
      PCV_CHECK(x2==y&&u2==w,"iterator-laws","%s: += from %td to %td",what,i,j);
      x2-=j-i;u2-=j-i;
      PCV_CHECK(x2==x&&u2==u,"iterator-laws","%s: -= ",what);
      PCV_CHECK((y-(j-i))==x&&(w-(j-i))==u&&((j-i)+x)==y&&((j-i)+u)==w,"iterator-laws","%s: arithmetic",what);
      if(i<n){
        PCV_CHECK(std::addressof(b[i])==std::addressof(*x),"iterator-laws","%s: operator[] of typed iterator",what);
        PCV_CHECK(probe(bb[i]).self==probe(*u).self,"iterator-laws","%s: operator[] of base iterator",what);
        PCV_CHECK(probe(*u).self==(const void*)std::addressof(*x),"iterator-laws","%s: base and typed iterators refer to different objects",what);
        LIt x3=x;BIt u3=u;
        PCV_CHECK(x3++==x&&u3++==u&&x3==x+1&&u3==u+1,"iterator-laws","%s: post-increment",what);
        PCV_CHECK(x3--==x+1&&u3--==u+1&&x3==x&&u3==u,"iterator-laws","%s: post-decrement",what);
        PCV_CHECK(++x3==x+1&&++u3==u+1&&--x3==x&&--u3==u,"iterator-laws","%s: pre-increment/decrement",what);
        PCV_CHECK(x.operator->()==std::addressof(*x),"iterator-laws","%s: operator->",what);
      }
    }
  }

  // the polymorphic value denotes the stored element
  using Other=typename std::conditional<T::ti==TI_A,D<K>,A<K>>::type;
  static void identity_const(const V& v,const Seen& sn,const char* nm)
  {
    const void* self=sn.self;
#if KIND==0
    PCV_CHECK(typeid(v)==typeid(T),"identity","%s: dynamic type of the value differs from its segment",nm);
    PCV_CHECK((const void*)static_cast<const T*>(std::addressof(v))==self&&dynamic_cast<const void*>(std::addressof(v))==self,
      "identity","%s: reference is not the base subobject of the element",nm);
#elif KIND==1
    PCV_CHECK(v.target_type()==typeid(T),"identity","%s: target_type() wrong",nm);
    PCV_CHECK(bool(v),"identity","%s: value is empty",nm);
    PCV_CHECK((const void*)v.template target<T>()==self&&v.data()==self,"identity","%s: target()/data() is not the element",nm);
    PCV_CHECK(v.template target<Other>()==nullptr&&v.template target<int>()==nullptr,"identity","%s: target() of another type not null",nm);
    std::function<Sig> f=v;
    Query q;
    PCV_CHECK(bool(f)&&f(q)==sn.val&&q.self==self,"identity","%s: std::function obtained does not call the element",nm);
    PCV_CHECK(f.template target<std::reference_wrapper<T>>()&&&f.template target<std::reference_wrapper<T>>()->get()==self,
      "identity","%s: std::function obtained does not refer to the element",nm);
#else
    namespace te=boost::type_erasure;
    PCV_CHECK(te::typeid_of(v)==typeid(T),"identity","%s: typeid_of wrong",nm);
    PCV_CHECK((const void*)std::addressof(te::any_cast<const T&>(v))==self,"identity","%s: any_cast<const T&> is not the element",nm);
    PCV_CHECK((const void*)te::any_cast<const T*>(std::addressof(v))==self,"identity","%s: any_cast<const T*> is not the element",nm);
    PCV_CHECK(te::any_cast<const void*>(std::addressof(v))==self,"identity","%s: any_cast<const void*> is not the element",nm);
    bool threw=false;
    try{(void)te::any_cast<const Other&>(v);}catch(const te::bad_any_cast&){threw=true;}
    PCV_CHECK(threw,"identity","%s: any_cast to another type succeeded",nm);
#endif
    stats().add("identities");
  }
  static void identity(V& v,const Seen& sn,const char* nm)
  {
    const void* self=sn.self;
#if KIND==0
    PCV_CHECK((const void*)static_cast<T*>(std::addressof(v))==self,"identity","%s: reference is not the base subobject of the element",nm);
#elif KIND==1
    PCV_CHECK((const void*)v.template target<T>()==self&&v.data()==self,"identity","%s: target()/data() is not the element",nm);
    PCV_CHECK(v.template target<Other>()==nullptr,"identity","%s: target() of another type not null",nm);
#else
    namespace te=boost::type_erasure;
    PCV_CHECK((const void*)std::addressof(te::any_cast<T&>(v))==self,"identity","%s: any_cast<T&> is not the element",nm);
    PCV_CHECK((const void*)te::any_cast<T*>(std::addressof(v))==self,"identity","%s: any_cast<T*> is not the element",nm);
    PCV_CHECK(te::any_cast<void*>(std::addressof(v))==self,"identity","%s: any_cast<void*> is not the element",nm);
#endif
  }

  static void check(Eng& e,Slot& x,const std::vector<Seen>& bs)
  {
    C& c=*x.c;
    const C& cc=c;
    const char* nm=zoo[T::ti].name;
    const std::size_t n=bs.size();
    PCV_CHECK(cc.template is_registered<T>(),"registration","is_registered<%s> is false for a registered type",nm);
    PCV_CHECK(cc.template size<T>()==n,"views","size<%s>()==%zu, traversal finds %zu",nm,cc.template size<T>(),n);
    PCV_CHECK(cc.template empty<T>()==(n==0),"views","empty<%s>() wrong",nm);
    PCV_CHECK(cc.template capacity<T>()>=n,"views","capacity<%s>()<size",nm);
    PCV_CHECK(cc.template max_size<T>()>=n,"views","max_size<%s>()<size",nm);
    PCV_CHECK(cc.template capacity<T>()==cc.capacity(info_of<T>(e)),"views","capacity<%s>() differs from capacity(info)",nm);
    PCV_CHECK(cc.template max_size<T>()==cc.max_size(info_of<T>(e)),"views","max_size<%s>() differs from max_size(info)",nm);
    std::vector<std::pair<u64,const T*>> tv;
    read(cc,tv,n+1);
    PCV_CHECK(tv.size()==n,"views","typed traversal of %s finds %zu elements of %zu",nm,tv.size(),n);
    for(std::size_t i=0;i<n;++i){
      PCV_CHECK(tv[i].second==bs[i].self,"views","typed and base traversals of %s refer to different objects at %zu",nm,i);
      PCV_CHECK(tv[i].first==bs[i].val,"views","typed and base traversals of %s see different values at %zu",nm,i);
      PCV_CHECK(reinterpret_cast<std::uintptr_t>(tv[i].second)%alignof(T)==0,"alignment","misaligned element of %s",nm);
      if(i)PCV_CHECK(reinterpret_cast<const char*>(tv[i].second)>=reinterpret_cast<const char*>(tv[i-1].second)+sizeof(T),
        "views","elements %zu and %zu of %s overlap",i-1,i,nm);
    }
    auto b=c.template begin<T>();auto l=c.template end<T>();
    auto cb=cc.template begin<T>();auto cl=cc.template end<T>();
    PCV_CHECK(b==cb&&l==cl&&cc.template cbegin<T>()==cb&&cc.template cend<T>()==cl,"views","const/non-const typed ranges of %s differ",nm);
    auto si=c.template segment<T>();
    const auto& csi=si;
    auto csi2=cc.template segment<T>();
    PCV_CHECK(si.begin()==b&&si.end()==l&&si.cbegin()==cb&&si.cend()==cl&&csi.begin()==cb&&csi.end()==cl&&
      csi2.begin()==cb&&csi2.end()==cl&&csi2.cbegin()==cb&&csi2.cend()==cl,"views","segment<%s>() disagrees with begin/end",nm);
    auto bsi=c.segment(info_of<T>(e));
    const auto& cbsi=bsi;
    auto cbsi2=cc.segment(info_of<T>(e));
    PCV_CHECK(bsi.template begin<T>()==b&&bsi.template end<T>()==l&&cbsi.template begin<T>()==cb&&cbsi.template end<T>()==cl&&
      bsi.template cbegin<T>()==cb&&bsi.template cend<T>()==cl&&cbsi2.template begin<T>()==cb&&cbsi2.template end<T>()==cl,
      "views","segment(info) typed ranges disagree for %s",nm);
    if(e.ident)for(std::size_t i=0;i<n;++i){
      identity(*(c.begin(typeid(T))+i),bs[i],nm);
      identity_const(*(cc.begin(typeid(T))+i),bs[i],nm);
    }
    if(e.laws){
      laws(e,b,l,c.begin(typeid(T)),c.end(typeid(T)),nm);
      laws(e,cb,cl,cc.begin(typeid(T)),cc.end(typeid(T)),nm);
      typename C::template const_local_iterator<T> conv=b;
      PCV_CHECK(conv==cb,"iterator-laws","%s: const conversion",nm);
      CLB bconv=c.begin(typeid(T));
      PCV_CHECK(bconv==cc.begin(typeid(T)),"iterator-laws","%s: const base conversion",nm);
    }
  }

  template<typename F>
  static void unreg(const char* what,F f){expect_throw<bpc::unregistered_type>(what,typeid(T),f);}

  static void check_unregistered(Eng& e,Slot& x)
  {
    C& c=*x.c;
    const C& cc=c;
    PCV_CHECK(!cc.template is_registered<T>()&&!cc.is_registered(info_of<T>(e)),"registration","%s reported as registered",zoo[T::ti].name);
    const std::type_info& i=info_of<T>(e);
    switch(e.r.below(18)){
    case 0:unreg("begin<T>",[&]{c.template begin<T>();});break;
    case 1:unreg("end<T>",[&]{c.template end<T>();});break;
    case 2:unreg("cbegin<T>",[&]{cc.template cbegin<T>();unreg("end<T> const",[&]{cc.template end<T>();});});break;
    case 3:unreg("begin(info)",[&]{c.begin(i);});unreg("begin(info) const",[&]{cc.begin(i);});break;
    case 4:unreg("end(info)",[&]{c.end(i);});unreg("cend(info)",[&]{cc.cend(i);});break;
    case 5:unreg("segment<T>",[&]{c.template segment<T>();});unreg("segment<T> const",[&]{cc.template segment<T>();});break;
    case 6:unreg("segment(info)",[&]{c.segment(i);});unreg("segment(info) const",[&]{cc.segment(i);});break;
    case 7:unreg("size<T>",[&]{(void)cc.template size<T>();});break;
    case 8:unreg("size(info)",[&]{(void)cc.size(i);});break;
    case 9:unreg("empty<T>",[&]{(void)cc.template empty<T>();});break;
    case 10:unreg("empty(info)",[&]{(void)cc.empty(i);});break;
    case 11:unreg("capacity<T>",[&]{(void)cc.template capacity<T>();});unreg("capacity(info)",[&]{(void)cc.capacity(i);});break;
    case 12:unreg("max_size<T>",[&]{(void)cc.template max_size<T>();});unreg("max_size(info)",[&]{(void)cc.max_size(i);});break;
    case 13:unreg("reserve(info)",[&]{c.reserve(i,3);});break;
    case 14:unreg("shrink_to_fit<T>",[&]{c.template shrink_to_fit<T>();});break;
    case 15:unreg("shrink_to_fit(info)",[&]{c.shrink_to_fit(i);});break;
    case 16:unreg("clear<T>",[&]{c.template clear<T>();});break;
    case 17:unreg("clear(info)",[&]{c.clear(i);});break;
    }
    PCV_CHECK(!cc.template is_registered<T>(),"registration","failed access registered %s",zoo[T::ti].name);
    stats().add("unregistered_probes");
  }
};

template<typename T>
void expect_at_typed(Eng& e,Slot& x,typename C::template const_local_iterator<T> it,std::size_t pos,const char* what)
{
  const C& c=*x.c;
  auto& sg=x.m.seg[T::ti];
  PCV_CHECK(std::size_t(it-c.template begin<T>())==pos,"returned-iterator","%s: typed iterator at %td, expected %zu",what,
    it-c.template begin<T>(),pos);
  PCV_CHECK(std::size_t(c.template end<T>()-it)==sg.size()-pos,"returned-iterator","%s: typed iterator at wrong distance to end",what);
  expect_at(e,x,CLB(it),T::ti,pos,what);
}
template<typename... Ts>
struct inst
{
  using fn=void(*)();
  static void* force(tl<Ts...>)
  {
    static void* v[]={(void*)(void(*)(Eng&,Slot&,typename C::template const_local_iterator<Ts>,std::size_t,const char*))&expect_at_typed<Ts>...};
    return v;
  }
};
template<typename... Ts> static void* force(tl<Ts...>){return inst<Ts...>::force(tl<Ts...>());}
void* force_instantiation(){return force(Types<K>());}

using typed_check=void(*)(Eng&,Slot&,const std::vector<Seen>&);
using typed_unreg=void(*)(Eng&,Slot&);
template<typename... Ts> static typed_check tc(tl<Ts...>,int ti){static const typed_check t[]={&typed<Ts>::check...};return t[ti];}
template<typename... Ts> static typed_unreg tu(tl<Ts...>,int ti){static const typed_unreg t[]={&typed<Ts>::check_unregistered...};return t[ti];}

Mdl observe(Eng& e,Slot& x)
{
  C& c=*x.c;
  const C& cc=c;
  Mdl m;
  const std::size_t n=cc.size();
  PCV_CHECK(n<1000000,"views","size()==%zu",n);

  // segment traversal
  std::vector<Seen> all;
  std::size_t nseg=0;
  auto st=c.segment_traversal();
  auto cst=cc.segment_traversal();
  auto si=st.begin();
  auto csi=cst.begin();
  for(;csi!=cst.end();++csi,++si){
    PCV_CHECK(nseg<NT,"views","too many segments in segment traversal");
    PCV_CHECK(si!=st.end(),"views","const and non-const segment traversals differ in length");
    auto sg=*csi;
    int ti=ti_from(sg.type_info());
    PCV_CHECK(ti>=0,"views","segment traversal shows unknown type %s",sg.type_info().name());
    PCV_CHECK(!m.reg[ti],"views","segment %s appears twice in segment traversal",zoo[ti].name);
    PCV_CHECK((*si).type_info()==sg.type_info(),"views","const and non-const segment traversals differ");
    m.reg[ti]=true;
    m.order.push_back(ti);
    ++nseg;
    const std::type_info& info=info_of(e,ti);
    PCV_CHECK(cc.is_registered(info),"registration","segment %s exists but is_registered(info) is false",zoo[ti].name);
    const std::size_t sz=cc.size(info);
    PCV_CHECK(sz<=n,"views","size(%s)==%zu greater than size()==%zu",zoo[ti].name,sz,n);
    PCV_CHECK(cc.empty(info)==(sz==0),"views","empty(%s) wrong",zoo[ti].name);
    // const base view
    std::vector<Seen> bs;
    for(auto it=cc.begin(info),last=cc.end(info);it!=last;++it){
      PCV_CHECK(bs.size()<sz,"views","local traversal of %s exceeds size(info)==%zu",zoo[ti].name,sz);
      bs.push_back(probe(*it));
      seen_ok(bs.back(),ti,"local traversal");
    }
    PCV_CHECK(bs.size()==sz,"views","local traversal of %s finds %zu elements, size(info)==%zu",zoo[ti].name,bs.size(),sz);
    std::size_t k=0;
    for(auto it=c.begin(info),last=c.end(info);it!=last;++it,++k){
      PCV_CHECK(k<sz&&probe(*it).self==bs[k].self,"views","non-const local traversal of %s differs",zoo[ti].name);
    }
    PCV_CHECK(k==sz,"views","non-const local traversal of %s too short",zoo[ti].name);
    PCV_CHECK(sg.begin()==cc.begin(info)&&sg.end()==cc.end(info)&&sg.cbegin()==cc.cbegin(info)&&sg.cend()==cc.cend(info),
      "views","segment traversal range of %s differs from begin(info),end(info)",zoo[ti].name);
    {
      auto bsg=*si;
      PCV_CHECK(bsg.begin()==c.begin(info)&&bsg.end()==c.end(info),"views","segment traversal range of %s differs from begin(info),end(info)",zoo[ti].name);
      auto s2=c.segment(info);
      auto s3=cc.segment(info);
      PCV_CHECK(s2.begin()==c.begin(info)&&s2.end()==c.end(info)&&s3.begin()==cc.begin(info)&&s3.end()==cc.end(info)&&
        s2.type_info()==true_info(ti)&&s3.type_info()==true_info(ti),"views","segment(%s) wrong",zoo[ti].name);
    }
    tc(Types<K>(),ti)(e,x,bs);
    for(auto& y:bs){all.push_back(y);m.seg[ti].push_back(y.val);}
  }
  PCV_CHECK(!(si!=st.end()),"views","const and non-const segment traversals differ in length");
  for(int t=0;t<NT;++t)if(!m.reg[t])tu(Types<K>(),t)(e,x);
  PCV_CHECK(all.size()==n,"views","size()==%zu but segments hold %zu elements",n,all.size());
  PCV_CHECK(cc.empty()==(n==0),"views","empty() wrong");
  if(e.laws){
    // segment info iterators
    using SI=typename C::base_segment_info_iterator;
    using CSI=typename C::const_base_segment_info_iterator;
    SI dsi;CSI dcsi;(void)dsi;(void)dcsi;
    const auto& kst=st;
    CSI b=kst.begin(),l=kst.end();
    PCV_CHECK(b==st.cbegin()&&l==st.cend()&&b==cst.begin()&&l==cst.end()&&b==CSI(st.begin())&&l==CSI(st.end()),
      "views","const and non-const segment traversals differ");
    std::size_t i=0;
    for(SI it=st.begin();it!=st.end();++i){
      PCV_CHECK(i<m.order.size(),"views","segment traversal does not end");
      const std::type_info& ti=true_info(m.order[i]);
      PCV_CHECK(it->type_info()==ti&&(*it).type_info()==ti,"iterator-laws","operator-> of segment info iterator");
      SI o=it;
      CSI co=it,ca;
      ca=it;
      PCV_CHECK(co==ca&&co->type_info()==ti&&co->begin()==cc.begin(ti)&&co->end()==cc.end(ti)&&it->begin()==c.begin(ti),
        "iterator-laws","conversion of segment info iterators");
      // infos can be copied and assigned, and keep referring to their segment
      auto inf=*st.begin();
      inf=*it;
      auto cinf=*cst.begin();
      cinf=*co;
      PCV_CHECK(inf.begin()==c.begin(ti)&&inf.end()==c.end(ti)&&cinf.begin()==cc.begin(ti)&&cinf.end()==cc.end(ti)&&
        inf.cbegin()==cc.begin(ti)&&inf.cend()==cc.end(ti)&&inf.type_info()==ti&&cinf.type_info()==ti,
        "views","assigned segment info refers elsewhere");
      if(i%2){it++;PCV_CHECK(it!=o,"iterator-laws","post-increment of segment info iterator");}
      else{PCV_CHECK(++it!=o,"iterator-laws","pre-increment of segment info iterator");}
      ++o;
      PCV_CHECK(it==o,"iterator-laws","increments of equal segment info iterators differ");
    }
    PCV_CHECK(i==m.order.size(),"views","segment traversal finds %zu segments of %zu",i,m.order.size());
    // iterators can be default constructed and assigned
    It g;g=c.begin();
    CIt cg;cg=c.begin();
    PCV_CHECK(g==c.begin()&&cg==cc.begin()&&(g==c.end())==(n==0),"iterator-laws","assignment of global iterators");
    if(!m.order.empty()){
      const std::type_info& ti=true_info(m.order[e.r.below(m.order.size())]);
      LB lb;lb=c.begin(ti);
      CLB clb;clb=c.end(ti);
      PCV_CHECK(lb==cc.begin(ti)&&clb==c.end(ti)&&clb-CLB(lb)==std::ptrdiff_t(cc.size(ti)),"iterator-laws","assignment of local iterators");
    }
  }
  // global traversals
  std::size_t k=0;
  for(auto it=cc.begin(),last=cc.end();it!=last;++it,++k){
    PCV_CHECK(k<n,"views","global const traversal runs past %zu elements",n);
    PCV_CHECK(probe(*it).self==all[k].self,"views","global const traversal differs from segment traversal at %zu",k);
  }
  PCV_CHECK(k==n,"views","global const traversal finds %zu elements of %zu",k,n);
  k=0;
  auto cit=cc.cbegin();
  for(auto it=c.begin();it!=c.end();++k){
    PCV_CHECK(k<n,"views","global traversal runs past %zu elements",n);
    PCV_CHECK(probe(*it).self==all[k].self,"views","global traversal differs from segment traversal at %zu",k);
    CIt conv=it;
    PCV_CHECK(conv==cit&&std::addressof(*it)==it.operator->(),"iterator-laws","global iterator conversion or operator->");
    if(k%2){++it;++cit;}
    else{auto o=it;PCV_CHECK(it++==o&&it!=o,"iterator-laws","global post-increment");cit++;}
  }
  PCV_CHECK(k==n&&cit==cc.cend(),"views","global traversal finds %zu elements of %zu",k,n);
  m.al=al_id(cc.get_allocator());
  return m;
}

void verify_same(Eng& e,Slot& x,const char* why)
{
  Mdl o=observe(e,x);
  for(int t=0;t<NT;++t){
    PCV_CHECK(o.reg[t]==x.m.reg[t],"registration","%s: type %s %s",why,zoo[t].name,o.reg[t]?"unexpectedly registered":"no longer registered");
    PCV_CHECK(o.seg[t]==x.m.seg[t],"content","%s: contents are %s, expected %s",why,show(o).c_str(),show(x.m).c_str());
  }
  PCV_CHECK(o.al==x.m.al,"allocator","%s: get_allocator() gives %d, expected %d",why,o.al,x.m.al);
  if(!x.order_free)PCV_CHECK(o.order==x.m.order,"segment-order","%s: traversal order of segments changed without a new segment",why);
  x.m.order=o.order;
  x.order_free=false;
}
void check_slot(Eng& e,Slot& x){verify_same(e,x,e.opname);}

void take_watches(Eng& e)
{
  for(auto& x:e.s){
    std::fill(x.keep,x.keep+NT,npos);
    x.keep_none=false;
    for(int t=0;t<NT;++t){x.caps[t]=x.m.reg[t]?x.c->capacity(true_info(t)):npos;x.sizes[t]=x.m.seg[t].size();}
    x.watch.clear();
    x.have_end=false;
    if(!e.watch_on)continue;
    x.end_watch=x.c->cend();
    x.have_end=true;
    std::size_t n=x.m.size();
    for(std::size_t g=0;g<n;++g){
      if(n>12&&!e.r.chance(12,unsigned(n)))continue;
      auto p=x.m.at(g);
      Watch w;
      w.ti=p.first;w.pos=p.second;w.val=x.m.seg[p.first][p.second];
      w.git=nth(*const_cast<const C*>(x.c.get()),g);
      w.mgit=nth(*x.c,g);
      w.mlit=x.c->begin(true_info(w.ti))+w.pos;
      w.lit=x.c->cbegin(true_info(w.ti))+w.pos;
      w.self=probe(*w.git).self;
      x.watch.push_back(w);
    }
  }
}

static void check_watches(Eng& e,Slot& x)
{
  C& c=*x.c;
  const std::size_t n=x.m.size();
  if(x.have_end&&!x.keep_none){
    PCV_CHECK(x.end_watch==c.cend(),"iterator-stability","%s: previously obtained end() no longer equal to end()",e.opname);
  }
  if(x.keep_none)return;
  for(auto& w:x.watch){
    if(w.pos>=x.keep[w.ti])continue;
    stats().add("stable_iterators_checked");
    auto sn=probe(*w.git),sl=probe(*w.lit),sm=probe(*w.mgit),sk=probe(*w.mlit);
    PCV_CHECK(sn.self==w.self&&sl.self==w.self&&sm.self==w.self&&sk.self==w.self,"iterator-stability",
      "%s: iterator to element %zu of %s should not have been invalidated but refers elsewhere",e.opname,w.pos,zoo[w.ti].name);
    PCV_CHECK(sn.val==w.val&&is_live(sn.tr,w.ti),"iterator-stability",
      "%s: reference to element %zu of %s should not have been invalidated",e.opname,w.pos,zoo[w.ti].name);
    std::size_t g=x.m.gpos(w.ti,w.pos);
    PCV_CHECK(nth(*const_cast<const C*>(&c),g)==w.git&&nth(c,g)==w.mgit,"iterator-stability","%s: stable iterator differs from fresh one",e.opname);
    PCV_CHECK(c.cbegin(true_info(w.ti))+w.pos==w.lit,"iterator-stability","%s: stable local iterator differs from fresh one",e.opname);
    std::size_t k=0;
    for(auto it=w.git;it!=c.cend();++it,++k){
      PCV_CHECK(k<=n,"iterator-stability","%s: end not reachable from stable iterator",e.opname);
    }
    PCV_CHECK(k==n-g,"iterator-stability","%s: stable iterator sees %zu elements till end, expected %zu",e.opname,k,n-g);
  }
}

// other than by capacity operations, capacity changes only when it is exceeded
static void check_capacities(Eng& e,Slot& x)
{
  if(x.keep_none||e.opgroup[0]=='c'&&(e.opgroup[1]=='o'||e.opgroup[1]=='a'))return; // copy, capacity
  for(int t=0;t<NT;++t)if(x.caps[t]!=npos&&x.m.reg[t]){
    const std::size_t k=x.c->capacity(true_info(t));
    PCV_CHECK(k>=x.caps[t],"capacity","%s reduced capacity of %s from %zu to %zu",e.opname,zoo[t].name,x.caps[t],k);
    const bool refused=x.m.seg[t].size()==x.sizes[t]&&e.opgroup[0]!='e'&&e.opgroup[0]!='c'; // e.g. not copyable, after having reserved
    if(x.m.seg[t].size()<=x.caps[t]&&!refused)
      PCV_CHECK(k==x.caps[t],"capacity","%s changed capacity of %s from %zu to %zu, size is %zu",e.opname,zoo[t].name,x.caps[t],k,x.m.seg[t].size());
  }
}

void after_op(Eng& e)
{
  for(auto& x:e.s){
    check_slot(e,x);
    if(e.watch_on)check_watches(e,x);
    check_capacities(e,x);
  }
}

void resync(Eng& e,Slot& x)
{
  Mdl o=observe(e,x);
  x.m=o;
  x.order_free=false;
  x.keep_none=true;
}

void after_fault(Eng& e)
{
  for(auto& x:e.s){
    int si=e.idx(x);
    bool any=false,strong=true,dropped_ok=false;
    bool seg[NT]={};
    for(auto& t:e.touched)if(t.slot==si){
      any=true;
      if(t.guarantee!=STRONG){strong=false;dropped_ok=dropped_ok||t.ti<0;}
      if(t.ti<0)for(auto& b:seg)b=true;
      else seg[t.ti]=true;
    }
    if(!any){verify_same(e,x,"collection not involved in failed operation");continue;}
    Mdl o=observe(e,x);
    for(int t=0;t<NT;++t){
      bool whole=seg[t]&&!strong;
      PCV_CHECK(o.reg[t]||!x.m.reg[t]||dropped_ok,"exception-safety","failed %s unregistered type %s",e.opname,zoo[t].name);
      if(!whole){
        PCV_CHECK(o.seg[t]==x.m.seg[t],"exception-safety","failed %s changed segment %s: %s, was %s",e.opname,zoo[t].name,
          show(o).c_str(),show(x.m).c_str());
      }
      else{
        PCV_CHECK(o.seg[t].size()<=x.m.seg[t].size()+e.inserted.size(),"exception-safety","failed %s left %zu elements in segment %s, was %zu",
          e.opname,o.seg[t].size(),zoo[t].name,x.m.seg[t].size());
        for(u64 v:o.seg[t]){
          bool known=v==moved_mark;
          for(u64 w:x.m.seg[t])known=known||v==w;
          for(u64 w:e.inserted)known=known||v==w;
          PCV_CHECK(known,"exception-safety","failed %s left unknown value %llu in segment %s",e.opname,(unsigned long long)v,zoo[t].name);
        }
      }
    }
    x.m=o;
    x.order_free=false;
  }
}

}
