// Equality comparison of collections.
#include "engine.hpp"
namespace pcv{

static void compare(Eng& e,Slot& x,Slot& y)
{
  const C& a=*x.c;
  const C& b=*y.c;
  bool differs=false,may_throw=false,must=false;
  bool types[NT]={};
  for(int t=0;t<NT;++t){
    auto &u=x.m.seg[t],&v=y.m.seg[t];
    if(u.empty()&&v.empty())continue;
    if(!zoo[t].comparable){
      types[t]=true;
      if(u.size()==v.size()){must=true;may_throw=true;}
      else{differs=true;may_throw=true;}
    }
    else if(u!=v)differs=true;
  }
  const bool ne=e.r.chance(1,2);
  trace("s%d%ss%d",e.idx(x),ne?"!=":"==",e.idx(y));
  e.inserted.clear();
  bool r=false,thrown=false;
  try{
    Arm _;
    r=ne?!(a!=b):a==b;
  }
  catch(const bpc::not_equality_comparable& z){
    thrown=true;
    int t=z.pinfo?ti_from(*z.pinfo):-1;
    PCV_CHECK(t>=0&&types[t],"exception-info","comparison: exception reports type %s",z.pinfo?z.pinfo->name():"(null)");
    stats().add("not_equality_comparable_seen");
  }
  if(thrown)PCV_CHECK(may_throw,"equality","comparison threw although all non-empty segments are comparable");
  else if(differs)PCV_CHECK(!r,"equality","different collections compare equal: %s vs %s",show(x.m).c_str(),show(y.m).c_str());
  else{
    PCV_CHECK(!must,"missing-exception","comparison of non comparable elements did not throw");
    PCV_CHECK(r,"equality","equal collections compare different: %s vs %s",show(x.m).c_str(),show(y.m).c_str());
  }
  stats().add(thrown?"compared_throw":r?"compared_equal":"compared_different");
  sig(50,thrown*2+r,differs*2+must,x.m.size(),y.m.size());
}

static void op_eq(Eng& e)
{
  Slot& x=e.pick();
  Slot& y=e.pick();
  compare(e,x,y);
}

// inserts an element of type ti with value v in a
template<typename T> struct putter
{
  static void run(Eng&){}
  static void put(C& c,u64 v){c.template emplace<T>(Val{v});}
  static void put_front(C& c,u64 v)
  {
    c.template register_types<T>();
    c.emplace_pos(c.template begin<T>(),Val{v});
  }
  static void reg(C& c){c.template register_types<T>();}
  static void res(C& c,std::size_t n){c.template reserve<T>(n);}
};
template<typename... Ts> static void put(tl<Ts...>,C& c,int ti,u64 v)
{using fn=void(*)(C&,u64);static const fn t[]={&putter<Ts>::put...};t[ti](c,v);}
template<typename... Ts> static void put_front(tl<Ts...>,C& c,int ti,u64 v)
{using fn=void(*)(C&,u64);static const fn t[]={&putter<Ts>::put_front...};t[ti](c,v);}
template<typename... Ts> static void reg(tl<Ts...>,C& c,int ti)
{using fn=void(*)(C&);static const fn t[]={&putter<Ts>::reg...};t[ti](c);}
template<typename... Ts> static void res(tl<Ts...>,C& c,int ti,std::size_t n)
{using fn=void(*)(C&,std::size_t);static const fn t[]={&putter<Ts>::res...};t[ti](c,n);}

// builds a near copy of a collection: same elements inserted in another order
// of segments and with other registered types, then maybe one small change
static void op_eq_near(Eng& e)
{
  Slot& x=e.pick();
  Slot y;
  std::fill(y.keep,y.keep+NT,npos);
  y.c.reset(new C(make_al(stateful?int(e.r.below(3)):0)));
  bool only_comparable=e.r.chance(3,4);
  if(only_comparable){
    for(int t=0;t<NT;++t)if(!zoo[t].comparable&&!x.m.seg[t].empty()){
      x.c->clear(true_info(t));x.m.seg[t].clear();e.keep(x,t,0);
    }
  }
  int perm[NT];
  for(int t=0;t<NT;++t)perm[t]=t;
  for(int t=NT;t-->1;)std::swap(perm[t],perm[e.r.below(t+1)]);
  C& d=*y.c;
  for(int t:perm){
    auto& sg=x.m.seg[t];
    if(sg.empty()){
      if(e.r.chance(1,3)){reg(Types<K>(),d,t);y.m.reg[t]=true;}
      continue;
    }
    if(e.r.chance(1,3))res(Types<K>(),d,t,e.r.below(40));
    if(e.r.chance(1,2))for(u64 v:sg)put(Types<K>(),d,t,v);
    else for(std::size_t i=sg.size();i--;)put_front(Types<K>(),d,t,sg[i]);
    y.m.reg[t]=true;
    y.m.seg[t]=sg;
  }
  // one change
  int ch=int(e.r.below(7));
  int t=int(e.r.below(NT));
  for(int k=0;k<NT&&y.m.seg[t].empty();++k)t=(t+1)%NT;
  auto& sg=y.m.seg[t];
  const char* what="identical";
  switch(ch){
  case 0:{what="one more at the end";u64 v=e.val();put(Types<K>(),d,t,v);sg.push_back(v);y.m.reg[t]=true;break;}
  case 1:if(!sg.empty()){what="one less at the end";d.erase(d.end(true_info(t))-1);sg.pop_back();}break;
  case 2:if(!sg.empty()){what="one less at the beginning";d.erase(d.begin(true_info(t)));sg.erase(sg.begin());}break;
  case 3:if(!sg.empty()){ // last one replaced
    what="last replaced";
    u64 v=e.val();d.erase(d.end(true_info(t))-1);sg.pop_back();put(Types<K>(),d,t,v);sg.push_back(v);}break;
  case 4:if(!sg.empty()){ // first one replaced
    what="first replaced";
    u64 v=e.val();d.erase(d.begin(true_info(t)));sg.erase(sg.begin());put_front(Types<K>(),d,t,v);sg.insert(sg.begin(),v);}break;
  case 5:if(sg.size()>=2){ // rotated
    what="rotated";
    u64 v=sg.back();d.erase(d.end(true_info(t))-1);sg.pop_back();put_front(Types<K>(),d,t,v);sg.insert(sg.begin(),v);}break;
  case 6:break;
  }
  trace("near copy of s%d, %s (%s): %s",e.idx(x),what,zoo[t].name,show(y.m).c_str());
  y.m.al=al_id(d.get_allocator());
  y.order_free=true;
  verify_same(e,y,"near copy");
  if(e.r.chance(1,2))compare(e,x,y);else compare(e,y,x);
  sig(51,ch,t,sg.size());
}

void add_ops_eq(std::vector<Op>& o)
{
  o.push_back({"compare","eq",3,&op_eq});
  o.push_back({"compare near copies","eq",3,&op_eq_near});
}
}
