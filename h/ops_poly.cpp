// Insertion through references to value_type (and intermediate bases).
#include "engine.hpp"
namespace pcv{

template<typename T> struct maker // puts an element in a scratch collection
{
  static void run(Eng&){}
  static void put(C& c,u64 v){c.template emplace<T>(Val{v});}
};
template<typename... Ts> static void put(tl<Ts...>,C& c,int ti,u64 v)
{
  using fn=void(*)(C&,u64);
  static const fn t[]={&maker<Ts>::put...};
  t[ti](c,v);
}

#if KIND==0
template<typename... Ts> static std::unique_ptr<V> heap(tl<Ts...>,int ti,u64 v)
{
  using fn=V*(*)(u64);
  static const fn t[]={[](u64 v)->V*{return new Ts(Val{v});}...};
  return std::unique_ptr<V>(t[ti](v));
}
#endif

static void finish(Eng& e,Slot& x,int ti,std::size_t pos,u64 v,std::size_t c0)
{
  e.model_insert(x,ti,pos,{v},c0);
}

static void op_poly(Eng& e)
{
  Slot& x=e.pick();
  C& c=*x.c;
  int ti=int(e.r.below(NT));
  auto& sg=x.m.seg[ti];
  if(int(sg.size())>=e.max_size)return;
  const u64 val=e.val();
  const std::size_t c0=capacity_of(x,ti);
  int v=int(e.r.below(7));
  e.last_variant=v;e.last_ti=ti;
  e.inserted={val};
  C tmp(make_al(e.s.empty()?0:int(e.r.below(3))));
  put(Types<K>(),tmp,ti,val);
#if KIND==0
  auto hp=heap(Types<K>(),ti,val);
  V& ref=e.r.chance(1,2)?*hp:*tmp.begin();
#else
  V& ref=*tmp.begin();
#endif
  const V& cref=ref;
  bool rvalue=v==1||v==3||v==5;
  std::size_t n=x.m.size();
  const std::size_t g=e.r.below(n+1);
  auto at=x.m.at(g);
  bool hinted=v==2||v==3;
  bool local=v==4||v==5;
  if(local&&!x.m.reg[ti]){v=0;local=false;rvalue=false;}
  std::size_t pos=sg.size();
  if(hinted&&at.first==ti)pos=at.second;
  if(local)pos=e.r.below(sg.size()+1);
  trace("s%d.insert(%s%s%s value_type ref to %s #%llu) registered=%d pos %zu",e.idx(x),hinted?"hint, ":"",local?"local base, ":"",
    rvalue?"rvalue":"lvalue",zoo[ti].name,(unsigned long long)val,int(x.m.reg[ti]),pos);
  e.touch(x,ti,pos==sg.size()&&ti!=TI_X?STRONG:BASIC);
  CIt h=nth(*const_cast<const C*>(&c),g);
  It it;LB lit;
  auto call=[&]{
    switch(v){
    case 0:{Arm _;it=c.insert(cref);break;}
    case 1:{Arm _;it=c.insert(std::move(ref));break;}
    case 2:{Arm _;it=c.insert(h,cref);break;}
    case 3:{Arm _;it=c.insert(h,std::move(ref));break;}
    case 4:{auto p=c.begin(info_of(e,ti))+pos;Arm _;lit=c.insert(p,cref);break;}
    case 5:{auto p=c.cbegin(info_of(e,ti))+pos;Arm _;lit=c.insert(p,std::move(ref));break;}
    case 6:{Arm _;it=c.insert(ref);break;}
    }
  };
  if(!x.m.reg[ti]){
    expect_throw<bpc::unregistered_type>("insert(value_type ref) of unregistered type",true_info(ti),call);
    stats().add("unregistered_inserts");
    PCV_CHECK(probe(ref).val==val,"argument","argument of failed insertion was modified");
  }
  else if(!rvalue&&!zoo[ti].copyable){
    expect_throw<bpc::not_copy_constructible>("insert(value_type ref) of non copyable type",true_info(ti),call);
    e.keep(x,ti,0);
    stats().add("not_copy_constructible_seen");
    PCV_CHECK(probe(ref).val==val,"argument","argument of failed insertion was modified");
  }
  else{
    call();
    finish(e,x,ti,pos,val,c0);
    if(local)expect_at(e,x,CLB(lit),ti,pos,"insert(local base,value_type ref)");
    else expect_at(e,x,it,ti,pos,"insert(value_type ref)");
    u64 after=probe(ref).val;
    PCV_CHECK(rvalue&&zoo[ti].moves?after==moved_mark:after==val,"argument","argument %s",
      rvalue?"was not moved from":"modified by copy insertion");
  }
  sig(10,v,ti,x.m.reg[ti],std::min<std::size_t>(sg.size(),4)*2+(sg.size()>c0));
}

#if KIND==0
// D object inserted through a reference to its (acceptable) base A
static void op_slice(Eng& e)
{
  Slot& x=e.pick();
  C& c=*x.c;
  const u64 val=e.val();
  D<0> d(Val{val});
  A<0>& a=d;
  const int ti=TI_D;
  auto& sg=x.m.seg[ti];
  if(int(sg.size())>=e.max_size)return;
  const std::size_t c0=capacity_of(x,ti);
  e.inserted={val};
  int v=int(e.r.below(4));
  e.last_variant=v;e.last_ti=ti;
  const std::size_t g=e.r.below(x.m.size()+1);
  auto at=x.m.at(g);
  std::size_t pos=sg.size();
  if(v>=2&&at.first==ti)pos=at.second;
  trace("s%d.insert(%sA& to D #%llu) registered=%d pos %zu",e.idx(x),v>=2?"hint, ":"",(unsigned long long)val,int(x.m.reg[ti]),pos);
  e.touch(x,ti,pos==sg.size()?STRONG:BASIC);
  CIt h=nth(*const_cast<const C*>(&c),g);
  It it;
  auto call=[&]{
    switch(v){
    case 0:{Arm _;it=c.insert(a);break;}
    case 1:{Arm _;it=c.insert(std::move(a));break;}
    case 2:{Arm _;it=c.insert(h,const_cast<const A<0>&>(a));break;}
    case 3:{Arm _;it=c.insert(h,std::move(a));break;}
    }
  };
  if(!x.m.reg[ti]){
    expect_throw<bpc::unregistered_type>("insert(A& to unregistered D)",typeid(D<0>),call);
    stats().add("unregistered_inserts");
  }
  else{
    call();
    finish(e,x,ti,pos,val,c0);
    expect_at(e,x,it,ti,pos,"insert(A& to D)");
  }
  sig(11,v,ti,x.m.reg[ti],std::min<std::size_t>(sg.size(),4));
}
#endif

void add_ops_poly(std::vector<Op>& o)
{
  o.push_back({"insert value_type ref","poly",10,&op_poly});
#if KIND==0
  o.push_back({"insert derived through base","poly",4,&op_slice});
#endif
}
}
