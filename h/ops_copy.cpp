// Construction, assignment, swap of whole collections.
#include "engine.hpp"
namespace pcv{

static std::vector<const void*> addresses(const C& c)
{
  std::vector<const void*> r;
  for(auto& v:c)r.push_back(probe(v).self);
  return r;
}
static std::map<const void*,u64> address_set(const C& c)
{
  std::map<const void*,u64> r;
  for(auto& v:c){auto s=probe(v);r[s.self]=s.val;}
  return r;
}
static int bad_copy(const Mdl& m)
{
  for(int t:m.order)if(!zoo[t].copyable&&!m.seg[t].empty())return t;
  return -1;
}
static void expect_copy_throw(const char* what,const Mdl& m,void(*f)(void*),void* p)
{
  bool ok=false;
  try{f(p);}
  catch(const bpc::not_copy_constructible& x){
    ok=true;
    int t=x.pinfo?ti_from(*x.pinfo):-1;
    PCV_CHECK(t>=0&&!zoo[t].copyable&&!m.seg[t].empty(),"exception-info","%s: exception reports type %s",what,x.pinfo?x.pinfo->name():"(null)");
  }
  PCV_CHECK(ok,"missing-exception","%s: not_copy_constructible not thrown",what);
  stats().add("not_copy_constructible_seen");
}
template<typename F> static void expect_copy_throw(const char* what,const Mdl& m,F& f)
{
  expect_copy_throw(what,m,[](void* p){(*static_cast<F*>(p))();},&f);
}

static u64 shape(const Mdl& m)
{
  u64 h=0;
  for(int t=0;t<NT;++t)h=h*3+(m.reg[t]?m.seg[t].empty()?1:2:0);
  return h;
}
static void all_values(const Mdl& m,std::vector<u64>& v)
{
  for(auto& s:m.seg)v.insert(v.end(),s.begin(),s.end());
}
// picks two slots
static bool two(Eng& e,Slot*& x,Slot*& y)
{
  if(e.s.size()<2)return false;
  std::size_t i=e.r.below(e.s.size()),j=(i+1+e.r.below(e.s.size()-1))%e.s.size();
  x=&e.s[i];y=&e.s[j];
  return true;
}
static int pick_al(Eng& e){return stateful?int(e.r.below(4)):0;}

static void adopt(Slot& x,std::unique_ptr<C>& nc,const Mdl& m,int al)
{
  x.c=std::move(nc);
  x.m=m;
  x.m.al=al;
  x.order_free=true;
  x.keep_none=true;
}
static void same_addresses(const char* what,const C& c,const std::map<const void*,u64>& a,const Counters& k0)
{
  PCV_CHECK(address_set(c)==a,"transfer","%s: elements did not keep their addresses",what);
  PCV_CHECK(counters().ctor==k0.ctor&&counters().copy==k0.copy&&counters().move==k0.move&&counters().assign==k0.assign,
    "transfer","%s: elements were copied or moved individually",what);
  stats().add("address_preserving_transfers");
}
static void no_copies(const char* what,const Mdl& m,const Counters& k0)
{
  std::size_t nomove=m.seg[TI_S].size();
  PCV_CHECK(counters().copy-k0.copy<=2*nomove,"transfer","%s: elements copied instead of moved",what);
}

// the moved-from collection is valid; learn its state
static void moved_from(Eng& e,Slot& y)
{
  y.keep_none=true;
  y.order_free=true;
  resync(e,y);
}

static void op_copy_ctor(Eng& e)
{
  Slot *x,*y;
  if(!two(e,x,y))return;
  bool with_al=e.r.chance(1,2);
  int al=with_al?pick_al(e):socc_id(y->m.al);
  e.last_variant=with_al;
  trace("s%d=C(s%d%s) al %d",e.idx(*x),e.idx(*y),with_al?",al":"",al);
  e.inserted.clear();
  std::unique_ptr<C> nc;
  const C& cy=*y->c;
  auto call=[&]{
    if(with_al){Arm _;nc.reset(new C(cy,make_al(al)));}
    else{Arm _;nc.reset(new C(cy));}
  };
  if(bad_copy(y->m)>=0){
    expect_copy_throw("copy construction",y->m,call);
    sig(40,with_al,shape(y->m),1);
    return;
  }
  auto before=address_set(cy);
  call();
  for(auto p:addresses(*nc))PCV_CHECK(!before.count(p),"copy","copy shares elements with the original");
  bool cmp=true;
  for(int t=0;t<NT;++t)if(!zoo[t].comparable&&!y->m.seg[t].empty())cmp=false;
  if(cmp){
    PCV_CHECK(*nc==cy&&!(*nc!=cy)&&cy==*nc,"copy","copy does not compare equal to the original");
  }
  adopt(*x,nc,y->m,al);
  sig(40,with_al,shape(y->m),0);
}

static void op_move_ctor(Eng& e)
{
  Slot *x,*y;
  if(!two(e,x,y))return;
  bool with_al=e.r.chance(1,2);
  int al=with_al?pick_al(e):y->m.al;
  bool steal=!with_al||!stateful||al==y->m.al;
  e.last_variant=with_al;
  trace("s%d=C(move(s%d)%s) al %d",e.idx(*x),e.idx(*y),with_al?",al":"",al);
  e.inserted.clear();
  e.touch(*y,-1,BASIC);
  auto a=address_set(*y->c);
  Counters k0=counters();
  std::unique_ptr<C> nc;
  if(with_al){Arm _;nc.reset(new C(std::move(*y->c),make_al(al)));}
  else{Arm _;nc.reset(new C(std::move(*y->c)));}
  if(steal)same_addresses("move construction",*nc,a,k0);
  else no_copies("move construction",y->m,k0);
  Mdl m=y->m;
  u64 sh=shape(m);
  adopt(*x,nc,m,al);
  moved_from(e,*y);
  sig(41,with_al*2+steal,sh);
}

static void op_copy_assign(Eng& e)
{
  Slot *x,*y;
  if(!two(e,x,y))return;
  trace("s%d=s%d",e.idx(*x),e.idx(*y));
  e.inserted.clear();
  all_values(y->m,e.inserted);
  e.touch(*x,-1,BASIC);
  C& cx=*x->c;
  const C& cy=*y->c;
  auto call=[&]{Arm _;C& r=(cx=cy);PCV_CHECK(&r==&cx,"assign","assignment returns other object");};
  x->keep_none=true;
  u64 sh=shape(y->m)*7919+shape(x->m);
  if(bad_copy(y->m)>=0){
    expect_copy_throw("copy assignment",y->m,call);
    x->order_free=true;
    resync(e,*x);
    sig(42,1,sh);
    return;
  }
  auto before=address_set(cy);
  call();
  for(auto p:addresses(cx))PCV_CHECK(!before.count(p),"copy","copy shares elements with the original");
  int al=POCCA?y->m.al:x->m.al;
  x->m=y->m;
  x->m.al=al;
  x->order_free=true;
  sig(42,0,sh);
}

static void op_move_assign(Eng& e)
{
  Slot *x,*y;
  if(!two(e,x,y))return;
  trace("s%d=move(s%d)",e.idx(*x),e.idx(*y));
  e.inserted.clear();
  all_values(y->m,e.inserted);
  all_values(x->m,e.inserted);
  e.touch(*x,-1,BASIC);
  e.touch(*y,-1,BASIC);
  bool steal=!stateful||POCMA||x->m.al==y->m.al;
  x->keep_none=true;
  auto a=address_set(*y->c);
  Counters k0=counters();
  {Arm _;C& r=(*x->c=std::move(*y->c));PCV_CHECK(&r==x->c.get(),"assign","assignment returns other object");}
  if(steal)same_addresses("move assignment",*x->c,a,k0);
  else no_copies("move assignment",y->m,k0);
  u64 sh=shape(y->m)*7919+shape(x->m);
  int al=POCMA?y->m.al:x->m.al;
  x->m=y->m;
  x->m.al=al;
  x->order_free=true;
  moved_from(e,*y);
  sig(43,steal,sh);
}

static void op_self_assign(Eng& e)
{
  Slot& x=e.pick();
  C& c=*x.c;
  C& same=*x.c;
  const bool mv=e.r.chance(1,3);
  trace("s%d=%s(s%d)",e.idx(x),mv?"move":"",e.idx(x));
  e.inserted.clear();
  x.keep_none=true;
  if(mv){
    e.touch(x,-1,BASIC);
    Arm _;c=std::move(same);
  }
  else{
    e.touch(x,-1,BASIC);
    Arm _;c=const_cast<const C&>(same);
  }
  x.order_free=true;
  sig(44,mv,shape(x.m));
}

static void op_swap(Eng& e)
{
  Slot *x,*y;
  if(!two(e,x,y))return;
  if(stateful&&!POCS&&x->m.al!=y->m.al)return;
  int v=int(e.r.below(3));
  e.last_variant=v;
  trace("%s(s%d,s%d)",v?"swap":"member swap",e.idx(*x),e.idx(*y));
  e.inserted.clear();
  e.touch(*x,-1,STRONG);
  e.touch(*y,-1,STRONG);
  auto ax=address_set(*x->c),ay=address_set(*y->c);
  Counters k0=counters();
  if(v==0){Arm _;x->c->swap(*y->c);}
  else if(v==1){using std::swap;Arm _;swap(*x->c,*y->c);}
  else{Arm _;y->c->swap(*x->c);}
  same_addresses("swap",*x->c,ay,k0);
  same_addresses("swap",*y->c,ax,k0);
  u64 sh=shape(y->m)*7919+shape(x->m);
  std::swap(x->m,y->m);
  if(!POCS)std::swap(x->m.al,y->m.al);
  x->keep_none=y->keep_none=true;
  // iterators to elements stay valid, referring to the same elements
  if(e.watch_on){
    for(Slot* p:{x,y})for(auto& w:p->watch){
      PCV_CHECK(probe(*w.git).self==w.self&&probe(*w.lit).self==w.self,"iterator-stability","swap: iterator no longer refers to its element");
    }
  }
  sig(45,v,sh);
}

static void op_fresh(Eng& e)
{
  Slot& x=e.pick();
  int al=pick_al(e);
  trace("s%d=C(al %d) fresh",e.idx(x),al);
  e.inserted.clear();
  std::unique_ptr<C> nc;
  if(al==0&&e.r.chance(1,2)){Arm _;nc.reset(new C);}
  else{Arm _;nc.reset(new C(make_al(al)));}
  adopt(x,nc,Mdl(),al);
  sig(46,al);
}

// independence: changing one of two equal collections does not affect the other
static void op_independent(Eng& e)
{
  Slot& x=e.pick();
  if(bad_copy(x.m)>=0||!x.m.size())return;
  trace("independence of a copy of s%d",e.idx(x));
  e.inserted.clear();
  C* cp;
  std::unique_ptr<C> nc;
  {Arm _;nc.reset(new C(*x.c));}
  cp=nc.get();
  cp->template emplace<A<K>>(Val{e.val()});
  cp->erase(cp->begin());
  verify_same(e,x,"modification of a copy");
  C other(make_al(2));
  other=*cp;
  cp->clear();
  verify_same(e,x,"clearing a copy");
  PCV_CHECK(other.size()==x.m.size(),"copy","second copy affected by changes in the first");
  other=C(make_al(1));
  PCV_CHECK(other.size()==0&&other.empty(),"copy","assignment from an empty collection leaves elements");
  sig(47,shape(x.m));
}

void add_ops_copy(std::vector<Op>& o)
{
  o.push_back({"copy construction","copy",3,&op_copy_ctor});
  o.push_back({"move construction","copy",3,&op_move_ctor});
  o.push_back({"copy assignment","copy",3,&op_copy_assign});
  o.push_back({"move assignment","copy",3,&op_move_assign});
  o.push_back({"self assignment","copy",2,&op_self_assign});
  o.push_back({"swap","copy",3,&op_swap});
  o.push_back({"fresh","copy",1,&op_fresh});
  o.push_back({"independence","copy",1,&op_independent});
}
}
