// Erasure and capacity.
#include "engine.hpp"
namespace pcv{

template<typename T>
void expect_at_typed(Eng& e,Slot& x,typename C::template const_local_iterator<T> it,std::size_t pos,const char* what);

// position of the first element at global position >= g in the model; -1 if none
static void expect_global(Eng& e,Slot& x,CIt it,std::size_t g,const char* what)
{
  auto p=x.m.at(g);
  expect_at(e,x,it,p.first,p.second,what);
}

static void op_erase_one(Eng& e)
{
  Slot& x=e.pick();
  C& c=*x.c;
  const std::size_t n=x.m.size();
  if(!n)return;
  const std::size_t g=e.r.below(n);
  auto p=x.m.at(g);
  const int ti=p.first;
  auto& sg=x.m.seg[ti];
  const bool last=p.second+1==sg.size();
  int v=int(e.r.below(4));
  e.last_variant=v;e.last_ti=ti;
  trace("s%d.erase(%s at %zu of %s, global %zu)",e.idx(x),v==0?"iterator":v==1?"const_iterator":v==2?"local base":"const local base",p.second,zoo[ti].name,g);
  e.touch(x,ti,BASIC);
  It it;LB lit;
  switch(v){
  case 0:{auto q=nth(c,g);Arm _;it=c.erase(q);break;}
  case 1:{auto q=nth(*const_cast<const C*>(&c),g);Arm _;it=c.erase(q);break;}
  case 2:{auto q=c.begin(info_of(e,ti))+p.second;Arm _;lit=c.erase(q);break;}
  case 3:{auto q=c.cbegin(info_of(e,ti))+p.second;Arm _;lit=c.erase(q);break;}
  }
  sg.erase(sg.begin()+p.second);
  e.keep(x,ti,p.second);
  if(v<2)expect_global(e,x,it,g,"erase");
  else expect_at(e,x,CLB(lit),ti,p.second,"erase(local base)");
  sig(30,v,ti,last*2+(p.second==0),std::min<std::size_t>(sg.size(),4));
}

template<typename T> struct erase_typed
{
  static void run(Eng& e)
  {
    Slot& x=e.pick();
    C& c=*x.c;
    const int ti=T::ti;
    if(!x.m.reg[ti])return;
    auto& sg=x.m.seg[ti];
    int v=int(e.r.below(6));
    e.last_variant=v;e.last_ti=ti;
    if(v<2&&sg.empty())v=2;
    std::size_t a=e.r.below(sg.size()+(v>=2)),b=v<2?a+1:a+e.r.below(sg.size()-a+1);
    if(v>=2&&e.r.chance(1,4)){a=0;if(e.r.chance(1,2))b=sg.size();}
    if(v>=2&&e.r.chance(1,4))b=sg.size();
    trace("s%d.erase(%s [%zu,%zu) of %s)",e.idx(x),v<4?"local":"local base",a,b,zoo[ti].name);
    e.touch(x,ti,BASIC);
    auto it=c.template begin<T>();
    LB lit;
    const C& cc=c;
    switch(v){
    case 0:{auto q=c.template begin<T>()+a;Arm _;it=c.erase(q);break;}
    case 1:{auto q=cc.template begin<T>()+a;Arm _;it=c.erase(q);break;}
    case 2:{auto q=c.template begin<T>();Arm _;it=c.erase(q+a,q+b);break;}
    case 3:{auto q=cc.template begin<T>();Arm _;it=c.erase(q+a,q+b);break;}
    case 4:{auto q=c.begin(info_of<T>(e));Arm _;lit=c.erase(q+a,q+b);break;}
    case 5:{auto q=cc.begin(info_of<T>(e));Arm _;lit=c.erase(q+a,q+b);break;}
    }
    sg.erase(sg.begin()+a,sg.begin()+b);
    e.keep(x,ti,a);
    if(v<4)expect_at_typed<T>(e,x,it,a,"erase(local)");
    else expect_at(e,x,CLB(lit),ti,a,"erase(local base range)");
    sig(31,v,ti,(a==0)*2+(a==sg.size()),std::min<std::size_t>(b-a,4));
  }
};

static void op_erase_range(Eng& e)
{
  Slot& x=e.pick();
  C& c=*x.c;
  const std::size_t n=x.m.size();
  std::size_t a=e.r.below(n+1),b=a+e.r.below(n-a+1);
  if(e.r.chance(1,2))b=std::min(n,a+e.r.below(6));
  if(e.r.chance(1,3)&&n){ // start or end at segment boundaries
    auto p=x.m.at(std::min(a,n-1));
    if(e.r.chance(1,2))a-=std::min(a,p.second);
    std::size_t l=x.m.gpos(p.first,0)+x.m.seg[p.first].size();
    if(l>=a&&e.r.chance(1,2))b=l;
    if(b<a)b=a;
  }
  int v=int(e.r.below(2));
  e.last_variant=v;e.last_ti=-1;
  trace("s%d.erase(global [%zu,%zu) of %zu)",e.idx(x),a,b,n);
  for(int t=0;t<NT;++t)e.touch(x,t,BASIC);
  It it;
  int nseg=0;
  if(v){auto f=nth(c,a),l=nth(c,b);Arm _;it=c.erase(f,l);}
  else{const C& cc=c;auto f=nth(cc,a),l=nth(cc,b);Arm _;it=c.erase(f,l);}
  for(std::size_t g=b;g-->a;){
    auto p=x.m.at(g);
    x.m.seg[p.first].erase(x.m.seg[p.first].begin()+p.second);
    if(x.keep[p.first]==npos)++nseg;
    e.keep(x,p.first,p.second);
  }
  expect_global(e,x,it,a,"erase(global range)");
  sig(32,v,nseg,(a==0)*2+(b==n),std::min<std::size_t>(b-a,8));
}

static void op_clear(Eng& e)
{
  Slot& x=e.pick();
  C& c=*x.c;
  if(e.r.chance(1,3)){
    trace("s%d.clear()",e.idx(x));
    std::size_t caps[NT];
    for(int t=0;t<NT;++t)caps[t]=capacity_of(x,t);
    for(int t=0;t<NT;++t)e.touch(x,t,BASIC);
    {Arm _;c.clear();}
    for(int t=0;t<NT;++t){
      x.m.seg[t].clear();e.keep(x,t,0);
      PCV_CHECK(capacity_of(x,t)==caps[t],"capacity","clear() changed capacity of %s",zoo[t].name);
    }
    sig(33);
    return;
  }
  int ti=int(e.r.below(NT));
  if(!x.m.reg[ti])return;
  trace("s%d.clear(%s)",e.idx(x),zoo[ti].name);
  e.touch(x,ti,BASIC);
  {auto& i=info_of(e,ti);Arm _;c.clear(i);}
  x.m.seg[ti].clear();
  e.keep(x,ti,0);
  sig(34,ti);
}

template<typename T> struct clear_typed
{
  static void run(Eng& e)
  {
    Slot& x=e.pick();
    if(!x.m.reg[T::ti])return;
    trace("s%d.clear<%s>()",e.idx(x),zoo[T::ti].name);
    e.touch(x,T::ti,BASIC);
    {Arm _;x.c->template clear<T>();}
    x.m.seg[T::ti].clear();
    e.keep(x,T::ti,0);
    sig(35,T::ti);
  }
};

template<typename T> struct cap_ops
{
  static void run(Eng& e)
  {
    Slot& x=e.pick();
    C& c=*x.c;
    const int ti=T::ti;
    auto& sg=x.m.seg[ti];
    const std::size_t c0=capacity_of(x,ti);
    std::size_t n=e.r.below(e.r.chance(1,16)?400:e.r.chance(1,4)?60:20);
    if(e.r.chance(1,6))n=c0;
    int v=int(e.r.below(9));
    e.last_variant=v;e.last_ti=ti;
    std::size_t caps[NT];
    bool was[NT];
    for(int t=0;t<NT;++t){caps[t]=capacity_of(x,t);was[t]=x.m.reg[t];}
    const int g=ti==TI_X?BASIC:STRONG;
    auto reserved=[&](int t){
      PCV_CHECK(capacity_of(x,t)>=n,"capacity","capacity of %s is %zu after reserving %zu",zoo[t].name,capacity_of(x,t),n);
      if(!was[t])return;
      if(n<=caps[t])PCV_CHECK(capacity_of(x,t)==caps[t],"capacity","reserve(%zu) changed capacity of %s from %zu to %zu",n,zoo[t].name,caps[t],capacity_of(x,t));
      else e.keep(x,t,0);
    };
    switch(v){
    case 0:case 1:
      trace("s%d.reserve<%s>(%zu), capacity %zu",e.idx(x),zoo[ti].name,n,c0);
      e.touch(x,ti,g);
      {Arm _;c.template reserve<T>(n);}
      e.model_register(x,ti);
      reserved(ti);
      break;
    case 2:case 3:{
      if(!x.m.reg[ti])return;
      trace("s%d.reserve(%s,%zu), capacity %zu",e.idx(x),zoo[ti].name,n,c0);
      e.touch(x,ti,g);
      auto& i=info_of<T>(e);
      {Arm _;c.reserve(i,n);}
      reserved(ti);
      break;}
    case 4:
      trace("s%d.reserve(%zu)",e.idx(x),n);
      for(int t=0;t<NT;++t)if(x.m.reg[t])e.touch(x,t,t==TI_X?BASIC:STRONG);
      {Arm _;c.reserve(n);}
      for(int t=0;t<NT;++t)if(x.m.reg[t])reserved(t);
      break;
    case 5:{
      if(!x.m.reg[ti])return;
      trace("s%d.shrink_to_fit<%s>(), capacity %zu size %zu",e.idx(x),zoo[ti].name,c0,sg.size());
      e.touch(x,ti,g);
      {Arm _;c.template shrink_to_fit<T>();}
      e.keep(x,ti,0);
      PCV_CHECK(capacity_of(x,ti)<=std::max<std::size_t>(c0,1),"capacity","shrink_to_fit increased capacity");
      break;}
    case 6:{
      if(!x.m.reg[ti])return;
      trace("s%d.shrink_to_fit(%s), capacity %zu size %zu",e.idx(x),zoo[ti].name,c0,sg.size());
      e.touch(x,ti,g);
      auto& i=info_of<T>(e);
      {Arm _;c.shrink_to_fit(i);}
      e.keep(x,ti,0);
      PCV_CHECK(capacity_of(x,ti)<=std::max<std::size_t>(c0,1),"capacity","shrink_to_fit increased capacity");
      break;}
    case 7:
      trace("s%d.shrink_to_fit()",e.idx(x));
      for(int t=0;t<NT;++t)if(x.m.reg[t])e.touch(x,t,t==TI_X?BASIC:STRONG);
      {Arm _;c.shrink_to_fit();}
      for(int t=0;t<NT;++t)e.keep(x,t,0);
      break;
    case 8:{ // beyond max_size
      if(!x.m.reg[ti])return;
      const std::size_t mx=c.template max_size<T>();
      if(mx==npos)return;
      const std::size_t big=e.r.chance(1,2)?mx+1:e.r.chance(1,2)?npos:mx+1+e.r.below(1000);
      trace("s%d.reserve(%s,max_size+%zu)",e.idx(x),zoo[ti].name,big-mx);
      bool thrown=false;
      auto& i=info_of<T>(e);
      try{
        if(e.r.chance(1,2))c.template reserve<T>(big);else c.reserve(i,big);
      }
      catch(const std::length_error&){thrown=true;}
      catch(const std::bad_alloc&){}
      PCV_CHECK(thrown,"capacity","reserve beyond max_size did not throw std::length_error");
      stats().add("length_error_seen");
      break;}
    }
    for(int t=0;t<NT;++t)if(was[t]&&v!=7&&(t!=ti||v==8)&&(v!=4||n<=caps[t]))
      PCV_CHECK(capacity_of(x,t)==caps[t],"capacity","operation on the capacity of %s changed that of %s",zoo[ti].name,zoo[t].name);
    if(v==7)for(int t=0;t<NT;++t)if(was[t])
      PCV_CHECK(capacity_of(x,t)<=std::max<std::size_t>(caps[t],1),"capacity","shrink_to_fit increased capacity");
    sig(36,v,ti,(n>c0)*2+(sg.empty()),std::min<std::size_t>(sg.size(),4));
  }
};

static void op_et(Eng& e){dispatch<erase_typed>(e,int(e.r.below(NT)));}
static void op_ct(Eng& e){dispatch<clear_typed>(e,int(e.r.below(NT)));}
static void op_cap(Eng& e){dispatch<cap_ops>(e,int(e.r.below(NT)));}

void add_ops_erase(std::vector<Op>& o)
{
  o.push_back({"erase","erase",8,&op_erase_one});
  o.push_back({"erase local","erase",6,&op_et});
  o.push_back({"erase range","erase",4,&op_erase_range});
  o.push_back({"clear","clear",1,&op_clear});
  o.push_back({"clear<T>","clear",1,&op_ct});
  o.push_back({"capacity","capacity",10,&op_cap});
}
}
