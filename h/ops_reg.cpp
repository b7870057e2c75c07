// Type registration.
#include "engine.hpp"
namespace pcv{

template<typename T> struct reg_one
{
  static void run(Eng& e)
  {
    Slot& x=e.pick();
    e.last_ti=T::ti;
    bool was=x.m.reg[T::ti];
    trace("s%d.register_types<%s>() registered=%d",e.idx(x),zoo[T::ti].name,int(was));
    e.touch(x,T::ti,STRONG);
    {Arm _;x.c->template register_types<T>();}
    e.model_register(x,T::ti);
    sig(60,T::ti,was,x.m.size()!=0);
  }
};
static void op_reg(Eng& e){dispatch<reg_one>(e,int(e.r.below(NT)));}

template<typename... Us> static void many(Eng& e,Slot& x)
{
  int ts[]={Us::ti...,-1};
  for(int t:ts)if(t>=0)e.touch(x,t,STRONG);
  {Arm _;x.c->template register_types<Us...>();}
  for(int t:ts)if(t>=0)e.model_register(x,t);
}
static void op_reg_many(Eng& e)
{
  Slot& x=e.pick();
  int v=int(e.r.below(5));
  trace("s%d.register_types<...>() set %d",e.idx(x),v);
  switch(v){
  case 0:many<>(e,x);break;
  case 1:many<A<K>,M<K>>(e,x);break;
  case 2:many<X<K>,X<K>,S<K>>(e,x);break;
  case 3:many<D<K>,L<K>,N<K>>(e,x);break;
  case 4:many<A<K>,D<K>,Q<K>,M<K>,N<K>,L<K>,S<K>,X<K>>(e,x);break;
  }
  sig(61,v,x.m.size()!=0);
}
void add_ops_reg(std::vector<Op>& o)
{
  o.push_back({"register","reg",2,&op_reg});
  o.push_back({"register several","reg",1,&op_reg_many});
}
}
