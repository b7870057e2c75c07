#include "engine.hpp"
#include <cstring>
namespace pcv{
void* force_instantiation();

struct Mode
{
  const char* name;
  int single,alias,poly,range,erase,clear,capacity,copy,eq,reg; // weight multipliers
  int slots;
  int min_ops,max_ops;
  bool watch,laws;
  int max_size;
};
static const Mode modes[]={
  //           si al po ra er cl ca co eq re
  {"mod",      3, 5, 3, 4, 3, 2, 2, 1, 0, 1, 2,10,60,false,false,24},
  {"view",     3, 1, 2, 2, 3, 3, 3, 3, 0, 4, 2, 6,40,false,true ,24},
  {"reg",      1, 1, 5, 2, 1, 1, 1, 3, 1, 8, 3, 6,40,false,false,10},
  {"life",     3, 3, 3, 3, 3, 2, 4, 3, 1, 1, 3,10,80,false,false,40},
  {"stab",     4, 2, 2, 3, 4, 1,12, 1, 0, 3, 2,10,60,true ,false,24},
  {"copy",     2, 1, 1, 1, 1, 1, 2,12, 1, 2, 3, 6,40,true ,false,12},
  {"alloc",    2, 2, 2, 2, 2, 1, 4, 8, 1, 2, 3, 6,50,false,false,16},
  {"eq",       2, 1, 1, 2, 2, 1, 1, 2,20, 2, 3, 6,40,false,false,8},
  {"excp",     2, 4, 6, 6, 1, 1, 1, 6, 6, 2, 3, 6,40,false,false,8},
  {"ident",    3, 3, 3, 3, 3, 1, 4, 3, 0, 1, 2,10,60,false,false,24},
  {"fault",    3, 3, 3, 4, 3, 1, 5, 4, 1, 2, 2, 0,14,false,false,10},
};
static const Mode* g_mode=&modes[0];
static std::vector<Op> g_ops;
static std::vector<int> g_weight;
static int g_total=0;

static void setup()
{
  if(!g_ops.empty())return;
  for(auto& m:modes)if(config().mode==m.name)g_mode=&m;
  if(config().mode!=g_mode->name){std::fprintf(stderr,"unknown mode\n");std::exit(2);}
  add_ops_single(g_ops);add_ops_poly(g_ops);add_ops_range(g_ops);add_ops_erase(g_ops);
  add_ops_copy(g_ops);add_ops_eq(g_ops);add_ops_reg(g_ops);
  const Mode& m=*g_mode;
  for(auto& o:g_ops){
    auto is=[&](const char* s){return !std::strcmp(o.group,s);};
    int f=is("single")?m.single:is("alias")?m.alias:is("poly")?m.poly:is("range")?m.range:is("erase")?m.erase:
      is("clear")?m.clear:is("capacity")?m.capacity:is("copy")?m.copy:is("eq")?m.eq:is("reg")?m.reg:0;
    g_weight.push_back(o.weight*f);
    g_total+=o.weight*f;
  }
  force_instantiation();
}
static const Op& choose(Eng& e)
{
  int w=int(e.r.below(g_total));
  for(std::size_t i=0;;++i){w-=g_weight[i];if(w<0)return g_ops[i];}
}
static void start(Eng& e)
{
  const Mode& m=*g_mode;
  e.big=config().mode!="fault"&&config().mode!="eq"&&e.r.chance(1,24);
  e.max_size=e.big?150:m.max_size;
  e.watch_on=m.watch;
  e.laws=m.laws;
  e.ident=config().mode=="ident";
  e.s.resize(m.slots);
  for(auto& x:e.s){
    x.m.al=stateful?int(e.r.below(3)):0;
    x.c.reset(new C(make_al(x.m.al)));
    std::fill(x.keep,x.keep+NT,npos);
  }
}
// operations on one collection get memory from its allocator only
static void own_memory(Eng& e)
{
  if(!stateful||e.touched.empty()||!std::strcmp(e.opgroup,"copy")||!std::strcmp(e.opgroup,"eq"))return;
  for(int id:alloc_log().used){
    bool known=false;
    for(auto& t:e.touched)known=known||t.slot<0||e.s[t.slot].m.al==id;
    PCV_CHECK(known,"allocator","%s: memory or elements obtained from allocator %d, which is not that of the collection",e.opname,id);
    stats().add("own_memory_checks");
  }
}
static void step(Eng& e,const Op& o)
{
  e.opname=o.name;
  e.opgroup=o.group;
  e.touched.clear();
  e.last_ti=-1;e.last_variant=0;
  take_watches(e);
  alloc_log().used.clear();
  o.fn(e);
  own_memory(e);
  after_op(e);
  ++e.ops_ok;
  stats().add(o.name);
}
static void finish(Eng& e)
{
  e.s.clear();
  PCV_CHECK(live_elements()==0,"lifetime","%zu elements still alive after destruction of all collections",live_elements());
  PCV_CHECK(alloc_log().live.empty(),"allocator","%zu blocks not deallocated after destruction of all collections",alloc_log().live.size());
  if(alloc_log().track_built)
    for(auto& p:alloc_log().built)PCV_CHECK(false,"allocator","element at %p constructed but not destroyed through the allocator",p.first);
}
static void clean()
{
  lifetimes_reset();
  alloc_log().live.clear();
  alloc_log().built.clear();
  injector()=Injector();
}

static void random_case(u64 seed,long)
{
  clean();
  alloc_log().track_built=stateful;
  Eng e(seed);
  start(e);
  const Mode& m=*g_mode;
  int n=m.min_ops+int(e.r.below(m.max_ops-m.min_ops+1));
  for(int i=0;i<n;++i)step(e,choose(e));
  finish(e);
}

// One operation after a deterministic prefix, failing at each of its fault
// points in turn.
static void fault_case(u64 seed,long)
{
  const Mode& m=*g_mode;
  long points=-1;
  for(long k=-1;k<points||k<0;++k){
    clean();
    trace_reset();
    alloc_log().track_built=false;
    {
    Eng e(seed);
    e.faults=true;
    start(e);
    int n=m.min_ops+int(e.r.below(m.max_ops-m.min_ops+1));
    for(int i=0;i<n;++i)step(e,choose(e));
    const Op* o=&choose(e);
    e.opname=o->name;
    e.opgroup=o->group;
    e.touched.clear();
    take_watches(e);
    injector()=Injector();
    injector().countdown=k;
    std::size_t live0=live_elements();
    (void)live0;
    trace("-- faulty operation, fault point %ld",k);
    bool threw=false;
    try{o->fn(e);}
    catch(const Injected&){threw=true;}
    catch(const std::bad_alloc&){threw=true;}
    if(k<0){
      PCV_CHECK(!threw,"unexpected-exception","%s threw without any fault",o->name);
      points=injector().ticks;
      injector()=Injector();
      after_op(e);
      if(points==0)stats().add("no_fault_points");
    }
    else{
      bool fired=injector().fired;
      int kind=injector().fired_kind;
      injector()=Injector();
      PCV_CHECK(fired||!threw,"unexpected-exception","%s threw without any fault",o->name);
      if(fired){
        if(threw)after_fault(e);
        else{after_op(e);stats().add("faults_absorbed");} // e.g. shrink_to_fit is not binding
        stats().add("faults_injected");
        static const char* const kinds[]={"fault_constructor","fault_copy","fault_move","fault_assign","fault_alloc","fault_eq"};
        stats().add(kinds[kind]);
        sig(70,mix(o-g_ops.data(),e.last_variant),e.last_ti+1,kind,std::min<long>(k,6));
        // what was tried can be done again, and everything else still works
        int more=2+int(e.r.below(5));
        step(e,*o);
        for(int i=0;i<more;++i)step(e,choose(e));
      }
      else after_op(e);
    }
    finish(e);
    }
  }
}
static void body(u64 seed,long i)
{
  setup();
  if(config().mode=="fault")fault_case(seed,i);
  else random_case(seed,i);
}
}
int main(int argc,char** argv){return pcv::drive(argc,argv,&pcv::body);}
