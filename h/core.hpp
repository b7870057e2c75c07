// Monitor core: RNG, violation reporting, element lifetime registry, fault
// injector, run statistics. Independent of the library under test.
#ifndef PCV_CORE_HPP
#define PCV_CORE_HPP
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstdarg>
#include <cstddef>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_map>
#include <unordered_set>
#include <typeinfo>
#include <stdexcept>

#pragma GCC visibility push(default)
namespace pcv{

typedef std::uint64_t u64;

struct Rng
{
  u64 s;
  explicit Rng(u64 seed=1):s(seed){}
  u64 next(){u64 z=(s+=0x9E3779B97F4A7C15ull);
    z=(z^(z>>30))*0xBF58476D1CE4E5B9ull;z=(z^(z>>27))*0x94D049BB133111EBull;
    return z^(z>>31);}
  std::size_t below(std::size_t n){return n?std::size_t(next()%n):0;}
  bool chance(unsigned num,unsigned den){return next()%den<num;}
};
inline u64 mix(u64 a,u64 b){Rng r(a*0x9E3779B97F4A7C15ull^(b+0x1234567));r.next();return r.next();}

/* ---- reporting ---- */

// Terminates the process with exit status 1 after printing the violation and
// the operations performed so far by the current case.
[[noreturn]] void violation(const char* oracle,const char* fmt,...)
  __attribute__((format(printf,2,3)));
void trace(const char* fmt,...)__attribute__((format(printf,1,2)));
void trace_reset();

#define PCV_CHECK(cond,oracle,...) \
  do{::pcv::checks_done()++;if(!(cond))::pcv::violation(oracle,__VA_ARGS__);}while(0)
u64& checks_done();

/* ---- element lifetimes ---- */

enum State:std::uint32_t{ALIVE=0xA11FEu,MOVED=0x30FEDu,DEAD=0xDEADu};

struct Counters
{
  u64 ctor=0,copy=0,move=0,assign=0,dtor=0,eq=0,alloc=0,dealloc=0;
  u64 work()const{return ctor+copy+move+assign;}
};
Counters& counters();

// Every element of the zoo holds exactly one Tracker.
struct Tracker
{
  u64 val;
  std::uint32_t ti;
  State st;

  Tracker(u64 v,int ti);
  Tracker(const Tracker& x,int ti);
  Tracker(Tracker&& x,int ti);
  Tracker(const Tracker&)=delete;
  Tracker& operator=(const Tracker& x);
  Tracker& operator=(Tracker&& x);
  ~Tracker();
};

std::size_t live_elements();
// is the given tracker a live registered object of type ti?
bool        is_live(const Tracker* p,int ti);
void        lifetimes_reset();

const u64 moved_mark=~u64(0);

/* ---- faults ---- */

struct Injected{int kind;};
enum FaultKind{F_CTOR,F_COPY,F_MOVE,F_ASSIGN,F_ALLOC,F_EQ,F_KINDS};
struct Injector
{
  bool armed=false;
  long countdown=-1;   // throws when it reaches 0
  long ticks=0;        // fault points passed while armed
  bool fired=false;
  int  fired_kind=-1;
  int  suspend=0;
};
Injector& injector();
void tick(FaultKind k); // may throw Injected (F_ALLOC: std::bad_alloc)
struct Arm // armed for the duration of a library call
{
  Arm(){injector().armed=true;}
  ~Arm(){injector().armed=false;}
};

/* ---- statistics ---- */

struct Stats
{
  std::map<std::string,u64> n;
  std::set<u64> sig;        // signatures of distinct (non trivial) situations
  std::vector<std::string> samples;
  void add(const char* k,u64 d=1){n[k]+=d;}
};
Stats& stats();
std::string trace_text();

/* ---- driver ---- */

struct Config
{
  u64 seed=1;
  long from=0,to=0;
  std::string mode;
  bool verbose=false;
  bool thorough=false;
  long only=-1;
};
Config& config();
// parses the command line, runs body(case_seed,index) for each case, writes
// statistics. Returns process exit status.
int drive(int argc,char** argv,void(*body)(u64 case_seed,long index));

// typeid aliases: distinct std::type_info objects comparing equal to info
const std::type_info& alias_of(const std::type_info& info,unsigned n);

}
#pragma GCC visibility pop
#endif
