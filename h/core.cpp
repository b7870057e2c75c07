#include "core.hpp"
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <signal.h>
#include <sys/time.h>
#include <new>

namespace pcv{

static std::vector<std::string>& lines(){static auto* v=new std::vector<std::string>;return *v;}
static long g_index=-1;
static u64  g_case_seed=0;
static std::string g_stats_path,g_progress_path;
static int g_progress_fd=-1;

u64& checks_done(){static u64 n=0;return n;}
Counters& counters(){static Counters c;return c;}
Injector& injector(){static Injector i;return i;}
Stats& stats(){static Stats* s=new Stats;return *s;}
Config& config(){static Config* c=new Config;return *c;}

void violation(const char* oracle,const char* fmt,...)
{
  injector().armed=false;
  std::printf("MONITOR-VIOLATION oracle=%s case=%ld case_seed=%llu: ",oracle,g_index,
    (unsigned long long)g_case_seed);
  va_list ap;va_start(ap,fmt);std::vprintf(fmt,ap);va_end(ap);
  std::printf("\n-- operations of this case:\n%s-- end\n",trace_text().c_str());
  std::fflush(stdout);
  _exit(1);
}

void trace(const char* fmt,...)
{
  char buf[600];
  va_list ap;va_start(ap,fmt);std::vsnprintf(buf,sizeof buf,fmt,ap);va_end(ap);
  if(lines().size()<4000)lines().push_back(buf);
  if(config().verbose){std::printf("  %s\n",buf);std::fflush(stdout);}
}
void trace_reset(){lines().clear();}
std::string trace_text()
{
  std::string s;
  for(auto& l:lines()){s+="   ";s+=l;s+='\n';}
  return s;
}

/* ---- lifetimes ---- */

static std::unordered_map<const void*,int>& reg()
{
  static auto* m=new std::unordered_map<const void*,int>;return *m;
}
struct Suspend{Suspend(){++injector().suspend;}~Suspend(){--injector().suspend;}};

static void born(Tracker* p,int ti)
{
  auto r=reg().insert({p,ti});
  if(!r.second)violation("lifetime","object of type %d constructed over live object of type %d at %p",
    ti,r.first->second,(void*)p);
}
static void need_live(const Tracker* p,const char* what)
{
  auto it=reg().find(p);
  if(it==reg().end())violation("lifetime","%s: no live element at %p",what,(const void*)p);
  if(it->second!=(int)p->ti)violation("lifetime","%s: element at %p overwritten (type %d, registered as %d)",
    what,(const void*)p,(int)p->ti,it->second);
  if(p->st!=ALIVE&&p->st!=MOVED)violation("lifetime","%s: element at %p corrupt",what,(const void*)p);
}
Tracker::Tracker(u64 v,int ti):val(v),ti(ti),st(ALIVE){++counters().ctor;born(this,ti);}
Tracker::Tracker(const Tracker& x,int ti_):val(x.val),ti(ti_),st(x.st)
{
  need_live(&x,"copy construction source");++counters().copy;born(this,ti_);
}
Tracker::Tracker(Tracker&& x,int ti_):val(x.val),ti(ti_),st(x.st)
{
  need_live(&x,"move construction source");++counters().move;born(this,ti_);x.st=MOVED;
}
Tracker& Tracker::operator=(const Tracker& x)
{
  need_live(this,"copy assignment target");need_live(&x,"copy assignment source");
  ++counters().assign;val=x.val;st=x.st;return *this;
}
Tracker& Tracker::operator=(Tracker&& x)
{
  need_live(this,"move assignment target");need_live(&x,"move assignment source");
  ++counters().assign;
  if(this!=&x){val=x.val;st=x.st;x.st=MOVED;}
  return *this;
}
Tracker::~Tracker()
{
  need_live(this,"destruction");++counters().dtor;reg().erase(this);st=DEAD;
}
std::size_t live_elements(){return reg().size();}
bool is_live(const Tracker* p,int ti)
{
  auto it=reg().find(p);
  return it!=reg().end()&&it->second==ti;
}
void lifetimes_reset(){reg().clear();}

void tick(FaultKind k)
{
  auto& i=injector();
  if(!i.armed||i.suspend)return;
  ++i.ticks;
  if(i.countdown>=0&&i.countdown--==0){
    i.fired=true;i.fired_kind=k;
    trace("    !! fault injected: kind %d",(int)k);
    if(k==F_ALLOC)throw std::bad_alloc();
    throw Injected{k};
  }
}

/* ---- type_info aliases ---- */

namespace{
struct fake_type_info:std::type_info
{
  explicit fake_type_info(const char* n):std::type_info(n){}
};
}
const std::type_info& alias_of(const std::type_info& info,unsigned n)
{
  static auto* m=new std::map<std::pair<const void*,unsigned>,const std::type_info*>;
  const std::type_info*& p=(*m)[{&info,n%3}];
  if(!p)p=new fake_type_info(strdup(info.name()));
  return *p;
}

/* ---- driver ---- */

static void on_alarm(int)
{
  // the case has used far more CPU time than any case ever does
  const char m[]="HANG: case exceeded its CPU budget\n";
  (void)!write(1,m,sizeof m-1);
  _exit(3);
}

static std::string esc(const std::string& s)
{
  std::string r;
  for(char c:s){
    if(c=='"'||c=='\\'){r+='\\';r+=c;}
    else if(c=='\n')r+="\\n";
    else if((unsigned char)c<32)r+=' ';
    else r+=c;
  }
  return r;
}

int drive(int argc,char** argv,void(*body)(u64,long))
{
  auto& c=config();
  long budget=60;
  for(int i=1;i<argc;++i){
    std::string a=argv[i];
    auto val=[&]()->std::string{return i+1<argc?argv[++i]:"";};
    if(a=="--seed")c.seed=std::strtoull(val().c_str(),0,10);
    else if(a=="--from")c.from=std::atol(val().c_str());
    else if(a=="--to")c.to=std::atol(val().c_str());
    else if(a=="--only")c.only=std::atol(val().c_str());
    else if(a=="--mode")c.mode=val();
    else if(a=="--stats")g_stats_path=val();
    else if(a=="--progress")g_progress_path=val();
    else if(a=="--budget")budget=std::atol(val().c_str());
    else if(a=="--verbose")c.verbose=true;
    else if(a=="--thorough")c.thorough=true;
    else{std::fprintf(stderr,"bad argument %s\n",a.c_str());return 2;}
  }
  if(c.only>=0){c.from=c.only;c.to=c.only+1;}
  if(!g_progress_path.empty())g_progress_fd=open(g_progress_path.c_str(),O_CREAT|O_RDWR|O_TRUNC,0644);
  signal(SIGPROF,on_alarm);
  for(long k=c.from;k<c.to;++k){
    g_index=k;g_case_seed=mix(c.seed,k);
    trace_reset();
    if(g_progress_fd>=0){
      char b[32];int n=std::snprintf(b,sizeof b,"%-20ld\n",k);
      (void)!pwrite(g_progress_fd,b,n,0);
    }
    struct itimerval tv={{0,0},{budget,0}};
    setitimer(ITIMER_PROF,&tv,0);
    try{body(g_case_seed,k);}
    catch(const std::exception& e){violation("unexpected-exception","case ended with exception: %s (%s)",e.what(),typeid(e).name());}
    catch(const Injected&){violation("unexpected-exception","injected fault escaped the operation it was injected into");}
    catch(...){violation("unexpected-exception","case ended with unknown exception");}
    if(stats().samples.size()<2&&(k-c.from)%7==3){
      std::string t=trace_text();
      if(t.size()>1500)t=t.substr(0,1500)+"...";
      stats().samples.push_back("case "+std::to_string(k)+" seed "+std::to_string(g_case_seed)+":\n"+t);
    }
  }
  if(!g_stats_path.empty()){
    FILE* f=std::fopen(g_stats_path.c_str(),"w");
    if(!f)return 2;
    std::fprintf(f,"{\"cases\":%ld,\"checks\":%llu,\"distinct\":[",c.to-c.from,(unsigned long long)checks_done());
    bool first=true;
    for(u64 s:stats().sig){std::fprintf(f,"%s%llu",first?"":",",(unsigned long long)s);first=false;}
    std::fprintf(f,"],\"n\":{");
    first=true;
    for(auto& p:stats().n){std::fprintf(f,"%s\"%s\":%llu",first?"":",",esc(p.first).c_str(),(unsigned long long)p.second);first=false;}
    std::fprintf(f,"},\"samples\":[");
    first=true;
    for(auto& s:stats().samples){std::fprintf(f,"%s\"%s\"",first?"":",",esc(s).c_str());first=false;}
    std::fprintf(f,"]}\n");
    std::fclose(f);
  }
  return 0;
}

}
