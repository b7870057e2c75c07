#include "scale.hpp"
namespace pcv{
long alive[NTY];
long fail_at=-1;
enum{NFULL=6}; // types with all variants of operations; those of large segments
struct M
{
  std::array<bool,NTY> reg{};
  std::array<Seg,NTY> seg;
  std::size_t size()const{std::size_t n=0;for(auto& s:seg)n+=s.size();return n;}
};
struct Slot{Col c;M m;};

static int next_val;
static Seg fresh(std::size_t n){Seg s(n);for(auto& x:s)x=next_val++;return s;}

/* what needs the static type */
struct Ops
{
  const std::type_info* info;
  void(*reg)(Col&);
  bool(*is_reg)(const Col&);
  // inserts the values at pos; returns position reported
  std::size_t(*insert)(Col&,Rng&,std::size_t pos,const Seg&);
  std::size_t(*erase)(Col&,std::size_t i,std::size_t j,bool typed);
  void(*append)(Col&,const Seg&,int how);
  void(*check)(const Col&,const Seg&);
  void(*reserve)(Col&,std::size_t n);
  std::size_t(*capacity)(const Col&);
  const void*(*data)(const Col&);
};
template<int I> struct Typed
{
  typedef T<I> E;
  static void reg(Col& c){c.template register_types<E>();}
  static bool is_reg(const Col& c){return c.template is_registered<E>();}
  static std::size_t insert(Col& c,Rng& r,std::size_t pos,const Seg& s)
  {
    if constexpr(I>=NFULL){
      for(std::size_t k=0;k<s.size();++k)c.emplace_pos(c.template cbegin<E>()+(pos+k),s[k]);
      return pos;
    }
    else switch(r.below(4)){
    case 0:{std::vector<E> v;v.reserve(s.size());for(int x:s)v.emplace_back(x);
      auto it=c.insert(c.template cbegin<E>()+pos,v.begin(),v.end());
      return std::size_t(it-c.template begin<E>());}
    case 1:{std::list<E> v;for(int x:s)v.emplace_back(x);
      auto it=c.insert(c.begin(typeid(E))+pos,v.begin(),v.end());
      return std::size_t(it-c.begin(typeid(E)));}
    case 2:{Col d;for(int x:s)d.template emplace<E>(x);
      auto it=c.insert(c.template cbegin<E>()+pos,d.begin(),d.end());
      return std::size_t(it-c.template begin<E>());}
    default:{Col d;d.template register_types<E>();for(int x:s)d.template emplace<E>(x);
      auto it=c.insert(c.cbegin(typeid(E))+pos,std::make_move_iterator(d.template begin<E>()),std::make_move_iterator(d.template end<E>()));
      return std::size_t(it-c.begin(typeid(E)));}
    }
  }
  static std::size_t erase(Col& c,std::size_t i,std::size_t j,bool typed)
  {
    if constexpr(I<NFULL)if(typed){
      auto it=c.erase(c.template begin<E>()+i,c.template begin<E>()+j);
      return std::size_t(it-c.template begin<E>());
    }
    auto it=c.erase(c.cbegin(typeid(E))+i,c.cbegin(typeid(E))+j);
    return std::size_t(it-c.begin(typeid(E)));
  }
  static void append(Col& c,const Seg& s,int how)
  {
    if constexpr(I>=NFULL){for(int x:s)c.template emplace<E>(x);}
    else switch(how){
    case 0:for(int x:s)c.template emplace<E>(x);break;
    case 1:for(int x:s)c.insert(E(x));break;
    case 2:for(int x:s){const E e(x);c.insert(e);}break;
    default:{std::vector<E> v;v.reserve(s.size());for(int x:s)v.emplace_back(x);c.insert(v.begin(),v.end());}
    }
  }
  static void check(const Col& c,const Seg& s)
  {
    PCV_CHECK(c.template size<E>()==s.size()&&c.size(alias_of(typeid(E),I%7))==s.size(),"views","type %d: size %zu, expected %zu",I,c.template size<E>(),s.size());
    PCV_CHECK(c.template empty<E>()==s.empty(),"views","type %d: empty",I);
    PCV_CHECK(c.template capacity<E>()>=s.size(),"capacity","type %d: capacity below size",I);
    auto f=c.template begin<E>(),l=c.template end<E>();
    PCV_CHECK(std::size_t(l-f)==s.size(),"views","type %d: %zd elements by type, expected %zu",I,std::ptrdiff_t(l-f),s.size());
    std::size_t k=0;
    for(auto it=f;it!=l;++it,++k)if(it->v!=s[k])violation("content","type %d: element %zu of %zu is %d, expected %d",I,k,s.size(),it->v,s[k]);
    k=0;
    auto bl=c.end(typeid(E));
    for(auto it=c.begin(typeid(E));it!=bl;++it,++k)if(k>=s.size()||(*it)(0)!=s[k])violation("views","type %d: element %zu of %zu differs in local traversal",I,k,s.size());
    PCV_CHECK(k==s.size(),"views","type %d: local traversal of %zu elements, expected %zu",I,k,s.size());
    checks_done()+=2*s.size();
    if(!s.empty()){ // arithmetic over long distances
      std::size_t a=(s.size()*7)/11,b=(s.size()*3)/5;
      PCV_CHECK((f+a)->v==s[a]&&f[std::ptrdiff_t(b)].v==s[b]&&(l-std::ptrdiff_t(s.size()-a))->v==s[a]&&(f+a)-(f+b)==std::ptrdiff_t(a)-std::ptrdiff_t(b),"iterators","type %d: arithmetic",I);
      auto bf=c.begin(typeid(E));
      PCV_CHECK((*(bf+a))(0)==s[a]&&(bl-bf)==std::ptrdiff_t(s.size())&&((bf+a)<(bf+b))==(a<b)&&(*(bl-std::ptrdiff_t(s.size()-b)))(0)==s[b],"iterators","type %d: local base arithmetic",I);
    }
  }
  static void reserve(Col& c,std::size_t n){c.template reserve<E>(n);}
  static std::size_t capacity(const Col& c){return c.template capacity<E>();}
  static const void* data(const Col& c){return c.template begin<E>()==c.template end<E>()?nullptr:(const void*)std::addressof(*c.template begin<E>());}
  static Ops ops(){return {&typeid(E),&reg,&is_reg,&insert,&erase,&append,&check,&reserve,&capacity,&data};}
};
template<int... I> static std::array<Ops,NTY> make_ops(std::integer_sequence<int,I...>){return {{Typed<I>::ops()...}};}
static const std::array<Ops,NTY>& ops(){static const auto o=make_ops(std::make_integer_sequence<int,NTY>());return o;}
static int index_of(const std::type_info& i){for(int k=0;k<NTY;++k)if(*ops()[k].info==i)return k;return -1;}

struct Run
{
  Rng& r;
  bool tall;
  Slot s[2];
  std::vector<int> pool;     // types in use
  std::size_t limit;

  // addresses of segments whose memory must not move
  std::array<const void*,NTY> at[2];

  explicit Run(Rng& r):r(r),tall(r.chance(1,4))
  {
    static const std::size_t L[]={300,300,300,1000,1000,5000,5000,20000,70000};
    limit=tall?L[r.below(sizeof(L)/sizeof(L[0]))]:12;
    std::vector<int> t(NTY);for(int k=0;k<NTY;++k)t[k]=k;
    for(int k=tall?NFULL:NTY;k>1;--k)std::swap(t[k-1],t[r.below(k)]);
    pool.assign(t.begin(),t.begin()+(tall?1+r.below(3):10+r.below(NTY-9)));
    next_val=1;
  }
  std::size_t amount()
  {
    if(!tall)return r.below(7);
    switch(r.below(4)){case 0:return r.below(4);case 1:return r.below(40);case 2:return r.below(limit/4+1);default:return limit/3+r.below(limit/2);}
  }
  void note(int k){for(int t=0;t<NTY;++t)at[k][t]=s[k].m.reg[t]?ops()[t].data(s[k].c):nullptr;}
  Seg observe(int k)
  {
    const Col& c=s[k].c;M& m=s[k].m;
    Seg flat;
    std::size_t n=0;
    std::array<bool,NTY> seen{};
    for(auto sg:c.segment_traversal()){
      int t=index_of(sg.type_info());
      PCV_CHECK(t>=0&&!seen[t],"views","segment traversal: repeated or unknown type");
      PCV_CHECK(m.reg[t],"registration","segment of type %d which is not registered",t);
      seen[t]=true;
      flat.insert(flat.end(),m.seg[t].begin(),m.seg[t].end());
      std::size_t q=0;
      for(auto& x:sg){if(q>=m.seg[t].size()||x(0)!=m.seg[t][q])violation("views","segment traversal: type %d, element %zu",t,q);++q;}
      PCV_CHECK(q==m.seg[t].size(),"views","segment traversal: type %d has %zu elements, expected %zu",t,q,m.seg[t].size());
      ++n;
    }
    for(int t=0;t<NTY;++t){
      PCV_CHECK(ops()[t].is_reg(c)==m.reg[t]&&c.is_registered(alias_of(*ops()[t].info,unsigned(r.below(40))))==m.reg[t],"registration","type %d registered: %d, expected %d",t,int(ops()[t].is_reg(c)),int(m.reg[t]));
      PCV_CHECK(seen[t]==m.reg[t],"registration","segment of type %d missing",t);
      if(m.reg[t])ops()[t].check(c,m.seg[t]);
      else{
        bool threw=false;
        try{(void)c.size(alias_of(*ops()[t].info,3));}catch(const bpc::unregistered_type& e){threw=*e.pinfo==*ops()[t].info;}
        PCV_CHECK(threw,"missing-exception","size of unregistered type %d",t);
      }
    }
    std::size_t q=0;
    for(auto& x:c){if(q>=flat.size()||x(0)!=flat[q])violation("views","global traversal: element %zu of %zu",q,flat.size());++q;}
    PCV_CHECK(q==flat.size()&&c.size()==q&&c.empty()==(q==0),"views","global traversal of %zu elements, size %zu, expected %zu",q,c.size(),flat.size());
    checks_done()+=3*flat.size();
    return flat;
  }
  // segments of collection k other than the given ones keep their addresses
  void stable(int k,std::array<bool,NTY> touched)
  {
    for(int t=0;t<NTY;++t)if(!touched[t]&&at[k][t])
      PCV_CHECK(ops()[t].data(s[k].c)==at[k][t],"stability","segment of type %d moved",t);
  }
  void live()
  {
    for(int t=0;t<NTY;++t){
      long want=long(s[0].m.seg[t].size()+s[1].m.seg[t].size());
      PCV_CHECK(alive[t]==want,"lifetime","type %d: %ld objects alive, expected %ld",t,alive[t],want);
    }
  }
  void step()
  {
    int k=int(r.below(2));
    Slot& x=s[k];Slot& y=s[1-k];
    int t=pool[r.below(pool.size())];
    const Ops& o=ops()[t];
    auto& sg=x.m.seg[t];
    note(0);note(1);
    std::array<bool,NTY> tx{},ty{};
    int op=int(r.below(15));
    u64 grown=0;
    switch(op){
    case 0:case 1:{
      Seg v=fresh(amount());
      if(sg.size()>=limit)v.resize(v.empty()?0:1);
      int how=int(r.below(4));
      trace("s%d: append %zu of type %d (%d)",k,v.size(),t,how);
      auto cap=x.m.reg[t]?o.capacity(x.c):0;
      o.append(x.c,v,how);
      sg.insert(sg.end(),v.begin(),v.end());
      if(!v.empty())x.m.reg[t]=true;
      x.m.reg[t]=x.m.reg[t]||o.is_reg(x.c);
      tx[t]=sg.size()>cap;grown=tx[t];
      break;}
    case 2:{
      if(sg.size()>=limit)break;
      o.reg(x.c);x.m.reg[t]=true;
      Seg v=fresh(amount());
      auto pos=r.below(sg.size()+1);
      trace("s%d: insert %zu of type %d at %zu of %zu",k,v.size(),t,pos,sg.size());
      auto cap=o.capacity(x.c);
      auto got=o.insert(x.c,r,pos,v);
      PCV_CHECK(got==pos,"position","returned iterator at %zu, expected %zu",got,pos);
      sg.insert(sg.begin()+pos,v.begin(),v.end());
      tx[t]=sg.size()>cap;grown=tx[t];
      break;}
    case 3:{
      if(!x.m.reg[t])break;
      auto i=r.below(sg.size()+1),j=i+r.below(sg.size()-i+1);
      if(r.chance(1,2)&&i<sg.size())j=i+1;
      trace("s%d: erase [%zu,%zu) of %zu of type %d",k,i,j,sg.size(),t);
      auto cap=o.capacity(x.c);
      auto got=o.erase(x.c,i,j,r.chance(1,2));
      PCV_CHECK(got==i,"position","returned iterator at %zu, expected %zu",got,i);
      PCV_CHECK(o.capacity(x.c)==cap,"capacity","capacity changed by erasure");
      sg.erase(sg.begin()+i,sg.begin()+j);
      tx[t]=sg.empty();
      break;}
    case 4:{ // over segments
      std::vector<int> order;
      for(auto q:const_cast<const Col&>(x.c).segment_traversal())order.push_back(index_of(q.type_info()));
      std::size_t n=x.m.size(),i=r.below(n+1),j=i+r.below(n-i+1);
      trace("s%d: erase [%zu,%zu) of %zu",k,i,j,n);
      auto f=x.c.cbegin();std::advance(f,i);
      auto l=f;std::advance(l,j-i);
      auto it=x.c.erase(f,l);
      PCV_CHECK(std::size_t(std::distance(x.c.begin(),it))==i&&std::size_t(std::distance(it,x.c.end()))==n-j,"position","returned iterator does not follow the erased elements");
      std::size_t p=0;
      for(int q:order){
        auto& g=x.m.seg[q];
        std::size_t a=std::max(p,i),b=std::min(p+g.size(),j),z=g.size();
        if(a<b){g.erase(g.begin()+(a-p),g.begin()+(b-p));tx[q]=g.empty();}
        p+=z;
      }
      break;}
    case 5:{
      trace("s%d = copy of s%d",k,1-k);
      Col c(y.c);
      PCV_CHECK(c==y.c&&!(c!=y.c),"equality","copy differs from its source");
      x.c=std::move(c);x.m=y.m;
      tx.fill(true);
      break;}
    case 6:{
      trace("s%d = s%d",k,1-k);
      x.c=y.c;
      std::array<bool,NTY> was=x.m.reg;
      x.m=y.m;(void)was;
      tx.fill(true);
      break;}
    case 7:{
      trace("swap");
      swap(x.c,y.c);std::swap(x.m,y.m);std::swap(at[0],at[1]);
      break;}
    case 8:{
      trace("s%d = move(s%d)",k,1-k);
      x.c=std::move(y.c);x.m=std::move(y.m);
      at[k]=at[1-k];
      y.c=Col();y.m=M();
      ty.fill(true);
      break;}
    case 9:{
      if(x.m.size()+y.m.size()>limit*pool.size()*2)break;
      // all of the other collection's elements
      for(int q=0;q<NTY;++q)if(y.m.reg[q]&&!y.m.seg[q].empty()){ops()[q].reg(x.c);x.m.reg[q]=true;}
      trace("s%d: insert all %zu elements of s%d",k,y.m.size(),1-k);
      x.c.insert(y.c.begin(),y.c.end());
      for(int q=0;q<NTY;++q)if(!y.m.seg[q].empty()){x.m.seg[q].insert(x.m.seg[q].end(),y.m.seg[q].begin(),y.m.seg[q].end());tx[q]=true;}
      break;}
    case 10:{
      bool want=true;
      for(int q=0;q<NTY;++q)if(x.m.seg[q]!=y.m.seg[q])want=false;
      trace("s%d == s%d (%d)",k,1-k,int(want));
      PCV_CHECK((x.c==y.c)==want&&(y.c==x.c)==want&&(x.c!=y.c)==!want,"equality","comparison is not %d",int(want));
      break;}
    case 11:{
      auto n=amount();
      if(r.chance(1,2)){trace("s%d: reserve(%zu)",k,n);x.c.reserve(n);
        for(int q=0;q<NTY;++q)if(x.m.reg[q])PCV_CHECK(ops()[q].capacity(x.c)>=n,"capacity","reserve had no effect on type %d",q);
        tx.fill(true);}
      else{trace("s%d: reserve(type %d,%zu)",k,t,n);o.reserve(x.c,n);x.m.reg[t]=true;tx[t]=true;PCV_CHECK(o.capacity(x.c)>=n,"capacity","reserve had no effect");}
      break;}
    case 12:{
      switch(r.below(4)){
      case 0:trace("s%d: clear",k);x.c.clear();for(int q=0;q<NTY;++q){tx[q]=true;x.m.seg[q].clear();}break;
      case 1:if(!x.m.reg[t])break;trace("s%d: clear(type %d)",k,t);x.c.clear(alias_of(*o.info,2));sg.clear();tx[t]=true;break;
      case 2:trace("s%d: shrink_to_fit",k);x.c.shrink_to_fit();tx.fill(true);break;
      default:trace("s%d: register all",k);for(int q:pool){ops()[q].reg(x.c);x.m.reg[q]=true;}
      }
      break;}
    case 14:{ // allocation failures
      if(x.m.size()+y.m.size()>2000)break;
      static const char* const what[]={"register","emplace","reserve","copy","copy assignment"};
      const int w=int(r.below(5));
      trace("s%d: %s (type %d), allocations failing in turn",k,what[w],t);
      const Seg v=fresh(1);
      long f=long(r.below(3)),fails=0;
      for(;;f+=1+long(r.below(w<3?1:6))){
        bool threw=false;
        fail_at=f;
        try{
          switch(w){
          case 0:for(int q:pool)ops()[q].reg(x.c);break;
          case 1:o.append(x.c,v,0);break;
          case 2:x.c.reserve(x.m.size()+5);break;
          case 3:{Col c(y.c);fail_at=-1;PCV_CHECK(c==y.c,"equality","copy differs from its source");break;}
          default:x.c=y.c;break;
          }
        }
        catch(const std::bad_alloc&){threw=true;}
        fail_at=-1;
        if(threw){
          ++fails;
          if(w<4){ // types may have been registered, contents are as they were
            for(int q=0;q<NTY;++q)if(!x.m.reg[q]&&ops()[q].is_reg(x.c))x.m.reg[q]=true;
          }
          else{ // contents unspecified, but usable
            std::size_t n=0,l=0;
            for(auto& e:x.c){(void)e(0);++n;}
            for(int q=0;q<NTY;++q)if(ops()[q].is_reg(x.c))l+=x.c.size(*ops()[q].info);
            PCV_CHECK(n==l&&n==x.c.size(),"views","views differ after a failed assignment: %zu, %zu, %zu",n,l,x.c.size());
            if(r.chance(1,2)){x.c.clear();for(int q:pool)ops()[q].reg(x.c);}
            x.c=Col();x.m=M();
          }
          observe(k);observe(1-k);live();
        }
        else break;
      }
      stats().add("allocation_failures",fails);
      switch(w){
      case 0:for(int q:pool)x.m.reg[q]=true;break;
      case 1:sg.insert(sg.end(),v.begin(),v.end());x.m.reg[t]=true;break;
      case 3:break;
      case 4:x.m=y.m;break;
      }
      if(w==1)tx[t]=true;
      else if(w!=0)tx.fill(true);
      break;}
    case 13:{ // equal but for one value
      trace("s%d: copy and change",k);
      Col c(x.c);
      if(x.m.reg[t]&&!sg.empty()){
        auto i=r.below(sg.size());
        o.erase(c,i,i+1,true);
        PCV_CHECK(c!=x.c&&x.c!=c,"equality","collections of different size compare equal");
        o.insert(c,r,i,Seg{sg[i]+(r.chance(1,2)?1:0)});
        // one of both values was inserted
        bool want=true;
        auto it=c.begin(*o.info)+i;
        want=(*it)(0)==sg[i];
        PCV_CHECK((c==x.c)==want,"equality","comparison is not %d",int(want));
      }
      break;}
    }
    stats().add("operations");
    if(grown)stats().add("growths");
    stable(k,tx);stable(1-k,ty);
    live();
    Seg f=observe(k);
    std::size_t types=0;for(bool b:x.m.reg)types+=b;
    if(stats().n["max_elements"]<f.size())stats().n["max_elements"]=f.size();
    if(stats().n["max_types"]<types)stats().n["max_types"]=types;
    auto lg=[](std::size_t n){int l=0;while(n){++l;n/=2;}return l;};
    stats().sig.insert(mix(mix(op,lg(f.size())),types/4));
    algorithms(x.c,f,r);
    if(op>=5&&op<=9)observe(1-k);
  }
  void go()
  {
    int n=tall?int(4+r.below(limit>2000?6:14)):int(10+r.below(30));
    while(n--)step();
  }
};
static void body(u64 seed,long)
{
  Rng r(seed);
  {Run x(r);x.go();}
  for(int t=0;t<NTY;++t)PCV_CHECK(alive[t]==0,"lifetime","type %d: %ld elements not destroyed",t,alive[t]);
}
}
int main(int argc,char** argv){return pcv::drive(argc,argv,&pcv::body);}
