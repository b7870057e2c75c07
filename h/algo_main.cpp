#include "algo.hpp"
namespace pcv{
Ctx* cur=nullptr;
std::vector<AlgEntry>& table(){static auto* t=new std::vector<AlgEntry>;return *t;}

std::vector<Key> some_keys(std::size_t max)
{
  std::vector<Key> y;
  for(std::size_t n=cur->r.below(max+1);n--;)y.push_back(Key(int(cur->r.below(8))));
  y.shrink_to_fit();
  return y;
}
std::vector<Key> near_keys(std::size_t i,std::size_t j)
{
  std::vector<Key> y;
  for(std::size_t k=i;k<j;++k)y.push_back(Key(cur->seq[k].key));
  switch(cur->r.below(6)){
  case 0:y.push_back(Key(1));break;
  case 1:if(!y.empty())y.pop_back();break;
  case 2:if(!y.empty())y[cur->r.below(y.size())].k^=1;break;
  case 3:y.resize(cur->r.below(y.size()+1));break;
  }
  y.shrink_to_fit();
  return y;
}
template<int I> static void fill(Rng& r,Col& c,std::size_t n,int domain,int& id)
{
  for(;n--;)c.emplace<E<I>>(int(r.below(domain)),id++);
}
static void populate(Rng& r,Col& c,int id,std::size_t max,int domain)
{
  std::size_t n[4];
  for(auto& x:n)x=r.chance(1,4)?0:r.below(max)+1;
  int shape=int(r.below(8)); // a few special shapes
  if(shape==0)for(auto& x:n)x=0;
  if(shape==1){for(auto& x:n)x=0;n[r.below(4)]=1+r.below(max);}
  if(shape==2)for(auto& x:n)x=1;
  // registering in different orders, also types which get no elements
  unsigned ord[4]={0,1,2,3};
  for(int k=4;k-->1;)std::swap(ord[k],ord[r.below(k+1)]);
  for(unsigned t:ord){
    if(!n[t]&&r.chance(1,2))continue;
    switch(t){
    case 0:c.register_types<E<0>>();fill<0>(r,c,n[0],domain,id);break;
    case 1:c.register_types<E<1>>();fill<1>(r,c,n[1],domain,id);break;
    case 2:c.register_types<E<2>>();fill<2>(r,c,n[2],domain,id);break;
    case 3:c.register_types<E<3>>();fill<3>(r,c,n[3],domain,id);break;
    }
  }
  if(r.chance(1,6))c.register_types<E<4>>();
}
static void describe(Col& c,std::vector<Info>& v)
{
  const Col& cc=c;
  for(auto si=cc.segment_traversal().begin();si!=cc.segment_traversal().end();++si)
    for(auto& x:*si){Probe p;x(p);v.push_back({p.key,p.id,p.ti,p.self,(const void*)std::addressof(x)});}
}
// sizes beyond the range of narrow count types
static void large_case(u64 seed)
{
  Ctx x;
  cur=&x;
  x.r=Rng(seed);
  Rng& r=x.r;
  populate(r,x.c,0,245,3); // ids stay below 1000
  describe(x.c,x.seq);
  const std::size_t n=x.seq.size();
  x.index.assign(n,-1);
  for(std::size_t k=0;k<n;++k)x.index[x.seq[k].id]=int(k);
  for(auto it=x.c.begin();;++it){x.its.push_back(it);if(it==x.c.end())break;}
  PCV_CHECK(x.its.size()==n+1,"views","global traversal has wrong length");
  trace("large collection: %zu elements",n);
  for(int t=0;t<4;++t){
    x.i=r.below(n+1);x.j=x.i+r.below(n-x.i+1);
    if(t==0){x.i=0;x.j=n;}
    x.mask=r.chance(1,2)?1|4:0;x.alg="large";
    std::size_t len=x.j-x.i;
    auto f=x.its[x.i],l=x.its[x.j];
    const unsigned char c8=(unsigned char)std::min<std::size_t>(len,r.below(256));
    const std::size_t m=c8;
    {
      x.alg="copy_n";
      std::vector<Rec> o,w;
      for(std::size_t k=0;k<m;++k)w.push_back({int(x.i+k),false,0});
      auto e=x.mask?bpc::copy_n<E<0>,E<2>>(f,c8,Sink(o)):bpc::copy_n(f,c8,Sink(o));
      expect_out(o,w,e.pos);
    }
    {
      x.alg="for_each_n";
      std::size_t k=x.i;bool ok=true;
      auto fn=[&](auto& y){ok=ok&&std::size_t(x.note(y))==k;++k;};
      auto e=x.mask?bpc::for_each_n<E<0>,E<2>>(f,c8,fn):bpc::for_each_n(f,c8,fn);
      PCV_CHECK(ok&&k==x.i+m,"algorithm-result","%s: n=%zu: wrong elements visited",x.where().c_str(),m);
      expect_res(posof(e),x.i+m);
    }
    {
      x.alg="sample";
      std::mt19937 g(unsigned(r.next()));
      std::vector<Rec> o;
      auto e=x.mask?bpc::sample<E<0>,E<2>>(f,l,Sink(o),c8,g):bpc::sample(f,l,Sink(o),c8,g);
      PCV_CHECK(o.size()==m&&e.pos==m,"algorithm-output","%s: sample of %zu wrote %zu (end %zu)",x.where().c_str(),m,o.size(),e.pos);
      for(std::size_t k=1;k<o.size();++k)PCV_CHECK(o[k-1].idx<o[k].idx,"algorithm-output","%s: sample not a subsequence of the range",x.where().c_str());
      // a sample of at least 30 elements hits the last three quarters but for a chance below 10^-17
      if(m>=30&&len>=600)PCV_CHECK(std::size_t(o.back().idx)>=x.i+len/4,"sample-distribution","%s: sample of %zu confined to the first quarter",x.where().c_str(),m);
    }
    {
      x.alg="count";x.calls=0;
      std::size_t w=0;
      for(std::size_t k=x.i;k<x.j;++k)w+=x.seq[k].key==1;
      x.cst=false;
      auto e=x.mask?bpc::count<E<0>,E<2>>(f,l,Key(1)):bpc::count(f,l,Key(1));
      expect_res(std::size_t(e),w);
    }
    {
      x.alg="search_n";
      std::vector<int> ks;for(std::size_t k=x.i;k<x.j;++k)ks.push_back(x.seq[k].key);
      unsigned char q=(unsigned char)r.below(8);
      std::size_t w=q?std::search_n(ks.begin(),ks.end(),q,1)-ks.begin():0;
      auto e=x.mask?bpc::search_n<E<0>,E<2>>(f,l,q,Key(1)):bpc::search_n(f,l,q,Key(1));
      expect_res(posof(e),x.i+w);
    }
    stats().sig.insert(mix(mix(x.i,x.j),mix(c8,KIND+77)));
  }
  stats().add("large");
  cur=nullptr;
}
static void algo_case(u64 seed,long index)
{
  if(index%16==9){large_case(seed);return;}
  if(table().empty()){add_group_a();add_group_b();add_group_c();add_group_d();}
  Ctx x;
  cur=&x;
  x.r=Rng(seed);
  Rng& r=x.r;
  int domain=1+int(r.below(4));
  populate(r,x.c,0,4,domain);
  populate(r,x.c2,1000,3,domain);
  describe(x.c,x.seq);describe(x.c2,x.seq2);
  x.index.assign(x.seq.size(),-1);
  for(std::size_t k=0;k<x.seq.size();++k)x.index[x.seq[k].id]=int(k);
  x.index2.assign(x.seq2.size(),-1);
  for(std::size_t k=0;k<x.seq2.size();++k)x.index2[x.seq2[k].id-1000]=int(k);
  // iterators
  for(auto it=x.c.begin();;++it){x.its.push_back(it);if(it==x.c.end())break;}
  for(auto it=x.c.cbegin();;++it){x.cits.push_back(it);if(it==x.c.cend())break;}
  for(auto it=x.c2.begin();;++it){x.its2.push_back(it);if(it==x.c2.end())break;}
  const std::size_t n=x.seq.size();
  PCV_CHECK(x.its.size()==n+1&&x.cits.size()==n+1&&x.its2.size()==x.seq2.size()+1,"views","global traversal has wrong length");
  for(std::size_t k=0;k<n;++k){
    Probe p;(*x.its[k])(p);
    PCV_CHECK(p.self==x.seq[k].self,"views","global traversal order differs from segment traversal at %zu",k);
  }
  std::string shape;
  for(auto& f:x.seq)shape+=char('0'+f.ti);
  trace("collection: %s, key domain %d",shape.c_str(),domain);
  auto& t=table();
  const int nl=int(std::max_element(t.begin(),t.end(),[](const AlgEntry& a,const AlgEntry& b){return a.list<b.list;})->list)+1;
  u64 sh=0;for(char ch:shape)sh=mix(sh,ch);
  for(x.i=0;x.i<=n;++x.i)for(x.j=x.i;x.j<=n;++x.j){
    if(n>7&&!r.chance(config().thorough?60:36,unsigned((n+1)*(n+2)/2)))continue;
    // fresh predicates
    unsigned dens=unsigned(r.below(5));
    x.table.assign(n+1,0);for(auto& b:x.table)b=r.chance(dens,4);
    dens=unsigned(1+r.below(3));
    x.rel.assign((n+1)*8,0);for(auto& b:x.rel)b=r.chance(dens,4);
    dens=unsigned(r.below(4));
    x.rel2.assign((n+1)*64,0);for(auto& b:x.rel2)b=r.chance(dens,8);
    x.mod=1+int(r.below(3));
    int list=int(r.below(nl));
    bool cst=r.chance(1,2);
    for(auto& e:t){
      if(e.list!=list||e.cst!=cst)continue;
      x.alg=e.name;x.mask=e.mask;x.cst=e.cst;x.calls=0;
      if(config().verbose)trace("%s",x.where().c_str());
      e.run();
      stats().add(e.name);
      stats().sig.insert(mix(mix(mix(sh,x.i*64+x.j),mix(e.mask,e.cst)),mix(&e-t.data(),KIND)));
    }
  }
  cur=nullptr;
}
}
int main(int argc,char** argv){return pcv::drive(argc,argv,&pcv::algo_case);}
