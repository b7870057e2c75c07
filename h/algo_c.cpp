// copying algorithms
#include "algo.hpp"
#include <cmath>
namespace pcv{
PCV_CALLER(copy) PCV_CALLER(copy_n) PCV_CALLER(copy_if) PCV_CALLER(move) PCV_CALLER(transform) PCV_CALLER(replace_copy)
PCV_CALLER(replace_copy_if) PCV_CALLER(remove_copy) PCV_CALLER(remove_copy_if) PCV_CALLER(unique_copy) PCV_CALLER(rotate_copy)
PCV_CALLER(sample) PCV_CALLER(partition_copy)
static std::vector<char>& tab(){return cur->table;}
static long len(){return long(cur->j-cur->i);}
template<typename P> std::vector<Rec> keep(P p){std::vector<Rec> w;for(std::size_t k=cur->i;k<cur->j;++k)if(p(int(k)))w.push_back({int(k),false,0});return w;}
static std::vector<Rec> every(){return keep([](int){return true;});}

PCV_ALG(copy_){std::vector<Rec> o;auto r=call_copy()(L(),f,l,Sink(o));expect_out(o,every(),r.pos);}PCV_END
template<typename L,typename It,typename Size> void copy_n_with(const It& f,Size n)
{
  std::vector<Rec> o;auto r=call_copy_n()(L(),f,n,Sink(o));
  auto w=every();w.resize(n>0?std::size_t(n):0);
  expect_out(o,w,r.pos);
}
PCV_ALG(copy_n_){
  (void)l;
  switch(cur->r.below(6)){
  case 0:copy_n_with<L,It,std::size_t>(f,std::size_t(len()));break;
  case 1:copy_n_with<L,It,short>(f,short(len()));break;
  case 2:copy_n_with<L,It,unsigned char>(f,(unsigned char)(len()));break;
  case 3:copy_n_with<L,It,long long>(f,cur->i==cur->j?-3:len());break;
  default:copy_n_with<L,It,int>(f,int(len()));
  }
}PCV_END
PCV_ALG(copy_if_){std::vector<Rec> o;auto r=call_copy_if()(L(),f,l,Sink(o),UPred());expect_out(o,keep([](int k){return tab()[k];}),r.pos);expect_calls(len());}PCV_END
PCV_ALG(move_){std::vector<Rec> o;auto r=call_move()(L(),f,l,Sink(o));expect_out(o,every(),r.pos,true);}PCV_END

struct Op1{template<typename X> Key operator()(X& x){++cur->calls;return Key(cur->note(x)*10+3);}};
struct Op2{template<typename X> Key operator()(X& x,const Key& y)const{++cur->calls;return Key(cur->note(x)*10+y.k);}};
struct OpC{template<typename X,typename Y> Key operator()(X& x,Y& y)const{++cur->calls;int k=cur->note(x),l=cur->note(y);return Key(k*10000+l);}};
PCV_ALG(transform1_){
  std::vector<Rec> o,w;auto r=call_transform()(L(),f,l,Sink(o),Op1());
  for(std::size_t k=cur->i;k<cur->j;++k)w.push_back({-1,false,int(k)*10+3});
  expect_out(o,w,r.pos);expect_calls(len());
}PCV_END
PCV_ALG(transform2_){
  std::vector<Key> y;for(long k=0;k<len();++k)y.push_back(Key(int(cur->r.below(9))));
  y.shrink_to_fit();
  const Key* far=y.data();
  std::vector<Rec> o,w;auto r=call_transform()(L(),f,l,In<Key>(y.data(),&far),Sink(o),Op2());
  for(std::size_t k=cur->i;k<cur->j;++k)w.push_back({-1,false,int(k)*10+y[k-cur->i].k});
  expect_out(o,w,r.pos);expect_calls(len());
}PCV_END
PCV_ALG(transform2c_){
  if(long(cur->seq2.size())<len())return;
  std::size_t a=cur->r.below(cur->seq2.size()-len()+1);
  std::vector<Rec> o,w;auto r=call_transform()(L(),f,l,cur->its2[a],Sink(o),OpC());
  for(std::size_t k=cur->i;k<cur->j;++k)w.push_back({-1,false,int(k)*10000+1000+int(a+k-cur->i)});
  expect_out(o,w,r.pos);expect_calls(len());
}PCV_END
template<typename P> std::vector<Rec> replaced(P p,int k2)
{
  std::vector<Rec> w;
  for(std::size_t k=cur->i;k<cur->j;++k)w.push_back(p(int(k))?Rec{-1,false,k2}:Rec{int(k),false,0});
  return w;
}
PCV_ALG(replace_copy_){
  Key a(int(cur->r.below(4))),b(99);
  std::vector<Rec> o;auto r=call_replace_copy()(L(),f,l,Sink(o),a,b);
  expect_out(o,replaced([&](int k){return cur->seq[k].key==a.k;},99),r.pos);expect_calls(len());
}PCV_END
PCV_ALG(replace_copy_if_){
  Key b(98);
  std::vector<Rec> o;auto r=call_replace_copy_if()(L(),f,l,Sink(o),UPredMut(),b);
  expect_out(o,replaced([&](int k){return tab()[k];},98),r.pos);expect_calls(len());
}PCV_END
PCV_ALG(remove_copy_){
  Key a(int(cur->r.below(4)));
  std::vector<Rec> o;auto r=call_remove_copy()(L(),f,l,Sink(o),a);
  expect_out(o,keep([&](int k){return cur->seq[k].key!=a.k;}),r.pos);expect_calls(len());
}PCV_END
PCV_ALG(remove_copy_if_){
  std::vector<Rec> o;auto r=call_remove_copy_if()(L(),f,l,Sink(o),UPred());
  expect_out(o,keep([&](int k){return !tab()[k];}),r.pos);expect_calls(len());
}PCV_END
template<typename P> std::vector<Rec> uniq(P same)
{
  std::vector<Rec> w;
  for(std::size_t k=cur->i;k<cur->j;++k)if(w.empty()||!same(w.back().idx,int(k)))w.push_back({int(k),false,0});
  return w;
}
PCV_ALG(unique_copy_){
  std::vector<Rec> o;auto r=call_unique_copy()(L(),f,l,Sink(o));
  expect_out(o,uniq([](int a,int b){return cur->seq[a].key==cur->seq[b].key;}),r.pos);
}PCV_END
PCV_ALG(unique_copy_p_){
  std::vector<Rec> o;auto r=call_unique_copy()(L(),f,l,Sink(o),RelKeyEl());
  expect_out(o,uniq([](int a,int b){return cur->seq[a].key%cur->mod==cur->seq[b].key%cur->mod;}),r.pos);
  expect_calls(std::max(0l,len()-1));
}PCV_END
PCV_ALG(rotate_copy_){
  std::size_t m=cur->i+cur->r.below(cur->j-cur->i+1);
  std::vector<Rec> o,w;auto r=call_rotate_copy()(L(),f,iters<It>()[m],l,Sink(o));
  for(std::size_t k=m;k<cur->j;++k)w.push_back({int(k),false,0});
  for(std::size_t k=cur->i;k<m;++k)w.push_back({int(k),false,0});
  expect_out(o,w,r.pos);
}PCV_END
PCV_ALG(partition_copy_){
  std::vector<Rec> o,u;auto r=call_partition_copy()(L(),f,l,Sink(o),Sink(u),UPred());
  expect_out(o,keep([](int k){return tab()[k];}),r.first.pos);
  expect_out(u,keep([](int k){return !tab()[k];}),r.second.pos);
  expect_calls(len());
}PCV_END
template<typename L,typename It,typename Size> void sample_with(const It& f,const It& l,Size n)
{
  std::mt19937 g(unsigned(cur->r.next()));
  std::vector<Rec> o;auto r=call_sample()(L(),f,l,Sink(o),n,g);
  std::size_t want=std::min<std::size_t>(std::size_t(n),std::size_t(len()));
  PCV_CHECK(o.size()==want&&r.pos==want,"algorithm-output","%s: sample of %llu wrote %zu (end %zu)",cur->where().c_str(),(unsigned long long)n,o.size(),r.pos);
  for(std::size_t k=0;k<o.size();++k){
    PCV_CHECK(o[k].idx>=0&&(!k||o[k-1].idx<o[k].idx),"algorithm-output","%s: sample not a subsequence of the range",cur->where().c_str());
    PCV_CHECK(!o[k].moved,"algorithm-output","%s: sample moved an element",cur->where().c_str());
  }
}
PCV_ALG(sample_){
  std::size_t n=cur->r.below(len()+3);
  switch(cur->r.below(8)){
  case 2:sample_with<L,It,std::uint64_t>(f,l,~std::uint64_t(0)>>cur->r.below(50));break; // far more than there are
  case 3:sample_with<L,It,int>(f,l,std::numeric_limits<int>::max()-int(cur->r.below(3)));break;
  case 0:sample_with<L,It,unsigned>(f,l,unsigned(n));break;
  case 1:sample_with<L,It,short>(f,l,short(n));break;
  default:sample_with<L,It,std::ptrdiff_t>(f,l,std::ptrdiff_t(n));
  }
}PCV_END
// every element is equally likely
PCV_ALG(sample_fair_){
  const int n=int(len());
  if(n<3||!cur->r.chance(1,300))return;
  const int take=1+int(cur->r.below(n-1)),rounds=1500;
  std::mt19937 g(unsigned(cur->r.next()));
  std::vector<int> hits(cur->n());
  for(int t=0;t<rounds;++t){
    std::vector<Rec> o;
    call_sample()(L(),f,l,Sink(o),take,g);
    for(auto& x:o)hits[x.idx]++;
  }
  double e=double(rounds)*take/n,sd=std::sqrt(double(rounds)*take/n*(1-double(take)/n));
  for(std::size_t k=cur->i;k<cur->j;++k)
    PCV_CHECK(std::fabs(hits[k]-e)<8*sd+1,"sample-distribution","%s: element %zu sampled %d times of %d draws of %d out of %d",
      cur->where().c_str(),k,hits[k],rounds,take,n);
  stats().add("sample_distributions");
}PCV_END

void add_group_c()
{
  PCV_ADD(copy_);PCV_ADD(copy_n_);PCV_ADD(copy_if_);PCV_ADD(move_);PCV_ADD(transform1_);PCV_ADD(transform2_);PCV_ADD(transform2c_);
  PCV_ADD(replace_copy_);PCV_ADD(replace_copy_if_);PCV_ADD(remove_copy_);PCV_ADD(remove_copy_if_);
  PCV_ADD(unique_copy_);PCV_ADD(unique_copy_p_);PCV_ADD(rotate_copy_);PCV_ADD(partition_copy_);PCV_ADD(sample_);PCV_ADD(sample_fair_);
}
}
