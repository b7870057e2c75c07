// non-modifying algorithms over one range
#include "algo.hpp"
namespace pcv{
PCV_CALLER(all_of) PCV_CALLER(any_of) PCV_CALLER(none_of) PCV_CALLER(for_each) PCV_CALLER(for_each_n)
PCV_CALLER(find) PCV_CALLER(find_if) PCV_CALLER(find_if_not) PCV_CALLER(adjacent_find)
PCV_CALLER(count) PCV_CALLER(count_if) PCV_CALLER(is_partitioned) PCV_CALLER(partition_point) PCV_CALLER(search_n)

static std::vector<int> positions(){std::vector<int> v;for(std::size_t k=cur->i;k<cur->j;++k)v.push_back(int(k));return v;}
static std::vector<char>& tab(){return cur->table;}
static long len(){return long(cur->j-cur->i);}

PCV_ALG(all_of_){
  auto p=positions();
  bool w=std::all_of(p.begin(),p.end(),[](int k){return tab()[k];});
  expect_res(call_all_of()(L(),f,l,UPred()),w);expect_max(len());
}PCV_END
PCV_ALG(any_of_){
  auto p=positions();
  bool w=std::any_of(p.begin(),p.end(),[](int k){return tab()[k];});
  expect_res(call_any_of()(L(),f,l,UPred()),w);expect_max(len());
}PCV_END
PCV_ALG(none_of_){
  auto p=positions();
  bool w=std::none_of(p.begin(),p.end(),[](int k){return tab()[k];});
  expect_res(call_none_of()(L(),f,l,UPredMut()),w);expect_max(len());
}PCV_END

struct Walker // accumulates state, handed back by for_each
{
  std::vector<int> seen;
  int add=0;
  template<typename X> void operator()(X& x)
  {
    seen.push_back(cur->note(x));
    if(add){Probe p;p.add=add;x(p);}
  }
};
struct WalkerMO:Walker // the same, move only
{
  WalkerMO()=default;
  WalkerMO(WalkerMO&&)=default;
  WalkerMO& operator=(WalkerMO&&)=default;
};
PCV_ALG(for_each_){
  Walker w;w.seen.push_back(-7);
  auto r=call_for_each()(L(),f,l,w);
  auto p=positions();p.insert(p.begin(),-7);
  PCV_CHECK(r.seen==p,"algorithm-result","%s: elements visited or function returned wrong (%zu visits, expected %zu)",cur->where().c_str(),r.seen.size(),p.size());
}PCV_END
PCV_ALG(for_each_mo_){
  WalkerMO w;w.seen.push_back(-7);
  auto r=call_for_each()(L(),f,l,std::move(w));
  auto p=positions();p.insert(p.begin(),-7);
  PCV_CHECK(r.seen==p,"algorithm-result","%s: elements visited or move-only function returned wrong",cur->where().c_str());
}PCV_END
PCV_ALG(for_each_mut_){
  Walker w;w.add=int(1+cur->r.below(3));
  auto r=call_for_each()(L(),f,l,w);
  PCV_CHECK(r.seen==positions(),"algorithm-result","%s: elements visited wrong",cur->where().c_str());
  for(std::size_t k=0;k<cur->n();++k){
    Probe p;(*cur->its[k])(p);
    if(k>=cur->i&&k<cur->j)cur->seq[k].key+=w.add;
    PCV_CHECK(p.key==cur->seq[k].key,"algorithm-effect","%s: element %zu has key %d, expected %d",cur->where().c_str(),k,p.key,cur->seq[k].key);
  }
}PCV_END
template<typename L,typename It,typename Size> void for_each_n_with(const It& f,Size n)
{
  std::vector<int> seen;
  auto r=call_for_each_n()(L(),f,n,[&](auto& x){seen.push_back(cur->note(x));});
  std::vector<int> w;for(std::size_t k=cur->i;k<cur->i+std::size_t(n>0?n:0);++k)w.push_back(int(k));
  PCV_CHECK(seen==w,"algorithm-result","%s: n=%d: wrong elements visited",cur->where().c_str(),int(n));
  expect_res(posof(r),cur->i+std::size_t(n>0?n:0));
}
PCV_ALG(for_each_n_){
  (void)l;
  for_each_n_with<L,It,int>(f,int(len()));
  if(cur->r.chance(1,4))for_each_n_with<L,It,std::size_t>(f,std::size_t(len()));
  if(cur->r.chance(1,4))for_each_n_with<L,It,short>(f,short(len()));
  if(cur->i==cur->j&&cur->r.chance(1,4))for_each_n_with<L,It,long>(f,-2);
}PCV_END
PCV_ALG(find_){
  Key x(int(cur->r.below(8)));
  std::size_t k=cur->i;
  while(k<cur->j&&cur->seq[k].key!=x.k)++k;
  expect_res(posof(call_find()(L(),f,l,x)),k);expect_max(len());
}PCV_END
PCV_ALG(find_if_){
  auto p=positions();
  auto w=std::find_if(p.begin(),p.end(),[](int k){return tab()[k];})-p.begin();
  expect_res(posof(call_find_if()(L(),f,l,UPredMut())),cur->i+w);
  expect_max(len());
}PCV_END
PCV_ALG(find_if_not_){
  auto p=positions();
  auto w=std::find_if_not(p.begin(),p.end(),[](int k){return tab()[k];})-p.begin();
  expect_res(posof(call_find_if_not()(L(),f,l,UPred())),cur->i+w);
  expect_max(len());
}PCV_END
PCV_ALG(adjacent_find_p_){
  auto p=positions();
  auto w=std::adjacent_find(p.begin(),p.end(),[](int k,int m){return cur->rel2[k*64+m];})-p.begin();
  expect_res(posof(call_adjacent_find()(L(),f,l,Rel2())),cur->i+w);
  if(len()>0)expect_calls(std::min<long>(w+1,len()-1));else expect_calls(0);
}PCV_END
PCV_ALG(adjacent_find_){
  auto p=positions();
  auto w=std::adjacent_find(p.begin(),p.end(),[](int k,int m){return cur->seq[k].key==cur->seq[m].key;})-p.begin();
  expect_res(posof(call_adjacent_find()(L(),f,l)),cur->i+w);
}PCV_END
PCV_ALG(count_){
  Key x(int(cur->r.below(8)));
  auto p=positions();
  auto w=std::count_if(p.begin(),p.end(),[&](int k){return cur->seq[k].key==x.k;});
  expect_res(call_count()(L(),f,l,x),w);expect_calls(len());
}PCV_END
PCV_ALG(count_if_){
  auto p=positions();
  auto w=std::count_if(p.begin(),p.end(),[](int k){return tab()[k];});
  expect_res(call_count_if()(L(),f,l,UPredMut()),w);expect_calls(len());
}PCV_END
static void make_partitioned()
{
  std::size_t m=cur->i+cur->r.below(cur->j-cur->i+1);
  for(std::size_t k=cur->i;k<cur->j;++k)tab()[k]=k<m;
}
PCV_ALG(is_partitioned_){
  auto save=tab();
  if(cur->r.chance(1,2)){make_partitioned();if(len()&&cur->r.chance(1,2))tab()[cur->i+cur->r.below(len())]^=1;}
  auto p=positions();
  bool w=std::is_partitioned(p.begin(),p.end(),[](int k){return tab()[k];});
  expect_res(call_is_partitioned()(L(),f,l,UPred()),w);expect_max(len());
  tab()=save;
}PCV_END
PCV_ALG(partition_point_){
  auto save=tab();
  make_partitioned();
  auto p=positions();
  auto w=std::partition_point(p.begin(),p.end(),[](int k){return tab()[k];})-p.begin();
  expect_res(posof(call_partition_point()(L(),f,l,UPred())),cur->i+w);
  tab()=save;
}PCV_END
static long search_n_runs(long n,std::vector<char> hit)
{
  if(n<=0)return 0;
  return std::search_n(hit.begin(),hit.end(),n,char(1))-hit.begin();
}
PCV_ALG(search_n_p_){
  Key x(int(cur->r.below(8)));
  std::vector<char> hit;
  for(std::size_t k=cur->i;k<cur->j;++k)hit.push_back(cur->rel[k*8+x.k]);
  long n=long(cur->r.below(5))-(cur->r.chance(1,8)?1:0);
  long w=search_n_runs(n,hit);
  if(n>=0&&cur->r.chance(1,3))expect_res(posof(call_search_n()(L(),f,l,std::size_t(n),x,RelKey())),cur->i+w);
  else expect_res(posof(call_search_n()(L(),f,l,int(n),x,RelKey())),cur->i+w);
  expect_max(len());
}PCV_END
PCV_ALG(search_n_){
  Key x(int(cur->r.below(3)));
  std::vector<char> hit;
  for(std::size_t k=cur->i;k<cur->j;++k)hit.push_back(cur->seq[k].key==x.k);
  int n=int(cur->r.below(5));
  expect_res(posof(call_search_n()(L(),f,l,n,x)),cur->i+search_n_runs(n,hit));
  switch(cur->r.below(4)){ // far more than there are
  case 0:expect_res(posof(call_search_n()(L(),f,l,std::numeric_limits<int>::max(),x)),cur->j);break;
  case 1:expect_res(posof(call_search_n()(L(),f,l,std::numeric_limits<long>::max()>>cur->r.below(40),x)),cur->j);break;
  }
}PCV_END

void add_group_a()
{
  PCV_ADD(all_of_);PCV_ADD(any_of_);PCV_ADD(none_of_);PCV_ADD(for_each_);PCV_ADD(for_each_mo_);PCV_ADD(for_each_mut_);PCV_ADD(for_each_n_);
  PCV_ADD(find_);PCV_ADD(find_if_);PCV_ADD(find_if_not_);PCV_ADD(count_);PCV_ADD(count_if_);
  PCV_ADD(is_partitioned_);PCV_ADD(partition_point_);PCV_ADD(search_n_p_);PCV_ADD(search_n_);
  PCV_ADD(adjacent_find_p_);PCV_ADD(adjacent_find_);
}
}
