// permutations
#include "algo.hpp"
namespace pcv{
PCV_CALLER(is_permutation)
static std::vector<Key> shuffled(bool same_length)
{
  std::vector<Key> y;
  for(std::size_t k=cur->i;k<cur->j;++k)y.push_back(Key(cur->seq[k].key));
  for(std::size_t k=y.size();k>1;--k)if(cur->r.chance(2,3))std::swap(y[k-1],y[cur->r.below(k)]);
  if(!y.empty()&&cur->r.chance(1,4))y[cur->r.below(y.size())]=Key(int(cur->r.below(4)));
  if(!y.empty()&&cur->r.chance(1,8))y[cur->r.below(y.size())].k=y[cur->r.below(y.size())].k;
  if(!same_length){
    if(cur->r.chance(1,6))y.push_back(Key(1));
    else if(!y.empty()&&cur->r.chance(1,6))y.pop_back();
  }
  y.shrink_to_fit();
  return y;
}
static std::vector<Key> keys(){std::vector<Key> v;for(std::size_t k=cur->i;k<cur->j;++k)v.push_back(Key(cur->seq[k].key));return v;}
static bool eqv(const Key& x,const Key& y){return x.k==y.k;}
static bool eqm(const Key& x,const Key& y){return x.k%cur->mod==y.k%cur->mod;}

PCV_ALG(is_permutation3_){
  auto p=keys();auto y=shuffled(true);
  bool w=std::is_permutation(p.begin(),p.end(),y.begin(),eqv);
  expect_res(call_is_permutation()(L(),f,l,y.data()),w);
}PCV_END
PCV_ALG(is_permutation3p_){
  auto p=keys();auto y=shuffled(true);
  bool w=std::is_permutation(p.begin(),p.end(),y.begin(),eqm);
  std::forward_list<Key> z(y.begin(),y.end());
  expect_res(call_is_permutation()(L(),f,l,z.begin(),RelKeyEl()),w);
}PCV_END
PCV_ALG(is_permutation4_){
  auto p=keys();auto y=shuffled(false);
  bool w=std::is_permutation(p.begin(),p.end(),y.begin(),y.end(),eqv);
  std::list<Key> z(y.begin(),y.end());
  expect_res(call_is_permutation()(L(),f,l,z.begin(),z.end()),w);
}PCV_END
PCV_ALG(is_permutation4p_){
  auto p=keys();auto y=shuffled(false);
  bool w=std::is_permutation(p.begin(),p.end(),y.begin(),y.end(),eqm);
  expect_res(call_is_permutation()(L(),f,l,y.data(),y.data()+y.size(),RelKeyEl()),w);
}PCV_END
PCV_ALG(is_permutation4c_){
  auto p=keys();
  std::size_t n=cur->seq2.size();
  std::size_t a=cur->r.below(n+1),b=std::min(n,a+(cur->r.chance(3,4)?p.size():cur->r.below(n-a+1)));
  std::vector<Key> y;for(std::size_t k=a;k<b;++k)y.push_back(Key(cur->seq2[k].key));
  bool w=std::is_permutation(p.begin(),p.end(),y.begin(),y.end(),eqm);
  expect_res(call_is_permutation()(L(),f,l,cur->its2[a],cur->its2[b],RelKeyEl()),w);
}PCV_END
void add_group_d()
{
  PCV_ADD(is_permutation3_);PCV_ADD(is_permutation3p_);PCV_ADD(is_permutation4_);PCV_ADD(is_permutation4p_);PCV_ADD(is_permutation4c_);
}
}
