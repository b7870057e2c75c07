// algorithms over two ranges
#include "algo.hpp"
namespace pcv{
PCV_CALLER(find_end) PCV_CALLER(find_first_of) PCV_CALLER(mismatch) PCV_CALLER(equal) PCV_CALLER(search)

static std::vector<int> positions(){std::vector<int> v;for(std::size_t k=cur->i;k<cur->j;++k)v.push_back(int(k));return v;}
static long len(){return long(cur->j-cur->i);}
static bool relk(int k,const Key& y){return cur->rel[k*8+y.k%8];}
static bool eqk(int k,const Key& y){return cur->seq[k].key==y.k;}
static bool relc(int k,const Info& y){return cur->rel[k*8+y.key%8];}
// a subrange of the second collection
struct Sub{std::size_t a,b;};
static Sub sub2(std::size_t max)
{
  std::size_t n=cur->seq2.size();
  Sub s;
  s.a=cur->r.below(n+1);
  s.b=s.a+cur->r.below(std::min(n-s.a,max)+1);
  return s;
}
static std::vector<Info> part2(Sub s){return std::vector<Info>(cur->seq2.begin()+s.a,cur->seq2.begin()+s.b);}
static std::vector<Key> needle()
{
  if(cur->r.chance(1,2)&&cur->j>cur->i){
    std::size_t a=cur->i+cur->r.below(cur->j-cur->i),b=a+cur->r.below(std::min<std::size_t>(4,cur->j-a)+1);
    std::vector<Key> v;
    for(std::size_t k=a;k<b;++k)v.push_back(Key(cur->seq[k].key));
    return v;
  }
  return some_keys(3);
}

PCV_ALG(find_end_p_){
  auto p=positions();auto y=some_keys(3);
  auto w=std::find_end(p.begin(),p.end(),y.begin(),y.end(),relk)-p.begin();
  expect_res(posof(call_find_end()(L(),f,l,y.begin(),y.end(),RelKey())),cur->i+w);
}PCV_END
PCV_ALG(find_end_){
  auto p=positions();auto y=needle();
  auto w=std::find_end(p.begin(),p.end(),y.begin(),y.end(),eqk)-p.begin();
  std::forward_list<Key> z(y.begin(),y.end());
  expect_res(posof(call_find_end()(L(),f,l,z.begin(),z.end())),cur->i+w);
}PCV_END
PCV_ALG(find_end_c_){
  auto p=positions();Sub s=sub2(3);auto y=part2(s);
  auto w=std::find_end(p.begin(),p.end(),y.begin(),y.end(),relc)-p.begin();
  expect_res(posof(call_find_end()(L(),f,l,cur->its2[s.a],cur->its2[s.b],RelRel())),cur->i+w);
}PCV_END
PCV_ALG(find_first_of_p_){
  auto p=positions();auto y=some_keys(4);
  auto w=std::find_first_of(p.begin(),p.end(),y.begin(),y.end(),relk)-p.begin();
  expect_res(posof(call_find_first_of()(L(),f,l,y.begin(),y.end(),RelKey())),cur->i+w);
  expect_max(len()*long(y.size()));
}PCV_END
PCV_ALG(find_first_of_){
  auto p=positions();auto y=needle();
  auto w=std::find_first_of(p.begin(),p.end(),y.begin(),y.end(),eqk)-p.begin();
  std::list<Key> z(y.begin(),y.end());
  expect_res(posof(call_find_first_of()(L(),f,l,z.begin(),z.end())),cur->i+w);
  expect_max(len()*long(y.size()));
}PCV_END
PCV_ALG(find_first_of_c_){
  auto p=positions();Sub s=sub2(4);auto y=part2(s);
  auto w=std::find_first_of(p.begin(),p.end(),y.begin(),y.end(),relc)-p.begin();
  expect_res(posof(call_find_first_of()(L(),f,l,cur->its2[s.a],cur->its2[s.b],RelRel())),cur->i+w);
}PCV_END

static std::vector<Key> at_least_len()
{
  std::vector<Key> y;
  for(std::size_t k=cur->i;k<cur->j;++k)y.push_back(cur->r.chance(9,10)?Key(cur->seq[k].key):Key(int(cur->r.below(8))));
  y.shrink_to_fit();
  return y;
}
static std::vector<Key> sure_keys() // makes the random relation hold, mostly
{
  std::vector<Key> y;
  for(std::size_t k=cur->i;k<cur->j;++k){
    Key q(int(cur->r.below(8)));
    if(cur->r.chance(7,8))for(int t=0;t<8;++t)if(cur->rel[k*8+t]){q.k=t;if(cur->r.chance(1,2))break;}
    y.push_back(q);
  }
  if(cur->r.chance(1,3))y.push_back(Key(1));
  else if(!y.empty()&&cur->r.chance(1,3))y.pop_back();
  y.shrink_to_fit();
  return y;
}
template<typename R,typename I2,typename W> void expect_pair(const R& r,const I2& first2,const W& w)
{
  expect_res(posof(r.first),cur->i+w);
  PCV_CHECK(std::distance(first2,r.second)==w,"algorithm-result","%s: second iterator of mismatch at %ld, expected %ld",
    cur->where().c_str(),long(std::distance(first2,r.second)),long(w));
}
PCV_ALG(mismatch3_){
  auto p=positions();auto y=at_least_len();
  auto w=std::mismatch(p.begin(),p.end(),y.begin(),eqk).first-p.begin();
  expect_pair(call_mismatch()(L(),f,l,y.data()),y.data(),w);
  expect_max(len());
}PCV_END
PCV_ALG(mismatch3p_){
  auto p=positions();auto y=sure_keys();while(y.size()<p.size())y.push_back(Key(3));
  auto w=std::mismatch(p.begin(),p.end(),y.begin(),relk).first-p.begin();
  std::forward_list<Key> z(y.begin(),y.end());
  expect_pair(call_mismatch()(L(),f,l,z.begin(),RelKey()),z.begin(),w);
  expect_max(len());
}PCV_END
PCV_ALG(mismatch4_){
  auto p=positions();auto y=near_keys(cur->i,cur->j);
  auto w=std::mismatch(p.begin(),p.end(),y.begin(),y.end(),eqk).first-p.begin();
  expect_pair(call_mismatch()(L(),f,l,y.data(),y.data()+y.size()),y.data(),w);
  expect_max(std::min<long>(len(),y.size()));
}PCV_END
PCV_ALG(mismatch4p_){
  auto p=positions();auto y=sure_keys();
  auto w=std::mismatch(p.begin(),p.end(),y.begin(),y.end(),relk).first-p.begin();
  const Key* far=y.data();
  auto r=call_mismatch()(L(),f,l,In<Key>(y.data(),&far),In<Key>(y.data()+y.size(),&far),RelKey());
  expect_res(posof(r.first),cur->i+w);
  PCV_CHECK(r.second.p-y.data()==w,"algorithm-result","%s: second iterator of mismatch at %ld, expected %ld",cur->where().c_str(),long(r.second.p-y.data()),long(w));
  PCV_CHECK(far-y.data()<=w,"input-iterator","%s: single pass range consumed beyond the mismatch",cur->where().c_str());
  expect_max(std::min<long>(len(),y.size()));
}PCV_END
PCV_ALG(mismatch4c_){
  auto p=positions();Sub s=sub2(20);auto y=part2(s);
  auto w=std::mismatch(p.begin(),p.end(),y.begin(),y.end(),relc).first-p.begin();
  expect_pair(call_mismatch()(L(),f,l,cur->its2[s.a],cur->its2[s.b],RelRel()),cur->its2[s.a],w);
}PCV_END
PCV_ALG(equal3_){
  auto p=positions();auto y=at_least_len();
  bool w=std::equal(p.begin(),p.end(),y.begin(),eqk);
  expect_res(call_equal()(L(),f,l,y.data()),w);expect_max(len());
}PCV_END
PCV_ALG(equal3p_){
  auto p=positions();auto y=sure_keys();while(y.size()<p.size())y.push_back(Key(3));
  bool w=std::equal(p.begin(),p.end(),y.begin(),relk);
  const Key* far=y.data();
  expect_res(call_equal()(L(),f,l,In<Key>(y.data(),&far),RelKey()),w);expect_max(len());
}PCV_END
PCV_ALG(equal4_){
  auto p=positions();auto y=near_keys(cur->i,cur->j);
  bool w=std::equal(p.begin(),p.end(),y.begin(),y.end(),eqk);
  if(cur->r.chance(1,2)){
    const Key* far=y.data();
    expect_res(call_equal()(L(),f,l,In<Key>(y.data(),&far),In<Key>(y.data()+y.size(),&far)),w);
  }
  else expect_res(call_equal()(L(),f,l,y.data(),y.data()+y.size()),w);
  expect_max(std::min<long>(len(),y.size()));
}PCV_END
PCV_ALG(equal4p_){
  auto p=positions();auto y=sure_keys();
  bool w=std::equal(p.begin(),p.end(),y.begin(),y.end(),relk);
  if(cur->r.chance(1,2)){
    const Key* far=y.data();
    expect_res(call_equal()(L(),f,l,In<Key>(y.data(),&far),In<Key>(y.data()+y.size(),&far),RelKey()),w);
  }
  else{
    std::list<Key> z(y.begin(),y.end());
    expect_res(call_equal()(L(),f,l,z.begin(),z.end(),RelKey()),w);
  }
  expect_max(std::min<long>(len(),y.size()));
}PCV_END
PCV_ALG(equal4c_){
  auto p=positions();Sub s=sub2(20);auto y=part2(s);
  auto eqc=[](int k,const Info& y){return cur->seq[k].key==y.key;};
  bool w=std::equal(p.begin(),p.end(),y.begin(),y.end(),eqc);
  expect_res(call_equal()(L(),f,l,cur->its2[s.a],cur->its2[s.b]),w);
}PCV_END
PCV_ALG(search_p_){
  auto p=positions();auto y=some_keys(3);
  auto w=std::search(p.begin(),p.end(),y.begin(),y.end(),relk)-p.begin();
  expect_res(posof(call_search()(L(),f,l,y.begin(),y.end(),RelKey())),cur->i+w);
  expect_max(len()*long(y.size()));
}PCV_END
PCV_ALG(search_){
  auto p=positions();auto y=needle();
  auto w=std::search(p.begin(),p.end(),y.begin(),y.end(),eqk)-p.begin();
  std::forward_list<Key> z(y.begin(),y.end());
  expect_res(posof(call_search()(L(),f,l,z.begin(),z.end())),cur->i+w);
  expect_max(len()*long(y.size()));
}PCV_END
PCV_ALG(search_c_){
  auto p=positions();Sub s=sub2(3);auto y=part2(s);
  auto w=std::search(p.begin(),p.end(),y.begin(),y.end(),relc)-p.begin();
  expect_res(posof(call_search()(L(),f,l,cur->its2[s.a],cur->its2[s.b],RelRel())),cur->i+w);
}PCV_END

void add_group_b()
{
  PCV_ADD(find_end_p_);PCV_ADD(find_end_);PCV_ADD(find_end_c_);
  PCV_ADD(find_first_of_p_);PCV_ADD(find_first_of_);PCV_ADD(find_first_of_c_);
  PCV_ADD(mismatch3_);PCV_ADD(mismatch3p_);PCV_ADD(mismatch4_);PCV_ADD(mismatch4p_);PCV_ADD(mismatch4c_);
  PCV_ADD(equal3_);PCV_ADD(equal3p_);PCV_ADD(equal4_);PCV_ADD(equal4p_);PCV_ADD(equal4c_);
  PCV_ADD(search_p_);PCV_ADD(search_);PCV_ADD(search_c_);
}
}
