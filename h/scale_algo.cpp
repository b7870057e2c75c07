#include "scale.hpp"
namespace pcv{
/* algorithms on a large or widely spread sequence; types with even index are restituted */
template<typename... Ts> struct Algos
{
  // how an element reaches a function object
  template<int I> static void got(const T<I>& x)
  {
    constexpr bool listed=(std::is_same<T<I>,Ts>::value||...||false);
    PCV_CHECK(listed,"restitution","element of type %d given as such, but its type is not listed",I);
    PCV_CHECK(x.v>0,"restitution","not the stored element");
  }
#if KIND==0
  static void got(const SB& x){const auto& i=typeid(x);
#elif KIND==1
  static void got(const bpc::function_collection_value_type<int(int)>& x){const auto& i=x.target_type();
#else
  static void got(const bpc::any_collection_value_type<Con>& x){const auto& i=boost::type_erasure::typeid_of(x);
#endif
    const bool listed=((i==typeid(Ts))||...||false);
    PCV_CHECK(!listed,"restitution","element not given as its type %s, which is listed",i.name());
  }
  static void run(const Col& c,const Seg& flat,Rng& r)
  {
    const std::size_t n=flat.size();
    std::size_t i=r.below(n+1),j=i+r.below(n-i+1);
    auto first=c.begin();std::advance(first,i);
    auto last=first;std::advance(last,j-i);
    const int pivot=n?flat[r.below(n)]:0;
    Seg seen;
    auto rec=[&](const auto& x){got(x);seen.push_back(x(0));};
    switch(r.below(9)){
    case 0:trace("for_each [%zu,%zu) of %zu",i,j,n);bpc::for_each<Ts...>(first,last,rec);
      PCV_CHECK(seen==Seg(flat.begin()+i,flat.begin()+j),"algorithm","for_each: elements visited");break;
    case 1:{trace("for_each_n %zu from %zu of %zu",j-i,i,n);auto it=bpc::for_each_n<Ts...>(first,j-i,rec);
      PCV_CHECK(it==last&&seen==Seg(flat.begin()+i,flat.begin()+j),"algorithm","for_each_n: elements visited");break;}
    case 2:{trace("find_if in [%zu,%zu) of %zu",i,j,n);auto it=bpc::find_if<Ts...>(first,last,[&](const auto& x){return x(0)==pivot;});
      std::size_t k=std::find(flat.begin()+i,flat.begin()+j,pivot)-flat.begin();
      auto e=first;std::advance(e,k-i);
      PCV_CHECK(it==e,"algorithm","find_if: position");break;}
    case 3:{trace("count_if in [%zu,%zu) of %zu",i,j,n);auto p=[&](int x){return x%3!=pivot%3;};
      auto m=bpc::count_if<Ts...>(first,last,[&](const auto& x){return p(x(0));});
      PCV_CHECK(m==std::count_if(flat.begin()+i,flat.begin()+j,p),"algorithm","count_if");break;}
    case 4:{trace("transform [%zu,%zu) of %zu",i,j,n);bpc::transform<Ts...>(first,last,std::back_inserter(seen),[](const auto& x){got(x);return x(0);});
      PCV_CHECK(seen==Seg(flat.begin()+i,flat.begin()+j),"algorithm","transform: output");break;}
    case 5:{ // a subsequence
      std::size_t a=i+r.below(j-i+1),b=a+r.below(std::min<std::size_t>(j-a,5)+1);
      trace("search [%zu,%zu) in [%zu,%zu) of %zu",a,b,i,j,n);
      auto it=bpc::search<Ts...>(first,last,flat.begin()+a,flat.begin()+b,[](const auto& x,int y){return x(0)==y;});
      auto e=first;std::advance(e,std::search(flat.begin()+i,flat.begin()+j,flat.begin()+a,flat.begin()+b)-(flat.begin()+i));
      PCV_CHECK(it==e,"algorithm","search: position");break;}
    case 6:{
      Seg o(flat.begin()+i,flat.begin()+j);
      std::size_t k=o.size();
      if(!o.empty()&&r.chance(2,3)){k=r.below(o.size());o[k]=-5;}
      trace("mismatch at %zu of [%zu,%zu) of %zu",k,i,j,n);
      auto p=bpc::mismatch<Ts...>(first,last,o.begin(),o.end(),[](const auto& x,int y){return x(0)==y;});
      auto e=first;std::advance(e,k);
      PCV_CHECK(p.first==e&&p.second==o.begin()+k,"algorithm","mismatch: positions");
      PCV_CHECK(bpc::equal<Ts...>(first,last,o.begin(),o.end(),[](const auto& x,int y){return x(0)==y;})==(k==o.size()),"algorithm","equal");break;}
    case 7:{trace("partition_point of [%zu,%zu) of %zu",i,j,n);
      const std::size_t m=i+r.below(j-i+1);
      const std::set<int> in(flat.begin()+i,flat.begin()+m);
      auto p=[&](int x){return in.count(x)!=0;};
      bool ok=bpc::is_partitioned<Ts...>(first,last,[&](const auto& x){return p(x(0));});
      PCV_CHECK(ok==std::is_partitioned(flat.begin()+i,flat.begin()+j,p),"algorithm","is_partitioned");
      if(!ok)break;
      auto e=first;std::advance(e,std::partition_point(flat.begin()+i,flat.begin()+j,p)-(flat.begin()+i));
      PCV_CHECK(bpc::partition_point<Ts...>(first,last,[&](const auto& x){return p(x(0));})==e,"algorithm","partition_point: position");
      break;}
    default:{trace("find_first_of in [%zu,%zu) of %zu",i,j,n);
      Seg o{pivot,-7};
      auto it=bpc::find_first_of<Ts...>(first,last,o.begin(),o.end(),[](const auto& x,int y){return x(0)==y;});
      auto e=first;std::advance(e,std::find(flat.begin()+i,flat.begin()+j,pivot)-(flat.begin()+i));
      PCV_CHECK(it==e,"algorithm","find_first_of: position");break;}
    }
    stats().add("algorithms");
  }
};
template<int... I> static void algos_even(std::integer_sequence<int,I...>,const Col& c,const Seg& flat,Rng& r){Algos<T<2*I>...>::run(c,flat,r);}


void algorithms(const Col& c,const Seg& flat,Rng& r)
{
  if(r.chance(1,2))Algos<>::run(c,flat,r);
  else algos_even(std::make_integer_sequence<int,NTY/2>(),c,flat,r);
}
}
