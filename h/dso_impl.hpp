#include "dso.hpp"
namespace pcvdso{
namespace{
template<typename F> void with(int ti,F f)
{
  switch(ti){
    case 0:f(std::integral_constant<int,0>());break;
    case 1:f(std::integral_constant<int,1>());break;
    case 2:f(std::integral_constant<int,2>());break;
    default:f(std::integral_constant<int,3>());
  }
}
template<typename It> It adv(It it,int n){while(n--)++it;return it;}

void make(C& c,int how,int ti,int v,int pos)
{
  with(ti,[&](auto k){
    typedef T<decltype(k)::value> U;
    switch(how){
      case 0:c.emplace<U>(v);break;
      case 1:{U x(v);c.insert(x);break;}
      case 2:c.insert(U(v));break;
      case 3:c.insert(c.template begin<U>()+pos,U(v));break;
      case 4:c.template emplace_pos<U>(c.begin(typeid(U))+pos,v);break;
      default:{std::vector<U> x(1,U(v));c.insert(x.begin(),x.end());}
    }
  });
}
void reg(C& c,int ti){with(ti,[&](auto k){c.register_types<T<decltype(k)::value>>();});}
bool registered(const C& c,int ti)
{
  bool r=false;
  with(ti,[&](auto k){
    typedef T<decltype(k)::value> U;
    r=c.is_registered<U>();
    PCV_CHECK(r==c.is_registered(typeid(U)),"registration","is_registered<T>() and is_registered(typeid(T)) differ");
  });
  return r;
}
// the polymorphic value, seen from this module
struct Stranger{int operator()()const{return 0;}};
template<typename U,typename V> void probe(const U& x,const V& v)
{
#if KIND==0
  PCV_CHECK(static_cast<const Base*>(&x)==&v&&typeid(v)==typeid(U),"identity","reference does not denote the element");
#elif KIND==1
  PCV_CHECK(v.target_type()==typeid(U),"identity","target_type is %s",v.target_type().name());
  PCV_CHECK(v.template target<U>()==&x,"identity","target<T>() is not the element");
  PCV_CHECK(const_cast<V&>(v).template target<U>()==&x,"identity","non-const target<T>() is not the element");
  PCV_CHECK(!v.template target<Stranger>()&&!const_cast<V&>(v).template target<Stranger>(),"identity","target<U>() of another type");
  PCV_CHECK(std::function<int()>(v)()==x.get(),"identity","conversion to std::function");
#else
  PCV_CHECK(te::typeid_of(v)==typeid(U),"identity","typeid_of");
  PCV_CHECK(te::any_cast<const U*>(&v)==&x,"identity","any_cast is not the element");
#endif
}
int look(const C& c,int ti,std::vector<int>& out)
{
  int n=0;
  with(ti,[&](auto k){
    typedef T<decltype(k)::value> U;
    try{
      n=int(c.size<U>());
      PCV_CHECK(c.size(typeid(U))==std::size_t(n),"views","sizes differ");
      auto b=c.begin<U>();
      auto bb=c.begin(typeid(U));
      for(auto& x:c.segment<U>()){
        out.push_back(x.get());
        PCV_CHECK(&x==&*b&&get(*bb)==x.get(),"views","segment and local iteration differ");
        probe<U>(x,*bb);
        PCV_CHECK(&*typename C::template const_local_iterator<U>(bb)==&x,"views","conversion of local_base_iterator");
        ++b;++bb;
      }
      PCV_CHECK(b==c.end<U>()&&bb==c.end(typeid(U)),"views","local ranges differ");
    }
    catch(const boost::poly_collection::unregistered_type& e){
      PCV_CHECK(*e.pinfo==typeid(U),"exception","unregistered_type carries another type");
      n=-1;
    }
  });
  return n;
}
void erase(C& c,int ti,int pos){with(ti,[&](auto k){typedef T<decltype(k)::value> U;c.erase(c.begin<U>()+pos);});}
void clear(C& c,int ti){with(ti,[&](auto k){c.clear<T<decltype(k)::value>>();});}
void reserve(C& c,int ti,int n){with(ti,[&](auto k){c.reserve<T<decltype(k)::value>>(n);});}
void append(C& dst,const C& src,int how)
{
  if(how==0)dst.insert(src.begin(),src.end());
  else if(how==1)dst.insert(dst.cbegin(),src.begin(),src.end());
  else if(how==2){for(auto s:src.segment_traversal())if(s.begin()!=s.end())dst.insert(s.begin(),s.end());}
  else{ // one by one, through references
    dst.register_types<T<0>,T<1>,T<2>,T<3>>();
    for(auto& x:src)dst.insert(x);
  }
}
void assign(C& dst,C& src,int how)
{
  switch(how){
    case 0:dst=src;break;
    case 1:{C x(src);dst.swap(x);break;}
    case 2:dst=std::move(src);break;
    default:{C x(std::move(src));dst=std::move(x);}
  }
}
bool equal(const C& x,const C& y){return x==y;}

template<typename... Ts> struct Hit
{
  std::vector<Seen>* out;
  template<typename X> void operator()(X& x)const
  {
    int ti=std::is_same<X,T<0>>::value?0:std::is_same<X,T<1>>::value?1:std::is_same<X,T<2>>::value?2:std::is_same<X,T<3>>::value?3:-1;
    out->push_back(Seen{ti,get(x),&x});
  }
};
template<typename... Ts> void run_with(C& c,std::vector<Seen>& out,bool& algs)
{
  namespace bpc=boost::poly_collection;
  bpc::for_each<Ts...>(c.begin(),c.end(),Hit<>{&out});
  std::vector<Seen> o2,o3,o4;
  bpc::for_each_n<Ts...>(c.begin(),c.size(),Hit<>{&o2});
  Hit<> h{&o3};
  bpc::all_of<Ts...>(c.begin(),c.end(),[&](auto& x){h(x);return true;});
  for(auto it=c.begin();it!=c.end();++it){
    Hit<> h4{&o4};
    bool first=true;
    bpc::is_partitioned<Ts...>(it,c.end(),[&](auto& x){if(first)h4(x);first=false;return true;});
  }
  algs=true;
  for(auto* o:{&o2,&o3,&o4}){
    bool same=o->size()==out.size();
    for(std::size_t i=0;same&&i<out.size();++i)same=(*o)[i].ti==out[i].ti&&(*o)[i].v==out[i].v;
    algs=algs&&same;
  }
  // algorithms that look at single elements
  auto pred=[](auto& x){
    typedef typename std::decay<decltype(x)>::type X;
    return std::is_same<X,typename C::value_type>::value;
  };
  (void)pred;
  std::vector<Seen> o5;
  Hit<> h5{&o5};
  auto it=bpc::partition_point<Ts...>(c.begin(),c.end(),[&](auto& x){h5(x);return true;});
  algs=algs&&it==c.end();
  for(auto& s:o5){
    bool found=false;
    for(auto& q:out)found=found||(q.ti==s.ti&&q.v==s.v&&q.p==s.p);
    algs=algs&&found;
  }
}
void run(C& c,int list,std::vector<Seen>& out,bool& algs)
{
  switch(list){
    case 0:run_with<>(c,out,algs);break;
    case 1:run_with<T<0>>(c,out,algs);break;
    case 2:run_with<T<1>,T<2>>(c,out,algs);break;
    case 3:run_with<T<3>,T<0>>(c,out,algs);break;
    default:run_with<T<3>,T<2>,T<1>,T<0>>(c,out,algs);
  }
}
const Ops my_ops={
  {&typeid(T<0>),&typeid(T<1>),&typeid(T<2>),&typeid(T<3>)},
  &make,&reg,&registered,&look,&erase,&clear,&reserve,&append,&assign,&equal,&run
};
}
}
