// Range insertion.
#include "engine.hpp"
namespace pcv{

template<typename T>
void expect_at_typed(Eng& e,Slot& x,typename C::template const_local_iterator<T> it,std::size_t pos,const char* what);

// single pass iterator over a vector: dereferencing a position already passed
// by any copy is a violation
template<typename T> struct InputIt
{
  using iterator_category=std::input_iterator_tag;
  using value_type=typename std::remove_const<T>::type;
  using difference_type=std::ptrdiff_t;
  using pointer=T*;
  using reference=T&;
  T* p;
  std::size_t* cursor; // shared
  T* base;
  reference operator*()const
  {
    PCV_CHECK(std::size_t(p-base)==*cursor,"argument","input iterator dereferenced after being passed over");
    return *p;
  }
  pointer operator->()const{return &**this;}
  InputIt& operator++()
  {
    PCV_CHECK(std::size_t(p-base)==*cursor,"argument","input iterator incremented twice");
    ++p;++*cursor;return *this;
  }
  struct Proxy{T* q;T& operator*()const{return *q;}};
  Proxy operator++(int){Proxy r{p};++*this;return r;}
  friend bool operator==(const InputIt& x,const InputIt& y){return x.p==y.p;}
  friend bool operator!=(const InputIt& x,const InputIt& y){return x.p!=y.p;}
};
// dereferences a vector of pointers
struct IndirectIt
{
  using iterator_category=std::forward_iterator_tag;
  using value_type=V;
  using difference_type=std::ptrdiff_t;
  using pointer=const V*;
  using reference=const V&;
  const V* const* p;
  reference operator*()const{return **p;}
  pointer operator->()const{return *p;}
  IndirectIt& operator++(){++p;return *this;}
  IndirectIt operator++(int){auto r=*this;++p;return r;}
  friend bool operator==(const IndirectIt& x,const IndirectIt& y){return x.p==y.p;}
  friend bool operator!=(const IndirectIt& x,const IndirectIt& y){return x.p!=y.p;}
};

struct Hint{std::size_t g;CIt it;};
static Hint make_hint(Eng& e,Slot& x,int prefer)
{
  const C& c=*x.c;
  std::size_t n=x.m.size(),g;
  if(prefer>=0&&x.m.reg[prefer]&&!x.m.seg[prefer].empty()&&e.r.chance(2,3))
    g=x.m.gpos(prefer,e.r.below(x.m.seg[prefer].size()));
  else g=e.r.below(n+1);
  return {g,nth(c,g)};
}

static void refresh_order(Slot& x)
{
  if(!x.order_free)return;
  x.m.order.clear();
  for(auto sg:const_cast<const C&>(*x.c).segment_traversal())x.m.order.push_back(ti_from(sg.type_info()));
}

template<typename T,bool=std::is_copy_constructible<T>::value> struct rng_copy // insertion of copies
{
  static void run(Eng& e)
  {
    Slot& x=e.pick();
    C& c=*x.c;
    const int ti=T::ti;
    auto& sg=x.m.seg[ti];
    if(int(sg.size())>=e.max_size)return;
    const std::size_t n=e.r.chance(1,8)?0:1+e.r.below(e.big&&e.r.chance(1,3)?70:e.r.chance(1,6)?9:4);
    std::vector<u64> vals;
    for(std::size_t i=0;i<n;++i)vals.push_back(e.val());
    e.inserted=vals;
    std::vector<T> src;
    src.reserve(n);
    for(u64 v:vals)src.emplace_back(Val{v});
    const std::size_t c0=capacity_of(x,ti);
    int v=int(e.r.below(12));
    e.last_variant=v;e.last_ti=ti;
    bool local=v>=6;
    if(local&&!x.m.reg[ti]){v=int(e.r.below(6));local=false;}
    std::size_t pos=sg.size();
    e.touch(x,ti,BASIC);
    std::size_t cursor=0;
    using In=InputIt<const T>;
    In i1{src.data(),&cursor,src.data()},i2{src.data()+n,&cursor,src.data()};
    Hint h=make_hint(e,x,ti);
    if(v>=3&&v<6){auto p=x.m.at(h.g);if(p.first==ti)pos=p.second;}
    if(local)pos=e.r.below(sg.size()+1);
    trace("s%d.insert(%s%zu elements of %s from #%llu) kind %d -> pos %zu",e.idx(x),v>=6?"local,":v>=3?"hint,":"",n,zoo[ti].name,
      (unsigned long long)(n?vals[0]:0),v,pos);
    auto done=[&]{
      if(n||local)e.model_register(x,ti);
      else if(c.template is_registered<T>())e.model_register(x,ti);
      if(n)e.model_insert(x,ti,pos,vals,c0);
      refresh_order(x);
      for(auto& y:src)PCV_CHECK(y.t.st==ALIVE,"argument","elements of the source range were modified");
    };
    switch(v){
    case 0:{Arm _;c.insert(src.begin(),src.end());break;}
    case 1:{std::list<T> l;for(u64 w:vals)l.emplace_back(Val{w});Arm _;c.insert(l.cbegin(),l.cend());break;}
    case 2:{Arm _;c.insert(i1,i2);break;}
    case 3:{Arm _;c.insert(h.it,src.cbegin(),src.cend());break;}
    case 4:{Arm _;c.insert(h.it,src.data(),src.data()+n);break;}
    case 5:{Arm _;c.insert(h.it,i1,i2);break;}
    case 6:{auto p=c.cbegin(info_of<T>(e))+pos;LB it;{Arm _;it=c.insert(p,src.begin(),src.end());}
      done();expect_at(e,x,CLB(it),ti,pos,"insert(local base,first,last)");return;}
    case 7:{auto p=c.cbegin(info_of<T>(e))+pos;LB it;{Arm _;it=c.insert(p,i1,i2);}
      done();expect_at(e,x,CLB(it),ti,pos,"insert(local base,first,last)");return;}
    case 8:{auto p=c.template begin<T>()+pos;auto it=p;{Arm _;it=c.insert(p,src.begin(),src.end());}
      done();expect_at_typed<T>(e,x,it,pos,"insert(local,first,last)");return;}
    case 9:{auto p=c.template cbegin<T>()+pos;auto it=c.template begin<T>();{Arm _;it=c.insert(p,i1,i2);}
      done();expect_at_typed<T>(e,x,it,pos,"insert(local,first,last)");return;}
    case 10:{ // values from which T is constructible
      auto p=c.template cbegin<T>()+pos;auto it=c.template begin<T>();
      std::vector<Val> vv;for(u64 w:vals)vv.push_back(Val{w});
      {Arm _;it=c.insert(p,vv.begin(),vv.end());}
      done();expect_at_typed<T>(e,x,it,pos,"insert(local,first,last)");return;}
    case 11:{ // references to value_type
      C tmp(make_al(1));
      for(u64 w:vals)tmp.template emplace<T>(Val{w});
      std::vector<const V*> ptr;
      for(auto& y:tmp)ptr.push_back(std::addressof(y));
      IndirectIt f{ptr.data()},l{ptr.data()+n};
      if(e.r.chance(1,2)){
        auto p=c.template cbegin<T>()+pos;auto it=c.template begin<T>();
        {Arm _;it=c.insert(p,f,l);}
        done();expect_at_typed<T>(e,x,it,pos,"insert(local,refs)");
      }
      else{
        auto p=c.cbegin(info_of<T>(e))+pos;LB it;
        {Arm _;it=c.insert(p,f,l);}
        done();expect_at(e,x,CLB(it),ti,pos,"insert(local base,refs)");
      }
      return;}
    }
    done();
    sig(20,v,ti,(sg.size()>c0)*2+(pos+n==sg.size()),n);
  }
};
template<typename T> struct rng_copy<T,false>
{
  static void run(Eng& e)
  {
    // non copyable types: range insertion by copy throws
    Slot& x=e.pick();
    C& c=*x.c;
    const int ti=T::ti;
    std::vector<T> src;
    src.reserve(3);
    std::vector<u64> vals;
    for(int i=0;i<3;++i){vals.push_back(e.val());src.emplace_back(Val{vals.back()});}
    e.inserted=vals;
    int v=int(e.r.below(4));
    e.last_variant=v;e.last_ti=ti;
    if(v>=2&&!x.m.reg[ti])v-=2;
    trace("s%d.insert(3 elements of non copyable %s) kind %d",e.idx(x),zoo[ti].name,v);
    e.touch(x,ti,BASIC);
    Hint h=make_hint(e,x,ti);
    switch(v){
    case 0:expect_throw<bpc::not_copy_constructible>("insert(first,last)",typeid(T),[&]{Arm _;c.insert(src.begin(),src.end());});break;
    case 1:expect_throw<bpc::not_copy_constructible>("insert(hint,first,last)",typeid(T),[&]{Arm _;c.insert(h.it,src.begin(),src.end());});break;
    case 2:{auto p=c.cend(info_of<T>(e));expect_throw<bpc::not_copy_constructible>("insert(local base,first,last)",typeid(T),[&]{Arm _;c.insert(p,src.begin(),src.end());});break;}
    case 3:{auto p=c.template cend<T>();expect_throw<bpc::not_copy_constructible>("insert(local,first,last)",typeid(T),[&]{Arm _;c.insert(p,src.begin(),src.end());});break;}
    }
    stats().add("not_copy_constructible_seen");
    for(auto& y:src)PCV_CHECK(y.t.st==ALIVE,"argument","elements of the source range were modified");
    if(!x.m.reg[ti]&&c.template is_registered<T>())e.model_register(x,ti);
    e.keep(x,ti,0);
    // contents: unchanged, provided insertion point was the end
    if(v==1){
      // insertion at hint may leave the segment in any valid state
      resync(e,x);
    }
    sig(21,v,ti,0,0);
  }
};
template<typename T> struct rng1:rng_copy<T>{};

// move iterators, all types
template<typename T> struct rng_move
{
  static void run(Eng& e)
  {
    Slot& x=e.pick();
    C& c=*x.c;
    const int ti=T::ti;
    auto& sg=x.m.seg[ti];
    if(int(sg.size())>=e.max_size)return;
    const std::size_t n=1+e.r.below(4);
    std::vector<u64> vals;
    std::vector<T> src;
    src.reserve(n);
    for(std::size_t i=0;i<n;++i){vals.push_back(e.val());src.emplace_back(Val{vals.back()});}
    e.inserted=vals;
    const std::size_t c0=capacity_of(x,ti);
    int v=int(e.r.below(3));
    e.last_variant=v;e.last_ti=ti;
    if(v==2&&!x.m.reg[ti])v=0;
    std::size_t pos=sg.size();
    Hint h=make_hint(e,x,ti);
    if(v==1){auto p=x.m.at(h.g);if(p.first==ti)pos=p.second;}
    if(v==2)pos=e.r.below(sg.size()+1);
    trace("s%d.insert(%s%zu moved elements of %s from #%llu) -> pos %zu",e.idx(x),v==2?"local,":v==1?"hint,":"",n,zoo[ti].name,
      (unsigned long long)vals[0],pos);
    e.touch(x,ti,BASIC);
    auto f=std::make_move_iterator(src.begin()),l=std::make_move_iterator(src.end());
    switch(v){
    case 0:{Arm _;c.insert(f,l);break;}
    case 1:{Arm _;c.insert(h.it,f,l);break;}
    case 2:{auto p=c.template cbegin<T>()+pos;Arm _;c.insert(p,f,l);break;}
    }
    e.model_register(x,ti);
    e.model_insert(x,ti,pos,vals,c0);
    sig(22,v,ti,(sg.size()>c0)*2+(pos+n==sg.size()),n);
  }
};

// from another collection, typed local ranges
template<typename T> struct rng_local
{
  static void run(Eng& e)
  {
    if(e.s.size()<2)return;
    std::size_t i=e.r.below(e.s.size()),j=(i+1+e.r.below(e.s.size()-1))%e.s.size();
    Slot& x=e.s[i];Slot& y=e.s[j];
    const int ti=T::ti;
    if(!y.m.reg[ti])return;
    C& c=*x.c;C& d=*y.c;
    auto& sg=x.m.seg[ti];
    auto& so=y.m.seg[ti];
    if(int(sg.size())>=e.max_size)return;
    std::size_t a=e.r.below(so.size()+1),b=a+e.r.below(so.size()-a+1);
    if(!zoo[ti].copyable)b=a+(b>a);
    std::vector<u64> vals(so.begin()+a,so.begin()+b);
    e.inserted=vals;
    const std::size_t c0=capacity_of(x,ti);
    int v=int(e.r.below(8));
    e.last_variant=v;e.last_ti=ti;
    std::size_t pos=sg.size();
    Hint h=make_hint(e,x,ti);
    if(v>=4){auto p=x.m.at(h.g);if(p.first==ti)pos=p.second;}
    trace("s%d.insert(%slocal range [%zu,%zu) of %s of s%d) kind %d -> pos %zu",e.idx(x),v>=4?"hint,":"",a,b,zoo[ti].name,e.idx(y),v,pos);
    e.touch(x,ti,BASIC);
    const C& cd=d;
    auto call=[&]{
      switch(v){
      case 0:{auto f=d.begin(typeid(T));Arm _;c.insert(f+a,f+b);break;}
      case 1:{auto f=cd.begin(typeid(T));Arm _;c.insert(f+a,f+b);break;}
      case 2:{auto f=d.template begin<T>();Arm _;c.insert(f+a,f+b);break;}
      case 3:{auto f=cd.template begin<T>();Arm _;c.insert(f+a,f+b);break;}
      case 4:{auto f=d.begin(typeid(T));Arm _;c.insert(h.it,f+a,f+b);break;}
      case 5:{auto f=cd.begin(typeid(T));Arm _;c.insert(h.it,f+a,f+b);break;}
      case 6:{auto f=d.template begin<T>();Arm _;c.insert(h.it,f+a,f+b);break;}
      case 7:{auto f=cd.template begin<T>();Arm _;c.insert(h.it,f+a,f+b);break;}
      }
    };
    if(a!=b&&!zoo[ti].copyable){
      expect_throw<bpc::not_copy_constructible>("insert(local range)",typeid(T),call);
      stats().add("not_copy_constructible_seen");
      if(!x.m.reg[ti]&&c.template is_registered<T>())e.model_register(x,ti);
      e.keep(x,ti,0);
      if(pos!=sg.size())resync(e,x);
    }
    else{
      call();
      if(a!=b||c.template is_registered<T>())e.model_register(x,ti);
      e.model_insert(x,ti,pos,vals,c0);
    }
    sig(23,v,ti,(sg.size()>c0)*2+(pos+vals.size()==sg.size()),std::min<std::size_t>(vals.size(),4));
  }
};

// from another collection, global range; mixed references range
static void op_global_range(Eng& e)
{
  if(e.s.size()<2)return;
  std::size_t i=e.r.below(e.s.size()),j=(i+1+e.r.below(e.s.size()-1))%e.s.size();
  Slot& x=e.s[i];Slot& y=e.s[j];
  C& c=*x.c;C& d=*y.c;
  if(int(x.m.size())>=3*e.max_size)return;
  const std::size_t n=y.m.size();
  std::size_t a=e.r.below(n+1),b=a+e.r.below(n-a+1);
  if(e.r.chance(1,4)){a=0;b=n;}
  int v=int(e.r.below(6));
  e.last_variant=v;e.last_ti=-1;
  const int prefer=a<n?y.m.at(a).first:-1;
  Hint h=make_hint(e,x,prefer);
  bool hinted=v==2||v==3||v==5;
  bool refs=v>=4; // external iterators: types are not registered on insertion
  trace("s%d.insert(%sglobal range [%zu,%zu) of s%d) kind %d hint %zu",e.idx(x),hinted?"hint,":"",a,b,e.idx(y),v,h.g);
  for(int t=0;t<NT;++t)e.touch(x,t,BASIC);
  std::vector<const V*> ptr;
  e.inserted.clear();
  for(std::size_t g=a;g<b;++g){
    auto p=y.m.at(g);
    e.inserted.push_back(y.m.seg[p.first][p.second]);
    if(refs)ptr.push_back(std::addressof(*nth(*const_cast<const C*>(&d),g)));
  }
  // simulate
  Mdl r=x.m;
  bool fresh=false;
  int bad_unreg=-1,bad_copy=-1;
  auto hp=x.m.at(h.g);
  std::size_t hpos=hp.second;
  std::size_t caps[NT];
  for(int t=0;t<NT;++t)caps[t]=capacity_of(x,t);
  for(std::size_t g=a;g<b;++g){
    auto p=y.m.at(g);
    const int t=p.first;
    if(!r.reg[t]){
      if(refs){bad_unreg=t;break;}
      r.reg[t]=true;fresh=true;
    }
    if(!zoo[t].copyable){bad_copy=t;break;}
    std::size_t at=hinted&&hp.first==t?hpos++:r.seg[t].size();
    r.seg[t].insert(r.seg[t].begin()+at,y.m.seg[t][p.second]);
  }
  const C& cd=d;
  auto call=[&]{
    switch(v){
    case 0:{auto f=nth(d,a);auto l=nth(d,b);Arm _;c.insert(f,l);break;}
    case 1:{auto f=nth(cd,a);auto l=nth(cd,b);Arm _;c.insert(f,l);break;}
    case 2:{auto f=nth(d,a);auto l=nth(d,b);Arm _;c.insert(h.it,f,l);break;}
    case 3:{auto f=nth(cd,a);auto l=nth(cd,b);Arm _;c.insert(h.it,f,l);break;}
    case 4:{IndirectIt f{ptr.data()},l{ptr.data()+ptr.size()};Arm _;c.insert(f,l);break;}
    case 5:{IndirectIt f{ptr.data()},l{ptr.data()+ptr.size()};Arm _;c.insert(h.it,f,l);break;}
    }
  };
  if(bad_unreg>=0){
    expect_throw<bpc::unregistered_type>("insert(range of references)",true_info(bad_unreg),call);
    stats().add("unregistered_inserts");
  }
  else if(bad_copy>=0){
    expect_throw<bpc::not_copy_constructible>("insert(global range)",true_info(bad_copy),call);
    stats().add("not_copy_constructible_seen");
    if(hinted&&hp.first==bad_copy){resync(e,x);return;} // mid-segment failure
    // registration of the offending type itself is not specified
    e.keep(x,bad_copy,0);
    if(!x.m.reg[bad_copy])r.reg[bad_copy]=c.is_registered(true_info(bad_copy));
  }
  else call();
  for(int t=0;t<NT;++t){
    if(r.seg[t].size()!=x.m.seg[t].size())e.keep(x,t,r.seg[t].size()>caps[t]?0:hinted&&hp.first==t?hp.second:x.m.seg[t].size());
  }
  r.al=x.m.al;
  r.order=x.m.order;
  x.m=r;
  if(fresh)x.order_free=true;
  sig(24,v,b-a,hp.first+1,(bad_unreg>=0)*2+(bad_copy>=0));
}

// range construction
static void op_range_construct(Eng& e)
{
  if(e.s.size()<2)return;
  std::size_t i=e.r.below(e.s.size()),j=(i+1+e.r.below(e.s.size()-1))%e.s.size();
  Slot& x=e.s[i];Slot& y=e.s[j];
  const std::size_t n=y.m.size();
  std::size_t a=e.r.below(n+1),b=a+e.r.below(n-a+1);
  int alid=stateful&&e.r.chance(2,3)?1+int(e.r.below(3)):0;
  trace("s%d=C(global range [%zu,%zu) of s%d, al %d)",e.idx(x),a,b,e.idx(y),alid);
  e.inserted.clear();
  Mdl r;
  r.al=alid;
  int bad=-1;
  for(std::size_t g=a;g<b&&bad<0;++g){
    auto p=y.m.at(g);
    r.reg[p.first]=true;
    if(!zoo[p.first].copyable)bad=p.first;
    else r.seg[p.first].push_back(y.m.seg[p.first][p.second]);
  }
  std::unique_ptr<C> nc;
  const C& cd=*y.c;
  auto f=nth(cd,a),l=nth(cd,b);
  auto call=[&]{
    if(alid==0&&e.r.chance(1,2)){Arm _;nc.reset(new C(f,l));}
    else{Arm _;nc.reset(new C(f,l,make_al(alid)));}
  };
  if(bad>=0){
    expect_throw<bpc::not_copy_constructible>("range construction",true_info(bad),call);
    stats().add("not_copy_constructible_seen");
    return;
  }
  call();
  x.c=std::move(nc);
  x.m=r;
  x.order_free=true;
  x.keep_none=true;
  sig(25,0,b-a,alid,0);
}

static void op_r1(Eng& e){dispatch<rng1>(e,int(e.r.below(NT)));}
static void op_r2(Eng& e){dispatch<rng_move>(e,int(e.r.below(NT)));}
static void op_r3(Eng& e){dispatch<rng_local>(e,int(e.r.below(NT)));}

void add_ops_range(std::vector<Op>& o)
{
  o.push_back({"insert range","range",8,&op_r1});
  o.push_back({"insert moved range","range",4,&op_r2});
  o.push_back({"insert local range","range",6,&op_r3});
  o.push_back({"insert global range","range",5,&op_global_range});
  o.push_back({"construct from range","range",1,&op_range_construct});
}
}
