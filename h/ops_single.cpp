// Insertion of single elements, statically typed.
#include "engine.hpp"
namespace pcv{

template<typename T>
void expect_at_typed(Eng& e,Slot& x,typename C::template const_local_iterator<T> it,std::size_t pos,const char* what);

// a hint: any position of the collection including the end
struct Hint{std::size_t g;CIt it;};
static Hint make_hint(Eng& e,Slot& x,int prefer)
{
  const C& c=*x.c;
  std::size_t n=x.m.size(),g;
  if(x.m.reg[prefer]&&!x.m.seg[prefer].empty()&&e.r.chance(2,3))
    g=x.m.gpos(prefer,e.r.below(x.m.seg[prefer].size()));
  else g=e.r.below(n+1);
  return {g,nth(c,g)};
}
// position in segment ti where an element is to be inserted with this hint
static std::size_t hint_pos(Slot& x,const Hint& h,int ti)
{
  auto p=x.m.at(h.g);
  return p.first==ti?p.second:x.m.seg[ti].size();
}

template<typename T> struct ins
{
  static constexpr bool copyable=std::is_copy_constructible<T>::value;
  using LI=typename C::template local_iterator<T>;
  using CLI=typename C::template const_local_iterator<T>;

  static std::size_t cap(Slot& x){return capacity_of(x,T::ti);}

  static void done(Eng& e,Slot& x,std::size_t pos,u64 v,std::size_t c0)
  {
    e.model_register(x,T::ti);
    e.model_insert(x,T::ti,pos,{v},c0);
    // refresh order knowledge for position computations
    if(x.order_free){
      x.m.order.clear();
      for(auto sg:const_cast<const C&>(*x.c).segment_traversal())x.m.order.push_back(ti_from(sg.type_info()));
    }
  }
  // guarantee offered when inserting at given position
  static int guar(Slot& x,std::size_t pos)
  {
    return pos==x.m.seg[T::ti].size()&&T::ti!=TI_X?STRONG:BASIC;
  }

  // insertion by copy: throws for non copyable types
  template<typename F>
  static void by_copy(Eng& e,Slot& x,const T& v,F f)
  {
    if(copyable)f();
    else{
      bool was=x.m.reg[T::ti];
      expect_throw<bpc::not_copy_constructible>(e.opname,typeid(T),f);
      if(!was&&x.c->template is_registered<T>())e.model_register(x,T::ti); // may or may not have registered the type
      stats().add("not_copy_constructible_seen");
      e.keep(x,T::ti,0);
      e.last_variant+=1000;
    }
    PCV_CHECK(v.t.st==ALIVE,"argument","copied-from argument was modified");
  }

  // constructor arguments of all value categories; each is to reach the
  // constructor once and as what it was given
  template<typename F>
  static void with_args(Eng& e,u64 val,F f)
  {
    Val  a{val};
    int  n=0;
    int  form=int(e.r.below(4));
    switch(form){
      case 0:f(Val{val});break;
      case 1:f(std::move(a));break;
      case 2:f(a,n,"");break;
      default:f(static_cast<const Val&>(a));break;
    }
    stats().add("emplace_argument_forms");
    PCV_CHECK(form!=2||n==1,"argument","emplace arguments used %d times",n);
    if(form==1)PCV_CHECK(a.moved,"argument","rvalue passed to emplace reached the constructor as an lvalue");
    else PCV_CHECK(!a.moved,"argument","lvalue passed to emplace was moved from");
  }

  static std::size_t rpos(Eng& e,Slot& x){return e.r.below(x.m.seg[T::ti].size()+1);}

  static void run(Eng& e)
  {
    Slot& x=e.pick();
    C& c=*x.c;
    auto& sg=x.m.seg[T::ti];
    const int ti=T::ti;
    if(int(sg.size())>=e.max_size)return;
    int v=int(e.r.below(17));
    const u64 val=e.val();
    const std::size_t c0=cap(x);
    e.last_variant=v;e.last_ti=ti;
    e.inserted={val};
    const bool full=sg.size()==c0;
    bool local=v>=7&&v<=14;
    if(local&&!x.m.reg[ti])v=int(e.r.below(7));
    std::size_t pos=sg.size();
    switch(v){
    case 0:{
      trace("s%d.insert(const %s& #%llu)",e.idx(x),zoo[ti].name,(unsigned long long)val);
      const T a(Val{val});
      e.touch(x,ti,guar(x,pos));
      by_copy(e,x,a,[&]{It it;{Arm _;it=c.insert(a);}done(e,x,pos,val,c0);expect_at(e,x,it,ti,pos,"insert(const T&)");});
      break;}
    case 1:{
      trace("s%d.insert(%s&& #%llu)",e.idx(x),zoo[ti].name,(unsigned long long)val);
      T a(Val{val});
      e.touch(x,ti,guar(x,pos));
      It it;{Arm _;it=c.insert(std::move(a));}
      done(e,x,pos,val,c0);
      expect_at(e,x,it,ti,pos,"insert(T&&)");
      if(zoo[ti].moves)PCV_CHECK(a.t.st==MOVED,"argument","rvalue inserted by copy");
      break;}
    case 2:{
      Hint h=make_hint(e,x,ti);
      pos=hint_pos(x,h,ti);
      trace("s%d.insert(hint %zu, const %s& #%llu) -> pos %zu",e.idx(x),h.g,zoo[ti].name,(unsigned long long)val,pos);
      const T a(Val{val});
      e.touch(x,ti,guar(x,pos));
      by_copy(e,x,a,[&]{It it;{Arm _;it=c.insert(h.it,a);}done(e,x,pos,val,c0);expect_at(e,x,it,ti,pos,"insert(hint,const T&)");});
      break;}
    case 3:{
      Hint h=make_hint(e,x,ti);
      pos=hint_pos(x,h,ti);
      trace("s%d.insert(hint %zu, %s&& #%llu) -> pos %zu",e.idx(x),h.g,zoo[ti].name,(unsigned long long)val,pos);
      T a(Val{val});
      e.touch(x,ti,guar(x,pos));
      It it;{Arm _;it=c.insert(h.it,std::move(a));}
      done(e,x,pos,val,c0);
      expect_at(e,x,it,ti,pos,"insert(hint,T&&)");
      break;}
    case 4:{
      trace("s%d.emplace<%s>(#%llu)",e.idx(x),zoo[ti].name,(unsigned long long)val);
      e.touch(x,ti,guar(x,pos));
      It it;with_args(e,val,[&](auto&&... as){Arm _;it=c.template emplace<T>(std::forward<decltype(as)>(as)...);});
      done(e,x,pos,val,c0);
      expect_at(e,x,it,ti,pos,"emplace<T>");
      break;}
    case 5:{
      trace("s%d.emplace<%s>(#%llu,n,\"\")",e.idx(x),zoo[ti].name,(unsigned long long)val);
      int n=0;
      e.touch(x,ti,guar(x,pos));
      It it;{Arm _;it=c.template emplace<T>(Val{val},n,"");}
      PCV_CHECK(n==1,"argument","emplace arguments used %d times",n);
      done(e,x,pos,val,c0);
      expect_at(e,x,it,ti,pos,"emplace<T>");
      break;}
    case 6:{
      Hint h=make_hint(e,x,ti);
      pos=hint_pos(x,h,ti);
      trace("s%d.emplace_hint<%s>(hint %zu, #%llu) -> pos %zu",e.idx(x),zoo[ti].name,h.g,(unsigned long long)val,pos);
      e.touch(x,ti,guar(x,pos));
      It it;
      with_args(e,val,[&](auto&&... as){Arm _;it=c.template emplace_hint<T>(h.it,std::forward<decltype(as)>(as)...);});
      done(e,x,pos,val,c0);
      expect_at(e,x,it,ti,pos,"emplace_hint<T>");
      break;}
    case 7:case 8:{
      pos=rpos(e,x);
      trace("s%d.emplace_pos<%s>(%slocal base %zu, #%llu)",e.idx(x),zoo[ti].name,v==7?"":"const ",pos,(unsigned long long)val);
      e.touch(x,ti,guar(x,pos));
      LB it;
      with_args(e,val,[&](auto&&... as){
        if(v==7){auto p=c.begin(info_of<T>(e))+pos;Arm _;it=c.template emplace_pos<T>(p,std::forward<decltype(as)>(as)...);}
        else{auto p=c.cbegin(info_of<T>(e))+pos;Arm _;it=c.template emplace_pos<T>(p,std::forward<decltype(as)>(as)...);}
      });
      done(e,x,pos,val,c0);
      expect_at(e,x,CLB(it),ti,pos,"emplace_pos<T>(local base)");
      break;}
    case 9:case 10:{
      pos=rpos(e,x);
      trace("s%d.emplace_pos(%slocal<%s> %zu, #%llu)",e.idx(x),v==9?"":"const ",zoo[ti].name,pos,(unsigned long long)val);
      e.touch(x,ti,guar(x,pos));
      LI it;
      with_args(e,val,[&](auto&&... as){
        if(v==9){auto p=c.template begin<T>()+pos;Arm _;it=c.emplace_pos(p,std::forward<decltype(as)>(as)...);}
        else{auto p=c.template cbegin<T>()+pos;Arm _;it=c.emplace_pos(p,std::forward<decltype(as)>(as)...);}
      });
      done(e,x,pos,val,c0);
      expect_at_typed<T>(e,x,it,pos,"emplace_pos(local)");
      break;}
    case 11:case 12:{
      pos=rpos(e,x);
      trace("s%d.insert(%slocal base %zu, %s #%llu)",e.idx(x),v==11?"":"const ",pos,zoo[ti].name,(unsigned long long)val);
      T a(Val{val});
      e.touch(x,ti,guar(x,pos));
      if(v==11){
        auto p=c.begin(info_of<T>(e))+pos;
        const T& ca=a;
        by_copy(e,x,a,[&]{LB it;{Arm _;it=c.insert(p,ca);}done(e,x,pos,val,c0);expect_at(e,x,CLB(it),ti,pos,"insert(local base,const T&)");});
      }
      else{
        auto p=c.cbegin(info_of<T>(e))+pos;
        LB it;{Arm _;it=c.insert(p,std::move(a));}
        done(e,x,pos,val,c0);
        expect_at(e,x,CLB(it),ti,pos,"insert(local base,T&&)");
      }
      break;}
    case 13:case 14:{
      pos=rpos(e,x);
      trace("s%d.insert(%slocal<%s> %zu, #%llu)",e.idx(x),v==13?"":"const ",zoo[ti].name,pos,(unsigned long long)val);
      T a(Val{val});
      e.touch(x,ti,guar(x,pos));
      if(v==13){
        auto p=c.template begin<T>()+pos;
        LI it;{Arm _;it=c.insert(p,std::move(a));}
        done(e,x,pos,val,c0);
        expect_at_typed<T>(e,x,it,pos,"insert(local,T&&)");
      }
      else{
        auto p=c.template cbegin<T>()+pos;
        const T& ca=a;
        by_copy(e,x,a,[&]{LI it;{Arm _;it=c.insert(p,ca);}done(e,x,pos,val,c0);expect_at_typed<T>(e,x,it,pos,"insert(local,const T&)");});
      }
      break;}
    case 15:{
      trace("s%d.emplace<%s>(%s&& #%llu)",e.idx(x),zoo[ti].name,zoo[ti].name,(unsigned long long)val);
      T a(Val{val});
      e.touch(x,ti,guar(x,pos));
      It it;{Arm _;it=c.template emplace<T>(std::move(a));}
      done(e,x,pos,val,c0);
      expect_at(e,x,it,ti,pos,"emplace<T>(T&&)");
      break;}
    case 16:{
      const u64 w=val;
      trace("s%d.emplace<%s>(const u64& %llu)",e.idx(x),zoo[ti].name,(unsigned long long)val);
      e.touch(x,ti,guar(x,pos));
      It it;{Arm _;it=c.template emplace<T>(w);}
      done(e,x,pos,val,c0);
      expect_at(e,x,it,ti,pos,"emplace<T>(const u64&)");
      break;}
    }
    sig(1,v,ti,full*2+(pos==sg.size()),std::min<std::size_t>(sg.size(),4));
  }
};

/* arguments which refer to elements of the very collection being modified */

template<typename T,bool=std::is_copy_constructible<T>::value> struct alias_copy
{
  static It   ins_typed(C& c,const T& a){Arm _;return c.insert(a);}
  static It   ins_hint(C& c,CIt h,const T& a){Arm _;return c.insert(h,a);}
  static It   empl(C& c,const T& a){Arm _;return c.template emplace<T>(a);}
  static It   empl_hint(C& c,CIt h,const T& a){Arm _;return c.template emplace_hint<T>(h,a);}
  template<typename P>
  static auto ins_pos(C& c,P p,const T& a)->decltype(c.insert(p,a)){Arm _;return c.insert(p,a);}
  template<typename P>
  static auto empl_pos(C& c,P p,const T& a)->decltype(c.emplace_pos(p,a)){Arm _;return c.emplace_pos(p,a);}
  static LB empl_lb(C& c,LB p,const T& a){Arm _;return c.template emplace_pos<T>(p,a);}
};

template<typename T,bool=std::is_copy_constructible<T>::value> struct alias_ops
{
  static void run(Eng& e)
  {
    Slot& x=e.pick();
    C& c=*x.c;
    auto& sg=x.m.seg[T::ti];
    const int ti=T::ti;
    if(sg.empty()||int(sg.size())>=e.max_size)return;
    const std::size_t src=e.r.below(sg.size());
    const u64 val=sg[src];
    const std::size_t c0=capacity_of(x,ti);
    const bool full=sg.size()==c0;
    e.inserted={val};
    int v=int(e.r.below(10));
    e.last_variant=v;e.last_ti=ti;
    std::size_t pos=sg.size();
    auto tb=c.template begin<T>();
    T& own=*(tb+src);
    auto g=[&](std::size_t p){e.touch(x,ti,p==sg.size()?STRONG:BASIC);};
    auto done=[&](const char*){e.model_insert(x,ti,pos,{val},c0);};
    static const char* const names[]={"insert(typed)","insert(base ref)","insert(hint,typed)","insert(hint,base ref)","emplace",
      "emplace_hint","insert(local)","emplace_pos(local)","emplace_pos(local base)","emplace_pos(local,subobject)"};
    trace("s%d.%s own element %zu of %s%s",e.idx(x),names[v],src,zoo[ti].name,full?" (reallocating)":"");
    switch(v){
    case 0:{g(pos);It it=alias_copy<T>::ins_typed(c,own);done("insert(typed)");expect_at(e,x,it,ti,pos,"insert(own element)");break;}
    case 1:{g(pos);V& vr=*(c.begin(typeid(T))+src);It it;{Arm _;it=c.insert(vr);}done("insert(base ref)");expect_at(e,x,it,ti,pos,"insert(own element)");break;}
    case 2:{
      pos=e.r.below(sg.size());g(pos);
      CIt h=nth(*const_cast<const C*>(&c),x.m.gpos(ti,pos));
      It it=alias_copy<T>::ins_hint(c,h,own);done("insert(hint,typed)");expect_at(e,x,it,ti,pos,"insert(hint,own element)");break;}
    case 3:{
      pos=e.r.below(sg.size());g(pos);
      CIt h=nth(*const_cast<const C*>(&c),x.m.gpos(ti,pos));
      const V& vr=*(c.cbegin(typeid(T))+src);
      It it;{Arm _;it=c.insert(h,vr);}done("insert(hint,base ref)");expect_at(e,x,it,ti,pos,"insert(hint,own element)");break;}
    case 4:{g(pos);It it=alias_copy<T>::empl(c,own);done("emplace(typed)");expect_at(e,x,it,ti,pos,"emplace(own element)");break;}
    case 5:{
      pos=e.r.below(sg.size());g(pos);
      CIt h=nth(*const_cast<const C*>(&c),x.m.gpos(ti,pos));
      It it=alias_copy<T>::empl_hint(c,h,own);done("emplace_hint");expect_at(e,x,it,ti,pos,"emplace_hint(own element)");break;}
    case 6:{
      pos=e.r.below(sg.size()+1);g(pos);
      auto it=alias_copy<T>::ins_pos(c,tb+pos,own);done("insert(local)");expect_at_typed<T>(e,x,it,pos,"insert(local,own element)");break;}
    case 7:{
      pos=e.r.below(sg.size()+1);g(pos);
      auto it=alias_copy<T>::empl_pos(c,tb+pos,own);done("emplace_pos(local)");expect_at_typed<T>(e,x,it,pos,"emplace_pos(local,own element)");break;}
    case 8:{
      pos=e.r.below(sg.size()+1);g(pos);
      LB it=alias_copy<T>::empl_lb(c,c.begin(typeid(T))+pos,own);done("emplace_pos(local base)");expect_at(e,x,CLB(it),ti,pos,"emplace_pos(local base,own element)");break;}
    case 9:{
      // constructor argument is a subobject of an element
      pos=e.r.below(sg.size()+1);g(pos);
      auto p=tb+pos;
      auto it=p;
      {Arm _;it=c.emplace_pos(p,const_cast<const u64&>(own.t.val));}
      done("emplace_pos(local,subobject)");expect_at_typed<T>(e,x,it,pos,"emplace_pos(local,own subobject)");break;}
    }
    stats().add(full?"alias_insert_reallocating":"alias_insert");
    sig(2,v,ti,full*4+(pos>src)*2+(pos==sg.size()-1),std::min<std::size_t>(sg.size(),4));
  }
};
template<typename T> struct alias_ops<T,false>
{
  static void run(Eng& e)
  {
    Slot& x=e.pick();
    C& c=*x.c;
    auto& sg=x.m.seg[T::ti];
    const int ti=T::ti;
    if(sg.empty()||int(sg.size())>=e.max_size)return;
    const std::size_t src=e.r.below(sg.size());
    const u64 val=sg[src];
    const std::size_t c0=capacity_of(x,ti);
    e.inserted={val};
    e.last_variant=0;e.last_ti=ti;
    if(e.r.chance(1,2)){
      std::size_t pos=sg.size();
      e.touch(x,ti,ti==TI_X?BASIC:STRONG);
      T& own=*(c.template begin<T>()+src);
      It it;{Arm _;it=c.template emplace<T>(const_cast<const u64&>(own.t.val));}
      trace("s%d.emplace<%s>(subobject of own element %zu)",e.idx(x),zoo[ti].name,src);
      e.model_insert(x,ti,pos,{val},c0);
      expect_at(e,x,it,ti,pos,"emplace(own subobject)");
    }
    else{
      trace("s%d.insert(own element %zu of %s) by copy",e.idx(x),src,zoo[ti].name);
      e.touch(x,ti,STRONG);
      V& vr=*(c.begin(typeid(T))+src);
      expect_throw<bpc::not_copy_constructible>("insert(own element)",typeid(T),[&]{Arm _;c.insert(vr);});
      e.keep(x,ti,0);
      stats().add("not_copy_constructible_seen");
    }
    sig(3,0,ti,0,std::min<std::size_t>(sg.size(),4));
  }
};
template<typename T> struct alias1:alias_ops<T>{};

static void op_single(Eng& e){dispatch<ins>(e,int(e.r.below(NT)));}
static void op_alias(Eng& e)
{
  // prefer a type present in the collections
  int ti=int(e.r.below(NT));
  for(int k=0;k<NT;++k,ti=(ti+1)%NT){
    bool any=false;
    for(auto& x:e.s)any=any||!x.m.seg[ti].empty();
    if(any)break;
  }
  dispatch<alias1>(e,ti);
}

void add_ops_single(std::vector<Op>& o)
{
  o.push_back({"insert","single",30,&op_single});
  o.push_back({"insert own element","alias",6,&op_alias});
}
}
