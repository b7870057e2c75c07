// Instrumented stateful allocator: remembers who allocated what, checks that
// construct/destroy are only used on elements.
#ifndef PCV_ALLOC_HPP
#define PCV_ALLOC_HPP
#include "core.hpp"
#include "zoo.hpp"
#include <algorithm>
#include <memory>
#include <new>

namespace pcv{

struct Block{std::size_t bytes;int id;std::size_t align;};
struct AllocLog
{
  std::unordered_map<void*,Block> live;
  std::unordered_map<void*,int>   built; // address -> id of constructing allocator
  bool track_built=false;
  std::vector<int> used;                 // allocators asked for memory or construction inside the library call
  u64  constructs=0,destroys=0;
};
inline AllocLog& alloc_log(){static auto* l=new AllocLog;return *l;}

template<typename T> struct zoo_index{enum{value=-1};};
template<int K> struct zoo_index<A<K>>{enum{value=TI_A};};
template<int K> struct zoo_index<D<K>>{enum{value=TI_D};};
template<int K> struct zoo_index<Q<K>>{enum{value=TI_Q};};
template<int K> struct zoo_index<M<K>>{enum{value=TI_M};};
template<int K> struct zoo_index<N<K>>{enum{value=TI_N};};
template<int K> struct zoo_index<L<K>>{enum{value=TI_L};};
template<int K> struct zoo_index<S<K>>{enum{value=TI_S};};
template<int K> struct zoo_index<X<K>>{enum{value=TI_X};};

template<int Bits> struct Prop // 1: POCCA, 2: POCMA, 4: POCS, 8: SOCCC gives id+100
{
  enum{bits=Bits};
};

template<typename T,int Bits>
struct TrackAlloc
{
  using value_type=T;
  using propagate_on_container_copy_assignment=std::integral_constant<bool,(Bits&1)!=0>;
  using propagate_on_container_move_assignment=std::integral_constant<bool,(Bits&2)!=0>;
  using propagate_on_container_swap=std::integral_constant<bool,(Bits&4)!=0>;
  using is_always_equal=std::false_type;
  template<typename U> struct rebind{using other=TrackAlloc<U,Bits>;};

  int id;
  explicit TrackAlloc(int id=0)noexcept:id(id){}
  template<typename U>
  TrackAlloc(const TrackAlloc<U,Bits>& x)noexcept:id(x.id){}
  TrackAlloc(const TrackAlloc& x)noexcept:id(x.id){}
  TrackAlloc& operator=(const TrackAlloc&)=default;

  TrackAlloc select_on_container_copy_construction()const
  {return TrackAlloc((Bits&8)&&id<1000000?id+100:id);}

  void note_use()const
  {
    if(!injector().armed)return;
    auto& u=alloc_log().used;
    if(std::find(u.begin(),u.end(),id)==u.end())u.push_back(id);
  }
  T* allocate(std::size_t n)
  {
    tick(F_ALLOC);
    if(n>(std::size_t(1)<<28)/sizeof(T))throw std::bad_alloc();
    std::size_t al=alignof(T)<alignof(std::max_align_t)?alignof(std::max_align_t):alignof(T);
    void* p=al>alignof(std::max_align_t)?
      std::aligned_alloc(al,(n*sizeof(T)+al-1)/al*al):std::malloc(n*sizeof(T)+(n==0));
    if(!p)throw std::bad_alloc();
    ++counters().alloc;
    note_use();
    alloc_log().live[p]=Block{n*sizeof(T),id,al};
    return static_cast<T*>(p);
  }
  void deallocate(T* p,std::size_t n)noexcept
  {
    ++counters().dealloc;
    auto it=alloc_log().live.find(p);
    if(it==alloc_log().live.end())violation("allocator","deallocation of unknown or already freed block");
    if(it->second.bytes!=n*sizeof(T))violation("allocator","block of %zu bytes deallocated as %zu bytes",it->second.bytes,n*sizeof(T));
    if(it->second.id!=id)violation("allocator","block allocated by allocator %d deallocated through allocator %d",it->second.id,id);
    alloc_log().live.erase(it);
    std::free(p);
  }
  template<typename U,typename... Args>
  void construct(U* p,Args&&... args)
  {
    static_assert(!std::is_const<U>::value,"");
    if(int(zoo_index<U>::value)<0)violation("allocator","construct called for a type which is not an element type: %s",typeid(U).name());
    ++alloc_log().constructs;
    note_use();
    ::new((void*)p) U(std::forward<Args>(args)...);
    if(alloc_log().track_built)alloc_log().built[(void*)p]=id;
  }
  template<typename U>
  void destroy(U* p)
  {
    if(int(zoo_index<U>::value)<0)violation("allocator","destroy called for a type which is not an element type: %s",typeid(U).name());
    ++alloc_log().destroys;
    if(alloc_log().track_built){
      auto it=alloc_log().built.find((void*)p);
      if(it==alloc_log().built.end()){
        if(int(zoo_index<U>::value)!=TI_N)violation("allocator","element destroyed through the allocator was not constructed through it");
      }
      else{
        if(it->second!=id)violation("allocator","element constructed by allocator %d destroyed through allocator %d",it->second,id);
        alloc_log().built.erase(it);
      }
    }
    p->~U();
  }
  friend bool operator==(const TrackAlloc& x,const TrackAlloc& y)noexcept{return x.id==y.id;}
  friend bool operator!=(const TrackAlloc& x,const TrackAlloc& y)noexcept{return x.id!=y.id;}
};

}
#endif
