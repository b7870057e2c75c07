From 495cfb2020ba8c7bd275d66f189dd54081a61af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:58 +0000
Subject: [PATCH 01/14] fix: keep segment end and index in sync when an
 operation throws

An insertion, erasure or reserve exiting via an exception could leave the
cached segment sentinel stale (traversal then ran past the end of the
segment) or the index of function_collection/any_collection segments out
of step with the store: the index was reallocated before the throwing
step, had not enough capacity for its first entry, or was popped before
the store was modified.
---
 .../boost/poly_collection/detail/segment.hpp  | 56 +++++++++++++++---
 .../poly_collection/detail/split_segment.hpp  | 59 ++++++++++++-------
 2 files changed, 86 insertions(+), 29 deletions(-)

diff --git a/include/boost/poly_collection/detail/segment.hpp b/include/boost/poly_collection/detail/segment.hpp
index a080839..a033ac5 100644
--- a/include/boost/poly_collection/detail/segment.hpp
+++ b/include/boost/poly_collection/detail/segment.hpp
@@ -115,32 +115,43 @@ public:
   template<typename U>
   std::size_t          max_size()const noexcept
                          {return impl<U>().nv_max_size();}
-  void                 reserve(std::size_t n){filter(impl().reserve(n));}
+  void                 reserve(std::size_t n)
+                         {sentinel_updater filter{*this};
+                          filter(impl().reserve(n));}
   template<typename U>
-  void                 reserve(std::size_t n){filter(impl<U>().nv_reserve(n));}
+  void                 reserve(std::size_t n)
+                         {sentinel_updater filter{*this};
+                          filter(impl<U>().nv_reserve(n));}
   std::size_t          capacity()const noexcept{return impl().capacity();}
   template<typename U>
   std::size_t          capacity()const noexcept
                          {return impl<U>().nv_capacity();}
-  void                 shrink_to_fit(){filter(impl().shrink_to_fit());}
+  void                 shrink_to_fit()
+                         {sentinel_updater filter{*this};
+                          filter(impl().shrink_to_fit());}
   template<typename U>
-  void                 shrink_to_fit(){filter(impl<U>().nv_shrink_to_fit());}
+  void                 shrink_to_fit()
+                         {sentinel_updater filter{*this};
+                          filter(impl<U>().nv_shrink_to_fit());}
 
   template<typename U,typename Iterator,typename... Args>
   base_iterator emplace(Iterator it,Args&&... args)
   {
+    sentinel_updater filter{*this};
     return filter(impl<U>().nv_emplace(it,std::forward<Args>(args)...));
   }
 
   template<typename U,typename... Args>
   base_iterator emplace_back(Args&&... args)
   {
+    sentinel_updater filter{*this};
     return filter(impl<U>().nv_emplace_back(std::forward<Args>(args)...));
   }
 
   template<typename T>
   base_iterator push_back(const T& x)
   {
+    sentinel_updater filter{*this};
     return filter(impl().push_back(subaddress(x)));
   }
 
@@ -152,12 +163,14 @@ public:
   >
   base_iterator push_back(T&& x)
   {
+    sentinel_updater filter{*this};
     return filter(impl().push_back_move(subaddress(x)));
   }
 
   template<typename U>
   base_iterator push_back_terminal(U&& x)
   {
+    sentinel_updater filter{*this};
     return filter(
       impl<typename std::decay<U>::type>().nv_push_back(std::forward<U>(x)));
   }
@@ -165,12 +178,14 @@ public:
   template<typename T>
   base_iterator insert(const_base_iterator it,const T& x)
   {
+    sentinel_updater filter{*this};
     return filter(impl().insert(it,subaddress(x)));
   }
 
   template<typename U,typename T>
   base_iterator insert(const_iterator<U> it,const T& x)
   {
+    sentinel_updater filter{*this};
     return filter(
       impl<U>().nv_insert(it,*static_cast<const U*>(subaddress(x))));
   }
@@ -183,6 +198,7 @@ public:
   >
   base_iterator insert(const_base_iterator it,T&& x)
   {
+    sentinel_updater filter{*this};
     return filter(impl().insert_move(it,subaddress(x)));
   }
 
@@ -194,6 +210,7 @@ public:
   >
   base_iterator insert(const_iterator<U> it,T&& x)
   {
+    sentinel_updater filter{*this};
     return filter(
       impl<U>().nv_insert(it,std::move(*static_cast<U*>(subaddress(x)))));
   }
@@ -201,6 +218,7 @@ public:
   template<typename InputIterator>
   base_iterator insert(InputIterator first,InputIterator last)
   {
+    sentinel_updater filter{*this};
     return filter(
       impl<typename std::iterator_traits<InputIterator>::value_type>().
         nv_insert(first,last));
@@ -220,40 +238,47 @@ public:
   base_iterator insert(
     const_iterator<U> it,InputIterator first,InputIterator last)
   {
+    sentinel_updater filter{*this};
     return filter(impl<U>().nv_insert(it,first,last));
   }
 
   base_iterator erase(const_base_iterator it)
   {
+    sentinel_updater filter{*this};
     return filter(impl().erase(it));
   }
 
   template<typename U>
   base_iterator erase(const_iterator<U> it)
   {
+    sentinel_updater filter{*this};
     return filter(impl<U>().nv_erase(it));
   }
 
   base_iterator erase(const_base_iterator f,const_base_iterator l)
   {
+    sentinel_updater filter{*this};
     return filter(impl().erase(f,l));
   }
 
   template<typename U>
   base_iterator erase(const_iterator<U> f,const_iterator<U> l)
   {
+    sentinel_updater filter{*this};
     return filter(impl<U>().nv_erase(f,l));
   }
 
   template<typename Iterator>
   base_iterator erase_till_end(Iterator f)
   {
+    sentinel_updater filter{*this};
     return filter(impl().erase_till_end(f));
   }
 
   template<typename Iterator>
   base_iterator erase_from_begin(Iterator l)
   {
+    sentinel_updater filter{*this};
     return filter(impl().erase_from_begin(l));
   }
   
@@ -299,9 +324,26 @@ private:
   template<typename T>
   static const void*   subaddress(const T& x){return Model::subaddress(x);}
 
-  void          set_sentinel(){filter(impl().end());}
-  void          filter(base_sentinel x){snt=x;}
-  base_iterator filter(const range& x){snt=x.second;return x.first;}
+  void          set_sentinel()noexcept{filter(impl().end());}
+  void          filter(base_sentinel x)noexcept{snt=x;}
+
+  /* Updates snt with the value returned by the implementation or, if the
+   * operation throws, with whatever the end of the segment is by then (the
+   * implementation may have been reallocated or partially modified).
+   */
+
+  struct sentinel_updater
+  {
+    sentinel_updater(segment& x)noexcept:seg(x){}
+    ~sentinel_updater(){if(!done)seg.set_sentinel();}
+
+    void operator()(base_sentinel x)noexcept{seg.snt=x;done=true;}
+    base_iterator operator()(const range& x)noexcept
+      {seg.snt=x.second;done=true;return x.first;}
+
+    segment& seg;
+    bool     done=false;
+  };
 
   segment_backend_unique_ptr pimpl;
   base_sentinel              snt;
diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 4c18788..2914e7a 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -128,10 +128,7 @@ public:
 
   base_sentinel nv_reserve(std::size_t n)
   {
-    bool rebuild=n>s.capacity();
-    i.reserve(n+1);
-    s.reserve(n);
-    if(rebuild)rebuild_index();
+    if(n>s.capacity())reallocate(n);
     return sentinel();
   };
 
@@ -165,11 +162,9 @@ public:
   range nv_emplace(Iterator p,Args&&... args)
   {
     auto q=prereserve(p);
-    auto it=s.emplace(
+    return range_from(store_emplace(
       iterator_from(q),
-      value_holder_emplacing_ctor,std::forward<Args>(args)...);
-    push_index_entry();
-    return range_from(it);
+      value_holder_emplacing_ctor,std::forward<Args>(args)...));
   }
 
   template<typename... Args>
@@ -209,9 +204,7 @@ public:
   range nv_insert(const_iterator p,const Concrete& x)
   {
     p=prereserve(p);
-    auto it=s.emplace(iterator_from(p),x);
-    push_index_entry();
-    return range_from(it);
+    return range_from(store_emplace(iterator_from(p),x));
   }
 
   virtual range insert_move(const_base_iterator p,value_pointer x)
@@ -220,9 +213,7 @@ public:
   range nv_insert(const_iterator p,Concrete&& x)
   {
     p=prereserve(p);
-    auto it=s.emplace(iterator_from(p),std::move(x));
-    push_index_entry();
-    return range_from(it);
+    return range_from(store_emplace(iterator_from(p),std::move(x)));
   }
 
   template<typename InputIterator>
@@ -245,8 +236,9 @@ public:
 
   range nv_erase(const_iterator p)
   {
+    auto it=s.erase(iterator_from(p));
     pop_index_entry();
-    return range_from(s.erase(iterator_from(p)));
+    return range_from(it);
   }
     
   virtual range erase(const_base_iterator first,const_base_iterator last)
@@ -314,6 +306,7 @@ private:
     i{{},typename index::allocator_type{al}}
   {
     s.reserve(1); /* --> s.data()!=nullptr */
+    i.reserve(s.capacity()+1);
     build_index();
   }
 
@@ -321,6 +314,7 @@ private:
     s{std::move(s_)},i{{},typename index::allocator_type{s.get_allocator()}}
   {
     s.reserve(1); /* --> s.data()!=nullptr */
+    i.reserve(s.capacity()+1);
     build_index();
   }
 
@@ -365,18 +359,40 @@ private:
       s.size()<=1||(s.max_size()-1-s.size())/2<s.size()?
         s.size()+1:
         s.size()+s.size()/2;
-    i.reserve(c+1);
-    s.reserve(c);
-    rebuild_index();
+    reallocate(c);
   }
 
   void expand(std::size_t m)
   {
-    i.reserve(s.size()+m+1);
-    s.reserve(s.size()+m);
+    reallocate(s.size()+m);
+  }
+
+  /* i is left untouched if s.reserve throws */
+
+  void reallocate(std::size_t c)
+  {
+    index ii{{},i.get_allocator()};
+    ii.reserve(c+1);
+    s.reserve(c);
+    i.swap(ii);
     rebuild_index();
   }
 
+  template<typename... Args>
+  store_iterator store_emplace(store_iterator p,Args&&... args)
+  {
+    store_iterator it;
+    try{
+      it=s.emplace(p,std::forward<Args>(args)...);
+    }
+    catch(...){
+      build_index(i.size()); /* s may have grown */
+      throw;
+    }
+    push_index_entry();
+    return it;
+  }
+
   void build_index(std::size_t start=0)
   {
     for(std::size_t n=start,m=s.size();n<=m;++n){
@@ -470,8 +486,7 @@ private:
     std::size_t n=0;
     for(;first!=last;++first,++n,++p){
       p=prereserve(p);
-      s.emplace(iterator_from(p),*first);
-      push_index_entry();
+      store_emplace(iterator_from(p),*first);
     }
     return range_from(iterator_from(p-n));
   }
-- 
2.43.0


From 642ceb9287bb7b74ad412428c3365b1fddc12472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:26 +0000
Subject: [PATCH 02/14] fix: inserting an element of the collection into itself
 on reallocation

In function_collection and any_collection, insert(x) and emplace<T>(args...)
with x or args referring to elements of the same segment read them after the
segment storage had been reallocated (use after free).
---
 .../poly_collection/detail/split_segment.hpp  | 72 +++++++------------
 1 file changed, 26 insertions(+), 46 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 2914e7a..50c4f0c 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -161,19 +161,17 @@ public:
   template<typename Iterator,typename... Args>
   range nv_emplace(Iterator p,Args&&... args)
   {
-    auto q=prereserve(p);
     return range_from(store_emplace(
-      iterator_from(q),
+      iterator_from(p),
       value_holder_emplacing_ctor,std::forward<Args>(args)...));
   }
 
   template<typename... Args>
   range nv_emplace_back(Args&&... args)
   {
-    prereserve();
-    s.emplace_back(value_holder_emplacing_ctor,std::forward<Args>(args)...);
-    push_index_entry();
-    return range_from(s.size()-1);
+    return range_from(store_emplace(
+      s.end(),
+      value_holder_emplacing_ctor,std::forward<Args>(args)...));
   }
 
   virtual range push_back(const_value_pointer x)
@@ -181,10 +179,7 @@ public:
 
   range nv_push_back(const Concrete& x)
   {
-    prereserve();
-    s.emplace_back(x);
-    push_index_entry();
-    return range_from(s.size()-1);
+    return range_from(store_emplace(s.end(),x));
   }
 
   virtual range push_back_move(value_pointer x)
@@ -192,10 +187,7 @@ public:
 
   range nv_push_back(Concrete&& x)
   {
-    prereserve();
-    s.emplace_back(std::move(x));
-    push_index_entry();
-    return range_from(s.size()-1);
+    return range_from(store_emplace(s.end(),std::move(x)));
   }
 
   virtual range insert(const_base_iterator p,const_value_pointer x)
@@ -203,7 +195,6 @@ public:
 
   range nv_insert(const_iterator p,const Concrete& x)
   {
-    p=prereserve(p);
     return range_from(store_emplace(iterator_from(p),x));
   }
 
@@ -212,7 +203,6 @@ public:
 
   range nv_insert(const_iterator p,Concrete&& x)
   {
-    p=prereserve(p);
     return range_from(store_emplace(iterator_from(p),std::move(x)));
   }
 
@@ -318,31 +308,6 @@ private:
     build_index();
   }
 
-  void prereserve()
-  {
-    if(s.size()==s.capacity())expand();
-  }
-
-  const_base_iterator prereserve(const_base_iterator p)
-  {
-    if(s.size()==s.capacity()){
-      auto n=p-i.data();
-      expand();
-      return const_base_iterator{i.data()+n};
-    }
-    else return p;
-  }
-
-  const_iterator prereserve(const_iterator p)
-  {
-    if(s.size()==s.capacity()){
-      auto n=p-const_concrete_ptr(s.data());
-      expand();
-      return const_concrete_ptr(s.data())+n;
-    }
-    else return p;
-  }
-
   const_iterator prereserve(const_iterator p,std::size_t m)
   {
     if(s.size()+m>s.capacity()){
@@ -380,6 +345,23 @@ private:
 
   template<typename... Args>
   store_iterator store_emplace(store_iterator p,Args&&... args)
+  {
+    if(s.size()<s.capacity()){
+      return unchecked_store_emplace(p,std::forward<Args>(args)...);
+    }
+    else{
+      /* args may refer to elements of s: use them before reallocating */
+
+      auto  n=p-s.begin();
+      store ss{s.get_allocator()};
+      ss.emplace_back(std::forward<Args>(args)...);
+      expand();
+      return unchecked_store_emplace(s.begin()+n,std::move(ss.front()));
+    }
+  }
+
+  template<typename... Args>
+  store_iterator unchecked_store_emplace(store_iterator p,Args&&... args)
   {
     store_iterator it;
     try{
@@ -484,11 +466,9 @@ private:
     std::input_iterator_tag)
   {
     std::size_t n=0;
-    for(;first!=last;++first,++n,++p){
-      p=prereserve(p);
-      store_emplace(iterator_from(p),*first);
-    }
-    return range_from(iterator_from(p-n));
+    auto        it=iterator_from(p);
+    for(;first!=last;++first,++n,++it)it=store_emplace(it,*first);
+    return range_from(it-n);
   }
 
   template<typename InputIterator>
-- 
2.43.0


From f3f4de1a340afc1469882a43e493f7023b557e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:46 +0000
Subject: [PATCH 03/14] fix: restitute previous element across segments in
 adjacent_find and unique_copy

The type information of the last element visited was passed by value, so that
the pair formed by the last element of a segment and the first of the next one
was always passed to the predicate with the former unrestituted.
---
 include/boost/poly_collection/algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index 67c4fc3..ab737b7 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -244,7 +244,7 @@ struct adjacent_find_alg
   >
   LocalBaseIterator operator()(
     LocalIterator first,LocalIterator last,BinaryPredicate pred,
-    bool& carry,const std::type_info* prev_info, /* note the &s */
+    bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
     if(first==last)return LocalBaseIterator{last};
@@ -955,7 +955,7 @@ struct unique_copy_alg
   OutputIterator operator()(
     LocalIterator first,LocalIterator last,
     OutputIterator res, BinaryPredicate pred,
-    bool& carry,const std::type_info* prev_info, /* note the &s */
+    bool& carry,const std::type_info*& prev_info, /* note the &s */
     LocalBaseIterator& prev)const
   {
     if(carry){
-- 
2.43.0


From 9aede26f2f4f594a12a1fa286b7b9499ab41b064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:55:46 +0000
Subject: [PATCH 04/14] fix: propagate allocator to internal type cache on copy
 assignment

With an allocator type with POCCA true and POCMA false, the cache kept the
allocator the collection had before the assignment.
---
 include/boost/poly_collection/detail/type_info_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/poly_collection/detail/type_info_map.hpp b/include/boost/poly_collection/detail/type_info_map.hpp
index f983b82..2932fd7 100644
--- a/include/boost/poly_collection/detail/type_info_map.hpp
+++ b/include/boost/poly_collection/detail/type_info_map.hpp
@@ -100,8 +100,8 @@ public:
   {
     if(this!=&x)try{
       map=x.map;
-      cache=make<cache_type>(map.get_allocator());
-      build_cache(x.cache);
+      cache=x.cache;
+      rebuild_cache();
     }
     catch(...){
       map.clear();
-- 
2.43.0


From 278154665acb4d5a9c8edf70b82c2df6a7acb77b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:02 +0000
Subject: [PATCH 05/14] fix: make copy_n accept any integral count type, as
 std::copy_n does

---
 include/boost/poly_collection/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index ab737b7..a879bdf 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -778,7 +778,7 @@ OutputIterator copy_n(const Iterator& first,Size count,OutputIterator res)
   auto lbit=traits::local_base_iterator_from(first);
   auto sit=traits::base_segment_info_iterator_from(first);
   for(;;){
-    auto n=(std::min)(count,sit->end()-lbit);
+    auto n=(std::min)(static_cast<std::ptrdiff_t>(count),sit->end()-lbit);
     auto alg=restitute_iterator<Ts...>(std_copy_n{},n,res);
     res=alg(sit->type_info(),lbit);
     if((count-=n)==0)break;
-- 
2.43.0


From 9ab9953648245717a81cf939e063c5570787710f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:02 +0000
Subject: [PATCH 06/14] fix: allow function_collection signatures returning a
 reference

---
 include/boost/poly_collection/detail/callable_wrapper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/callable_wrapper.hpp b/include/boost/poly_collection/detail/callable_wrapper.hpp
index 9b339db..442dcb1 100644
--- a/include/boost/poly_collection/detail/callable_wrapper.hpp
+++ b/include/boost/poly_collection/detail/callable_wrapper.hpp
@@ -78,7 +78,7 @@ private:
   static table* info(Callable&)noexcept
   {
     static table t={
-      [](void* p,Args... args){
+      [](void* p,Args... args)->R{
         auto r=std::ref(*static_cast<Callable*>(p));
         return static_cast<R>(r(std::forward<Args>(args)...));
       },
-- 
2.43.0


From 327d1321eabac674acde353a3881c476b5bddb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:56:30 +0000
Subject: [PATCH 07/14] fix: throw std::length_error when reserving beyond
 max_size

In function_collection and any_collection, reserve(n) with n>max_size() could
try to allocate the index first and throw std::bad_alloc, and max_size() did
not take the limits of the index into account.
---
 include/boost/poly_collection/detail/split_segment.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 50c4f0c..0e4f491 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -13,11 +13,13 @@
 #pragma once
 #endif
 
+#include <algorithm>
 #include <boost/poly_collection/detail/segment_backend.hpp>
 #include <boost/poly_collection/detail/value_holder.hpp>
 #include <iterator>
 #include <memory>
 #include <new>
+#include <stdexcept>
 #include <utility>
 #include <vector>
 
@@ -120,7 +122,8 @@ public:
   virtual std::size_t   size()const noexcept{return nv_size();}
   std::size_t           nv_size()const noexcept{return s.size();}
   virtual std::size_t   max_size()const noexcept{return nv_max_size();}
-  std::size_t           nv_max_size()const noexcept{return s.max_size()-1;}
+  std::size_t           nv_max_size()const noexcept
+                         {return (std::min)(s.max_size(),i.max_size())-1;}
   virtual std::size_t   capacity()const noexcept{return nv_capacity();}
   std::size_t           nv_capacity()const noexcept{return s.capacity();}
 
@@ -128,6 +131,9 @@ public:
 
   base_sentinel nv_reserve(std::size_t n)
   {
+    if(n>nv_max_size()){
+      throw std::length_error("poly_collection segment: n>max_size()");
+    }
     if(n>s.capacity())reallocate(n);
     return sentinel();
   };
-- 
2.43.0


From 06240d12eb0948d98dfea853ce3915ab5ea79dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:15:46 +0000
Subject: [PATCH 08/14] fix: amortize range insertion in split segments

Insertion of forward ranges grew storage to exactly the needed size, so that
repeated insertion of short ranges was quadratic in the size of the segment.
---
 include/boost/poly_collection/detail/split_segment.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/boost/poly_collection/detail/split_segment.hpp b/include/boost/poly_collection/detail/split_segment.hpp
index 0e4f491..de8c4f3 100644
--- a/include/boost/poly_collection/detail/split_segment.hpp
+++ b/include/boost/poly_collection/detail/split_segment.hpp
@@ -324,18 +324,13 @@ private:
     else return p;
   }
 
-  void expand()
+  void expand(std::size_t m=1)
   {
     std::size_t c=
       s.size()<=1||(s.max_size()-1-s.size())/2<s.size()?
         s.size()+1:
         s.size()+s.size()/2;
-    reallocate(c);
-  }
-
-  void expand(std::size_t m)
-  {
-    reallocate(s.size()+m);
+    reallocate((std::max)(c,s.size()+m));
   }
 
   /* i is left untouched if s.reserve throws */
-- 
2.43.0


From 20b65fdc3e22ac6fd0bddf73949a9cbcac40423a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:41:25 +0000
Subject: [PATCH 09/14] fix: reallocate segments of move-only types with
 throwing move constructor

Growing a segment of a non-copyable type whose move constructor may throw
resulted in not_copy_constructible rather than in elements being moved.
---
 .../boost/poly_collection/detail/value_holder.hpp   | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/value_holder.hpp b/include/boost/poly_collection/detail/value_holder.hpp
index b4cef22..a343e08 100644
--- a/include/boost/poly_collection/detail/value_holder.hpp
+++ b/include/boost/poly_collection/detail/value_holder.hpp
@@ -80,6 +80,17 @@ class value_holder:public value_holder_base<T>
   using is_nothrow_equality_comparable=
     detail::is_nothrow_equality_comparable<T>;
 
+  /* If T is not copy constructible and its move ctor may throw, value_holder
+   * can't have a copy ctor proper or else std::vector (move_if_noexcept) would
+   * use it on reallocation. Allocator-based copying is available in any case.
+   */
+
+  struct no_copy_ctor;
+  using copy_ctor_arg=typename std::conditional<
+    is_copy_constructible::value||is_nothrow_move_constructible::value,
+    const value_holder,no_copy_ctor
+  >::type;
+
   T*       data()noexcept{return reinterpret_cast<T*>(&this->s);}
   const T* data()const noexcept
                 {return reinterpret_cast<const T*>(&this->s);}
@@ -139,7 +150,7 @@ public:
   template<typename... Args>
   value_holder(value_holder_emplacing_ctor_t,Args&&... args)
     {::new ((void*)data()) T(std::forward<Args>(args)...);}
-  value_holder(const value_holder& x)
+  value_holder(copy_ctor_arg& x)
     noexcept(is_nothrow_copy_constructible::value)
     {copy(x.value());}
   value_holder(value_holder&& x)
-- 
2.43.0


From 64c21118b7fefc0125591e23310490a0dbc900ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:53:48 +0000
Subject: [PATCH 10/14] fix: leave source in a valid state when
 allocator-extended move construction fails

Segments already moved from were left in an inconsistent state if moving a
later segment threw.
---
 include/boost/poly_collection/detail/type_info_map.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/type_info_map.hpp b/include/boost/poly_collection/detail/type_info_map.hpp
index 2932fd7..1e115a7 100644
--- a/include/boost/poly_collection/detail/type_info_map.hpp
+++ b/include/boost/poly_collection/detail/type_info_map.hpp
@@ -81,7 +81,8 @@ public:
   type_info_map(const type_info_map& x,const allocator_type& al):
     map{make(x.map,al)},cache{make<cache_type>(al)}
     {build_cache(x.cache);}
-  type_info_map(type_info_map&& x,const allocator_type& al):
+  type_info_map(type_info_map&& x,const allocator_type& al)
+  try:
     map{make(std::move(x.map),al)},
     cache{
       al==allocator_type{x.map.get_allocator()}&&x.map.empty()?
@@ -95,6 +96,11 @@ public:
     x.map.clear();
     x.cache.clear();
   }
+  catch(...){
+    x.map.clear();
+    x.cache.clear();
+    throw;
+  }
 
   type_info_map& operator=(const type_info_map& x)
   {
-- 
2.43.0


From f0b46d4d4c042b972bffce32e5b8910dda3d6552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:17 +0000
Subject: [PATCH 11/14] fix: keep allocators in sync when copy assignment fails

With propagate_on_container_copy_assignment, a copy assignment that threw left
the internal type cache with the old allocator.
---
 include/boost/poly_collection/detail/type_info_map.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/type_info_map.hpp b/include/boost/poly_collection/detail/type_info_map.hpp
index 1e115a7..bd226e1 100644
--- a/include/boost/poly_collection/detail/type_info_map.hpp
+++ b/include/boost/poly_collection/detail/type_info_map.hpp
@@ -110,8 +110,11 @@ public:
       rebuild_cache();
     }
     catch(...){
+      /* map's allocator may have been propagated already */
+
+      const auto empty_cache=make<cache_type>(map.get_allocator());
       map.clear();
-      cache.clear();
+      cache=empty_cache;
       throw;
     }
     return *this;
-- 
2.43.0


From 14d4d17790158a30fa2d3c46270d2e6251d1190a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:46:11 +0000
Subject: [PATCH 12/14] fix: sample with count types narrower than the size of
 the range

---
 include/boost/poly_collection/algorithm.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/poly_collection/algorithm.hpp b/include/boost/poly_collection/algorithm.hpp
index a879bdf..e540810 100644
--- a/include/boost/poly_collection/algorithm.hpp
+++ b/include/boost/poly_collection/algorithm.hpp
@@ -19,6 +19,7 @@
 #include <boost/poly_collection/detail/iterator_traits.hpp>
 #include <boost/poly_collection/detail/segment_split.hpp>
 #include <boost/poly_collection/detail/type_restitution.hpp>
+#include <cstdint>
 #include <iterator>
 #include <random>
 #include <type_traits>
@@ -1044,13 +1045,16 @@ OutputIterator sample(
   const Iterator& first,const Iterator& last,
   OutputIterator res,Distance n,UniformRandomBitGenerator&& g)
 {
-  Distance m=algorithm::fast_distance(first,last);
-  n=(std::min)(n,m);
+  /* Distance may be narrower than needed to hold the size of the range */
+
+  auto m=algorithm::fast_distance(first,last);
+  auto k=static_cast<std::uintmax_t>(n)<static_cast<std::uintmax_t>(m)?
+         static_cast<std::ptrdiff_t>(n):m;
 
   for(auto i:detail::segment_split(first,last)){
-    auto alg=restitute_range<Ts...>(sample_alg{},res,n,m,g);
+    auto alg=restitute_range<Ts...>(sample_alg{},res,k,m,g);
     res=alg(i);
-    if(n==0)return res;
+    if(k==0)return res;
   }
   return res; /* never reached */
 }
-- 
2.43.0


From 4ca6eb774c846330c5e553572ca503095fd3c116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:23 +0000
Subject: [PATCH 13/14] fix: function_collection with callables overloading
 unary operator&

---
 include/boost/poly_collection/detail/callable_wrapper.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/callable_wrapper.hpp b/include/boost/poly_collection/detail/callable_wrapper.hpp
index 442dcb1..af7c9d2 100644
--- a/include/boost/poly_collection/detail/callable_wrapper.hpp
+++ b/include/boost/poly_collection/detail/callable_wrapper.hpp
@@ -13,6 +13,7 @@
 #pragma once
 #endif
 
+#include <boost/core/addressof.hpp>
 #include <boost/poly_collection/detail/is_invocable.hpp>
 #include <functional>
 #include <type_traits>
@@ -41,7 +42,8 @@ public:
       is_invocable_r<R,Callable,Args...>::value
     >::type* =nullptr
   >
-  explicit callable_wrapper(Callable& x)noexcept:pt{info(x)},px{&x}{}
+  explicit callable_wrapper(Callable& x)noexcept:
+    pt{info(x)},px{boost::addressof(x)}{}
   callable_wrapper(const callable_wrapper&)=default;
   callable_wrapper& operator=(const callable_wrapper&)=default;
 
-- 
2.43.0


From f1dc57d9cd0e98b87d47d098f54e48c26b4ff325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:57:14 +0000
Subject: [PATCH 14/14] fix: function_collection with callables whose
 operator() is not const

---
 .../poly_collection/detail/callable_wrapper_iterator.hpp      | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp b/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp
index fb3ca23..9485c48 100644
--- a/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp
+++ b/include/boost/poly_collection/detail/callable_wrapper_iterator.hpp
@@ -69,7 +69,9 @@ public:
   template<
     typename Callable,
     typename std::enable_if<
-      std::is_constructible<CWrapper,Callable&>::value&&
+      std::is_constructible<
+        CWrapper,typename std::remove_const<Callable>::type&
+      >::value&&
       (!std::is_const<CWrapper>::value||std::is_const<Callable>::value)
     >::type* =nullptr
   >
-- 
2.43.0

