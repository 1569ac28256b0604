From 0fcc523ea7f3c95dcbd5a9f06293853ea83f2cdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 01/62] fix: qualify range-v3 names so every container header
 can be included together

Once xme::ranges is declared (array.hpp does), the unqualified `ranges::`
inside namespace xme stops meaning range-v3: including array_view.hpp or
linked_list.hpp after array.hpp, or container.hpp / spsc_queue.hpp alone,
failed to compile.
---
 include/xme/container/array_view.hpp  | 10 +++++-----
 include/xme/container/linked_list.hpp |  6 +++---
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/container/array_view.hpp b/include/xme/container/array_view.hpp
index 4131700..050049a 100644
--- a/include/xme/container/array_view.hpp
+++ b/include/xme/container/array_view.hpp
@@ -90,12 +90,12 @@ public:
       ArrayView(first, std::ranges::distance(first, last)) {}
 
     //! Create an ArrayView pointing to begin(range) up to end(range)
-    template<ranges::contiguous_range R>
-        requires(ranges::sized_range<R>) && (ranges::borrowed_range<R>)
+    template<::ranges::contiguous_range R>
+        requires(::ranges::sized_range<R>) && (::ranges::borrowed_range<R>)
                 && (!detail::is_std_array<std::remove_cvref_t<R>>)
                 && (!std::is_array_v<std::remove_cvref_t<R>>)
                 && (!detail::is_array_view<std::remove_cvref_t<R>>)
-    constexpr ArrayView(R&& range) noexcept : ArrayView(ranges::data(range), ranges::size(range)) {}
+    constexpr ArrayView(R&& range) noexcept : ArrayView(::ranges::data(range), ::ranges::size(range)) {}
 
     //! Create an ArrayView pointing to a C-Style array
     template<std::size_t Lenght>
@@ -222,8 +222,8 @@ ArrayView(const std::array<T, N>&) -> ArrayView<const T, N>;
 template<std::contiguous_iterator Iter, typename End>
 ArrayView(Iter, End) -> ArrayView<std::remove_reference_t<std::iter_reference_t<Iter>>>;
 
-template<ranges::contiguous_range R>
-ArrayView(R&&) -> ArrayView<std::remove_reference_t<ranges::range_reference_t<R>>>;
+template<::ranges::contiguous_range R>
+ArrayView(R&&) -> ArrayView<std::remove_reference_t<::ranges::range_reference_t<R>>>;
 
 //! Creates a readonly byte ArrayView of any ArrayView
 template<typename T, std::size_t Size>
diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index 65eac38..95d3ff9 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -72,7 +72,7 @@ public:
     }
 
     //! Constructs a LinkedList from [begin(range), end(range)) range
-    template<ranges::input_range R>
+    template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
     explicit constexpr LinkedList(R&& range) {
         range_initialize(::ranges::begin(range), ::ranges::end(range));
@@ -153,7 +153,7 @@ public:
     template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
     constexpr void assign(R&& range) {
-        assign(::ranges::begin(range), ranges::end(range));
+        assign(::ranges::begin(range), ::ranges::end(range));
     }
 
     //! Creates a node at the front by copying value
@@ -190,7 +190,7 @@ public:
     //! Inserts a [begin(range), end(range)) range of nodes after pos
     //! @returns an iterator to the last inserted element.
     template<::ranges::input_range R>
-        requires(std::is_convertible_v<ranges::range_reference_t<R>, T>)
+        requires(std::is_convertible_v<::ranges::range_reference_t<R>, T>)
     constexpr auto insert_after(const_iterator pos, R&& range) -> iterator {
         return insert_after(pos, ::ranges::begin(range), ::ranges::end(range));
     }
-- 
2.43.0


From b7954f60a238a1c056139a782ffb6931caf82373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 02/62] fix: uninitialized_copy_a must destroy what it
 constructed when a copy throws

The rollback destroyed [in_first, out_curr): a range made of the input's
iterator and the output's one. That does not compile unless both iterators
have the same type, and destroys foreign objects when it does.
---
 include/xme/ranges/uninitialized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/ranges/uninitialized.hpp b/include/xme/ranges/uninitialized.hpp
index 3110362..e9eded8 100644
--- a/include/xme/ranges/uninitialized.hpp
+++ b/include/xme/ranges/uninitialized.hpp
@@ -17,7 +17,7 @@ struct {
             }
         }
         catch(...) {
-            ranges::destroy_a(in_first, out_curr, alloc);
+            ranges::destroy_a(out_first, out_curr, alloc);
             throw;
         }
         return {in_first, out_curr};
-- 
2.43.0


From b4049ebd46d2f0a4a234f2c86b8364d6b0db8fc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 03/62] fix: Array must construct elements in new storage
 instead of assigning to raw memory

grow_storage and shrink_storage (reserve, resize, push_back, emplace_back)
move-assigned elements to uninitialized memory and released the old storage
without destroying the moved-from elements.
---
 include/xme/container/array.hpp | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 2dad1a4..e61011c 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -282,11 +282,38 @@ public:
     }
 
 private:
+    //! Move constructs [first, last) in the uninitialized memory starting at out.
+    //! If a constructor throws, everything that was created is destroyed.
+    constexpr void uninitialized_move(pointer first, pointer last, pointer out) {
+        pointer curr = out;
+        try {
+            for(; first != last; ++first, (void)++curr)
+                alloc_traits::construct(m_allocator, curr, std::move(*first));
+        }
+        catch(...) {
+            ranges::destroy_a(out, curr, m_allocator);
+            throw;
+        }
+    }
+
+    //! Moves [begin, last) to the uninitialized storage of n elements starting at new_begin,
+    //! and destroys every element of the current storage.
+    constexpr void relocate(pointer last, pointer new_begin, size_type n) {
+        try {
+            uninitialized_move(m_data.begin, last, new_begin);
+        }
+        catch(...) {
+            m_allocator.deallocate(new_begin, n);
+            throw;
+        }
+        ranges::destroy_a(*this, m_allocator);
+    }
+
     constexpr void grow_storage(size_type n) {
         const auto old_size = this->size();
         pointer new_begin   = m_allocator.allocate(n);
 
-        std::ranges::move(*this, new_begin);
+        relocate(m_data.end, new_begin, n);
         if(m_data.begin)
             m_allocator.deallocate(m_data.begin, capacity());
         m_data.begin       = new_begin;
@@ -298,8 +325,7 @@ private:
         size_type elements_to_move = std::min(this->size(), n);
         pointer new_begin          = m_allocator.allocate(n);
 
-        std::ranges::move(begin(), begin() + elements_to_move, new_begin);
-        ranges::destroy_a(m_data.begin + elements_to_move, m_data.end, m_allocator);
+        relocate(m_data.begin + elements_to_move, new_begin, n);
         m_allocator.deallocate(m_data.begin, capacity());
         m_data.begin       = new_begin;
         m_data.end         = new_begin + elements_to_move;
-- 
2.43.0


From f4908217e1d65ef0c6cb7ca4cacb45eca2715498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 04/62] fix: Array::insert must construct elements in new
 storage when it reallocates

realloc_insert move-assigned elements to uninitialized memory, released the
old storage without destroying the moved-from elements, and destroyed an
element that was never created when its constructor threw.
---
 include/xme/container/array.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index e61011c..f7d111e 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -338,18 +338,24 @@ private:
         const size_type new_size        = this->size() + std::max(this->size(), size_type(1));
         const size_type curr_size       = this->size();
         pointer new_start               = m_allocator.allocate(new_size);
+        pointer new_first               = new_start + elements_before;
+        pointer new_last                = new_first;
         try {
             alloc_traits::construct(
               m_allocator, new_start + elements_before, std::forward<Args>(args)...);
-            std::ranges::move(begin(), pos, new_start);
-            std::ranges::move(pos, end(), new_start + elements_before + 1);
+            ++new_last;
+            uninitialized_move(m_data.begin, m_data.begin + elements_before, new_start);
+            new_first = new_start;
+            uninitialized_move(m_data.begin + elements_before, m_data.end, new_last);
         }
         catch(...) {
-            ranges::destroy_at_a(new_start + elements_before, m_allocator);
+            ranges::destroy_a(new_first, new_last, m_allocator);
             m_allocator.deallocate(new_start, new_size);
             throw;
         }
-        m_allocator.deallocate(m_data.begin, capacity());
+        ranges::destroy_a(*this, m_allocator);
+        if(m_data.begin)
+            m_allocator.deallocate(m_data.begin, capacity());
         m_data.begin       = new_start;
         m_data.end         = new_start + (curr_size + 1);
         m_data.storage_end = new_start + new_size;
-- 
2.43.0


From f05b94cb7407a70a13e5bcb4f72b2ccd1e203986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 05/62] fix: Array must accept one of its own elements as the
 value to add

push_back, emplace_back and insert grew the storage or shifted the elements
before reading the value: a.push_back(a[0]) on a full array read memory that
was already released, and a.insert(pos, a[k]) inserted the wrong value.
---
 include/xme/container/array.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index f7d111e..3708bff 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -166,10 +166,12 @@ public:
         else if(m_data.end == m_data.storage_end) {
             return realloc_insert(p, std::forward<U>(value));
         }
+        // value may be an element of the array
+        T tmp(std::forward<U>(value));
         alloc_traits::construct(m_allocator, m_data.end, std::move(*(m_data.end - 1)));
         ++m_data.end;
         std::move_backward(p, m_data.end - 2, m_data.end - 1);
-        *p = std::forward<U>(value);
+        *p = std::move(tmp);
         return p;
     }
 
@@ -253,7 +255,7 @@ public:
     template<typename... Args>
     constexpr auto emplace_back(Args&&... args) -> reference {
         if(m_data.end == m_data.storage_end)
-            grow_storage(this->size() + std::max(this->size(), size_type(1)));
+            return *realloc_insert(end(), std::forward<Args>(args)...);
 
         alloc_traits::construct(m_allocator, m_data.end, std::forward<Args>(args)...);
         ++m_data.end;
-- 
2.43.0


From 376da648245e11df2bebba11c7eba8878fcc08ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 06/62] fix: Array::insert of a range must not write over live
 elements or to raw memory

With spare capacity it shifted the tail by assigning to uninitialized memory
and constructed the new elements over live ones; without it, it assigned the
old elements to the uninitialized storage of a temporary that used a default
constructed allocator, and leaked what it had created if a copy threw.
---
 include/xme/container/array.hpp | 31 +++++++------------------------
 1 file changed, 7 insertions(+), 24 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 3708bff..bec9eca 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -2,6 +2,7 @@
 #include "concepts.hpp"
 #include "range/v3/iterator/traits.hpp"
 #include "xme/container/icontainer.hpp"
+#include <algorithm>
 #include <cassert>
 #include <xme/core/iterators/reverse_iterator.hpp>
 #include <xme/ranges/destroy.hpp>
@@ -181,31 +182,13 @@ public:
     //! @returns an iterator to the first inserted element.
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr auto insert(const_iterator pos, Iter first, Sent last) -> iterator {
-        auto p             = const_cast<pointer>(pos.operator->());
-        size_type elements = std::ranges::distance(first, last);
-        if(this->size() + elements > capacity()) {
-            Array tmp(capacity() == 0 ? elements : capacity() + elements);
-            size_type elements_before = std::ranges::distance(begin(), pos);
-
-            // Must be constructed first, so if it throws we don't break the original
-            // array
-            for(std::size_t n = 0; first != last; ++first, ++n)
-                alloc_traits::construct(
-                  m_allocator, tmp.m_data.begin + elements_before + n, *first);
-
-            std::ranges::move(::ranges::cbegin(*this), pos, tmp.begin());
-            std::ranges::move(pos, ::ranges::cend(*this), tmp.begin() + elements_before + elements);
-            tmp.m_data.end = tmp.m_data.begin + this->size() + elements;
-            std::ranges::swap(m_data, tmp.m_data);
-
-            return begin() + elements_before;
-        }
+        const size_type elements_before = const_cast<pointer>(pos.operator->()) - m_data.begin;
+        const size_type old_size        = this->size();
 
-        std::move_backward(pos, ::ranges::cend(*this), end() + elements);
-        m_data.end += elements;
-        for(std::size_t n = 0; first != last; ++first, ++n)
-            alloc_traits::construct(m_allocator, p + n, *first);
-        return p;
+        // Constructed after the elements of the array, so if it throws we don't break them
+        push_back(std::move(first), std::move(last));
+        std::rotate(m_data.begin + elements_before, m_data.begin + old_size, m_data.end);
+        return begin() + elements_before;
     }
 
     //! Inserts [begin(range), end(range)) in a specified position..
-- 
2.43.0


From c329e0b87d3c5b781548119665528062b0345fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 07/62] fix: Array::erase must destroy the elements left over
 at the end

erase destroyed the erased elements, assigned to them after that, and never
destroyed the last ones, which were copied (not moved) to their new place.
---
 include/xme/container/array.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index bec9eca..0d98eeb 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -249,9 +249,9 @@ public:
     //! @returns an iterator pointing to the element after it
     constexpr auto erase(const_iterator pos) -> iterator {
         auto p = const_cast<pointer>(pos.operator->());
-        ranges::destroy_at_a(p, m_allocator);
-        std::ranges::move(std::ranges::next(pos), ::ranges::cend(*this), p);
+        std::ranges::move(p + 1, m_data.end, p);
         --m_data.end;
+        ranges::destroy_at_a(m_data.end, m_allocator);
         return p;
     }
 
@@ -260,9 +260,9 @@ public:
     constexpr auto erase(const_iterator first, const_iterator last) -> iterator {
         auto p             = const_cast<pointer>(first.operator->());
         size_type elements = std::ranges::distance(first, last);
-        ranges::destroy_n_a(p, elements, m_allocator);
-        std::ranges::move(first + elements, ::ranges::cend(*this), p);
+        std::ranges::move(p + elements, m_data.end, p);
         m_data.end -= elements;
+        ranges::destroy_n_a(m_data.end, elements, m_allocator);
         return p;
     }
 
-- 
2.43.0


From 334bc5e1e3964ebe63b2e305e0bf9a198018ab11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:13 +0000
Subject: [PATCH 08/62] fix: Array::push_back of a single pass range must not
 read it twice

The length of the range was measured before reading it, so nothing (or
garbage) was left to append when the range is an input range.
---
 include/xme/container/array.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index 0d98eeb..e59ebfe 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -210,13 +210,20 @@ public:
     //! Pushes [first, last) to the end of the array.
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
     constexpr void push_back(Iter first, Sent last) {
-        size_type new_capacity = this->size() + std::ranges::distance(first, last);
-        if(new_capacity > capacity()) {
-            grow_storage(new_capacity);
+        if constexpr(!std::forward_iterator<Iter>) {
+            // Can only be read once, so its length isn't known beforehand
+            for(; first != last; ++first)
+                emplace_back(*first);
         }
-        for(; first != last; ++first) {
-            alloc_traits::construct(m_allocator, m_data.end, *first);
-            ++m_data.end;
+        else {
+            size_type new_capacity = this->size() + std::ranges::distance(first, last);
+            if(new_capacity > capacity()) {
+                grow_storage(new_capacity);
+            }
+            for(; first != last; ++first) {
+                alloc_traits::construct(m_allocator, m_data.end, *first);
+                ++m_data.end;
+            }
         }
     }
 
-- 
2.43.0


From 88eda444044127d61b5b7dee5b88c78b50625b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 09/62] fix: Heap must accept ranges that don't know their size

The range constructor is declared for every input range, but didn't compile
unless the range is a sized one (std::forward_list, filtered views, ...).
---
 include/xme/container/heap.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/heap.hpp b/include/xme/container/heap.hpp
index 96ae60d..5bb9321 100644
--- a/include/xme/container/heap.hpp
+++ b/include/xme/container/heap.hpp
@@ -39,7 +39,8 @@ public:
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
                 && (!std::is_same_v<Heap, std::remove_cvref_t<R>>)
     constexpr Heap(R&& range) {
-        m_array.reserve(::ranges::size(range));
+        if constexpr(::ranges::sized_range<R>)
+            m_array.reserve(::ranges::size(range));
         auto first = ::ranges::begin(range);
         auto last  = ::ranges::end(range);
         for(; first != last; ++first) {
-- 
2.43.0


From 47c64f48160698438c0e7e84963c20f205a5280f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 10/62] fix: LinkedList constructors must release their nodes
 when an element throws

The destructor doesn't run for an object whose constructor throws, so every
node created before the exception leaked. Delegating to the default
constructor makes the object complete before nodes are added.
---
 include/xme/container/linked_list.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index 95d3ff9..a443b28 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -38,7 +38,7 @@ public:
     constexpr LinkedList() noexcept = default;
 
     //! Default constructs N nodes
-    explicit constexpr LinkedList(std::size_t n) {
+    explicit constexpr LinkedList(std::size_t n) : LinkedList() {
         node_base* curr = &m_head;
         for(; n > 0; --n) {
             curr->next = create_node();
@@ -47,7 +47,7 @@ public:
     }
 
     //! Constructs N nodes with value
-    constexpr LinkedList(std::size_t n, const T& value) {
+    constexpr LinkedList(std::size_t n, const T& value) : LinkedList() {
         node_base* curr = &m_head;
         for(; n > 0; --n) {
             curr->next = create_node(value);
@@ -57,24 +57,24 @@ public:
 
     //! Constructs a LinkedList from a [first, end) range
     template<std::input_iterator Iter, std::sentinel_for<Iter> Sent>
-    constexpr LinkedList(Iter first, Sent last) {
+    constexpr LinkedList(Iter first, Sent last) : LinkedList() {
         range_initialize(first, last);
     }
 
     //! Constructs a LinkedList with the initializer_list syntax
-    explicit constexpr LinkedList(std::initializer_list<T> list) {
+    explicit constexpr LinkedList(std::initializer_list<T> list) : LinkedList() {
         range_initialize(list.begin(), list.end());
     }
 
     //! Constructs a LinkedList by Copying elements from other.
-    explicit constexpr LinkedList(const LinkedList& other) {
+    explicit constexpr LinkedList(const LinkedList& other) : LinkedList() {
         range_initialize(other.begin(), other.end());
     }
 
     //! Constructs a LinkedList from [begin(range), end(range)) range
     template<::ranges::input_range R>
         requires(std::convertible_to<::ranges::range_reference_t<R>, T>)
-    explicit constexpr LinkedList(R&& range) {
+    explicit constexpr LinkedList(R&& range) : LinkedList() {
         range_initialize(::ranges::begin(range), ::ranges::end(range));
     }
 
-- 
2.43.0


From 7e47c8e14e7ff883be98ba7c4377107f2463f1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 11/62] fix: Delegate must be copyable

The manager took its source by non const reference, so copying a Delegate
(construction or assignment) didn't compile.
---
 include/xme/core/functional/delegate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 50eda81..d5fc6e1 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -92,7 +92,7 @@ public:
 
         static constexpr void destroy(AnyData& f) noexcept { destroy_functor<is_local_storage>(f); }
 
-        static constexpr void manager(AnyData& dest, AnyData& source, EOperation op) {
+        static constexpr void manager(AnyData& dest, const AnyData& source, EOperation op) {
             switch(op) {
             case EOperation::copy:    create_functor(dest, *handle(source)); break;
             case EOperation::destroy: destroy(dest); break;
@@ -198,7 +198,7 @@ public:
 private:
     AnyData m_storage{};
     R (*m_callable)(const AnyData&, Args...)          = nullptr;
-    void (*m_manager)(AnyData&, AnyData&, EOperation) = nullptr;
+    void (*m_manager)(AnyData&, const AnyData&, EOperation) = nullptr;
 };
 
 namespace detail {
-- 
2.43.0


From d350a0a8ceea22db0585f0d672b3a98ac420596a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 12/62] fix: Delegate must accept a callable passed by lvalue

FunctorManager was instantiated with the deduced reference type, so creating
or assigning a Delegate from a named callable didn't compile.
---
 include/xme/core/functional/delegate.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index d5fc6e1..e8fe9ea 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -134,11 +134,11 @@ public:
 
     template<CDifferentFromSelf<Delegate> Fn>
     constexpr Delegate(Fn&& fn) {
-        using Manager = FunctorManager<Fn>;
+        using Manager = FunctorManager<std::decay_t<Fn>>;
         if(!is_empty_function(fn)) {
             Manager::create_functor(m_storage, std::forward<Fn>(fn));
-            m_callable = &FunctorManager<Fn>::invoke;
-            m_manager  = &FunctorManager<Fn>::manager;
+            m_callable = &Manager::invoke;
+            m_manager  = &Manager::manager;
         }
     }
 
-- 
2.43.0


From 45395eb13cc5570e94bea7be94803546361a3485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 13/62] fix: Delegate must not relocate small functors byte by
 byte

Moving or swapping a Delegate copies the bytes of its storage, which isn't
valid for a functor stored there that isn't trivially copyable: one that
knows its own address (std::string, std::list, ...) was left dangling.
---
 include/xme/core/functional/delegate.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index e8fe9ea..b391fbf 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -56,7 +56,9 @@ public:
         static constexpr std::size_t max_size  = sizeof(AnyCallable);
         static constexpr std::size_t max_align = alignof(AnyCallable);
         static constexpr bool is_local_storage =
-          sizeof(Functor) <= max_size && alignof(Functor) <= max_align;
+          sizeof(Functor) <= max_size && alignof(Functor) <= max_align
+          // The storage is copied byte by byte when a Delegate is moved or swapped
+          && std::is_trivially_copyable_v<Functor>;
 
         static constexpr auto invoke(const AnyData& functor, Args... args) -> R {
             return std::invoke(*handle(functor), std::forward<Args>(args)...);
-- 
2.43.0


From 664f42fa0d68d1a77f7f800f60bb1d9017f0ef01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 14/62] fix: Delegate::handle must return the functor when it
 is stored in the heap

It returned the address of the pointer to the functor as if it were the
functor.
---
 include/xme/core/functional/delegate.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index b391fbf..193cee2 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -192,7 +192,7 @@ public:
     template<typename Functor>
     constexpr auto handle() const noexcept -> const Functor* {
         if(m_manager == &FunctorManager<Functor>::manager) {
-            return static_cast<const Functor*>(m_storage.access());
+            return FunctorManager<Functor>::handle(m_storage);
         }
         return nullptr;
     }
-- 
2.43.0


From 913339d7f710f6f18653dab2326a87850b109077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:12 +0000
Subject: [PATCH 15/62] fix: ReverseIterator must order earlier positions
 before later ones

The comparison followed the underlying iterators, which advance in the
opposite direction: it + 1 < it, in contradiction with operator-.
---
 include/xme/core/iterators/reverse_iterator.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/iterators/reverse_iterator.hpp b/include/xme/core/iterators/reverse_iterator.hpp
index e9da22a..f939c99 100644
--- a/include/xme/core/iterators/reverse_iterator.hpp
+++ b/include/xme/core/iterators/reverse_iterator.hpp
@@ -121,7 +121,11 @@ public:
 
     constexpr bool operator==(const self& rhs) const noexcept = default;
 
-    constexpr auto operator<=>(const self& rhs) const noexcept = default;
+    constexpr auto operator<=>(const self& rhs) const noexcept
+        requires(std::three_way_comparable<It>)
+    {
+        return rhs.m_current <=> m_current;
+    }
 
     template<typename U>
     friend constexpr bool operator==(const ReverseIterator<It>& lhs,
@@ -132,7 +136,7 @@ public:
     template<typename U>
     friend constexpr auto operator<=>(const ReverseIterator<It>& lhs,
                                       const ReverseIterator<U>& rhs) noexcept {
-        return lhs.operator->() <=> rhs.operator->();
+        return rhs.operator->() <=> lhs.operator->();
     }
 
 private:
-- 
2.43.0


From 19056ac6b459b4890fb6e926e2bfdf5b66633059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 16/62] fix: find must not require the range to be aligned

Dereferencing a __m256i*/__m128i* is an aligned load: searching a range that
doesn't start in a multiple of 32/16 bytes crashed.
---
 include/xme/core/algorithm/find.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index d6f5981..67d5115 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -14,25 +14,25 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
 #if XME_SIMD_USE_AVX2
     if constexpr(size == 1) {
         const __m256i needle     = _mm256_set1_epi8(*(std::int8_t*)value);
-        const __m256i comp       = _mm256_cmpeq_epi8(*(__m256i*)data, needle);
+        const __m256i comp       = _mm256_cmpeq_epi8(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
         const __m256i needle     = _mm256_set1_epi16(*(std::int16_t*)value);
-        const __m256i comp       = _mm256_cmpeq_epi16(*(__m256i*)data, needle);
+        const __m256i comp       = _mm256_cmpeq_epi16(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint32_t mask = _mm256_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
         const __m256i needle    = _mm256_set1_epi32(*(std::int32_t*)value);
-        const __m256i comp      = _mm256_cmpeq_epi32(*(__m256i*)data, needle);
+        const __m256i comp      = _mm256_cmpeq_epi32(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_ps(*(__m256*)&comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 8) {
         const __m256i needle    = _mm256_set1_epi64x(*(std::int64_t*)value);
-        const __m256i comp      = _mm256_cmpeq_epi64(*(__m256i*)data, needle);
+        const __m256i comp      = _mm256_cmpeq_epi64(_mm256_loadu_si256((const __m256i*)data), needle);
         const std::uint8_t mask = _mm256_movemask_pd(*(__m256d*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
@@ -40,25 +40,25 @@ XME_INLINE auto find_simd(const void* data, const void* const value) {
 #elif XME_SIMD_USE_SSE2
     if constexpr(size == 1) {
         const __m128i needle     = _mm_set1_epi8(*(std::int8_t*)value);
-        const __m128i comp       = _mm_cmpeq_epi8(*(__m128i*)data, needle);
+        const __m128i comp       = _mm_cmpeq_epi8(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask);
     }
     else if constexpr(size == 2) {
         const __m128i needle     = _mm_set1_epi16(*(std::int16_t*)value);
-        const __m128i comp       = _mm_cmpeq_epi16(*(__m128i*)data, needle);
+        const __m128i comp       = _mm_cmpeq_epi16(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint16_t mask = _mm_movemask_epi8(comp);
         return std::countr_zero(mask) >> 1;
     }
     else if constexpr(size == 4) {
         const __m128i needle    = _mm_set1_epi32(*(std::int32_t*)value);
-        const __m128i comp      = _mm_cmpeq_epi32(*(__m128i*)data, needle);
+        const __m128i comp      = _mm_cmpeq_epi32(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_ps(*(__m128*)&comp);
         return mask == 0 ? 4 : std::countr_zero(mask);
     }
     else if constexpr(size == 8) {
         const __m128i needle    = _mm_set1_epi64x(*(std::int64_t*)value);
-        const __m128i comp      = _mm_cmpeq_epi64(*(__m128i*)data, needle);
+        const __m128i comp      = _mm_cmpeq_epi64(_mm_loadu_si128((const __m128i*)data), needle);
         const std::uint8_t mask = _mm_movemask_pd(*(__m128d*)&comp);
         return mask == 0 ? 2 : std::countr_zero(mask);
     }
-- 
2.43.0


From a623097ca32f038b695c11dbfb95ed67c6e7a7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 17/62] fix: find must use the equality of the elements

The SIMD path compared bytes whatever the type is: it missed 0.0 when looking
for -0.0, found a NaN, ignored a user defined operator==, and didn't compile
for types that aren't 1, 2, 4 or 8 bytes long.
---
 include/xme/core/algorithm/find.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index 67d5115..fc5e150 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -74,7 +74,11 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE2
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I>
+    // Equality must be the equality of the bytes
+    constexpr bool is_bitwise =
+      std::is_integral_v<T> || std::is_enum_v<T> || std::is_pointer_v<T>;
+
+    if constexpr(::ranges::contiguous_iterator<I> && is_bitwise && sizeof(T) <= 8
                  && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
         static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
-- 
2.43.0


From efd2872c9bd8cccb9a168fcd525f6b7b4af58967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 18/62] fix: reverse must reverse elements that aren't 1 byte
 long

With SSE3 enabled, reversing 2 bytes elements left most of the range as it
was; for any other size, or with AVX2 enabled, it didn't compile.
---
 include/xme/core/algorithm/reverse.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 52d0e76..588f042 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -37,7 +37,6 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
         _mm_storeu_si128((__m128i_u*)(std::int8_t*)lhs, upper);
         _mm_storeu_si128((__m128i_u*)((std::int8_t*)rhs - 16), lower);
     }
-    else if constexpr(size == 2) {}
     else
 #endif
         static_assert(size < 0);
@@ -49,8 +48,9 @@ XME_INLINE constexpr auto reverse(I i, S s) noexcept {
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE3
     using T = ::ranges::iter_value_t<I>;
 
-    if constexpr(::ranges::contiguous_iterator<I>) {
-        static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
+    // Only implemented for types that can be copied by its byte
+    if constexpr(::ranges::contiguous_iterator<I> && sizeof(T) == 1
+                 && std::is_trivially_copyable_v<T>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto count                    = ((s - i) / 2) / readable_bytes;
         const auto end                = s;
-- 
2.43.0


From 73575dc044ba8d93b448404d74aa94134b5e1fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 19/62] fix: Tuple must give rvalue access to elements that are
 rvalue references

operator[] && returned an lvalue for them, so tuple_cat and forward_as_tuple
of rvalues didn't compile.
---
 private/container/tuple_base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 87bdc26..317a2be 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -36,7 +36,7 @@ struct TupleElement {
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, I>) && noexcept -> T&& {
-        return static_cast<TupleElement&&>(*this).value;
+        return static_cast<T&&>(value);
     }
 #endif
 
-- 
2.43.0


From 1dce707fb7cd629315092adc619463ccf97c4c11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 20/62] fix: Matrix 4x4 must be convertible from another
 element type

The converting constructor relied on an implicit conversion between column
vectors, which is explicit, so it didn't compile for a different type.
---
 include/xme/math/matrices/matrix4x4.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/matrix4x4.hpp b/include/xme/math/matrices/matrix4x4.hpp
index 337a6a6..b5e3535 100644
--- a/include/xme/math/matrices/matrix4x4.hpp
+++ b/include/xme/math/matrices/matrix4x4.hpp
@@ -65,7 +65,7 @@ public:
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 4, 4>& m) noexcept :
-      m_data({m[0], m[1], m[2], m[3]}) {}
+      m_data({column_type{m[0]}, column_type{m[1]}, column_type{m[2]}, column_type{m[3]}}) {}
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 3, 3>& m) noexcept :
-- 
2.43.0


From 3857d366d001f41ef6ec3d905e4f10c306369a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 21/62] fix: perspective from a frustum must divide by its
 width

The horizontal offset was divided by right - near instead of right - left, so
off-center frustums weren't mapped to the clip volume.
---
 include/xme/math/matrices/perspective.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index 282a4ba..6ce408a 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -56,7 +56,7 @@ XME_INLINE constexpr auto perspective_lh(T left, T right, T bottom, T top, T nea
     Matrix<T, 4, 4> result{0};
     result[0][0] = (2 * near) / (right - left);
     result[1][1] = (2 * near) / (top - bottom);
-    result[2][0] = -(right + left) / (right - near);
+    result[2][0] = -(right + left) / (right - left);
     result[2][1] = -(top + bottom) / (top - bottom);
     result[2][2] = (far + near) / (far - near);
     result[2][3] = 1;
@@ -71,7 +71,7 @@ XME_INLINE constexpr auto perspective_rh(T left, T right, T bottom, T top, T nea
     Matrix<T, 4, 4> result{0};
     result[0][0] = (2 * near) / (right - left);
     result[1][1] = (2 * near) / (top - bottom);
-    result[2][0] = (right + left) / (right - near);
+    result[2][0] = (right + left) / (right - left);
     result[2][1] = (top + bottom) / (top - bottom);
     result[2][2] = -(far + near) / (far - near);
     result[2][3] = -1;
-- 
2.43.0


From 0ac17f37816fe2c6d6c9d8cc5c157846d7f3a46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 22/62] fix: perspective from a field of view must be left
 handed with XME_MATH_CLIP_LH

It returned a right handed projection with near and far exchanged.
---
 include/xme/math/matrices/perspective.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index 6ce408a..7deae05 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -43,7 +43,7 @@ template<CFloatingPoint T>
 XME_INLINE constexpr auto perspective(T fov, T aspect_ratio, T near,
                                       T far) noexcept -> Matrix<T, 4, 4> {
 #if defined(XME_MATH_CLIP_LH)
-    return perspective_rh(fov, aspect_ratio, far, near);
+    return perspective_lh(fov, aspect_ratio, near, far);
 #else
     return perspective_rh(fov, aspect_ratio, near, far);
 #endif
-- 
2.43.0


From 58fc214c998e1c3a9de2be0d40da31746fa3f896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 23/62] fix: ortho must map the box to the clip volume

The depth scale overwrote the vertical one, and the translation was written
in the third column instead of the fourth.
---
 include/xme/math/matrices/perspective.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xme/math/matrices/perspective.hpp b/include/xme/math/matrices/perspective.hpp
index 7deae05..41dbec4 100644
--- a/include/xme/math/matrices/perspective.hpp
+++ b/include/xme/math/matrices/perspective.hpp
@@ -97,10 +97,10 @@ XME_INLINE constexpr auto ortho_lh(T left, T right, T bottom, T top, T near,
     Matrix<T, 4, 4> result{1};
     result[0][0] = 2 / (right - left);
     result[1][1] = 2 / (top - bottom);
-    result[1][1] = 2 / (far - near);
-    result[2][0] = -(right + left) / (right - left);
-    result[2][1] = -(top + bottom) / (top - bottom);
-    result[2][2] = -(far + near) / (far - near);
+    result[2][2] = 2 / (far - near);
+    result[3][0] = -(right + left) / (right - left);
+    result[3][1] = -(top + bottom) / (top - bottom);
+    result[3][2] = -(far + near) / (far - near);
     return result;
 }
 
@@ -111,10 +111,10 @@ XME_INLINE constexpr auto ortho_rh(T left, T right, T bottom, T top, T near,
     Matrix<T, 4, 4> result{1};
     result[0][0] = 2 / (right - left);
     result[1][1] = 2 / (top - bottom);
-    result[1][1] = -2 / (far - near);
-    result[2][0] = -(right + left) / (right - left);
-    result[2][1] = -(top + bottom) / (top - bottom);
-    result[2][2] = -(far + near) / (far - near);
+    result[2][2] = -2 / (far - near);
+    result[3][0] = -(right + left) / (right - left);
+    result[3][1] = -(top + bottom) / (top - bottom);
+    result[3][2] = -(far + near) / (far - near);
     return result;
 }
 
-- 
2.43.0


From 0a6cb69a6d249656e83567d41c5e25209f6cac29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 24/62] fix: SharedLibrary::close must leave the library closed

The handle was kept: is_open stayed true, and the destructor or a second call
released the same handle again.
---
 include/xme/hal/shared_library.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index 4c32718..d1ad583 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -47,7 +47,9 @@ public:
     constexpr void close() {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        dlclose(m_library);
+        if(m_library)
+            dlclose(m_library);
+        m_library = nullptr;
 #endif
     }
 
-- 
2.43.0


From 89315de405ac1ba33cbbba8979bfa8915909facd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 25/62] fix: SharedLibrary must not read past its names nor
 leak a library

open and proc_address passed string_view::data() where a null terminated
string is needed, open forgot a library that was already open, and
proc_address<T> converted the T it obtained to void*, so it didn't compile
for pointers to function.
---
 include/xme/hal/shared_library.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index d1ad583..ff2d78a 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -1,4 +1,5 @@
 #pragma once
+#include <string>
 #include <string_view>
 #include "platform_macros.hpp"
 
@@ -40,7 +41,8 @@ public:
     constexpr void open(std::string_view lib_name) {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        m_library = dlopen(lib_name.data(), RTLD_NOW | RTLD_LOCAL);
+        close();
+        m_library = dlopen(std::string(lib_name).c_str(), RTLD_NOW | RTLD_LOCAL);
 #endif
     }
 
@@ -55,10 +57,10 @@ public:
 
     template<typename T>
     [[nodiscard]]
-    constexpr auto proc_address(std::string_view function) const noexcept -> void* {
+    constexpr auto proc_address(std::string_view function) const noexcept -> T {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        return (T)dlsym(m_library, function.data());
+        return (T)dlsym(m_library, std::string(function).c_str());
 #endif
     }
 
-- 
2.43.0


From 656eef760dd0990755563e874ceba50285e39b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:14 +0000
Subject: [PATCH 26/62] fix: environment variable functions must not read past
 their arguments

They passed string_view::data() where a null terminated string is needed.
---
 include/xme/hal/linux/platform.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/xme/hal/linux/platform.hpp b/include/xme/hal/linux/platform.hpp
index 1caf156..aae7fcf 100644
--- a/include/xme/hal/linux/platform.hpp
+++ b/include/xme/hal/linux/platform.hpp
@@ -1,18 +1,19 @@
 #pragma once
+#include <string>
 #include <string_view>
 #include <cstdlib>
 
 namespace xme::hal {
 constexpr auto get_environment_variable(std::string_view name) -> char* {
-    return ::secure_getenv(name.data());
+    return ::secure_getenv(std::string(name).c_str());
 }
 
 constexpr auto set_environment_variable(std::string_view name, std::string_view value) {
     if(value.length() == 0) {
-        ::unsetenv(name.data());
+        ::unsetenv(std::string(name).c_str());
     }
     else {
-        ::setenv(name.data(), value.data(), true);
+        ::setenv(std::string(name).c_str(), std::string(value).c_str(), true);
     }
 }
 }  // namespace xme::hal
-- 
2.43.0


From c21efbb163a5b203313429a79be4b126c3e11c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 27/62] fix: tuple_cat must accept tuples that hold types of
 std

The unqualified call to forward_as_tuple was ambiguous with the one of std.
---
 include/xme/container/tuple.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 1ff7d4a..36a4707 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -146,7 +146,7 @@ constexpr auto tuple_cat(T&&... t) {
     using outer = typename cat::outer_indices;
     using inner = typename cat::inner_indices;
     return detail::tuple_cat_impl<typename cat::return_t>(
-      outer{}, inner{}, forward_as_tuple(std::forward<T>(t)...));
+      outer{}, inner{}, xme::forward_as_tuple(std::forward<T>(t)...));
 }
 
 }  // namespace xme
-- 
2.43.0


From 9843bd5abcd0b0965f9f0f8abe5c1c2e40aea063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:54 +0000
Subject: [PATCH 28/62] fix: Array::erase of an empty range must not move
 elements to themselves

---
 include/xme/container/array.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/xme/container/array.hpp b/include/xme/container/array.hpp
index e59ebfe..6b12a69 100644
--- a/include/xme/container/array.hpp
+++ b/include/xme/container/array.hpp
@@ -267,6 +267,9 @@ public:
     constexpr auto erase(const_iterator first, const_iterator last) -> iterator {
         auto p             = const_cast<pointer>(first.operator->());
         size_type elements = std::ranges::distance(first, last);
+        // Moving an element to itself could change its value
+        if(elements == 0)
+            return p;
         std::ranges::move(p + elements, m_data.end, p);
         m_data.end -= elements;
         ranges::destroy_n_a(m_data.end, elements, m_allocator);
-- 
2.43.0


From d1db3b7ecd728a7b626ff8485da8c56dc985a862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:59 +0000
Subject: [PATCH 29/62] fix: AlignedData must be copyable from a non const one

---
 include/xme/container/aligned_data.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/xme/container/aligned_data.hpp b/include/xme/container/aligned_data.hpp
index cf4dabd..19ba337 100644
--- a/include/xme/container/aligned_data.hpp
+++ b/include/xme/container/aligned_data.hpp
@@ -2,6 +2,7 @@
 #include <array>
 #include <bit>
 #include <concepts>
+#include <memory>
 #include <xme/setup.hpp>
 
 namespace xme {
@@ -27,6 +28,7 @@ public:
     = default;
 
     template<typename... Args>
+        requires std::constructible_from<T, Args...>
     constexpr AlignedData(Args&&... args) noexcept {
         std::construct_at(data(), std::forward<Args>(args)...);
     }
-- 
2.43.0


From f9f37d36214de80c54f6fe03241354d4797fa63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 30/62] fix: const rvalue Pair and Tuple must give const rvalue
 elements

---
 include/xme/container/pair.hpp   | 16 ++++++++++++++++
 include/xme/container/tuple.hpp  |  5 +++++
 private/container/tuple_base.hpp |  5 +++++
 3 files changed, 26 insertions(+)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 2620858..c41349f 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -46,6 +46,11 @@ public:
         return static_cast<Pair&&>(*this).first;
     }
 
+    [[nodiscard]]
+    constexpr auto operator[](std::integral_constant<std::size_t, 0>) const&& noexcept -> const T&& {
+        return static_cast<const T&&>(first);
+    }
+
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 1>) & noexcept -> U& {
         return second;
@@ -60,6 +65,11 @@ public:
     constexpr auto operator[](std::integral_constant<std::size_t, 1>) && noexcept -> U&& {
         return static_cast<Pair&&>(*this).second;
     }
+
+    [[nodiscard]]
+    constexpr auto operator[](std::integral_constant<std::size_t, 1>) const&& noexcept -> const U&& {
+        return static_cast<const U&&>(second);
+    }
 #endif
 
     [[nodiscard]]
@@ -101,6 +111,12 @@ constexpr auto get(Pair<T, U>&& p) noexcept -> decltype(auto) {
     return std::move(p)[std::integral_constant<std::size_t, I>{}];
 }
 
+template<std::size_t I, typename T, typename U>
+[[nodiscard]]
+constexpr auto get(const Pair<T, U>&& p) noexcept -> decltype(auto) {
+    return std::move(p)[std::integral_constant<std::size_t, I>{}];
+}
+
 template<typename T, typename U>
 constexpr void swap(Pair<T, U>& lhs, Pair<T, U>& rhs) noexcept(noexcept(lhs.swap(rhs))) {
     lhs.swap(rhs);
diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 36a4707..3aced81 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -69,6 +69,11 @@ constexpr auto get(Tuple<T...>&& tup) noexcept -> decltype(auto) {
     return std::move(tup)[std::integral_constant<std::size_t, I>{}];
 }
 
+template<std::size_t I, typename... T>
+constexpr auto get(const Tuple<T...>&& tup) noexcept -> decltype(auto) {
+    return std::move(tup)[std::integral_constant<std::size_t, I>{}];
+}
+
 template<typename... T>
 constexpr void swap(Tuple<T...>& lhs, Tuple<T...>& rhs)
   noexcept((std::is_nothrow_swappable_v<T> && ...)) {
diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 317a2be..6fdae12 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -38,6 +38,11 @@ struct TupleElement {
     constexpr auto operator[](std::integral_constant<std::size_t, I>) && noexcept -> T&& {
         return static_cast<T&&>(value);
     }
+
+    [[nodiscard]]
+    constexpr auto operator[](std::integral_constant<std::size_t, I>) const&& noexcept -> const T&& {
+        return static_cast<const T&&>(value);
+    }
 #endif
 
     XME_CONSTEXPR20 auto operator<=>(const TupleElement&) const = default;
-- 
2.43.0


From 133f0419a3c508ca92a8923d478852ca767938b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 31/62] fix: Pair must give rvalue access to elements that are
 rvalue references

---
 include/xme/container/pair.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index c41349f..9aaac4b 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -43,7 +43,7 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 0>) && noexcept -> T&& {
-        return static_cast<Pair&&>(*this).first;
+        return static_cast<T&&>(first);
     }
 
     [[nodiscard]]
@@ -63,7 +63,7 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 1>) && noexcept -> U&& {
-        return static_cast<Pair&&>(*this).second;
+        return static_cast<U&&>(second);
     }
 
     [[nodiscard]]
-- 
2.43.0


From 166763444fc9756d84d3e9352731ea61c3988aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:55 +0000
Subject: [PATCH 32/62] fix: compare ReverseIterators of convertible types by
 position

They were compared by the addresses of their elements, which dereferences the
position before the beginning at the reverse end, and is not the order of the
positions when the elements are not contiguous (std::deque).
---
 include/xme/core/iterators/reverse_iterator.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/xme/core/iterators/reverse_iterator.hpp b/include/xme/core/iterators/reverse_iterator.hpp
index f939c99..ebaa4eb 100644
--- a/include/xme/core/iterators/reverse_iterator.hpp
+++ b/include/xme/core/iterators/reverse_iterator.hpp
@@ -1,5 +1,6 @@
 #pragma once
 #include <iterator>
+#include <compare>
 #include <concepts>
 namespace xme {
 template<std::bidirectional_iterator It>
@@ -128,15 +129,18 @@ public:
     }
 
     template<typename U>
-    friend constexpr bool operator==(const ReverseIterator<It>& lhs,
-                                     const ReverseIterator<U>& rhs) noexcept {
-        return lhs.operator->() == rhs.operator->();
+    constexpr bool operator==(const ReverseIterator<U>& rhs) const noexcept {
+        return m_current == rhs.m_current;
     }
 
     template<typename U>
-    friend constexpr auto operator<=>(const ReverseIterator<It>& lhs,
-                                      const ReverseIterator<U>& rhs) noexcept {
-        return rhs.operator->() <=> lhs.operator->();
+    constexpr auto operator<=>(const ReverseIterator<U>& rhs) const noexcept
+        requires(std::random_access_iterator<It>)
+    {
+        if constexpr(std::three_way_comparable<It>)
+            return rhs.m_current <=> m_current;
+        else
+            return (rhs.m_current - m_current) <=> 0;
     }
 
 private:
-- 
2.43.0


From d8b3c9756d7082b90f249bfb647d423c96024a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:05 +0000
Subject: [PATCH 33/62] fix: converting a ConstIterator to one of a convertible
 iterator didn't compile

---
 include/xme/core/iterators/const_iterator.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/iterators/const_iterator.hpp b/include/xme/core/iterators/const_iterator.hpp
index 1fa8ded..32fbd24 100644
--- a/include/xme/core/iterators/const_iterator.hpp
+++ b/include/xme/core/iterators/const_iterator.hpp
@@ -33,12 +33,15 @@ public:
       std::conditional_t<std::forward_iterator<It>, typename traits::iterator_category, void>;
     using iterator_concept = decltype(get_iterator_concept());
 
+    template<std::input_iterator>
+    friend class ConstIterator;
+
     constexpr ConstIterator() noexcept = default;
 
     constexpr ConstIterator(It it) noexcept : m_current(it) {}
 
     template<std::convertible_to<It> U>
-    constexpr ConstIterator(ConstIterator<U> other) noexcept : m_current{other} {}
+    constexpr ConstIterator(ConstIterator<U> other) noexcept : m_current{other.m_current} {}
 
     template<CDifferentFrom<ConstIterator> T>
         requires std::convertible_to<T, It>
-- 
2.43.0


From 3db2bce7d66738f91552b07c3bc6504b62fa8c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:04 +0000
Subject: [PATCH 34/62] fix: ConstIterator of an iterator whose references are
 values can be used

Instantiating its operator-> failed, which std::iterator_traits does.
---
 include/xme/core/iterators/const_iterator.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/xme/core/iterators/const_iterator.hpp b/include/xme/core/iterators/const_iterator.hpp
index 32fbd24..656447e 100644
--- a/include/xme/core/iterators/const_iterator.hpp
+++ b/include/xme/core/iterators/const_iterator.hpp
@@ -47,7 +47,9 @@ public:
         requires std::convertible_to<T, It>
     constexpr ConstIterator(T&& it) noexcept : m_current(std::forward<T>(it)) {}
 
-    constexpr auto operator->() const noexcept -> const auto* {
+    constexpr auto operator->() const noexcept -> const auto*
+        requires std::is_lvalue_reference_v<std::iter_reference_t<It>>
+    {
         if constexpr(std::contiguous_iterator<It>)
             return std::to_address(m_current);
         else
-- 
2.43.0


From 7b1c1e84c2ceb74e853e773cc543eeba961f2bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 35/62] fix: reverse must not use SSSE3 instructions when only
 SSE3 is enabled

---
 include/xme/core/algorithm/reverse.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 588f042..7b6b6c2 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -28,7 +28,7 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
         _mm256_storeu_si256((__m256i*)((std::int8_t*)rhs - 32), lower);
     }
     else
-#elif XME_SIMD_USE_SSE3
+#elif XME_SIMD_USE_SSSE3
     if constexpr(size == 1) {
         __m128i lower = _mm_loadu_si128((__m128i*)lhs);
         __m128i upper = _mm_loadu_si128((__m128i*)((std::int8_t*)rhs - 16));
@@ -45,7 +45,7 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
 
 template<::ranges::input_iterator I, ::ranges::sentinel_for<I> S>
 XME_INLINE constexpr auto reverse(I i, S s) noexcept {
-#if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE3
+#if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSSE3
     using T = ::ranges::iter_value_t<I>;
 
     // Only implemented for types that can be copied by its byte
-- 
2.43.0


From fc19e867e931a30cf0358adc5568e4345becfb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:30 +0000
Subject: [PATCH 36/62] fix: find and reverse must accept sentinels that aren't
 iterators with SIMD too

---
 include/xme/core/algorithm/find.hpp    | 10 ++++++----
 include/xme/core/algorithm/reverse.hpp | 13 +++++++------
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index fc5e150..6155511 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -78,12 +78,14 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
     constexpr bool is_bitwise =
       std::is_integral_v<T> || std::is_enum_v<T> || std::is_pointer_v<T>;
 
-    if constexpr(::ranges::contiguous_iterator<I> && is_bitwise && sizeof(T) <= 8
+    if constexpr(::ranges::contiguous_iterator<I> && ::ranges::sized_sentinel_for<S, I>
+                 && is_bitwise && sizeof(T) <= 8
                  && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
         static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
-        constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
-        auto compare                  = i;
-        while(compare + readable_bytes <= s) {
+        constexpr ::ranges::iter_difference_t<I> readable_bytes =
+          (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
+        auto compare = i;
+        while(s - compare >= readable_bytes) {
             const auto index = detail::find_simd<sizeof(T)>(std::to_address(compare), &value);
             if(index != readable_bytes)
                 return i + ((compare + index) - i);
diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 7b6b6c2..c19626d 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -52,15 +52,16 @@ XME_INLINE constexpr auto reverse(I i, S s) noexcept {
     if constexpr(::ranges::contiguous_iterator<I> && sizeof(T) == 1
                  && std::is_trivially_copyable_v<T>) {
         constexpr auto readable_bytes = (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
-        auto count                    = ((s - i) / 2) / readable_bytes;
-        const auto end                = s;
+        const auto end                = ::ranges::next(i, s);
+        auto last                     = end;
+        auto count                    = ((last - i) / 2) / readable_bytes;
         while(count--) {
-            detail::reverse_simd<sizeof(T)>(std::to_address(i), std::to_address(s));
+            detail::reverse_simd<sizeof(T)>(std::to_address(i), std::to_address(last));
             i += readable_bytes;
-            s -= readable_bytes;
+            last -= readable_bytes;
         }
-        while(i < s)
-            ::ranges::iter_swap(i++, --s);
+        while(i < last)
+            ::ranges::iter_swap(i++, --last);
         return end;
     }
     else
-- 
2.43.0


From f7d95d3deec1fc4b09b07c63945a73722a9823cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:53 +0000
Subject: [PATCH 37/62] fix: find must use the operator== of an enumeration
 that has one

---
 include/xme/core/algorithm/find.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index 6155511..3ae41dd 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -74,9 +74,10 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSE2
     using T = ::ranges::iter_value_t<I>;
 
-    // Equality must be the equality of the bytes
+    // Equality must be the equality of the bytes, an enumeration may have an operator== of its own
     constexpr bool is_bitwise =
-      std::is_integral_v<T> || std::is_enum_v<T> || std::is_pointer_v<T>;
+      std::is_integral_v<T> || std::is_pointer_v<T>
+      || (std::is_enum_v<T> && !requires(const T& e) { operator==(e, e); });
 
     if constexpr(::ranges::contiguous_iterator<I> && ::ranges::sized_sentinel_for<S, I>
                  && is_bitwise && sizeof(T) <= 8
-- 
2.43.0


From 2e8a6130c9676537b75e9f03c5b97e81178471a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:39 +0000
Subject: [PATCH 38/62] fix: destroy_a must destroy the elements of nested
 arrays through the allocator

---
 include/xme/ranges/destroy.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/xme/ranges/destroy.hpp b/include/xme/ranges/destroy.hpp
index 12c4cc5..b11feb2 100644
--- a/include/xme/ranges/destroy.hpp
+++ b/include/xme/ranges/destroy.hpp
@@ -7,8 +7,12 @@ namespace xme::ranges {
 struct {
     template<std::forward_iterator Iter, std::sentinel_for<Iter> Sent, typename Alloc>
     constexpr void operator()(Iter first, Sent last, Alloc& alloc) const noexcept {
-        for(; first != last; ++first)
-            std::allocator_traits<Alloc>::destroy(alloc, std::addressof(*first));
+        for(; first != last; ++first) {
+            if constexpr(std::is_array_v<std::iter_value_t<Iter>>)
+                (*this)(::ranges::begin(*first), ::ranges::end(*first), alloc);
+            else
+                std::allocator_traits<Alloc>::destroy(alloc, std::addressof(*first));
+        }
     }
 
     template<::ranges::forward_range R, typename Alloc>
-- 
2.43.0


From e94f0cd604210e4fa8c9dd44308e983e50878440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:38 +0000
Subject: [PATCH 39/62] fix: find must not use SSE4.1 instructions when only
 SSE2 is enabled

---
 include/xme/core/algorithm/find.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index 3ae41dd..190690e 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -80,7 +80,7 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
       || (std::is_enum_v<T> && !requires(const T& e) { operator==(e, e); });
 
     if constexpr(::ranges::contiguous_iterator<I> && ::ranges::sized_sentinel_for<S, I>
-                 && is_bitwise && sizeof(T) <= 8
+                 && is_bitwise && sizeof(T) <= (XME_SIMD_USE_SSE41 ? 8 : 4)
                  && std::derived_from<ExecutionPolicy, std::execution::unsequenced_policy>) {
         static_assert(sizeof(T) == 1 || sizeof(T) == 2 || sizeof(T) == 4 || sizeof(T) == 8);
         constexpr ::ranges::iter_difference_t<I> readable_bytes =
-- 
2.43.0


From c689c7c9a34b7ae9c87373e51e8dba981c227e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:26 +0000
Subject: [PATCH 40/62] fix: to_unsigned must accept 128 bit integers

The macro that tells whether there are any is __SIZEOF_INT128__.
---
 include/xme/core/utility/to_unsigned.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/core/utility/to_unsigned.hpp b/include/xme/core/utility/to_unsigned.hpp
index cf55848..74f1b01 100644
--- a/include/xme/core/utility/to_unsigned.hpp
+++ b/include/xme/core/utility/to_unsigned.hpp
@@ -8,7 +8,7 @@ XME_INLINE constexpr auto to_unsigned(T n) {
     return static_cast<std::make_unsigned_t<T>>(n);
 }
 
-#ifdef __sizeof_int128__
+#ifdef __SIZEOF_INT128__
 XME_INLINE constexpr auto to_unsigned(__int128 n) -> unsigned __int128 {
     return static_cast<unsigned __int128>(n);
 }
-- 
2.43.0


From 8806d077a29692cd946fa0bb3f0c6fd9891250e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 41/62] fix: lerp must not wrap around with an unsigned
 percentage above 1

---
 include/xme/math/vectors/functions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/vectors/functions.hpp b/include/xme/math/vectors/functions.hpp
index 538800b..b87a147 100644
--- a/include/xme/math/vectors/functions.hpp
+++ b/include/xme/math/vectors/functions.hpp
@@ -17,7 +17,7 @@ XME_INLINE constexpr auto lerp(const Vector<T, N>& v1, const Vector<T, N>& v2,
     if constexpr(std::is_same_v<std::remove_cv_t<U>, bool>) {
         return percent ? v2 : v1;
     }
-    return v2 * percent + v1 * (1 - percent);
+    return v2 * percent + v1 * (T(1) - percent);
 }
 
 //! Linearly interpolates `v1` and `v2`.
@@ -32,7 +32,7 @@ XME_INLINE constexpr auto lerp(const Vector<T, N>& v1, const Vector<T, N>& v2,
             result[i] = percent[i] ? v2[i] : v1[i];
         }
         else {
-            result[i] = v2[i] * percent[i] + v1[i] * (1 - percent[i]);
+            result[i] = v2[i] * percent[i] + v1[i] * (T(1) - percent[i]);
         }
     }
     return result;
-- 
2.43.0


From 5c8371deaddff03c739c8b89c4e8df20939fafaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 42/62] fix: rotate must not convert the cosine to the element
 type of the axis

Which can be an integer.
---
 include/xme/math/matrices/transformation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/math/matrices/transformation.hpp b/include/xme/math/matrices/transformation.hpp
index 2ee17c3..15c22be 100644
--- a/include/xme/math/matrices/transformation.hpp
+++ b/include/xme/math/matrices/transformation.hpp
@@ -41,7 +41,7 @@ XME_INLINE constexpr auto rotate(const Matrix<T, 4, 4>& m, auto angle,
     const auto s{std::sin(static_cast<T>(angle))};
     const auto c{std::cos(static_cast<T>(angle))};
 
-    const Vector<T, 3> temp{n * (1 - c)};
+    const Vector<T, 3> temp{Vector<T, 3>{n} * (1 - c)};
 
     Matrix<T, 3, 3> Rotate;
     Rotate[0][0] = c + temp[0] * n[0];
-- 
2.43.0


From abb11e454a9259dd31134b70a5370f76913699f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 43/62] fix: Matrix must be constructible from columns of
 another element type

Its deduction guide deduces a common one.
---
 include/xme/math/matrices/matrix4x4.hpp | 2 +-
 include/xme/math/matrix.hpp             | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/math/matrices/matrix4x4.hpp b/include/xme/math/matrices/matrix4x4.hpp
index b5e3535..06ac602 100644
--- a/include/xme/math/matrices/matrix4x4.hpp
+++ b/include/xme/math/matrices/matrix4x4.hpp
@@ -61,7 +61,7 @@ public:
     } {}
 
     template<typename... Args>
-    constexpr Matrix(const Vector<Args, 4>&... args) noexcept : m_data({args...}) {}
+    constexpr Matrix(const Vector<Args, 4>&... args) noexcept : m_data({column_type(args)...}) {}
 
     template<typename U>
     explicit constexpr Matrix(const Matrix<U, 4, 4>& m) noexcept :
diff --git a/include/xme/math/matrix.hpp b/include/xme/math/matrix.hpp
index f6f33cb..8366e5a 100644
--- a/include/xme/math/matrix.hpp
+++ b/include/xme/math/matrix.hpp
@@ -62,7 +62,7 @@ public:
     }
 
     template<typename... Args, std::size_t Size>
-    constexpr Matrix(const Vector<Args, Size>&... args) noexcept : m_data({args...}) {
+    constexpr Matrix(const Vector<Args, Size>&... args) noexcept : m_data({column_type(args)...}) {
         static_assert(sizeof...(Args) == Cols);
     }
 
-- 
2.43.0


From 4a424bc144558b4865fdec6efb998a8fcd9c0c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:18 +0000
Subject: [PATCH 44/62] fix: Matrix products with another element type didn't
 compile

---
 include/xme/math/matrices/matrix4x4.hpp | 10 +++++-----
 include/xme/math/matrix.hpp             |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/xme/math/matrices/matrix4x4.hpp b/include/xme/math/matrices/matrix4x4.hpp
index 06ac602..a1784b1 100644
--- a/include/xme/math/matrices/matrix4x4.hpp
+++ b/include/xme/math/matrices/matrix4x4.hpp
@@ -90,10 +90,10 @@ public:
     [[nodiscard]]
     constexpr auto operator*(const Vector<U, 4>& v) const noexcept -> column_type {
         return {
-            math::dot(row(0), v),
-            math::dot(row(1), v),
-            math::dot(row(2), v),
-            math::dot(row(3), v),
+            math::dot(row(0), row_type(v)),
+            math::dot(row(1), row_type(v)),
+            math::dot(row(2), row_type(v)),
+            math::dot(row(3), row_type(v)),
         };
     }
 
@@ -104,7 +104,7 @@ public:
         for(std::size_t rowIndex = 0; rowIndex < 4; ++rowIndex) {
             const row_type row = this->row(rowIndex);
             for(std::size_t columnIndex = 0; columnIndex < Rows2; ++columnIndex)
-                result[columnIndex][rowIndex] = dot(row, m[columnIndex]);
+                result[columnIndex][rowIndex] = dot(row, row_type(m[columnIndex]));
         }
         return result;
     }
diff --git a/include/xme/math/matrix.hpp b/include/xme/math/matrix.hpp
index 8366e5a..f266612 100644
--- a/include/xme/math/matrix.hpp
+++ b/include/xme/math/matrix.hpp
@@ -90,7 +90,7 @@ public:
     constexpr auto operator*(const Vector<U, Cols>& v) const noexcept -> column_type {
         column_type result;
         for(std::size_t i = 0; i < Rows; ++i)
-            result[i] = math::dot(this->row(i), v);
+            result[i] = math::dot(this->row(i), row_type(v));
         return result;
     }
     template<typename U, std::size_t Rows2>
@@ -101,7 +101,7 @@ public:
         for(std::size_t rowIndex = 0; rowIndex < Rows; ++rowIndex) {
             const row_type row = this->row(rowIndex);
             for(std::size_t columnIndex = 0; columnIndex < Rows2; ++columnIndex)
-                result[columnIndex][rowIndex] = math::dot(row, m[columnIndex]);
+                result[columnIndex][rowIndex] = math::dot(row, row_type(m[columnIndex]));
         }
         return result;
     }
-- 
2.43.0


From 24c53770d152adee13b36ede777bc8521e2573c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:09 +0000
Subject: [PATCH 45/62] fix: proc_address of a SharedLibrary without a library
 must not search the whole program

---
 include/xme/hal/shared_library.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/hal/shared_library.hpp b/include/xme/hal/shared_library.hpp
index ff2d78a..371b21f 100644
--- a/include/xme/hal/shared_library.hpp
+++ b/include/xme/hal/shared_library.hpp
@@ -60,7 +60,7 @@ public:
     constexpr auto proc_address(std::string_view function) const noexcept -> T {
 #if XME_PLATFORM_WINDOWS
 #elif XME_PLATFORM_LINUX || XME_PLATFORM_MAC
-        return (T)dlsym(m_library, std::string(function).c_str());
+        return (T)(m_library ? dlsym(m_library, std::string(function).c_str()) : nullptr);
 #endif
     }
 
-- 
2.43.0


From 2487d105d117ecdf2c42ddf43a018d9f5def13d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:40 +0000
Subject: [PATCH 46/62] fix: enabling an instruction set along with one it
 implies redefined its macro

---
 include/xme/hal/simd_detection.hpp | 36 ++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 9 deletions(-)

diff --git a/include/xme/hal/simd_detection.hpp b/include/xme/hal/simd_detection.hpp
index bd9b856..117db5f 100644
--- a/include/xme/hal/simd_detection.hpp
+++ b/include/xme/hal/simd_detection.hpp
@@ -72,63 +72,81 @@
 //!      Enable SIMD Begin
 //! ------------------------------
 #if defined(XME_SIMD_ENABLE_AVX512F)
-#    define XME_SIMD_ENABLE_AVX2
+#    if !defined(XME_SIMD_ENABLE_AVX2)
+#        define XME_SIMD_ENABLE_AVX2
+#    endif
 #    define XME_SIMD_USE_AVX512F true
 #else
 #    define XME_SIMD_USE_AVX512F false
 #endif
 
 #if defined(XME_SIMD_ENABLE_AVX2)
-#    define XME_SIMD_ENABLE_AVX
+#    if !defined(XME_SIMD_ENABLE_AVX)
+#        define XME_SIMD_ENABLE_AVX
+#    endif
 #    define XME_SIMD_USE_AVX2 true
 #else
 #    define XME_SIMD_USE_AVX2 false
 #endif
 
 #if defined(XME_SIMD_ENABLE_AVX)
-#    define XME_SIMD_ENABLE_SSE42
+#    if !defined(XME_SIMD_ENABLE_SSE42)
+#        define XME_SIMD_ENABLE_SSE42
+#    endif
 #    define XME_SIMD_USE_AVX true
 #else
 #    define XME_SIMD_USE_AVX false
 #endif
 
 #if defined(XME_SIMD_ENABLE_SSE42)
-#    define XME_SIMD_ENABLE_SSE41
+#    if !defined(XME_SIMD_ENABLE_SSE41)
+#        define XME_SIMD_ENABLE_SSE41
+#    endif
 #    define XME_SIMD_USE_SSE42 true
 #else
 #    define XME_SIMD_USE_SSE42 false
 #endif
 
 #if defined(XME_SIMD_ENABLE_SSE41)
-#    define XME_SIMD_ENABLE_SSSE3
+#    if !defined(XME_SIMD_ENABLE_SSSE3)
+#        define XME_SIMD_ENABLE_SSSE3
+#    endif
 #    define XME_SIMD_USE_SSE41 true
 #else
 #    define XME_SIMD_USE_SSE41 false
 #endif
 
 #if defined(XME_SIMD_ENABLE_SSSE3)
-#    define XME_SIMD_ENABLE_SSE3
+#    if !defined(XME_SIMD_ENABLE_SSE3)
+#        define XME_SIMD_ENABLE_SSE3
+#    endif
 #    define XME_SIMD_USE_SSSE3 true
 #else
 #    define XME_SIMD_USE_SSSE3 false
 #endif
 
 #if defined(XME_SIMD_ENABLE_SSE3)
-#    define XME_SIMD_ENABLE_SSE2
+#    if !defined(XME_SIMD_ENABLE_SSE2)
+#        define XME_SIMD_ENABLE_SSE2
+#    endif
 #    define XME_SIMD_USE_SSE3 true
 #else
 #    define XME_SIMD_USE_SSE3 false
 #endif
 
 #if defined(XME_SIMD_ENABLE_SSE2)
-#    define XME_SIMD_ENABLE_SSE
+#    if !defined(XME_SIMD_ENABLE_SSE)
+#        define XME_SIMD_ENABLE_SSE
+#    endif
 #    define XME_SIMD_USE_SSE2 true
 #else
 #    define XME_SIMD_USE_SSE2 false
 #endif
 
 #if defined(XME_SIMD_ENABLE_SSE)
-#    define XME_SIMD_ENABLE_MMX
+#    if !defined(XME_SIMD_ENABLE_MMX)
+#        define XME_SIMD_ENABLE_MMX
+#    endif
 #    define XME_SIMD_USE_SSE true
 #else
 #    define XME_SIMD_USE_SSE false
-- 
2.43.0


From 5b73ae4bf7ec7fc8c8cd21064ccf57a436c716fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 47/62] fix: indexing a Vector or Quaternion walked off its
 first component, so it wasn't usable in constant expressions

---
 include/xme/math/quaternion.hpp      | 14 ++++++++++++--
 include/xme/math/vectors/vector2.hpp | 10 ++++++++--
 include/xme/math/vectors/vector3.hpp | 12 ++++++++++--
 include/xme/math/vectors/vector4.hpp | 14 ++++++++++++--
 4 files changed, 42 insertions(+), 8 deletions(-)

diff --git a/include/xme/math/quaternion.hpp b/include/xme/math/quaternion.hpp
index d736cbb..fbc9d2e 100644
--- a/include/xme/math/quaternion.hpp
+++ b/include/xme/math/quaternion.hpp
@@ -36,12 +36,22 @@ public:
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
-        return (&w)[i];
+        switch(i) {
+        case 0: return w;
+        case 1: return x;
+        case 2: return y;
+        default: return z;
+        }
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
-        return (&w)[i];
+        switch(i) {
+        case 0: return w;
+        case 1: return x;
+        case 2: return y;
+        default: return z;
+        }
     }
 
     [[nodiscard]]
diff --git a/include/xme/math/vectors/vector2.hpp b/include/xme/math/vectors/vector2.hpp
index e6003b5..5c3642d 100644
--- a/include/xme/math/vectors/vector2.hpp
+++ b/include/xme/math/vectors/vector2.hpp
@@ -76,13 +76,19 @@ struct Vector<T, 2> {
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
         assert(i < 2 && "Index out of bound");
-        return (&x)[i];
+        switch(i) {
+        case 0: return x;
+        default: return y;
+        }
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
         assert(i < 2 && "Index out of bound");
-        return (&x)[i];
+        switch(i) {
+        case 0: return x;
+        default: return y;
+        }
     }
 
     [[nodiscard]]
diff --git a/include/xme/math/vectors/vector3.hpp b/include/xme/math/vectors/vector3.hpp
index 3bb85fe..ff85d49 100644
--- a/include/xme/math/vectors/vector3.hpp
+++ b/include/xme/math/vectors/vector3.hpp
@@ -89,13 +89,21 @@ struct Vector<T, 3> {
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
         assert(i < 3 && "Index out of bound");
-        return (&x)[i];
+        switch(i) {
+        case 0: return x;
+        case 1: return y;
+        default: return z;
+        }
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
         assert(i < 3 && "Index out of bound");
-        return (&x)[i];
+        switch(i) {
+        case 0: return x;
+        case 1: return y;
+        default: return z;
+        }
     }
 
     [[nodiscard]]
diff --git a/include/xme/math/vectors/vector4.hpp b/include/xme/math/vectors/vector4.hpp
index 989004c..4a0d436 100644
--- a/include/xme/math/vectors/vector4.hpp
+++ b/include/xme/math/vectors/vector4.hpp
@@ -106,13 +106,23 @@ struct Vector<T, 4> {
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) noexcept -> T& {
         assert(i < 4 && "Index out of bound");
-        return (&x)[i];
+        switch(i) {
+        case 0: return x;
+        case 1: return y;
+        case 2: return z;
+        default: return w;
+        }
     }
 
     [[nodiscard]]
     constexpr auto operator[](std::size_t i) const noexcept -> const T& {
         assert(i < 4 && "Index out of bound");
-        return (&x)[i];
+        switch(i) {
+        case 0: return x;
+        case 1: return y;
+        case 2: return z;
+        default: return w;
+        }
     }
 
     [[nodiscard]]
-- 
2.43.0


From 20e7eebcf3398e59b78cbb3b1e4749e46f240b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:31 +0000
Subject: [PATCH 48/62] fix: find and reverse with SIMD weren't usable in
 constant expressions

---
 include/xme/core/algorithm/find.hpp    | 2 +-
 include/xme/core/algorithm/reverse.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index 190690e..c3abd45 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -86,7 +86,7 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
         constexpr ::ranges::iter_difference_t<I> readable_bytes =
           (XME_SIMD_USE_AVX2 ? 32 : 16) / sizeof(T);
         auto compare = i;
-        while(s - compare >= readable_bytes) {
+        while(!std::is_constant_evaluated() && s - compare >= readable_bytes) {
             const auto index = detail::find_simd<sizeof(T)>(std::to_address(compare), &value);
             if(index != readable_bytes)
                 return i + ((compare + index) - i);
diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index c19626d..9b34c4c 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -55,7 +55,7 @@ XME_INLINE constexpr auto reverse(I i, S s) noexcept {
         const auto end                = ::ranges::next(i, s);
         auto last                     = end;
         auto count                    = ((last - i) / 2) / readable_bytes;
-        while(count--) {
+        while(!std::is_constant_evaluated() && count--) {
             detail::reverse_simd<sizeof(T)>(std::to_address(i), std::to_address(last));
             i += readable_bytes;
             last -= readable_bytes;
-- 
2.43.0


From 532b62f83a752c6cb919e349bcdf1c536fcf05d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 49/62] fix: Pair and Tuple didn't compile, or lost references,
 with compilers that have explicit object parameters

---
 include/xme/container/pair.hpp   | 16 ----------------
 private/container/tuple_base.hpp |  9 ---------
 2 files changed, 25 deletions(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 9aaac4b..497681a 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -16,21 +16,6 @@ public:
         return *this;
     }
 
-#if defined(__cpp_explicit_this_parameter)
-    template<typename Self>
-    [[nodiscard]]
-    constexpr auto operator[](this Self&& self,
-                              std::integral_constant<std::size_t, 0>) noexcept -> auto&& {
-        return xme::forward_like<Self>(self).first;
-    }
-
-    template<typename Self>
-    [[nodiscard]]
-    constexpr auto operator[](this Self&& self,
-                              std::integral_constant<std::size_t, 1>) noexcept -> auto&& {
-        return xme::forward_like<Self>(self).second;
-    }
-#else
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, 0>) & noexcept -> T& {
         return first;
@@ -70,7 +55,6 @@ public:
     constexpr auto operator[](std::integral_constant<std::size_t, 1>) const&& noexcept -> const U&& {
         return static_cast<const U&&>(second);
     }
-#endif
 
     [[nodiscard]]
     XME_CONSTEXPR20 bool operator==(const Pair&) const noexcept = default;
diff --git a/private/container/tuple_base.hpp b/private/container/tuple_base.hpp
index 6fdae12..9a4ca04 100644
--- a/private/container/tuple_base.hpp
+++ b/private/container/tuple_base.hpp
@@ -16,14 +16,6 @@ constexpr auto operator+(TypeList<T...>, TypeList<U...>) {
 
 template<std::size_t I, typename T>
 struct TupleElement {
-#if defined(__cpp_explicit_this_parameter)
-    template<typename Self>
-    [[nodiscard]]
-    constexpr auto operator[](this Self&& self,
-                              std::integral_constant<std::size_t, I>) noexcept -> auto&& {
-        return xme::forward_like<Self>(self).value;
-    }
-#else
     [[nodiscard]]
     constexpr auto operator[](std::integral_constant<std::size_t, I>) & noexcept -> T& {
         return value;
@@ -43,7 +35,6 @@ struct TupleElement {
     constexpr auto operator[](std::integral_constant<std::size_t, I>) const&& noexcept -> const T&& {
         return static_cast<const T&&>(value);
     }
-#endif
 
     XME_CONSTEXPR20 auto operator<=>(const TupleElement&) const = default;
 
-- 
2.43.0


From 0c3d79d1e38ac3daee3b9385b10bbaddcb165a8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:36 +0000
Subject: [PATCH 50/62] fix: bindFront and bindBack didn't compile, and
 bindBack bound at the front

---
 include/xme/core/functional/bind.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/bind.hpp b/include/xme/core/functional/bind.hpp
index b2d6cfd..401cd86 100644
--- a/include/xme/core/functional/bind.hpp
+++ b/include/xme/core/functional/bind.hpp
@@ -149,7 +149,7 @@ constexpr auto bindFront(Args&&... args) {
 
     return [... bound_args(std::forward<Args>(args))]<typename Self, typename... T>(
              this Self&&, T&&... call_args) -> decltype(auto) {
-        return std::invoke(f, xme::forwardLike<Self>(bound_args)..., std::forward<T>(call_args)...);
+        return std::invoke(f, xme::forward_like<Self>(bound_args)..., std::forward<T>(call_args)...);
     };
 }
 #endif
@@ -173,7 +173,7 @@ constexpr auto bindBack(Args&&... args) {
 
     return [... bound_args(std::forward<Args>(args))]<typename Self, typename... T>(
              this Self&&, T&&... call_args) -> decltype(auto) {
-        return std::invoke(f, xme::forwardLike<Self>(bound_args)..., std::forward<T>(call_args)...);
+        return std::invoke(f, std::forward<T>(call_args)..., xme::forward_like<Self>(bound_args)...);
     };
 }
 #endif
-- 
2.43.0


From cb366e95f9ecf49f84351927b3cba1f435629350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:34 +0000
Subject: [PATCH 51/62] fix: reverse.hpp left the macro SEQ defined

---
 include/xme/core/algorithm/reverse.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 9b34c4c..4bc25b3 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -41,6 +41,7 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
 #endif
         static_assert(size < 0);
 }
+#undef SEQ
 }  // namespace detail
 
 template<::ranges::input_iterator I, ::ranges::sentinel_for<I> S>
-- 
2.43.0


From 01e8d944d890e25c7a9a9f251102173c72608dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:23 +0000
Subject: [PATCH 52/62] fix: each translation unit had its own destroy_a,
 destroy_at_a, destroy_n_a, uninitialized_copy_a and uninitialized_fill_n_a

---
 include/xme/ranges/destroy.hpp       | 6 +++---
 include/xme/ranges/uninitialized.hpp | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/xme/ranges/destroy.hpp b/include/xme/ranges/destroy.hpp
index b11feb2..d5ec6d1 100644
--- a/include/xme/ranges/destroy.hpp
+++ b/include/xme/ranges/destroy.hpp
@@ -4,7 +4,7 @@
 #include <range/v3/range.hpp>
 
 namespace xme::ranges {
-struct {
+struct DestroyA {
     template<std::forward_iterator Iter, std::sentinel_for<Iter> Sent, typename Alloc>
     constexpr void operator()(Iter first, Sent last, Alloc& alloc) const noexcept {
         for(; first != last; ++first) {
@@ -21,7 +21,7 @@ struct {
     }
 } inline constexpr destroy_a;
 
-struct {
+struct DestroyAtA {
     template<std::destructible T, typename Alloc>
     constexpr void operator()(T* pos, Alloc& alloc) const noexcept {
         if constexpr(std::is_array_v<T>)
@@ -31,7 +31,7 @@ struct {
     }
 } inline constexpr destroy_at_a;
 
-struct {
+struct DestroyNA {
     template<std::forward_iterator Iter, typename Alloc>
     constexpr void operator()(Iter first, std::iter_difference_t<Iter> n,
                               Alloc& alloc) const noexcept {
diff --git a/include/xme/ranges/uninitialized.hpp b/include/xme/ranges/uninitialized.hpp
index e9eded8..3eca146 100644
--- a/include/xme/ranges/uninitialized.hpp
+++ b/include/xme/ranges/uninitialized.hpp
@@ -4,7 +4,7 @@
 #include <xme/container/pair.hpp>
 
 namespace xme::ranges {
-struct {
+struct UninitializedCopyA {
     template<std::forward_iterator InIter, std::sentinel_for<InIter> InSent,
              std::forward_iterator OutIter, std::sentinel_for<OutIter> OutSent, typename Alloc>
     constexpr auto operator()(InIter in_first, InSent in_last, OutIter out_first, OutSent out_last,
@@ -31,7 +31,7 @@ struct {
     }
 } inline constexpr uninitialized_copy_a;
 
-struct {
+struct UninitializedFillNA {
     template<std::forward_iterator Iter, typename T, typename Alloc>
     constexpr auto operator()(Iter first, std::size_t n, const T& value,
                               Alloc& alloc) const -> Iter {
-- 
2.43.0


From ddacbeaed862052c076d2d5fd71431fc6103689b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:40 +0000
Subject: [PATCH 53/62] fix: bind_front and bind_back were noexcept where
 copying the bound objects can throw

---
 include/xme/core/functional/bind.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/xme/core/functional/bind.hpp b/include/xme/core/functional/bind.hpp
index 401cd86..bb94ad9 100644
--- a/include/xme/core/functional/bind.hpp
+++ b/include/xme/core/functional/bind.hpp
@@ -12,19 +12,19 @@ private:
     using bound_indices = std::make_index_sequence<sizeof...(Args)>;
 
 public:
-    constexpr BindFront(const BindFront&) noexcept = default;
+    constexpr BindFront(const BindFront&) = default;
 
-    constexpr BindFront(BindFront&&) noexcept = default;
+    constexpr BindFront(BindFront&&) = default;
 
     template<CDifferentFromSelf<BindFront> Fn, typename... BoundArgs>
     explicit constexpr BindFront(Fn&& func, BoundArgs&&... args)
       noexcept(std::is_nothrow_constructible_v<F, Fn>
-               && (std::is_nothrow_constructible_v<BoundArgs, Args> && ...)) :
+               && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
-    constexpr auto operator=(const BindFront&) noexcept -> BindFront& = default;
+    constexpr auto operator=(const BindFront&) -> BindFront& = default;
 
-    constexpr auto operator=(BindFront&&) noexcept -> BindFront& = default;
+    constexpr auto operator=(BindFront&&) -> BindFront& = default;
 
     // TODO: Simplify when deducing this is added
     template<typename... CallArgs>
@@ -74,9 +74,9 @@ private:
     using bound_indices = std::make_index_sequence<sizeof...(Args)>;
 
 public:
-    constexpr BindBack(const BindBack&) noexcept = default;
+    constexpr BindBack(const BindBack&) = default;
 
-    constexpr BindBack(BindBack&&) noexcept = default;
+    constexpr BindBack(BindBack&&) = default;
 
     template<CDifferentFromSelf<BindBack> Fn, typename... BoundArgs>
     explicit constexpr BindBack(Fn&& func, BoundArgs&&... args)
@@ -84,9 +84,9 @@ public:
                && (std::is_nothrow_constructible_v<Args, BoundArgs> && ...)) :
       m_callable(std::forward<Fn>(func)), m_bound_args{std::forward<BoundArgs>(args)...} {}
 
-    constexpr auto operator=(const BindBack&) noexcept -> BindBack& = default;
+    constexpr auto operator=(const BindBack&) -> BindBack& = default;
 
-    constexpr auto operator=(BindBack&&) noexcept -> BindBack& = default;
+    constexpr auto operator=(BindBack&&) -> BindBack& = default;
 
     // TODO: Simplify when deducing this is added
     template<typename... CallArgs>
-- 
2.43.0


From be5a4c6262dc9ffd95b749d2874fe696a3819912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 54/62] fix: the assignments of Delegate that copy a target
 were noexcept

---
 include/xme/core/functional/delegate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/delegate.hpp b/include/xme/core/functional/delegate.hpp
index 193cee2..6791674 100644
--- a/include/xme/core/functional/delegate.hpp
+++ b/include/xme/core/functional/delegate.hpp
@@ -151,7 +151,7 @@ public:
 
     explicit constexpr operator bool() const noexcept { return !!m_manager; }
 
-    constexpr auto operator=(const Delegate& other) noexcept -> Delegate& {
+    constexpr auto operator=(const Delegate& other) -> Delegate& {
         Delegate(other).swap(*this);
         return *this;
     }
@@ -171,7 +171,7 @@ public:
     }
 
     template<CDifferentFromSelf<Delegate> Fn>
-    constexpr auto operator=(Fn&& other) noexcept -> Delegate& {
+    constexpr auto operator=(Fn&& other) -> Delegate& {
         Delegate(std::forward<Fn>(other)).swap(*this);
         return *this;
     }
-- 
2.43.0


From 5c0c804721018a447fcd83f2689da00b135bf4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:45 +0000
Subject: [PATCH 55/62] fix: assigning a pair to a Pair was noexcept where it
 can throw

---
 include/xme/container/pair.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index 497681a..b5dd392 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -10,7 +10,8 @@ struct Pair {
 public:
     template<CPairLike P>
     constexpr auto operator=(P&& p)
-      noexcept(std::is_nothrow_swappable_v<T> && std::is_nothrow_swappable_v<U>) -> Pair& {
+      noexcept(noexcept(this->first = get<0>(std::forward<P>(p)))
+               && noexcept(this->second = get<1>(std::forward<P>(p)))) -> Pair& {
         first  = get<0>(std::forward<P>(p));
         second = get<1>(std::forward<P>(p));
         return *this;
-- 
2.43.0


From bd9b4aceb76e43ad87ecec9c83fcd0a30f9d9abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:50 +0000
Subject: [PATCH 56/62] fix: the comparisons of Pair and Tuple were noexcept
 where those of the elements can throw

---
 include/xme/container/pair.hpp  | 4 ++--
 include/xme/container/tuple.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xme/container/pair.hpp b/include/xme/container/pair.hpp
index b5dd392..25ba219 100644
--- a/include/xme/container/pair.hpp
+++ b/include/xme/container/pair.hpp
@@ -58,10 +58,10 @@ public:
     }
 
     [[nodiscard]]
-    XME_CONSTEXPR20 bool operator==(const Pair&) const noexcept = default;
+    XME_CONSTEXPR20 bool operator==(const Pair&) const = default;
 
     [[nodiscard]]
-    XME_CONSTEXPR20 auto operator<=>(const Pair&) const noexcept = default;
+    XME_CONSTEXPR20 auto operator<=>(const Pair&) const = default;
 
     constexpr void swap(Pair& p)
       noexcept(std::is_nothrow_swappable_v<T> && std::is_nothrow_swappable_v<U>) {
diff --git a/include/xme/container/tuple.hpp b/include/xme/container/tuple.hpp
index 3aced81..d7e7fd9 100644
--- a/include/xme/container/tuple.hpp
+++ b/include/xme/container/tuple.hpp
@@ -30,9 +30,9 @@ public:
         return convert(*this, std::make_index_sequence<size>{});
     }
 
-    XME_CONSTEXPR20 bool operator==(const self&) const noexcept = default;
+    XME_CONSTEXPR20 bool operator==(const self&) const = default;
 
-    XME_CONSTEXPR20 auto operator<=>(const self&) const noexcept = default;
+    XME_CONSTEXPR20 auto operator<=>(const self&) const = default;
 
     constexpr void swap(Tuple& other) noexcept((std::is_nothrow_swappable_v<T> && ...)) {
         swap(other, std::make_index_sequence<size>{});
-- 
2.43.0


From 7b5636951e54ee9e37325577940070c71a0a28bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:53 +0000
Subject: [PATCH 57/62] fix: the constructor of AlignedData was noexcept where
 that of the object can throw

---
 include/xme/container/aligned_data.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/aligned_data.hpp b/include/xme/container/aligned_data.hpp
index 19ba337..8ebc3a5 100644
--- a/include/xme/container/aligned_data.hpp
+++ b/include/xme/container/aligned_data.hpp
@@ -29,7 +29,7 @@ public:
 
     template<typename... Args>
         requires std::constructible_from<T, Args...>
-    constexpr AlignedData(Args&&... args) noexcept {
+    constexpr AlignedData(Args&&... args) noexcept(std::is_nothrow_constructible_v<T, Args...>) {
         std::construct_at(data(), std::forward<Args>(args)...);
     }
 
-- 
2.43.0


From 72b9cd84ff281faa221bff3abf5398cb5ad6938c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 58/62] fix: ScopedDelegate was noexcept where copying or
 moving the function can throw

---
 include/xme/core/functional/scoped_delegate.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/xme/core/functional/scoped_delegate.hpp b/include/xme/core/functional/scoped_delegate.hpp
index 0060a19..1b52810 100644
--- a/include/xme/core/functional/scoped_delegate.hpp
+++ b/include/xme/core/functional/scoped_delegate.hpp
@@ -8,9 +8,11 @@ namespace xme {
 template<std::invocable F>
 class ScopedDelegate {
 public:
-    constexpr ScopedDelegate(F& func) noexcept : m_callable(func) {}
+    constexpr ScopedDelegate(F& func) noexcept(std::is_nothrow_constructible_v<F, F&>) :
+      m_callable(func) {}
 
-    constexpr ScopedDelegate(F&& func) noexcept : m_callable(std::move(func)) {}
+    constexpr ScopedDelegate(F&& func) noexcept(std::is_nothrow_move_constructible_v<F>) :
+      m_callable(std::move(func)) {}
 
     constexpr ~ScopedDelegate() noexcept { m_callable(); }
 
-- 
2.43.0


From ab5ef37e5284c854874863862c492951b55f8684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 59/62] fix: find and reverse were noexcept where the elements
 can throw

---
 include/xme/core/algorithm/find.hpp    | 2 +-
 include/xme/core/algorithm/reverse.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/core/algorithm/find.hpp b/include/xme/core/algorithm/find.hpp
index c3abd45..861fe0b 100644
--- a/include/xme/core/algorithm/find.hpp
+++ b/include/xme/core/algorithm/find.hpp
@@ -105,7 +105,7 @@ XME_INLINE constexpr auto find(I i, S s, const ::ranges::iter_value_t<I>& value)
 #endif
 }
 template<typename ExecutionPolicy = std::execution::unsequenced_policy, ::ranges::input_range R>
-XME_INLINE constexpr auto find(R&& range, const ::ranges::range_value_t<R>& value) noexcept {
+XME_INLINE constexpr auto find(R&& range, const ::ranges::range_value_t<R>& value) {
     return xme::find<ExecutionPolicy>(::ranges::begin(range), ::ranges::end(range), value);
 }
 }  // namespace xme
\ No newline at end of file
diff --git a/include/xme/core/algorithm/reverse.hpp b/include/xme/core/algorithm/reverse.hpp
index 4bc25b3..c702f2a 100644
--- a/include/xme/core/algorithm/reverse.hpp
+++ b/include/xme/core/algorithm/reverse.hpp
@@ -45,7 +45,7 @@ XME_INLINE void reverse_simd(void* lhs, void* rhs) {
 }  // namespace detail
 
 template<::ranges::input_iterator I, ::ranges::sentinel_for<I> S>
-XME_INLINE constexpr auto reverse(I i, S s) noexcept {
+XME_INLINE constexpr auto reverse(I i, S s) {
 #if XME_SIMD_USE_AVX2 || XME_SIMD_USE_SSSE3
     using T = ::ranges::iter_value_t<I>;
 
@@ -72,7 +72,7 @@ XME_INLINE constexpr auto reverse(I i, S s) noexcept {
 #endif
 }
 template<::ranges::input_range R>
-XME_INLINE constexpr auto reverse(R&& range) noexcept {
+XME_INLINE constexpr auto reverse(R&& range) {
     return xme::reverse(::ranges::begin(range), ::ranges::end(range));
 }
 }  // namespace xme
\ No newline at end of file
-- 
2.43.0


From cea7f24c21fa77b96ccd19ad33a7f6df7eab1d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:01 +0000
Subject: [PATCH 60/62] fix: Heap was noexcept where the comparison can throw

---
 include/xme/container/heap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xme/container/heap.hpp b/include/xme/container/heap.hpp
index 5bb9321..3855fbc 100644
--- a/include/xme/container/heap.hpp
+++ b/include/xme/container/heap.hpp
@@ -60,7 +60,7 @@ public:
 
     //! Pop the front element and rearrange elements to keep a week sort.
     //! O(log(N)) operation
-    constexpr void pop() noexcept {
+    constexpr void pop() {
         assert(m_array.size() > 0);
         std::ranges::swap(m_array.front(), m_array.back());
         m_array.pop_back();
@@ -101,7 +101,7 @@ private:
         return index * 2 + 2;
     }
 
-    constexpr void heapfy_up(size_type index) noexcept {
+    constexpr void heapfy_up(size_type index) {
         for(auto parent_heap = parent(index); index != 0;) {
             if(!m_compare(m_array[parent_heap], m_array[index]))
                 return;
@@ -112,7 +112,7 @@ private:
         }
     }
 
-    constexpr void heapfy_down(size_type index) noexcept {
+    constexpr void heapfy_down(size_type index) {
         const auto lidx = left_child(index);
         const auto ridx = right_child(index);
 
-- 
2.43.0


From 52b73407e758c5c7fdc7d510c272e2eb097db8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:01 +0000
Subject: [PATCH 61/62] fix: IContainer::back() of a range whose sentinel isn't
 an iterator

back() is offered for every bidirectional range, but decremented end(), which
doesn't compile when the sentinel has another type than the iterators.
---
 include/xme/container/icontainer.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xme/container/icontainer.hpp b/include/xme/container/icontainer.hpp
index 29d1ad0..24060c8 100644
--- a/include/xme/container/icontainer.hpp
+++ b/include/xme/container/icontainer.hpp
@@ -93,14 +93,14 @@ public:
     constexpr auto back() noexcept -> decltype(auto)
         requires(::ranges::bidirectional_range<D>)
     {
-        return *::ranges::prev(::ranges::end(derived()));
+        return *::ranges::prev(::ranges::next(::ranges::begin(derived()), ::ranges::end(derived())));
     }
 
     [[nodiscard]]
     constexpr auto back() const noexcept -> decltype(auto)
         requires(::ranges::bidirectional_range<const D>)
     {
-        return *::ranges::prev(::ranges::end(derived()));
+        return *::ranges::prev(::ranges::next(::ranges::begin(derived()), ::ranges::end(derived())));
     }
 };
 }  // namespace xme
\ No newline at end of file
-- 
2.43.0


From 367b3e6912dc1eae584ac2ca23fe7eb5cd8f5003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:29 +0000
Subject: [PATCH 62/62] fix: assigning a copy of a LinkedList needs no
 conversion of its elements

---
 include/xme/container/linked_list.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xme/container/linked_list.hpp b/include/xme/container/linked_list.hpp
index a443b28..0f617d0 100644
--- a/include/xme/container/linked_list.hpp
+++ b/include/xme/container/linked_list.hpp
@@ -88,7 +88,7 @@ public:
 
     //! Clears the current elements and copy the elements from other
     constexpr auto operator=(const LinkedList& other) -> LinkedList& {
-        assign(other);
+        assign(other.begin(), other.end());
         return *this;
     }
 
-- 
2.43.0

