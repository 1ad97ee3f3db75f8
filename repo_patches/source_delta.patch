From a283c15f8ac056e5e5a576386076bf549532653e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:05 +0000
Subject: [PATCH 01/36] fix: vector::push_back of an element of the same vector
 read freed storage

push_back reallocated (destroying and freeing the old elements) before
constructing the new one, so v.push_back(v[i]) copied a dead object
whenever the vector was full.
---
 include/cest/vector.hpp | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/include/cest/vector.hpp b/include/cest/vector.hpp
index ffea2bb..f8a7c50 100644
--- a/include/cest/vector.hpp
+++ b/include/cest/vector.hpp
@@ -186,22 +186,20 @@ public:
 
   constexpr void push_back(const value_type &value)
   {
-    if (0 == m_capacity) {
-      reserve(1);
-    } else if (m_capacity == m_size) {
-      reserve(m_capacity * 2);
+    if (m_capacity == m_size) {
+      push_back_realloc(value);
+    } else {
+      std::construct_at(&m_p[m_size++],value);
     }
-    std::construct_at(&m_p[m_size++],value);
   }
 
   constexpr void push_back(value_type &&value)
   {
-    if (0 == m_capacity) {
-      reserve(1);
-    } else if (m_capacity == m_size) {
-      reserve(m_capacity * 2);
+    if (m_capacity == m_size) {
+      push_back_realloc(std::forward<T>(value));
+    } else {
+      std::construct_at(&m_p[m_size++],std::forward<T>(value));
     }
-    std::construct_at(&m_p[m_size++],std::forward<T>(value));
   }
 
   constexpr iterator erase(iterator first, iterator last)
@@ -216,6 +214,25 @@ public:
     return first;
   }
 
+  // The new element is constructed before the old storage is released, as
+  // value may refer to an element of this vector.
+  template <class U>
+  constexpr void push_back_realloc(U &&value)
+  {
+    const size_type new_cap = 0 == m_capacity ? 1 : m_capacity * 2;
+    value_type *p = m_alloc.allocate(new_cap);
+    std::construct_at(&p[m_size], std::forward<U>(value));
+    for (size_type i = 0; i < m_size; i++)
+      std::construct_at(&p[i], std::move_if_noexcept(m_p[i]));
+    if (0 != m_capacity) {
+      std::destroy_n(m_p,m_size);
+      m_alloc.deallocate(m_p,m_capacity);
+    }
+    m_p = p;
+    m_capacity = new_cap;
+    m_size++;
+  }
+
   size_type       m_size;
   size_type       m_capacity;
   value_type     *m_p;
-- 
2.43.0


From 9de9639933a36baf49aacce66794f17d9c53dba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:38 +0000
Subject: [PATCH 02/36] fix: deque positions at a chunk boundary

The end position was stored as the last element's, so a deque whose last
element filled a chunk had an end() no iterator could reach, popping to
empty at a boundary moved the chunk index out of the table, and pushing
into an already allocated back chunk did not advance to it (overwriting
live elements). m_back is now the position after the last element and
its chunk always exists.
---
 include/cest/deque.hpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 23edbae..a21f024 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -154,7 +154,7 @@ public:
   {
     value_type *p = m_alloc.allocate(CHUNK_SIZE);
     m_front = CHUNK_SIZE / 2;
-    m_back  = CHUNK_SIZE / 2 - 1;
+    m_back  = CHUNK_SIZE / 2;
     m_chunks.push_back(p);
     m_front_chunk = m_back_chunk = 0;
     m_size = 0;
@@ -193,7 +193,7 @@ public:
       std::destroy_n(&(*this)[i], 1);
 
     m_front = CHUNK_SIZE / 2;
-    m_back  = CHUNK_SIZE / 2 - 1;
+    m_back  = CHUNK_SIZE / 2;
     m_front_chunk = m_back_chunk = m_chunks.size() / 2; // 1 / 2 is 0 btw.
     m_size = 0;
   }
@@ -212,26 +212,26 @@ public:
 
   constexpr void push_back( const T& value )
   {
-    push_back_helper();
     std::construct_at(&m_chunks[m_back_chunk][m_back],             value);
+    push_back_helper();
   }
 
   constexpr void push_back( T&& value )
   {
-    push_back_helper();
     std::construct_at(&m_chunks[m_back_chunk][m_back],   std::move(value));
+    push_back_helper();
   }
 
   constexpr void pop_back()
   {
     if (!empty()) {
-      std::destroy_n(&m_chunks[m_back_chunk][m_back], 1);
       if (m_back == 0) {
         m_back = CHUNK_SIZE - 1;
         --m_back_chunk;
       } else {
         --m_back;
       }
+      std::destroy_n(&m_chunks[m_back_chunk][m_back], 1);
       --m_size;
     }
   }
@@ -260,13 +260,13 @@ public:
     return {&m_chunks[m_front_chunk][m_front], &m_chunks[m_front_chunk]};
   }
   constexpr iterator          end()       noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    return {&m_chunks[m_back_chunk][m_back], &m_chunks[m_back_chunk]};
   }
   constexpr const_iterator    end() const noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    return {&m_chunks[m_back_chunk][m_back], &m_chunks[m_back_chunk]};
   }
   constexpr const_iterator   cend() const noexcept {
-    return {&m_chunks[m_back_chunk][m_back+1], &m_chunks[m_back_chunk]};
+    return {&m_chunks[m_back_chunk][m_back], &m_chunks[m_back_chunk]};
   }
   constexpr reference       front() {
     return m_chunks[m_front_chunk][m_front];
@@ -275,10 +275,10 @@ public:
     return m_chunks[m_front_chunk][m_front];
   }
   constexpr reference        back()       {
-    return m_chunks[m_back_chunk][m_back];
+    return (*this)[m_size-1];
   }
   constexpr const_reference  back() const {
-    return m_chunks[m_back_chunk][m_back];
+    return (*this)[m_size-1];
   }
   [[nodiscard]] constexpr bool empty() const noexcept { return size()==0; }
   constexpr size_type size() const noexcept { return m_size; }
@@ -325,15 +325,16 @@ private:
 
   constexpr void push_back_helper()
   {
+    // m_back is the position after the last element; its chunk always exists
     if (m_back == CHUNK_SIZE - 1)
     {
       if (m_back_chunk == m_chunks.size() - 1)
       {
         value_type *p = m_alloc.allocate(CHUNK_SIZE);
         m_chunks.push_back(p);
-        ++m_back_chunk;
       }
-      
+
+      ++m_back_chunk;
       m_back = 0;
     }
     else
-- 
2.43.0


From 5c031b395b5080eed9789843d6d1ce25788bbab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:49 +0000
Subject: [PATCH 03/36] fix: deque iterator decrement across a chunk boundary
 went to the wrong element

---
 include/cest/deque.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index a21f024..bdadd27 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -61,7 +61,7 @@ public:
     constexpr iter&     operator--()                noexcept { // pre-decr
       if (m_p == *m_ppchunk) {
         --m_ppchunk;
-        m_p = *m_ppchunk;
+        m_p = *m_ppchunk + CHUNK_SIZE - 1;
       } else {
         --m_p;
       }
@@ -122,7 +122,7 @@ public:
     constexpr const_iter& operator--()              noexcept { // pre-decr
       if (m_p == *m_ppchunk) {
         --m_ppchunk;
-        m_p = *m_ppchunk;
+        m_p = *m_ppchunk + CHUNK_SIZE - 1;
       } else {
         --m_p;
       }
-- 
2.43.0


From 6328c3bcadd1ca0478ef4b7bf329a01769e7094c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:03 +0000
Subject: [PATCH 04/36] fix: deque iterator difference ignored the chunk
 distance

---
 include/cest/deque.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index bdadd27..73b325b 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -81,7 +81,7 @@ public:
     constexpr operator-(const iter& __x, const iter& __y) noexcept
     {
       return CHUNK_SIZE
-        * (__x.m_ppchunk - __x.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
+        * (__x.m_ppchunk - __y.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
         + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
     }
 
@@ -142,7 +142,7 @@ public:
     constexpr operator-(const const_iter& __x, const const_iter& __y) noexcept
     {
       return CHUNK_SIZE
-        * (__x.m_ppchunk - __x.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
+        * (__x.m_ppchunk - __y.m_ppchunk - 1) + (__x.m_p - *__x.m_ppchunk)
         + (*__y.m_ppchunk + CHUNK_SIZE - __y.m_p);
     }
 
-- 
2.43.0


From 0df799566745ac06778a2556df3bdf7d0d8f4ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:16 +0000
Subject: [PATCH 05/36] fix: deque self-assignment emptied the deque

---
 include/cest/deque.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 73b325b..9323d0c 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -181,6 +181,7 @@ public:
 
   constexpr deque& operator=(const deque& other)
   {
+    if (this == &other) return *this;
     clear();
     for (size_type i = 0; i < other.size(); ++i)
       push_back(other[i]);
-- 
2.43.0


From 4a81d93bea878edaab4b03f6561fad74e5726cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:28 +0000
Subject: [PATCH 06/36] fix: list self-assignment emptied the list

---
 include/cest/list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 260725b..5414329 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -147,6 +147,7 @@ struct list {
 
   constexpr list& operator=(const list& other)
   {
+    if (this == &other) return *this;
     clear();
     for (auto it = other.cbegin(); it != other.cend(); ++it)
       push_back(*it);
-- 
2.43.0


From 093e74707391ef6931be061449f7cca1ba241b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:39 +0000
Subject: [PATCH 07/36] fix: list and forward_list iterator post-increment
 returned a node pointer

---
 include/cest/forward_list.hpp | 4 ++--
 include/cest/list.hpp         | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index e4a1948..3c5ec8a 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -52,7 +52,7 @@ struct forward_list {
     }
 
     constexpr auto      operator++(int)             noexcept { // post-incr
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr bool      operator==(const iter& rhs) const noexcept {
@@ -86,7 +86,7 @@ struct forward_list {
     }
 
     constexpr auto      operator++(int)                   noexcept {
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr bool      operator==(const const_iter& rhs) const noexcept {
diff --git a/include/cest/list.hpp b/include/cest/list.hpp
index 5414329..043c1cc 100644
--- a/include/cest/list.hpp
+++ b/include/cest/list.hpp
@@ -76,7 +76,7 @@ struct list {
     }
 
     constexpr auto      operator++(int)             noexcept { // post-incr
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr auto&     operator--()                noexcept {
@@ -84,7 +84,7 @@ struct list {
     }
 
     constexpr auto      operator--(int)             noexcept {
-      auto tmp(m_node); --(*this); return tmp; 
+      auto tmp(*this); --(*this); return tmp; 
     }
 
     constexpr bool      operator==(const iter& rhs) const noexcept {
@@ -118,7 +118,7 @@ struct list {
     }
 
     constexpr auto      operator++(int)                   noexcept {
-      auto tmp(m_node); ++(*this); return tmp; 
+      auto tmp(*this); ++(*this); return tmp; 
     }
 
     constexpr auto&     operator--()                      noexcept {
@@ -126,7 +126,7 @@ struct list {
     }
 
     constexpr auto      operator--(int)                   noexcept {
-      auto tmp(m_node); --(*this); return tmp; 
+      auto tmp(*this); --(*this); return tmp; 
     }
 
     constexpr bool      operator==(const const_iter& rhs) const noexcept {
-- 
2.43.0


From ca16036bab503f7002599a6ae28a99de594cc36c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:51 +0000
Subject: [PATCH 08/36] fix: forward_list::swap left each list's nodes with the
 other's allocator

---
 include/cest/forward_list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cest/forward_list.hpp b/include/cest/forward_list.hpp
index 3c5ec8a..637ce29 100644
--- a/include/cest/forward_list.hpp
+++ b/include/cest/forward_list.hpp
@@ -120,6 +120,7 @@ struct forward_list {
 
   constexpr void swap(forward_list& x) {
     std::swap(this->m_front.next, x.m_front.next);
+    std::swap(this->m_node_alloc, x.m_node_alloc);
   }
 
   constexpr allocator_type get_allocator() const noexcept {
-- 
2.43.0


From ab9589e78c0fd1d5dc17a17b161e6776d952d36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:29 +0000
Subject: [PATCH 09/36] fix: set and map self-assignment emptied the container

---
 include/cest/map.hpp | 1 +
 include/cest/set.hpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index c31b0fd..a1f20af 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -168,6 +168,7 @@ public:
 
   constexpr map& operator=(const map& other)
   {
+    if (this == &other) return *this;
     clear();
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
diff --git a/include/cest/set.hpp b/include/cest/set.hpp
index f1a86f2..a3c38c5 100644
--- a/include/cest/set.hpp
+++ b/include/cest/set.hpp
@@ -109,6 +109,7 @@ public:
 
   constexpr set& operator=(const set& other)
   {
+    if (this == &other) return *this;
     clear();
     for (auto it = other.begin(); it != other.end(); ++it)
       insert(*it);
-- 
2.43.0


From eef065568240633d5f2babc9559b8536ada264ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:40 +0000
Subject: [PATCH 10/36] fix: map iterator increment compared keys with ==
 instead of the nodes

Keys whose == differs from comparator equivalence (or is not an
equivalence) made iteration skip or repeat entries, and keys without ==
could not be iterated at all.
---
 include/cest/map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index a1f20af..9981ee5 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -62,7 +62,7 @@ public:
       else 
       {
         node *pn = curr_node->p;
-        while (pn && pn->r && curr_node->x.first == pn->r->x.first)
+        while (pn && pn->r && curr_node == pn->r)
         {
           curr_node = pn;
           pn = pn->p;
@@ -117,7 +117,7 @@ public:
       else 
       {
         node *pn = curr_node->p;
-        while (pn && pn->r && curr_node->x.first == pn->r->x.first)
+        while (pn && pn->r && curr_node == pn->r)
         {
           curr_node = pn;
           pn = pn->p;
-- 
2.43.0


From 287ac0195aa22c2f442eaa90f96b323b7e0ea11d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:50 +0000
Subject: [PATCH 11/36] fix: map::find for other key types did not compile

---
 include/cest/map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/map.hpp b/include/cest/map.hpp
index 9981ee5..0041d87 100644
--- a/include/cest/map.hpp
+++ b/include/cest/map.hpp
@@ -246,7 +246,7 @@ public:
       else                             {              break; }
     }
 
-    return {n};
+    return iterator(n);
   }
 
   template <class K>
@@ -260,7 +260,7 @@ public:
       else                             {              break; }
     }
 
-    return {n};
+    return const_iterator(n);
   }
 
   constexpr void rotate_left(node *&n) {
-- 
2.43.0


From 8ddec1acb44755e4a41e7cfb0f3a9c6602b747c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:02 +0000
Subject: [PATCH 12/36] fix: unique_ptr move assignment swapped instead of
 deleting the old object

---
 include/cest/memory.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/cest/memory.hpp b/include/cest/memory.hpp
index 3ef2462..637fff2 100644
--- a/include/cest/memory.hpp
+++ b/include/cest/memory.hpp
@@ -43,8 +43,7 @@ public:
 
   constexpr unique_ptr& operator=(unique_ptr&& other) noexcept
   {
-    using std::swap;
-    swap(other.ptr_, ptr_);
+    reset(other.release());
     return *this;
   }
 
-- 
2.43.0


From a10ed78bab3a6b5bd69cfa6c1b575153ad49e868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:14 +0000
Subject: [PATCH 13/36] fix: copying or aliasing an empty shared_ptr
 dereferenced a null control block

---
 include/cest/shared_ptr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 9b465ed..afcfb7b 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -81,11 +81,11 @@ public:
     : ptr_{ptr}, pctrl_{new ctrl_derived<Y,Deleter>{ptr,del}} {}
 
   constexpr shared_ptr_base(const shared_ptr_base& r) noexcept
-    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { ++pctrl_->count_; }
+    : ptr_{r.ptr_}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
   template <class Y>
   constexpr shared_ptr_base(const shared_ptr<Y>& r, element_type* ptr) noexcept
-    : ptr_{ptr}, pctrl_{r.pctrl_} { ++pctrl_->count_; }
+    : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
   constexpr ~shared_ptr_base()
   {
-- 
2.43.0


From e1410500382afabc37bc17dab327d96579f9cb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:26 +0000
Subject: [PATCH 14/36] fix: shared_ptr assignment did not maintain the
 reference counts

---
 include/cest/shared_ptr.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index afcfb7b..4663ec4 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -87,6 +87,14 @@ public:
   constexpr shared_ptr_base(const shared_ptr<Y>& r, element_type* ptr) noexcept
     : ptr_{ptr}, pctrl_{r.pctrl_} { if (pctrl_) ++pctrl_->count_; }
 
+  constexpr shared_ptr_base& operator=(const shared_ptr_base& r) noexcept
+  {
+    shared_ptr_base tmp(r);
+    std::swap(ptr_, tmp.ptr_);
+    std::swap(pctrl_, tmp.pctrl_);
+    return *this;
+  }
+
   constexpr ~shared_ptr_base()
   {
     if (pctrl_ && !--pctrl_->count_)
-- 
2.43.0


From 7c919b42fc9a745de4999bbcdbcfe12fbeb47f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:36 +0000
Subject: [PATCH 15/36] fix: shared_ptr<Base>(new Derived) deleted the object
 as a Base

---
 include/cest/shared_ptr.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 4663ec4..455cde7 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -65,6 +65,11 @@ protected:
   template <typename U>
   struct def_del : default_delete<U> {};
 
+  // A Y* is deleted as such, even when T is a base class of Y
+  template <typename Y>
+  using deleter_for =
+    def_del<std::conditional_t<std::is_array_v<Td>, Td, Y>>;
+
 public:
   using element_type = std::remove_extent_t<T>;
   using weak_type = std::weak_ptr<T>;
@@ -74,7 +79,7 @@ public:
 
   template <class Y>
   explicit constexpr shared_ptr_base(Y* ptr)
-    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,def_del<Td>>{ptr,def_del<Td>{}}} {}
+    : ptr_{ptr}, pctrl_{new ctrl_derived<Y,deleter_for<Y>>{ptr,{}}} {}
 
   template <class Y, class Deleter>
   constexpr shared_ptr_base(Y* ptr, Deleter del)
-- 
2.43.0


From 19de6b63edb88de462b5acbacd265e5232c84547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:47 +0000
Subject: [PATCH 16/36] fix: copying a function recursed without end

function's converting constructor was the best match for a function
lvalue, and wrapped it by copying it with that same constructor.
---
 include/cest/functional.hpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/include/cest/functional.hpp b/include/cest/functional.hpp
index a614699..fdadce7 100644
--- a/include/cest/functional.hpp
+++ b/include/cest/functional.hpp
@@ -15,6 +15,7 @@ class virt_impl_f
 {
 public:
   constexpr virtual R operator()(Args... args) = 0;
+  constexpr virtual virt_impl_f* clone() const = 0;
   constexpr virtual ~virt_impl_f() = default;
 };
 
@@ -24,6 +25,8 @@ class impl_f : public virt_impl_f<R , Args...>
 public:
   constexpr impl_f(F&& f) : f_(f) {}
 
+  constexpr virtual impl_f* clone() const override { return new impl_f(*this); }
+
   constexpr virtual R operator()(Args... args) override {
     return f_(std::forward<Args>(args)...);
   }
@@ -37,6 +40,8 @@ class impl_f<F, void, Args...> : public virt_impl_f<void, Args...>
 public:
   constexpr impl_f(F&& f) : f_(f) {}
 
+  constexpr virtual impl_f* clone() const override { return new impl_f(*this); }
+
   constexpr virtual void operator()(Args... args) override {
     f_(std::forward<Args>(args)...);
   }
@@ -57,7 +62,17 @@ public:
     return f_->operator()(std::forward<Args>(args)...);
   }
 
-  template<typename F>
+  constexpr function(const function& other) :
+    f_(other.f_ ? other.f_->clone() : nullptr) {}
+  constexpr function(function&& other) = default;
+  constexpr function& operator=(const function& other) {
+    return *this = function(other);
+  }
+  constexpr function& operator=(function&& other) = default;
+
+  template<typename F,
+           typename = std::enable_if_t<
+             !std::is_same_v<std::decay_t<F>, function>>>
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
                          R, Args...>>(std::move(f))){}
@@ -73,7 +88,17 @@ public:
     return f_->operator()(std::forward<Args>(args)...);
   }
 
-  template<typename F>
+  constexpr function(const function& other) :
+    f_(other.f_ ? other.f_->clone() : nullptr) {}
+  constexpr function(function&& other) = default;
+  constexpr function& operator=(const function& other) {
+    return *this = function(other);
+  }
+  constexpr function& operator=(function&& other) = default;
+
+  template<typename F,
+           typename = std::enable_if_t<
+             !std::is_same_v<std::decay_t<F>, function>>>
   constexpr function(F&& f) :
     f_(cest::make_unique<impl_f<std::decay_t<F>,
                          void, Args...>>(std::move(f))){}
-- 
2.43.0


From 527fc6a7cfccdf0122cdb3ba18d0c60e951461fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:58 +0000
Subject: [PATCH 17/36] fix: deque ignored the allocator passed to its
 initializer-list constructor

---
 include/cest/deque.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cest/deque.hpp b/include/cest/deque.hpp
index 9323d0c..21cd3d2 100644
--- a/include/cest/deque.hpp
+++ b/include/cest/deque.hpp
@@ -150,7 +150,9 @@ public:
     value_type* const* m_ppchunk = nullptr; // address of the vector element
   };
 
-  constexpr deque()
+  constexpr deque() : deque(Allocator()) {}
+
+  explicit constexpr deque(const Allocator& alloc) : m_alloc(alloc)
   {
     value_type *p = m_alloc.allocate(CHUNK_SIZE);
     m_front = CHUNK_SIZE / 2;
@@ -167,7 +169,7 @@ public:
   }
 
   constexpr deque(std::initializer_list<T> init,
-                  const Allocator& alloc = Allocator()) : deque()
+                  const Allocator& alloc = Allocator()) : deque(alloc)
   {
     for (const auto &x : init) { push_back(x); }
   }
-- 
2.43.0


From f34a75329e968ee355ef70794a4e125ede6fdc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:10 +0000
Subject: [PATCH 18/36] fix: string copies stopped at an embedded NUL, and
 assigning a string's own characters read freed storage

---
 include/cest/string.hpp | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 121a071..c046cb0 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -62,7 +62,8 @@ public:
   constexpr basic_string(const CharT* s, const Allocator &alloc = Allocator())
   : basic_string(s, traits_type::length(s), alloc) {}
 
-  constexpr basic_string(const basic_string& str) : basic_string(str.c_str()) {}
+  constexpr basic_string(const basic_string& str)
+  : basic_string(str.data(), str.size()) {}
 
   template <class InputIt>
   constexpr basic_string(InputIt __beg, InputIt __end,
@@ -218,24 +219,11 @@ public:
 
   constexpr basic_string& operator=(const CharT* s)
   {
-    //const CharT* s  = str.c_str();
-    size_type count = traits_type::length(s);
-
-    if (m_capacity < count+1) {
-      m_alloc.deallocate(m_p, m_capacity+1);
-      m_capacity = count+1;                    // ensure m_capacity is not 0
-      m_p = m_alloc.allocate(m_capacity+1);    // +1 for the null terminator
-      for (size_type i = 0; i < m_capacity+1; i++)
-        std::construct_at(&m_p[i]);
-    }
-    
-    traits_type::copy(m_p, s, count+1);
-    m_size = count;
-    return *this;
+    return this->assign(s, traits_type::length(s));
   }
 
   constexpr basic_string& operator=(const basic_string& str) {
-    return this->operator=(str.c_str());
+    return this->assign(str.data(), str.size());
   }
 
   constexpr void reserve(size_type new_cap)
@@ -278,6 +266,25 @@ public:
 
 private:
 
+  // s may point into this string
+  constexpr basic_string& assign(const CharT* s, size_type count)
+  {
+    if (m_capacity < count+1) {
+      value_type *p = m_alloc.allocate(count+2); // +1 for the null terminator
+      for (size_type i = 0; i < count+2; i++)
+        std::construct_at(&p[i]);
+      traits_type::copy(p, s, count);
+      m_alloc.deallocate(m_p, m_capacity+1);
+      m_p = p;
+      m_capacity = count+1;                    // ensure m_capacity is not 0
+    }
+    else
+      traits_type::move(m_p, s, count);
+
+    traits_type::assign(this->data()[m_size = count], CharT());
+    return *this;
+  }
+
   static constexpr int _S_compare(size_type n1, size_type n2) noexcept
   {
     const difference_type d = difference_type(n1 - n2);
-- 
2.43.0


From 653749536f5fd0b875c46e95e2a2e99ea11e14cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:20 +0000
Subject: [PATCH 19/36] fix: string::push_back of one of its own characters
 read freed storage

---
 include/cest/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index c046cb0..a814f1d 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -178,7 +178,8 @@ public:
      return this->find(s, pos, traits_type::length(s));
   }
 
-  constexpr void push_back(const value_type &value) {
+  constexpr void push_back(const value_type &c) {
+    const value_type value = c;              // c may be one of this string's
     if (m_size + 1 > m_capacity)
       reserve(m_capacity * 2);
     traits_type::assign(this->data()[  m_size], value);
-- 
2.43.0


From fcd03e63b610a219ce25d598639711324240b087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:32 +0000
Subject: [PATCH 20/36] fix: string::find stopped at an embedded NUL of the
 string sought

---
 include/cest/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index a814f1d..388b024 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -137,7 +137,7 @@ public:
 
   constexpr
   size_type find(const basic_string &str, size_type pos = 0) const noexcept {
-    return this->find(str.data(), pos);
+    return this->find(str.data(), pos, str.size());
   }
 
   constexpr size_type find(CharT ch, size_type /*pos*/ = 0) const noexcept {
-- 
2.43.0


From a81d8cccb2a928b3d3696b308aec22c312b7a632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:42 +0000
Subject: [PATCH 21/36] fix: string::find of a character ignored the start
 position

---
 include/cest/string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 388b024..1ebefcf 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -140,8 +140,9 @@ public:
     return this->find(str.data(), pos, str.size());
   }
 
-  constexpr size_type find(CharT ch, size_type /*pos*/ = 0) const noexcept {
-    auto *p = traits_type::find(this->data(), this->size(), ch);
+  constexpr size_type find(CharT ch, size_type pos = 0) const noexcept {
+    if (pos >= this->size()) return npos;
+    auto *p = traits_type::find(this->data() + pos, this->size() - pos, ch);
     return p ? (p-this->data()) : npos;
   }
 
-- 
2.43.0


From 6fe23157fe0eae7cd1fc2c71d80638c3e3a0413e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:53 +0000
Subject: [PATCH 22/36] fix: string constructed from an empty iterator range
 wrote through a null pointer

---
 include/cest/string.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index 1ebefcf..b3e0c84 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -67,7 +67,8 @@ public:
 
   template <class InputIt>
   constexpr basic_string(InputIt __beg, InputIt __end,
-                         const Allocator& alloc = Allocator()) : m_alloc(alloc)
+                         const Allocator& alloc = Allocator())
+  : basic_string(alloc)
   {
     static_assert(std::is_same_v<
       std::input_iterator_tag,
-- 
2.43.0


From be3d20b7ca34ca37f838932367dee63cce45c752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:35 +0000
Subject: [PATCH 23/36] fix: floor and ceil rounded twice near an integer

floor(-0.99999999999999989) gave -2 and ceil(0.99999999999999989) gave 2,
as v-1 and v+1 were rounded to double before being truncated.
---
 include/cest/cmath.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index 25e0aae..88e7353 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -118,7 +118,7 @@ namespace cest {
   }
 
   constexpr int ceil(double v) {
-    return ((double)(int)v != v && v > 0) ?  v + 1 : v;
+    return ((double)(int)v != v && v > 0) ?  (int)v + 1 : v;
   }
 
   constexpr double cos(double x) {
@@ -130,7 +130,7 @@ namespace cest {
   }
 
   constexpr int floor(double v) {
-    return ((double)(int)v != v && v < 0) ?  v - 1 : v;
+    return ((double)(int)v != v && v < 0) ?  (int)v - 1 : v;
   }
 
   constexpr double pow(double base, int exponent) {
-- 
2.43.0


From 70079b9662e519a7a6e9c72364e2c0b806faadcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:45 +0000
Subject: [PATCH 24/36] fix: abs(-0.0) returned -0.0

---
 include/cest/bits/abs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/bits/abs.hpp b/include/cest/bits/abs.hpp
index 7190ab9..ccd834f 100644
--- a/include/cest/bits/abs.hpp
+++ b/include/cest/bits/abs.hpp
@@ -3,7 +3,7 @@
 
 namespace cest {
 
-constexpr double abs(double x) { return x < 0.0 ? -x : x; }
+constexpr double abs(double x) { return x <= 0.0 ? 0.0 - x : x; }
 constexpr double fabs(double x) { return abs(x); }
 
 } // namespace cest
-- 
2.43.0


From 9e07a8094e0997c502468b2675207e62e7f71d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:56 +0000
Subject: [PATCH 25/36] fix: sqrt of zero, infinity, NaN and negative numbers
 recursed without end

---
 include/cest/cmath.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index 88e7353..f006c45 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -2,6 +2,7 @@
 #define _CEST_CMATH_HPP_
 
 #include "cest/bits/abs.hpp"
+#include <limits> // std::numeric_limits
 
 namespace cest {
 
@@ -141,7 +142,9 @@ namespace cest {
   }
 
   constexpr double sqrt(double x) {
-    return sqrt_helper(x,1.0);
+    return x == 0 || x == std::numeric_limits<double>::infinity() ? x :
+           x >  0 ? sqrt_helper(x,1.0) :
+           std::numeric_limits<double>::quiet_NaN();
   }
 
   constexpr double sin(double x) { 
-- 
2.43.0


From 1bc3d70c39a0fcf76acf83672ffafea3d5a01818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:06 +0000
Subject: [PATCH 26/36] fix: log of infinity and NaN recursed without end

---
 include/cest/cmath.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index f006c45..1dfb3a4 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -162,7 +162,8 @@ namespace cest {
   }
 
   constexpr double log(double x) {
-    return x == 0 ? -std::numeric_limits<double>::infinity() :
+    return x != x || x == std::numeric_limits<double>::infinity() ? x :
+           x == 0 ? -std::numeric_limits<double>::infinity() :
            x <  0 ?  std::numeric_limits<double>::quiet_NaN() :
            2.0 * log_helper(sqrt(mantissa(x))) + 2.3025851 * exponent(x);
   }
-- 
2.43.0


From 3721a804dfb9d81667d33e1361ec482f7530c18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:18 +0000
Subject: [PATCH 27/36] fix: pow recursed once per unit of the exponent,
 without end for the least int

---
 include/cest/cmath.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index 1dfb3a4..6be8c47 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -135,10 +135,12 @@ namespace cest {
   }
 
   constexpr double pow(double base, int exponent) {
-    return exponent <  0 ? 1.0 / pow(base,-exponent) :
-           exponent == 0 ? 1.                        :
-           exponent == 1 ? base                      :
-           base * pow(base,exponent-1);
+    // unsigned, as the magnitude of the least int is not an int
+    unsigned n = exponent < 0 ? 0u - exponent : exponent;
+    double res = 1.;
+    for (; n != 0; --n)
+      res = base * res;
+    return exponent < 0 ? 1.0 / res : res;
   }
 
   constexpr double sqrt(double x) {
-- 
2.43.0


From 880b790e46d4d78e1ca1ae00e49e431e6699e672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:30 +0000
Subject: [PATCH 28/36] fix: atan of NaN recursed without end

---
 include/cest/cmath.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/cmath.hpp b/include/cest/cmath.hpp
index 6be8c47..64b24d4 100644
--- a/include/cest/cmath.hpp
+++ b/include/cest/cmath.hpp
@@ -45,7 +45,7 @@ namespace cest {
     // x - x^3/3 + x^5/5 - x^7/7+x^9/9  etc.
     constexpr double atan_poly_helper(const double res,  const double num1,
                                       const double den1, const double delta) {
-      return res < tol ? res :
+      return !(res >= tol) ? res :
              res + atan_poly_helper((num1*delta)/(den1+2.)-num1/den1,
                                      num1*delta*delta,den1+4.,delta);
     }
-- 
2.43.0


From 0442e44c29e3e3d49daf1998f54a11d22612bf05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:07 +0000
Subject: [PATCH 29/36] fix: inserting a long into an ostream used the
 undefined sentry constructor

---
 include/cest/ostream.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cest/ostream.hpp b/include/cest/ostream.hpp
index 3a9488c..c99f091 100644
--- a/include/cest/ostream.hpp
+++ b/include/cest/ostream.hpp
@@ -60,7 +60,10 @@ public:
 
   constexpr __ostream_type&
   operator<<(long __n)
-  { return _M_insert(__n); }
+  {
+    impl::runtime_ostream(*this, __n);
+    return *this;
+  }
 
   constexpr __ostream_type& operator<<(int value)                             {
     impl::runtime_ostream(*this, value);
-- 
2.43.0


From 1b4139bf4cad43bc384e4a3ff275da0f1d831a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:19 +0000
Subject: [PATCH 30/36] fix: inserting a string into an ostream stopped at an
 embedded NUL

---
 include/cest/string.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/cest/string.hpp b/include/cest/string.hpp
index b3e0c84..eceffcc 100644
--- a/include/cest/string.hpp
+++ b/include/cest/string.hpp
@@ -4,6 +4,7 @@
 #include "ostream.hpp"
 #include "runtime_ostream.hpp"
 #include <string>      // std::char_traits
+#include <string_view> // std::basic_string_view
 #include <memory>      // std::allocator
 #include <iterator>    // std::reverse_iterator
 #include <limits>      // std::numeric_limits
@@ -377,7 +378,8 @@ operator<<(
   basic_ostream<CharT, Traits>& os,
   const basic_string<CharT, Traits, Allocator>& str)
 {
-  impl::runtime_ostream(os, str.c_str());
+  impl::runtime_ostream(os, std::basic_string_view<CharT, Traits>(
+    str.data(), str.size()));
   return os;
 }
 
-- 
2.43.0


From f6096245a376eae4afd3203ea8c3c3de11cf1b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:31 +0000
Subject: [PATCH 31/36] fix: istringstream::str() and stringstream::str() did
 not compile

---
 include/cest/sstream.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cest/sstream.hpp b/include/cest/sstream.hpp
index 4809b3e..8dd0f85 100644
--- a/include/cest/sstream.hpp
+++ b/include/cest/sstream.hpp
@@ -51,6 +51,8 @@ public:
     _M_string(__str.data(), __str.size(), __str.get_allocator())
   { _M_stringbuf_init(__mode); }
 
+  constexpr __string_type str() const { return _M_string; }
+
   constexpr void str(const __string_type& __s)
   {
     _M_string = __s;
-- 
2.43.0


From f7ac837d601c139fde7e0624aba2d884826677c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:43 +0000
Subject: [PATCH 32/36] fix: fprintf dropped what follows a NUL printed with %c

---
 include/cest/cstdio.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cest/cstdio.hpp b/include/cest/cstdio.hpp
index 7ba7a78..5491829 100644
--- a/include/cest/cstdio.hpp
+++ b/include/cest/cstdio.hpp
@@ -58,7 +58,7 @@ constexpr int fprintf(ostream* stream, const char* format, Ts&&... xs)
     int nbytes = std::snprintf(nullptr, 0, format, std::forward<Ts>(xs)...);
     char *psz = new char[nbytes+1];
     std::snprintf(psz, nbytes+1, format, std::forward<Ts>(xs)...);
-    (*stream) << psz;
+    (*stream) << string(psz,nbytes);
     delete [] psz;
     return nbytes;
   }
-- 
2.43.0


From eeca8cc3d6acfc01f5b4e00f4bebfb25d7b4500f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:15 +0000
Subject: [PATCH 33/36] fix: get_deleter found no deleter for a pointer to a
 derived class

---
 include/cest/shared_ptr.hpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/include/cest/shared_ptr.hpp b/include/cest/shared_ptr.hpp
index 455cde7..3ea52ce 100644
--- a/include/cest/shared_ptr.hpp
+++ b/include/cest/shared_ptr.hpp
@@ -52,14 +52,22 @@ protected:
     long count_;
   };
 
+  template <class Deleter>
+  struct ctrl_deleter : public ctrl
+  {
+    constexpr ctrl_deleter(Deleter del) : del_{del} {}
+
+    Deleter del_;
+  };
+
   template <class U, class Deleter>
-  struct ctrl_derived : public ctrl
+  struct ctrl_derived : public ctrl_deleter<Deleter>
   {
-    constexpr ctrl_derived(U* ptr, Deleter del) : ptr_{ptr}, del_{del} {}
-    virtual constexpr void destroy() override { del_(ptr_); }
+    constexpr ctrl_derived(U* ptr, Deleter del)
+      : ctrl_deleter<Deleter>{del}, ptr_{ptr} {}
+    virtual constexpr void destroy() override { this->del_(ptr_); }
 
     U* ptr_;
-    Deleter del_;
   };
 
   template <typename U>
@@ -131,13 +139,11 @@ protected:
 template <class Deleter, class U>
 constexpr Deleter* get_deleter(const shared_ptr<U>& p) noexcept
 {
-  using elem_t = typename shared_ptr<U>::element_type;
-
-  if constexpr (std::is_invocable_v<Deleter,elem_t*>)
+  if constexpr (std::is_object_v<Deleter>)
   {
-    using ctrl_derived_t =
-      typename shared_ptr<U>::template ctrl_derived<elem_t,Deleter>;
-    auto ptr = dynamic_cast<ctrl_derived_t*>(p.pctrl_);
+    using ctrl_deleter_t =
+      typename shared_ptr<U>::template ctrl_deleter<Deleter>;
+    auto ptr = dynamic_cast<ctrl_deleter_t*>(p.pctrl_);
     return ptr ? &ptr->del_ : nullptr;
   } 
   
-- 
2.43.0


From 595a68649179bae7d434145dc1242b35e5f1cd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:21 +0000
Subject: [PATCH 34/36] fix: function could not be constructed from a const
 callable

---
 include/cest/functional.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/functional.hpp b/include/cest/functional.hpp
index fdadce7..78518fc 100644
--- a/include/cest/functional.hpp
+++ b/include/cest/functional.hpp
@@ -23,7 +23,7 @@ template <typename F, typename R, typename... Args>
 class impl_f : public virt_impl_f<R , Args...>
 {
 public:
-  constexpr impl_f(F&& f) : f_(f) {}
+  constexpr impl_f(const F& f) : f_(f) {}
 
   constexpr virtual impl_f* clone() const override { return new impl_f(*this); }
 
@@ -38,7 +38,7 @@ template <typename F, typename... Args>
 class impl_f<F, void, Args...> : public virt_impl_f<void, Args...>
 {
 public:
-  constexpr impl_f(F&& f) : f_(f) {}
+  constexpr impl_f(const F& f) : f_(f) {}
 
   constexpr virtual impl_f* clone() const override { return new impl_f(*this); }
 
-- 
2.43.0


From d3de725c8cc6974faa21a2a5de5c7caedef36219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:58 +0000
Subject: [PATCH 35/36] fix: complex: call cest's own functions in sqrt, log10,
 tan, tanh and pow

The leftover std:: calls are not declared for cest::complex, so none of these
functions compiled when used.
---
 include/cest/complex.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index a87dc0a..55a074e 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -791,7 +791,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     log10(const complex<_Tp>& __z)
-    { return std::log(__z) / log(_Tp(10.0)); }
+    { return cest::log(__z) / log(_Tp(10.0)); }
 
   // 26.2.8/10 sin(__z): Returns the sine of __z.
   template<typename _Tp>
@@ -869,7 +869,7 @@ namespace cest
         }
       else
         {
-          _Tp __t = sqrt(2 * (std::abs(__z) + abs(__x)));
+          _Tp __t = sqrt(2 * (cest::abs(__z) + abs(__x)));
           _Tp __u = __t / 2;
           return __x > _Tp()
             ? complex<_Tp>(__u, __y / __t)
@@ -902,7 +902,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     __complex_tan(const complex<_Tp>& __z)
-    { return std::sin(__z) / std::cos(__z); }
+    { return cest::sin(__z) / cest::cos(__z); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -930,7 +930,7 @@ namespace cest
   template<typename _Tp>
     inline complex<_Tp>
     __complex_tanh(const complex<_Tp>& __z)
-    { return std::sinh(__z) / std::cosh(__z); }
+    { return cest::sinh(__z) / cest::cosh(__z); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -998,14 +998,14 @@ namespace cest
       if (__x.imag() == _Tp() && __x.real() > _Tp())
         return pow(__x.real(), __y);
 
-      complex<_Tp> __t = std::log(__x);
+      complex<_Tp> __t = cest::log(__x);
       return cest::polar<_Tp>(exp(__y * __t.real()), __y * __t.imag());
     }
 
   template<typename _Tp>
     inline complex<_Tp>
     __complex_pow(const complex<_Tp>& __x, const complex<_Tp>& __y)
-    { return __x == _Tp() ? _Tp() : std::exp(__y * std::log(__x)); }
+    { return __x == _Tp() ? _Tp() : cest::exp(__y * cest::log(__x)); }
 
 #if _GLIBCXX_USE_C99_COMPLEX
   inline __complex__ float
@@ -1038,7 +1038,7 @@ namespace cest
     {
       return __x > _Tp() ? cest::polar<_Tp>(pow(__x, __y.real()),
 					   __y.imag() * log(__x))
-	                 : std::pow(complex<_Tp>(__x), __y);
+	                 : cest::pow(complex<_Tp>(__x), __y);
     }
 
 } // namespace cest
-- 
2.43.0


From c82a35c4f00e4e25cc663b59560bc0109878003e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:58 +0000
Subject: [PATCH 36/36] fix: complex: pow with a real base or exponent keeps
 the exponent's fraction

cest's real pow takes an int exponent, so the exponent was silently truncated:
pow(complex<double>(4), 0.5) was 1.
---
 include/cest/complex.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cest/complex.hpp b/include/cest/complex.hpp
index 55a074e..56afbd6 100644
--- a/include/cest/complex.hpp
+++ b/include/cest/complex.hpp
@@ -996,7 +996,7 @@ namespace cest
 	return _Tp();
 #endif
       if (__x.imag() == _Tp() && __x.real() > _Tp())
-        return pow(__x.real(), __y);
+        return exp(__y * log(__x.real()));
 
       complex<_Tp> __t = cest::log(__x);
       return cest::polar<_Tp>(exp(__y * __t.real()), __y * __t.imag());
@@ -1036,7 +1036,7 @@ namespace cest
     inline complex<_Tp>
     pow(const _Tp& __x, const complex<_Tp>& __y)
     {
-      return __x > _Tp() ? cest::polar<_Tp>(pow(__x, __y.real()),
+      return __x > _Tp() ? cest::polar<_Tp>(exp(__y.real() * log(__x)),
 					   __y.imag() * log(__x))
 	                 : cest::pow(complex<_Tp>(__x), __y);
     }
-- 
2.43.0

