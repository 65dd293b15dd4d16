From 22ae62dfa43cadbd75b9fdb50af10dba2079df29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 01/18] fix: deallocate the whole buffer when filling it throws

circular_buffer(capacity, n, item) allocates capacity elements, but passed
size() to deallocate when copying item threw.
---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 4744154..d57991a 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2501,7 +2501,7 @@ private:
         BOOST_TRY {
             cb_details::uninitialized_fill_n_with_alloc(m_buff, size(), item, alloc());
         } BOOST_CATCH(...) {
-            deallocate(m_buff, size());
+            deallocate(m_buff, buffer_capacity);
             BOOST_RETHROW
         }
         BOOST_CATCH_END
-- 
2.43.0


From d7d7723806d8003782fd1c8d10445b3d9c0776a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 02/18] fix: do not leak when constructing from a single-pass
 range throws

The constructor taking a capacity and an input iterator range leaked the
buffer and the elements already constructed when copying an element or
reading the range threw.
---
 include/boost/circular_buffer/base.hpp | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index d57991a..babb69b 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2576,16 +2576,22 @@ private:
         m_size = 0;
         if (buffer_capacity == 0)
             return;
-        while (first != last && !full()) {
-            boost::allocator_construct(alloc(), boost::to_address(m_last), *first++);
-            increment(m_last);
-            ++m_size;
-        }
-        while (first != last) {
-            replace(m_last, *first++);
-            increment(m_last);
-            m_first = m_last;
+        BOOST_TRY {
+            while (first != last && !full()) {
+                boost::allocator_construct(alloc(), boost::to_address(m_last), *first++);
+                increment(m_last);
+                ++m_size;
+            }
+            while (first != last) {
+                replace(m_last, *first++);
+                increment(m_last);
+                m_first = m_last;
+            }
+        } BOOST_CATCH(...) {
+            destroy();
+            BOOST_RETHROW
         }
+        BOOST_CATCH_END
     }
 
     /*! INTERNAL ONLY */
-- 
2.43.0


From 43580f916f434f542832565cd0b10fae39f0b4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 03/18] fix: keep the content valid when rinsert at begin()
 throws

rinsert_n constructs the new elements starting at m_first - n, so unless
the buffer was filled to its capacity they do not follow m_last. On an
exception m_last was advanced over unconstructed slots and the constructed
elements leaked.
---
 include/boost/circular_buffer/base.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index babb69b..a925e6e 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2944,9 +2944,10 @@ private:
                 for (; ii > 0; --ii, increment(p))
                     boost::allocator_construct(alloc(), boost::to_address(p), *wrapper());
             } BOOST_CATCH(...) {
-                size_type constructed = ii < construct ? construct - ii : 0;
-                m_last = add(m_last, constructed);
-                m_size += constructed;
+                for (; ii < construct; ++ii) {
+                    decrement(p);
+                    destroy_item(p);
+                }
                 BOOST_RETHROW
             }
             BOOST_CATCH_END
-- 
2.43.0


From 8e0f635b2ba0fff4902d4bb69178e9b79f2f3a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 04/18] fix: an empty circular_buffer is linearized

is_linearized() returned false for an empty buffer whose internal position
is not at the beginning of the storage, even right after linearize().
---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index a925e6e..90b0fc1 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -708,7 +708,7 @@ public:
              Constant (in the size of the <code>circular_buffer</code>).
         \sa <code>linearize()</code>, <code>array_one()</code>, <code>array_two()</code>
     */
-    bool is_linearized() const BOOST_NOEXCEPT { return m_first < m_last || m_last == m_buff; }
+    bool is_linearized() const BOOST_NOEXCEPT { return m_first < m_last || m_last == m_buff || empty(); }
 
     //! Rotate elements in the <code>circular_buffer</code>.
     /*!
-- 
2.43.0


From 9854214dc20c053fb4fe2c0b870c01c387a1618e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 05/18] fix: let rotate() compile with fancy pointers

const_cast does not work on allocator-defined pointer types.
---
 include/boost/circular_buffer/base.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 90b0fc1..68effe5 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -741,7 +741,7 @@ public:
         BOOST_CB_ASSERT(new_begin.is_valid(this)); // check for uninitialized or invalidated iterator
         BOOST_CB_ASSERT(new_begin.m_it != 0);      // check for iterator pointing to end()
         if (full()) {
-            m_first = m_last = const_cast<pointer>(new_begin.m_it);
+            m_first = m_last = m_buff + (new_begin.m_it - const_pointer(m_buff));
         } else {
             difference_type m = end() - new_begin;
             difference_type n = new_begin - begin();
-- 
2.43.0


From 7b574792f467fb5b511f9637c7f3a62fba935d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:44 +0000
Subject: [PATCH 06/18] fix: do not read an indeterminate value when inserting
 a default element

push_back(), push_front(), insert(pos) and rinsert(pos) copied an
uninitialized temporary for scalar types, which is undefined behaviour.
---
 include/boost/circular_buffer/base.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 68effe5..8498027 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -1515,7 +1515,7 @@ public:
             <code>pop_back()</code>, <code>pop_front()</code>
     */
     void push_back() {
-        value_type temp;
+        value_type temp = value_type();
         push_back(boost::move(temp));
     }
 
@@ -1579,7 +1579,7 @@ public:
             <code>pop_back()</code>, <code>pop_front()</code>
     */
     void push_front() {
-        value_type temp;
+        value_type temp = value_type();
         push_front(boost::move(temp));
     }
 
@@ -1738,7 +1738,7 @@ public:
             <code>rinsert(iterator, InputIterator, InputIterator)</code>
     */
     iterator insert(iterator pos) {
-        value_type temp;
+        value_type temp = value_type();
         return insert(pos, boost::move(temp));
     }
 
@@ -1991,7 +1991,7 @@ public:
             <code>insert(iterator, InputIterator, InputIterator)</code>
     */
     iterator rinsert(iterator pos) {
-        value_type temp;
+        value_type temp = value_type();
         return rinsert(pos, boost::move(temp));
     }
 
-- 
2.43.0


From b2b2cadbe265e92c2601885581db494ac389150d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 07/18] fix: do not hang when a space optimized buffer is asked
 for a huge number of elements

insert(pos, n, item), rinsert(pos, n, item) and resize(n) looped forever, or
overflowed, in the computation of the internal capacity when n is so large
that doubling wraps around. Only reserve() elements can be added without
overwriting, and the capacity bounds the internal capacity.
---
 include/boost/circular_buffer/space_optimized.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 21681fd..8f730b8 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1530,10 +1530,15 @@ private:
             check_high_capacity();
     }
 
+    /*! INTERNAL ONLY */
+    size_type double_capacity(size_type new_capacity) const {
+        return new_capacity > m_capacity_ctrl.capacity() / 2 ? m_capacity_ctrl.capacity() : new_capacity * 2;
+    }
+
     /*! INTERNAL ONLY */
     size_type ensure_reserve(size_type new_capacity, size_type buffer_size) const {
         if (buffer_size + new_capacity / 5 >= new_capacity)
-            new_capacity *= 2; // ensure at least 20% reserve
+            new_capacity = double_capacity(new_capacity); // ensure at least 20% reserve
         if (new_capacity > m_capacity_ctrl)
             return m_capacity_ctrl;
         return new_capacity;
@@ -1541,12 +1546,13 @@ private:
 
     /*! INTERNAL ONLY */
     void check_low_capacity(size_type n = 1) {
-        size_type new_size = size() + n;
+        size_type new_size = size() + (std::min)(n, reserve());
         size_type new_capacity = circular_buffer<T, Alloc>::capacity();
         if (new_size > new_capacity) {
             if (new_capacity == 0)
                 new_capacity = 1;
-            for (; new_size > new_capacity; new_capacity *= 2) {}
+            while (new_size > new_capacity)
+                new_capacity = double_capacity(new_capacity);
             circular_buffer<T, Alloc>::set_capacity(
                 ensure_reserve(new_capacity, new_size));
         }
-- 
2.43.0


From 8c57b0dc14f6e787c4f611507214abfecccd25ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:02 +0000
Subject: [PATCH 08/18] fix: do not grow the internal buffer when elements are
 removed

check_high_capacity() is there to release memory. Adding the reserve could
make pop_back(), pop_front(), erase() and set_capacity() allocate a larger
buffer.
---
 include/boost/circular_buffer/space_optimized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 8f730b8..f462c71 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1572,7 +1572,7 @@ private:
             }
         }
         circular_buffer<T, Alloc>::set_capacity(
-            ensure_reserve(new_capacity, size()));
+            (std::min)(ensure_reserve(new_capacity, size()), circular_buffer<T, Alloc>::capacity()));
 #if BOOST_CB_ENABLE_DEBUG
         this->invalidate_iterators_except(end());
 #endif
-- 
2.43.0


From 66b095c16766d7c5230c059e5be7c2f181731535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 09/18] fix: let a space optimized buffer be constructed from
 capacity, count and value of int

circular_buffer_space_optimized<int>(capacity, 5, 1) selected the range
constructor, which asked for the iterator category of int.
---
 include/boost/circular_buffer/space_optimized.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index f462c71..74a0174 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -508,8 +508,7 @@ public:
         init_capacity(capacity_ctrl, first, last, is_integral<InputIterator>()),
         first, last, alloc)
     , m_capacity_ctrl(capacity_ctrl) {
-        reduce_capacity(
-            is_same< BOOST_DEDUCED_TYPENAME std::iterator_traits<InputIterator>::iterator_category, std::input_iterator_tag >());
+        reduce_capacity<InputIterator>(is_integral<InputIterator>());
     }
 
 #if defined(BOOST_CB_NEVER_DEFINED)
@@ -1586,6 +1585,17 @@ private:
     /*! INTERNAL ONLY */
     void reduce_capacity(const false_type&) {}
 
+    /*! INTERNAL ONLY */
+    template <class IntegralType>
+    void reduce_capacity(const true_type&) {}
+
+    /*! INTERNAL ONLY */
+    template <class Iterator>
+    void reduce_capacity(const false_type&) {
+        reduce_capacity(
+            is_same< BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category, std::input_iterator_tag >());
+    }
+
     /*! INTERNAL ONLY */
     static size_type init_capacity(const capacity_type& capacity_ctrl, size_type n) {
         BOOST_CB_ASSERT(capacity_ctrl.capacity() >= n); // check for capacity lower than n
-- 
2.43.0


From d97d931dc12689da803281c5295db6b1e345d15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 10/18] fix: allocate the documented amount in
 assign(capacity_ctrl, first, last)

The whole capacity was allocated at once, instead of what the range and
min_capacity() need, and the new capacity was in effect even if the
assignment failed with an exception.
---
 include/boost/circular_buffer/space_optimized.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 74a0174..35365d7 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -723,8 +723,10 @@ public:
     */
     template <class InputIterator>
     void assign(capacity_type capacity_ctrl, InputIterator first, InputIterator last) {
+       circular_buffer<T, Alloc>::assign(
+           init_capacity(capacity_ctrl, first, last, is_integral<InputIterator>()), first, last);
        m_capacity_ctrl = capacity_ctrl;
-       circular_buffer<T, Alloc>::assign(capacity_ctrl, first, last);
+       reduce_capacity<InputIterator>(is_integral<InputIterator>());
     }
 
     //! Swap the contents of two space-optimized circular-buffers.
-- 
2.43.0


From 646dbdb66c52827b45b072623ce0cf9c1c99d677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 11/18] fix: let a space optimized buffer insert a single-pass
 range

insert(pos, first, last) and rinsert(pos, first, last) measured the range
with std::distance, which consumes a single-pass range, before reading it.
---
 .../boost/circular_buffer/space_optimized.hpp | 38 +++++++++++++++++++
 1 file changed, 38 insertions(+)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 35365d7..054eb90 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1649,6 +1649,25 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void insert(const iterator& pos, Iterator first, Iterator last, const false_type&) {
+        BOOST_CB_IS_CONVERTIBLE(Iterator, value_type); // check for invalid iterator type
+#if BOOST_WORKAROUND(BOOST_BORLANDC, BOOST_TESTED_AT(0x581))
+        insert(pos, first, last, std::iterator_traits<Iterator>::iterator_category());
+#else
+        insert(pos, first, last, BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+#endif
+    }
+
+    /*! INTERNAL ONLY */
+    template <class InputIterator>
+    void insert(const iterator& pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        std::deque<value_type, allocator_type> tmp(first, last, get_allocator()); // a single-pass range can be read only once
+        insert(pos, boost::make_move_iterator(tmp.begin()), boost::make_move_iterator(tmp.end()),
+            std::forward_iterator_tag());
+    }
+
+    /*! INTERNAL ONLY */
+    template <class ForwardIterator>
+    void insert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
         check_low_capacity(std::distance(first, last));
         circular_buffer<T, Alloc>::insert(begin() + index, first, last);
@@ -1663,6 +1682,25 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void rinsert(const iterator& pos, Iterator first, Iterator last, const false_type&) {
+        BOOST_CB_IS_CONVERTIBLE(Iterator, value_type); // check for invalid iterator type
+#if BOOST_WORKAROUND(BOOST_BORLANDC, BOOST_TESTED_AT(0x581))
+        rinsert(pos, first, last, std::iterator_traits<Iterator>::iterator_category());
+#else
+        rinsert(pos, first, last, BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
+#endif
+    }
+
+    /*! INTERNAL ONLY */
+    template <class InputIterator>
+    void rinsert(const iterator& pos, InputIterator first, InputIterator last, const std::input_iterator_tag&) {
+        std::deque<value_type, allocator_type> tmp(first, last, get_allocator()); // a single-pass range can be read only once
+        rinsert(pos, boost::make_move_iterator(tmp.begin()), boost::make_move_iterator(tmp.end()),
+            std::forward_iterator_tag());
+    }
+
+    /*! INTERNAL ONLY */
+    template <class ForwardIterator>
+    void rinsert(const iterator& pos, ForwardIterator first, ForwardIterator last, const std::forward_iterator_tag&) {
         size_type index = pos - begin();
         check_low_capacity(std::distance(first, last));
         circular_buffer<T, Alloc>::rinsert(begin() + index, first, last);
-- 
2.43.0


From 76d7b3f51664dd927099f6d804be175c03314789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 12/18] fix: make set_capacity() and rset_capacity() strong in
 the space optimized buffer

The new capacity was in effect, and elements were gone, when reallocating
the internal buffer threw.
---
 .../boost/circular_buffer/space_optimized.hpp | 29 ++++++++++++++-----
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 054eb90..b7432fb 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -223,12 +223,12 @@ public:
             <code>\link resize() resize(size_type, const_reference)\endlink</code>
     */
     void set_capacity(const capacity_type& capacity_ctrl) {
-        m_capacity_ctrl = capacity_ctrl;
         if (capacity_ctrl < size()) {
-            iterator e = end();
-            circular_buffer<T, Alloc>::erase(e - (size() - capacity_ctrl), e);
+            circular_buffer<T, Alloc>::set_capacity(capacity_ctrl);
+            m_capacity_ctrl = capacity_ctrl;
+        } else {
+            adjust_capacity(capacity_ctrl);
         }
-        adjust_min_capacity();
     }
 
     //! Change the size of the <code>circular_buffer_space_optimized</code>.
@@ -294,12 +294,12 @@ public:
             <code>\link rresize() rresize(size_type, const_reference)\endlink</code>
     */
     void rset_capacity(const capacity_type& capacity_ctrl) {
-        m_capacity_ctrl = capacity_ctrl;
         if (capacity_ctrl < size()) {
-            iterator b = begin();
-            circular_buffer<T, Alloc>::rerase(b, b + (size() - capacity_ctrl));
+            circular_buffer<T, Alloc>::rset_capacity(capacity_ctrl);
+            m_capacity_ctrl = capacity_ctrl;
+        } else {
+            adjust_capacity(capacity_ctrl);
         }
-        adjust_min_capacity();
     }
 
     //! Change the size of the <code>circular_buffer_space_optimized</code>.
@@ -1523,6 +1523,19 @@ public:
 private:
 // Helper methods
 
+    /*! INTERNAL ONLY */
+    void adjust_capacity(const capacity_type& capacity_ctrl) {
+        const capacity_type old_capacity_ctrl = m_capacity_ctrl;
+        m_capacity_ctrl = capacity_ctrl;
+        BOOST_TRY {
+            adjust_min_capacity();
+        } BOOST_CATCH(...) {
+            m_capacity_ctrl = old_capacity_ctrl;
+            BOOST_RETHROW
+        }
+        BOOST_CATCH_END
+    }
+
     /*! INTERNAL ONLY */
     void adjust_min_capacity() {
         if (m_capacity_ctrl.min_capacity() > circular_buffer<T, Alloc>::capacity())
-- 
2.43.0


From aa8e8c52d0839531f01d2ed4d7016f88e6920fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:48 +0000
Subject: [PATCH 13/18] fix: make the copy assignment of the space optimized
 buffer strong

The elements were destroyed first when the internal buffer happened to have
the right size, so the content was lost if copying an element threw.
---
 include/boost/circular_buffer/space_optimized.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index b7432fb..7c46628 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -562,7 +562,7 @@ public:
     circular_buffer_space_optimized<T, Alloc>& operator = (const circular_buffer_space_optimized<T, Alloc>& cb) {
         if (this == &cb)
             return *this;
-        circular_buffer<T, Alloc>::assign(cb.begin(), cb.end());
+        circular_buffer<T, Alloc>(cb.begin(), cb.end(), get_allocator()).swap(*this);
         m_capacity_ctrl = cb.m_capacity_ctrl;
         return *this;
     }
-- 
2.43.0


From 1f1346e035eccd77a328931b4f53a368c482c60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:25 +0000
Subject: [PATCH 14/18] fix: release the spare memory after any single-pass
 range

Only ranges whose iterator category is exactly std::input_iterator_tag had
it reduced to the documented amount, not those with a derived category.
---
 include/boost/circular_buffer/space_optimized.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 7c46628..1370b81 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -1593,12 +1593,12 @@ private:
     }
 
     /*! INTERNAL ONLY */
-    void reduce_capacity(const true_type&) {
+    void reduce_capacity(const std::input_iterator_tag&) {
         circular_buffer<T, Alloc>::set_capacity((std::max)(m_capacity_ctrl.min_capacity(), size()));
     }
 
     /*! INTERNAL ONLY */
-    void reduce_capacity(const false_type&) {}
+    void reduce_capacity(const std::forward_iterator_tag&) {}
 
     /*! INTERNAL ONLY */
     template <class IntegralType>
@@ -1607,8 +1607,7 @@ private:
     /*! INTERNAL ONLY */
     template <class Iterator>
     void reduce_capacity(const false_type&) {
-        reduce_capacity(
-            is_same< BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category, std::input_iterator_tag >());
+        reduce_capacity(BOOST_DEDUCED_TYPENAME std::iterator_traits<Iterator>::iterator_category());
     }
 
     /*! INTERNAL ONLY */
-- 
2.43.0


From 0df12fc4df58aff491c239bb4f8da3e911e79763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:32 +0000
Subject: [PATCH 15/18] fix: copy an inserted item before moving elements

The item passed to insert(), rinsert(), resize(), rresize() and, in the
space optimized buffer, to push_back() and push_front(), can be an element
of the same buffer. It was read after it had been moved from, overwritten or
destroyed together with the old buffer.
---
 include/boost/circular_buffer/base.hpp        | 24 +++++++++----
 .../boost/circular_buffer/space_optimized.hpp | 34 +++++++++++++++++++
 2 files changed, 52 insertions(+), 6 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 8498027..042de9e 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -918,9 +918,10 @@ public:
     */
     void resize(size_type new_size, param_value_type item = value_type()) {
         if (new_size > size()) {
+            const value_type tmp(item); // the item can be one of the elements moved to a new buffer
             if (new_size > capacity())
                 set_capacity(new_size);
-            insert(end(), new_size - size(), item);
+            insert(end(), new_size - size(), tmp);
         } else {
             iterator e = end();
             erase(e - (size() - new_size), e);
@@ -993,9 +994,10 @@ public:
     */
     void rresize(size_type new_size, param_value_type item = value_type()) {
         if (new_size > size()) {
+            const value_type tmp(item); // the item can be one of the elements moved to a new buffer
             if (new_size > capacity())
                 set_capacity(new_size);
-            rinsert(begin(), new_size - size(), item);
+            rinsert(begin(), new_size - size(), tmp);
         } else {
             rerase(begin(), end() - new_size);
         }
@@ -1670,7 +1672,10 @@ public:
             <code>rinsert(iterator, InputIterator, InputIterator)</code>
     */
     iterator insert(iterator pos, param_value_type item) {
-        return insert_impl<param_value_type>(pos, item);
+        if (pos == end() || (full() && pos == begin())) // no element is moved
+            return insert_impl<param_value_type>(pos, item);
+        const value_type tmp(item); // the item can be one of the elements moved away from the insertion point
+        return insert_impl<param_value_type>(pos, tmp);
     }
 
     //! Insert an element at the specified position.
@@ -1789,7 +1794,8 @@ public:
             return;
         if (n > copy)
             n = copy;
-        insert_n(pos, n, cb_details::item_wrapper<const_pointer, param_value_type>(item));
+        const value_type tmp(item); // the item can be one of the elements moved away from the insertion point
+        insert_n(pos, n, cb_details::item_wrapper<const_pointer, param_value_type>(tmp));
     }
 
     //! Insert the range <code>[first, last)</code> at the specified position.
@@ -1925,7 +1931,10 @@ public:
             <code>insert(iterator, InputIterator, InputIterator)</code>
     */
     iterator rinsert(iterator pos, param_value_type item) {
-        return rinsert_impl<param_value_type>(pos, item);
+        if (pos == begin() || (full() && pos == end())) // no element is moved
+            return rinsert_impl<param_value_type>(pos, item);
+        const value_type tmp(item); // the item can be one of the elements moved away from the insertion point
+        return rinsert_impl<param_value_type>(pos, tmp);
     }
 
     //! Insert an element before the specified position.
@@ -2034,7 +2043,10 @@ public:
     */
     void rinsert(iterator pos, size_type n, param_value_type item) {
         BOOST_CB_ASSERT(pos.is_valid(this)); // check for uninitialized or invalidated iterator
-        rinsert_n(pos, n, cb_details::item_wrapper<const_pointer, param_value_type>(item));
+        if (n == 0 || (full() && pos == end()))
+            return;
+        const value_type tmp(item); // the item can be one of the elements moved away from the insertion point
+        rinsert_n(pos, n, cb_details::item_wrapper<const_pointer, param_value_type>(tmp));
     }
 
     //! Insert the range <code>[first, last)</code> before the specified position.
diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 1370b81..4639269 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -778,6 +778,12 @@ public:
             <code>pop_front()</code>
     */
     void push_back(param_value_type item) {
+        if (circular_buffer<T, Alloc>::full() && !full()) {
+            value_type tmp(item); // the item can be one of the elements moved to a new internal buffer
+            check_low_capacity();
+            circular_buffer<T, Alloc>::push_back(boost::move(tmp));
+            return;
+        }
         check_low_capacity();
         circular_buffer<T, Alloc>::push_back(item);
     }
@@ -852,6 +858,12 @@ public:
             <code>pop_front()</code>
     */
     void push_front(param_value_type item) {
+        if (circular_buffer<T, Alloc>::full() && !full()) {
+            value_type tmp(item); // the item can be one of the elements moved to a new internal buffer
+            check_low_capacity();
+            circular_buffer<T, Alloc>::push_front(boost::move(tmp));
+            return;
+        }
         check_low_capacity();
         circular_buffer<T, Alloc>::push_front(item);
     }
@@ -985,6 +997,11 @@ public:
     */
     iterator insert(iterator pos, param_value_type item) {
         size_type index = pos - begin();
+        if (circular_buffer<T, Alloc>::full() && !full()) {
+            value_type tmp(item); // the item can be one of the elements moved to a new internal buffer
+            check_low_capacity();
+            return circular_buffer<T, Alloc>::insert(begin() + index, boost::move(tmp));
+        }
         check_low_capacity();
         return circular_buffer<T, Alloc>::insert(begin() + index, item);
     }
@@ -1107,6 +1124,12 @@ public:
     */
     void insert(iterator pos, size_type n, param_value_type item) {
         size_type index = pos - begin();
+        if (n > circular_buffer<T, Alloc>::reserve() && !full()) {
+            const value_type tmp(item); // the item can be one of the elements moved to a new internal buffer
+            check_low_capacity(n);
+            circular_buffer<T, Alloc>::insert(begin() + index, n, tmp);
+            return;
+        }
         check_low_capacity(n);
         circular_buffer<T, Alloc>::insert(begin() + index, n, item);
     }
@@ -1196,6 +1219,11 @@ public:
     */
     iterator rinsert(iterator pos, param_value_type item) {
         size_type index = pos - begin();
+        if (circular_buffer<T, Alloc>::full() && !full()) {
+            value_type tmp(item); // the item can be one of the elements moved to a new internal buffer
+            check_low_capacity();
+            return circular_buffer<T, Alloc>::rinsert(begin() + index, boost::move(tmp));
+        }
         check_low_capacity();
         return circular_buffer<T, Alloc>::rinsert(begin() + index, item);
     }
@@ -1318,6 +1346,12 @@ public:
     */
     void rinsert(iterator pos, size_type n, param_value_type item) {
         size_type index = pos - begin();
+        if (n > circular_buffer<T, Alloc>::reserve() && !full()) {
+            const value_type tmp(item); // the item can be one of the elements moved to a new internal buffer
+            check_low_capacity(n);
+            circular_buffer<T, Alloc>::rinsert(begin() + index, n, tmp);
+            return;
+        }
         check_low_capacity(n);
         circular_buffer<T, Alloc>::rinsert(begin() + index, n, item);
     }
-- 
2.43.0


From db652b0517b48b3fc75d5b9caa538669fbe032db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:30 +0000
Subject: [PATCH 16/18] fix: keep end() valid in debug mode when assigning a
 single-pass range

---
 include/boost/circular_buffer/base.hpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 042de9e..6c37c74 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -1404,12 +1404,7 @@ public:
         \sa <code>swap(circular_buffer<T, Alloc>&, circular_buffer<T, Alloc>&)</code>
     */
     void swap(circular_buffer<T, Alloc>& cb) BOOST_NOEXCEPT {
-        swap_allocator(cb, is_stateless<allocator_type>());
-        adl_move_swap(m_buff, cb.m_buff);
-        adl_move_swap(m_end, cb.m_end);
-        adl_move_swap(m_first, cb.m_first);
-        adl_move_swap(m_last, cb.m_last);
-        adl_move_swap(m_size, cb.m_size);
+        swap_content(cb);
 #if BOOST_CB_ENABLE_DEBUG
         invalidate_all_iterators();
         cb.invalidate_all_iterators();
@@ -2650,6 +2645,16 @@ private:
         m_last = last == m_end ? m_buff : last;
     }
 
+    /*! INTERNAL ONLY */
+    void swap_content(circular_buffer<T, Alloc>& cb) BOOST_NOEXCEPT {
+        swap_allocator(cb, is_stateless<allocator_type>());
+        adl_move_swap(m_buff, cb.m_buff);
+        adl_move_swap(m_end, cb.m_end);
+        adl_move_swap(m_first, cb.m_first);
+        adl_move_swap(m_last, cb.m_last);
+        adl_move_swap(m_size, cb.m_size);
+    }
+
     /*! INTERNAL ONLY */
     void swap_allocator(circular_buffer<T, Alloc>&, const true_type&) {
         // Swap is not needed because allocators have no state.
@@ -2722,7 +2727,10 @@ private:
             insert(begin(), first, last);
         } else {
             circular_buffer<value_type, allocator_type> tmp(new_capacity, first, last, alloc());
-            tmp.swap(*this);
+            swap_content(tmp);
+#if BOOST_CB_ENABLE_DEBUG
+            invalidate_iterators_except(end());
+#endif
         }
     }
 
-- 
2.43.0


From e48a74cde1b5374ddc5b7bbef90cc217a0f378b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:57 +0000
Subject: [PATCH 17/18] fix: report decrementing an iterator of an empty buffer
 in debug mode

---
 include/boost/circular_buffer/details.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/details.hpp b/include/boost/circular_buffer/details.hpp
index d6d48f3..1bb63e4 100644
--- a/include/boost/circular_buffer/details.hpp
+++ b/include/boost/circular_buffer/details.hpp
@@ -314,7 +314,7 @@ struct iterator
     //! Decrement operator (prefix).
     iterator& operator -- () {
         BOOST_CB_ASSERT(is_valid(m_buff));        // check for uninitialized or invalidated iterator
-        BOOST_CB_ASSERT(m_it != m_buff->m_first); // check for iterator pointing to begin()
+        BOOST_CB_ASSERT(*this != m_buff->begin()); // check for iterator pointing to begin()
         if (m_it == 0)
             m_it = m_buff->m_last;
         m_buff->decrement(m_it);
-- 
2.43.0


From c27ba30623d012d26898d2efa2321f6169c3ed3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:46 +0000
Subject: [PATCH 18/18] fix: keep end() valid in debug mode when copying a
 space optimized buffer

---
 include/boost/circular_buffer/base.hpp            | 2 ++
 include/boost/circular_buffer/space_optimized.hpp | 6 +++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/boost/circular_buffer/base.hpp b/include/boost/circular_buffer/base.hpp
index 6c37c74..fa1db42 100644
--- a/include/boost/circular_buffer/base.hpp
+++ b/include/boost/circular_buffer/base.hpp
@@ -2645,6 +2645,7 @@ private:
         m_last = last == m_end ? m_buff : last;
     }
 
+protected:
     /*! INTERNAL ONLY */
     void swap_content(circular_buffer<T, Alloc>& cb) BOOST_NOEXCEPT {
         swap_allocator(cb, is_stateless<allocator_type>());
@@ -2655,6 +2656,7 @@ private:
         adl_move_swap(m_size, cb.m_size);
     }
 
+private:
     /*! INTERNAL ONLY */
     void swap_allocator(circular_buffer<T, Alloc>&, const true_type&) {
         // Swap is not needed because allocators have no state.
diff --git a/include/boost/circular_buffer/space_optimized.hpp b/include/boost/circular_buffer/space_optimized.hpp
index 4639269..2619dc3 100644
--- a/include/boost/circular_buffer/space_optimized.hpp
+++ b/include/boost/circular_buffer/space_optimized.hpp
@@ -562,8 +562,12 @@ public:
     circular_buffer_space_optimized<T, Alloc>& operator = (const circular_buffer_space_optimized<T, Alloc>& cb) {
         if (this == &cb)
             return *this;
-        circular_buffer<T, Alloc>(cb.begin(), cb.end(), get_allocator()).swap(*this);
+        circular_buffer<T, Alloc> tmp(cb.begin(), cb.end(), get_allocator());
+        this->swap_content(tmp);
         m_capacity_ctrl = cb.m_capacity_ctrl;
+#if BOOST_CB_ENABLE_DEBUG
+        this->invalidate_iterators_except(end());
+#endif
         return *this;
     }
 
-- 
2.43.0

