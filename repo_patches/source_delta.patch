From 10ba755b3f80ab5fa0731f350bcd981865593a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:53 +0000
Subject: [PATCH 01/34] fix: use the row-major strides of to_1d in to_nd for
 three and four dimensions

---
 include/utils/utils.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 55350c9..cab6c37 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -216,19 +216,19 @@ namespace chdr {
                 const auto w2 = _index % w1;
 
                 result = {
-                    w2 % _sizes[1U],
-                    w2 / _sizes[1U],
+                    w2 % _sizes[0U],
+                    w2 / _sizes[0U],
                     _index / w1
                 };
             }
             else if constexpr (Kd == 4U) {
-                const auto w1 = _sizes[2U] * _sizes[1U];
-                const auto w2 = w1 * _sizes[0U];
+                const auto w1 = _sizes[0U] * _sizes[1U];
+                const auto w2 = w1 * _sizes[2U];
                 const auto w3 = _index % w2;
 
                 result = {
-                    (w3 % w1) % _sizes[2U],
-                    (w3 % w1) / _sizes[2U],
+                    (w3 % w1) % _sizes[0U],
+                    (w3 % w1) / _sizes[0U],
                      w3 / w1,
                     _index / w2,
                 };
-- 
2.43.0


From b1757ad01085dfd00d8e56de41112d26a7763046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 02/34] fix: make grid::contains usable with coordinates

---
 include/mazes/grid.hpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/mazes/grid.hpp b/include/mazes/grid.hpp
index 7eba226..03e5d0a 100644
--- a/include/mazes/grid.hpp
+++ b/include/mazes/grid.hpp
@@ -298,7 +298,14 @@ namespace chdr::mazes {
          * @return `true` if the provided coordinate lies within the bounds of the grid. Otherwise, `false`.
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
-            return std::all_of(0U, s_rank, [&](size_t _i) noexcept { return _id[_i] < m_size[_i]; });
+
+            for (size_t i = 0U; i < s_rank; ++i) {
+                if (_id[i] >= m_size[i]) {
+                    return false;
+                }
+            }
+
+            return true;
         }
 
         /**
@@ -759,7 +766,14 @@ namespace chdr::mazes {
          * @return `true` if the provided coordinate lies within the bounds of the grid. Otherwise, `false`.
          */
         [[nodiscard]] constexpr bool contains(const coord_t& _id) const noexcept {
-            return std::all_of(0U, s_rank, [&](size_t _i) noexcept { return _id[_i] < m_size[_i]; });
+
+            for (size_t i = 0U; i < s_rank; ++i) {
+                if (_id[i] >= m_size[i]) {
+                    return false;
+                }
+            }
+
+            return true;
         }
 
         /**
-- 
2.43.0


From dbb790db2a48765bd80382664756e2e0656507c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 03/34] fix: powui no longer asserts on representable powers or
 divides by a zero base

---
 include/utils/utils.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index cab6c37..7783d0e 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -385,12 +385,14 @@ namespace chdr {
 
             while (_exp > 0U) {
                 if (_exp % 2U == 1U) {
-                    assert(result <= std::numeric_limits<T>::max() / _base && "Multiplication would cause overflow.");
+                    assert((_base == 0U || result <= std::numeric_limits<T>::max() / _base) && "Multiplication would cause overflow.");
                     result *= _base;
                 }
-                assert(_base <= std::numeric_limits<T>::max() / _base && "Multiplication would cause overflow.");
-                _base *= _base;
                 _exp  /= 2U;
+                if (_exp > 0U) {
+                    assert((_base == 0U || _base <= std::numeric_limits<T>::max() / _base) && "Multiplication would cause overflow.");
+                    _base *= _base;
+                }
             }
 
             return result;
-- 
2.43.0


From 8f165f72264bead7e23ab737fe4358ecae78f9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 04/34] fix: trim_trailing_zeros keeps the value of integers

---
 include/utils/utils.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 7783d0e..3d534f5 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -596,13 +596,17 @@ namespace chdr {
          */
         [[nodiscard]] static std::string trim_trailing_zeros(std::string _str) {
 
-            auto& trimmed = _str.erase(_str.find_last_not_of('0') + 1U, std::string::npos);
+            // Only zeros after a decimal point are redundant.
+            if (_str.find('.') != std::string::npos) {
 
-            if (trimmed.back() == '.') {
-                trimmed.pop_back();
+                _str.erase(_str.find_last_not_of('0') + 1U, std::string::npos);
+
+                if (_str.back() == '.') {
+                    _str.pop_back();
+                }
             }
 
-            return trimmed;
+            return _str;
         }
     };
 
-- 
2.43.0


From 59b984faced4d4fa8fcc8b0d6534f632153e1402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:36 +0000
Subject: [PATCH 05/34] fix: to_string keeps to the smallest unit instead of
 reading past the table of units

---
 include/utils/utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/utils.hpp b/include/utils/utils.hpp
index 3d534f5..b7a8d9f 100644
--- a/include/utils/utils.hpp
+++ b/include/utils/utils.hpp
@@ -566,7 +566,7 @@ namespace chdr {
             constexpr std::array<const char* const, 4U> units { "s", "ms", "µs", "ns" };
 
             size_t i = 0U;
-            while (i < units.size() && abs(_duration) < 1.0L) {
+            while (i < units.size() - 1U && abs(_duration) < 1.0L) {
                 _duration *= 1000.0L;
                 ++i;
             }
-- 
2.43.0


From 0eca708db4ae6cca13af67d5e4c91d69cd0de44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 06/34] fix: make stack::push and queue::push compile

---
 include/types/containers/queue.hpp | 4 ++--
 include/types/containers/stack.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/queue.hpp b/include/types/containers/queue.hpp
index fbfac29..61ead62 100644
--- a/include/types/containers/queue.hpp
+++ b/include/types/containers/queue.hpp
@@ -203,13 +203,13 @@ namespace chdr {
          * @brief Adds an element to the queue.
          * @param [in] _value  A constant reference to the value to add to the queue.
          */
-        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push(_value); }
+        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push_back(_value); }
 
         /**
          * @brief Adds an element to the queue, using move semantics.
          * @param [in] _value  A constant reference to the value to add to the queue.
          */
-        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push(std::move(_value)); }
+        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push_back(std::move(_value)); }
 
         /**
          * @brief Constructs an element in place, adding it to the queue.
diff --git a/include/types/containers/stack.hpp b/include/types/containers/stack.hpp
index 6db33cb..e4df76e 100644
--- a/include/types/containers/stack.hpp
+++ b/include/types/containers/stack.hpp
@@ -213,13 +213,13 @@ namespace chdr {
          * @brief Adds an element to the stack.
          * @param [in] _value  A constant reference to the value to add to the stack.
          */
-        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push(_value); }
+        [[maybe_unused]] HOT constexpr void push(const T& _value) { c.push_back(_value); }
 
         /**
          * @brief Adds an element to the stack, using move semantics.
          * @param [in] _value  A constant reference to the value to add to the stack.
          */
-        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push(std::move(_value)); }
+        [[maybe_unused]] HOT constexpr void push(T&& _value) { c.push_back(std::move(_value)); }
 
         /**
          * @brief Constructs an element in place, adding it to the stack.
-- 
2.43.0


From 2a74eb2e17e6399c868a80aff229f481a37327ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 07/34] fix: heap::erase removes the given element and restores
 the heap order

---
 include/types/containers/heap.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index a715c37..b9f78ca 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -429,9 +429,9 @@ namespace chdr {
 
             assert(i < c.size() && "(Out of Bounds) Item does not exist in Heap.");
 
-            if (i < size()) {
+            if (i <= size()) {
 
-                if (i == size() - 1U) {
+                if (i == size()) {
                     c.pop_back(); // If the item to remove is the last item, just remove it.
                 }
                 else {
@@ -441,7 +441,7 @@ namespace chdr {
                     // Restore heap property:
                     if (size() > 1U) {
 
-                        if (i > 1U && comp(c[i], c[i / Kd])) {
+                        if (i > 1U && comp(c[i / Kd], c[i])) {
                             sort_up(c[i]);
                         }
                         else {
@@ -872,7 +872,7 @@ namespace chdr {
                     c[distance_from_start] = std::move(c.back());
                     c.pop_back();
                     if (size_before > 1U) {
-                        if (distance_from_start > 1U && comp(c[distance_from_start], c[distance_from_start / Kd])) {
+                        if (distance_from_start > 1U && comp(c[distance_from_start / Kd], c[distance_from_start])) {
                             sort_up(c[distance_from_start]);
                         }
                         else {
-- 
2.43.0


From 422f80ba18db8a849b8010787dd0d25ddd686a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 08/34] fix: heap::erase of a range removes that range and
 terminates

---
 include/types/containers/heap.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index b9f78ca..75bfb1e 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -907,8 +907,10 @@ namespace chdr {
          * @param _last Iterator to the element past the last one to erase.
          */
         constexpr void erase(iterator_t _first, iterator_t _last) {
-            for (auto it = _first; it != _last;) {
-                it = erase(it); // Keep erasing until the last element is removed.
+            c.erase(_first, _last);
+
+            for (size_t i = size() / Kd; i >= 1U; --i) {
+                sort_down(c[i]);
             }
         }
 
-- 
2.43.0


From dead12f1c1871cf184f2ab8fc79ac7de4131a1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 09/34] fix: heap::dequeue does not touch an element past the
 end when it removes the last one

---
 include/types/containers/heap.hpp | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 75bfb1e..0fc8ade 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -470,12 +470,7 @@ namespace chdr {
 
             T result(std::move(top()));
 
-            if (size() > 0U) {
-                c[1U] = std::move(c.back());
-            }
-            c.pop_back();
-
-            sort_down(c[1U]);
+            pop();
 
             return result;
         }
-- 
2.43.0


From efb51543ac31956f5b9f2fed5d1fe181ec04d871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 10/34] fix: heap::back returns the last element, heap::top and
 heap::back compile for pointers

---
 include/types/containers/heap.hpp | 28 ++++------------------------
 1 file changed, 4 insertions(+), 24 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 0fc8ade..8b1e759 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -267,12 +267,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(begin().base());
-            }
-            else {
-                return *begin();
-            }
+            return *begin();
         }
 
         /**
@@ -284,12 +279,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(begin().base());
-            }
-            else {
-                return *begin();
-            }
+            return *begin();
         }
 
         /**
@@ -301,12 +291,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(end().base());
-            }
-            else {
-                return *end();
-            }
+            return c.back();
         }
 
         /**
@@ -318,12 +303,7 @@ namespace chdr {
 
             assert(!empty() && "Heap is empty");
 
-            if constexpr (std::is_pointer_v<T>) {
-                return reinterpret_cast<T&>(end().base());
-            }
-            else {
-                return *end();
-            }
+            return c.back();
         }
 
         /**
-- 
2.43.0


From 6ee099b6909618206b01f1f9e325d57a9a94722d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:48 +0000
Subject: [PATCH 11/34] fix: reverse iteration over a heap stops before its
 super element

---
 include/types/containers/heap.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 8b1e759..6a15ef2 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -908,9 +908,9 @@ namespace chdr {
         [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rbegin() const noexcept { return c.rbegin();  }
         [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crbegin() const noexcept { return c.crbegin(); }
 
-        [[maybe_unused, nodiscard]] constexpr reverse_iterator_t        rend()       noexcept { return c.rend();  }
-        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rend() const noexcept { return c.rend();  }
-        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crend() const noexcept { return c.crend(); }
+        [[maybe_unused, nodiscard]] constexpr reverse_iterator_t        rend()       noexcept { return c.rend() - 1;  }
+        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t  rend() const noexcept { return c.rend() - 1;  }
+        [[maybe_unused, nodiscard]] constexpr const_reverse_iterator_t crend() const noexcept { return c.crend() - 1; }
 
     };
 
-- 
2.43.0


From bb8750e67aa4736da7c408836c91673f63a3e60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:09 +0000
Subject: [PATCH 12/34] fix: give every element of a heap of more than two
 dimensions a parent in the heap

---
 include/types/containers/heap.hpp | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index 6a15ef2..e36c1dc 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -74,6 +74,10 @@ namespace chdr {
             return static_cast<size_t>(&(_item) - &(c[0U]));
         }
 
+        // One-based indices of the parent and of the first child of an element.
+        [[nodiscard]] HOT static constexpr size_t parent_of(size_t _index) noexcept { return (_index + (Kd - 2U)) / Kd; }
+        [[nodiscard]] HOT static constexpr size_t first_child_of(size_t _index) noexcept { return ((_index - 1U) * Kd) + 2U; }
+
     public:
 
         /**
@@ -191,7 +195,7 @@ namespace chdr {
             );
 
             if (!empty()) {
-                for (size_t i = size() / Kd; i >= 1U; --i) {
+                for (size_t i = parent_of(size()); i >= 1U; --i) {
                     sort_down(c[i]);
                 }
             }
@@ -216,7 +220,7 @@ namespace chdr {
             );
 
             if (!empty()) {
-                for (size_t i = size() / Kd; i >= 1U; --i) {
+                for (size_t i = parent_of(size()); i >= 1U; --i) {
                     sort_down(c[i]);
                 }
             }
@@ -421,7 +425,7 @@ namespace chdr {
                     // Restore heap property:
                     if (size() > 1U) {
 
-                        if (i > 1U && comp(c[i / Kd], c[i])) {
+                        if (i > 1U && comp(c[parent_of(i)], c[i])) {
                             sort_up(c[i]);
                         }
                         else {
@@ -513,7 +517,7 @@ namespace chdr {
                 auto value_to_insert = std::move(c[i]);
 
                 while (i > 1U) {
-                    const auto p = i / Kd;
+                    const auto p = parent_of(i);
 
                     if (comp(c[p], value_to_insert)) {
                         c[i] = std::move(c[p]);
@@ -548,7 +552,7 @@ namespace chdr {
 
                 while (true) {
 
-                    const size_t c0 = i * Kd;         // First child index
+                    const size_t c0 = first_child_of(i); // First child index
                     const size_t cn = c0 + (Kd - 1U); // Last child index in range
 
                     if (c0 < c.size()) {
@@ -732,7 +736,7 @@ namespace chdr {
                     }
 
                     // Iterate through child nodes based on the Kd dimension.
-                    const size_t child_start = i * Kd;
+                    const size_t child_start = first_child_of(i);
                     const size_t child_end   = std::min(child_start + Kd, c.size());
 
                     bool traversed = false;
@@ -777,7 +781,7 @@ namespace chdr {
                     }
 
                     // Iterate through child nodes based on the Kd dimension.
-                    const size_t child_start = i * Kd;
+                    const size_t child_start = first_child_of(i);
                     const size_t child_end   = std::min(child_start + Kd, c.size());
 
                     bool traversed = false;
@@ -847,7 +851,7 @@ namespace chdr {
                     c[distance_from_start] = std::move(c.back());
                     c.pop_back();
                     if (size_before > 1U) {
-                        if (distance_from_start > 1U && comp(c[distance_from_start / Kd], c[distance_from_start])) {
+                        if (distance_from_start > 1U && comp(c[parent_of(distance_from_start)], c[distance_from_start])) {
                             sort_up(c[distance_from_start]);
                         }
                         else {
@@ -884,7 +888,7 @@ namespace chdr {
         constexpr void erase(iterator_t _first, iterator_t _last) {
             c.erase(_first, _last);
 
-            for (size_t i = size() / Kd; i >= 1U; --i) {
+            for (size_t i = parent_of(size()); i >= 1U; --i) {
                 sort_down(c[i]);
             }
         }
-- 
2.43.0


From 3ce5f466a254599c2070d99aea621e3a8cfcfae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:07 +0000
Subject: [PATCH 13/34] fix: heap::insert at a position keeps the heap order
 and returns the inserted element

---
 include/types/containers/heap.hpp | 36 ++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/include/types/containers/heap.hpp b/include/types/containers/heap.hpp
index e36c1dc..61202e5 100644
--- a/include/types/containers/heap.hpp
+++ b/include/types/containers/heap.hpp
@@ -805,29 +805,41 @@ namespace chdr {
         /**
          * @brief Inserts an element into the heap while maintaining the heap property.
          *
-         * @param _position The iterator position where the element should be inserted.
+         * @param _position A hint only: the order of the heap determines the position of the element.
          * @param _value The value to insert into the heap.
          * @return iterator_t An iterator pointing to the inserted element.
          */
-        constexpr iterator_t insert(iterator_t _position, const T& _value) {
-            auto distance_from_start = std::distance(c.begin(), _position) - 1U; // Adjust for super element.
-            c.insert(_position, _value);
-            sort_up(c[distance_from_start]);
-            return c.begin() + distance_from_start + 1U; // Return iterator to inserted element
+        constexpr iterator_t insert([[maybe_unused]] iterator_t _position, const T& _value) {
+
+            // An ordered heap determines where the element goes: the position is a hint only.
+            auto i = c.size();
+            while (i > 1U && comp(c[parent_of(i)], _value)) {
+                i = parent_of(i);
+            }
+
+            push(_value);
+
+            return c.begin() + i; // Return iterator to inserted element
         }
 
         /**
          * @brief Moves an element into the heap while maintaining the heap property.
          *
-         * @param _position The iterator position where the element should be moved.
+         * @param _position A hint only: the order of the heap determines the position of the element.
          * @param _value The value to insert into the heap.
          * @return iterator_t An iterator pointing to the inserted element.
          */
-        constexpr iterator_t insert(iterator_t _position, T&& _value) {
-            auto distance_from_start = std::distance(c.begin(), _position) - 1U; // Adjust for super element.
-            c.insert(_position, std::move(_value));
-            sort_up(c[distance_from_start]);
-            return c.begin() + distance_from_start + 1U; // Return iterator to inserted element
+        constexpr iterator_t insert([[maybe_unused]] iterator_t _position, T&& _value) {
+
+            // An ordered heap determines where the element goes: the position is a hint only.
+            auto i = c.size();
+            while (i > 1U && comp(c[parent_of(i)], _value)) {
+                i = parent_of(i);
+            }
+
+            push(std::move(_value));
+
+            return c.begin() + i; // Return iterator to inserted element
         }
 
         /**
-- 
2.43.0


From 05fd0830ab38df2efe8e852e807d71d8070afcda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:40 +0000
Subject: [PATCH 14/34] fix: pools hand out stack memory only for alignments
 and sizes that fit the stack block

---
 include/types/pmr/heterogeneous_pool.hpp | 4 +++-
 include/types/pmr/homogeneous_pool.hpp   | 3 ++-
 include/types/pmr/monotonic_pool.hpp     | 4 ++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 94b075b..9e2d22c 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -257,7 +257,9 @@ namespace chdr {
                 uint8_t* aligned_ptr { nullptr };
 
                 // Attempt to allocate from the stack block:
-                if (aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size) {
+                if (aligned_bytes < MaxStackAllocationSize && _bytes <= s_stack_block_size && _alignment <= alignof(max_align_t) &&
+                    ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U)) + aligned_bytes <= s_stack_block_size
+                ) {
 
                     aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
                     m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index bbe3c76..9e8bf2d 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -227,7 +227,8 @@ namespace chdr {
                 if (m_stack_write < StackSize) {
 
                     if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
-                        aligned_bytes < MaxStackAllocationSize && m_stack_write + aligned_bytes <= s_stack_block_size
+                        aligned_bytes < MaxStackAllocationSize && _bytes <= s_stack_block_size && _alignment <= alignof(max_align_t) &&
+                        ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U)) + aligned_bytes <= s_stack_block_size
                     ) {
                         aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
                         m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index 5bc8286..15c9a35 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -208,8 +208,8 @@ namespace chdr {
                 if (m_stack_write < StackSize) {
 
                     if (const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
-                        aligned_bytes < MaxStackAllocationSize &&
-                        m_stack_write + aligned_bytes <= s_stack_block_size
+                        aligned_bytes < MaxStackAllocationSize && _bytes <= s_stack_block_size && _alignment <= alignof(max_align_t) &&
+                        ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U)) + aligned_bytes <= s_stack_block_size
                     ) {
                         aligned_ptr = m_stack_block + ((m_stack_write + _alignment - 1U) & ~(_alignment - 1U));
                         m_stack_write = static_cast<size_t>(aligned_ptr - m_stack_block) + aligned_bytes;
-- 
2.43.0


From 6ec3984d974cf772a0ecbd5f6ebfdeea6e63cfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 15/34] fix: a failed expansion of the monotonic pool leaves it
 intact and reports bad_alloc

---
 include/types/pmr/monotonic_pool.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/types/pmr/monotonic_pool.hpp b/include/types/pmr/monotonic_pool.hpp
index 15c9a35..48c4b6f 100644
--- a/include/types/pmr/monotonic_pool.hpp
+++ b/include/types/pmr/monotonic_pool.hpp
@@ -142,8 +142,6 @@ namespace chdr {
                     // ReSharper disable once CppDFAUnreachableCode
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
-
-                    m_blocks.pop_back();
                 }
             }
 
@@ -239,7 +237,9 @@ namespace chdr {
                     }
 
                     // Update write position.
-                    m_block_write += static_cast<size_t>(aligned_ptr + _bytes - (m_blocks[m_active_block_index].data + m_block_write));
+                    if (LIKELY(aligned_ptr != nullptr)) {
+                        m_block_write += static_cast<size_t>(aligned_ptr + _bytes - (m_blocks[m_active_block_index].data + m_block_write));
+                    }
                 }
 
                 // ReSharper disable once CppDFAConstantConditions
-- 
2.43.0


From fb27f704dd71113bed3e46f20a6d680e27dd3a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 16/34] fix: a failed expansion or reset of a pool neither
 drops nor leaks a block

---
 include/types/pmr/heterogeneous_pool.hpp | 7 +++++--
 include/types/pmr/homogeneous_pool.hpp   | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 9e2d22c..356e511 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -157,10 +157,12 @@ namespace chdr {
                 // ReSharper disable once CppDFAConstantConditions
                 if (result != nullptr) {
                     // ReSharper disable once CppDFAUnreachableCode
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
+
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
-
-                    m_blocks.pop_back();
                 }
             }
             return result;
@@ -495,6 +497,7 @@ namespace chdr {
                 }
             }
             catch (...) {
+                cleanup();
                   m_free.clear();
                 m_blocks.clear();
             }
diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index 9e8bf2d..e2a9584 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -148,10 +148,12 @@ namespace chdr {
                 // ReSharper disable once CppDFAConstantConditions
                 if (result != nullptr) {
                     // ReSharper disable once CppDFAUnreachableCode
+                    if (!m_blocks.empty() && m_blocks.back().data == result) {
+                        m_blocks.pop_back();
+                    }
+
                     operator delete(result, static_cast<std::align_val_t>(_alignment));
                     result = nullptr;
-
-                    m_blocks.pop_back();
                 }
             }
 
@@ -464,6 +466,7 @@ namespace chdr {
                 }
             }
             catch (...) {
+                cleanup();
                 m_blocks.clear();
                   m_free.clear();
             }
-- 
2.43.0


From cca94557e2cf377fa8fa2539d89b61a3b23a2f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:39 +0000
Subject: [PATCH 17/34] fix: homogeneous_pool::reset keeps chunks aligned

---
 include/types/pmr/homogeneous_pool.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/types/pmr/homogeneous_pool.hpp b/include/types/pmr/homogeneous_pool.hpp
index e2a9584..0de434f 100644
--- a/include/types/pmr/homogeneous_pool.hpp
+++ b/include/types/pmr/homogeneous_pool.hpp
@@ -450,18 +450,21 @@ namespace chdr {
             try {
                 m_free.clear();
 
+                // Chunks are spaced by a multiple of the alignment, so that each of them is aligned.
+                const auto chunk_width = m_alignment == 0U ? m_block_width : ((m_block_width + m_alignment - 1U) & ~(m_alignment - 1U));
+
                 // Reuse memory from existing blocks to repopulate `free`:
                 for (auto& [size, data] : m_blocks) {
 
                     // Divide the block into chunks; all chunks are guaranteed aligned.
-                    const auto chunk_size = size / m_block_width;
+                    const auto chunk_size = size / chunk_width;
 
                     const auto current_size = m_free.size();
                     m_free.resize(current_size + chunk_size);
 
                     IVDEP
                     for (size_t j = 0U; j < chunk_size; ++j) {
-                        m_free[j + current_size] = data + j * m_block_width;
+                        m_free[j + current_size] = data + j * chunk_width;
                     }
                 }
             }
-- 
2.43.0


From 5870f9e8b04554c970835aea322ede41f66f09a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:52 +0000
Subject: [PATCH 18/34] fix: heterogeneous_pool reuses free memory only aligned
 and within its block

---
 include/types/pmr/heterogeneous_pool.hpp | 28 +++++++++++++++++-------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/types/pmr/heterogeneous_pool.hpp b/include/types/pmr/heterogeneous_pool.hpp
index 356e511..a27d547 100644
--- a/include/types/pmr/heterogeneous_pool.hpp
+++ b/include/types/pmr/heterogeneous_pool.hpp
@@ -137,7 +137,7 @@ namespace chdr {
                     bool success = false;
                     for (size_t i = 0U; i < remaining_size; ++i) {
 
-                        if (m_free.try_emplace(remaining_size - i, remaining_size, _alignment, result + utils::max(_bytes, _alignment)).second) {
+                        if (m_free.try_emplace(remaining_size - i, remaining_size, _alignment, result + _bytes).second) {
                             success = true;
                             break;
                         }
@@ -168,30 +168,37 @@ namespace chdr {
             return result;
         }
 
-        HOT uint8_t* allocate_from_free(size_t _bytes) {
+        HOT uint8_t* allocate_from_free(size_t _bytes, size_t _alignment) {
 
             assert(_bytes > 0U && "Allocation size must be greater than zero.");
 
             uint8_t* result = nullptr;
 
-            // Find the smallest free block that fits:
+            // Find the smallest free block that fits once its start is aligned:
+            size_t padding = 0U;
             auto it = m_free.lower_bound(_bytes);
+            for (; it != m_free.end(); ++it) {
+                padding = (_alignment - (reinterpret_cast<uintptr_t>(it->second.data) & (_alignment - 1U))) & (_alignment - 1U);
+                if (it->second.size >= _bytes && it->second.size - _bytes >= padding) {
+                    break;
+                }
+            }
 
-            if (it != m_free.end() && it->second.size >= _bytes) {
+            if (it != m_free.end()) {
 
                 // Extract the matching block without performing a full tree rebalance:
                 typename std::map<size_t, block>::node_type node = m_free.extract(it);
 
-                result = node.mapped().data;
+                result = node.mapped().data + padding;
 
                 // Consume block or adjust the remaining size:
-                size_t remaining_size = node.mapped().size - _bytes;
+                size_t remaining_size = node.mapped().size - padding - _bytes;
                 if (remaining_size != 0U) {
 
                     // Update with adjusted size:
                     node.key() = remaining_size;
                     node.mapped().size = remaining_size;
-                    node.mapped().data += utils::max(_bytes, node.mapped().alignment);
+                    node.mapped().data = result + _bytes;
 
                     m_free.insert(std::move(node)); // Reinsert (node is consumed otherwise).
                 }
@@ -254,6 +261,11 @@ namespace chdr {
                 return nullptr; // No-op. (See C++17 standard.)
             }
             else {
+                // Refuse sizes that cannot be rounded up to the alignment:
+                if (UNLIKELY(_bytes > std::numeric_limits<size_t>::max() - (_alignment - 1U))) {
+                    throw std::bad_alloc();
+                }
+
                 const size_t aligned_bytes = (_bytes + _alignment - 1U) & ~(_alignment - 1U);
 
                 uint8_t* aligned_ptr { nullptr };
@@ -270,7 +282,7 @@ namespace chdr {
                 if (aligned_ptr == nullptr) {
 
                     // Attempt to find a free block, or create one otherwise:
-                    aligned_ptr = allocate_from_free(aligned_bytes);
+                    aligned_ptr = allocate_from_free(aligned_bytes, _alignment);
                     if (UNLIKELY(aligned_ptr == nullptr)) {
                         aligned_ptr = expand(_bytes, _alignment);
                     }
-- 
2.43.0


From ee3e9a81a576e2df459fa4f6a11c5b64d4c08a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 19/34] fix: rbacktrack_noreverse with a depth no longer
 prepends that many default coordinates to the path

---
 include/solvers/base/solver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 0218432..49a04f9 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -647,7 +647,8 @@ namespace chdr::solvers {
             template<typename node_t, typename coord_t>
             static constexpr auto rbacktrack_noreverse(const node_t& _node, const coord_t& _size, size_t _depth) {
 
-                std::vector<coord_t> result(_depth);
+                std::vector<coord_t> result{};
+                result.reserve(_depth);
 
                 for (const auto* RESTRICT t = &_node; t->m_parent != nullptr; t = static_cast<const node_t*>(t->m_parent)) {
                     result.emplace_back(utils::to_nd(static_cast<typename coord_t::value_type>(t->m_index), _size));
-- 
2.43.0


From fa8d3ab133a0aa428f754da7e027851b844e3c45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 20/34] fix: idbest_first keeps the start node between
 iterations

---
 include/solvers/idbest_first.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/solvers/idbest_first.hpp b/include/solvers/idbest_first.hpp
index eb853d3..29850e1 100644
--- a/include/solvers/idbest_first.hpp
+++ b/include/solvers/idbest_first.hpp
@@ -172,13 +172,17 @@ namespace chdr::solvers {
                             }
                         }
                         else {
-                            _open.pop_back();
+                            if (_open.size() > 1U) {
+                                _open.pop_back();
+                            }
                             stack.pop();
                         }
                     }
                     else {
                         min = utils::min(min, curr.m_hScore);
-                        _open.pop_back();
+                        if (_open.size() > 1U) {
+                            _open.pop_back();
+                        }
                         stack.pop();
                     }
                 }
-- 
2.43.0


From 115e910aca8613badda93023f323d6328897b82d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 21/34] fix: solver::solve can be called with the arguments of
 its parameters

---
 include/solvers/base/solver.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/solvers/base/solver.hpp b/include/solvers/base/solver.hpp
index 49a04f9..7636953 100644
--- a/include/solvers/base/solver.hpp
+++ b/include/solvers/base/solver.hpp
@@ -848,7 +848,8 @@ namespace chdr::solvers {
         constexpr
 #endif // __cplusplus >= 202003L
         static auto solve(Args&&... _args) {
-            return solve(std::forward<Args>(_args)...);
+            const params_t params { std::forward<Args>(_args)... };
+            return solve(params);
         }
 
         /**
-- 
2.43.0


From 8863593c76878b4908a6f8a325b8f7d031bb6919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:35 +0000
Subject: [PATCH 22/34] fix: count the successors of a managed node in more
 than eight bits

---
 include/solvers/base/managed_node.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/base/managed_node.hpp b/include/solvers/base/managed_node.hpp
index a1ccda5..7c48747 100644
--- a/include/solvers/base/managed_node.hpp
+++ b/include/solvers/base/managed_node.hpp
@@ -48,7 +48,7 @@ namespace chdr::solvers {
     private:
 
         using  node_t = std::conditional_t<std::is_void_v<derived>, managed_node<index_t>, derived>;
-        using count_t = uint8_t;
+        using count_t = uint32_t;
 
     public:
 
-- 
2.43.0


From bc191ce48a5fcf6dc794830b0b7389dc3f8c3b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 23/34] fix: iddfs and eiddfs do not reset the pool their stack
 lives in, nor read a removed node

---
 include/solvers/eiddfs.hpp | 8 ++------
 include/solvers/iddfs.hpp  | 6 +-----
 2 files changed, 3 insertions(+), 11 deletions(-)

diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index 831296d..f52f4d0 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -127,7 +127,7 @@ namespace chdr::solvers {
 
             _open.emplace_back(s, 0U);
 
-            stack<state<neighbours_t>> stack(_params.monotonic_pmr);
+            stack<state<neighbours_t>> stack(_params.heterogeneous_pmr);
 
             for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
 
@@ -161,17 +161,13 @@ namespace chdr::solvers {
                         }
                     }
                     else {
+                        _closed.erase(curr.m_index);
                         if (_open.size() > 1U) {
                             _open.pop_back();
                         }
                         stack.pop();
-                        _closed.erase(curr.m_index);
                     }
                 }
-
-                if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
-                    _params.monotonic_pmr->reset();
-                }
             }
 
             return std::vector<coord_t>{};
diff --git a/include/solvers/iddfs.hpp b/include/solvers/iddfs.hpp
index bbde518..50d46dd 100644
--- a/include/solvers/iddfs.hpp
+++ b/include/solvers/iddfs.hpp
@@ -128,7 +128,7 @@ namespace chdr::solvers {
 
             _open.emplace_back(s, 0U);
 
-            stack<state<neighbours_t>> stack(_params.monotonic_pmr);
+            stack<state<neighbours_t>> stack(_params.heterogeneous_pmr);
 
             for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
 
@@ -164,10 +164,6 @@ namespace chdr::solvers {
                         stack.pop();
                     }
                 }
-
-                if constexpr (solver_t::solver_utils::template has_method_reset_v<std::remove_pointer_t<std::decay_t<decltype(_params.monotonic_pmr)>>>) {
-                    _params.monotonic_pmr->reset();
-                }
             }
 
             return std::vector<coord_t>{};
-- 
2.43.0


From 9c65c0f0047dc578ac9b80b4dbcb14bbc969a2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 24/34] fix: iddfs and eiddfs terminate when the goal cannot be
 reached

---
 include/solvers/eiddfs.hpp | 7 ++++++-
 include/solvers/iddfs.hpp  | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/solvers/eiddfs.hpp b/include/solvers/eiddfs.hpp
index f52f4d0..bc745a3 100644
--- a/include/solvers/eiddfs.hpp
+++ b/include/solvers/eiddfs.hpp
@@ -129,7 +129,11 @@ namespace chdr::solvers {
 
             stack<state<neighbours_t>> stack(_params.heterogeneous_pmr);
 
-            for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
+            bool exhausted = false; // Whether the last iteration explored everything reachable.
+
+            for (size_t bound = 0U; !exhausted && bound < std::numeric_limits<size_t>::max(); ++bound) {
+
+                exhausted = true;
 
                 stack.emplace(_open.back(), _params);
 
@@ -161,6 +165,7 @@ namespace chdr::solvers {
                         }
                     }
                     else {
+                        exhausted = exhausted && curr.m_depth <= bound;
                         _closed.erase(curr.m_index);
                         if (_open.size() > 1U) {
                             _open.pop_back();
diff --git a/include/solvers/iddfs.hpp b/include/solvers/iddfs.hpp
index 50d46dd..48e7558 100644
--- a/include/solvers/iddfs.hpp
+++ b/include/solvers/iddfs.hpp
@@ -130,7 +130,11 @@ namespace chdr::solvers {
 
             stack<state<neighbours_t>> stack(_params.heterogeneous_pmr);
 
-            for (size_t bound = 0U; bound < std::numeric_limits<size_t>::max(); ++bound) {
+            bool exhausted = false; // Whether the last iteration explored everything reachable.
+
+            for (size_t bound = 0U; !exhausted && bound < std::numeric_limits<size_t>::max(); ++bound) {
+
+                exhausted = true;
 
                 stack.emplace(_open.back(), _params);
 
@@ -158,6 +162,7 @@ namespace chdr::solvers {
                         }
                     }
                     else {
+                        exhausted = exhausted && curr.m_depth <= bound;
                         if (_open.size() > 1U) {
                             _open.pop_back();
                         }
-- 
2.43.0


From 137837616de42ef41bc9993fc499334422b1ad9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 25/34] fix: gjps returns nodes to the pool it takes them from

---
 include/solvers/gjps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index c9cceee..387a529 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -342,7 +342,7 @@ namespace chdr::solvers {
                                     solver_t::solver_utils::preallocate_emplace(_closed, n, _capacity, _params.maze.count());
 
                                     if (curr_ptr == nullptr) {
-                                        curr_ptr = new (_params.monotonic_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
+                                        curr_ptr = new (_params.homogeneous_pmr->allocate(sizeof(node), alignof(node))) node(std::move(curr));
                                     }
 
                                     if constexpr (params_t::lazy_sorting::value) {
-- 
2.43.0


From 1c419709bb8bb1313a35b545323ecdfc9e122fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:59 +0000
Subject: [PATCH 26/34] fix: do not take the cost of a path for the number of
 its nodes

---
 include/solvers/astar.hpp  | 4 ++--
 include/solvers/fringe.hpp | 4 ++--
 include/solvers/gjps.hpp   | 4 ++--
 include/solvers/gstar.hpp  | 4 ++--
 include/solvers/jps.hpp    | 4 ++--
 include/solvers/mgstar.hpp | 4 ++--
 6 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/solvers/astar.hpp b/include/solvers/astar.hpp
index 7c113bd..6c37608 100644
--- a/include/solvers/astar.hpp
+++ b/include/solvers/astar.hpp
@@ -173,10 +173,10 @@ namespace chdr::solvers {
                     _closed = closed_set_t{};
 
                     if constexpr (params_t::reverse_equivalence::value) {
-                        return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                        return solver_t::solver_utils::rbacktrack(curr, _params.size);
                     }
                     else {
-                        return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                        return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size);
                     }
                 }
             }
diff --git a/include/solvers/fringe.hpp b/include/solvers/fringe.hpp
index ee0cb5c..4e023f3 100644
--- a/include/solvers/fringe.hpp
+++ b/include/solvers/fringe.hpp
@@ -194,10 +194,10 @@ namespace chdr::solvers {
                         _closed = closed_set_t{};
 
                         if constexpr (params_t::reverse_equivalence::value) {
-                            return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack(curr, _params.size);
                         }
                         else {
-                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size);
                         }
                     }
                 }
diff --git a/include/solvers/gjps.hpp b/include/solvers/gjps.hpp
index 387a529..74f47f4 100644
--- a/include/solvers/gjps.hpp
+++ b/include/solvers/gjps.hpp
@@ -370,10 +370,10 @@ namespace chdr::solvers {
                         _closed = closed_set_t{};
 
                         if constexpr (params_t::reverse_equivalence::value) {
-                            return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack(curr, _params.size);
                         }
                         else {
-                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size);
                         }
                     }
                 }
diff --git a/include/solvers/gstar.hpp b/include/solvers/gstar.hpp
index cbdc538..fa39d42 100644
--- a/include/solvers/gstar.hpp
+++ b/include/solvers/gstar.hpp
@@ -175,10 +175,10 @@ namespace chdr::solvers {
                     _closed = closed_set_t{};
 
                     if constexpr (params_t::reverse_equivalence::value) {
-                        return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                        return solver_t::solver_utils::rbacktrack(curr, _params.size);
                     }
                     else {
-                        return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                        return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size);
                     }
                 }
             }
diff --git a/include/solvers/jps.hpp b/include/solvers/jps.hpp
index ec4f83a..82ed34d 100644
--- a/include/solvers/jps.hpp
+++ b/include/solvers/jps.hpp
@@ -386,10 +386,10 @@ namespace chdr::solvers {
                         _closed = closed_set_t{};
 
                         if constexpr (params_t::reverse_equivalence::value) {
-                            return solver_t::solver_utils::rbacktrack(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack(curr, _params.size);
                         }
                         else {
-                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size, static_cast<size_t>(curr.m_gScore));
+                            return solver_t::solver_utils::rbacktrack_noreverse(curr, _params.size);
                         }
                     }
                 }
diff --git a/include/solvers/mgstar.hpp b/include/solvers/mgstar.hpp
index 8eb3964..e17289d 100644
--- a/include/solvers/mgstar.hpp
+++ b/include/solvers/mgstar.hpp
@@ -293,10 +293,10 @@ namespace chdr::solvers {
             if (best_solution.has_value()) {
 
                 if constexpr (params_t::reverse_equivalence::value) {
-                    return solver_t::solver_utils::rbacktrack(best_solution.value(), _params.size, static_cast<size_t>(best_solution->m_gScore));
+                    return solver_t::solver_utils::rbacktrack(best_solution.value(), _params.size);
                 }
                 else {
-                    return solver_t::solver_utils::rbacktrack_noreverse(best_solution.value(), _params.size, static_cast<size_t>(best_solution->m_gScore));
+                    return solver_t::solver_utils::rbacktrack_noreverse(best_solution.value(), _params.size);
                 }
             }
             else {
-- 
2.43.0


From 687002a50caab651c72e6721cf7b59fe0daa3b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:44 +0000
Subject: [PATCH 27/34] fix: fringe neither drops nodes beyond the threshold
 nor loops forever when the goal cannot be reached

---
 include/solvers/fringe.hpp | 33 +++++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/include/solvers/fringe.hpp b/include/solvers/fringe.hpp
index 4e023f3..ef30876 100644
--- a/include/solvers/fringe.hpp
+++ b/include/solvers/fringe.hpp
@@ -142,6 +142,8 @@ namespace chdr::solvers {
 
                         node* RESTRICT curr_ptr(nullptr);
 
+                        bool deferred = false; // Whether a neighbour lies beyond the threshold.
+
                         for (const auto& n_data : _params.maze.template get_neighbours<params_t::octile_neighbours::value>(curr.m_index)) {
 
                             if (const auto& n = solver_t::get_data(n_data, _params); n.active) {
@@ -181,12 +183,33 @@ namespace chdr::solvers {
                                         }
                                     }
                                 }
-                                else {
+                                else if (!_closed.contains(n.index)) {
                                     next_threshold = utils::min(next_threshold, f);
-                                    break;
+                                    deferred = true;
                                 }
                             }
                         }
+
+                        // Revisit the node once the threshold has been raised:
+                        if (deferred) {
+                            if constexpr (params_t::lazy_sorting::value) {
+                                _next.emplace_back(std::move(curr));
+                            }
+                            else {
+                                _next.insert(
+                                    std::partition_point(
+                                        _next.begin(),
+                                        _next.end(),
+                                        [&curr](const node& _other) ALWAYS_INLINE {
+                                            return curr.m_fScore == _other.m_fScore ?
+                                                   curr.m_gScore >  _other.m_gScore :
+                                                   curr.m_fScore >  _other.m_fScore;
+                                        }
+                                    ),
+                                    std::move(curr)
+                                );
+                            }
+                        }
                     }
                     else { // SOLUTION REACHED...
 
@@ -202,10 +225,8 @@ namespace chdr::solvers {
                     }
                 }
 
-                if (!_next.empty()) {
-                    std::swap(_open, _next);
-                    _next.clear();
-                }
+                std::swap(_open, _next);
+                _next.clear();
 
                 max_threshold = next_threshold;
             }
-- 
2.43.0


From 0439691ca892a4023df1403d013fe75fb4d06001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 28/34] fix: fringe raises its threshold only when nothing
 within it is left, so that routes are shortest

---
 include/solvers/fringe.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/solvers/fringe.hpp b/include/solvers/fringe.hpp
index ef30876..289c376 100644
--- a/include/solvers/fringe.hpp
+++ b/include/solvers/fringe.hpp
@@ -136,6 +136,8 @@ namespace chdr::solvers {
 
                 auto next_threshold = std::numeric_limits<scalar_t>::max();
 
+                bool exhausted = true; // Whether nothing is left to search within the threshold.
+
                 for (auto& curr : _open) {
 
                     if (curr.m_index != e) { // SEARCH FOR SOLUTION...
@@ -156,6 +158,8 @@ namespace chdr::solvers {
                                     // Check if node is not already visited:
                                     if (!_closed.contains(n.index)) {
 
+                                        exhausted = false;
+
                                         solver_t::solver_utils::preallocate_emplace(_closed, n.index, _capacity, _params.maze.count());
 
                                         if (curr_ptr == nullptr) {
@@ -228,7 +232,9 @@ namespace chdr::solvers {
                 std::swap(_open, _next);
                 _next.clear();
 
-                max_threshold = next_threshold;
+                if (exhausted) {
+                    max_threshold = next_threshold;
+                }
             }
 
             return std::vector<coord_t>{};
-- 
2.43.0


From bfe22e552e15d76fa89e44acce314bb90447119d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:52 +0000
Subject: [PATCH 29/34] fix: idastar and eidastar accept a route only within
 the bound, so that it is shortest

---
 include/solvers/eidastar.hpp | 2 +-
 include/solvers/idastar.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/solvers/eidastar.hpp b/include/solvers/eidastar.hpp
index 4973aff..97f5531 100644
--- a/include/solvers/eidastar.hpp
+++ b/include/solvers/eidastar.hpp
@@ -176,7 +176,7 @@ namespace chdr::solvers {
 
                                     _open.emplace_back(n.index, g, f);
 
-                                    if (n.index != e) { // SEARCH FOR SOLUTION...
+                                    if (n.index != e || f > bound) { // SEARCH FOR SOLUTION...
                                         stack.emplace(_open.back(), _params);
                                     }
                                     else { // SOLUTION REACHED...
diff --git a/include/solvers/idastar.hpp b/include/solvers/idastar.hpp
index 9432266..5db6286 100644
--- a/include/solvers/idastar.hpp
+++ b/include/solvers/idastar.hpp
@@ -167,7 +167,7 @@ namespace chdr::solvers {
 
                                     _open.emplace_back(n.index, g, f);
 
-                                    if (n.index != e) { // SEARCH FOR SOLUTION...
+                                    if (n.index != e || f > bound) { // SEARCH FOR SOLUTION...
                                         stack.emplace(_open.back(), _params);
                                     }
                                     else { // SOLUTION REACHED...
-- 
2.43.0


From b2570ce4f2a1d808343e227d673d868e7cb8865a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:14 +0000
Subject: [PATCH 30/34] fix: a graph compiled from a grid does not repeat the
 edges of one node at another

---
 include/mazes/graph.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index a9f83a0..28df488 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -193,6 +193,7 @@ namespace chdr::mazes {
                                         const auto nIdx1 = static_cast<index_t>(utils::to_1d(nCoord1, size));
 
                                         local_closed.clear();
+                                        thread_connections.clear();
                                         stack.emplace(std::make_pair(nIdx1, static_cast<scalar_t>(1)));
 
                                         while (!stack.empty()) {
-- 
2.43.0


From 10288143f565be81ce06a748f35b870f4083cce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:14 +0000
Subject: [PATCH 31/34] fix: a graph compiled from a grid joins junctions and
 dead ends that are adjacent

---
 include/mazes/graph.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 28df488..9ad23fd 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -194,7 +194,13 @@ namespace chdr::mazes {
 
                                         local_closed.clear();
                                         thread_connections.clear();
-                                        stack.emplace(std::make_pair(nIdx1, static_cast<scalar_t>(1)));
+
+                                        if (_grid.is_transitory(nIdx1)) {
+                                            stack.emplace(std::make_pair(nIdx1, static_cast<scalar_t>(1)));
+                                        }
+                                        else {
+                                            thread_connections[nIdx1].emplace_back(nIdx1, static_cast<scalar_t>(1));
+                                        }
 
                                         while (!stack.empty()) {
 
-- 
2.43.0


From 49e4ded4f49a549fd85130152b1ac13fa1252654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:14 +0000
Subject: [PATCH 32/34] fix: graph::prune leaves no edges to the nodes it
 removes, and removes only nodes that join two others

---
 include/mazes/graph.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 9ad23fd..54ea09c 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -381,13 +381,18 @@ namespace chdr::mazes {
 
                         if (auto& [node, neighbours] = entry; neighbours.size() == 2U) {
 
-                            dirty = ConsolidateAfterPrune;
-
                             auto it = neighbours.begin();
 
                             auto& [n1_id, n1_cost] = *it;
                             auto& [n2_id, n2_cost] = *(++it);
 
+                            // Only a node which joins two other nodes is transitory.
+                            if (n1_id == n2_id || n1_id == node || n2_id == node) {
+                                continue;
+                            }
+
+                            dirty = ConsolidateAfterPrune;
+
                             auto s1 = m_entries.find(n1_id);
                             auto s2 = m_entries.find(n2_id);
 
@@ -399,9 +404,9 @@ namespace chdr::mazes {
 
                                 if (sn != set.end()) {
 
-                                    if (neighbour_t new_vertex { n2_id, sn->second + n2_cost };
-                                        std::find(set.begin(), set.end(), new_vertex) == set.end()
-                                    ) {
+                                    neighbour_t new_vertex{n2_id, sn->second + n2_cost};
+                                    set.erase(sn);
+                                    if (std::find(set.begin(), set.end(), new_vertex) == set.end()) {
                                         set.emplace_back(new_vertex);
                                     }
                                 }
-- 
2.43.0


From 89f698842ddcf59799c711d617a964ae37e1fb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:18 +0000
Subject: [PATCH 33/34] fix: graph::remove may be given an edge of the graph
 itself

---
 include/mazes/graph.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/mazes/graph.hpp b/include/mazes/graph.hpp
index 54ea09c..4695360 100644
--- a/include/mazes/graph.hpp
+++ b/include/mazes/graph.hpp
@@ -331,7 +331,10 @@ namespace chdr::mazes {
             if (contains(_from_id)) {
 
                 auto& bucket = m_entries[_from_id];
-                bucket.erase(std::remove(bucket.begin(), bucket.end(), _edge), bucket.end());
+                // The edge may be an element of the bucket itself.
+                const edge_t edge = _edge;
+
+                bucket.erase(std::remove(bucket.begin(), bucket.end(), edge), bucket.end());
 
                 if (bucket.empty()) {
                     m_entries.erase(_from_id);
-- 
2.43.0


From 9b037eb5138d69a428ab7bcd50dff02c5b67fe6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:30 +0000
Subject: [PATCH 34/34] fix: smastar and osmastar do not lose nodes that
 compare equal to one whose path improves

---
 include/solvers/osmastar.hpp | 10 +++++++++-
 include/solvers/smastar.hpp  | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/include/solvers/osmastar.hpp b/include/solvers/osmastar.hpp
index d61b899..2640a56 100644
--- a/include/solvers/osmastar.hpp
+++ b/include/solvers/osmastar.hpp
@@ -271,7 +271,15 @@ namespace chdr::solvers {
                                         if (const auto g = curr.m_gScore + n.distance; g < search->second.m_gScore) {
                                             const auto h = _params.h(n.coord, _params.end) * _params.weight;
 
-                                            _open.erase(search->second);
+
+                                            // Nodes which compare equal to this one must remain in the open set.
+                                            for (auto [itr, last] = _open.equal_range(search->second); itr != last; ++itr) {
+                                                if (itr->m_index == n.index) {
+                                                    _open.erase(itr);
+                                                    break;
+                                                }
+                                            }
+
                                             _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
 
                                             complete = false;
diff --git a/include/solvers/smastar.hpp b/include/solvers/smastar.hpp
index 8bffa96..b2bfc4f 100644
--- a/include/solvers/smastar.hpp
+++ b/include/solvers/smastar.hpp
@@ -272,7 +272,15 @@ namespace chdr::solvers {
                                         if (const auto g = curr.m_gScore + n.distance; g < search->second.m_gScore) {
                                             const auto h = _params.h(n.coord, _params.end) * _params.weight;
 
-                                            _open.erase(search->second);
+
+                                            // Nodes which compare equal to this one must remain in the open set.
+                                            for (auto [itr, last] = _open.equal_range(search->second); itr != last; ++itr) {
+                                                if (itr->m_index == n.index) {
+                                                    _open.erase(itr);
+                                                    break;
+                                                }
+                                            }
+
                                             _open.emplace(all_nodes[n.index] = node(n.index, g, g + h, curr.m_index));
 
                                             complete = false;
-- 
2.43.0

