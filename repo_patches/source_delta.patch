From f9db210e5c38c1ca384ad9bb446ade58642bf587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 01/22] fix: do not offset the null base of an empty array

An empty array with a negative stride computed its base as nullptr - flat_min,
so it looked like it had elements and storage.
---
 include/array/array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index dac1709..e501975 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2287,7 +2287,8 @@ private:
       buffer_size_ = flat_extent;
       buffer_ = alloc_traits::allocate(alloc_, buffer_size_);
     }
-    base_ = buffer_ - shape_.flat_min();
+    // An empty array does not have any storage to point to.
+    base_ = internal::pointer_add(buffer_, -shape_.flat_min());
   }
 
   // Call the constructor on all of the elements of the array.
-- 
2.43.0


From 3a5339825846021b0997dfa543720e8f328221b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 02/22] fix: assign(shape, value) to a moved-from array of
 constant shape

A moved-from array with a constant non-empty shape has the requested shape but
no storage; assign destroyed and constructed elements through a null base.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index e501975..efb8675 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2527,7 +2527,7 @@ public:
    * copy constructed from `value`. */
   void assign(Shape shape, const T& value) {
     shape.resolve();
-    if (shape_ == shape) {
+    if (base_ && shape_ == shape) {
       destroy();
     } else {
       deallocate();
-- 
2.43.0


From 666f053fbd19752e801ce09d2eda1185bf3840d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 03/22] fix: a failed allocation does not leave a shape without
 elements

assign, copy/move assignment and clear set the shape before allocating, so when
the allocator threw the array described elements that did not exist.
---
 include/array/array.h | 38 +++++++++++++++++---------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index efb8675..cd08e00 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2278,15 +2278,17 @@ private:
   pointer base_;
   Shape shape_;
 
-  // After allocate the array is allocated but uninitialized.
-  void allocate() {
+  // After allocate the array is allocated with shape `shape` but uninitialized.
+  // If the allocation fails, the array is not modified.
+  void allocate(Shape shape) {
     assert(!buffer_);
-    shape_.resolve();
-    size_type flat_extent = shape_.flat_extent();
+    shape.resolve();
+    size_type flat_extent = shape.flat_extent();
     if (flat_extent > 0) {
+      buffer_ = alloc_traits::allocate(alloc_, flat_extent);
       buffer_size_ = flat_extent;
-      buffer_ = alloc_traits::allocate(alloc_, buffer_size_);
     }
+    shape_ = shape;
     // An empty array does not have any storage to point to.
     base_ = internal::pointer_add(buffer_, -shape_.flat_min());
   }
@@ -2365,13 +2367,13 @@ public:
   /** Construct an array with a particular `shape`, allocated by `alloc`, with
    * default constructed elements. */
   explicit array(const Shape& shape, const Alloc& alloc)
-      : alloc_(alloc), buffer_(nullptr), buffer_size_(0), base_(nullptr), shape_(shape) {
-    allocate();
+      : alloc_(alloc), buffer_(nullptr), buffer_size_(0), base_(nullptr) {
+    allocate(shape);
     construct();
   }
   explicit array(const Shape& shape)
-      : buffer_(nullptr), buffer_size_(0), base_(nullptr), shape_(shape) {
-    allocate();
+      : buffer_(nullptr), buffer_size_(0), base_(nullptr) {
+    allocate(shape);
     construct();
   }
 
@@ -2401,8 +2403,7 @@ public:
         alloc_ == other.get_allocator()) {
       swap_except_allocator(other);
     } else {
-      shape_ = other.shape_;
-      allocate();
+      allocate(other.shape_);
       move_construct(other);
     }
   }
@@ -2418,8 +2419,7 @@ public:
     if (alloc_ == other.get_allocator()) {
       swap_except_allocator(other);
     } else {
-      shape_ = other.shape_;
-      allocate();
+      allocate(other.shape_);
       move_construct(other);
     }
   }
@@ -2498,8 +2498,7 @@ public:
       destroy();
     } else {
       deallocate();
-      shape_ = other.shape_;
-      allocate();
+      allocate(other.shape_);
     }
     copy_construct(other);
   }
@@ -2517,8 +2516,7 @@ public:
       destroy();
     } else {
       deallocate();
-      shape_ = other.shape_;
-      allocate();
+      allocate(other.shape_);
     }
     move_construct(other);
   }
@@ -2531,8 +2529,7 @@ public:
       destroy();
     } else {
       deallocate();
-      shape_ = shape;
-      allocate();
+      allocate(shape);
     }
     construct(value);
   }
@@ -2619,8 +2616,7 @@ public:
    * constructed. */
   void clear() {
     deallocate();
-    shape_ = Shape();
-    allocate();
+    allocate(Shape());
     construct();
   }
 
-- 
2.43.0


From 9f11ee7908d0195fb0c2ead225b80b6b9f8c4b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:04 +0000
Subject: [PATCH 04/22] fix: clean up when constructing an element throws

The constructors leaked the storage and the elements built so far, and the
assignments left an array that later destroyed elements that were never built.
---
 include/array/array.h | 78 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 71 insertions(+), 7 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index cd08e00..6bbe157 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2293,28 +2293,87 @@ private:
     base_ = internal::pointer_add(buffer_, -shape_.flat_min());
   }
 
+  // If constructing an element throws, this destroys the elements constructed
+  // so far, and releases the storage of the array.
+  class construct_guard {
+    array* self_;
+    bool copy_order_;
+    size_type constructed_;
+
+  public:
+    construct_guard(array* self, bool copy_order)
+        : self_(self), copy_order_(copy_order), constructed_(0) {}
+    construct_guard(const construct_guard&) = delete;
+    construct_guard& operator=(const construct_guard&) = delete;
+    ~construct_guard() {
+      if (self_) self_->undo_construct(constructed_, copy_order_);
+    }
+
+    // Only the number of elements that need to be destroyed is needed.
+    void constructed() {
+      if (!std::is_trivially_destructible<T>::value) ++constructed_;
+    }
+    void done() { self_ = nullptr; }
+  };
+
+  // Destroy the first `n` elements, in the order they were constructed, and
+  // release the storage.
+  void undo_construct(size_type n, bool copy_order) {
+    auto destroy_first_n = [&](T& x) {
+      if (n > 0) {
+        n--;
+        alloc_traits::destroy(alloc_, &x);
+      }
+    };
+    if (copy_order) {
+      copy_shape_traits_type::for_each_value(shape_, base_, shape_, base_,
+          [&](const_reference, reference dst) { destroy_first_n(dst); });
+    } else {
+      for_each_value(destroy_first_n);
+    }
+    release();
+  }
+
   // Call the constructor on all of the elements of the array.
   void construct() {
     assert(base_ || shape_.empty());
-    for_each_value([&](T& x) { alloc_traits::construct(alloc_, &x); });
+    construct_guard guard(this, /*copy_order=*/false);
+    for_each_value([&](T& x) {
+      alloc_traits::construct(alloc_, &x);
+      guard.constructed();
+    });
+    guard.done();
   }
   void construct(const T& init) {
     assert(base_ || shape_.empty());
-    for_each_value([&](T& x) { alloc_traits::construct(alloc_, &x, init); });
+    construct_guard guard(this, /*copy_order=*/false);
+    for_each_value([&](T& x) {
+      alloc_traits::construct(alloc_, &x, init);
+      guard.constructed();
+    });
+    guard.done();
   }
   void copy_construct(const array& other) {
     assert(base_ || shape_.empty());
     assert(shape_ == other.shape_);
+    construct_guard guard(this, /*copy_order=*/true);
     copy_shape_traits_type::for_each_value(other.shape_, other.base_, shape_, base_,
-        [&](const_reference src, reference dst) { alloc_traits::construct(alloc_, &dst, src); });
+        [&](const_reference src, reference dst) {
+          alloc_traits::construct(alloc_, &dst, src);
+          guard.constructed();
+        });
+    guard.done();
   }
   void move_construct(array& other) {
     assert(base_ || shape_.empty());
     assert(shape_ == other.shape_);
+    construct_guard guard(this, /*copy_order=*/true);
     copy_shape_traits_type::for_each_value(
         other.shape_, other.base_, shape_, base_, [&](reference src, reference dst) {
           alloc_traits::construct(alloc_, &dst, std::move(src));
+          guard.constructed();
         });
+    guard.done();
   }
 
   // Call the dstructor on every element.
@@ -2326,13 +2385,18 @@ private:
   void deallocate() {
     if (base_) {
       destroy();
-      base_ = nullptr;
-      shape_ = Shape();
-      alloc_traits::deallocate(alloc_, buffer_, buffer_size_);
-      buffer_ = nullptr;
+      release();
     }
   }
 
+  // Release the storage of the array without destroying any elements.
+  void release() {
+    base_ = nullptr;
+    shape_ = Shape();
+    alloc_traits::deallocate(alloc_, buffer_, buffer_size_);
+    buffer_ = nullptr;
+  }
+
   static Alloc get_allocator_for_move(array& other, std::true_type) {
     return std::move(other.alloc_);
   }
-- 
2.43.0


From 28dbf6fc990ffd9ec238902a8dd3f6064eb9080a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 05/22] fix: move_reinterpret_shape rejected valid offsets

The assert had the sign of the offset the wrong way around (see set_shape and
reinterpret_shape), and an empty array's null base was offset.
---
 include/array/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 6bbe157..fafaa4f 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3112,7 +3112,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
       std::is_trivial<T>::value, "move_reinterpret_shape is broken for non-trivial types.");
   using std::swap;
 
-  assert(new_shape.is_subset_of(from.shape(), offset));
+  assert(new_shape.is_subset_of(from.shape(), -offset));
   array<T, NewShape, Alloc> result;
   // Consider this to be a move assignment.
   if (std::allocator_traits<Alloc>::propagate_on_container_move_assignment::value) {
@@ -3126,7 +3126,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
   swap(result.base_, from.base_);
   result.shape_ = new_shape;
   from.shape_ = OldShape();
-  result.base_ += offset;
+  result.base_ = internal::pointer_add(result.base_, offset);
 
   return result;
 }
-- 
2.43.0


From 6c4e99525e58bde8eee765571bf9a2a99c695d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 06/22] fix: traversals do not consume the caller's callable

for_all_indices, for_each_index with a loop order, generate, transform_index,
transform_indices and the image and matrix traversals moved from the callable
even when it was passed as an lvalue.
---
 include/array/array.h  | 14 ++++++--------
 include/array/image.h  |  2 +-
 include/array/matrix.h |  2 +-
 3 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index fafaa4f..9dc558b 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1951,7 +1951,7 @@ template <size_t... LoopOrder, class Shape, class Fn,
     std::enable_if_t<(sizeof...(LoopOrder) == 0), int> = 0>
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_all_indices(const Shape& s, Fn&& fn) {
   using index_type = typename Shape::index_type;
-  for_each_index(s, [fn = std::move(fn)](const index_type& i) { internal::apply(fn, i); });
+  for_each_index(s, [&](const index_type& i) { internal::apply(fn, i); });
 }
 template <size_t... LoopOrder, class Shape, class Fn,
     class = internal::enable_if_callable<Fn, index_of_rank<sizeof...(LoopOrder)>>,
@@ -1959,14 +1959,14 @@ template <size_t... LoopOrder, class Shape, class Fn,
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_each_index(const Shape& s, Fn&& fn) {
   using index_type = index_of_rank<sizeof...(LoopOrder)>;
   for_each_index_in_order(reorder<LoopOrder...>(s),
-      [fn = std::move(fn)](const index_type& i) { fn(internal::unshuffle<LoopOrder...>(i)); });
+      [&](const index_type& i) { fn(internal::unshuffle<LoopOrder...>(i)); });
 }
 template <size_t... LoopOrder, class Shape, class Fn,
     class = internal::enable_if_callable<Fn, decltype(LoopOrder)...>,
     std::enable_if_t<(sizeof...(LoopOrder) != 0), int> = 0>
 NDARRAY_UNIQUE NDARRAY_HOST_DEVICE void for_all_indices(const Shape& s, Fn&& fn) {
   using index_type = index_of_rank<sizeof...(LoopOrder)>;
-  for_each_index_in_order(reorder<LoopOrder...>(s), [fn = std::move(fn)](const index_type& i) {
+  for_each_index_in_order(reorder<LoopOrder...>(s), [&](const index_type& i) {
     internal::apply(fn, internal::unshuffle<LoopOrder...>(i));
   });
 }
@@ -2977,7 +2977,7 @@ void fill(array<T, Shape, Alloc>& dst, const T& value) {
  * `shape_traits<Shape>::for_each_value`. */
 template <class T, class Shape, class Generator, class = internal::enable_if_callable<Generator>>
 NDARRAY_HOST_DEVICE void generate(const array_ref<T, Shape>& dst, Generator&& g) {
-  dst.for_each_value([g = std::move(g)](T& i) { i = g(); });
+  dst.for_each_value([&](T& i) { i = g(); });
 }
 template <class T, class Shape, class Alloc, class Generator,
     class = internal::enable_if_callable<Generator>>
@@ -2991,8 +2991,7 @@ void generate(array<T, Shape, Alloc>& dst, Generator&& g) {
 template <typename T, typename Shape, class Fn>
 NDARRAY_HOST_DEVICE void transform_index(const array_ref<T, Shape>& dst, Fn&& fn) {
   using index_type = typename Shape::index_type;
-  for_each_index(
-      dst.shape(), [&, fn = std::move(fn)](const index_type& idx) { dst[idx] = fn(idx); });
+  for_each_index(dst.shape(), [&](const index_type& idx) { dst[idx] = fn(idx); });
 }
 template <typename T, typename Shape, class Fn>
 void transform_index(array<T, Shape>& dst, Fn&& fn) {
@@ -3005,8 +3004,7 @@ void transform_index(array<T, Shape>& dst, Fn&& fn) {
 template <typename T, typename Shape, class Fn>
 NDARRAY_HOST_DEVICE void transform_indices(const array_ref<T, Shape>& dst, Fn&& fn) {
   using index_type = typename Shape::index_type;
-  transform_index(
-      dst, [fn = std::move(fn)](const index_type& idx) { return internal::apply(fn, idx); });
+  transform_index(dst, [&](const index_type& idx) { return internal::apply(fn, idx); });
 }
 template <typename T, typename Shape, class Fn>
 void transform_indices(array<T, Shape>& dst, Fn&& fn) {
diff --git a/include/array/image.h b/include/array/image.h
index 6502ca8..b755287 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -78,7 +78,7 @@ public:
   template <class Ptr, class Fn>
   static void for_each_value(const shape_type& s, Ptr base, Fn&& fn) {
     for_each_image_index(
-        s, [=, fn = std::move(fn)](const typename shape_type::index_type& i) { fn(base[s[i]]); });
+        s, [&](const typename shape_type::index_type& i) { fn(base[s[i]]); });
   }
 };
 
diff --git a/include/array/matrix.h b/include/array/matrix.h
index 3db0457..2ec39c5 100644
--- a/include/array/matrix.h
+++ b/include/array/matrix.h
@@ -80,7 +80,7 @@ public:
   template <class Ptr, class Fn>
   static void for_each_value(const shape_type& s, Ptr base, Fn&& fn) {
     for_each_matrix_index(
-        s, [=, fn = std::move(fn)](const typename shape_type::index_type& i) { fn(base[s[i]]); });
+        s, [&](const typename shape_type::index_type& i) { fn(base[s[i]]); });
   }
 };
 
-- 
2.43.0


From 3313d190c36b301e7a582feab4d4e442e83a3497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 07/22] fix: make_move of an rvalue array moves it

When the shape and allocator already match, the array was copied.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 9dc558b..714e50d 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2941,7 +2941,7 @@ auto make_move(
 template <class T, class Shape, class Alloc>
 auto make_move(array<T, Shape, Alloc>&& src, const Shape& shape, const Alloc& alloc = Alloc()) {
   if (src.shape() == shape && alloc == src.get_allocator()) {
-    return src;
+    return array<T, Shape, Alloc>(std::move(src), alloc);
   } else {
     return make_move(src.ref(), shape, alloc);
   }
-- 
2.43.0


From 49b525ea0ffde7bd64873739d739c01bd026811d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 08/22] fix: reshape keeps the allocator of the array

The new storage came from a default constructed allocator.
---
 include/array/array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 714e50d..1fce341 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2691,7 +2691,7 @@ public:
     if (shape_ == new_shape) { return; }
 
     // Allocate an array with the new shape.
-    array new_array(new_shape);
+    array new_array(new_shape, alloc_);
 
     // Move the common elements to the new array.
     Shape intersection =
-- 
2.43.0


From a6f4f9153650461a8dc0e7a7461d6e77a928c43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 09/22] fix: z-order traversals of an empty range do not call
 the callback

---
 include/array/z_order.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/array/z_order.h b/include/array/z_order.h
index a4c7555..82e3952 100644
--- a/include/array/z_order.h
+++ b/include/array/z_order.h
@@ -72,6 +72,8 @@ NDARRAY_UNIQUE void for_each_index_in_z_order(const Extents& extents, const Fn&
   constexpr index_t Rank = std::tuple_size<Extents>::value;
   // Get the ends of the iteration space as an array.
   const auto end = tuple_to_array<index_t>(extents, make_index_sequence<Rank>());
+  // There is nothing to do if any of the extents are empty.
+  if (*std::min_element(end.begin(), end.end()) <= 0) { return; }
   const index_t max_extent = *std::max_element(end.begin(), end.end());
   const index_t step = std::max<index_t>(1, next_power_of_two(max_extent) >> 1);
   std::array<index_t, Rank> z = {{0,}};
-- 
2.43.0


From 3fc4145d4361723ea3840c9c016b96952f7fb249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 10/22] fix: a crop outside of an image is empty

The extents of the result were negative.
---
 include/array/image.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/array/image.h b/include/array/image.h
index b755287..3e22f18 100644
--- a/include/array/image.h
+++ b/include/array/image.h
@@ -156,6 +156,9 @@ array_ref<T, Shape> crop(const array_ref<T, Shape>& im, index_t x0, index_t y0,
   y0 = internal::max(y0, im.y().min());
   x1 = internal::min(x1, im.x().max() + 1);
   y1 = internal::min(y1, im.y().max() + 1);
+  // A crop that does not intersect the image is empty.
+  x1 = internal::max(x0, x1);
+  y1 = internal::max(y0, y1);
   Shape cropped_shape = crop_image_shape(im.shape(), x0, y0, x1, y1, origin);
   index_t c0 = im.c().min();
   T* base = im.base() != nullptr ? &im(x0, y0, c0) : nullptr;
-- 
2.43.0


From 6536d7e521846eab4e0a982f3b27d9ab401b3c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 11/22] fix: compare auto_allocators with a custom base
 allocator

The comparison operators only accepted the default BaseAlloc, so arrays with an
auto_allocator of another base allocator did not compile.
---
 include/array/array.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 1fce341..f035304 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3222,8 +3222,9 @@ public:
     }
   }
 
-  template <class U, size_t U_N, size_t U_A>
-  friend bool operator==(const auto_allocator& a, const auto_allocator<U, U_N, U_A>& b) {
+  template <class U, size_t U_N, size_t U_A, class U_BaseAlloc>
+  friend bool operator==(
+      const auto_allocator& a, const auto_allocator<U, U_N, U_A, U_BaseAlloc>& b) {
     if (a.allocated || b.allocated) {
       return &a.buffer[0] == &b.buffer[0];
     } else {
@@ -3231,8 +3232,9 @@ public:
     }
   }
 
-  template <class U, size_t U_N, size_t U_A>
-  friend bool operator!=(const auto_allocator& a, const auto_allocator<U, U_N, U_A>& b) {
+  template <class U, size_t U_N, size_t U_A, class U_BaseAlloc>
+  friend bool operator!=(
+      const auto_allocator& a, const auto_allocator<U, U_N, U_A, U_BaseAlloc>& b) {
     return !(a == b);
   }
 };
-- 
2.43.0


From 0c59e9c9a9c6965e4847c71840bb8999ec9058ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:21 +0000
Subject: [PATCH 12/22] fix: propagate the allocator when assigning between
 empty arrays

---
 include/array/array.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/array/array.h b/include/array/array.h
index f035304..904b41c 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2503,6 +2503,9 @@ public:
       if (base_) {
         assert(shape_ == other.shape_);
       } else {
+        if (alloc_traits::propagate_on_container_copy_assignment::value) {
+          alloc_ = other.get_allocator();
+        }
         shape_ = other.shape_;
         assert(shape_.empty());
       }
@@ -2528,6 +2531,9 @@ public:
       if (base_) {
         assert(shape_ == other.shape_);
       } else {
+        if (alloc_traits::propagate_on_container_move_assignment::value) {
+          swap(alloc_, other.alloc_);
+        }
         swap(shape_, other.shape_);
         assert(shape_.empty());
       }
-- 
2.43.0


From bc9e7e670cab6305cf24987cdeda75e7928bd002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 13/22] fix: swap of arrays with equal allocators moves no
 elements

Without propagate_on_container_swap, swap went through a temporary with a
default constructed allocator, which moves every element if that allocator is
not equal to the arrays' allocators.
---
 include/array/array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 904b41c..96c3842 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2764,7 +2764,8 @@ public:
     } else {
       // TODO: If the shapes are equal, we could swap each element without the
       // temporary allocation.
-      array temp(std::move(other));
+      // Use other's allocator, so that if it is equal to ours no elements are moved.
+      array temp(std::move(other), other.get_allocator());
       other = std::move(*this);
       *this = std::move(temp);
     }
-- 
2.43.0


From 0b559142b921871eb43db2fd96b4e18e3082ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:26 +0000
Subject: [PATCH 14/22] fix: swapping an array with itself does not change it

An array with a constant non-empty shape was moved out of and then asserted.
---
 include/array/array.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/array/array.h b/include/array/array.h
index 96c3842..b07b97b 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2757,6 +2757,7 @@ public:
    * individual elements. */
   void swap(array& other) {
     using std::swap;
+    if (this == &other) { return; }
 
     if (alloc_traits::propagate_on_container_swap::value) {
       swap(alloc_, other.alloc_);
-- 
2.43.0


From 7905e896379f3c9531d4bc84e806ca4263299e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 15/22] fix: the shape of an array without storage is resolved

---
 include/array/array.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index b07b97b..2e9303e 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2389,10 +2389,17 @@ private:
     }
   }
 
+  // The shape of an array without storage.
+  static Shape default_shape() {
+    Shape result;
+    result.resolve();
+    return result;
+  }
+
   // Release the storage of the array without destroying any elements.
   void release() {
     base_ = nullptr;
-    shape_ = Shape();
+    shape_ = default_shape();
     alloc_traits::deallocate(alloc_, buffer_, buffer_size_);
     buffer_ = nullptr;
   }
@@ -2445,7 +2452,7 @@ public:
    * a deep copy of the contents of `other`. */
   array(const array& other)
       : alloc_(alloc_traits::select_on_container_copy_construction(other.get_allocator())),
-        buffer_(nullptr), buffer_size_(0), base_(nullptr) {
+        buffer_(nullptr), buffer_size_(0), base_(nullptr), shape_(default_shape()) {
     assign(other);
   }
 
@@ -2459,7 +2466,8 @@ public:
    * the other array becomes a default constructed array. Otherwise, each element
    * is move-constructed into a new allocation. */
   array(array&& other)
-      : alloc_(get_allocator_for_move(other)), buffer_(nullptr), buffer_size_(0), base_(nullptr) {
+      : alloc_(get_allocator_for_move(other)), buffer_(nullptr), buffer_size_(0), base_(nullptr),
+        shape_(default_shape()) {
     using std::swap;
     // If we already took other's allocator, it might be in an undefined state.
     // Just assume we can swap in that case.
@@ -2478,7 +2486,8 @@ public:
    * the allocator of this and the other array are non-equal, each element is
    * move-constructed into a new allocation. */
   array(array&& other, const Alloc& alloc)
-      : alloc_(alloc), buffer_(nullptr), buffer_size_(0), base_(nullptr) {
+      : alloc_(alloc), buffer_(nullptr), buffer_size_(0), base_(nullptr),
+        shape_(default_shape()) {
     using std::swap;
     if (alloc_ == other.get_allocator()) {
       swap_except_allocator(other);
@@ -3131,7 +3140,7 @@ array<T, NewShape, Alloc> move_reinterpret_shape(
   swap(result.buffer_size_, from.buffer_size_);
   swap(result.base_, from.base_);
   result.shape_ = new_shape;
-  from.shape_ = OldShape();
+  from.shape_ = array<T, OldShape, Alloc>::default_shape();
   result.base_ = internal::pointer_add(result.base_, offset);
 
   return result;
-- 
2.43.0


From ee99adb3d5a091a04b82a5f6cf4985f1b8b01dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:15 +0000
Subject: [PATCH 16/22] fix: move construction keeps the allocator of the
 source

---
 include/array/array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index 2e9303e..dc4554a 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2407,7 +2407,8 @@ private:
   static Alloc get_allocator_for_move(array& other, std::true_type) {
     return std::move(other.alloc_);
   }
-  static Alloc get_allocator_for_move(array& other, std::false_type) { return Alloc(); }
+  // Move construction, unlike move assignment, always takes other's allocator.
+  static Alloc get_allocator_for_move(array& other, std::false_type) { return other.alloc_; }
   static Alloc get_allocator_for_move(array& other) {
     return get_allocator_for_move(
         other, typename alloc_traits::propagate_on_container_move_assignment());
-- 
2.43.0


From 192209fd0072f3ba0ecc78c0acd8c74ace227866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:40 +0000
Subject: [PATCH 17/22] fix: the intersection of disjoint shapes is empty

---
 include/array/array.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/array/array.h b/include/array/array.h
index dc4554a..3940f8a 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -1551,7 +1551,8 @@ NDARRAY_HOST_DEVICE auto clamp_dims(const DimA& a, const DimB& b) {
   constexpr index_t Extent = static_add(static_sub(Max, Min), 1);
   index_t min = internal::max(a.min(), b.min());
   index_t max = internal::min(a.max(), b.max());
-  index_t extent = max - min + 1;
+  // If the dims are disjoint, the intersection is empty.
+  index_t extent = internal::max<index_t>(max - min + 1, 0);
   return dim<Min, Extent, DimA::Stride>(min, extent, a.stride());
 }
 
-- 
2.43.0


From 3d8cc5428194b35556daa364baacaf19b692e1f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 18/22] fix: empty arrays do not own storage

---
 include/array/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 3940f8a..06aba24 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2284,8 +2284,8 @@ private:
   void allocate(Shape shape) {
     assert(!buffer_);
     shape.resolve();
-    size_type flat_extent = shape.flat_extent();
-    if (flat_extent > 0) {
+    if (!shape.empty()) {
+      size_type flat_extent = shape.flat_extent();
       buffer_ = alloc_traits::allocate(alloc_, flat_extent);
       buffer_size_ = flat_extent;
     }
-- 
2.43.0


From f874ef30042bdbd9d175a597296d3fcbe828c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 19/22] fix: reshape arrays with compile-time constant extents

---
 include/array/array.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 06aba24..3ac899b 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2710,12 +2710,13 @@ public:
     // Allocate an array with the new shape.
     array new_array(new_shape, alloc_);
 
-    // Move the common elements to the new array.
-    Shape intersection =
+    // Move the common elements to the new array. The intersection might not be a
+    // `Shape`, e.g. if a dimension has a compile-time constant extent.
+    auto intersection =
         internal::clamp(new_shape.dims(), shape_.dims(), typename Shape::dim_indices());
     pointer intersection_base =
         internal::pointer_add(new_array.base_, new_shape[intersection.min()]);
-    copy_shape_traits_type::for_each_value(
+    copy_shape_traits<Shape, decltype(intersection)>::for_each_value(
         shape_, base_, intersection, intersection_base, internal::move_assign<T, T>);
 
     *this = std::move(new_array);
-- 
2.43.0


From 64e9ddcfe91c36805caeb983e3b289d1636443fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:19 +0000
Subject: [PATCH 20/22] fix: slices and crops of a const array are const

array::operator() and operator[] with slices or crops are const members
that returned a view through which the elements can be modified. Make
the view from the const base pointer, as cref() and element access do.
---
 include/array/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 3ac899b..84560ac 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2643,11 +2643,11 @@ public:
   }
   template <class... Args, class = enable_if_any_slices<Args...>>
   auto operator[](const std::tuple<Args...>& args) const {
-    return internal::make_array_ref_at(base_, shape_, args);
+    return internal::make_array_ref_at(base(), shape_, args);
   }
   template <class... Args, class = enable_if_any_slices<Args...>>
   auto operator()(Args... args) const {
-    return internal::make_array_ref_at(base_, shape_, std::make_tuple(args...));
+    return internal::make_array_ref_at(base(), shape_, std::make_tuple(args...));
   }
 
   /** Call a function with a reference to each value in this array. The order in
-- 
2.43.0


From a080fac22618f21fdcd8a133e2770dcaa30f2f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 21/22] fix: uninitialized_allocator asks its base which
 allocator a copy uses

---
 include/array/array.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index 84560ac..f1ea250 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -3274,11 +3274,14 @@ public:
       typename std::allocator_traits<BaseAlloc>::propagate_on_container_move_assignment;
   using propagate_on_container_swap =
       typename std::allocator_traits<BaseAlloc>::propagate_on_container_swap;
-  static uninitialized_allocator select_on_container_copy_construction(
-      const uninitialized_allocator& alloc) {
-    return std::allocator_traits<BaseAlloc>::select_on_container_copy_construction(alloc);
+  uninitialized_allocator select_on_container_copy_construction() const {
+    return uninitialized_allocator(
+        std::allocator_traits<BaseAlloc>::select_on_container_copy_construction(*this));
   }
 
+  uninitialized_allocator() = default;
+  explicit uninitialized_allocator(const BaseAlloc& alloc) : BaseAlloc(alloc) {}
+
   value_type* allocate(size_t n) { return std::allocator_traits<BaseAlloc>::allocate(*this, n); }
   void deallocate(value_type* p, size_t n) noexcept {
     return std::allocator_traits<BaseAlloc>::deallocate(*this, p, n);
-- 
2.43.0


From 3490fc1759938c354920f05016ab446371ea9414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:37 +0000
Subject: [PATCH 22/22] fix: destroy every element built before a construction
 failed

The elements built before constructing one of them throws were only
counted, and so only destroyed, when their type has a destructor that
does something. An allocator with a destroy member must see them all.
---
 include/array/array.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/include/array/array.h b/include/array/array.h
index f1ea250..f56f91b 100644
--- a/include/array/array.h
+++ b/include/array/array.h
@@ -2310,10 +2310,7 @@ private:
       if (self_) self_->undo_construct(constructed_, copy_order_);
     }
 
-    // Only the number of elements that need to be destroyed is needed.
-    void constructed() {
-      if (!std::is_trivially_destructible<T>::value) ++constructed_;
-    }
+    void constructed() { ++constructed_; }
     void done() { self_ = nullptr; }
   };
 
-- 
2.43.0

