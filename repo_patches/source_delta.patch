From 152e1523cdf84de49e7afb11b49074897b29b918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:51:15 +0000
Subject: [PATCH 01/69] fix: guard the thread pool's exception pointer with the
 queue mutex

The workers, block() and checkForException() read and wrote it without
synchronisation, a data race when a task throws.
---
 AlexandriaKernel/src/lib/ThreadPool.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/AlexandriaKernel/src/lib/ThreadPool.cpp b/AlexandriaKernel/src/lib/ThreadPool.cpp
index e1fe626..1fb1441 100644
--- a/AlexandriaKernel/src/lib/ThreadPool.cpp
+++ b/AlexandriaKernel/src/lib/ThreadPool.cpp
@@ -46,7 +46,7 @@ public:
       , m_exception_ptr(exception_ptr) {}
 
   void operator()() {
-    while (m_run_flag.get() && m_exception_ptr == nullptr) {
+    while (m_run_flag.get() && !hasException()) {
       // Check if there is anything it the queue to be done and get it
       std::unique_ptr<ThreadPool::Task> task_ptr = nullptr;
       std::unique_lock<std::mutex>      lock{m_queue_mutex.get()};
@@ -61,6 +61,8 @@ public:
         try {
           (*task_ptr)();
         } catch (...) {
+          // The exception pointer is shared between all the workers and the pool
+          std::lock_guard<std::mutex> exception_lock{m_queue_mutex.get()};
           m_exception_ptr.get() = std::current_exception();
         }
       } else {
@@ -76,6 +78,11 @@ public:
   }
 
 private:
+  bool hasException() const {
+    std::lock_guard<std::mutex> lock{m_queue_mutex.get()};
+    return m_exception_ptr.get() != nullptr;
+  }
+
   std::reference_wrapper<std::mutex>                   m_queue_mutex;
   std::reference_wrapper<std::deque<ThreadPool::Task>> m_queue;
   std::reference_wrapper<std::atomic<bool>>            m_run_flag;
@@ -115,9 +122,12 @@ void waitWorkers(std::vector<std::atomic<bool>>& worker_flags, unsigned int wait
 }  // namespace
 
 bool ThreadPool::checkForException(bool rethrow) {
-  if (m_exception_ptr) {
+  std::unique_lock<std::mutex> lock{m_queue_mutex};
+  std::exception_ptr           exception_ptr = m_exception_ptr;
+  lock.unlock();
+  if (exception_ptr) {
     if (rethrow) {
-      std::rethrow_exception(m_exception_ptr);
+      std::rethrow_exception(exception_ptr);
     } else {
       return true;
     }
@@ -144,7 +154,7 @@ size_t ThreadPool::activeThreads() const {
 void ThreadPool::block() {
   // Wait for the queue to be empty
   bool queue_is_empty = false;
-  while (!queue_is_empty && m_exception_ptr == nullptr) {
+  while (!queue_is_empty && !checkForException()) {
     std::unique_lock<std::mutex> lock{m_queue_mutex};
     queue_is_empty = m_queue.empty();
     lock.unlock();
-- 
2.43.0


From 789fb7a375ac73960ecb60403ca8294308d4ff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:36 +0000
Subject: [PATCH 02/69] fix: NdArray iterator post-increment must advance and
 return the previous position

---
 NdArray/NdArray/_impl/NdArray.icpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index 31ae36f..94226a8 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -59,7 +59,7 @@ auto NdArray<T>::Iterator<Const>::operator++() -> Iterator& {
 template <typename T>
 template <bool Const>
 auto NdArray<T>::Iterator<Const>::operator++(int) -> Iterator {
-  return Iterator{m_container_ptr, m_offset, m_row_size, m_stride, m_i + 1};
+  return Iterator{m_container_ptr, m_offset, m_row_size, m_stride, m_i++};
 }
 
 template <typename T>
-- 
2.43.0


From f66db8f5bf62a1e70d6acb9d084d309e71e85a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:36 +0000
Subject: [PATCH 03/69] fix: compute the NdArray size with 64 bits

---
 NdArray/NdArray/NdArray.h          |  2 +-
 NdArray/NdArray/_impl/NdArray.icpp | 16 ++++++++--------
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/NdArray/NdArray/NdArray.h b/NdArray/NdArray/NdArray.h
index 911444c..baee815 100644
--- a/NdArray/NdArray/NdArray.h
+++ b/NdArray/NdArray/NdArray.h
@@ -521,7 +521,7 @@ private:
 
     template <typename T2>
     auto resizeImpl(const std::vector<size_t>& shape) -> decltype((void)std::declval<Container<T2>>().resize(size_t{}), void()) {
-      auto new_size = std::accumulate(shape.begin(), shape.end(), 1u, std::multiplies<size_t>());
+      auto new_size = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
       m_container.resize(new_size);
     }
 
diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index 94226a8..8c153f5 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -30,7 +30,7 @@ NdArray<T>::Iterator<Const>::Iterator(ContainerInterface* container_ptr, size_t
                                       const std::vector<size_t>& strides, size_t start)
     : m_container_ptr(container_ptr)
     , m_offset(offset)
-    , m_row_size(std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<size_t>()))
+    , m_row_size(std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>()))
     , m_stride{strides.back()}
     , m_i{start} {}
 
@@ -151,7 +151,7 @@ template <typename T>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container(new ContainerWrapper<std::vector>(m_size)) {
   update_strides();
 }
@@ -161,7 +161,7 @@ template <template <class...> class Container>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, const Container<T>& data)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container{new ContainerWrapper<Container>(data)} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -174,7 +174,7 @@ template <template <class...> class Container>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, Container<T>&& data)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container{new ContainerWrapper<Container>(std::move(data))} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -187,7 +187,7 @@ template <typename II>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, II ibegin, II iend)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container{new ContainerWrapper<std::vector>(ibegin, iend)} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -200,7 +200,7 @@ NdArray<T>::NdArray(const self_type* other)
     : m_offset{0}
     , m_shape{other->m_shape}
     , m_attr_names{other->m_attr_names}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), 1u, std::multiplies<size_t>())}
+    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
     , m_container{other->m_container->copy()} {
   update_strides();
 }
@@ -223,7 +223,7 @@ auto NdArray<T>::reshape(const std::vector<size_t> new_shape) -> self_type& {
   if (!m_attr_names.empty())
     throw std::invalid_argument("Can not reshape arrays with attribute names");
 
-  size_t new_size = std::accumulate(new_shape.begin(), new_shape.end(), 1, std::multiplies<size_t>());
+  size_t new_size = std::accumulate(new_shape.begin(), new_shape.end(), size_t{1}, std::multiplies<size_t>());
   if (new_size != m_size) {
     throw std::range_error("New shape does not match the number of contained elements");
   }
@@ -353,7 +353,7 @@ template <typename T>
 NdArray<T>::NdArray(std::shared_ptr<ContainerInterface> container, size_t offset, std::vector<size_t> shape_,
                     std::vector<size_t> stride, std::vector<std::string> attr_names)
     : m_offset{offset}, m_shape{shape_}, m_stride_size{stride}, m_attr_names{attr_names}, m_container{container} {
-  m_size = std::accumulate(m_shape.begin(), m_shape.end(), 1, std::multiplies<size_t>());
+  m_size = std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>());
 }
 
 template <typename T>
-- 
2.43.0


From 4ea2d302626d55ffafc6c3c90b2d155a2834f2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:36 +0000
Subject: [PATCH 04/69] fix: the deep copy of a NdArray slice must copy the
 slice, not the start of the whole array

---
 NdArray/NdArray/NdArray.h          | 7 -------
 NdArray/NdArray/_impl/NdArray.icpp | 5 ++++-
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/NdArray/NdArray/NdArray.h b/NdArray/NdArray/NdArray.h
index baee815..3588284 100644
--- a/NdArray/NdArray/NdArray.h
+++ b/NdArray/NdArray/NdArray.h
@@ -488,9 +488,6 @@ private:
 
     /// Resize container
     virtual void resize(const std::vector<size_t>& shape) = 0;
-
-    /// Expected to generate a deep copy of the underlying data
-    virtual std::unique_ptr<ContainerInterface> copy() const = 0;
   };
 
   template <template <class...> class Container>
@@ -536,10 +533,6 @@ private:
       resizeImpl<T>(shape);
       m_data_ptr = m_container.data();
     }
-
-    std::unique_ptr<ContainerInterface> copy() const final {
-      return Euclid::make_unique<ContainerWrapper>(m_container);
-    }
   };
 
   std::shared_ptr<ContainerInterface> m_container;
diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index 8c153f5..a054633 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -201,7 +201,10 @@ NdArray<T>::NdArray(const self_type* other)
     , m_shape{other->m_shape}
     , m_attr_names{other->m_attr_names}
     , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
-    , m_container{other->m_container->copy()} {
+    , m_container{new ContainerWrapper<std::vector>(m_size)} {
+  // The other may be a view, so only what it can see is copied
+  const_iterator iter = other->begin();
+  std::copy(iter, iter + m_size, m_container->m_data_ptr);
   update_strides();
 }
 
-- 
2.43.0


From 6808848671de63838eea57750a0b42a87cf725c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:36 +0000
Subject: [PATCH 05/69] fix: reshape of a NdArray sliced along the last axis
 must keep its stride

---
 NdArray/NdArray/_impl/NdArray.icpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index a054633..0cc7391 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -230,8 +230,13 @@ auto NdArray<T>::reshape(const std::vector<size_t> new_shape) -> self_type& {
   if (new_size != m_size) {
     throw std::range_error("New shape does not match the number of contained elements");
   }
-  m_shape = new_shape;
+  // On a slice along the last axis the elements are not contiguous
+  auto inner_stride = m_stride_size.empty() ? 1 : m_stride_size.back();
+  m_shape           = new_shape;
   update_strides();
+  for (auto& stride : m_stride_size) {
+    stride *= inner_stride;
+  }
   return *this;
 }
 
-- 
2.43.0


From 11ec26e45d604c6a17f5984a00f7a9a615b8ce61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:58:36 +0000
Subject: [PATCH 06/69] fix: attribute names of NdArray slices follow the last
 axis

---
 NdArray/NdArray/_impl/NdArray.icpp | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index 0cc7391..d0d0c7a 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -372,11 +372,8 @@ auto NdArray<T>::slice(size_t i) -> self_type {
   if (i >= m_shape[0]) {
     throw std::out_of_range("Axis 0 out of range");
   }
-  std::vector<std::string> attrs;
-  if (!m_attr_names.empty()) {
-    attrs.resize(m_attr_names.size() - 1);
-    std::copy(m_attr_names.begin() + 1, m_attr_names.end(), attrs.begin());
-  }
+  // The attribute names belong to the last axis, which remains
+  std::vector<std::string> attrs(m_attr_names);
   auto                offset = m_offset + i * m_stride_size[0];
   std::vector<size_t> stride_(m_stride_size.begin() + 1, m_stride_size.end());
   std::vector<size_t> shape_(m_shape.begin() + 1, m_shape.end());
@@ -396,11 +393,8 @@ auto NdArray<T>::rslice(size_t i) -> self_type {
   if (i >= m_shape.back()) {
     throw std::out_of_range("Axis -1 out of range");
   }
+  // The attribute names belong to the last axis, which is gone
   std::vector<std::string> attrs;
-  if (!m_attr_names.empty()) {
-    attrs.resize(m_attr_names.size() - 1);
-    std::copy(m_attr_names.begin(), m_attr_names.end() - 1, attrs.begin());
-  }
   auto                offset = m_offset + i * m_stride_size.back();
   std::vector<size_t> strides_(m_stride_size.begin(), m_stride_size.end() - 1);
   std::vector<size_t> shape_(m_shape.begin(), m_shape.end() - 1);
-- 
2.43.0


From dcd8ee29a4262412da0eeaf070198e8c972f07a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:38 +0000
Subject: [PATCH 07/69] fix: unravel_index must reject any index of an empty
 shape instead of dividing by zero

---
 NdArray/src/Operations.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/NdArray/src/Operations.cpp b/NdArray/src/Operations.cpp
index 8155991..36ad3ca 100644
--- a/NdArray/src/Operations.cpp
+++ b/NdArray/src/Operations.cpp
@@ -27,6 +27,9 @@ std::vector<std::size_t> unravel_index(std::size_t index, const std::vector<std:
   do {
     --i;
     std::size_t stride = shape[i];
+    if (stride == 0) {
+      throw std::out_of_range("Index out of bounds");
+    }
     coords[i]          = index % stride;
     index /= stride;
   } while (i > 0);
-- 
2.43.0


From 428b73984c2db65307f49dec75fce302043e228c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:38 +0000
Subject: [PATCH 08/69] fix: accept the 8 bits integer types as numpy writes
 them

---
 NdArray/NdArray/io/_impl/NpyCommon.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 43f176d..5d24fcb 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -107,8 +107,17 @@ struct NpyDtype<double> {
  * Parse a single dtype description (i.e. '<f8')
  */
 inline void parseSingleValue(const std::string& descr, bool& big_endian, std::string& dtype) {
+  if (descr.empty()) {
+    throw Elements::Exception() << "Empty data type description";
+  }
   big_endian = (descr.front() == '>');
   dtype      = descr.substr(1);
+  // numpy writes the 8 bits integers as |i1 and |u1
+  if (dtype == "i1") {
+    dtype = NpyDtype<int8_t>::str;
+  } else if (dtype == "u1") {
+    dtype = NpyDtype<uint8_t>::str;
+  }
 }
 
 /**
-- 
2.43.0


From 6667d02e198c102997b765e8f8fb57dca2a98488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:01:38 +0000
Subject: [PATCH 09/69] fix: look for the keys of the npy header instead of for
 any text, and reject malformed headers

---
 NdArray/NdArray/io/_impl/NpyCommon.h | 47 +++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 5d24fcb..e3c9f06 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -152,6 +152,23 @@ inline void parseFieldValues(const std::string& descr, bool& big_endian, std::ve
   }
 }
 
+/**
+ * Find the position of the value that corresponds to the given key on the dictionary serialized on the npy file
+ * @throws Elements::Exception
+ *  If the key is not found
+ */
+inline size_t findNpyValue(const std::string& header, const std::string& key) {
+  auto quoted_key = "'" + key + "':";
+  auto loc        = header.find(quoted_key);
+  if (loc != std::string::npos) {
+    loc = header.find_first_not_of(' ', loc + quoted_key.size());
+  }
+  if (loc == std::string::npos) {
+    throw Elements::Exception() << "Failed to find " << key << " on the array header: " << header;
+  }
+  return loc;
+}
+
 /**
  * Parse the dictionary serialized on the npy file
  * @param header
@@ -171,27 +188,41 @@ inline void parseFieldValues(const std::string& descr, bool& big_endian, std::ve
  */
 inline void parseNpyDict(const std::string& header, bool& fortran_order, bool& big_endian, std::string& dtype,
                          std::vector<size_t>& shape, std::vector<std::string>& attrs, size_t& n_elements) {
-  auto loc      = header.find("fortran_order") + 16;
+  auto loc      = findNpyValue(header, "fortran_order");
   fortran_order = (header.substr(loc, 4) == "True");
 
-  loc = header.find("descr") + 8;
+  loc = findNpyValue(header, "descr");
 
   if (header[loc] == '\'') {
     auto end = header.find('\'', loc + 1);
+    if (end == std::string::npos) {
+      throw Elements::Exception() << "Failed to parse the array description: " << header;
+    }
     parseSingleValue(header.substr(loc + 1, end - loc - 1), big_endian, dtype);
   } else if (header[loc] == '[') {
-    auto end = header.find(']', loc + 1);
+    // The names of the fields can contain a closing bracket
+    auto end = header.rfind(']');
+    if (end == std::string::npos || end < loc) {
+      throw Elements::Exception() << "Failed to parse the array description: " << header;
+    }
     parseFieldValues(header.substr(loc + 1, end - loc - 1), big_endian, attrs, dtype);
   } else {
     throw Elements::Exception() << "Failed to parse the array description: " << header;
   }
 
-  loc            = header.find("shape") + 9;
-  auto loc2      = header.find(')', loc);
-  auto shape_str = header.substr(loc, loc2 - loc);
-  if (shape_str.back() == ',')
+  loc       = findNpyValue(header, "shape");
+  auto loc2 = header.find(')', loc);
+  if (header[loc] != '(' || loc2 == std::string::npos) {
+    throw Elements::Exception() << "Failed to parse the array shape: " << header;
+  }
+  auto shape_str = header.substr(loc + 1, loc2 - loc - 1);
+  if (!shape_str.empty() && shape_str.back() == ',')
     shape_str.resize(shape_str.size() - 1);
-  shape      = stringToVector<size_t>(shape_str);
+  if (!shape_str.empty())
+    shape = stringToVector<size_t>(shape_str);
+  if (shape.empty() && attrs.empty()) {
+    throw Elements::Exception() << "Zero dimensional arrays are not supported";
+  }
   n_elements = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<size_t>());
 }
 
-- 
2.43.0


From cbc124a70b4c3c4d2f1d47ad03cf9babe2d5b4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:07 +0000
Subject: [PATCH 10/69] fix: reject truncated npy files instead of making up
 the missing data

---
 NdArray/NdArray/io/_impl/NpyCommon.h    | 14 +++++++++++---
 NdArray/NdArray/io/_impl/NpyMmap.icpp   |  9 ++++++++-
 NdArray/NdArray/io/_impl/NpyReader.icpp |  5 ++++-
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index e3c9f06..82b1dff 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -223,7 +223,7 @@ inline void parseNpyDict(const std::string& header, bool& fortran_order, bool& b
   if (shape.empty() && attrs.empty()) {
     throw Elements::Exception() << "Zero dimensional arrays are not supported";
   }
-  n_elements = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<size_t>());
+  n_elements = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
 }
 
 /**
@@ -245,7 +245,7 @@ inline void readNpyHeader(std::istream& input, std::string& dtype, std::vector<s
   // Magic
   char magic[6];
   input.read(magic, sizeof(magic));
-  if (std::memcmp(magic, NPY_MAGIC, sizeof(NPY_MAGIC)) != 0) {
+  if (!input || std::memcmp(magic, NPY_MAGIC, sizeof(NPY_MAGIC)) != 0) {
     throw Elements::Exception() << "Unexpected magic sequence";
   }
 
@@ -253,7 +253,9 @@ inline void readNpyHeader(std::istream& input, std::string& dtype, std::vector<s
   little_uint32_t header_len;
   little_uint16_t version;
   input.read(reinterpret_cast<char*>(&version), sizeof(version));
-  if (version > 30) {
+  if (!input) {
+    throw Elements::Exception() << "Truncated numpy header";
+  } else if (version > 30) {
     throw Elements::Exception() << "Only numpy arrays with version 3 or less are supported";
   } else if (version.data()[0] == 1) {
     // 16 bits integer in little endian
@@ -266,8 +268,14 @@ inline void readNpyHeader(std::istream& input, std::string& dtype, std::vector<s
   }
 
   // Read header
+  if (!input) {
+    throw Elements::Exception() << "Truncated numpy header";
+  }
   std::string header(header_len, '\0');
   input.read(&header[0], header_len);
+  if (!input) {
+    throw Elements::Exception() << "Truncated numpy header";
+  }
 
   // Parse header
   bool fortran_order, big_endian;
diff --git a/NdArray/NdArray/io/_impl/NpyMmap.icpp b/NdArray/NdArray/io/_impl/NpyMmap.icpp
index c7b34dc..3c46bf7 100644
--- a/NdArray/NdArray/io/_impl/NpyMmap.icpp
+++ b/NdArray/NdArray/io/_impl/NpyMmap.icpp
@@ -55,7 +55,14 @@ NdArray<T> mmapNpy(const boost::filesystem::path& path, boost::iostreams::mapped
     n_elements *= attrs.size();
   }
 
-  return {shape, attrs, std::move(MappedContainer<T>(path, stream.tellg(), n_elements, attrs, std::move(input), max_size))};
+  // Nothing can be mapped beyond the end of the file
+  size_t data_offset = stream.tellg();
+  size_t file_size   = boost::filesystem::file_size(path);
+  if (data_offset > file_size || n_elements > (file_size - data_offset) / sizeof(T)) {
+    throw Elements::Exception() << "Truncated numpy data";
+  }
+
+  return {shape, attrs, std::move(MappedContainer<T>(path, data_offset, n_elements, attrs, std::move(input), max_size))};
 }
 
 template <typename T>
diff --git a/NdArray/NdArray/io/_impl/NpyReader.icpp b/NdArray/NdArray/io/_impl/NpyReader.icpp
index b76c2e0..b2b73ef 100644
--- a/NdArray/NdArray/io/_impl/NpyReader.icpp
+++ b/NdArray/NdArray/io/_impl/NpyReader.icpp
@@ -46,7 +46,10 @@ NdArray<T> readNpy(std::istream& input) {
   }
 
   std::vector<T> data(n_elements);
-  input.read(reinterpret_cast<char*>(&data[0]), sizeof(T) * data.size());
+  input.read(reinterpret_cast<char*>(data.data()), sizeof(T) * data.size());
+  if (!input) {
+    throw Elements::Exception() << "Truncated numpy data";
+  }
   return {shape, attr_names, std::move(data)};
 }
 
-- 
2.43.0


From 42c3c37670901e0cb2415ca9bd461bc030fc7070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:07 +0000
Subject: [PATCH 11/69] fix: a rejected resize of a mapped npy file must leave
 its size unchanged

---
 NdArray/NdArray/io/_impl/NpyCommon.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 82b1dff..55100dd 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -401,13 +401,14 @@ public:
                                      "The new header length must match the allocated space.";
     }
 
-    m_n_elements    = std::accumulate(shape.begin(), shape.end(), 1u, std::multiplies<size_t>());
-    size_t new_size = header_size + sizeof(T) * m_n_elements;
+    size_t n_elements = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
+    size_t new_size   = header_size + sizeof(T) * n_elements;
     if (new_size > m_max_size) {
       throw Elements::Exception() << "resize request bigger than maximum allocated size: " << new_size << " > " << m_max_size;
     }
     boost::filesystem::resize_file(m_path, new_size);
     std::copy(header_str.begin(), header_str.end(), m_mapped.data());
+    m_n_elements = n_elements;
   }
 
 private:
-- 
2.43.0


From 9322d94d3085e72f8e6f5a0d5c020ff2f2d2be6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:07 +0000
Subject: [PATCH 12/69] fix: compute the size of mapped npy files with 64 bits

---
 NdArray/NdArray/io/_impl/NpyMmap.icpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/NdArray/NdArray/io/_impl/NpyMmap.icpp b/NdArray/NdArray/io/_impl/NpyMmap.icpp
index 3c46bf7..397e95e 100644
--- a/NdArray/NdArray/io/_impl/NpyMmap.icpp
+++ b/NdArray/NdArray/io/_impl/NpyMmap.icpp
@@ -77,7 +77,7 @@ NdArray<T> createMmapNpy(const boost::filesystem::path& path, const std::vector<
   assert(header_size % 64 == 0);
 
   // Compute file expected size
-  size_t n_elements = std::accumulate(shape.begin(), shape.end(), 1, std::multiplies<size_t>());
+  size_t n_elements = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
   if (!attrs.empty())
     n_elements *= attrs.size();
   size_t data_size  = n_elements * sizeof(T);
-- 
2.43.0


From 98580d0196877069f8554b3b6ffe755c58243556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:08:22 +0000
Subject: [PATCH 13/69] fix: npy files can be mapped read-only

---
 NdArray/NdArray/io/_impl/NpyCommon.h  | 3 ++-
 NdArray/NdArray/io/_impl/NpyMmap.icpp | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 55100dd..7bf56d2 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -379,7 +379,8 @@ public:
       , m_max_size(max_size)
       , m_attr_names(attr_names)
       , m_mapped(std::move(input))
-      , m_data(reinterpret_cast<T*>(m_mapped.data() + data_offset)) {}
+      // data() is null for files mapped as read-only
+      , m_data(reinterpret_cast<T*>(const_cast<char*>(m_mapped.const_data()) + data_offset)) {}
 
   size_t size() const {
     return m_n_elements;
diff --git a/NdArray/NdArray/io/_impl/NpyMmap.icpp b/NdArray/NdArray/io/_impl/NpyMmap.icpp
index 397e95e..020257c 100644
--- a/NdArray/NdArray/io/_impl/NpyMmap.icpp
+++ b/NdArray/NdArray/io/_impl/NpyMmap.icpp
@@ -20,13 +20,14 @@
 
 #include "NpyCommon.h"
 #include <boost/filesystem/path.hpp>
+#include <boost/iostreams/device/array.hpp>
 #include <boost/iostreams/stream.hpp>
 #include <numeric>
 
 namespace Euclid {
 namespace NdArray {
 
-typedef boost::iostreams::stream<boost::iostreams::mapped_file> MappedStream;
+typedef boost::iostreams::stream<boost::iostreams::array_source> MappedStream;
 
 template <typename T>
 NdArray<T> mmapNpy(const boost::filesystem::path& path, boost::iostreams::mapped_file_base::mapmode mode, size_t max_size) {
@@ -44,8 +45,7 @@ NdArray<T> mmapNpy(const boost::filesystem::path& path, boost::iostreams::mapped
     max_size = boost::filesystem::file_size(path);
 
   boost::iostreams::mapped_file input(map_params);
-  MappedStream                  stream(input);
-  stream.set_auto_close(false);
+  MappedStream                  stream(input.const_data(), input.size());
   readNpyHeader(stream, dtype, shape, attrs, n_elements);
 
   if (dtype != NpyDtype<T>::str)
-- 
2.43.0


From f20a893072d0f06ae803b239486d1cece045b009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:10 +0000
Subject: [PATCH 14/69] fix: reject npy field descriptions without any field

---
 NdArray/NdArray/io/_impl/NpyCommon.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 7bf56d2..9126d45 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -150,6 +150,10 @@ inline void parseFieldValues(const std::string& descr, bool& big_endian, std::ve
 
     start = match[0].second;
   }
+
+  if (attrs.empty()) {
+    throw Elements::Exception() << "Failed to parse the fields of the array description: " << descr;
+  }
 }
 
 /**
-- 
2.43.0


From bf3d5c0a9b6f92c352ed1297af576873f47c42f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 15/69] fix: the try modes of the file handler must not lock
 twice when they succeed

---
 FilePool/FilePool/_impl/FileHandler.icpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index 8e7324c..c2531eb 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -29,8 +29,10 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
   assert(manager);
 
   UniqueLock unique_lock(m_file_mutex, boost::defer_lock);
-  if (try_lock && !unique_lock.try_lock()) {
-    return nullptr;
+  if (try_lock) {
+    if (!unique_lock.try_lock()) {
+      return nullptr;
+    }
   } else {
     unique_lock.lock();
   }
@@ -87,8 +89,10 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
   assert(manager);
 
   SharedLock shared_lock(m_file_mutex, boost::defer_lock);
-  if (try_lock && !shared_lock.try_lock()) {
-    return nullptr;
+  if (try_lock) {
+    if (!shared_lock.try_lock()) {
+      return nullptr;
+    }
   } else {
     shared_lock.lock();
   }
-- 
2.43.0


From 4478ac069ea23e185c5566e74315a014b3b3f2ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 16/69] fix: close the idle descriptor of another type when a
 file is opened for writing

---
 FilePool/FilePool/_impl/FileHandler.icpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index c2531eb..b64cf12 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -54,6 +54,7 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
   if (!m_available_fd.empty()) {
     auto typed_ptr = dynamic_cast<TypedFdWrapper<TFD>*>(m_available_fd.begin()->second.get());
     if (!typed_ptr) {
+      m_available_fd.begin()->second->close();
       m_available_fd.clear();
     }
   }
-- 
2.43.0


From a6eabd85f7f023d8d9e10eed9e7c7af1142e43e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 17/69] fix: do not hold the lock of the file handler while
 asking the manager to open a file

---
 FilePool/FilePool/_impl/FileHandler.icpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index b64cf12..ca8e312 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -37,7 +37,7 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
     unique_lock.lock();
   }
 
-  std::lock_guard<std::mutex> this_lock(m_handler_mutex);
+  std::unique_lock<std::mutex> this_lock(m_handler_mutex);
 
   // If we have changed mode, we need to close all existing fd
   if (m_is_readonly) {
@@ -61,7 +61,10 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
 
   // Open one file if we need
   if (m_available_fd.empty()) {
+    // The manager may need to close descriptors, from this or from other handlers, so it must not be called with the lock
+    this_lock.unlock();
     auto fd = manager->open<TFD>(m_path, true, [this](FileManager::FileId id) { return this->close(id); });
+    this_lock.lock();
     m_available_fd[fd.first] =
         std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager.get()));
   }
@@ -98,7 +101,7 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
     shared_lock.lock();
   }
 
-  std::lock_guard<std::mutex> this_lock(m_handler_mutex);
+  std::unique_lock<std::mutex> this_lock(m_handler_mutex);
 
   // If we have changed mode, we need to close all existing fd
   if (!m_is_readonly) {
@@ -119,7 +122,10 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
 
   // Open one file if we need
   if (!typed_ptr) {
-    auto fd   = manager->open<TFD>(m_path, false, [this](FileManager::FileId id) { return this->close(id); });
+    // The manager may need to close descriptors, from this or from other handlers, so it must not be called with the lock
+    this_lock.unlock();
+    auto fd = manager->open<TFD>(m_path, false, [this](FileManager::FileId id) { return this->close(id); });
+    this_lock.lock();
     typed_ptr = new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager.get());
     avail_i   = m_available_fd.emplace(fd.first, std::unique_ptr<TypedFdWrapper<TFD>>(typed_ptr)).first;
   }
-- 
2.43.0


From 32d556ea6ba5a2cbf6b4110950741c081de2bd5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 18/69] fix: the end of a file handler must not unregister a
 newer handler of the same file

---
 FilePool/src/lib/FileManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/FilePool/src/lib/FileManager.cpp b/FilePool/src/lib/FileManager.cpp
index 461b6d1..c760f34 100644
--- a/FilePool/src/lib/FileManager.cpp
+++ b/FilePool/src/lib/FileManager.cpp
@@ -106,7 +106,11 @@ std::shared_ptr<FileHandler> FileManager::getFileHandler(const boost::filesystem
         auto this_shared = this_weak.lock();
         if (this_shared) {
           std::lock_guard<std::mutex> manager_lock(this_shared->m_mutex);
-          this_shared->m_handlers.erase(canonical);
+          // There may be already a new handler for the same path
+          auto iter = this_shared->m_handlers.find(canonical);
+          if (iter != this_shared->m_handlers.end() && iter->second.expired()) {
+            this_shared->m_handlers.erase(iter);
+          }
         }
       }
       delete obj;
-- 
2.43.0


From f879af7c04f7020339342000d65fd01320f1b339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 19/69] fix: the list of open files can change while one is
 being closed to make room

---
 FilePool/src/lib/LRUFileManager.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/FilePool/src/lib/LRUFileManager.cpp b/FilePool/src/lib/LRUFileManager.cpp
index 611bc3f..3db9ea2 100644
--- a/FilePool/src/lib/LRUFileManager.cpp
+++ b/FilePool/src/lib/LRUFileManager.cpp
@@ -19,6 +19,7 @@
 #include "FilePool/LRUFileManager.h"
 #include "ElementsKernel/Exception.h"
 #include <sys/resource.h>
+#include <vector>
 
 namespace Euclid {
 namespace FilePool {
@@ -41,17 +42,20 @@ void LRUFileManager::notifyIntentToOpen(bool /*write*/) {
 
   while (m_files.size() >= m_limit) {
     bool closed = false;
-    for (auto& id : m_sorted_ids) {
-      auto& meta       = m_files[id];
-      auto  close_call = meta->m_request_close;
+    // Files can be opened and closed while the lock is released, so iterate over a copy
+    std::vector<FileId> candidates(m_sorted_ids.begin(), m_sorted_ids.end());
+    for (auto& id : candidates) {
+      auto file_iter = m_files.find(id);
+      if (file_iter == m_files.end())
+        continue;
+      auto close_call = file_iter->second->m_request_close;
       lock.unlock();
       closed = close_call();
       lock.lock();
-      // If the file was closed, the iterator on m_sorted_ids has been invalidated!
       if (closed)
         break;
     }
-    if (!closed) {
+    if (!closed && m_files.size() >= m_limit) {
       throw Elements::Exception() << "Limit reached and failed to close any existing file descriptor";
     }
   }
@@ -91,10 +95,12 @@ unsigned int LRUFileManager::getLimit() const {
 }
 
 unsigned int LRUFileManager::getUsed() const {
+  std::lock_guard<std::mutex> lock(m_mutex);
   return m_sorted_ids.size();
 }
 
 unsigned int LRUFileManager::getAvailable() const {
+  std::lock_guard<std::mutex> lock(m_mutex);
   return m_limit - m_sorted_ids.size();
 }
 
-- 
2.43.0


From edcbb645b20a28a5b5bcc3f49ace45033ed0b78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:33 +0000
Subject: [PATCH 20/69] fix: concurrent opens must not exceed the limit of open
 files

---
 FilePool/FilePool/FileManager.h          | 3 +++
 FilePool/FilePool/_impl/FileManager.icpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/FilePool/FilePool/FileManager.h b/FilePool/FilePool/FileManager.h
index 4e3f8fe..aa81752 100644
--- a/FilePool/FilePool/FileManager.h
+++ b/FilePool/FilePool/FileManager.h
@@ -157,6 +157,9 @@ protected:
 
   mutable std::mutex m_mutex;
 
+  /// Only one file is opened at a time
+  std::mutex m_open_mutex;
+
   /**
    * Map path / handler
    * @details
diff --git a/FilePool/FilePool/_impl/FileManager.icpp b/FilePool/FilePool/_impl/FileManager.icpp
index 7705ab3..6d2600b 100644
--- a/FilePool/FilePool/_impl/FileManager.icpp
+++ b/FilePool/FilePool/_impl/FileManager.icpp
@@ -41,6 +41,9 @@ struct FileManager::FileMetadata {
 template <typename TFD>
 auto FileManager::open(const boost::filesystem::path& path, bool write, std::function<bool(FileId)> request_close)
     -> std::pair<FileId, TFD> {
+  // Otherwise two threads could be granted the same last available slot
+  std::lock_guard<std::mutex> open_lock(m_open_mutex);
+
   notifyIntentToOpen(write);
 
   auto   meta           = Euclid::make_unique<FileMetadata>(path, write);
-- 
2.43.0


From a182024abd9f92f4bc4001399673769959b1a29b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:30:17 +0000
Subject: [PATCH 21/69] fix: file accessors keep their handler alive, and the
 manager does not call handlers that are gone

---
 FilePool/FilePool/FileHandler.h          |  8 +++++++-
 FilePool/FilePool/_impl/FileHandler.icpp | 20 ++++++++++++--------
 FilePool/src/lib/FileHandler.cpp         |  8 ++++++++
 3 files changed, 27 insertions(+), 9 deletions(-)

diff --git a/FilePool/FilePool/FileHandler.h b/FilePool/FilePool/FileHandler.h
index 00a5dd7..5fe7bba 100644
--- a/FilePool/FilePool/FileHandler.h
+++ b/FilePool/FilePool/FileHandler.h
@@ -36,7 +36,7 @@ namespace FilePool {
  * not* close a file being accessed, so it should just refuse to do so and let the FileManager
  * figure it out.
  */
-class FileHandler {
+class FileHandler : public std::enable_shared_from_this<FileHandler> {
 public:
   /// Open modes
   enum Mode { kRead = 0, kWrite = 1, kTry = 2, kTryRead = kTry, kTryWrite = kTry | kWrite };
@@ -113,6 +113,12 @@ private:
    */
   bool close(FileManager::FileId id);
 
+  /**
+   * @return
+   *    A callable that requests the closing of a file descriptor, and that is safe to use after this handler is gone
+   */
+  std::function<bool(FileManager::FileId)> closeCallback();
+
   template <typename TFD>
   std::unique_ptr<FileAccessor<TFD>> getWriteAccessor(bool try_lock);
 
diff --git a/FilePool/FilePool/_impl/FileHandler.icpp b/FilePool/FilePool/_impl/FileHandler.icpp
index ca8e312..b5a6dc2 100644
--- a/FilePool/FilePool/_impl/FileHandler.icpp
+++ b/FilePool/FilePool/_impl/FileHandler.icpp
@@ -63,7 +63,7 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
   if (m_available_fd.empty()) {
     // The manager may need to close descriptors, from this or from other handlers, so it must not be called with the lock
     this_lock.unlock();
-    auto fd = manager->open<TFD>(m_path, true, [this](FileManager::FileId id) { return this->close(id); });
+    auto fd = manager->open<TFD>(m_path, true, closeCallback());
     this_lock.lock();
     m_available_fd[fd.first] =
         std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager.get()));
@@ -77,9 +77,11 @@ auto FileHandler::getWriteAccessor(bool try_lock) -> std::unique_ptr<FileAccesso
   auto id        = typed_ptr->m_id;
   m_available_fd.clear();
 
-  auto return_callback = [this, id, manager](TFD&& returned_fd) {
-    std::lock_guard<std::mutex> lambda_this_lock(m_handler_mutex);
-    m_available_fd[id] = std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(id, std::move(returned_fd), manager.get()));
+  // The accessor keeps the handler alive
+  auto self            = shared_from_this();
+  auto return_callback = [self, id, manager](TFD&& returned_fd) {
+    std::lock_guard<std::mutex> lambda_this_lock(self->m_handler_mutex);
+    self->m_available_fd[id] = std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(id, std::move(returned_fd), manager.get()));
   };
 
   manager->notifyUsed(id);
@@ -124,7 +126,7 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
   if (!typed_ptr) {
     // The manager may need to close descriptors, from this or from other handlers, so it must not be called with the lock
     this_lock.unlock();
-    auto fd = manager->open<TFD>(m_path, false, [this](FileManager::FileId id) { return this->close(id); });
+    auto fd = manager->open<TFD>(m_path, false, closeCallback());
     this_lock.lock();
     typed_ptr = new TypedFdWrapper<TFD>(fd.first, std::move(fd.second), manager.get());
     avail_i   = m_available_fd.emplace(fd.first, std::unique_ptr<TypedFdWrapper<TFD>>(typed_ptr)).first;
@@ -137,9 +139,11 @@ auto FileHandler::getReadAccessor(bool try_lock) -> std::unique_ptr<FileAccessor
   auto id = typed_ptr->m_id;
   m_available_fd.erase(avail_i);
 
-  auto return_callback = [this, id, manager](TFD&& returned_fd) {
-    std::lock_guard<std::mutex> lambda_this_lock(m_handler_mutex);
-    m_available_fd[id] = std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(id, std::move(returned_fd), manager.get()));
+  // The accessor keeps the handler alive
+  auto self            = shared_from_this();
+  auto return_callback = [self, id, manager](TFD&& returned_fd) {
+    std::lock_guard<std::mutex> lambda_this_lock(self->m_handler_mutex);
+    self->m_available_fd[id] = std::unique_ptr<TypedFdWrapper<TFD>>(new TypedFdWrapper<TFD>(id, std::move(returned_fd), manager.get()));
   };
 
   manager->notifyUsed(id);
diff --git a/FilePool/src/lib/FileHandler.cpp b/FilePool/src/lib/FileHandler.cpp
index 7f121da..fd8fb9b 100644
--- a/FilePool/src/lib/FileHandler.cpp
+++ b/FilePool/src/lib/FileHandler.cpp
@@ -44,5 +44,13 @@ bool FileHandler::close(FileManager::FileId id) {
   return true;
 }
 
+std::function<bool(FileManager::FileId)> FileHandler::closeCallback() {
+  std::weak_ptr<FileHandler> self_weak = shared_from_this();
+  return [self_weak](FileManager::FileId id) -> bool {
+    auto self = self_weak.lock();
+    return self && self->close(id);
+  };
+}
+
 }  // namespace FilePool
 }  // namespace Euclid
-- 
2.43.0


From 7cad6c9b6432cfb1bab00b162e379a57321ed701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:02 +0000
Subject: [PATCH 22/69] fix: a slice of a grid slice must keep the axes that
 were already fixed

---
 GridContainer/GridContainer/_impl/GridContainer.icpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/GridContainer/GridContainer/_impl/GridContainer.icpp b/GridContainer/GridContainer/_impl/GridContainer.icpp
index 2c8e7ca..59f378d 100644
--- a/GridContainer/GridContainer/_impl/GridContainer.icpp
+++ b/GridContainer/GridContainer/_impl/GridContainer.icpp
@@ -46,7 +46,7 @@ template <typename GridCellManager, typename... AxesTypes>
 GridContainer<GridCellManager, AxesTypes...>::GridContainer(const GridContainer<GridCellManager, AxesTypes...>& other, size_t axis,
                                                             size_t index)
     : m_axes{other.m_axes}
-    , m_axes_fixed{fixAxis(other.m_axes, axis, index)}
+    , m_axes_fixed{other.m_axes_fixed}
     , m_fixed_indices{other.m_fixed_indices}
     , m_cell_manager{other.m_cell_manager} {
   // Update the fixed indices
@@ -54,6 +54,9 @@ GridContainer<GridCellManager, AxesTypes...>::GridContainer(const GridContainer<
     throw Elements::Exception() << "Axis " << axis << " is already fixed";
   }
   m_fixed_indices[axis] = index;
+  // The axes of a slice of a slice are all the ones fixed so far
+  m_axes_fixed         = fixAxis(other.m_axes_fixed, axis, index);
+  m_index_helper_fixed = GridIndexHelper<AxesTypes...>{m_axes_fixed};
 }
 
 template <typename GridCellManager, typename... AxesTypes>
-- 
2.43.0


From dce962ec0528966d9d0bb1b45008f4feafbd303a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:02 +0000
Subject: [PATCH 23/69] fix: the infimum of a grid with a single axis must
 return an index

---
 GridContainer/GridContainer/_impl/GridContainer.icpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/GridContainer/GridContainer/_impl/GridContainer.icpp b/GridContainer/GridContainer/_impl/GridContainer.icpp
index 59f378d..c7c9477 100644
--- a/GridContainer/GridContainer/_impl/GridContainer.icpp
+++ b/GridContainer/GridContainer/_impl/GridContainer.icpp
@@ -187,7 +187,8 @@ struct InfimumHelper<0> {
 
   template <typename... AxesType>
   static std::tuple<std::size_t> getIndex(const std::tuple<AxesType...>& coords, const std::tuple<GridAxis<AxesType>...>& axes) {
-    auto i0 = std::get<0>(axes).infimum(std::get<0>(coords));
+    auto&       ax0 = std::get<0>(axes);
+    std::size_t i0  = ax0.infimum(std::get<0>(coords)) - ax0.begin();
     return std::make_tuple(i0);
   }
 
-- 
2.43.0


From 8cb37fe92daa328673468621d43dfb9294beaa6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:02 +0000
Subject: [PATCH 24/69] fix: the infimum of a grid slice must be a valid index
 of the slice

---
 GridContainer/GridContainer/_impl/GridContainer.icpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/GridContainer/GridContainer/_impl/GridContainer.icpp b/GridContainer/GridContainer/_impl/GridContainer.icpp
index c7c9477..a93b0f2 100644
--- a/GridContainer/GridContainer/_impl/GridContainer.icpp
+++ b/GridContainer/GridContainer/_impl/GridContainer.icpp
@@ -209,7 +209,7 @@ auto GridContainer<GridCellManager, AxesTypes...>::infimum(const AxesTypes... co
 template <typename GridCellManager, typename... AxesTypes>
 auto GridContainer<GridCellManager, AxesTypes...>::infimum(const std::tuple<AxesTypes...>& coords) const
     -> std::tuple<decltype(std::declval<GridAxis<AxesTypes>>().size())...> {
-  return InfimumHelper<sizeof...(AxesTypes) - 1>::getIndex(coords, m_axes);
+  return InfimumHelper<sizeof...(AxesTypes) - 1>::getIndex(coords, m_axes_fixed);
 }
 
 template <typename GridCellManager, typename... AxesTypes>
-- 
2.43.0


From 9ee8218c3eb2b6575bb26fe72c317910824dff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:03:02 +0000
Subject: [PATCH 25/69] fix: fixing an axis of a grid iterator must move to the
 first cell that has the index, or to the end

---
 GridContainer/GridContainer/GridContainer.h   |  3 +-
 .../GridContainer/_impl/GridIterator.icpp     | 44 ++++++++++---------
 2 files changed, 26 insertions(+), 21 deletions(-)

diff --git a/GridContainer/GridContainer/GridContainer.h b/GridContainer/GridContainer/GridContainer.h
index 37a2ff2..2e21ec4 100644
--- a/GridContainer/GridContainer/GridContainer.h
+++ b/GridContainer/GridContainer/GridContainer.h
@@ -498,7 +498,8 @@ private:
   const GridContainer<GridCellManager, AxesTypes...>& m_owner;
   cell_manager_iter_type                              m_data_iter;
   std::map<size_t, size_t>                            m_fixed_indices;
-  void                                                forwardToIndex(size_t axis, size_t fixed_index);
+  /// Moves to the first cell, not before the current one, which has all the fixed indices
+  void forwardToFixed();
 
 };  // end of class iter
 
diff --git a/GridContainer/GridContainer/_impl/GridIterator.icpp b/GridContainer/GridContainer/_impl/GridIterator.icpp
index 81f6717..c5d6479 100644
--- a/GridContainer/GridContainer/_impl/GridIterator.icpp
+++ b/GridContainer/GridContainer/_impl/GridIterator.icpp
@@ -48,17 +48,7 @@ template <typename CellType>
 auto GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::operator++() -> iter& {
   ++m_data_iter;
   if (!m_fixed_indices.empty()) {
-    for (auto& fixed_index_pair : m_fixed_indices) {
-      size_t axis        = fixed_index_pair.first;
-      size_t fixed_index = fixed_index_pair.second;
-      forwardToIndex(axis, fixed_index);
-    }
-    // Because we make big steps there is the possibility we went after the end.
-    // In this case we set the iterator to the end.
-    auto end_iter = GridCellManagerTraits<GridCellManager>::end(*(m_owner.m_cell_manager));
-    if (m_data_iter > end_iter) {
-      m_data_iter = end_iter;
-    }
+    forwardToFixed();
   }
   return *this;
 }
@@ -128,7 +118,7 @@ auto GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::fixAxisByInde
                                 << m_owner.getOriginalAxis<I>().size() << ")";
   }
   m_fixed_indices[I] = index;
-  forwardToIndex(I, index);
+  forwardToFixed();
   return *this;
 }
 
@@ -147,15 +137,29 @@ auto GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::fixAxisByValu
 
 template <typename GridCellManager, typename... AxesTypes>
 template <typename CellType>
-void GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::forwardToIndex(size_t axis, size_t fixed_index) {
-  size_t current_size  = m_data_iter - GridCellManagerTraits<GridCellManager>::begin(*(m_owner.m_cell_manager));
-  size_t current_index = m_owner.m_index_helper.axisIndex(axis, current_size);
-  if (fixed_index != current_index) {
-    size_t axis_factor = m_owner.m_index_helper.m_axes_index_factors[axis];
-    size_t distance    = (fixed_index > current_index) ? fixed_index - current_index
-                                                    : m_owner.m_index_helper.m_axes_sizes[axis] + fixed_index - current_index;
-    m_data_iter += distance * axis_factor;
+void GridContainer<GridCellManager, AxesTypes...>::iter<CellType>::forwardToFixed() {
+  auto&  helper   = m_owner.m_index_helper;
+  size_t current  = m_data_iter - GridCellManagerTraits<GridCellManager>::begin(*(m_owner.m_cell_manager));
+  size_t total    = helper.m_axes_index_factors.back();
+  size_t position = current;
+  bool   moved    = true;
+  // Forward the slowest axes first, as the faster ones restart from zero. A faster axis may need to wrap around,
+  // which moves the slower ones, so repeat until there is nothing to move or there are no more cells.
+  while (moved && position < total) {
+    moved = false;
+    for (auto fixed = m_fixed_indices.rbegin(); fixed != m_fixed_indices.rend(); ++fixed) {
+      size_t axis       = fixed->first;
+      size_t axis_index = helper.axisIndex(axis, position);
+      if (fixed->second != axis_index) {
+        size_t axis_factor = helper.m_axes_index_factors[axis];
+        size_t distance =
+            (fixed->second > axis_index) ? fixed->second - axis_index : helper.m_axes_sizes[axis] + fixed->second - axis_index;
+        position += distance * axis_factor - position % axis_factor;
+        moved = true;
+      }
+    }
   }
+  m_data_iter += std::min(position, total) - current;
 }
 
 template <typename IterFrom, typename IterTo, int I>
-- 
2.43.0


From 9397ab5048401d7337497ed00a3f619897fcd306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:45 +0000
Subject: [PATCH 26/69] fix: read quoted strings in the first column of ASCII
 tables

---
 Table/src/lib/AsciiReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Table/src/lib/AsciiReader.cpp b/Table/src/lib/AsciiReader.cpp
index 667e023..d7728a1 100644
--- a/Table/src/lib/AsciiReader.cpp
+++ b/Table/src/lib/AsciiReader.cpp
@@ -214,7 +214,7 @@ Table AsciiReader::readImpl(long rows) {
       size_t                      count{0};
       std::vector<Row::cell_type> values{};
       std::string                 token;
-      line_stream >> token;
+      line_stream >> boost::io::quoted(token);
       while (line_stream) {
         if (count >= m_column_info->size()) {
           throw Elements::Exception() << "Line with wrong number of cells: " << line;
-- 
2.43.0


From 4bdc866602372236c58377595381ab040051a7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:45 +0000
Subject: [PATCH 27/69] fix: ignore the case of the booleans of ASCII tables,
 as documented

---
 Table/src/lib/AsciiReaderHelper.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index d8f0b4f..227f107 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -284,10 +284,11 @@ NdArray<T> convertStringToNdArray(const std::string& str) {
 Row::cell_type convertToCellType(const std::string& value, std::type_index type) {
   try {
     if (type == typeid(bool)) {
-      if (value == "true" || value == "t" || value == "yes" || value == "y" || value == "1") {
+      auto lower = boost::to_lower_copy(value);
+      if (lower == "true" || lower == "t" || lower == "yes" || lower == "y" || lower == "1") {
         return Row::cell_type{true};
       }
-      if (value == "false" || value == "f" || value == "no" || value == "n" || value == "0") {
+      if (lower == "false" || lower == "f" || lower == "no" || lower == "n" || lower == "0") {
         return Row::cell_type{false};
       }
     } else if (type == typeid(int32_t)) {
-- 
2.43.0


From 6ca16bf836bee3e603379f90b4bddd2a79588c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:45 +0000
Subject: [PATCH 28/69] fix: rewind ASCII tables also when they are beyond 2 GB

---
 Table/src/lib/AsciiReaderHelper.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Table/src/lib/AsciiReaderHelper.h b/Table/src/lib/AsciiReaderHelper.h
index f02e67b..be7c2cf 100644
--- a/Table/src/lib/AsciiReaderHelper.h
+++ b/Table/src/lib/AsciiReaderHelper.h
@@ -56,7 +56,7 @@ public:
 private:
   std::istream&     m_stream;
   std::ios::iostate m_state;
-  int               m_position;
+  std::streampos    m_position;
 };
 
 /**
-- 
2.43.0


From 2b02f574942e317a08457197a2cd686a229f7ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:45 +0000
Subject: [PATCH 29/69] fix: printing an empty vector must not run past its end

---
 Table/src/lib/Row.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/Table/src/lib/Row.cpp b/Table/src/lib/Row.cpp
index ae37622..4bc013c 100644
--- a/Table/src/lib/Row.cpp
+++ b/Table/src/lib/Row.cpp
@@ -45,13 +45,12 @@ namespace std {
 
 template <typename T>
 std::ostream& operator<<(std::ostream& s, const std::vector<T>& v) {
-  auto it = v.begin();
-  if (it != v.end()) {
+  for (auto it = v.begin(); it != v.end(); ++it) {
+    if (it != v.begin()) {
+      s << ',';
+    }
     s << *it;
   }
-  while (++it != v.end()) {
-    s << ',' << *it;
-  }
   return s;
 }
 
-- 
2.43.0


From b944d605ccc0ebf9bddfbb481c4c03e188b07eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:45 +0000
Subject: [PATCH 30/69] fix: write the empty vectors of ASCII tables so that
 they can be read back

---
 Table/src/lib/AsciiWriterHelper.cpp | 2 +-
 Table/src/lib/AsciiWriterHelper.h   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Table/src/lib/AsciiWriterHelper.cpp b/Table/src/lib/AsciiWriterHelper.cpp
index 84c15a3..d6b27a5 100644
--- a/Table/src/lib/AsciiWriterHelper.cpp
+++ b/Table/src/lib/AsciiWriterHelper.cpp
@@ -110,7 +110,7 @@ std::vector<size_t> calculateColumnLengths(const Table& table) {
 
 std::string quoted(const std::string& str) {
   regex whitespace_quotes{".*[\\s\"].*"};
-  if (!regex_match(str, whitespace_quotes))
+  if (!str.empty() && !regex_match(str, whitespace_quotes))
     return str;
   std::stringstream q;
   q << boost::io::quoted(str);
diff --git a/Table/src/lib/AsciiWriterHelper.h b/Table/src/lib/AsciiWriterHelper.h
index 9ccb19a..bb46406 100644
--- a/Table/src/lib/AsciiWriterHelper.h
+++ b/Table/src/lib/AsciiWriterHelper.h
@@ -85,7 +85,7 @@ struct ToStringVisitor : public boost::static_visitor<std::string> {
   std::string operator()(const T& from) const {
     std::stringstream q;
     q << from;
-    return q.str();
+    return quoted(q.str());
   }
 };
 
-- 
2.43.0


From cc4587303df11158a623853d0aa94fc34dd17f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:45 +0000
Subject: [PATCH 31/69] fix: do not take a column description for the line with
 the column names, and accept quoted names in descriptions

---
 Table/src/lib/AsciiReaderHelper.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index 227f107..c9f5e41 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -188,18 +188,16 @@ std::vector<std::string> autoDetectColumnNames(std::istream& in, const std::stri
       // the correct number of tokens
       boost::replace_all(line, comment, "");
       boost::trim(line);
-      if (!line.empty()) {
-        last_comment = line;
-      }
       if (boost::starts_with(line, "Column:")) {
-        std::string temp = line;
-        temp.erase(0, 7);
-        boost::trim(temp);
-        auto space_i = temp.find(' ');
-        if (space_i > 0) {
-          temp = temp.substr(0, space_i);
+        // The column descriptions are never the line with the names
+        last_comment.clear();
+        std::stringstream desc_stream(line.substr(7));
+        std::string       name;
+        if (desc_stream >> boost::io::quoted(name)) {
+          desc_names.emplace_back(std::move(name));
         }
-        desc_names.emplace_back(std::move(temp));
+      } else if (!line.empty()) {
+        last_comment = line;
       }
     } else {
       break;  // here we reached the first data line
-- 
2.43.0


From 73efdc52875bd727faaa32265db45c14e85aa50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:45 +0000
Subject: [PATCH 32/69] fix: accept units with spaces in the column
 descriptions, and do not run past an unfinished one

---
 Table/src/lib/AsciiReaderHelper.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index c9f5e41..126e43b 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -142,8 +142,15 @@ std::map<std::string, ColumnDescription> autoDetectColumnDescriptions(std::istre
           if (line_stream) {
             if (boost::starts_with(token, "(")) {
               unit = token;
+              // The unit goes until the closing parenthesis, and may contain spaces
+              while (std::count(unit.begin(), unit.end(), '(') != std::count(unit.begin(), unit.end(), ')') &&
+                     line_stream >> boost::io::quoted(token)) {
+                unit += ' ' + token;
+              }
               unit.erase(unit.begin());
-              unit.erase(unit.end() - 1);
+              if (!unit.empty() && unit.back() == ')') {
+                unit.pop_back();
+              }
               line_stream >> boost::io::quoted(token);
             }
           }
-- 
2.43.0


From 32375462a1f064655b34b7596924573b5ae1f376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:19:45 +0000
Subject: [PATCH 33/69] fix: refuse NdArray cells of ASCII tables whose shape
 does not match the data

---
 Table/src/lib/AsciiReaderHelper.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/Table/src/lib/AsciiReaderHelper.cpp b/Table/src/lib/AsciiReaderHelper.cpp
index 126e43b..fa34268 100644
--- a/Table/src/lib/AsciiReaderHelper.cpp
+++ b/Table/src/lib/AsciiReaderHelper.cpp
@@ -280,7 +280,20 @@ NdArray<T> convertStringToNdArray(const std::string& str) {
   auto data      = convertStringToVector<T>(str.substr(closing_char + 1));
 
   std::vector<size_t> shape_u;
-  std::copy(shape_i.begin(), shape_i.end(), std::back_inserter(shape_u));
+  size_t              size = 1;
+  for (auto axis : shape_i) {
+    if (axis <= 0 || static_cast<size_t>(axis) > data.size()) {
+      throw Elements::Exception() << "The shape of the NdArray does not match its data: " << str;
+    }
+    shape_u.push_back(axis);
+    size *= axis;
+    if (size > data.size()) {
+      throw Elements::Exception() << "The shape of the NdArray does not match its data: " << str;
+    }
+  }
+  if (shape_u.empty() || size != data.size()) {
+    throw Elements::Exception() << "The shape of the NdArray does not match its data: " << str;
+  }
   return NdArray<T>(shape_u, data);
 }
 
-- 
2.43.0


From 81f00b0527e6e96258d3a3a14b113373e464a257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 34/69] fix: reading the comment of an ASCII table must not
 consume the column descriptions

---
 Table/src/lib/AsciiReader.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Table/src/lib/AsciiReader.cpp b/Table/src/lib/AsciiReader.cpp
index d7728a1..2b4a0c6 100644
--- a/Table/src/lib/AsciiReader.cpp
+++ b/Table/src/lib/AsciiReader.cpp
@@ -182,6 +182,8 @@ std::string AsciiReader::getComment() {
 
   m_reading_started = true;
   auto& in          = m_stream_holder->ref();
+  // The comments may contain the column descriptions, which are still to be read
+  StreamRewinder rewinder{in};
   while (in && _peekLine(in).compare(0, m_comment.size(), m_comment) == 0) {
     std::string line;
     getline(in, line);
-- 
2.43.0


From 3698ecf090648dd0a4ee8cbed7f06a61741947d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 35/69] fix: any negative number of rows reads all the rows of
 a FITS table, as documented

---
 Table/src/lib/FitsReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Table/src/lib/FitsReader.cpp b/Table/src/lib/FitsReader.cpp
index 40a7d91..a8ad3b4 100644
--- a/Table/src/lib/FitsReader.cpp
+++ b/Table/src/lib/FitsReader.cpp
@@ -126,7 +126,7 @@ Table FitsReader::readImpl(long rows) {
   if (m_current_row > m_total_rows) {
     throw Elements::Exception() << "No more table rows left";
   }
-  if (rows == -1) {
+  if (rows < 0) {
     rows = m_total_rows - m_current_row + 1;
   }
   rows = std::min(rows, m_total_rows - m_current_row + 1);
-- 
2.43.0


From 13cf3d0caf1c4fc74b4b0242cc0e1f9f8d920156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 36/69] fix: no FITS table rows are left after skipping more
 than there are

---
 Table/src/lib/FitsReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Table/src/lib/FitsReader.cpp b/Table/src/lib/FitsReader.cpp
index a8ad3b4..cf44b24 100644
--- a/Table/src/lib/FitsReader.cpp
+++ b/Table/src/lib/FitsReader.cpp
@@ -168,7 +168,7 @@ bool FitsReader::hasMoreRows() {
 
 std::size_t FitsReader::rowsLeft() {
   readColumnInfo();
-  return m_total_rows - m_current_row + 1;
+  return hasMoreRows() ? m_total_rows - m_current_row + 1 : 0;
 }
 
 }  // namespace Table
-- 
2.43.0


From 507b86e4e1c0582c9c1eb21c0f8388db4a5c23cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 37/69] fix: read FITS columns of single character strings

---
 Table/src/lib/FitsReaderHelper.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Table/src/lib/FitsReaderHelper.cpp b/Table/src/lib/FitsReaderHelper.cpp
index 073f9ef..369a51a 100644
--- a/Table/src/lib/FitsReaderHelper.cpp
+++ b/Table/src/lib/FitsReaderHelper.cpp
@@ -102,6 +102,8 @@ std::type_index binaryFormatToType(const std::string& format, const std::vector<
       return typeid(float);
     } else if (ft == 'D') {
       return typeid(double);
+    } else if (ft == 'A') {
+      return typeid(std::string);
     }
   }
   // Last, vectors
-- 
2.43.0


From 51f05a4d3a85f25d64c78dc859a6673eb29e0ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:16 +0000
Subject: [PATCH 38/69] fix: a string that does not fit in 64 bits must not be
 cast to another number

---
 Table/Table/CastVisitor.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Table/Table/CastVisitor.h b/Table/Table/CastVisitor.h
index a3eba6d..fd06c6a 100644
--- a/Table/Table/CastVisitor.h
+++ b/Table/Table/CastVisitor.h
@@ -28,6 +28,7 @@
 #include "ElementsKernel/Exception.h"
 #include <boost/tokenizer.hpp>
 #include <boost/variant/static_visitor.hpp>
+#include <cerrno>
 #include <cmath>
 #include <sstream>
 #include <type_traits>
@@ -149,11 +150,15 @@ public:
   }
 
   int64_t operator()(const std::string& from) const {
-    char*   endptr = nullptr;
-    int64_t value  = std::strtoll(from.c_str(), &endptr, 10);
+    char* endptr  = nullptr;
+    errno         = 0;
+    int64_t value = std::strtoll(from.c_str(), &endptr, 10);
     if (endptr == from.c_str()) {
       throw Elements::Exception() << "CastVisitor cannot convert the string '" << from << "' to " << typeid(int64_t).name();
     }
+    if (errno == ERANGE) {
+      throw Elements::Exception() << "CastVisitor overflows converting the string '" << from << "' to " << typeid(int64_t).name();
+    }
     return value;
   }
 };
-- 
2.43.0


From 2afa9c1781b8650abcda326e57d020d38fa06756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:27 +0000
Subject: [PATCH 39/69] fix: interpolate() read past the end when given no
 samples

---
 MathUtils/src/lib/interpolation/interpolation.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/MathUtils/src/lib/interpolation/interpolation.cpp b/MathUtils/src/lib/interpolation/interpolation.cpp
index ad5a4f7..750d86e 100644
--- a/MathUtils/src/lib/interpolation/interpolation.cpp
+++ b/MathUtils/src/lib/interpolation/interpolation.cpp
@@ -45,6 +45,10 @@ std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::v
                                    << "size: X=" << x.size() << ", Y=" << y.size();
   }
 
+  if (x.empty()) {
+    throw InterpolationException() << "Can not interpolate an empty list of values";
+  }
+
   if (x.size() == 1 && extrapolate) {
     auto c = y.front();
     return make_unique<FunctionAdapter>([c](double) { return c; });
-- 
2.43.0


From 4dd7dadd19e2e0d0aa3c7ec5b7385862d77605c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:27 +0000
Subject: [PATCH 40/69] fix: interpolation of a single sample read past the
 end, or was zero when the sample was repeated

---
 .../src/lib/interpolation/interpolation.cpp    | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/MathUtils/src/lib/interpolation/interpolation.cpp b/MathUtils/src/lib/interpolation/interpolation.cpp
index 750d86e..ef13a9f 100644
--- a/MathUtils/src/lib/interpolation/interpolation.cpp
+++ b/MathUtils/src/lib/interpolation/interpolation.cpp
@@ -25,6 +25,8 @@
 #include "MathUtils/interpolation/interpolation.h"
 #include "ElementsKernel/Logging.h"
 #include "MathUtils/function/FunctionAdapter.h"
+#include "MathUtils/function/Piecewise.h"
+#include "MathUtils/function/Polynomial.h"
 #include "implementations.h"
 #include <AlexandriaKernel/memory_tools.h>
 
@@ -49,11 +51,6 @@ std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::v
     throw InterpolationException() << "Can not interpolate an empty list of values";
   }
 
-  if (x.size() == 1 && extrapolate) {
-    auto c = y.front();
-    return make_unique<FunctionAdapter>([c](double) { return c; });
-  }
-
   // We remove any duplicate lines and we check that we have only increasing
   // X values and no step functions
   std::vector<double> final_x;
@@ -79,6 +76,17 @@ std::unique_ptr<Function> interpolate(const std::vector<double>& x, const std::v
     final_y.emplace_back(y[i]);
   }
 
+  // With a single sample there is nothing to interpolate
+  if (final_x.size() == 1) {
+    auto c = final_y.front();
+    if (extrapolate) {
+      return make_unique<FunctionAdapter>([c](double) { return c; });
+    }
+    std::vector<std::unique_ptr<Function>> functions;
+    functions.emplace_back(new Polynomial{{c}});
+    return make_unique<Piecewise>(std::vector<double>{final_x.front(), final_x.front()}, std::move(functions));
+  }
+
   switch (type) {
   case InterpolationType::LINEAR:
     return linearInterpolation(final_x, final_y, extrapolate);
-- 
2.43.0


From 3ba33242124e7d7b98ecbff2b2ff3670d3ffdd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:27 +0000
Subject: [PATCH 41/69] fix: linear interpolation of a step function integrated
 to NaN, and was NaN if the step was at an end

---
 MathUtils/src/lib/interpolation/linear.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/MathUtils/src/lib/interpolation/linear.cpp b/MathUtils/src/lib/interpolation/linear.cpp
index 9943615..174fc4f 100644
--- a/MathUtils/src/lib/interpolation/linear.cpp
+++ b/MathUtils/src/lib/interpolation/linear.cpp
@@ -34,8 +34,13 @@ namespace MathUtils {
 std::unique_ptr<Function> linearInterpolation(const std::vector<double>& x, const std::vector<double>& y, bool extrapolate) {
   std::vector<std::unique_ptr<Function>> functions{};
   for (size_t i = 0; i < x.size() - 1; i++) {
-    double coef1 = (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
-    double coef0 = y[i] - coef1 * x[i];
+    double coef1 = 0.;
+    double coef0 = y[i == 0 ? 0 : i + 1];
+    // The pieces without width of the step functions are constant
+    if (x[i + 1] != x[i]) {
+      coef1 = (y[i + 1] - y[i]) / (x[i + 1] - x[i]);
+      coef0 = y[i] - coef1 * x[i];
+    }
     functions.push_back(std::unique_ptr<Function>(new Polynomial{{coef0, coef1}}));
   }
 
-- 
2.43.0


From 59eea3f9b618b697d813d05b595c1bab516c3942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:27 +0000
Subject: [PATCH 42/69] fix: spline interpolation of a step function gave NaN
 instead of the documented exception

---
 MathUtils/src/lib/interpolation/spline.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/MathUtils/src/lib/interpolation/spline.cpp b/MathUtils/src/lib/interpolation/spline.cpp
index cb54594..649b451 100644
--- a/MathUtils/src/lib/interpolation/spline.cpp
+++ b/MathUtils/src/lib/interpolation/spline.cpp
@@ -38,8 +38,13 @@ std::unique_ptr<Function> splineInterpolation(const std::vector<double>& x, cons
 
   // Differences between knot points
   std::vector<double> h(n, 0.);
-  for (int i = 0; i < n; i++)
+  for (int i = 0; i < n; i++) {
     h[i] = x[i + 1] - x[i];
+    if (h[i] == 0.) {
+      throw InterpolationException() << "Step functions are not supported by the spline interpolation, but found two values for "
+                                     << x[i];
+    }
+  }
 
   std::vector<double> mu(n, 0.);
   std::vector<double> z(n + 1, 0.);
-- 
2.43.0


From 77c7c461bdc744a6aa4d8f6b095710847d642e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:27 +0000
Subject: [PATCH 43/69] fix: InterpN read past the end for a value that is not
 on a discrete axis

---
 .../MathUtils/interpolation/_impl/GridInterpolation.icpp      | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
index 5b69f94..e822fc4 100644
--- a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
+++ b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
@@ -61,7 +61,7 @@ template <typename T>
 struct InterpolationImpl<T, typename std::enable_if<!std::is_floating_point<T>::value>::type> {
   static double interpolate(const T x, const std::vector<T>& knots, const std::vector<double>& values, bool /*extrapolate*/) {
     std::size_t i = std::find(knots.begin(), knots.end(), x) - knots.begin();
-    if (knots[i] != x)
+    if (i == knots.size())
       return 0.;
     return values[i];
   }
@@ -70,7 +70,7 @@ struct InterpolationImpl<T, typename std::enable_if<!std::is_floating_point<T>::
   static double interpolate(const T x, const std::vector<T>& knots,
                             const std::vector<std::unique_ptr<InterpN<Rest...>>>& interpolators, bool, const Rest... rest) {
     std::size_t i = std::find(knots.begin(), knots.end(), x) - knots.begin();
-    if (knots[i] != x)
+    if (i == knots.size())
       return 0.;
     return (*interpolators[i])(rest...);
   }
-- 
2.43.0


From c9fa1dc08c058323ff45a7782397642910200a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:27 +0000
Subject: [PATCH 44/69] fix: InterpN accepted unsorted knots on its last axis

---
 MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
index e822fc4..6fdc042 100644
--- a/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
+++ b/MathUtils/MathUtils/interpolation/_impl/GridInterpolation.icpp
@@ -103,6 +103,7 @@ public:
       throw InterpolationException() << "The size of the grid and the size of the values do not match: " << m_knots.size()
                                      << " != " << m_values.size();
     }
+    InterpolationImpl<T>::checkOrder(m_knots);
   }
 
   /**
-- 
2.43.0


From 47f3995eae8ac73bf3430d32d4e305430cfbd852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:27 +0000
Subject: [PATCH 45/69] fix: multiplying Piecewise functions that do not
 overlap read past the end of the knots

---
 MathUtils/src/lib/function/multiplication.cpp | 30 +++++--------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/MathUtils/src/lib/function/multiplication.cpp b/MathUtils/src/lib/function/multiplication.cpp
index 33fd76c..c19c03e 100644
--- a/MathUtils/src/lib/function/multiplication.cpp
+++ b/MathUtils/src/lib/function/multiplication.cpp
@@ -27,6 +27,7 @@
 #include "MathUtils/function/Polynomial.h"
 #include "MathUtils/function/function_tools.h"
 #include "MathUtils/interpolation/interpolation.h"
+#include <algorithm>
 #include <memory>
 #include <set>
 #include <vector>
@@ -61,28 +62,13 @@ std::unique_ptr<Function> multiplyPiecewiseWithGeneric(const Function& f1, const
 /// Returns a vector of the overlapping knots from the given vectors
 std::vector<double> overlappingKnots(const std::vector<double>& knots1, const std::vector<double>& knots2) {
   std::set<double> knotSet{};
-  auto             p1Iter  = knots1.begin();
-  auto             p2Iter  = knots2.begin();
-  bool             started = false;
-  while (p1Iter != knots1.end() && p2Iter != knots2.end()) {
-    if (!started) {
-      if (*p1Iter < *p2Iter) {
-        if (*(++p1Iter) > *p2Iter) {
-          started = true;
-        }
-      } else {
-        if (*p1Iter < *(++p2Iter)) {
-          started = true;
-        }
+  double           low  = std::max(knots1.front(), knots2.front());
+  double           high = std::min(knots1.back(), knots2.back());
+  for (auto knots : {&knots1, &knots2}) {
+    for (double knot : *knots) {
+      if (low <= knot && knot <= high) {
+        knotSet.insert(knot);
       }
-      continue;
-    }
-    if (*p1Iter < *p2Iter) {
-      knotSet.insert(*p1Iter);
-      ++p1Iter;
-    } else {
-      knotSet.insert(*p2Iter);
-      ++p2Iter;
     }
   }
   return std::vector<double>{knotSet.begin(), knotSet.end()};
@@ -95,7 +81,7 @@ std::unique_ptr<Function> multiplyPiecewises(const Function& f1, const Function&
 
   auto knots = overlappingKnots(p1.getKnots(), p2.getKnots());
 
-  if (knots.empty()) {
+  if (knots.size() < 2) {
     return std::unique_ptr<Function>{new Polynomial{{0.}}};
   }
 
-- 
2.43.0


From fff7010b39d4d25b90799342be889d00e5e1d055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:27 +0000
Subject: [PATCH 46/69] fix: multiplying two polynomials without coefficients
 (derivatives of constants) threw length_error

---
 MathUtils/src/lib/function/multiplication.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MathUtils/src/lib/function/multiplication.cpp b/MathUtils/src/lib/function/multiplication.cpp
index c19c03e..d033f77 100644
--- a/MathUtils/src/lib/function/multiplication.cpp
+++ b/MathUtils/src/lib/function/multiplication.cpp
@@ -41,6 +41,9 @@ std::unique_ptr<Function> multiplyPolynomials(const Function& f1, const Function
   const Polynomial&   p2 = dynamic_cast<const Polynomial&>(f2);
   std::vector<double> c1 = p1.getCoefficients();
   std::vector<double> c2 = p2.getCoefficients();
+  if (c1.empty() || c2.empty()) {
+    return std::unique_ptr<Polynomial>(new Polynomial{{0.}});
+  }
   std::vector<double> resultCoef(c1.size() + c2.size() - 1, 0.);
   for (size_t i = 0; i < c1.size(); ++i)
     for (size_t j = 0; j < c2.size(); ++j)
-- 
2.43.0


From 6b78a5ee518c8cb949f195073a8cc12fc7e8633e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:18:42 +0000
Subject: [PATCH 47/69] fix: simple_interpolation mixed up x and y at a step

---
 MathUtils/src/lib/interpolation/interpolation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/MathUtils/src/lib/interpolation/interpolation.cpp b/MathUtils/src/lib/interpolation/interpolation.cpp
index ef13a9f..ce2f018 100644
--- a/MathUtils/src/lib/interpolation/interpolation.cpp
+++ b/MathUtils/src/lib/interpolation/interpolation.cpp
@@ -134,7 +134,7 @@ double simple_interpolation(double x, const std::vector<double>& xp, const std::
   double y1 = yp[i], y0 = yp[i - 1];
 
   if (x1 == x0) {
-    return (x1 + y1) / 2.;
+    return (y0 + y1) / 2.;
   }
 
   double coef1 = (y1 - y0) / (x1 - x0);
-- 
2.43.0


From f734d434fbbfd613ae39aa87f8bd7f9482e78231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:37 +0000
Subject: [PATCH 48/69] fix: InverseCumulative compared the number of knots
 with itself instead of with the PDF

---
 MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
index ffc9e8c..a7b6bef 100644
--- a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
+++ b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
@@ -33,8 +33,8 @@ class InverseCumulative<TKnot, typename std::enable_if<std::is_floating_point<TK
 public:
   InverseCumulative(std::vector<TKnot> knots, std::vector<double> pdf)
       : m_knots(std::move(knots)), m_pdf(std::move(pdf)), m_cdf(m_pdf.size()) {
-    if (m_knots.size() != m_knots.size()) {
-      throw Elements::Exception() << "PDF and knots dimensionality do not match: " << m_knots.size() << " != " << knots.size();
+    if (m_knots.size() != m_pdf.size()) {
+      throw Elements::Exception() << "PDF and knots dimensionality do not match: " << m_knots.size() << " != " << m_pdf.size();
     }
     if (!std::is_sorted(m_knots.begin(), m_knots.end())) {
       throw Elements::Exception() << "Knots must be sorted";
-- 
2.43.0


From c2b7f5791f1732d9cc5b7e8300e7e4388e047c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:37 +0000
Subject: [PATCH 49/69] fix: InverseCumulative returned NaN close to the end of
 a segment where the PDF falls to 0

---
 .../helpers/_impl/InverseCumulative.icpp      | 39 +++++--------------
 1 file changed, 9 insertions(+), 30 deletions(-)

diff --git a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
index a7b6bef..800ce49 100644
--- a/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
+++ b/MathUtils/MathUtils/helpers/_impl/InverseCumulative.icpp
@@ -18,9 +18,8 @@
 
 #ifdef INVERSE_CUMULATIVE_IMPL
 
-#include "MathUtils/helpers/Solvers.h"
 #include <algorithm>
-#include <cassert>
+#include <cmath>
 
 namespace Euclid {
 namespace MathUtils {
@@ -88,36 +87,16 @@ public:
       return x0;
     }
 
-    // Since we assume a linear interpolation, we know that
-    // p0 = a * x0 + b
-    // p1 = a * x1 + b
-    // So we can solve for a and b
+    // Since we assume a linear interpolation, with t = x - x0 the PDF is p0 + a * t, and its integral
+    // cdf(t) = cdf0 + p0 * t + a/2 * t^2
     const double a = (p1 - p0) / (x1 - x0);
-    const double b = p0 - a * x0;
+    const double d = unnormed_p - cdf0;
 
-    assert(std::abs(a * x0 + b - p0) < 1e-8);
-    assert(std::abs(a * x1 + b - p1) < 1e-8);
-
-    // The CDF is the integral, so we also know that
-    // cdf0 = a/2 * x0^2 + b * x0 + c
-    // cdf1 = a/2 * x1^2 + b * x1 + c
-    // We already know a and b, so it is easy to solve for c
-    const double c = cdf0 - (a / 2.) * (x0 * x0) - b * x0;
-
-    // Double check that the equation passes through the CDF at the limits
-    // assert(std::abs((a / 2.) * (x0 * x0) + b * x0 + c - cdf0) < 1e-4);
-    // assert(std::abs((a / 2.) * (x1 * x1) + b * x1 + c - cdf1) < 1e-4);
-
-    // We have the equation, so we now need to solve x for p
-    double s0, s1;
-    std::tie(s0, s1) = solveSquare(a / 2, b, c, unnormed_p);
-
-    // Pick the possible result that lies within [x0, x1]
-    if (s0 >= x0 - 1e-8 && s0 <= x1 + 1e-8) {
-      return s0;
-    }
-    assert(s1 >= x0 - 1e-8 && s1 <= x1 + 1e-8);
-    return s1;
+    // Solve t for p. Of the two solutions, this is the one on the segment, written such that it is stable when
+    // a is close to 0. The rounding may make the square slightly negative at the end of a segment that reaches 0.
+    const double square = std::max(p0 * p0 + 2 * a * d, 0.);
+    const double t      = 2 * d / (p0 + std::sqrt(square));
+    return std::min(x0 + t, x1);
   }
 
 private:
-- 
2.43.0


From 8ed5ad3fd426c6bf2fe71bf09e798d6290e51240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:22:37 +0000
Subject: [PATCH 50/69] fix: findCenteredInterval returned an inverted interval
 when one sample holds it all

---
 MathUtils/src/lib/PDF/Cumulative.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/MathUtils/src/lib/PDF/Cumulative.cpp b/MathUtils/src/lib/PDF/Cumulative.cpp
index f9e0f1d..35bfecc 100644
--- a/MathUtils/src/lib/PDF/Cumulative.cpp
+++ b/MathUtils/src/lib/PDF/Cumulative.cpp
@@ -25,6 +25,7 @@
 #include "MathUtils/PDF/Cumulative.h"
 #include "ElementsKernel/Exception.h"
 #include "XYDataset/XYDataset.h"
+#include <algorithm>
 #include <cstdlib>  // for size_t
 
 namespace Euclid {
@@ -184,7 +185,8 @@ std::pair<double, double> Cumulative::findCenteredInterval(double rate) const {
   double min_x = findValue(min_rate, TrayPosition::end);
   double max_x = findValue(max_rate, TrayPosition::begin);
 
-  return std::make_pair(min_x, max_x);
+  // When a single sample holds the whole interval, min_x is at the end of its tray
+  return std::make_pair(std::min(min_x, max_x), max_x);
 }
 
 }  // namespace MathUtils
-- 
2.43.0


From 5f2993a42b0832c1b7392f869276815534b7371d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:48 +0000
Subject: [PATCH 51/69] fix: extractNBigestModes returned more modes than asked
 for

---
 MathUtils/src/lib/PDF/PdfModeExtraction.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
index 81689d8..ed8477e 100644
--- a/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
+++ b/MathUtils/src/lib/PDF/PdfModeExtraction.cpp
@@ -222,6 +222,9 @@ std::vector<ModeInfo> extractNBigestModes(std::vector<double>& x_sampling, std::
 
     if (iter_mode != result.end()) {
       result.insert(iter_mode, new_mode);
+      if (result.size() > n) {
+        result.pop_back();
+      }
     } else if (result.size() < n) {
       result.push_back(new_mode);
     }
-- 
2.43.0


From e92e9d7fb87187d7ea3e6979cf8151f041b43417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:15 +0000
Subject: [PATCH 52/69] fix: isDatasetFile refused datasets without a newline
 at the end or with a comment after the first data

---
 XYDataset/src/lib/AsciiParser.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/XYDataset/src/lib/AsciiParser.cpp b/XYDataset/src/lib/AsciiParser.cpp
index e3a3dd6..56c4962 100644
--- a/XYDataset/src/lib/AsciiParser.cpp
+++ b/XYDataset/src/lib/AsciiParser.cpp
@@ -132,12 +132,11 @@ bool AsciiParser::isDatasetFile(const std::string& file) {
     std::string line{};
     // Convention: read until found first non empty line, removing empty lines.
     // Escape also the dataset name and comment lines
-    boost::regex  expression("\\s*#.*");
-    boost::smatch s_match;
-    while ((line.empty() || boost::regex_match(line, s_match, expression)) && sfile.good()) {
-      std::getline(sfile, line);
+    while (line.empty() && std::getline(sfile, line)) {
+      line = line.substr(0, line.find('#'));
+      boost::trim(line);
     }
-    if (sfile.good()) {
+    if (!line.empty()) {
       // We should have 2 double values only on one line
       try {
         std::stringstream ss(line);
@@ -154,7 +153,7 @@ bool AsciiParser::isDatasetFile(const std::string& file) {
       } catch (...) {
         is_a_dataset_file = false;
       }
-    }  // Eof sfile.good()
+    }  // Eof line
   }    // Eof sfile
   return is_a_dataset_file;
 }
-- 
2.43.0


From 6569398ea764423fd2db3e7d15c1f5cff9ce0607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:15 +0000
Subject: [PATCH 53/69] fix: isDatasetFile let bad_cast escape for FITS files
 with an image

---
 XYDataset/src/lib/FitsParser.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/XYDataset/src/lib/FitsParser.cpp b/XYDataset/src/lib/FitsParser.cpp
index 581f571..327cd29 100644
--- a/XYDataset/src/lib/FitsParser.cpp
+++ b/XYDataset/src/lib/FitsParser.cpp
@@ -27,6 +27,7 @@
 #include <boost/regex.hpp>
 #include <fstream>
 #include <iostream>
+#include <typeinfo>
 
 #include "ElementsKernel/Exception.h"
 #include "ElementsKernel/Unused.h"
@@ -122,6 +123,9 @@ bool FitsParser::isDatasetFile(const std::string& file) {
     ELEMENTS_UNUSED auto&         temp      = dynamic_cast<const CCfits::Table&>(table_hdu);
   } catch (CCfits::FitsException& fits_except) {
     is_a_dataset_file = false;
+  } catch (std::bad_cast&) {
+    // The first extension is an image
+    is_a_dataset_file = false;
   }
   return is_a_dataset_file;
 }
-- 
2.43.0


From c749ada70b172c94f0dd6354ae211d29dae8537f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:15 +0000
Subject: [PATCH 54/69] fix: EdgeVector counted NaN in the last bin

---
 Histogram/Histogram/Binning/EdgeVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Histogram/Histogram/Binning/EdgeVector.h b/Histogram/Histogram/Binning/EdgeVector.h
index c178ffa..d76995f 100644
--- a/Histogram/Histogram/Binning/EdgeVector.h
+++ b/Histogram/Histogram/Binning/EdgeVector.h
@@ -58,7 +58,7 @@ public:
   EdgeVector(const EdgeVector&) = default;
 
   ssize_t getBinIndex(VarType value) const final {
-    if (value < m_edges.front() || value > m_edges.back())
+    if (!(value >= m_edges.front() && value <= m_edges.back()))
       return -1;
     auto next_edge = std::find_if(m_edges.begin(), m_edges.end(), [value](const VarType edge) { return edge > value; });
     if (next_edge == m_edges.end())
-- 
2.43.0


From b2ec7d7b2e107e9c0a9cb8515d494f18274016cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:15 +0000
Subject: [PATCH 55/69] fix: the median of a histogram was not interpolated in
 the bin that has it

---
 Histogram/Histogram/_impl/ComputationImpl.icpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/Histogram/Histogram/_impl/ComputationImpl.icpp b/Histogram/Histogram/_impl/ComputationImpl.icpp
index 2af6c21..06367b4 100644
--- a/Histogram/Histogram/_impl/ComputationImpl.icpp
+++ b/Histogram/Histogram/_impl/ComputationImpl.icpp
@@ -51,14 +51,16 @@ std::tuple<VarType, VarType, VarType> Histogram<VarType, WeightType>::Computatio
 
   assert(low_sum + high_sum == total_count);
 
+  // low_sum is what is below the edge between high_i and low_i, and high_sum what is above
   VarType median;
-  if (high_i >= 0) {
-    auto edges      = m_binning.getBinEdges(high_i + 1);
-    auto bin_width  = (edges.second - edges.first);
-    auto max_counts = std::max((*m_counts)[low_i], (*m_counts)[high_i]);
-    median          = edges.first + bin_width * (high_sum - low_sum) / (2.0 * max_counts);
+  if (low_sum > high_sum) {
+    auto edges = m_binning.getBinEdges(high_i);
+    median     = edges.second - (edges.second - edges.first) * (low_sum - high_sum) / (2.0 * (*m_counts)[high_i]);
+  } else if (low_sum < high_sum) {
+    auto edges = m_binning.getBinEdges(low_i);
+    median     = edges.first + (edges.second - edges.first) * (high_sum - low_sum) / (2.0 * (*m_counts)[low_i]);
   } else {
-    median = m_binning.getBin(0);
+    median = m_binning.getEdge(low_i);
   }
 
   return std::make_tuple(mean, median, sigma);
-- 
2.43.0


From e58f69afb75718809287b47523be1ba48a87c9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:15 +0000
Subject: [PATCH 56/69] fix: the edges and bins of a clipped histogram did not
 match its counts

---
 Histogram/Histogram/Histogram.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Histogram/Histogram/Histogram.h b/Histogram/Histogram/Histogram.h
index 869e275..67b3489 100644
--- a/Histogram/Histogram/Histogram.h
+++ b/Histogram/Histogram/Histogram.h
@@ -236,7 +236,9 @@ public:
    *    The number of edges is equal to the number of bins + 1
    */
   std::vector<VarType> getEdges() const {
-    return m_binning_concept->getBinStrategy().getEdges();
+    auto edges = m_binning_concept->getBinStrategy().getEdges();
+    return std::vector<VarType>(edges.begin() + m_binning_concept->m_clip_left,
+                                edges.begin() + m_binning_concept->m_clip_right + 2);
   }
 
   /**
@@ -244,8 +246,8 @@ public:
    *    The center of the bins
    */
   std::vector<VarType> getBins() const {
-    std::vector<VarType> bins(m_binning_concept->m_counts->size());
-    size_t               i = 0;
+    std::vector<VarType> bins(m_binning_concept->size());
+    size_t               i = m_binning_concept->m_clip_left;
     std::generate(bins.begin(), bins.end(), [this, &i]() { return m_binning_concept->getBinStrategy().getBin(i++); });
     return bins;
   }
@@ -257,7 +259,7 @@ public:
    *    The edges for the given bin
    */
   std::pair<VarType, VarType> getBinEdges(size_t i) const {
-    return m_binning_concept->getBinStrategy().getBinEdges(i);
+    return m_binning_concept->getBinStrategy().getBinEdges(m_binning_concept->m_clip_left + i);
   }
 
   /**
-- 
2.43.0


From bc24287777bc023addd501cf0033e5566c96a25c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:44:15 +0000
Subject: [PATCH 57/69] fix: the Sqrt and Scott binnings dropped values, and
 divided by zero for integers

---
 Histogram/Histogram/Binning/Scott.h | 17 +++++++++++------
 Histogram/Histogram/Binning/Sqrt.h  | 11 ++++++++---
 2 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/Histogram/Histogram/Binning/Scott.h b/Histogram/Histogram/Binning/Scott.h
index e3b53d8..6b5a088 100644
--- a/Histogram/Histogram/Binning/Scott.h
+++ b/Histogram/Histogram/Binning/Scott.h
@@ -62,8 +62,8 @@ public:
 
     size_t n = end - begin;
 
-    VarType sigma = std::sqrt(variance(acc));
-    VarType h     = 3.5 * sigma / std::pow(n, 1. / 3.);
+    double  sigma = std::sqrt(variance(acc));
+    double  h     = 3.5 * sigma / std::pow(n, 1. / 3.);
     VarType vmin  = min(acc);
     VarType vmax  = max(acc);
 
@@ -75,17 +75,22 @@ public:
 
     VarType range = vmax - vmin;
 
-    m_nbins = std::ceil(range / h);
+    m_nbins = std::max<size_t>(std::ceil(range / h), 1);
 
     m_step  = range / m_nbins;
     m_start = vmin;
     m_end   = vmax;
+    // The bins of integers have to reach the maximum
+    if (std::is_integral<VarType>::value && m_step * static_cast<VarType>(m_nbins) < range)
+      ++m_step;
   }
 
   ssize_t getBinIndex(VarType value) const final {
-    if (value == m_end)
-      return m_nbins - 1;
-    return (value - m_start) / m_step;
+    if (!(value >= m_start && value <= m_end))
+      return -1;
+    // The division may be rounded up to the number of bins
+    ssize_t last = m_nbins - 1;
+    return m_step > 0 ? std::min<ssize_t>((value - m_start) / m_step, last) : last;
   }
 
   std::pair<VarType, VarType> getBinEdges(size_t i) const final {
diff --git a/Histogram/Histogram/Binning/Sqrt.h b/Histogram/Histogram/Binning/Sqrt.h
index f707e96..c30545a 100644
--- a/Histogram/Histogram/Binning/Sqrt.h
+++ b/Histogram/Histogram/Binning/Sqrt.h
@@ -49,12 +49,17 @@ public:
     m_step      = (*minmax.second - *minmax.first) / m_nbins;
     m_start     = *minmax.first;
     m_end       = *minmax.second;
+    // The bins of integers have to reach the maximum
+    if (std::is_integral<VarType>::value && m_step * static_cast<VarType>(m_nbins) < m_end - m_start)
+      ++m_step;
   }
 
   ssize_t getBinIndex(VarType value) const final {
-    if (value == m_end)
-      return m_nbins - 1;
-    return (value - m_start) / m_step;
+    if (!(value >= m_start && value <= m_end))
+      return -1;
+    // The division may be rounded up to the number of bins
+    ssize_t last = m_nbins - 1;
+    return m_step > 0 ? std::min<ssize_t>((value - m_start) / m_step, last) : last;
   }
 
   std::pair<VarType, VarType> getBinEdges(size_t i) const final {
-- 
2.43.0


From 35e075e283371d327c76aa7b976cd9c5802e89e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:32 +0000
Subject: [PATCH 58/69] fix: linearUnitDisk subtracted unsigned coordinates, so
 cells beyond the BMU were never neighbours

---
 SOM/src/lib/NeihbourhoodFunc.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/SOM/src/lib/NeihbourhoodFunc.cpp b/SOM/src/lib/NeihbourhoodFunc.cpp
index f18e643..91dc232 100644
--- a/SOM/src/lib/NeihbourhoodFunc.cpp
+++ b/SOM/src/lib/NeihbourhoodFunc.cpp
@@ -29,8 +29,8 @@ Signature linearUnitDisk(double initial_radius) {
                     std::size_t total_iterations) -> double {
     double iter_factor = 1.0 * (total_iterations - iteration) / total_iterations;
     iter_factor        = iter_factor * iter_factor;  // We compare the squared distances
-    double x           = bmu.first - cell.first;
-    double y           = bmu.second - cell.second;
+    double x           = static_cast<double>(bmu.first) - cell.first;
+    double y           = static_cast<double>(bmu.second) - cell.second;
     double dist_square = x * x + y * y;
     if (dist_square < r_square * iter_factor) {
       return 1.;
-- 
2.43.0


From d89bacc4128816d3ec6098ca95544bf1c73808b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:32 +0000
Subject: [PATCH 59/69] fix: Bootstrap and Jackknife sampling of an empty set
 (or of no samples) read outside of it

---
 SOM/SOM/SamplingPolicy.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/SOM/SOM/SamplingPolicy.h b/SOM/SOM/SamplingPolicy.h
index 7daf2c8..5db6b5a 100644
--- a/SOM/SOM/SamplingPolicy.h
+++ b/SOM/SOM/SamplingPolicy.h
@@ -63,6 +63,10 @@ public:
 
     m_end = end;
 
+    if (begin == end) {
+      return end;
+    }
+
     std::random_device              rd;
     std::mt19937                    gen(rd());
     std::uniform_int_distribution<> dis(0, std::distance(begin, end) - 1);
@@ -126,7 +130,7 @@ public:
     // Set the current iterator at the beginning of the vector and return it
     m_current        = 0;
     m_iter_list_size = m_iter_list.size();
-    return m_iter_list[m_current];
+    return m_iter_list.empty() ? m_end : m_iter_list[m_current];
   }
 
   IterType next(IterType) const override {
-- 
2.43.0


From f2020115eaa514588b2b7459ca0ee64dea99554f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:35 +0000
Subject: [PATCH 60/69] fix: circular configuration dependencies, declared or
 registered, recursed until the stack was exhausted

---
 .../Configuration/_impl/ConfigManager.icpp         | 14 +++++++++++---
 Configuration/src/lib/ConfigManager.cpp            | 13 ++++++++++---
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/Configuration/Configuration/_impl/ConfigManager.icpp b/Configuration/Configuration/_impl/ConfigManager.icpp
index 9287239..0c5eaaf 100644
--- a/Configuration/Configuration/_impl/ConfigManager.icpp
+++ b/Configuration/Configuration/_impl/ConfigManager.icpp
@@ -32,9 +32,17 @@ void ConfigManager::registerConfiguration() {
     throw Elements::Exception() << "Manager with id '" << m_id << "' is closed "
                                 << "for configuration registration";
   }
-  // If the configuration is already registered we do nothing
-  if (m_config_dictionary[{typeid(T)}] == nullptr) {
-    m_config_dictionary[{typeid(T)}].reset(new T{m_id});
+  // If the configuration is already registered we do nothing. The entry is created before the configuration
+  // itself, so configurations which (indirectly) declare themselves as dependency do not recurse here. They are
+  // reported by the closeRegistration().
+  if (m_config_dictionary.find(typeid(T)) == m_config_dictionary.end()) {
+    m_config_dictionary[typeid(T)] = nullptr;
+    try {
+      m_config_dictionary[typeid(T)].reset(new T{m_id});
+    } catch (...) {
+      m_config_dictionary.erase(typeid(T));
+      throw;
+    }
   }
 }
 
diff --git a/Configuration/src/lib/ConfigManager.cpp b/Configuration/src/lib/ConfigManager.cpp
index d86b658..2f0502f 100644
--- a/Configuration/src/lib/ConfigManager.cpp
+++ b/Configuration/src/lib/ConfigManager.cpp
@@ -44,13 +44,19 @@ ConfigManager::ConfigManager(long id) : m_id{id} {}
 
 std::vector<std::type_index>
 hasCircularDependencies(const std::map<std::type_index, std::set<std::type_index>>& dependency_map, const std::type_index& root,
-                        const std::pair<const std::type_index, std::set<std::type_index>>& config_pair) {
+                        const std::pair<const std::type_index, std::set<std::type_index>>& config_pair,
+                        std::set<std::type_index>&                                         visited) {
 
   if (config_pair.second.find(root) != config_pair.second.end()) {
     return {root};
   }
   for (auto& config : config_pair.second) {
-    auto found = hasCircularDependencies(dependency_map, root, *dependency_map.find(config));
+    // Configurations already visited do not lead to the root. Without this check cycles which do not
+    // include the root would be followed forever.
+    if (!visited.insert(config).second) {
+      continue;
+    }
+    auto found = hasCircularDependencies(dependency_map, root, *dependency_map.find(config), visited);
     if (!found.empty()) {
       std::vector<std::type_index> result{config};
       for (auto& type : found) {
@@ -103,7 +109,8 @@ po::options_description ConfigManager::closeRegistration() {
 
   // Check for circular dependencies
   for (auto& pair : m_config_dictionary) {
-    auto found = hasCircularDependencies(m_dependency_map, pair.first, *m_dependency_map.find(pair.first));
+    std::set<std::type_index> visited{};
+    auto                      found = hasCircularDependencies(m_dependency_map, pair.first, *m_dependency_map.find(pair.first), visited);
     if (!found.empty()) {
       logger.error() << "Found circular dependency between configurations:";
       int count = 0;
-- 
2.43.0


From b12cee91d2714b86e3fed92fccd2895b034a9ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:16 +0000
Subject: [PATCH 61/69] fix: a worker must not start another task when one
 failed between its check and the queue

---
 AlexandriaKernel/src/lib/ThreadPool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/AlexandriaKernel/src/lib/ThreadPool.cpp b/AlexandriaKernel/src/lib/ThreadPool.cpp
index 1fb1441..2a57649 100644
--- a/AlexandriaKernel/src/lib/ThreadPool.cpp
+++ b/AlexandriaKernel/src/lib/ThreadPool.cpp
@@ -47,10 +47,10 @@ public:
 
   void operator()() {
     while (m_run_flag.get() && !hasException()) {
-      // Check if there is anything it the queue to be done and get it
+      // Check if there is anything it the queue to be done and get it, unless a task failed meanwhile
       std::unique_ptr<ThreadPool::Task> task_ptr = nullptr;
       std::unique_lock<std::mutex>      lock{m_queue_mutex.get()};
-      if (!m_queue.get().empty()) {
+      if (m_exception_ptr.get() == nullptr && !m_queue.get().empty()) {
         task_ptr = Euclid::make_unique<ThreadPool::Task>(m_queue.get().front());
         m_queue.get().pop_front();
       }
-- 
2.43.0


From 9de9d159689628fd2260ba86be48185ff83fbfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:20:16 +0000
Subject: [PATCH 62/69] fix: the format detection of catalogs read beyond its
 unterminated buffer

---
 Configuration/src/lib/CatalogConfig.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Configuration/src/lib/CatalogConfig.cpp b/Configuration/src/lib/CatalogConfig.cpp
index cbf6c6b..27ec16f 100644
--- a/Configuration/src/lib/CatalogConfig.cpp
+++ b/Configuration/src/lib/CatalogConfig.cpp
@@ -98,8 +98,8 @@ FormatType autoDetectFormatType(fs::path file) {
     std::ifstream        in{file.string()};
     std::array<char, 80> first_header_array;
     in.read(first_header_array.data(), 80);
+    std::string first_header_str(first_header_array.data(), in.gcount());
     in.close();
-    std::string first_header_str{first_header_array.data()};
     if (first_header_str.compare(0, 9, "SIMPLE  =") == 0) {
       result = FormatType::FITS;
     }
-- 
2.43.0


From dc5564f931885c272e23e5e1682f171a7e019f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:46 +0000
Subject: [PATCH 63/69] fix: keywords with special characters were taken for
 regular expressions when looking for parameters

---
 XYDataset/src/lib/AsciiParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/XYDataset/src/lib/AsciiParser.cpp b/XYDataset/src/lib/AsciiParser.cpp
index 56c4962..1d19e62 100644
--- a/XYDataset/src/lib/AsciiParser.cpp
+++ b/XYDataset/src/lib/AsciiParser.cpp
@@ -83,7 +83,9 @@ std::string AsciiParser::getParameter(const std::string& file, const std::string
   std::string  value{};
   std::string  line{};
   std::string  dataset_name{};
-  std::string  reg_ex_str = "^\\s*#\\s*" + key_word + "\\s*:\\s*(.+)\\s*$";
+  // The keyword is a text, even if it has characters which are special in regular expressions
+  std::string  quoted_key = boost::regex_replace(key_word, boost::regex("[.^$|()\\[\\]{}*+?\\\\]"), "\\\\$&");
+  std::string  reg_ex_str = "^\\s*#\\s*" + quoted_key + "\\s*:\\s*(.+)\\s*$";
   boost::regex expression(reg_ex_str);
 
   while (sfile.good()) {
-- 
2.43.0


From 4c09e062f673bfae49879d215b0082d58fa489fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:08 +0000
Subject: [PATCH 64/69] fix: texts which only start with a number were cast to
 it

---
 Table/Table/CastVisitor.h | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Table/Table/CastVisitor.h b/Table/Table/CastVisitor.h
index fd06c6a..67c0409 100644
--- a/Table/Table/CastVisitor.h
+++ b/Table/Table/CastVisitor.h
@@ -38,6 +38,11 @@
 namespace Euclid {
 namespace Table {
 
+/// Checks that a text is a number, given the position where the conversion stopped. Only blanks may follow.
+inline bool isNumber(const std::string& text, const char* end) {
+  return end != text.c_str() && text.find_first_not_of(" \t\n\v\f\r", end - text.c_str()) == std::string::npos;
+}
+
 template <typename To>
 class CastVisitor : public boost::static_visitor<To> {
 
@@ -87,7 +92,7 @@ public:
   double operator()(const std::string& from) const {
     char*  endptr = nullptr;
     double value  = std::strtod(from.c_str(), &endptr);
-    if (endptr == from.c_str()) {
+    if (!isNumber(from, endptr)) {
       throw Elements::Exception() << "CastVisitor cannot convert the string '" << from << "' to " << typeid(double).name();
     }
     if (value == HUGE_VAL || value == -HUGE_VAL) {
@@ -120,7 +125,7 @@ public:
   float operator()(const std::string& from) const {
     char* endptr = nullptr;
     float value  = std::strtof(from.c_str(), &endptr);
-    if (endptr == from.c_str()) {
+    if (!isNumber(from, endptr)) {
       throw Elements::Exception() << "CastVisitor cannot convert the string '" << from << "' to " << typeid(float).name();
     }
     if (value == HUGE_VALF || value == -HUGE_VALF) {
@@ -153,7 +158,7 @@ public:
     char* endptr  = nullptr;
     errno         = 0;
     int64_t value = std::strtoll(from.c_str(), &endptr, 10);
-    if (endptr == from.c_str()) {
+    if (!isNumber(from, endptr)) {
       throw Elements::Exception() << "CastVisitor cannot convert the string '" << from << "' to " << typeid(int64_t).name();
     }
     if (errno == ERANGE) {
@@ -186,7 +191,7 @@ public:
   int32_t operator()(const std::string& from) const {
     char*   endptr = nullptr;
     int64_t value  = std::strtoll(from.c_str(), &endptr, 10);
-    if (endptr == from.c_str()) {
+    if (!isNumber(from, endptr)) {
       throw Elements::Exception() << "CastVisitor cannot convert the string '" << from << "' to " << typeid(int32_t).name();
     }
     if (value > INT32_MAX || value < INT32_MIN) {
-- 
2.43.0


From ae1be49cdb6d45d42af0d037283d12e5a4dbf54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:08 +0000
Subject: [PATCH 65/69] fix: thresholds and flags which only start with a
 number were accepted in filter mapping files

---
 Configuration/src/lib/PhotometricBandMappingConfig.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Configuration/src/lib/PhotometricBandMappingConfig.cpp b/Configuration/src/lib/PhotometricBandMappingConfig.cpp
index 4a5f689..180eaaa 100644
--- a/Configuration/src/lib/PhotometricBandMappingConfig.cpp
+++ b/Configuration/src/lib/PhotometricBandMappingConfig.cpp
@@ -31,6 +31,7 @@ using boost::regex;
 using boost::regex_match;
 using boost::smatch;
 #include <boost/algorithm/string.hpp>
+#include <boost/lexical_cast.hpp>
 
 #include "Configuration/PhotometricBandMappingConfig.h"
 #include "ElementsKernel/Exception.h"
@@ -95,7 +96,7 @@ parseFile(fs::path filename) {
     if (match_res.size() < 5 || match_res.str(4) == "") {
       threshold_mapping.emplace_back(match_res.str(1), 3.0);
     } else {
-      float n = std::stof(match_res.str(4));
+      float n = boost::lexical_cast<float>(boost::trim_copy(match_res.str(4)));
       threshold_mapping.emplace_back(match_res.str(1), n);
     }
 
@@ -103,7 +104,7 @@ parseFile(fs::path filename) {
     if (match_res.size() < 6 || match_res.str(5) == "") {
       convert_from_mag_mapping.emplace_back(match_res.str(1), false);
     } else {
-      bool f = std::stoi(match_res.str(5));
+      bool f = boost::lexical_cast<int>(boost::trim_copy(match_res.str(5)));
       convert_from_mag_mapping.emplace_back(match_res.str(1), f);
     }
 
-- 
2.43.0


From be862890a2210353f7d8dc6fff68d5396f757ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:35 +0000
Subject: [PATCH 66/69] fix: options with names which start with the name of a
 wildcard option were taken as its instances

---
 Configuration/src/lib/ProgramOptionsHelper.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/Configuration/src/lib/ProgramOptionsHelper.cpp b/Configuration/src/lib/ProgramOptionsHelper.cpp
index 53099cf..2ce7741 100644
--- a/Configuration/src/lib/ProgramOptionsHelper.cpp
+++ b/Configuration/src/lib/ProgramOptionsHelper.cpp
@@ -37,13 +37,11 @@ ProgramOptionsHelper::findWildcardNames(const std::vector<std::string>&
                                         const std::map<std::string, boost::program_options::variable_value>& options) {
   std::set<std::string> result;
   for (auto& option_name : option_name_list) {
+    // The names of other options can start with the same characters, but not with the separator too
+    auto prefix = wildcard(option_name, "");
     for (auto& pair : options) {
-      if (boost::starts_with(pair.first, option_name)) {
-        auto name = pair.first.substr(option_name.size());
-        if (!name.empty()) {
-          name = name.substr(1);
-        }
-        result.insert(name);
+      if (boost::starts_with(pair.first, prefix)) {
+        result.insert(pair.first.substr(prefix.size()));
       }
     }
   }
-- 
2.43.0


From fe3f550db7225a41742296f20f8fc45e10b6f925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:54 +0000
Subject: [PATCH 67/69] fix: shapes with more elements than can be counted were
 accepted when the product of the sizes wrapped around to the number of
 elements

---
 NdArray/NdArray/_impl/NdArray.icpp | 33 +++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 7 deletions(-)

diff --git a/NdArray/NdArray/_impl/NdArray.icpp b/NdArray/NdArray/_impl/NdArray.icpp
index d0d0c7a..7072860 100644
--- a/NdArray/NdArray/_impl/NdArray.icpp
+++ b/NdArray/NdArray/_impl/NdArray.icpp
@@ -20,10 +20,29 @@
 
 #include <algorithm>
 #include <cstring>
+#include <limits>
 
 namespace Euclid {
 namespace NdArray {
 
+/**
+ * Number of elements of an array with the given shape. When there are more than what can be counted, the
+ * maximum is returned, which no container can have.
+ */
+inline size_t shapeSize(const std::vector<size_t>& shape) {
+  if (std::find(shape.begin(), shape.end(), size_t{0}) != shape.end()) {
+    return 0;
+  }
+  size_t size = 1;
+  for (auto s : shape) {
+    if (size > std::numeric_limits<size_t>::max() / s) {
+      return std::numeric_limits<size_t>::max();
+    }
+    size *= s;
+  }
+  return size;
+}
+
 template <typename T>
 template <bool Const>
 NdArray<T>::Iterator<Const>::Iterator(ContainerInterface* container_ptr, size_t offset, const std::vector<size_t>& shape,
@@ -151,7 +170,7 @@ template <typename T>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
+    , m_size{shapeSize(m_shape)}
     , m_container(new ContainerWrapper<std::vector>(m_size)) {
   update_strides();
 }
@@ -161,7 +180,7 @@ template <template <class...> class Container>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, const Container<T>& data)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
+    , m_size{shapeSize(m_shape)}
     , m_container{new ContainerWrapper<Container>(data)} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -174,7 +193,7 @@ template <template <class...> class Container>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, Container<T>&& data)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
+    , m_size{shapeSize(m_shape)}
     , m_container{new ContainerWrapper<Container>(std::move(data))} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -187,7 +206,7 @@ template <typename II>
 NdArray<T>::NdArray(const std::vector<size_t>& shape_, II ibegin, II iend)
     : m_offset{0}
     , m_shape{shape_}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
+    , m_size{shapeSize(m_shape)}
     , m_container{new ContainerWrapper<std::vector>(ibegin, iend)} {
   if (m_size != m_container->size()) {
     throw std::invalid_argument("Data size does not match the shape");
@@ -200,7 +219,7 @@ NdArray<T>::NdArray(const self_type* other)
     : m_offset{0}
     , m_shape{other->m_shape}
     , m_attr_names{other->m_attr_names}
-    , m_size{std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>())}
+    , m_size{shapeSize(m_shape)}
     , m_container{new ContainerWrapper<std::vector>(m_size)} {
   // The other may be a view, so only what it can see is copied
   const_iterator iter = other->begin();
@@ -226,7 +245,7 @@ auto NdArray<T>::reshape(const std::vector<size_t> new_shape) -> self_type& {
   if (!m_attr_names.empty())
     throw std::invalid_argument("Can not reshape arrays with attribute names");
 
-  size_t new_size = std::accumulate(new_shape.begin(), new_shape.end(), size_t{1}, std::multiplies<size_t>());
+  size_t new_size = shapeSize(new_shape);
   if (new_size != m_size) {
     throw std::range_error("New shape does not match the number of contained elements");
   }
@@ -361,7 +380,7 @@ template <typename T>
 NdArray<T>::NdArray(std::shared_ptr<ContainerInterface> container, size_t offset, std::vector<size_t> shape_,
                     std::vector<size_t> stride, std::vector<std::string> attr_names)
     : m_offset{offset}, m_shape{shape_}, m_stride_size{stride}, m_attr_names{attr_names}, m_container{container} {
-  m_size = std::accumulate(m_shape.begin(), m_shape.end(), size_t{1}, std::multiplies<size_t>());
+  m_size = shapeSize(m_shape);
 }
 
 template <typename T>
-- 
2.43.0


From 3649c10c36bcd87b7ed0bf71ea0e57acfc637134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:34 +0000
Subject: [PATCH 68/69] fix: numpy headers with a total size which wraps around
 were accepted

---
 NdArray/NdArray/io/_impl/NpyCommon.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/NdArray/NdArray/io/_impl/NpyCommon.h b/NdArray/NdArray/io/_impl/NpyCommon.h
index 9126d45..9c2a10b 100644
--- a/NdArray/NdArray/io/_impl/NpyCommon.h
+++ b/NdArray/NdArray/io/_impl/NpyCommon.h
@@ -24,6 +24,7 @@
 #include <boost/filesystem/operations.hpp>
 #include <boost/iostreams/device/mapped_file.hpp>
 #include <boost/regex.hpp>
+#include <limits>
 
 namespace Euclid {
 namespace NdArray {
@@ -227,7 +228,15 @@ inline void parseNpyDict(const std::string& header, bool& fortran_order, bool& b
   if (shape.empty() && attrs.empty()) {
     throw Elements::Exception() << "Zero dimensional arrays are not supported";
   }
-  n_elements = std::accumulate(shape.begin(), shape.end(), size_t{1}, std::multiplies<size_t>());
+  // The total size, in bytes, must not wrap around
+  size_t limit = std::numeric_limits<size_t>::max() / sizeof(double) / std::max(attrs.size(), size_t{1});
+  n_elements   = 1;
+  for (auto s : shape) {
+    if (s > 0 && n_elements > limit / s) {
+      throw Elements::Exception() << "The array is too big: " << header;
+    }
+    n_elements *= s;
+  }
 }
 
 /**
-- 
2.43.0


From ba65b4563b245af9a83c7fcce8b027b927ab26bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:32 +0000
Subject: [PATCH 69/69] fix: several grids in one archive all got the axes of
 the first one

---
 GridContainer/GridContainer/serialization/GridContainer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/GridContainer/GridContainer/serialization/GridContainer.h b/GridContainer/GridContainer/serialization/GridContainer.h
index 1e7b9a5..3ac4805 100644
--- a/GridContainer/GridContainer/serialization/GridContainer.h
+++ b/GridContainer/GridContainer/serialization/GridContainer.h
@@ -108,7 +108,9 @@ void serialize(Archive& ar, Euclid::GridContainer::GridContainer<GridCellManager
 template <class Archive, typename GridCellManager, typename... AxesTypes>
 void save_construct_data(Archive& ar, const Euclid::GridContainer::GridContainer<GridCellManager, AxesTypes...>* t,
                          const unsigned int) {
-  std::tuple<Euclid::GridContainer::GridAxis<AxesTypes>...> axes_tuple = t->getAxesTuple();
+  // This must not be a copy: archives track objects by address, so the axes of a second grid in the same archive
+  // would be taken for those of the first one
+  const std::tuple<Euclid::GridContainer::GridAxis<AxesTypes>...>& axes_tuple = t->getAxesTuple();
   ar << axes_tuple;
 }
 
-- 
2.43.0

