From e6df6dd0321e64a186368c7c0ff55a27a4872d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:13 +0000
Subject: [PATCH 01/36] fix: qualify swap so that DoubleBuffer and sorts
 compile for elements from namespace std

---
 include/efp/concurrency.hpp | 2 +-
 include/efp/sort.hpp        | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 5f137bb..f4d5ad5 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -219,7 +219,7 @@ public:
 
     void swap_buffer() {
         _spinlock.lock();
-        swap(_write_buffer, _read_buffer);
+        efp::swap(_write_buffer, _read_buffer);
         _spinlock.unlock();
     }
 
diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index afb6be4..d9b73f0 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -65,7 +65,7 @@ void max_heapify_by(Vector<A>& arr, size_t n, size_t i, const F& comp) {
         largest = right;
 
     if (largest != i) {
-        swap(arr[i], arr[largest]);
+        efp::swap(arr[i], arr[largest]);
         max_heapify_by(arr, n, largest, comp);
     }
 }
@@ -84,7 +84,7 @@ void heapsort_by(Vector<A>& arr, const F& comp) {
 
     // One by one extract an element from heap
     for (size_t i = n; i-- > 1;) {  // Start from n and decrement; stop at 1 to avoid underflow
-        swap(arr[0], arr[i]);       // Move current root to end
+        efp::swap(arr[0], arr[i]);       // Move current root to end
         max_heapify_by(arr, i, 0, comp);  // call max heapify on the reduced heap
     }
 }
@@ -122,10 +122,10 @@ size_t partition_by(Vector<A>& arr, size_t low, size_t high, const F& comp) {
     for (size_t j = low; j < high; j++) {
         if (comp(arr[j], pivot)) {
             i++;
-            swap(arr[i], arr[j]);
+            efp::swap(arr[i], arr[j]);
         }
     }
-    swap(arr[i + 1], arr[high]);
+    efp::swap(arr[i + 1], arr[high]);
     return (i + 1);
 }
 
-- 
2.43.0


From 2cb201b1b75d1b64e8432c01ff98240ce62dc894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:39 +0000
Subject: [PATCH 02/36] fix: NonBlockingQ::is_empty reads the queue under its
 lock

---
 include/efp/concurrency.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index f4d5ad5..5433e77 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -128,6 +128,7 @@ public:
     }
 
     bool is_empty() {
+        std::lock_guard<std::mutex> lock(_m);
         return _q.empty();
     }
 
@@ -169,6 +170,7 @@ public:
     }
 
     bool is_empty() {
+        std::lock_guard<std::mutex> lock(_m);
         return _q.empty();
     }
 
-- 
2.43.0


From 0b648c95bb9fed41df3c5592f8f86dd1ed509dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:39 +0000
Subject: [PATCH 03/36] fix: BlockingQ::dequeue moves the element out, so a
 failing copy does not lose a wake-up

---
 include/efp/concurrency.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 5433e77..321e3b4 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -95,7 +95,8 @@ public:
             // release lock as long as the wait and reaquire it afterwards.
             _c.wait(lock);
         }
-        A val = _q.front();
+        // Move, so that a failing copy cannot swallow the notification
+        A val = efp::move(_q.front());
         _q.pop();
         return val;
     }
-- 
2.43.0


From 50448ef0c4f0883d4d21564e79c65dd0f252368b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:39 +0000
Subject: [PATCH 04/36] fix: DoubleBuffer constructor does not leak when the
 second allocation fails

---
 include/efp/concurrency.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 321e3b4..99a0f38 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -198,8 +198,11 @@ private:
 template<typename A, size_t capacity>
 class DoubleBuffer {
 public:
-    explicit DoubleBuffer()
-        : _read_buffer(new Vcq<A, capacity> {}), _write_buffer(new Vcq<A, capacity> {}) {}
+    explicit DoubleBuffer() : _read_buffer(nullptr), _write_buffer(nullptr) {
+        std::unique_ptr<Vcq<A, capacity>> read_buffer(new Vcq<A, capacity> {});
+        _write_buffer = new Vcq<A, capacity> {};
+        _read_buffer = read_buffer.release();
+    }
 
     DoubleBuffer(const DoubleBuffer& other) = default;
 
-- 
2.43.0


From 5be8936160d01fba58ea4f156758cbb2a4197756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:55:39 +0000
Subject: [PATCH 05/36] fix: DoubleBuffer::enqueue releases its lock when
 copying the element throws

---
 include/efp/concurrency.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/efp/concurrency.hpp b/include/efp/concurrency.hpp
index 99a0f38..485a46b 100644
--- a/include/efp/concurrency.hpp
+++ b/include/efp/concurrency.hpp
@@ -218,9 +218,8 @@ public:
     }
 
     void enqueue(const A& a) {
-        _spinlock.lock();
+        std::lock_guard<Spinlock> lock(_spinlock);
         _write_buffer->push_back(a);
-        _spinlock.unlock();
     }
 
     void swap_buffer() {
-- 
2.43.0


From 4668fe3029f00793b562b532285ae4855686e225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:04 +0000
Subject: [PATCH 06/36] fix: Vcq copy and move take the elements from where
 they are stored, and survive self-assignment

The copy and move operations read the i-th slot of the other buffer for the
i-th element, although the elements start at the read position: after any
pop_front or overwrite they copied destroyed slots and lost live ones.
---
 include/efp/cyclic.hpp | 46 ++++++++++++------------------------------
 1 file changed, 13 insertions(+), 33 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index efb6db3..6378d94 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -178,41 +178,17 @@ class Vcq {
         _write = _buffer;
     }
 
-    Vcq(const Vcq& other) {
-        const auto read_offset = other._read - other._buffer;
+    Vcq(const Vcq& other) : Vcq() {
         for (size_t i = 0; i < other._size; ++i) {
-            const auto j =
-                read_offset + i < ct_capacity ? read_offset + i : read_offset + i - ct_capacity;
-            new (_buffer + j) A(other._buffer[i]);
-            new (_buffer + ct_capacity + j) A(other._buffer[i]);
+            push_back(other._read[i]);
         }
-
-        _size = other._size;
-        _read = _buffer + (other._read - other._buffer);
-        _write = _buffer + (other._write - other._buffer);
     }
 
     Vcq& operator=(const Vcq& other) {
-        const auto read_offset = _read - _buffer;
-        for (size_t i = 0; i < _size; ++i) {
-            const auto j =
-                read_offset + i < ct_capacity ? read_offset + i : read_offset + i - ct_capacity;
-            (_buffer + j)->~A();
-            (_buffer + ct_capacity + j)->~A();
+        if (this != &other) {
+            Vcq copy(other);
+            *this = efp::move(copy);
         }
-
-        const auto read_offset_other = other._read - other._buffer;
-        for (size_t i = 0; i < other._size; ++i) {
-            const auto j = read_offset_other + i < ct_capacity
-                ? read_offset_other + i
-                : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(other._buffer[i]);
-            new (_buffer + ct_capacity + j) A(other._buffer[i]);
-        }
-
-        _size = other._size;
-        _read = _buffer + (other._read - other._buffer);
-        _write = _buffer + (other._write - other._buffer);
         return *this;
     }
 
@@ -222,8 +198,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(efp::move(other._buffer[i]));
-            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[i]));
+            new (_buffer + j) A(efp::move(other._buffer[j]));
+            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[ct_capacity + j]));
         }
 
         _size = other._size;
@@ -232,6 +208,10 @@ class Vcq {
     }
 
     Vcq& operator=(Vcq&& other) noexcept {
+        if (this == &other) {
+            return *this;
+        }
+
         const auto read_offset = _read - _buffer;
         for (size_t i = 0; i < _size; ++i) {
             const auto j =
@@ -245,8 +225,8 @@ class Vcq {
             const auto j = read_offset_other + i < ct_capacity
                 ? read_offset_other + i
                 : read_offset_other + i - ct_capacity;
-            new (_buffer + j) A(efp::move(other._buffer[i]));
-            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[i]));
+            new (_buffer + j) A(efp::move(other._buffer[j]));
+            new (_buffer + ct_capacity + j) A(efp::move(other._buffer[ct_capacity + j]));
         }
 
         _size = other._size;
-- 
2.43.0


From 10d93755afd87ac7579d3b3d0eb39083c89617f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:04 +0000
Subject: [PATCH 07/36] fix: Vcq::push_back leaves the queue intact when
 copying the element fails

The oldest element was destroyed before the new one was copied, so a throwing
copy left destroyed slots in the queue (destroyed again later), or leaked the
first of the two copies; pushing an element of the full queue itself read it
after its destruction.
---
 include/efp/cyclic.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 6378d94..ed9236d 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -254,13 +254,17 @@ class Vcq {
     }
 
     void push_back(const A& value) {
+        // Copies may fail or refer to the oldest element, so they come before it is destroyed
+        A copy {value};
+        A mirror {value};
+
         if (_size == ct_capacity) {  // Has to destroy the oldest element if the buffer is full
             _write->~A();
             (_write + ct_capacity)->~A();
         }
 
-        new (_write) A {value};
-        new (_write + ct_capacity) A {value};
+        new (_write) A {efp::move(copy)};
+        new (_write + ct_capacity) A {efp::move(mirror)};
 
         ++_write;
         _write -= ct_capacity * (_write == _buffer + ct_capacity);
-- 
2.43.0


From ac8e6c9a7c3cec4e5dda13d11f1116d25713aabc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:04 +0000
Subject: [PATCH 08/36] fix: end() of an empty Vcq equals begin()

---
 include/efp/cyclic.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index ed9236d..314a133 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -317,11 +317,11 @@ class Vcq {
     }
 
     const A* end() const {
-        return _write > _read ? _write : _write + ct_capacity;
+        return _read + _size;
     }
 
     A* end() {
-        return _write > _read ? _write : _write + ct_capacity;
+        return _read + _size;
     }
 
   private:
-- 
2.43.0


From 56b829b72c5231f54e8b36bf267ff2552eb3b3ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:35 +0000
Subject: [PATCH 09/36] fix: Vcb keeps its elements when constructing or
 copying one fails

The default and copy constructors leaked the elements built so far, the copy
assignment and push_back destroyed elements before copying the new ones and
left destroyed slots behind, and move assignment returned a copy.
---
 include/efp/cyclic.hpp | 27 ++++++++++++++++++---------
 include/efp/meta.hpp   | 30 ++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+), 9 deletions(-)

diff --git a/include/efp/cyclic.hpp b/include/efp/cyclic.hpp
index 314a133..f72abbb 100644
--- a/include/efp/cyclic.hpp
+++ b/include/efp/cyclic.hpp
@@ -17,25 +17,28 @@ class Vcb {
     static constexpr size_t ct_capacity = n;
 
     Vcb() {
+        ConstructionGuard<A> guard {_buffer};
         for (size_t i = 0; i < ct_size * 2; ++i) {
-            new (_buffer + i) A {};
+            guard.construct_next();
         }
+        guard.release();
         _data = _buffer;
     }
 
     Vcb(const Vcb& other) {
+        ConstructionGuard<A> guard {_buffer};
         for (size_t i = 0; i < ct_size * 2; ++i) {
-            new (_buffer + i) A(other._buffer[i]);
+            guard.construct_next(other._buffer[i]);
         }
+        guard.release();
         _data = _buffer + (other._data - other._buffer);
     }
 
     Vcb& operator=(const Vcb& other) {
-        for (size_t i = 0; i < ct_size * 2; ++i) {
-            (_buffer + i)->~A();
-            new (_buffer + i) A(other._buffer[i]);
+        if (this != &other) {
+            Vcb copy(other);
+            *this = efp::move(copy);
         }
-        _data = _buffer + (other._data - other._buffer);
         return *this;
     }
 
@@ -47,7 +50,11 @@ class Vcb {
         _data = _buffer + (other._data - other._buffer);
     }
 
-    Vcb operator=(Vcb&& other) noexcept {
+    Vcb& operator=(Vcb&& other) noexcept {
+        if (this == &other) {
+            return *this;
+        }
+
         for (size_t i = 0; i < ct_size * 2; ++i) {
             (_buffer + i)->~A();
             new (_buffer + i) A(efp::move(other._buffer[i]));
@@ -72,11 +79,13 @@ class Vcb {
     }
 
     void push_back(A value) {
+        A mirror {value};
+
         _data->~A();
         (_data + ct_size)->~A();
 
-        new (_data) A {value};
-        new (_data + ct_size) A {value};
+        new (_data) A {efp::move(value)};
+        new (_data + ct_size) A {efp::move(mirror)};
 
         ++_data;
         _data -= ct_size * (_data == _buffer + ct_capacity);
diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 6e531f7..938e736 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -891,6 +891,36 @@ struct RawStorage {
     }
 };
 
+// Constructs elements in raw storage one by one, and destroys those again unless released
+template<typename A>
+class ConstructionGuard {
+  public:
+    explicit ConstructionGuard(A* data) : _data(data) {}
+
+    ConstructionGuard(const ConstructionGuard&) = delete;
+    ConstructionGuard& operator=(const ConstructionGuard&) = delete;
+
+    ~ConstructionGuard() {
+        while (_size > 0) {
+            _data[--_size].~A();
+        }
+    }
+
+    template<typename... Args>
+    void construct_next(Args&&... args) {
+        new (_data + _size) A(efp::forward<Args>(args)...);
+        ++_size;
+    }
+
+    void release() {
+        _size = 0;
+    }
+
+  private:
+    A* _data;
+    size_t _size = 0;
+};
+
 // TypeList
 template<typename... As>
 struct TypeList {};
-- 
2.43.0


From 317e80ee2968d40a1e8e392906a9b868b6881eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:01 +0000
Subject: [PATCH 10/36] fix: moving a File carries its mode, and move
 assignment closes the overwritten stream

The mode of a moved File was left uninitialised and then searched by write;
every File obtained from open is moved. Move assignment leaked the stream it
replaced.
---
 include/efp/io.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 82daea1..97d05e0 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -38,12 +38,17 @@ public:
     File& operator=(const File&) = delete;
 
     File(File&& other) noexcept : _file(other._file) {
+        std::memcpy(_mode, other._mode, sizeof(_mode));
         other._file = nullptr;
     }
 
     File& operator=(File&& other) noexcept {
         if (this != &other) {
+            if (_file)
+                std::fclose(_file);
+
             _file = other._file;
+            std::memcpy(_mode, other._mode, sizeof(_mode));
             other._file = nullptr;
         }
         return *this;
-- 
2.43.0


From 59b0f4b2f5b9385532cca44e87d3d36a0f3f1f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:41 +0000
Subject: [PATCH 11/36] fix: File::close lets go of the stream also when fclose
 fails

fclose disposes of the stream even if it fails; the File kept the pointer, and
any later call, including its destructor, used or closed it again.
---
 include/efp/io.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index 97d05e0..e307d1a 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -150,12 +150,14 @@ public:
     }
 
     bool close() {
-        if (_file && std::fclose(_file) != EOF) {
-            _file = nullptr;
-            return true;
-        }
+        if (_file == nullptr)
+            return false;
+
+        // The stream is gone even if closing it reports a failure
+        FILE* file = _file;
+        _file = nullptr;
 
-        return false;
+        return std::fclose(file) != EOF;
     }
 
 private:
-- 
2.43.0


From 1cff8042b967a4a73758ed142d9a0cdeda2e1ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:16:41 +0000
Subject: [PATCH 12/36] fix: flush, seek and tell on a closed or moved-from
 File report failure

They passed a null stream to stdio (flush flushed every stream of the process,
seek and tell crashed), and tell truncated positions beyond INT_MAX.
---
 include/efp/io.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index e307d1a..f142ce8 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -138,14 +138,23 @@ public:
     }
 
     int flush() {
+        if (_file == nullptr)
+            return EOF;
+
         return std::fflush(_file);
     }
 
     bool seek(long offset) {
+        if (_file == nullptr)
+            return false;
+
         return std::fseek(_file, offset, SEEK_SET) == 0;
     }
 
-    int tell() {
+    long tell() {
+        if (_file == nullptr)
+            return -1;
+
         return std::ftell(_file);
     }
 
-- 
2.43.0


From 743dfd0a6221988c65b43c5fe9888acddb7f654d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 13/36] fix: copying a Vector copies size and contents, or
 fails without effect

The copy of a default-constructed Vector had an uninitialised data pointer,
which its destructor released. Copy assignment kept the old size when the
capacity sufficed, destroyed its elements before copying the new ones, and
terminated the program when an allocation failed. A failing element copy
leaked the storage.
---
 include/efp/sequence.hpp | 38 ++++++++++++--------------------------
 1 file changed, 12 insertions(+), 26 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index e8ab096..2ff7762 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -556,36 +556,22 @@ namespace detail {
 
         VectorBase() : _allocator(Allocator()), _data(nullptr), _size(0), _capacity(0) {}
 
-        VectorBase(const VectorBase& other)
-            : _allocator(other._allocator), _size(other._size), _capacity(other._capacity) {
-            if (other._data) {
-                // Member function call in not allowed in member initializer list
-                // _data = _allocator.allocate(_capacity);
-                _data = AllocatorTraits<Allocator>::allocate(_allocator, _capacity);
-
-                for (size_t i = 0; i < _size; ++i) {
-                    // _allocator.construct(_data + i, other._data[i]);
-                    AllocatorTraits<Allocator>::construct(_allocator, _data + i, other._data[i]);
-                }
+        // Delegating, so that the destructor cleans up if copying an element fails
+        VectorBase(const VectorBase& other) : VectorBase() {
+            _allocator = other._allocator;
+            reserve(other._capacity);
+
+            for (size_t i = 0; i < other._size; ++i) {
+                // _allocator.construct(_data + i, other._data[i]);
+                AllocatorTraits<Allocator>::construct(_allocator, _data + i, other._data[i]);
+                ++_size;
             }
         }
 
-        // todo copy_and_swap
-        VectorBase& operator=(const VectorBase& other) noexcept {
+        VectorBase& operator=(const VectorBase& other) {
             if (this != &other) {
-                for (size_t i = 0; i < _size; ++i) {
-                    // _allocator.destroy(_data + i);
-                    AllocatorTraits<Allocator>::destroy(_allocator, _data + i);
-                }
-
-                if (_capacity < other._size + 1) {
-                    resize(other._size);
-                }
-
-                for (size_t i = 0; i < other._size; ++i) {
-                    // _allocator.construct(_data + i, other._data[i]);
-                    AllocatorTraits<Allocator>::construct(_allocator, _data + i, other._data[i]);
-                }
+                VectorBase copy(other);
+                *this = efp::move(copy);
             }
 
             return *this;
-- 
2.43.0


From 0f09f004438a8b13466bbcdc5aafeb546f22c4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 14/36] fix: a Vector constructor whose element copy fails
 leaks nothing

---
 include/efp/sequence.hpp | 30 +++++++++++++-----------------
 1 file changed, 13 insertions(+), 17 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 2ff7762..4c35527 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -606,39 +606,35 @@ namespace detail {
             return *this;
         }
 
-        VectorBase(InitializerList<Element> il)
-            : _allocator(Allocator()), _size(il.size()), _capacity(il.size() + 1) {
-            // _data = _allocator.allocate(_capacity);
-            _data = AllocatorTraits<Allocator>::allocate(_allocator, _capacity);
+        VectorBase(InitializerList<Element> il) : VectorBase() {
+            reserve(il.size() + 1);
 
-            size_t index = 0;
             for (const auto& e : il) {
-                // _allocator.construct(_data + index++, e);
-                AllocatorTraits<Allocator>::construct(_allocator, _data + index++, e);
+                // _allocator.construct(_data + _size, e);
+                AllocatorTraits<Allocator>::construct(_allocator, _data + _size, e);
+                ++_size;
             }
         }
 
         template<size_t ct_size_>
-        VectorBase(const Array<Element, ct_size_>& as)
-            : _allocator(Allocator()), _size(ct_size_), _capacity(ct_size_ + 1) {
-            // _data = _allocator.allocate(_capacity);
-            _data = AllocatorTraits<Allocator>::allocate(_allocator, _capacity);
+        VectorBase(const Array<Element, ct_size_>& as) : VectorBase() {
+            reserve(ct_size_ + 1);
 
-            for (size_t i = 0; i < _size; ++i) {
+            for (size_t i = 0; i < ct_size_; ++i) {
                 // _allocator.construct(_data + i, as[i]);
                 AllocatorTraits<Allocator>::construct(_allocator, _data + i, as[i]);
+                ++_size;
             }
         }
 
         template<size_t ct_cap_>
-        VectorBase(const ArrVec<Element, ct_cap_>& as)
-            : _allocator(Allocator()), _size(as.size()), _capacity(as.size() + 1) {
-            // _data = _allocator.allocate(_capacity);
-            _data = AllocatorTraits<Allocator>::allocate(_allocator, _capacity);
+        VectorBase(const ArrVec<Element, ct_cap_>& as) : VectorBase() {
+            reserve(as.size() + 1);
 
-            for (size_t i = 0; i < _size; ++i) {
+            for (size_t i = 0; i < as.size(); ++i) {
                 // _allocator.construct(_data + i, as[i]);
                 AllocatorTraits<Allocator>::construct(_allocator, _data + i, as[i]);
+                ++_size;
             }
         }
 
-- 
2.43.0


From a1534814571404dfb6c2b9316e0da357a8782bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 15/36] fix: resize of Vector and ArrVec constructs new
 elements and destroys dropped ones

Only the size was changed: growing exposed raw memory as elements, to which
map, append and the other sequence functions then assigned, and shrinking
leaked.
---
 include/efp/sequence.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 4c35527..a1ed946 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -360,6 +360,16 @@ public:
             throw RuntimeError("ArrVec::resize: length must be less than or equal to ct_capacity");
         }
 
+        while (_size > length) {
+            pop_back();
+        }
+
+        ConstructionGuard<Element> guard {_data + _size};
+        for (size_t i = _size; i < length; ++i) {
+            guard.construct_next();
+        }
+        guard.release();
+
         _size = length;
     }
 
@@ -692,6 +702,16 @@ namespace detail {
                 reserve(new_size + 1);
             }
 
+            while (_size > new_size) {
+                pop_back();
+            }
+
+            ConstructionGuard<Element> guard {_data + _size};
+            for (size_t i = _size; i < new_size; ++i) {
+                guard.construct_next();
+            }
+            guard.release();
+
             _size = new_size;
         }
 
-- 
2.43.0


From 65038c5911ed6db0f6e5d38916ab5ddc3798d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 16/36] fix: insert and erase of Vector keep element lifetimes
 right

insert assigned to the raw slot behind the last element and then constructed
over a live one; erase assigned to the destroyed element and never destroyed
the last one. insert of an element of the vector itself read it after it had
moved.
---
 include/efp/sequence.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index a1ed946..1691e5b 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -820,16 +820,24 @@ namespace detail {
                 throw RuntimeError("VectorBase::insert: index must be less than or equal to size");
             }
 
+            // Copying may fail, and the value may be an element that is about to move
+            Element copy(value);
+
             if (_size + 1 >= _capacity) {
                 reserve(_capacity == 0 ? 2 : 2 * _capacity);
             }
 
             for (size_t i = _size; i > index; --i) {
-                _data[i] = efp::move(_data[i - 1]);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + i,
+                    efp::move(_data[i - 1])
+                );
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + i - 1);
             }
 
-            // _allocator.construct(_data + index, value);
-            AllocatorTraits<Allocator>::construct(_allocator, _data + index, value);
+            // _allocator.construct(_data + index, efp::move(copy));
+            AllocatorTraits<Allocator>::construct(_allocator, _data + index, efp::move(copy));
             ++_size;
         }
 
@@ -842,7 +850,12 @@ namespace detail {
             AllocatorTraits<Allocator>::destroy(_allocator, _data + index);
 
             for (size_t i = index; i < _size - 1; ++i) {
-                _data[i] = efp::move(_data[i + 1]);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    _data + i,
+                    efp::move(_data[i + 1])
+                );
+                AllocatorTraits<Allocator>::destroy(_allocator, _data + i + 1);
             }
 
             --_size;
-- 
2.43.0


From 91ec554153294d07607619768ef02aaedede552f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 17/36] fix: push_back and emplace_back of an element of the
 same Vector

When the vector had to grow, the argument was read after its storage had been
released.
---
 include/efp/sequence.hpp | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 1691e5b..7f84c52 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -772,29 +772,36 @@ namespace detail {
         }
 
         void push_back(const Element& value) {
-            if (_size + 1 >= _capacity) {
-                reserve(_size == 0 ? 2 : 2 * _size + 1);
-            }
-
-            // _allocator.construct(_data + _size, value);
-            AllocatorTraits<Allocator>::construct(_allocator, _data + _size, value);
-            ++_size;
+            emplace_back(value);
         }
 
         void push_back(Element&& value) {
-            if (_size + 1 >= _capacity) {
-                reserve(_size == 0 ? 2 : 2 * _size + 1);
-            }
-
-            // _allocator.construct(_data + _size, efp::move(value));
-            AllocatorTraits<Allocator>::construct(_allocator, _data + _size, efp::move(value));
-            ++_size;
+            emplace_back(efp::move(value));
         }
 
         template<typename... Args>
         void emplace_back(Args&&... args) {
             if (_size + 1 >= _capacity) {
-                reserve(_size == 0 ? 2 : 2 * _size + 1);
+                // The arguments may refer to an element, so the new one is built before they move
+                VectorBase grown;
+                grown.reserve(_size == 0 ? 2 : 2 * _size + 1);
+                AllocatorTraits<Allocator>::construct(
+                    _allocator,
+                    grown._data + _size,
+                    efp::forward<Args>(args)...
+                );
+
+                for (size_t i = 0; i < _size; ++i) {
+                    AllocatorTraits<Allocator>::construct(
+                        _allocator,
+                        grown._data + i,
+                        efp::move(_data[i])
+                    );
+                }
+                grown._size = _size + 1;
+
+                *this = efp::move(grown);
+                return;
             }
 
             // _allocator.construct(_data + _size, efp::forward<Args>(args)...);
-- 
2.43.0


From 8855085e0f0a23109ab609aeb70f9c24b4a8c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 18/36] fix: Array survives a failing element copy

Constructors leaked the elements made so far, and copy assignment destroyed an
element before copying its replacement, so a failing copy left a destroyed
element behind that was destroyed again.
---
 include/efp/sequence.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 7f84c52..3b55ec1 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -52,23 +52,25 @@ public:
 
     Array() {
         // By definition all of the data in Array should be valid
+        ConstructionGuard<Element> guard {_data};
         for (size_t i = 0; i < ct_size; ++i) {
-            new (_data + i) Element {};
+            guard.construct_next();
         }
+        guard.release();
     }
 
     Array(const Array& other) {
+        ConstructionGuard<Element> guard {_data};
         for (size_t i = 0; i < ct_size; ++i) {
-            new (_data + i) Element {other._data[i]};
+            guard.construct_next(other._data[i]);
         }
+        guard.release();
     }
 
     Array& operator=(const Array& other) {
         if (this != &other) {
-            for (size_t i = 0; i < ct_size; ++i) {
-                (_data + i)->~Element();                   // Destroy each element
-                new (_data + i) Element {other._data[i]};  // Copy-construct each element
-            }
+            Array copy(other);
+            *this = efp::move(copy);
         }
         return *this;
     }
@@ -100,10 +102,11 @@ public:
             throw RuntimeError("Array::Array: number of arguments must be equal to ct_size");
         }
 
-        size_t index = 0;
+        ConstructionGuard<Element> guard {_data};
         for (const auto& e : il) {
-            new (_data + index++) Element {e};
+            guard.construct_next(e);
         }
+        guard.release();
     }
 
     Element& operator[](size_t index) {
-- 
2.43.0


From e5944f264479e2889bc63492aa5973da4586d0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 19/36] fix: ArrVec survives a failing element copy, and
 converts by actual size

push_back counted the new element before it was built, insert opened a gap
before copying, and copying destroyed or leaked elements when a copy failed.
Conversion from a smaller ArrVec copied its whole capacity instead of its
elements; insert of an own element read it after it had moved.
---
 include/efp/sequence.hpp | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 3b55ec1..0b67789 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -254,23 +254,17 @@ public:
         // By definition none of the data in ArrVec of size 0 should be valid
     }
 
-    ArrVec(const ArrVec& other) : _size {other._size} {
-        for (size_t i = 0; i < _size; ++i) {
-            new (_data + i) Element {other._data[i]};
+    // Delegating, so that the destructor cleans up if copying an element fails
+    ArrVec(const ArrVec& other) : ArrVec() {
+        for (size_t i = 0; i < other._size; ++i) {
+            push_back(other._data[i]);
         }
     }
 
     ArrVec& operator=(const ArrVec& other) {
         if (this != &other) {
-            for (size_t i = 0; i < _size; ++i) {
-                (_data + i)->~Element();
-            }
-
-            _size = other._size;
-
-            for (size_t i = 0; i < _size; ++i) {
-                new (_data + i) Element {other._data[i]};  // Copy-construct each element
-            }
+            ArrVec copy(other);
+            *this = efp::move(copy);
         }
         return *this;
     }
@@ -309,22 +303,21 @@ public:
 
     // Constructor from array
     template<size_t ct_size_, typename = EnableIf<ct_capacity >= ct_size_, void>>
-    ArrVec(const ArrVec<Element, ct_size_>& as) : _size(ct_size_) {
-        for (size_t i = 0; i < ct_size_; ++i) {
-            new (_data + i) Element {as[i]};
+    ArrVec(const ArrVec<Element, ct_size_>& as) : ArrVec() {
+        for (size_t i = 0; i < as.size(); ++i) {
+            push_back(as[i]);
         }
     }
 
-    ArrVec(InitializerList<Element> il) : _size(il.size()) {
+    ArrVec(InitializerList<Element> il) : ArrVec() {
         if (il.size() > ct_capacity) {
             throw RuntimeError(
                 "ArrVec::ArrVec: number of arguments must be less than or equal to ct_capacity"
             );
         }
 
-        size_t index = 0;
         for (const auto& e : il) {
-            new (_data + index++) Element {e};
+            push_back(e);
         }
     }
 
@@ -387,7 +380,8 @@ public:
         if (_size >= ct_capacity) {
             throw RuntimeError("ArrVec::push_back: size must be less than or equal to ct_capacity");
         } else {
-            new (_data + _size++) Element {value};
+            new (_data + _size) Element {value};
+            ++_size;
         }
     }
 
@@ -395,7 +389,8 @@ public:
         if (_size >= ct_capacity) {
             throw RuntimeError("ArrVec::push_back: size must be less than or equal to ct_capacity");
         } else {
-            new (_data + _size++) Element {efp::move(value)};
+            new (_data + _size) Element {efp::move(value)};
+            ++_size;
         }
     }
 
@@ -406,12 +401,15 @@ public:
             );
         }
 
+        // Copying may fail, and the value may be an element that is about to move
+        Element copy(value);
+
         for (size_t i = _size; i > index; --i) {
             new (_data + i) Element(efp::move(_data[i - 1]));
             (_data + i - 1)->~Element();
         }
 
-        new (_data + index) Element(value);
+        new (_data + index) Element(efp::move(copy));
 
         ++_size;
     }
-- 
2.43.0


From a91cc261610e68be081fb48b41a20bd0a2294f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 20/36] fix: Enum and Maybe keep their value when copy
 assignment fails

The old alternative was destroyed before the new one was copied; if the copy
threw, the object held a destroyed alternative that was destroyed again.
---
 include/efp/enum.hpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/efp/enum.hpp b/include/efp/enum.hpp
index e81e4f3..01e2a57 100644
--- a/include/efp/enum.hpp
+++ b/include/efp/enum.hpp
@@ -250,13 +250,8 @@ namespace detail {
 
         EnumBase& operator=(const EnumBase& other) {
             if (this != &other) {
-                EnumSwitch<alt_num, DestroyCase, EnumBase*>::call(_index, this);
-                _index = other._index;
-                EnumSwitch<alt_num, CopyCase, EnumBase*, const EnumBase&>::call(
-                    _index,
-                    this,
-                    other
-                );
+                EnumBase copy(other);
+                *this = efp::move(copy);
             }
             return *this;
         }
-- 
2.43.0


From b8c664335e9edd07719a3338d70ecaaf051f64e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 21/36] fix: String(size, c) has room for its terminator and
 matching deallocation

c_str() wrote one character behind the storage, and the storage came from
operator new[] but went to the allocator.
---
 include/efp/string.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index b566f49..900374d 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -44,8 +44,9 @@ public:
     }
 
     Vector(size_t size, Char c) {
-        Base::_capacity = size;
-        Base::_data = static_cast<Char*>(::operator new[](Base::_capacity * sizeof(Char)));
+        // Always allocate one extra space for the null terminator
+        Base::_capacity = size + 1;
+        Base::_data = AllocatorTraits<Allocator>::allocate(Base::_allocator, Base::_capacity);
         Base::_size = size;
         for (size_t i = 0; i < size; ++i) {
             Base::_data[i] = c;
-- 
2.43.0


From 30c2e9a0f223b91c4e4b3b391715c36c1c8ffef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:04 +0000
Subject: [PATCH 22/36] fix: c_str() of a String without storage is the empty
 string

It wrote its terminator through a null pointer for a default-constructed or
moved-from String.
---
 include/efp/string.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 900374d..a36a10f 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -247,6 +247,11 @@ public:
     }
 
     const Char* c_str() const {
+        if (Base::_data == nullptr) {
+            static const Char empty[1] = {};
+            return empty;
+        }
+
         Base::_data[Base::_size] = '\0';
         return Base::_data;
     }
-- 
2.43.0


From a40c4c596b86f89a1770dd8dca7a61136f90739d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 23/36] fix: appending to and assigning a String is all or
 nothing, also from itself

s += s never ended, append and assign of the string's own characters read
released or cleared storage, and a failing allocation left part of the text
appended or the old text lost.
---
 include/efp/string.hpp | 43 ++++++++++++++++++++++++++----------------
 1 file changed, 27 insertions(+), 16 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index a36a10f..91cf057 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -120,24 +120,16 @@ public:
     }
 
     Vector& operator+=(const Vector& other) {
-        for (size_t i = 0; i < other.size(); ++i) {
-            Base::push_back(other[i]);
-        }
-
-        return *this;
+        return _append(other.data(), other.size());
     }
 
     Vector& append(const Char* c_str) {
-        const size_t len = Traits::length(c_str);
-
-        for (size_t i = 0; i < len; ++i) {
-            Base::push_back(c_str[i]);
-        }
-
-        return *this;
+        return _append(c_str, Traits::length(c_str));
     }
 
     Vector& append(size_t n, Char c) {
+        Base::reserve(Base::_size + n + 1);
+
         for (size_t i = 0; i < n; ++i) {
             Base::push_back(c);
         }
@@ -146,13 +138,11 @@ public:
     }
 
     Vector& assign(const Char* c_str) {
-        Base::clear();
-        return append(c_str);
+        return *this = Vector(c_str);
     }
 
     Vector& assign(size_t n, Char c) {
-        Base::clear();
-        return append(n, c);
+        return *this = Vector(n, c);
     }
 
     Vector& insert(size_t pos, const Char* c_str) {
@@ -265,6 +255,27 @@ public:
         return std::string(Base::_data, Base::_size);
     }
 #endif
+
+private:
+    // All or nothing, also if s is part of this string
+    Vector& _append(const Char* s, size_t n) {
+        const size_t size = Base::_size;
+
+        if (size + n + 1 > Base::_capacity) {
+            Vector grown;
+            grown.reserve(n > size ? size + n + 1 : 2 * size + 1);
+            grown._append(Base::_data, size);
+            grown._append(s, n);
+            return *this = efp::move(grown);
+        }
+
+        for (size_t i = 0; i < n; ++i) {
+            Base::_data[size + i] = s[i];
+        }
+        Base::_size += n;
+
+        return *this;
+    }
 };  // class Vector
 
 template<
-- 
2.43.0


From b4d11a0cb28d4c59c7a07dd4cc03eaebe14b4474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 24/36] fix: String::insert keeps room for the terminator and
 may insert its own characters

insert(pos, c_str) reserved no space for the terminator, which c_str() then
wrote behind the storage.
---
 include/efp/string.hpp | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index 91cf057..aa22ba9 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -150,20 +150,7 @@ public:
             throw RuntimeError("Index out of range");
         }
 
-        const size_t len = Traits::length(c_str);
-        Base::reserve(Base::_size + len);
-
-        for (size_t i = Base::_size; i > pos; --i) {
-            Base::_data[i + len - 1] = Base::_data[i - 1];
-        }
-
-        for (size_t i = 0; i < len; ++i) {
-            Base::_data[pos + i] = c_str[i];
-        }
-
-        Base::_size += len;
-
-        return *this;
+        return insert(pos, c_str, Traits::length(c_str));
     }
 
     Vector& insert(size_t pos, const Char* c_str, size_t n) {
@@ -171,6 +158,9 @@ public:
             throw RuntimeError("Index out of range");
         }
 
+        // The characters may be part of this string
+        const Vector inserted(c_str, n);
+
         // Always reserve one extra space for the null character
         Base::reserve(Base::_size + n + 1);
 
@@ -179,7 +169,7 @@ public:
         }
 
         for (size_t i = 0; i < n; ++i) {
-            Base::_data[pos + i] = c_str[i];
+            Base::_data[pos + i] = inserted[i];
         }
 
         Base::_size += n;
-- 
2.43.0


From 58833e4d87d7f7e6b8cca092875d3a72de50c47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 25/36] fix: String::compare does not read behind the shorter
 string

It compared as many characters as the first string has, whatever the length of
the other, and called a string equal to any string it is a prefix of.
---
 include/efp/string.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index aa22ba9..e69d857 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -211,7 +211,7 @@ public:
     // todo find, rfind, find_first_of, find_last_of, find_first_not_of, find_last_not_of
 
     int compare(const Vector& other) const {
-        return Traits::compare(Base::_data, other.data(), Base::_size);
+        return compare(0, Base::_size, other);
     }
 
     int compare(size_t pos, size_t len, const Vector& other) const {
@@ -223,7 +223,14 @@ public:
             len = Base::_size - pos;
         }
 
-        return Traits::compare(Base::_data + pos, other.data(), len);
+        const int order =
+            Traits::compare(Base::_data + pos, other.data(), len < other.size() ? len : other.size());
+
+        if (order != 0 || len == other.size()) {
+            return order;
+        }
+
+        return len < other.size() ? -1 : 1;
     }
 
     const Char* c_str() const {
-- 
2.43.0


From 82d538eda100c7481917b95b970c1f4ef002145e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:21:06 +0000
Subject: [PATCH 26/36] fix: File::write(String) in text mode writes the whole
 string

It stopped at the first null character and returned true, and crashed on a
String without storage.
---
 include/efp/io.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/efp/io.hpp b/include/efp/io.hpp
index f142ce8..30a480c 100644
--- a/include/efp/io.hpp
+++ b/include/efp/io.hpp
@@ -128,13 +128,9 @@ public:
         if (_file == nullptr)
             return false;
 
-        if (std::strchr(_mode, 'b')) {
-            // Write binary data
-            size_t written = std::fwrite(data.data(), sizeof(char), data.size(), _file);
-            return written == data.size();
-        } else {
-            return std::fputs(data.c_str(), _file) != EOF;
-        }
+        // Not fputs, which would stop at a null character inside the string
+        size_t written = std::fwrite(data.data(), sizeof(char), data.size(), _file);
+        return written == data.size();
     }
 
     int flush() {
-- 
2.43.0


From 0ea6c6c2f1db841f4ccea94cf204e2993a016f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:37 +0000
Subject: [PATCH 27/36] fix: moving an ArrVec destroys the elements it moved
 from

---
 include/efp/sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index 0b67789..cee6d68 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -270,10 +270,10 @@ public:
     }
 
     ArrVec(ArrVec&& other) noexcept : _size {other._size} {
-        other._size = 0;
         for (size_t i = 0; i < _size; ++i) {
             new (_data + i) Element {efp::move(other._data[i])};
         }
+        other.clear();
     }
 
     ArrVec& operator=(ArrVec&& other) noexcept {
@@ -290,7 +290,7 @@ public:
             }
 
             // Reset the source object
-            other._size = 0;
+            other.clear();
         }
         return *this;
     }
-- 
2.43.0


From a1e5385d6f61f8f2efa34ae82f38599ed78ae0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:10 +0000
Subject: [PATCH 28/36] fix: timsort merges two runs unless they are already in
 order

---
 include/efp/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/sort.hpp b/include/efp/sort.hpp
index d9b73f0..73ba1f3 100644
--- a/include/efp/sort.hpp
+++ b/include/efp/sort.hpp
@@ -156,7 +156,7 @@ void timsort_merge(Vector<A>& arr, size_t start, size_t mid, size_t end, const F
     size_t start2 = mid + 1;
 
     // If the direct merge is already sorted
-    if (!comp(arr[mid], arr[start2]))
+    if (!comp(arr[start2], arr[mid]))
         return;
 
     // Two posize_ters to masize_tain start of both arrays to merge
-- 
2.43.0


From 21ba198dc2844e7adf0b0540412da6a13378769b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:49 +0000
Subject: [PATCH 29/36] fix: append puts its arguments in order whatever the
 compiler's evaluation order

---
 include/efp/prelude.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index 8a9fc99..b6787ed 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -241,7 +241,12 @@ auto append(const As& as, const Ass&... ass) -> AppendReturn<As, Ass...> {
     }
 
     size_t idx = 0;
-    execute_pack(detail::append_impl(idx, res, as), detail::append_impl(idx, res, ass)...);
+    // Unlike the arguments of a call, these are evaluated from left to right
+    const Unit appended[] = {
+        detail::append_impl(idx, res, as),
+        detail::append_impl(idx, res, ass)...
+    };
+    (void)appended;
 
     return res;
 }
-- 
2.43.0


From ec08cf05c4e03ce474f79e262e7f823ec12803b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:35 +0000
Subject: [PATCH 30/36] fix: a String without storage equals the empty string

---
 include/efp/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/string.hpp b/include/efp/string.hpp
index e69d857..b6355f0 100644
--- a/include/efp/string.hpp
+++ b/include/efp/string.hpp
@@ -91,7 +91,7 @@ public:
             return true;
         }
 
-        if (Base::_data == nullptr || c_str == nullptr) {
+        if (c_str == nullptr) {
             return false;
         }
 
@@ -324,7 +324,7 @@ public:
             return true;
         }
 
-        if (Base::_data == nullptr || c_str == nullptr) {
+        if (c_str == nullptr) {
             return false;
         }
 
-- 
2.43.0


From 7f90d2b49cf99498a1f542ffbd176e687acbb076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:07 +0000
Subject: [PATCH 31/36] fix: a VectorView made from another view has a capacity

---
 include/efp/sequence.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/efp/sequence.hpp b/include/efp/sequence.hpp
index cee6d68..4fd4f4a 100644
--- a/include/efp/sequence.hpp
+++ b/include/efp/sequence.hpp
@@ -1320,12 +1320,12 @@ namespace detail {
         // Constructor from ArrayView
         template<size_t ct_size_>
         VectorViewBase(const ArrayView<Element, ct_size_>& as)
-            : _data(as.data()), _size(length(as)) {}
+            : _data(as.data()), _size(length(as)), _capacity(length(as)) {}
 
         // Constructor from ArrVecView
         template<size_t ct_cap_>
         VectorViewBase(const ArrVecView<Element, ct_cap_>& as)
-            : _data(as.data()), _size(length(as)) {}
+            : _data(as.data()), _size(length(as)), _capacity(length(as)) {}
 
         const Element& operator[](size_t index) {
             return _data[index];
-- 
2.43.0


From 701153fc03da153280a6121d49340d57d6381f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:09 +0000
Subject: [PATCH 32/36] fix: a composition did not compile when its argument's
 namespace includes std (a String, for example)

forward was called unqualified and became ambiguous with std::forward.
---
 include/efp/prelude.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index b6787ed..e22ec9a 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -31,8 +31,8 @@ struct Composed<F> {
     Composed(const F& f) : f(f) {}
 
     template<typename... Arg>
-    inline auto operator()(Arg&&... arg) const -> decltype(f(forward<Arg>(arg)...)) {
-        return f(forward<Arg>(arg)...);
+    inline auto operator()(Arg&&... arg) const -> decltype(f(efp::forward<Arg>(arg)...)) {
+        return f(efp::forward<Arg>(arg)...);
     }
 };
 
@@ -44,8 +44,8 @@ struct Composed<F, Fs...> {
     Composed(const F& f, const Fs&... fs) : f(f), fs(Composed<Fs...>(fs...)) {}
 
     template<typename... Arg>
-    inline auto operator()(Arg&&... arg) const -> decltype(f(fs(forward<Arg>(arg)...))) {
-        return f(fs(forward<Arg>(arg)...));
+    inline auto operator()(Arg&&... arg) const -> decltype(f(fs(efp::forward<Arg>(arg)...))) {
+        return f(fs(efp::forward<Arg>(arg)...));
     }
 };
 
-- 
2.43.0


From 9b72affb13bdf28651c95f673ba2ebe821c2c3c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:09 +0000
Subject: [PATCH 33/36] fix: the part of a Tuple could not be built from a
 temporary whose namespace includes std

move was called unqualified and became ambiguous with std::move.
---
 include/efp/meta.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/meta.hpp b/include/efp/meta.hpp
index 938e736..6df2db2 100644
--- a/include/efp/meta.hpp
+++ b/include/efp/meta.hpp
@@ -514,7 +514,7 @@ public:
     TupleLeaf(const A& value) : _value(value) {}
 
     // Rvalue constructor, using efp::move to ensure the object is moved
-    TupleLeaf(A&& value) : _value(move(value)) {}
+    TupleLeaf(A&& value) : _value(efp::move(value)) {}
 
     ~TupleLeaf() {}
 
-- 
2.43.0


From cc3b470f8bba289fafcc3151637abc11f3622083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:16 +0000
Subject: [PATCH 34/36] fix: max_elem of negative floating-point numbers gave
 the smallest positive number

---
 include/efp/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/numeric.hpp b/include/efp/numeric.hpp
index 26dc0bc..3b08601 100644
--- a/include/efp/numeric.hpp
+++ b/include/efp/numeric.hpp
@@ -113,7 +113,7 @@ namespace efp {
 
 template<typename As>
 constexpr Element<As> max_elem(const As& as) {
-    return foldl(max, NumericLimits<Element<As>>::min(), as);
+    return foldl(max, NumericLimits<Element<As>>::lowest(), as);
 }
 
 template<typename As>
-- 
2.43.0


From 4c7cce62640127fccb7bca47b806b69ea44f0735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:16 +0000
Subject: [PATCH 35/36] fix: linear_regression_with_index and detrend
 overflowed for more than 1290 values

---
 include/efp/scientific.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/efp/scientific.hpp b/include/efp/scientific.hpp
index a5a4ad9..9951937 100644
--- a/include/efp/scientific.hpp
+++ b/include/efp/scientific.hpp
@@ -152,7 +152,7 @@ Tuple<R, R> linear_regression_with_index(const As& as) {
     };
 
     const auto ss_ia = sum(map_with_index(get_ss_ia, as));
-    const auto ss_ii = n * (n * n - 1) / 12.;
+    const auto ss_ii = n * ((R)n * n - 1) / 12.;
 
     const auto beta_1 = ss_ia / ss_ii;
     const auto beta_2 = as_mean - (beta_1 * mean_is);
-- 
2.43.0


From 39dbb6c20455452cdba81179d8a608ed17da3f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:17 +0000
Subject: [PATCH 36/36] fix: take_while and drop_while did not compile for any
 sequence

---
 include/efp/prelude.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/efp/prelude.hpp b/include/efp/prelude.hpp
index e22ec9a..acb34e4 100644
--- a/include/efp/prelude.hpp
+++ b/include/efp/prelude.hpp
@@ -880,8 +880,8 @@ auto slice(S start, E end, As& as) -> SliceReturn<S, E, As, false> {
 template<typename As>
 using TakeWhileReturn = Conditional<
     IsStaticCapacity<As>::value,
-    ArrVecView<Element<As>, CtCapacity<As>::value>,
-    VectorView<Element<As>>>;
+    ArrVecView<const Element<As>, CtCapacity<As>::value>,
+    VectorView<const Element<As>>>;
 
 template<typename As, typename F = bool (*)(const Element<As>&)>
 auto take_while(const F& f, const As& as) -> TakeWhileReturn<As> {
@@ -900,8 +900,8 @@ auto take_while(const F& f, const As& as) -> TakeWhileReturn<As> {
 template<typename As>
 using DropWhileReturn = Conditional<
     IsStaticCapacity<As>::value,
-    ArrVecView<Element<As>, CtCapacity<As>::value>,
-    VectorView<Element<As>>>;
+    ArrVecView<const Element<As>, CtCapacity<As>::value>,
+    VectorView<const Element<As>>>;
 
 template<typename As, typename F = bool (*)(const Element<As>&)>
 auto drop_while(const F& f, const As& as) -> DropWhileReturn<As> {
-- 
2.43.0

