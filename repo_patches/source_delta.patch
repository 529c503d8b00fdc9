From b3ca648bade58920060acc095348f9a8d8496fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 01/39] fix: TryUint64Multiply accepted products that wrap to
 zero

---
 amtl/am-arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-arithmetic.h b/amtl/am-arithmetic.h
index 45ced6e..289a326 100644
--- a/amtl/am-arithmetic.h
+++ b/amtl/am-arithmetic.h
@@ -37,7 +37,7 @@ static inline bool
 TryUint64Multiply(uint64_t left, uint64_t right, uint64_t* out)
 {
     uint64_t r = left * right;
-    if (r != 0 && ((r / left) != right))
+    if (left != 0 && ((r / left) != right))
         return false;
 
     *out = r;
-- 
2.43.0


From b60f209187ace043100f3fd6205e1c8033c2cb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 02/39] fix: Log2 dropped the upper half of 64-bit operands

---
 amtl/am-bits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index f90cdeb..9d1efa7 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -97,7 +97,7 @@ Log2(size_t number)
     assert(number != 0);
 
 #    ifdef __GNUC__
-    return 31 - __builtin_clz(number);
+    return sizeof(unsigned long long) * 8 - 1 - __builtin_clzll(number);
 #    else
     size_t bit;
     asm("bsr %1, %0\n" : "=r"(bit) : "rm"(number));
-- 
2.43.0


From acd13aeb658ad981d4468c09ba728f28e1d40315 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 03/39] fix: IsUint*AddSafe never failed and
 IsUint*MultiplySafe misjudged products

---
 amtl/am-bits.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index 9d1efa7..4141965 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -182,11 +182,7 @@ template <typename T>
 static inline bool
 IsUintAddSafe(const T& a, const T& b)
 {
-    if (!a || !b)
-        return true;
-    size_t log2_a = Log2(a);
-    size_t log2_b = Log2(b);
-    return (log2_a < sizeof(T) * 8) && (log2_b < sizeof(T) * 8);
+    return T(a + b) >= a;
 }
 
 static inline bool
@@ -214,9 +210,7 @@ IsUintMultiplySafe(const T& a, const T& b)
     if (a <= 1 || b <= 1)
         return true;
 
-    size_t log2_a = Log2(a);
-    size_t log2_b = Log2(b);
-    return log2_a + log2_b < sizeof(T) * 8;
+    return T(a * b) / a == b;
 }
 
 static inline bool
-- 
2.43.0


From c918a927b63a86575867805d78c236e688a9d451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:48 +0000
Subject: [PATCH 04/39] fix: IsInfinite was wrong for doubles and true for NaNs

---
 amtl/am-float.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/amtl/am-float.h b/amtl/am-float.h
index 1adc865..751d76c 100644
--- a/amtl/am-float.h
+++ b/amtl/am-float.h
@@ -38,7 +38,7 @@
 namespace ke {
 
 static const uint32_t kFloat32ExponentMask = 0x7F800000;
-static const uint64_t kFloat64ExponentMask = 0x7FFF000000000000ULL;
+static const uint64_t kFloat64ExponentMask = 0x7FF0000000000000ULL;
 
 struct float32_bits {
     static const uint32_t kExponentMask = kFloat32ExponentMask;
@@ -64,10 +64,10 @@ struct float64_bits {
 
     union layout {
         uint64_t bits;
-        float value;
+        double value;
     };
 
-    static layout to_layout(float value) {
+    static layout to_layout(double value) {
         layout impl;
         impl.value = value;
         return impl;
@@ -99,7 +99,8 @@ IsInfinite(T value)
     typedef float_bits<T> Properties;
     typedef typename Properties::Bits Bits;
     Bits bits = Properties::to_layout(value).bits;
-    return (bits & Properties::kExponentMask) == Properties::kExponentMask;
+    // The sign bit is ignored; NaNs have the same exponent but a nonzero mantissa.
+    return Bits(bits << 1) == Bits(Properties::kExponentMask << 1);
 };
 
 // Performs the operation (x % y) where x and y are floating-point values.
-- 
2.43.0


From fa930123dbfdcda60f7180afd068739bd39895e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 05/39] fix: FixedArray ignored the allocation policy given to
 its constructor

---
 amtl/am-fixedarray.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index 85df0b5..9cfdfea 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -43,7 +43,9 @@ class FixedArray : private AllocPolicy
   public:
     FixedArray() : size_(0), data_(nullptr)
     {}
-    FixedArray(size_t size, AllocPolicy = AllocPolicy()) {
+    FixedArray(size_t size, AllocPolicy ap = AllocPolicy())
+     : AllocPolicy(ap)
+    {
         if (!allocate(size))
             return;
         for (size_t i = 0; i < size_; i++)
-- 
2.43.0


From 647c211b9660ad557ac8eb774f1b75e264b6b96e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 06/39] fix: FixedArray used null or undersized storage when
 allocation failed or its size overflowed

---
 amtl/am-fixedarray.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index 9cfdfea..c061a7d 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -34,6 +34,7 @@
 #include <vector>
 
 #include <amtl/am-allocator-policies.h>
+#include <amtl/am-bits.h>
 
 namespace ke {
 
@@ -127,7 +128,7 @@ class FixedArray : private AllocPolicy
 
     FixedArray& operator =(const FixedArray& other) {
         destruct();
-        if (size_ != other.size()) {
+        if (size_ != other.size() || !data_) {
             deallocate();
             if (!allocate(other.size()))
                 return *this;
@@ -160,10 +161,17 @@ class FixedArray : private AllocPolicy
   private:
     bool allocate(size_t size) {
         size_ = size;
+        if (!IsUintPtrMultiplySafe(sizeof(T), size_)) {
+            data_ = nullptr;
+            this->reportAllocationOverflow();
+            return false;
+        }
         data_ = (T*)this->am_malloc(sizeof(T) * size_);
         return !!data_;
     }
     void destruct() {
+        if (!data_)
+            return;
         for (size_t i = 0; i < size_; i++)
             data_[i].~T();
     }
-- 
2.43.0


From b6d600d36d051e9c04bffa12af2bb2c9fcdf0f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 07/39] fix: FixedArray self-assignment copied from destroyed
 elements

---
 amtl/am-fixedarray.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index c061a7d..80f6733 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -127,6 +127,8 @@ class FixedArray : private AllocPolicy
     T* buffer() const { return data_; }
 
     FixedArray& operator =(const FixedArray& other) {
+        if (this == &other)
+            return *this;
         destruct();
         if (size_ != other.size() || !data_) {
             deallocate();
-- 
2.43.0


From 10cae6c288fbf7b07af33b5f80533e6e08a3786e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 08/39] fix: FixedArray move assignment leaked the old elements
 and their storage

---
 amtl/am-fixedarray.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index 80f6733..8a5752f 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -140,6 +140,10 @@ class FixedArray : private AllocPolicy
         return *this;
     }
     FixedArray& operator =(FixedArray&& other) {
+        if (this == &other)
+            return *this;
+        destruct();
+        deallocate();
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
-- 
2.43.0


From f5b6dba2f404e0e783fa9f813d985ef1cb0be3d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 09/39] fix: Maybe::operator-> could not be instantiated

---
 amtl/am-maybe.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 159b27d..7dea5b8 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -79,7 +79,7 @@ class Maybe
         return initialized_;
     }
 
-    T& operator ->() {
+    T* operator ->() {
         assert(isValid());
         return t_.address();
     }
@@ -87,7 +87,7 @@ class Maybe
         assert(isValid());
         return *t_.address();
     }
-    const T& operator ->() const {
+    const T* operator ->() const {
         assert(isValid());
         return t_.address();
     }
-- 
2.43.0


From 51042575a6a0993fd8ccb3c4955de0f72642e039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 10/39] fix: assigning to a Maybe leaked the old value and lost
 it on self-assignment

---
 amtl/am-maybe.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 7dea5b8..73f32e6 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -109,17 +109,26 @@ class Maybe
     }
 
     Maybe& operator =(const Maybe& other) {
-        initialized_ = false;
+        if (this == &other)
+            return *this;
+        clear();
         copyFrom(other);
         return *this;
     }
     Maybe& operator =(Maybe&& other) {
-        initialized_ = false;
+        if (this == &other)
+            return *this;
+        clear();
         moveFrom(std::move(other));
         return *this;
     }
 
   private:
+    void clear() {
+        if (isValid())
+            t_.address()->~T();
+        initialized_ = false;
+    }
     void copyFrom(const Maybe& other) {
         if (other.initialized_) {
             init(*other.t_.address());
-- 
2.43.0


From 9726401ecdc8524353d5e020bf45f0ae567fbbe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 11/39] fix: moving from a Maybe never destroyed the source's
 value

---
 amtl/am-maybe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 73f32e6..4471097 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -137,7 +137,7 @@ class Maybe
     void moveFrom(Maybe&& other) {
         if (other.initialized_) {
             init(std::move(*other.t_.address()));
-            other.initialized_ = false;
+            other.clear();
         }
     }
 
-- 
2.43.0


From 7f68449844e67d29a8f25a535a75760f4540f358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 12/39] fix: StorageBuffer was under-aligned for over-aligned
 types

---
 amtl/am-storagebuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-storagebuffer.h b/amtl/am-storagebuffer.h
index f328922..b233219 100644
--- a/amtl/am-storagebuffer.h
+++ b/amtl/am-storagebuffer.h
@@ -49,7 +49,7 @@ class StorageBuffer
 
   private:
     union {
-        char buffer_[sizeof(T)];
+        alignas(T) char buffer_[sizeof(T)];
         uint64_t aligned_;
     };
 };
-- 
2.43.0


From 89d74c27cb08d3aeb833633118cb47990c260b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 13/39] fix: RefPtr assignment released the old object before
 referencing the new one

---
 amtl/am-refcounting.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/amtl/am-refcounting.h b/amtl/am-refcounting.h
index b44a3d2..a97194f 100644
--- a/amtl/am-refcounting.h
+++ b/amtl/am-refcounting.h
@@ -264,9 +264,11 @@ class RefPtr
 
     template <typename S>
     RefPtr& operator =(S* thing) {
-        Release();
+        T* old = thing_;
         thing_ = thing;
         AddRef();
+        if (old)
+            old->Release();
         return *this;
     }
 
@@ -278,9 +280,11 @@ class RefPtr
     }
 
     RefPtr& operator =(const RefPtr& other) {
-        Release();
+        T* old = thing_;
         thing_ = other.thing_;
         AddRef();
+        if (old)
+            old->Release();
         return *this;
     }
 
-- 
2.43.0


From c0ba784046f8e4cd35e60aa37f3d130015a041c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 14/39] fix: VirtualRefcountedThreadsafe objects were never
 destroyed at zero

---
 amtl/am-refcounting-threadsafe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-refcounting-threadsafe.h b/amtl/am-refcounting-threadsafe.h
index adb2e5d..7641dbb 100644
--- a/amtl/am-refcounting-threadsafe.h
+++ b/amtl/am-refcounting-threadsafe.h
@@ -95,7 +95,7 @@ class VirtualRefcountedThreadsafe : public IRefcounted
         refcount_ += 1;
     }
     void Release() override {
-        if (refcount_.fetch_sub(1) == 0) {
+        if (refcount_.fetch_sub(1) == 1) {
             assert(refcount_.load() == 0);
 #if !defined(NDEBUG)
             destroying_ = true;
-- 
2.43.0


From 16067465f64e789f82a735efb970d75ebd1bd088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 15/39] fix: RefPtr move assignment read its source after
 releasing the object that may own it

---
 amtl/am-refcounting.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/amtl/am-refcounting.h b/amtl/am-refcounting.h
index a97194f..3b2aba6 100644
--- a/amtl/am-refcounting.h
+++ b/amtl/am-refcounting.h
@@ -274,8 +274,10 @@ class RefPtr
 
     template <typename S>
     RefPtr& operator =(const AlreadyRefed<S>& other) {
-        Release();
+        T* old = thing_;
         thing_ = other.take();
+        if (old)
+            old->Release();
         return *this;
     }
 
@@ -289,9 +291,12 @@ class RefPtr
     }
 
     RefPtr& operator =(RefPtr&& other) {
-        Release();
-        thing_ = other.thing_;
+        T* thing = other.thing_;
         other.thing_ = nullptr;
+        T* old = thing_;
+        thing_ = thing;
+        if (old)
+            old->Release();
         return *this;
     }
 
-- 
2.43.0


From a177cb162d4e0b15df7f61c664243923fba59a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 16/39] fix: copying a non-const Function wrapped it in another
 Function

---
 amtl/am-function.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 6b26677..75c5d14 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -111,6 +111,13 @@ class Function<ReturnType(ArgTypes...)>
         move(std::forward<Function>(other));
     }
 
+    // Without this, the template below would wrap |other|, even a null one. The
+    // copy is kept on the heap, so it can be moved again without moving the
+    // callable itself.
+    Function(Function& other)
+     : impl_(other ? other.impl_->clone(nullptr) : nullptr)
+    {}
+
     template <typename T>
     Function(T&& obj) {
         assign(std::forward<T>(obj));
@@ -136,10 +143,14 @@ class Function<ReturnType(ArgTypes...)>
         return *this;
     }
 
+    Function& operator =(Function& other) {
+        return *this = static_cast<const Function&>(other);
+    }
+
     template <typename T>
     Function& operator =(T&& other) {
         destroy();
-        assign(other);
+        assign(std::forward<T>(other));
         return *this;
     }
 
-- 
2.43.0


From 21a0c2c011d4cf9bafe7d76589c449821e2a08c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 17/39] fix: assigning a Function to itself used a destroyed
 callable

---
 amtl/am-function.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 75c5d14..ad6bbf0 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -133,11 +133,15 @@ class Function<ReturnType(ArgTypes...)>
         return *this;
     }
     Function& operator =(const Function& other) {
+        if (this == &other)
+            return *this;
         destroy();
         assign(other);
         return *this;
     }
     Function& operator =(Function&& other) {
+        if (this == &other)
+            return *this;
         destroy();
         move(std::move(other));
         return *this;
-- 
2.43.0


From 7b60d68c172e3c4ea8a7d07b4c7231403d427f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 18/39] fix: Function stored over-aligned callables in its
 under-aligned inline buffer

---
 amtl/am-function.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index ad6bbf0..24f62f2 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -216,7 +216,7 @@ class Function<ReturnType(ArgTypes...)>
         typedef typename std::decay<T>::type CallableType;
         typedef impl::FunctionHolder<CallableType, ReturnType, ArgTypes...> ImplType;
 
-        if (sizeof(ImplType) <= sizeof(buffer_)) {
+        if (sizeof(ImplType) <= sizeof(buffer_) && alignof(ImplType) <= alignof(decltype(buffer_))) {
             impl_ = reinterpret_cast<ImplType*>(inline_buffer());
             new (inline_buffer()) ImplType(std::forward<T>(obj));
         } else {
-- 
2.43.0


From bdc2711bd0c6510bc70fe02ce9dad7f290521f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 19/39] fix: HashTable::grow doubled past the maximum capacity

---
 amtl/am-hashtable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index 51a384b..5d5279b 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -245,7 +245,7 @@ class HashTable : private AllocPolicy
     }
 
     bool grow() {
-        if (capacity_ >= kMaxCapacity) {
+        if (capacity_ > kMaxCapacity / 2) {
             this->reportAllocationOverflow();
             return false;
         }
-- 
2.43.0


From 66025b7d4f264617f4e2e30a4608a27d5dc5d5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 20/39] fix: HashTable::init left a capacity without storage
 when allocation failed

---
 amtl/am-hashtable.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index 5d5279b..3f3cb26 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -417,12 +417,12 @@ class HashTable : private AllocPolicy
         minCapacity_ = uint32_t(capacity);
 
         assert(IsPowerOfTwo(capacity));
-        capacity_ = uint32_t(capacity);
 
-        table_ = createTable(capacity_);
+        table_ = createTable(uint32_t(capacity));
         if (!table_)
             return false;
 
+        capacity_ = uint32_t(capacity);
         return true;
     }
 
-- 
2.43.0


From d878aab27706ac47b07f5902cff35dedea95542f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 21/39] fix: HashInt32 and HashInt64 overflowed signed integers

---
 amtl/am-hashtable.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index 3f3cb26..2e52f3f 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -604,24 +604,26 @@ FastHashCharSequence(const char* s, size_t length)
 static inline uint32_t
 HashInt32(int32_t a)
 {
+    // The arithmetic is unsigned so it may wrap; the right shifts keep the sign.
     a = (a ^ 61) ^ (a >> 16);
-    a = a + (a << 3);
+    a = int32_t(uint32_t(a) + (uint32_t(a) << 3));
     a = a ^ (a >> 4);
-    a = a * 0x27d4eb2d;
+    a = int32_t(uint32_t(a) * 0x27d4eb2d);
     a = a ^ (a >> 15);
     return a;
 }
 
 // From http://www.cris.com/~Ttwang/tech/inthash.htm
 static inline uint32_t
-HashInt64(int64_t key)
+HashInt64(int64_t value)
 {
+    uint64_t key = value; // Unsigned, so the arithmetic may wrap.
     key = (~key) + (key << 18); // key = (key << 18) - key - 1;
-    key = key ^ (uint64_t(key) >> 31);
+    key = key ^ (key >> 31);
     key = key * 21; // key = (key + (key << 2)) + (key << 4);
-    key = key ^ (uint64_t(key) >> 11);
+    key = key ^ (key >> 11);
     key = key + (key << 6);
-    key = key ^ (uint64_t(key) >> 22);
+    key = key ^ (key >> 22);
     return uint32_t(key);
 }
 
-- 
2.43.0


From c826b369f2431cb173a315061ae12c1250668bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 22/39] fix: HashMap and HashSet reported an allocator other
 than the one in use

---
 amtl/am-hashmap.h | 6 +++---
 amtl/am-hashset.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/amtl/am-hashmap.h b/amtl/am-hashmap.h
index 2f705bb..2aa5253 100644
--- a/amtl/am-hashmap.h
+++ b/amtl/am-hashmap.h
@@ -48,7 +48,7 @@ namespace ke {
 //
 // Note that like HashTable, a HashMap is not usable until init() has been called.
 template <typename K, typename V, typename HashPolicy, typename AllocPolicy = SystemAllocatorPolicy>
-class HashMap : private AllocPolicy
+class HashMap
 {
   private:
     struct Entry {
@@ -163,10 +163,10 @@ class HashMap : private AllocPolicy
     }
 
     AllocPolicy& allocPolicy() {
-        return *this;
+        return table_.allocPolicy();
     }
     const AllocPolicy& allocPolicy() const {
-        return *this;
+        return table_.allocPolicy();
     }
 
   private:
diff --git a/amtl/am-hashset.h b/amtl/am-hashset.h
index cbc90fc..26689e5 100644
--- a/amtl/am-hashset.h
+++ b/amtl/am-hashset.h
@@ -45,7 +45,7 @@ namespace ke {
 //
 // Like HashMap and HashTable, init() must be called to construct the set.
 template <typename K, typename HashPolicy, typename AllocPolicy = SystemAllocatorPolicy>
-class HashSet : private AllocPolicy
+class HashSet
 {
     struct Policy {
         typedef K Payload;
@@ -146,10 +146,10 @@ class HashSet : private AllocPolicy
     }
 
     AllocPolicy& allocPolicy() {
-        return *this;
+        return table_.allocPolicy();
     }
     const AllocPolicy& allocPolicy() const {
-        return *this;
+        return table_.allocPolicy();
     }
 
   private:
-- 
2.43.0


From 1a6b2c9a324dab481ca709318bc41ce8282c3a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 23/39] fix: nodes removed from an InlineList still reported
 membership in release builds

---
 amtl/am-inlinelist.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/amtl/am-inlinelist.h b/amtl/am-inlinelist.h
index 5226cd5..79c2280 100644
--- a/amtl/am-inlinelist.h
+++ b/amtl/am-inlinelist.h
@@ -212,10 +212,8 @@ class InlineList
         t->next_->prev_ = t->prev_;
         length_--;
 
-#if !defined(NDEBUG)
         t->next_ = nullptr;
         t->prev_ = nullptr;
-#endif
     }
 
     void append(Node* t) {
-- 
2.43.0


From 674aa2060f3992fde5a75cd24a4524a62fbecc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 24/39] fix: SafeVsprintf reported an unspecified buffer as
 full when formatting failed

---
 amtl/am-string.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index d5d2178..d968c57 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -155,8 +155,16 @@ SafeVsprintf(char* buffer, size_t maxlength, const char* fmt, va_list ap)
     if (!maxlength)
         return 0;
 
-    size_t len = KE_VSNPRINTF(buffer, maxlength, fmt, ap);
+    int result = KE_VSNPRINTF(buffer, maxlength, fmt, ap);
+#if !defined(_MSC_VER)
+    if (result < 0) {
+        // Formatting failed, and the contents of |buffer| are unspecified.
+        buffer[0] = '\0';
+        return 0;
+    }
+#endif
 
+    size_t len = result;
     if (len >= maxlength) {
         buffer[maxlength - 1] = '\0';
         return maxlength - 1;
-- 
2.43.0


From abbe1a1d90004fec637f1f98941521d062cdacf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 25/39] fix: SafeStrcpyN left the destination unterminated when
 copying no characters

---
 amtl/am-string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index d968c57..b104260 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -238,7 +238,7 @@ SafeStrcat(char* dest, size_t maxlength, const char* src)
 static inline size_t
 SafeStrcpyN(char* dest, size_t maxlength, const char* src, size_t n)
 {
-    if (!dest || !maxlength || !n)
+    if (!dest || !maxlength)
         return 0;
 
     char* iter = dest;
-- 
2.43.0


From 41374b9500034be2f73a4de75a8deeef541826d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:57 +0000
Subject: [PATCH 26/39] fix: Mutex did not record ownership taken through
 try_lock

---
 amtl/am-mutex.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amtl/am-mutex.h b/amtl/am-mutex.h
index 38d5940..066cfe9 100644
--- a/amtl/am-mutex.h
+++ b/amtl/am-mutex.h
@@ -48,6 +48,13 @@ class Mutex : public std::mutex
        owner_ = std::this_thread::get_id();
     };
 
+    bool try_lock() {
+       if (!std::mutex::try_lock())
+           return false;
+       owner_ = std::this_thread::get_id();
+       return true;
+    }
+
     void unlock() {
        owner_ = {};
        std::mutex::unlock();
-- 
2.43.0


From 7ec1da0ca3a0ea4c31c658233b8c997f2655deaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 27/39] fix: the argument parser crashed on --no- followed by
 an unknown option

---
 amtl/experimental/am-argparser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 43a3e32..271cbf8 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -671,7 +671,7 @@ Parser::parse_impl(const std::vector<const char*>& args)
 
             if (!option && strncmp(arg, "--no-", 5) == 0) {
                 option = find_long(&arg[5], len - 5);
-                if (option->canPrefixWithNo())
+                if (option && option->canPrefixWithNo())
                     value_ptr = "false";
                 else
                     option = nullptr;
-- 
2.43.0


From feb464d3e8ab30c7a88da8198f9b36e839318b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 28/39] fix: options with an omitted value were ignored unless
 they came last

---
 amtl/experimental/am-argparser.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 271cbf8..93bd2b1 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -716,10 +716,14 @@ Parser::parse_impl(const std::vector<const char*>& args)
         }
 
         if (!option->consumeValue(value_ptr)) {
-            if (!option->canOmitValue())
+            if (!took_next_arg || !option->canOmitValue())
+                return option_invalid_value(option, value_ptr);
+
+            // The next argument is not a value for this option, so its value
+            // was omitted.
+            i--;
+            if (!option->consumeValue(nullptr))
                 return option_invalid_value(option, value_ptr);
-            if (took_next_arg)
-                i--;
         }
 
         if (option->haltOnValue()) {
-- 
2.43.0


From b13737533300b8fc6f8dbd9e1aa419d9ba90d7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 29/39] fix: integer options accepted out-of-range numbers and
 truncated them

---
 amtl/experimental/am-argparser.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 93bd2b1..8936a69 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -30,6 +30,8 @@
 #define _include_amtl_am_argparser_h_
 
 #include <assert.h>
+#include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 
 #include <algorithm>
@@ -538,9 +540,13 @@ template <>
 struct ValuePolicy<int> : public BaseValuePolicy {
     static bool consumeValue(const char* arg, int* out) {
         char* endptr = nullptr;
-        *out = strtol(arg, &endptr, 10);
+        errno = 0;
+        long value = strtol(arg, &endptr, 10);
         if (endptr == arg || *endptr != '\0')
             return false;
+        if (errno == ERANGE || value < INT_MIN || value > INT_MAX)
+            return false;
+        *out = int(value);
         return true;
     }
 };
-- 
2.43.0


From e298b704f14c840cfd1b595301524c3c9d24d39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 30/39] fix: Parser::reset kept the previous error, extra and
 passthrough arguments

---
 amtl/experimental/am-argparser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 8936a69..45c4051 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -1049,6 +1049,10 @@ Parser::reset()
         option->reset();
     if (help_option_)
         help_option_->reset();
+    error_.clear();
+    extra_args_.clear();
+    passthrough_args_.clear();
+    has_passthrough_args_ = false;
 }
 
 } // namespace args
-- 
2.43.0


From a2e9667845eaa97be8beb9d10df937b329ea485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 31/39] fix: a second -- was dropped from the passthrough
 arguments

---
 amtl/experimental/am-argparser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 45c4051..e729569 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -634,7 +634,7 @@ Parser::parse_impl(const std::vector<const char*>& args)
         const char* arg = args[i];
         IOption* option = nullptr;
 
-        if (allow_passthrough_args_ && !strcmp(arg, "--")) {
+        if (allow_passthrough_args_ && !has_passthrough_args_ && !strcmp(arg, "--")) {
             has_passthrough_args_ = true;
             continue;
         }
-- 
2.43.0


From c72d5ffce3f4fe32b7c5ad0ab67ad4b208cdcfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 32/39] fix: ScopeGuard on a named callback can be moved

MakeScopeGuard(cb) on an lvalue makes a ScopeGuard<Cb&>; its move constructor
bound an rvalue to the lvalue reference member and did not compile.
---
 amtl/am-raii.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-raii.h b/amtl/am-raii.h
index b942e50..66cfb80 100644
--- a/amtl/am-raii.h
+++ b/amtl/am-raii.h
@@ -82,7 +82,7 @@ class ScopeGuard
         cancelled_(false)
     {}
     ScopeGuard(ScopeGuard&& other) noexcept
-      : callback_(std::move(other.callback_)),
+      : callback_(std::forward<T>(other.callback_)),
         cancelled_(other.cancelled_)
     {
         other.cancel();
-- 
2.43.0


From def744eefe3854babc36632ad9e272a4fc8f8875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:11 +0000
Subject: [PATCH 33/39] fix: am-raii.h includes assert.h, which StackLinked
 uses

---
 amtl/am-raii.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amtl/am-raii.h b/amtl/am-raii.h
index 66cfb80..d975b5e 100644
--- a/amtl/am-raii.h
+++ b/amtl/am-raii.h
@@ -30,6 +30,8 @@
 #ifndef _include_amtl_am_raii_h_
 #define _include_amtl_am_raii_h_
 
+#include <assert.h>
+
 #include <utility>
 
 namespace ke {
-- 
2.43.0


From 284849f690e3f6e81fa75f10a2d08f960ea07c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 34/39] fix: ThreadLocal publishes its key only once it exists

allocate() marked the slot allocated before creating the key.  After a failed
creation, later accesses and the destructor used an uninitialised key (some
other component's); a second thread could do the same while the first was
still creating it.
---
 amtl/am-threadlocal.h | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/amtl/am-threadlocal.h b/amtl/am-threadlocal.h
index 9634d55..a3ea50a 100644
--- a/amtl/am-threadlocal.h
+++ b/amtl/am-threadlocal.h
@@ -40,6 +40,7 @@
 # include <windows.h>
 #else
 # include <pthread.h>
+# include <sched.h>
 #endif
 
 namespace ke {
@@ -93,10 +94,12 @@ class ThreadLocal
 #if !defined(KE_SINGLE_THREADED)
   private:
     volatile int allocated_;
+    volatile int allocating_;
 
   public:
     ThreadLocal() {
         allocated_ = 0;
+        allocating_ = 0;
     }
 
     T get() const {
@@ -126,10 +129,17 @@ class ThreadLocal
         TlsSetValue(key_, cast_to_pointer<T>::cast(t));
     }
     bool allocate() {
-        if (InterlockedCompareExchange((volatile LONG*)&allocated_, 1, 0) == 1)
-            return true;
-        key_ = TlsAlloc();
-        return key_ != TLS_OUT_OF_INDEXES;
+        // The key must exist before anyone is told that it does.
+        while (InterlockedCompareExchange((volatile LONG*)&allocating_, 1, 0) == 1)
+            Sleep(0);
+        if (!allocated_) {
+            key_ = TlsAlloc();
+            if (key_ != TLS_OUT_OF_INDEXES)
+                InterlockedExchange((volatile LONG*)&allocated_, 1);
+        }
+        bool ok = allocated_ != 0;
+        InterlockedExchange((volatile LONG*)&allocating_, 0);
+        return ok;
     }
 
     DWORD key_;
@@ -142,9 +152,16 @@ class ThreadLocal
     }
 
     bool allocate() {
-        if (!__sync_bool_compare_and_swap(&allocated_, 0, 1))
-            return true;
-        return pthread_key_create(&key_, nullptr) == 0;
+        // The key must exist before anyone is told that it does.
+        while (!__sync_bool_compare_and_swap(&allocating_, 0, 1))
+            sched_yield();
+        if (!allocated_ && pthread_key_create(&key_, nullptr) == 0) {
+            __sync_synchronize();
+            allocated_ = 1;
+        }
+        bool ok = allocated_ != 0;
+        __sync_lock_release(&allocating_);
+        return ok;
     }
 
   private:
-- 
2.43.0


From f0d88ead3916ded3029f6fe1694aec8a1a758044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:26 +0000
Subject: [PATCH 35/39] fix: ThreadLocal::set stops the program when the value
 cannot be stored

pthread_setspecific fails with ENOMEM when it has to allocate; the value was
silently lost.
---
 amtl/am-threadlocal.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/amtl/am-threadlocal.h b/amtl/am-threadlocal.h
index a3ea50a..1dab5c5 100644
--- a/amtl/am-threadlocal.h
+++ b/amtl/am-threadlocal.h
@@ -169,7 +169,10 @@ class ThreadLocal
         return (T) reinterpret_cast<uintptr_t>(pthread_getspecific(key_));
     }
     void internalSet(const T& t) {
-        pthread_setspecific(key_, reinterpret_cast<void*>(t));
+        if (pthread_setspecific(key_, reinterpret_cast<void*>(t)) != 0) {
+            fprintf(stderr, "could not allocate thread-local storage\n");
+            abort();
+        }
     }
 
     pthread_key_t key_;
-- 
2.43.0


From 3b5364af1e871be3dd90a13f8af60d5c91164c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 36/39] fix: SafeStrcpyN stops at the end of the source string

---
 amtl/am-string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index b104260..40e5d3d 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -243,7 +243,7 @@ SafeStrcpyN(char* dest, size_t maxlength, const char* src, size_t n)
 
     char* iter = dest;
     size_t count = maxlength;
-    while (--count && n--)
+    while (n-- && *src && --count)
         *iter++ = *src++;
     *iter = '\0';
 
-- 
2.43.0


From a0fe2204b3861a7c148a54f55712683c043ffaff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 37/39] fix: SprintfArgs does not overflow int for text of
 INT_MAX characters

---
 amtl/am-string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index 40e5d3d..9921043 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -113,13 +113,13 @@ SprintfArgsImpl(size_t* out_len, const char* fmt, va_list ap)
         return buffer;
     }
 
-    auto buffer = std::make_unique<char[]>(len + 1);
+    auto buffer = std::make_unique<char[]>(size_t(len) + 1);
     if (!buffer) {
         va_end(argv);
         return buffer;
     }
 
-    int new_len = KE_VSNPRINTF(buffer.get(), len + 1, fmt, argv);
+    int new_len = KE_VSNPRINTF(buffer.get(), size_t(len) + 1, fmt, argv);
     if (new_len < 0)
         return std::unique_ptr<char[]>();
     assert(len == new_len);
-- 
2.43.0


From 62a42849e3530cbfb1febfc20b08822ad3ea3277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:37 +0000
Subject: [PATCH 38/39] fix: Uppercase and Lowercase do not pass negative
 values to toupper and tolower

---
 amtl/am-string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index 9921043..3914505 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -332,14 +332,14 @@ Join(const std::vector<std::string>& pieces, const char* sep)
 static inline std::string Uppercase(const char* str) {
     std::string result(str);
     for (size_t i = 0; i < result.size(); i++)
-        result[i] = toupper(result[i]);
+        result[i] = toupper(static_cast<unsigned char>(result[i]));
     return result;
 }
 
 static inline std::string Lowercase(const char* str) {
     std::string result(str);
     for (size_t i = 0; i < result.size(); i++)
-        result[i] = tolower(result[i]);
+        result[i] = tolower(static_cast<unsigned char>(result[i]));
     return result;
 }
 
-- 
2.43.0


From 20e46023832d47f0e38180525e5e23f62490d2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:58 +0000
Subject: [PATCH 39/39] fix: AtomicRef must acquire what it locks

The compare-and-swap that takes the lock only released.  When the pointer read before it is swapped out and back
in (or a new object gets the same address), nothing orders the new object's construction before its use.
---
 amtl/am-refcounting-threadsafe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-refcounting-threadsafe.h b/amtl/am-refcounting-threadsafe.h
index 7641dbb..475c8fb 100644
--- a/amtl/am-refcounting-threadsafe.h
+++ b/amtl/am-refcounting-threadsafe.h
@@ -181,7 +181,7 @@ class AtomicRef
         // indefinitely waiting for it to become unlocked. So we must have a
         // strong guarantee on failure.
         void* oldval = untagged(thing_);
-        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_release,
+        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_acquire,
                                                std::memory_order_relaxed))
         {
             std::this_thread::yield();
-- 
2.43.0

