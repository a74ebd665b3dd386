From 82f036cce63547775c123f36b6a78176fa23dd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:34 +0000
Subject: [PATCH 001/161] fix: Array grows aligned memory to the requested
 capacity

---
 il/container/1d/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index dea1df1..b48a761 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -947,7 +947,7 @@ void Array<T>::IncreaseCapacity(il::int_t r) {
     new_data = il::allocateArray<T>(r);
     new_shift = 0;
   } else {
-    new_data = il::allocateArray<T>(n, align_r_, align_mod_, il::io, new_shift);
+    new_data = il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
   }
   if (data_) {
     if (il::isTrivial<T>::value) {
-- 
2.43.0


From f4cee561cc86a6193031660e438d16120e36e752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:34 +0000
Subject: [PATCH 002/161] fix: Array copy assignment constructs the elements it
 adds

---
 il/container/1d/Array.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index b48a761..92b2e91 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -585,10 +585,15 @@ Array<T>& Array<T>::operator=(const Array<T>& v) {
     if (il::isTrivial<T>::value) {
       memcpy(data_, v.data_, n * sizeof(T));
     } else {
+      const il::int_t n_old = size();
       for (il::int_t i = 0; i < n; ++i) {
-        data_[i] = v.data_[i];
+        if (i < n_old) {
+          data_[i] = v.data_[i];
+        } else {
+          new (data_ + i) T(v.data_[i]);
+        }
       }
-      for (il::int_t i = size() - 1; i >= n; --i) {
+      for (il::int_t i = n_old - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
     }
-- 
2.43.0


From e4dc33a148109c19c0ff5971c2852a4414e01bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:34 +0000
Subject: [PATCH 003/161] fix: Array::Set only assigns the elements of the
 array

---
 il/container/1d/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 92b2e91..4e530b7 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -665,7 +665,7 @@ T& Array<T>::operator[](il::int_t i) {
 
 template <typename T>
 void Array<T>::Set(const T& x) {
-  for (il::int_t i = 0; i < capacity_ - data_; ++i) {
+  for (il::int_t i = 0; i < size(); ++i) {
     data_[i] = x;
   }
 }
-- 
2.43.0


From 8d77db147e15110a7af79a6e2cbda09a44360155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:34 +0000
Subject: [PATCH 004/161] fix: Array::Append accepts an element of the array
 itself

---
 il/container/1d/Array.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 4e530b7..c694ee1 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -838,13 +838,12 @@ void Array<T>::Append(T&& x) {
     if (error) {
       il::abort();
     }
+    T x_local = std::move(x);
     IncreaseCapacity(new_capacity);
+    new (size_) T(std::move(x_local));
+  } else {
+    new (size_) T(std::move(x));
   }
-  //  if (il::isTrivial<T>::value) {
-  //    *size_ = std::move(x);
-  //  } else {
-  new (size_) T(std::move(x));
-  //  }
   ++size_;
 }
 
@@ -860,9 +859,12 @@ void Array<T>::Append(il::emplace_t, Args&&... args) {
     if (error) {
       il::abort();
     }
+    T x_local(std::forward<Args>(args)...);
     IncreaseCapacity(new_capacity);
-  };
-  new (size_) T(std::forward<Args>(args)...);
+    new (size_) T(std::move(x_local));
+  } else {
+    new (size_) T(std::forward<Args>(args)...);
+  }
   ++size_;
 }
 
-- 
2.43.0


From db3f97a568bcd348118f9e865aa7b5a9593205b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:34 +0000
Subject: [PATCH 005/161] fix: Array::Resize accepts an element of the array
 itself as value

---
 il/container/1d/Array.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index c694ee1..1f5ef6a 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -745,14 +745,15 @@ void Array<T>::Resize(il::int_t n, const T& x) {
     }
   } else {
     const il::int_t n_old = size();
+    const T x_copy = x;
     IncreaseCapacity(n);
     if (il::isTrivial<T>::value) {
       for (il::int_t i = n_old; i < n; ++i) {
-        data_[i] = x;
+        data_[i] = x_copy;
       }
     } else {
       for (il::int_t i = n_old; i < n; ++i) {
-        new (data_ + i) T{x};
+        new (data_ + i) T(x_copy);
       }
     }
   }
-- 
2.43.0


From 9adda9063135e5a8047dcd0db023d9172aeaf1b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 006/161] fix: SmallArray move assignment transfers the storage
 of its source

---
 il/container/1d/SmallArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index bc51f0a..d3ab9f4 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -405,7 +405,7 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       } else {
         for (il::int_t i = n - 1; i >= 0; --i) {
           new (data_ + i) T(std::move(A.data_[i]));
-          (data_ + i)->~T();
+          (A.data_ + i)->~T();
         }
       }
       size_ = data_ + n;
@@ -415,7 +415,7 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
       size_ = A.size_;
       capacity_ = A.capacity_;
     }
-    data_ = reinterpret_cast<T*>(small_data_);
+    A.data_ = reinterpret_cast<T*>(A.small_data_);
     A.size_ = A.data_ + 0;
     A.capacity_ = A.data_ + small_size;
   }
-- 
2.43.0


From c3cd4437d232a1c4852360428cae5e2736e899da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 007/161] fix: SmallArray copy assignment constructs the
 elements it adds

---
 il/container/1d/SmallArray.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index d3ab9f4..cab5c6f 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -372,8 +372,13 @@ SmallArray<T, small_size>& SmallArray<T, small_size>::operator=(
           (data_ + i)->~T();
         }
       }
+      const il::int_t n_old = size();
       for (il::int_t i = 0; i < n; ++i) {
-        data_[i] = A.data_[i];
+        if (i < n_old || il::isTrivial<T>::value) {
+          data_[i] = A.data_[i];
+        } else {
+          new (data_ + i) T(A.data_[i]);
+        }
       }
       size_ = data_ + n;
     }
-- 
2.43.0


From 33cd9fee50e722fe4d4319e89eef2dcea818e100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 008/161] fix: SmallArray::Resize keeps its first elements

---
 il/container/1d/SmallArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index cab5c6f..c0d32b0 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -484,7 +484,7 @@ void SmallArray<T, small_size>::Resize(il::int_t n) {
       }
 #endif
     } else {
-      for (il::int_t i = size() - 1; i >= 0; --i) {
+      for (il::int_t i = size() - 1; i >= n; --i) {
         (data_ + i)->~T();
       }
       for (il::int_t i = size(); i < n; ++i) {
-- 
2.43.0


From 429879b9836b009d34da2da80bc4f3f64a35fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:46 +0000
Subject: [PATCH 009/161] fix: SmallArray::Append accepts an element of the
 array itself

---
 il/container/1d/SmallArray.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/il/container/1d/SmallArray.h b/il/container/1d/SmallArray.h
index c0d32b0..46aa2a1 100644
--- a/il/container/1d/SmallArray.h
+++ b/il/container/1d/SmallArray.h
@@ -555,9 +555,12 @@ void SmallArray<T, small_size>::Append(Args&&... args) {
     if (error) {
       il::abort();
     }
+    T x_local(args...);
     IncreaseCapacity(new_capacity);
-  };
-  new (size_) T(args...);
+    new (size_) T(std::move(x_local));
+  } else {
+    new (size_) T(args...);
+  }
   ++size_;
 }
 
-- 
2.43.0


From 058c1ff9bde9f6d8a6a880ef1cea98ca82ad9f6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 010/161] fix: Array2D::Resize accepts an element of the array
 itself as value

---
 il/container/2d/Array2D.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index a7a9b78..5b13013 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -969,6 +969,8 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
 
+  // x might be an element of the array
+  const T x_copy = x;
   const il::int_t n0_old = size(0);
   const il::int_t n1_old = size(1);
   const bool need_memory = n0 > capacity(0) || n1 > capacity(1);
@@ -1020,7 +1022,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new_data[i1 * r0 + i0] = x;
+          new_data[i1 * r0 + i0] = x_copy;
         }
       }
     } else {
@@ -1043,7 +1045,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new (new_data + i1 * r0 + i0) T{x};
+          new (new_data + i1 * r0 + i0) T(x_copy);
         }
       }
     }
@@ -1055,7 +1057,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
     if (il::isTrivial<T>::value) {
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = (i1 < n1_old ? n0_old : 0); i0 < n0; ++i0) {
-          data_[i1 * capacity(0) + i0] = x;
+          data_[i1 * capacity(0) + i0] = x_copy;
         }
       }
     } else {
@@ -1066,7 +1068,7 @@ void Array2D<T>::Resize(il::int_t n0, il::int_t n1, const T& x) {
       }
       for (il::int_t i1 = 0; i1 < n1; ++i1) {
         for (il::int_t i0 = i1 < n1_old ? n0_old : 0; i0 < n0; ++i0) {
-          new (data_ + i1 * capacity(0) + i0) T{x};
+          new (data_ + i1 * capacity(0) + i0) T(x_copy);
         }
       }
     }
-- 
2.43.0


From a11580b1b8f5808ffab3c4215660865ee10b4402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 011/161] fix: Array2D copy assignment constructs the elements
 it adds

---
 il/container/2d/Array2D.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index 5b13013..bba17b4 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -755,7 +755,11 @@ Array2D<T>& Array2D<T>::operator=(const Array2D<T>& A) {
       } else {
         for (il::int_t i1 = 0; i1 < n1; ++i1) {
           for (il::int_t i0 = 0; i0 < n0; ++i0) {
-            data_[i1 * capacity(0) + i0] = A(i0, i1);
+            if (i0 < size(0) && i1 < size(1)) {
+              data_[i1 * capacity(0) + i0] = A(i0, i1);
+            } else {
+              new (data_ + i1 * capacity(0) + i0) T(A(i0, i1));
+            }
           }
         }
         for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
-- 
2.43.0


From b5c44c06465f2c0bbe7e22298461ea7b4da731fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 012/161] fix: an empty aligned Array2D satisfies its own
 invariance

---
 il/container/2d/Array2D.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index bba17b4..cc3b0ac 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -369,9 +369,9 @@ Array2D<T>::Array2D(il::int_t n0, il::int_t n1, il::align_t,
   size_[1] = data_ + n1;
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = r > 0 ? static_cast<short>(alignment) : 0;
+  align_r_ = r > 0 ? static_cast<short>(align_r) : 0;
+  align_mod_ = r > 0 ? static_cast<short>(align_mod) : 0;
 }
 
 template <typename T>
@@ -510,9 +510,9 @@ Array2D<T>::Array2D(il::int_t n0, il::int_t n1, const T& x, il::align_t,
   size_[1] = data_ + n1;
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = r > 0 ? static_cast<short>(alignment) : 0;
+  align_r_ = r > 0 ? static_cast<short>(align_r) : 0;
+  align_mod_ = r > 0 ? static_cast<short>(align_mod) : 0;
 }
 
 template <typename T>
-- 
2.43.0


From f830ef9f9523601e97a3804c2bc95aedc77b6cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:02 +0000
Subject: [PATCH 013/161] fix: the view of a column of an Array2D uses its
 stride

---
 il/container/2d/Array2D.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index cc3b0ac..bd2c118 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1276,7 +1276,7 @@ il::Array2DView<T> Array2D<T>::view() const {
 
 template <typename T>
 il::ArrayView<T> Array2D<T>::view(il::Range range0, il::int_t i1) const {
-  return il::ArrayView<T>{data() + i1 * size(0) + range0.begin,
+  return il::ArrayView<T>{data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
 
-- 
2.43.0


From 9adc1712c71e3b3be6ac7a3f1d4841fa9c45442f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 014/161] fix: empty aligned Array2C, Array3D and Array3C
 satisfy their own invariance

---
 il/container/2d/Array2C.h | 12 ++++++------
 il/container/3d/Array3C.h | 12 ++++++------
 il/container/3d/Array3D.h | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index d00efa3..35a82d3 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -354,9 +354,9 @@ Array2C<T>::Array2C(il::int_t n0, il::int_t n1, il::align_t,
   size_[1] = data_ + n1;
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = r > 0 ? static_cast<short>(alignment) : 0;
+  align_r_ = r > 0 ? static_cast<short>(align_r) : 0;
+  align_mod_ = r > 0 ? static_cast<short>(align_mod) : 0;
 }
 
 template <typename T>
@@ -462,9 +462,9 @@ Array2C<T>::Array2C(il::int_t n0, il::int_t n1, const T& x, il::align_t,
   size_[1] = data_ + n1;
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = r > 0 ? static_cast<short>(alignment) : 0;
+  align_r_ = r > 0 ? static_cast<short>(align_r) : 0;
+  align_mod_ = r > 0 ? static_cast<short>(align_mod) : 0;
 }
 
 template <typename T>
diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 4545d0a..8837b95 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -384,9 +384,9 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, il::align_t,
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
   capacity_[2] = data_ + r2;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = r > 0 ? static_cast<short>(alignment) : 0;
+  align_r_ = r > 0 ? static_cast<short>(align_r) : 0;
+  align_mod_ = r > 0 ? static_cast<short>(align_mod) : 0;
 }
 
 template <typename T>
@@ -508,9 +508,9 @@ Array3C<T>::Array3C(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
   capacity_[2] = data_ + r2;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = r > 0 ? static_cast<short>(alignment) : 0;
+  align_r_ = r > 0 ? static_cast<short>(align_r) : 0;
+  align_mod_ = r > 0 ? static_cast<short>(align_mod) : 0;
 }
 
 template <typename T>
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index c7fddc9..c214cb8 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -378,9 +378,9 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, il::align_t,
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
   capacity_[2] = data_ + r2;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = r > 0 ? static_cast<short>(alignment) : 0;
+  align_r_ = r > 0 ? static_cast<short>(align_r) : 0;
+  align_mod_ = r > 0 ? static_cast<short>(align_mod) : 0;
 }
 
 template <typename T>
@@ -504,9 +504,9 @@ Array3D<T>::Array3D(il::int_t n0, il::int_t n1, il::int_t n2, const T& x,
   capacity_[0] = data_ + r0;
   capacity_[1] = data_ + r1;
   capacity_[2] = data_ + r2;
-  alignment_ = static_cast<short>(alignment);
-  align_r_ = static_cast<short>(align_r);
-  align_mod_ = static_cast<short>(align_mod);
+  alignment_ = r > 0 ? static_cast<short>(alignment) : 0;
+  align_r_ = r > 0 ? static_cast<short>(align_r) : 0;
+  align_mod_ = r > 0 ? static_cast<short>(align_mod) : 0;
 }
 
 template <typename T>
-- 
2.43.0


From c5cf4751e13b28e94da4e87df25730efee059fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 015/161] fix: copy assignment of Array2C, 3D, 3C, 4D and 4C
 constructs the elements it adds

---
 il/container/2d/Array2C.h |  6 +++++-
 il/container/3d/Array3C.h | 10 ++++++++--
 il/container/3d/Array3D.h |  8 +++++++-
 il/container/4d/Array4C.h | 13 ++++++++++---
 il/container/4d/Array4D.h | 13 ++++++++++---
 5 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 35a82d3..6482545 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -707,7 +707,11 @@ Array2C<T>& Array2C<T>::operator=(const Array2C<T>& A) {
       } else {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
-            data_[i0 * capacity(1) + i1] = A(i0, i1);
+            if (i0 < size(0) && i1 < size(1)) {
+              data_[i0 * capacity(1) + i1] = A(i0, i1);
+            } else {
+              new (data_ + i0 * capacity(1) + i1) T(A(i0, i1));
+            }
           }
         }
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 8837b95..3aa8196 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -811,14 +811,20 @@ Array3C<T>& Array3C<T>::operator=(const Array3C<T>& A) {
         for (il::int_t i0 = 0; i0 < n0; ++i0) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i2 = 0; i2 < n2; ++i2) {
-              data_[(i0 * capacity(1) + i1) * capacity(2) + i2] = A(i0, i1, i2);
+              if (i0 < size(0) && i1 < size(1) && i2 < size(2)) {
+                data_[(i0 * capacity(1) + i1) * capacity(2) + i2] =
+                    A(i0, i1, i2);
+              } else {
+                new (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2)
+                    T(A(i0, i1, i2));
+              }
             }
           }
         }
         for (il::int_t i0 = size(0) - 1; i0 >= 0; --i0) {
           for (il::int_t i1 = size(1) - 1; i1 >= 0; --i1) {
             for (il::int_t i2 = size(2) - 1;
-                 i2 >= (i0 < n0 && i1 < n1 ? n0 : 0); --i2) {
+                 i2 >= (i0 < n0 && i1 < n1 ? n2 : 0); --i2) {
               (data_ + (i0 * capacity(1) + i1) * capacity(2) + i2)->~T();
             }
           }
diff --git a/il/container/3d/Array3D.h b/il/container/3d/Array3D.h
index c214cb8..8c0f9ad 100644
--- a/il/container/3d/Array3D.h
+++ b/il/container/3d/Array3D.h
@@ -811,7 +811,13 @@ Array3D<T>& Array3D<T>::operator=(const Array3D<T>& A) {
         for (il::int_t i2 = 0; i2 < n2; ++i2) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i0 = 0; i0 < n0; ++i0) {
-              data_[(i2 * capacity(1) + i1) * capacity(0) + i0] = A(i0, i1, i2);
+              if (i0 < size(0) && i1 < size(1) && i2 < size(2)) {
+                data_[(i2 * capacity(1) + i1) * capacity(0) + i0] =
+                    A(i0, i1, i2);
+              } else {
+                new (data_ + (i2 * capacity(1) + i1) * capacity(0) + i0)
+                    T(A(i0, i1, i2));
+              }
             }
           }
         }
diff --git a/il/container/4d/Array4C.h b/il/container/4d/Array4C.h
index 769beae..4c99785 100644
--- a/il/container/4d/Array4C.h
+++ b/il/container/4d/Array4C.h
@@ -554,9 +554,16 @@ Array4C<T>& Array4C<T>::operator=(const Array4C<T>& A) {
           for (il::int_t i1 = 0; i1 < n1; ++i1) {
             for (il::int_t i2 = 0; i2 < n2; ++i2) {
               for (il::int_t i3 = 0; i3 < n3; ++i3) {
-                data_[((i0 * capacity(1) + i1) * capacity(2) + i2) *
-                          capacity(3) +
-                      i0] = A(i0, i1, i2, i3);
+                T* const p =
+                    data_ +
+                    ((i0 * capacity(1) + i1) * capacity(2) + i2) * capacity(3) +
+                    i3;
+                if (i0 < size(0) && i1 < size(1) && i2 < size(2) &&
+                    i3 < size(3)) {
+                  *p = A(i0, i1, i2, i3);
+                } else {
+                  new (p) T(A(i0, i1, i2, i3));
+                }
               }
             }
           }
diff --git a/il/container/4d/Array4D.h b/il/container/4d/Array4D.h
index 908cdaf..311c6e6 100644
--- a/il/container/4d/Array4D.h
+++ b/il/container/4d/Array4D.h
@@ -554,9 +554,16 @@ Array4D<T>& Array4D<T>::operator=(const Array4D<T>& A) {
           for (il::int_t i2 = 0; i2 < n2; ++i2) {
             for (il::int_t i1 = 0; i1 < n1; ++i1) {
               for (il::int_t i0 = 0; i0 < n0; ++i0) {
-                data_[((i3 * capacity(2) + i2) * capacity(1) + i1) *
-                          capacity(0) +
-                      i0] = A(i0, i1, i2, i3);
+                T* const p =
+                    data_ +
+                    ((i3 * capacity(2) + i2) * capacity(1) + i1) * capacity(0) +
+                    i0;
+                if (i0 < size(0) && i1 < size(1) && i2 < size(2) &&
+                    i3 < size(3)) {
+                  *p = A(i0, i1, i2, i3);
+                } else {
+                  new (p) T(A(i0, i1, i2, i3));
+                }
               }
             }
           }
-- 
2.43.0


From 10660a03a85d0614431b633b44d874f564fa0fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:04 +0000
Subject: [PATCH 016/161] fix: Array3C::Resize only initializes the elements of
 the array

---
 il/container/3d/Array3C.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/3d/Array3C.h b/il/container/3d/Array3C.h
index 3aa8196..d6a2166 100644
--- a/il/container/3d/Array3C.h
+++ b/il/container/3d/Array3C.h
@@ -1041,7 +1041,7 @@ void Array3C<T>::Resize(il::int_t n0, il::int_t n1, il::int_t n2) {
   } else {
     if (il::isTrivial<T>::value) {
 #ifdef IL_DEFAULT_VALUE
-      for (il::int_t i0 = 0; i0 < n2; ++i0) {
+      for (il::int_t i0 = 0; i0 < n0; ++i0) {
         for (il::int_t i1 = 0; i1 < n1; ++i1) {
           for (il::int_t i2 = (i0 < n0_old && i1 < n1_old) ? n2_old : 0;
                i2 < n2; ++i2) {
-- 
2.43.0


From 50bb2fa6cdd8055833409d0fc159718bc9e7cfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 017/161] fix: the copy constructor of an aligned Array2C uses
 the alignment of its source

---
 il/container/2d/Array2C.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2C.h b/il/container/2d/Array2C.h
index 6482545..fea84b0 100644
--- a/il/container/2d/Array2C.h
+++ b/il/container/2d/Array2C.h
@@ -545,10 +545,10 @@ Array2C<T>::Array2C(const Array2C<T>& A) {
   il::int_t r0;
   il::int_t r1;
   if (n0 > 0 && n1 > 0) {
-    if (il::isTrivial<T>::value && A.align_mod_ != 0) {
+    if (il::isTrivial<T>::value && A.alignment_ != 0) {
       r0 = n0;
       const il::int_t nb_lanes = static_cast<il::int_t>(
-          static_cast<std::size_t>(alignment_) / alignof(T));
+          static_cast<std::size_t>(A.alignment_) / alignof(T));
       bool error = false;
       r1 = il::safeUpperRound(n1, nb_lanes, il::io, error);
       if (error) {
-- 
2.43.0


From bcc09ba20e6777e568f71cf816fb39281fc36e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:03 +0000
Subject: [PATCH 018/161] fix: Array::Append of its own element does not use a
 temporary

---
 il/container/1d/Array.h | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/il/container/1d/Array.h b/il/container/1d/Array.h
index 1f5ef6a..59aeec0 100644
--- a/il/container/1d/Array.h
+++ b/il/container/1d/Array.h
@@ -264,6 +264,8 @@ class Array {
   /* \brief Used internally to increase the capacity of the array
    */
   void IncreaseCapacity(il::int_t r);
+  T* allocate(il::int_t r, il::io_t, il::int_t& shift) const;
+  void Relocate(T* new_data, il::int_t r, il::int_t new_shift);
 
   /* \brief Used internally in debug mode to check the invariance of the object
    */
@@ -839,9 +841,11 @@ void Array<T>::Append(T&& x) {
     if (error) {
       il::abort();
     }
-    T x_local = std::move(x);
-    IncreaseCapacity(new_capacity);
-    new (size_) T(std::move(x_local));
+    // The new element is constructed first: x may be an element of this array
+    il::int_t new_shift;
+    T* const new_data = allocate(new_capacity, il::io, new_shift);
+    new (new_data + n) T(std::move(x));
+    Relocate(new_data, new_capacity, new_shift);
   } else {
     new (size_) T(std::move(x));
   }
@@ -860,9 +864,12 @@ void Array<T>::Append(il::emplace_t, Args&&... args) {
     if (error) {
       il::abort();
     }
-    T x_local(std::forward<Args>(args)...);
-    IncreaseCapacity(new_capacity);
-    new (size_) T(std::move(x_local));
+    // The new element is constructed first: the arguments may be elements of
+    // this array
+    il::int_t new_shift;
+    T* const new_data = allocate(new_capacity, il::io, new_shift);
+    new (new_data + n) T(std::forward<Args>(args)...);
+    Relocate(new_data, new_capacity, new_shift);
   } else {
     new (size_) T(std::forward<Args>(args)...);
   }
@@ -948,15 +955,26 @@ template <typename T>
 void Array<T>::IncreaseCapacity(il::int_t r) {
   IL_EXPECT_FAST(capacity() < r);
 
-  const il::int_t n = size();
-  T* new_data;
   il::int_t new_shift;
+  T* const new_data = allocate(r, il::io, new_shift);
+  Relocate(new_data, r, new_shift);
+}
+
+template <typename T>
+T* Array<T>::allocate(il::int_t r, il::io_t, il::int_t& shift) const {
+  T* new_data;
   if (alignment_ == 0) {
     new_data = il::allocateArray<T>(r);
-    new_shift = 0;
+    shift = 0;
   } else {
-    new_data = il::allocateArray<T>(r, align_r_, align_mod_, il::io, new_shift);
+    new_data = il::allocateArray<T>(r, align_r_, align_mod_, il::io, shift);
   }
+  return new_data;
+}
+
+template <typename T>
+void Array<T>::Relocate(T* new_data, il::int_t r, il::int_t new_shift) {
+  const il::int_t n = size();
   if (data_) {
     if (il::isTrivial<T>::value) {
       memcpy(new_data, data_, n * sizeof(T));
-- 
2.43.0


From 8f403bf6f96b9e648f9f20a967c241122f0fc955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 019/161] fix: the views of a column of an Array2D compile and
 check their bounds

---
 il/container/2d/Array2D.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/il/container/2d/Array2D.h b/il/container/2d/Array2D.h
index bd2c118..72b8b07 100644
--- a/il/container/2d/Array2D.h
+++ b/il/container/2d/Array2D.h
@@ -1276,6 +1276,13 @@ il::Array2DView<T> Array2D<T>::view() const {
 
 template <typename T>
 il::ArrayView<T> Array2D<T>::view(il::Range range0, il::int_t i1) const {
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.begin) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.end) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i1) <
+                 static_cast<std::size_t>(size(1)));
+
   return il::ArrayView<T>{data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
@@ -1327,7 +1334,14 @@ il::Array2DEdit<T> Array2D<T>::Edit(il::Range range0, il::Range range1) {
 
 template <typename T>
 il::ArrayEdit<T> Array2D<T>::Edit(il::Range range0, il::int_t i1) {
-  return il::ArrayEdit<T>{data() + i1 * stride(1) + range0.begin,
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.begin) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(range0.end) <=
+                 static_cast<std::size_t>(size(0)));
+  IL_EXPECT_FAST(static_cast<std::size_t>(i1) <
+                 static_cast<std::size_t>(size(1)));
+
+  return il::ArrayEdit<T>{Data() + i1 * stride(1) + range0.begin,
                           range0.end - range0.begin};
 }
 
-- 
2.43.0


From 09a54666b2a698c5badef5fdb09032ea53e2fa33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 020/161] fix: a block of an Array2CEdit starts at its first
 row and column

---
 il/container/2d/Array2CView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/2d/Array2CView.h b/il/container/2d/Array2CView.h
index ac65e44..f58d2b6 100644
--- a/il/container/2d/Array2CView.h
+++ b/il/container/2d/Array2CView.h
@@ -235,8 +235,8 @@ Array2CEdit<T> Array2CEdit<T>::Edit(il::Range r0, il::Range r1) {
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(r1.end) <=
                    static_cast<std::size_t>(this->size(1)));
 
-  const il::int_t my_stride = this->stride(1);
-  return il::Array2CEdit<T>{Data() + r0.begin + r1.begin * my_stride,
+  const il::int_t my_stride = this->stride(0);
+  return il::Array2CEdit<T>{Data() + r0.begin * my_stride + r1.begin,
                             r0.end - r0.begin,
                             r1.end - r1.begin,
                             my_stride,
-- 
2.43.0


From 9142ad263e5890a45ab68463649ac7f0aeb3836d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:23 +0000
Subject: [PATCH 021/161] fix: an empty two-dimensional array can be viewed

---
 il/container/2d/Array2CView.h | 4 ++--
 il/container/2d/Array2DView.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/2d/Array2CView.h b/il/container/2d/Array2CView.h
index f58d2b6..c0cec91 100644
--- a/il/container/2d/Array2CView.h
+++ b/il/container/2d/Array2CView.h
@@ -143,7 +143,7 @@ Array2CView<T>::Array2CView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
@@ -162,7 +162,7 @@ Array2CView<T>::Array2CView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride, short align_mod, short align_r) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
diff --git a/il/container/2d/Array2DView.h b/il/container/2d/Array2DView.h
index 6c83a34..2a0c95f 100644
--- a/il/container/2d/Array2DView.h
+++ b/il/container/2d/Array2DView.h
@@ -143,7 +143,7 @@ Array2DView<T>::Array2DView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
@@ -162,7 +162,7 @@ Array2DView<T>::Array2DView(const T* data, il::int_t n0, il::int_t n1,
                             il::int_t stride, short align_mod, short align_r) {
   IL_EXPECT_FAST(n0 >= 0);
   IL_EXPECT_FAST(n1 >= 0);
-  IL_EXPECT_FAST(stride > 0);
+  IL_EXPECT_FAST(stride >= 0);
   data_ = const_cast<T*>(data);
 #ifdef IL_DEBUGGER_HELPERS
   debug_size_0_ = n0;
-- 
2.43.0


From c5b2deb6c3c1b412d679d39e7daede39560dec07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 022/161] fix: copy assignment of triangular matrices copies
 all their elements

---
 il/container/2d/LowerArray2D.h | 13 +++++++++----
 il/container/2d/UpperArray2D.h | 13 +++++++++----
 2 files changed, 18 insertions(+), 8 deletions(-)

diff --git a/il/container/2d/LowerArray2D.h b/il/container/2d/LowerArray2D.h
index 1f5a114..6b0e3ae 100644
--- a/il/container/2d/LowerArray2D.h
+++ b/il/container/2d/LowerArray2D.h
@@ -158,7 +158,8 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         if (data_) {
-          for (il::int_t k{nb_elements - 1}; k >= 0; --k) {
+          const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+          for (il::int_t k{nb_elements_old - 1}; k >= 0; --k) {
             (data_ + k)->~T();
           }
           ::operator delete(data_);
@@ -176,12 +177,16 @@ LowerArray2D<T>& LowerArray2D<T>::operator=(const LowerArray2D<T>& A) {
       capacity_ = data_ + n;
     } else {
       if (il::isTrivial<T>::value) {
-        memcpy(data_, A.data_, n * sizeof(T));
+        memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
+        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k = 0; k < nb_elements; ++k) {
-          data_[k] = A.data_[k];
+          if (k < nb_elements_old) {
+            data_[k] = A.data_[k];
+          } else {
+            new (data_ + k) T{A.data_[k]};
+          }
         }
-        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k{nb_elements_old - 1}; k >= nb_elements; --k) {
           (data_ + k)->~T();
         }
diff --git a/il/container/2d/UpperArray2D.h b/il/container/2d/UpperArray2D.h
index 912d669..d84b89c 100644
--- a/il/container/2d/UpperArray2D.h
+++ b/il/container/2d/UpperArray2D.h
@@ -158,7 +158,8 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
         memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
         if (data_) {
-          for (il::int_t k{nb_elements - 1}; k >= 0; --k) {
+          const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
+          for (il::int_t k{nb_elements_old - 1}; k >= 0; --k) {
             (data_ + k)->~T();
           }
           ::operator delete(data_);
@@ -176,12 +177,16 @@ UpperArray2D<T>& UpperArray2D<T>::operator=(const UpperArray2D<T>& A) {
       capacity_ = data_ + n;
     } else {
       if (il::isTrivial<T>::value) {
-        memcpy(data_, A.data_, n * sizeof(T));
+        memcpy(data_, A.data_, nb_elements * sizeof(T));
       } else {
+        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k = 0; k < nb_elements; ++k) {
-          data_[k] = A.data_[k];
+          if (k < nb_elements_old) {
+            data_[k] = A.data_[k];
+          } else {
+            new (data_ + k) T{A.data_[k]};
+          }
         }
-        const il::int_t nb_elements_old{(size() * (size() + 1)) / 2};
         for (il::int_t k{nb_elements_old - 1}; k >= nb_elements; --k) {
           (data_ + k)->~T();
         }
-- 
2.43.0


From 570df17b7a89c8ee550459d6e6d7b697e74c0f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 023/161] fix: a sparse matrix without rows can be built from
 an empty list of positions

---
 il/container/2d/SparseMatrixCSR.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 62243ac..79a42d4 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -144,7 +144,7 @@ SparseMatrixCSR<Index, T>::SparseMatrixCSR(
   for (Index l = 0; l < nb_entries; ++l) {
     ++nb_entries_per_row[position[l][0]];
   }
-  const Index max_entries_per_row = il::max(nb_entries_per_row);
+  const Index max_entries_per_row = n > 0 ? il::max(nb_entries_per_row) : 0;
 
   // Suppose that we have the matrix entered with the following entries:
   // (0, 0) - (2, 2) - (1, 2) - (1, 1) - (2, 2)
-- 
2.43.0


From 6ccf7582a01f5a222685bd334266cb5a52e4ac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 024/161] fix: a negative position in the row of a sparse
 matrix is out of bounds

---
 il/container/2d/SparseMatrixCSR.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/2d/SparseMatrixCSR.h b/il/container/2d/SparseMatrixCSR.h
index 79a42d4..3e30c1e 100644
--- a/il/container/2d/SparseMatrixCSR.h
+++ b/il/container/2d/SparseMatrixCSR.h
@@ -252,16 +252,16 @@ T &SparseMatrixCSR<Index, T>::operator[](il::int_t k) {
 template <typename Index, typename T>
 T const &SparseMatrixCSR<Index, T>::operator()(il::int_t i, il::int_t k) const {
   IL_EXPECT_FAST(static_cast<std::size_t>(i) < static_cast<std::size_t>(n0_));
-  IL_EXPECT_FAST(static_cast<std::size_t>(row_[i] + k) <
-                 static_cast<std::size_t>(row_[i + 1]));
+  IL_EXPECT_FAST(static_cast<std::size_t>(k) <
+                 static_cast<std::size_t>(row_[i + 1] - row_[i]));
   return element_[row_[i] + k];
 }
 
 template <typename Index, typename T>
 T &SparseMatrixCSR<Index, T>::operator()(il::int_t i, il::int_t k) {
   IL_EXPECT_FAST(static_cast<std::size_t>(i) < static_cast<std::size_t>(n0_));
-  IL_EXPECT_FAST(static_cast<std::size_t>(row_[i] + k) <
-                 static_cast<std::size_t>(row_[i + 1]));
+  IL_EXPECT_FAST(static_cast<std::size_t>(k) <
+                 static_cast<std::size_t>(row_[i + 1] - row_[i]));
   return element_[row_[i] + k];
 }
 
-- 
2.43.0


From da14a6dea29b9fdfedd1a0c23248d3906a07ce26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 025/161] fix: the bounds check of a band matrix does not
 overflow

---
 il/container/2d/BandArray2C.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/2d/BandArray2C.h b/il/container/2d/BandArray2C.h
index 6dc63a8..3a763a1 100644
--- a/il/container/2d/BandArray2C.h
+++ b/il/container/2d/BandArray2C.h
@@ -71,10 +71,10 @@ template <typename T>
 const T& BandArray2C<T>::operator()(il::int_t i0, il::int_t k) const {
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(i0) <
                    static_cast<std::size_t>(size(0)));
-  IL_EXPECT_MEDIUM(static_cast<std::size_t>(i0 + k) <
-                   static_cast<std::size_t>(size(1)));
   IL_EXPECT_MEDIUM(k <= width_right_);
   IL_EXPECT_MEDIUM(k >= -width_left_);
+  IL_EXPECT_MEDIUM(static_cast<std::size_t>(i0 + k) <
+                   static_cast<std::size_t>(size(1)));
   return element_(i0, width_left_ + k);
 }
 
@@ -82,10 +82,10 @@ template <typename T>
 T& BandArray2C<T>::operator()(il::int_t i0, il::int_t k) {
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(i0) <
                    static_cast<std::size_t>(size(0)));
-  IL_EXPECT_MEDIUM(static_cast<std::size_t>(i0 + k) <
-                   static_cast<std::size_t>(size(1)));
   IL_EXPECT_MEDIUM(k <= width_right_);
   IL_EXPECT_MEDIUM(k >= -width_left_);
+  IL_EXPECT_MEDIUM(static_cast<std::size_t>(i0 + k) <
+                   static_cast<std::size_t>(size(1)));
   return element_(i0, width_left_ + k);
 }
 
-- 
2.43.0


From 9ab2550a13019403fe9dba8624a5689634fbce43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 026/161] fix: Map::Rehash moves each element to the slot its
 key leads to

---
 il/container/hash/Map.h | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index c96b366..c3a71b8 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -1072,22 +1072,9 @@ void Map<K, V, F>::ReserveWithP(int p) {
 template <typename K, typename V, typename F>
 void Map<K, V, F>::Rehash() {
   if (nb_tombstones_ > 0) {
-    const il::int_t m = nbBuckets();
-    KeyValue<K, V>* bucket = il::allocateArray<KeyValue<K, V>>(m);
-    for (il::int_t i = 0; i < m; ++i) {
-      F::constructEmpty(il::io, reinterpret_cast<K*>(bucket + i));
-    }
-    for (il::int_t i = 0; i < m; ++i) {
-      if (!(F::isEmpty(bucket_[i].key) || F::isTombstone(bucket_[i].key))) {
-        new (&((bucket + i)->key)) K(std::move(bucket_[i].key));
-        new (&((bucket + i)->value)) V(std::move(bucket_[i].value));
-        ((bucket_ + i)->value).~V();
-        ((bucket_ + i)->key).~K();
-      }
-    }
-    il::deallocate(bucket_);
-    bucket_ = bucket;
-    nb_tombstones_ = 0;
+    // Without the tombstones, the elements might not be reached from the slot
+    // given by the hash of their key: they need to be inserted again
+    ReserveWithP(p_);
   }
 #ifdef IL_DEBUG_CLASS
   hash_ = 2 * hash_;
-- 
2.43.0


From eeee33df0f8c3dd2ab5f9af4fe8d9d91e2c76193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 027/161] fix: a Map that reuses the slot of an erased element
 has one tombstone less

---
 il/container/hash/Map.h | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index c3a71b8..8765fca 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -634,6 +634,9 @@ void Map<K, V, F>::SetCString(const char* key, const il::int_t n,
     il::spot_t j = searchCString(key, n);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone(bucket_[i_local].key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key, n);
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
@@ -666,6 +669,9 @@ void Map<K, V, F>::SetCString(const char (&key)[m], const V& value, il::io_t,
     il::spot_t j = searchCString(key);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone(bucket_[i_local].key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
@@ -695,6 +701,9 @@ void Map<K, V, F>::Set(const K& key, const V& value, il::io_t, il::spot_t& i) {
     il::spot_t j = search(key);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone(bucket_[i_local].key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
@@ -724,6 +733,9 @@ void Map<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
     il::spot_t j = search(key);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone(bucket_[i_local].key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(key);
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
@@ -753,6 +765,9 @@ void Map<K, V, F>::Set(K&& key, const V& value, il::io_t, il::spot_t& i) {
     il::spot_t j = search(key);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone(bucket_[i_local].key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
   new (&((bucket_ + i_local)->value)) V(value);
   ++nb_elements_;
@@ -782,6 +797,9 @@ void Map<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
     il::spot_t j = search(key);
     i_local = -(1 + j.index);
   }
+  if (F::isTombstone(bucket_[i_local].key)) {
+    --nb_tombstones_;
+  }
   new (const_cast<K*>(&((bucket_ + i_local)->key))) K(std::move(key));
   new (&((bucket_ + i_local)->value)) V(std::move(value));
   ++nb_elements_;
-- 
2.43.0


From 870d6665107b63c979f1a7085d80bb402f364e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 028/161] fix: Map::erase does not hash a destroyed key

---
 il/container/hash/Map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 8765fca..64b3d0f 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -817,10 +817,10 @@ void Map<K, V, F>::erase(il::spot_t i) {
 #endif
   IL_EXPECT_FAST(found(i));
 
-  (&((bucket_ + i.index)->key))->~K();
 #ifdef IL_DEBUG_CLASS
   hash_ -= F::hash((bucket_ + i.index)->key, p_);
 #endif
+  (&((bucket_ + i.index)->key))->~K();
   F::constructTombstone(il::io, reinterpret_cast<K*>(bucket_ + i.index));
   (&((bucket_ + i.index)->value))->~V();
   --nb_elements_;
-- 
2.43.0


From a7931b0bc0fbc43cd9e2a257facd61f1ca8065fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 029/161] fix: Map::Reserve never loses elements

---
 il/container/hash/Map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 64b3d0f..2854b60 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -935,7 +935,10 @@ template <typename K, typename V, typename F>
 void Map<K, V, F>::Reserve(il::int_t n) {
   IL_EXPECT_FAST(n >= 0);
 
-  ReserveWithP(pForSlots(n));
+  const int p = pForSlots(n);
+  if (p > p_) {
+    ReserveWithP(p);
+  }
 }
 
 template <typename K, typename V, typename F>
-- 
2.43.0


From 65037af43f47af7b9f8cf6676f99ff1ae3473b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 030/161] fix: a copy of an empty Map does not free
 uninitialized memory

---
 il/container/hash/Map.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 2854b60..ec07ece 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -220,6 +220,8 @@ Map<K, V, F>::Map(il::value_t, std::initializer_list<il::KeyValue<K, V>> list) {
 
   if (n == 0) {
     bucket_ = nullptr;
+    nb_elements_ = 0;
+    nb_tombstones_ = 0;
     p_ = -1;
 #ifdef IL_DEBUGGER_HELPERS
     size_ = 0;
@@ -257,6 +259,7 @@ Map<K, V, F>::Map(il::value_t, std::initializer_list<il::KeyValue<K, V>> list) {
 template <typename K, typename V, typename F>
 Map<K, V, F>::Map(const Map<K, V, F>& map) {
   p_ = map.p_;
+  bucket_ = nullptr;
 #ifdef IL_DEBUGGER_HELPERS
   size_ = map.size_;
 #endif
-- 
2.43.0


From ca83ccbeacf4724459fef66b83fa97659043b014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 031/161] fix: copy assignment of a Map handles self-assignment
 and empty maps

---
 il/container/hash/Map.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index ec07ece..6c1cfd5 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -309,19 +309,22 @@ Map<K, V, F>::Map(Map<K, V, F>&& map) {
 
 template <typename K, typename V, typename F>
 Map<K, V, F>& Map<K, V, F>::operator=(const Map<K, V, F>& map) {
+  if (this == &map) {
+    return *this;
+  }
   const int p = map.p_;
   const int old_p = p_;
-  if (p >= 0) {
-    if (old_p >= 0) {
-      const il::int_t old_m = nbBuckets(old_p);
-      for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
-          (&((bucket_ + i)->value))->~V();
-          (&((bucket_ + i)->key))->~K();
-        }
+  if (old_p >= 0) {
+    const il::int_t old_m = nbBuckets(old_p);
+    for (il::int_t i = 0; i < old_m; ++i) {
+      if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
+        (&((bucket_ + i)->value))->~V();
+        (&((bucket_ + i)->key))->~K();
       }
     }
     il::deallocate(bucket_);
+  }
+  if (p >= 0) {
     const il::int_t m = nbBuckets(p);
     bucket_ = il::allocateArray<KeyValue<K, V>>(m);
     for (il::int_t i = 0; i < m; ++i) {
-- 
2.43.0


From 86c90858882a0c1a24147f3faec4a9040c389584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 032/161] fix: move assignment of a Map compiles

---
 il/container/hash/Map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 6c1cfd5..c026fa2 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -363,7 +363,7 @@ Map<K, V, F>& Map<K, V, F>::operator=(Map<K, V, F>&& map) {
     if (old_p >= 0) {
       const il::int_t old_m = nbBuckets(old_p);
       for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::is_empy(bucket_ + i) && !F::isTombstone(bucket_ + i)) {
+        if (!F::isEmpty(bucket_[i].key) && !F::isTombstone(bucket_[i].key)) {
           (&((bucket_ + i)->value))->~V();
           (&((bucket_ + i)->key))->~K();
         }
-- 
2.43.0


From 56774f4895af57b7059973c1bdf50e8e4c0ffdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 033/161] fix: an empty Map can be looped over

---
 il/container/hash/Map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index c026fa2..75caf88 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -1012,7 +1012,7 @@ void Map<K, V, F>::Clear() {
 
 template <typename K, typename V, typename F>
 il::spot_t Map<K, V, F>::spotBegin() const {
-  const il::int_t m = il::int_t{1} << p_;
+  const il::int_t m = nbBuckets();
 
   il::int_t i = 0;
   while (i < m &&
@@ -1030,7 +1030,7 @@ il::spot_t Map<K, V, F>::spotBegin() const {
 template <typename K, typename V, typename F>
 il::spot_t Map<K, V, F>::spotEnd() const {
   il::spot_t s;
-  s.index = il::int_t{1} << p_;
+  s.index = nbBuckets();
 #ifdef IL_DEBUG_CLASS
   s.signature = hash_;
 #endif
@@ -1042,7 +1042,7 @@ il::spot_t Map<K, V, F>::next(il::spot_t i) const {
 #ifdef IL_DEBUG_CLASS
   IL_EXPECT_MEDIUM(i.signature == hash_);
 #endif
-  const il::int_t m = il::int_t{1} << p_;
+  const il::int_t m = nbBuckets();
 
   il::int_t i_local = i.index;
   ++i_local;
-- 
2.43.0


From 7942f76dfa4becef7e94d72a02f0df5850a2984e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 034/161] fix: the value of a missing key of a Map is not a
 dangling reference

---
 il/container/hash/Map.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index 75caf88..d373da8 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -106,10 +106,10 @@ class Map {
   const K& key(il::spot_t i) const;
   const V& value(il::spot_t i) const;
   V& Value(il::spot_t i);
-  const V& valueForKey(const K& key) const;
+  V valueForKey(const K& key) const;
   const V& valueForKey(const K& key, const V& default_value) const;
   template <il::int_t m>
-  const V& valueForCString(const char (&key)[m]) const;
+  V valueForCString(const char (&key)[m]) const;
   template <il::int_t m>
   const V& valueForCString(const char (&key)[m], const V& default_value) const;
 
@@ -873,7 +873,7 @@ V& Map<K, V, F>::Value(il::spot_t i) {
 }
 
 template <typename K, typename V, typename F>
-const V& Map<K, V, F>::valueForKey(const K& key) const {
+V Map<K, V, F>::valueForKey(const K& key) const {
   const il::spot_t i = search(key);
   if (found(i)) {
     return value(i);
@@ -894,7 +894,7 @@ const V& Map<K, V, F>::valueForKey(const K& key, const V& default_value) const {
 
 template <typename K, typename V, typename F>
 template <il::int_t m>
-const V& Map<K, V, F>::valueForCString(const char (&key)[m]) const {
+V Map<K, V, F>::valueForCString(const char (&key)[m]) const {
   const il::spot_t i = search(key);
   if (found(i)) {
     return value(i);
-- 
2.43.0


From 68f4f437e3f7b0bb030006e4fbe388e88964e9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:59 +0000
Subject: [PATCH 035/161] fix: Map::searchCString with a size compiles and
 hashes as search does

---
 il/container/hash/Map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/hash/Map.h b/il/container/hash/Map.h
index d373da8..1f5df71 100644
--- a/il/container/hash/Map.h
+++ b/il/container/hash/Map.h
@@ -585,7 +585,7 @@ il::spot_t Map<K, V, F>::searchCString(const char* key, il::int_t n) const {
   }
 
   const std::size_t mask = (static_cast<std::size_t>(1) << p_) - 1;
-  std::size_t i = F::hash(key, n) & mask;
+  std::size_t i = F::hash(key, n, p_);
   std::size_t i_tombstone = -1;
   std::size_t delta_i = 1;
   while (true) {
-- 
2.43.0


From d6de26d07fb7e1442b740a1e279d681dc1b6582e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 036/161] fix: Set.h compiles

---
 il/container/hash/Set.h | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index ed81b46..cf85810 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -20,7 +20,8 @@
 #define IL_SET_H
 
 #include <il/container/hash/HashFunction.h>
-#include <il/container/hash/Spot.h>
+#include <il/core.h>
+#include <il/core/memory/allocate.h>
 
 namespace il {
 
@@ -41,7 +42,7 @@ class Set {
   ~Set();
 
   il::spot_t search(const T& x) const;
-  void Add(const T& x, il::io_t, il::spot_t i);
+  void Add(const T& x, il::io_t, il::spot_t& i);
   void Add(const T& x);
   bool found(il::spot_t i) const;
   bool contains(const T& x) const;
@@ -103,7 +104,7 @@ Set<T, F>& Set<T, F>::operator=(const Set<T, F>& set) {
     if (old_p >= 0) {
       const il::int_t old_m = nbBuckets(old_p);
       for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::isEmpty(bucket_ + i) && !F::isTombstone(bucket_ + i)) {
+        if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
           (bucket_ + i)->~T();
         }
       }
@@ -137,9 +138,8 @@ Set<T, F>& Set<T, F>::operator=(Set<T, F>&& set) {
     if (old_p >= 0) {
       const il::int_t old_m = nbBuckets(old_p);
       for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::is_empy(bucket_ + i) && !F::isTombstone(bucket_ + i)) {
-          (&((bucket_ + i)->value))->~V();
-          (&((bucket_ + i)->key))->~K();
+        if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
+          (bucket_ + i)->~T();
         }
       }
       il::deallocate(bucket_);
@@ -272,12 +272,7 @@ il::spot_t Set<T, F>::spotBegin() const {
 
 template <typename T, typename F>
 il::spot_t Set<T, F>::spotEnd() const {
-#ifdef IL_DEBUG_CLASS
-  return il::spot_t{static_cast<il::int_t>(static_cast<std::size_t>(1) << p_),
-                    0};
-#else
-  return il::spot_t{static_cast<il::int_t>(static_cast<std::size_t>(1) << p_)};
-#endif
+  return il::spot_t{nbBuckets()};
 }
 
 template <typename T, typename F>
-- 
2.43.0


From 560714e55d08cb99e065da323da7cde5ffb988ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 037/161] fix: an empty Set can be copied, searched and looped
 over

---
 il/container/hash/Set.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index cf85810..453519e 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -69,6 +69,7 @@ Set<T, F>::Set() {
 
 template <typename T, typename F>
 Set<T, F>::Set(const Set<T, F>& set) {
+  bucket_ = nullptr;
   p_ = set.p_;
   nb_elements_ = 0;
   nb_tombstones_ = 0;
@@ -261,7 +262,7 @@ const T& Set<T, F>::element(il::spot_t i) const {
 
 template <typename T, typename F>
 il::spot_t Set<T, F>::spotBegin() const {
-  const il::int_t m = static_cast<il::int_t>(static_cast<std::size_t>(1) << p_);
+  const il::int_t m = nbBuckets();
 
   il::int_t i = 0;
   while (i < m && (F::isEmpty(bucket_[i]) || F::isTombstone(bucket_[i]))) {
@@ -277,7 +278,7 @@ il::spot_t Set<T, F>::spotEnd() const {
 
 template <typename T, typename F>
 il::spot_t Set<T, F>::next(il::spot_t i) const {
-  const il::int_t m = static_cast<il::int_t>(static_cast<std::size_t>(1) << p_);
+  const il::int_t m = nbBuckets();
 
   il::int_t i_local = i.index;
   ++i_local;
-- 
2.43.0


From 2af939ef1ca7c7bac9204093f076ef068979a9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 038/161] fix: copy assignment of a Set handles self-assignment
 and empty sets

---
 il/container/hash/Set.h | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index 453519e..1c1cbcf 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -99,18 +99,21 @@ Set<T, F>::Set(Set<T, F>&& set) {
 
 template <typename T, typename F>
 Set<T, F>& Set<T, F>::operator=(const Set<T, F>& set) {
+  if (this == &set) {
+    return *this;
+  }
   const int p = set.p_;
   const int old_p = p_;
-  if (p >= 0) {
-    if (old_p >= 0) {
-      const il::int_t old_m = nbBuckets(old_p);
-      for (il::int_t i = 0; i < old_m; ++i) {
-        if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
-          (bucket_ + i)->~T();
-        }
+  if (old_p >= 0) {
+    const il::int_t old_m = nbBuckets(old_p);
+    for (il::int_t i = 0; i < old_m; ++i) {
+      if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
+        (bucket_ + i)->~T();
       }
     }
     il::deallocate(bucket_);
+  }
+  if (p >= 0) {
     const il::int_t m = nbBuckets(p);
     bucket_ = il::allocateArray<T>(m);
     for (il::int_t i = 0; i < m; ++i) {
-- 
2.43.0


From daad658bc01ca22887b77e82cd77377b6e18d1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 039/161] fix: Set::Clear empties the slots

---
 il/container/hash/Set.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/container/hash/Set.h b/il/container/hash/Set.h
index 1c1cbcf..74a5bd7 100644
--- a/il/container/hash/Set.h
+++ b/il/container/hash/Set.h
@@ -253,9 +253,11 @@ void Set<T, F>::Clear() {
       if (!F::isEmpty(bucket_[i]) && !F::isTombstone(bucket_[i])) {
         (bucket_ + i)->~T();
       }
+      F::constructEmpty(il::io, bucket_ + i);
     }
   }
   nb_elements_ = 0;
+  nb_tombstones_ = 0;
 }
 
 template <typename T, typename F>
-- 
2.43.0


From 0f2e870b93919e7a47325cadb632b3ceaa1917a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 040/161] fix: MapArray does not hash moved keys

---
 il/container/hash/MapArray.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index df4a60c..2d261ff 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -89,7 +89,7 @@ MapArray<K, V, F>::MapArray(il::value_t,
     }
   }
 #ifdef IL_DEBUG_CLASS
-  hash_ = static_cast<std::size_t>(n);
+  hash_ = map_.hash();
 #endif
 };
 
@@ -99,7 +99,7 @@ void MapArray<K, V, F>::Set(const K& key, const V& value) {
   array_.Append(il::emplace, key, value);
   map_.Set(key, i);
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
 #endif
 }
 
@@ -109,7 +109,7 @@ void MapArray<K, V, F>::Set(const K& key, V&& value) {
   array_.Append(il::emplace, key, std::move(value));
   map_.Set(key, i);
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
 #endif
 }
 
@@ -119,7 +119,7 @@ void MapArray<K, V, F>::Set(K&& key, V&& value) {
   array_.Append(il::emplace, key, std::move(value));
   map_.Set(std::move(key), i);
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
 #endif
 }
 
@@ -132,7 +132,7 @@ void MapArray<K, V, F>::Set(const K& key, const V& value, il::io_t,
 
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
   i.signature = hash_;
 #endif
 }
@@ -144,7 +144,7 @@ void MapArray<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
   map_.Set(key, j, il::io, i);
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
   i.signature = hash_;
 #endif
 }
@@ -156,7 +156,7 @@ void MapArray<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
   map_.Set(std::move(key), j, il::io, i);
   i.index = j;
 #ifdef IL_DEBUG_CLASS
-  hash_ = F::hash(key, map_.hash());
+  hash_ = map_.hash();
   i.signature = hash_;
 #endif
 }
-- 
2.43.0


From 50657ee802a1f328100927ce03c301fc91b6a16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 041/161] fix: MapArray::Set of a key that is already there
 changes its value

---
 il/container/hash/MapArray.h | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index 2d261ff..6d303a7 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -95,6 +95,11 @@ MapArray<K, V, F>::MapArray(il::value_t,
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(const K& key, const V& value) {
+  const il::spot_t s = search(key);
+  if (found(s)) {
+    Value(s) = value;
+    return;
+  }
   const il::int_t i = array_.size();
   array_.Append(il::emplace, key, value);
   map_.Set(key, i);
@@ -105,6 +110,11 @@ void MapArray<K, V, F>::Set(const K& key, const V& value) {
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(const K& key, V&& value) {
+  const il::spot_t s = search(key);
+  if (found(s)) {
+    Value(s) = std::move(value);
+    return;
+  }
   const il::int_t i = array_.size();
   array_.Append(il::emplace, key, std::move(value));
   map_.Set(key, i);
@@ -115,6 +125,11 @@ void MapArray<K, V, F>::Set(const K& key, V&& value) {
 
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, V&& value) {
+  const il::spot_t s = search(key);
+  if (found(s)) {
+    Value(s) = std::move(value);
+    return;
+  }
   const il::int_t i = array_.size();
   array_.Append(il::emplace, key, std::move(value));
   map_.Set(std::move(key), i);
-- 
2.43.0


From 1c392d0562b387fc3c46158219bd07064013ed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:56 +0000
Subject: [PATCH 042/161] fix: all the overloads of MapArray::Set are defined

---
 il/container/hash/MapArray.h | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/il/container/hash/MapArray.h b/il/container/hash/MapArray.h
index 6d303a7..ff26424 100644
--- a/il/container/hash/MapArray.h
+++ b/il/container/hash/MapArray.h
@@ -123,6 +123,21 @@ void MapArray<K, V, F>::Set(const K& key, V&& value) {
 #endif
 }
 
+template <typename K, typename V, typename F>
+void MapArray<K, V, F>::Set(K&& key, const V& value) {
+  const il::spot_t s = search(key);
+  if (found(s)) {
+    Value(s) = value;
+    return;
+  }
+  const il::int_t i = array_.size();
+  array_.Append(il::emplace, key, value);
+  map_.Set(std::move(key), i);
+#ifdef IL_DEBUG_CLASS
+  hash_ = map_.hash();
+#endif
+}
+
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, V&& value) {
   const il::spot_t s = search(key);
@@ -164,6 +179,18 @@ void MapArray<K, V, F>::Set(const K& key, V&& value, il::io_t, il::spot_t& i) {
 #endif
 }
 
+template <typename K, typename V, typename F>
+void MapArray<K, V, F>::Set(K&& key, const V& value, il::io_t, il::spot_t& i) {
+  const il::int_t j = array_.size();
+  array_.Append(il::emplace, key, value);
+  map_.Set(std::move(key), j, il::io, i);
+  i.index = j;
+#ifdef IL_DEBUG_CLASS
+  hash_ = map_.hash();
+  i.signature = hash_;
+#endif
+}
+
 template <typename K, typename V, typename F>
 void MapArray<K, V, F>::Set(K&& key, V&& value, il::io_t, il::spot_t& i) {
   const il::int_t j = array_.size();
-- 
2.43.0


From 3d7d3a7dbdf9071517dd260bb625b1b98a4e8e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 043/161] fix: Deque::PopBack of the last element leaves an
 empty deque

---
 il/container/deque/Deque.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index e609004..a3d4390 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -216,7 +216,10 @@ template <typename T>
 void Deque<T>::PopBack() {
   IL_EXPECT_MEDIUM(size() > 0);
 
-  if (back_ > 0) {
+  if (size() == 1) {
+    front_ = -1;
+    back_ = -1;
+  } else if (back_ > 0) {
     --back_;
   } else {
     back_ = data_.size() - 1;
-- 
2.43.0


From 3686277746f95e07774373af9ad2209aea10faee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 044/161] fix: Deque::PushBack on a full deque that wraps does
 not overwrite its front

---
 il/container/deque/Deque.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/il/container/deque/Deque.h b/il/container/deque/Deque.h
index a3d4390..78446b4 100644
--- a/il/container/deque/Deque.h
+++ b/il/container/deque/Deque.h
@@ -133,7 +133,8 @@ void Deque<T>::PushBack(const T& x) {
     data_[0] = x;
     front_ = 0;
     back_ = 0;
-  } else if (back_ + 1 < front_ || back_ + 1 < data_.size()) {
+  } else if (back_ + 1 < front_ ||
+             (front_ <= back_ && back_ + 1 < data_.size())) {
     ++back_;
     data_[back_] = x;
   } else if (back_ + 1 == data_.size()) {
@@ -155,7 +156,8 @@ void Deque<T>::PushBack(il::emplace_t, Args&&... args) {
     data_[0] = T(std::forward<Args>(args)...);
     front_ = 0;
     back_ = 0;
-  } else if (back_ + 1 < front_ || back_ + 1 < data_.size()) {
+  } else if (back_ + 1 < front_ ||
+             (front_ <= back_ && back_ + 1 < data_.size())) {
     ++back_;
     data_[back_] = T(std::forward<Args>(args)...);
   } else if (back_ + 1 == data_.size()) {
-- 
2.43.0


From 8f4bab0eef5b392be855e9061d510998aba20a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 045/161] fix: a node of a Tree whose value has been set is not
 empty

---
 il/container/tree/Tree.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index e59544c..c8e37b9 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -118,9 +118,7 @@ il::spot_t Tree<T, n>::child(il::spot_t s, il::int_t i) const {
 template <typename T, il::int_t n>
 void Tree<T, n>::Set(il::spot_t s, T x) {
   tree_[s.index].value = x;
-  if (tree_[s.index].flag % 2 == 0) {
-    tree_[s.index].flag += 1;
-  }
+  tree_[s.index].flag = tree_[s.index].flag | 3;
 }
 
 template <typename T, il::int_t n>
-- 
2.43.0


From aa5138621d44d11779646e4dd2d72c567b1dcab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 046/161] fix: Tree::hasChild works for all the children

---
 il/container/tree/Tree.h | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index c8e37b9..ba13233 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -133,20 +133,10 @@ bool Tree<T, n>::hasChild(il::spot_t s) const {
 
 template <typename T, il::int_t n>
 bool Tree<T, n>::hasChild(il::spot_t s, il::int_t i) const {
-  unsigned char flag = tree_[s.index].flag;
-  if (i == 0) {
-    return (flag / 4) % 2 == 1;
-  } else if (i == 1) {
-    return (flag / 8) % 2 == 1;
-  } else if (i == 2) {
-    return (flag / 16) % 2 == 1;
-  } else if (i == 3) {
-    return (flag / 32) % 2 == 1;
-  } else {
-    IL_UNREACHABLE;
-  }
-  IL_UNREACHABLE;
-  return true;
+  IL_EXPECT_MEDIUM(i >= 0 && i < n);
+
+  const unsigned char flag = tree_[s.index].flag;
+  return (flag >> (2 + i)) % 2 == 1;
 };
 
 template <typename T, il::int_t n>
-- 
2.43.0


From f076d493d1cfc26a277632c2b05162b821e4d24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:36 +0000
Subject: [PATCH 047/161] fix: the depth of a Tree does not count the level
 below its last one

---
 il/container/tree/Tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/tree/Tree.h b/il/container/tree/Tree.h
index ba13233..5dcbe47 100644
--- a/il/container/tree/Tree.h
+++ b/il/container/tree/Tree.h
@@ -88,7 +88,7 @@ il::int_t Tree<T, n>::depth() const {
   il::int_t m = tree_.size();
   il::int_t fac = 1;
   il::int_t depth = -1;
-  while (m >= 0) {
+  while (m > 0) {
     m -= fac;
     fac *= n;
     ++depth;
-- 
2.43.0


From 56db4f375a62fc3c15bc91e0003485e0b63eb691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:18 +0000
Subject: [PATCH 048/161] fix: moving a String whose heap block holds a short
 content leaks the block

---
 il/container/string/String.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 38fff8c..af65850 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -360,11 +360,10 @@ inline String::String(const il::StringView& s)
 inline String::String(const String& s) : String{s.type(), s.data(), s.size()} {}
 
 inline String::String(String&& s) {
-  const il::int_t size = s.size();
-  const il::StringType type = s.type();
-  if (size <= max_small_size_) {
+  if (s.isSmall()) {
+    const il::int_t size = s.size();
     std::memcpy(small_, s.asCString(), size + 1);
-    setSmall(type, size);
+    setSmall(s.type(), size);
   } else {
     large_.data = s.large_.data;
     large_.size = s.large_.size;
@@ -432,14 +431,15 @@ inline String& String::operator=(const String& s) {
 
 inline String& String::operator=(String&& s) {
   if (this != &s) {
-    const il::int_t size = s.size();
-    const il::StringType type = s.type();
-    if (size <= max_small_size_) {
-      if (!isSmall()) {
-        il::deallocate(large_.data);
-      }
+    if (!isSmall()) {
+      il::deallocate(large_.data);
+    }
+    if (s.isSmall()) {
+      const il::int_t size = s.size();
       std::memcpy(small_, s.data(), size + 1);
-      setSmall(type, size);
+      setSmall(s.type(), size);
+      s.small_[0] = '\0';
+      s.setSmall(il::StringType::Ascii, 0);
     } else {
       large_.data = s.large_.data;
       large_.size = s.large_.size;
-- 
2.43.0


From 3c9bf76d53d730a86e2464121465199adeda3e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:18 +0000
Subject: [PATCH 049/161] fix: assigning a String to itself reads its freed
 heap block

---
 il/container/string/String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index af65850..a630de2 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -403,6 +403,9 @@ inline String& String::operator=(const char (&data)[m]) {
 }
 
 inline String& String::operator=(const String& s) {
+  if (this == &s) {
+    return *this;
+  }
   const il::int_t size = s.size();
   const il::StringType type = s.type();
   if (size <= max_small_size_) {
-- 
2.43.0


From b68867aa9f3145c4fd4163bd5821cd552d6f86b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:18 +0000
Subject: [PATCH 050/161] fix: appending to a short String that lives on the
 heap leaks its block

---
 il/container/string/String.h | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index a630de2..7cde092 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1060,10 +1060,7 @@ inline void String::Grow(il::unsafe_t, il::int_t n_to_copy, il::int_t n) {
   const bool old_is_small = isSmall();
   char* old_data = Data();
   const il::int_t old_capacity = capacity();
-  if (n <= max_small_size_) {
-    if (!old_is_small) {
-      std::memcpy(small_, old_data, n_to_copy);
-    }
+  if (old_is_small && n <= max_small_size_) {
     setSmall(il::StringType::Byte, n);
   } else if (n <= old_capacity) {
     setLarge(il::StringType::Byte, n, old_capacity);
-- 
2.43.0


From 247a0f1da9cb60388b683a4829a8ec02f7bb40f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:18 +0000
Subject: [PATCH 051/161] fix: String::Append reads freed memory when it is
 given a part of the String

---
 il/container/string/String.h | 47 ++++++++++++++----------------------
 1 file changed, 18 insertions(+), 29 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 7cde092..85d913c 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -681,37 +681,15 @@ inline void String::Append(il::StringType t0, const char* data, il::int_t n) {
   IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_AXIOM("data must point to an array of length at least n");
 
-  const il::int_t old_n = size();
-  const il::StringType t = joinType(type(), t0);
-  Grow(il::unsafe, old_n, old_n + n);
-  char* p = this->Data();
-  std::memcpy(p + old_n, data, n);
-  p[old_n + n] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n);
+  Append(il::StringView{t0, data, n});
 }
 
 inline void String::Append(const StringView& s0) {
-  const il::int_t old_n = size();
-  const il::int_t n0 = s0.size();
-  const il::StringType t = joinType(type(), s0.type());
-  Grow(il::unsafe, old_n, old_n + n0);
-  char* p = Data();
-  std::memcpy(p + old_n, s0.data(), n0);
-  p[old_n + n0] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n0);
+  Append(s0, il::StringView{}, il::StringView{});
 }
 
 inline void String::Append(const StringView& s0, const StringView& s1) {
-  const il::int_t old_n = size();
-  const il::int_t n0 = s0.size();
-  const il::int_t n1 = s1.size();
-  const il::StringType t = joinType(type(), s0.type(), s1.type());
-  Grow(il::unsafe, old_n, old_n + n0 + n1);
-  char* p = Data();
-  std::memcpy(p + old_n, s0.data(), n0);
-  std::memcpy(p + old_n + n0, s1.data(), n1);
-  p[old_n + n0 + n1] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n0 + n1);
+  Append(s0, s1, il::StringView{});
 }
 
 inline void String::Append(const StringView& s0, const StringView& s1,
@@ -720,14 +698,25 @@ inline void String::Append(const StringView& s0, const StringView& s1,
   const il::int_t n0 = s0.size();
   const il::int_t n1 = s1.size();
   const il::int_t n2 = s2.size();
+  const il::int_t n = old_n + n0 + n1 + n2;
   const il::StringType t = joinType(type(), s0.type(), s1.type(), s2.type());
-  Grow(il::unsafe, old_n, old_n + n0 + n1 + n2);
-  char* p = Data();
+  // The views may point to the content of this string: the old memory must be
+  // kept until they are copied
+  const bool in_place = n <= capacity();
+  il::String s{};
+  if (!in_place) {
+    s.Grow(il::unsafe, 0, n);
+    std::memcpy(s.Data(), data(), old_n);
+  }
+  char* p = in_place ? Data() : s.Data();
   std::memcpy(p + old_n, s0.data(), n0);
   std::memcpy(p + old_n + n0, s1.data(), n1);
   std::memcpy(p + old_n + n0 + n1, s2.data(), n2);
-  p[old_n + n0 + n1 + n2] = '\0';
-  SetInvariant(il::unsafe, t, old_n + n0 + n1 + n2);
+  p[n] = '\0';
+  if (!in_place) {
+    *this = std::move(s);
+  }
+  SetInvariant(il::unsafe, t, n);
 }
 
 inline void String::Insert(il::int_t i, char c) {
-- 
2.43.0


From 554921ee7564f761a7c9cb963e41ae271f23ddc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 052/161] fix: String::Append(n, c) accepts a negative number
 of characters

---
 il/container/string/String.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 85d913c..cb020b0 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -582,6 +582,7 @@ inline void String::Append(int rune) {
 }
 
 inline void String::Append(il::int_t n, char c) {
+  IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
 
   const il::int_t old_n = size();
-- 
2.43.0


From 8ca3f2eaaf2d31f30a5d601b770c1f5ffcb37efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 053/161] fix: String::Append(n, rune) sets a wrong size for
 ASCII and overflows for 3-byte runes

---
 il/container/string/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index cb020b0..fbacad8 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -610,7 +610,7 @@ inline void String::Append(il::int_t n, int rune) {
       p[old_n + k] = static_cast<char>(rune);
     }
     p[old_n + n] = '\0';
-    SetInvariant(il::unsafe, t, old_n + 1);
+    SetInvariant(il::unsafe, t, old_n + n);
   } else if (urune < 0x00000800u) {
     Grow(il::unsafe, old_n, old_n + 2 * n);
     char* p = Data();
@@ -623,7 +623,7 @@ inline void String::Append(il::int_t n, int rune) {
     SetInvariant(il::unsafe, il::joinType(t, il::StringType::Utf8),
                  old_n + 2 * n);
   } else if (urune < 0x00010000u) {
-    Grow(il::unsafe, old_n, old_n + 3);
+    Grow(il::unsafe, old_n, old_n + 3 * n);
     char* p = Data();
     for (il::int_t k = 0; k < n; ++k) {
       p[old_n + 3 * k] = static_cast<char>((urune >> 12) | 0x000000E0u);
-- 
2.43.0


From 7c61701ffeb441c2655acff1d4694abdefc2ca1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 054/161] fix: String::Insert loses the terminating null
 character and leaks the old block

---
 il/container/string/String.h | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index fbacad8..e3284c6 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -733,7 +733,7 @@ inline void String::Insert(il::int_t i, char c) {
   const bool old_is_small = isSmall();
   char* p = Data();
   if (old_size + 1 <= old_capacity) {
-    for (il::int_t k = old_size; k >= i + 1; k--) {
+    for (il::int_t k = old_size + 1; k >= i + 1; k--) {
       p[k] = p[k - 1];
     }
     p[i] = c;
@@ -747,7 +747,10 @@ inline void String::Insert(il::int_t i, char c) {
     char* new_p = il::allocateArray<char>(r + 1);
     std::memcpy(new_p, p, i);
     new_p[i] = c;
-    std::memcpy(new_p + i + 1, p + i, old_size - i);
+    std::memcpy(new_p + i + 1, p + i, old_size - i + 1);
+    if (!old_is_small) {
+      il::deallocate(p);
+    }
     large_.data = new_p;
     setLarge(type(), old_size + 1, r);
   }
@@ -767,7 +770,7 @@ inline void String::Insert(il::int_t i, il::int_t n, char c) {
   const bool old_is_small = isSmall();
   char* p = Data();
   if (old_size + n <= old_capacity) {
-    for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
+    for (il::int_t k = old_size + n; k >= i + n; k--) {
       p[k] = p[k - n];
     }
     for (il::int_t k = i; k < i + n; ++k) {
@@ -785,7 +788,10 @@ inline void String::Insert(il::int_t i, il::int_t n, char c) {
     for (il::int_t k = i; k < i + n; ++k) {
       new_p[k] = c;
     }
-    std::memcpy(new_p + i + n, p + i, old_size - i);
+    std::memcpy(new_p + i + n, p + i, old_size - i + 1);
+    if (!old_is_small) {
+      il::deallocate(p);
+    }
     large_.data = new_p;
     setLarge(type(), old_size + n, r);
   }
@@ -807,7 +813,7 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
   const bool old_is_small = isSmall();
   char* p = Data();
   if (old_size + n <= old_capacity) {
-    for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
+    for (il::int_t k = old_size + n; k >= i + n; k--) {
       p[k] = p[k - n];
     }
     std::memcpy(p + i, s, n);
@@ -821,7 +827,10 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
     char* new_p = il::allocateArray<char>(r + 1);
     std::memcpy(new_p, p, i);
     std::memcpy(new_p + i, s, n);
-    std::memcpy(new_p + i + n, p + i, old_size - i);
+    std::memcpy(new_p + i + n, p + i, old_size - i + 1);
+    if (!old_is_small) {
+      il::deallocate(p);
+    }
     large_.data = new_p;
     setLarge(type(), old_size + n, r);
   }
@@ -840,7 +849,7 @@ inline void String::Insert(il::int_t i, il::StringType t, const char* s,
   const il::StringType t_new = il::joinType(type(), t);
   char* p = Data();
   if (old_size + n <= old_capacity) {
-    for (il::int_t k = old_size + (n - 1); k >= i + n; k--) {
+    for (il::int_t k = old_size + n; k >= i + n; k--) {
       p[k] = p[k - n];
     }
     std::memcpy(p + i, s, n);
@@ -854,7 +863,10 @@ inline void String::Insert(il::int_t i, il::StringType t, const char* s,
     char* new_p = il::allocateArray<char>(r + 1);
     std::memcpy(new_p, p, i);
     std::memcpy(new_p + i, s, n);
-    std::memcpy(new_p + i + n, p + i, old_size - i);
+    std::memcpy(new_p + i + n, p + i, old_size - i + 1);
+    if (!old_is_small) {
+      il::deallocate(p);
+    }
     large_.data = new_p;
     setLarge(t_new, old_size + n, r);
   }
-- 
2.43.0


From 75a37c387a380b7eab2aba6139cdbabda6968fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 055/161] fix: String::Insert checks the position against the
 number of inserted characters

---
 il/container/string/String.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index e3284c6..6fb80de 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -760,7 +760,9 @@ inline void String::Insert(il::int_t i, char c) {
 
 inline void String::Insert(il::int_t i, il::int_t n, char c) {
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
-  IL_EXPECT_FAST(static_cast<std::size_t>(i) <= static_cast<std::size_t>(n));
+  IL_EXPECT_FAST(n >= 0);
+  IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
+                 static_cast<std::size_t>(size()));
   if (type() == il::StringType::Utf8) {
     IL_EXPECT_FAST(isRuneBoundary(i));
   }
@@ -838,7 +840,9 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
 
 inline void String::Insert(il::int_t i, il::StringType t, const char* s,
                            il::int_t n) {
-  IL_EXPECT_FAST(static_cast<std::size_t>(i) <= static_cast<std::size_t>(n));
+  IL_EXPECT_FAST(n >= 0);
+  IL_EXPECT_FAST(static_cast<std::size_t>(i) <=
+                 static_cast<std::size_t>(size()));
   if (type() == il::StringType::Utf8) {
     IL_EXPECT_FAST(isRuneBoundary(i));
   }
-- 
2.43.0


From 637466d0de426c3adce9a53bbc105dd6c4f1d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 056/161] fix: inserting a part of a String into itself
 corrupts it

---
 il/container/string/String.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 6fb80de..6bc0fbe 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -852,7 +852,11 @@ inline void String::Insert(il::int_t i, il::StringType t, const char* s,
   const bool old_is_small = isSmall();
   const il::StringType t_new = il::joinType(type(), t);
   char* p = Data();
-  if (old_size + n <= old_capacity) {
+  if (old_size + n <= old_capacity && s >= p && s < p + old_size) {
+    // The characters to insert are about to be moved
+    const il::String s_copy{t, s, n};
+    Insert(i, t, s_copy.data(), n);
+  } else if (old_size + n <= old_capacity) {
     for (il::int_t k = old_size + n; k >= i + n; k--) {
       p[k] = p[k - n];
     }
-- 
2.43.0


From a56915c85201061b6d7d328131f5ecc3fd915df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 057/161] fix: String::substring and String::subview read the
 wrong memory for large strings

---
 il/container/string/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 6bc0fbe..13d8e9e 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -933,7 +933,7 @@ inline il::String String::substring(il::int_t i0, il::int_t i1) const {
     IL_EXPECT_MEDIUM(isRuneBoundary(i0));
     IL_EXPECT_MEDIUM(isRuneBoundary(i1));
   }
-  return il::String{type(), small_ + i0, i1 - i0};
+  return il::String{type(), data() + i0, i1 - i0};
 }
 
 inline il::StringView String::subview(il::int_t i0, il::int_t i1) const {
@@ -947,7 +947,7 @@ inline il::StringView String::subview(il::int_t i0, il::int_t i1) const {
     IL_EXPECT_MEDIUM(isRuneBoundary(i0));
     IL_EXPECT_MEDIUM(isRuneBoundary(i1));
   }
-  return il::StringView{type(), small_ + i0, i1 - i0};
+  return il::StringView{type(), data() + i0, i1 - i0};
 }
 
 inline il::StringView String::view() const {
-- 
2.43.0


From 37b455338f03bae650ca2a47e93977620f26ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 058/161] fix: String::endsWith(char) compares the first
 character with the letter c

---
 il/container/string/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 13d8e9e..d12ad27 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1008,7 +1008,7 @@ inline bool String::endsWith(char c) const {
     return false;
   }
   const char* s = data();
-  if (*s == 'c') {
+  if (s[n - 1] == c) {
     return true;
   } else {
     return false;
-- 
2.43.0


From dd34f22d07584f5e9f69d1ea4f30daf04039fdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 059/161] fix: String::isEqual and StringView::operator==
 accept a mere prefix

---
 il/container/string/String.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index d12ad27..7536aa5 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1023,17 +1023,18 @@ inline bool String::isEqual(const char* s) const {
   bool ans = true;
   const char* p = data();
   il::int_t i = 0;
+  const il::int_t m = size();
   while (ans && s[i] != '\0') {
-    if (p[i] != s[i]) {
+    if (i >= m || p[i] != s[i]) {
       ans = false;
     }
     ++i;
   }
-  return ans;
+  return ans && i == m;
 }
 
 inline bool String::isEqual(const char* s, il::int_t n) const {
-  bool ans = true;
+  bool ans = (n == size());
   const char* p = data();
   il::int_t i = 0;
   while (ans && i < n) {
@@ -1443,7 +1444,7 @@ inline bool StringView::operator==(const char* string) const {
     }
     ++k;
   }
-  return match;
+  return match && k == size() && string[k] == '\0';
 }
 
 inline const char* StringView::asCString() const {
-- 
2.43.0


From 28ff50d971ff2918e7f8c710693619dfb03688eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:15 +0000
Subject: [PATCH 060/161] fix: trail surrogates are not runes

---
 il/container/string/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 7536aa5..442d7db 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -234,10 +234,10 @@ class StringView {
 inline bool isRune(int rune) {
   const unsigned int code_point_max = 0x0010FFFFu;
   const unsigned int lead_surrogate_min = 0x0000D800u;
-  const unsigned int lead_surrogate_max = 0x0000DBFFu;
+  const unsigned int trail_surrogate_max = 0x0000DFFFu;
   const unsigned int urune = static_cast<unsigned int>(rune);
   return urune <= code_point_max &&
-         (urune < lead_surrogate_min || urune > lead_surrogate_max);
+         (urune < lead_surrogate_min || urune > trail_surrogate_max);
 }
 
 inline bool isAscii(const char* s, il::int_t n) {
-- 
2.43.0


From 126c8b46a7fb676c3565064fe84264d9bdb3e27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:50 +0000
Subject: [PATCH 061/161] fix: isUtf8 uses wrong masks and stops at the end of
 the first multibyte sequence

---
 il/container/string/String.h | 80 ++++++++++++++----------------------
 1 file changed, 30 insertions(+), 50 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 442d7db..9572d3a 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1192,59 +1192,39 @@ inline constexpr bool isAscii(const char* data) {
 //  return ans;
 //}
 
-inline constexpr bool auxIsUtf8(const char* s, int nbBytes, int pos,
-                                bool surrogate) {
-  return (pos == 0)
-             // If it starts with the null character, the string is valid
-             ? ((*s == 0x00)
-                    ? true
-                    // Otherwise, let's check if is starts with an ASCII
-                    // character
-                    : ((*s & 0x80) == 0
-                           // In this case, check the rest of the string
-                           ? auxIsUtf8(s + 1, 0, 0, false)
-                           // Otherwise, it might start with a 2-byte sequence
-                           : ((*s & 0xD0) == 0xB0
-                                  // In this case, check the rest of the string
-                                  ? auxIsUtf8(s + 1, 2, 1, false)
-                                  // Otherwise, it might start with a 3-byte
-                                  // sequence
-                                  : ((*s & 0xF0) == 0xD0
-                                         // In this case, check the rest of the
-                                         // string
-                                         ? auxIsUtf8(
-                                               s + 1, 3, 1,
-                                               (static_cast<unsigned char>(
-                                                    *s) == 0xED))
-                                         // Otherwise, it might start with a
-                                         // 4-byte sequence
-                                         : ((*s & 0xF8) == 0xF0
-                                                ? auxIsUtf8(s + 1, 4, 1, false)
-                                                : false)))))
-             // In the case where we are scanning the second byte of a multibyte
-             // sequence
-             : ((pos == 1)
-                    ? ((*s & 0xC0) == 0x80
-                           ? (nbBytes == 2 ? ((*s & 0xA0) != 0xA0)
-                                           : auxIsUtf8(s + 1, nbBytes, pos + 1,
-                                                       surrogate))
-                           : false)
-                    // In the case where we are scanning the third byte of a
-                    // multibyte sequence
-                    : ((pos == 2)
-                           ? ((*s & 0xC0) == 0x80
-                                  ? (nbBytes == 3
-                                         ? true
-                                         : auxIsUtf8(s + 1, nbBytes, pos + 1,
-                                                     surrogate))
-                                  : false)
-                           // In the case where we are scanning the
-                           // fourth byte of a multibyte sequence
-                           : ((pos == 3) ? ((*s & 0xC0) == 0x80) : false)));
+constexpr bool isUtf8(const char* s);
+
+// Check that s starts with n continuation bytes, the first one being in the
+// range [lower, upper], and that what follows is valid
+inline constexpr bool auxIsUtf8(const char* s, int n, unsigned char lower,
+                                unsigned char upper) {
+  return (n == 0) ? isUtf8(s)
+                  : (static_cast<unsigned char>(*s) >= lower &&
+                     static_cast<unsigned char>(*s) <= upper &&
+                     auxIsUtf8(s + 1, n - 1, 0x80, 0xBF));
+}
+
+inline constexpr bool auxIsUtf8(const char* s, unsigned char c) {
+  return (c < 0x80)
+             ? isUtf8(s)
+             // 2-byte sequence: 0xC0 and 0xC1 would be overlong
+             : (c >= 0xC2 && c <= 0xDF)
+                   ? auxIsUtf8(s, 1, 0x80, 0xBF)
+                   // 3-byte sequence: no overlong sequence and no surrogate
+                   : (c >= 0xE0 && c <= 0xEF)
+                         ? auxIsUtf8(s, 2, (c == 0xE0) ? 0xA0 : 0x80,
+                                     (c == 0xED) ? 0x9F : 0xBF)
+                         // 4-byte sequence: no overlong sequence and nothing
+                         // above U+10FFFF
+                         : (c >= 0xF0 && c <= 0xF4)
+                               ? auxIsUtf8(s, 3, (c == 0xF0) ? 0x90 : 0x80,
+                                           (c == 0xF4) ? 0x8F : 0xBF)
+                               : false;
 }
 
 inline constexpr bool isUtf8(const char* s) {
-  return auxIsUtf8(s, 0, 0, false);
+  return (*s == '\0') ? true
+                      : auxIsUtf8(s + 1, static_cast<unsigned char>(*s));
 }
 
 ////////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 892e178f8acce38481a4c37f069aa8b44a191b76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:50 +0000
Subject: [PATCH 062/161] fix: toString reads uninitialised memory for integers
 of more than 11 characters

---
 il/container/string/algorithmString.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/string/algorithmString.h b/il/container/string/algorithmString.h
index 20a852e..2fe702c 100644
--- a/il/container/string/algorithmString.h
+++ b/il/container/string/algorithmString.h
@@ -26,8 +26,9 @@
 namespace il {
 
 inline il::String toString(il::int_t n) {
-  il::String ans{il::unsafe, 11};
-  const il::int_t m = std::snprintf(ans.Data(), 11 + 1, "%td", n);
+  // The sign and the 19 digits of the longest 64-bit integer
+  il::String ans{il::unsafe, 20};
+  const il::int_t m = std::snprintf(ans.Data(), 20 + 1, "%td", n);
   ans.SetInvariant(il::unsafe, il::StringType::Ascii, m);
 
   IL_ENSURE(m > 0);
-- 
2.43.0


From 948d6b17403e1f17a07c6dd227b934caa8465388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:50 +0000
Subject: [PATCH 063/161] fix: StringView member functions that are declared
 are not defined

---
 il/container/string/String.h | 62 ++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index 9572d3a..bb2e4e5 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1369,6 +1369,68 @@ inline bool StringView::startsWithNewLine() const {
          (size() > 1 && data_[0] == '\r' && data_[1] == '\n');
 }
 
+inline bool StringView::startsWith(const char* data) const {
+  il::int_t i = 0;
+  while (data[i] != '\0') {
+    if (i >= size() || data_[i] != data[i]) {
+      return false;
+    }
+    ++i;
+  }
+  return true;
+}
+
+inline bool StringView::startsWith(char c) const {
+  return size() > 0 && data_[0] == c;
+}
+
+inline bool StringView::endsWith(const char* data) const {
+  il::int_t n = 0;
+  while (data[n] != '\0') {
+    ++n;
+  }
+  return n <= size() && subview(size() - n, size()).startsWith(data);
+}
+
+inline bool StringView::endsWith(char c) const {
+  return size() > 0 && size_[-1] == c;
+}
+
+inline bool StringView::endsWithNewLine() const {
+  return size() > 0 && size_[-1] == '\n';
+}
+
+inline bool StringView::endsWithDigit() const {
+  return size() > 0 && size_[-1] >= '0' && size_[-1] <= '9';
+}
+
+inline bool StringView::has(il::int_t i, const char* data) const {
+  IL_EXPECT_MEDIUM(static_cast<std::size_t>(i) <=
+                   static_cast<std::size_t>(size()));
+
+  return subview(i, size()).startsWith(data);
+}
+
+inline bool StringView::has(il::int_t i, char c) const {
+  IL_EXPECT_MEDIUM(static_cast<std::size_t>(i) <
+                   static_cast<std::size_t>(size()));
+
+  return data_[i] == c;
+}
+
+inline il::int_t StringView::nextNewLine(il::int_t i) const {
+  while (i < size() && !hasNewLine(i)) {
+    ++i;
+  }
+  return i < size() ? i : -1;
+}
+
+inline void StringView::trimSuffix() {
+  while (size() > 0 && (size_[-1] == ' ' || size_[-1] == '\t')) {
+    --size_;
+  }
+}
+
 inline void StringView::removePrefix(il::int_t i1) {
   IL_EXPECT_MEDIUM(static_cast<std::size_t>(i1) <=
                    static_cast<std::size_t>(size()));
-- 
2.43.0


From c018f477e8e3d07258bd822ce7cfe725877e01ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:11 +0000
Subject: [PATCH 064/161] fix: math.h uses std::uint64_t without including
 <cstdint>

---
 il/math.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/math.h b/il/math.h
index fc77d85..74b5bb4 100644
--- a/il/math.h
+++ b/il/math.h
@@ -21,6 +21,7 @@
 
 #include <cmath>
 #include <complex>
+#include <cstdint>
 
 #include <il/core.h>
 
-- 
2.43.0


From 6c5e3bc6e92e44f31086864727c63f588423576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:26 +0000
Subject: [PATCH 065/161] fix: a UTF-8 literal inserted in an ASCII String
 leaves it marked as ASCII

---
 il/container/string/String.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index bb2e4e5..a352e07 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -813,6 +813,7 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
   const il::int_t old_size = size();
   const il::int_t old_capacity = capacity();
   const bool old_is_small = isSmall();
+  const il::StringType t_new = il::joinType(type(), il::StringType::Utf8);
   char* p = Data();
   if (old_size + n <= old_capacity) {
     for (il::int_t k = old_size + n; k >= i + n; k--) {
@@ -820,9 +821,9 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
     }
     std::memcpy(p + i, s, n);
     if (old_is_small) {
-      setSmall(type(), old_size + n);
+      setSmall(t_new, old_size + n);
     } else {
-      setLarge(type(), old_size + n, old_capacity);
+      setLarge(t_new, old_size + n, old_capacity);
     }
   } else {
     const il::int_t r = nextCapacity(old_size + n);
@@ -834,7 +835,7 @@ inline void String::Insert(il::int_t i, const char (&s)[m]) {
       il::deallocate(p);
     }
     large_.data = new_p;
-    setLarge(type(), old_size + n, r);
+    setLarge(t_new, old_size + n, r);
   }
 }
 
-- 
2.43.0


From 81b818694c22bdbf1fdeba31cb58f6c681ae9cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:26 +0000
Subject: [PATCH 066/161] fix: the order of Strings with null characters is not
 consistent with equality

---
 il/container/string/String.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/il/container/string/String.h b/il/container/string/String.h
index a352e07..eab9064 100644
--- a/il/container/string/String.h
+++ b/il/container/string/String.h
@@ -1591,13 +1591,15 @@ inline il::String join(const il::StringView& s0, const il::StringView& s1,
 }
 
 inline bool operator<(const il::String& s0, const il::String& s1) {
-  const int compare = std::strcmp(s0.data(), s1.data());
-  return compare < 0;
+  const int compare = std::memcmp(
+      s0.data(), s1.data(),
+      static_cast<std::size_t>(il::min(s0.size(), s1.size())));
+  return compare < 0 || (compare == 0 && s0.size() < s1.size());
 }
 
 inline bool operator<(const char* s0, const il::String& s1) {
-  const int compare = std::strcmp(s0, s1.data());
-  return compare < 0;
+  return il::String{il::StringView{il::StringType::Byte, s0, il::size(s0)}} <
+         s1;
 }
 
 inline bool operator==(const il::String& s0, const il::String& s1) {
-- 
2.43.0


From 1f75bc07c5739f79c3b4cb4fc795a0d7f3ca55cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 067/161] fix: moving a UTF16String leaks memory

---
 il/container/string/UTF16String.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 89cf524..baab195 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -133,7 +133,7 @@ inline UTF16String::UTF16String(const UTF16String& s) {
 
 inline UTF16String::UTF16String(UTF16String&& s) {
   const il::int_t size = s.size();
-  if (size <= max_small_size_) {
+  if (s.isSmall()) {
     std::memcpy(data_, s.Data(), 2 * (static_cast<std::size_t>(size) + 1));
     SetSmallSize(size);
   } else {
@@ -175,10 +175,10 @@ inline UTF16String& UTF16String::operator=(const UTF16String& s) {
 inline UTF16String& UTF16String::operator=(UTF16String&& s) {
   if (this != &s) {
     const il::int_t size = s.size();
-    if (size <= max_small_size_) {
-      if (!isSmall()) {
-        il::deallocate(large_.data);
-      }
+    if (!isSmall()) {
+      il::deallocate(large_.data);
+    }
+    if (s.isSmall()) {
       std::memcpy(data_, s.Data(), 2 * (static_cast<std::size_t>(size) + 1));
       SetSmallSize(size);
     } else {
-- 
2.43.0


From b18913d580a0e3c516d60704cd97e65c76e6417d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 068/161] fix: assigning a UTF16String to itself reads its
 freed memory

---
 il/container/string/UTF16String.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index baab195..baf25d0 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -146,6 +146,9 @@ inline UTF16String::UTF16String(UTF16String&& s) {
 }
 
 inline UTF16String& UTF16String::operator=(const UTF16String& s) {
+  if (this == &s) {
+    return *this;
+  }
   const il::int_t size = s.size();
   if (size <= max_small_size_) {
     if (!isSmall()) {
-- 
2.43.0


From b2da45493c2e200c2cb17a5dada87889b6e45fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 069/161] fix: UTF16String::Append(n, c) reserves and counts a
 single character

---
 il/container/string/UTF16String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index baf25d0..327f430 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -275,7 +275,7 @@ inline void UTF16String::Append(il::int_t n, char c) {
   IL_EXPECT_FAST(static_cast<unsigned char>(c) < 128);
 
   const il::int_t old_size = size();
-  const il::int_t new_size = old_size + 1;
+  const il::int_t new_size = old_size + n;
   const il::int_t new_capacity = il::max(new_size, 2 * old_size);
   Reserve(new_capacity);
   unsigned short* data = Data() + old_size;
-- 
2.43.0


From ba1c1e6af4c55e2123457d7d2475a8ba770cfba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 070/161] fix: UTF16String::Append(n, rune) does nothing

---
 il/container/string/UTF16String.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index 327f430..f4280f6 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -324,8 +324,9 @@ inline void UTF16String::Append(il::int_t n, int cp) {
   IL_EXPECT_FAST(n >= 0);
   IL_EXPECT_FAST(validRune(cp));
 
-  IL_UNUSED(n);
-  IL_UNUSED(cp);
+  for (il::int_t i = 0; i < n; ++i) {
+    Append(cp);
+  }
 }
 
 inline const unsigned short* UTF16String::data() const {
-- 
2.43.0


From 502cca2440782fe082eb565e2a40bb6f5ea7629d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 071/161] fix: appending a UTF16String to itself reads freed
 memory

---
 il/container/string/UTF16String.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index f4280f6..aab2137 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -415,7 +415,16 @@ inline void UTF16String::Append(const IL_UTF16CHAR* data, il::int_t n) {
 
   const il::int_t old_size = size();
   const il::int_t new_capacity = il::max(old_size + n, 2 * old_size);
-  Reserve(new_capacity);
+  const IL_UTF16CHAR* old_data = asWString();
+  if (data >= old_data && data <= old_data + old_size &&
+      new_capacity > capacity()) {
+    // The characters to append are about to be moved
+    const il::int_t offset = data - old_data;
+    Reserve(new_capacity);
+    data = asWString() + offset;
+  } else {
+    Reserve(new_capacity);
+  }
 
   if (isSmall()) {
     std::memcpy(data_ + old_size, data, 2 * static_cast<std::size_t>(n));
-- 
2.43.0


From 4f177a32c0fcfe66e216a88300ef06aaba825423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 072/161] fix: trail surrogates are not runes

---
 il/container/string/UTF16String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/string/UTF16String.h b/il/container/string/UTF16String.h
index aab2137..17cb93e 100644
--- a/il/container/string/UTF16String.h
+++ b/il/container/string/UTF16String.h
@@ -440,10 +440,10 @@ inline void UTF16String::Append(const IL_UTF16CHAR* data, il::int_t n) {
 inline bool UTF16String::validRune(int cp) const {
   const unsigned int code_point_max = 0x0010FFFFu;
   const unsigned int lead_surrogate_min = 0x0000D800u;
-  const unsigned int lead_surrogate_max = 0x0000DBFFu;
+  const unsigned int trail_surrogate_max = 0x0000DFFFu;
   const unsigned int ucp = static_cast<unsigned int>(cp);
   return ucp <= code_point_max &&
-         (ucp < lead_surrogate_min || ucp > lead_surrogate_max);
+         (ucp < lead_surrogate_min || ucp > trail_surrogate_max);
 }
 }  // namespace il
 
-- 
2.43.0


From 97e90e5bbb4edb8d40754db625c18e9d813855ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:14 +0000
Subject: [PATCH 073/161] fix: the conversions between UTF-8 and UTF-16 add a
 null character to the text

---
 il/container/string/unicode.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/il/container/string/unicode.h b/il/container/string/unicode.h
index 34e6728..37f390c 100644
--- a/il/container/string/unicode.h
+++ b/il/container/string/unicode.h
@@ -92,7 +92,6 @@ inline il::UTF16String toUtf16(const il::String& string) {
   for (il::int_t i = 0; i < view.size(); i = view.nextRune(i)) {
     ans.Append(view.rune(i));
   }
-  ans.Append('\0');
   return ans;
 }
 
@@ -102,7 +101,6 @@ inline il::String toUtf8(const il::UTF16String& string) {
   for (il::int_t i = 0; i < string.size(); i = string.nextRune(i)) {
     ans.Append(string.rune(i));
   }
-  ans.Append('\0');
   return ans;
 }
 
-- 
2.43.0


From 40a79ab8dff80de3c82ad9992119774bafd33929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:29 +0000
Subject: [PATCH 074/161] fix: Dynamic tags arrays of unsigned int as arrays of
 int

---
 il/container/dynamic/Dynamic.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 00db025..0c45e83 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -268,13 +268,13 @@ inline Dynamic::Dynamic(const il::Array<short> &value) {
 }
 
 inline Dynamic::Dynamic(const il::Array<unsigned int> &value) {
-  type_ = il::Type::ArrayOfInt32;
+  type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
       new il::Array<unsigned int>{value};
 }
 
 inline Dynamic::Dynamic(il::Array<unsigned int> &&value) {
-  type_ = il::Type::ArrayOfInt32;
+  type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
       new il::Array<unsigned int>{value};
 }
-- 
2.43.0


From 1d71e89808b33748ac826e0c254f6edf330d2284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:29 +0000
Subject: [PATCH 075/161] fix: the constructor of Dynamic from a temporary
 array of short is not defined

---
 il/container/dynamic/Dynamic.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 0c45e83..6a99a92 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -267,6 +267,12 @@ inline Dynamic::Dynamic(const il::Array<short> &value) {
   *reinterpret_cast<il::Array<short> **>(&data_) = new il::Array<short>{value};
 }
 
+inline Dynamic::Dynamic(il::Array<short> &&value) {
+  type_ = il::Type::ArrayOfInt16;
+  *reinterpret_cast<il::Array<short> **>(&data_) =
+      new il::Array<short>{std::move(value)};
+}
+
 inline Dynamic::Dynamic(const il::Array<unsigned int> &value) {
   type_ = il::Type::ArrayOfUInt32;
   *reinterpret_cast<il::Array<unsigned int> **>(&data_) =
-- 
2.43.0


From 6e26cdb4e1763887af9a5c6cd76f40c8c8b5f1c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:29 +0000
Subject: [PATCH 076/161] fix: a Dynamic that holds an Array2D can not be
 copied or destroyed

---
 il/container/dynamic/Dynamic.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index 6a99a92..bcba3b1 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -638,6 +638,15 @@ inline void Dynamic::CopyData(il::Type type, void *p) {
           new il::Array<il::String>{
               *reinterpret_cast<il::Array<il::String> *>(p)};
       break;
+    case il::Type::Array2DOfDouble:
+      *reinterpret_cast<il::Array2D<double> **>(&data_) =
+          new il::Array2D<double>{*reinterpret_cast<il::Array2D<double> *>(p)};
+      break;
+    case il::Type::Array2DOfUInt8:
+      *reinterpret_cast<il::Array2D<unsigned char> **>(&data_) =
+          new il::Array2D<unsigned char>{
+              *reinterpret_cast<il::Array2D<unsigned char> *>(p)};
+      break;
     default:
       IL_UNREACHABLE;
   }
@@ -698,6 +707,9 @@ inline void Dynamic::ReleaseMemory() {
     case il::Type::Array2DOfDouble:
       delete reinterpret_cast<il::Array2D<double> *>(data_);
       break;
+    case il::Type::Array2DOfUInt8:
+      delete reinterpret_cast<il::Array2D<unsigned char> *>(data_);
+      break;
     default:
       IL_UNREACHABLE;
   }
-- 
2.43.0


From 8e0717e1d78f41d12e5180d12edb26ed03510a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:29 +0000
Subject: [PATCH 077/161] fix: assigning a Dynamic from itself or from its
 content reads freed memory

---
 il/container/dynamic/Dynamic.h | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/il/container/dynamic/Dynamic.h b/il/container/dynamic/Dynamic.h
index bcba3b1..d953c1c 100644
--- a/il/container/dynamic/Dynamic.h
+++ b/il/container/dynamic/Dynamic.h
@@ -463,20 +463,22 @@ inline il::Dynamic &Dynamic::operator=(double value) {
 }
 
 inline il::Dynamic &Dynamic::operator=(const il::String &value) {
+  il::String *p = new il::String{value};
   if (!isStackAllocated()) {
     ReleaseMemory();
   }
   type_ = il::Type::UnicodeString;
-  *reinterpret_cast<il::String **>(&data_) = new il::String{value};
+  *reinterpret_cast<il::String **>(&data_) = p;
   return *this;
 }
 
 inline il::Dynamic &Dynamic::operator=(il::String &&value) {
+  il::String *p = new il::String{std::move(value)};
   if (!isStackAllocated()) {
     ReleaseMemory();
   }
   type_ = il::Type::UnicodeString;
-  *reinterpret_cast<il::String **>(&data_) = new il::String{std::move(value)};
+  *reinterpret_cast<il::String **>(&data_) = p;
   return *this;
 }
 
@@ -496,25 +498,20 @@ inline Dynamic::Dynamic(il::Dynamic &&other) {
 }
 
 inline il::Dynamic &Dynamic::operator=(const il::Dynamic &other) {
-  if (!isStackAllocated()) {
-    ReleaseMemory();
-  }
-  type_ = other.type_;
-  if (isStackAllocated()) {
-    data_ = other.data_;
-  } else {
-    CopyData(type_, reinterpret_cast<void *>(other.data_));
-  }
-  return *this;
+  // The other object might be this one or might be part of it
+  return *this = il::Dynamic(other);
 }
 
 inline il::Dynamic &Dynamic::operator=(il::Dynamic &&other) {
+  // The other object might be this one or might be part of it
+  const il::Type type = other.type_;
+  const std::uint64_t data = other.data_;
+  other.type_ = il::Type::Void;
   if (!isStackAllocated()) {
     ReleaseMemory();
   }
-  type_ = other.type_;
-  data_ = other.data_;
-  other.type_ = il::Type::Void;
+  type_ = type;
+  data_ = data;
   return *this;
 }
 
-- 
2.43.0


From 8425eb4335e17e40311cc0668ee38198d0d86e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:29 +0000
Subject: [PATCH 078/161] fix: the small integers have no type identifier and
 are taken for void

---
 il/container/dynamic/Type.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/il/container/dynamic/Type.h b/il/container/dynamic/Type.h
index 33c6bee..6a54b92 100644
--- a/il/container/dynamic/Type.h
+++ b/il/container/dynamic/Type.h
@@ -222,6 +222,26 @@ inline il::Type typeId<bool>() {
   return il::Type::Bool;
 }
 
+template <>
+inline il::Type typeId<unsigned char>() {
+  return il::Type::UInt8;
+}
+
+template <>
+inline il::Type typeId<signed char>() {
+  return il::Type::Int8;
+}
+
+template <>
+inline il::Type typeId<unsigned short>() {
+  return il::Type::UInt16;
+}
+
+template <>
+inline il::Type typeId<short>() {
+  return il::Type::Int16;
+}
+
 template <>
 inline il::Type typeId<int>() {
   return il::Type::Int;
-- 
2.43.0


From 064415464b916917eb03468dbbfbeaee61d1a5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:29 +0000
Subject: [PATCH 079/161] fix: the memory of an Info is never released

---
 il/container/info/Info.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 37ff6ab..1e1396c 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -47,6 +47,7 @@ class Info {
   Info(Info&& other);
   Info& operator=(const Info& other);
   Info& operator=(Info&& other);
+  ~Info();
 
   bool isEmpty() const;
   void clear();
@@ -126,6 +127,9 @@ inline Info::Info(Info&& other) {
 }
 
 inline Info& Info::operator=(const Info& other) {
+  if (this == &other) {
+    return *this;
+  }
   const il::int_t size = other.size();
   if (size <= max_small_size_) {
     if (!isSmall()) {
@@ -160,6 +164,9 @@ inline Info& Info::operator=(Info&& other) {
       std::memcpy(small_, other.data(), size);
       SetSmallSize(size);
     } else {
+      if (!isSmall()) {
+        delete[] large_.data;
+      }
       large_ = other.large_;
       other.SetSmallSize(0);
     }
@@ -167,6 +174,12 @@ inline Info& Info::operator=(Info&& other) {
   return *this;
 }
 
+inline Info::~Info() {
+  if (!isSmall()) {
+    delete[] large_.data;
+  }
+}
+
 inline void Info::Set(const char* key, int value) {
   const int key_length = static_cast<int>(strlen(key));
   const int n = key_length + 2 + 2 * static_cast<int>(sizeof(int));
-- 
2.43.0


From 24df94fb6d9bbfed5023c27c89c10b405c0eb010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:29 +0000
Subject: [PATCH 080/161] fix: Info::search finds a key when another one is a
 prefix of it

---
 il/container/info/Info.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 1e1396c..575c30d 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -283,10 +283,10 @@ inline il::int_t Info::search(const char* key) const {
     const int step = get_int(i);
 
     j = 0;
-    while (key[j] != '\0' && p[i + sizeof(int) + j] == key[j]) {
+    while (key[j] != '\0' && p[i + sizeof(int) + j] == static_cast<unsigned char>(key[j])) {
       ++j;
     }
-    if (p[i + sizeof(int) + j] == '\0') {
+    if (key[j] == '\0' && p[i + sizeof(int) + j] == '\0') {
       found = true;
     } else {
       i += step;
-- 
2.43.0


From 08c51c1db13e101fcab5533bf2ff13169dec96c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:29 +0000
Subject: [PATCH 081/161] fix: an int stored in an Info can not be read back

---
 il/container/info/Info.h | 20 +-------------------
 1 file changed, 1 insertion(+), 19 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 575c30d..2d0fe06 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -181,25 +181,7 @@ inline Info::~Info() {
 }
 
 inline void Info::Set(const char* key, int value) {
-  const int key_length = static_cast<int>(strlen(key));
-  const int n = key_length + 2 + 2 * static_cast<int>(sizeof(int));
-  il::int_t i = size();
-  Resize(i + n);
-
-  unsigned char* p = data();
-
-  Set(n, p + i);
-  i += sizeof(int);
-
-  for (il::int_t j = 0; j < key_length + 1; ++j) {
-    p[i + j] = key[j];
-  }
-  i += key_length + 1;
-
-  p[i] = 3;
-  ++i;
-
-  Set(value, p + i);
+  Set(key, static_cast<il::int_t>(value));
 }
 
 #ifdef IL_64_BIT
-- 
2.43.0


From 1cb7997f3ba256306a5da9d5863de7c6d5a65392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:05 +0000
Subject: [PATCH 082/161] fix: setting a key of an Info twice keeps its first
 value, and a value that is part of the Info is read after it is freed

---
 il/container/info/Info.h | 132 +++++++++------------------------------
 1 file changed, 31 insertions(+), 101 deletions(-)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index 2d0fe06..bd1931e 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -90,11 +90,8 @@ class Info {
   void SetLargeCapacity(il::int_t r);
   il::int_t largeCapacity() const;
 
-  void Set(int value, unsigned char* data);
-#ifdef IL_64_BIT
-  void Set(il::int_t value, unsigned char* data);
-#endif
-  void Set(double value, unsigned char* data);
+  void SetValue(const char* key, unsigned char type, const void* value,
+                il::int_t value_size);
 
   int get_int(il::int_t i) const;
   il::int_t getInteger(il::int_t i) const;
@@ -186,74 +183,45 @@ inline void Info::Set(const char* key, int value) {
 
 #ifdef IL_64_BIT
 inline void Info::Set(const char* key, il::int_t value) {
-  const int key_length = static_cast<int>(strlen(key));
-  const int n =
-      key_length + 2 + static_cast<int>(sizeof(int) + sizeof(il::int_t));
-  il::int_t i = size();
-  Resize(i + n);
-
-  unsigned char* p = data();
-
-  Set(n, p + i);
-  i += sizeof(int);
-
-  for (il::int_t j = 0; j < key_length + 1; ++j) {
-    p[i + j] = key[j];
-  }
-  i += key_length + 1;
-
-  p[i] = 0;
-  ++i;
-
-  Set(value, p + i);
+  SetValue(key, 0, &value, static_cast<il::int_t>(sizeof(value)));
 }
 #endif
 
 inline void Info::Set(const char* key, double value) {
-  const int key_length = static_cast<int>(strlen(key));
-  const int n = key_length + 2 + static_cast<int>(sizeof(int) + sizeof(double));
-  il::int_t i = size();
-  Resize(i + n);
-
-  unsigned char* p = data();
-
-  Set(n, p + i);
-  i += sizeof(int);
-
-  for (il::int_t j = 0; j < key_length + 1; ++j) {
-    p[i + j] = key[j];
-  }
-  i += key_length + 1;
-
-  p[i] = 1;
-  ++i;
-
-  Set(value, p + i);
+  SetValue(key, 1, &value, static_cast<il::int_t>(sizeof(value)));
 }
 
 inline void Info::Set(const char* key, const char* value) {
-  const int key_length = static_cast<int>(strlen(key));
-  const int value_length = static_cast<int>(strlen(value));
-  const int n = key_length + value_length + 3 + static_cast<int>(sizeof(int));
-  il::int_t i = size();
-  Resize(i + n);
-
-  unsigned char* p = data();
-
-  Set(n, p + i);
-  i += sizeof(int);
-
-  for (il::int_t j = 0; j < key_length + 1; ++j) {
-    p[i + j] = key[j];
-  }
-  i += key_length + 1;
+  SetValue(key, 2, value, static_cast<il::int_t>(std::strlen(value)) + 1);
+}
 
-  p[i] = 2;
-  ++i;
+inline void Info::SetValue(const char* key, unsigned char type,
+                           const void* value, il::int_t value_size) {
+  const il::int_t header = static_cast<il::int_t>(sizeof(int));
+  const il::int_t key_size = static_cast<il::int_t>(std::strlen(key)) + 1;
+  const il::int_t n = header + key_size + 1 + value_size;
+  const int step = static_cast<int>(n);
+
+  // The record is built first as the key and the value might be part of this
+  // object.
+  unsigned char* record = new unsigned char[n];
+  std::memcpy(record, &step, sizeof(int));
+  std::memcpy(record + header, key, key_size);
+  record[header + key_size] = type;
+  std::memcpy(record + header + key_size + 1, value, value_size);
 
-  for (il::int_t j = 0; j < value_length + 1; ++j) {
-    p[i + j] = value[j];
+  const il::int_t i = search(key);
+  if (found(i)) {
+    unsigned char* p = data();
+    const il::int_t begin = i - key_size - header;
+    const il::int_t end = begin + get_int(begin);
+    std::memmove(p + begin, p + end, size() - end);
+    Resize(size() - (end - begin));
   }
+  const il::int_t old_size = size();
+  Resize(old_size + n);
+  std::memcpy(data() + old_size, record, n);
+  delete[] record;
 }
 
 inline il::int_t Info::search(const char* key) const {
@@ -343,44 +311,6 @@ inline const char* Info::asCString(const char* key) const {
   return asCString(i);
 }
 
-inline void Info::Set(int value, unsigned char* data) {
-  const il::int_t n = static_cast<il::int_t>(sizeof(int));
-  union {
-    int local_value;
-    unsigned char local_raw[n];
-  };
-  local_value = value;
-  for (int j = 0; j < n; ++j) {
-    data[j] = local_raw[j];
-  }
-}
-
-#ifdef IL_64_BIT
-inline void Info::Set(il::int_t value, unsigned char* data) {
-  const il::int_t n = static_cast<il::int_t>(sizeof(il::int_t));
-  union {
-    il::int_t local_value;
-    unsigned char local_raw[n];
-  };
-  local_value = value;
-  for (il::int_t j = 0; j < n; ++j) {
-    data[j] = local_raw[j];
-  }
-}
-#endif
-
-inline void Info::Set(double value, unsigned char* data) {
-  const il::int_t n = static_cast<il::int_t>(sizeof(double));
-  union {
-    double local_value;
-    unsigned char local_raw[n];
-  };
-  local_value = value;
-  for (il::int_t j = 0; j < n; ++j) {
-    data[j] = local_raw[j];
-  }
-}
-
 inline int Info::get_int(il::int_t i) const {
   const unsigned char* p = data();
   const il::int_t n = static_cast<il::int_t>(sizeof(int));
-- 
2.43.0


From 46bbb24764fb0bdc0811a61bdab70b287ef1cdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:05 +0000
Subject: [PATCH 083/161] fix: the booleans of an Info are declared but not
 defined

---
 il/container/info/Info.h | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/il/container/info/Info.h b/il/container/info/Info.h
index bd1931e..1176fb4 100644
--- a/il/container/info/Info.h
+++ b/il/container/info/Info.h
@@ -177,6 +177,11 @@ inline Info::~Info() {
   }
 }
 
+inline void Info::Set(const char* key, bool value) {
+  const unsigned char raw = value ? 1 : 0;
+  SetValue(key, 3, &raw, 1);
+}
+
 inline void Info::Set(const char* key, int value) {
   Set(key, static_cast<il::int_t>(value));
 }
@@ -248,12 +253,20 @@ inline il::int_t Info::search(const char* key) const {
 
 inline bool Info::found(il::int_t i) const { return i >= 0; }
 
+inline bool Info::isBool(il::int_t i) const { return data()[i] == 3; }
+
 inline bool Info::isInteger(il::int_t i) const { return data()[i] == 0; }
 
 inline bool Info::isDouble(il::int_t i) const { return data()[i] == 1; }
 
 inline bool Info::isString(il::int_t i) const { return data()[i] == 2; }
 
+inline bool Info::toBool(il::int_t i) const {
+  IL_EXPECT_FAST(isBool(i));
+
+  return data()[i + 1] != 0;
+}
+
 inline il::int_t Info::toInteger(il::int_t i) const {
   IL_EXPECT_FAST(isInteger(i));
 
@@ -290,6 +303,13 @@ inline const char* Info::asCString(il::int_t i) const {
   return reinterpret_cast<const char*>(data()) + i + 1;
 }
 
+inline bool Info::toBool(const char* key) const {
+  const il::int_t i = search(key);
+  IL_ENSURE(found(i));
+
+  return toBool(i);
+}
+
 inline il::int_t Info::toInteger(const char* key) const {
   const il::int_t i = search(key);
   IL_ENSURE(found(i));
-- 
2.43.0


From 37d6add2e3c5c3ac6ff086ab1841806890f1a6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:56 +0000
Subject: [PATCH 084/161] fix: Status::domain is declared but not defined

---
 il/container/info/Status.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/container/info/Status.h b/il/container/info/Status.h
index 5a63664..fedec12 100644
--- a/il/container/info/Status.h
+++ b/il/container/info/Status.h
@@ -255,6 +255,9 @@ inline il::Error Status::error() const {
 
   return error_;
 }
+
+inline il::ErrorDomain Status::domain() const { return il::domain(error()); }
+
 }  // namespace il
 
 #endif  // IL_STATUS_H
-- 
2.43.0


From 227ab039963bd29209128b0913d334986455c061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:11 +0000
Subject: [PATCH 085/161] fix: the product of the conjugate transpose of a
 row-major matrix of doubles stops the program

---
 il/linearAlgebra/dense/blas/blas.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index c477d8b..afc4007 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -547,6 +547,7 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot op,
       IL_EXPECT_FAST(A.size(1) == x.size());
       break;
     case il::Dot::Transpose:
+    case il::Dot::Star:
       IL_EXPECT_FAST(A.size(0) == x.size());
       IL_EXPECT_FAST(A.size(1) == y.size());
       break;
-- 
2.43.0


From 36e2e6b8a4f27055701d0e77ce74e3f9f6235678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:11 +0000
Subject: [PATCH 086/161] fix: the sizes of the product of two transposed
 matrices are not checked

---
 il/linearAlgebra/dense/blas/blas.h | 32 ++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index afc4007..91a09f5 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -678,6 +678,10 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -731,6 +735,10 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -786,6 +794,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -856,6 +868,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -924,6 +940,10 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -977,6 +997,10 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -1032,6 +1056,10 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
@@ -1102,6 +1130,10 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(A.size(0) == B.size(0));
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(1));
+  } else {
+    IL_EXPECT_FAST(A.size(0) == B.size(1));
+    IL_EXPECT_FAST(C.size(0) == A.size(1));
+    IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
   IL_EXPECT_FAST(A.data() != C.data());
   IL_EXPECT_FAST(B.data() != C.data());
-- 
2.43.0


From 8c5ad20b84dfa1b034a3ca2aa309a9ad2cdc861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:11 +0000
Subject: [PATCH 087/161] fix: a debug build stops on the product of empty
 matrices and vectors

---
 il/linearAlgebra/dense/blas/blas.h | 48 +++++++++++++++---------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index 91a09f5..1303876 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -362,7 +362,7 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() != y.data() || y.data() == nullptr);
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
@@ -397,7 +397,7 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() != y.data() || y.data() == nullptr);
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
@@ -434,7 +434,7 @@ inline void blas(std::complex<float> alpha,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() != y.data() || y.data() == nullptr);
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
@@ -477,7 +477,7 @@ inline void blas(std::complex<double> alpha,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() != y.data() || y.data() == nullptr);
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
@@ -519,7 +519,7 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() != y.data() || y.data() == nullptr);
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
@@ -554,7 +554,7 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot op,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() != y.data() || y.data() == nullptr);
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
@@ -591,7 +591,7 @@ inline void blas(std::complex<float> alpha,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() != y.data() || y.data() == nullptr);
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
@@ -634,7 +634,7 @@ inline void blas(std::complex<double> alpha,
     default:
       IL_UNREACHABLE;
   }
-  IL_EXPECT_FAST(x.data() != y.data());
+  IL_EXPECT_FAST(x.data() != y.data() || y.data() == nullptr);
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
@@ -683,8 +683,8 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() != C.data() || C.data() == nullptr);
+  IL_EXPECT_FAST(B.data() != C.data() || C.data() == nullptr);
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -740,8 +740,8 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() != C.data() || C.data() == nullptr);
+  IL_EXPECT_FAST(B.data() != C.data() || C.data() == nullptr);
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -799,8 +799,8 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() != C.data() || C.data() == nullptr);
+  IL_EXPECT_FAST(B.data() != C.data() || C.data() == nullptr);
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -873,8 +873,8 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() != C.data() || C.data() == nullptr);
+  IL_EXPECT_FAST(B.data() != C.data() || C.data() == nullptr);
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -945,8 +945,8 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() != C.data() || C.data() == nullptr);
+  IL_EXPECT_FAST(B.data() != C.data() || C.data() == nullptr);
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -1002,8 +1002,8 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() != C.data() || C.data() == nullptr);
+  IL_EXPECT_FAST(B.data() != C.data() || C.data() == nullptr);
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -1061,8 +1061,8 @@ inline void blas(std::complex<float> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() != C.data() || C.data() == nullptr);
+  IL_EXPECT_FAST(B.data() != C.data() || C.data() == nullptr);
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
@@ -1135,8 +1135,8 @@ inline void blas(std::complex<double> alpha,
     IL_EXPECT_FAST(C.size(0) == A.size(1));
     IL_EXPECT_FAST(C.size(1) == B.size(0));
   }
-  IL_EXPECT_FAST(A.data() != C.data());
-  IL_EXPECT_FAST(B.data() != C.data());
+  IL_EXPECT_FAST(A.data() != C.data() || C.data() == nullptr);
+  IL_EXPECT_FAST(B.data() != C.data() || C.data() == nullptr);
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(opa);
-- 
2.43.0


From 7988667daebaa95eb57e032ab650c4f368a08b69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:11 +0000
Subject: [PATCH 088/161] fix: the leading dimension of empty matrices is not
 valid for BLAS

---
 il/linearAlgebra/dense/blas/blas.h | 69 ++++++++++++++++--------------
 1 file changed, 37 insertions(+), 32 deletions(-)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index 1303876..6b9d0cf 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -49,6 +49,11 @@ inline CBLAS_TRANSPOSE blas_from_dot(il::Dot op) {
   }
 }
 
+// BLAS wants leading dimensions to be positive, even for empty matrices
+inline IL_CBLAS_INT blas_stride(il::int_t stride) {
+  return static_cast<IL_CBLAS_INT>(stride > 0 ? stride : 1);
+}
+
 // y = alpha * x + y
 
 inline void blas(float alpha, il::ArrayView<float> x, il::io_t,
@@ -368,7 +373,7 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot op,
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -403,7 +408,7 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot op,
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -440,7 +445,7 @@ inline void blas(std::complex<float> alpha,
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -483,7 +488,7 @@ inline void blas(std::complex<double> alpha,
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(1));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -525,7 +530,7 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot op,
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -560,7 +565,7 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot op,
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -597,7 +602,7 @@ inline void blas(std::complex<float> alpha,
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -640,7 +645,7 @@ inline void blas(std::complex<double> alpha,
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
   const IL_CBLAS_INT m = static_cast<IL_CBLAS_INT>(A.size(0));
   const IL_CBLAS_INT n = static_cast<IL_CBLAS_INT>(A.size(1));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(0));
   const IL_CBLAS_INT incx = 1;
   const IL_CBLAS_INT incy = 1;
 
@@ -695,9 +700,9 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(1));
+  const IL_CBLAS_INT ldb = il::blas_stride(B.stride(1));
+  const IL_CBLAS_INT ldc = il::blas_stride(C.stride(1));
   cblas_sgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -752,9 +757,9 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(1));
+  const IL_CBLAS_INT ldb = il::blas_stride(B.stride(1));
+  const IL_CBLAS_INT ldc = il::blas_stride(C.stride(1));
   cblas_dgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -811,9 +816,9 @@ inline void blas(std::complex<float> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(1));
+  const IL_CBLAS_INT ldb = il::blas_stride(B.stride(1));
+  const IL_CBLAS_INT ldc = il::blas_stride(C.stride(1));
 #ifdef IL_MKL
   cblas_cgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
@@ -885,9 +890,9 @@ inline void blas(std::complex<double> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(1));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(1));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(1));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(1));
+  const IL_CBLAS_INT ldb = il::blas_stride(B.stride(1));
+  const IL_CBLAS_INT ldc = il::blas_stride(C.stride(1));
 #ifdef IL_MKL
   cblas_zgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
@@ -957,9 +962,9 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(0));
+  const IL_CBLAS_INT ldb = il::blas_stride(B.stride(0));
+  const IL_CBLAS_INT ldc = il::blas_stride(C.stride(0));
   cblas_sgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -1014,9 +1019,9 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot opa,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(0));
+  const IL_CBLAS_INT ldb = il::blas_stride(B.stride(0));
+  const IL_CBLAS_INT ldc = il::blas_stride(C.stride(0));
   cblas_dgemm(layout, transa, transb, m, n, k, alpha, A.data(), lda, B.data(),
               ldb, beta, C.Data(), ldc);
 }
@@ -1073,9 +1078,9 @@ inline void blas(std::complex<float> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(0));
+  const IL_CBLAS_INT ldb = il::blas_stride(B.stride(0));
+  const IL_CBLAS_INT ldc = il::blas_stride(C.stride(0));
 #ifdef IL_MKL
   cblas_cgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
@@ -1147,9 +1152,9 @@ inline void blas(std::complex<double> alpha,
       static_cast<IL_CBLAS_INT>(opb == il::Dot::None ? B.size(1) : B.size(0));
   const IL_CBLAS_INT k =
       static_cast<IL_CBLAS_INT>(opa == il::Dot::None ? A.size(1) : A.size(0));
-  const IL_CBLAS_INT lda = static_cast<IL_CBLAS_INT>(A.stride(0));
-  const IL_CBLAS_INT ldb = static_cast<IL_CBLAS_INT>(B.stride(0));
-  const IL_CBLAS_INT ldc = static_cast<IL_CBLAS_INT>(C.stride(0));
+  const IL_CBLAS_INT lda = il::blas_stride(A.stride(0));
+  const IL_CBLAS_INT ldb = il::blas_stride(B.stride(0));
+  const IL_CBLAS_INT ldc = il::blas_stride(C.stride(0));
 #ifdef IL_MKL
   cblas_zgemm3m(layout, transa, transb, m, n, k, &alpha, A.data(), lda,
                 B.data(), ldb, &beta, C.Data(), ldc);
-- 
2.43.0


From 2faf9d89c324b61486e513fb56831591b2dac791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:11 +0000
Subject: [PATCH 089/161] fix: the product of a matrix without columns and a
 vector does not write its result

---
 il/linearAlgebra/dense/blas/blas.h | 40 ++++++++++++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/il/linearAlgebra/dense/blas/blas.h b/il/linearAlgebra/dense/blas/blas.h
index 6b9d0cf..b06958f 100644
--- a/il/linearAlgebra/dense/blas/blas.h
+++ b/il/linearAlgebra/dense/blas/blas.h
@@ -351,6 +351,14 @@ inline void blas(std::complex<double> alpha,
 // BLAS level 2
 //   y = alpha * A.x + beta * y
 
+// BLAS leaves y as it is when the matrix is empty
+template <typename T>
+inline void blas_scale(T beta, il::io_t, il::ArrayEdit<T> y) {
+  for (il::int_t i = 0; i < y.size(); ++i) {
+    y[i] = beta == T{0} ? T{0} : beta * y[i];
+  }
+}
+
 inline void blas(float alpha, il::Array2DView<float> A, il::Dot op,
                  il::ArrayView<float> x, float beta, il::io_t,
                  il::ArrayEdit<float> y) {
@@ -368,6 +376,10 @@ inline void blas(float alpha, il::Array2DView<float> A, il::Dot op,
       IL_UNREACHABLE;
   }
   IL_EXPECT_FAST(x.data() != y.data() || y.data() == nullptr);
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
@@ -403,6 +415,10 @@ inline void blas(double alpha, il::Array2DView<double> A, il::Dot op,
       IL_UNREACHABLE;
   }
   IL_EXPECT_FAST(x.data() != y.data() || y.data() == nullptr);
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
@@ -440,6 +456,10 @@ inline void blas(std::complex<float> alpha,
       IL_UNREACHABLE;
   }
   IL_EXPECT_FAST(x.data() != y.data() || y.data() == nullptr);
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
@@ -483,6 +503,10 @@ inline void blas(std::complex<double> alpha,
       IL_UNREACHABLE;
   }
   IL_EXPECT_FAST(x.data() != y.data() || y.data() == nullptr);
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
 
   const IL_CBLAS_LAYOUT layout = CblasColMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
@@ -525,6 +549,10 @@ inline void blas(float alpha, il::Array2CView<float> A, il::Dot op,
       IL_UNREACHABLE;
   }
   IL_EXPECT_FAST(x.data() != y.data() || y.data() == nullptr);
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
@@ -560,6 +588,10 @@ inline void blas(double alpha, il::Array2CView<double> A, il::Dot op,
       IL_UNREACHABLE;
   }
   IL_EXPECT_FAST(x.data() != y.data() || y.data() == nullptr);
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(op);
@@ -597,6 +629,10 @@ inline void blas(std::complex<float> alpha,
       IL_UNREACHABLE;
   }
   IL_EXPECT_FAST(x.data() != y.data() || y.data() == nullptr);
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
@@ -640,6 +676,10 @@ inline void blas(std::complex<double> alpha,
       IL_UNREACHABLE;
   }
   IL_EXPECT_FAST(x.data() != y.data() || y.data() == nullptr);
+  if (x.size() == 0) {
+    il::blas_scale(beta, il::io, y);
+    return;
+  }
 
   const IL_CBLAS_LAYOUT layout = CblasRowMajor;
   const CBLAS_TRANSPOSE transa = il::blas_from_dot(dot);
-- 
2.43.0


From 7a498f36265b53a083c0645f0538d7c6465a330d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:41 +0000
Subject: [PATCH 090/161] fix: the static blas with a coefficient 0 keeps the
 NaNs of its output

---
 il/linearAlgebra/dense/blas/blas_static.h | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/il/linearAlgebra/dense/blas/blas_static.h b/il/linearAlgebra/dense/blas/blas_static.h
index 56ab188..325da67 100644
--- a/il/linearAlgebra/dense/blas/blas_static.h
+++ b/il/linearAlgebra/dense/blas/blas_static.h
@@ -33,7 +33,8 @@ void blas(T alpha, const il::StaticArray3D<T, n0, n1, n2> &A, T beta, il::io_t,
   for (il::int_t i2 = 0; i2 < n2; ++i2) {
     for (il::int_t i1 = 0; i1 < n1; ++i1) {
       for (il::int_t i0 = 0; i0 < n0; ++i0) {
-        B(i0, i1, i2) = alpha * A(i0, i1, i2) + beta * B(i0, i1, i2);
+        const T old = beta == T{0} ? T{0} : beta * B(i0, i1, i2);
+        B(i0, i1, i2) = alpha * A(i0, i1, i2) + old;
       }
     }
   }
@@ -62,7 +63,11 @@ void blas(double alpha, const il::StaticArray2D<T, n0, n> &A,
           const il::StaticArray<T, n> &B, double beta, il::io_t,
           il::StaticArray<T, n0> &C) {
   for (il::int_t i0 = 0; i0 < n0; ++i0) {
-    C[i0] *= beta;
+    if (beta == 0.0) {
+      C[i0] = T{0};
+    } else {
+      C[i0] *= beta;
+    }
     for (il::int_t i = 0; i < n; ++i) {
       C[i0] += alpha * A(i0, i) * B[i];
     }
@@ -75,7 +80,11 @@ void blas(double alpha, const il::StaticArray3D<T, n0, n1, n> &A,
           il::StaticArray2D<T, n0, n1> &C) {
   for (il::int_t i0 = 0; i0 < n0; ++i0) {
     for (il::int_t i1 = 0; i1 < n1; ++i1) {
-      C(i0, i1) *= beta;
+      if (beta == 0.0) {
+        C(i0, i1) = T{0};
+      } else {
+        C(i0, i1) *= beta;
+      }
       for (il::int_t i = 0; i < n; ++i) {
         C(i0, i1) += alpha * A(i0, i1, i) * B[i];
       }
@@ -90,7 +99,11 @@ void blas(double alpha, const il::StaticArray4D<T, n0, n1, n2, n> &A,
   for (il::int_t i0 = 0; i0 < n0; ++i0) {
     for (il::int_t i1 = 0; i1 < n1; ++i1) {
       for (il::int_t i2 = 0; i2 < n2; ++i2) {
-        C(i0, i1, i2) *= beta;
+        if (beta == 0.0) {
+          C(i0, i1, i2) = T{0};
+        } else {
+          C(i0, i1, i2) *= beta;
+        }
         for (il::int_t i = 0; i < n; ++i) {
           C(i0, i1, i2) += alpha * A(i0, i1, i2, i) * B[i];
         }
-- 
2.43.0


From d22207b304f715b6b51f9d759ffe0c47fcb05125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:57 +0000
Subject: [PATCH 091/161] fix: the solver of band matrices gives LAPACK a table
 it does not understand

---
 .../dense/factorization/linearSolve.h         | 24 +++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/linearSolve.h b/il/linearAlgebra/dense/factorization/linearSolve.h
index fbda6c0..acd8e73 100644
--- a/il/linearAlgebra/dense/factorization/linearSolve.h
+++ b/il/linearAlgebra/dense/factorization/linearSolve.h
@@ -93,20 +93,30 @@ inline il::Array<double> linearSolve(il::BandArray2C<double> A,
                                      il::Status &status) {
   IL_EXPECT_FAST(A.size(0) == A.size(1));
   IL_EXPECT_FAST(y.size() == A.size(1));
-  IL_EXPECT_FAST(A.capacityRight() >= A.widthLeft() + A.widthRight());
 
   il::Array<lapack_int> ipiv{A.size(1)};
 
-  const int layout{LAPACK_ROW_MAJOR};
+  const int layout{LAPACK_COL_MAJOR};
   const lapack_int n{static_cast<lapack_int>(A.size(1))};
   const lapack_int kl{static_cast<lapack_int>(A.widthLeft())};
   const lapack_int ku{static_cast<lapack_int>(A.widthRight())};
   const lapack_int nrhs = 1;
-  const lapack_int ldab{
-      static_cast<lapack_int>(A.widthLeft() + 1 + A.capacityRight())};
-  const lapack_int ldb = 1;
-  const lapack_int lapack_error{LAPACKE_dgbsv(
-      layout, n, kl, ku, nrhs, A.Data(), ldab, ipiv.Data(), y.Data(), ldb)};
+  const lapack_int ldab{2 * kl + ku + 1};
+  const lapack_int ldb{n};
+
+  // LAPACK stores the column j of the matrix in the column j of the table, its
+  // diagonal in the row kl + ku.
+  il::Array2D<double> table{ldab, n, 0.0};
+  for (il::int_t i = 0; i < n; ++i) {
+    for (il::int_t k = -A.widthLeft(); k <= A.widthRight(); ++k) {
+      if (i + k >= 0 && i + k < n) {
+        table(kl + ku - k, i + k) = A(i, k);
+      }
+    }
+  }
+  const lapack_int lapack_error{LAPACKE_dgbsv(layout, n, kl, ku, nrhs,
+                                              table.Data(), ldab, ipiv.Data(),
+                                              y.Data(), ldb)};
 
   IL_EXPECT_FAST(lapack_error >= 0);
   if (lapack_error == 0) {
-- 
2.43.0


From 544d7fdb57aa9f958af82e403ffe0e12d1e109bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:57 +0000
Subject: [PATCH 092/161] fix: LU::solve ignores the stride of its matrices and
 does not check the size of the second member

---
 il/linearAlgebra/dense/factorization/LU.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index d87cabb..180e49b 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -239,12 +239,13 @@ inline il::int_t LU<il::Array2D<double>>::size(il::int_t d) const {
 inline il::Array<double> LU<il::Array2D<double>>::solve(
     il::Array<double> y) const {
   IL_EXPECT_FAST(lu_.size(0) == lu_.size(1));
+  IL_EXPECT_FAST(lu_.size(0) == y.size());
 
   const int layout = LAPACK_COL_MAJOR;
   const char trans = 'N';
   const lapack_int n = static_cast<lapack_int>(lu_.size(0));
   const lapack_int nrhs = 1;
-  const lapack_int lda = static_cast<lapack_int>(lu_.size(0));
+  const lapack_int lda = static_cast<lapack_int>(lu_.stride(1));
   const lapack_int ldy = n;
   const lapack_int lapack_error = LAPACKE_dgetrs(
       layout, trans, n, nrhs, lu_.data(), lda, ipiv_.data(), y.Data(), ldy);
@@ -263,7 +264,7 @@ inline il::Array2D<double> LU<il::Array2D<double>>::solve(
   const lapack_int n = static_cast<lapack_int>(lu_.size(0));
   const lapack_int nrhs = static_cast<lapack_int>(y.size(1));
   const lapack_int lda = static_cast<lapack_int>(lu_.stride(1));
-  const lapack_int ldy = n;
+  const lapack_int ldy = static_cast<lapack_int>(y.stride(1));
   const lapack_int lapack_error = LAPACKE_dgetrs(
       layout, trans, n, nrhs, lu_.data(), lda, ipiv_.data(), y.Data(), ldy);
   IL_EXPECT_FAST(lapack_error == 0);
-- 
2.43.0


From b49d6d5d673fcfb36a8a0a0b1d4815238e5f820f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:57 +0000
Subject: [PATCH 093/161] fix: LU::determinant ignores the permutation

---
 il/linearAlgebra/dense/factorization/LU.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/linearAlgebra/dense/factorization/LU.h b/il/linearAlgebra/dense/factorization/LU.h
index 180e49b..a20cf23 100644
--- a/il/linearAlgebra/dense/factorization/LU.h
+++ b/il/linearAlgebra/dense/factorization/LU.h
@@ -292,6 +292,9 @@ inline double LU<il::Array2D<double>>::determinant() const {
   double det = 1.0;
   for (il::int_t i = 0; i < lu_.size(0); ++i) {
     det *= lu_(i, i);
+    if (ipiv_[i] != i + 1) {
+      det = -det;
+    }
   }
 
   return det;
-- 
2.43.0


From 71f28c636d16b0a6131401a4660f75800d340be0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:57 +0000
Subject: [PATCH 094/161] fix: luDecomposition.h can only be included once in a
 program

---
 il/linearAlgebra/dense/factorization/luDecomposition.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/luDecomposition.h b/il/linearAlgebra/dense/factorization/luDecomposition.h
index c796dea..05f6c2c 100644
--- a/il/linearAlgebra/dense/factorization/luDecomposition.h
+++ b/il/linearAlgebra/dense/factorization/luDecomposition.h
@@ -33,7 +33,7 @@
 
 namespace il {
 
-void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
+inline void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
                      il::Array2DEdit<double> A) {
   IL_EXPECT_MEDIUM(A.size(0) == A.size(1));
   IL_EXPECT_MEDIUM(A.size(0) == pivot.size());
@@ -48,7 +48,7 @@ void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
   IL_EXPECT_FAST(lapack_error == 0);
 }
 
-void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
+inline void luDecomposition(il::io_t, il::ArrayEdit<int> pivot,
                      il::Array2DEdit<std::complex<double>> A) {
   IL_EXPECT_MEDIUM(A.size(0) == A.size(1));
   IL_EXPECT_MEDIUM(A.size(0) == pivot.size());
-- 
2.43.0


From ff456f7cfbe787786497b82248182d5503b110cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:57 +0000
Subject: [PATCH 095/161] fix: qrDecomposition.h can only be included once in a
 program

---
 il/linearAlgebra/dense/factorization/qrDecomposition.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/dense/factorization/qrDecomposition.h b/il/linearAlgebra/dense/factorization/qrDecomposition.h
index d492fa1..d9c7c39 100644
--- a/il/linearAlgebra/dense/factorization/qrDecomposition.h
+++ b/il/linearAlgebra/dense/factorization/qrDecomposition.h
@@ -33,7 +33,7 @@
 
 namespace il {
 
-void qrDecomposition(il::io_t, il::ArrayEdit<double> tau,
+inline void qrDecomposition(il::io_t, il::ArrayEdit<double> tau,
                      il::Array2DEdit<double> A) {
   IL_EXPECT_MEDIUM(tau.size() == il::min(A.size(0), A.size(1)));
 
@@ -46,7 +46,7 @@ void qrDecomposition(il::io_t, il::ArrayEdit<double> tau,
   IL_EXPECT_FAST(lapack_error == 0);
 }
 
-void qrDecomposition(il::io_t, il::ArrayEdit<std::complex<double>> tau,
+inline void qrDecomposition(il::io_t, il::ArrayEdit<std::complex<double>> tau,
                      il::Array2DEdit<std::complex<double>> A) {
   IL_EXPECT_MEDIUM(tau.size() == il::min(A.size(0), A.size(1)));
 
-- 
2.43.0


From 851caa570239427ae4da19c685f3fc91b7da1c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 096/161] fix: safeDivision does not reset the error flag

---
 il/core/math/safe_arithmetic.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/il/core/math/safe_arithmetic.h b/il/core/math/safe_arithmetic.h
index 0e68996..45d6f5d 100644
--- a/il/core/math/safe_arithmetic.h
+++ b/il/core/math/safe_arithmetic.h
@@ -123,6 +123,7 @@ inline int safeDivision(int a, int b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
@@ -272,6 +273,7 @@ inline long safeDivision(long a, long b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
@@ -402,6 +404,7 @@ inline long long safeDivision(long long a, long long b, il::io_t, bool& error) {
     error = true;
     return 0;
   } else {
+    error = false;
     return a / b;
   }
 }
-- 
2.43.0


From a2218340edebcb38db74b575e70d967b418f5c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 097/161] fix: safeProduct2Positive lets the double of large
 numbers overflow

---
 il/core/math/safe_arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/core/math/safe_arithmetic.h b/il/core/math/safe_arithmetic.h
index 45d6f5d..4be47d8 100644
--- a/il/core/math/safe_arithmetic.h
+++ b/il/core/math/safe_arithmetic.h
@@ -209,7 +209,7 @@ inline long safeDifference(long a, long b, il::io_t, bool& error) {
 
 inline long safeProduct2Positive(long a, il::io_t, bool& error) {
   const unsigned long ua = static_cast<unsigned long>(a);
-  constexpr unsigned long max = static_cast<unsigned long>(2)
+  constexpr unsigned long max = static_cast<unsigned long>(1)
                                 << (sizeof(unsigned long) * 8 - 2);
   if (ua < max) {
     error = false;
-- 
2.43.0


From 109cd4473d1cc0d258c617d7e5d6eaf0c25f8036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 098/161] fix: max of two int is ambiguous

---
 il/core/core.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/il/core/core.h b/il/core/core.h
index a85c352..adcf895 100644
--- a/il/core/core.h
+++ b/il/core/core.h
@@ -179,6 +179,8 @@ T max(T a, T b) {
   return a >= b ? a : b;
 }
 
+inline int max(int a, int b) { return a >= b ? a : b; }
+
 template <typename T>
 T max(T a, int b) {
   return a >= b ? a : b;
-- 
2.43.0


From 811820c10aebd7e6e851275c7cdf9a32faa2ab74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 099/161] fix: nextLog2 does not return for numbers above the
 largest power of two

---
 il/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/math.h b/il/math.h
index 74b5bb4..f79160c 100644
--- a/il/math.h
+++ b/il/math.h
@@ -238,7 +238,7 @@ inline int nextLog2(std::size_t x) {
   //  return table_log2_64[index];
   std::size_t power = 1;
   int k = 0;
-  while (power < x) {
+  while (k < 64 && power < x) {
     power *= 2;
     k += 1;
   }
-- 
2.43.0


From 411ba967e3749504e9fa712c97f1876a6ca11755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 100/161] fix: next_log2_32 does not return for numbers above
 the largest power of two

---
 il/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/math.h b/il/math.h
index f79160c..d25310d 100644
--- a/il/math.h
+++ b/il/math.h
@@ -260,7 +260,7 @@ inline int next_log2_32(unsigned int x) {
   //  return table_log2_32[index];
   unsigned int power = 1;
   int k = 0;
-  while (power < x) {
+  while (k < 32 && power < x) {
     power *= 2;
     k += 1;
   }
-- 
2.43.0


From 7e9498613273cba16dded4fb29db1b48342036a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:27 +0000
Subject: [PATCH 101/161] fix: ipow overflows although the power fits

---
 il/math.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/il/math.h b/il/math.h
index d25310d..3768f11 100644
--- a/il/math.h
+++ b/il/math.h
@@ -164,8 +164,10 @@ T ipow(T x, il::int_t n) {
     if (n & 1) {
       ans *= x;
     }
-    x *= x;
     n >>= 1;
+    if (n != 0) {
+      x *= x;
+    }
   }
   return ans;
 }
-- 
2.43.0


From 6348a821facf192157e2cae4b242e50357120850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:51 +0000
Subject: [PATCH 102/161] fix: the norm of a tridiagonal matrix of size 0 or 1
 reads outside of the matrix

---
 il/linearAlgebra/dense/norm.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/il/linearAlgebra/dense/norm.h b/il/linearAlgebra/dense/norm.h
index b3badce..fc9e936 100644
--- a/il/linearAlgebra/dense/norm.h
+++ b/il/linearAlgebra/dense/norm.h
@@ -149,11 +149,15 @@ double norm(const il::TriDiagonal<T>& A, Norm norm_type) {
   switch (norm_type) {
     case Norm::Linf: {
       il::Array<T> sum_row{n};
-      sum_row[0] = il::abs(A(0, 0)) + il::abs(A(0, 1));
-      for (il::int_t i = 1; i < n - 1; ++i) {
-        sum_row[i] = il::abs(A(i, -1)) + il::abs(A(i, 0)) + il::abs(A(i, 1));
+      for (il::int_t i = 0; i < n; ++i) {
+        sum_row[i] = il::abs(A(i, 0));
+        if (i > 0) {
+          sum_row[i] += il::abs(A(i, -1));
+        }
+        if (i < n - 1) {
+          sum_row[i] += il::abs(A(i, 1));
+        }
       }
-      sum_row[n - 1] = il::abs(A(n - 1, -1)) + il::abs(A(n - 1, 0));
       for (il::int_t i = 0; i < sum_row.size(); ++i) {
         ans = il::max(ans, sum_row[i]);
       }
-- 
2.43.0


From 14def3c3e32edff5d15dc5f6bab697e8b501c607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 103/161] fix: SparseMatrixBlas does not compile

---
 il/linearAlgebra/sparse/blas/SparseMatrixBlas.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
index 963702e..10304d4 100644
--- a/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
+++ b/il/linearAlgebra/sparse/blas/SparseMatrixBlas.h
@@ -44,10 +44,10 @@ SparseMatrixBlas<Index, T>::SparseMatrixBlas(il::io_t,
   const sparse_index_base_t indexing = SPARSE_INDEX_BASE_ZERO;
   const MKL_INT rows = A.size(0);
   const MKL_INT cols = A.size(1);
-  MKL_INT *rows_start = A.rowData();
-  MKL_INT *rows_end = A.rowData() + 1;
-  MKL_INT *col_indx = A.columnData();
-  T *values = A.elementData();
+  MKL_INT *rows_start = A.RowData();
+  MKL_INT *rows_end = A.RowData() + 1;
+  MKL_INT *col_indx = A.ColumnData();
+  T *values = A.ElementData();
 
   sparse_status_t status =
       mkl_sparse_d_create_csr(&sparse_matrix_handle_, indexing, rows, cols,
@@ -98,10 +98,10 @@ SparseMatrixBlas<Index, float>::SparseMatrixBlas(
   const sparse_index_base_t indexing = SPARSE_INDEX_BASE_ZERO;
   const MKL_INT rows = A.size(0);
   const MKL_INT cols = A.size(1);
-  MKL_INT *rows_start = A.rowData();
-  MKL_INT *rows_end = A.rowData() + 1;
-  MKL_INT *col_indx = A.columnData();
-  float *values = A.elementData();
+  MKL_INT *rows_start = A.RowData();
+  MKL_INT *rows_end = A.RowData() + 1;
+  MKL_INT *col_indx = A.ColumnData();
+  float *values = A.ElementData();
 
   sparse_status_t status =
       mkl_sparse_s_create_csr(&sparse_matrix_handle_, indexing, rows, cols,
-- 
2.43.0


From 5e9cdb10edfc44550257c3bc532f55c87281a74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:34 +0000
Subject: [PATCH 104/161] fix: the product of a sparse matrix and a vector
 reads the former result when beta is 0

---
 il/linearAlgebra/sparse/blas/sparseBlas.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/sparse/blas/sparseBlas.h b/il/linearAlgebra/sparse/blas/sparseBlas.h
index 874cba9..a6e47bc 100644
--- a/il/linearAlgebra/sparse/blas/sparseBlas.h
+++ b/il/linearAlgebra/sparse/blas/sparseBlas.h
@@ -38,7 +38,7 @@ inline void blas(double alpha, const il::SparseMatrixCSR<int, double>& A,
     for (int k = A.row(i); k < A.row(i + 1); ++k) {
       sum += A.element(k) * x[A.column(k)];
     }
-    y[i] = alpha * sum + beta * y[i];
+    y[i] = beta == 0.0 ? alpha * sum : alpha * sum + beta * y[i];
   }
 }
 
@@ -51,7 +51,7 @@ inline void blas(double alpha, const il::SparseMatrixCSR<il::int_t, double>& A,
     for (il::int_t k = A.row(i); k < A.row(i + 1); ++k) {
       sum += A.element(k) * x[A.column(k)];
     }
-    y[i] = alpha * sum + beta * y[i];
+    y[i] = beta == 0.0 ? alpha * sum : alpha * sum + beta * y[i];
   }
 }
 
-- 
2.43.0


From 5beac2ee8f201c97737491a11b66144b074a11ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:04 +0000
Subject: [PATCH 105/161] fix: min, max and maxAbs of an array truncate the
 elements to integers

---
 il/algorithm/algorithmArray.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 606ab1c..8cac49c 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -31,7 +31,7 @@ template <typename T>
 T min(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t min_value = v[0];
+  T min_value = v[0];
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (v[i] < min_value) {
       min_value = v[i];
@@ -44,7 +44,7 @@ template <typename T>
 T min(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t min_value = v[range.begin];
+  T min_value = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] < min_value) {
       min_value = v[i];
@@ -57,7 +57,7 @@ template <typename T>
 T max(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t max_value = v[0];
+  T max_value = v[0];
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (v[i] > max_value) {
       max_value = v[i];
@@ -70,7 +70,7 @@ template <typename T>
 T max(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t max_value = v[range.begin];
+  T max_value = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] > max_value) {
       max_value = v[i];
@@ -83,7 +83,7 @@ template <typename T>
 T maxAbs(const il::Array<T>& v) {
   IL_EXPECT_FAST(v.size() > 0);
 
-  il::int_t max_value = il::abs(v[0]);
+  T max_value = il::abs(v[0]);
   for (il::int_t i = 1; i < v.size(); ++i) {
     if (il::abs(v[i]) > max_value) {
       max_value = il::abs(v[i]);
@@ -96,7 +96,7 @@ template <typename T>
 T maxAbs(const il::Array<T>& v, il::Range range) {
   IL_EXPECT_FAST(range.begin < range.end);
 
-  il::int_t max_value = il::abs(v[range.begin]);
+  T max_value = il::abs(v[range.begin]);
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] > max_value) {
       max_value = il::abs(v[i]);
-- 
2.43.0


From f25a857f9cd3d6111f8d3a8bbb039f4cb839ca53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:04 +0000
Subject: [PATCH 106/161] fix: minMax of a range reads the element after the
 range

---
 il/algorithm/algorithmArray.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index 8cac49c..f24b52d 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -221,11 +221,11 @@ MinMax<T> minMax(const il::Array<T>& v) {
 
 template <typename T>
 MinMax<T> minMax(const il::Array<T>& v, il::Range range) {
-  IL_EXPECT_FAST(v.size() > 0);
+  IL_EXPECT_FAST(range.begin < range.end);
 
   MinMax<T> ans{};
   ans.min = v[range.begin];
-  ans.max = v[range.end];
+  ans.max = v[range.begin];
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
     if (v[i] < ans.min) {
       ans.min = v[i];
-- 
2.43.0


From 7fcab4f5db73e2db9d68432f03f05a0c68d07d61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:04 +0000
Subject: [PATCH 107/161] fix: minMax of a column ignores infinities and the
 smallest integer

---
 il/algorithm/algorithmArray2D.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/algorithm/algorithmArray2D.h b/il/algorithm/algorithmArray2D.h
index bf36f4d..fddcf6b 100644
--- a/il/algorithm/algorithmArray2D.h
+++ b/il/algorithm/algorithmArray2D.h
@@ -31,9 +31,9 @@ MinMax<T> minMax(const il::Array2D<T>& A, il::Range i0_range, il::int_t i1) {
   IL_EXPECT_FAST(i0_range.begin < i0_range.end);
 
   MinMax<T> ans{};
-  ans.min = std::numeric_limits<T>::max();
-  ans.max = -std::numeric_limits<T>::max();
-  for (il::int_t i0 = i0_range.begin; i0 < i0_range.end; ++i0) {
+  ans.min = A(i0_range.begin, i1);
+  ans.max = A(i0_range.begin, i1);
+  for (il::int_t i0 = i0_range.begin + 1; i0 < i0_range.end; ++i0) {
     if (A(i0, i1) < ans.min) {
       ans.min = A(i0, i1);
     }
-- 
2.43.0


From 0a9636f5864648468b2bb58fd2e89ab1bcac27dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:05 +0000
Subject: [PATCH 108/161] fix: maxAbs of a range ignores negative elements

---
 il/algorithm/algorithmArray.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/algorithm/algorithmArray.h b/il/algorithm/algorithmArray.h
index f24b52d..db487e3 100644
--- a/il/algorithm/algorithmArray.h
+++ b/il/algorithm/algorithmArray.h
@@ -98,7 +98,7 @@ T maxAbs(const il::Array<T>& v, il::Range range) {
 
   T max_value = il::abs(v[range.begin]);
   for (il::int_t i = range.begin + 1; i < range.end; ++i) {
-    if (v[i] > max_value) {
+    if (il::abs(v[i]) > max_value) {
       max_value = il::abs(v[i]);
     }
   }
-- 
2.43.0


From 9203bd5e0928a82af21f48afe5bb4726e3b56eec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 109/161] fix: type of an empty TOML value, of a number with an
 exponent and of a number with underscores

---
 il/io/toml/toml.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 04dab1a..6687d2b 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -64,7 +64,12 @@ il::String TomlParser::currentLine() const {
 
 il::Type TomlParser::parseType(il::StringView string, il::io_t,
                                il::Status& status) {
-  if (string[0] == '"' || string[0] == '\'') {
+  if (string.isEmpty()) {
+    status.SetError(il::Error::ParseCanNotDetermineType);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return il::Type::Void;
+  } else if (string[0] == '"' || string[0] == '\'') {
     status.SetOk();
     return il::Type::UnicodeString;
   } else if (string.startsWithDigit() || string[0] == '-' || string[0] == '+') {
@@ -72,14 +77,11 @@ il::Type TomlParser::parseType(il::StringView string, il::io_t,
     if (string[0] == '-' || string[0] == '+') {
       ++i;
     }
-    while (i < string.size() && string.hasDigit(i)) {
+    while (i < string.size() && (string.hasDigit(i) || string[i] == '_')) {
       ++i;
     }
-    if (i < string.size() && string[i] == '.') {
-      ++i;
-      while (i < string.size() && string.hasDigit(i)) {
-        ++i;
-      }
+    if (i < string.size() &&
+        (string[i] == '.' || string[i] == 'e' || string[i] == 'E')) {
       status.SetOk();
       return il::Type::Double;
     } else {
-- 
2.43.0


From a8455d49811cbffbee8259184b35ff0135cc2c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 110/161] fix: TOML zero followed by a comma, a bracket, a tab,
 a comment or an exponent is refused

---
 il/io/toml/toml.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 6687d2b..dd8ed2e 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -135,8 +135,7 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
 
   // Check that there is no leading 0
   if (i + 1 < string.size() && string[i] == '0' &&
-      !(string[i + 1] == '.' || string[i + 1] == ' ' ||
-        string.hasNewLine(i + 1))) {
+      (string.hasDigit(i + 1) || string[i + 1] == '_')) {
     status.SetError(il::Error::ParseNumber);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
-- 
2.43.0


From 57cf1ef468d4d2264e2b87ee7deb084047aacbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 111/161] fix: digits after an underscore in a TOML number

---
 il/io/toml/toml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index dd8ed2e..0bcad4c 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -148,7 +148,7 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
     ++i;
     if (i < string.size() && string[i] == '_') {
       ++i;
-      if (i == string.size() || (!string.hasDigit(i + 1))) {
+      if (i == string.size() || (!string.hasDigit(i))) {
         status.SetError(il::Error::ParseNumber);
         IL_SET_SOURCE(status);
         status.SetInfo("line", line_number_);
@@ -231,7 +231,7 @@ il::Dynamic TomlParser::parseNumber(il::io_t, il::StringView& string,
       number.Append(string[j]);
     }
   }
-  il::StringView view{il::StringType::Byte, number.data(), i};
+  il::StringView view{il::StringType::Byte, number.data(), number.size()};
 
   if (is_float) {
     status.SetOk();
-- 
2.43.0


From 264c8d0197ddd5a5b7a7fecd2f4a2dfe7aa886b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 112/161] fix: TOML string with invalid UTF-8 aborts or is read
 out of bounds

---
 il/io/toml/toml.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 0bcad4c..04eaa26 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -283,9 +283,16 @@ il::String TomlParser::parseStringLiteral(char delimiter, il::io_t,
       status.SetOk();
       return ans;
     } else {
-      // TODO: I am not sure what will happen with a Unicode string
+      const il::int_t n = string.nextRune(0);
+      const il::String rune{il::StringType::Byte, string.data(), n};
+      if (!il::isUtf8(rune.asCString())) {
+        status.SetError(il::Error::ParseString);
+        IL_SET_SOURCE(status);
+        status.SetInfo("line", line_number_);
+        return ans;
+      }
       ans.Append(string.rune(0));
-      string.removePrefix(string.nextRune(0));
+      string.removePrefix(n);
     }
   }
 
-- 
2.43.0


From a7825fc20bad3fe871c6633980277d353d036b03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 113/161] fix: quoted TOML keys: non-ASCII characters abort,
 literal keys keep the closing quote

---
 il/io/toml/toml.cpp | 44 +++++++++-----------------------------------
 1 file changed, 9 insertions(+), 35 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 04eaa26..c31a589 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -595,43 +595,17 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
   string = il::removeWhitespaceLeft(string);
   IL_EXPECT_FAST(string.size() > 0);
 
-  il::Status parse_status{};
-  if (string[0] == '"') {
-    //////////////////////////
-    // We have a key in a ".."
-    //////////////////////////
-    string.removePrefix(1);
-    while (string.size() > 0) {
-      if (string[0] == '\\') {
-        il::Status parse_status{};
-        key.Append(parseEscapeCode(il::io, string, parse_status));
-        if (!parse_status.Ok()) {
-          status = std::move(parse_status);
-          return key;
-        }
-      } else if (string[0] == '"') {
-        string.removePrefix(1);
-        string = il::removeWhitespaceLeft(string);
-        status.SetOk();
-        return key;
-      } else {
-        // Check what's going on with unicode
-        key.Append(string[0]);
-        string.removePrefix(1);
-      }
-    }
-    status.SetError(il::Error::ParseString);
-    IL_SET_SOURCE(status);
-    status.SetInfo("line", line_number_);
-    return key;
+  if (string[0] == '"' || string[0] == '\'') {
+    ////////////////////////////////////
+    // We have a key in a ".." or a '..'
+    ////////////////////////////////////
+    const char delimiter = string[0];
+    return parseStringLiteral(delimiter, il::io, string, status);
   } else {
-    /////////////////////////////////////
-    // We have a bare key: '..' or ->..<-
-    /////////////////////////////////////
+    ////////////////////////
+    // We have a bare key
+    ////////////////////////
     // Search for the end of the key and move back to drop the whitespaces
-    if (string[0] == '\'') {
-      string.removePrefix(1);
-    }
     il::int_t j = 0;
     if (end != '@') {
       while (j < string.size() && (string[j] != end)) {
-- 
2.43.0


From 91279a26f0c2f768a80a97b5868ffbf125b1f70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 114/161] fix: missing TOML key aborts

---
 il/io/toml/toml.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index c31a589..1f3443f 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -593,7 +593,12 @@ il::String TomlParser::parseKey(char end, il::io_t, il::StringView& string,
 
   il::String key{};
   string = il::removeWhitespaceLeft(string);
-  IL_EXPECT_FAST(string.size() > 0);
+  if (string.isEmpty()) {
+    status.SetError(il::Error::ParseKey);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return key;
+  }
 
   if (string[0] == '"' || string[0] == '\'') {
     ////////////////////////////////////
-- 
2.43.0


From db29f1ad86f99e06237370a6441bb02675de9666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 115/161] fix: TOML array without a closing bracket is accepted

---
 il/io/toml/toml.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 1f3443f..9307b4e 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -461,9 +461,13 @@ il::Dynamic TomlParser::parseValueArray(il::Type value_type, il::io_t,
     }
   }
 
-  if (!string.isEmpty()) {
-    string.removePrefix(1);
+  if (string.isEmpty() || (string[0] != ']')) {
+    status.SetError(il::Error::ParseArray);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return ans;
   }
+  string.removePrefix(1);
 
   status.SetOk();
   return ans;
-- 
2.43.0


From c86852a379aa225eac45308930450af9e12d748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 116/161] fix: TOML array of inline tables aborts

---
 il/io/toml/toml.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 9307b4e..c0b8334 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -414,6 +414,16 @@ il::Dynamic TomlParser::parseArray(il::io_t, il::StringView& string,
       status.SetOk();
       return ans;
     }
+    case il::Type::MapArrayStringToDynamic: {
+      ans = parseObjectArray(il::Type::MapArrayStringToDynamic, '{', il::io,
+                             string, parse_status);
+      if (!parse_status.Ok()) {
+        status = std::move(parse_status);
+        return ans;
+      }
+      status.SetOk();
+      return ans;
+    }
     default:
       il::abort();
       return ans;
@@ -495,7 +505,11 @@ il::Dynamic TomlParser::parseObjectArray(il::Type object_type, char delimiter,
         return ans;
       }
     } else {
-      il::abort();
+      array.Append(parseInlineTable(il::io, string, parse_status));
+      if (!parse_status.Ok()) {
+        status = std::move(parse_status);
+        return ans;
+      }
     }
 
     string = il::removeWhitespaceLeft(string);
-- 
2.43.0


From 7bd3cd19016c242eabdc4afb2f2a50eb5c2d94e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 117/161] fix: TOML array of arrays on several lines is refused

---
 il/io/toml/toml.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index c0b8334..08c9959 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -512,12 +512,20 @@ il::Dynamic TomlParser::parseObjectArray(il::Type object_type, char delimiter,
       }
     }
 
-    string = il::removeWhitespaceLeft(string);
+    string = skipWhitespaceAndComments(string, il::io, parse_status);
+    if (!parse_status.Ok()) {
+      status = std::move(parse_status);
+      return ans;
+    }
     if (string.isEmpty() || (string[0] != ',')) {
       break;
     }
     string.removePrefix(1);
-    string = il::removeWhitespaceLeft(string);
+    string = skipWhitespaceAndComments(string, il::io, parse_status);
+    if (!parse_status.Ok()) {
+      status = std::move(parse_status);
+      return ans;
+    }
   }
 
   if (string.isEmpty() || (string[0] != ']')) {
-- 
2.43.0


From 8890476dd0b954124497f6e9fd18f38c360a7495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 118/161] fix: unclosed TOML inline table reads out of bounds,
 empty inline table is refused

---
 il/io/toml/toml.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 08c9959..a87acd9 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -551,6 +551,10 @@ il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
       return ans;
     }
     string = il::removeWhitespaceLeft(string);
+    if (!string.isEmpty() && string[0] == '}' &&
+        ans.as<il::MapArray<il::String, il::Dynamic>>().size() == 0) {
+      break;
+    }
     il::Status parse_status{};
     parseKeyValue(il::io, string,
                   ans.As<il::MapArray<il::String, il::Dynamic>>(),
@@ -560,7 +564,7 @@ il::Dynamic TomlParser::parseInlineTable(il::io_t, il::StringView& string,
       return ans;
     }
     string = il::removeWhitespaceLeft(string);
-  } while (string[0] == ',');
+  } while (!string.isEmpty() && string[0] == ',');
 
   if (string.isEmpty() || (string[0] != '}')) {
     status.SetError(il::Error::ParseTable);
-- 
2.43.0


From 805eb41919a8da3dc2f2c20ac0660a0152abad51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 119/161] fix: malformed TOML table header reads out of bounds
 or aborts

---
 il/io/toml/toml.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index a87acd9..3957db2 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -770,6 +770,7 @@ void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
     status.SetError(il::Error::ParseTable);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
+    return;
   }
 
   il::String full_table_name{};
@@ -836,10 +837,19 @@ void TomlParser::parseSingleTable(il::io_t, il::StringView& string,
   // TODO: One should check the redefinition of a table (line 1680)
   IL_UNUSED(inserted);
 
+  if (string.isEmpty()) {
+    status.SetError(il::Error::ParseTable);
+    IL_SET_SOURCE(status);
+    status.SetInfo("line", line_number_);
+    return;
+  }
   string.removePrefix(1);
   string = il::removeWhitespaceLeft(string);
-  if (!string.isEmpty() && (string[0] != '\n') && (string[0] != '#')) {
-    il::abort();
+  il::Status parse_status{};
+  checkEndOfLineOrComment(string, il::io, parse_status);
+  if (!parse_status.Ok()) {
+    status = std::move(parse_status);
+    return;
   }
   status.SetOk();
 }
-- 
2.43.0


From 399293062844a0ad12c9a315f34750d319719728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 120/161] fix: second closing bracket of a TOML array of tables
 is not checked

---
 il/io/toml/toml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 3957db2..153df27 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -923,7 +923,7 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
     return;
   }
   string.removePrefix(1);
-  if (string.isEmpty()) {
+  if (string.isEmpty() || string[0] != ']') {
     status.SetError(il::Error::ParseTable);
     IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
-- 
2.43.0


From d440fa023feb19e516c0e94ee7de856476346e27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 121/161] fix: dotted names of TOML arrays of tables

---
 il/io/toml/toml.cpp | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 153df27..b52185d 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -896,8 +896,30 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
           return;
         }
         il::Array<il::Dynamic>& v = b.As<il::Array<il::Dynamic>>();
+        if (v.size() > 0 &&
+            !v.back().is<il::MapArray<il::String, il::Dynamic>>()) {
+          status.SetError(il::Error::ParseTable);
+          IL_SET_SOURCE(status);
+          status.SetInfo("line", line_number_);
+          return;
+        }
         v.Append(il::Dynamic{il::MapArray<il::String, il::Dynamic>{}});
         toml = &(v.Back().As<il::MapArray<il::String, il::Dynamic>>());
+      } else if (b.is<il::MapArray<il::String, il::Dynamic>>()) {
+        toml = &(b.As<il::MapArray<il::String, il::Dynamic>>());
+      } else if (b.is<il::Array<il::Dynamic>>() &&
+                 b.as<il::Array<il::Dynamic>>().size() > 0 &&
+                 b.as<il::Array<il::Dynamic>>()
+                     .back()
+                     .is<il::MapArray<il::String, il::Dynamic>>()) {
+        toml = &(b.As<il::Array<il::Dynamic>>()
+                     .Back()
+                     .As<il::MapArray<il::String, il::Dynamic>>());
+      } else {
+        status.SetError(il::Error::ParseTable);
+        IL_SET_SOURCE(status);
+        status.SetInfo("line", line_number_);
+        return;
       }
     } else {
       if (!string.isEmpty() && string[0] == ']') {
@@ -914,6 +936,11 @@ void TomlParser::parseTableArray(il::io_t, il::StringView& string,
         toml = &(toml->Value(i).As<il::MapArray<il::String, il::Dynamic>>());
       }
     }
+
+    if (!string.isEmpty() && string[0] == '.') {
+      string.removePrefix(1);
+      string = il::removeWhitespaceLeft(string);
+    }
   }
 
   if (string.isEmpty()) {
-- 
2.43.0


From f8f2d9ecb7f3dbfa40844f384c9f8a754bef0923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 122/161] fix: TOML file is left open after trailing characters

---
 il/io/toml/toml.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index b52185d..fc35ae2 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -1019,6 +1019,7 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
       checkEndOfLineOrComment(line, il::io, parse_status);
       if (!parse_status.Ok()) {
         status = std::move(parse_status);
+        std::fclose(file_);
         return root_toml;
       }
     }
-- 
2.43.0


From 33ab701487c15000c9a91c4423072ee91c8be101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 123/161] fix: TOML files that can only be read are not found

---
 il/io/toml/toml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index fc35ae2..8d28a88 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -976,10 +976,10 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   il::MapArray<il::String, il::Dynamic>* pointer_toml = &root_toml;
 
 #ifdef IL_UNIX
-  file_ = std::fopen(filename.asCString(), "r+b");
+  file_ = std::fopen(filename.asCString(), "rb");
 #else
   il::UTF16String filename_utf16 = il::toUtf16(filename);
-  file_ = _wfopen(filename_utf16.asWString(), L"r+b");
+  file_ = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
   if (!file_) {
     status.SetError(il::Error::FilesystemFileNotFound);
-- 
2.43.0


From d1af9146e1c7a098e2220cb712f33cb6dfeeb2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:50 +0000
Subject: [PATCH 124/161] fix: TOML lines of more than 200 characters are
 split, lines of arrays are followed by stale characters

---
 il/io/toml/toml.cpp | 30 ++++++++++++++++++++++++------
 il/io/toml/toml.h   |  2 ++
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index 8d28a88..a6ae529 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -23,20 +23,39 @@ namespace il {
 
 TomlParser::TomlParser() {}
 
+// Read the next line, whatever its length. The view includes the new line
+// character and is valid up to the next call to this method. The function
+// returns false when the end of the file has been reached.
+bool TomlParser::readLine(il::io_t, il::StringView& line) {
+  bool found = false;
+  line_.Resize(0);
+  while (std::fgets(buffer_line_, max_line_length_ + 1, file_) != nullptr) {
+    found = true;
+    const il::int_t n = il::size(buffer_line_);
+    for (il::int_t i = 0; i < n; ++i) {
+      line_.Append(buffer_line_[i]);
+    }
+    if (n < max_line_length_ || buffer_line_[n - 1] == '\n') {
+      break;
+    }
+  }
+  line_.Append('\0');
+  line = il::StringView{il::StringType::Byte, line_.data(), line_.size() - 1};
+  return found;
+}
+
 il::StringView TomlParser::skipWhitespaceAndComments(il::StringView string,
                                                      il::io_t,
                                                      il::Status& status) {
   string.trimPrefix();
   while (string.isEmpty() || string[0] == '#' || string.startsWithNewLine()) {
-    const char* error = std::fgets(buffer_line_, max_line_length_ + 1, file_);
-    if (error == nullptr) {
+    if (!readLine(il::io, string)) {
       IL_SET_SOURCE(status);
       status.SetError(il::Error::ParseUnclosedArray);
       status.SetInfo("line", line_number_);
       return string;
     }
     ++line_number_;
-    string = il::StringView{buffer_line_};
     string.trimPrefix();
   }
 
@@ -988,11 +1007,10 @@ il::MapArray<il::String, il::Dynamic> TomlParser::parse(
   }
 
   line_number_ = 0;
-  while (std::fgets(buffer_line_, max_line_length_ + 1, file_) != nullptr) {
+  il::StringView line{};
+  while (readLine(il::io, line)) {
     ++line_number_;
 
-    il::StringView line{il::StringType::Byte, buffer_line_,
-                        il::size(buffer_line_)};
     line = il::removeWhitespaceLeft(line);
 
     if (line.isEmpty() || line.startsWithNewLine() || line[0] == '#') {
diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index bb8d1ff..205405c 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -40,6 +40,7 @@ class TomlParser {
  private:
   static const il::int_t max_line_length_ = 200;
   char buffer_line_[max_line_length_ + 1];
+  il::Array<char> line_;
   il::int_t line_number_;
   std::FILE *file_;
 
@@ -84,6 +85,7 @@ class TomlParser {
   il::Dynamic parseString(il::io_t, il::StringView &string, il::Status &status);
 
  private:
+  bool readLine(il::io_t, il::StringView &line);
   static bool containsDigit(char c);
 };
 
-- 
2.43.0


From 0d5776d2f5e20d664a1d7ef6b53715d411a22b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:31 +0000
Subject: [PATCH 125/161] fix: unclosed TOML array and trailing characters
 abort in debug mode

---
 il/io/toml/toml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/il/io/toml/toml.cpp b/il/io/toml/toml.cpp
index a6ae529..f15169a 100644
--- a/il/io/toml/toml.cpp
+++ b/il/io/toml/toml.cpp
@@ -50,8 +50,8 @@ il::StringView TomlParser::skipWhitespaceAndComments(il::StringView string,
   string.trimPrefix();
   while (string.isEmpty() || string[0] == '#' || string.startsWithNewLine()) {
     if (!readLine(il::io, string)) {
-      IL_SET_SOURCE(status);
       status.SetError(il::Error::ParseUnclosedArray);
+      IL_SET_SOURCE(status);
       status.SetInfo("line", line_number_);
       return string;
     }
@@ -69,8 +69,8 @@ void TomlParser::checkEndOfLineOrComment(il::StringView string, il::io_t,
                                          il::Status& status) {
   if (!string.isEmpty() && (!string.startsWithNewLine()) &&
       (string[0] != '#')) {
-    IL_SET_SOURCE(status);
     status.SetError(il::Error::ParseUnidentifiedTrailingCharacter);
+    IL_SET_SOURCE(status);
     status.SetInfo("line", line_number_);
   } else {
     status.SetOk();
-- 
2.43.0


From 91425664e52db296e83e899dbb23c51d79813232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 126/161] fix: quotes, backslashes and control characters of
 texts saved in TOML files

---
 il/io/toml/toml.h | 51 +++++++++++++++++++++++++++++++++++++----------
 1 file changed, 40 insertions(+), 11 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 205405c..33e1c54 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -89,6 +89,42 @@ class TomlParser {
   static bool containsDigit(char c);
 };
 
+// The text in between double quotes
+inline il::String tomlText(const il::String &text) {
+  il::String ans{};
+  ans.Append('"');
+  const char *data = text.asCString();
+  for (il::int_t i = 0; i < text.size(); ++i) {
+    switch (data[i]) {
+      case '\b':
+        ans.Append("\\b");
+        break;
+      case '\t':
+        ans.Append("\\t");
+        break;
+      case '\n':
+        ans.Append("\\n");
+        break;
+      case '\f':
+        ans.Append("\\f");
+        break;
+      case '\r':
+        ans.Append("\\r");
+        break;
+      case '"':
+        ans.Append("\\\"");
+        break;
+      case '\\':
+        ans.Append("\\\\");
+        break;
+      default:
+        ans.Append(text.type(), data + i, 1);
+    }
+  }
+  ans.Append('"');
+  return ans;
+}
+
 inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
                        std::FILE *file, il::Status &status) {
   const int error0 = std::fputs("[ ", file);
@@ -117,13 +153,9 @@ inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
         IL_UNUSED(error2);
       } break;
       case il::Type::UnicodeString: {
-        const int error2 = std::fputs("\"", file);
-        const int error3 =
-            std::fputs(array[j].as<il::String>().asCString(), file);
-        const int error4 = std::fputs("\"", file);
+        const int error2 = std::fputs(
+            il::tomlText(array[j].as<il::String>()).asCString(), file);
         IL_UNUSED(error2);
-        IL_UNUSED(error3);
-        IL_UNUSED(error4);
       } break;
       case il::Type::ArrayOfDynamic: {
         save_array(array[j].as<il::Array<il::Dynamic>>(), il::io, file, status);
@@ -174,11 +206,8 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
           if (error == EOF) return;
           break;
         case il::Type::UnicodeString:
-          error = std::fputs("\"", file);
-          if (error == EOF) return;
-          error = std::fputs(value.as<il::String>().asCString(), file);
-          if (error == EOF) return;
-          error = std::fputs("\"", file);
+          error = std::fputs(
+              il::tomlText(value.as<il::String>()).asCString(), file);
           if (error == EOF) return;
           break;
         case il::Type::ArrayOfDouble: {
-- 
2.43.0


From 0f50b1457a798dd44b3535f09f133c7307fa35f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 127/161] fix: digits of floating point numbers saved in TOML
 files

---
 il/io/toml/toml.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 33e1c54..096166a 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -149,7 +149,7 @@ inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
         IL_UNUSED(error2);
       } break;
       case il::Type::Double: {
-        const int error2 = std::fprintf(file, "%e", array[j].to<double>());
+        const int error2 = std::fprintf(file, "%.16e", array[j].to<double>());
         IL_UNUSED(error2);
       } break;
       case il::Type::UnicodeString: {
@@ -202,7 +202,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
           if (error == EOF) return;
           break;
         case il::Type::Double:
-          error = std::fprintf(file, "%e", value.to<double>());
+          error = std::fprintf(file, "%.16e", value.to<double>());
           if (error == EOF) return;
           break;
         case il::Type::UnicodeString:
@@ -215,7 +215,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
           error = std::fputs("[ ", file);
           if (error == EOF) return;
           for (il::int_t i = 0; i < v.size(); ++i) {
-            std::fprintf(file, "%e", v[i]);
+            std::fprintf(file, "%.16e", v[i]);
             if (i + 1 < v.size()) {
               error = std::fputs(", ", file);
               if (error == EOF) return;
@@ -232,7 +232,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
             error = std::fputs("[ ", file);
             if (error == EOF) return;
             for (il::int_t j = 0; j < v.size(1); ++j) {
-              std::fprintf(file, "%e", v(i, j));
+              std::fprintf(file, "%.16e", v(i, j));
               if (j + 1 < v.size(1)) {
                 error = std::fputs(", ", file);
                 if (error == EOF) return;
-- 
2.43.0


From 94bd413b603900f03b7fdc2446d7604e987c1aec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 128/161] fix: keys and table names saved in TOML files that
 need quotes

---
 il/io/toml/toml.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 096166a..dc671d8 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -125,6 +125,20 @@ inline il::String tomlText(const il::String &text) {
   return ans;
 }
 
+// The key in between double quotes, unless it is only made of A-Za-z0-9_-
+inline il::String tomlKey(const il::String &key) {
+  const char *data = key.asCString();
+  bool bare = key.size() > 0;
+  for (il::int_t i = 0; i < key.size(); ++i) {
+    const char c = data[i];
+    if (!((c >= 'A' && c <= 'Z') || (c >= 'a' && c <= 'z') ||
+          (c >= '0' && c <= '9') || c == '_' || c == '-')) {
+      bare = false;
+    }
+  }
+  return bare ? key : il::tomlText(key);
+}
+
 inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
                        std::FILE *file, il::Status &status) {
   const int error0 = std::fputs("[ ", file);
@@ -184,7 +198,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
     const il::Type type = value.type();
     if (type != il::Type::MapArrayStringToDynamic &&
         type != il::Type::MapStringToDynamic) {
-      error = std::fputs(toml.key(i).asCString(), file);
+      error = std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
       if (error == EOF) return;
       error = std::fputs(" = ", file);
       if (error == EOF) return;
@@ -266,7 +280,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
         error = std::fputs(".", file);
         if (error == EOF) return;
       }
-      error = std::fputs(toml.key(i).asCString(), file);
+      error = std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
       if (error == EOF) return;
       error = std::fputs("]\n", file);
       if (error == EOF) return;
@@ -285,7 +299,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
         error = std::fputs(".", file);
         if (error == EOF) return;
       }
-      error = std::fputs(toml.key(i).asCString(), file);
+      error = std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
       if (error == EOF) return;
       error = std::fputs("]\n", file);
       if (error == EOF) return;
-- 
2.43.0


From a0383b8682565e098d2943345987005bea1da6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 129/161] fix: names of the tables of tables saved in TOML
 files

---
 il/io/toml/toml.h | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index dc671d8..08b611a 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -272,38 +272,36 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
       error = std::fputs("\n", file);
       if (error == EOF) return;
     } else if (type == il::Type::MapArrayStringToDynamic) {
-      error = std::fputs("\n[", file);
-      if (error == EOF) return;
+      il::String full_name = name;
       if (name.size() != 0) {
-        error = std::fputs(name.asCString(), file);
-        if (error == EOF) return;
-        error = std::fputs(".", file);
-        if (error == EOF) return;
+        full_name.Append('.');
       }
-      error = std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
+      full_name.Append(il::tomlKey(toml.key(i)));
+      error = std::fputs("\n[", file);
+      if (error == EOF) return;
+      error = std::fputs(full_name.asCString(), file);
       if (error == EOF) return;
       error = std::fputs("]\n", file);
       if (error == EOF) return;
-      save_aux(value.as<il::MapArray<il::String, il::Dynamic>>(), toml.key(i),
+      save_aux(value.as<il::MapArray<il::String, il::Dynamic>>(), full_name,
                il::io, file, status);
       if (!status.Ok()) {
         status.Rearm();
         return;
       }
     } else if (type == il::Type::MapStringToDynamic) {
-      error = std::fputs("\n[", file);
-      if (error == EOF) return;
+      il::String full_name = name;
       if (name.size() != 0) {
-        error = std::fputs(name.asCString(), file);
-        if (error == EOF) return;
-        error = std::fputs(".", file);
-        if (error == EOF) return;
+        full_name.Append('.');
       }
-      error = std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
+      full_name.Append(il::tomlKey(toml.key(i)));
+      error = std::fputs("\n[", file);
+      if (error == EOF) return;
+      error = std::fputs(full_name.asCString(), file);
       if (error == EOF) return;
       error = std::fputs("]\n", file);
       if (error == EOF) return;
-      save_aux(value.as<il::Map<il::String, il::Dynamic>>(), toml.key(i),
+      save_aux(value.as<il::Map<il::String, il::Dynamic>>(), full_name,
                il::io, file, status);
       if (!status.Ok()) {
         status.Rearm();
-- 
2.43.0


From 661ba5d584c7fe0ef35d4a85922991d7e5e7b5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:35 +0000
Subject: [PATCH 130/161] fix: values saved in TOML files after a table become
 part of the table

---
 il/io/toml/toml.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 08b611a..ec900a8 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -271,7 +271,14 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
       }
       error = std::fputs("\n", file);
       if (error == EOF) return;
-    } else if (type == il::Type::MapArrayStringToDynamic) {
+    }
+  }
+
+  // The tables come last as a table contains all the values that follow
+  for (il::spot_t i = toml.spotBegin(); i != toml.spotEnd(); i = toml.next(i)) {
+    const il::Dynamic &value = toml.value(i);
+    const il::Type type = value.type();
+    if (type == il::Type::MapArrayStringToDynamic) {
       il::String full_name = name;
       if (name.size() != 0) {
         full_name.Append('.');
-- 
2.43.0


From 010476907201023eecb04b7b3e9d625353eca67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 131/161] fix: maps inside arrays and values without a TOML
 type are undefined behaviour when saved in TOML files

---
 il/io/toml/toml.h | 203 +++++++++++++++++++++++-----------------------
 1 file changed, 100 insertions(+), 103 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index ec900a8..3642629 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -139,51 +139,110 @@ inline il::String tomlKey(const il::String &key) {
   return bare ? key : il::tomlText(key);
 }
 
+inline void save_value(const il::Dynamic &value, il::io_t, std::FILE *file,
+                       il::Status &status);
+
 inline void save_array(const il::Array<il::Dynamic> &array, il::io_t,
                        std::FILE *file, il::Status &status) {
-  const int error0 = std::fputs("[ ", file);
-  IL_UNUSED(error0);
+  std::fputs("[ ", file);
   for (il::int_t j = 0; j < array.size(); ++j) {
     if (j > 0) {
-      const int error1 = std::fputs(", ", file);
-      IL_UNUSED(error1);
+      std::fputs(", ", file);
+    }
+    save_value(array[j], il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
     }
-    switch (array[j].type()) {
-      case il::Type::Bool: {
-        if (array[j].to<bool>()) {
-          const int error2 = std::fputs("true", file);
-          IL_UNUSED(error2);
-        } else {
-          const int error2 = std::fputs("false", file);
-          IL_UNUSED(error2);
+  }
+  std::fputs(" ]", file);
+  status.SetOk();
+}
+
+// A map inside an array is saved as an inline table
+template <typename M>
+inline void save_inline_table(const M &toml, il::io_t, std::FILE *file,
+                              il::Status &status) {
+  bool first = true;
+  std::fputs("{", file);
+  for (il::spot_t i = toml.spotBegin(); i != toml.spotEnd(); i = toml.next(i)) {
+    if (!first) {
+      std::fputs(", ", file);
+    }
+    first = false;
+    std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
+    std::fputs(" = ", file);
+    save_value(toml.value(i), il::io, file, status);
+    if (!status.Ok()) {
+      status.Rearm();
+      return;
+    }
+  }
+  std::fputs("}", file);
+  status.SetOk();
+}
+
+inline void save_value(const il::Dynamic &value, il::io_t, std::FILE *file,
+                       il::Status &status) {
+  switch (value.type()) {
+    case il::Type::Bool:
+      std::fputs(value.to<bool>() ? "true" : "false", file);
+      break;
+    case il::Type::Integer:
+      std::fprintf(file, "%td", value.to<il::int_t>());
+      break;
+    case il::Type::Double:
+      std::fprintf(file, "%.16e", value.to<double>());
+      break;
+    case il::Type::UnicodeString:
+      std::fputs(il::tomlText(value.as<il::String>()).asCString(), file);
+      break;
+    case il::Type::ArrayOfDouble: {
+      const il::Array<double> &v = value.as<il::Array<double>>();
+      std::fputs("[ ", file);
+      for (il::int_t i = 0; i < v.size(); ++i) {
+        std::fprintf(file, "%.16e", v[i]);
+        if (i + 1 < v.size()) {
+          std::fputs(", ", file);
         }
-      } break;
-      case il::Type::Integer: {
-        const int error2 = std::fprintf(file, "%td", array[j].to<il::int_t>());
-        IL_UNUSED(error2);
-      } break;
-      case il::Type::Double: {
-        const int error2 = std::fprintf(file, "%.16e", array[j].to<double>());
-        IL_UNUSED(error2);
-      } break;
-      case il::Type::UnicodeString: {
-        const int error2 = std::fputs(
-            il::tomlText(array[j].as<il::String>()).asCString(), file);
-        IL_UNUSED(error2);
-      } break;
-      case il::Type::ArrayOfDynamic: {
-        save_array(array[j].as<il::Array<il::Dynamic>>(), il::io, file, status);
-        if (!status.Ok()) {
-          status.Rearm();
-          return;
+      }
+      std::fputs(" ]", file);
+    } break;
+    case il::Type::Array2DOfDouble: {
+      const il::Array2D<double> &v = value.as<il::Array2D<double>>();
+      std::fputs("[ ", file);
+      for (il::int_t i = 0; i < v.size(0); ++i) {
+        std::fputs("[ ", file);
+        for (il::int_t j = 0; j < v.size(1); ++j) {
+          std::fprintf(file, "%.16e", v(i, j));
+          if (j + 1 < v.size(1)) {
+            std::fputs(", ", file);
+          }
         }
-      } break;
-      default:
-        IL_UNREACHABLE;
-    }
+        std::fputs(" ]", file);
+        if (i + 1 < v.size(0)) {
+          std::fputs(", ", file);
+        }
+      }
+      std::fputs(" ]", file);
+    } break;
+    case il::Type::ArrayOfDynamic:
+      save_array(value.as<il::Array<il::Dynamic>>(), il::io, file, status);
+      return;
+    case il::Type::MapArrayStringToDynamic:
+      save_inline_table(value.as<il::MapArray<il::String, il::Dynamic>>(),
+                        il::io, file, status);
+      return;
+    case il::Type::MapStringToDynamic:
+      save_inline_table(value.as<il::Map<il::String, il::Dynamic>>(), il::io,
+                        file, status);
+      return;
+    default:
+      // There is no such type in TOML
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
   }
-  const int error5 = std::fputs(" ]", file);
-  IL_UNUSED(error5);
   status.SetOk();
 }
 
@@ -202,72 +261,10 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
       if (error == EOF) return;
       error = std::fputs(" = ", file);
       if (error == EOF) return;
-      switch (type) {
-        case il::Type::Bool:
-          if (value.to<bool>()) {
-            error = std::fputs("true", file);
-          } else {
-            error = std::fputs("false", file);
-          }
-          if (error == EOF) return;
-          break;
-        case il::Type::Integer:
-          error = std::fprintf(file, "%td", value.to<il::int_t>());
-          if (error == EOF) return;
-          break;
-        case il::Type::Double:
-          error = std::fprintf(file, "%.16e", value.to<double>());
-          if (error == EOF) return;
-          break;
-        case il::Type::UnicodeString:
-          error = std::fputs(
-              il::tomlText(value.as<il::String>()).asCString(), file);
-          if (error == EOF) return;
-          break;
-        case il::Type::ArrayOfDouble: {
-          const il::Array<double> &v = value.as<il::Array<double>>();
-          error = std::fputs("[ ", file);
-          if (error == EOF) return;
-          for (il::int_t i = 0; i < v.size(); ++i) {
-            std::fprintf(file, "%.16e", v[i]);
-            if (i + 1 < v.size()) {
-              error = std::fputs(", ", file);
-              if (error == EOF) return;
-            }
-          }
-          error = std::fputs(" ]", file);
-          if (error == EOF) return;
-        } break;
-        case il::Type::Array2DOfDouble: {
-          const il::Array2D<double> &v = value.as<il::Array2D<double>>();
-          error = std::fputs("[ ", file);
-          if (error == EOF) return;
-          for (il::int_t i = 0; i < v.size(0); ++i) {
-            error = std::fputs("[ ", file);
-            if (error == EOF) return;
-            for (il::int_t j = 0; j < v.size(1); ++j) {
-              std::fprintf(file, "%.16e", v(i, j));
-              if (j + 1 < v.size(1)) {
-                error = std::fputs(", ", file);
-                if (error == EOF) return;
-              }
-            }
-            error = std::fputs(" ]", file);
-            if (error == EOF) return;
-            if (i + 1 < v.size(0)) {
-              error = std::fputs(", ", file);
-              if (error == EOF) return;
-            }
-          }
-          error = std::fputs(" ]", file);
-          if (error == EOF) return;
-        } break;
-        case il::Type::ArrayOfDynamic: {
-          save_array(value.as<il::Array<il::Dynamic>>(), il::io, file, status);
-          status.AbortOnError();
-        } break;
-        default:
-          IL_UNREACHABLE;
+      save_value(value, il::io, file, status);
+      if (!status.Ok()) {
+        status.Rearm();
+        return;
       }
       error = std::fputs("\n", file);
       if (error == EOF) return;
-- 
2.43.0


From d2c214b0a545f4dea3c2157c3f15833e66ccd64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 132/161] fix: errors when writing TOML files are ignored and
 leave the file open

---
 il/io/toml/toml.h | 44 +++++++++++++++++++++++---------------------
 1 file changed, 23 insertions(+), 21 deletions(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index 3642629..f814310 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -249,25 +249,19 @@ inline void save_value(const il::Dynamic &value, il::io_t, std::FILE *file,
 template <typename M>
 inline void save_aux(const M &toml, const il::String &name, il::io_t,
                      std::FILE *file, il::Status &status) {
-  int error = 0;
-  // Add an object that sets the error on destruction
-
   for (il::spot_t i = toml.spotBegin(); i != toml.spotEnd(); i = toml.next(i)) {
     const il::Dynamic &value = toml.value(i);
     const il::Type type = value.type();
     if (type != il::Type::MapArrayStringToDynamic &&
         type != il::Type::MapStringToDynamic) {
-      error = std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
-      if (error == EOF) return;
-      error = std::fputs(" = ", file);
-      if (error == EOF) return;
+      std::fputs(il::tomlKey(toml.key(i)).asCString(), file);
+      std::fputs(" = ", file);
       save_value(value, il::io, file, status);
       if (!status.Ok()) {
         status.Rearm();
         return;
       }
-      error = std::fputs("\n", file);
-      if (error == EOF) return;
+      std::fputs("\n", file);
     }
   }
 
@@ -281,12 +275,9 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
         full_name.Append('.');
       }
       full_name.Append(il::tomlKey(toml.key(i)));
-      error = std::fputs("\n[", file);
-      if (error == EOF) return;
-      error = std::fputs(full_name.asCString(), file);
-      if (error == EOF) return;
-      error = std::fputs("]\n", file);
-      if (error == EOF) return;
+      std::fputs("\n[", file);
+      std::fputs(full_name.asCString(), file);
+      std::fputs("]\n", file);
       save_aux(value.as<il::MapArray<il::String, il::Dynamic>>(), full_name,
                il::io, file, status);
       if (!status.Ok()) {
@@ -299,12 +290,9 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
         full_name.Append('.');
       }
       full_name.Append(il::tomlKey(toml.key(i)));
-      error = std::fputs("\n[", file);
-      if (error == EOF) return;
-      error = std::fputs(full_name.asCString(), file);
-      if (error == EOF) return;
-      error = std::fputs("]\n", file);
-      if (error == EOF) return;
+      std::fputs("\n[", file);
+      std::fputs(full_name.asCString(), file);
+      std::fputs("]\n", file);
       save_aux(value.as<il::Map<il::String, il::Dynamic>>(), full_name,
                il::io, file, status);
       if (!status.Ok()) {
@@ -343,6 +331,13 @@ class SaveHelper<il::Map<il::String, il::Dynamic>> {
     save_aux(toml, root_name, il::io, file, status);
     if (!status.Ok()) {
       status.Rearm();
+      std::fclose(file);
+      return;
+    }
+
+    if (std::ferror(file) != 0) {
+      std::fclose(file);
+      status.SetError(il::Error::FilesystemCanNotWriteToFile);
       return;
     }
 
@@ -382,6 +377,13 @@ class SaveHelperToml<il::MapArray<il::String, il::Dynamic>> {
     save_aux(toml, root_name, il::io, file, status);
     if (!status.Ok()) {
       status.Rearm();
+      std::fclose(file);
+      return;
+    }
+
+    if (std::ferror(file) != 0) {
+      std::fclose(file);
+      status.SetError(il::Error::FilesystemCanNotWriteToFile);
       return;
     }
 
-- 
2.43.0


From b218e917138b126d2e1adfe7786970b6310d294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 133/161] fix: il::save of a Map in a TOML file is not
 implemented

---
 il/io/toml/toml.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/toml/toml.h b/il/io/toml/toml.h
index f814310..ddf2247 100644
--- a/il/io/toml/toml.h
+++ b/il/io/toml/toml.h
@@ -307,7 +307,7 @@ inline void save_aux(const M &toml, const il::String &name, il::io_t,
 }
 
 template <>
-class SaveHelper<il::Map<il::String, il::Dynamic>> {
+class SaveHelperToml<il::Map<il::String, il::Dynamic>> {
  public:
   static void save(const il::Map<il::String, il::Dynamic> &toml,
                    const il::String &filename, il::io_t, il::Status &status) {
-- 
2.43.0


From 2c33d5cc291ea953e3f57c9c3c1f86214bd595dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:07 +0000
Subject: [PATCH 134/161] fix: il::load with a name in a std::string ignores
 the type of the file

---
 il/io/io_base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/io_base.h b/il/io/io_base.h
index 05f8c6f..bbd4192 100644
--- a/il/io/io_base.h
+++ b/il/io/io_base.h
@@ -116,7 +116,7 @@ template <typename T>
 T load(const std::string& filename, il::io_t, il::Status& status) {
   il::String il_filename{il::StringType::Byte, filename.c_str(),
                          il::size(filename.c_str())};
-  return il::LoadHelper<T>::load(il_filename, il::io, status);
+  return il::load<T>(il_filename, il::io, status);
 }
 
 template <typename T>
-- 
2.43.0


From 9475f9258c4b83919622862e32d4a931fac62955 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 135/161] fix: truncated or malformed headers of npy files are
 read out of bounds

---
 il/io/numpy/numpy.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index bfa155d..ce37798 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -60,11 +60,13 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
 
   // Read the header
   //
-  il::Array<char> second_buffer{header_length + 1};
+  il::Array<char> second_buffer{header_length + 1, '\0'};
   StringView header =
       StringView{il::StringType::Byte, second_buffer.Data(), header_length + 1};
-  char* success = fgets(second_buffer.Data(), header_length + 1, fp);
-  if (success == nullptr || !(header[header.size() - 2] == '\n')) {
+  const std::size_t header_read =
+      fread(second_buffer.Data(), sizeof(char), header_length, fp);
+  if (header_length == 0 || header_read != header_length ||
+      !(header[header.size() - 2] == '\n')) {
     status.SetError(il::Error::BinaryFileWrongFormat);
     IL_SET_SOURCE(status);
     return numpy_info;
@@ -87,6 +89,11 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
 
   StringView type_string = header.subview(i4 + 10, header.size());
   const il::int_t i5 = il::search("'", type_string);
+  if (i5 == -1) {
+    status.SetError(il::Error::BinaryFileWrongFormat);
+    IL_SET_SOURCE(status);
+    return numpy_info;
+  }
   numpy_info.type = il::String{il::StringType::Byte, type_string.data(), i5};
 
   // Read the ordering for multidimensional arrays
-- 
2.43.0


From a74f9909c4dbf96c10cf690b27583bf10094e2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 136/161] fix: shapes of npy files that are not lists of
 nonnegative integers

---
 il/io/numpy/numpy.cpp | 45 +++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index ce37798..f82d885 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -18,6 +18,8 @@
 
 #include <il/io/numpy/numpy.h>
 
+#include <limits>
+
 #include <il/String.h>
 #include <il/container/string/algorithmString.h>
 
@@ -118,21 +120,36 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
     return numpy_info;
   }
   StringView shape_string = header.subview(i1 + 1, i2);
-  if (shape_string.back(0) == ',') {
-    numpy_info.shape.Resize(1);
-  } else {
-    const il::int_t n_dim = il::count(',', shape_string) + 1;
-    numpy_info.shape.Resize(n_dim);
-  }
-  il::int_t i = 0;
-  while (true) {
-    numpy_info.shape[i] = std::atoll(shape_string.asCString());
-    if (i == numpy_info.shape.size() - 1) {
-      break;
+  while (!shape_string.isEmpty()) {
+    // One dimension
+    shape_string = il::removeWhitespaceLeft(shape_string);
+    il::int_t k = 0;
+    il::int_t size = 0;
+    bool error = false;
+    while (k < shape_string.size() && shape_string.hasDigit(k)) {
+      const il::int_t digit = shape_string[k] - '0';
+      error = error ||
+              size > (std::numeric_limits<il::int_t>::max() - digit) / 10;
+      if (!error) {
+        size = 10 * size + digit;
+      }
+      ++k;
+    }
+    error = error || (k == 0);
+    shape_string = il::removeWhitespaceLeft(
+        shape_string.subview(k, shape_string.size()));
+    // The separator, which is optional at the end
+    if (!shape_string.isEmpty()) {
+      error = error || (shape_string[0] != ',');
+      shape_string = il::removeWhitespaceLeft(
+          shape_string.subview(1, shape_string.size()));
+    }
+    if (error) {
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return numpy_info;
     }
-    const il::int_t i3 = il::search(",", shape_string);
-    shape_string = shape_string.subview(i3 + 1, shape_string.size());
-    ++i;
+    numpy_info.shape.Append(size);
   }
 
   status.SetOk();
-- 
2.43.0


From b483f9ac4774dccc126dc05b293e8e6cd9a8a886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 137/161] fix: storage order of npy files that is neither True
 nor False

---
 il/io/numpy/numpy.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/il/io/numpy/numpy.cpp b/il/io/numpy/numpy.cpp
index f82d885..f75ca5a 100644
--- a/il/io/numpy/numpy.cpp
+++ b/il/io/numpy/numpy.cpp
@@ -109,6 +109,11 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status) {
 
   StringView fortran_order_string = header.subview(i0 + 16, i0 + 20);
   numpy_info.fortran_order = (fortran_order_string == "True") ? true : false;
+  if (!(fortran_order_string == "True") && !(fortran_order_string == "Fals")) {
+    status.SetError(il::Error::BinaryFileWrongFormat);
+    IL_SET_SOURCE(status);
+    return numpy_info;
+  }
 
   // Read the dimensions
   //
-- 
2.43.0


From 877f72999d765f251e5030ffd689cce202fef19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 138/161] fix: matrices with spare capacity saved in npy files

---
 il/io/numpy/numpy.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index ca34390..c8a232a 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -148,10 +148,14 @@ class SaveHelper<il::Array2D<T>> {
       return;
     }
 
-    std::size_t written =
-        std::fwrite(A.data(), sizeof(T),
-                    static_cast<std::size_t>(A.size(0) * A.size(1)), file);
-    if (static_cast<il::int_t>(written) != A.size(0) * A.size(1)) {
+    // There might be some space in between the columns
+    il::int_t written = 0;
+    for (il::int_t i1 = 0; i1 < A.size(1); ++i1) {
+      written += static_cast<il::int_t>(
+          std::fwrite(A.data() + i1 * A.stride(1), sizeof(T),
+                      static_cast<std::size_t>(A.size(0)), file));
+    }
+    if (written != A.size(0) * A.size(1)) {
       status.SetError(il::Error::FilesystemCanNotWriteToFile);
       IL_SET_SOURCE(status);
       return;
-- 
2.43.0


From ac85b7882dc929aa378d5cd0a2d30cb371ac09de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 139/161] fix: npy files are left open after an error

---
 il/io/numpy/numpy.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index c8a232a..724e46e 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -86,10 +86,7 @@ class SaveHelper<il::Array<T>> {
     il::Status info_status{};
     il::saveNumpyInfo(numpy_info, il::io, file, info_status);
     if (!info_status.Ok()) {
-      const int error = std::fclose(file);
-      if (error != 0) {
-        il::abort();
-      }
+      std::fclose(file);
       status = std::move(info_status);
       return;
     }
@@ -97,6 +94,7 @@ class SaveHelper<il::Array<T>> {
     std::size_t written = std::fwrite(v.data(), sizeof(T),
                                       static_cast<std::size_t>(v.size()), file);
     if (static_cast<il::int_t>(written) != v.size()) {
+      std::fclose(file);
       status.SetError(il::Error::FilesystemCanNotWriteToFile);
       IL_SET_SOURCE(status);
       return;
@@ -140,10 +138,7 @@ class SaveHelper<il::Array2D<T>> {
     il::Status info_status{};
     il::saveNumpyInfo(numpy_info, il::io, file, info_status);
     if (!info_status.Ok()) {
-      const int error = std::fclose(file);
-      if (error != 0) {
-        il::abort();
-      }
+      std::fclose(file);
       status = std::move(info_status);
       return;
     }
@@ -156,6 +151,7 @@ class SaveHelper<il::Array2D<T>> {
                       static_cast<std::size_t>(A.size(0)), file));
     }
     if (written != A.size(0) * A.size(1)) {
+      std::fclose(file);
       status.SetError(il::Error::FilesystemCanNotWriteToFile);
       IL_SET_SOURCE(status);
       return;
@@ -195,15 +191,18 @@ class LoadHelper<il::Array<T>> {
     il::Status info_status{};
     il::NumpyInfo numpy_info = il::getNumpyInfo(il::io, file, info_status);
     if (!info_status.Ok()) {
+      std::fclose(file);
       status = std::move(info_status);
       return v;
     }
 
     if (!(numpy_info.type.isEqual(il::numpyType<T>::value))) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongType);
       IL_SET_SOURCE(status);
       return v;
     } else if (numpy_info.shape.size() != 1) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongRank);
       IL_SET_SOURCE(status);
       return v;
@@ -212,6 +211,7 @@ class LoadHelper<il::Array<T>> {
     v.Resize(numpy_info.shape[0]);
     const std::size_t read = fread(v.Data(), sizeof(T), v.size(), file);
     if (static_cast<il::int_t>(read) != v.size()) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongFormat);
       IL_SET_SOURCE(status);
       return v;
@@ -251,19 +251,23 @@ class LoadHelper<il::Array2D<T>> {
     il::Status info_status{};
     il::NumpyInfo numpy_info = il::getNumpyInfo(il::io, file, info_status);
     if (!info_status.Ok()) {
+      std::fclose(file);
       status = std::move(info_status);
       return v;
     }
 
     if (!(numpy_info.type.isEqual(il::numpyType<T>::value))) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongType);
       IL_SET_SOURCE(status);
       return v;
     } else if (numpy_info.shape.size() != 2) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongRank);
       IL_SET_SOURCE(status);
       return v;
     } else if (!numpy_info.fortran_order) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongEndianness);
       IL_SET_SOURCE(status);
       return v;
@@ -273,6 +277,7 @@ class LoadHelper<il::Array2D<T>> {
     const il::int_t n = v.size(0) * v.size(1);
     const std::size_t read = fread(v.Data(), sizeof(T), n, file);
     if (static_cast<il::int_t>(read) != n) {
+      std::fclose(file);
       status.SetError(il::Error::BinaryFileWrongFormat);
       IL_SET_SOURCE(status);
       return v;
-- 
2.43.0


From a181d7939fe1888d12f76fdc827f4453ccd5af52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 140/161] fix: npy files that can only be read are not found

---
 il/io/numpy/numpy.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 724e46e..336347a 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -177,10 +177,10 @@ class LoadHelper<il::Array<T>> {
     il::Array<T> v{};
 
 #ifdef IL_UNIX
-    std::FILE* file = std::fopen(filename.asCString(), "r+b");
+    std::FILE* file = std::fopen(filename.asCString(), "rb");
 #else
     il::UTF16String filename_utf16 = il::toUtf16(filename);
-    std::FILE* file = _wfopen(filename_utf16.asWString(), L"r+b");
+    std::FILE* file = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
     if (!file) {
       status.SetError(il::Error::FilesystemFileNotFound);
@@ -237,10 +237,10 @@ class LoadHelper<il::Array2D<T>> {
     il::Array2D<T> v{};
 
 #ifdef IL_UNIX
-    std::FILE* file = std::fopen(filename.asCString(), "r+b");
+    std::FILE* file = std::fopen(filename.asCString(), "rb");
 #else
     il::UTF16String filename_utf16 = il::toUtf16(filename);
-    std::FILE* file = _wfopen(filename_utf16.asWString(), L"r+b");
+    std::FILE* file = _wfopen(filename_utf16.asWString(), L"rb");
 #endif
     if (!file) {
       status.SetError(il::Error::FilesystemFileNotFound);
-- 
2.43.0


From 4abb604258588620b305e6178f9f09fff44ad8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 141/161] fix: npy files that announce more elements than they
 contain abort

---
 il/io/numpy/numpy.h | 42 ++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 336347a..862b967 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -60,6 +60,34 @@ NumpyInfo getNumpyInfo(il::io_t, std::FILE* fp, il::Status& status);
 void saveNumpyInfo(const NumpyInfo& numpy_info, il::io_t, std::FILE* fp,
                    il::Status& status);
 
+// Check that the rest of the file, from the current position, is long enough
+// for all the elements of the array
+inline bool hasNumpyElements(const NumpyInfo& numpy_info,
+                             std::size_t element_size, il::io_t,
+                             std::FILE* fp) {
+  const long position = std::ftell(fp);
+  if (position < 0 || std::fseek(fp, 0, SEEK_END) != 0) {
+    return false;
+  }
+  const long end = std::ftell(fp);
+  if (end < position || std::fseek(fp, position, SEEK_SET) != 0) {
+    return false;
+  }
+  il::int_t n = (end - position) / static_cast<il::int_t>(element_size);
+  for (il::int_t i = 0; i < numpy_info.shape.size(); ++i) {
+    if (numpy_info.shape[i] == 0) {
+      return true;
+    }
+  }
+  for (il::int_t i = 0; i < numpy_info.shape.size(); ++i) {
+    if (numpy_info.shape[i] > n) {
+      return false;
+    }
+    n /= numpy_info.shape[i];
+  }
+  return true;
+}
+
 template <typename T>
 class SaveHelper<il::Array<T>> {
  public:
@@ -208,6 +236,13 @@ class LoadHelper<il::Array<T>> {
       return v;
     }
 
+    if (!il::hasNumpyElements(numpy_info, sizeof(T), il::io, file)) {
+      std::fclose(file);
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return v;
+    }
+
     v.Resize(numpy_info.shape[0]);
     const std::size_t read = fread(v.Data(), sizeof(T), v.size(), file);
     if (static_cast<il::int_t>(read) != v.size()) {
@@ -273,6 +308,13 @@ class LoadHelper<il::Array2D<T>> {
       return v;
     }
 
+    if (!il::hasNumpyElements(numpy_info, sizeof(T), il::io, file)) {
+      std::fclose(file);
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return v;
+    }
+
     v.Resize(numpy_info.shape[0], numpy_info.shape[1]);
     const il::int_t n = v.size(0) * v.size(1);
     const std::size_t read = fread(v.Data(), sizeof(T), n, file);
-- 
2.43.0


From 56eff4059924d6dd8230a4451efef59d83b999ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 142/161] fix: int_t has no numpy type

---
 il/io/numpy/numpy.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 862b967..77d65a8 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -45,6 +45,16 @@ struct numpyType<int> {
   static constexpr const char* value = "i4";
 };
 
+template <>
+struct numpyType<long> {
+  static constexpr const char* value = (sizeof(long) == 8) ? "i8" : "i4";
+};
+
+template <>
+struct numpyType<long long> {
+  static constexpr const char* value = "i8";
+};
+
 template <>
 struct numpyType<double> {
   static constexpr const char* value = "f8";
-- 
2.43.0


From 423d6af178bf4a563273b11137864f58e1086391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 143/161] fix: loading a sparse matrix always aborts

---
 il/io/numpy/numpy.h | 42 +++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 77d65a8..fdd6421 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -356,23 +356,47 @@ class LoadHelper<il::SparseMatrixCSR<il::int_t, double>> {
     il::Status local_status{};
     il::String filename_row = filename;
     filename_row.Append(".row");
-    auto row =
-        il::load<il::Array<il::int_t>>(filename_row, il::io, local_status);
-    local_status.AbortOnError();
+    auto row = il::LoadHelper<il::Array<il::int_t>>::load(filename_row, il::io,
+                                                          local_status);
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
     il::String filename_column = filename;
     filename_column.Append(".column");
-    auto column =
-        il::load<il::Array<il::int_t>>(filename_column, il::io, local_status);
-    local_status.AbortOnError();
+    auto column = il::LoadHelper<il::Array<il::int_t>>::load(
+        filename_column, il::io, local_status);
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
     il::String filename_element = filename;
     filename_element.Append(".element");
-    auto element =
-        il::load<il::Array<double>>(filename_element, il::io, local_status);
-    local_status.AbortOnError();
+    auto element = il::LoadHelper<il::Array<double>>::load(
+        filename_element, il::io, local_status);
+    if (!local_status.Ok()) {
+      status = std::move(local_status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
 
+    // The rows have to follow each other and the columns to be in the matrix
     const il::int_t n = row.size() - 1;
+    bool valid = n >= 0 && row[0] == 0 && row[n] == column.size() &&
+                 column.size() == element.size();
+    for (il::int_t i = 0; valid && i < n; ++i) {
+      valid = row[i] <= row[i + 1];
+    }
+    for (il::int_t k = 0; valid && k < column.size(); ++k) {
+      valid = column[k] >= 0 && column[k] < n;
+    }
+    if (!valid) {
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return il::SparseMatrixCSR<il::int_t, double>{};
+    }
+
     status.SetOk();
     return il::SparseMatrixCSR<il::int_t, double>{
         n, n, std::move(column), std::move(row), std::move(element)};
-- 
2.43.0


From 33307792eaebd452ea0846839e259eb86dbec65d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:48 +0000
Subject: [PATCH 144/161] fix: npy files with a null size and a huge one abort

---
 il/io/numpy/numpy.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index fdd6421..0b351e0 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -19,6 +19,7 @@
 #ifndef IL_NUMPY_H
 #define IL_NUMPY_H
 
+#include <limits>
 #include <string>
 
 #include <il/Array.h>
@@ -84,11 +85,17 @@ inline bool hasNumpyElements(const NumpyInfo& numpy_info,
     return false;
   }
   il::int_t n = (end - position) / static_cast<il::int_t>(element_size);
+  bool is_empty = false;
   for (il::int_t i = 0; i < numpy_info.shape.size(); ++i) {
-    if (numpy_info.shape[i] == 0) {
-      return true;
+    is_empty = is_empty || (numpy_info.shape[i] == 0);
+    if (numpy_info.shape[i] > std::numeric_limits<il::int_t>::max() /
+                                  static_cast<il::int_t>(element_size)) {
+      return false;
     }
   }
+  if (is_empty) {
+    return true;
+  }
   for (il::int_t i = 0; i < numpy_info.shape.size(); ++i) {
     if (numpy_info.shape[i] > n) {
       return false;
-- 
2.43.0


From 515c265f69a49ded8491b20ec6ec6aac4df0a78e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 145/161] fix: il/File.h does not compile

---
 il/io/File.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/il/io/File.h b/il/io/File.h
index 9e5db6e..f14f320 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -20,10 +20,12 @@
 #define IL_FILE_H
 
 #include <cstdio>
+#include <cstring>
 
 #include <il/Array.h>
 #include <il/Status.h>
 #include <il/String.h>
+#include <il/math.h>
 #ifdef IL_WINDOWS
 #include <il/UTF16String.h>
 #include <il/unicode.h>
@@ -168,7 +170,7 @@ inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
       // to be saved because if fread fails, its position is undefined.
       const long previous_position = std::ftell(file_);
       const std::size_t full_buffer_read = std::fread(
-          buffer_.data(), static_cast<std::size_t>(buffer_.size()), 1, file_);
+          buffer_.Data(), static_cast<std::size_t>(buffer_.size()), 1, file_);
       if (full_buffer_read == 1) {
         std::memcpy(static_cast<unsigned char*>(p) + nb_bytes_from_buffer,
                     buffer_.data(), static_cast<std::size_t>(nb_bytes_to_read));
-- 
2.43.0


From 7f37781f1369b798e2dc42382a2f7c0d721cba6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 146/161] fix: File::Read fails on everything that does not fit
 in its buffer

---
 il/io/File.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/il/io/File.h b/il/io/File.h
index f14f320..f1ef6ff 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -158,10 +158,11 @@ inline void File::Read(il::int_t nb_objects, std::size_t nb_bytes, il::io_t,
       // element of n bytes is faster than reading n elements of 1 byte. As a
       // consequence, I we try to do that first and if we fail because we are at
       // the end of the file, we try to read n elements of 1 byte.
-      const std::size_t nb_bytes_read =
-          std::fread(p, nb_bytes_to_read, 1, file_);
-      nb_bytes_read_ += nb_bytes_read;
-      if (nb_bytes_read != nb_bytes_to_read) {
+      const std::size_t chunk_read =
+          std::fread(static_cast<unsigned char*>(p) + nb_bytes_from_buffer,
+                     static_cast<std::size_t>(nb_bytes_to_read), 1, file_);
+      nb_bytes_read_ += nb_bytes_to_read;
+      if (chunk_read != 1) {
         status.SetError(il::Error::FilesystemFileNotLongEnough);
         return;
       }
-- 
2.43.0


From 019b8cec1706c02a18c1a4d8af06578af10ec9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 147/161] fix: destroying a File that could not be opened reads
 uninitialised memory

---
 il/io/File.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/il/io/File.h b/il/io/File.h
index f1ef6ff..c4aa8f0 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -63,7 +63,13 @@ class File {
 
 inline File::File(const il::String& filename, il::FileMode mode,
                   il::int_t buffer_size, il::io_t, il::Status& status)
-    : buffer_{buffer_size} {
+    : file_{nullptr},
+      mode_{mode},
+      buffer_{buffer_size},
+      next_{0},
+      end_buffer_{0},
+      nb_bytes_read_{0},
+      opened_{false} {
 #ifdef IL_UNIX
   il::String s_mode{};
   switch (mode) {
@@ -102,10 +108,6 @@ inline File::File(const il::String& filename, il::FileMode mode,
   }
 #endif
 
-  mode_ = mode;
-  next_ = 0;
-  end_buffer_ = 0;
-  nb_bytes_read_ = 0;
   opened_ = true;
   status.SetOk();
 }
-- 
2.43.0


From 7295d37d479e0a76d85a9b0e45c26ccfecd9e4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 148/161] fix: a File is still opened when closing it fails

---
 il/io/File.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/il/io/File.h b/il/io/File.h
index c4aa8f0..dce679a 100644
--- a/il/io/File.h
+++ b/il/io/File.h
@@ -245,12 +245,12 @@ inline void File::Close(il::io_t, il::Status& status) {
   IL_EXPECT_MEDIUM(opened_);
 
   const int error = std::fclose(file_);
+  opened_ = false;
   if (error != 0) {
     status.SetError(il::Error::FilesystemCanNotCloseFile);
     return;
   }
 
-  opened_ = false;
   status.SetOk();
 }
 
-- 
2.43.0


From cda197ba7f1a3e02e2c7ffc04d26efe831a00e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 149/161] fix: what follows a string in a filepack file is lost

---
 il/io/filepack/filepack.h | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index e5ea722..20cc675 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -121,8 +121,7 @@ inline void auxLoad(il::int_t n, il::io_t,
         il::Array<char> raw_value{size + 1};
         std::fread(raw_value.Data(), sizeof(char), size + 1, file);
         k += size + 1;
-        il::String value{il::StringType::Byte, raw_value.data(),
-                         raw_value.size()};
+        il::String value{il::StringType::Byte, raw_value.data(), size};
         config.Set(std::move(string), il::Dynamic{std::move(value)});
       } break;
       case il::Type::ArrayOfDouble: {
@@ -284,9 +283,9 @@ inline void auxLoad(il::int_t n, il::io_t,
         il::int_t size = 0;
         std::fread(&size, sizeof(il::int_t), 1, file);
         k += sizeof(il::int_t);
-        il::Array<char> raw_value{size};
-        std::fread(raw_value.Data(), sizeof(char), size, file);
-        k += size;
+        il::Array<char> raw_value{size + 1};
+        std::fread(raw_value.Data(), sizeof(char), size + 1, file);
+        k += size + 1;
         il::String value{il::StringType::Byte, raw_value.data(), size};
         config.Set(std::move(string), il::Dynamic{std::move(value)});
       } break;
-- 
2.43.0


From 431c9999be86da06b026b2169ad422023b2a5bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 150/161] fix: keys of a Map in a filepack file lose their last
 character

---
 il/io/filepack/filepack.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index 20cc675..0b5f90f 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -82,10 +82,10 @@ inline void auxLoad(il::int_t n, il::io_t,
     if (size_string == 0) {
       break;
     }
-    il::Array<char> raw_string{size_string - 1};
-    std::fread(raw_string.Data(), sizeof(char), size_string - 1, file);
-    il::String string{il::StringType::Byte, raw_string.data(), size_string - 1};
-    k += string.size() + 1;
+    il::Array<char> raw_string{size_string};
+    std::fread(raw_string.Data(), sizeof(char), size_string, file);
+    il::String string{il::StringType::Byte, raw_string.data(), size_string};
+    k += string.size();
 
     il::Type type;
     fread(&type, sizeof(il::Type), 1, file);
-- 
2.43.0


From bc4fe451cc34cb4f280e9814a687c47e52e91433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 151/161] fix: matrices of bytes in filepack files are read out
 of bounds

---
 il/io/filepack/filepack.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index 0b5f90f..0899c47 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -140,7 +140,7 @@ inline void auxLoad(il::int_t n, il::io_t,
         std::fread(&size1, sizeof(il::int_t), 1, file);
         k += 2 * sizeof(il::int_t);
         il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(double), size0 * size1, file);
+        std::fread(A.Data(), sizeof(unsigned char), size0 * size1, file);
         k += sizeof(unsigned char) * size0 * size1;
         config.Set(std::move(string), il::Dynamic{std::move(A)});
       } break;
@@ -305,7 +305,7 @@ inline void auxLoad(il::int_t n, il::io_t,
         std::fread(&size1, sizeof(il::int_t), 1, file);
         k += 2 * sizeof(il::int_t);
         il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(double), size0 * size1, file);
+        std::fread(A.Data(), sizeof(unsigned char), size0 * size1, file);
         k += sizeof(unsigned char) * size0 * size1;
         config.Set(std::move(string), il::Dynamic{std::move(A)});
       } break;
@@ -555,8 +555,8 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
         const il::int_t size1 = A.size(1);
         std::fwrite(&size0, sizeof(il::int_t), 1, file);
         std::fwrite(&size1, sizeof(il::int_t), 1, file);
-        for (int j = 0; j < size1; ++j) {
-          std::fwrite(A.data() + j * A.capacity(0), sizeof(double), size0,
+        for (il::int_t j = 0; j < size1; ++j) {
+          std::fwrite(A.data() + j * A.stride(1), sizeof(unsigned char), size0,
                       file);
         }
         n += 2 * sizeof(il::int_t) + sizeof(unsigned char) * size0 * size1;
-- 
2.43.0


From 3d1a1d54d898b420e4103019ba5b570e1ab78771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:03 +0000
Subject: [PATCH 152/161] fix: filepack files are loaded and saved with
 messages on the standard output

---
 il/io/filepack/filepack.h | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index 0899c47..d626886 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -337,7 +337,6 @@ inline void auxLoad(il::int_t n, il::io_t,
 
             const std::size_t error =
                 fread(&(type[i]), sizeof(il::Type), 1, file);
-            //            std::cout << "Here" << std::endl;
           }
           const il::int_t n = readVarint(il::io, k, file);
           //          const std::size_t error = std::fread(&n,
@@ -383,7 +382,6 @@ inline void auxLoad(il::int_t n, il::io_t,
               }
             }
           }
-          std::cout << "End" << std::endl;
         } else {
           il::int_t n_map = 0;
           const il::int_t n = readVarint(il::io, n_map, file);
@@ -655,7 +653,6 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
           //        std::fwrite(&n_map, sizeof(il::int_t), 1, file);
           //        std::fseek(file, n_map, SEEK_CUR);
         }
-        std::cout << "End write" << std::endl;
       } break;
       default:
         IL_UNREACHABLE;
-- 
2.43.0


From d46a6ad714909a3036444678fdbc64311fffbf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 153/161] fix: nested maps, truncated and malformed filepack
 files are loaded out of bounds

---
 il/io/filepack/filepack.h | 543 ++++++++++++++++----------------------
 1 file changed, 225 insertions(+), 318 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index d626886..b6e1b84 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -20,8 +20,10 @@
 #define IL_FILEPACK_H
 
 #include <cstdio>
+#include <limits>
 
 #include <il/Array.h>
+#include <il/Array2D.h>
 #include <il/Map.h>
 #include <il/MapArray.h>
 #include <il/String.h>
@@ -35,7 +37,40 @@
 
 namespace il {
 
-inline il::int_t readVarint(il::io_t, il::int_t& k, std::FILE* file) {
+// Read n objects. Returns false when the file is too short.
+inline bool readObjects(il::int_t n, std::size_t size, il::io_t, void* p,
+                        il::int_t& k, std::FILE* file) {
+  const std::size_t read =
+      std::fread(p, size, static_cast<std::size_t>(n), file);
+  k += static_cast<il::int_t>(read * size);
+  return static_cast<il::int_t>(read) == n;
+}
+
+// Check that the rest of the file can contain n0 x n1 objects. It should be
+// checked before allocating memory for them.
+inline bool canContain(il::int_t n0, il::int_t n1, std::size_t size, il::io_t,
+                       std::FILE* file) {
+  const il::int_t max = std::numeric_limits<il::int_t>::max() /
+                        static_cast<il::int_t>(size);
+  if (n0 < 0 || n0 > max || n1 < 0 || n1 > max) {
+    return false;
+  }
+  if (n0 == 0 || n1 == 0) {
+    return true;
+  }
+  const long position = std::ftell(file);
+  if (position < 0 || std::fseek(file, 0, SEEK_END) != 0) {
+    return false;
+  }
+  const long end = std::ftell(file);
+  if (end < position || std::fseek(file, position, SEEK_SET) != 0) {
+    return false;
+  }
+  return n0 <= (end - position) / static_cast<il::int_t>(size) / n1;
+}
+
+inline bool readVarint(il::io_t, il::int_t& value, il::int_t& k,
+                       std::FILE* file) {
   std::size_t ans = 0;
   std::size_t multiplier = 1;
   const std::size_t max_byte = 1 << 7;
@@ -43,13 +78,110 @@ inline il::int_t readVarint(il::io_t, il::int_t& k, std::FILE* file) {
   const unsigned char continuation_byte = 0x80;
   unsigned char byte;
   do {
-    std::fread(&byte, sizeof(unsigned char), 1, file);
-    k += 1;
+    if (!il::readObjects(1, sizeof(unsigned char), il::io, &byte, k, file)) {
+      return false;
+    }
     ans += multiplier * (byte & continuation_mask);
     multiplier *= max_byte;
   } while ((byte & continuation_byte) == continuation_byte);
 
-  return static_cast<il::int_t>(ans);
+  value = static_cast<il::int_t>(ans);
+  return true;
+}
+
+inline bool readString(il::int_t size, il::io_t, il::String& string,
+                       il::int_t& k, std::FILE* file) {
+  if (!il::canContain(size, 1, sizeof(char), il::io, file)) {
+    return false;
+  }
+  il::Array<char> raw_string{size};
+  if (!il::readObjects(size, sizeof(char), il::io, raw_string.Data(), k,
+                       file)) {
+    return false;
+  }
+  string = il::String{il::StringType::Byte, raw_string.data(), size};
+  return true;
+}
+
+template <typename T>
+bool readArray2D(il::io_t, il::Dynamic& value, il::int_t& k, std::FILE* file) {
+  il::int_t size0 = 0;
+  il::int_t size1 = 0;
+  if (!il::readObjects(1, sizeof(il::int_t), il::io, &size0, k, file) ||
+      !il::readObjects(1, sizeof(il::int_t), il::io, &size1, k, file) ||
+      !il::canContain(size0, size1, sizeof(T), il::io, file)) {
+    return false;
+  }
+  il::Array2D<T> A{size0, size1};
+  if (!il::readObjects(size0 * size1, sizeof(T), il::io, A.Data(), k, file)) {
+    return false;
+  }
+  value = il::Dynamic{std::move(A)};
+  return true;
+}
+
+// Read a map of arrays of the same size that is saved as an array of
+// structures
+template <typename M>
+bool auxLoadArrayOfStruct(il::io_t, M& config, il::int_t& k, std::FILE* file) {
+  il::int_t nb_types = 0;
+  if (!il::readVarint(il::io, nb_types, k, file) ||
+      !il::canContain(nb_types, 2, sizeof(char), il::io, file)) {
+    return false;
+  }
+  il::Array<il::String> key{nb_types};
+  il::Array<il::Type> type{nb_types};
+  il::int_t struct_size = 0;
+  for (il::int_t i = 0; i < nb_types; ++i) {
+    il::int_t key_size = 0;
+    if (!il::readVarint(il::io, key_size, k, file) ||
+        !il::readString(key_size, il::io, key[i], k, file) ||
+        !il::readObjects(1, sizeof(il::Type), il::io, &type[i], k, file)) {
+      return false;
+    }
+    switch (type[i]) {
+      case il::Type::Double:
+        struct_size += sizeof(double);
+        break;
+      case il::Type::Integer:
+        struct_size += sizeof(int);
+        break;
+      default:
+        return false;
+    }
+  }
+  il::int_t n = 0;
+  if (!il::readVarint(il::io, n, k, file) ||
+      (nb_types == 0 && n != 0) ||
+      !il::canContain(n, struct_size, sizeof(char), il::io, file)) {
+    return false;
+  }
+
+  il::Array<il::Dynamic> array{nb_types};
+  for (il::int_t i = 0; i < nb_types; ++i) {
+    if (type[i] == il::Type::Double) {
+      array[i] = il::Dynamic{il::Array<double>{n}};
+    } else {
+      array[i] = il::Dynamic{il::Array<int>{n}};
+    }
+  }
+  for (il::int_t j = 0; j < n; ++j) {
+    for (il::int_t i = 0; i < nb_types; ++i) {
+      const bool ok =
+          (type[i] == il::Type::Double)
+              ? il::readObjects(1, sizeof(double), il::io,
+                                &array[i].As<il::Array<double>>()[j], k, file)
+              : il::readObjects(1, sizeof(int), il::io,
+                                &array[i].As<il::Array<int>>()[j], k, file);
+      if (!ok) {
+        return false;
+      }
+    }
+  }
+  for (il::int_t i = 0; i < nb_types; ++i) {
+    config.Set(std::move(key[i]), std::move(array[i]));
+  }
+  return true;
 }
 
 inline void writeVarint(il::int_t n, il::io_t, il::int_t& k, std::FILE* file) {
@@ -72,352 +204,113 @@ inline void writeVarint(il::int_t n, il::io_t, il::int_t& k, std::FILE* file) {
   }
 }
 
-inline void auxLoad(il::int_t n, il::io_t,
-                    il::Map<il::String, il::Dynamic>& config, std::FILE* file) {
-  IL_UNUSED(n);
-  il::int_t k = 0;
-
+template <typename M>
+bool auxLoad(il::io_t, M& config, il::int_t& k, std::FILE* file) {
   while (true) {
-    il::int_t size_string = readVarint(il::io, k, file);
+    il::int_t size_string = 0;
+    if (!il::readVarint(il::io, size_string, k, file)) {
+      return false;
+    }
     if (size_string == 0) {
-      break;
+      return true;
     }
-    il::Array<char> raw_string{size_string};
-    std::fread(raw_string.Data(), sizeof(char), size_string, file);
-    il::String string{il::StringType::Byte, raw_string.data(), size_string};
-    k += string.size();
-
+    il::String string{};
     il::Type type;
-    fread(&type, sizeof(il::Type), 1, file);
-    k += sizeof(il::Type);
+    if (!il::readString(size_string, il::io, string, k, file) ||
+        !il::readObjects(1, sizeof(il::Type), il::io, &type, k, file)) {
+      return false;
+    }
 
+    il::Dynamic value{};
     switch (type) {
       case il::Type::Bool: {
-        bool value = false;
-        std::fread(&value, sizeof(bool), 1, file);
-        k += sizeof(bool);
-        config.Set(std::move(string), il::Dynamic{value});
+        unsigned char byte = 0;
+        if (!il::readObjects(1, sizeof(bool), il::io, &byte, k, file) ||
+            byte > 1) {
+          return false;
+        }
+        value = il::Dynamic{byte == 1};
       } break;
       case il::Type::Integer: {
-        const il::int_t value = readVarint(il::io, k, file);
-        config.Set(std::move(string), il::Dynamic{value});
+        il::int_t x = 0;
+        if (!il::readVarint(il::io, x, k, file)) {
+          return false;
+        }
+        value = il::Dynamic{x};
       } break;
       case il::Type::Single: {
-        float value = 0.0f;
-        std::fread(&value, sizeof(float), 1, file);
-        k += sizeof(float);
-        config.Set(std::move(string), il::Dynamic{value});
+        float x = 0.0f;
+        if (!il::readObjects(1, sizeof(float), il::io, &x, k, file)) {
+          return false;
+        }
+        value = il::Dynamic{x};
       } break;
       case il::Type::Double: {
-        double value = 0.0;
-        std::fread(&value, sizeof(double), 1, file);
-        k += sizeof(double);
-        config.Set(std::move(string), il::Dynamic{value});
+        double x = 0.0;
+        if (!il::readObjects(1, sizeof(double), il::io, &x, k, file)) {
+          return false;
+        }
+        value = il::Dynamic{x};
       } break;
       case il::Type::UnicodeString: {
         il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<char> raw_value{size + 1};
-        std::fread(raw_value.Data(), sizeof(char), size + 1, file);
-        k += size + 1;
-        il::String value{il::StringType::Byte, raw_value.data(), size};
-        config.Set(std::move(string), il::Dynamic{std::move(value)});
+        il::String x{};
+        char end = '\0';
+        if (!il::readObjects(1, sizeof(il::int_t), il::io, &size, k, file) ||
+            !il::readString(size, il::io, x, k, file) ||
+            !il::readObjects(1, sizeof(char), il::io, &end, k, file) ||
+            end != '\0') {
+          return false;
+        }
+        value = il::Dynamic{std::move(x)};
       } break;
       case il::Type::ArrayOfDouble: {
         il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
+        if (!il::readObjects(1, sizeof(il::int_t), il::io, &size, k, file) ||
+            !il::canContain(size, 1, sizeof(double), il::io, file)) {
+          return false;
+        }
         il::Array<double> v{size};
-        std::fread(v.Data(), sizeof(double), size, file);
-        k += sizeof(double) * size;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
+        if (!il::readObjects(size, sizeof(double), il::io, v.Data(), k,
+                             file)) {
+          return false;
+        }
+        value = il::Dynamic{std::move(v)};
       } break;
       case il::Type::Array2DOfUInt8: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(unsigned char), size0 * size1, file);
-        k += sizeof(unsigned char) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(A)});
+        if (!il::readArray2D<unsigned char>(il::io, value, k, file)) {
+          return false;
+        }
       } break;
       case il::Type::Array2DOfDouble: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<double> v{size0, size1};
-        std::fread(v.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(double) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
+        if (!il::readArray2D<double>(il::io, value, k, file)) {
+          return false;
+        }
       } break;
       case il::Type::ArrayOfStruct: {
-        il::int_t nb_types;
-        il::readVarint(il::io, nb_types, file);
-
-        il::Array<il::String> key{nb_types};
-        il::Array<il::Type> type{nb_types};
-        for (il::int_t i = 0; i < nb_types; ++i) {
-          il::int_t key_size;
-          il::readVarint(il::io, key_size, file);
-
-          il::Array<char> raw_string{key_size};
-          std::fread(raw_string.Data(), sizeof(char), key_size, file);
-          key[i] =
-              il::String{il::StringType::Byte, raw_string.data(), key_size};
-
-          fread(&(type[i]), sizeof(il::Type), 1, file);
-        }
-        il::int_t n;
-        std::fread(&n, sizeof(il::int_t), 1, file);
-
-        il::Array<il::Dynamic> array{nb_types};
-        for (il::int_t i = 0; i < nb_types; ++i) {
-          switch (type[i]) {
-            case il::Type::Double: {
-              array[i] = il::Dynamic{il::Type::ArrayOfDouble};
-              il::Array<double>& ref = array[i].As<il::Array<double>>();
-              ref.Resize(n);
-            } break;
-            case il::Type::Integer: {
-              array[i] = il::Dynamic{il::Type::ArrayOfInt32};
-              il::Array<int>& ref = array[i].As<il::Array<int>>();
-              ref.Resize(n);
-            } break;
-            default:
-              IL_UNREACHABLE;
-          }
+        M inner{};
+        if (!il::auxLoadArrayOfStruct(il::io, inner, k, file)) {
+          return false;
         }
-
-        for (il::int_t j = 0; j < n; ++j) {
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            switch (type[i]) {
-              case il::Type::Double: {
-                il::Array<double>& ref = array[i].As<il::Array<double>>();
-                double value = 0.0;
-                std::fread(&value, sizeof(double), 1, file);
-                ref[j] = value;
-              } break;
-              case il::Type::Integer: {
-                il::Array<int>& ref = array[i].As<il::Array<int>>();
-                int value = 0;
-                std::fread(&value, sizeof(int), 1, file);
-                ref[j] = value;
-              } break;
-              default:
-                IL_UNREACHABLE;
-            }
-          }
-        }
-      }
+        value = il::Dynamic{std::move(inner)};
+      } break;
       case il::Type::MapArrayStringToDynamic:
       case il::Type::MapStringToDynamic: {
-        il::int_t n_map = 0;
-        const il::int_t n = readVarint(il::io, n_map, file);
-        il::int_t size = 0;
-        il::spot_t i = config.search(string);
-        config.Set(std::move(string),
-                   il::Dynamic{il::Map<il::String, il::Dynamic>{n}}, il::io, i);
-        if (!config.found(i)) {
-          // Hello
+        il::int_t n = 0;
+        if (!il::readVarint(il::io, n, k, file) ||
+            !il::canContain(n, 2, sizeof(char), il::io, file)) {
+          return false;
         }
-        il::Map<il::String, il::Dynamic>& config_inner =
-            config.Value(i).As<il::Map<il::String, il::Dynamic>>();
-        auxLoad(size, il::io, config_inner, file);
-        k += size;
-      } break;
-      default:
-        IL_UNREACHABLE;
-    }
-  }
-}
-
-inline void auxLoad(il::int_t n, il::io_t,
-                    il::MapArray<il::String, il::Dynamic>& config,
-                    std::FILE* file) {
-  IL_UNUSED(n);
-  il::int_t k = 0;
-
-  while (true) {
-    il::int_t size_string = readVarint(il::io, k, file);
-    if (size_string == 0) {
-      break;
-    }
-    il::Array<char> raw_string{size_string};
-    std::fread(raw_string.Data(), sizeof(char), size_string, file);
-    il::String string{il::StringType::Byte, raw_string.data(), size_string};
-    k += string.size();
-
-    il::Type type;
-    fread(&type, sizeof(il::Type), 1, file);
-    k += sizeof(il::Type);
-
-    switch (type) {
-      case il::Type::Bool: {
-        bool value = false;
-        std::fread(&value, sizeof(bool), 1, file);
-        k += sizeof(bool);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Integer: {
-        const il::int_t value = readVarint(il::io, k, file);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Single: {
-        float value = 0.0f;
-        std::fread(&value, sizeof(float), 1, file);
-        k += sizeof(float);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::Double: {
-        double value = 0.0;
-        std::fread(&value, sizeof(double), 1, file);
-        k += sizeof(double);
-        config.Set(std::move(string), il::Dynamic{value});
-      } break;
-      case il::Type::UnicodeString: {
-        il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<char> raw_value{size + 1};
-        std::fread(raw_value.Data(), sizeof(char), size + 1, file);
-        k += size + 1;
-        il::String value{il::StringType::Byte, raw_value.data(), size};
-        config.Set(std::move(string), il::Dynamic{std::move(value)});
-      } break;
-      case il::Type::ArrayOfDouble: {
-        il::int_t size = 0;
-        std::fread(&size, sizeof(il::int_t), 1, file);
-        k += sizeof(il::int_t);
-        il::Array<double> v{size};
-        std::fread(v.Data(), sizeof(double), size, file);
-        k += sizeof(double) * size;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
-      } break;
-      case il::Type::Array2DOfUInt8: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<unsigned char> A{size0, size1};
-        std::fread(A.Data(), sizeof(unsigned char), size0 * size1, file);
-        k += sizeof(unsigned char) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(A)});
-      } break;
-      case il::Type::Array2DOfDouble: {
-        il::int_t size0 = 0;
-        il::int_t size1 = 0;
-        std::fread(&size0, sizeof(il::int_t), 1, file);
-        std::fread(&size1, sizeof(il::int_t), 1, file);
-        k += 2 * sizeof(il::int_t);
-        il::Array2D<double> v{size0, size1};
-        std::fread(v.Data(), sizeof(double), size0 * size1, file);
-        k += sizeof(double) * size0 * size1;
-        config.Set(std::move(string), il::Dynamic{std::move(v)});
-      } break;
-      case il::Type::MapArrayStringToDynamic: {
-        if (n == -1) {
-          const il::int_t nb_types = il::readVarint(il::io, k, file);
-
-          il::Array<il::String> key{nb_types};
-          il::Array<il::Type> type{nb_types};
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            const il::int_t key_size = il::readVarint(il::io, k, file);
-
-            il::Array<char> raw_string{key_size};
-            std::fread(raw_string.Data(), sizeof(char), key_size, file);
-            il::String my_string{il::StringType::Byte, raw_string.data(),
-                                 key_size};
-            key[i] = my_string;
-
-            const std::size_t error =
-                fread(&(type[i]), sizeof(il::Type), 1, file);
-          }
-          const il::int_t n = readVarint(il::io, k, file);
-          //          const std::size_t error = std::fread(&n,
-          //          sizeof(il::int_t), 1, file);
-
-          il::Array<il::Dynamic> array{nb_types};
-          for (il::int_t i = 0; i < nb_types; ++i) {
-            switch (type[i]) {
-              case il::Type::Double: {
-                array[i] = il::Dynamic{il::Type::ArrayOfDouble};
-                il::Array<double>& ref = array[i].As<il::Array<double>>();
-                ref.Resize(n);
-              } break;
-              case il::Type::Integer: {
-                array[i] = il::Dynamic{il::Type::ArrayOfInt32};
-                il::Array<int>& ref = array[i].As<il::Array<int>>();
-                ref.Resize(n);
-              } break;
-              default:
-                IL_UNREACHABLE;
-            }
-          }
-
-          for (il::int_t j = 0; j < n; ++j) {
-            for (il::int_t i = 0; i < nb_types; ++i) {
-              switch (type[i]) {
-                case il::Type::Double: {
-                  il::Array<double>& ref = array[i].As<il::Array<double>>();
-                  double value = 0.0;
-                  const std::size_t error =
-                      std::fread(&value, sizeof(double), 1, file);
-                  ref[j] = value;
-                } break;
-                case il::Type::Integer: {
-                  il::Array<int>& ref = array[i].As<il::Array<int>>();
-                  int value = 0;
-                  const std::size_t error =
-                      std::fread(&value, sizeof(int), 1, file);
-                  ref[j] = value;
-                } break;
-                default:
-                  IL_UNREACHABLE;
-              }
-            }
-          }
-        } else {
-          il::int_t n_map = 0;
-          const il::int_t n = readVarint(il::io, n_map, file);
-          il::int_t size = 0;
-          il::spot_t i = config.search(string);
-          config.Set(std::move(string),
-                     il::Dynamic{il::MapArray<il::String, il::Dynamic>{n}},
-                     il::io, i);
-          if (!config.found(i)) {
-          }
-          il::MapArray<il::String, il::Dynamic>& config_inner =
-              config.Value(i).As<il::MapArray<il::String, il::Dynamic>>();
-          auxLoad(size, il::io, config_inner, file);
-          k += size;
+        M inner{n};
+        if (!il::auxLoad(il::io, inner, k, file)) {
+          return false;
         }
+        value = il::Dynamic{std::move(inner)};
       } break;
-        /*
-              case il::Type::MapStringToDynamic:
-              case il::Type::MapArrayStringToDynamic: {
-                il::int_t n_map = 0;
-                const il::int_t n = readVarint(il::io, n_map, file);
-                il::int_t size = 0;
-                il::spot_t i = config.search(string);
-                config.Set(std::move(string),
-                              il::Dynamic{il::MapArray<il::String,
-           il::Dynamic>{n}}, il::io, i); if (!config.found(i)) {
-                }
-                il::MapArray<il::String, il::Dynamic>& config_inner =
-                    config.value(i).as<il::MapArray<il::String, il::Dynamic>>();
-                auxLoad(size, il::io, config_inner, file);
-                k += size;
-              } break;
-        */
       default:
-        IL_UNREACHABLE;
+        return false;
     }
+    config.Set(std::move(string), std::move(value));
   }
 }
 
@@ -445,7 +338,14 @@ class LoadHelperData<il::MapArray<il::String, il::Dynamic>> {
     }
 #endif
 
-    auxLoad(-1, il::io, ans, file);
+    il::int_t k = 0;
+    const bool ok = il::auxLoad(il::io, ans, k, file);
+    if (!ok) {
+      std::fclose(file);
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return il::MapArray<il::String, il::Dynamic>{};
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
@@ -481,7 +381,14 @@ class LoadHelperData<il::Map<il::String, il::Dynamic>> {
     }
 #endif
 
-    auxLoad(-1, il::io, ans, file);
+    il::int_t k = 0;
+    const bool ok = il::auxLoad(il::io, ans, k, file);
+    if (!ok) {
+      std::fclose(file);
+      status.SetError(il::Error::BinaryFileWrongFormat);
+      IL_SET_SOURCE(status);
+      return il::Map<il::String, il::Dynamic>{};
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
-- 
2.43.0


From 50bcb8b680e6a1f73a3005354664f5f2d1c75253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 154/161] fix: saving in a filepack file a value that can not
 be there aborts

---
 il/io/filepack/filepack.h | 62 ++++++++++++++++++++++++++-------------
 1 file changed, 42 insertions(+), 20 deletions(-)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index b6e1b84..59f7988 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -401,23 +401,27 @@ class LoadHelperData<il::Map<il::String, il::Dynamic>> {
   }
 };
 
-inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
+// Returns false when the map contains something that can not be in a file: an
+// empty key, a value of another type, or an array of structures made of
+// anything else than arrays of the same size.
+inline bool auxSave(const il::MapArray<il::String, il::Dynamic>& data,
                     const il::ArrayView<il::String>& option, il::io_t,
                     il::int_t& n, std::FILE* file) {
   n = 0;
 
   for (il::int_t i = 0; i < data.size(); ++i) {
-    il::String to_check{il::StringType::Byte, data.key(i).asCString(),
-                        data.key(i).size()};
-    il::int_t my_size = data.key(i).size();
-    IL_UNUSED(to_check);
-    IL_UNUSED(my_size);
-
     const il::int_t string_size = data.key(i).size();
+    if (string_size == 0) {
+      return false;
+    }
     writeVarint(string_size, il::io, n, file);
     std::fwrite(data.key(i).asCString(), sizeof(char), string_size, file);
     n += data.key(i).size();
-    const il::Type type = data.value(i).type();
+    const bool save_as_array_of_struct =
+        data.value(i).is<il::MapArray<il::String, il::Dynamic>>() &&
+        option.size() == 1 && option[0] == data.key(i);
+    const il::Type type = save_as_array_of_struct ? il::Type::ArrayOfStruct
+                                                  : data.value(i).type();
     std::fwrite(&type, sizeof(il::Type), 1, file);
     n += sizeof(il::Type);
 
@@ -479,8 +483,6 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
         n += 2 * sizeof(il::int_t) + sizeof(double) * size0 * size1;
       } break;
       case il::Type::MapArrayStringToDynamic: {
-        const bool save_as_array_of_struct =
-            (option.size() == 1 && option[0] == data.key(i));
         if (save_as_array_of_struct) {
           const il::MapArray<il::String, il::Dynamic>& my_data =
               data.value(i).as<il::MapArray<il::String, il::Dynamic>>();
@@ -489,7 +491,7 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
           const il::int_t population_struct = my_data.nbElements();
           writeVarint(population_struct, il::io, k, file);
 
-          il::int_t n;
+          il::int_t n = 0;
           bool size_of_array_is_known = false;
           for (il::spot_t i = my_data.spotBegin(); i != my_data.spotEnd();
                i = my_data.next(i)) {
@@ -499,26 +501,30 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
             const il::Type type = my_data.value(i).type();
             switch (type) {
               case il::Type::ArrayOfDouble: {
+                const il::Array<double>& ref =
+                    my_data.value(i).as<il::Array<double>>();
                 if (!size_of_array_is_known) {
-                  const il::Array<double>& ref =
-                      my_data.value(i).as<il::Array<double>>();
                   n = ref.size();
                   size_of_array_is_known = true;
+                } else if (ref.size() != n) {
+                  return false;
                 }
                 const il::Type my_type = il::Type::Double;
                 std::fwrite(&my_type, sizeof(il::Type), 1, file);
               } break;
               case il::Type::ArrayOfInt32: {
+                const il::Array<int>& ref = my_data.value(i).as<il::Array<int>>();
                 if (!size_of_array_is_known) {
-                  const il::Array<int>& ref = my_data.value(i).as<il::Array<int>>();
                   n = ref.size();
                   size_of_array_is_known = true;
+                } else if (ref.size() != n) {
+                  return false;
                 }
                 const il::Type my_type = il::Type::Integer;
                 std::fwrite(&my_type, sizeof(il::Type), 1, file);
               } break;
               default:
-                IL_UNREACHABLE;
+                return false;
             }
           }
 
@@ -553,8 +559,11 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
           if (option.size() > 0 && option[0] == data.key(i)) {
             new_option = option.view(il::Range{1, option.size()});
           }
-          auxSave(data.value(i).as<il::MapArray<il::String, il::Dynamic>>(),
-                  new_option, il::io, n_map, file);
+          if (!il::auxSave(
+                  data.value(i).as<il::MapArray<il::String, il::Dynamic>>(),
+                  new_option, il::io, n_map, file)) {
+            return false;
+          }
           //        std::fseek(file, -(n_map + sizeof(il::int_t)),
           //          SEEK_CUR);
           //        std::fwrite(&n_map, sizeof(il::int_t), 1, file);
@@ -562,10 +571,11 @@ inline void auxSave(const il::MapArray<il::String, il::Dynamic>& data,
         }
       } break;
       default:
-        IL_UNREACHABLE;
+        return false;
     }
   }
   writeVarint(0, il::io, n, file);
+  return true;
 }
 
 template <>
@@ -591,7 +601,13 @@ class SaveHelperData<il::MapArray<il::String, il::Dynamic>> {
 
     il::Array<il::String> option{};
     il::int_t n = 0;
-    auxSave(data, option.view(), il::io, n, file);
+    const bool ok = il::auxSave(data, option.view(), il::io, n, file);
+    if (!ok) {
+      std::fclose(file);
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
@@ -628,7 +644,13 @@ class SaveHelperDataWithOptions<il::MapArray<il::String, il::Dynamic>,
 #endif
 
     il::int_t n = 0;
-    auxSave(data, option.view(), il::io, n, file);
+    const bool ok = il::auxSave(data, option.view(), il::io, n, file);
+    if (!ok) {
+      std::fclose(file);
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
-- 
2.43.0


From f118e51b5d84180feecb053201b6a9b8cd0af13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 155/161] fix: filepack files that are not completely written
 are not reported

---
 il/io/filepack/filepack.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/il/io/filepack/filepack.h b/il/io/filepack/filepack.h
index 59f7988..e404737 100644
--- a/il/io/filepack/filepack.h
+++ b/il/io/filepack/filepack.h
@@ -608,6 +608,12 @@ class SaveHelperData<il::MapArray<il::String, il::Dynamic>> {
       IL_SET_SOURCE(status);
       return;
     }
+    if (std::ferror(file) != 0) {
+      std::fclose(file);
+      status.SetError(il::Error::FilesystemCanNotWriteToFile);
+      IL_SET_SOURCE(status);
+      return;
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
@@ -651,6 +657,12 @@ class SaveHelperDataWithOptions<il::MapArray<il::String, il::Dynamic>,
       IL_SET_SOURCE(status);
       return;
     }
+    if (std::ferror(file) != 0) {
+      std::fclose(file);
+      status.SetError(il::Error::FilesystemCanNotWriteToFile);
+      IL_SET_SOURCE(status);
+      return;
+    }
 
     const int error = std::fclose(file);
     if (error != 0) {
-- 
2.43.0


From 0ab507c01c6a3c7ddd72826e118485fd792ad1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:43 +0000
Subject: [PATCH 156/161] fix: saving with options in a file type that has none
 aborts

---
 il/io/io_base.h | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/il/io/io_base.h b/il/io/io_base.h
index bbd4192..5cf4145 100644
--- a/il/io/io_base.h
+++ b/il/io/io_base.h
@@ -250,18 +250,13 @@ void save(const T& x, const U& option, const il::String& filename, il::io_t,
     return;
   }
   switch (ft) {
-    case il::FileType::Toml:
-      IL_UNREACHABLE;
-      break;
     case il::FileType::Data:
       il::SaveHelperDataWithOptions<T, U>::save(x, option, filename, il::io,
                                                 status);
       break;
-    case il::FileType::Png:
-      IL_UNREACHABLE;
-      break;
     default:
-      IL_UNREACHABLE;
+      il::SaveHelperWithOptions<T, U>::save(x, option, filename, il::io,
+                                            status);
   }
 }
 
-- 
2.43.0


From 9c6f29c68122ae11fef5ad586e637969e741891d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:36 +0000
Subject: [PATCH 157/161] fix: arrays of types that have no name in NumPy files
 are saved and loaded as if they had one

---
 il/io/numpy/numpy.h | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/il/io/numpy/numpy.h b/il/io/numpy/numpy.h
index 0b351e0..33aa689 100644
--- a/il/io/numpy/numpy.h
+++ b/il/io/numpy/numpy.h
@@ -110,6 +110,12 @@ class SaveHelper<il::Array<T>> {
  public:
   static void save(const il::Array<T>& v, const il::String& filename, il::io_t,
                    il::Status& status) {
+    if (il::size(il::numpyType<T>::value) == 0) {
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
+    }
+
 #ifdef IL_UNIX
     std::FILE* file = std::fopen(filename.asCString(), "wb");
 #else
@@ -162,6 +168,12 @@ class SaveHelper<il::Array2D<T>> {
  public:
   static void save(const il::Array2D<T>& A, const il::String& filename,
                    il::io_t, il::Status& status) {
+    if (il::size(il::numpyType<T>::value) == 0) {
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return;
+    }
+
 #ifdef IL_UNIX
     std::FILE* file = std::fopen(filename.asCString(), "wb");
 #else
@@ -221,6 +233,12 @@ class LoadHelper<il::Array<T>> {
                            il::Status& status) {
     il::Array<T> v{};
 
+    if (il::size(il::numpyType<T>::value) == 0) {
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return v;
+    }
+
 #ifdef IL_UNIX
     std::FILE* file = std::fopen(filename.asCString(), "rb");
 #else
@@ -288,6 +306,12 @@ class LoadHelper<il::Array2D<T>> {
                              il::Status& status) {
     il::Array2D<T> v{};
 
+    if (il::size(il::numpyType<T>::value) == 0) {
+      status.SetError(il::Error::Unimplemented);
+      IL_SET_SOURCE(status);
+      return v;
+    }
+
 #ifdef IL_UNIX
     std::FILE* file = std::fopen(filename.asCString(), "rb");
 #else
-- 
2.43.0


From 265899865457b6022a3314e8e49aa392d00a19e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 158/161] fix: Gmres with a preconditioner has a maximum number
 of iterations

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index 8e51d5f..d645c27 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -131,6 +131,7 @@ Gmres<T>::Gmres(const il::FunctorArray<T>& m, const il::FunctorArray<T>& cond,
 
   n_ = m.size(1);
   restart_iteration_ = restart_iteration;
+  max_nb_iterations_ = 100;
   const il::int_t tmp_size = (2 * restart_iteration_ + 1) * n_ +
                              restart_iteration_ * (restart_iteration_ + 9) / 2 +
                              1;
-- 
2.43.0


From 1e70af126402b784db76592bcc32b50f0565c199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 159/161] fix: Gmres::Solve reports an error when the precision
 is not reached

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index d645c27..a7235b4 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -462,7 +462,6 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
               &one_int);
         // This number plays a critical role in the precision of the method
         double norm_residual = dnrm2(&n_, residual_.data(), &one_int);
-        double error_ratio = norm_residual / y_norm;
         if (norm_residual <= relative_precision * y_norm) {
           stop_iteration = true;
         }
@@ -499,7 +498,21 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
               dpar_.data(), tmp_.Data(), &itercount);
 
   nb_iterations_ = itercount;
-  status.SetOk();
+
+  // The iterations may have stopped for another reason than the precision
+  il::ArrayView<double> my_x = x;
+  il::ArrayEdit<double> my_y = residual_.Edit();
+  for (il::int_t i = 0; i < n_; ++i) {
+    my_y[i] = 0.0;
+  }
+  (*m_)(my_x, il::io, my_y);
+  daxpy(&n_, &minus_one_double, yloc_.data(), &one_int, residual_.Data(),
+        &one_int);
+  if (dnrm2(&n_, residual_.data(), &one_int) <= relative_precision * y_norm) {
+    status.SetOk();
+  } else {
+    status.SetError(il::Error::Undefined);
+  }
 }
 
 template <typename T>
-- 
2.43.0


From af12d5c95d0054621b2d9239501e2fcdd9d7903b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 160/161] fix: Gmres::Solve ends with an error when the
 iterations break down

---
 il/linearAlgebra/matrixFree/solver/Gmres.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/il/linearAlgebra/matrixFree/solver/Gmres.h b/il/linearAlgebra/matrixFree/solver/Gmres.h
index a7235b4..2e02383 100644
--- a/il/linearAlgebra/matrixFree/solver/Gmres.h
+++ b/il/linearAlgebra/matrixFree/solver/Gmres.h
@@ -489,7 +489,8 @@ void Gmres<T>::Solve(il::ArrayView<T> y, double relative_precision,
         }
         break;
       default:
-        IL_EXPECT_FAST(false);
+        // The iterations have been interrupted
+        stop_iteration = true;
         break;
     }
   }
-- 
2.43.0


From 60c14fc3a37086300be71e6d2808e37ca35551ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:47 +0000
Subject: [PATCH 161/161] fix: Pardiso checks that the matrix is the one that
 was analyzed

---
 il/linearAlgebra/sparse/factorization/Pardiso.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/il/linearAlgebra/sparse/factorization/Pardiso.h b/il/linearAlgebra/sparse/factorization/Pardiso.h
index 0878034..44bd321 100644
--- a/il/linearAlgebra/sparse/factorization/Pardiso.h
+++ b/il/linearAlgebra/sparse/factorization/Pardiso.h
@@ -317,7 +317,7 @@ void Pardiso::SymbolicFactorization(
 
 void Pardiso::NumericalFactorization(
     const il::SparseMatrixCSR<il::int_t, double> &A) {
-  IL_EXPECT_FAST(matrix_element_ = A.elementData());
+  IL_EXPECT_FAST(matrix_element_ == A.elementData());
   IL_EXPECT_FAST(is_symbolic_factorization_);
   IL_EXPECT_FAST(A.size(0) == n_);
   IL_EXPECT_FAST(A.size(1) == n_);
@@ -339,7 +339,7 @@ void Pardiso::NumericalFactorization(
 inline il::Array<double> Pardiso::Solve(
     const il::SparseMatrixCSR<il::int_t, double> &A,
     const il::Array<double> &y) {
-  IL_EXPECT_FAST(matrix_element_ = A.elementData());
+  IL_EXPECT_FAST(matrix_element_ == A.elementData());
   IL_EXPECT_FAST(is_numerical_factorization_);
   IL_EXPECT_FAST(A.size(0) == n_);
   IL_EXPECT_FAST(A.size(1) == n_);
@@ -363,7 +363,7 @@ inline il::Array<double> Pardiso::Solve(
 inline il::Array<double> Pardiso::SolveIterative(
     const il::SparseMatrixCSR<il::int_t, double> &A,
     const il::Array<double> &y) {
-  IL_EXPECT_FAST(matrix_element_ = A.elementData());
+  IL_EXPECT_FAST(matrix_element_ == A.elementData());
   IL_EXPECT_FAST(is_numerical_factorization_);
   IL_EXPECT_FAST(A.size(0) == n_);
   IL_EXPECT_FAST(A.size(1) == n_);
-- 
2.43.0

