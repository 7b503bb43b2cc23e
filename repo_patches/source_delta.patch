From 53751f68158f7ae86a88774a7ee84879a72f2ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:08 +0000
Subject: [PATCH 01/62] fix: reset the length of a moved-from array

A moved-from String/Array kept its old length with no buffer unless
CPPUNIT_VERSION was defined, so using it dereferenced a null buffer.
---
 src/ReferenceCountedArray.h | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 1c512bd..01c7d41 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -443,11 +443,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       Ref(rca.Ref), offset(rca.offset),
       sublen(rca.sublen), my_hash(rca.my_hash) {
       rca.Ref = nullptr;
-#ifdef CPPUNIT_VERSION
       rca.offset = 0;
       rca.sublen = 0;
       rca.my_hash = 0;
-#endif
     }
   public:
     /**
@@ -549,11 +547,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       my_hash = rca.my_hash;
       Ref = rca.Ref;
 
-#ifdef CPPUNIT_VERSION
       rca.offset = 0;
       rca.sublen = 0;
       rca.my_hash = 0;
-#endif
       rca.Ref = nullptr;
 
       return *this;
-- 
2.43.0


From 1ddac92a7ce72c2d786efca1b9777e8b02eb0b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:08 +0000
Subject: [PATCH 02/62] fix: keep the shared buffer referenced while copying
 out of it

COW() dropped its reference before copying, so another thread could free the
buffer during the copy (use after free), and two threads detaching together
leaked it.  A failed allocation lost the contents as well.
---
 src/ReferenceCountedArray.h | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 01c7d41..41b155c 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -254,10 +254,13 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     /**
      * @brief Detach from the shared reference.
      * This is only called when losing the old buffer or when modifying the buffer (and copy-on-write is used)
-     * @note This does not free the old reference, as it is still in use
+     * @note The old reference is only freed if nothing else uses it anymore
      */
     void doDetach() const noexcept {
-      decRef();
+      if (Ref && decRef() < 1) {
+        /* The other owners went away meanwhile */
+        delete Ref;
+      }
       Ref = nullptr;
       sublen = 0;
       offset = 0;
@@ -381,14 +384,31 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * Also take a hint size n of the new ReferenceCountedArray's size as to avoid needless copying/allocing.
      */
     inline void COW(size_t n) const {
-      const_pointer oldBuf = constBuf();
+      /*
+       * Hold onto the shared reference until it has been copied as all other
+       * owners may drop it at any time.
+       */
+      auto const oldRef = Ref;
+      const size_t oldOffset = offset;
       const size_t oldLength = length();
 
-      assert(isShared());
-      doDetach(); //Detach from the shared reference
-      reserve(n, _rca_cow_scaling_factor); //Will set capacity()/size
+      Ref = nullptr;
+      offset = 0;
+      sublen = 0;
+      try {
+        reserve(n, _rca_cow_scaling_factor); //Will set capacity()/size
+        const auto oldBuf = oldRef->buf + oldOffset;
+        std::copy(oldBuf, oldBuf + std::min(oldLength, n), Buf());
+      } catch (...) {
+        delete Ref;
+        Ref = oldRef;
+        offset = oldOffset;
+        sublen = oldLength;
+        throw;
+      }
       sublen = std::min(oldLength, n);
-      std::copy(oldBuf, oldBuf + sublen, Buf());
+      if (--oldRef->refs < 1)
+        delete oldRef;
     }
 
   protected:
-- 
2.43.0


From b3b9decfd9bb6d7ab67121d7adef67105c17e87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:08 +0000
Subject: [PATCH 03/62] fix: do not reallocate a buffer that other arrays share
 in reserve()

---
 src/ReferenceCountedArray.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 41b155c..444bb65 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -621,6 +621,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      */
     virtual void reserve(const size_t newSize,
         double scaling_factor = 1) const {
+      if (isShared()) {
+        /* The other owners' contents must not be moved or written to. */
+        COW(std::max(newSize, length()));
+        return;
+      }
       if (!Ref) {
         Ref = new ArrayRef<value_type, Allocator>(alloc);
       }
-- 
2.43.0


From 2b62fe36b4a1234efa46479505f5a1e672da8e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:54 +0000
Subject: [PATCH 04/62] fix: do not read past the end of the buffer in c_str()

A String made by one of the inherited constructors has no room for the
terminating NUL.
---
 src/String.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/String.h b/src/String.h
index 762f842..8ce1636 100755
--- a/src/String.h
+++ b/src/String.h
@@ -234,7 +234,8 @@ class String : public ReferenceCountedArray<String_Array_Type> {
             return "";
           assert(constBuf() != nullptr);
           assert(length() > 0);
-          if (*constBuf(length()) != '\0') {
+          if (offset + length() >= capacity() ||
+              *constBuf(length()) != '\0') {
             assert(sublen > 0);
             AboutToModify(length() + 1);
             *(Buf(length())) = '\0';
-- 
2.43.0


From db088bf3939ff907467ce65440d2a2cff0d6c071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:54 +0000
Subject: [PATCH 05/62] fix: clamp a too negative slice length to an empty
 slice

It wrapped to a huge length; a huge positive length overflowed.
---
 src/ReferenceCountedArray.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 444bb65..8803392 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -975,9 +975,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * The returned slice is a reference to the original array until modified.
      */
     void slice(ssize_t start, ssize_t len = -1) noexcept {
-      if (len == -1) len = int(length()) - start;
+      const ssize_t mylen = length();
       // Start is after the end, set us to an empty array
-      if (start >= static_cast<signed>(length())) {
+      if (start >= mylen) {
         offset = length();
         setLength(0);
         return;
@@ -985,18 +985,18 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       //Count backwards from the end
       if (start < 0)
-        start = length() + start;
+        start = mylen + start;
       // Start was before the beginning, just reset to the beginning
       if (start < 0)
         start = 0;
 
       offset += start;
       //If the length of the subarray exceeds the end of the array, truncate to the end of the array
-      if (start + len >= static_cast<signed>(length()))
-        len = length() - start;
+      if (len == -1 || len >= mylen - start)
+        len = mylen - start;
       // If the length is negative, stop from counting backwards from the end
       else if (len < 0)
-        len = length() - start + len;
+        len = std::max(mylen - start + len, ssize_t(0));
       setLength(len);
     }
 
-- 
2.43.0


From d88341c17437b8cec5caa1a0676edfc9ad5ce9f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:54 +0000
Subject: [PATCH 06/62] fix: do not lose the contents when inserting a longer
 array at 0

---
 src/ReferenceCountedArray.h | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 8803392..22f96a9 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1086,8 +1086,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       size_t slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just replace ours with a reference of theirs */
-      if (pos == 0 && slen > length() && n == slen) {
+      /* We have nothing to keep, just replace ours with a reference of theirs */
+      if (isEmpty() && n == slen) {
         *this = rca;
         return;
       }
@@ -1114,8 +1114,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       const auto slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just replace ours with a reference of theirs */
-      if (pos == 0 && slen > length()) {
+      /* We have nothing to keep, just replace ours with a reference of theirs */
+      if (isEmpty()) {
         *this = rca;
         return;
       }
@@ -1141,8 +1141,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       size_t slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just move theirs */
-      if (pos == 0 && slen > length() && n == slen) {
+      /* We have nothing to keep, just move theirs */
+      if (isEmpty() && n == slen) {
         *this = std::move(rca);
         return;
       }
@@ -1169,8 +1169,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       const auto slen = rca.length();
 
-      /* New rca is longer than ours, and inserting at 0, just move theirs */
-      if (pos == 0 && slen > length()) {
+      /* We have nothing to keep, just move theirs */
+      if (isEmpty()) {
         *this = std::move(rca);
         return;
       }
-- 
2.43.0


From 663acb9867ce6d0374fad73f61292f66fa6f66bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:54 +0000
Subject: [PATCH 07/62] fix: do not leak the elements that resize() fills over

---
 src/ReferenceCountedArray.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 22f96a9..a531638 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -668,14 +668,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         setLength(len);
       } else {
         AboutToModify(len);
-        /*
-         * Use constructing for objects but allow memset
-         * for simple types via std::fill.
-         */
-        if __CPP17_IFCONSTEXPR (std::is_class<T>::value)
-          std::uninitialized_fill(Buf(length()), Buf(len), value);
-        else
-          std::fill(Buf(length()), Buf(len), value);
+        /* The whole buffer is constructed already. */
+        std::fill(Buf(length()), Buf(len), value);
         sublen = len;
       }
     }
-- 
2.43.0


From 1c87710a8b16a898b0b5b180d5c3b02956349f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 08/62] fix: make room for an item that replace() puts at the
 end

replace(length(), item) is accepted, like replace(length(), array) which
extends the array, but wrote past the end of the buffer (or to a null one).
---
 src/ReferenceCountedArray.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index a531638..f8a12e8 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1228,8 +1228,10 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       if (pos != 0)
         validateIndex(pos - 1);
 
-      getOwnCopy();
+      AboutToModify(std::max(pos + 1, length()));
       *(Buf(pos)) = item;
+      if (pos == length())
+        ++sublen;
     }
 
     /**
@@ -1243,8 +1245,10 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       if (pos != 0)
         validateIndex(pos - 1);
 
-      getOwnCopy();
+      AboutToModify(std::max(pos + 1, length()));
       *(Buf(pos)) = std::move(item);
+      if (pos == length())
+        ++sublen;
     }
 
     /**
-- 
2.43.0


From 35ea7a38eed996835d2bc4b9f38395e50ea359b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 09/62] fix: allow inserting an array, or an item of it, into
 itself

The source was read after the buffer had been reallocated or shifted.
---
 src/ReferenceCountedArray.h | 18 ++++++++++++------
 src/String.cpp              | 11 +++++++++++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index f8a12e8..9557d1d 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -857,8 +857,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @brief Write an item to the given index
      */
     inline void write(size_t pos, const_reference item) {
+      value_type tmp(item); // item may be in our buffer
       getOwnCopy();
-      *(Buf(pos)) = item;
+      *(Buf(pos)) = std::move(tmp);
     };
     inline void write(size_t pos, value_type&& item) {
       getOwnCopy();
@@ -1089,10 +1090,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       if (n > slen)
         n = slen;
       slen -= slen - n;
+      const ReferenceCountedArray src(rca); // rca may be ourself
       AboutToModify(length() + slen);
       /* Shift right */
       std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + slen));
-      std::copy(rca.cbegin(), rca.cbegin() + slen, Buf(pos));
+      std::copy(src.cbegin(), src.cbegin() + slen, Buf(pos));
       sublen += slen;
     }
 
@@ -1114,10 +1116,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         return;
       }
 
+      const ReferenceCountedArray src(rca); // rca may be ourself
       AboutToModify(length() + slen);
       /* Shift right */
       std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + slen));
-      std::copy(rca.cbegin(), rca.cbegin() + slen, Buf(pos));
+      std::copy(src.cbegin(), src.cbegin() + slen, Buf(pos));
       sublen += slen;
     }
 
@@ -1190,10 +1193,11 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       if (pos != 0)
         validateIndex(pos - 1);
 
+      value_type tmp(item); // item may be in our buffer
       AboutToModify(length() + 1);
       /* Shift right */
       std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + 1));
-      *(Buf(pos)) = item;
+      *(Buf(pos)) = std::move(tmp);
       ++sublen;
     }
 
@@ -1228,8 +1232,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       if (pos != 0)
         validateIndex(pos - 1);
 
+      value_type tmp(item); // item may be in our buffer
       AboutToModify(std::max(pos + 1, length()));
-      *(Buf(pos)) = item;
+      *(Buf(pos)) = std::move(tmp);
       if (pos == length())
         ++sublen;
     }
@@ -1278,8 +1283,9 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
 
       if (newlen < length())
         newlen = length();
+      const ReferenceCountedArray src(rca); // rca may be ourself
       AboutToModify(newlen);
-      std::copy(rca.cbegin(), rca.cbegin() + slen, Buf() + pos);
+      std::copy(src.cbegin(), src.cbegin() + slen, Buf() + pos);
       sublen = newlen;
     }
 
diff --git a/src/String.cpp b/src/String.cpp
index bb4ca5c..bdb77f5 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -122,6 +122,11 @@ void String::insert(size_t pos, const char *string, size_t n)
   
   const auto slen = (n == npos) ? std::strlen(string) : n;
 
+  if (string >= cbegin() && string < cend()) {
+    /* The string is in our buffer, which is about to change */
+    insert(pos, String(string, slen));
+    return;
+  }
   AboutToModify(length() + slen);
   /* Shift right */
   std::move_backward(constBuf(pos), constBuf(length()), Buf(length() + slen));
@@ -142,6 +147,12 @@ void String::replace(size_t pos, const char *string, size_t n)
     validateIndex(pos - 1);
 
   const auto slen = (n == npos) ? std::strlen(string) : n;
+
+  if (string >= cbegin() && string < cend()) {
+    /* The string is in our buffer, which is about to change */
+    replace(pos, String(string, slen));
+    return;
+  }
   auto newlen = pos + slen;
 
   if (newlen < length())
-- 
2.43.0


From 1a3a927668f7c3f1c8e63c88a7365ed13c813a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 10/62] fix: detach before handing out a mutable element

front(), back() and read() returned a reference into the shared buffer, so
writing through it changed every copy and left a stale cached hash.
---
 src/Array.h                 |  6 ++++--
 src/ReferenceCountedArray.h | 14 ++++++++------
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index 2dfb472..dce96a7 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -127,7 +127,9 @@ class Array : public ReferenceCountedArray<T> {
      */
     inline value_type pop() & {
       assert(!this->isEmpty());
-      value_type temp(this->isShared() ? this->back() : std::move(this->back()));
+      pointer item{this->Buf(this->length() - 1)};
+
+      value_type temp(this->isShared() ? *item : std::move(*item));
       this->pop_back();
       return temp;
     }
@@ -135,7 +137,7 @@ class Array : public ReferenceCountedArray<T> {
     inline value_type pop() && noexcept {
       assert(!this->isEmpty());
       assert(!this->isShared());
-      return std::move(this->back());
+      return std::move(*(this->Buf(this->length() - 1)));
     }
 
     /**
diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 9557d1d..475ee41 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -846,7 +846,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @sa at()
      * Unlike at() this is unchecked.
      */
-    inline reference read(size_t pos) noexcept __attribute__((pure)) {
+    inline reference read(size_t pos) {
+      getOwnCopy();
       return *(Buf(pos));
     };
     inline const_reference read(size_t pos) const noexcept __attribute__((pure)) {
@@ -907,7 +908,6 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
          * @brief Returns the element but does a COW since it may be written to.
          */
         inline reference mget(void) {
-          rca.getOwnCopy();
           return rca.read(start);
         }
 
@@ -915,7 +915,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
          * @brief Returns the element without a COW.
          */
         inline const_reference get(void) const noexcept __attribute__((pure)) {
-          return rca.read(start);
+          return static_cast<const ReferenceCountedArray&>(rca).read(start);
         }
 
         /**
@@ -931,7 +931,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
         };
 
 #ifdef CPPUNIT_VERSION
-        inline size_t rcount() const noexcept { return rca.read(start).rcount(); }
+        inline size_t rcount() const noexcept { return get().rcount(); }
         inline intptr_t rptr() const noexcept __attribute__((pure)) { return get().rptr(); }
 #endif
     };
@@ -1007,7 +1007,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     inline void push_back(const_reference item) { append(item); };
     inline void push_back(value_type&& item) { append(std::move(item)); };
 
-    inline reference front() noexcept __attribute__((pure)) {
+    inline reference front() {
+      getOwnCopy();
       return *Buf(0);
     }
 
@@ -1015,7 +1016,8 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       return *constBuf(0);
     }
 
-    inline reference back() noexcept __attribute__((pure)) {
+    inline reference back() {
+      getOwnCopy();
       return *Buf(length() - 1);
     }
 
-- 
2.43.0


From af63a700e1093243fe3f8145d1455d0ccaf88b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 11/62] fix: do not move an element out of a shared buffer in
 rvalue pop()/shift()

A temporary, such as a subarray, may share its buffer with another array.
---
 src/Array.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index dce96a7..a4ef628 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -117,8 +117,9 @@ class Array : public ReferenceCountedArray<T> {
 
     inline value_type shift() && noexcept {
       assert(!this->isEmpty());
-      assert(!this->isShared());
-      return std::move(*(this->Buf(0)));
+      pointer item{this->Buf(0)};
+
+      return this->isShared() ? *item : std::move(*item);
     }
 
     /**
@@ -136,8 +137,9 @@ class Array : public ReferenceCountedArray<T> {
 
     inline value_type pop() && noexcept {
       assert(!this->isEmpty());
-      assert(!this->isShared());
-      return std::move(*(this->Buf(this->length() - 1)));
+      pointer item{this->Buf(this->length() - 1)};
+
+      return this->isShared() ? *item : std::move(*item);
     }
 
     /**
-- 
2.43.0


From 9a5aab99edf195566991ed56a026bdffb7d55c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 12/62] fix: make the Array members that did not compile when
 used compile

---
 src/Array.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index a4ef628..5bbc5d4 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -74,8 +74,8 @@ class Array : public ReferenceCountedArray<T> {
       if (carray == nullptr || *carray == '\0')
         return;
       while (*carray != '\0') {
-        reserve(ReferenceCountedArray<T>::sublen + 1, 4);
-        *(Buf(ReferenceCountedArray<T>::sublen++)) = *carray++;
+        this->reserve(ReferenceCountedArray<T>::sublen + 1, 4);
+        *(this->Buf(ReferenceCountedArray<T>::sublen++)) = *carray++;
       }
     };
 
@@ -281,7 +281,7 @@ class Array : public ReferenceCountedArray<T> {
     }
 
     inline Array operator++(int) && {
-      Array tmp{std::move(shift())};
+      Array tmp{std::move(*this).shift()};
       return tmp;
     }
 
@@ -303,7 +303,7 @@ class Array : public ReferenceCountedArray<T> {
     }
 
     inline Array operator--(int) && {
-      Array tmp{std::move(pop())};
+      Array tmp{std::move(*this).pop()};
       return tmp;
     }
 
@@ -324,7 +324,7 @@ class Array : public ReferenceCountedArray<T> {
     }
 
     inline Array& operator+=(Array&& array) & {
-      append(std::move(array));
+      this->append(std::move(array));
       return *this;
     }
 
-- 
2.43.0


From 2ce2a4d2b77efbd3fbecab25dc61f6f33696c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:03 +0000
Subject: [PATCH 13/62] fix: do not underflow the size in Array::join()

Joining only empty strings with an empty delimiter threw.
---
 src/Array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Array.h b/src/Array.h
index 5bbc5d4..57a56ff 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -159,7 +159,7 @@ class Array : public ReferenceCountedArray<T> {
       size_t str_size = 0, i;
 
       // Preallocate a fully sized String to avoid frequent resizing
-      str_size += (this->length() * delim.length()) - 1;
+      str_size += (this->length() - 1) * delim.length();
       if (quoted)
 	str_size += this->length() * 2;
       for (i = 0; i < this->length(); ++i)
-- 
2.43.0


From 63fc9cb72b6d7bb6adb84ce9cea54be0a76c647b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:47 +0000
Subject: [PATCH 14/62] fix: stop at the terminator when comparing with a
 cstring

A String with an embedded NUL read past the end of the cstring.
---
 src/String.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/String.cpp b/src/String.cpp
index bdb77f5..c633a76 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -80,6 +80,8 @@ int String::compare(const char* str) const noexcept
   for (size_t pos = 0; pos < length(); ++pos) {
     if (*constBuf(pos) != *str++)
       return *(unsigned char*)(constBuf(pos)) - *(unsigned char*)(str - 1);
+    if (*(str - 1) == '\0') // Our NUL is not a terminator, theirs is
+      return 1;
   }
   return (unsigned char)'\0' - *(unsigned char*)str;
 }
@@ -91,6 +93,8 @@ int String::compare(const char* str, size_t n) const noexcept
   for (size_t pos = 0; pos < length(); ++pos) {
     if (*constBuf(pos) != *str++ || --n == 0)
       return *(unsigned char*)(constBuf(pos)) - *(unsigned char*)(str - 1);
+    if (*(str - 1) == '\0') // Our NUL is not a terminator, theirs is
+      return 1;
   }
   return (unsigned char)'\0' - *(unsigned char*)str;
 }
-- 
2.43.0


From 4adaa6eacb864074bc915bc5f46f2951b80f5c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:47 +0000
Subject: [PATCH 15/62] fix: respect lpos in rifind()

---
 src/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index c633a76..aa4d256 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -315,7 +315,7 @@ size_t String::rifind(const String& str, const size_t lpos) const {
   String str_upper(str.length()), this_upper(length());
   std::transform(str.cbegin(), str.cend(), std::back_inserter(str_upper), ::toupper);
   std::transform(this->cbegin(), this->cend(), std::back_inserter(this_upper), ::toupper);
-  return this_upper.rfind(str_upper);
+  return this_upper.rfind(str_upper, lpos);
 }
 
 size_t String::rfind(const String& str, const size_t lpos) const noexcept {
-- 
2.43.0


From fe6102c50fd0093b1984e13e050ffcaa47c7f86c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:47 +0000
Subject: [PATCH 16/62] fix: support any output length in String::printf()

Output of 4096 bytes or more was read from past the end of the buffer.
---
 src/String.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/String.cpp b/src/String.cpp
index aa4d256..8d5160f 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -265,6 +265,18 @@ String String::printf(const char* format, ...) {
   const auto len = vsnprintf(va_out, sizeof(va_out), format, va);
   va_end(va);
 
+  if (len < 0)
+    return String();
+  if (size_t(len) >= sizeof(va_out)) {
+    /* It did not fit */
+    String out;
+    out.resize(len);
+    va_start(va, format);
+    vsnprintf(out.mdata(), size_t(len) + 1, format, va);
+    va_end(va);
+    return out;
+  }
+
   return String(va_out, len);
 }
 
-- 
2.43.0


From fc5d2d88f3913eca38fd66d428503661aa87c3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:47 +0000
Subject: [PATCH 17/62] fix: allow a shared temporary to be written to an
 ostream

---
 src/String.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/String.h b/src/String.h
index 8ce1636..6bb48b8 100755
--- a/src/String.h
+++ b/src/String.h
@@ -609,7 +609,6 @@ inline std::ostream& operator<<(std::ostream& os, const String& string) {
 }
 
 inline std::ostream& operator<<(std::ostream& os, String&& string) {
-  assert(!string.isShared());
   for (const char* c = string.cbegin(); c != string.cend(); ++c)
     os << std::move(*c);
   return os;
-- 
2.43.0


From 176d17a8170f3938427dfd759e7120572280a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:47 +0000
Subject: [PATCH 18/62] fix: terminate when splitting by an empty delimiter

---
 src/String.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index 8d5160f..e3f6a58 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -206,7 +206,7 @@ std::istream& getline(std::istream& is, String& string) {
  */
 Array<String> String::split(const String& delim, size_t limit) const {
   if (!length()) return Array<String>();
-  if (limit == 1) {
+  if (limit == 1 || !delim.length()) {
     return Array<String>({*this});
   }
 
-- 
2.43.0


From b9f40615f7604f1d652ef67153b91e9f1d3330fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 19/62] fix: do not add an empty element when split() has a
 limit it does not reach

Also drop the assertion on the reference count, which fails when another
thread drops or adds a reference meanwhile.
---
 src/String.cpp | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index e3f6a58..779c77c 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -210,9 +210,6 @@ Array<String> String::split(const String& delim, size_t limit) const {
     return Array<String>({*this});
   }
 
-#ifndef NDEBUG
-  auto ref = rcount();
-#endif
   const String space(' ');
   Array<String> array;
   auto it = cbegin();
@@ -229,23 +226,16 @@ Array<String> String::split(const String& delim, size_t limit) const {
     if ((pos = _find(delim, it - cbegin())) == npos)
       pos = cend() - it;
     array << (*this)(it - cbegin(), pos);
-    assert(++ref);
     it += pos + delim.length();
-    assert(it - delim.length() <= cend());
   }
 
   // Add on extra
   if (limit != npos) {
     // Trim out left whitespace
     if (delim == space) while (it < cend() && *it == ' ') ++it;
-    array << (*this)(it - cbegin());
-    assert(++ref);
+    if (it <= cend())
+      array << (*this)(it - cbegin());
   }
-  /*
-   * Our String should not be modified.
-   * We should only be returning reference slices.
-   */
-  assert(ref == rcount());
 
   return array;
 }
-- 
2.43.0


From cca47a8463b904781e4c475f1fb8913f8faa884b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 20/62] fix: terminate when substituting an empty search string

---
 src/String.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/String.cpp b/src/String.cpp
index 779c77c..044a6e1 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -334,6 +334,7 @@ size_t String::rfind(const String& str, const size_t lpos) const noexcept {
 }
 
 String String::sub(const String& search, const String& replacement, int limit) const {
+  if (!search.length()) return *this;
   String newStr(length()), search_str(*this);
   size_type pos = 0;
   auto cnt = 0;
-- 
2.43.0


From 9102299c5743a1d573ed32f4bd5e94f2093eb44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 21/62] fix: do not race on the cleanse counter when destroying
 Strings

---
 src/String.cpp |  2 +-
 src/String.h   | 13 ++++++++-----
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index 044a6e1..e98bac2 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -36,7 +36,7 @@
 
 BDLIB_NS_BEGIN
 
-unsigned char String::cleanse_ctr = 0;
+std::atomic<unsigned char> String::cleanse_ctr{0};
 
 /* Accessors */
 int String::compare(const String& str) const noexcept
diff --git a/src/String.h b/src/String.h
index 6bb48b8..e81d1f8 100755
--- a/src/String.h
+++ b/src/String.h
@@ -31,6 +31,7 @@
 #include "bdlib.h"
 #include "ReferenceCountedArray.h"
 
+#include <atomic>
 #include <cassert>
 #include <cstring>
 #include <iostream>
@@ -65,7 +66,7 @@ typedef char String_Array_Type;
 class String : public ReferenceCountedArray<String_Array_Type> {
   private:
         typedef std::allocator<String_Array_Type> Allocator;
-        static unsigned char cleanse_ctr;
+        static std::atomic<unsigned char> cleanse_ctr;
 
         /* Cleanse our buffer using OPENSSL_cleanse() */
         void cleanse() noexcept {
@@ -74,13 +75,15 @@ class String : public ReferenceCountedArray<String_Array_Type> {
 
           unsigned char *p = reinterpret_cast<unsigned char *>(ptr);
           size_t loop = len;
+          unsigned char ctr = cleanse_ctr.load(std::memory_order_relaxed);
           while(loop--)
           {
-            *(p++) = static_cast<unsigned char>(cleanse_ctr);
-            cleanse_ctr += (17 + (reinterpret_cast<size_t>(p) & 0xF));
+            *(p++) = ctr;
+            ctr += (17 + (reinterpret_cast<size_t>(p) & 0xF));
           }
-          if(memchr(ptr, cleanse_ctr, len))
-            cleanse_ctr += (63 + reinterpret_cast<size_t>(p));
+          if(memchr(ptr, ctr, len))
+            ctr += (63 + reinterpret_cast<size_t>(p));
+          cleanse_ctr.store(ctr, std::memory_order_relaxed);
         }
   public:
 
-- 
2.43.0


From bf5eda39eeddc7f20c4ac3419330d2879ca795f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 22/62] fix: make find() without memmem(3) agree with the
 memmem(3) one

It missed matches and returned another position when not starting at 0.
---
 src/String.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index e98bac2..fd23eff 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -297,9 +297,9 @@ size_t String::_find(const String& str, size_t pos) const noexcept {
 #else
   if (mylen >= str.length()) {
     const auto last_pos = mylen - str.length();
-    for (auto i = pos; i <= last_pos; ++i)
-      if (str[0] == (*this)[i] && !std::memcmp(cbegin() + i, str.cbegin(),
-            std::min(str.length(), mylen - i)))
+    for (size_t i = 0; i <= last_pos; ++i)
+      if (str[0] == (*this)[pos + i] && !std::memcmp(cbegin() + pos + i,
+            str.cbegin(), str.length()))
         return i;
   }
   return npos;
-- 
2.43.0


From b23fb3e590b3ce8f0efefb6c6de238bcb82b460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 23/62] fix: do not report a failure after extracting the last
 word or line

The last word or line of a stream without a trailing separator was dropped
by the usual while (is >> string) loop.
---
 src/String.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index fd23eff..27b05cb 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -179,7 +179,11 @@ std::istream& operator>>(std::istream& is, String& string) {
       is.get(ch);
     } while (!is.fail() && !isspace(ch));
 
-    if (isspace(ch))    // put whitespace back on the stream
+    if (is.eof())       // ended by the end of the stream, not a failure
+    {
+      is.clear(is.rdstate() & ~std::ios_base::failbit);
+    }
+    else if (isspace(ch))    // put whitespace back on the stream
     {
       is.putback(ch);
     }
@@ -194,7 +198,9 @@ std::istream& getline(std::istream& is, String& string) {
  
   while (is.get(ch) && ch != '\n')
     string += ch;
-  
+
+  if (is.eof() && string.length()) // a last line without a newline
+    is.clear(is.rdstate() & ~std::ios_base::failbit);
   return is;
 }
 
-- 
2.43.0


From 86a2866a6c8a8c59b0e426206c1392596c5d40fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 24/62] fix: read nothing from a Stream positioned past its end

It read past the end of the buffer and threw or moved the position.
---
 src/Stream.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 58a750c..a9677ca 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -72,7 +72,8 @@ int Stream::seek(int offset, int whence) {
 }
 
 String Stream::read(size_t maxSize, char delim) {
-  size_t toRead = std::min(maxSize, length() - pos);
+  /* seek() allows moving past the end */
+  size_t toRead = std::min(maxSize, length() - std::min(pos, length()));
 
   /* No need to split the string, return a substring */
   if (!delim) {
-- 
2.43.0


From 5c38242b8d5e6aa2b8417014cd6c720b12cc9349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 25/62] fix: do not read more than maxSize for the delimiter in
 Stream::read()

---
 src/Stream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index a9677ca..54cbc3f 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -88,7 +88,7 @@ String Stream::read(size_t maxSize, char delim) {
   while ((ret.length() < toRead) && (str[pos] != delim)) {
     ret += str[pos++];
   }
-  if (str.size() > pos && str[pos] == delim) {
+  if (ret.length() < toRead && str[pos] == delim) {
     ret += delim;
     ++pos;
   }
-- 
2.43.0


From ef74f4b727f6dd9badac659349735c814950ce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 26/62] fix: load an empty file, and fail on a directory, in
 Stream::loadFile()

An empty file was reported as an error; a directory may have a huge size,
which threw when reserving that much.
---
 src/Stream.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 54cbc3f..a7d214f 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -114,12 +114,16 @@ int Stream::loadFile(const int fd)
   if (size < 0) {
     return 1;
   }
-  reserve(size);
+  if (size == 0) {
+    /* An empty file cannot be mapped */
+    return 0;
+  }
   void* map = mmap(0, size, PROT_READ, MAP_PRIVATE, fd, 0);
   if (map == MAP_FAILED) {
     return 1;
   }
   loading = 1;
+  reserve(size);
 
   puts(String(static_cast<const char*>(map), size));
 
-- 
2.43.0


From c3e7f9ccc8202406a9f4af5a4bf76f9dc88bdf4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 27/62] fix: abort an uncommitted AtomicFile when it is opened
 again

Its descriptor and temporary file were leaked.
---
 src/AtomicFile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/AtomicFile.cpp b/src/AtomicFile.cpp
index e675837..c3bb5de 100644
--- a/src/AtomicFile.cpp
+++ b/src/AtomicFile.cpp
@@ -38,6 +38,9 @@ bool AtomicFile::open(const String& fname, mode_t mode) {
   size_t slash_pos;
   String dir;
 
+  /* Do not leak an uncommitted file */
+  abort();
+
   _fname = fname;
   _mode = mode;
 
-- 
2.43.0


From a0e57042e5f7d756253d23717dece48c16530dd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 28/62] fix: close the descriptor when AtomicFile::commit()
 fails

It was leaked when fchmod(2) or fsync(2) failed.  Also do not remove a file
by the old temporary name when there is nothing to commit.
---
 src/AtomicFile.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/AtomicFile.cpp b/src/AtomicFile.cpp
index c3bb5de..80bbc20 100644
--- a/src/AtomicFile.cpp
+++ b/src/AtomicFile.cpp
@@ -79,6 +79,9 @@ bool AtomicFile::abort() {
 bool AtomicFile::commit() {
   bool result, remove_temp;
 
+  if (!is_open()) {
+    return false;
+  }
   result = false;
   remove_temp = true;
   if (_mode != mode_t(-1) && fchmod(_fd, _mode) != 0) {
@@ -88,8 +91,10 @@ bool AtomicFile::commit() {
     goto cleanup;
   }
   if (::close(_fd) != 0) {
+    _fd = -1;
     goto cleanup;
   }
+  _fd = -1;
   if (std::rename(_tmpname.c_str(), _fname.c_str()) != 0) {
     goto cleanup;
   }
@@ -101,7 +106,10 @@ cleanup:
   if (remove_temp) {
     ::unlink(_tmpname.c_str());
   }
-  _fd = -1;
+  if (_fd != -1) {
+    ::close(_fd);
+    _fd = -1;
+  }
   return result;
 }
 BDLIB_NS_END
-- 
2.43.0


From b5507871810e57fc46514b03699b1ec76e0ddfb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 29/62] fix: do not index out of bounds for a base64 charset
 with high characters

---
 src/base64.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index f1d1d5d..d07acbb 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -156,7 +156,7 @@ char *b64dec(const unsigned char *data, size_t *len, const char* charset)
     char charset_index[256];
     memset(charset_index, -1, sizeof(charset_index));
     for (size_t i = 0; i < 64; ++i)
-      charset_index[int(charset[i])] = i;
+      charset_index[static_cast<unsigned char>(charset[i])] = i;
     b64dec_buf(data, len, dest, charset_index);
   }  else
     b64dec_buf(data, len, dest);
-- 
2.43.0


From a7dfcee063785db1b8957dc8e113da8bbc4c904c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 30/62] fix: do not read past the end of an incomplete base64
 block

---
 src/base64.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/base64.cpp b/src/base64.cpp
index d07acbb..8c4a8e7 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -130,6 +130,14 @@ void b64dec_buf(const unsigned char *data, size_t *len, char *dest, const char*
 
   /* Convert the encoded base64 character back into our base255 ASCII character */
   while (blocks > 0) {
+    unsigned char last[NUM_ENCODED_BYTES];
+
+    if (blocks == 1 && (*len % NUM_ENCODED_BYTES)) {
+      /* Pad an incomplete block */
+      memset(last, PADDING_CHAR, sizeof(last));
+      memcpy(last, data, *len % NUM_ENCODED_BYTES);
+      data = last;
+    }
     /* buf[0] is the 6 bits from data[0] + left-most 2 bits of data[1] */
     *buf++ = (charset_index[data[0]] << 2) + ((charset_index[data[1]] & 0x30) >> 4);  /* 0x30 not required but to be clear. */
     if (data[2] != PADDING_CHAR) {
-- 
2.43.0


From 26d5dd90430c6d4d16873c65a51b08b57111b243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 31/62] fix: do not read past the end of dst in strlcat()

---
 src/Cstrings.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Cstrings.cpp b/src/Cstrings.cpp
index a768dfe..18dba8d 100644
--- a/src/Cstrings.cpp
+++ b/src/Cstrings.cpp
@@ -75,7 +75,7 @@ strlcat(char *dst, const char *src, size_t siz)
   size_t dlen;
 
   /* Find the end of dst and adjust bytes left but don't go past end */
-  while (*d != '\0' && n-- != 0)
+  while (n-- != 0 && *d != '\0')
     d++;
   dlen = d - dst;
   n = siz - dlen;
-- 
2.43.0


From 44664d7666cbb0bcf6724074645fc7ab47f79c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:51 +0000
Subject: [PATCH 32/62] fix: make assigning an initializer list to a HashTable
 compile

---
 src/HashTable.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/HashTable.h b/src/HashTable.h
index 9bd6788..750fb20 100644
--- a/src/HashTable.h
+++ b/src/HashTable.h
@@ -116,9 +116,7 @@ class HashTable {
      * @param list An initializer_list
      */
     HashTable& operator=(std::initializer_list<value_type> list) & {
-      for (const auto& item : list) {
-        (*this)[item.key()] = item.value();
-      }
+      map = list;
       return *this;
     }
 
-- 
2.43.0


From 70cef83e0093b71796f97bc3f3e27f1ce03bbc94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:48 +0000
Subject: [PATCH 33/62] fix: do not rely on the script's set command to return
 an eval() error

A script that removes the set command made every error recurse forever.
---
 src/ScriptInterpTCL.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 5e1c6ca..605e9af 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -44,7 +44,12 @@ inline String ScriptInterpTCL::eval(const String& script) {
     Tcl_Obj* value = Tcl_GetObjResult(interp);
     return tcl_to_c_cast<String>::from(value, this);
   }
-  return eval("set errorInfo");
+  /* The script may have replaced or removed any command */
+  Tcl_Obj* value = Tcl_GetVar2Ex(interp, "errorInfo", nullptr,
+      TCL_GLOBAL_ONLY);
+  if (value == nullptr)
+    value = Tcl_GetObjResult(interp);
+  return tcl_to_c_cast<String>::from(value, this);
 }
 
 ScriptInterp::LoadError ScriptInterpTCL::loadScript(const String& fileName,
-- 
2.43.0


From 49a92f9168d9ea2600ac6791a5f2ed8d85809efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:48 +0000
Subject: [PATCH 34/62] fix: pass large unsigned values to TCL as they are

They became negative.
---
 src/ScriptInterpTCL.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 9c4e15e..fd4fae8 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -393,7 +393,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int8_t&>::from(const int8_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint8_t&>::from(const uint8_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int8_t&>::from(value, interp);
+  return c_to_tcl_cast<const int16_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int16_t&>::from(const int16_t& value,
@@ -403,7 +403,7 @@ inline Tcl_Obj* c_to_tcl_cast<const int16_t&>::from(const int16_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint16_t&>::from(const uint16_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int16_t&>::from(value, interp);
+  return c_to_tcl_cast<const int32_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int32_t&>::from(const int32_t& value,
@@ -413,16 +413,19 @@ inline Tcl_Obj* c_to_tcl_cast<const int32_t&>::from(const int32_t& value,
 
 inline Tcl_Obj* c_to_tcl_cast<const uint32_t&>::from(const uint32_t& value,
     Tcl_Interp* interp) {
-  return c_to_tcl_cast<const int32_t&>::from(value, interp);
+  return c_to_tcl_cast<const int64_t&>::from(value, interp);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const int64_t&>::from(const int64_t& value,
     Tcl_Interp* interp) {
-  return Tcl_NewLongObj(value);
+  return Tcl_NewWideIntObj(value);
 }
 
 inline Tcl_Obj* c_to_tcl_cast<const uint64_t&>::from(const uint64_t& value,
     Tcl_Interp* interp) {
+  if (value > uint64_t(INT64_MAX))
+    return c_to_tcl_cast<const String&>::from(String::printf("%llu",
+          static_cast<unsigned long long>(value)), interp);
   return c_to_tcl_cast<const int64_t&>::from(value, interp);
 }
 
-- 
2.43.0


From b20807fcc12faf023e2eec93429920d0e9377138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:48 +0000
Subject: [PATCH 35/62] fix: convert 64-bit integers from TCL

uint64_t was always 0, and int64_t wrapped instead of rejecting values from
2^63.
---
 src/ScriptInterpTCL.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 605e9af..1495142 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -269,20 +269,33 @@ uint32_t tcl_to_c_cast<uint32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
 }
 
 int64_t tcl_to_c_cast<int64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
-  long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) != TCL_OK) {
+  Tcl_WideInt v = 0;
+  double d = 0;
+  if (Tcl_GetWideIntFromObj(0, obj, &v) != TCL_OK ||
+      Tcl_GetDoubleFromObj(0, obj, &d) != TCL_OK) {
     return 0;
     //return "Type Error";
   }
+  // TCL wraps values which only fit unsigned
+  if ((d < 0) != (v < 0)) {
+    //return "OverflowError";
+    return 0;
+  }
   return v;
 }
 
 uint64_t tcl_to_c_cast<uint64_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
-  long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
+  Tcl_WideInt v = 0;
+  double d = 0;
+  if (Tcl_GetWideIntFromObj(0, obj, &v) != TCL_OK ||
+      Tcl_GetDoubleFromObj(0, obj, &d) != TCL_OK) {
     return 0;
     //return "Type Error";
   }
+  if (d < 0) {
+    //return "OverflowError";
+    return 0;
+  }
   return v;
 }
 
-- 
2.43.0


From a6c15bfac33089bad13ca2608bd6ebded3673070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:48 +0000
Subject: [PATCH 36/62] fix: pass callback parameters to TCL verbatim

Parameters with quotes, brackets, dollars or backslashes were substituted or
evaluated as script.
---
 src/ScriptInterpTCL.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index fd4fae8..1e7f3de 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -126,8 +126,13 @@ class ScriptCallbackerTCL : public ScriptCallbacker {
       ScriptCallbacker(_si, _cmd) {};
     virtual ~ScriptCallbackerTCL() {};
     inline virtual String call(const Array<String>& params = Array<String>()) {
-      return si->eval(String::printf("%s %s", cmd.c_str(),
-            params.join(" ", true).c_str()));
+      /* A list is quoted such that eval will not substitute in it. */
+      Tcl_Obj* list = c_to_tcl_cast<const Array<String>&>::from(params,
+          nullptr);
+      Tcl_IncrRefCount(list);
+      const String args(tcl_to_c_cast<String>::from(list, si));
+      Tcl_DecrRefCount(list);
+      return si->eval(cmd + " " + args);
     }
 
 };
-- 
2.43.0


From 8bdd4e7076f9b5df4918d6632cc5c6e759bae7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:29 +0000
Subject: [PATCH 37/62] fix: find the handler of a TCL command by the command,
 not by its name

Calling a command as ::name or after renaming it dereferenced a null handler.
The handlers were also shared by all interps, so creating or deleting a
command in one, or destroying it, affected the others.
---
 src/ScriptInterpTCL.cpp |  4 ++--
 src/ScriptInterpTCL.h   | 23 ++++++++++++++++-------
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 1495142..c286017 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -10,7 +10,6 @@
 
 BDLIB_NS_BEGIN
 
-std::unordered_map<String, ScriptInterp::ScriptCmdPtr>ScriptInterpTCL::CmdHandlerData;
 std::unordered_map<String, ScriptInterp::link_var_hook_t> ScriptInterpTCL::link_var_hooks;
 
 int ScriptInterpTCL::init() {
@@ -71,7 +70,8 @@ int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
     ClientData clientData, Tcl_Interp *interp, int objc,
     Tcl_Obj *CONST objv[]) {
   String cmdName(tcl_to_c_cast<String>::from(objv[0], nullptr));
-  ScriptCmdPtr ccd = CmdHandlerData[cmdName];
+  /* Keep it around in case the callback deletes the command */
+  ScriptCmdPtr ccd = static_cast<ScriptCmdTCL*>(clientData)->shared_from_this();
 
   if ((size_t(objc) - 1) < ccd->callbackParamMin ||
       size_t(objc) - 1 > ccd->callbackParamMax) {
diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 1e7f3de..8478bbd 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -144,16 +144,23 @@ class ScriptInterpTCL : public ScriptInterp {
       Tcl_Obj* obj, ScriptInterp* si);
   private:
         Tcl_Interp *interp;
-        static std::unordered_map<String, ScriptCmdPtr>
-          CmdHandlerData;
+        std::unordered_map<String, ScriptCmdPtr> CmdHandlerData;
 
         ScriptInterpTCL(const ScriptInterpTCL&) = delete;
         ScriptInterpTCL& operator=(const ScriptInterpTCL&) = delete;
 
-        struct ScriptCmdTCL : public ScriptCmd {
+        struct ScriptCmdTCL : public ScriptCmd,
+            public std::enable_shared_from_this<ScriptCmdTCL> {
+          Tcl_Command token = nullptr;
+
           static int _createCommand_callback(ClientData clientData,
               Tcl_Interp *interp, int objc, Tcl_Obj *CONST objv[]);
 
+          /* The command is gone from the interp, maybe by the script */
+          static void _deleteCommand_callback(ClientData clientData) {
+            static_cast<ScriptCmdTCL*>(clientData)->registered = false;
+          }
+
           ScriptCmdTCL(const ScriptCmdTCL&) = delete;
           ScriptCmdTCL& operator=(const ScriptCmdTCL&) = delete;
           ScriptCmdTCL(ScriptInterpTCL* _si, const String &_cmdName,
@@ -168,15 +175,17 @@ class ScriptInterpTCL : public ScriptInterp {
           virtual void registerCmd() {
             if (registered)
               return;
-            Tcl_CreateObjCommand(static_cast<ScriptInterpTCL*>(si)->interp,
-                *cmdName, _createCommand_callback, nullptr, nullptr);
+            token = Tcl_CreateObjCommand(
+                static_cast<ScriptInterpTCL*>(si)->interp,
+                *cmdName, _createCommand_callback, this,
+                _deleteCommand_callback);
             ScriptCmd::registerCmd();
           }
           virtual void unregisterCmd() {
             if (!registered)
               return;
-            Tcl_DeleteCommand(static_cast<ScriptInterpTCL*>(si)->interp,
-                *cmdName);
+            Tcl_DeleteCommandFromToken(
+                static_cast<ScriptInterpTCL*>(si)->interp, token);
             ScriptCmd::unregisterCmd();
           }
         };
-- 
2.43.0


From f54c067af6a17904d77609d140c93fc94f20758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:29 +0000
Subject: [PATCH 38/62] fix: keep a linked variable's hook with its link

Hooks were kept by name for all interps: destroying one interp removed the
hooks of all, same named variables mixed them up, and a write as ::name did
not call it.  Linking a name again wrote to the old variable and, for
buffers, to freed memory.
---
 src/ScriptInterpTCL.cpp | 14 +++++----
 src/ScriptInterpTCL.h   | 68 ++++++++++++++++++-----------------------
 2 files changed, 38 insertions(+), 44 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index c286017..da142a3 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -10,8 +10,6 @@
 
 BDLIB_NS_BEGIN
 
-std::unordered_map<String, ScriptInterp::link_var_hook_t> ScriptInterpTCL::link_var_hooks;
-
 int ScriptInterpTCL::init() {
   // create interp
   interp = Tcl_CreateInterp();
@@ -100,13 +98,17 @@ int ScriptInterpTCL::ScriptCmdTCL::_createCommand_callback(
   return TCL_OK;
 }
 
-void ScriptInterpTCL::setupTraces(const String& varName, ClientData var,
-    Tcl_VarTraceProc* get, Tcl_VarTraceProc* set, link_var_hook_t hook_func) {
+void ScriptInterpTCL::setupTraces(const String& varName,
+    std::unique_ptr<trace_ptr_data> data, Tcl_VarTraceProc* get,
+    Tcl_VarTraceProc* set) {
+  const ClientData var = data.get();
+
+  /* Remove the traces of an older link before its data */
+  unlinkVar(varName);
+  trace_ptrs[varName] = std::move(data);
   Tcl_SetVar(interp, *varName, "", TCL_GLOBAL_ONLY);
   Tcl_TraceVar(interp, *varName, TCL_TRACE_READS | TCL_GLOBAL_ONLY, get, var);
   Tcl_TraceVar(interp, *varName, TCL_TRACE_WRITES | TCL_GLOBAL_ONLY, set, var);
-  if (hook_func != nullptr)
-    link_var_hooks[varName] = hook_func;
 }
 
 const char* ScriptInterpTCL::TraceSetRO(const ClientData clientData,
diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 8478bbd..871f4d6 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -204,15 +204,18 @@ class ScriptInterpTCL : public ScriptInterp {
         struct trace_ptr_data {
           void* ptr;
           size_t size;
-          trace_ptr_data(void* _ptr, size_t _size) : ptr(_ptr), size(_size) {};
+          link_var_hook_t hook;
+          trace_ptr_data(const void* _ptr, size_t _size,
+              link_var_hook_t _hook) :
+            ptr(const_cast<void*>(_ptr)), size(_size), hook(_hook) {};
           trace_ptr_data(const trace_ptr_data&) = delete;
           trace_ptr_data& operator=(const trace_ptr_data&) = delete;
         };
         std::unordered_map<String, std::unique_ptr<trace_ptr_data>> trace_ptrs;
 
-        void setupTraces(const String& name, ClientData var,
-            Tcl_VarTraceProc* get, Tcl_VarTraceProc* set,
-            link_var_hook_t hook_func);
+        void setupTraces(const String& name,
+            std::unique_ptr<trace_ptr_data> data,
+            Tcl_VarTraceProc* get, Tcl_VarTraceProc* set);
 
         static const char* TraceGet (Tcl_Obj* value, Tcl_Interp *interp,
             char *name1, char *name2, int flags);
@@ -220,8 +223,9 @@ class ScriptInterpTCL : public ScriptInterp {
         template<typename T>
         static inline const char* tcl_traceGet(ClientData clientData,
             Tcl_Interp* interp, char* name1, char* name2, int flags) {
+          auto data = static_cast<const trace_ptr_data*>(clientData);
           return TraceGet(
-              c_to_tcl_cast<T&>::from(*static_cast<T*>(clientData), interp),
+              c_to_tcl_cast<T&>::from(*static_cast<T*>(data->ptr), interp),
               interp, name1, name2, flags);
         }
         template<typename T>
@@ -232,13 +236,6 @@ class ScriptInterpTCL : public ScriptInterp {
               c_to_tcl_cast<T>::from(static_cast<T>(data->ptr),
                 interp), interp, name1, name2, flags);
         }
-        template<typename T>
-        static inline const char* tcl_traceGetPtr(ClientData clientData,
-            Tcl_Interp* interp, char* name1, char* name2, int flags) {
-          return TraceGet(
-              c_to_tcl_cast<T>::from(static_cast<T>(clientData),
-                interp), interp, name1, name2, flags);
-        }
 
         template<typename T>
         static const char* tcl_traceSet(ClientData clientData,
@@ -247,14 +244,13 @@ class ScriptInterpTCL : public ScriptInterp {
               flags);
           if (!obj)
             return name1;
-          const auto oldval(std::move(*static_cast<T*>(clientData)));
+          auto data = static_cast<const trace_ptr_data*>(clientData);
+          const auto oldval(std::move(*static_cast<T*>(data->ptr)));
 
-          *static_cast<T*>(clientData) =
+          *static_cast<T*>(data->ptr) =
             std::move(tcl_to_c_cast<T>::from(obj, nullptr));
-          const auto link_var_hook = link_var_hooks.find(name1);
-          if (link_var_hook != std::end(link_var_hooks))
-            link_var_hook->second(
-                (const void*)&oldval, (const void*)(clientData));
+          if (data->hook)
+            data->hook((const void*)&oldval, (const void*)(data->ptr));
           return nullptr;
         }
 
@@ -265,12 +261,11 @@ class ScriptInterpTCL : public ScriptInterp {
               flags);
           if (!obj)
             return name1;
-          const auto link_var_hook = link_var_hooks.find(name1);
           auto data = static_cast<const trace_ptr_data*>(clientData);
           /* Save oldval */
           typedef typename std::pointer_traits<T>::element_type T_name;
           std::unique_ptr<T_name[]> oldval;
-          if (link_var_hook != std::end(link_var_hooks)) {
+          if (data->hook) {
             oldval = std::move(std::make_unique<T_name[]>(data->size));
             memcpy(oldval.get(), static_cast<T>(data->ptr), data->size);
           }
@@ -280,9 +275,8 @@ class ScriptInterpTCL : public ScriptInterp {
           if __CPP17_IFCONSTEXPR (std::is_same<T, char*>::value ||
               std::is_same<T, const char*>::value)
             static_cast<T>(data->ptr)[data->size - 1] = '\0';
-          if (link_var_hook != std::end(link_var_hooks))
-            link_var_hook->second(
-                (const void*)(oldval.get()), (const void*)(data->ptr));
+          if (data->hook)
+            data->hook((const void*)(oldval.get()), (const void*)(data->ptr));
           return nullptr;
         }
 
@@ -296,7 +290,6 @@ class ScriptInterpTCL : public ScriptInterp {
   protected:
         virtual int init();
         virtual int destroy();
-        static std::unordered_map<String, link_var_hook_t> link_var_hooks;
 
   public:
         ScriptInterpTCL() : ScriptInterp(), interp(nullptr), trace_ptrs() {
@@ -304,8 +297,6 @@ class ScriptInterpTCL : public ScriptInterp {
         }
         virtual ~ScriptInterpTCL() {
           CmdHandlerData.clear();
-          link_var_hooks.clear();
-          trace_ptrs.clear();
           destroy();
         }
 
@@ -337,9 +328,10 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, T& var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) &var,
+          setupTraces(varName,
+              std::make_unique<trace_ptr_data>(&var, sizeof(var), hook_func),
               (Tcl_VarTraceProc*) tcl_traceGet<const T>,
-              (Tcl_VarTraceProc*) tcl_traceSet<T>, hook_func);
+              (Tcl_VarTraceProc*) tcl_traceSet<T>);
         }
 
         /**
@@ -350,11 +342,10 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, T* var, size_t size,
             link_var_hook_t hook_func = nullptr) {
-          auto data = std::make_unique<trace_ptr_data>(var, size);
-          setupTraces(varName, (ClientData) data.get(),
+          setupTraces(varName,
+              std::make_unique<trace_ptr_data>(var, size, hook_func),
               (Tcl_VarTraceProc*) tcl_traceGetPtrData<const T*>,
-              (Tcl_VarTraceProc*) tcl_traceSetPtr<T*>, hook_func);
-          trace_ptrs[varName] = std::move(data);
+              (Tcl_VarTraceProc*) tcl_traceSetPtr<T*>);
         }
 
         /**
@@ -366,9 +357,10 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, const T* var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) var,
-              (Tcl_VarTraceProc*) tcl_traceGetPtr<const T*>,
-              (Tcl_VarTraceProc*) TraceSetRO, hook_func);
+          setupTraces(varName,
+              std::make_unique<trace_ptr_data>(var, 0, hook_func),
+              (Tcl_VarTraceProc*) tcl_traceGetPtrData<const T*>,
+              (Tcl_VarTraceProc*) TraceSetRO);
         }
 
         /**
@@ -380,9 +372,10 @@ class ScriptInterpTCL : public ScriptInterp {
         template <typename T>
         inline void linkVar(const String& varName, const T& var,
             link_var_hook_t hook_func = nullptr) {
-          setupTraces(varName, (ClientData) &var,
+          setupTraces(varName,
+              std::make_unique<trace_ptr_data>(&var, sizeof(var), hook_func),
               (Tcl_VarTraceProc*) tcl_traceGet<const T>,
-              (Tcl_VarTraceProc*) TraceSetRO, hook_func);
+              (Tcl_VarTraceProc*) TraceSetRO);
         }
 
         /**
@@ -391,7 +384,6 @@ class ScriptInterpTCL : public ScriptInterp {
          */
         virtual void unlinkVar(const String& varName) {
           Tcl_UnsetVar(interp, *varName, TCL_GLOBAL_ONLY);
-          link_var_hooks.erase(varName);
           trace_ptrs.erase(varName);
         }
 
-- 
2.43.0


From 07758c6823ce239135cc22a890dfa798d73c7f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:29 +0000
Subject: [PATCH 39/62] fix: do not read past the end of a TCL string written
 to a linked buffer

---
 src/ScriptInterpTCL.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.h b/src/ScriptInterpTCL.h
index 871f4d6..dec9e90 100644
--- a/src/ScriptInterpTCL.h
+++ b/src/ScriptInterpTCL.h
@@ -35,6 +35,7 @@
 #include <type_traits>
 #include <cstddef>
 #include <cstdint>
+#include <cstring>
 #include <limits.h>
 #include <sys/types.h>
 
@@ -270,8 +271,8 @@ class ScriptInterpTCL : public ScriptInterp {
             memcpy(oldval.get(), static_cast<T>(data->ptr), data->size);
           }
 
-          memmove(data->ptr, tcl_to_c_cast<T>::from(obj, nullptr),
-              data->size);
+          const T value = tcl_to_c_cast<T>::from(obj, nullptr);
+          memmove(data->ptr, value, std::min(data->size, strlen(value) + 1));
           if __CPP17_IFCONSTEXPR (std::is_same<T, char*>::value ||
               std::is_same<T, const char*>::value)
             static_cast<T>(data->ptr)[data->size - 1] = '\0';
-- 
2.43.0


From c764fe3e669129afbfc8faaef21c59a25555e69a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:59:35 +0000
Subject: [PATCH 40/62] fix: do not declare throwing searches pure, which clang
 takes as nounwind

---
 src/ReferenceCountedArray.h | 2 +-
 src/String.h                | 7 +++----
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 475ee41..1e35741 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -823,7 +823,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @param pos Where to start the search
      * @return The position of the item if found, or npos if not found
      **/
-    size_t find(const_reference item, size_t pos) const __attribute__((pure)) {
+    size_t find(const_reference item, size_t pos) const {
       if (pos != 0)
         validateIndex(pos - 1);
       return _find(item, pos);
diff --git a/src/String.h b/src/String.h
index e81d1f8..50ddefc 100755
--- a/src/String.h
+++ b/src/String.h
@@ -190,7 +190,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
      * @param pos Where to start the search
          * @return The position of the string if found, or String::npos if not found
          **/
-        size_t find(const String& str, size_t pos) const __attribute__((pure)) {
+        size_t find(const String& str, size_t pos) const {
           if (pos != 0)
             validateIndex(pos - 1);
           return _find(str, pos);
@@ -215,15 +215,14 @@ class String : public ReferenceCountedArray<String_Array_Type> {
          * @return The position of the string if found, or String::npos if not found
          * @sa ifind
          */
-        size_t rifind(const String& str, const size_t lpos = 0) const
-          __attribute__((pure));
+        size_t rifind(const String& str, const size_t lpos = 0) const;
 
         /**
          * @brief Find a string in the string, ignoring case
          * @param str The substring to look for
          * @return The position of the string if found, or String::npos if not found
          **/
-        size_t ifind(const String& str) const __attribute__((pure));
+        size_t ifind(const String& str) const;
 
 	/**
 	 * @brief Cstring accessor
-- 
2.43.0


From ce4a3fb08be0b33159b49b201c37e55daa81d73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:07 +0000
Subject: [PATCH 41/62] fix: tell a NUL from the terminator at the last
 compared character

---
 src/String.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/String.cpp b/src/String.cpp
index 27b05cb..fcdd5d7 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -91,10 +91,12 @@ int String::compare(const char* str, size_t n) const noexcept
   if (n == 0)
     return 0;
   for (size_t pos = 0; pos < length(); ++pos) {
-    if (*constBuf(pos) != *str++ || --n == 0)
+    if (*constBuf(pos) != *str++)
       return *(unsigned char*)(constBuf(pos)) - *(unsigned char*)(str - 1);
     if (*(str - 1) == '\0') // Our NUL is not a terminator, theirs is
       return 1;
+    if (--n == 0)
+      return 0;
   }
   return (unsigned char)'\0' - *(unsigned char*)str;
 }
-- 
2.43.0


From 4b8361d58fed7e238d6670128d0b97ac85f783b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:00:50 +0000
Subject: [PATCH 42/62] fix: do not overwrite the last character in
 String::reserve()

---
 src/String.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.h b/src/String.h
index 50ddefc..3758bc3 100755
--- a/src/String.h
+++ b/src/String.h
@@ -141,7 +141,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
             double scaling_factor = 1) const override {
           const size_t realSize = newSize > 0 ? newSize + 1 : newSize;
           ReferenceCountedArray::reserve(realSize, scaling_factor);
-          if (constBuf() != nullptr) {
+          if (capacity() > offset + length()) {
             *Buf(capacity() - offset - 1) = '\0';
           }
         }
-- 
2.43.0


From 459c2a1f47dc5d421b11534dc247b853de03b8eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:09:56 +0000
Subject: [PATCH 43/62] fix: do not overflow the position in Stream::seek()

---
 src/Stream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index a7d214f..c22c7e8 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -47,17 +47,17 @@ void Stream::reserve(const size_t newSize) const {
 }
 
 int Stream::seek(int offset, int whence) {
-  int newpos;
+  ssize_t newpos;
 
   switch (whence) {
     case SEEK_SET:
       newpos = offset;
       break;
     case SEEK_CUR:
-      newpos = tell() + offset;
+      newpos = static_cast<ssize_t>(tell()) + offset;
       break;
     case SEEK_END:
-      newpos = capacity() - offset;
+      newpos = static_cast<ssize_t>(capacity()) - offset;
       break;
     default:
       newpos = tell();
-- 
2.43.0


From 19af73c97585fe9cd5b8a08833a49c3aad31c4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:19 +0000
Subject: [PATCH 44/62] fix: report read failures in Stream::loadFile() without
 mmap(2)

---
 src/Stream.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index c22c7e8..e1df67c 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -139,11 +139,13 @@ int Stream::loadFile(const int fd)
     return 1;
   }
 
+  struct stat st;
+  if (fstat(my_fd, &st) || S_ISDIR(st.st_mode) || fseek(f, 0, SEEK_SET)) {
+    fclose(f);
+    return 1;
+  }
   loading = 1;
-  fseek(f, 0, SEEK_END);
-  size_t size = ftell(f);
-  fseek(f, 0, SEEK_SET);
-  reserve(size);
+  reserve(st.st_size);
 
   size_t len = 0;
   char buf[STREAM_BLOCKSIZE + 1];
@@ -151,6 +153,12 @@ int Stream::loadFile(const int fd)
   while ((len = fread(buf, 1, sizeof(buf) - 1, f))) {
     puts(String(buf, len));
   }
+  if (ferror(f)) {
+    fclose(f);
+    clear();
+    loading = 0;
+    return 1;
+  }
   fclose(f);
 #endif
   seek(0, SEEK_SET);
-- 
2.43.0


From 7632801c5ea3a44ba9f83b1b9c793d550500ee3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:10:22 +0000
Subject: [PATCH 45/62] fix: report a failure to close the file in
 Stream::writeFile()

---
 src/Stream.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index e1df67c..79efdbf 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -172,7 +172,8 @@ int Stream::writeFile(const String& file, mode_t mode) const
   if (fd == -1)
     return 1;
   int ret = writeFile(fd);
-  close(fd);
+  if (close(fd) == -1)
+    return 1;
   return ret;
 }
 
@@ -207,7 +208,8 @@ int Stream::writeFile(const int fd) const
     fclose(f);
     return 1;
   }
-  fclose(f);
+  if (fclose(f))
+    return 1;
 #endif
   return 0;
 }
-- 
2.43.0


From 26656de6d40b6fb65d0396ce580db36f5d22e916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:43 +0000
Subject: [PATCH 46/62] fix: allow assigning a temporary Stream

operator=(Stream) and operator=(Stream&&) are ambiguous for an rvalue, so
assigning a temporary did not compile; the by-value one moves as well.
---
 src/Stream.h | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/Stream.h b/src/Stream.h
index 779a13e..8a6875b 100644
--- a/src/Stream.h
+++ b/src/Stream.h
@@ -77,8 +77,6 @@ class Stream {
           return *this;
         }
 
-        Stream& operator=(Stream&& stream) & noexcept = default;
-
         void reserve(const size_t) const;
 
         /**
-- 
2.43.0


From 71c3c3fd75a55bca247764c046aaa3d48a2b0033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:38 +0000
Subject: [PATCH 47/62] fix: keep the old value if assigning to it runs out of
 memory

Assigning a std::string or an initializer list cleared the value before
allocating room for the new one.
---
 src/ReferenceCountedArray.h | 3 +--
 src/String.h                | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 1e35741..d8b4600 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -591,8 +591,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @param list An initializer_list
      */
     ReferenceCountedArray& operator=(std::initializer_list<value_type> list) {
-      clear();
-      reserve(list.size());
+      AboutToModify(list.size());
       std::copy(list.begin(), list.end(), Buf());
       sublen = list.size();
       return *this;
diff --git a/src/String.h b/src/String.h
index 3758bc3..139a403 100755
--- a/src/String.h
+++ b/src/String.h
@@ -165,8 +165,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
         }
 
         String& operator=(std::string str) {
-          clear();
-          ReferenceCountedArray::reserve(str.length()+1);
+          AboutToModify(str.length()+1);
           sublen = str.length();
           ::memcpy(Buf(), str.data(), sublen+1);
           assert(*Buf(sublen) == '\0');
-- 
2.43.0


From 3760120b6e3e6248f674062f8ea26bcbb651cf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:56 +0000
Subject: [PATCH 48/62] fix: no data race between threads hashing the elements
 of a shared array

hash() stores its result in the element, which lives in storage shared with
arrays of other threads that may be hashing or copying it as well.
---
 src/ReferenceCountedArray.h | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index d8b4600..589d88f 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -222,6 +222,30 @@ class ReferenceCountedArrayBase {
 };
 
 
+/**
+ * @class HashCache
+ * @brief A cached hash. The elements of a shared array may be hashed by
+ * several threads at once, all of which store the same value.
+ */
+class HashCache {
+  private:
+    std::atomic<size_t> value;
+
+  public:
+    HashCache(size_t hash = 0) noexcept : value(hash) {};
+    HashCache(const HashCache& cache) noexcept : value(size_t(cache)) {};
+    HashCache& operator=(const HashCache& cache) noexcept {
+      return *this = size_t(cache);
+    }
+    HashCache& operator=(size_t hash) noexcept {
+      value.store(hash, std::memory_order_relaxed);
+      return *this;
+    }
+    operator size_t() const noexcept {
+      return value.load(std::memory_order_relaxed);
+    }
+};
+
 static constexpr double _rca_cow_scaling_factor = 1.5;
 
 template <class T, class Allocator = std::allocator<T> >
@@ -338,7 +362,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     /**
      * Cache of current hash() result. 0 if stale
      */
-    mutable size_t my_hash = 0;
+    mutable HashCache my_hash{};
 
   private:
     /**
@@ -792,7 +816,7 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
      * @note DJB's hash function
      */
     size_t hash() const noexcept {
-      if (my_hash != 0) return my_hash;
+      if (const size_t cached = my_hash) return cached;
       std::hash<value_type> hasher;
       size_t _hash = 5381;
 
-- 
2.43.0


From 68f609be405135993c64e88d8cf79f1e2898ba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:33 +0000
Subject: [PATCH 49/62] fix: let c_str() report that it ran out of memory

It may need to make room for the terminator but was declared noexcept, so a
failed allocation ended the program.
---
 src/String.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/String.h b/src/String.h
index 139a403..fdd49da 100755
--- a/src/String.h
+++ b/src/String.h
@@ -230,7 +230,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
 	 * @post There is a '\\0' at the end of the buffer.
 	 * @post The actual String size is unchanged.
 	 */
-        const char* c_str() const noexcept {
+        const char* c_str() const {
           if (length() == 0)
             return "";
           assert(constBuf() != nullptr);
@@ -269,7 +269,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
         /**
          * @sa c_str()
          */
-        inline const char* operator*() const noexcept { return c_str(); };
+        inline const char* operator*() const { return c_str(); };
 
         /**
          * @sa c_str()
-- 
2.43.0


From e80f3be1457712e7c9d84e56970c81277c86cdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:57 +0000
Subject: [PATCH 50/62] fix: allow a script to write to a linked array element

---
 src/ScriptInterpTCL.cpp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index da142a3..86217b7 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -129,10 +129,7 @@ const char* ScriptInterpTCL::TraceGet(Tcl_Obj* value, Tcl_Interp *interp,
 
 Tcl_Obj* ScriptInterpTCL::TraceSet(Tcl_Interp *interp, char *name1,
     char *name2, int flags) {
-  Tcl_Obj *name1o = c_to_tcl_cast<const char*>::from(name1, interp);
-  Tcl_Obj *value = Tcl_ObjGetVar2(interp, name1o, 0, flags);
-  Tcl_DecrRefCount(name1o);
-  return value;
+  return Tcl_GetVar2Ex(interp, name1, name2, flags);
 }
 
 Tcl_Obj* c_to_tcl_cast<const Array<String>&>::from(const Array<String>& array,
-- 
2.43.0


From c00a2124c1467b1fb044c49ab6f403f866cf1add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:22 +0000
Subject: [PATCH 51/62] fix: do not wrap integers from TCL that only fit an
 unsigned long

---
 src/ScriptInterpTCL.cpp | 66 +++++++++++------------------------------
 1 file changed, 18 insertions(+), 48 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 86217b7..7524655 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -184,85 +184,55 @@ const char* tcl_to_c_cast<const char*>::from(Tcl_Obj* obj, ScriptInterp* si) {
 }
 
 int8_t tcl_to_c_cast<int8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
-  long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
-    if ((v < INT8_MIN || v > INT8_MAX)) {
-      //return "OverflowError";
-      return 0;
-    }
-  } else {
+  const int64_t v = tcl_to_c_cast<int64_t>::from(obj, si);
+  if (v < INT8_MIN || v > INT8_MAX) {
+    //return "OverflowError";
     return 0;
-    //return "Type Error";
   }
   return v;
 }
 
 uint8_t tcl_to_c_cast<uint8_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
-  long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
-    if ((v < 0 || v > UINT8_MAX)) {
-      //return "OverflowError";
-      return 0;
-    }
-  } else {
+  const int64_t v = tcl_to_c_cast<int64_t>::from(obj, si);
+  if (v < 0 || v > UINT8_MAX) {
+    //return "OverflowError";
     return 0;
-    //return "Type Error";
   }
   return v;
 }
 
 int16_t tcl_to_c_cast<int16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
-  long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
-    if ((v < INT16_MIN || v > INT16_MAX)) {
-      //return "OverflowError";
-      return 0;
-    }
-  } else {
+  const int64_t v = tcl_to_c_cast<int64_t>::from(obj, si);
+  if (v < INT16_MIN || v > INT16_MAX) {
+    //return "OverflowError";
     return 0;
-    //return "Type Error";
   }
   return v;
 }
 
 uint16_t tcl_to_c_cast<uint16_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
-  long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
-    if ((v < 0 || v > UINT16_MAX)) {
-      //return "OverflowError";
-      return 0;
-    }
-  } else {
+  const int64_t v = tcl_to_c_cast<int64_t>::from(obj, si);
+  if (v < 0 || v > UINT16_MAX) {
+    //return "OverflowError";
     return 0;
-    //return "Type Error";
   }
   return v;
 }
 
 int32_t tcl_to_c_cast<int32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
-  long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
-    if ((v < INT32_MIN || v > INT32_MAX)) {
-      //return "OverflowError";
-      return 0;
-    }
-  } else {
+  const int64_t v = tcl_to_c_cast<int64_t>::from(obj, si);
+  if (v < INT32_MIN || v > INT32_MAX) {
+    //return "OverflowError";
     return 0;
-    //return "Type Error";
   }
   return v;
 }
 
 uint32_t tcl_to_c_cast<uint32_t>::from(Tcl_Obj* obj, ScriptInterp* si) {
-  long v = 0;
-  if (Tcl_GetLongFromObj(0, obj, &v) == TCL_OK) {
-    if ((v < 0 || v > UINT32_MAX)) {
-      //return "OverflowError";
-      return 0;
-    }
-  } else {
+  const int64_t v = tcl_to_c_cast<int64_t>::from(obj, si);
+  if (v < 0 || v > UINT32_MAX) {
+    //return "OverflowError";
     return 0;
-    //return "Type Error";
   }
   return v;
 }
-- 
2.43.0


From 5c77a5f2840900e1ae0e1696ccac53dca5976be6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:03:16 +0000
Subject: [PATCH 52/62] fix: lists written to a linked variable

There is no ScriptInterp in a variable trace; do not dereference it.
---
 src/ScriptInterpTCL.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ScriptInterpTCL.cpp b/src/ScriptInterpTCL.cpp
index 7524655..62f1e37 100644
--- a/src/ScriptInterpTCL.cpp
+++ b/src/ScriptInterpTCL.cpp
@@ -306,7 +306,8 @@ Array<String> tcl_to_c_cast<Array<String>>::from(Tcl_Obj* obj,
   Tcl_Obj** objv;
 
   // FIXME: Exception
-  if (Tcl_ListObjGetElements((reinterpret_cast<ScriptInterpTCL*>(si))->interp,
+  if (Tcl_ListObjGetElements(
+        si ? (reinterpret_cast<ScriptInterpTCL*>(si))->interp : nullptr,
         obj, &objc, &objv) != TCL_OK)
     return Array<String>();
 
@@ -324,7 +325,8 @@ Array<Array<String>> tcl_to_c_cast<Array<Array<String>>>::from(Tcl_Obj* obj,
   Tcl_Obj** objv;
 
   // FIXME: Exception
-  if (Tcl_ListObjGetElements((reinterpret_cast<ScriptInterpTCL*>(si))->interp,
+  if (Tcl_ListObjGetElements(
+        si ? (reinterpret_cast<ScriptInterpTCL*>(si))->interp : nullptr,
         obj, &objc, &objv) != TCL_OK)
     return Array<Array<String>>();
 
-- 
2.43.0


From 39b3b9af7fe1eeb0f28ab3bd67361a369eb24cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:35 +0000
Subject: [PATCH 53/62] fix: String::compare: length differences which do not
 fit an int

---
 src/String.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/String.cpp b/src/String.cpp
index fcdd5d7..e408c5a 100644
--- a/src/String.cpp
+++ b/src/String.cpp
@@ -38,6 +38,11 @@ BDLIB_NS_BEGIN
 
 std::atomic<unsigned char> String::cleanse_ctr{0};
 
+/* The difference of two lengths may not fit an int */
+static inline int compareLength(size_t a, size_t b) noexcept {
+  return a < b ? -1 : a > b;
+}
+
 /* Accessors */
 int String::compare(const String& str) const noexcept
 {
@@ -52,7 +57,7 @@ int String::compare(const String& str) const noexcept
   if (diff)
     return diff;
   else
-    return mylen - slen;
+    return compareLength(mylen, slen);
 }
 
 int String::compare(const String& str, size_t n) const noexcept
@@ -70,9 +75,9 @@ int String::compare(const String& str, size_t n) const noexcept
   if (diff)
     return diff;
   else if (n)
-    return std::min(mylen, n) - slen;
+    return compareLength(std::min(mylen, n), slen);
   else
-    return mylen - slen;
+    return compareLength(mylen, slen);
 }
 
 int String::compare(const char* str) const noexcept
-- 
2.43.0


From fc75c6913076c9de545ff8520c69541e80decd42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:38 +0000
Subject: [PATCH 54/62] fix: String: wipe a buffer whose last owners are
 destroyed at once

---
 src/ReferenceCountedArray.h | 13 +++++++++++++
 src/String.h                |  2 +-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index 589d88f..a843f23 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -436,6 +436,19 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
     }
 
   protected:
+    /**
+     * @brief Give up our reference before we are destroyed.
+     * @return True if it was the last one, in which case the buffer is ours alone until it is free'd.
+     */
+    inline bool releaseRef() noexcept {
+      if (Ref && decRef() < 1) {
+        Ref->refs = 1;
+        return true;
+      }
+      Ref = nullptr;
+      return false;
+    }
+
     /**
      * @brief Force COW if needed
      * @post The array is no longer shared, if it was.
diff --git a/src/String.h b/src/String.h
index fdd49da..3066d51 100755
--- a/src/String.h
+++ b/src/String.h
@@ -150,7 +150,7 @@ class String : public ReferenceCountedArray<String_Array_Type> {
 
         ~String() {
           /* If deallocating the last reference, cleanse the string buffer with OPENSSL_cleanse() */
-          if (rcount() == 1) {
+          if (releaseRef()) {
             cleanse();
           }
         }
-- 
2.43.0


From 856bdb281d2bd3f7fd3e92b3c4cf02e3146b0b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:40 +0000
Subject: [PATCH 55/62] fix: Stream::writeFile: a full disk killed the process

---
 src/Stream.cpp | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 79efdbf..1efc284 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -180,19 +180,15 @@ int Stream::writeFile(const String& file, mode_t mode) const
 int Stream::writeFile(const int fd) const
 {
 #ifdef HAVE_MMAP
-  /* Write to end of file to make its size match */
-  /* Seek past wherever it is at now plus our length */
-  if (ftruncate(fd, length())) return 1;
-  if (!length())
-    return 0;
-
-  void* map = mmap(0, length(), PROT_READ|PROT_WRITE, MAP_SHARED, fd, 0);
+  if (ftruncate(fd, 0)) return 1;
 
-  if (map == MAP_FAILED) return 1;
+  /* A full disk would raise SIGBUS in a mapping */
+  for (size_t done = 0; done < length();) {
+    const ssize_t len = pwrite(fd, str.cbegin() + done, length() - done, done);
 
-  std::memcpy(map, str.cbegin(), length());
-
-  if (munmap(map, length()) == -1) return 1;
+    if (len <= 0) return 1;
+    done += len;
+  }
 #else
   int my_fd = dup(fd);
   if (my_fd == -1) {
-- 
2.43.0


From 2d51dd593bfefb8e61874d7f0f7ef7d3f9505f2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:10 +0000
Subject: [PATCH 56/62] fix: Array: dropping from an array whose length does
 not fit an int

---
 src/Array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Array.h b/src/Array.h
index 57a56ff..7b4cc3a 100644
--- a/src/Array.h
+++ b/src/Array.h
@@ -331,7 +331,7 @@ class Array : public ReferenceCountedArray<T> {
     inline Array& operator+=(const int n) & {
       if (!this->length())
         return *this;
-      if (int(this->length()) - n < 0) {
+      if (ssize_t(this->length()) - n < 0) {
         this->offset = this->length();
         this->setLength(0);
       } else {
@@ -344,7 +344,7 @@ class Array : public ReferenceCountedArray<T> {
     inline Array& operator-=(const int n) & {
       if (!this->length())
         return *this;
-      if (int(this->length()) - n < 0) {
+      if (ssize_t(this->length()) - n < 0) {
         this->offset = this->length();
         this->setLength(0);
       } else
-- 
2.43.0


From 1ae3ce53c075933ef03945e6b41a4e2d0b625030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:44:23 +0000
Subject: [PATCH 57/62] fix: str_redup: the new text may be in the old copy

---
 src/Cstrings.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Cstrings.cpp b/src/Cstrings.cpp
index 18dba8d..6db6c41 100644
--- a/src/Cstrings.cpp
+++ b/src/Cstrings.cpp
@@ -97,16 +97,15 @@ strlcat(char *dst, const char *src, size_t siz)
 void
 str_redup(char **str, const char *newstr)
 {
-        size_t len;
+        char *old = *str;
 
         if (!newstr) {
-                if (*str) free(*str);
+                if (old) free(old);
                 *str = nullptr;
                 return;
         }
-        len = strlen(newstr) + 1;
-        *str = static_cast<char*>(realloc(*str, len));
-        memcpy(*str, newstr, len);
+        *str = strdup(newstr); // newstr may be in the old copy
+        free(old);
 }
 
 char *
-- 
2.43.0


From c788838186ed110809df4b75222b604219c2e7eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:45:08 +0000
Subject: [PATCH 58/62] fix: base64: report running out of memory and leak
 nothing then

---
 src/base64.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/base64.cpp b/src/base64.cpp
index 8c4a8e7..2446912 100644
--- a/src/base64.cpp
+++ b/src/base64.cpp
@@ -27,6 +27,8 @@
 
 #include <cstdlib>
 #include <cstring>
+#include <memory>
+#include <new>
 #include "base64.h"
 #include "String.h"
 
@@ -102,10 +104,10 @@ void b64enc_buf(const unsigned char *data, size_t *len, char *dest, const char*
 
 String base64Encode(const String& string, const char* charset) {
   size_t len = string.length();
-  char *p = b64enc(reinterpret_cast<const unsigned char*>(string.cbegin()), &len, charset);
-  BDLIB_NS::String encoded(p, len);
-  free(p);
-  return encoded;
+  const std::unique_ptr<char, decltype(&free)> p(b64enc(reinterpret_cast<const unsigned char*>(string.cbegin()), &len, charset), &free);
+  if (p == nullptr)
+    throw std::bad_alloc();
+  return BDLIB_NS::String(p.get(), len);
 }
 
 char *b64enc(const unsigned char *src, size_t *len, const char* charset)
@@ -113,6 +115,8 @@ char *b64enc(const unsigned char *src, size_t *len, const char* charset)
   /* Take the length and round up the next 4-byte boundary */
   size_t dlen = (((*len + (NUM_ASCII_BYTES - 1)) / NUM_ASCII_BYTES) * NUM_ENCODED_BYTES);
   char *dest = static_cast<char*>(malloc(dlen + 1));
+  if (dest == nullptr)
+    return nullptr;
 
   b64enc_buf(src, len, dest, charset);
   dest[*len] = '\0';
@@ -159,6 +163,8 @@ char *b64dec(const unsigned char *data, size_t *len, const char* charset)
 {
   size_t dlen = ((*len / NUM_ENCODED_BYTES) + ((*len % NUM_ENCODED_BYTES) ? 1 : 0)) * NUM_ASCII_BYTES;
   char *dest = static_cast<char*>(malloc(dlen + 1));
+  if (dest == nullptr)
+    return nullptr;
 
   if (charset) {
     char charset_index[256];
@@ -174,10 +180,10 @@ char *b64dec(const unsigned char *data, size_t *len, const char* charset)
 
 String base64Decode(const String& string, const char* charset) {
   size_t len = string.length();
-  char *p = b64dec(reinterpret_cast<const unsigned char*>(string.cbegin()), &len, charset);
-  BDLIB_NS::String decoded(p, len);
-  free(p);
-  return decoded;
+  const std::unique_ptr<char, decltype(&free)> p(b64dec(reinterpret_cast<const unsigned char*>(string.cbegin()), &len, charset), &free);
+  if (p == nullptr)
+    throw std::bad_alloc();
+  return BDLIB_NS::String(p.get(), len);
 }
 
 BDLIB_NS_END
-- 
2.43.0


From 858c893d2061a926a375fc870a91c0dcafdda713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:51 +0000
Subject: [PATCH 59/62] fix: inserting a range: undo a part of it if an element
 cannot be made

---
 src/ReferenceCountedArray.h | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/ReferenceCountedArray.h b/src/ReferenceCountedArray.h
index a843f23..64507ee 100644
--- a/src/ReferenceCountedArray.h
+++ b/src/ReferenceCountedArray.h
@@ -1100,8 +1100,15 @@ class ReferenceCountedArray : public ReferenceCountedArrayBase {
       auto index = pos - cbegin();
       const auto rindex = index;
       AboutToModify(length() + std::distance(first, last));
-      while (first != last)
-        insert(std::next(begin(), index++), *first++);
+      try {
+        for (; first != last; ++first, ++index)
+          insert(std::next(begin(), index), *first);
+      } catch (...) {
+        /* Take out those that made it */
+        std::move(Buf(index), Buf(length()), Buf(rindex));
+        subLength(index - rindex);
+        throw;
+      }
       return std::next(begin(), rindex);
     }
 
-- 
2.43.0


From 7ec626dff03177d9d7c73dbeee5c31ec6ee8854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:13:40 +0000
Subject: [PATCH 60/62] fix: Stream: a moved-from stream is empty with its
 cursor at the start

---
 src/Stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Stream.h b/src/Stream.h
index 8a6875b..7a79f20 100644
--- a/src/Stream.h
+++ b/src/Stream.h
@@ -55,7 +55,7 @@ class Stream {
   public:
         Stream() noexcept = default;
         Stream(const Stream& stream) noexcept = default;
-        Stream(Stream&& stream) noexcept = default;
+        Stream(Stream&& stream) noexcept : Stream() { swap(*this, stream); };
         Stream(const int newSize) {
           if (newSize > 0) reserve(newSize);
         }
-- 
2.43.0


From ea9e6559418af14bb2406bc2fb074cdfd9d454d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:21:05 +0000
Subject: [PATCH 61/62] fix: Stream::loadFile: close the descriptor and the
 mapping if memory runs out

---
 src/Stream.cpp | 32 ++++++++++++++++++++++++++------
 1 file changed, 26 insertions(+), 6 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 1efc284..788bab9 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -101,7 +101,13 @@ int Stream::loadFile(const String& file)
   int fd = open(file.c_str(), O_RDONLY);
   if (fd == -1)
     return 1;
-  int ret = loadFile(fd);
+  int ret;
+  try {
+    ret = loadFile(fd);
+  } catch (...) {
+    close(fd);
+    throw;
+  }
   close(fd);
   return ret;
 }
@@ -123,9 +129,15 @@ int Stream::loadFile(const int fd)
     return 1;
   }
   loading = 1;
-  reserve(size);
+  try {
+    reserve(size);
 
-  puts(String(static_cast<const char*>(map), size));
+    puts(String(static_cast<const char*>(map), size));
+  } catch (...) {
+    munmap(map, size);
+    loading = 0;
+    throw;
+  }
 
   munmap(map, size);
 #else
@@ -145,13 +157,21 @@ int Stream::loadFile(const int fd)
     return 1;
   }
   loading = 1;
-  reserve(st.st_size);
 
   size_t len = 0;
   char buf[STREAM_BLOCKSIZE + 1];
 
-  while ((len = fread(buf, 1, sizeof(buf) - 1, f))) {
-    puts(String(buf, len));
+  try {
+    reserve(st.st_size);
+
+    while ((len = fread(buf, 1, sizeof(buf) - 1, f))) {
+      puts(String(buf, len));
+    }
+  } catch (...) {
+    fclose(f);
+    clear();
+    loading = 0;
+    throw;
   }
   if (ferror(f)) {
     fclose(f);
-- 
2.43.0


From 44785c35413e9feaefcc9d0e91e8f5ce03a5c325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:23:25 +0000
Subject: [PATCH 62/62] fix: Stream::read: keep the cursor if memory runs out
 while reading a line

---
 src/Stream.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/Stream.cpp b/src/Stream.cpp
index 788bab9..1452817 100644
--- a/src/Stream.cpp
+++ b/src/Stream.cpp
@@ -85,13 +85,16 @@ String Stream::read(size_t maxSize, char delim) {
   /* Must reconstruct a new string */
   String ret(toRead);
 
-  while ((ret.length() < toRead) && (str[pos] != delim)) {
-    ret += str[pos++];
+  size_t newpos = pos;
+
+  while ((ret.length() < toRead) && (str[newpos] != delim)) {
+    ret += str[newpos++];
   }
-  if (ret.length() < toRead && str[pos] == delim) {
+  if (ret.length() < toRead && str[newpos] == delim) {
     ret += delim;
-    ++pos;
+    ++newpos;
   }
+  pos = newpos;
 
   return ret;
 }
-- 
2.43.0

