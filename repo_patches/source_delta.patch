From b93d690c3ee2c6abf32f8fd09d3f47b67db0d1d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:46 +0000
Subject: [PATCH 01/90] fix: Vector::append_with_default constructed every
 element in the same slot

---
 include/pystd2026.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e36326d..d39ace6 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1239,11 +1239,10 @@ public:
 
     void append_with_default(size_t num_copies) {
         reserve(size() + num_copies);
-        T *obj = objptr(size());
         for(size_t i = 0; i < num_copies; ++i) {
-            new(obj) T{};
+            new(objptr(num_entries)) T{};
+            ++num_entries;
         }
-        num_entries += num_copies;
     }
 
 private:
-- 
2.43.0


From 138a544f6e757bd5a71d429e81a006c434520f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:48 +0000
Subject: [PATCH 02/90] fix: Vector::emplace_back used a dangling argument when
 it referred to an own element

---
 include/pystd2026.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index d39ace6..aaf83a8 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1083,8 +1083,14 @@ public:
     void emplace_back(auto &&...args) noexcept {
         if constexpr(sizeof...(args) == 1 && ::pystd2026::is_same_v<decltype(args...[0]), T>) {
             this->push_back(::pystd2026::forward(args...[0]));
-        } else {
+        } else if(needs_to_grow_for(1)) {
+            // The arguments may refer to elements of this vector.
+            T tmp(::pystd2026::forward<decltype(args)>(args)...);
             reserve(num_entries + 1);
+            auto obj_loc = objptr(num_entries);
+            new(obj_loc) T(::pystd2026::move(tmp));
+            ++num_entries;
+        } else {
             auto obj_loc = objptr(num_entries);
             new(obj_loc) T(::pystd2026::forward<decltype(args)>(args)...);
             ++num_entries;
-- 
2.43.0


From d46c7c828762cfa82f55e4054b7fa758120ec26f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:29 +0000
Subject: [PATCH 03/90] fix: Bytes::operator< compared later bytes after the
 order was already decided

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index aaf83a8..25f5d47 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -961,7 +961,7 @@ public:
             if(c1 < c2) {
                 return true;
             }
-            if(c2 > c1) {
+            if(c1 > c2) {
                 return false;
             }
         }
-- 
2.43.0


From b661b8736ccfab571c85b91044374e843a0f65b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:32 +0000
Subject: [PATCH 04/90] fix: Bytes::back returned the last byte of the
 allocation, not of the contents

---
 src/pystd2026.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 8773cc9..e46a0df 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -337,8 +337,7 @@ char Bytes::back() const {
     if(is_empty()) {
         throw PyException("Buffer underrun.");
     }
-    auto result = buf[buf.size_bytes() - 1];
-    return result;
+    return buf[bufsize - 1];
 }
 
 void Bytes::remove(size_t from, size_t to) {
-- 
2.43.0


From 57104dfc67dc7073f6788597d11545f4909c3dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:34 +0000
Subject: [PATCH 05/90] fix: Bytes::pop_front of everything underflowed the
 size

---
 src/pystd2026.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index e46a0df..9800868 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -242,6 +242,7 @@ void Bytes::pop_back(size_t num) {
 void Bytes::pop_front(size_t num) {
     if(num >= bufsize) {
         clear();
+        return;
     }
     memmove(buf.get(), buf.get() + num, buf.size() - num);
     bufsize -= num;
-- 
2.43.0


From c85f8d12ac67dbe93f062e442c50e09b3c3d9fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:36 +0000
Subject: [PATCH 06/90] fix: Bytes::remove past the end read out of bounds and
 underflowed the size

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 9800868..7223bc4 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -342,7 +342,7 @@ char Bytes::back() const {
 }
 
 void Bytes::remove(size_t from, size_t to) {
-    if(from > to) {
+    if(from > to || to > size()) {
         throw PyException("Invalid sequence to remove.");
     }
     if(from == to) {
-- 
2.43.0


From 24550a6c299f010b1b8cb8256854d413a31ade93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:38 +0000
Subject: [PATCH 07/90] fix: Bytes indexing gave access to unused bytes of the
 allocation

---
 include/pystd2026.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 25f5d47..b7af785 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -925,7 +925,12 @@ public:
 
     void pop_front(size_t num = 1);
 
-    char operator[](size_t i) const { return buf[i]; }
+    char operator[](size_t i) const {
+        if(i >= bufsize) {
+            bootstrap_throw("Bytes index out of bounds.");
+        }
+        return buf[i];
+    }
 
     char unsafe_at(size_t i) const { return buf.unsafe_at(i); }
 
-- 
2.43.0


From 2601235ce15c60eac9f42b7ded380328eb7bf3ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:40 +0000
Subject: [PATCH 08/90] fix: Bytes::append and assign from its own contents
 used freed memory

---
 src/pystd2026.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 7223bc4..d3fc378 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -208,6 +208,12 @@ Bytes::Bytes(const Bytes &o) noexcept
 }
 
 void Bytes::assign(const char *buf_in, size_t in_size) {
+    if(is_ptr_within(buf_in)) {
+        memmove(buf.get(), buf_in, in_size);
+        bufsize = in_size;
+        grow_to(in_size + 1);
+        return;
+    }
     bufsize = 0;
     grow_to(in_size + 1);               // Prepare for the eventual null terminator.
     memcpy(buf.get(), buf_in, in_size); // str might not be null terminated.
@@ -277,6 +283,12 @@ void Bytes::append(const char c) {
 }
 
 void Bytes::append(const char *begin, const char *end) {
+    if(begin != end && is_ptr_within(begin)) {
+        // Growing would invalidate the source.
+        Bytes tmp(begin, end);
+        append(tmp.begin(), tmp.end());
+        return;
+    }
     while(begin != end) {
         append(*begin);
         ++begin;
-- 
2.43.0


From 4634d1a5670dccf4d1fb8ed48fb9f6c72d122054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:36 +0000
Subject: [PATCH 09/90] fix: CString lost its terminator when cleared or moved
 from

---
 include/pystd2026.hpp | 8 ++++++--
 src/pystd2026.cpp     | 6 +++---
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index b7af785..a0cbc72 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1704,7 +1704,7 @@ private:
 class CString {
 public:
     CString() noexcept : bytes() { bytes.append('\0'); }
-    CString(CString &&o) noexcept = default;
+    CString(CString &&o) noexcept : bytes(move(o.bytes)) { o.bytes.append('\0'); }
     CString(const CString &o) noexcept = default;
     explicit CString(Bytes incoming);
     CString(const CStringView &view);
@@ -1725,7 +1725,10 @@ public:
     size_t size() const;
     size_t length() const { return size(); }
 
-    void clear() noexcept { bytes.clear(); }
+    void clear() noexcept {
+        bytes.clear();
+        bytes.append('\0');
+    }
 
     CString substr(size_t offset, size_t length = -1) const;
 
@@ -1735,6 +1738,7 @@ public:
     void operator=(CString &&o) noexcept {
         if(this != &o) {
             bytes = move(o.bytes);
+            o.bytes.append('\0');
         }
     }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index d3fc378..4dc1ef7 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -767,9 +767,9 @@ CString &CString::operator+=(const char *str) {
 }
 
 CString &CString::operator=(const char *str) {
-    CStringView tmp(str);
-    clear();
-    (*this) = tmp;
+    // The source may point to our own contents.
+    CString tmp(str);
+    (*this) = move(tmp);
     return *this;
 }
 
-- 
2.43.0


From b2d1676eaa4eda811efce3adf685eaa76a872de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:38 +0000
Subject: [PATCH 10/90] fix: CString copy assignment was declared but not
 defined

---
 src/pystd2026.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 4dc1ef7..0067483 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -766,6 +766,8 @@ CString &CString::operator+=(const char *str) {
     return *this;
 }
 
+void CString::operator=(const ::pystd2026::CString &o) noexcept { bytes = o.bytes; }
+
 CString &CString::operator=(const char *str) {
     // The source may point to our own contents.
     CString tmp(str);
-- 
2.43.0


From d3bff821df605e815f5fabc3f1b5a6f172177cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:41 +0000
Subject: [PATCH 11/90] fix: CString::resize and CString::remove could drop the
 terminator

---
 include/pystd2026.hpp | 7 +++++--
 src/pystd2026.cpp     | 7 +++++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index a0cbc72..ed7aaa8 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1795,9 +1795,12 @@ public:
 
     void reserve(size_t new_size) noexcept { bytes.reserve(new_size); }
 
-    void resize(size_t new_size) noexcept { bytes.resize(new_size); }
+    void resize(size_t new_size) noexcept {
+        bytes.resize(new_size);
+        bytes.append('\0');
+    }
 
-    void remove(size_t from, size_t to) { bytes.remove(from, to); }
+    void remove(size_t from, size_t to);
 
     CString upper() const noexcept { return view().upper(); }
     CString lower() const noexcept { return view().lower(); }
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 0067483..8e52d21 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -829,6 +829,13 @@ void CString::insert(size_t i, const CStringView &v) noexcept {
     bytes.insert(i, v.data(), v.size());
 }
 
+void CString::remove(size_t from, size_t to) {
+    if(to > size()) {
+        throw PyException("Invalid sequence to remove.");
+    }
+    bytes.remove(from, to);
+}
+
 size_t CString::find(CStringView substr) const { return view().find(substr); }
 
 size_t CString::rfind(const char c) const noexcept {
-- 
2.43.0


From 81fd8f122879d3c71f2ffaf368e1063de2adeeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:43 +0000
Subject: [PATCH 12/90] fix: CString appends and inserts could embed a null,
 terminate or use freed memory

---
 include/pystd2026.hpp | 12 ++++++------
 src/pystd2026.cpp     | 29 ++++++++++-------------------
 2 files changed, 16 insertions(+), 25 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index ed7aaa8..9d21de4 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1657,8 +1657,8 @@ public:
 
     bool overlaps(CStringView &other) const;
 
-    CString upper() const noexcept;
-    CString lower() const noexcept;
+    CString upper() const;
+    CString lower() const;
 
     int natural_order(const CStringView &o) const;
 
@@ -1785,9 +1785,9 @@ public:
     char back() const;
 
     void pop_back() noexcept;
-    void push_back(const char c) noexcept { append(c); }
+    void push_back(const char c) { append(c); }
 
-    void insert(size_t i, const CStringView &v) noexcept;
+    void insert(size_t i, const CStringView &v);
 
     size_t find(CStringView substr) const;
 
@@ -1802,8 +1802,8 @@ public:
 
     void remove(size_t from, size_t to);
 
-    CString upper() const noexcept { return view().upper(); }
-    CString lower() const noexcept { return view().lower(); }
+    CString upper() const { return view().upper(); }
+    CString lower() const { return view().lower(); }
 
 private:
     bool view_points_to_this(const CStringView &v) const;
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 8e52d21..3c47e9d 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -513,7 +513,7 @@ bool CStringView::overlaps(CStringView &other) const {
     return true;
 }
 
-CString CStringView::upper() const noexcept {
+CString CStringView::upper() const {
     CString result;
     result.reserve(size());
     for(const char c : *this) {
@@ -522,7 +522,7 @@ CString CStringView::upper() const noexcept {
     return result;
 }
 
-CString CStringView::lower() const noexcept {
+CString CStringView::lower() const {
     CString result;
     result.reserve(size());
     for(const char c : *this) {
@@ -754,9 +754,7 @@ CString &CString::operator+=(const CString &o) {
 }
 
 CString &CString::operator+=(char c) {
-    bytes.pop_back();
-    bytes.append(c);
-    bytes.append('\0');
+    append(c);
     return *this;
 }
 
@@ -785,13 +783,9 @@ void CString::append(const char c) {
 }
 
 void CString::append(const char *str, size_t strsize) {
-    if(strsize == (size_t)-1) {
-        strsize = strlen(str);
-    }
-    for(size_t i = 0; i < strsize; ++i) {
-        // FIXME, slow.
-        append(str[i]);
-    }
+    // Checks for embedded nulls before anything is changed and
+    // makes it possible to append our own contents.
+    *this += CString(str, strsize);
 }
 
 void CString::append(const char *start, const char *stop) { append(start, stop - start); }
@@ -820,13 +814,10 @@ void CString::pop_back() noexcept {
     bytes.append('\0');
 }
 
-void CString::insert(size_t i, const CStringView &v) noexcept {
-    if(view_points_to_this(v)) {
-        CString string_copy(v);
-        insert(i, string_copy.view());
-        return;
-    }
-    bytes.insert(i, v.data(), v.size());
+void CString::insert(size_t i, const CStringView &v) {
+    // Checks for embedded nulls and permits views to this string.
+    CString string_copy(v);
+    bytes.insert(i, string_copy.data(), string_copy.size());
 }
 
 void CString::remove(size_t from, size_t to) {
-- 
2.43.0


From 7ca1a8ed592de70dca08b150a8907d5727181c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 13/90] fix: CString::substr read outside the string

---
 src/pystd2026.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 3c47e9d..b1d5f4a 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -686,11 +686,11 @@ size_t CString::size() const {
 }
 
 CString CString::substr(size_t offset, size_t length) const {
-    if(length == (size_t)-1) {
-        CString(c_str() + offset, size() - offset);
+    if(offset > size()) {
+        throw PyException("CString index out of bounds.");
     }
-    // FIXME, validate range.
-    return CString(c_str() + offset, length);
+    const size_t available = size() - offset;
+    return CString(c_str() + offset, length < available ? length : available);
 }
 
 template<> Vector<CString> CString::split() const {
-- 
2.43.0


From dc9ef3df54aa6760e51fb6119716c9d00b57bea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:47 +0000
Subject: [PATCH 14/90] fix: ZStringView constructed without a size had a bogus
 size

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index b1d5f4a..a85f22a 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -614,7 +614,7 @@ ZStringView::ZStringView(const char *original, size_t original_size) noexcept {
     if(original == nullptr) {
         buf = nullptr;
         bufsize = 0;
-    } else if(bufsize == (size_t)-1) {
+    } else if(original_size == (size_t)-1) {
         buf = original;
         bufsize = strlen(original);
     } else {
-- 
2.43.0


From d3c9f89f5e15af76bb426f9f75d6adce50471425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:50 +0000
Subject: [PATCH 15/90] fix: FixedCString was not terminated when built from a
 size and ignored assigning its own prefix

---
 include/pystd2026.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 9d21de4..8a861b1 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1845,9 +1845,10 @@ public:
         if(length_in > BUF_SIZE) {
             bootstrap_throw("Input string too long for FixedCString.");
         }
-        for(size_t i = 0; i < length_in + 1; ++i) {
+        for(size_t i = 0; i < length_in; ++i) {
             buf[i] = str[i];
         }
+        buf[length_in] = '\0';
         strsize = length_in;
     }
 
@@ -1876,6 +1877,10 @@ public:
 
     FixedCString &operator=(const CStringView &o) {
         if(o.data() == buf) {
+            if(o.size() < strsize) {
+                strsize = o.size();
+                buf[strsize] = '\0';
+            }
             return *this;
         }
         if(o.size() > BUF_SIZE) {
-- 
2.43.0


From 7ceb5aa7fba4d438a85f54f233eeffe375fbc15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:31 +0000
Subject: [PATCH 16/90] fix: CStringView::starts_with a shorter view read past
 the prefix

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index a85f22a..c4bc728 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -437,7 +437,7 @@ bool CStringView::starts_with(CStringView view) const {
     if(view.size() > size()) {
         return false;
     }
-    for(size_t i = 0; i < bufsize; ++i) {
+    for(size_t i = 0; i < view.size(); ++i) {
         if(view[i] != buf[i]) {
             return false;
         }
-- 
2.43.0


From 961ce9ce7a666c9633b13b4ba25aeeb900324e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 17/90] fix: CStringView::find missed a match at the end of the
 text

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index c4bc728..97fa8ac 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -471,7 +471,7 @@ size_t CStringView::find(CStringView substr) const {
     if(substr.size() > size()) {
         return -1;
     }
-    for(size_t start = 0; start < size() - substr.size(); ++start) {
+    for(size_t start = 0; start <= size() - substr.size(); ++start) {
         bool has_mismatch = false;
         for(size_t i = 0; i < substr.size(); ++i) {
             if(buf[start + i] != substr.buf[i]) {
-- 
2.43.0


From 12025aa183b3eff949f0d079dfdf064c0ba19449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 18/90] fix: CStringView indexing allowed reading one past the
 end and front threw a bare pointer

---
 include/pystd2026.hpp | 2 +-
 src/pystd2026.cpp     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 8a861b1..8018dad 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1637,7 +1637,7 @@ public:
     CStringView substr(size_t pos = 0, size_t count = (size_t)-1) const;
 
     char operator[](size_t index) const {
-        if(!buf || index > bufsize) {
+        if(index >= bufsize) {
             bootstrap_throw("OOB in CStringView.");
         }
         return buf[index];
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 97fa8ac..833a7a8 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -416,7 +416,7 @@ bool CStringView::operator==(CStringView o) const {
 
 char CStringView::front() const {
     if(is_empty()) {
-        throw "Front requested on empty string.";
+        throw PyException("Front requested on empty string.");
     }
     return buf[0];
 }
-- 
2.43.0


From a0b9cf49772bc6c3e63363b5b47c1eada7513cba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:37 +0000
Subject: [PATCH 19/90] fix: CStringView ordering stopped at zero bytes and
 adjacent views were reported as overlapping

---
 src/pystd2026.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 833a7a8..b8aaee9 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -488,7 +488,7 @@ size_t CStringView::find(CStringView substr) const {
 
 bool CStringView::operator<(const CStringView &o) const {
     const size_t common_size = o.size() < size() ? o.size() : size();
-    auto rc = strncmp(data(), o.data(), common_size);
+    const auto rc = common_size > 0 ? memcmp(data(), o.data(), common_size) : 0;
     if(rc < 0) {
         return true;
     }
@@ -504,10 +504,13 @@ bool CStringView::overlaps(CStringView &other) const {
     const auto s2 = other.buf;
     const auto e2 = other.buf + other.bufsize;
 
-    if(e2 < s1) {
+    if(is_empty() || other.is_empty()) {
         return false;
     }
-    if(e1 < s2) {
+    if(e2 <= s1) {
+        return false;
+    }
+    if(e1 <= s2) {
         return false;
     }
     return true;
-- 
2.43.0


From aea32027785fae22ce6dbc633b4c360c32c68f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 20/90] fix: natural_order mixed up positions, read past the
 view and overflowed on long numbers

---
 src/pystd2026.cpp | 46 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index b8aaee9..08f3358 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -534,6 +534,24 @@ CString CStringView::lower() const {
     return result;
 }
 
+namespace {
+
+bool is_ascii_digit(char c) { return c >= '0' && c <= '9'; }
+
+// Consumes a run of digits and returns it without leading zeros.
+CStringView take_number(const char *buf, size_t &i, size_t bufsize) {
+    while(i < bufsize && buf[i] == '0') {
+        ++i;
+    }
+    const size_t start = i;
+    while(i < bufsize && is_ascii_digit(buf[i])) {
+        ++i;
+    }
+    return CStringView{buf + start, i - start};
+}
+
+} // namespace
+
 int CStringView::natural_order(const CStringView &o) const {
     const char *left = buf;
     const char *right = o.buf;
@@ -551,33 +569,33 @@ int CStringView::natural_order(const CStringView &o) const {
         if(right_exhausted) {
             return 1;
         }
-        char *left_end;
-        char *right_end;
-        const auto left_int = strtoul(left + i_left, &left_end, 10);
-        const auto right_int = strtoul(right + i_left, &right_end, 10);
-        const bool left_has_num = (left + i_left) != left_end;
-        const bool right_has_num = (right + i_right) != right_end;
+        const bool left_has_num = is_ascii_digit(left[i_left]);
+        const bool right_has_num = is_ascii_digit(right[i_right]);
 
         if(left_has_num) {
             if(right_has_num) {
-                if(left_int < right_int) {
-                    return -1;
+                const auto left_num = take_number(left, i_left, bufsize);
+                const auto right_num = take_number(right, i_right, o.bufsize);
+                if(left_num.size() != right_num.size()) {
+                    return left_num.size() < right_num.size() ? -1 : 1;
                 }
-                if(left_int > right_int) {
-                    return 1;
+                for(size_t i = 0; i < left_num.size(); ++i) {
+                    if(left_num[i] != right_num[i]) {
+                        return left_num[i] < right_num[i] ? -1 : 1;
+                    }
                 }
-                i_left += left_end - (left + i_left);
-                i_right += right_end - (right + i_right);
             } else {
                 return -1;
             }
         } else if(right_has_num) {
             return 1;
         } else {
-            if(left[i_left] < right[i_right]) {
+            const auto left_char = (unsigned char)left[i_left];
+            const auto right_char = (unsigned char)right[i_right];
+            if(left_char < right_char) {
                 return -1;
             }
-            if(left[i_left] > right[i_right]) {
+            if(left_char > right_char) {
                 return 1;
             }
             ++i_left;
-- 
2.43.0


From 77fd86f7b0edfb83406a50a5c4ae4b9c52f604ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:17 +0000
Subject: [PATCH 21/90] fix: assigning a too long FixedCString of another size
 terminated the process

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 8018dad..2c63a1e 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1870,7 +1870,7 @@ public:
     }
 
     template<size_t OTHER_BUFSIZE>
-    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) noexcept {
+    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) {
         *this = o.view();
         return *this;
     }
-- 
2.43.0


From 520f2c69cff5c3073acf54836904a6c68c93c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:15 +0000
Subject: [PATCH 22/90] fix: CStringView::substr overflowed on huge counts

---
 src/pystd2026.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 08f3358..c53b1b3 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -459,9 +459,7 @@ CStringView CStringView::substr(size_t pos, size_t count) const {
         throw PyException("CStringView index out of bounds.");
     }
     size_t actual_count = count;
-    if(count == (size_t)-1) {
-        actual_count = bufsize - pos;
-    } else if(pos + count > bufsize) {
+    if(count > bufsize - pos) {
         actual_count = bufsize - pos;
     }
     return CStringView(buf + pos, actual_count);
-- 
2.43.0


From 6056c0f2fa8ac9b206729d602063bb5940b2191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:17 +0000
Subject: [PATCH 23/90] fix: comparing a default constructed ZStringView
 dereferenced a null pointer

---
 src/pystd2026.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index c53b1b3..8ebd134 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -817,7 +817,13 @@ ZStringView CString::zview() const {
     return ZStringView{bytes.data()};
 }
 
-bool ZStringView::operator==(const char *text) const noexcept { return strcmp(buf, text) == 0; }
+bool ZStringView::operator==(const char *text) const noexcept {
+    if(!buf || !text) {
+        // A default constructed view is an empty string.
+        return CStringView(buf, bufsize) == CStringView(text, (size_t)-1);
+    }
+    return strcmp(buf, text) == 0;
+}
 
 char CString::back() const {
     if(bytes.size() < 2) {
-- 
2.43.0


From 92f00ee99cdb18a4f2aab8807e8b0b64bbdda8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 24/90] fix: UTF-8 validation accepted overlong forms,
 surrogates and values above U+10FFFF

---
 src/pystd2026.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 8ebd134..80db312 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -57,7 +57,15 @@ bool is_valid_uf8_character(const char *input,
         unpacked |= subsequent & subsequent_data_mask;
     }
 
-    return true;
+    // Overlong encodings, surrogates and values outside Unicode are not valid.
+    const uint32_t smallest_values[4] = {0, 0x80, 0x800, 0x10000};
+    if(unpacked < smallest_values[par.num_subsequent_bytes]) {
+        return false;
+    }
+    if(unpacked >= 0xD800 && unpacked <= 0xDFFF) {
+        return false;
+    }
+    return unpacked <= 0x10FFFF;
 }
 
 bool is_valid_utf8(const char *input, size_t input_size) {
-- 
2.43.0


From 74a3c328dcf089b42cf76b104f1c50503a22a62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:21 +0000
Subject: [PATCH 25/90] fix: append_codepoint encoded surrogates and silently
 ignored zero

---
 src/pystd2026.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 80db312..b18819d 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1175,6 +1175,12 @@ void U8String::pop_back() noexcept {
 
 void U8String::append_codepoint(uint32_t codepoint) {
     unsigned char buf[5] = {0, 0, 0, 0, 0};
+    if(codepoint == 0) {
+        throw PyException("Tried to add a null character to a U8String.");
+    }
+    if(codepoint >= 0xD800 && codepoint <= 0xDFFF) {
+        throw PyException("Surrogates can not be encoded in UTF-8.");
+    }
     if(codepoint < 0x80) {
         buf[0] = codepoint;
     } else if(codepoint < 0x800) {
-- 
2.43.0


From d4b822e95a00ebbdace6c06b214a1f2bcc134348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:23 +0000
Subject: [PATCH 26/90] fix: U8StringView of a null terminated string ended
 before its start

---
 src/pystd2026.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index b18819d..404bafd 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -977,6 +977,9 @@ void ValidU8ReverseIterator::compute_char_info() {
 
 U8StringView::U8StringView(const char *buf_, size_t bufsize) {
     const unsigned char *buf = (const unsigned char *)buf_;
+    if(bufsize == (size_t)-1) {
+        bufsize = strlen(buf_);
+    }
     if(!is_valid_utf8(buf_, bufsize)) {
         throw PyException("String is not valid UTF-8.");
     }
-- 
2.43.0


From 52102c88da6a8f145f72576291f8cf3ea2c9563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 27/90] fix: U8StringView never compared equal to non-ASCII
 text

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 404bafd..4c4bd04 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1009,7 +1009,7 @@ bool U8StringView::operator==(const char *txt) const noexcept {
         if(data_start + i == data_end) {
             return txt[i] == '\0';
         }
-        if(data_start[i] != txt[i]) {
+        if(data_start[i] != (unsigned char)txt[i]) {
             return false;
         }
         ++i;
-- 
2.43.0


From 408a44721125f98e32cb0a7d3515f2b7c69d5ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:27 +0000
Subject: [PATCH 28/90] fix: U8String::substr read outside the string

---
 src/pystd2026.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 4c4bd04..5b504da 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1097,8 +1097,8 @@ U8String::U8String(const char *txt, size_t txtsize) {
 }
 
 U8String U8String::substr(size_t offset, size_t length) const {
-    // FIXME, validate range.
-    return U8String(cstring.data() + offset, length);
+    const auto piece = cstring.substr(offset, length);
+    return U8String(piece.c_str(), piece.size());
 }
 
 U8StringView U8String::view() const { return U8StringView{cbegin(), cend()}; }
-- 
2.43.0


From 77bf269e3044e70a0bcd944d20abd0f46ff7a741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:29 +0000
Subject: [PATCH 29/90] fix: PyException of a non-ASCII message threw from its
 constructor

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 5b504da..58f493a 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1225,7 +1225,7 @@ PyException::PyException(const char *msg) : message("") {
     Bytes b;
     size_t offset = 0;
     while(msg[offset]) {
-        auto c = msg[offset++];
+        const auto c = (unsigned char)msg[offset++];
         if(c > 127) {
             b.append('?');
         } else {
-- 
2.43.0


From 95d85cffe4bac8cf54a37145c4c93748e5ea6488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:32 +0000
Subject: [PATCH 30/90] fix: assigning a view with an embedded null to U8String
 terminated the process

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 2c63a1e..6b66d9e 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2084,7 +2084,7 @@ public:
         }
     }
 
-    void operator=(const U8StringView &o) noexcept { cstring = CString(o.data(), o.size_bytes()); }
+    void operator=(const U8StringView &o) { cstring = CString(o.data(), o.size_bytes()); }
 
     // FIXME. These currently do ASCIIbetical sorting. Fix to do codepoints instead.
     bool operator==(const U8String &o) const { return cstring == o.cstring; }
-- 
2.43.0


From edd6c237f64606c7574303040c3251fc3202ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:57 +0000
Subject: [PATCH 31/90] fix: HashMap::remove never destroyed the key

---
 include/pystd2026_hashtable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 2a81123..43dc94d 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -74,6 +74,7 @@ public:
                 auto *potential_key = data.keyptr(slot);
                 if(*potential_key == key) {
                     auto *value_loc = data.valueptr(slot);
+                    potential_key->~Key();
                     value_loc->~Value();
                     const auto previous_slot = (slot + table_size() - 1) & mod_mask();
                     const auto next_slot = (slot + 1) & mod_mask();
-- 
2.43.0


From dcaf1e1d54576849049032582474ecafd47fc0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:00 +0000
Subject: [PATCH 32/90] fix: HashMap::insert of an existing key added a
 duplicate when it met a tombstone first

---
 include/pystd2026_hashtable.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 43dc94d..5c7cea2 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -54,6 +54,13 @@ public:
     }
 
     Value &insert(const Key &key, Value v) {
+        // Must be checked first. The entry could be further along than the
+        // first tombstone and growing would invalidate keys stored in the map.
+        auto *existing = lookup(key);
+        if(existing) {
+            *existing = ::pystd2026::move(v);
+            return *existing;
+        }
         if(fill_ratio() >= MAX_LOAD_PERCENTAGE) {
             grow();
         }
-- 
2.43.0


From 7cdbd3b63a3eb5b30bd395c0efd4565f78a3750e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:02 +0000
Subject: [PATCH 33/90] fix: HashMap lookups never terminated once tombstones
 had used up all empty slots

---
 include/pystd2026_hashtable.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 5c7cea2..bc13bbd 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -19,6 +19,7 @@ public:
     HashMap() noexcept {
         salt = (size_t)this;
         num_entries = 0;
+        num_tombstones = 0;
         size_in_powers_of_two = 4;
         auto initial_table_size = 1 << size_in_powers_of_two;
         data.md = unique_arr<SlotMetadata>(initial_table_size);
@@ -90,6 +91,7 @@ public:
                         data.md[slot].state = SlotState::Empty;
                     } else {
                         data.md[slot].state = SlotState::Tombstone;
+                        ++num_tombstones;
                     }
                     --num_entries;
                     return;
@@ -125,6 +127,7 @@ public:
     void clear() {
         data.clear();
         num_entries = 0;
+        num_tombstones = 0;
     }
 
 private:
@@ -222,6 +225,9 @@ private:
             if(data.md[slot].state != SlotState::HasValue) {
                 auto *key_loc = data.keyptr(slot);
                 auto *value_loc = data.valueptr(slot);
+                if(data.md[slot].state == SlotState::Tombstone) {
+                    --num_tombstones;
+                }
                 new(key_loc) Key(key);
                 new(value_loc) Value{::pystd2026::move(v)};
                 data.md[slot] = SlotMetadata{SlotState::HasValue, (uint8_t)(hashval & BLOOM_MASK)};
@@ -241,8 +247,10 @@ private:
     }
 
     void grow() {
-        const auto new_size = 2 * table_size();
-        const auto new_powers_of_two = size_in_powers_of_two + 1;
+        // Only get rid of tombstones if that frees enough space.
+        const bool expand = (num_entries * 100) / table_size() >= MAX_LOAD_PERCENTAGE / 2;
+        const auto new_size = expand ? 2 * table_size() : table_size();
+        const auto new_powers_of_two = size_in_powers_of_two + (expand ? 1 : 0);
         MapData grown;
 
         grown.md = unique_arr<SlotMetadata>(new_size);
@@ -254,6 +262,7 @@ private:
         data = move(grown);
         size_in_powers_of_two = new_powers_of_two;
         num_entries = 0;
+        num_tombstones = 0;
         for(size_t i = 0; i < old.md.size(); ++i) {
             if(old.md[i].state == SlotState::HasValue) {
                 auto &old_key = *old.keyptr(i);
@@ -275,13 +284,17 @@ private:
 
     size_t table_size() const { return data.md.size(); }
 
-    size_t fill_ratio() const { return (num_entries * 100) / table_size(); }
+    // Probing only stops at empty slots, so tombstones count as well.
+    size_t fill_ratio() const {
+        return ((num_entries + num_tombstones) * 100) / table_size();
+    }
     static constexpr size_t MAX_LOAD_PERCENTAGE = 77;
     // static constexpr size_t MIN_LOAD_PERCENTAGE = 25;
 
     MapData data;
     size_t salt;
     size_t num_entries;
+    size_t num_tombstones;
     uint32_t size_in_powers_of_two;
 };
 
-- 
2.43.0


From 1cd8db8fdae3f1594996a08f8fc285acb2f7dc69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:05 +0000
Subject: [PATCH 34/90] fix: moving a HashMap leaked the target's contents and
 left the source unusable

---
 include/pystd2026_hashtable.hpp | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index bc13bbd..155f1f4 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -28,6 +28,17 @@ public:
         data.valuedata = Bytes(initial_table_size * sizeof(Value));
     }
 
+    // A moved-from map is empty and usable.
+    HashMap(HashMap &&o) noexcept : HashMap() { swap_contents(o); }
+
+    HashMap &operator=(HashMap &&o) noexcept {
+        if(this != &o) {
+            HashMap tmp(::pystd2026::move(o));
+            swap_contents(tmp);
+        }
+        return *this;
+    }
+
     Value *lookup(const Key &key) const {
         const auto hashval = hash_for(key);
         auto slot = hash_to_slot(hashval);
@@ -246,6 +257,16 @@ private:
         }
     }
 
+    void swap_contents(HashMap &o) noexcept {
+        MapData tmp = ::pystd2026::move(data);
+        data = ::pystd2026::move(o.data);
+        o.data = ::pystd2026::move(tmp);
+        ::pystd2026::swap(salt, o.salt);
+        ::pystd2026::swap(num_entries, o.num_entries);
+        ::pystd2026::swap(num_tombstones, o.num_tombstones);
+        ::pystd2026::swap(size_in_powers_of_two, o.size_in_powers_of_two);
+    }
+
     void grow() {
         // Only get rid of tombstones if that frees enough space.
         const bool expand = (num_entries * 100) / table_size() >= MAX_LOAD_PERCENTAGE / 2;
-- 
2.43.0


From 73321485ee4ea7321065556fc01cc9bae032cc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:07 +0000
Subject: [PATCH 35/90] fix: HashSet iteration did not compile

---
 include/pystd2026_hashtable.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 155f1f4..3a0af30 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -357,7 +357,7 @@ private:
 
 template<WellBehaved Key> class HashSetIterator final {
 public:
-    HashSetIterator(HashMapIterator<Key, int> it_) : it{it_} {}
+    HashSetIterator(HashMapIterator<Key, uint8_t> it_) : it{it_} {}
 
     Key &operator*() { return *(*it).key; }
 
@@ -369,7 +369,7 @@ public:
     }
 
 private:
-    HashMapIterator<Key, int> it;
+    HashMapIterator<Key, uint8_t> it;
 };
 
 struct HashInsertResult {
-- 
2.43.0


From 2f1df92c5aa41d82e80e282a73633cd4599b496e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:09 +0000
Subject: [PATCH 36/90] fix: HashMap and HashSet with a custom hash algorithm
 could not be iterated

---
 include/pystd2026_hashtable.hpp | 40 ++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 18 deletions(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 3a0af30..c84cfed 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -5,7 +5,7 @@
 
 namespace pystd2026 {
 
-template<typename Key, typename Value> class HashMapIterator;
+template<typename Key, typename Value, typename HashAlgo = SimpleHash> class HashMapIterator;
 
 template<WellBehaved Key, WellBehaved Value, WellBehaved HashAlgo = SimpleHash>
 class HashMap final {
@@ -15,7 +15,7 @@ public:
     static_assert(!::pystd2026::is_reference_v<Key>);
     static_assert(!::pystd2026::is_reference_v<Value>);
 
-    friend class HashMapIterator<Key, Value>;
+    friend class HashMapIterator<Key, Value, HashAlgo>;
     HashMap() noexcept {
         salt = (size_t)this;
         num_entries = 0;
@@ -127,12 +127,12 @@ public:
 
     bool is_empty() const { return size() == 0; }
 
-    HashMapIterator<Key, Value> begin() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), 0);
+    HashMapIterator<Key, Value, HashAlgo> begin() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), 0);
     }
 
-    HashMapIterator<Key, Value> end() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), table_size());
+    HashMapIterator<Key, Value, HashAlgo> end() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), table_size());
     }
 
     void clear() {
@@ -324,9 +324,9 @@ template<typename Key, typename Value> struct KeyValue {
     Value *value;
 };
 
-template<typename Key, typename Value> class HashMapIterator final {
+template<typename Key, typename Value, typename HashAlgo> class HashMapIterator final {
 public:
-    HashMapIterator(HashMap<Key, Value> *map, size_t offset) : map{map}, offset{offset} {
+    HashMapIterator(HashMap<Key, Value, HashAlgo> *map, size_t offset) : map{map}, offset{offset} {
         if(offset == 0 && !map->data.has_value_at(offset)) {
             advance();
         }
@@ -336,9 +336,9 @@ public:
         return KeyValue{map->data.keyptr(offset), map->data.valueptr(offset)};
     }
 
-    bool operator!=(const HashMapIterator<Key, Value> &o) const { return offset != o.offset; };
+    bool operator!=(const HashMapIterator &o) const { return offset != o.offset; };
 
-    HashMapIterator<Key, Value> &operator++() {
+    HashMapIterator &operator++() {
         advance();
         return *this;
     }
@@ -351,25 +351,25 @@ private:
         }
     }
 
-    HashMap<Key, Value> *map;
+    HashMap<Key, Value, HashAlgo> *map;
     size_t offset;
 };
 
-template<WellBehaved Key> class HashSetIterator final {
+template<WellBehaved Key, WellBehaved HashAlgo = SimpleHash> class HashSetIterator final {
 public:
-    HashSetIterator(HashMapIterator<Key, uint8_t> it_) : it{it_} {}
+    HashSetIterator(HashMapIterator<Key, uint8_t, HashAlgo> it_) : it{it_} {}
 
     Key &operator*() { return *(*it).key; }
 
-    bool operator!=(const HashSetIterator<Key> &o) const { return it != o.it; };
+    bool operator!=(const HashSetIterator &o) const { return it != o.it; };
 
-    HashSetIterator<Key> &operator++() {
+    HashSetIterator &operator++() {
         ++it;
         return *this;
     }
 
 private:
-    HashMapIterator<Key, uint8_t> it;
+    HashMapIterator<Key, uint8_t, HashAlgo> it;
 };
 
 struct HashInsertResult {
@@ -400,9 +400,13 @@ public:
 
     void clear() noexcept { map.clear(); }
 
-    HashSetIterator<Key> begin() const { return HashSetIterator<Key>(map.begin()); }
+    HashSetIterator<Key, HashAlgo> begin() const {
+        return HashSetIterator<Key, HashAlgo>(map.begin());
+    }
 
-    HashSetIterator<Key> end() const { return HashSetIterator<Key>(map.end()); }
+    HashSetIterator<Key, HashAlgo> end() const {
+        return HashSetIterator<Key, HashAlgo>(map.end());
+    }
 
 private:
     // This is inefficient.
-- 
2.43.0


From 1605deac1c3f49243d534b5c09c907653b73d4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 37/90] fix: BTree::remove compiled only for values comparable
 with an integer

---
 include/pystd2026_btree.hpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index cac8ca4..8da0ab6 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -34,14 +34,7 @@ public:
         if(is_empty()) {
             return;
         }
-        const uint32_t poi = 23;
-        if(value == poi) {
-            debug_print("At point of interest.");
-        }
         auto v = extract_value(value, root);
-        if(value == poi) {
-            debug_print("After point of interest.");
-        }
         if(v) {
             --num_values;
         }
-- 
2.43.0


From 13e2518c4191d87fadb3e97001c9c0493c4133d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 38/90] fix: BTree lost the value inserted after it had become
 empty

---
 include/pystd2026_btree.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 8da0ab6..b3f6c10 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -20,6 +20,9 @@ public:
 
     void insert(Payload &&value) {
         if(is_empty()) {
+            // Removing the last value leaves an empty root node behind.
+            internals.clear();
+            leaves.clear();
             create_root_node(::pystd2026::move(value));
             root = NodeReference{0, true};
             num_values = 1;
-- 
2.43.0


From 8bf6199386e0686cabcfb6ea25be958c6042ed7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:41 +0000
Subject: [PATCH 39/90] fix: BTree used a stale root after its root node was
 removed

---
 include/pystd2026_btree.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index b3f6c10..9f0c64a 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -895,8 +895,12 @@ private:
             auto &root_inner = static_cast<InternalNode &>(root_ref);
             assert(root_inner.children.size() == 1);
             auto new_root = root_inner.children[0];
-            // FIXME new_root might have changed because of the pop?
-            swap_to_end_and_pop(root);
+            const auto old_root = root;
+            swap_to_end_and_pop(old_root);
+            if(!new_root.to_leaf && new_root.id == internals.size()) {
+                // The pop moved the new root to the old one's slot.
+                new_root = old_root;
+            }
             root = new_root;
             get_node_common(root).parent = NodeReference::null_ref();
         } else {
-- 
2.43.0


From cd188cee8e206f1e1d27441835cde61ffe2743a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:04 +0000
Subject: [PATCH 40/90] fix: BTree removals from interior nodes lost values or
 aborted

---
 include/pystd2026_btree.hpp | 89 +++++++++++++++++++------------------
 1 file changed, 45 insertions(+), 44 deletions(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 9f0c64a..a804ec4 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -661,49 +661,52 @@ private:
         auto &rc = get_node_common(rc_id);
 
         if(lc.size() > MIN_VALUE_COUNT) {
-            auto predecessor_id = find_predecessor(lc_id);
-            auto &predecessor = get_node_common(predecessor_id);
-            Payload return_value = ::pystd2026::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2026::move(predecessor.values.back());
-            if(predecessor_id.to_leaf) {
-                static_cast<LeafNode &>(predecessor).pop_back();
-            } else {
-                static_cast<InternalNode &>(predecessor).pop_back();
-            }
-            return return_value;
+            return replace_value(value, extract_largest(lc_id));
         } else if(rc.size() > MIN_VALUE_COUNT) {
-            auto successor_id = find_successor(rc_id);
-            auto &successor = get_node_common(successor_id);
-            Payload return_value = ::pystd2026::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2026::move(successor.values.front());
-            if(successor_id.to_leaf) {
-                static_cast<LeafNode &>(successor).pop_front();
-            } else {
-                static_cast<InternalNode &>(successor).pop_front();
-            }
-            return return_value;
+            return replace_value(value, extract_smallest(rc_id));
         } else {
             debug_print("Before merge.");
-            merge_siblings_of_entry(node_id, node_loc);
-            auto sub_value = extract_value(value, lc_id);
+            const auto merged_node_id = merge_siblings_of_entry(node_id, node_loc);
+            auto sub_value = extract_value(value, merged_node_id);
             assert(sub_value);
-            return ::pystd2026::move(sub_value.value());
+            return ::pystd2026::move(*sub_value);
         }
         abort();
     }
 
-    NodeReference find_predecessor(NodeReference node_id) const {
+    Payload extract_largest(NodeReference node_id) {
         while(!node_id.to_leaf) {
-            node_id = get_internal(node_id).children.back();
+            node_id = prepare_child(node_id, get_internal(node_id).children.size() - 1);
         }
-        return node_id;
+        auto &leaf = get_leaf(node_id);
+        Payload result = ::pystd2026::move(leaf.values.back());
+        leaf.pop_back();
+        return result;
     }
 
-    NodeReference find_successor(NodeReference node_id) const {
+    Payload extract_smallest(NodeReference node_id) {
         while(!node_id.to_leaf) {
-            node_id = get_internal(node_id).children.front();
+            node_id = prepare_child(node_id, 0);
+        }
+        auto &leaf = get_leaf(node_id);
+        Payload result = ::pystd2026::move(leaf.values.front());
+        leaf.pop_front();
+        return result;
+    }
+
+    // Extracting values may have moved nodes, so find the value again.
+    Payload replace_value(const Payload &value, Payload &&replacement) {
+        NodeReference node_id = root;
+        while(true) {
+            const auto search_result = search_node(value, node_id);
+            if(search_result.has_query_value) {
+                auto &slot = get_node_common(node_id).values[search_result.loc];
+                Payload old_value = ::pystd2026::move(slot);
+                slot = ::pystd2026::move(replacement);
+                return old_value;
+            }
+            node_id = get_internal(node_id).children[*search_result.child_loc];
         }
-        return node_id;
     }
 
     struct NodeSearchResult {
@@ -741,12 +744,15 @@ private:
             // Case 2 in Cormen-Leiserson-Rivest.
             return extract_value_from_internal(value, node_id, search_result.loc);
         }
-        auto &current_node = get_internal(node_id);
         // Case 3 in Cormen-Leiserson-Rivest
-        const auto child_count = current_node.children.size();
+        return extract_value(value, prepare_child(node_id, *search_result.child_loc));
+    }
 
-        const uint32_t child_loc_to_process =
-            search_result.child_loc ? *search_result.child_loc : current_node.children.size() - 1;
+    // Makes sure that a value can be removed from the given child and
+    // returns the node to continue from.
+    NodeReference prepare_child(NodeReference node_id, uint32_t child_loc_to_process) {
+        auto &current_node = get_internal(node_id);
+        const auto child_count = current_node.children.size();
         const NodeReference child_to_process = current_node.children[child_loc_to_process];
 
         if(get_node_common(child_to_process).size() <= MIN_VALUE_COUNT) {
@@ -764,22 +770,17 @@ private:
 
             if(!left_sibling_id.is_null() &&
                get_node_common(left_sibling_id).size() > MIN_VALUE_COUNT) {
-                shift_node_to_right(node_id, search_result.loc - 1);
+                shift_node_to_right(node_id, child_loc_to_process - 1);
             } else if(!right_sibling_id.is_null() &&
                       get_node_common(right_sibling_id).size() > MIN_VALUE_COUNT) {
-                shift_node_to_left(node_id, search_result.loc);
+                shift_node_to_left(node_id, child_loc_to_process);
+            } else if(child_loc_to_process == current_node.values.size()) {
+                return merge_siblings_of_entry(node_id, current_node.values.size() - 1);
             } else {
-                NodeReference merged_node_id;
-                if(search_result.loc == current_node.values.size()) {
-                    merged_node_id =
-                        merge_siblings_of_entry(node_id, current_node.values.size() - 1);
-                } else {
-                    merged_node_id = merge_siblings_of_entry(node_id, search_result.loc);
-                }
-                return extract_value(value, merged_node_id);
+                return merge_siblings_of_entry(node_id, child_loc_to_process);
             }
         }
-        return extract_value(value, child_to_process);
+        return child_to_process;
     }
 
     void shift_node_to_right(NodeReference node_id, uint32_t node_loc) {
-- 
2.43.0


From 5e82d3f882d5a49f1354e67b6a8d9942dc6375a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:06 +0000
Subject: [PATCH 41/90] fix: BTree::remove of a reference to an own element
 used it after it was moved

---
 include/pystd2026_btree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index a804ec4..cd14632 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -37,7 +37,9 @@ public:
         if(is_empty()) {
             return;
         }
-        auto v = extract_value(value, root);
+        // The argument may be in the tree itself.
+        const Payload to_remove(value);
+        auto v = extract_value(to_remove, root);
         if(v) {
             --num_values;
         }
-- 
2.43.0


From 9d5324a14cea83440fc3152af7944745e16035dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:08 +0000
Subject: [PATCH 42/90] fix: BTreeMap::lookup did not compile

---
 include/pystd2026_btree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index cd14632..81ae064 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -1073,7 +1073,8 @@ public:
         MapEntry entry{key, Value{}};
         auto *loc = tree.lookup(entry);
         if(loc) {
-            return &(loc->value);
+            // Only the key must remain constant.
+            return const_cast<Value *>(&(loc->value));
         }
         return nullptr;
     }
-- 
2.43.0


From 4fb0351e79ddf773edff180108b1b1f205ca8498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:26 +0000
Subject: [PATCH 43/90] fix: a moved-from BTree still claimed to have its
 values

---
 include/pystd2026_btree.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 81ae064..2bbf9f4 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -13,6 +13,21 @@ template<WellBehaved Payload, size_t EntryCount> class BTree {
     class BTreeIterator;
 
 public:
+    BTree() noexcept = default;
+    BTree(BTree &&o) noexcept { *this = ::pystd2026::move(o); }
+
+    BTree &operator=(BTree &&o) noexcept {
+        if(this != &o) {
+            root = o.root;
+            num_values = o.num_values;
+            internals = ::pystd2026::move(o.internals);
+            leaves = ::pystd2026::move(o.leaves);
+            o.root = NodeReference::null_ref();
+            o.num_values = 0;
+        }
+        return *this;
+    }
+
     void insert(const Payload &value) {
         Payload p(value);
         insert(::pystd2026::move(p));
-- 
2.43.0


From 421dcadd9e67feb9de60f52bed82df8e59597fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:29 +0000
Subject: [PATCH 44/90] fix: lower_bound of an empty range returned a default
 constructed iterator

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 6b66d9e..c5f42c5 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2552,7 +2552,7 @@ template<typename T> struct FloatIgnoreNanComparator {
 
 template<BasicIterator It, typename Value, typename Comparator>
 It lower_bound(It first, It last, const Value &value, const Comparator &cmp) {
-    It it{};
+    It it{first};
     auto count = last - first;
     while(count > 0) {
         it = first;
-- 
2.43.0


From e3d37d561c1b4b4890daf59e7a1d6b59a369dfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:46 +0000
Subject: [PATCH 45/90] fix: BTreeMap did not compile because its entries have
 no spaceship operator

---
 include/pystd2026_btree.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 2bbf9f4..2dbf5dd 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -541,7 +541,8 @@ private:
         if(node.values.is_empty()) {
             return 0;
         }
-        auto it = lower_bound(value_array.begin(), value_array.end(), value);
+        auto it = lower_bound(
+            value_array.begin(), value_array.end(), value, OnlyLessComparator<Payload>{});
 
         return &(*it) - &node.values.front();
     }
-- 
2.43.0


From 58957df1e95aa6e9ed8aa7c7b60068cbdb63d10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:27 +0000
Subject: [PATCH 46/90] fix: the nth_element and radix sort headers had no
 include guards

---
 include/pystd2026_nth_element.hpp | 2 ++
 include/pystd2026_radixsort.hpp   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 5af01fe..528d4c5 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 #include <pystd2026_heapsort.hpp>
 
diff --git a/include/pystd2026_radixsort.hpp b/include/pystd2026_radixsort.hpp
index 1fc389b..f81b023 100644
--- a/include/pystd2026_radixsort.hpp
+++ b/include/pystd2026_radixsort.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 
 namespace pystd2026 {
-- 
2.43.0


From ba4f8d6d32b310dc26b19d022035cae048ccf8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:29 +0000
Subject: [PATCH 47/90] fix: nth_element of a span did not compile without a
 comparator

---
 include/pystd2026_nth_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 528d4c5..34d186b 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -104,7 +104,7 @@ size_t nth_element(::pystd2026::Span<ValueType> span, const size_t nth, const Co
 
 template<WellBehaved ValueType>
 size_t nth_element(::pystd2026::Span<ValueType> span, const size_t nth) {
-    return ::pystd2026::nth_element(span, span, nth, DefaultComparator<ValueType>{});
+    return ::pystd2026::nth_element(span, nth, DefaultComparator<ValueType>{});
 }
 
 } // namespace pystd2026
-- 
2.43.0


From c60821476030a6e6874b0c5582629067d1e3f81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:32 +0000
Subject: [PATCH 48/90] fix: stable_partition of a span did not compile

---
 include/pystd2026_stablepartition.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_stablepartition.hpp b/include/pystd2026_stablepartition.hpp
index b1fed0c..2e7c5b6 100644
--- a/include/pystd2026_stablepartition.hpp
+++ b/include/pystd2026_stablepartition.hpp
@@ -31,7 +31,7 @@ It stable_partition(It begin, It end, const Predicate &pred) {
     }
 }
 
-template<BasicIterator It, WellBehaved ValueType, typename Predicate>
+template<WellBehaved ValueType, typename Predicate>
 size_t stable_partition(::pystd2026::Span<ValueType> span, const Predicate &pred) {
     return stable_partition(span.begin(), span.end(), pred) - span.begin();
 }
-- 
2.43.0


From 1436b9c445d2a6af512227c413ab1e12df3b0f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:06 +0000
Subject: [PATCH 49/90] fix: shell_sort ignored its comparator and read out of
 bounds because of that

---
 include/pystd2026_shellsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_shellsort.hpp b/include/pystd2026_shellsort.hpp
index abf2b52..d88ede2 100644
--- a/include/pystd2026_shellsort.hpp
+++ b/include/pystd2026_shellsort.hpp
@@ -15,7 +15,7 @@ void shell_sort_single_iteration(It begin, It end, const size_t gap, const Compa
     for(size_t i = gap; i < buf_size; ++i) {
         size_t j = i;
         scratch = ::pystd2026::move(*(begin + i));
-        for(; (j >= gap) && (*(begin + j - gap) > scratch); j -= gap) {
+        for(; (j >= gap) && (cmp.compare(*(begin + j - gap), scratch) > 0); j -= gap) {
             *(begin + j) = ::pystd2026::move(*(begin + j - gap));
         }
         *(begin + j) = ::pystd2026::move(scratch);
-- 
2.43.0


From 2c7bdc738ae7a739b610ffa5b9d1598bc9b5b5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:08 +0000
Subject: [PATCH 50/90] fix: introsort ran past the end of its input when no
 element was larger than the pivot

---
 include/pystd2026.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index c5f42c5..878bd6b 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2709,6 +2709,9 @@ constexpr size_t insertion_sort_limit =
 template<BasicIterator It, typename Comparator>
 void insertion_sort_has_sentinel(It begin, It end, const Comparator &cmp) {
     using ValueType = ::pystd2026::remove_reference_t<decltype(*begin)>;
+    if(begin == end) {
+        return;
+    }
     // This should be faster, but according to measurements it is not.
     constexpr bool is_cheap_to_copy = false;
     // ::pystd2026::is_integral_v<ValueType> || ::pystd2026::is_floating_point_v<ValueType>;
-- 
2.43.0


From 935f92666d301fe5d002b344634ee29b220bbb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:10 +0000
Subject: [PATCH 51/90] fix: introsort mixed operator== with the comparator

---
 include/pystd2026_introsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_introsort.hpp b/include/pystd2026_introsort.hpp
index 71cad8a..3c0d1f6 100644
--- a/include/pystd2026_introsort.hpp
+++ b/include/pystd2026_introsort.hpp
@@ -119,7 +119,7 @@ void do_introsort(It begin,
     // Equal values adjacent to the pivot are also in their correct locations.
     // Most are in the right half as the partition critarion was <.
     // Gobble up as many as we can.
-    while(right_begin < right_end && (*right_begin == *last_value_point)) {
+    while(right_begin < right_end && cmp.compare(*right_begin, *last_value_point) == 0) {
         ++right_begin;
     }
 
-- 
2.43.0


From f2108aeaf2f0d49db6d9f99dd076760d5f84ea65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:12 +0000
Subject: [PATCH 52/90] fix: radix_sort never ended on many equal values and
 failed for 64 bit values

---
 include/pystd2026_radixsort.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/pystd2026_radixsort.hpp b/include/pystd2026_radixsort.hpp
index f81b023..15ec50b 100644
--- a/include/pystd2026_radixsort.hpp
+++ b/include/pystd2026_radixsort.hpp
@@ -11,7 +11,11 @@ template<WellBehaved ValueType, BasicIterator It>
 void do_radix_sort(It begin, It end, const ValueType needs_processing_mask, const size_t round) {
     const ssize_t INSERTION_SORT_LIMIT = ::pystd2026::insertion_sort_limit<ValueType>;
     const auto num_bits = sizeof(ValueType) * 8;
-    const ValueType sort_bit = (1 << (num_bits - 1 - (ValueType)round));
+    if(round >= num_bits) {
+        // All remaining elements are equal.
+        return;
+    }
+    const ValueType sort_bit = (ValueType{1} << (num_bits - 1 - round));
 
     if(end - begin < INSERTION_SORT_LIMIT) {
         ::pystd2026::insertion_sort(begin, end);
@@ -25,10 +29,8 @@ void do_radix_sort(It begin, It end, const ValueType needs_processing_mask, cons
     const auto picker = [sort_bit](const ValueType &v) -> bool { return !(v & sort_bit); };
     auto split_point = ::pystd2026::partition(begin, end, picker);
 
-    if(sort_bit != 1) {
-        do_radix_sort(begin, split_point, needs_processing_mask, round + 1);
-        do_radix_sort(split_point, end, needs_processing_mask, round + 1);
-    }
+    do_radix_sort(begin, split_point, needs_processing_mask, round + 1);
+    do_radix_sort(split_point, end, needs_processing_mask, round + 1);
 }
 
 template<BasicIterator It> void radix_sort(It begin, It end) {
-- 
2.43.0


From 1ba1a1c8be95dff5beab57342cc03e96a91740a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:14 +0000
Subject: [PATCH 53/90] fix: bucketsort counters overflowed for small integer
 types

---
 include/pystd2026_bucketsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_bucketsort.hpp b/include/pystd2026_bucketsort.hpp
index 8cec2e5..a319d61 100644
--- a/include/pystd2026_bucketsort.hpp
+++ b/include/pystd2026_bucketsort.hpp
@@ -25,7 +25,7 @@ template<BasicIterator It> void do_bucketsort(It begin, It end, size_t round) {
     const ValueType SHIFT = (MAX_ROUNDS - round - 1) * 8;
     const ValueType MASK = 0xFF;
     const size_t NUM_BUCKETS = 256;
-    ValueType counts[NUM_BUCKETS];
+    size_t counts[NUM_BUCKETS];
     size_t offsets[NUM_BUCKETS + 1];
     size_t next_free[NUM_BUCKETS + 1];
 
-- 
2.43.0


From 324f191cb19484df372065fdd1b253ce1063213a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:16 +0000
Subject: [PATCH 54/90] fix: minval and maxval truncated their result to an int

---
 include/pystd2026.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 878bd6b..2d2611a 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -194,11 +194,11 @@ concept BasicIterator = ::pystd2026::WellBehaved<T> && requires(T a) {
     // requires ::pystd2026::WellBehaved<::pystd2026::remove_reference_t<decltype(*a)>>;
 };
 
-template<typename T1, typename T2> constexpr int maxval(const T1 &a, const T2 &b) {
+template<typename T1, typename T2> constexpr auto maxval(const T1 &a, const T2 &b) {
     return a < b ? b : a;
 }
 
-template<typename T1, typename T2> constexpr int minval(const T1 &a, const T2 &b) {
+template<typename T1, typename T2> constexpr auto minval(const T1 &a, const T2 &b) {
     return a < b ? a : b;
 }
 
-- 
2.43.0


From 9e967505980229ab3c6532599c53190d30a8947d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:33 +0000
Subject: [PATCH 55/90] fix: rotate overflowed the stack on large arrays

---
 include/pystd2026_rotate.hpp | 40 ++++++++++++++----------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/include/pystd2026_rotate.hpp b/include/pystd2026_rotate.hpp
index 7669008..3002675 100644
--- a/include/pystd2026_rotate.hpp
+++ b/include/pystd2026_rotate.hpp
@@ -10,32 +10,22 @@ namespace pystd2026 {
 template<BasicIterator It> It rotate(It begin, It middle, It end) {
     using ValueType = ::pystd2026::remove_reference_t<decltype(*begin)>;
     ValueType scratch;
-    const auto LEFT_SIZE = middle - begin;
-    const auto RIGHT_SIZE = end - middle;
-
-    if(LEFT_SIZE == 0) {
-        return end;
-    }
-    if(RIGHT_SIZE == 0) {
-        return begin;
-    }
-
-    const auto NUM_SWAPS = LEFT_SIZE < RIGHT_SIZE ? LEFT_SIZE : RIGHT_SIZE;
-    for(ssize_t i = 0; i < NUM_SWAPS; ++i) {
-        ::pystd2026::swap(*(begin + i), *(middle + i), scratch);
-    }
-    if(LEFT_SIZE < RIGHT_SIZE) {
-        auto new_begin = begin + LEFT_SIZE;
-        auto new_middle = new_begin + LEFT_SIZE;
-        auto new_end = end;
-        ::pystd2026::rotate(new_begin, new_middle, new_end);
-    } else if(RIGHT_SIZE < LEFT_SIZE) {
-        auto new_begin = begin + RIGHT_SIZE;
-        auto new_middle = middle;
-        auto new_end = end;
-        ::pystd2026::rotate(new_begin, new_middle, new_end);
+    const It result = begin + (end - middle);
+
+    // A loop, because recursion could get as deep as there are elements.
+    while(begin != middle && middle != end) {
+        const auto LEFT_SIZE = middle - begin;
+        const auto RIGHT_SIZE = end - middle;
+        const auto NUM_SWAPS = LEFT_SIZE < RIGHT_SIZE ? LEFT_SIZE : RIGHT_SIZE;
+        for(ssize_t i = 0; i < NUM_SWAPS; ++i) {
+            ::pystd2026::swap(*(begin + i), *(middle + i), scratch);
+        }
+        begin += NUM_SWAPS;
+        if(LEFT_SIZE < RIGHT_SIZE) {
+            middle += NUM_SWAPS;
+        }
     }
-    return begin + RIGHT_SIZE;
+    return result;
 }
 
 template<WellBehaved T>
-- 
2.43.0


From e0411a1f0d8cb055d56eb7f18646d7dbbf199b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:56 +0000
Subject: [PATCH 56/90] fix: a failing copy in a variant assignment terminated
 the process

---
 include/pystd2026_variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_variant.hpp b/include/pystd2026_variant.hpp
index 367abe3..2ba12e9 100644
--- a/include/pystd2026_variant.hpp
+++ b/include/pystd2026_variant.hpp
@@ -339,7 +339,7 @@ public:
         return *this;
     }
 
-    Variant<T...> &operator=(const Variant<T...> &o) noexcept {
+    Variant<T...> &operator=(const Variant<T...> &o) {
         if(this == &o) {
             return *this;
         }
-- 
2.43.0


From 6932b28caa4d32652d3c4f841c899daf43e084d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:15 +0000
Subject: [PATCH 57/90] fix: variants could not be compared

---
 include/pystd2026_variant.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/pystd2026_variant.hpp b/include/pystd2026_variant.hpp
index 2ba12e9..6a4df04 100644
--- a/include/pystd2026_variant.hpp
+++ b/include/pystd2026_variant.hpp
@@ -508,12 +508,16 @@ private:
         type_id = o.type_id;
     }
 
+public:
 #define PYSTD2026_VAR_COMPARE_SWITCH(i)                                                            \
     {                                                                                              \
-        const T...[i] &v1 = get<T...[i]>();                                                        \
-        const T...[i] &v2 = o.get<T...[i]>();                                                      \
-        return v1 == v2;                                                                           \
-    }
+        if constexpr(i < sizeof...(T)) {                                                           \
+            const T...[i] &v1 = get<T...[i]>();                                                    \
+            const T...[i] &v2 = o.get<T...[i]>();                                                  \
+            return v1 == v2;                                                                       \
+        }                                                                                          \
+    }                                                                                              \
+    break;
 
     bool operator==(const Variant &o) const {
         if(this == &o) {
@@ -587,6 +591,7 @@ private:
         internal_failure("Unreachable code in variant compare.");
     }
 
+private:
     void destroy() noexcept {
         switch(type_id) {
         case 0:
-- 
2.43.0


From cf176b1c3706304ab4e71d7694a13f65aadfd490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:46 +0000
Subject: [PATCH 58/90] fix: copying a variant that is not const did not
 compile

---
 include/pystd2026_variant.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pystd2026_variant.hpp b/include/pystd2026_variant.hpp
index 6a4df04..216104f 100644
--- a/include/pystd2026_variant.hpp
+++ b/include/pystd2026_variant.hpp
@@ -54,6 +54,8 @@ public:
         new(buf) T...[0]{};
     }
     Variant(const Variant<T...> &o) { copy_value_in(o, false); }
+    // Without this a non-const variant would pick the converting constructor.
+    Variant(Variant<T...> &o) { copy_value_in(o, false); }
     Variant(Variant<T...> &&o) noexcept { move_to_uninitialized_memory(::pystd2026::move(o)); }
 
     int8_t index() const noexcept { return type_id; }
-- 
2.43.0


From 74a79f8a90dfc3d939c17e046efec483ffb26472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:49 +0000
Subject: [PATCH 59/90] fix: moving an Expected that is empty or holds a value
 read the wrong object

---
 include/pystd2026.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 2d2611a..3ceae64 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -335,7 +335,7 @@ public:
     Expected(Expected<V, E> &&o) noexcept : state{o.state} {
         if(o.has_value()) {
             new(content) V(::pystd2026::move(o.value()));
-        } else {
+        } else if(o.has_error()) {
             new(content) E(::pystd2026::move(o.error()));
         }
     }
@@ -352,7 +352,7 @@ public:
         if(this != &o) {
             destroy();
             if(o.has_value()) {
-                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(content)));
+                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(o.content)));
                 state = UnionState::Value;
             } else if(o.has_error()) {
                 new(content) E(::pystd2026::move(*reinterpret_cast<E *>(o.content)));
-- 
2.43.0


From 4bb88f856bfde0cf711fc93822c262fd1b3f8b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:51 +0000
Subject: [PATCH 60/90] fix: Expected::value aborted exactly when there was a
 value

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 3ceae64..f991954 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -365,7 +365,7 @@ public:
     }
 
     V &value() {
-        if(*this) {
+        if(!has_value()) {
             abort();
         }
         return *reinterpret_cast<V *>(content);
-- 
2.43.0


From cc8caac0ed2f5b351e8221f6c3d37d5502919708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:54 +0000
Subject: [PATCH 61/90] fix: unique_arr with a custom deleter was copied
 instead of moved

---
 include/pystd2026.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index f991954..21538b2 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -543,16 +543,16 @@ public:
     unique_arr() noexcept = default;
     explicit unique_arr(size_t size) noexcept : ptr{new T[size]}, array_size{size} {}
     unique_arr(T *t, size_t size = 0) noexcept : ptr{t}, array_size{size} {}
-    explicit unique_arr(const unique_arr<T> &o) = delete;
-    explicit unique_arr(unique_arr<T> &&o) noexcept : ptr{o.ptr}, array_size{o.array_size} {
+    explicit unique_arr(const unique_arr<T, Deleter> &o) = delete;
+    explicit unique_arr(unique_arr<T, Deleter> &&o) noexcept : ptr{o.ptr}, array_size{o.array_size} {
         o.ptr = nullptr;
         o.array_size = 0;
     }
     ~unique_arr() { Deleter::del(ptr); }
 
-    unique_arr &operator=(const unique_arr<T> &o) = delete;
+    unique_arr &operator=(const unique_arr<T, Deleter> &o) = delete;
 
-    unique_arr &operator=(unique_arr<T> &&o) noexcept {
+    unique_arr &operator=(unique_arr<T, Deleter> &&o) noexcept {
         if(this != &o) {
             Deleter::del(ptr);
             ptr = o.ptr;
-- 
2.43.0


From 2d023858f232c7b403c67035bdf7f9abe9df0b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:04 +0000
Subject: [PATCH 62/90] fix: Range ended at once with a negative step and never
 with a zero or overflowing one

---
 src/pystd2026.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 58f493a..512ef27 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1282,15 +1282,22 @@ Range::Range(int64_t end_) : Range(0, end_) {}
 
 Range::Range(int64_t start, int64_t end_) : Range(start, end_, 1) {}
 
-Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {}
+Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {
+    if(step == 0) {
+        throw PyException("Range step must not be zero.");
+    }
+}
 
 Optional<int64_t> Range::next() {
-    if(i >= end) {
+    if(step > 0 ? i >= end : i <= end) {
         return {};
     }
 
     auto result = Optional<int64_t>{i};
-    i += step;
+    if(__builtin_add_overflow(i, step, &i)) {
+        // The next value would be past any end.
+        i = end;
+    }
     return result;
 }
 
-- 
2.43.0


From 2f577201e84f8ac165f0511e19743f06a30666e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:06 +0000
Subject: [PATCH 63/90] fix: integer clamp returned values below the lower
 bound unchanged

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 512ef27..a6fb9d1 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1386,7 +1386,7 @@ int64_t clamp(int64_t val, int64_t lower, int64_t upper) {
         internal_failure("Bad range to clamp.");
     }
     if(val < lower) {
-        return val;
+        return lower;
     }
     if(val > upper) {
         return upper;
-- 
2.43.0


From 104d5a57a967e4a249dc62777d6bb3d15ae32147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:09 +0000
Subject: [PATCH 64/90] fix: formatting more than 1023 characters terminated
 the process

---
 src/pystd2026.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index a6fb9d1..378f5ae 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1348,16 +1348,20 @@ CString cformat(const char *format, ...) {
 void cformat_with_cb(StringCFormatCallback cb, void *ctx, const char *format, va_list ap) {
     const int bufsize = 1024;
     char buf[bufsize];
-    auto rc = vsnprintf(buf, bufsize, format, ap);
+    va_list ap_copy; // The first call uses up its arguments.
+    va_copy(ap_copy, ap);
+    auto rc = vsnprintf(buf, bufsize, format, ap_copy);
+    va_end(ap_copy);
     if(rc < 0) {
         throw PyException(strerror(errno));
     } else if(rc >= bufsize) {
-        if(INT_MAX - 1 >= rc) {
+        if(rc >= INT_MAX - 1) {
             // Almost certainly either a bug or an exploit.
             internal_failure("Tried to format a buffer that is too big.");
         }
-        unique_arr<char> bigbuf(bufsize + 1);
-        rc = vsnprintf(buf, bufsize, format, ap);
+        const size_t bigsize = (size_t)rc + 1;
+        unique_arr<char> bigbuf(bigsize);
+        rc = vsnprintf(bigbuf.get(), bigsize, format, ap);
         assert(rc > 0);
         cb(bigbuf.get(), rc, ctx);
     } else {
-- 
2.43.0


From 68ae30c3d1f0c09d8c01a7445d90aa51e007bafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:12 +0000
Subject: [PATCH 65/90] fix: FloatIgnoreNanComparator reported equal values as
 greater

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 21538b2..67ca3f3 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2544,7 +2544,7 @@ template<typename T> struct FloatIgnoreNanComparator {
         if(b < a) {
             return 1;
         }
-        return 1;
+        return 0;
     }
 
     bool equal(const T a, const T b) const noexcept { return a == b; }
-- 
2.43.0


From 1ea67639a3b2938ffaea23457ab591296f4cd09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:14 +0000
Subject: [PATCH 66/90] fix: Span::subspan refused sub-spans that reach the end
 and overflowed on huge sizes

---
 include/pystd2026.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 67ca3f3..17ca006 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -869,13 +869,13 @@ public:
     bool is_empty() const noexcept { return arraysize == 0; }
 
     Span subspan(size_t offset, size_t subspan_size = (size_t)-1) const {
-        if(offset >= arraysize) {
+        if(offset > arraysize) {
             bootstrap_throw("Offset OoB in subspan.");
         }
         if(subspan_size == (size_t)-1) {
             return Span(array + offset, arraysize - offset);
         }
-        if(offset + subspan_size >= arraysize) {
+        if(subspan_size > arraysize - offset) {
             bootstrap_throw("Subspan goes OoB.");
         }
         return Span(array + offset, subspan_size);
-- 
2.43.0


From 0068d814e1b17a67026c84cf60404cf146198b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:02 +0000
Subject: [PATCH 67/90] fix: format_append silently dropped what follows a
 formatted null character

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 17ca006..cf94a9a 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2343,7 +2343,7 @@ template<typename T> void format_append(T &oobj, const char *format, ...) {
     auto converter = [](const char *buf, size_t bufsize, void *ctx) {
         auto *s = reinterpret_cast<T *>(ctx);
         if constexpr(is_same_v<T, CString>) {
-            *s += buf;
+            s->append(buf, bufsize);
         } else {
             for(size_t i = 0; i < bufsize; ++i) {
                 s->push_back(buf[i]);
-- 
2.43.0


From aeb07f7f69ee91db9c90443eb113f2af9bdccd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:44 +0000
Subject: [PATCH 68/90] fix: the path of the root directory became empty

---
 src/pystd2026_filesystem.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 4b786fc..7b76841 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -4,7 +4,6 @@
 #include <pystd2026.hpp>
 #include <sys/stat.h>
 #include <dirent.h>
-#include <assert.h>
 
 // Currently does only Posix paths.
 
@@ -92,13 +91,13 @@ Vector<Path> glob_starstar_dirs(const Path &root) {
 } // namespace
 
 Path::Path(const char *path) : buf{path} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
 
 Path::Path(CString path) : buf{move(path)} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
@@ -130,9 +129,10 @@ Path Path::operator/(const Path &o) const noexcept {
     if(o.is_abs() || buf.is_empty()) {
         return o;
     }
-    assert(buf.back() != '/');
     CString newpath = buf;
-    newpath.append('/');
+    if(newpath.back() != '/') { // Only the root directory has it.
+        newpath.append('/');
+    }
     newpath += o.buf;
     return Path(move(newpath));
 }
-- 
2.43.0


From 1aa0aaa0f82de0303714b120d7f7969a9081e2eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:47 +0000
Subject: [PATCH 69/90] fix: the extension of a path was looked for in its
 directories

---
 include/pystd2026.hpp        |  2 ++
 src/pystd2026_filesystem.cpp | 16 ++++++++++++----
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index cf94a9a..3dbda99 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2257,6 +2257,8 @@ public:
     GlobResult glob(const char *pattern);
 
 private:
+    size_t extension_point() const;
+
     CString buf;
 };
 
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 7b76841..4a83d9c 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -144,8 +144,18 @@ Path Path::operator/(const char *str) const noexcept {
 
 Path Path::operator/(const CString &str) const noexcept { return *this / str.c_str(); }
 
+size_t Path::extension_point() const {
+    const auto dot = buf.rfind('.');
+    const auto separator = buf.rfind('/');
+    if(dot != (size_t)-1 && separator != (size_t)-1 && dot < separator) {
+        // Belongs to the name of a directory.
+        return (size_t)-1;
+    }
+    return dot;
+}
+
 CString Path::extension() const {
-    auto loc = buf.rfind('.');
+    auto loc = extension_point();
     if(loc == (size_t)-1) {
         return CString();
     }
@@ -198,9 +208,7 @@ Optional<U8String> Path::load_text() {
 }
 
 void Path::replace_extension(CStringView new_extension) {
-    // FIXME, assumes an extension can be found before
-    // a path separator.
-    auto extpoint = buf.rfind('.');
+    auto extpoint = extension_point();
     if(extpoint == (size_t)-1) {
         buf += new_extension;
     } else {
-- 
2.43.0


From c8c5769d7fbe9c27bacdffd55931040ff4b746f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:48 +0000
Subject: [PATCH 70/90] fix: loading a directory as a file terminated the
 process

---
 src/pystd2026_filesystem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 4a83d9c..0737933 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -179,6 +179,11 @@ Optional<Bytes> Path::load_bytes() {
     }
     fseek(f, 0, SEEK_END);
     const auto file_size = ftell(f);
+    if(is_dir() || file_size < 0) {
+        // Not something that has contents.
+        fclose(f);
+        return Optional<Bytes>();
+    }
     fseek(f, 0, SEEK_SET);
     Bytes contents;
     contents.resize_to(file_size);
-- 
2.43.0


From 6a4b647bd47f0b3ad4250198ebae2641fcf39d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:25 +0000
Subject: [PATCH 71/90] fix: assigning to a memory mapping never unmapped its
 old contents

---
 include/pystd2026.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 3dbda99..66cf012 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2294,12 +2294,13 @@ public:
     Span<const char> span() const { return Span{(const char *)buf, bufsize}; }
 
     MMapping &operator=(MMapping &&o) noexcept {
-        if(this != &o) {
-            buf = o.buf;
-            bufsize = o.bufsize;
-            o.buf = nullptr;
-            o.bufsize = 0;
-        }
+        MMapping old(move(o)); // Unmaps what this object had.
+        void *tmp_buf = old.buf;
+        const size_t tmp_size = old.bufsize;
+        old.buf = buf;
+        old.bufsize = bufsize;
+        buf = tmp_buf;
+        bufsize = tmp_size;
         return *this;
     }
 
-- 
2.43.0


From 173aece9f16fdb55e69098957ec236ab49a0cf15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:51 +0000
Subject: [PATCH 72/90] fix: a file that can not be opened or read terminated
 the process

---
 src/pystd2026.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 378f5ae..77557be 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -9,6 +9,7 @@
 #include <limits.h>
 #include <math.h>
 #include <ctype.h>
+#include <errno.h>
 
 #ifdef _WIN32
 #include <windows.h>
@@ -1247,7 +1248,7 @@ Bytes &&FileLineIterator::operator*() {
 File::File(const char *fname, const char *modes) : policy{EncodingPolicy::Enforce} {
     f = fopen(fname, modes);
     if(!f) {
-        abort();
+        throw PyException(strerror(errno));
     }
 }
 
@@ -1265,10 +1266,8 @@ Bytes File::readline_bytes() {
                     b.append('\0');
                 }
                 return b;
-            } else if(ferror(f)) {
-                abort();
             } else {
-                abort();
+                throw PyException(strerror(errno));
             }
         }
         b.append(c);
@@ -1343,8 +1342,6 @@ CString cformat(const char *format, ...) {
     return result;
 }
 
-#include <errno.h>
-
 void cformat_with_cb(StringCFormatCallback cb, void *ctx, const char *format, va_list ap) {
     const int bufsize = 1024;
     char buf[bufsize];
-- 
2.43.0


From ba82051c1a3a1a6e5e02b944b18a5cb353d07c87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:52 +0000
Subject: [PATCH 73/90] fix: the last line of a file got an extra null
 character

---
 src/pystd2026.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 77557be..6882863 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1262,9 +1262,6 @@ Bytes File::readline_bytes() {
         auto rc = fread(&c, 1, 1, f);
         if(rc != 1) {
             if(feof(f)) {
-                if(!b.is_empty()) {
-                    b.append('\0');
-                }
                 return b;
             } else {
                 throw PyException(strerror(errno));
-- 
2.43.0


From d408ea406d5300fe50bb4469df1e01891f434893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:55 +0000
Subject: [PATCH 74/90] fix: reading the lines of a file ended with an extra
 empty line

---
 include/pystd2026.hpp |  2 +-
 src/pystd2026.cpp     | 10 ++++++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 66cf012..abe3d3a 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2193,7 +2193,7 @@ public:
     // Vector<U8String> readlines();
     // Vector<Bytes> readlines_raw();
 
-    bool eof() const { return feof(f); }
+    bool eof() const;
 
 private:
     FILE *f;
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 6882863..39192e3 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1254,6 +1254,16 @@ File::File(const char *fname, const char *modes) : policy{EncodingPolicy::Enforc
 
 File::~File() { fclose(f); }
 
+bool File::eof() const {
+    // The end of file indicator is only set by a read that fails.
+    const int c = fgetc(f);
+    if(c == EOF) {
+        return feof(f);
+    }
+    ungetc(c, f);
+    return false;
+}
+
 Bytes File::readline_bytes() {
     Bytes b(160);
     // The world's least efficient readline.
-- 
2.43.0


From 15be612baa7a518435e3e3312ad327d9623cd816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:57 +0000
Subject: [PATCH 75/90] fix: looking at a line of a file twice skipped lines

---
 include/pystd2026.hpp |  5 +----
 src/pystd2026.cpp     | 10 ++++++++++
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index abe3d3a..928ea12 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2167,10 +2167,7 @@ public:
 
     Bytes &&operator*();
 
-    FileLineIterator &operator++() {
-        is_up_to_date = false;
-        return *this;
-    }
+    FileLineIterator &operator++();
 
 private:
     File *f;
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 39192e3..7e3f39e 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1241,10 +1241,20 @@ bool FileLineIterator::operator!=(const FileEndSentinel &) const { return !f->eo
 Bytes &&FileLineIterator::operator*() {
     if(!is_up_to_date) {
         line = f->readline_bytes();
+        is_up_to_date = true;
     }
     return move(line);
 }
 
+FileLineIterator &FileLineIterator::operator++() {
+    if(!is_up_to_date) {
+        // Nobody looked at the current line.
+        f->readline_bytes();
+    }
+    is_up_to_date = false;
+    return *this;
+}
+
 File::File(const char *fname, const char *modes) : policy{EncodingPolicy::Enforce} {
     f = fopen(fname, modes);
     if(!f) {
-- 
2.43.0


From 121633f3394893b94f6aa95bf5b7553297104fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:17 +0000
Subject: [PATCH 76/90] fix: glob matching read past the end of names

---
 src/pystd2026_filesystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 0737933..d35e101 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -42,7 +42,7 @@ bool glob_matches(const char *text,
             return true;
         }
         size_t gap = 0;
-        while(text[gap] != '\0') {
+        while(text[text_offset + gap] != '\0') {
             if(glob_matches(text, text_offset + gap, pattern, pattern_offset + 1)) {
                 return true;
             }
-- 
2.43.0


From 5194ab83d2b2b20260415dbf3bb5ef7055634063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:18 +0000
Subject: [PATCH 77/90] fix: a star at the end of a glob did not match an empty
 text

---
 src/pystd2026_filesystem.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index d35e101..150ff77 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -22,10 +22,12 @@ bool glob_matches(const char *text,
     const char text_char = text[text_offset];
     const char pattern_char = pattern[pattern_offset];
     if(text_char == '\0') {
-        if(pattern_char == '\0') {
-            return true;
+        // A star matches the empty text, too.
+        size_t rest = pattern_offset;
+        while(pattern[rest] == '*') {
+            ++rest;
         }
-        return false;
+        return pattern[rest] == '\0';
     }
     if(pattern_char == '\0') {
         return false;
-- 
2.43.0


From 42e39054348555437e7115df92aabffa30fc1cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:19 +0000
Subject: [PATCH 78/90] fix: a question mark in a glob matched the dot of a
 hidden file

---
 src/pystd2026_filesystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 150ff77..91532a5 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -33,6 +33,10 @@ bool glob_matches(const char *text,
         return false;
     }
     if(pattern_char == '?') {
+        if(text_offset == 0 && text_char == '.') {
+            // Nor do they match a question mark.
+            return false;
+        }
         return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
     } else if(pattern_char == '*') {
         if(text_offset == 0 && text_char == '.') {
-- 
2.43.0


From dbcb92826b26bdbfc7e2ee8a63405626a6b6e6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:20 +0000
Subject: [PATCH 79/90] fix: globs lost the leading directories of results
 below the second level

---
 src/pystd2026_filesystem.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 91532a5..2911843 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -34,7 +34,7 @@ bool glob_matches(const char *text,
     }
     if(pattern_char == '?') {
         if(text_offset == 0 && text_char == '.') {
-            // Nor do they match a question mark.
+            // Files with leading dots do not match question mark globs.
             return false;
         }
         return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
@@ -301,7 +301,7 @@ private:
         auto *sd = full_path.is_empty() ? opendir(".") : opendir(full_path.c_str());
         const auto new_depth = dir_stack.is_empty() ? 0 : dir_stack.back().part_number + 1;
         if(sd) {
-            dir_stack.emplace_back(new_depth, move(subdir_name), unique_ptr<DIR, DirCloser>(sd));
+            dir_stack.emplace_back(new_depth, full_path, unique_ptr<DIR, DirCloser>(sd));
             const bool do_starstar = parts[new_depth] == "**";
             if(do_starstar) {
                 // ** may expand to empty.
-- 
2.43.0


From ef3abb7f700525a3033dc68f12808aa4f86af8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:49 +0000
Subject: [PATCH 80/90] fix: globs with ** looked in the wrong directories and
 returned results twice

---
 src/pystd2026_filesystem.cpp | 39 ++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 20 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 2911843..cc7495e 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -261,6 +261,9 @@ public:
                 }
             }
         }
+        if(starstar_used && parts.back() == "**") {
+            throw PyException("The ** operator must be followed by a further segment.");
+        }
         enter_subdir(Path(), root_dir.c_str());
     }
 
@@ -298,28 +301,24 @@ public:
 private:
     void enter_subdir(const Path &parent_dir, const char *subdir_name) {
         Path full_path = parent_dir / subdir_name;
-        auto *sd = full_path.is_empty() ? opendir(".") : opendir(full_path.c_str());
         const auto new_depth = dir_stack.is_empty() ? 0 : dir_stack.back().part_number + 1;
-        if(sd) {
-            dir_stack.emplace_back(new_depth, full_path, unique_ptr<DIR, DirCloser>(sd));
-            const bool do_starstar = parts[new_depth] == "**";
-            if(do_starstar) {
-                // ** may expand to empty.
-                DIR *pd = parent_dir.is_empty() ? opendir(".") : opendir(parent_dir.c_str());
-                if(pd) {
-                    dir_stack.emplace_back(
-                        new_depth + 1, parent_dir, unique_ptr<DIR, DirCloser>(pd));
-                }
-                auto sstar_dirs = glob_starstar_dirs(subdir_name);
-                for(auto &sdir : sstar_dirs) {
-                    auto *ssd = opendir(sdir.c_str());
-                    if(ssd) {
-                        dir_stack.emplace_back(
-                            new_depth + 1, move(sdir), unique_ptr<DIR, DirCloser>(ssd));
-                    }
-                }
-            } else {
+        const bool do_starstar = parts[new_depth] == "**";
+        if(do_starstar) {
+            // ** may expand to empty.
+            search_dir(full_path, new_depth + 1);
+            auto sstar_dirs = glob_starstar_dirs(full_path);
+            for(auto &sdir : sstar_dirs) {
+                search_dir(sdir, new_depth + 1);
             }
+        } else {
+            search_dir(full_path, new_depth);
+        }
+    }
+
+    void search_dir(const Path &dir, size_t part_number) {
+        auto *sd = dir.is_empty() ? opendir(".") : opendir(dir.c_str());
+        if(sd) {
+            dir_stack.emplace_back(part_number, dir, unique_ptr<DIR, DirCloser>(sd));
         } else {
             // Dir can not be accessed, so ignore it. Happens e.g. when
             // you don't have access rights or the directory was deleted
-- 
2.43.0


From d55005892679e226dd773abb78578fa2b6a206ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:05 +0000
Subject: [PATCH 81/90] fix: globs with ** ignored directories when there were
 very many of them

---
 src/pystd2026_filesystem.cpp | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index cc7495e..ecf37bf 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -272,6 +272,19 @@ public:
             if(dir_stack.is_empty()) {
                 return {};
             }
+            if(!dir_stack.back().d) {
+                // Opened only now to not have an unlimited number of directories open.
+                const Path &dir = dir_stack.back().path;
+                auto *sd = dir.is_empty() ? opendir(".") : opendir(dir.c_str());
+                if(!sd) {
+                    // Dir can not be accessed, so ignore it. Happens e.g. when
+                    // you don't have access rights or the directory was deleted
+                    // before we could access it.
+                    dir_stack.pop_back();
+                    continue;
+                }
+                dir_stack.back().d = unique_ptr<DIR, DirCloser>(sd);
+            }
             const bool is_last_part = dir_stack.back().part_number == parts.size() - 1;
             dirent *entry = readdir(dir_stack.back().d.get());
             if(!entry) {
@@ -316,14 +329,7 @@ private:
     }
 
     void search_dir(const Path &dir, size_t part_number) {
-        auto *sd = dir.is_empty() ? opendir(".") : opendir(dir.c_str());
-        if(sd) {
-            dir_stack.emplace_back(part_number, dir, unique_ptr<DIR, DirCloser>(sd));
-        } else {
-            // Dir can not be accessed, so ignore it. Happens e.g. when
-            // you don't have access rights or the directory was deleted
-            // before we could access it.
-        }
+        dir_stack.emplace_back(part_number, dir, unique_ptr<DIR, DirCloser>());
     }
 
     struct DirSearchState {
-- 
2.43.0


From 9263df47450bf9c949c9f4cc5a197f1c05fb6841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:08 +0000
Subject: [PATCH 82/90] fix: glob results could not be default constructed or
 assigned

---
 include/pystd2026.hpp        | 2 +-
 src/pystd2026_filesystem.cpp | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 928ea12..f1be41d 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2269,7 +2269,7 @@ public:
     ~GlobResult();
     Optional<Path> next();
 
-    GlobResult &operator=(GlobResult &&o) noexcept = default;
+    GlobResult &operator=(GlobResult &&o) noexcept;
 
 private:
     GlobResult(const Path &path, const char *glob_pattern);
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index ecf37bf..8633c0b 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -343,8 +343,12 @@ private:
     Vector<DirSearchState> dir_stack;
 };
 
+GlobResult::GlobResult() noexcept = default;
+
 GlobResult::GlobResult(GlobResult &&o) noexcept = default;
 
+GlobResult &GlobResult::operator=(GlobResult &&o) noexcept = default;
+
 GlobResult::~GlobResult() = default;
 
 GlobResult::GlobResult(const Path &path, const char *glob_pattern)
-- 
2.43.0


From f6bb00b20f9b0366d09192fd3298c34d43424c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:55 +0000
Subject: [PATCH 83/90] fix: a short option without its parameter read past the
 end of argv

---
 src/pystd2026_argparse.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 8244188..56585b7 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -247,6 +247,10 @@ int ArgParse::process_short_argument(
 
     if(arg.needs_parameter()) {
         if(current.size() == 2) {
+            if(i + 1 >= argc) {
+                fprintf(stderr, "Last entry on the command line would need a further argument.\n");
+                exit(1);
+            }
             valuepart = argv[i + 1];
             extra_consumed_args = 1;
         } else {
-- 
2.43.0


From d849eff02a6ab432c6abe06c4bca61bdf23985f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:57 +0000
Subject: [PATCH 84/90] fix: text that is not a number was accepted as an
 integer argument

---
 src/pystd2026_argparse.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 56585b7..cad2ff2 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -86,10 +86,14 @@ static void update_value(const Argument &atype, ArgValue &vobj, CStringView sour
             // FIXME, needed for null terminator.
             CString tmp(source);
             errno = 0;
-            int64_t intval = strtol(tmp.data(), nullptr, 10);
+            char *number_end = nullptr;
+            int64_t intval = strtol(tmp.c_str(), &number_end, 10);
             if(errno != 0) {
                 throw PyException(strerror(errno));
             }
+            if(number_end == tmp.c_str() || *number_end != '\0') {
+                throw PyException("Argument value is not an integer.");
+            }
             if(atype.minval && intval < atype.minval.value()) {
                 throw PyException("Argument value less than min value.");
             }
-- 
2.43.0


From 5930cb75d49be5872e16fad37f25c53a41b57bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:58 +0000
Subject: [PATCH 85/90] fix: values given to flag arguments were silently
 ignored

---
 src/pystd2026_argparse.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index cad2ff2..36ab603 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -228,6 +228,9 @@ int ArgParse::process_long_argument(
             valuepart = argv[i + 1];
             extra_consumed_args = 1;
         }
+    } else if(splitpoint != (size_t)-1) {
+        fprintf(stderr, "Argument does not take a value: %s\n", argv[i]);
+        exit(1);
     }
     argument_matched(result, match_index, valuepart);
 
@@ -261,7 +264,9 @@ int ArgParse::process_short_argument(
             // FIXME, check for "-x=something".
             valuepart = current.substr(2);
         }
-    } else {
+    } else if(current.size() != 2) {
+        fprintf(stderr, "Argument does not take a value: %s\n", argv[i]);
+        exit(1);
     }
     argument_matched(result, match_index, valuepart);
 
-- 
2.43.0


From 92da13849e446fe5cc0f41c9baffb22967591c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:29 +0000
Subject: [PATCH 86/90] fix: regex group number one past the last was read out
 of bounds

---
 src/pystd2026_regex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026_regex.cpp b/src/pystd2026_regex.cpp
index 9b91cc3..677417d 100644
--- a/src/pystd2026_regex.cpp
+++ b/src/pystd2026_regex.cpp
@@ -60,7 +60,7 @@ size_t U8Match::num_groups() const {
 
 U8StringView U8Match::group(size_t group_num) const {
     const size_t group_count = pcre2_get_ovector_count((pcre2_match_data_8 *)handle);
-    if(group_num > group_count) {
+    if(group_num >= group_count) {
         throw PyException("Invalid regex group number.");
     }
     const size_t *group_vector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
-- 
2.43.0


From b33fd49791a75798b1a0a55fd9341e28f8211b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:29 +0000
Subject: [PATCH 87/90] fix: regex groups that did not take part in the match
 were read out of bounds

---
 src/pystd2026_regex.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pystd2026_regex.cpp b/src/pystd2026_regex.cpp
index 677417d..9acc56d 100644
--- a/src/pystd2026_regex.cpp
+++ b/src/pystd2026_regex.cpp
@@ -49,6 +49,9 @@ U8String U8Match::get_submatch(size_t i) {
     }
     auto ovector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
     auto match_start = ovector[2 * i];
+    if(match_start == PCRE2_UNSET) {
+        throw PyException("Submatch did not take part in the match.");
+    }
     auto match_length = ovector[2 * i + 1] - ovector[2 * i];
     return original->substr(match_start, match_length);
 }
@@ -67,6 +70,9 @@ U8StringView U8Match::group(size_t group_num) const {
 
     const size_t match_start = group_vector[2 * group_num];
     const size_t match_end = group_vector[2 * group_num + 1];
+    if(match_start == PCRE2_UNSET) {
+        throw PyException("Regex group did not take part in the match.");
+    }
     return U8StringView{ValidU8Iterator{(const unsigned char *)original->c_str() + match_start},
                         ValidU8Iterator{(const unsigned char *)original->c_str() + match_end}};
 }
-- 
2.43.0


From b12f3ffd8c6565151a07cfc3662b233b2dd3edad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:17 +0000
Subject: [PATCH 88/90] fix: refuse to join or detach a thread twice

---
 src/pystd2026_threading.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pystd2026_threading.cpp b/src/pystd2026_threading.cpp
index 20095b7..24f7dcf 100644
--- a/src/pystd2026_threading.cpp
+++ b/src/pystd2026_threading.cpp
@@ -59,11 +59,17 @@ Thread::~Thread() {
 }
 
 void Thread::join() {
+    if(thread_is_finalized) {
+        throw PyException("Thread has already been joined or detached.");
+    }
     pthread_join(thread, nullptr);
     thread_is_finalized = true;
 }
 
 void Thread::detach() {
+    if(thread_is_finalized) {
+        throw PyException("Thread has already been joined or detached.");
+    }
     pthread_detach(thread);
     thread_is_finalized = true;
 }
-- 
2.43.0


From c21c0fe30d024f833ea0f8dad21d2efee7f94a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:33 +0000
Subject: [PATCH 89/90] fix: taking the error out of a temporary Unexpected did
 not compile

---
 include/pystd2026.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index f1be41d..5b35815 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -298,9 +298,9 @@ public:
     Unexpected(const E &e_) noexcept : e(e_) {}
 
     E &error() & noexcept { return e; }
-    E &&error() && noexcept { return e; }
+    E &&error() && noexcept { return ::pystd2026::move(e); }
     const E &error() const & noexcept { return e; }
-    const E &&error() const && noexcept { return e; }
+    const E &&error() const && noexcept { return ::pystd2026::move(e); }
 
     Unexpected &operator=(Unexpected &&o) = default;
 
-- 
2.43.0


From 80aa654a99d8d067fffab02e4bac12eca5500476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 90/90] fix: CString::rfind found the terminator

---
 src/pystd2026.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 7e3f39e..24d313c 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -864,12 +864,13 @@ void CString::remove(size_t from, size_t to) {
 size_t CString::find(CStringView substr) const { return view().find(substr); }
 
 size_t CString::rfind(const char c) const noexcept {
-    size_t i = bytes.size() - 1;
-    while(i != (size_t)-1) {
+    // The terminator is not part of the text.
+    size_t i = size();
+    while(i > 0) {
+        --i;
         if(bytes[i] == c) {
             return i;
         }
-        --i;
     }
     return -1;
 }
-- 
2.43.0

