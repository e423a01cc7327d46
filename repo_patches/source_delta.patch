From 3af8a9f687c8a6dda74323f3a78e4e41ec236473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 001/112] fix: CStringView::find misses a match at the end of
 the text

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 8773cc9..9b22aa0 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -459,7 +459,7 @@ size_t CStringView::find(CStringView substr) const {
     if(substr.size() > size()) {
         return -1;
     }
-    for(size_t start = 0; start < size() - substr.size(); ++start) {
+    for(size_t start = 0; start <= size() - substr.size(); ++start) {
         bool has_mismatch = false;
         for(size_t i = 0; i < substr.size(); ++i) {
             if(buf[start + i] != substr.buf[i]) {
-- 
2.43.0


From 5dff39ec6634138c3bedcc0a515175bb8f9638f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 002/112] fix: CStringView::starts_with compares past the end
 of the prefix

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 9b22aa0..bb14ad9 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -425,7 +425,7 @@ bool CStringView::starts_with(CStringView view) const {
     if(view.size() > size()) {
         return false;
     }
-    for(size_t i = 0; i < bufsize; ++i) {
+    for(size_t i = 0; i < view.size(); ++i) {
         if(view[i] != buf[i]) {
             return false;
         }
-- 
2.43.0


From bd244d90a84614b8d48599481998b5eff4427fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 003/112] fix: CStringView::substr refuses the empty tail and
 overflows on huge counts

---
 src/pystd2026.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index bb14ad9..f5116c7 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -443,13 +443,11 @@ size_t CStringView::find(char c) const {
 }
 
 CStringView CStringView::substr(size_t pos, size_t count) const {
-    if(pos >= bufsize) {
+    if(pos > bufsize) {
         throw PyException("CStringView index out of bounds.");
     }
     size_t actual_count = count;
-    if(count == (size_t)-1) {
-        actual_count = bufsize - pos;
-    } else if(pos + count > bufsize) {
+    if(count > bufsize - pos) {
         actual_count = bufsize - pos;
     }
     return CStringView(buf + pos, actual_count);
-- 
2.43.0


From c5727dccedc061081e4adc31bb7a5729f2e40ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:02 +0000
Subject: [PATCH 004/112] fix: CStringView indexing allows reading one past the
 end

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e36326d..142cf1d 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1627,7 +1627,7 @@ public:
     CStringView substr(size_t pos = 0, size_t count = (size_t)-1) const;
 
     char operator[](size_t index) const {
-        if(!buf || index > bufsize) {
+        if(!buf || index >= bufsize) {
             bootstrap_throw("OOB in CStringView.");
         }
         return buf[index];
-- 
2.43.0


From 3cbca9454306848a54cbd49c50426245e736105d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 005/112] fix: CStringView::front throws a raw pointer instead
 of a PyException

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index f5116c7..c93d20e 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -404,7 +404,7 @@ bool CStringView::operator==(CStringView o) const {
 
 char CStringView::front() const {
     if(is_empty()) {
-        throw "Front requested on empty string.";
+        throw PyException("Front requested on empty string.");
     }
     return buf[0];
 }
-- 
2.43.0


From 91462cc6b8ca96acc889f6bf4fbeec7810600a80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 006/112] fix: adjacent views do not overlap

---
 src/pystd2026.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index c93d20e..a10c2b7 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -490,10 +490,10 @@ bool CStringView::overlaps(CStringView &other) const {
     const auto s2 = other.buf;
     const auto e2 = other.buf + other.bufsize;
 
-    if(e2 < s1) {
+    if(e2 <= s1) {
         return false;
     }
-    if(e1 < s2) {
+    if(e1 <= s2) {
         return false;
     }
     return true;
-- 
2.43.0


From 8c77d14951d30f5376588aaa59835caaad626002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 007/112] fix: ZStringView computes the length when none is
 given

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index a10c2b7..b2302a3 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -600,7 +600,7 @@ ZStringView::ZStringView(const char *original, size_t original_size) noexcept {
     if(original == nullptr) {
         buf = nullptr;
         bufsize = 0;
-    } else if(bufsize == (size_t)-1) {
+    } else if(original_size == (size_t)-1) {
         buf = original;
         bufsize = strlen(original);
     } else {
-- 
2.43.0


From 251cd87134233d606e9a6aa38613d518ad9aa5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 008/112] fix: CString::substr validates its range

---
 src/pystd2026.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index b2302a3..3abda05 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -672,11 +672,7 @@ size_t CString::size() const {
 }
 
 CString CString::substr(size_t offset, size_t length) const {
-    if(length == (size_t)-1) {
-        CString(c_str() + offset, size() - offset);
-    }
-    // FIXME, validate range.
-    return CString(c_str() + offset, length);
+    return CString(view().substr(offset, length));
 }
 
 template<> Vector<CString> CString::split() const {
-- 
2.43.0


From 8ef0e504d9c42f1f0340859f2b5621b5e50188eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 009/112] fix: U8String::substr validates its range

---
 src/pystd2026.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 3abda05..f0665f0 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1043,8 +1043,8 @@ U8String::U8String(const char *txt, size_t txtsize) {
 }
 
 U8String U8String::substr(size_t offset, size_t length) const {
-    // FIXME, validate range.
-    return U8String(cstring.data() + offset, length);
+    const auto piece = cstring.view().substr(offset, length);
+    return U8String(piece.data(), piece.size());
 }
 
 U8StringView U8String::view() const { return U8StringView{cbegin(), cend()}; }
-- 
2.43.0


From 35d9e70cc9f0779656d7ade878435a13a9f9cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 010/112] fix: CString::rfind does not search the terminator

---
 src/pystd2026.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index f0665f0..fa01fe3 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -812,12 +812,10 @@ void CString::insert(size_t i, const CStringView &v) noexcept {
 size_t CString::find(CStringView substr) const { return view().find(substr); }
 
 size_t CString::rfind(const char c) const noexcept {
-    size_t i = bytes.size() - 1;
-    while(i != (size_t)-1) {
-        if(bytes[i] == c) {
-            return i;
+    for(size_t i = size(); i > 0; --i) {
+        if(bytes[i - 1] == c) {
+            return i - 1;
         }
-        --i;
     }
     return -1;
 }
-- 
2.43.0


From f7be0dc16327c70ff841edbdcf0e2dcbc66fd3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:03 +0000
Subject: [PATCH 011/112] fix: CString indexing and front stay inside the
 string

---
 include/pystd2026.hpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 142cf1d..b034a42 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1719,7 +1719,13 @@ public:
 
     CString substr(size_t offset, size_t length = -1) const;
 
-    char operator[](size_t i) const { return bytes[i]; }
+    char operator[](size_t i) const {
+        // The terminating null may be accessed.
+        if(i > size()) {
+            bootstrap_throw("OOB in CString.");
+        }
+        return bytes[i];
+    }
 
     void operator=(const ::pystd2026::CString &) noexcept;
     void operator=(CString &&o) noexcept {
@@ -1766,7 +1772,12 @@ public:
         return bytes.size() == 1;
     }
 
-    char front() const { return bytes.front(); }
+    char front() const {
+        if(is_empty()) {
+            bootstrap_throw("Called front() on empty string.");
+        }
+        return bytes.front();
+    }
 
     char back() const;
 
-- 
2.43.0


From 328b313e6237275cadd8952c1086e48b4a57cb6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 012/112] fix: CString copy assignment was declared but not
 defined

---
 src/pystd2026.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index fa01fe3..3200779 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -748,10 +748,11 @@ CString &CString::operator+=(const char *str) {
     return *this;
 }
 
+void CString::operator=(const ::pystd2026::CString &o) noexcept { bytes = o.bytes; }
+
 CString &CString::operator=(const char *str) {
     CStringView tmp(str);
-    clear();
-    (*this) = tmp;
+    (*this) = CString(tmp);
     return *this;
 }
 
-- 
2.43.0


From 78a566a023caff377bec5d7392a13f6fad0ae92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 013/112] fix: CString::clear keeps the terminator

---
 include/pystd2026.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index b034a42..9084f57 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1715,7 +1715,10 @@ public:
     size_t size() const;
     size_t length() const { return size(); }
 
-    void clear() noexcept { bytes.clear(); }
+    void clear() noexcept {
+        bytes.clear();
+        bytes.append('\0');
+    }
 
     CString substr(size_t offset, size_t length = -1) const;
 
-- 
2.43.0


From 04e12a67d14a2804c9fa8d56e64151c9be543bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 014/112] fix: CString::resize keeps the terminator

---
 include/pystd2026.hpp | 2 +-
 src/pystd2026.cpp     | 9 +++++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 9084f57..09ddb2d 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1795,7 +1795,7 @@ public:
 
     void reserve(size_t new_size) noexcept { bytes.reserve(new_size); }
 
-    void resize(size_t new_size) noexcept { bytes.resize(new_size); }
+    void resize(size_t new_size) noexcept;
 
     void remove(size_t from, size_t to) { bytes.remove(from, to); }
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 3200779..963094f 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -801,6 +801,15 @@ void CString::pop_back() noexcept {
     bytes.append('\0');
 }
 
+void CString::resize(size_t new_size) noexcept {
+    bytes.pop_back();
+    while(bytes.size() < new_size) {
+        bytes.append('\0');
+    }
+    bytes.resize(new_size);
+    bytes.append('\0');
+}
+
 void CString::insert(size_t i, const CStringView &v) noexcept {
     if(view_points_to_this(v)) {
         CString string_copy(v);
-- 
2.43.0


From 44625f41e11dcc878815037ab084c660ffb8485f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 015/112] fix: CString::insert refuses a bad position instead
 of terminating

---
 include/pystd2026.hpp | 2 +-
 src/pystd2026.cpp     | 5 ++++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 09ddb2d..01c9ba0 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1787,7 +1787,7 @@ public:
     void pop_back() noexcept;
     void push_back(const char c) noexcept { append(c); }
 
-    void insert(size_t i, const CStringView &v) noexcept;
+    void insert(size_t i, const CStringView &v);
 
     size_t find(CStringView substr) const;
 
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 963094f..e7e061b 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -810,7 +810,10 @@ void CString::resize(size_t new_size) noexcept {
     bytes.append('\0');
 }
 
-void CString::insert(size_t i, const CStringView &v) noexcept {
+void CString::insert(size_t i, const CStringView &v) {
+    if(i > size()) {
+        throw PyException("Invalid index for insert.");
+    }
     if(view_points_to_this(v)) {
         CString string_copy(v);
         insert(i, string_copy.view());
-- 
2.43.0


From 1017e1788f7c11b673f5fed204b74601005c8090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 016/112] fix: removal checks the end of the range

---
 include/pystd2026.hpp | 7 ++++++-
 src/pystd2026.cpp     | 2 +-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 01c9ba0..e7c3315 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1797,7 +1797,12 @@ public:
 
     void resize(size_t new_size) noexcept;
 
-    void remove(size_t from, size_t to) { bytes.remove(from, to); }
+    void remove(size_t from, size_t to) {
+        if(to > size()) {
+            bootstrap_throw("Invalid sequence to remove.");
+        }
+        bytes.remove(from, to);
+    }
 
     CString upper() const noexcept { return view().upper(); }
     CString lower() const noexcept { return view().lower(); }
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index e7e061b..661b180 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -342,7 +342,7 @@ char Bytes::back() const {
 }
 
 void Bytes::remove(size_t from, size_t to) {
-    if(from > to) {
+    if(from > to || to > bufsize) {
         throw PyException("Invalid sequence to remove.");
     }
     if(from == to) {
-- 
2.43.0


From 28e9e97cc660c7f91e8e7609cc0822da72485d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 017/112] fix: CString += refuses a null character like append
 does

---
 src/pystd2026.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 661b180..a58b2de 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -736,9 +736,7 @@ CString &CString::operator+=(const CString &o) {
 }
 
 CString &CString::operator+=(char c) {
-    bytes.pop_back();
-    bytes.append(c);
-    bytes.append('\0');
+    append(c);
     return *this;
 }
 
-- 
2.43.0


From 3900965abb83a47af05ccd6de68947530d54e263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:46 +0000
Subject: [PATCH 018/112] fix: CString::append accepts parts of the string
 itself

---
 src/pystd2026.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index a58b2de..96111a9 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -767,6 +767,11 @@ void CString::append(const char *str, size_t strsize) {
     if(strsize == (size_t)-1) {
         strsize = strlen(str);
     }
+    if(bytes.is_ptr_within(str)) {
+        const CString copy(str, strsize);
+        append(copy.c_str(), strsize);
+        return;
+    }
     for(size_t i = 0; i < strsize; ++i) {
         // FIXME, slow.
         append(str[i]);
-- 
2.43.0


From 3319850ae4a1e8eeacc4d255d3b8368d3ba9f466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:14 +0000
Subject: [PATCH 019/112] fix: CString::push_back refuses a null character
 instead of terminating

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e7c3315..44971c9 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1785,7 +1785,7 @@ public:
     char back() const;
 
     void pop_back() noexcept;
-    void push_back(const char c) noexcept { append(c); }
+    void push_back(const char c) { append(c); }
 
     void insert(size_t i, const CStringView &v);
 
-- 
2.43.0


From 0f157e0f9d7c12a55fbfaa8c639e19a4d99a8646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 020/112] fix: natural_order mixes up its indices, overflows
 and reads past unterminated views

---
 src/pystd2026.cpp | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 96111a9..6046808 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -518,6 +518,19 @@ CString CStringView::lower() const noexcept {
 }
 
 int CStringView::natural_order(const CStringView &o) const {
+    auto is_digit = [](char c) { return c >= '0' && c <= '9'; };
+    auto skip_zeros = [](const CStringView &v, size_t i) {
+        while(i < v.bufsize && v.buf[i] == '0') {
+            ++i;
+        }
+        return i;
+    };
+    auto skip_digits = [&is_digit](const CStringView &v, size_t i) {
+        while(i < v.bufsize && is_digit(v.buf[i])) {
+            ++i;
+        }
+        return i;
+    };
     const char *left = buf;
     const char *right = o.buf;
     size_t i_left = 0;
@@ -534,23 +547,27 @@ int CStringView::natural_order(const CStringView &o) const {
         if(right_exhausted) {
             return 1;
         }
-        char *left_end;
-        char *right_end;
-        const auto left_int = strtoul(left + i_left, &left_end, 10);
-        const auto right_int = strtoul(right + i_left, &right_end, 10);
-        const bool left_has_num = (left + i_left) != left_end;
-        const bool right_has_num = (right + i_right) != right_end;
+        const bool left_has_num = is_digit(left[i_left]);
+        const bool right_has_num = is_digit(right[i_right]);
 
         if(left_has_num) {
             if(right_has_num) {
-                if(left_int < right_int) {
-                    return -1;
+                // The numbers may be too big for any integer type. Without
+                // leading zeros a longer number is always the bigger one.
+                i_left = skip_zeros(*this, i_left);
+                i_right = skip_zeros(o, i_right);
+                const auto left_end = skip_digits(*this, i_left);
+                const auto right_end = skip_digits(o, i_right);
+                if(left_end - i_left != right_end - i_right) {
+                    return left_end - i_left < right_end - i_right ? -1 : 1;
                 }
-                if(left_int > right_int) {
-                    return 1;
+                while(i_left < left_end) {
+                    if(left[i_left] != right[i_right]) {
+                        return left[i_left] < right[i_right] ? -1 : 1;
+                    }
+                    ++i_left;
+                    ++i_right;
                 }
-                i_left += left_end - (left + i_left);
-                i_right += right_end - (right + i_right);
             } else {
                 return -1;
             }
-- 
2.43.0


From dd94cd9ed9df4e310a5cdf9c938da99bf517a4a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 021/112] fix: Bytes::operator< compares lexicographically

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 44971c9..4da4d44 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -961,7 +961,7 @@ public:
             if(c1 < c2) {
                 return true;
             }
-            if(c2 > c1) {
+            if(c1 > c2) {
                 return false;
             }
         }
-- 
2.43.0


From 1db1a5f94a3dfa63556fa1bb32f225823c3a876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 022/112] fix: U8StringView equality with C strings for
 non-ASCII text

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 6046808..daa0683 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -986,7 +986,7 @@ bool U8StringView::operator==(const char *txt) const noexcept {
         if(data_start + i == data_end) {
             return txt[i] == '\0';
         }
-        if(data_start[i] != txt[i]) {
+        if(data_start[i] != (unsigned char)txt[i]) {
             return false;
         }
         ++i;
-- 
2.43.0


From d4ad726271de3b8d947ff62d4eb788b8e1dfbc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 023/112] fix: Bytes::back returns the last byte, not the last
 byte of the capacity

---
 src/pystd2026.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index daa0683..4d9fc07 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -337,8 +337,7 @@ char Bytes::back() const {
     if(is_empty()) {
         throw PyException("Buffer underrun.");
     }
-    auto result = buf[buf.size_bytes() - 1];
-    return result;
+    return buf[bufsize - 1];
 }
 
 void Bytes::remove(size_t from, size_t to) {
-- 
2.43.0


From 2aa9b22e36541e2790408227c25115fa128f3655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 024/112] fix: Bytes::pop_front of everything underflows the
 size

---
 src/pystd2026.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 4d9fc07..5322529 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -242,8 +242,9 @@ void Bytes::pop_back(size_t num) {
 void Bytes::pop_front(size_t num) {
     if(num >= bufsize) {
         clear();
+        return;
     }
-    memmove(buf.get(), buf.get() + num, buf.size() - num);
+    memmove(buf.get(), buf.get() + num, bufsize - num);
     bufsize -= num;
 }
 
-- 
2.43.0


From b5c44f877bc58c70b2e2d09e2555b2347ae922b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 025/112] fix: Bytes::insert accepts the end position and its
 own contents

---
 src/pystd2026.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 5322529..cfaa438 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -215,11 +215,14 @@ void Bytes::assign(const char *buf_in, size_t in_size) {
 }
 
 void Bytes::insert(size_t i, const char *buf_in, size_t in_size) {
-    if(i >= bufsize) {
+    if(i > bufsize) {
         throw PyException("Invalid index for insert.");
     }
-    // FIXME
-    assert(!is_ptr_within(buf_in));
+    if(is_ptr_within(buf_in)) {
+        const Bytes copy(buf_in, in_size);
+        insert(i, copy.data(), in_size);
+        return;
+    }
     auto new_size = bufsize + in_size;
     grow_to(new_size);
     auto splice_point = buf.get() + i;
-- 
2.43.0


From aed5cc29a92458b850bb0a18d0272fccb4c10506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 026/112] fix: Bytes::assign and append accept parts of the
 buffer itself

---
 src/pystd2026.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index cfaa438..fcef714 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -208,6 +208,11 @@ Bytes::Bytes(const Bytes &o) noexcept
 }
 
 void Bytes::assign(const char *buf_in, size_t in_size) {
+    if(is_ptr_within(buf_in)) {
+        const Bytes copy(buf_in, in_size);
+        assign(copy.data(), in_size);
+        return;
+    }
     bufsize = 0;
     grow_to(in_size + 1);               // Prepare for the eventual null terminator.
     memcpy(buf.get(), buf_in, in_size); // str might not be null terminated.
@@ -280,6 +285,11 @@ void Bytes::append(const char c) {
 }
 
 void Bytes::append(const char *begin, const char *end) {
+    if(is_ptr_within(begin)) {
+        const Bytes copy(begin, end);
+        append(copy.begin(), copy.end());
+        return;
+    }
     while(begin != end) {
         append(*begin);
         ++begin;
-- 
2.43.0


From 99e1c95e55bffa19bded37c3e20bbae5497b4f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:38 +0000
Subject: [PATCH 027/112] fix: Bytes indexing checks the size, not the capacity

---
 include/pystd2026.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 4da4d44..3c2e342 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -925,7 +925,12 @@ public:
 
     void pop_front(size_t num = 1);
 
-    char operator[](size_t i) const { return buf[i]; }
+    char operator[](size_t i) const {
+        if(i >= bufsize) {
+            bootstrap_throw("OOB in Bytes.");
+        }
+        return buf[i];
+    }
 
     char unsafe_at(size_t i) const { return buf.unsafe_at(i); }
 
-- 
2.43.0


From d03645974e8f50d7d83620b5e925b980758b4ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 028/112] fix: UTF-8 validation refuses overlong forms,
 surrogates and too big values

---
 src/pystd2026.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index fcef714..2c8155d 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -57,7 +57,12 @@ bool is_valid_uf8_character(const char *input,
         unpacked |= subsequent & subsequent_data_mask;
     }
 
-    return true;
+    // Overlong forms, surrogates and values beyond the last codepoint are not valid.
+    const uint32_t smallest[4] = {0, 0x80, 0x800, 0x10000};
+    if(unpacked < smallest[par.num_subsequent_bytes]) {
+        return false;
+    }
+    return unpacked <= 0x10FFFF && !(unpacked >= 0xD800 && unpacked <= 0xDFFF);
 }
 
 bool is_valid_utf8(const char *input, size_t input_size) {
-- 
2.43.0


From ddcb81bc8e4e72604e8735543b9def0db5fa2895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 029/112] fix: U8StringView of a C string without a length ends
 at the terminator

---
 src/pystd2026.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 2c8155d..4bcfb65 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -975,6 +975,9 @@ void ValidU8ReverseIterator::compute_char_info() {
 
 U8StringView::U8StringView(const char *buf_, size_t bufsize) {
     const unsigned char *buf = (const unsigned char *)buf_;
+    if(bufsize == (size_t)-1) {
+        bufsize = strlen(buf_);
+    }
     if(!is_valid_utf8(buf_, bufsize)) {
         throw PyException("String is not valid UTF-8.");
     }
-- 
2.43.0


From 5610923e7d1091526817888233df5ede6fb23727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 030/112] fix: append_codepoint refuses surrogates and the null
 character

---
 src/pystd2026.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 4bcfb65..0bab410 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1176,6 +1176,9 @@ void U8String::pop_back() noexcept {
 
 void U8String::append_codepoint(uint32_t codepoint) {
     unsigned char buf[5] = {0, 0, 0, 0, 0};
+    if(codepoint == 0 || (codepoint >= 0xD800 && codepoint <= 0xDFFF)) {
+        throw PyException("Codepoint can not be stored in a string.");
+    }
     if(codepoint < 0x80) {
         buf[0] = codepoint;
     } else if(codepoint < 0x800) {
-- 
2.43.0


From f7b71411536f21a2c9396598107ddfac86400604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:40 +0000
Subject: [PATCH 031/112] fix: PyException marks non-ASCII bytes also when char
 is signed

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 0bab410..52a4f4d 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1221,7 +1221,7 @@ PyException::PyException(const char *msg) : message("") {
     size_t offset = 0;
     while(msg[offset]) {
         auto c = msg[offset++];
-        if(c > 127) {
+        if((unsigned char)c > 127) {
             b.append('?');
         } else {
             b.append(c);
-- 
2.43.0


From ef228d6381bb8c0a3338f9a2c103994ff0484f29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 032/112] fix: Expected::value aborts exactly when there is no
 value

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 3c2e342..6bfe7eb 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -365,7 +365,7 @@ public:
     }
 
     V &value() {
-        if(*this) {
+        if(!*this) {
             abort();
         }
         return *reinterpret_cast<V *>(content);
-- 
2.43.0


From cb796d83943916420a8c1f5b5e0649c441cc6e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 033/112] fix: Expected move assignment takes the value of the
 other object

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 6bfe7eb..2c55b4f 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -352,7 +352,7 @@ public:
         if(this != &o) {
             destroy();
             if(o.has_value()) {
-                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(content)));
+                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(o.content)));
                 state = UnionState::Value;
             } else if(o.has_error()) {
                 new(content) E(::pystd2026::move(*reinterpret_cast<E *>(o.content)));
-- 
2.43.0


From 852445e5bb27db07d43f6c58a3a58103867e248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 034/112] fix: moving an empty Expected does not abort

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 2c55b4f..01f7dd6 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -335,7 +335,7 @@ public:
     Expected(Expected<V, E> &&o) noexcept : state{o.state} {
         if(o.has_value()) {
             new(content) V(::pystd2026::move(o.value()));
-        } else {
+        } else if(o.has_error()) {
             new(content) E(::pystd2026::move(o.error()));
         }
     }
-- 
2.43.0


From 677615b406af97517def699e934c13a499230716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 035/112] fix: Unexpected::error on temporaries did not compile

---
 include/pystd2026.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 01f7dd6..8142e3f 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -298,9 +298,9 @@ public:
     Unexpected(const E &e_) noexcept : e(e_) {}
 
     E &error() & noexcept { return e; }
-    E &&error() && noexcept { return e; }
+    E &&error() && noexcept { return ::pystd2026::move(e); }
     const E &error() const & noexcept { return e; }
-    const E &&error() const && noexcept { return e; }
+    const E &&error() const && noexcept { return ::pystd2026::move(e); }
 
     Unexpected &operator=(Unexpected &&o) = default;
 
-- 
2.43.0


From 98c0a69e6152971cf689388023f5095b9ffc8b21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 036/112] fix: subspans may end at the end of the span and huge
 sizes do not overflow

---
 include/pystd2026.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 8142e3f..3811cab 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -869,13 +869,13 @@ public:
     bool is_empty() const noexcept { return arraysize == 0; }
 
     Span subspan(size_t offset, size_t subspan_size = (size_t)-1) const {
-        if(offset >= arraysize) {
+        if(offset > arraysize) {
             bootstrap_throw("Offset OoB in subspan.");
         }
         if(subspan_size == (size_t)-1) {
             return Span(array + offset, arraysize - offset);
         }
-        if(offset + subspan_size >= arraysize) {
+        if(subspan_size > arraysize - offset) {
             bootstrap_throw("Subspan goes OoB.");
         }
         return Span(array + offset, subspan_size);
-- 
2.43.0


From 4b14239251bcd1049dfd70da9932d226fb6bae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:06 +0000
Subject: [PATCH 037/112] fix: unique_ptr::reset with the held pointer keeps it
 alive

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 3811cab..6a8c100 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -514,7 +514,7 @@ public:
     }
 
     void reset(T *new_ptr) {
-        if(ptr) {
+        if(ptr && ptr != new_ptr) {
             Deleter::del(ptr);
         }
         ptr = new_ptr;
-- 
2.43.0


From 38d7fd1db058b4d1937ae90289cc2bd90126b3ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 038/112] fix: Vector::append_with_default constructs every
 element

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 6a8c100..241ea70 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1246,7 +1246,7 @@ public:
         reserve(size() + num_copies);
         T *obj = objptr(size());
         for(size_t i = 0; i < num_copies; ++i) {
-            new(obj) T{};
+            new(obj + i) T{};
         }
         num_entries += num_copies;
     }
-- 
2.43.0


From b0a9cb53c3da3dcdf4ca85a37434d9c4f62fcefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 039/112] fix: Vector::emplace_back with an element of the
 vector itself

---
 include/pystd2026.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 241ea70..a47ef9d 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1088,8 +1088,13 @@ public:
     void emplace_back(auto &&...args) noexcept {
         if constexpr(sizeof...(args) == 1 && ::pystd2026::is_same_v<decltype(args...[0]), T>) {
             this->push_back(::pystd2026::forward(args...[0]));
-        } else {
+        } else if(needs_to_grow_for(1)) {
+            // The arguments might refer to elements of this vector.
+            T tmp(::pystd2026::forward<decltype(args)>(args)...);
             reserve(num_entries + 1);
+            new(objptr(num_entries)) T(::pystd2026::move(tmp));
+            ++num_entries;
+        } else {
             auto obj_loc = objptr(num_entries);
             new(obj_loc) T(::pystd2026::forward<decltype(args)>(args)...);
             ++num_entries;
-- 
2.43.0


From 45184998f5e9ffe517d1b92eecf055af580f2a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 040/112] fix: Vector::append and assign do not dereference an
 empty range

---
 include/pystd2026.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index a47ef9d..e16158e 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1102,7 +1102,7 @@ public:
     }
 
     template<typename Iter1, typename Iter2> void append(Iter1 start, Iter2 end) {
-        if(is_ptr_within((T *)&(*start))) {
+        if(start != end && is_ptr_within((T *)&(*start))) {
             bootstrap_throw("FIXME, appending contents of vector not handled yet.");
         }
         while(start != end) {
@@ -1112,7 +1112,7 @@ public:
     }
 
     template<typename Iter1, typename Iter2> void assign(Iter1 start, Iter2 end) {
-        if(is_ptr_within(&(*start))) {
+        if(start != end && is_ptr_within((T *)&(*start))) {
             bootstrap_throw("FIXME, assigning subset of vector itself is not supported.");
         }
         clear();
-- 
2.43.0


From f7138e9102dd263672072c8a1b5183c1b7b5c014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:38 +0000
Subject: [PATCH 041/112] fix: FixedVector::insert of one of its own elements

---
 include/pystd2026.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e16158e..1ce1e8b 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1369,6 +1369,8 @@ public:
             new(objptr(loc)) T(::pystd2026::move(obj));
             return;
         }
+        // The object to insert might be an element of this vector.
+        T tmp(::pystd2026::move(obj));
         auto *last = objptr(size() - 1);
         ++num_entries;
         new(objptr(size() - 1)) T(::pystd2026::move(*last));
@@ -1377,7 +1379,7 @@ public:
             auto *src = objptr(i - 1);
             *dst = ::pystd2026::move(*src);
         }
-        *objptr(loc) = ::pystd2026::move(obj);
+        *objptr(loc) = ::pystd2026::move(tmp);
     }
 
     bool try_emplace_back(auto &&...args) noexcept {
-- 
2.43.0


From 47f5f2a1b93d12d6f24347c237a321a8eb87a1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 042/112] fix: FixedCString with a given length reads past the
 source and is not terminated

---
 include/pystd2026.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 1ce1e8b..235cfbd 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1859,9 +1859,10 @@ public:
         if(length_in > BUF_SIZE) {
             bootstrap_throw("Input string too long for FixedCString.");
         }
-        for(size_t i = 0; i < length_in + 1; ++i) {
+        for(size_t i = 0; i < length_in; ++i) {
             buf[i] = str[i];
         }
+        buf[length_in] = '\0';
         strsize = length_in;
     }
 
-- 
2.43.0


From e96b7a884f910aa57d0d5a6c64e6f8a2ba150596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 043/112] fix: assigning a too long FixedCString of another
 size throws instead of terminating

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 235cfbd..5cad70d 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1884,7 +1884,7 @@ public:
     }
 
     template<size_t OTHER_BUFSIZE>
-    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) noexcept {
+    FixedCString &operator=(const FixedCString<OTHER_BUFSIZE> &o) {
         *this = o.view();
         return *this;
     }
-- 
2.43.0


From fd9e2f2c4e2245deaeb34c97e89a8a660a98043b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 044/112] fix: assigning a prefix of itself to a FixedCString
 was ignored

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 5cad70d..a63dba1 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1890,7 +1890,7 @@ public:
     }
 
     FixedCString &operator=(const CStringView &o) {
-        if(o.data() == buf) {
+        if(o.data() == buf && o.size() == strsize) {
             return *this;
         }
         if(o.size() > BUF_SIZE) {
-- 
2.43.0


From ae327917364f3d7c5ccbc9341cf7b48d851ad80f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 045/112] fix: FixedCString indexing checks the size, not the
 capacity

---
 include/pystd2026.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index a63dba1..e3f0f96 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1925,14 +1925,14 @@ public:
     }
 
     char &operator[](uint32_t index) {
-        if(index > BUF_SIZE) {
+        if(index > strsize) {
             bootstrap_throw("OoB in FixedCString");
         }
         return buf[index];
     }
 
     const char &operator[](uint32_t index) const {
-        if(index > BUF_SIZE) {
+        if(index > strsize) {
             bootstrap_throw("OoB in FixedCString");
         }
         return buf[index];
-- 
2.43.0


From f9dfa7e9844ab21de3c668eff5d75722fc9248e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:43 +0000
Subject: [PATCH 046/112] fix: FixedCString comparison reads past the end of a
 C string

---
 include/pystd2026.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e3f0f96..6720b9a 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1920,6 +1920,9 @@ public:
             if(buf[i] != str[i]) {
                 return false;
             }
+            if(str[i] == '\0') {
+                return i == strsize;
+            }
         }
         return true;
     }
-- 
2.43.0


From 250c52d01de710ee0f341a8bbe109ec5fba06e32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:00 +0000
Subject: [PATCH 047/112] fix: make Variant equality usable

---
 include/pystd2026_variant.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/pystd2026_variant.hpp b/include/pystd2026_variant.hpp
index 367abe3..9cbf7d6 100644
--- a/include/pystd2026_variant.hpp
+++ b/include/pystd2026_variant.hpp
@@ -510,11 +510,15 @@ private:
 
 #define PYSTD2026_VAR_COMPARE_SWITCH(i)                                                            \
     {                                                                                              \
-        const T...[i] &v1 = get<T...[i]>();                                                        \
-        const T...[i] &v2 = o.get<T...[i]>();                                                      \
-        return v1 == v2;                                                                           \
-    }
+        if constexpr(i < sizeof...(T)) {                                                           \
+            const T...[i] &v1 = get<T...[i]>();                                                    \
+            const T...[i] &v2 = o.get<T...[i]>();                                                  \
+            return v1 == v2;                                                                       \
+        }                                                                                          \
+    }                                                                                              \
+    break;
 
+public:
     bool operator==(const Variant &o) const {
         if(this == &o) {
             return true;
@@ -587,6 +591,7 @@ private:
         internal_failure("Unreachable code in variant compare.");
     }
 
+private:
     void destroy() noexcept {
         switch(type_id) {
         case 0:
-- 
2.43.0


From 29c0d422fe3f6f4266d331d7c91007662f700c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:17 +0000
Subject: [PATCH 048/112] fix: copy a non-constant Variant as a Variant

---
 include/pystd2026_variant.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/pystd2026_variant.hpp b/include/pystd2026_variant.hpp
index 9cbf7d6..65af16b 100644
--- a/include/pystd2026_variant.hpp
+++ b/include/pystd2026_variant.hpp
@@ -54,6 +54,8 @@ public:
         new(buf) T...[0]{};
     }
     Variant(const Variant<T...> &o) { copy_value_in(o, false); }
+    // Otherwise the templates below would match.
+    Variant(Variant<T...> &o) { copy_value_in(o, false); }
     Variant(Variant<T...> &&o) noexcept { move_to_uninitialized_memory(::pystd2026::move(o)); }
 
     int8_t index() const noexcept { return type_id; }
-- 
2.43.0


From 231dad03c5cf6eead1548b455c8dddce1ca02841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:17 +0000
Subject: [PATCH 049/112] fix: let Variant copy assignment pass on exceptions

---
 include/pystd2026_variant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_variant.hpp b/include/pystd2026_variant.hpp
index 65af16b..676b5b2 100644
--- a/include/pystd2026_variant.hpp
+++ b/include/pystd2026_variant.hpp
@@ -341,7 +341,7 @@ public:
         return *this;
     }
 
-    Variant<T...> &operator=(const Variant<T...> &o) noexcept {
+    Variant<T...> &operator=(const Variant<T...> &o) {
         if(this == &o) {
             return *this;
         }
-- 
2.43.0


From 9f6258f2e3c515a1d001a66202c5bc0143d89525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:21 +0000
Subject: [PATCH 050/112] fix: iterate over hash sets and maps with any hash
 algorithm

---
 include/pystd2026_hashtable.hpp | 39 ++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 2a81123..1a97d18 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -5,7 +5,7 @@
 
 namespace pystd2026 {
 
-template<typename Key, typename Value> class HashMapIterator;
+template<typename Key, typename Value, typename HashAlgo> class HashMapIterator;
 
 template<WellBehaved Key, WellBehaved Value, WellBehaved HashAlgo = SimpleHash>
 class HashMap final {
@@ -15,7 +15,7 @@ public:
     static_assert(!::pystd2026::is_reference_v<Key>);
     static_assert(!::pystd2026::is_reference_v<Value>);
 
-    friend class HashMapIterator<Key, Value>;
+    friend class HashMapIterator<Key, Value, HashAlgo>;
     HashMap() noexcept {
         salt = (size_t)this;
         num_entries = 0;
@@ -106,12 +106,12 @@ public:
 
     bool is_empty() const { return size() == 0; }
 
-    HashMapIterator<Key, Value> begin() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), 0);
+    HashMapIterator<Key, Value, HashAlgo> begin() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), 0);
     }
 
-    HashMapIterator<Key, Value> end() const {
-        return HashMapIterator<Key, Value>(const_cast<HashMap *>(this), table_size());
+    HashMapIterator<Key, Value, HashAlgo> end() const {
+        return HashMapIterator<Key, Value, HashAlgo>(const_cast<HashMap *>(this), table_size());
     }
 
     void clear() {
@@ -282,9 +282,10 @@ template<typename Key, typename Value> struct KeyValue {
     Value *value;
 };
 
-template<typename Key, typename Value> class HashMapIterator final {
+template<typename Key, typename Value, typename HashAlgo = SimpleHash>
+class HashMapIterator final {
 public:
-    HashMapIterator(HashMap<Key, Value> *map, size_t offset) : map{map}, offset{offset} {
+    HashMapIterator(HashMap<Key, Value, HashAlgo> *map, size_t offset) : map{map}, offset{offset} {
         if(offset == 0 && !map->data.has_value_at(offset)) {
             advance();
         }
@@ -294,9 +295,9 @@ public:
         return KeyValue{map->data.keyptr(offset), map->data.valueptr(offset)};
     }
 
-    bool operator!=(const HashMapIterator<Key, Value> &o) const { return offset != o.offset; };
+    bool operator!=(const HashMapIterator &o) const { return offset != o.offset; };
 
-    HashMapIterator<Key, Value> &operator++() {
+    HashMapIterator &operator++() {
         advance();
         return *this;
     }
@@ -309,25 +310,25 @@ private:
         }
     }
 
-    HashMap<Key, Value> *map;
+    HashMap<Key, Value, HashAlgo> *map;
     size_t offset;
 };
 
-template<WellBehaved Key> class HashSetIterator final {
+template<WellBehaved Key, WellBehaved HashAlgo = SimpleHash> class HashSetIterator final {
 public:
-    HashSetIterator(HashMapIterator<Key, int> it_) : it{it_} {}
+    HashSetIterator(HashMapIterator<Key, uint8_t, HashAlgo> it_) : it{it_} {}
 
     Key &operator*() { return *(*it).key; }
 
-    bool operator!=(const HashSetIterator<Key> &o) const { return it != o.it; };
+    bool operator!=(const HashSetIterator &o) const { return it != o.it; };
 
-    HashSetIterator<Key> &operator++() {
+    HashSetIterator &operator++() {
         ++it;
         return *this;
     }
 
 private:
-    HashMapIterator<Key, int> it;
+    HashMapIterator<Key, uint8_t, HashAlgo> it;
 };
 
 struct HashInsertResult {
@@ -358,9 +359,11 @@ public:
 
     void clear() noexcept { map.clear(); }
 
-    HashSetIterator<Key> begin() const { return HashSetIterator<Key>(map.begin()); }
+    HashSetIterator<Key, HashAlgo> begin() const {
+        return HashSetIterator<Key, HashAlgo>(map.begin());
+    }
 
-    HashSetIterator<Key> end() const { return HashSetIterator<Key>(map.end()); }
+    HashSetIterator<Key, HashAlgo> end() const { return HashSetIterator<Key, HashAlgo>(map.end()); }
 
 private:
     // This is inefficient.
-- 
2.43.0


From 98099ce6812a812d6db2d590da39b441c918fc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:14 +0000
Subject: [PATCH 051/112] fix: destroy the key when removing a hash map entry

---
 include/pystd2026_hashtable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 1a97d18..68306ee 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -75,6 +75,7 @@ public:
                 if(*potential_key == key) {
                     auto *value_loc = data.valueptr(slot);
                     value_loc->~Value();
+                    potential_key->~Key();
                     const auto previous_slot = (slot + table_size() - 1) & mod_mask();
                     const auto next_slot = (slot + 1) & mod_mask();
                     if(data.md[previous_slot].state == SlotState::Empty &&
-- 
2.43.0


From 08ab43058b535e94df5ad5a7707f2e011bd62279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:14 +0000
Subject: [PATCH 052/112] fix: do not insert a hash map key twice when a
 removed slot comes first

---
 include/pystd2026_hashtable.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 68306ee..4456ba1 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -122,6 +122,7 @@ public:
 
 private:
     static constexpr uint8_t BLOOM_MASK = 0b111111;
+    static constexpr size_t NO_SLOT = (size_t)-1;
 
     enum class SlotState : uint8_t {
         Empty,
@@ -211,8 +212,20 @@ private:
 
     Value &insert_internal(size_t hashval, const Key &key, Value &&v) {
         auto slot = hash_to_slot(hashval);
+        size_t reusable = NO_SLOT;
         while(true) {
-            if(data.md[slot].state != SlotState::HasValue) {
+            if(data.md[slot].state == SlotState::Tombstone) {
+                // The key may still be further along.
+                if(reusable == NO_SLOT) {
+                    reusable = slot;
+                }
+                slot = (slot + 1) & mod_mask();
+                continue;
+            }
+            if(data.md[slot].state == SlotState::Empty) {
+                if(reusable != NO_SLOT) {
+                    slot = reusable;
+                }
                 auto *key_loc = data.keyptr(slot);
                 auto *value_loc = data.valueptr(slot);
                 new(key_loc) Key(key);
-- 
2.43.0


From 7dc696a6ab3a370155ab0183d2e12b618221e505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:14 +0000
Subject: [PATCH 053/112] fix: keep empty slots in hash maps so that lookups
 terminate

---
 include/pystd2026_hashtable.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 4456ba1..207ede6 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -19,6 +19,7 @@ public:
     HashMap() noexcept {
         salt = (size_t)this;
         num_entries = 0;
+        num_tombstones = 0;
         size_in_powers_of_two = 4;
         auto initial_table_size = 1 << size_in_powers_of_two;
         data.md = unique_arr<SlotMetadata>(initial_table_size);
@@ -83,6 +84,7 @@ public:
                         data.md[slot].state = SlotState::Empty;
                     } else {
                         data.md[slot].state = SlotState::Tombstone;
+                        ++num_tombstones;
                     }
                     --num_entries;
                     return;
@@ -118,6 +120,7 @@ public:
     void clear() {
         data.clear();
         num_entries = 0;
+        num_tombstones = 0;
     }
 
 private:
@@ -225,6 +228,7 @@ private:
             if(data.md[slot].state == SlotState::Empty) {
                 if(reusable != NO_SLOT) {
                     slot = reusable;
+                    --num_tombstones;
                 }
                 auto *key_loc = data.keyptr(slot);
                 auto *value_loc = data.valueptr(slot);
@@ -247,8 +251,10 @@ private:
     }
 
     void grow() {
-        const auto new_size = 2 * table_size();
-        const auto new_powers_of_two = size_in_powers_of_two + 1;
+        // If most of the used slots are tombstones, getting rid of them is enough.
+        const bool bigger = 2 * num_entries >= num_tombstones;
+        const auto new_size = bigger ? 2 * table_size() : table_size();
+        const auto new_powers_of_two = bigger ? size_in_powers_of_two + 1 : size_in_powers_of_two;
         MapData grown;
 
         grown.md = unique_arr<SlotMetadata>(new_size);
@@ -260,6 +266,7 @@ private:
         data = move(grown);
         size_in_powers_of_two = new_powers_of_two;
         num_entries = 0;
+        num_tombstones = 0;
         for(size_t i = 0; i < old.md.size(); ++i) {
             if(old.md[i].state == SlotState::HasValue) {
                 auto &old_key = *old.keyptr(i);
@@ -281,13 +288,15 @@ private:
 
     size_t table_size() const { return data.md.size(); }
 
-    size_t fill_ratio() const { return (num_entries * 100) / table_size(); }
+    // Lookups end at an empty slot, so tombstones count, too.
+    size_t fill_ratio() const { return ((num_entries + num_tombstones) * 100) / table_size(); }
     static constexpr size_t MAX_LOAD_PERCENTAGE = 77;
     // static constexpr size_t MIN_LOAD_PERCENTAGE = 25;
 
     MapData data;
     size_t salt;
     size_t num_entries;
+    size_t num_tombstones;
     uint32_t size_in_powers_of_two;
 };
 
-- 
2.43.0


From 6a2d01faad60f19c427c8fd132435c029d0138c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:14 +0000
Subject: [PATCH 054/112] fix: allow inserting a key of the hash map itself

---
 include/pystd2026_hashtable.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 207ede6..d06887c 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -55,11 +55,14 @@ public:
     }
 
     Value &insert(const Key &key, Value v) {
+        const auto hashval = hash_for(key);
         if(fill_ratio() >= MAX_LOAD_PERCENTAGE) {
+            // The argument might be in this map.
+            const Key key_copy(key);
             grow();
+            return insert_internal(hashval, key_copy, ::pystd2026::move(v));
         }
 
-        const auto hashval = hash_for(key);
         return insert_internal(hashval, key, ::pystd2026::move(v));
     }
 
-- 
2.43.0


From 7844d4a90f45081feed8a83500421ed5a625a072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:14 +0000
Subject: [PATCH 055/112] fix: destroy the old contents of an assigned hash map

---
 include/pystd2026_hashtable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index d06887c..e79120a 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -160,6 +160,7 @@ private:
 
         void operator=(MapData &&o) noexcept {
             if(this != &o) {
+                deallocate_contents();
                 md = move(o.md);
                 keydata = move(o.keydata);
                 valuedata = move(o.valuedata);
-- 
2.43.0


From b79cafb25621a169232350c1dfa4724278b3b362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:37 +0000
Subject: [PATCH 056/112] fix: make BTreeMap usable

---
 include/pystd2026_btree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index cac8ca4..9503b36 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -528,7 +528,8 @@ private:
         if(node.values.is_empty()) {
             return 0;
         }
-        auto it = lower_bound(value_array.begin(), value_array.end(), value);
+        auto it = lower_bound(
+            value_array.begin(), value_array.end(), value, OnlyLessComparator<Payload>{});
 
         return &(*it) - &node.values.front();
     }
@@ -1070,7 +1071,7 @@ public:
         MapEntry entry{key, Value{}};
         auto *loc = tree.lookup(entry);
         if(loc) {
-            return &(loc->value);
+            return const_cast<Value *>(&(loc->value));
         }
         return nullptr;
     }
-- 
2.43.0


From bdb728adef53c31742f98f5dde3097e893645bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:37 +0000
Subject: [PATCH 057/112] fix: remove debugging code that breaks B-trees of
 non-integers

---
 include/pystd2026_btree.hpp | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 9503b36..eee22a0 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -34,14 +34,7 @@ public:
         if(is_empty()) {
             return;
         }
-        const uint32_t poi = 23;
-        if(value == poi) {
-            debug_print("At point of interest.");
-        }
         auto v = extract_value(value, root);
-        if(value == poi) {
-            debug_print("After point of interest.");
-        }
         if(v) {
             --num_values;
         }
-- 
2.43.0


From 2dea54c6e59474b0c57a5f95bee688b8034dac2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:49 +0000
Subject: [PATCH 058/112] fix: make an emptied B-tree usable again

---
 include/pystd2026_btree.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index eee22a0..f714f58 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -883,6 +883,10 @@ private:
 
     void root_fixup() {
         if(is_empty()) {
+            // The next insertion creates a new root node.
+            internals.clear();
+            leaves.clear();
+            root = NodeReference::null_ref();
             return;
         }
         auto &root_ref = get_node_common(root);
-- 
2.43.0


From 81ebf25d54b8ef457f90376dfd49c54078da1b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:49 +0000
Subject: [PATCH 059/112] fix: find the new root of a B-tree when it was the
 last node

---
 include/pystd2026_btree.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index f714f58..51ce768 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -897,9 +897,10 @@ private:
             auto &root_inner = static_cast<InternalNode &>(root_ref);
             assert(root_inner.children.size() == 1);
             auto new_root = root_inner.children[0];
-            // FIXME new_root might have changed because of the pop?
+            const auto old_root = root;
+            const bool new_root_moves = !new_root.to_leaf && new_root.id == internals.size() - 1;
             swap_to_end_and_pop(root);
-            root = new_root;
+            root = new_root_moves ? old_root : new_root;
             get_node_common(root).parent = NodeReference::null_ref();
         } else {
             abort();
-- 
2.43.0


From 1d301c254d45604c28049cbd8674ea7ea609bd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:49 +0000
Subject: [PATCH 060/112] fix: keep B-tree nodes full enough when removing from
 internal nodes

---
 include/pystd2026_btree.hpp | 47 ++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 51ce768..c7c1c42 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -659,37 +659,40 @@ private:
         auto &rc = get_node_common(rc_id);
 
         if(lc.size() > MIN_VALUE_COUNT) {
-            auto predecessor_id = find_predecessor(lc_id);
-            auto &predecessor = get_node_common(predecessor_id);
-            Payload return_value = ::pystd2026::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2026::move(predecessor.values.back());
-            if(predecessor_id.to_leaf) {
-                static_cast<LeafNode &>(predecessor).pop_back();
-            } else {
-                static_cast<InternalNode &>(predecessor).pop_back();
-            }
-            return return_value;
+            const Payload predecessor(get_node_common(find_predecessor(lc_id)).values.back());
+            auto extracted = extract_value(predecessor, lc_id);
+            assert(extracted);
+            return replace_value(value, ::pystd2026::move(extracted.value()));
         } else if(rc.size() > MIN_VALUE_COUNT) {
-            auto successor_id = find_successor(rc_id);
-            auto &successor = get_node_common(successor_id);
-            Payload return_value = ::pystd2026::move(p.values[node_loc]);
-            p.values[node_loc] = ::pystd2026::move(successor.values.front());
-            if(successor_id.to_leaf) {
-                static_cast<LeafNode &>(successor).pop_front();
-            } else {
-                static_cast<InternalNode &>(successor).pop_front();
-            }
-            return return_value;
+            const Payload successor(get_node_common(find_successor(rc_id)).values.front());
+            auto extracted = extract_value(successor, rc_id);
+            assert(extracted);
+            return replace_value(value, ::pystd2026::move(extracted.value()));
         } else {
             debug_print("Before merge.");
-            merge_siblings_of_entry(node_id, node_loc);
-            auto sub_value = extract_value(value, lc_id);
+            const auto merged_id = merge_siblings_of_entry(node_id, node_loc);
+            auto sub_value = extract_value(value, merged_id);
             assert(sub_value);
             return ::pystd2026::move(sub_value.value());
         }
         abort();
     }
 
+    // Extracting other values may have moved the node that holds the value.
+    Payload replace_value(const Payload &value, Payload &&replacement) {
+        auto current_id = root;
+        while(true) {
+            auto &node = get_node_common(current_id);
+            const auto loc = find_insertion_point(node, value);
+            if(loc < node.values.size() && !(value < node.values[loc])) {
+                Payload return_value = ::pystd2026::move(node.values[loc]);
+                node.values[loc] = ::pystd2026::move(replacement);
+                return return_value;
+            }
+            current_id = get_internal(current_id).children[loc];
+        }
+    }
+
     NodeReference find_predecessor(NodeReference node_id) const {
         while(!node_id.to_leaf) {
             node_id = get_internal(node_id).children.back();
-- 
2.43.0


From 628a48af0aa95a540a146a4daf21bbfd0e78623d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:55 +0000
Subject: [PATCH 061/112] fix: sentinel insertion sort of an empty range ran
 past the end

---
 include/pystd2026.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 6720b9a..b128765 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2722,6 +2722,9 @@ constexpr size_t insertion_sort_limit =
 template<BasicIterator It, typename Comparator>
 void insertion_sort_has_sentinel(It begin, It end, const Comparator &cmp) {
     using ValueType = ::pystd2026::remove_reference_t<decltype(*begin)>;
+    if(begin == end) {
+        return;
+    }
     // This should be faster, but according to measurements it is not.
     constexpr bool is_cheap_to_copy = false;
     // ::pystd2026::is_integral_v<ValueType> || ::pystd2026::is_floating_point_v<ValueType>;
-- 
2.43.0


From 5802253f89f84157a2ea9d3787e9750ca3549f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:55 +0000
Subject: [PATCH 062/112] fix: introsort detects equal elements with the given
 comparator

---
 include/pystd2026_introsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_introsort.hpp b/include/pystd2026_introsort.hpp
index 71cad8a..3c0d1f6 100644
--- a/include/pystd2026_introsort.hpp
+++ b/include/pystd2026_introsort.hpp
@@ -119,7 +119,7 @@ void do_introsort(It begin,
     // Equal values adjacent to the pivot are also in their correct locations.
     // Most are in the right half as the partition critarion was <.
     // Gobble up as many as we can.
-    while(right_begin < right_end && (*right_begin == *last_value_point)) {
+    while(right_begin < right_end && cmp.compare(*right_begin, *last_value_point) == 0) {
         ++right_begin;
     }
 
-- 
2.43.0


From de924e5b229fbdffb9205a93a7bafc971f87560e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:55 +0000
Subject: [PATCH 063/112] fix: shell sort uses the given comparator

---
 include/pystd2026_shellsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_shellsort.hpp b/include/pystd2026_shellsort.hpp
index abf2b52..d88ede2 100644
--- a/include/pystd2026_shellsort.hpp
+++ b/include/pystd2026_shellsort.hpp
@@ -15,7 +15,7 @@ void shell_sort_single_iteration(It begin, It end, const size_t gap, const Compa
     for(size_t i = gap; i < buf_size; ++i) {
         size_t j = i;
         scratch = ::pystd2026::move(*(begin + i));
-        for(; (j >= gap) && (*(begin + j - gap) > scratch); j -= gap) {
+        for(; (j >= gap) && (cmp.compare(*(begin + j - gap), scratch) > 0); j -= gap) {
             *(begin + j) = ::pystd2026::move(*(begin + j - gap));
         }
         *(begin + j) = ::pystd2026::move(scratch);
-- 
2.43.0


From e245ed4b17da5729b3696384d39ca7341988bbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:55 +0000
Subject: [PATCH 064/112] fix: radix sort handles equal elements and 64 bit
 integers

---
 include/pystd2026_radixsort.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026_radixsort.hpp b/include/pystd2026_radixsort.hpp
index 1fc389b..f4b3ded 100644
--- a/include/pystd2026_radixsort.hpp
+++ b/include/pystd2026_radixsort.hpp
@@ -9,7 +9,13 @@ template<WellBehaved ValueType, BasicIterator It>
 void do_radix_sort(It begin, It end, const ValueType needs_processing_mask, const size_t round) {
     const ssize_t INSERTION_SORT_LIMIT = ::pystd2026::insertion_sort_limit<ValueType>;
     const auto num_bits = sizeof(ValueType) * 8;
-    const ValueType sort_bit = (1 << (num_bits - 1 - (ValueType)round));
+
+    if(round >= num_bits) {
+        // All bits have been processed.
+        return;
+    }
+
+    const ValueType sort_bit = (ValueType)((ValueType)1 << (num_bits - 1 - round));
 
     if(end - begin < INSERTION_SORT_LIMIT) {
         ::pystd2026::insertion_sort(begin, end);
-- 
2.43.0


From e0a817f24b142933d64c7dd66b2a2b995b502413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:55 +0000
Subject: [PATCH 065/112] fix: bucket sort counts of narrow integers overflowed

---
 include/pystd2026_bucketsort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_bucketsort.hpp b/include/pystd2026_bucketsort.hpp
index 8cec2e5..a319d61 100644
--- a/include/pystd2026_bucketsort.hpp
+++ b/include/pystd2026_bucketsort.hpp
@@ -25,7 +25,7 @@ template<BasicIterator It> void do_bucketsort(It begin, It end, size_t round) {
     const ValueType SHIFT = (MAX_ROUNDS - round - 1) * 8;
     const ValueType MASK = 0xFF;
     const size_t NUM_BUCKETS = 256;
-    ValueType counts[NUM_BUCKETS];
+    size_t counts[NUM_BUCKETS];
     size_t offsets[NUM_BUCKETS + 1];
     size_t next_free[NUM_BUCKETS + 1];
 
-- 
2.43.0


From 60c4dc7b9687810ec804061b153cbb0bead3f771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:00 +0000
Subject: [PATCH 066/112] fix: missing include guards

---
 include/pystd2026_nth_element.hpp | 2 ++
 include/pystd2026_radixsort.hpp   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 5af01fe..528d4c5 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 #include <pystd2026_heapsort.hpp>
 
diff --git a/include/pystd2026_radixsort.hpp b/include/pystd2026_radixsort.hpp
index f4b3ded..4b255ae 100644
--- a/include/pystd2026_radixsort.hpp
+++ b/include/pystd2026_radixsort.hpp
@@ -1,6 +1,8 @@
 // SPDX-License-Identifier: Apache-2.0
 // Copyright 2025 Jussi Pakkanen
 
+#pragma once
+
 #include <pystd2026.hpp>
 
 namespace pystd2026 {
-- 
2.43.0


From 9decafb0affbbe197392b14001bc2558b271c216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:00 +0000
Subject: [PATCH 067/112] fix: make nth_element of a span with the default
 comparator usable

---
 include/pystd2026_nth_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 528d4c5..34d186b 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -104,7 +104,7 @@ size_t nth_element(::pystd2026::Span<ValueType> span, const size_t nth, const Co
 
 template<WellBehaved ValueType>
 size_t nth_element(::pystd2026::Span<ValueType> span, const size_t nth) {
-    return ::pystd2026::nth_element(span, span, nth, DefaultComparator<ValueType>{});
+    return ::pystd2026::nth_element(span, nth, DefaultComparator<ValueType>{});
 }
 
 } // namespace pystd2026
-- 
2.43.0


From 08268cf8c0856b2cf4a71d72727a95fa615d5459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:00 +0000
Subject: [PATCH 068/112] fix: nth_element of large elements shifted by too
 many bits

---
 include/pystd2026_nth_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_nth_element.hpp b/include/pystd2026_nth_element.hpp
index 34d186b..3a21a94 100644
--- a/include/pystd2026_nth_element.hpp
+++ b/include/pystd2026_nth_element.hpp
@@ -66,7 +66,7 @@ It nth_element(It begin, It end, size_t nth, const Comparator &cmp) {
         }
         ++round;
         size_t random_number = (size_t)&(*begin);
-        random_number >>= sizeof(ValueType);
+        random_number /= sizeof(ValueType);
         size_t pivot_offset = (random_number + round) % buf_size;
         if(pivot_offset != 0) {
             ::pystd2026::swap(*begin, *(begin + pivot_offset), scratch);
-- 
2.43.0


From b58723cb7ad3ab46dba719782fd0cec8d05f6288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:00 +0000
Subject: [PATCH 069/112] fix: make stable_partition of a span usable

---
 include/pystd2026_stablepartition.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026_stablepartition.hpp b/include/pystd2026_stablepartition.hpp
index b1fed0c..2e7c5b6 100644
--- a/include/pystd2026_stablepartition.hpp
+++ b/include/pystd2026_stablepartition.hpp
@@ -31,7 +31,7 @@ It stable_partition(It begin, It end, const Predicate &pred) {
     }
 }
 
-template<BasicIterator It, WellBehaved ValueType, typename Predicate>
+template<WellBehaved ValueType, typename Predicate>
 size_t stable_partition(::pystd2026::Span<ValueType> span, const Predicate &pred) {
     return stable_partition(span.begin(), span.end(), pred) - span.begin();
 }
-- 
2.43.0


From 40ffeec4550127cba49eb0cbb8ff80a9cf9c8941 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:12 +0000
Subject: [PATCH 070/112] fix: lower_bound of an empty range returns its end

---
 include/pystd2026.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index b128765..f65e45b 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2565,10 +2565,9 @@ template<typename T> struct FloatIgnoreNanComparator {
 
 template<BasicIterator It, typename Value, typename Comparator>
 It lower_bound(It first, It last, const Value &value, const Comparator &cmp) {
-    It it{};
     auto count = last - first;
     while(count > 0) {
-        it = first;
+        auto it = first;
         auto step = count / 2;
         it += step;
         if(cmp.compare(*it, value) < 0) {
@@ -2578,7 +2577,7 @@ It lower_bound(It first, It last, const Value &value, const Comparator &cmp) {
             count = step;
         }
     }
-    return it;
+    return first;
 }
 
 template<BasicIterator It, typename Value> It lower_bound(It first, It last, const Value &value) {
-- 
2.43.0


From 9501060b0fb3ad07cbb4fda79fb9e62aa1ef0f7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:12 +0000
Subject: [PATCH 071/112] fix: integer clamp ignored the lower bound

---
 src/pystd2026.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 52a4f4d..7482890 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1374,7 +1374,7 @@ int64_t clamp(int64_t val, int64_t lower, int64_t upper) {
         internal_failure("Bad range to clamp.");
     }
     if(val < lower) {
-        return val;
+        return lower;
     }
     if(val > upper) {
         return upper;
-- 
2.43.0


From bfa66e5bf5281fea68b8ae9341a5e902cfe9737d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 072/112] fix: maxval and minval truncated wide values

---
 include/pystd2026.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index f65e45b..7bb9d1c 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -194,11 +194,11 @@ concept BasicIterator = ::pystd2026::WellBehaved<T> && requires(T a) {
     // requires ::pystd2026::WellBehaved<::pystd2026::remove_reference_t<decltype(*a)>>;
 };
 
-template<typename T1, typename T2> constexpr int maxval(const T1 &a, const T2 &b) {
+template<typename T1, typename T2> constexpr auto maxval(const T1 &a, const T2 &b) {
     return a < b ? b : a;
 }
 
-template<typename T1, typename T2> constexpr int minval(const T1 &a, const T2 &b) {
+template<typename T1, typename T2> constexpr auto minval(const T1 &a, const T2 &b) {
     return a < b ? a : b;
 }
 
-- 
2.43.0


From c7bb48f17b64be062f3c6909c17c9810cb88eade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:41 +0000
Subject: [PATCH 073/112] fix: FloatIgnoreNanComparator says that equal values
 are equal

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 7bb9d1c..95ce344 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2557,7 +2557,7 @@ template<typename T> struct FloatIgnoreNanComparator {
         if(b < a) {
             return 1;
         }
-        return 1;
+        return 0;
     }
 
     bool equal(const T a, const T b) const noexcept { return a == b; }
-- 
2.43.0


From 056dd40fa16dccdb0518ffd98d0cc395966ba939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:31 +0000
Subject: [PATCH 074/112] fix: ranges with a negative or zero step and at the
 limits of the integer type

---
 src/pystd2026.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 7482890..3e4bf22 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1277,15 +1277,23 @@ Range::Range(int64_t end_) : Range(0, end_) {}
 
 Range::Range(int64_t start, int64_t end_) : Range(start, end_, 1) {}
 
-Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {}
+Range::Range(int64_t start, int64_t end_, int64_t step_) : i{start}, end{end_}, step{step_} {
+    if(step == 0) {
+        throw PyException("Range step must not be zero.");
+    }
+}
 
 Optional<int64_t> Range::next() {
-    if(i >= end) {
+    const bool at_end = step > 0 ? i >= end : i <= end;
+    if(at_end) {
         return {};
     }
 
     auto result = Optional<int64_t>{i};
-    i += step;
+    if(__builtin_add_overflow(i, step, &i)) {
+        // The next value does not exist so this was the last one.
+        i = end;
+    }
     return result;
 }
 
-- 
2.43.0


From 3d19181debfbce2c77be839d463d57502fa1fa83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:38 +0000
Subject: [PATCH 075/112] fix: glob star can match nothing and does not read
 past the end of the name

---
 src/pystd2026_filesystem.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 4b786fc..4b1405b 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -26,7 +26,9 @@ bool glob_matches(const char *text,
         if(pattern_char == '\0') {
             return true;
         }
-        return false;
+        // A star matches also the empty string.
+        return pattern_char == '*' &&
+               glob_matches(text, text_offset, pattern, pattern_offset + 1);
     }
     if(pattern_char == '\0') {
         return false;
@@ -43,7 +45,7 @@ bool glob_matches(const char *text,
             return true;
         }
         size_t gap = 0;
-        while(text[gap] != '\0') {
+        while(text[text_offset + gap] != '\0') {
             if(glob_matches(text, text_offset + gap, pattern, pattern_offset + 1)) {
                 return true;
             }
-- 
2.43.0


From b5baed57bd788667337e537c21b37fe3f182b2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:38 +0000
Subject: [PATCH 076/112] fix: glob question mark does not match a leading dot

---
 src/pystd2026_filesystem.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 4b1405b..e4f6131 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -34,6 +34,10 @@ bool glob_matches(const char *text,
         return false;
     }
     if(pattern_char == '?') {
+        if(text_offset == 0 && text_char == '.') {
+            // Files with leading dots do not match globs.
+            return false;
+        }
         return glob_matches(text, text_offset + 1, pattern, pattern_offset + 1);
     } else if(pattern_char == '*') {
         if(text_offset == 0 && text_char == '.') {
-- 
2.43.0


From 6b2a9bc59a3a599ce749aded0fea172d0d713624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:38 +0000
Subject: [PATCH 077/112] fix: glob searches nested directories with their full
 path and each directory once

---
 src/pystd2026_filesystem.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index e4f6131..b62d40e 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -288,16 +288,12 @@ private:
         auto *sd = full_path.is_empty() ? opendir(".") : opendir(full_path.c_str());
         const auto new_depth = dir_stack.is_empty() ? 0 : dir_stack.back().part_number + 1;
         if(sd) {
-            dir_stack.emplace_back(new_depth, move(subdir_name), unique_ptr<DIR, DirCloser>(sd));
             const bool do_starstar = parts[new_depth] == "**";
+            dir_stack.emplace_back(
+                do_starstar ? new_depth + 1 : new_depth, full_path, unique_ptr<DIR, DirCloser>(sd));
             if(do_starstar) {
-                // ** may expand to empty.
-                DIR *pd = parent_dir.is_empty() ? opendir(".") : opendir(parent_dir.c_str());
-                if(pd) {
-                    dir_stack.emplace_back(
-                        new_depth + 1, parent_dir, unique_ptr<DIR, DirCloser>(pd));
-                }
-                auto sstar_dirs = glob_starstar_dirs(subdir_name);
+                // The entry above is for ** expanding to empty.
+                auto sstar_dirs = glob_starstar_dirs(full_path);
                 for(auto &sdir : sstar_dirs) {
                     auto *ssd = opendir(sdir.c_str());
                     if(ssd) {
-- 
2.43.0


From 7f76c54a0ea7a22aec4878909d99c2716b765950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:38 +0000
Subject: [PATCH 078/112] fix: empty glob patterns and patterns that end in **

---
 src/pystd2026_filesystem.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index b62d40e..b58a399 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -248,6 +248,13 @@ public:
                 }
             }
         }
+        if(parts.is_empty()) {
+            throw PyException("Empty glob pattern.");
+        }
+        if(parts.back() == "**") {
+            // Matches everything below.
+            parts.push_back(CString("*"));
+        }
         enter_subdir(Path(), root_dir.c_str());
     }
 
-- 
2.43.0


From 2f781e0e443082e95c6936a22a38645ad381bf44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:59 +0000
Subject: [PATCH 079/112] fix: glob follows links to directories and handles
 file systems that do not report entry types

---
 src/pystd2026_filesystem.cpp | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index b58a399..56462e3 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -67,6 +67,20 @@ bool glob_matches(const char *text, const char *pattern) {
     return glob_matches(text, 0, pattern, 0);
 }
 
+bool is_directory(const dirent *entry, const Path &full_path, bool follow_links) {
+    if(entry->d_type == DT_LNK) {
+        return follow_links && full_path.is_dir();
+    }
+    if(entry->d_type == DT_UNKNOWN) {
+        // Not all file systems report the type.
+        struct stat sb;
+        const auto rc =
+            follow_links ? stat(full_path.c_str(), &sb) : lstat(full_path.c_str(), &sb);
+        return rc == 0 && (sb.st_mode & S_IFMT) == S_IFDIR;
+    }
+    return entry->d_type == DT_DIR;
+}
+
 void append_subdirs_of(const Path &root_, Vector<Path> &dirs) {
     Path root(root_); // Make a copy, because root_ may be in the vector and it may grow.
     DIR *d = root.is_empty() ? opendir(".") : opendir(root.c_str());
@@ -77,8 +91,11 @@ void append_subdirs_of(const Path &root_, Vector<Path> &dirs) {
     unique_ptr<DIR, DirCloser> dc(d);
     while(entry) {
         // Entries with a leading dot do not match globs.
-        if(entry->d_type == DT_DIR && entry->d_name[0] != '.') {
-            dirs.push_back(root / entry->d_name);
+        if(entry->d_name[0] != '.') {
+            auto full_path = root / entry->d_name;
+            if(is_directory(entry, full_path, false)) {
+                dirs.push_back(move(full_path));
+            }
         }
         entry = readdir(d);
     }
@@ -281,7 +298,7 @@ public:
                 if(is_last_part) {
                     return dir_stack.back().path / entry->d_name;
                 } else {
-                    if(entry->d_type == DT_DIR) {
+                    if(is_directory(entry, dir_stack.back().path / entry->d_name, true)) {
                         enter_subdir(dir_stack.back().path, entry->d_name);
                     }
                 }
-- 
2.43.0


From 3b0f14c45b234d43c5b85dd5b3093b06a319d55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:59 +0000
Subject: [PATCH 080/112] fix: the root directory is a path, not an empty one

---
 src/pystd2026_filesystem.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 56462e3..98a36e7 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -115,13 +115,13 @@ Vector<Path> glob_starstar_dirs(const Path &root) {
 } // namespace
 
 Path::Path(const char *path) : buf{path} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
 
 Path::Path(CString path) : buf{move(path)} {
-    while(!buf.is_empty() && buf.back() == '/') {
+    while(buf.size() > 1 && buf.back() == '/') {
         buf.pop_back();
     }
 }
@@ -153,9 +153,10 @@ Path Path::operator/(const Path &o) const noexcept {
     if(o.is_abs() || buf.is_empty()) {
         return o;
     }
-    assert(buf.back() != '/');
     CString newpath = buf;
-    newpath.append('/');
+    if(newpath.back() != '/') {
+        newpath.append('/');
+    }
     newpath += o.buf;
     return Path(move(newpath));
 }
-- 
2.43.0


From 036886910801fd8857642ed71f12839814da0cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:59 +0000
Subject: [PATCH 081/112] fix: path extensions are looked for in the last
 component only

---
 include/pystd2026.hpp        |  2 ++
 src/pystd2026_filesystem.cpp | 17 +++++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 95ce344..6b2d73b 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2270,6 +2270,8 @@ public:
     GlobResult glob(const char *pattern);
 
 private:
+    size_t extension_point() const;
+
     CString buf;
 };
 
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 98a36e7..40518bd 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -168,8 +168,19 @@ Path Path::operator/(const char *str) const noexcept {
 
 Path Path::operator/(const CString &str) const noexcept { return *this / str.c_str(); }
 
+size_t Path::extension_point() const {
+    const auto loc = buf.rfind('.');
+    const auto separator = buf.rfind('/');
+    const size_t name_start = separator == (size_t)-1 ? 0 : separator + 1;
+    // A leading dot marks a hidden file, not an extension.
+    if(loc == (size_t)-1 || loc <= name_start) {
+        return (size_t)-1;
+    }
+    return loc;
+}
+
 CString Path::extension() const {
-    auto loc = buf.rfind('.');
+    auto loc = extension_point();
     if(loc == (size_t)-1) {
         return CString();
     }
@@ -222,9 +233,7 @@ Optional<U8String> Path::load_text() {
 }
 
 void Path::replace_extension(CStringView new_extension) {
-    // FIXME, assumes an extension can be found before
-    // a path separator.
-    auto extpoint = buf.rfind('.');
+    auto extpoint = extension_point();
     if(extpoint == (size_t)-1) {
         buf += new_extension;
     } else {
-- 
2.43.0


From bd519ba3deb3ecf2528c5368a0a06acfadfbd2f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:45 +0000
Subject: [PATCH 082/112] fix: unique_ptr and unique_arr call the deleter only
 when they own something

---
 include/pystd2026.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 6b2d73b..2df67e0 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -500,13 +500,19 @@ public:
     explicit unique_ptr(T *t) noexcept : ptr{t} {}
     unique_ptr(const unique_ptr<T, Deleter> &o) = delete;
     unique_ptr(unique_ptr<T, Deleter> &&o) noexcept : ptr{o.ptr} { o.ptr = nullptr; }
-    ~unique_ptr() { Deleter::del(ptr); }
+    ~unique_ptr() {
+        if(ptr) {
+            Deleter::del(ptr);
+        }
+    }
 
     unique_ptr<T, Deleter> &operator=(const unique_ptr<T, Deleter> &o) = delete;
 
     unique_ptr<T, Deleter> &operator=(unique_ptr<T, Deleter> &&o) noexcept {
         if(this != &o) {
-            Deleter::del(ptr);
+            if(ptr) {
+                Deleter::del(ptr);
+            }
             ptr = o.ptr;
             o.ptr = nullptr;
         }
@@ -548,13 +554,19 @@ public:
         o.ptr = nullptr;
         o.array_size = 0;
     }
-    ~unique_arr() { Deleter::del(ptr); }
+    ~unique_arr() {
+        if(ptr) {
+            Deleter::del(ptr);
+        }
+    }
 
     unique_arr &operator=(const unique_arr<T> &o) = delete;
 
     unique_arr &operator=(unique_arr<T> &&o) noexcept {
         if(this != &o) {
-            Deleter::del(ptr);
+            if(ptr) {
+                Deleter::del(ptr);
+            }
             ptr = o.ptr;
             array_size = o.array_size;
             o.ptr = nullptr;
-- 
2.43.0


From a6b3fb451d1d3ddc018a609bd38675dea3357885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:48 +0000
Subject: [PATCH 083/112] fix: GlobResult can be default constructed and
 assigned

---
 include/pystd2026.hpp        | 2 +-
 src/pystd2026_filesystem.cpp | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 2df67e0..1ca8924 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2297,7 +2297,7 @@ public:
     ~GlobResult();
     Optional<Path> next();
 
-    GlobResult &operator=(GlobResult &&o) noexcept = default;
+    GlobResult &operator=(GlobResult &&o) noexcept;
 
 private:
     GlobResult(const Path &path, const char *glob_pattern);
diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 40518bd..1191c73 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -355,8 +355,12 @@ private:
     Vector<DirSearchState> dir_stack;
 };
 
+GlobResult::GlobResult() noexcept = default;
+
 GlobResult::GlobResult(GlobResult &&o) noexcept = default;
 
+GlobResult &GlobResult::operator=(GlobResult &&o) noexcept = default;
+
 GlobResult::~GlobResult() = default;
 
 GlobResult::GlobResult(const Path &path, const char *glob_pattern)
-- 
2.43.0


From c5f6bcdc38d768e24ae5b21823b532e7a31024e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:56 +0000
Subject: [PATCH 084/112] fix: formatting text that does not fit in the stack
 buffer

---
 src/pystd2026.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 3e4bf22..3c2b4ef 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1344,19 +1344,25 @@ CString cformat(const char *format, ...) {
 void cformat_with_cb(StringCFormatCallback cb, void *ctx, const char *format, va_list ap) {
     const int bufsize = 1024;
     char buf[bufsize];
+    // The first attempt consumes the arguments.
+    va_list ap2;
+    va_copy(ap2, ap);
     auto rc = vsnprintf(buf, bufsize, format, ap);
     if(rc < 0) {
+        va_end(ap2);
         throw PyException(strerror(errno));
     } else if(rc >= bufsize) {
-        if(INT_MAX - 1 >= rc) {
+        if(rc >= INT_MAX - 1) {
             // Almost certainly either a bug or an exploit.
             internal_failure("Tried to format a buffer that is too big.");
         }
-        unique_arr<char> bigbuf(bufsize + 1);
-        rc = vsnprintf(buf, bufsize, format, ap);
+        unique_arr<char> bigbuf((size_t)rc + 1);
+        rc = vsnprintf(bigbuf.get(), (size_t)rc + 1, format, ap2);
+        va_end(ap2);
         assert(rc > 0);
         cb(bigbuf.get(), rc, ctx);
     } else {
+        va_end(ap2);
         cb(buf, rc, ctx);
     }
 }
-- 
2.43.0


From df8f9fd5f6ca9740ccb944aa272de885817f161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:56 +0000
Subject: [PATCH 085/112] fix: format_append refuses embedded nulls instead of
 dropping the rest

---
 include/pystd2026.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 1ca8924..e5be1b6 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2370,7 +2370,7 @@ template<typename T> void format_append(T &oobj, const char *format, ...) {
     auto converter = [](const char *buf, size_t bufsize, void *ctx) {
         auto *s = reinterpret_cast<T *>(ctx);
         if constexpr(is_same_v<T, CString>) {
-            *s += buf;
+            s->append(buf, bufsize);
         } else {
             for(size_t i = 0; i < bufsize; ++i) {
                 s->push_back(buf[i]);
-- 
2.43.0


From ddae38a06d23cba8e9af5e71d28295aeb6d76b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:56 +0000
Subject: [PATCH 086/112] fix: iterating over the lines of a file does not end
 with an extra empty line

---
 include/pystd2026.hpp |  3 +++
 src/pystd2026.cpp     | 18 +++++++++++++++++-
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index e5be1b6..8fc1b27 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2221,6 +2221,9 @@ public:
     bool eof() const { return feof(f); }
 
 private:
+    friend class FileLineIterator;
+    bool has_more();
+
     FILE *f;
     EncodingPolicy policy;
 };
diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 3c2b4ef..bb0659d 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1230,11 +1230,14 @@ PyException::PyException(const char *msg) : message("") {
     message = U8String(b.data(), b.size());
 }
 
-bool FileLineIterator::operator!=(const FileEndSentinel &) const { return !f->eof(); }
+bool FileLineIterator::operator!=(const FileEndSentinel &) const {
+    return is_up_to_date || f->has_more();
+}
 
 Bytes &&FileLineIterator::operator*() {
     if(!is_up_to_date) {
         line = f->readline_bytes();
+        is_up_to_date = true;
     }
     return move(line);
 }
@@ -1248,6 +1251,19 @@ File::File(const char *fname, const char *modes) : policy{EncodingPolicy::Enforc
 
 File::~File() { fclose(f); }
 
+bool File::has_more() {
+    // The end of the file is only known after trying to read past it.
+    const int c = fgetc(f);
+    if(c == EOF) {
+        if(ferror(f)) {
+            throw PyException("Reading a file failed.");
+        }
+        return false;
+    }
+    ungetc(c, f);
+    return true;
+}
+
 Bytes File::readline_bytes() {
     Bytes b(160);
     // The world's least efficient readline.
-- 
2.43.0


From bb201ee40e6600e3eaa52a82bb35bd1de74ffb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:56 +0000
Subject: [PATCH 087/112] fix: the last line of a file that does not end in a
 newline got an extra null byte

---
 src/pystd2026.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index bb0659d..68bfa77 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1272,9 +1272,6 @@ Bytes File::readline_bytes() {
         auto rc = fread(&c, 1, 1, f);
         if(rc != 1) {
             if(feof(f)) {
-                if(!b.is_empty()) {
-                    b.append('\0');
-                }
                 return b;
             } else if(ferror(f)) {
                 abort();
-- 
2.43.0


From c09b4d0fdbbb55925661e313242d5451086e72e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:56 +0000
Subject: [PATCH 088/112] fix: failures to open and read files are exceptions

---
 src/pystd2026.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 68bfa77..5d01722 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -9,6 +9,7 @@
 #include <limits.h>
 #include <math.h>
 #include <ctype.h>
+#include <errno.h>
 
 #ifdef _WIN32
 #include <windows.h>
@@ -1245,7 +1246,7 @@ Bytes &&FileLineIterator::operator*() {
 File::File(const char *fname, const char *modes) : policy{EncodingPolicy::Enforce} {
     f = fopen(fname, modes);
     if(!f) {
-        abort();
+        throw PyException(strerror(errno));
     }
 }
 
@@ -1273,11 +1274,8 @@ Bytes File::readline_bytes() {
         if(rc != 1) {
             if(feof(f)) {
                 return b;
-            } else if(ferror(f)) {
-                abort();
-            } else {
-                abort();
             }
+            throw PyException("Reading a file failed.");
         }
         b.append(c);
         if(c == '\n') {
@@ -1352,7 +1350,6 @@ CString cformat(const char *format, ...) {
     return result;
 }
 
-#include <errno.h>
 
 void cformat_with_cb(StringCFormatCallback cb, void *ctx, const char *format, va_list ap) {
     const int bufsize = 1024;
-- 
2.43.0


From 2adf32c794b5354afec0b7d5e11b67e593208729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:56 +0000
Subject: [PATCH 089/112] fix: load_bytes checks that the size of the file
 could be determined

---
 src/pystd2026_filesystem.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 1191c73..99bdf64 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -5,6 +5,7 @@
 #include <sys/stat.h>
 #include <dirent.h>
 #include <assert.h>
+#include <limits.h>
 
 // Currently does only Posix paths.
 
@@ -202,9 +203,15 @@ Optional<Bytes> Path::load_bytes() {
     if(!f) {
         return Optional<Bytes>();
     }
-    fseek(f, 0, SEEK_END);
-    const auto file_size = ftell(f);
-    fseek(f, 0, SEEK_SET);
+    long file_size = -1;
+    if(fseek(f, 0, SEEK_END) == 0) {
+        file_size = ftell(f);
+    }
+    // The size of a directory may be reported as LONG_MAX.
+    if(file_size < 0 || file_size == LONG_MAX || fseek(f, 0, SEEK_SET) != 0) {
+        fclose(f);
+        return Optional<Bytes>();
+    }
     Bytes contents;
     contents.resize_to(file_size);
     auto bytes_read = fread(contents.data(), 1, file_size, f);
-- 
2.43.0


From cb1551d0637af6505a1ce5d9b4352be5b92a4d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:56 +0000
Subject: [PATCH 090/112] fix: mmap_file checks that the size of the file could
 be determined

---
 src/pystd2026.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/pystd2026.cpp b/src/pystd2026.cpp
index 5d01722..8453d35 100644
--- a/src/pystd2026.cpp
+++ b/src/pystd2026.cpp
@@ -1321,9 +1321,11 @@ Optional<MMapping> mmap_file(const char *path) {
     if(!f) {
         return Optional<MMapping>();
     }
-    fseek(f, 0, SEEK_END);
-    const auto bufsize = ftell(f);
-    if(bufsize == 0) {
+    long bufsize = -1;
+    if(fseek(f, 0, SEEK_END) == 0) {
+        bufsize = ftell(f);
+    }
+    if(bufsize <= 0) {
         fclose(f);
         return Optional<MMapping>();
     }
-- 
2.43.0


From 6251b9ab36dbf99913d462c2916585b8a07d62db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:56 +0000
Subject: [PATCH 091/112] fix: assigning to a memory mapping unmaps the old one

---
 include/pystd2026.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 8fc1b27..66af4e4 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -2323,6 +2323,7 @@ public:
 
     MMapping &operator=(MMapping &&o) noexcept {
         if(this != &o) {
+            MMapping old(buf, bufsize); // Unmaps the current area.
             buf = o.buf;
             bufsize = o.bufsize;
             o.buf = nullptr;
-- 
2.43.0


From 60f6cc3ca27f8ec63a399ad58e4b22d7b1708926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:56 +0000
Subject: [PATCH 092/112] fix: regex groups that do not exist or did not take
 part in the match are refused

---
 src/pystd2026_regex.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_regex.cpp b/src/pystd2026_regex.cpp
index 9b91cc3..a4230ef 100644
--- a/src/pystd2026_regex.cpp
+++ b/src/pystd2026_regex.cpp
@@ -49,6 +49,9 @@ U8String U8Match::get_submatch(size_t i) {
     }
     auto ovector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
     auto match_start = ovector[2 * i];
+    if(match_start == PCRE2_UNSET || match_start > ovector[2 * i + 1]) {
+        throw PyException("Submatch did not take part in the match.");
+    }
     auto match_length = ovector[2 * i + 1] - ovector[2 * i];
     return original->substr(match_start, match_length);
 }
@@ -60,13 +63,16 @@ size_t U8Match::num_groups() const {
 
 U8StringView U8Match::group(size_t group_num) const {
     const size_t group_count = pcre2_get_ovector_count((pcre2_match_data_8 *)handle);
-    if(group_num > group_count) {
+    if(group_num >= group_count) {
         throw PyException("Invalid regex group number.");
     }
     const size_t *group_vector = pcre2_get_ovector_pointer((pcre2_match_data_8 *)handle);
 
     const size_t match_start = group_vector[2 * group_num];
     const size_t match_end = group_vector[2 * group_num + 1];
+    if(match_start == PCRE2_UNSET || match_start > match_end) {
+        throw PyException("Regex group did not take part in the match.");
+    }
     return U8StringView{ValidU8Iterator{(const unsigned char *)original->c_str() + match_start},
                         ValidU8Iterator{(const unsigned char *)original->c_str() + match_end}};
 }
-- 
2.43.0


From c95cb450f5fc705e344f3c16b41ea591a69a1264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:56 +0000
Subject: [PATCH 093/112] fix: try_lock reports all errors

---
 src/pystd2026_threading.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026_threading.cpp b/src/pystd2026_threading.cpp
index 20095b7..954e4f2 100644
--- a/src/pystd2026_threading.cpp
+++ b/src/pystd2026_threading.cpp
@@ -26,7 +26,7 @@ void Mutex::lock() {
 
 bool Mutex::try_lock() {
     auto rc = pthread_mutex_trylock(&m);
-    if(rc == EINVAL) {
+    if(rc != 0 && rc != EBUSY) {
         throw PyException(strerror(rc));
     }
     return rc == 0;
-- 
2.43.0


From 079de7df75cef8e17b5a96408ea999a717a43ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:56 +0000
Subject: [PATCH 094/112] fix: threads are joined or detached only once and
 failures are reported

---
 src/pystd2026_threading.cpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/pystd2026_threading.cpp b/src/pystd2026_threading.cpp
index 954e4f2..b5ebea2 100644
--- a/src/pystd2026_threading.cpp
+++ b/src/pystd2026_threading.cpp
@@ -54,17 +54,31 @@ Thread::Thread(void *(*thread_main_func)(void *), void *ctx) {
 
 Thread::~Thread() {
     if(!thread_is_finalized) {
-        join();
+        if(pthread_join(thread, nullptr) != 0) {
+            fprintf(stderr, "Joining a thread failed.\n");
+        }
     }
 }
 
 void Thread::join() {
-    pthread_join(thread, nullptr);
+    if(thread_is_finalized) {
+        throw PyException("Thread has already been joined or detached.");
+    }
+    auto rc = pthread_join(thread, nullptr);
+    if(rc != 0) {
+        throw PyException(strerror(rc));
+    }
     thread_is_finalized = true;
 }
 
 void Thread::detach() {
-    pthread_detach(thread);
+    if(thread_is_finalized) {
+        throw PyException("Thread has already been joined or detached.");
+    }
+    auto rc = pthread_detach(thread);
+    if(rc != 0) {
+        throw PyException(strerror(rc));
+    }
     thread_is_finalized = true;
 }
 
-- 
2.43.0


From d7981691152c811d61a8a5b4d4b77f99ad29ff3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:20 +0000
Subject: [PATCH 095/112] fix: argument parser accepted malformed numbers

---
 src/pystd2026_argparse.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 8244188..0125334 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -86,10 +86,14 @@ static void update_value(const Argument &atype, ArgValue &vobj, CStringView sour
             // FIXME, needed for null terminator.
             CString tmp(source);
             errno = 0;
-            int64_t intval = strtol(tmp.data(), nullptr, 10);
+            char *number_end = nullptr;
+            int64_t intval = strtol(tmp.data(), &number_end, 10);
             if(errno != 0) {
                 throw PyException(strerror(errno));
             }
+            if(tmp.is_empty() || *number_end != '\0') {
+                throw PyException("Argument value is not an integer.");
+            }
             if(atype.minval && intval < atype.minval.value()) {
                 throw PyException("Argument value less than min value.");
             }
-- 
2.43.0


From 06e96abfb843da7803785dee5c2201a99b41c769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:20 +0000
Subject: [PATCH 096/112] fix: missing value of a short option read past the
 end of the arguments

---
 src/pystd2026_argparse.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 0125334..20f1540 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -251,6 +251,10 @@ int ArgParse::process_short_argument(
 
     if(arg.needs_parameter()) {
         if(current.size() == 2) {
+            if(i + 1 >= argc) {
+                fprintf(stderr, "Last entry on the command line would need a further argument.\n");
+                exit(1);
+            }
             valuepart = argv[i + 1];
             extra_consumed_args = 1;
         } else {
-- 
2.43.0


From 7581994c8ed4c5bd16c0192a75e1ae63a365cc4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:20 +0000
Subject: [PATCH 097/112] fix: a lone dash matched the first option that has no
 short name

---
 src/pystd2026_argparse.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index 20f1540..fa48868 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -159,7 +159,7 @@ Optional<ParseOutput> ArgParse::parse_args(int argc, const char **argv) {
         } else if(current.starts_with("--")) {
             const auto consumed_extra_args = process_long_argument(argc, argv, result, i, current);
             i += consumed_extra_args;
-        } else if(current.starts_with("-")) {
+        } else if(current.starts_with("-") && current.size() > 1) {
             const auto consumed_extra_args = process_short_argument(argc, argv, result, i, current);
             i += consumed_extra_args;
         } else {
-- 
2.43.0


From af3fce0f980af638dd25916398c4837b3edd0957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:20 +0000
Subject: [PATCH 098/112] fix: values given to options that take none were
 ignored

---
 src/pystd2026_argparse.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_argparse.cpp b/src/pystd2026_argparse.cpp
index fa48868..0ea5d5d 100644
--- a/src/pystd2026_argparse.cpp
+++ b/src/pystd2026_argparse.cpp
@@ -228,6 +228,9 @@ int ArgParse::process_long_argument(
             valuepart = argv[i + 1];
             extra_consumed_args = 1;
         }
+    } else if(splitpoint != (size_t)-1) {
+        fprintf(stderr, "Argument does not take a value: %s\n", argv[i]);
+        exit(1);
     }
     argument_matched(result, match_index, valuepart);
 
@@ -261,7 +264,9 @@ int ArgParse::process_short_argument(
             // FIXME, check for "-x=something".
             valuepart = current.substr(2);
         }
-    } else {
+    } else if(current.size() != 2) {
+        fprintf(stderr, "Argument does not take a value: %s\n", argv[i]);
+        exit(1);
     }
     argument_matched(result, match_index, valuepart);
 
-- 
2.43.0


From d7fe90fa424ac675fcd21db3ac9967c341354bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:11 +0000
Subject: [PATCH 099/112] fix: vector capacities whose size in bytes overflows
 are refused

---
 include/pystd2026.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 66af4e4..45643fa 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1260,6 +1260,9 @@ public:
     }
 
     void append_with_default(size_t num_copies) {
+        if(num_copies > (size_t)-1 - size()) {
+            bootstrap_throw("Vector capacity is too big.");
+        }
         reserve(size() + num_copies);
         T *obj = objptr(size());
         for(size_t i = 0; i < num_copies; ++i) {
@@ -1292,6 +1295,9 @@ private:
         if(new_capacity < num_entries) {
             bootstrap_throw("Shrinking too small.");
         }
+        if(new_capacity > (size_t)-1 / 2 / sizeof(T)) {
+            bootstrap_throw("Vector capacity is too big.");
+        }
         if(new_capacity < MIN_CAPACITY) {
             // To avoid multiple small allocations at the beginning.
             new_capacity = MIN_CAPACITY;
-- 
2.43.0


From ed5f637ca2a739c041c6532c65122c4736824d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:50 +0000
Subject: [PATCH 100/112] fix: rotating does not exhaust the stack on long
 ranges

---
 include/pystd2026_rotate.hpp | 31 +++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/include/pystd2026_rotate.hpp b/include/pystd2026_rotate.hpp
index 7669008..0472c57 100644
--- a/include/pystd2026_rotate.hpp
+++ b/include/pystd2026_rotate.hpp
@@ -20,20 +20,23 @@ template<BasicIterator It> It rotate(It begin, It middle, It end) {
         return begin;
     }
 
-    const auto NUM_SWAPS = LEFT_SIZE < RIGHT_SIZE ? LEFT_SIZE : RIGHT_SIZE;
-    for(ssize_t i = 0; i < NUM_SWAPS; ++i) {
-        ::pystd2026::swap(*(begin + i), *(middle + i), scratch);
-    }
-    if(LEFT_SIZE < RIGHT_SIZE) {
-        auto new_begin = begin + LEFT_SIZE;
-        auto new_middle = new_begin + LEFT_SIZE;
-        auto new_end = end;
-        ::pystd2026::rotate(new_begin, new_middle, new_end);
-    } else if(RIGHT_SIZE < LEFT_SIZE) {
-        auto new_begin = begin + RIGHT_SIZE;
-        auto new_middle = middle;
-        auto new_end = end;
-        ::pystd2026::rotate(new_begin, new_middle, new_end);
+    // Not recursive, as the depth could be as big as the number of elements.
+    auto left = begin;
+    auto left_remaining = LEFT_SIZE;
+    auto right_remaining = RIGHT_SIZE;
+    while(left_remaining != 0 && right_remaining != 0) {
+        const auto NUM_SWAPS =
+            left_remaining < right_remaining ? left_remaining : right_remaining;
+        for(ssize_t i = 0; i < NUM_SWAPS; ++i) {
+            ::pystd2026::swap(*(left + i), *(middle + i), scratch);
+        }
+        left = left + NUM_SWAPS;
+        if(left_remaining <= right_remaining) {
+            middle = middle + NUM_SWAPS;
+            right_remaining -= NUM_SWAPS;
+        } else {
+            left_remaining -= NUM_SWAPS;
+        }
     }
     return begin + RIGHT_SIZE;
 }
-- 
2.43.0


From cbb275b1da83f526b6179dc4328c06e7212daf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 101/112] fix: take an owning pointer out of the object that is
 deleted

---
 include/pystd2026.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 45643fa..6ebe8ac 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -510,11 +510,13 @@ public:
 
     unique_ptr<T, Deleter> &operator=(unique_ptr<T, Deleter> &&o) noexcept {
         if(this != &o) {
-            if(ptr) {
-                Deleter::del(ptr);
-            }
+            // The object that is deleted may own the source.
+            T *old = ptr;
             ptr = o.ptr;
             o.ptr = nullptr;
+            if(old) {
+                Deleter::del(old);
+            }
         }
         return *this;
     }
@@ -564,13 +566,15 @@ public:
 
     unique_arr &operator=(unique_arr<T> &&o) noexcept {
         if(this != &o) {
-            if(ptr) {
-                Deleter::del(ptr);
-            }
+            // The objects that are deleted may own the source.
+            T *old = ptr;
             ptr = o.ptr;
             array_size = o.array_size;
             o.ptr = nullptr;
             o.array_size = 0;
+            if(old) {
+                Deleter::del(old);
+            }
         }
         return *this;
     }
-- 
2.43.0


From f89ea408b4224b8e02656b181c0c4d0f5fb9157a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 102/112] fix: assign an optional a part of its own value

---
 include/pystd2026.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 6ebe8ac..61f9764 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -652,20 +652,23 @@ public:
 
     void operator=(Optional<T> &&o) noexcept {
         if(this != &o) {
+            // The current value may own the source.
+            Optional<T> tmp(::pystd2026::move(o));
             destroy();
-            if(o) {
-                new(&data.value) T{::pystd2026::move(o.data.value)};
+            if(tmp) {
+                new(&data.value) T{::pystd2026::move(tmp.data.value)};
                 has_value = true;
-                o.destroy();
             }
         }
     }
 
     void operator=(const Optional<T> &o) noexcept {
         if(this != &o) {
+            // The current value may own the source.
+            Optional<T> tmp(o);
             destroy();
-            if(o) {
-                new(&data.value) T{o.data.value};
+            if(tmp) {
+                new(&data.value) T{::pystd2026::move(tmp.data.value)};
                 has_value = true;
             }
         }
-- 
2.43.0


From 8973c548478509c361ac2ac3f2a72232784b20dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 103/112] fix: assign an expected value a part of its own
 content

---
 include/pystd2026.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 61f9764..3d70c22 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -350,17 +350,19 @@ public:
 
     void operator=(Expected<V, E> &&o) noexcept {
         if(this != &o) {
+            // The current value may own the source.
+            Expected<V, E> tmp(::pystd2026::move(o));
+            o.destroy();
             destroy();
-            if(o.has_value()) {
-                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(o.content)));
+            if(tmp.has_value()) {
+                new(content) V(::pystd2026::move(*reinterpret_cast<V *>(tmp.content)));
                 state = UnionState::Value;
-            } else if(o.has_error()) {
-                new(content) E(::pystd2026::move(*reinterpret_cast<E *>(o.content)));
+            } else if(tmp.has_error()) {
+                new(content) E(::pystd2026::move(*reinterpret_cast<E *>(tmp.content)));
                 state = UnionState::Error;
             } else {
                 state = UnionState::Empty;
             }
-            o.destroy();
         }
     }
 
-- 
2.43.0


From 263e22693f04b03bc9e40be1db519b64ba9be48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 104/112] fix: assign a vector a part of its own elements

---
 include/pystd2026.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 3d70c22..7700298 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1223,14 +1223,16 @@ public:
 
     Vector<T> &operator=(Vector<T> &&o) noexcept {
         if(this != &o) {
+            // The current elements may own the source.
+            Vector<T> tmp(::pystd2026::move(o));
             deallocate_objects();
             free_native(buffer);
-            buffer = o.buffer;
-            num_entries = o.num_entries;
-            buf_capacity = o.buf_capacity;
-            o.buffer = nullptr;
-            o.num_entries = 0;
-            o.buf_capacity = 0;
+            buffer = tmp.buffer;
+            num_entries = tmp.num_entries;
+            buf_capacity = tmp.buf_capacity;
+            tmp.buffer = nullptr;
+            tmp.num_entries = 0;
+            tmp.buf_capacity = 0;
         }
         return *this;
     }
-- 
2.43.0


From f8f7ba123bda7898477c1f25f8f2e045810d2482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 105/112] fix: assign a fixed vector a part of its own elements

---
 include/pystd2026.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026.hpp b/include/pystd2026.hpp
index 7700298..1a76959 100644
--- a/include/pystd2026.hpp
+++ b/include/pystd2026.hpp
@@ -1348,8 +1348,10 @@ public:
 
     FixedVector &operator=(FixedVector &&o) noexcept {
         if(this != &o) {
+            // The current elements may own the source.
+            FixedVector tmp(::pystd2026::move(o));
             destroy_contents();
-            swipe_from(o);
+            swipe_from(tmp);
         }
         return *this;
     }
-- 
2.43.0


From 4482710a2fb4326278897fc36466641200af96d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 106/112] fix: assign a variant a part of its own value

---
 include/pystd2026_variant.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/pystd2026_variant.hpp b/include/pystd2026_variant.hpp
index 676b5b2..dfc44e3 100644
--- a/include/pystd2026_variant.hpp
+++ b/include/pystd2026_variant.hpp
@@ -336,8 +336,10 @@ public:
         if(this == &o) {
             return *this;
         }
+        // The current value may own the source.
+        Variant<T...> tmp(::pystd2026::move(o));
         destroy();
-        move_to_uninitialized_memory(::pystd2026::move(o));
+        move_to_uninitialized_memory(::pystd2026::move(tmp));
         return *this;
     }
 
@@ -441,8 +443,9 @@ private:
     break;
 
     void copy_value_in(const Variant<T...> &o, bool has_existing_value) {
-        // If copy construction throws, keep the old value.
-        switch(o.type_id) {
+        // If copy construction throws, keep the old value. It may own the source.
+        const auto new_type_id = o.type_id;
+        switch(new_type_id) {
         case 0:
             PYSTD2026_VAR_COPY_SWITCH(0);
         case 1:
@@ -507,7 +510,7 @@ private:
             internal_failure("Unreachable code in variant copy.");
         }
 
-        type_id = o.type_id;
+        type_id = new_type_id;
     }
 
 #define PYSTD2026_VAR_COMPARE_SWITCH(i)                                                            \
-- 
2.43.0


From af93d51ec85265bf03039f477611ce20436975ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:43 +0000
Subject: [PATCH 107/112] fix: assign a hash map a part of its own values

---
 include/pystd2026_hashtable.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index e79120a..19daf14 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -28,6 +28,21 @@ public:
         data.valuedata = Bytes(initial_table_size * sizeof(Value));
     }
 
+    HashMap(HashMap &&o) noexcept = default;
+
+    HashMap &operator=(HashMap &&o) noexcept {
+        if(this != &o) {
+            // The current values may own the source.
+            MapData old = move(data);
+            data = move(o.data);
+            salt = o.salt;
+            num_entries = o.num_entries;
+            num_tombstones = o.num_tombstones;
+            size_in_powers_of_two = o.size_in_powers_of_two;
+        }
+        return *this;
+    }
+
     Value *lookup(const Key &key) const {
         const auto hashval = hash_for(key);
         auto slot = hash_to_slot(hashval);
-- 
2.43.0


From 6c3fa205d966cf3d794f1eec73c808f41e0d0fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:06 +0000
Subject: [PATCH 108/112] fix: assign a tree a part of its own values

---
 include/pystd2026_btree.hpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index c7c1c42..66f8e3a 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -13,6 +13,21 @@ template<WellBehaved Payload, size_t EntryCount> class BTree {
     class BTreeIterator;
 
 public:
+    BTree() noexcept = default;
+    BTree(BTree &&o) noexcept = default;
+
+    BTree &operator=(BTree &&o) noexcept {
+        if(this != &o) {
+            // The current values may own the source.
+            BTree old(::pystd2026::move(*this));
+            root = o.root;
+            num_values = o.num_values;
+            internals = ::pystd2026::move(o.internals);
+            leaves = ::pystd2026::move(o.leaves);
+        }
+        return *this;
+    }
+
     void insert(const Payload &value) {
         Payload p(value);
         insert(::pystd2026::move(p));
-- 
2.43.0


From 99fd9f79f24b4626d7d94ba4fe14140ec62aba67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:26 +0000
Subject: [PATCH 109/112] fix: remove a B-tree element that is given by
 reference

---
 include/pystd2026_btree.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/pystd2026_btree.hpp b/include/pystd2026_btree.hpp
index 66f8e3a..51084fc 100644
--- a/include/pystd2026_btree.hpp
+++ b/include/pystd2026_btree.hpp
@@ -49,7 +49,9 @@ public:
         if(is_empty()) {
             return;
         }
-        auto v = extract_value(value, root);
+        // The argument might be in this tree.
+        const Payload value_copy(value);
+        auto v = extract_value(value_copy, root);
         if(v) {
             --num_values;
         }
-- 
2.43.0


From fced0955b631080116dd2f4d30a961be51104d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:13 +0000
Subject: [PATCH 110/112] fix: replace the extension of a path by a part of its
 own text

---
 src/pystd2026_filesystem.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pystd2026_filesystem.cpp b/src/pystd2026_filesystem.cpp
index 99bdf64..11db6d0 100644
--- a/src/pystd2026_filesystem.cpp
+++ b/src/pystd2026_filesystem.cpp
@@ -244,10 +244,12 @@ void Path::replace_extension(CStringView new_extension) {
     if(extpoint == (size_t)-1) {
         buf += new_extension;
     } else {
+        // The new extension may be a part of this path, copy it before it goes away.
+        const CString extension(new_extension);
         while(buf.size() > extpoint) {
             buf.pop_back();
         }
-        buf += new_extension;
+        buf += extension;
     }
 }
 
-- 
2.43.0


From 7a486c979fa3a3fe51fb931fcdc8a0e2d1345699 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:03 +0000
Subject: [PATCH 111/112] fix: keep over-aligned keys and values of a hash map
 aligned

---
 include/pystd2026_hashtable.hpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/include/pystd2026_hashtable.hpp b/include/pystd2026_hashtable.hpp
index 19daf14..d5d6fd7 100644
--- a/include/pystd2026_hashtable.hpp
+++ b/include/pystd2026_hashtable.hpp
@@ -24,8 +24,8 @@ public:
         auto initial_table_size = 1 << size_in_powers_of_two;
         data.md = unique_arr<SlotMetadata>(initial_table_size);
         data.reset_hash_values();
-        data.keydata = Bytes(initial_table_size * sizeof(Key));
-        data.valuedata = Bytes(initial_table_size * sizeof(Value));
+        data.keydata = MapData::template storage_for<Key>(initial_table_size);
+        data.valuedata = MapData::template storage_for<Value>(initial_table_size);
     }
 
     HashMap(HashMap &&o) noexcept = default;
@@ -184,16 +184,29 @@ private:
 
         ~MapData() { deallocate_contents(); }
 
-        Key *keyptr(size_t i) noexcept { return (Key *)(keydata.data() + i * sizeof(Key)); }
-        const Key *keyptr(size_t i) const noexcept {
-            return (const Key *)(keydata.data() + i * sizeof(Key));
+        // Allocated bytes are not aligned enough for over-aligned types.
+        template<typename T> static constexpr bool is_overaligned() noexcept {
+            return alignof(T) > __STDCPP_DEFAULT_NEW_ALIGNMENT__;
         }
 
-        Value *valueptr(size_t i) noexcept {
-            return (Value *)(valuedata.data() + i * sizeof(Value));
+        template<typename T> static Bytes storage_for(size_t num_slots) noexcept {
+            return Bytes(num_slots * sizeof(T) + (is_overaligned<T>() ? alignof(T) - 1 : 0));
         }
+
+        template<typename T> static const T *slot_address(const Bytes &b, size_t i) noexcept {
+            const char *start = b.data();
+            if constexpr(is_overaligned<T>()) {
+                start += -(uintptr_t)start & (alignof(T) - 1);
+            }
+            return (const T *)(start + i * sizeof(T));
+        }
+
+        Key *keyptr(size_t i) noexcept { return (Key *)slot_address<Key>(keydata, i); }
+        const Key *keyptr(size_t i) const noexcept { return slot_address<Key>(keydata, i); }
+
+        Value *valueptr(size_t i) noexcept { return (Value *)slot_address<Value>(valuedata, i); }
         const Value *valueptr(size_t i) const noexcept {
-            return (const Value *)(valuedata.data() + i * sizeof(Value));
+            return slot_address<Value>(valuedata, i);
         }
 
         void reset_hash_values() noexcept { memset(md.get(), 0, md.size_bytes()); }
@@ -277,8 +290,8 @@ private:
         MapData grown;
 
         grown.md = unique_arr<SlotMetadata>(new_size);
-        grown.keydata = Bytes(new_size * sizeof(Key));
-        grown.valuedata = Bytes(new_size * sizeof(Value));
+        grown.keydata = MapData::template storage_for<Key>(new_size);
+        grown.valuedata = MapData::template storage_for<Value>(new_size);
 
         grown.reset_hash_values();
         MapData old = move(data);
-- 
2.43.0


From c7da8c3ff18b7f1a06cad12a6fffd83cc814f1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:24 +0000
Subject: [PATCH 112/112] fix: report words with null bytes in wordsort instead
 of terminating

---
 tools/wordsort.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/wordsort.cpp b/tools/wordsort.cpp
index 53c3667..3de4df5 100644
--- a/tools/wordsort.cpp
+++ b/tools/wordsort.cpp
@@ -23,7 +23,8 @@ int file_main(int argc, char **argv) {
         // words.reserve(30000);
         auto adder = [](const pystd2026::CStringView &piece, void *ctx) -> bool {
             auto *words = reinterpret_cast<pystd2026::Vector<pystd2026::CString> *>(ctx);
-            words->emplace_back(piece);
+            // Emplacing must not throw, but words with embedded nulls do.
+            words->push_back(pystd2026::CString(piece));
             return true;
         };
         file_view.split(adder, &words);
-- 
2.43.0

