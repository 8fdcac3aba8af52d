From c2931038a1a5e765981308669c7213380614be7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 01/46] fix: accept ascii images with exactly their data,
 reject those with less

---
 src/ppocr/image/image_from_file.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index c4bdf64..3ca5546 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -259,21 +259,17 @@ Image image_from_file(const char * filename, unsigned luminance)
     // ascii data (pnm and pbm)
     else if (header.type == '3' || header.type == '1') {
         std::size_t compunt_counter = 0;
-        for (; p < end; ++p) {
+        for (; p < end && compunt_counter != img_size; ++p) {
             if (*p == ' ') {
                 // ignored
             }
             else if (*p == '0') {
                 *output++ = '-';
-                if (++compunt_counter == img_size) {
-                    break;
-                }
+                ++compunt_counter;
             }
             else if (*p == '1') {
                 *output++ = 'x';
-                if (++compunt_counter == img_size) {
-                    break;
-                }
+                ++compunt_counter;
             }
             else if (*p == '\n') {
                 // ignored
@@ -287,7 +283,7 @@ Image image_from_file(const char * filename, unsigned luminance)
         for (; p < end && (*p == ' ' || *p == '\n'); ++p) {
         }
 
-        if (p != end) {
+        if (p != end || compunt_counter != img_size) {
             throw std::runtime_error(invalid_data_len);
         }
     }
-- 
2.43.0


From 41484b67bba3bef9ef74fa67a78bcc642ebbb7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 02/46] fix: overflow of the row size of very wide P4 images

---
 src/ppocr/image/image_from_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index 3ca5546..7c75f47 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -239,7 +239,7 @@ Image image_from_file(const char * filename, unsigned luminance)
     }
     // binary data (pbm)
     else if (header.type == '4') {
-        if (static_cast<std::size_t>(end - p) != (header.width + 7) / 8 * header.height) {
+        if (static_cast<std::size_t>(end - p) != (std::size_t(header.width) + 7) / 8 * header.height) {
             throw std::runtime_error(invalid_data_len);
         }
 
-- 
2.43.0


From b5c4bd2148f164438a80204636f0f12000d485cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 03/46] fix: accept image files whose header and data are
 shorter than 9 bytes

---
 src/ppocr/image/image_from_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index 7c75f47..672621c 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -125,7 +125,7 @@ namespace
             // ['0'-'9']+ '\n'                  # max value (when type != 1 or 4)
             // data
 
-            if (end - p < 9) {
+            if (end - p < 3) {
                 return false;
             }
 
-- 
2.43.0


From 8ff287cee082eb8a3d7703d45189489416b05cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 04/46] fix: image file shorter than announced used
 uninitialised bytes

---
 src/ppocr/image/image_from_file.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index 672621c..583c8a2 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -94,16 +94,13 @@ namespace
         std::size_t remaining = buf.len;
         auto* p = buf.data;
         while (ssize_t res = read(file.fd, p, remaining)) {
-            if (res <= 0) {
-                if (res == 0) {
-                    buf.data -= remaining;
-                    return 0;
-                }
+            if (res < 0) {
                 throw_error(filename);
             }
             remaining -= static_cast<std::size_t>(res);
             p += res;
         }
+        buf.len -= remaining;
 
         return buf;
     }
-- 
2.43.0


From 14cefa6972cf5569014899fa67d7ca4076a607f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:08 +0000
Subject: [PATCH 05/46] fix: last column of the image was never part of a box

---
 src/ppocr/box_char/make_box_character.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/box_char/make_box_character.cpp b/src/ppocr/box_char/make_box_character.cpp
index a61c3e2..687f770 100644
--- a/src/ppocr/box_char/make_box_character.cpp
+++ b/src/ppocr/box_char/make_box_character.cpp
@@ -57,8 +57,11 @@ Box make_box_character(Image const & image, Index const & idx, Bounds const & bn
 
     unsigned w = x;
 
-    while (w + 1 < bnd.width()) {
+    while (w < bnd.width()) {
         ++w;
+        if (w == bnd.width()) {
+            break;
+        }
         if ([&image](Pixel const * d, unsigned w, unsigned h) -> bool {
             for (auto e = d+w*h; d != e; d += w) {
                 if (is_pix_letter(*d) && (
-- 
2.43.0


From e7097ace83c903211f5648412d827f70d00a2f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 06/46] fix: reading a glyph image of zero or overflowing size

---
 src/ppocr/loader2/image_io.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ppocr/loader2/image_io.cpp b/src/ppocr/loader2/image_io.cpp
index 309d962..117c53f 100644
--- a/src/ppocr/loader2/image_io.cpp
+++ b/src/ppocr/loader2/image_io.cpp
@@ -21,12 +21,18 @@
 
 #include <ostream>
 #include <istream>
+#include <cstdint>
 
 namespace ppocr { namespace loader2 {
 
 std::istream & read_img(std::istream & is, Image & img) {
     Bounds bnd;
     if (is >> bnd) {
+        auto const area = std::uint64_t(bnd.width()) * bnd.height();
+        if (!area || area != bnd.area()) {
+            is.setstate(std::ios::failbit);
+            return is;
+        }
         std::unique_ptr<Pixel[]> p(new Pixel[bnd.area()]);
         is.rdbuf()->snextc();
         is.read(p.get(), bnd.area());
-- 
2.43.0


From d77407a5e6194af07f95cda2008a1d85e79c3079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 07/46] fix: terminator of words whose size is a multiple of 4
 was written over the next word

---
 src/ppocr/ocr2/glyphs.cpp | 4 ++--
 src/ppocr/ocr2/glyphs.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index 68fba9d..53cf62b 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -68,7 +68,7 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
         std::vector<unsigned> reindex(word_map.size());
         for (auto & p : word_map) {
             reindex[p.second] = buf_word_sz;
-            buf_word_sz += (p.first.size() + sizeof(unsigned) - 1) / sizeof(unsigned) + 1;
+            buf_word_sz += p.first.size() / sizeof(unsigned) + 2;
         }
         buf_word = std::unique_ptr<unsigned[]>(new unsigned[buf_word_sz]);
         for (auto & views : glyphs) {
@@ -84,7 +84,7 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
             ++buf;
             std::copy(p.first.begin(), p.first.end(), reinterpret_cast<char*>(buf));
             reinterpret_cast<char*>(buf)[p.first.size()] = 0;
-            buf += (p.first.size() + sizeof(unsigned) - 1) / sizeof(unsigned);
+            buf += p.first.size() / sizeof(unsigned) + 1;
         }
     }
 
diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index c2e7149..295cf3a 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -74,7 +74,7 @@ struct Glyphs : std::vector<Views> {
                 }
                 break;
             }
-            i += (this->get_word_(i).size() + sizeof(unsigned) * 2 - 1) / sizeof(unsigned);
+            i += this->get_word_(i).size() / sizeof(unsigned) + 2;
         }
         return no_index;
     }
-- 
2.43.0


From 35b378effa95e8cbbf823e6090d1c2b95bd07b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 08/46] fix: word_index_of matched prefixes and read past the
 words

---
 src/ppocr/ocr2/glyphs.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index 295cf3a..9e297fd 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -21,6 +21,7 @@
 
 #include <map>
 #include <string>
+#include <string_view>
 #include <memory>
 #include <vector>
 #include <istream>
@@ -67,14 +68,15 @@ struct Glyphs : std::vector<Views> {
     unsigned word_index_of(std::string_view s) const {
         unsigned i = 0;
         while (i < this->buf_word_sz) {
-            auto r = s.compare(0, s.size(), this->get_word_(i).data(), s.size());
+            auto const & word = this->get_word_(i);
+            auto r = s.compare(std::string_view(word.data(), word.size()));
             if (r <= 0) {
                 if (r == 0) {
                     return i;
                 }
                 break;
             }
-            i += this->get_word_(i).size() / sizeof(unsigned) + 2;
+            i += word.size() / sizeof(unsigned) + 2;
         }
         return no_index;
     }
-- 
2.43.0


From fdcd7f08aa6a1f36205ccab0917a44404d5c42e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 09/46] fix: uninitialised size of the word table of default
 constructed glyphs

---
 src/ppocr/ocr2/glyphs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index 9e297fd..f42761f 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -83,7 +83,7 @@ struct Glyphs : std::vector<Views> {
 
 private:
     std::unique_ptr<unsigned[]> buf_word;
-    unsigned buf_word_sz;
+    unsigned buf_word_sz = 0;
 
     string const & get_word_(unsigned i) const
     { return *reinterpret_cast<string const *>(this->buf_word.get() + i); }
-- 
2.43.0


From 57546578dadfeed8a8f309959ebb875a039a985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 10/46] fix: glyph with fewer views than announced used out of
 range words

---
 src/ppocr/ocr2/glyphs.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index 53cf62b..b743723 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -19,6 +19,7 @@
 #include "ppocr/ocr2/glyphs.hpp"
 
 #include <limits>
+#include <stdexcept>
 
 namespace ppocr { namespace ocr2 {
 
@@ -59,6 +60,10 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
             ++i;
         }
 
+        if (i != n) {
+            throw std::runtime_error("bad format");
+        }
+
         glyphs.push_back(std::move(views));
     }
 
-- 
2.43.0


From 66a666c7a594a4b38d1a63f7a5629a287342309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 11/46] fix: word of a glyph without view

---
 src/ppocr/ocr2/data_indexes_by_words.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/data_indexes_by_words.cpp b/src/ppocr/ocr2/data_indexes_by_words.cpp
index c625a8e..bfd7c24 100644
--- a/src/ppocr/ocr2/data_indexes_by_words.cpp
+++ b/src/ppocr/ocr2/data_indexes_by_words.cpp
@@ -27,8 +27,10 @@ ppocr::ocr2::DataIndexesByWords::DataIndexesByWords(const ppocr::ocr2::Glyphs& g
 
     unsigned n = 0;
     for (auto & views : glyphs) {
-        auto & e = map[views.front().word];
-        e.emplace_back(n++);
+        if (!views.empty()) {
+            map[views.front().word].emplace_back(n);
+        }
+        ++n;
     }
 
     this->indexes_by_words.resize(glyphs.size());
-- 
2.43.0


From 0d64a72ad0684d385f9a24e945d4fb1a2ba589bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 12/46] fix: views ids were assigned to sorted positions
 instead of glyphs

---
 src/ppocr/ocr2/views_index_ordered.hpp | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/ppocr/ocr2/views_index_ordered.hpp b/src/ppocr/ocr2/views_index_ordered.hpp
index 61028a0..4c70dee 100644
--- a/src/ppocr/ocr2/views_index_ordered.hpp
+++ b/src/ppocr/ocr2/views_index_ordered.hpp
@@ -32,20 +32,15 @@ inline std::vector<unsigned> get_views_indexes_ordered(Glyphs const & glyphs) {
         std::vector<std::reference_wrapper<Views const>> glyph_refs(glyphs.begin(), glyphs.end());
         std::sort(glyph_refs.begin(), glyph_refs.end(), LtViews{});
 
-        auto first = glyph_refs.begin() + 1;
-        auto last = glyph_refs.end();
-        // re-assign duplication
-        for (; first != last; ++first) {
-            if (EqViews{}(first->get(), (first-1)->get())) {
-                *first = *(first-1);
-            }
-        }
-
         id_views.resize(glyphs.size());
-        auto it = id_views.begin();
-        for (Views const & g : glyph_refs) {
-            *it = static_cast<unsigned>(&g - &glyphs[0]);
-            ++it;
+        // glyphs with the same views have the id of the first of them
+        auto id_ref = glyph_refs.front();
+        for (auto const & ref : glyph_refs) {
+            if (!EqViews{}(ref.get(), id_ref.get())) {
+                id_ref = ref;
+            }
+            id_views[static_cast<std::size_t>(&ref.get() - &glyphs[0])]
+              = static_cast<unsigned>(&id_ref.get() - &glyphs[0]);
         }
     }
     return id_views;
-- 
2.43.0


From 5dbc282ff657c003c4bee705ca62f61f6903f18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 13/46] fix: division by zero when comparing null zone
 proportions

---
 src/ppocr/strategies/proportionality_zone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/strategies/proportionality_zone.cpp b/src/ppocr/strategies/proportionality_zone.cpp
index 4eb53dc..ef6de6e 100644
--- a/src/ppocr/strategies/proportionality_zone.cpp
+++ b/src/ppocr/strategies/proportionality_zone.cpp
@@ -70,7 +70,7 @@ unsigned proportionality_zone::relationship_type::compute(const value_type& a, c
     unsigned const total = std::inner_product(
         a.begin(), a.end(), b.begin(), 0u
       , std::plus<unsigned>()
-      , [](unsigned a, unsigned b) { return a*100/(a+b); }
+      , [](unsigned a, unsigned b) { return (a+b) ? a*100/(a+b) : 50u; }
     ) / a.size();
     return utils::compute_relationship(total, 50u, 100u);
 }
-- 
2.43.0


From 87555968bbc9d65f83a4c767429187cd6ca46f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 14/46] fix: memset of a null buffer for images without
 background

---
 src/ppocr/strategies/utils/count_zone.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/strategies/utils/count_zone.hpp b/src/ppocr/strategies/utils/count_zone.hpp
index 5eba428..90cfcbb 100644
--- a/src/ppocr/strategies/utils/count_zone.hpp
+++ b/src/ppocr/strategies/utils/count_zone.hpp
@@ -23,7 +23,7 @@
 
 #include <memory>
 #include <cassert>
-#include <cstring>
+#include <algorithm>
 
 namespace ppocr { namespace strategies { namespace utils
 {
@@ -38,7 +38,7 @@ namespace ppocr { namespace strategies { namespace utils
                 _buffer.reset(new T[n * 2]);
                 _capacity = n * 2;
             }
-            std::memset(data(), 0, n * sizeof(T));
+            std::fill_n(data(), n, T());
             return data();
         }
 
-- 
2.43.0


From 8240ba21fc0cf4e0100c2d67bb684ef8d85b1ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 15/46] fix: first box ignored by the line histogram bounds

---
 src/ppocr/ocr2/filter_by_lines.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/filter_by_lines.cpp b/src/ppocr/ocr2/filter_by_lines.cpp
index 9019647..7a24bd0 100644
--- a/src/ppocr/ocr2/filter_by_lines.cpp
+++ b/src/ppocr/ocr2/filter_by_lines.cpp
@@ -74,15 +74,17 @@ namespace {
     struct MinMaxBox
     {
         unsigned min_top;
-        unsigned max_top = 0;
+        unsigned max_top;
         unsigned min_bottom;
-        unsigned max_bottom = 0;
+        unsigned max_bottom;
 
         using iterator = std::vector<ppocr::Box>::const_iterator;
 
         MinMaxBox(iterator first, iterator last)
         : min_top(first->top())
+        , max_top(first->top())
         , min_bottom(first->bottom())
+        , max_bottom(first->bottom())
         {
             while (++first != last) {
                 min_top = std::min(min_top, first->top());
-- 
2.43.0


From 43bc77034775a4e6809ac976bac45fe906326a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 16/46] fix: second word of a character was never filtered by
 line

---
 src/ppocr/ocr2/filter_by_lines.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/filter_by_lines.cpp b/src/ppocr/ocr2/filter_by_lines.cpp
index 7a24bd0..9dec663 100644
--- a/src/ppocr/ocr2/filter_by_lines.cpp
+++ b/src/ppocr/ocr2/filter_by_lines.cpp
@@ -50,10 +50,11 @@ namespace {
             auto out = vec.begin();
             auto last = vec.end();
             if (!pred(*(first-1))) {
-                do {
+                ++count;
+                while (first != last && !pred(*first)) {
                     first = std::find_if(first+1, last, view_equal_to(first->get().word));
                     ++count;
-                } while (first != last && !pred(*first));
+                }
                 out = first;
             }
             while (first != last) {
-- 
2.43.0


From 6d47dd394be5645927993939bc938d20a69cdf22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 17/46] fix: leading unrecognised characters and space after a
 leading punctuation were lost

---
 src/ppocr/ocr2/disambiguous_with_dict.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/ppocr/ocr2/disambiguous_with_dict.cpp b/src/ppocr/ocr2/disambiguous_with_dict.cpp
index 060a437..fdb5dc7 100644
--- a/src/ppocr/ocr2/disambiguous_with_dict.cpp
+++ b/src/ppocr/ocr2/disambiguous_with_dict.cpp
@@ -168,11 +168,8 @@ unsigned ppocr::ocr2::disambiguous_with_dict(
 
     auto first = ambiguous.begin();
     auto last = ambiguous.end();
-    auto middle = std::find_if_not(first, first + *it_space, search_fn);
-    for (; first != middle; ++first) {
-        append(result, glyphs, *first);
-    }
-    if (first == ambiguous.begin() + *it_space) {
+    // space before the first character
+    if (*it_space == 0) {
         ++it_space;
     }
     while (first != last) {
-- 
2.43.0


From cdb347e6c09842f8910b432f0bfa998f2c3b5ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:01 +0000
Subject: [PATCH 18/46] fix: only the first letter of the last candidate was
 compared with the dictionary

---
 src/ppocr/spell/word_disambiguouser.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/ppocr/spell/word_disambiguouser.hpp b/src/ppocr/spell/word_disambiguouser.hpp
index 28508ac..a958a48 100644
--- a/src/ppocr/spell/word_disambiguouser.hpp
+++ b/src/ppocr/spell/word_disambiguouser.hpp
@@ -59,6 +59,13 @@ private:
         auto const c = *it;
         auto pos = rng.lower_bound(c);
         if (pos != rng.end() && pos->get() == c) {
+            if (*++it) {
+                if (!pos->empty() && disambiguous_utf_char(pos->childrens(), first, last, it, output)) {
+                    set_c(output, c);
+                    return true;
+                }
+                return false;
+            }
             auto next_first = first;
             ++next_first;
             if (next_first == last) {
@@ -68,13 +75,7 @@ private:
                 }
             }
             else if (!pos->empty()) {
-                if (*++it) {
-                    if (disambiguous_utf_char(pos->childrens(), first, last, it, output)) {
-                        set_c(output, c);
-                        return true;
-                    }
-                }
-                else if (disambiguous_impl(pos->childrens(), next_first, last, output)) {
+                if (disambiguous_impl(pos->childrens(), next_first, last, output)) {
                     set_c(output, c);
                     return true;
                 }
-- 
2.43.0


From 7aa555996cb3a59cc7af52f1dc819018cf7b4a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 19/46] fix: truncated UTF-8 sequences were read past the end
 of the string

---
 src/ppocr/utils/utf.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ppocr/utils/utf.hpp b/src/ppocr/utils/utf.hpp
index 951aae1..91fe06e 100644
--- a/src/ppocr/utils/utf.hpp
+++ b/src/ppocr/utils/utf.hpp
@@ -47,15 +47,18 @@ namespace ppocr { namespace utf {
                 break;
                 /* handle U+0080..U+07FF inline : 2 bytes sequences */
                 case 0xC: case 0xD:
+                    if (!source[0]) { this->ucode = 0; break; }
                     this->ucode = ((this->ucode & 0x1F) << 6)|(source[0] & 0x3F);
                     source += 1;
                 break;
                 /* handle U+8FFF..U+FFFF inline : 3 bytes sequences */
                 case 0xE:
+                    if (!source[0] || !source[1]) { this->ucode = 0; break; }
                     this->ucode = ((this->ucode & 0x0F) << 12)|((source[0] & 0x3F) << 6)|(source[1] & 0x3F);
                     source += 2;
                 break;
                 case 0xF:
+                    if (!source[0] || !source[1] || !source[2]) { this->ucode = 0; break; }
                     this->ucode = ((this->ucode & 0x07) << 18)|((source[0] & 0x3F) << 12)|((source[1] & 0x3F) << 6)|(source[2] & 0x3F);
                     source += 3;
                 break;
@@ -102,15 +105,18 @@ namespace ppocr { namespace utf {
                 break;
                 /* handle U+0080..U+07FF inline : 2 bytes sequences */
                 case 0xC: case 0xD:
+                    if (!source[0]) { this->ucode = 0; break; }
                     this->ucode = (this->ucode << 8) | source[0];
                     source += 1;
                 break;
                 /* handle U+8FFF..U+FFFF inline : 3 bytes sequences */
                 case 0xE:
+                    if (!source[0] || !source[1]) { this->ucode = 0; break; }
                     this->ucode = (this->ucode << 16) | (source[0] << 8) | source[1];
                     source += 2;
                 break;
                 case 0xF:
+                    if (!source[0] || !source[1] || !source[2]) { this->ucode = 0; break; }
                     this->ucode = (this->ucode << 24) | (source[0] << 16) | (source[1] << 8) | source[2];
                     source += 3;
                 break;
-- 
2.43.0


From fdbf32bd3ff2294165a4e25459e45a2c6363f59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 20/46] fix: crash on empty words in a dictionary

---
 src/ppocr/spell/dictionary.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/spell/dictionary.cpp b/src/ppocr/spell/dictionary.cpp
index dc3cfd7..42f35a7 100644
--- a/src/ppocr/spell/dictionary.cpp
+++ b/src/ppocr/spell/dictionary.cpp
@@ -42,7 +42,9 @@ Dictionary::Dictionary(std::vector<std::string> const & words)
         for (uint32_t c; (c = *it); ++it) {
             new_word.push_back(c);
         }
-        uwords.push_back(std::move(new_word));
+        if (!new_word.empty()) {
+            uwords.push_back(std::move(new_word));
+        }
     }
 
     std::sort(uwords.begin(), uwords.end());
-- 
2.43.0


From 281106ca753dd6ee3ec7d1c37de068f216c3690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 21/46] fix: only the first words file was used by
 make_trie_dictionary

---
 main/make_trie_dictionary.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/main/make_trie_dictionary.cpp b/main/make_trie_dictionary.cpp
index af6c3a9..4efe5d0 100644
--- a/main/make_trie_dictionary.cpp
+++ b/main/make_trie_dictionary.cpp
@@ -34,11 +34,10 @@ int main(int ac, char ** av) {
         return 1;
     }
 
-    std::ifstream file;
     std::vector<std::string> words;
 
     for (int i = 1; i < ac; ++i) {
-        file.open(av[i]);
+        std::ifstream file(av[i]);
         if (!file) {
             std::cerr << av[i] << ": " << strerror(errno) << std::endl;
             continue;
-- 
2.43.0


From 05ba61764ee17ebeb0fd73794067598b01e98296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 22/46] fix: dictionary with truncated or inconsistent nodes
 was read out of bounds

---
 src/ppocr/spell/dictionary.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/spell/dictionary.cpp b/src/ppocr/spell/dictionary.cpp
index 42f35a7..dc9d113 100644
--- a/src/ppocr/spell/dictionary.cpp
+++ b/src/ppocr/spell/dictionary.cpp
@@ -20,6 +20,7 @@
 #include "ppocr/utils/utf.hpp"
 
 #include <fstream>
+#include <stdexcept>
 #include <algorithm>
 
 
@@ -91,12 +92,23 @@ std::istream& operator>>(std::istream& is, Dictionary & dict)
     unsigned sz;
     bool terminal;
     char e1, e2, e3, e4;
-    while (is >> c >> e1 >> pos >> e2 >> sz >> e3 >> terminal >> e4) {
-        if (e1 != ' ' || e2 != ' ' || e3 != ' ' || e4 != '\n') {
+    while (is >> c) {
+        if (!(is >> e1 >> pos >> e2 >> sz >> e3 >> terminal >> e4)
+         || e1 != ' ' || e2 != ' ' || e3 != ' ' || e4 != '\n') {
             throw std::runtime_error("bad format");
         }
         nodes.emplace_back(c, pos, sz, terminal);
     }
+    // childrens are after their parent and inside the dictionary
+    for (std::size_t i = 0; i < nodes.size(); ++i) {
+        auto const remaining = nodes.size() - i;
+        if (!nodes[i].relative_pos()
+         || nodes[i].relative_pos() > remaining
+         || nodes[i].size() > remaining - nodes[i].relative_pos()
+        ) {
+            throw std::runtime_error("bad format");
+        }
+    }
     dict = Dictionary(std::move(nodes));
     return is;
 }
-- 
2.43.0


From 69bc066e5aeac488e9ff906058d3131be3ea91ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 23/46] fix: infinite loop when a replacement contains its
 pattern

---
 src/ppocr/ocr2/replacement.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ppocr/ocr2/replacement.hpp b/src/ppocr/ocr2/replacement.hpp
index 928beac..b7ece77 100644
--- a/src/ppocr/ocr2/replacement.hpp
+++ b/src/ppocr/ocr2/replacement.hpp
@@ -41,6 +41,7 @@ inline void replace_words(std::string & result, Replacements const & replacement
         std::string::size_type pos = 0;
         while ((pos = result.find(rep.pattern, pos)) != std::string::npos) {
             result.replace(pos, rep.pattern.size(), rep.replace);
+            pos += rep.replace.size();
         }
     }
 }
-- 
2.43.0


From 7e680d3547e1be4f531a07241da0507f114e5398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 24/46] fix: rule without replacement took the one of another
 line

---
 src/ppocr/ocr2/replacement.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/ppocr/ocr2/replacement.cpp b/src/ppocr/ocr2/replacement.cpp
index 56c7298..cf51af2 100644
--- a/src/ppocr/ocr2/replacement.cpp
+++ b/src/ppocr/ocr2/replacement.cpp
@@ -23,20 +23,17 @@
 std::istream& ppocr::ocr2::operator>>(std::istream& is, Replacements& replacements) {
     using char_traits = std::char_traits<char>;
     Replacement rep;
-    while (is) {
-        is >> rep.pattern;
+    while (is >> rep.pattern) {
+        rep.replace.clear();
         auto c = is.rdbuf()->sgetc();
-        if (!char_traits::eq_int_type(c, char_traits::eof())) {
-            if (!char_traits::eq(char_traits::to_char_type(c), '\n')) {
-                is >> rep.replace;
-            }
-            else {
-                rep.replace.clear();
-            }
+        while (c == ' ' || c == '\t' || c == '\r') {
+            c = is.rdbuf()->snextc();
         }
-        if (is) {
-            replacements.push_back(rep);
+        if (!char_traits::eq_int_type(c, char_traits::eof())
+         && !char_traits::eq(char_traits::to_char_type(c), '\n')) {
+            is >> rep.replace;
         }
+        replacements.push_back(rep);
     }
     return is;
 }
-- 
2.43.0


From d004cef0409b941bc12f274b8af4447de3a4c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 25/46] fix: unrecognized rate was not a rate

---
 main/ocr2_extract_text.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/ocr2_extract_text.cpp b/main/ocr2_extract_text.cpp
index f46b225..4a639dc 100644
--- a/main/ocr2_extract_text.cpp
+++ b/main/ocr2_extract_text.cpp
@@ -191,7 +191,7 @@ int main(int ac, char **av)
       << " ## result: " << result
       << "\nunrecognized_count: " << unrecognized_count
       << "\ncount: " << ambiguous.size()
-      << "\nunrecognized_rate: " << double(unrecognized_count * 100) / (ambiguous.empty()? ambiguous.size() :1)
+      << "\nunrecognized_rate: " << double(unrecognized_count * 100) / (ambiguous.empty() ? 1 : ambiguous.size())
       << std::endl
     ;
 }
-- 
2.43.0


From 3644623fbdb9d93ef7607917c376980cf555ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:02 +0000
Subject: [PATCH 26/46] fix: truncated feature table was used out of bounds

---
 src/ppocr/defined_loader.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/defined_loader.hpp b/src/ppocr/defined_loader.hpp
index e3d6f15..84c7568 100644
--- a/src/ppocr/defined_loader.hpp
+++ b/src/ppocr/defined_loader.hpp
@@ -44,6 +44,7 @@
 
 #include <ostream>
 #include <istream>
+#include <stdexcept>
 
 namespace ppocr {
 
@@ -198,9 +199,10 @@ namespace details_ {
         std::size_t data_sz_;
 
         void operator()() const {
-            if (this->is_) {
-                std::istream::sentry(this->is_);
+            if (!this->is_) {
+                throw std::runtime_error("bad format");
             }
+            std::istream::sentry(this->is_);
         }
 
         template<class Strategy, class... Strategies>
-- 
2.43.0


From 9c6540b08d957760089e9bc0f4f899aedfaed46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 27/46] fix: features of large bitmaps overflowed

---
 src/ppocr/strategies/density.cpp              |  6 ++++--
 src/ppocr/strategies/dvdirection.cpp          |  2 +-
 src/ppocr/strategies/dvdirection2.cpp         |  2 +-
 src/ppocr/strategies/dvgravity.cpp            |  2 +-
 src/ppocr/strategies/dvgravity2.cpp           |  2 +-
 src/ppocr/strategies/dzdensity.cpp            | 21 ++++++++++---------
 src/ppocr/strategies/hdirection.cpp           |  2 +-
 src/ppocr/strategies/hdirection2.cpp          |  4 ++--
 src/ppocr/strategies/hgravity.cpp             |  2 +-
 src/ppocr/strategies/hgravity2.cpp            |  4 ++--
 .../utils/diagonal_vertical_direction.hpp     |  4 ++--
 .../utils/diagonal_vertical_gravity.hpp       | 10 ++++-----
 .../strategies/utils/horizontal_gravity.hpp   |  4 ++--
 src/ppocr/strategies/utils/top_bottom.hpp     |  4 +++-
 14 files changed, 37 insertions(+), 32 deletions(-)

diff --git a/src/ppocr/strategies/density.cpp b/src/ppocr/strategies/density.cpp
index eb5de9d..f00c48c 100644
--- a/src/ppocr/strategies/density.cpp
+++ b/src/ppocr/strategies/density.cpp
@@ -20,11 +20,13 @@
 
 #include "ppocr/image/image.hpp"
 
+#include <cstdint>
+
 namespace ppocr { namespace strategies {
 
 density::value_type density::load(const Image& img, const Image& /*img90*/, ctx_type& /*ctx*/)
 {
-    unsigned count = 0;
+    std::uint64_t count = 0;
     auto first = img.data();
     auto last = img.data_end();
     for (; first != last; ++first) {
@@ -32,7 +34,7 @@ density::value_type density::load(const Image& img, const Image& /*img90*/, ctx_
             ++count;
         }
     }
-    return count * 100 / img.area();
+    return value_type(count * 100 / img.area());
 }
 
 } }
diff --git a/src/ppocr/strategies/dvdirection.cpp b/src/ppocr/strategies/dvdirection.cpp
index 601624e..9385bbb 100644
--- a/src/ppocr/strategies/dvdirection.cpp
+++ b/src/ppocr/strategies/dvdirection.cpp
@@ -26,7 +26,7 @@ dvdirection::value_type dvdirection::load(Image const & img, Image const & /*img
 {
     auto const top_bottom = ctx.compute(img);
     auto const sum = top_bottom.top + top_bottom.bottom;
-    return sum ? (sum + top_bottom.top - top_bottom.bottom) * 100 / sum : 100;
+    return sum ? value_type((sum + top_bottom.top - top_bottom.bottom) * 100 / sum) : 100;
 }
 
 } }
diff --git a/src/ppocr/strategies/dvdirection2.cpp b/src/ppocr/strategies/dvdirection2.cpp
index 121781d..bfc8028 100644
--- a/src/ppocr/strategies/dvdirection2.cpp
+++ b/src/ppocr/strategies/dvdirection2.cpp
@@ -31,7 +31,7 @@ dvdirection2::value_type dvdirection2::load(const Image& img, const Image&, ctx_
     auto const top_bottom = ctx.compute(img);
     auto const sum = top_bottom.top + top_bottom.bottom;
     auto const ret = (sum + top_bottom.top - top_bottom.bottom) * 100 / area;
-    return ret;
+    return value_type(ret);
 }
 
 } }
diff --git a/src/ppocr/strategies/dvgravity.cpp b/src/ppocr/strategies/dvgravity.cpp
index 8d71880..8ba6b74 100644
--- a/src/ppocr/strategies/dvgravity.cpp
+++ b/src/ppocr/strategies/dvgravity.cpp
@@ -26,7 +26,7 @@ dvgravity::value_type dvgravity::load(Image const & img, Image const & /*img90*/
 {
     auto const top_bottom = ctx.compute(img);
     auto const sum = top_bottom.top + top_bottom.bottom;
-    return sum ? (sum + top_bottom.top - top_bottom.bottom) * 100 / sum : 100;
+    return sum ? value_type((sum + top_bottom.top - top_bottom.bottom) * 100 / sum) : 100;
 }
 
 } }
diff --git a/src/ppocr/strategies/dvgravity2.cpp b/src/ppocr/strategies/dvgravity2.cpp
index ccc9f5d..1e655cb 100644
--- a/src/ppocr/strategies/dvgravity2.cpp
+++ b/src/ppocr/strategies/dvgravity2.cpp
@@ -31,7 +31,7 @@ dvgravity2::value_type dvgravity2::load(Image const & img, Image const & /*img90
     auto const top_bottom = ctx.compute(img);
     auto const sum = top_bottom.top + top_bottom.bottom;
     auto const ret = (sum + top_bottom.top - top_bottom.bottom) * 100 / area;
-    return ret;
+    return value_type(ret);
 }
 
 } }
diff --git a/src/ppocr/strategies/dzdensity.cpp b/src/ppocr/strategies/dzdensity.cpp
index fda4cef..a5edbe8 100644
--- a/src/ppocr/strategies/dzdensity.cpp
+++ b/src/ppocr/strategies/dzdensity.cpp
@@ -21,25 +21,26 @@
 #include "ppocr/image/image.hpp"
 
 #include <algorithm>
+#include <cstdint>
 
 namespace ppocr { namespace strategies {
 
 namespace {
     template<class Fn>
     void dzdensity_load_impl(Image const & img, Fn f) {
-        int const area = int(img.area());
-        int const h3 = int(img.height() * 3);
-        int const w3 = int(img.width() * 3);
-        int yp = 0;
+        std::int64_t const area = img.area();
+        std::int64_t const h3 = std::int64_t(img.height()) * 3;
+        std::int64_t const w3 = std::int64_t(img.width()) * 3;
+        std::int64_t yp = 0;
         for (unsigned y = 0; y < img.height(); ++y, yp += w3) {
             //double const d = double(img.width())/3.;
             //double const xs = std::ceil(double(y+1)*w/h-d);
             //double const xe = std::floor(double(y )*w/h+d);
-            int const xs_ = (w3 + yp - area + h3-1) / h3;
-            int const xe_ = (     yp + area       ) / h3;
+            auto const xs_ = (w3 + yp - area + h3-1) / h3;
+            auto const xe_ = (     yp + area       ) / h3;
 
-            int const xs = std::max(0, xs_);
-            int const xe = std::min(int(img.width()), xe_);
+            int const xs = int(std::max(std::int64_t(0), xs_));
+            int const xe = int(std::min(std::int64_t(img.width()), xe_));
 
             f(xs, xe);
         }
@@ -52,8 +53,8 @@ dzdensity::value_type dzdensity::load(Image const & img, Image const & /*img90*/
         return 0;
     }
 
-    int res = 0;
-    int area = 0;
+    std::int64_t res = 0;
+    std::int64_t area = 0;
     auto data = img.data();
     dzdensity_load_impl(img, [&](int xs, int xe) {
         xs = std::max(0, xs);
diff --git a/src/ppocr/strategies/hdirection.cpp b/src/ppocr/strategies/hdirection.cpp
index b776e76..7985d00 100644
--- a/src/ppocr/strategies/hdirection.cpp
+++ b/src/ppocr/strategies/hdirection.cpp
@@ -26,7 +26,7 @@ hdirection::value_type hdirection::load(Image const & img, Image const & /*img90
 {
     auto const top_bottom = ctx.compute(img);
     auto const sum = top_bottom.top + top_bottom.bottom;
-    return sum ? (sum + top_bottom.top - top_bottom.bottom) * 100 / sum : 100;
+    return sum ? value_type((sum + top_bottom.top - top_bottom.bottom) * 100 / sum) : 100;
 }
 
 } }
diff --git a/src/ppocr/strategies/hdirection2.cpp b/src/ppocr/strategies/hdirection2.cpp
index 47aabb2..eb358c2 100644
--- a/src/ppocr/strategies/hdirection2.cpp
+++ b/src/ppocr/strategies/hdirection2.cpp
@@ -25,14 +25,14 @@ namespace ppocr { namespace strategies {
 
 hdirection2::value_type hdirection2::load(Image const & img, Image const & /*img90*/, ctx_type& ctx)
 {
-    auto const hby2 = img.height() / 2;
+    std::uint64_t const hby2 = img.height() / 2;
     if (!hby2) {
         return 50;
     }
     auto const area = hby2 * img.width();
     auto const top_bottom = ctx.compute(img);
     auto const ret = (area + top_bottom.top - top_bottom.bottom) * 100 / (area * 2);
-    return ret;
+    return value_type(ret);
 }
 
 } }
diff --git a/src/ppocr/strategies/hgravity.cpp b/src/ppocr/strategies/hgravity.cpp
index 2798ec2..41d545d 100644
--- a/src/ppocr/strategies/hgravity.cpp
+++ b/src/ppocr/strategies/hgravity.cpp
@@ -26,7 +26,7 @@ hgravity::value_type hgravity::load(Image const & img, Image const & /*img90*/,
 {
     auto const top_bottom = ctx.compute(img);
     auto const sum = top_bottom.top + top_bottom.bottom;
-    return sum ? (sum + top_bottom.top - top_bottom.bottom) * 100 / sum : 100;
+    return sum ? value_type((sum + top_bottom.top - top_bottom.bottom) * 100 / sum) : 100;
 }
 
 } }
diff --git a/src/ppocr/strategies/hgravity2.cpp b/src/ppocr/strategies/hgravity2.cpp
index 68947cd..cb21e44 100644
--- a/src/ppocr/strategies/hgravity2.cpp
+++ b/src/ppocr/strategies/hgravity2.cpp
@@ -25,14 +25,14 @@ namespace ppocr { namespace strategies {
 
 hgravity2::value_type hgravity2::load(Image const & img, Image const & /*img90*/, ctx_type& ctx)
 {
-    auto const hby2 = img.height() / 2;
+    std::uint64_t const hby2 = img.height() / 2;
     if (!hby2) {
         return 50;
     }
     auto const area = ((hby2 * (hby2 + 1)) / 2) * img.width();
     auto const top_bottom = ctx.compute(img);
     auto const ret = (area + top_bottom.top - top_bottom.bottom) * 100 / (area * 2);
-    return ret;
+    return value_type(ret);
 }
 
 } }
diff --git a/src/ppocr/strategies/utils/diagonal_vertical_direction.hpp b/src/ppocr/strategies/utils/diagonal_vertical_direction.hpp
index 342d750..0802bab 100644
--- a/src/ppocr/strategies/utils/diagonal_vertical_direction.hpp
+++ b/src/ppocr/strategies/utils/diagonal_vertical_direction.hpp
@@ -60,13 +60,13 @@ namespace details_ {
     }
 }
 
-inline unsigned diagonal_vertical_direction_area(const Image& img)
+inline std::uint64_t diagonal_vertical_direction_area(const Image& img)
 {
     Bounds const bnd(img.width(), img.height() / 2);
     auto p = img.data();
     auto ep = img.data({0, bnd.height()});
 
-    unsigned area = 0;
+    std::uint64_t area = 0;
     unsigned ih = 0;
     unsigned const wdiv2 = bnd.width()/2;
     for (; p != ep; p += bnd.width(), ++ih) {
diff --git a/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp b/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp
index e7ab70d..9639692 100644
--- a/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp
+++ b/src/ppocr/strategies/utils/diagonal_vertical_gravity.hpp
@@ -25,10 +25,10 @@
 namespace ppocr { namespace strategies { namespace utils {
 
 namespace details_ {
-    inline unsigned count_diagonal_vertical_gravity(
+    inline std::uint64_t count_diagonal_vertical_gravity(
         Bounds const & bnd, Pixel const * p, Pixel const * ep, bool is_top
     ) {
-        unsigned g = 0;
+        std::uint64_t g = 0;
         unsigned coef = is_top ? bnd.height() : 1;
         unsigned ih = 0;
         unsigned const wdiv2 = bnd.width()/2;
@@ -47,18 +47,18 @@ namespace details_ {
     }
 }
 
-inline unsigned diagonal_vertical_gravity_area(const Image& img)
+inline std::uint64_t diagonal_vertical_gravity_area(const Image& img)
 {
     Bounds const bnd(img.width(), img.height() / 2);
     auto p = img.data();
     auto ep = img.data({0, bnd.height()});
 
-    unsigned area = 0;
+    std::uint64_t area = 0;
     unsigned ih = 0;
     unsigned const wdiv2 = bnd.width()/2;
     for (; p != ep; p += bnd.width(), ++ih) {
         unsigned x = wdiv2 - bnd.width() / (bnd.height() - ih) / 2;
-        area += (bnd.width() - x*2) * (ih+1);
+        area += std::uint64_t(bnd.width() - x*2) * (ih+1);
     }
     return area * 2;
 }
diff --git a/src/ppocr/strategies/utils/horizontal_gravity.hpp b/src/ppocr/strategies/utils/horizontal_gravity.hpp
index 5652f62..be8fbc6 100644
--- a/src/ppocr/strategies/utils/horizontal_gravity.hpp
+++ b/src/ppocr/strategies/utils/horizontal_gravity.hpp
@@ -29,9 +29,9 @@ namespace ppocr { namespace strategies { namespace utils {
  * Multiply each pixel with the distance [\a bnd.height(), y]
  */
 inline
-unsigned horizontal_box_gravity(Bounds const & bnd, Pixel const * p, Pixel const * ep, bool is_top)
+std::uint64_t horizontal_box_gravity(Bounds const & bnd, Pixel const * p, Pixel const * ep, bool is_top)
 {
-    unsigned /*long*/ g = 0;
+    std::uint64_t g = 0;
     unsigned h = is_top ? bnd.height() : 1;
     while (p != ep) {
         for (auto epl = p + bnd.width(); p != epl; ++p) {
diff --git a/src/ppocr/strategies/utils/top_bottom.hpp b/src/ppocr/strategies/utils/top_bottom.hpp
index b673532..6bf382a 100644
--- a/src/ppocr/strategies/utils/top_bottom.hpp
+++ b/src/ppocr/strategies/utils/top_bottom.hpp
@@ -19,9 +19,11 @@
 #ifndef PPOCR_STRATEGIES_UTILS_TOP_BOTTOM_HPP
 #define PPOCR_STRATEGIES_UTILS_TOP_BOTTOM_HPP
 
+#include <cstdint>
+
 namespace ppocr { namespace strategies { namespace utils {
 
-struct TopBottom { unsigned top, bottom; };
+struct TopBottom { std::uint64_t top, bottom; };
 
 } } }
 
-- 
2.43.0


From 761b018f89ecc40c3f2ac161eb7d64c4976e3123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:32 +0000
Subject: [PATCH 28/46] fix: characters with a single candidate word did not
 elect the mean line

---
 src/ppocr/ocr2/filter_by_lines.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ppocr/ocr2/filter_by_lines.cpp b/src/ppocr/ocr2/filter_by_lines.cpp
index 9dec663..6d09a20 100644
--- a/src/ppocr/ocr2/filter_by_lines.cpp
+++ b/src/ppocr/ocr2/filter_by_lines.cpp
@@ -68,6 +68,9 @@ namespace {
 
             vec.erase(out, vec.end());
         }
+        else if (!vec.empty()) {
+            ++count;
+        }
 
         return count;
     }
-- 
2.43.0


From eaf4cf547244dafea9baf65a7def89f8dd804f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:38 +0000
Subject: [PATCH 29/46] fix: a glyph without label shifted the reading of the
 following glyphs

The end of the line of the number of labels was only consumed when at least
one label followed.
---
 src/ppocr/ocr2/glyphs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index b743723..d4defd3 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -37,7 +37,7 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
 
     while (is.ignore(limit_max, '\n')) {
         unsigned n;
-        if (!(is >> n)) {
+        if (!(is >> n).ignore(limit_max, '\n')) {
             break;
         }
         Views views;
-- 
2.43.0


From 6de194585548fc92da5da684251efca1da6d8168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:02 +0000
Subject: [PATCH 30/46] fix: filters of a character no longer change the other
 occurrences of its bitmap

All the occurrences of a bitmap shared one candidate list, so that the position of
one of them removed candidates of the others, which are elsewhere on the line.
---
 main/ocr2_extract_text.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/main/ocr2_extract_text.cpp b/main/ocr2_extract_text.cpp
index 4a639dc..bc419ab 100644
--- a/main/ocr2_extract_text.cpp
+++ b/main/ocr2_extract_text.cpp
@@ -36,6 +36,7 @@
 
 #include <iostream>
 #include <chrono>
+#include <deque>
 
 using namespace ppocr;
 
@@ -100,6 +101,8 @@ int main(int ac, char **av)
 
     ocr2::image_cache_type_t images_cache;
 
+    // candidates of each character: the filters depend on the position
+    std::deque<ocr2::view_ref_list> candidates;
     ocr2::ambiguous_t ambiguous;
 
     std::cout << " ## go" << std::endl;
@@ -130,7 +133,7 @@ int main(int ac, char **av)
 
         auto it = images_cache.find(img_word);
         if (it != images_cache.end()) {
-            ambiguous.emplace_back(it->second);
+            candidates.push_back(it->second);
         }
         else {
             std::cout << img_word;
@@ -154,12 +157,13 @@ int main(int ac, char **av)
                 img_word.clone(),
                 std::move(cache_element)
             ).first;
-            ambiguous.emplace_back(it->second);
+            candidates.push_back(it->second);
             for (ocr2::View const & view : it->second) {
                 std::cout << glyphs.get_word(view) << " ";
             }
             std::cout << "\n";
         }
+        ambiguous.emplace_back(candidates.back());
 
         boxes.push_back(cbox);
 
-- 
2.43.0


From 42aad9d46f64f24f88460314c7032b2e33d6befb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:35 +0000
Subject: [PATCH 31/46] fix: say which luminance is not accepted instead of
 leaving silently

---
 main/show_glyphs.cpp  | 1 +
 main/write_glyphs.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/main/show_glyphs.cpp b/main/show_glyphs.cpp
index 9dcedbb..4a75edd 100644
--- a/main/show_glyphs.cpp
+++ b/main/show_glyphs.cpp
@@ -52,6 +52,7 @@ int main(int ac, char **av)
             char * p;
             luminance = std::strtoul(av[2], &p, 10);
             if (p == av[2] || *p != '\0' || errno) {
+                std::cerr << av[0] << ": bad luminance: " << av[2] << '\n';
                 return 2;
             }
             i_ac += 2;
diff --git a/main/write_glyphs.cpp b/main/write_glyphs.cpp
index 363d387..e7f0cba 100644
--- a/main/write_glyphs.cpp
+++ b/main/write_glyphs.cpp
@@ -104,6 +104,7 @@ int main(int ac, char **av)
             char * p;
             luminance = std::strtoul(av[2], &p, 10);
             if (p == av[2] || *p != '\0' || errno) {
+                std::cerr << av[0] << ": bad luminance: " << av[2] << '\n';
                 return 2;
             }
             i_ac += 2;
-- 
2.43.0


From 867ec8f3763f57be2bf63ef27ede39986a119183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:30 +0000
Subject: [PATCH 32/46] fix: tools reported success although their output could
 not be written

---
 main/make_trie_dictionary.cpp | 5 +++++
 main/normalize_glyphs.cpp     | 5 +++++
 main/ocr2_extract_text.cpp    | 5 +++++
 main/show_glyphs.cpp          | 5 +++++
 main/write_datas.cpp          | 5 +++++
 main/write_glyphs.cpp         | 5 +++++
 6 files changed, 30 insertions(+)

diff --git a/main/make_trie_dictionary.cpp b/main/make_trie_dictionary.cpp
index 4efe5d0..606a5c3 100644
--- a/main/make_trie_dictionary.cpp
+++ b/main/make_trie_dictionary.cpp
@@ -50,4 +50,9 @@ int main(int ac, char ** av) {
     }
 
     std::cout << spell::Dictionary(std::move(words));
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
diff --git a/main/normalize_glyphs.cpp b/main/normalize_glyphs.cpp
index 517b261..dcbd8d6 100644
--- a/main/normalize_glyphs.cpp
+++ b/main/normalize_glyphs.cpp
@@ -91,4 +91,9 @@ int main(int ac, char **av)
 
     std::cerr << "Glyphs: " << glyphs.size() << std::endl;
     std::cout << glyphs;
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
diff --git a/main/ocr2_extract_text.cpp b/main/ocr2_extract_text.cpp
index bc419ab..d91a6b2 100644
--- a/main/ocr2_extract_text.cpp
+++ b/main/ocr2_extract_text.cpp
@@ -198,4 +198,9 @@ int main(int ac, char **av)
       << "\nunrecognized_rate: " << double(unrecognized_count * 100) / (ambiguous.empty() ? 1 : ambiguous.size())
       << std::endl
     ;
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
diff --git a/main/show_glyphs.cpp b/main/show_glyphs.cpp
index 4a75edd..88990ce 100644
--- a/main/show_glyphs.cpp
+++ b/main/show_glyphs.cpp
@@ -66,4 +66,9 @@ int main(int ac, char **av)
     for (++i_ac; i_ac < ac; ++i_ac) {
         load_file(av[i_ac], luminance);
     }
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
diff --git a/main/write_datas.cpp b/main/write_datas.cpp
index de12784..0d1e2a2 100644
--- a/main/write_datas.cpp
+++ b/main/write_datas.cpp
@@ -63,4 +63,9 @@ int main(int ac, char **av)
     }
 
     std::cout << datas;
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
diff --git a/main/write_glyphs.cpp b/main/write_glyphs.cpp
index e7f0cba..cb14722 100644
--- a/main/write_glyphs.cpp
+++ b/main/write_glyphs.cpp
@@ -118,4 +118,9 @@ int main(int ac, char **av)
     for (++i_ac; i_ac < ac; i_ac += 3) {
         load_file(av[i_ac], av[i_ac+1], av[i_ac+2], luminance);
     }
+
+    if (!std::cout.flush()) {
+        std::cerr << av[0] << ": write error\n";
+        return 6;
+    }
 }
-- 
2.43.0


From 3665b81009346142a3b668a35d2a88951b639d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:39 +0000
Subject: [PATCH 33/46] fix: the dictionary builder ignored read errors

---
 main/make_trie_dictionary.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main/make_trie_dictionary.cpp b/main/make_trie_dictionary.cpp
index 606a5c3..a0ede8d 100644
--- a/main/make_trie_dictionary.cpp
+++ b/main/make_trie_dictionary.cpp
@@ -47,6 +47,11 @@ int main(int ac, char ** av) {
         while (std::getline(file, s)) {
             words.push_back(s);
         }
+
+        if (!file.eof()) {
+            std::cerr << av[i] << ": read error\n";
+            return 5;
+        }
     }
 
     std::cout << spell::Dictionary(std::move(words));
-- 
2.43.0


From af4fb96563c6b91384ec0105dd17882c150d01ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:39 +0000
Subject: [PATCH 34/46] fix: a read error after the last label of a text was
 ignored

---
 main/write_glyphs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main/write_glyphs.cpp b/main/write_glyphs.cpp
index cb14722..349c1eb 100644
--- a/main/write_glyphs.cpp
+++ b/main/write_glyphs.cpp
@@ -90,6 +90,10 @@ static void load_file(
     if (file >> s) {
         throw_error(imagefilename, textfilename, fontname, "Box character not found");
     }
+
+    if (!file.eof()) {
+        throw_error(imagefilename, textfilename, fontname, "read error");
+    }
 }
 
 }
-- 
2.43.0


From 47f1634f490ffac2b70cb5384ac5e6391c746f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:55 +0000
Subject: [PATCH 35/46] fix: the candidate lists were used without checking
 that their memory was allocated

---
 src/ppocr/ocr2/probabilities.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/probabilities.hpp b/src/ppocr/ocr2/probabilities.hpp
index 5ecbb75..80351f6 100644
--- a/src/ppocr/ocr2/probabilities.hpp
+++ b/src/ppocr/ocr2/probabilities.hpp
@@ -20,6 +20,7 @@
 #define PPOCR_SRC_OCR2_PROBABILITIES_HPP
 
 #include <cstdlib>
+#include <new>
 #include <utility>
 
 namespace ppocr { namespace ocr2 {
@@ -39,7 +40,11 @@ struct Probabilities
     : data(static_cast<Probability*>(
         aligned_alloc(alignof(Probability), sz * sizeof(Probability))))
     , current(data)
-    {}
+    {
+        if (!data && sz) {
+            throw std::bad_alloc();
+        }
+    }
 
     Probabilities(Probabilities const &) = delete;
     Probabilities& operator=(Probabilities const &) = delete;
-- 
2.43.0


From c28f72da3de86816d0448a9278dff2b25d2039fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:44 +0000
Subject: [PATCH 36/46] fix: a word took time exponential in its length when
 fonts repeat its candidate texts

---
 src/ppocr/spell/word_disambiguouser.hpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/spell/word_disambiguouser.hpp b/src/ppocr/spell/word_disambiguouser.hpp
index a958a48..7681c89 100644
--- a/src/ppocr/spell/word_disambiguouser.hpp
+++ b/src/ppocr/spell/word_disambiguouser.hpp
@@ -23,6 +23,7 @@
 #include "ppocr/utils/utf.hpp"
 
 #include <algorithm>
+#include <cstring>
 
 
 namespace ppocr { namespace spell {
@@ -46,8 +47,25 @@ struct WordDisambiguouser : Dictionary::Manipulator
 private:
     template<class FwRngStrIt>
     bool disambiguous_impl(trie_type::range rng, FwRngStrIt first, FwRngStrIt last, std::string & output) {
-        for (auto & s : *first) {
-            if (disambiguous_utf_char(rng, first, last, utf::UTF8Iterator(s.data()), output)) {
+        auto && texts = *first;
+        auto const end_texts = texts.end();
+        for (auto it = texts.begin(); it != end_texts; ++it) {
+            auto & s = *it;
+            // the same text leads to the same failure
+            if (!is_already_tried(texts.begin(), it, s.data())
+             && disambiguous_utf_char(rng, first, last, utf::UTF8Iterator(s.data()), output)
+            ) {
+                return true;
+            }
+        }
+        return false;
+    }
+
+    template<class It>
+    bool is_already_tried(It it, It const & last, char const * s) {
+        for (; it != last; ++it) {
+            auto & t = *it;
+            if (!std::strcmp(t.data(), s)) {
                 return true;
             }
         }
-- 
2.43.0


From 241a491d614bc2d274df725e3620525a9358f317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:06:57 +0000
Subject: [PATCH 37/46] fix: an empty flat_trie has no first element to take
 the address of

---
 src/ppocr/container/trie.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/container/trie.hpp b/src/ppocr/container/trie.hpp
index 012ceb1..40a62d3 100644
--- a/src/ppocr/container/trie.hpp
+++ b/src/ppocr/container/trie.hpp
@@ -249,8 +249,8 @@ public:
     range childrens() const
     {
         return {
-            &this->elems_[0],
-            &this->elems_[0] + (this->elems_.empty() ? 0u : this->elems_[0].relative_pos())
+            this->elems_.data(),
+            this->elems_.data() + (this->elems_.empty() ? 0u : this->elems_[0].relative_pos())
         };
     }
 
-- 
2.43.0


From 4272b0d0bd38ed0b773e59c2b1af2db46b783ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:22 +0000
Subject: [PATCH 38/46] fix: the distance between two positions of a pixel scan
 was a bool

---
 src/ppocr/image/image.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/image/image.hpp b/src/ppocr/image/image.hpp
index ba720cf..c650b07 100644
--- a/src/ppocr/image/image.hpp
+++ b/src/ppocr/image/image.hpp
@@ -124,7 +124,7 @@ struct HorizontalRange
 
         bool operator*() const { return r_.pixel_get_(data_); }
 
-        bool operator-(iterator const & other) const { return data_ - other.data_; }
+        difference_type operator-(iterator const & other) const { return data_ - other.data_; }
 
         iterator & operator++() { ++data_; return *this; }
 
-- 
2.43.0


From 4778279efa4029a97a3a15b2e0743ac07bb5c436 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:22 +0000
Subject: [PATCH 39/46] fix: integer_iterator: an iterator was not <= itself,
 differences of unsigned wrapped

---
 src/ppocr/utils/integer_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/utils/integer_iterator.hpp b/src/ppocr/utils/integer_iterator.hpp
index 57283ff..e7b7e5d 100644
--- a/src/ppocr/utils/integer_iterator.hpp
+++ b/src/ppocr/utils/integer_iterator.hpp
@@ -33,7 +33,7 @@ namespace ppocr
         value_type n;
         integer_iterator & operator++() { ++n; return *this; }
         reference operator*() const { return n; }
-        difference_type operator-(integer_iterator const & other) const { return this->n - other.n; }
+        difference_type operator-(integer_iterator const & other) const { return static_cast<difference_type>(this->n) - static_cast<difference_type>(other.n); }
 
         integer_iterator& operator+=(difference_type n) { this->n += n; return *this; }
         integer_iterator& operator-=(difference_type n) { this->n -= n; return *this; }
@@ -44,6 +44,6 @@ namespace ppocr
         bool operator==(integer_iterator const & other) const { return this->n == other.n; }
         bool operator!=(integer_iterator const & other) const { return this->n != other.n; }
         bool operator<(integer_iterator const & other) const { return this->n < other.n; }
-        bool operator<=(integer_iterator const & other) const { return this->n < other.n; }
+        bool operator<=(integer_iterator const & other) const { return this->n <= other.n; }
     };
 }
-- 
2.43.0


From dc012951ee961c659684bce166988961059604ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:22 +0000
Subject: [PATCH 40/46] fix: boxes of one size at other places compared equal

---
 src/ppocr/box_char/box.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/box_char/box.hpp b/src/ppocr/box_char/box.hpp
index 29bde30..5963532 100644
--- a/src/ppocr/box_char/box.hpp
+++ b/src/ppocr/box_char/box.hpp
@@ -56,7 +56,7 @@ struct Box
     explicit operator bool() const noexcept { return width() && height(); }
 
     bool operator == (Box const & other) const noexcept
-    { return this->bounds_ == other.bounds_; }
+    { return this->idx_ == other.idx_ && this->bounds_ == other.bounds_; }
     bool operator != (Box const & other) const noexcept
     { return !(*this == other); }
 
-- 
2.43.0


From ed514156f56052ea90960578b23fe63a552795d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:22 +0000
Subject: [PATCH 41/46] fix: the declared reader of boxes was missing

---
 src/ppocr/box_char/box.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/box_char/box.cpp b/src/ppocr/box_char/box.cpp
index b0cfc64..8e16743 100644
--- a/src/ppocr/box_char/box.cpp
+++ b/src/ppocr/box_char/box.cpp
@@ -19,7 +19,7 @@
 #include "ppocr/box_char/box.hpp"
 
 #include <ostream>
-// #include <istream>
+#include <istream>
 
 namespace ppocr {
 
@@ -27,4 +27,13 @@ std::ostream & operator<<(std::ostream & os, Box const & box) {
     return os << box.index() << ' ' << box.bounds();
 }
 
+std::istream & operator>>(std::istream & is, Box & box) {
+    Index idx;
+    Bounds bnd;
+    if (is >> idx >> bnd) {
+        box = Box(idx, bnd);
+    }
+    return is;
+}
+
 }
-- 
2.43.0


From 31ff35c400246d34c786a27684523c19417da4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:22 +0000
Subject: [PATCH 42/46] fix: an enumeration that could not be read got an
 indeterminate value

---
 src/ppocr/utils/enum_io.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/utils/enum_io.hpp b/src/ppocr/utils/enum_io.hpp
index 2302bf1..f6dbc90 100644
--- a/src/ppocr/utils/enum_io.hpp
+++ b/src/ppocr/utils/enum_io.hpp
@@ -34,8 +34,9 @@ template<class EnumT>
 inline std::istream & read_enum(std::istream & is, EnumT & e)
 {
     typename std::underlying_type<EnumT>::type i;
-    is >> i;
-    e = static_cast<EnumT>(i);
+    if (is >> i) {
+        e = static_cast<EnumT>(i);
+    }
     return is;
 }
 
-- 
2.43.0


From 284058db2c512a92679db7bcc38e36eb0c66e489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:02 +0000
Subject: [PATCH 43/46] fix: the upper bound of a range of values wrapped
 around

---
 src/ppocr/ocr2/data_indexes_ordered.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/data_indexes_ordered.hpp b/src/ppocr/ocr2/data_indexes_ordered.hpp
index ca633dc..45da0ff 100644
--- a/src/ppocr/ocr2/data_indexes_ordered.hpp
+++ b/src/ppocr/ocr2/data_indexes_ordered.hpp
@@ -45,7 +45,7 @@ struct DataIndexesOrdered
             data,
             this->indexes_ordered,
             x > d ? x-d : 0u,
-            x + d
+            d < ~0u - x ? x+d : ~0u
         );
     }
 
-- 
2.43.0


From 20e77797590c786d7a151f95007497066f256f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:00 +0000
Subject: [PATCH 44/46] fix: a label count in a glyph file reserved memory for
 labels that are not there

---
 src/ppocr/loader2/glyphs_loader.cpp | 8 ++++----
 src/ppocr/ocr2/glyphs.cpp           | 3 ++-
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ppocr/loader2/glyphs_loader.cpp b/src/ppocr/loader2/glyphs_loader.cpp
index 8db5621..ace4865 100644
--- a/src/ppocr/loader2/glyphs_loader.cpp
+++ b/src/ppocr/loader2/glyphs_loader.cpp
@@ -33,10 +33,10 @@ std::istream & operator>>(std::istream& is, Views & views) {
     if (!(is >> n)) {
         return is;
     }
-    unsigned i = 0;
-    views.resize(n);
-    while (i < n && (is >> views[i])) {
-        ++i;
+    views.clear();
+    View view;
+    while (views.size() < n && (is >> view)) {
+        views.push_back(std::move(view));
     }
     return is;
 }
diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index d4defd3..cbd0a11 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -41,10 +41,11 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
             break;
         }
         Views views;
-        views.resize(n);
 
         unsigned i = 0;
         while (i < n && (is >> word >> font).ignore(limit_max, '\n')) {
+            views.emplace_back();
+
             auto it_word = word_map.find(word);
             if (it_word == word_map.end()) {
                 it_word = word_map.emplace(std::move(word), word_map.size()).first;
-- 
2.43.0


From caa4bcb2ea1a0c59ce5261396a984d62eebd9cca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:00 +0000
Subject: [PATCH 45/46] fix: a count in a feature table reserved memory for
 values that are not there

---
 src/ppocr/defined_loader.hpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/ppocr/defined_loader.hpp b/src/ppocr/defined_loader.hpp
index 84c7568..6f6d0ae 100644
--- a/src/ppocr/defined_loader.hpp
+++ b/src/ppocr/defined_loader.hpp
@@ -209,11 +209,9 @@ namespace details_ {
         void operator()(loader2::Data<Strategy> & data, loader2::Data<Strategies> & ... other) const {
             typename loader2::Data<Strategy>::container_type cont;
 
-            if (this->is_) {
-                cont.resize(this->data_sz_);
-                for (auto & x : cont) {
-                    this->read(x);
-                }
+            while (this->is_ && cont.size() < this->data_sz_) {
+                cont.emplace_back();
+                this->read(cont.back());
             }
 
             data = loader2::Data<Strategy>(std::move(cont));
@@ -231,9 +229,9 @@ namespace details_ {
         void read(std::vector<T> & cont) const {
             std::size_t sz;
             if (this->is_ >> sz) {
-                cont.resize(sz);
-                for (auto & x : cont) {
-                    this->is_ >> x;
+                while (this->is_ && cont.size() < sz) {
+                    cont.emplace_back();
+                    this->is_ >> cont.back();
                 }
             }
         }
-- 
2.43.0


From e7c223b80f5d619dff1b6e432ebb69be76f2b274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:25:00 +0000
Subject: [PATCH 46/46] fix: write_datas skipped labels beyond the end of the
 file

---
 main/write_datas.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/main/write_datas.cpp b/main/write_datas.cpp
index 0d1e2a2..768624c 100644
--- a/main/write_datas.cpp
+++ b/main/write_datas.cpp
@@ -49,8 +49,8 @@ int main(int ac, char **av)
         unsigned n;
         while (loader2::read_img(file, img) >> n) {
             file.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
-            while (n--) {
-                file.ignore(std::numeric_limits<std::streamsize>::max(), '\n');
+            while (n && file.ignore(std::numeric_limits<std::streamsize>::max(), '\n')) {
+                --n;
             }
             datas.load(img);
         }
-- 
2.43.0

