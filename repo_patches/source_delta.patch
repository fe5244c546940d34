From 662954aa662339e02aa32246f03a0a465a59ef18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:49 +0000
Subject: [PATCH 01/29] fix: image_from_file: do not decode the unread tail of
 a file shorter than its stat size

---
 src/ppocr/image/image_from_file.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index c4bdf64..586174d 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -94,17 +94,16 @@ namespace
         std::size_t remaining = buf.len;
         auto* p = buf.data;
         while (ssize_t res = read(file.fd, p, remaining)) {
-            if (res <= 0) {
-                if (res == 0) {
-                    buf.data -= remaining;
-                    return 0;
-                }
+            if (res < 0) {
                 throw_error(filename);
             }
             remaining -= static_cast<std::size_t>(res);
             p += res;
         }
 
+        // the file may be shorter than announced by fstat
+        buf.len -= remaining;
+
         return buf;
     }
 
-- 
2.43.0


From ee461634979717121eee73329812c716fa074e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:49 +0000
Subject: [PATCH 02/29] fix: image_from_file: packed bitmap length check
 overflowed and accepted too short data

---
 src/ppocr/image/image_from_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index 586174d..7b1cf45 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -238,7 +238,7 @@ Image image_from_file(const char * filename, unsigned luminance)
     }
     // binary data (pbm)
     else if (header.type == '4') {
-        if (static_cast<std::size_t>(end - p) != (header.width + 7) / 8 * header.height) {
+        if (static_cast<std::size_t>(end - p) != (std::size_t(header.width) + 7) / 8 * header.height) {
             throw std::runtime_error(invalid_data_len);
         }
 
-- 
2.43.0


From 8f66b041f13819bf0d7cbeec4ddcb47cf98d22d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:49 +0000
Subject: [PATCH 03/29] fix: image_from_file: accept complete ascii images and
 reject truncated ones

---
 src/ppocr/image/image_from_file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/image/image_from_file.cpp b/src/ppocr/image/image_from_file.cpp
index 7b1cf45..9474688 100644
--- a/src/ppocr/image/image_from_file.cpp
+++ b/src/ppocr/image/image_from_file.cpp
@@ -265,12 +265,14 @@ Image image_from_file(const char * filename, unsigned luminance)
             else if (*p == '0') {
                 *output++ = '-';
                 if (++compunt_counter == img_size) {
+                    ++p;
                     break;
                 }
             }
             else if (*p == '1') {
                 *output++ = 'x';
                 if (++compunt_counter == img_size) {
+                    ++p;
                     break;
                 }
             }
@@ -286,7 +288,7 @@ Image image_from_file(const char * filename, unsigned luminance)
         for (; p < end && (*p == ' ' || *p == '\n'); ++p) {
         }
 
-        if (p != end) {
+        if (p != end || compunt_counter != img_size) {
             throw std::runtime_error(invalid_data_len);
         }
     }
-- 
2.43.0


From d012aea1e6543ddcd1d2cad68c01093d2de9b0c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:31 +0000
Subject: [PATCH 04/29] fix: ocr2 glyph table: reserve room for the terminator
 of every word

---
 src/ppocr/ocr2/glyphs.cpp | 4 ++--
 src/ppocr/ocr2/glyphs.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index 68fba9d..53cf62b 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -68,7 +68,7 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
         std::vector<unsigned> reindex(word_map.size());
         for (auto & p : word_map) {
             reindex[p.second] = buf_word_sz;
-            buf_word_sz += (p.first.size() + sizeof(unsigned) - 1) / sizeof(unsigned) + 1;
+            buf_word_sz += p.first.size() / sizeof(unsigned) + 2;
         }
         buf_word = std::unique_ptr<unsigned[]>(new unsigned[buf_word_sz]);
         for (auto & views : glyphs) {
@@ -84,7 +84,7 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
             ++buf;
             std::copy(p.first.begin(), p.first.end(), reinterpret_cast<char*>(buf));
             reinterpret_cast<char*>(buf)[p.first.size()] = 0;
-            buf += (p.first.size() + sizeof(unsigned) - 1) / sizeof(unsigned);
+            buf += p.first.size() / sizeof(unsigned) + 1;
         }
     }
 
diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index c2e7149..295cf3a 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -74,7 +74,7 @@ struct Glyphs : std::vector<Views> {
                 }
                 break;
             }
-            i += (this->get_word_(i).size() + sizeof(unsigned) * 2 - 1) / sizeof(unsigned);
+            i += this->get_word_(i).size() / sizeof(unsigned) + 2;
         }
         return no_index;
     }
-- 
2.43.0


From b915be265df4f7953f7e8f55fc1a29284bc27cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:31 +0000
Subject: [PATCH 05/29] fix: ocr2 glyph table: word lookup must compare whole
 words and stay inside the stored word

---
 src/ppocr/ocr2/glyphs.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/glyphs.hpp b/src/ppocr/ocr2/glyphs.hpp
index 295cf3a..a85a5f4 100644
--- a/src/ppocr/ocr2/glyphs.hpp
+++ b/src/ppocr/ocr2/glyphs.hpp
@@ -67,7 +67,7 @@ struct Glyphs : std::vector<Views> {
     unsigned word_index_of(std::string_view s) const {
         unsigned i = 0;
         while (i < this->buf_word_sz) {
-            auto r = s.compare(0, s.size(), this->get_word_(i).data(), s.size());
+            auto r = s.compare({this->get_word_(i).data(), this->get_word_(i).size()});
             if (r <= 0) {
                 if (r == 0) {
                     return i;
-- 
2.43.0


From dbf662f6faa5d550de8e71961121a932bf922140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:31 +0000
Subject: [PATCH 06/29] fix: ocr2 glyph table: a truncated view list is an
 input error, not zeroed views

---
 src/ppocr/ocr2/glyphs.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index 53cf62b..6044fa8 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -59,6 +59,11 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
             ++i;
         }
 
+        if (i != n) {
+            is.setstate(std::ios::failbit);
+            views.resize(i);
+        }
+
         glyphs.push_back(std::move(views));
     }
 
-- 
2.43.0


From 64dfc06d7079cc4251b980c65eb007fe412aa303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:31 +0000
Subject: [PATCH 07/29] fix: read_img: reject bounds whose pixel count
 overflows

---
 src/ppocr/loader2/image_io.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ppocr/loader2/image_io.cpp b/src/ppocr/loader2/image_io.cpp
index 309d962..4ffca7f 100644
--- a/src/ppocr/loader2/image_io.cpp
+++ b/src/ppocr/loader2/image_io.cpp
@@ -27,6 +27,10 @@ namespace ppocr { namespace loader2 {
 std::istream & read_img(std::istream & is, Image & img) {
     Bounds bnd;
     if (is >> bnd) {
+        if (bnd.height() && bnd.width() > ~0u / bnd.height()) {
+            is.setstate(std::ios::failbit);
+            return is;
+        }
         std::unique_ptr<Pixel[]> p(new Pixel[bnd.area()]);
         is.rdbuf()->snextc();
         is.read(p.get(), bnd.area());
-- 
2.43.0


From 233922ae4dbdcf82dd1990fa55cae0c41ba274aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 08/29] fix: filter_by_lines: line extents must include the
 first box

---
 src/ppocr/ocr2/filter_by_lines.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/filter_by_lines.cpp b/src/ppocr/ocr2/filter_by_lines.cpp
index 9019647..7a24bd0 100644
--- a/src/ppocr/ocr2/filter_by_lines.cpp
+++ b/src/ppocr/ocr2/filter_by_lines.cpp
@@ -74,15 +74,17 @@ namespace {
     struct MinMaxBox
     {
         unsigned min_top;
-        unsigned max_top = 0;
+        unsigned max_top;
         unsigned min_bottom;
-        unsigned max_bottom = 0;
+        unsigned max_bottom;
 
         using iterator = std::vector<ppocr::Box>::const_iterator;
 
         MinMaxBox(iterator first, iterator last)
         : min_top(first->top())
+        , max_top(first->top())
         , min_bottom(first->bottom())
+        , max_bottom(first->bottom())
         {
             while (++first != last) {
                 min_top = std::min(min_top, first->top());
-- 
2.43.0


From b53ed5ccc146bb715191dca0f730cf41fda13f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 09/29] fix: filter_by_lines: test and count every word group

---
 src/ppocr/ocr2/filter_by_lines.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/filter_by_lines.cpp b/src/ppocr/ocr2/filter_by_lines.cpp
index 7a24bd0..9dec663 100644
--- a/src/ppocr/ocr2/filter_by_lines.cpp
+++ b/src/ppocr/ocr2/filter_by_lines.cpp
@@ -50,10 +50,11 @@ namespace {
             auto out = vec.begin();
             auto last = vec.end();
             if (!pred(*(first-1))) {
-                do {
+                ++count;
+                while (first != last && !pred(*first)) {
                     first = std::find_if(first+1, last, view_equal_to(first->get().word));
                     ++count;
-                } while (first != last && !pred(*first));
+                }
                 out = first;
             }
             while (first != last) {
-- 
2.43.0


From 14bc72220f4d9438c383839622b209c0dd5d006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 10/29] fix: ocr2_extract_text: unrecognized rate divided by
 zero or by one

---
 main/ocr2_extract_text.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/main/ocr2_extract_text.cpp b/main/ocr2_extract_text.cpp
index f46b225..4a639dc 100644
--- a/main/ocr2_extract_text.cpp
+++ b/main/ocr2_extract_text.cpp
@@ -191,7 +191,7 @@ int main(int ac, char **av)
       << " ## result: " << result
       << "\nunrecognized_count: " << unrecognized_count
       << "\ncount: " << ambiguous.size()
-      << "\nunrecognized_rate: " << double(unrecognized_count * 100) / (ambiguous.empty()? ambiguous.size() :1)
+      << "\nunrecognized_rate: " << double(unrecognized_count * 100) / (ambiguous.empty() ? 1 : ambiguous.size())
       << std::endl
     ;
 }
-- 
2.43.0


From 29a07ee7e76f65a53c10805af18e4089dbf8040e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 11/29] fix: DataIndexesByWords: a glyph without view has no
 word

---
 src/ppocr/ocr2/data_indexes_by_words.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/ocr2/data_indexes_by_words.cpp b/src/ppocr/ocr2/data_indexes_by_words.cpp
index c625a8e..bfd7c24 100644
--- a/src/ppocr/ocr2/data_indexes_by_words.cpp
+++ b/src/ppocr/ocr2/data_indexes_by_words.cpp
@@ -27,8 +27,10 @@ ppocr::ocr2::DataIndexesByWords::DataIndexesByWords(const ppocr::ocr2::Glyphs& g
 
     unsigned n = 0;
     for (auto & views : glyphs) {
-        auto & e = map[views.front().word];
-        e.emplace_back(n++);
+        if (!views.empty()) {
+            map[views.front().word].emplace_back(n);
+        }
+        ++n;
     }
 
     this->indexes_by_words.resize(glyphs.size());
-- 
2.43.0


From 859a3f5eecd648eceb4030f52d893cc1922bf168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 12/29] fix: WordDisambiguouser: match every character of a
 candidate at the last position

---
 src/ppocr/spell/word_disambiguouser.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/ppocr/spell/word_disambiguouser.hpp b/src/ppocr/spell/word_disambiguouser.hpp
index 28508ac..5f86642 100644
--- a/src/ppocr/spell/word_disambiguouser.hpp
+++ b/src/ppocr/spell/word_disambiguouser.hpp
@@ -61,20 +61,20 @@ private:
         if (pos != rng.end() && pos->get() == c) {
             auto next_first = first;
             ++next_first;
-            if (next_first == last) {
+            if (*++it) {
+                if (!pos->empty() && disambiguous_utf_char(pos->childrens(), first, last, it, output)) {
+                    set_c(output, c);
+                    return true;
+                }
+            }
+            else if (next_first == last) {
                 if (pos->is_terminal()) {
                     set_c(output, c);
                     return true;
                 }
             }
             else if (!pos->empty()) {
-                if (*++it) {
-                    if (disambiguous_utf_char(pos->childrens(), first, last, it, output)) {
-                        set_c(output, c);
-                        return true;
-                    }
-                }
-                else if (disambiguous_impl(pos->childrens(), next_first, last, output)) {
+                if (disambiguous_impl(pos->childrens(), next_first, last, output)) {
                     set_c(output, c);
                     return true;
                 }
-- 
2.43.0


From bcec101ce69073e6f33b90dc51bbb99001ec7e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 13/29] fix: utf8 iterators: a truncated sequence ends the
 string instead of reading past it

---
 src/ppocr/utils/utf.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ppocr/utils/utf.hpp b/src/ppocr/utils/utf.hpp
index 951aae1..53122bc 100644
--- a/src/ppocr/utils/utf.hpp
+++ b/src/ppocr/utils/utf.hpp
@@ -47,15 +47,18 @@ namespace ppocr { namespace utf {
                 break;
                 /* handle U+0080..U+07FF inline : 2 bytes sequences */
                 case 0xC: case 0xD:
+                    if (!source[0]) { ucode = 0; break; }
                     this->ucode = ((this->ucode & 0x1F) << 6)|(source[0] & 0x3F);
                     source += 1;
                 break;
                 /* handle U+8FFF..U+FFFF inline : 3 bytes sequences */
                 case 0xE:
+                    if (!source[0] || !source[1]) { ucode = 0; break; }
                     this->ucode = ((this->ucode & 0x0F) << 12)|((source[0] & 0x3F) << 6)|(source[1] & 0x3F);
                     source += 2;
                 break;
                 case 0xF:
+                    if (!source[0] || !source[1] || !source[2]) { ucode = 0; break; }
                     this->ucode = ((this->ucode & 0x07) << 18)|((source[0] & 0x3F) << 12)|((source[1] & 0x3F) << 6)|(source[2] & 0x3F);
                     source += 3;
                 break;
@@ -102,15 +105,18 @@ namespace ppocr { namespace utf {
                 break;
                 /* handle U+0080..U+07FF inline : 2 bytes sequences */
                 case 0xC: case 0xD:
+                    if (!source[0]) { ucode = 0; break; }
                     this->ucode = (this->ucode << 8) | source[0];
                     source += 1;
                 break;
                 /* handle U+8FFF..U+FFFF inline : 3 bytes sequences */
                 case 0xE:
+                    if (!source[0] || !source[1]) { ucode = 0; break; }
                     this->ucode = (this->ucode << 16) | (source[0] << 8) | source[1];
                     source += 2;
                 break;
                 case 0xF:
+                    if (!source[0] || !source[1] || !source[2]) { ucode = 0; break; }
                     this->ucode = (this->ucode << 24) | (source[0] << 16) | (source[1] << 8) | source[2];
                     source += 3;
                 break;
-- 
2.43.0


From f63834660485d4c30381c8151f12d7adf6ca8e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 14/29] fix: Dictionary: skip words without character

---
 src/ppocr/spell/dictionary.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ppocr/spell/dictionary.cpp b/src/ppocr/spell/dictionary.cpp
index dc3cfd7..42f35a7 100644
--- a/src/ppocr/spell/dictionary.cpp
+++ b/src/ppocr/spell/dictionary.cpp
@@ -42,7 +42,9 @@ Dictionary::Dictionary(std::vector<std::string> const & words)
         for (uint32_t c; (c = *it); ++it) {
             new_word.push_back(c);
         }
-        uwords.push_back(std::move(new_word));
+        if (!new_word.empty()) {
+            uwords.push_back(std::move(new_word));
+        }
     }
 
     std::sort(uwords.begin(), uwords.end());
-- 
2.43.0


From 0d82085a916765431b63475530790393dba22aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 15/29] fix: Dictionary: reject node tables whose children lie
 outside the table

---
 src/ppocr/spell/dictionary.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/ppocr/spell/dictionary.cpp b/src/ppocr/spell/dictionary.cpp
index 42f35a7..dd762f7 100644
--- a/src/ppocr/spell/dictionary.cpp
+++ b/src/ppocr/spell/dictionary.cpp
@@ -97,6 +97,11 @@ std::istream& operator>>(std::istream& is, Dictionary & dict)
         }
         nodes.emplace_back(c, pos, sz, terminal);
     }
+    for (std::size_t i = 0; i != nodes.size(); ++i) {
+        if (i + nodes[i].relative_pos() + nodes[i].size() > nodes.size()) {
+            throw std::runtime_error("bad format");
+        }
+    }
     dict = Dictionary(std::move(nodes));
     return is;
 }
-- 
2.43.0


From 3fcef43aacbc855a62ea1faac472e2377fe76bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 16/29] fix: make_trie_dictionary: read every words file, not
 only the first

---
 main/make_trie_dictionary.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/main/make_trie_dictionary.cpp b/main/make_trie_dictionary.cpp
index af6c3a9..4efe5d0 100644
--- a/main/make_trie_dictionary.cpp
+++ b/main/make_trie_dictionary.cpp
@@ -34,11 +34,10 @@ int main(int ac, char ** av) {
         return 1;
     }
 
-    std::ifstream file;
     std::vector<std::string> words;
 
     for (int i = 1; i < ac; ++i) {
-        file.open(av[i]);
+        std::ifstream file(av[i]);
         if (!file) {
             std::cerr << av[i] << ": " << strerror(errno) << std::endl;
             continue;
-- 
2.43.0


From b8d2a5c8d4d96592a3207909b80043c5e3997a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 17/29] fix: replace_words: do not rescan the replacement, nor
 loop on an empty pattern

---
 src/ppocr/ocr2/replacement.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ppocr/ocr2/replacement.hpp b/src/ppocr/ocr2/replacement.hpp
index 928beac..2fdf868 100644
--- a/src/ppocr/ocr2/replacement.hpp
+++ b/src/ppocr/ocr2/replacement.hpp
@@ -38,9 +38,13 @@ std::istream & operator >> (std::istream & is, Replacements & replacements);
 
 inline void replace_words(std::string & result, Replacements const & replacements) {
     for (Replacement const & rep : replacements) {
+        if (rep.pattern.empty()) {
+            continue;
+        }
         std::string::size_type pos = 0;
         while ((pos = result.find(rep.pattern, pos)) != std::string::npos) {
             result.replace(pos, rep.pattern.size(), rep.replace);
+            pos += rep.replace.size();
         }
     }
 }
-- 
2.43.0


From 830d8af42dbeb0670761c3bbe4350684ce97c299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 18/29] fix: replacements: a last pattern without replacement
 reused the previous one

---
 src/ppocr/ocr2/replacement.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/ppocr/ocr2/replacement.cpp b/src/ppocr/ocr2/replacement.cpp
index 56c7298..4a8925a 100644
--- a/src/ppocr/ocr2/replacement.cpp
+++ b/src/ppocr/ocr2/replacement.cpp
@@ -26,13 +26,13 @@ std::istream& ppocr::ocr2::operator>>(std::istream& is, Replacements& replacemen
     while (is) {
         is >> rep.pattern;
         auto c = is.rdbuf()->sgetc();
-        if (!char_traits::eq_int_type(c, char_traits::eof())) {
-            if (!char_traits::eq(char_traits::to_char_type(c), '\n')) {
-                is >> rep.replace;
-            }
-            else {
-                rep.replace.clear();
-            }
+        if (!char_traits::eq_int_type(c, char_traits::eof())
+         && !char_traits::eq(char_traits::to_char_type(c), '\n')
+        ) {
+            is >> rep.replace;
+        }
+        else {
+            rep.replace.clear();
         }
         if (is) {
             replacements.push_back(rep);
-- 
2.43.0


From f3149d61c9150849f9f874636c72f66912f169e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 19/29] fix: disambiguous_with_dict: count leading unrecognised
 characters and keep the first space

---
 src/ppocr/ocr2/disambiguous_with_dict.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/ppocr/ocr2/disambiguous_with_dict.cpp b/src/ppocr/ocr2/disambiguous_with_dict.cpp
index 060a437..bb349a9 100644
--- a/src/ppocr/ocr2/disambiguous_with_dict.cpp
+++ b/src/ppocr/ocr2/disambiguous_with_dict.cpp
@@ -170,9 +170,16 @@ unsigned ppocr::ocr2::disambiguous_with_dict(
     auto last = ambiguous.end();
     auto middle = std::find_if_not(first, first + *it_space, search_fn);
     for (; first != middle; ++first) {
+        if (first->get().empty()) {
+            result += '?';
+            ++unrecognized_count;
+        }
         append(result, glyphs, *first);
     }
     if (first == ambiguous.begin() + *it_space) {
+        if (first != ambiguous.begin() && first != last) {
+            result += ' ';
+        }
         ++it_space;
     }
     while (first != last) {
-- 
2.43.0


From 96dab019371e68f7945a499b44db286cbecfd575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 20/29] fix: read_enum: do not use a value that was not read

---
 src/ppocr/utils/enum_io.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/utils/enum_io.hpp b/src/ppocr/utils/enum_io.hpp
index 2302bf1..f6dbc90 100644
--- a/src/ppocr/utils/enum_io.hpp
+++ b/src/ppocr/utils/enum_io.hpp
@@ -34,8 +34,9 @@ template<class EnumT>
 inline std::istream & read_enum(std::istream & is, EnumT & e)
 {
     typename std::underlying_type<EnumT>::type i;
-    is >> i;
-    e = static_cast<EnumT>(i);
+    if (is >> i) {
+        e = static_cast<EnumT>(i);
+    }
     return is;
 }
 
-- 
2.43.0


From 083da77f8d9cf07e548aed5c2b692a428cae3294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:18 +0000
Subject: [PATCH 21/29] fix: datas: a truncated or malformed file was accepted
 with missing values

---
 src/ppocr/defined_loader.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ppocr/defined_loader.hpp b/src/ppocr/defined_loader.hpp
index e3d6f15..f4647fe 100644
--- a/src/ppocr/defined_loader.hpp
+++ b/src/ppocr/defined_loader.hpp
@@ -44,6 +44,7 @@
 
 #include <ostream>
 #include <istream>
+#include <stdexcept>
 
 namespace ppocr {
 
@@ -198,9 +199,10 @@ namespace details_ {
         std::size_t data_sz_;
 
         void operator()() const {
-            if (this->is_) {
-                std::istream::sentry(this->is_);
+            if (!this->is_) {
+                throw std::runtime_error("datas: bad format");
             }
+            std::istream::sentry(this->is_);
         }
 
         template<class Strategy, class... Strategies>
-- 
2.43.0


From bd727e1e10dc6469626319d2198f2c2ded70e317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:53 +0000
Subject: [PATCH 22/29] fix: proportionality_zone: comparing two empty shares
 divided by zero

---
 src/ppocr/strategies/proportionality_zone.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/strategies/proportionality_zone.cpp b/src/ppocr/strategies/proportionality_zone.cpp
index 4eb53dc..ef6de6e 100644
--- a/src/ppocr/strategies/proportionality_zone.cpp
+++ b/src/ppocr/strategies/proportionality_zone.cpp
@@ -70,7 +70,7 @@ unsigned proportionality_zone::relationship_type::compute(const value_type& a, c
     unsigned const total = std::inner_product(
         a.begin(), a.end(), b.begin(), 0u
       , std::plus<unsigned>()
-      , [](unsigned a, unsigned b) { return a*100/(a+b); }
+      , [](unsigned a, unsigned b) { return (a+b) ? a*100/(a+b) : 50u; }
     ) / a.size();
     return utils::compute_relationship(total, 50u, 100u);
 }
-- 
2.43.0


From 560841e577c35d3392467ac027192a55e78519fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:53 +0000
Subject: [PATCH 23/29] fix: ImageContext: shared buffer size overflowed on
 very large images

---
 src/ppocr/ocr2/image_context.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/image_context.hpp b/src/ppocr/ocr2/image_context.hpp
index 65d4f18..b54b905 100644
--- a/src/ppocr/ocr2/image_context.hpp
+++ b/src/ppocr/ocr2/image_context.hpp
@@ -56,7 +56,7 @@ private:
 
 
     void reserve(Bounds const & bnd) {
-        auto const new_sz = bnd.area() * 2;
+        auto const new_sz = std::size_t(bnd.area()) * 2;
         this->img_.release().release();
         if (new_sz > this->capacity_sz_) {
             this->data_.reset(new ppocr::Pixel[new_sz]);
-- 
2.43.0


From 1fd8632a2fd696b2031f8123e624b001e1c0ddd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:53 +0000
Subject: [PATCH 24/29] fix: count_zone: work buffer size overflowed on very
 large images

---
 src/ppocr/strategies/utils/count_zone.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/strategies/utils/count_zone.hpp b/src/ppocr/strategies/utils/count_zone.hpp
index 5eba428..1a6bab9 100644
--- a/src/ppocr/strategies/utils/count_zone.hpp
+++ b/src/ppocr/strategies/utils/count_zone.hpp
@@ -180,7 +180,7 @@ namespace ppocr { namespace strategies { namespace utils
 
     inline void count_zone_fn::compute(const Image& img)
     {
-        unsigned* mirror = _buffer.alloc_and_init_to_zero(img.area() * 2 + 2);
+        unsigned* mirror = _buffer.alloc_and_init_to_zero(std::size_t(img.area()) * 2 + 2);
         unsigned* const stack = mirror + img.area();
 
         unsigned count_zone = 1;
-- 
2.43.0


From 65a4649fd19f1d784f0776eaa7adf2c98ff7bd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:43 +0000
Subject: [PATCH 25/29] fix: WordDisambiguouser: an empty candidate matches
 nothing

The iterator was moved on past the terminating zero when a dictionary read
from a file has a node of value 0 and a candidate is the empty string.
---
 src/ppocr/spell/word_disambiguouser.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ppocr/spell/word_disambiguouser.hpp b/src/ppocr/spell/word_disambiguouser.hpp
index 5f86642..041df64 100644
--- a/src/ppocr/spell/word_disambiguouser.hpp
+++ b/src/ppocr/spell/word_disambiguouser.hpp
@@ -57,6 +57,9 @@ private:
     template<class FwRngStrIt>
     bool disambiguous_utf_char(trie_type::range rng, FwRngStrIt first, FwRngStrIt last, utf::UTF8Iterator it, std::string & output) {
         auto const c = *it;
+        if (!c) {
+            return false;
+        }
         auto pos = rng.lower_bound(c);
         if (pos != rng.end() && pos->get() == c) {
             auto next_first = first;
-- 
2.43.0


From d9781530e45f72f9563115a13fbf61f2cdc43021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:42 +0000
Subject: [PATCH 26/29] fix: get_views_indexes_ordered: give each glyph the id
 of its own views

The ids were stored at the place a glyph was sorted to, but are read by glyph
number: candidates with different views could be merged.
---
 src/ppocr/ocr2/views_index_ordered.hpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/src/ppocr/ocr2/views_index_ordered.hpp b/src/ppocr/ocr2/views_index_ordered.hpp
index 61028a0..ea4f66a 100644
--- a/src/ppocr/ocr2/views_index_ordered.hpp
+++ b/src/ppocr/ocr2/views_index_ordered.hpp
@@ -32,20 +32,14 @@ inline std::vector<unsigned> get_views_indexes_ordered(Glyphs const & glyphs) {
         std::vector<std::reference_wrapper<Views const>> glyph_refs(glyphs.begin(), glyphs.end());
         std::sort(glyph_refs.begin(), glyph_refs.end(), LtViews{});
 
-        auto first = glyph_refs.begin() + 1;
-        auto last = glyph_refs.end();
-        // re-assign duplication
-        for (; first != last; ++first) {
-            if (EqViews{}(first->get(), (first-1)->get())) {
-                *first = *(first-1);
-            }
-        }
-
+        // glyphs with the same views have the same id
         id_views.resize(glyphs.size());
-        auto it = id_views.begin();
-        for (Views const & g : glyph_refs) {
-            *it = static_cast<unsigned>(&g - &glyphs[0]);
-            ++it;
+        Views const * first = nullptr;
+        for (Views const & views : glyph_refs) {
+            if (!first || !EqViews{}(views, *first)) {
+                first = &views;
+            }
+            id_views[static_cast<std::size_t>(&views - &glyphs[0])] = static_cast<unsigned>(first - &glyphs[0]);
         }
     }
     return id_views;
-- 
2.43.0


From a7a9c9043d04be8769411b75a76732f0bb8386a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:03 +0000
Subject: [PATCH 27/29] fix: ocr2::Glyphs: a glyph without views does not
 swallow the next one

---
 src/ppocr/ocr2/glyphs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ppocr/ocr2/glyphs.cpp b/src/ppocr/ocr2/glyphs.cpp
index 6044fa8..9665dc1 100644
--- a/src/ppocr/ocr2/glyphs.cpp
+++ b/src/ppocr/ocr2/glyphs.cpp
@@ -36,7 +36,7 @@ std::istream & operator>>(std::istream & is, Glyphs & glyphs) {
 
     while (is.ignore(limit_max, '\n')) {
         unsigned n;
-        if (!(is >> n)) {
+        if (!(is >> n).ignore(limit_max, '\n')) {
             break;
         }
         Views views;
-- 
2.43.0


From ac114e25415b1630ffeba7a90fb18ca60a048f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:39 +0000
Subject: [PATCH 28/29] fix: write_glyphs: report a words file that cannot be
 read to its end

---
 main/write_glyphs.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/main/write_glyphs.cpp b/main/write_glyphs.cpp
index 363d387..681e8d0 100644
--- a/main/write_glyphs.cpp
+++ b/main/write_glyphs.cpp
@@ -90,6 +90,10 @@ static void load_file(
     if (file >> s) {
         throw_error(imagefilename, textfilename, fontname, "Box character not found");
     }
+
+    if (!file.eof()) {
+        throw std::runtime_error(std::string(textfilename) + ": read error");
+    }
 }
 
 }
-- 
2.43.0


From 1e3edc672aec4f2f0dcd3e9e9b2cda8016519075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:05 +0000
Subject: [PATCH 29/29] fix: make_trie_dictionary: report a words file that
 cannot be read

---
 main/make_trie_dictionary.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/main/make_trie_dictionary.cpp b/main/make_trie_dictionary.cpp
index 4efe5d0..2a84c05 100644
--- a/main/make_trie_dictionary.cpp
+++ b/main/make_trie_dictionary.cpp
@@ -47,6 +47,11 @@ int main(int ac, char ** av) {
         while (std::getline(file, s)) {
             words.push_back(s);
         }
+
+        if (!file.eof()) {
+            std::cerr << av[i] << ": read error\n";
+            return 5;
+        }
     }
 
     std::cout << spell::Dictionary(std::move(words));
-- 
2.43.0

