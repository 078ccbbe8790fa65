From b3225e8c351264d58d3c425928fcb8bd0469f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:23 +0000
Subject: [PATCH 01/17] fix: compute the utf8 encoded size from the significant
 bits

The logarithm based formula was one octet short for U+0800..U+1FFF and
U+10000..U+7FFFF, and undefined for U+0000.
---
 include/u5e/utf8_util.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/u5e/utf8_util.hpp b/include/u5e/utf8_util.hpp
index 23f553d..f3a8073 100644
--- a/include/u5e/utf8_util.hpp
+++ b/include/u5e/utf8_util.hpp
@@ -58,7 +58,10 @@ namespace u5e {
      * How many octets will this codepoint take
      */
     inline static int encoded_size(int value) {
-      return std::ceil((float)(32 - __builtin_clz(value) - 1) / (float)6);
+      // how many bits are necessary to represent the value
+      int bits = 32 - __builtin_clz((unsigned int)value | 1);
+      // a single octet holds 7 bits, n octets hold 5*n+1 bits.
+      return bits <= 7 ? 1 : std::min((bits + 3) / 5, 6);
     }
     
   };
-- 
2.43.0


From ee2ed1e11cae3702bda4f4d46ff857141d17f2dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:26 +0000
Subject: [PATCH 02/17] fix: no negative shift and no size above 6 in
 codepoint_size

The octet was sign extended before the shift, and 0xFE and 0xFF yielded
sizes that make the decoder shift out of range.
---
 include/u5e/utf8_util.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/u5e/utf8_util.hpp b/include/u5e/utf8_util.hpp
index f3a8073..e895630 100644
--- a/include/u5e/utf8_util.hpp
+++ b/include/u5e/utf8_util.hpp
@@ -50,8 +50,10 @@ namespace u5e {
     inline static int codepoint_size(const char first_octet) {
       // count leading zeros on bitwise negated first octet.  for
       // single-octet codepoints, this would return 0, so we do
-      // std::max for 1 for those cases.
-      return std::max(__builtin_clz(~(first_octet << 24)),1);
+      // std::max for 1 for those cases. No codepoint takes more than
+      // 6 octets, even if 0xFE and 0xFF have more leading ones.
+      unsigned int octet = (unsigned char)first_octet;
+      return std::min(std::max(__builtin_clz(~(octet << 24)),1),6);
     }
 
     /**
-- 
2.43.0


From 29dfb14c86a98d3e8fba4d090a91aba42e126ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:05 +0000
Subject: [PATCH 03/17] fix: do not dereference the end when comparing utf8
 iterators

operator== read the octet at the left hand side position even when that
was the end of the text, and the result depended on which side the end
was and on whatever follows the text in memory.
---
 include/u5e/utf8_iterator.hpp | 47 ++++++++++++++---------------------
 1 file changed, 19 insertions(+), 28 deletions(-)

diff --git a/include/u5e/utf8_iterator.hpp b/include/u5e/utf8_iterator.hpp
index 97bb431..3000a46 100644
--- a/include/u5e/utf8_iterator.hpp
+++ b/include/u5e/utf8_iterator.hpp
@@ -77,6 +77,23 @@ namespace u5e {
       }
     }
     
+    /**
+     * Check whether another position is in the same codepoint as this
+     * one. Either of them may be the end of the text, which must not
+     * be dereferenced, so this only looks at the lower of the two.
+     */
+    inline bool same_codepoint(const NativeIterator& other) const {
+      if (raw_iterator_ == other) {
+        return true;
+      }
+      bool is_lower = raw_iterator_ < other;
+      const NativeIterator& higher = is_lower ? other : raw_iterator_;
+      utf8_iterator_base lower(is_lower ? raw_iterator_ : other);
+      lower.rewind_to_start_of_codepoint(*lower.raw_iterator_);
+      return std::distance(lower.raw_iterator_, higher) <
+        utf8_util::codepoint_size(*lower.raw_iterator_);
+    }
+
     /**
      * Return the codepoint that starts where we are now
      */
@@ -164,20 +181,7 @@ namespace u5e {
      * Compare with another iterator
      */
     inline bool operator==(const utf8_const_iterator& rhs) const {
-      char c;
-      utf8_const_iterator copy(*this);
-      c = *(copy.raw_iterator_);
-      copy.rewind_to_start_of_codepoint(c);
-      c = *(copy.raw_iterator_);
-      int size = utf8_util::codepoint_size(c);
-      while (size) {
-        if (copy.raw_iterator_ == rhs.raw_iterator_) {
-          return true;
-        }
-        ++(copy.raw_iterator_);
-        --size;
-      }
-      return false;
+      return this->same_codepoint(rhs.raw_iterator_);
     }
     
     inline bool operator!=(const utf8_const_iterator& rhs) const {
@@ -261,20 +265,7 @@ namespace u5e {
      * Compare the iterator with another iterator
      */
     inline bool operator==(const utf8_iterator& rhs) const {
-      char c;
-      utf8_iterator copy(*this);
-      c = *(copy.raw_iterator_);
-      copy.rewind_to_start_of_codepoint(c);
-      c = *(copy.raw_iterator_);
-      int size = utf8_util::codepoint_size(c);
-      while (size) {
-        if (copy.raw_iterator_ == rhs.raw_iterator_) {
-          return true;
-        }
-        ++(copy.raw_iterator_);
-        --size;
-      }
-      return false;
+      return this->same_codepoint(rhs.raw_iterator_);
     }
     
     inline bool operator!=(const utf8_iterator& rhs) const {
-- 
2.43.0


From 5967df97b1cbe8cba90cd7b8d88721f1ae0b8a2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:08 +0000
Subject: [PATCH 04/17] fix: do not dereference the end when going back one
 codepoint

Decrementing the end iterator read the octet after the text, and when
that looked like a continuation it skipped the last codepoint.
---
 include/u5e/utf8_iterator.hpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/include/u5e/utf8_iterator.hpp b/include/u5e/utf8_iterator.hpp
index 3000a46..1ed710b 100644
--- a/include/u5e/utf8_iterator.hpp
+++ b/include/u5e/utf8_iterator.hpp
@@ -70,10 +70,17 @@ namespace u5e {
      * Go to the previous codepoint.
      */
     inline void rewind_one_codepoint() {
-      rewind_to_start_of_codepoint(*raw_iterator_);
+      // this may be the end of the text, so we can only dereference
+      // it once a codepoint that includes this position is found.
+      NativeIterator from = raw_iterator_;
       raw_iterator_--;
-      while (utf8_util::is_codepoint_continuation(*raw_iterator_)) {
+      rewind_to_start_of_codepoint(*raw_iterator_);
+      if (std::distance(raw_iterator_, from) <
+          utf8_util::codepoint_size(*raw_iterator_) &&
+          utf8_util::is_codepoint_continuation(*from)) {
+        // that was halfway into this codepoint, we want the previous
         raw_iterator_--;
+        rewind_to_start_of_codepoint(*raw_iterator_);
       }
     }
     
-- 
2.43.0


From 8bfeb7dcb636135b6f1102cd0b4c3e36dd89e98c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:11 +0000
Subject: [PATCH 05/17] fix: utf8 iterators have no codepoint to refer to

operator* returns by value, with a reference typedef that is a real
reference std::reverse_iterator returned a dangling reference.
---
 include/u5e/utf8_iterator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/u5e/utf8_iterator.hpp b/include/u5e/utf8_iterator.hpp
index 1ed710b..c4ed286 100644
--- a/include/u5e/utf8_iterator.hpp
+++ b/include/u5e/utf8_iterator.hpp
@@ -30,7 +30,8 @@ namespace u5e {
      * Basic iterator typedefs
      */
     typedef codepoint value_type;
-    typedef const codepoint& reference;
+    // dereferencing builds the codepoint, there is nothing to refer to
+    typedef const codepoint reference;
     typedef int difference_type;
     typedef std::bidirectional_iterator_tag iterator_category;
     //@}
-- 
2.43.0


From 40e4c9c01e87827530279174c47a23ec3581165e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:14 +0000
Subject: [PATCH 06/17] fix: step over stray continuation octets

Incrementing at a continuation octet that follows a complete codepoint
went back to that same octet, and dereferencing it moved the iterator
to the previous codepoint, so iteration over a text with correct bounds
but a stray octet inside never ended.
---
 include/u5e/utf8_iterator.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/u5e/utf8_iterator.hpp b/include/u5e/utf8_iterator.hpp
index c4ed286..f0150e8 100644
--- a/include/u5e/utf8_iterator.hpp
+++ b/include/u5e/utf8_iterator.hpp
@@ -62,9 +62,13 @@ namespace u5e {
      * Advance the iterator to the next codepoint
      */
     inline void forward_one_codepoint() {
+      NativeIterator from = raw_iterator_;
       rewind_to_start_of_codepoint(*raw_iterator_);
       difference_type size = utf8_util::codepoint_size(*raw_iterator_);
-      std::advance(raw_iterator_, size);
+      // a continuation that doesn't belong to any codepoint is beyond
+      // the size of what we found, it still needs to be stepped over
+      difference_type walked = std::distance(raw_iterator_, from);
+      std::advance(raw_iterator_, std::max(size, walked + 1));
     }
 
     /**
@@ -110,10 +114,12 @@ namespace u5e {
       if (utf8_util::is_7bit_character(first_octet)) {
         return first_octet;
       } else {
-        if (rewind_to_start_of_codepoint(first_octet)) {
-          first_octet = *raw_iterator_;
+        // reading must not move the iterator
+        utf8_iterator_base start(raw_iterator_);
+        if (start.rewind_to_start_of_codepoint(first_octet)) {
+          first_octet = *start.raw_iterator_;
         }
-        NativeIterator copy_ = raw_iterator_;
+        NativeIterator copy_ = start.raw_iterator_;
         difference_type size =
           utf8_util::codepoint_size(first_octet);
         unsigned char mask_first_octet = ~(0xFF<<(7-size));
-- 
2.43.0


From c2d00a143b5138b0e6097c749af152556198dd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:36 +0000
Subject: [PATCH 07/17] fix: do not dereference the end of the range being
 appended

append() looked at the octet at the last iterator to find the start of
its codepoint, even when that was the end of the text, dropping whole
codepoints when what follows in memory looks like a continuation.
---
 include/u5e/basic_encodedstring.hpp | 14 ++++++++++----
 include/u5e/utf32ne.hpp             |  7 +++++++
 include/u5e/utf8.hpp                | 30 +++++++++++++++++++++++++++++
 3 files changed, 47 insertions(+), 4 deletions(-)

diff --git a/include/u5e/basic_encodedstring.hpp b/include/u5e/basic_encodedstring.hpp
index 35c832d..467431f 100644
--- a/include/u5e/basic_encodedstring.hpp
+++ b/include/u5e/basic_encodedstring.hpp
@@ -175,10 +175,16 @@ namespace u5e {
      typename basic_encodedstring<Encoding, StorageType>::const_iterator first,
      typename basic_encodedstring<Encoding, StorageType>::const_iterator last
      ) {
-      native_string.append
-        (Encoding::template native_const_iterator<StorageType>(first),
-         Encoding::template native_const_iterator<StorageType>(last)
-         );
+      // last may be the end of the text, which can't be dereferenced
+      if (first != last) {
+        typename StorageType::const_iterator native_first =
+          Encoding::template native_const_iterator<StorageType>(first);
+        native_string.append
+          (native_first,
+           Encoding::template native_const_iterator<StorageType>
+           (native_first, last)
+           );
+      }
       return *this;
     }
 
diff --git a/include/u5e/utf32ne.hpp b/include/u5e/utf32ne.hpp
index 37daed1..30c21cd 100644
--- a/include/u5e/utf32ne.hpp
+++ b/include/u5e/utf32ne.hpp
@@ -35,6 +35,13 @@ namespace u5e {
       return it;
     }
 
+    template <typename NativeString>
+    static typename NativeString::const_iterator
+    native_const_iterator(typename NativeString::const_iterator first,
+                          typename NativeString::const_iterator last) {
+      return last;
+    }
+
     template <typename InputNativeIterator, typename OutputNativeString>
     static void append_from_utf32ne
     (InputNativeIterator first, InputNativeIterator last,
diff --git a/include/u5e/utf8.hpp b/include/u5e/utf8.hpp
index da9bde7..7bf1f3c 100644
--- a/include/u5e/utf8.hpp
+++ b/include/u5e/utf8.hpp
@@ -44,6 +44,36 @@ namespace u5e {
       return it.raw_iterator_;
     }
 
+    /**
+     * Get access to the native const_iterator for the end of a range.
+     *
+     * If that is halfway into a codepoint, the range ends before that
+     * codepoint. Since this may be the end of the text, it is only
+     * dereferenced if there is a codepoint that includes it.
+     *
+     * \param first the native start of the range
+     * \param last where the range ends
+     */
+    template <typename NativeString>
+    static typename NativeString::const_iterator
+    native_const_iterator
+    (typename NativeString::const_iterator first,
+     utf8_const_iterator<typename NativeString::const_iterator> last) {
+      typename NativeString::const_iterator end = last.raw_iterator_;
+      typename NativeString::const_iterator it = end;
+      while (it != first) {
+        --it;
+        if (!utf8_util::is_codepoint_continuation(*it)) {
+          if (std::distance(it, end) < utf8_util::codepoint_size(*it) &&
+              utf8_util::is_codepoint_continuation(*end)) {
+            return it;
+          }
+          break;
+        }
+      }
+      return end;
+    }
+
     template <typename InputNativeIterator, typename OutputNativeString>
     static void append_from_utf32ne
     (InputNativeIterator first, InputNativeIterator last,
-- 
2.43.0


From d5186df5a43fcb76dcff3e1fd91c040b3fe455d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 08/17] fix: append between graphemes keeps the encoding

The codepoint iterators were given to the native string, which
truncated every codepoint to a single octet.
---
 include/u5e/basic_encodedstring.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/u5e/basic_encodedstring.hpp b/include/u5e/basic_encodedstring.hpp
index 467431f..c75b8d6 100644
--- a/include/u5e/basic_encodedstring.hpp
+++ b/include/u5e/basic_encodedstring.hpp
@@ -199,9 +199,8 @@ namespace u5e {
     (basic_grapheme_iterator<basic_encodedstring<Encoding, StorageType>>& first,
      basic_grapheme_iterator<basic_encodedstring<Encoding, StorageType>>& last)
     {
-      native_string.append((*first).codepoint_begin(),
-                           (*last).codepoint_begin());
-      return *this;
+      return append<StorageType>((*first).codepoint_begin(),
+                                 (*last).codepoint_begin());
     }
     
     inline basic_encodedstring& append
-- 
2.43.0


From 1c7252b6394ccbf8cdae8b031034660218de5f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:05 +0000
Subject: [PATCH 09/17] fix: find the start of the grapheme from the pairs
 before it

Seeking compared the codepoints in the wrong order, landing on the
wrong start when more than one codepoint had to be skipped, and seeking
to the end looked at what follows the text.
---
 include/u5e/basic_grapheme_iterator.hpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/u5e/basic_grapheme_iterator.hpp b/include/u5e/basic_grapheme_iterator.hpp
index cb1b62b..8c164ed 100644
--- a/include/u5e/basic_grapheme_iterator.hpp
+++ b/include/u5e/basic_grapheme_iterator.hpp
@@ -156,27 +156,26 @@ namespace u5e {
 
     void find_start_of_grapheme() {
       // GB2
-      if (where_ == begin_)
+      // the end is not in any grapheme, and can't be dereferenced
+      if (where_ == end_)
         return;
       // rewind where_ until it's no longer in the same grapheme
-
-      // GB1
-      // this always start as copy = where_
-      const_codepoint_iterator copy = where_;
-      --copy;
-      codepoint a = *copy;
+      codepoint b = *where_;
 
       while (1) {
+        // GB1
         if (where_ == begin_)
           return;
-        codepoint b = *where_;
+        const_codepoint_iterator copy = where_;
+        --copy;
+        codepoint a = *copy;
 
         if (is_grapheme_boundary(a, b)) {
           return;
         }
 
-        a = b;
-        --where_;
+        b = a;
+        where_ = copy;
       }
     }
     //@}
-- 
2.43.0


From 5f0ac32e3b7539d1f53396628c69caaf6dcb4a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:06 +0000
Subject: [PATCH 10/17] fix: look at the octets inside the text when checking
 utf8 bounds

check() and enforce() started at the end position, which is outside of
the text, never looked at the first octet of a short text, dereferenced
empty texts, and enforce() left the continuation octets of the codepoint
it replaced.
---
 include/u5e/utf8_bounds.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/u5e/utf8_bounds.hpp b/include/u5e/utf8_bounds.hpp
index b1e8cfc..733c5c8 100644
--- a/include/u5e/utf8_bounds.hpp
+++ b/include/u5e/utf8_bounds.hpp
@@ -30,7 +30,9 @@ namespace u5e {
      * correct bounds.
      */
     static bool check(NativeIterator begin, NativeIterator end) {
-      if (utf8_util::is_codepoint_continuation(*begin)) {
+      if (begin == end) {
+        return true; // nothing to go out of bounds of
+      } else if (utf8_util::is_codepoint_continuation(*begin)) {
         return false;
       } else {
         int max_walkback = 6; // mathematically, it's impossible for
@@ -38,13 +40,13 @@ namespace u5e {
                               // from the end to generate a overflow.
         int walkback = 0;
         while (walkback < max_walkback && end != begin) {
+          --end; walkback++;
           char octet = *end;
           if (utf8_util::is_codepoint_start(octet)) {
             if (utf8_util::codepoint_size(octet) > walkback) {
               return false;
             }
           }
-          --end; walkback++;
         }
         return true;
       }
@@ -56,7 +58,7 @@ namespace u5e {
      */
     static bool enforce(NativeIterator begin, NativeIterator end) {
       bool ret = true;
-      while (utf8_util::is_codepoint_continuation(*begin)) {
+      while (begin != end && utf8_util::is_codepoint_continuation(*begin)) {
         *begin = '?';
         ++begin;
         ret = false;
@@ -66,14 +68,20 @@ namespace u5e {
                             // from the end to generate a overflow.
       int walkback = 0;
       while (walkback < max_walkback && end != begin) {
+        --end; walkback++;
         char octet = *end;
         if (utf8_util::is_codepoint_start(octet)) {
           if (utf8_util::codepoint_size(octet) > walkback) {
-            *end = '?';
+            // the octets that follow it don't belong to anything else
+            NativeIterator it = end;
+            int left = walkback;
+            do {
+              *it = '?';
+              ++it;
+            } while (--left && utf8_util::is_codepoint_continuation(*it));
             ret = false;
           }
         }
-        --end; walkback++;
       }
       return ret;
     }
-- 
2.43.0


From cc40e5e0f7625128e7c509808425c5c39354fce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:31 +0000
Subject: [PATCH 11/17] fix: canonical ordering is stable and keeps starters in
 place

std::sort over the whole grapheme may exchange marks of the same class,
and moved every starter before all the combining marks.
---
 include/u5e/canonical_combining_order.hpp | 26 ++++++++++++++++++++++-
 include/u5e/normalization_form_c.hpp      |  4 ++--
 include/u5e/normalization_form_d.hpp      |  4 ++--
 include/u5e/normalization_form_kc.hpp     |  4 ++--
 include/u5e/normalization_form_kd.hpp     |  4 ++--
 5 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/include/u5e/canonical_combining_order.hpp b/include/u5e/canonical_combining_order.hpp
index 3e86ba9..297e803 100644
--- a/include/u5e/canonical_combining_order.hpp
+++ b/include/u5e/canonical_combining_order.hpp
@@ -1,6 +1,7 @@
 #ifndef INCLUDED_U5E_CANONICAL_COMBINING_ORDER
 #define INCLUDED_U5E_CANONICAL_COMBINING_ORDER
 
+#include <algorithm>
 #include <u5e/props/canonical_combining_class.hpp>
 
 namespace u5e {
@@ -8,7 +9,9 @@ namespace u5e {
   /**
    * \brief compare codepoints according to the canonical combining order
    *
-   * This is intended to be used with std::sort on a utf32ne string type.
+   * Note that codepoints of the same class must not be reordered, and
+   * that nothing can be moved across a codepoint of class 0, see
+   * canonical_combining_sort.
    */
   inline bool canonical_combining_order(int a, int b) {
     return
@@ -16,6 +19,27 @@ namespace u5e {
       <
       props::canonical_combining_class::resolve(b);
   }
+
+  /**
+   * \brief put the codepoints in the canonical order
+   *
+   * Every sequence of codepoints of a class other than 0 is sorted by
+   * the combining class, keeping the order inside the same class.
+   *
+   * \tparam Iterator random access iterator over utf32ne codepoints
+   */
+  template <typename Iterator>
+  inline void canonical_combining_sort(Iterator begin, Iterator end) {
+    while (begin != end) {
+      Iterator marks = begin;
+      while (marks != end &&
+             props::canonical_combining_class::resolve(*marks) != 0) {
+        ++marks;
+      }
+      std::stable_sort(begin, marks, canonical_combining_order);
+      begin = (marks == end) ? end : marks + 1;
+    }
+  }
 }
 
 #endif
diff --git a/include/u5e/normalization_form_c.hpp b/include/u5e/normalization_form_c.hpp
index c8f9741..ce920e6 100644
--- a/include/u5e/normalization_form_c.hpp
+++ b/include/u5e/normalization_form_c.hpp
@@ -32,8 +32,8 @@ namespace u5e {
                             canonical_decomposition<utf32ne_string>);
 
     // then sort based on canonical combining class
-    std::sort(decomposed.codepoint_begin(), decomposed.codepoint_end(),
-              canonical_combining_order);
+    canonical_combining_sort(decomposed.codepoint_begin(),
+                             decomposed.codepoint_end());
 
     // finally recompose. we will do that in-place on the decomposed
     // string, since we never have to look back.
diff --git a/include/u5e/normalization_form_d.hpp b/include/u5e/normalization_form_d.hpp
index 0b435c0..ee38a12 100644
--- a/include/u5e/normalization_form_d.hpp
+++ b/include/u5e/normalization_form_d.hpp
@@ -31,8 +31,8 @@ namespace u5e {
                             canonical_decomposition<utf32ne_string>);
 
     // then sort based on canonical combining class
-    std::sort(decomposed.codepoint_begin(), decomposed.codepoint_end(),
-              canonical_combining_order);
+    canonical_combining_sort(decomposed.codepoint_begin(),
+                             decomposed.codepoint_end());
 
     // finally append the output
     output.template append_from_utf32ne<utf32ne_string>
diff --git a/include/u5e/normalization_form_kc.hpp b/include/u5e/normalization_form_kc.hpp
index 7ea4f0f..c84ff04 100644
--- a/include/u5e/normalization_form_kc.hpp
+++ b/include/u5e/normalization_form_kc.hpp
@@ -33,8 +33,8 @@ namespace u5e {
        compatibility_and_canonical_decomposition<utf32ne_string>);
 
     // then sort based on canonical combining class
-    std::sort(decomposed.codepoint_begin(), decomposed.codepoint_end(),
-              canonical_combining_order);
+    canonical_combining_sort(decomposed.codepoint_begin(),
+                             decomposed.codepoint_end());
 
     // finally recompose. we will do that in-place on the decomposed
     // string, since we never have to look back.
diff --git a/include/u5e/normalization_form_kd.hpp b/include/u5e/normalization_form_kd.hpp
index 49d19a7..d3bcffb 100644
--- a/include/u5e/normalization_form_kd.hpp
+++ b/include/u5e/normalization_form_kd.hpp
@@ -32,8 +32,8 @@ namespace u5e {
        compatibility_and_canonical_decomposition<utf32ne_string>);
 
     // then sort based on canonical combining class
-    std::sort(decomposed.codepoint_begin(), decomposed.codepoint_end(),
-              canonical_combining_order);
+    canonical_combining_sort(decomposed.codepoint_begin(),
+                             decomposed.codepoint_end());
 
     // finally append the output
     output.template append_from_utf32ne<utf32ne_string>
-- 
2.43.0


From 1c2c8e437e4a98380487c093866f64d30a009d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:34 +0000
Subject: [PATCH 12/17] fix: compose with the last starter unless blocked

Only adjacent pairs were composed, so a mark that doesn't compose hid
every mark after it from the starter, and pairs of marks were composed
with each other.
---
 include/u5e/canonical_composition.hpp | 57 ++++++++++++++-------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/include/u5e/canonical_composition.hpp b/include/u5e/canonical_composition.hpp
index f4bb30c..f223055 100644
--- a/include/u5e/canonical_composition.hpp
+++ b/include/u5e/canonical_composition.hpp
@@ -1,6 +1,7 @@
 #ifndef INCLUDED_U5E_CANONICAL_COMPOSITION
 #define INCLUDED_U5E_CANONICAL_COMPOSITION
 
+#include <u5e/props/canonical_combining_class.hpp>
 #include <u5e/props/canonical_composition_mapping.hpp>
 
 namespace u5e {
@@ -30,44 +31,46 @@ namespace u5e {
     typename StorageType::iterator oi(data.codepoint_begin());
     typename StorageType::iterator in = oi;
     typename StorageType::iterator end(data.codepoint_end());
+    //
+    // the last starter in the output, which is what anything that
+    // follows may be composed with
+    //
+    typename StorageType::iterator starter = end;
+    bool has_starter = false;
+    //
+    // combining class of the last codepoint in the output
+    //
+    int last_class = 0;
 
     int a, b, c;
     while (in != end) {
+      b = *(in++);
+      int b_class = u5e::props::canonical_combining_class::resolve(b);
       //
-      // grab the codepoint in the current input iterator
+      // something between the starter and this codepoint blocks it,
+      // unless it has a lower class and is not a starter itself.
       //
-      a = *in;
-      if ((in + 1) == end) {
-        //
-        // If this is the last codepoint, it can't be composed, so we
-        // just push it to the output as-is.
-        //
-        *(oi++) = a;
-        in++;
-      } else {
-        //
-        // look ahead for the next codepoint
-        //
-        b = *(in + 1);
+      if (has_starter &&
+          (oi == starter + 1 || (last_class != 0 && last_class < b_class))) {
+        a = *starter;
         if (u5e::props::canonical_composition_mapping::resolve(a, b, &c)) {
           //
-          // If this is a composition, we set it as the current input
-          // iterator after advancing, because it may still be
-          // composed more.
+          // replace the starter, it may still be composed more.
           //
-          *(++in) = c;
+          *starter = c;
           *count = *count + 1;
-        } else {
-          //
-          // If there is no composition, we set it in the output iterator
-          //
-          *(oi++) = a;
-          //
-          // And finally advance the input iterator.
-          //
-          in++;
+          continue;
         }
       }
+      //
+      // If there is no composition, we set it in the output iterator
+      //
+      if (b_class == 0) {
+        starter = oi;
+        has_starter = true;
+      }
+      last_class = b_class;
+      *(oi++) = b;
     }
 
     return oi;
-- 
2.43.0


From 804c42f1b60fc299abca620968e7f2627050a0ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:01 +0000
Subject: [PATCH 13/17] fix: decompose and compose hangul syllables

They are not listed in the unicode database, so they were left alone in
every normalization form. The standard maps them arithmetically.
---
 include/u5e/canonical_composition.hpp   |  4 +-
 include/u5e/codepoint_decomposition.hpp |  6 ++-
 include/u5e/hangul.hpp                  | 63 +++++++++++++++++++++++++
 3 files changed, 71 insertions(+), 2 deletions(-)
 create mode 100644 include/u5e/hangul.hpp

diff --git a/include/u5e/canonical_composition.hpp b/include/u5e/canonical_composition.hpp
index f223055..188cc6d 100644
--- a/include/u5e/canonical_composition.hpp
+++ b/include/u5e/canonical_composition.hpp
@@ -1,6 +1,7 @@
 #ifndef INCLUDED_U5E_CANONICAL_COMPOSITION
 #define INCLUDED_U5E_CANONICAL_COMPOSITION
 
+#include <u5e/hangul.hpp>
 #include <u5e/props/canonical_combining_class.hpp>
 #include <u5e/props/canonical_composition_mapping.hpp>
 
@@ -53,7 +54,8 @@ namespace u5e {
       if (has_starter &&
           (oi == starter + 1 || (last_class != 0 && last_class < b_class))) {
         a = *starter;
-        if (u5e::props::canonical_composition_mapping::resolve(a, b, &c)) {
+        if (u5e::props::canonical_composition_mapping::resolve(a, b, &c) ||
+            u5e::hangul::compose(a, b, &c)) {
           //
           // replace the starter, it may still be composed more.
           //
diff --git a/include/u5e/codepoint_decomposition.hpp b/include/u5e/codepoint_decomposition.hpp
index 07ef086..1e0be56 100644
--- a/include/u5e/codepoint_decomposition.hpp
+++ b/include/u5e/codepoint_decomposition.hpp
@@ -6,6 +6,7 @@
 #include <experimental/string_view>
 
 #include <u5e/codepoint.hpp>
+#include <u5e/hangul.hpp>
 #include <u5e/props/compatibility_and_canonical_decomposition_mapping.hpp>
 #include <u5e/utf32ne_string_view.hpp>
 
@@ -40,7 +41,10 @@ namespace u5e {
     int const * begin;
     int const * end;
     int count = 0;
-    if (mapping == NULL) {
+    int jamos[3];
+    if (mapping == NULL && (count = hangul::decompose(input, jamos))) {
+      begin = jamos;
+    } else if (mapping == NULL) {
       begin = &(input.value);
       end = begin;
       end++;
diff --git a/include/u5e/hangul.hpp b/include/u5e/hangul.hpp
new file mode 100644
index 0000000..9cd5b6d
--- /dev/null
+++ b/include/u5e/hangul.hpp
@@ -0,0 +1,63 @@
+#ifndef INCLUDED_U5E_HANGUL
+#define INCLUDED_U5E_HANGUL
+
+namespace u5e {
+  /**
+   * \brief arithmetic mapping of the hangul syllables
+   *
+   * The mappings of the hangul syllables are not in the unicode
+   * database, the standard defines them arithmetically (section 3.12,
+   * Conjoining Jamo Behavior).
+   */
+  class hangul {
+  public:
+    static constexpr int s_base = 0xAC00;
+    static constexpr int l_base = 0x1100;
+    static constexpr int v_base = 0x1161;
+    static constexpr int t_base = 0x11A7;
+    static constexpr int l_count = 19;
+    static constexpr int v_count = 21;
+    static constexpr int t_count = 28;
+    static constexpr int s_count = l_count * v_count * t_count;
+
+    /**
+     * Decompose a syllable into jamos, returns how many were written
+     * to the output, which is 0 if the input is not a syllable.
+     */
+    inline static int decompose(int input, int* output) {
+      if (input < s_base || input >= s_base + s_count) {
+        return 0;
+      }
+      int index = input - s_base;
+      int count = 0;
+      output[count++] = l_base + index / (v_count * t_count);
+      output[count++] = v_base + (index / t_count) % v_count;
+      if (index % t_count) {
+        output[count++] = t_base + index % t_count;
+      }
+      return count;
+    }
+
+    /**
+     * Compose a pair of codepoints into a syllable, returns whether
+     * the pair composes.
+     */
+    inline static bool compose(int a, int b, int* r_composed) {
+      if (a >= l_base && a < l_base + l_count &&
+          b >= v_base && b < v_base + v_count) {
+        *r_composed = s_base +
+          ((a - l_base) * v_count + (b - v_base)) * t_count;
+        return true;
+      }
+      if (a >= s_base && a < s_base + s_count &&
+          (a - s_base) % t_count == 0 &&
+          b > t_base && b < t_base + t_count) {
+        *r_composed = a + (b - t_base);
+        return true;
+      }
+      return false;
+    }
+  };
+}
+
+#endif
-- 
2.43.0


From 716f6b06b5287aec12f2a288c5d2f5a064fc3ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 14/17] fix: include every tagged mapping in the compatibility
 decomposition

Only the mappings tagged <compat> were in the table, the ones with a
formatting tag (<font>, <super>, <wide>, <circle>, ...) were left out.
---
 ...d_canonical_decomposition_mapping_data.hpp | 2942 +++++++++++++++++
 ...nd_canonical_decomposition_mapping_data.pl |    7 +-
 2 files changed, 2945 insertions(+), 4 deletions(-)

diff --git a/src/u5e/props/compatibility_and_canonical_decomposition_mapping_data.hpp b/src/u5e/props/compatibility_and_canonical_decomposition_mapping_data.hpp
index 6ace5b0..f2652ad 100644
--- a/src/u5e/props/compatibility_and_canonical_decomposition_mapping_data.hpp
+++ b/src/u5e/props/compatibility_and_canonical_decomposition_mapping_data.hpp
@@ -1,8 +1,17 @@
+{ 160, 32, 0 },
 { 168, 32, 776, 0 },
+{ 170, 97, 0 },
 { 175, 32, 772, 0 },
+{ 178, 50, 0 },
+{ 179, 51, 0 },
 { 180, 32, 769, 0 },
 { 181, 956, 0 },
 { 184, 32, 807, 0 },
+{ 185, 49, 0 },
+{ 186, 111, 0 },
+{ 188, 49, 8260, 52, 0 },
+{ 189, 49, 8260, 50, 0 },
+{ 190, 51, 8260, 52, 0 },
 { 192, 65, 768, 0 },
 { 193, 65, 769, 0 },
 { 194, 65, 770, 0 },
@@ -273,12 +282,26 @@
 { 561, 111, 775, 772, 0 },
 { 562, 89, 772, 0 },
 { 563, 121, 772, 0 },
+{ 688, 104, 0 },
+{ 689, 614, 0 },
+{ 690, 106, 0 },
+{ 691, 114, 0 },
+{ 692, 633, 0 },
+{ 693, 635, 0 },
+{ 694, 641, 0 },
+{ 695, 119, 0 },
+{ 696, 121, 0 },
 { 728, 32, 774, 0 },
 { 729, 32, 775, 0 },
 { 730, 32, 778, 0 },
 { 731, 32, 808, 0 },
 { 732, 32, 771, 0 },
 { 733, 32, 779, 0 },
+{ 736, 611, 0 },
+{ 737, 108, 0 },
+{ 738, 115, 0 },
+{ 739, 120, 0 },
+{ 740, 661, 0 },
 { 832, 768, 0 },
 { 833, 769, 0 },
 { 835, 787, 0 },
@@ -435,6 +458,7 @@
 { 3763, 3789, 3762, 0 },
 { 3804, 3755, 3737, 0 },
 { 3805, 3755, 3745, 0 },
+{ 3852, 3851, 0 },
 { 3907, 3906, 4023, 0 },
 { 3917, 3916, 4023, 0 },
 { 3922, 3921, 4023, 0 },
@@ -455,6 +479,7 @@
 { 4012, 4011, 4023, 0 },
 { 4025, 3984, 4021, 0 },
 { 4134, 4133, 4142, 0 },
+{ 4348, 4316, 0 },
 { 6918, 6917, 6965, 0 },
 { 6920, 6919, 6965, 0 },
 { 6922, 6921, 6965, 0 },
@@ -466,6 +491,104 @@
 { 6976, 6974, 6965, 0 },
 { 6977, 6975, 6965, 0 },
 { 6979, 6978, 6965, 0 },
+{ 7468, 65, 0 },
+{ 7469, 198, 0 },
+{ 7470, 66, 0 },
+{ 7472, 68, 0 },
+{ 7473, 69, 0 },
+{ 7474, 398, 0 },
+{ 7475, 71, 0 },
+{ 7476, 72, 0 },
+{ 7477, 73, 0 },
+{ 7478, 74, 0 },
+{ 7479, 75, 0 },
+{ 7480, 76, 0 },
+{ 7481, 77, 0 },
+{ 7482, 78, 0 },
+{ 7484, 79, 0 },
+{ 7485, 546, 0 },
+{ 7486, 80, 0 },
+{ 7487, 82, 0 },
+{ 7488, 84, 0 },
+{ 7489, 85, 0 },
+{ 7490, 87, 0 },
+{ 7491, 97, 0 },
+{ 7492, 592, 0 },
+{ 7493, 593, 0 },
+{ 7494, 7426, 0 },
+{ 7495, 98, 0 },
+{ 7496, 100, 0 },
+{ 7497, 101, 0 },
+{ 7498, 601, 0 },
+{ 7499, 603, 0 },
+{ 7500, 604, 0 },
+{ 7501, 103, 0 },
+{ 7503, 107, 0 },
+{ 7504, 109, 0 },
+{ 7505, 331, 0 },
+{ 7506, 111, 0 },
+{ 7507, 596, 0 },
+{ 7508, 7446, 0 },
+{ 7509, 7447, 0 },
+{ 7510, 112, 0 },
+{ 7511, 116, 0 },
+{ 7512, 117, 0 },
+{ 7513, 7453, 0 },
+{ 7514, 623, 0 },
+{ 7515, 118, 0 },
+{ 7516, 7461, 0 },
+{ 7517, 946, 0 },
+{ 7518, 947, 0 },
+{ 7519, 948, 0 },
+{ 7520, 966, 0 },
+{ 7521, 967, 0 },
+{ 7522, 105, 0 },
+{ 7523, 114, 0 },
+{ 7524, 117, 0 },
+{ 7525, 118, 0 },
+{ 7526, 946, 0 },
+{ 7527, 947, 0 },
+{ 7528, 961, 0 },
+{ 7529, 966, 0 },
+{ 7530, 967, 0 },
+{ 7544, 1085, 0 },
+{ 7579, 594, 0 },
+{ 7580, 99, 0 },
+{ 7581, 597, 0 },
+{ 7582, 240, 0 },
+{ 7583, 604, 0 },
+{ 7584, 102, 0 },
+{ 7585, 607, 0 },
+{ 7586, 609, 0 },
+{ 7587, 613, 0 },
+{ 7588, 616, 0 },
+{ 7589, 617, 0 },
+{ 7590, 618, 0 },
+{ 7591, 7547, 0 },
+{ 7592, 669, 0 },
+{ 7593, 621, 0 },
+{ 7594, 7557, 0 },
+{ 7595, 671, 0 },
+{ 7596, 625, 0 },
+{ 7597, 624, 0 },
+{ 7598, 626, 0 },
+{ 7599, 627, 0 },
+{ 7600, 628, 0 },
+{ 7601, 629, 0 },
+{ 7602, 632, 0 },
+{ 7603, 642, 0 },
+{ 7604, 643, 0 },
+{ 7605, 427, 0 },
+{ 7606, 649, 0 },
+{ 7607, 650, 0 },
+{ 7608, 7452, 0 },
+{ 7609, 651, 0 },
+{ 7610, 652, 0 },
+{ 7611, 122, 0 },
+{ 7612, 656, 0 },
+{ 7613, 657, 0 },
+{ 7614, 658, 0 },
+{ 7615, 952, 0 },
 { 7680, 65, 805, 0 },
 { 7681, 97, 805, 0 },
 { 7682, 66, 775, 0 },
@@ -952,13 +1075,16 @@
 { 8196, 32, 0 },
 { 8197, 32, 0 },
 { 8198, 32, 0 },
+{ 8199, 32, 0 },
 { 8200, 32, 0 },
 { 8201, 32, 0 },
 { 8202, 32, 0 },
+{ 8209, 8208, 0 },
 { 8215, 32, 819, 0 },
 { 8228, 46, 0 },
 { 8229, 46, 46, 0 },
 { 8230, 46, 46, 46, 0 },
+{ 8239, 32, 0 },
 { 8243, 8242, 8242, 0 },
 { 8244, 8242, 8242, 8242, 0 },
 { 8246, 8245, 8245, 0 },
@@ -970,24 +1096,121 @@
 { 8265, 33, 63, 0 },
 { 8279, 8242, 8242, 8242, 8242, 0 },
 { 8287, 32, 0 },
+{ 8304, 48, 0 },
+{ 8305, 105, 0 },
+{ 8308, 52, 0 },
+{ 8309, 53, 0 },
+{ 8310, 54, 0 },
+{ 8311, 55, 0 },
+{ 8312, 56, 0 },
+{ 8313, 57, 0 },
+{ 8314, 43, 0 },
+{ 8315, 8722, 0 },
+{ 8316, 61, 0 },
+{ 8317, 40, 0 },
+{ 8318, 41, 0 },
+{ 8319, 110, 0 },
+{ 8320, 48, 0 },
+{ 8321, 49, 0 },
+{ 8322, 50, 0 },
+{ 8323, 51, 0 },
+{ 8324, 52, 0 },
+{ 8325, 53, 0 },
+{ 8326, 54, 0 },
+{ 8327, 55, 0 },
+{ 8328, 56, 0 },
+{ 8329, 57, 0 },
+{ 8330, 43, 0 },
+{ 8331, 8722, 0 },
+{ 8332, 61, 0 },
+{ 8333, 40, 0 },
+{ 8334, 41, 0 },
+{ 8336, 97, 0 },
+{ 8337, 101, 0 },
+{ 8338, 111, 0 },
+{ 8339, 120, 0 },
+{ 8340, 601, 0 },
+{ 8341, 104, 0 },
+{ 8342, 107, 0 },
+{ 8343, 108, 0 },
+{ 8344, 109, 0 },
+{ 8345, 110, 0 },
+{ 8346, 112, 0 },
+{ 8347, 115, 0 },
+{ 8348, 116, 0 },
 { 8360, 82, 115, 0 },
 { 8448, 97, 47, 99, 0 },
 { 8449, 97, 47, 115, 0 },
+{ 8450, 67, 0 },
 { 8451, 176, 67, 0 },
 { 8453, 99, 47, 111, 0 },
 { 8454, 99, 47, 117, 0 },
 { 8455, 400, 0 },
 { 8457, 176, 70, 0 },
+{ 8458, 103, 0 },
+{ 8459, 72, 0 },
+{ 8460, 72, 0 },
+{ 8461, 72, 0 },
+{ 8462, 104, 0 },
+{ 8463, 295, 0 },
+{ 8464, 73, 0 },
+{ 8465, 73, 0 },
+{ 8466, 76, 0 },
+{ 8467, 108, 0 },
+{ 8469, 78, 0 },
 { 8470, 78, 111, 0 },
+{ 8473, 80, 0 },
+{ 8474, 81, 0 },
+{ 8475, 82, 0 },
+{ 8476, 82, 0 },
+{ 8477, 82, 0 },
+{ 8480, 83, 77, 0 },
 { 8481, 84, 69, 76, 0 },
+{ 8482, 84, 77, 0 },
+{ 8484, 90, 0 },
 { 8486, 937, 0 },
+{ 8488, 90, 0 },
 { 8490, 75, 0 },
 { 8491, 65, 778, 0 },
+{ 8492, 66, 0 },
+{ 8493, 67, 0 },
+{ 8495, 101, 0 },
+{ 8496, 69, 0 },
+{ 8497, 70, 0 },
+{ 8499, 77, 0 },
+{ 8500, 111, 0 },
 { 8501, 1488, 0 },
 { 8502, 1489, 0 },
 { 8503, 1490, 0 },
 { 8504, 1491, 0 },
+{ 8505, 105, 0 },
 { 8507, 70, 65, 88, 0 },
+{ 8508, 960, 0 },
+{ 8509, 947, 0 },
+{ 8510, 915, 0 },
+{ 8511, 928, 0 },
+{ 8512, 8721, 0 },
+{ 8517, 68, 0 },
+{ 8518, 100, 0 },
+{ 8519, 101, 0 },
+{ 8520, 105, 0 },
+{ 8521, 106, 0 },
+{ 8528, 49, 8260, 55, 0 },
+{ 8529, 49, 8260, 57, 0 },
+{ 8530, 49, 8260, 49, 48, 0 },
+{ 8531, 49, 8260, 51, 0 },
+{ 8532, 50, 8260, 51, 0 },
+{ 8533, 49, 8260, 53, 0 },
+{ 8534, 50, 8260, 53, 0 },
+{ 8535, 51, 8260, 53, 0 },
+{ 8536, 52, 8260, 53, 0 },
+{ 8537, 49, 8260, 54, 0 },
+{ 8538, 53, 8260, 54, 0 },
+{ 8539, 49, 8260, 56, 0 },
+{ 8540, 51, 8260, 56, 0 },
+{ 8541, 53, 8260, 56, 0 },
+{ 8542, 55, 8260, 56, 0 },
+{ 8543, 49, 8260, 0 },
 { 8544, 73, 0 },
 { 8545, 73, 73, 0 },
 { 8546, 73, 73, 73, 0 },
@@ -1020,6 +1243,7 @@
 { 8573, 99, 0 },
 { 8574, 100, 0 },
 { 8575, 109, 0 },
+{ 8585, 48, 8260, 51, 0 },
 { 8602, 8592, 824, 0 },
 { 8603, 8594, 824, 0 },
 { 8622, 8596, 824, 0 },
@@ -1070,6 +1294,26 @@
 { 8941, 8885, 824, 0 },
 { 9001, 12296, 0 },
 { 9002, 12297, 0 },
+{ 9312, 49, 0 },
+{ 9313, 50, 0 },
+{ 9314, 51, 0 },
+{ 9315, 52, 0 },
+{ 9316, 53, 0 },
+{ 9317, 54, 0 },
+{ 9318, 55, 0 },
+{ 9319, 56, 0 },
+{ 9320, 57, 0 },
+{ 9321, 49, 48, 0 },
+{ 9322, 49, 49, 0 },
+{ 9323, 49, 50, 0 },
+{ 9324, 49, 51, 0 },
+{ 9325, 49, 52, 0 },
+{ 9326, 49, 53, 0 },
+{ 9327, 49, 54, 0 },
+{ 9328, 49, 55, 0 },
+{ 9329, 49, 56, 0 },
+{ 9330, 49, 57, 0 },
+{ 9331, 50, 48, 0 },
 { 9332, 40, 49, 41, 0 },
 { 9333, 40, 50, 41, 0 },
 { 9334, 40, 51, 41, 0 },
@@ -1136,11 +1380,67 @@
 { 9395, 40, 120, 41, 0 },
 { 9396, 40, 121, 41, 0 },
 { 9397, 40, 122, 41, 0 },
+{ 9398, 65, 0 },
+{ 9399, 66, 0 },
+{ 9400, 67, 0 },
+{ 9401, 68, 0 },
+{ 9402, 69, 0 },
+{ 9403, 70, 0 },
+{ 9404, 71, 0 },
+{ 9405, 72, 0 },
+{ 9406, 73, 0 },
+{ 9407, 74, 0 },
+{ 9408, 75, 0 },
+{ 9409, 76, 0 },
+{ 9410, 77, 0 },
+{ 9411, 78, 0 },
+{ 9412, 79, 0 },
+{ 9413, 80, 0 },
+{ 9414, 81, 0 },
+{ 9415, 82, 0 },
+{ 9416, 83, 0 },
+{ 9417, 84, 0 },
+{ 9418, 85, 0 },
+{ 9419, 86, 0 },
+{ 9420, 87, 0 },
+{ 9421, 88, 0 },
+{ 9422, 89, 0 },
+{ 9423, 90, 0 },
+{ 9424, 97, 0 },
+{ 9425, 98, 0 },
+{ 9426, 99, 0 },
+{ 9427, 100, 0 },
+{ 9428, 101, 0 },
+{ 9429, 102, 0 },
+{ 9430, 103, 0 },
+{ 9431, 104, 0 },
+{ 9432, 105, 0 },
+{ 9433, 106, 0 },
+{ 9434, 107, 0 },
+{ 9435, 108, 0 },
+{ 9436, 109, 0 },
+{ 9437, 110, 0 },
+{ 9438, 111, 0 },
+{ 9439, 112, 0 },
+{ 9440, 113, 0 },
+{ 9441, 114, 0 },
+{ 9442, 115, 0 },
+{ 9443, 116, 0 },
+{ 9444, 117, 0 },
+{ 9445, 118, 0 },
+{ 9446, 119, 0 },
+{ 9447, 120, 0 },
+{ 9448, 121, 0 },
+{ 9449, 122, 0 },
+{ 9450, 48, 0 },
 { 10764, 8747, 8747, 8747, 8747, 0 },
 { 10868, 58, 58, 61, 0 },
 { 10869, 61, 61, 0 },
 { 10870, 61, 61, 61, 0 },
 { 10972, 10973, 824, 0 },
+{ 11388, 106, 0 },
+{ 11389, 86, 0 },
+{ 11631, 11617, 0 },
 { 11935, 27597, 0 },
 { 12019, 40863, 0 },
 { 12032, 19968, 0 },
@@ -1357,6 +1657,7 @@
 { 12243, 40845, 0 },
 { 12244, 40860, 0 },
 { 12245, 40864, 0 },
+{ 12288, 32, 0 },
 { 12342, 12306, 0 },
 { 12344, 21313, 0 },
 { 12345, 21316, 0 },
@@ -1390,6 +1691,7 @@
 { 12443, 32, 12441, 0 },
 { 12444, 32, 12442, 0 },
 { 12446, 12445, 12441, 0 },
+{ 12447, 12424, 12426, 0 },
 { 12460, 12459, 12441, 0 },
 { 12462, 12461, 12441, 0 },
 { 12464, 12463, 12441, 0 },
@@ -1421,6 +1723,7 @@
 { 12537, 12529, 12441, 0 },
 { 12538, 12530, 12441, 0 },
 { 12542, 12541, 12441, 0 },
+{ 12543, 12467, 12488, 0 },
 { 12593, 4352, 0 },
 { 12594, 4353, 0 },
 { 12595, 4522, 0 },
@@ -1515,6 +1818,20 @@
 { 12684, 4500, 0 },
 { 12685, 4510, 0 },
 { 12686, 4513, 0 },
+{ 12690, 19968, 0 },
+{ 12691, 20108, 0 },
+{ 12692, 19977, 0 },
+{ 12693, 22235, 0 },
+{ 12694, 19978, 0 },
+{ 12695, 20013, 0 },
+{ 12696, 19979, 0 },
+{ 12697, 30002, 0 },
+{ 12698, 20057, 0 },
+{ 12699, 19993, 0 },
+{ 12700, 19969, 0 },
+{ 12701, 22825, 0 },
+{ 12702, 22320, 0 },
+{ 12703, 20154, 0 },
 { 12800, 40, 4352, 41, 0 },
 { 12801, 40, 4354, 41, 0 },
 { 12802, 40, 4355, 41, 0 },
@@ -1582,6 +1899,121 @@
 { 12865, 40, 20241, 41, 0 },
 { 12866, 40, 33258, 41, 0 },
 { 12867, 40, 33267, 41, 0 },
+{ 12868, 21839, 0 },
+{ 12869, 24188, 0 },
+{ 12870, 25991, 0 },
+{ 12871, 31631, 0 },
+{ 12880, 80, 84, 69, 0 },
+{ 12881, 50, 49, 0 },
+{ 12882, 50, 50, 0 },
+{ 12883, 50, 51, 0 },
+{ 12884, 50, 52, 0 },
+{ 12885, 50, 53, 0 },
+{ 12886, 50, 54, 0 },
+{ 12887, 50, 55, 0 },
+{ 12888, 50, 56, 0 },
+{ 12889, 50, 57, 0 },
+{ 12890, 51, 48, 0 },
+{ 12891, 51, 49, 0 },
+{ 12892, 51, 50, 0 },
+{ 12893, 51, 51, 0 },
+{ 12894, 51, 52, 0 },
+{ 12895, 51, 53, 0 },
+{ 12896, 4352, 0 },
+{ 12897, 4354, 0 },
+{ 12898, 4355, 0 },
+{ 12899, 4357, 0 },
+{ 12900, 4358, 0 },
+{ 12901, 4359, 0 },
+{ 12902, 4361, 0 },
+{ 12903, 4363, 0 },
+{ 12904, 4364, 0 },
+{ 12905, 4366, 0 },
+{ 12906, 4367, 0 },
+{ 12907, 4368, 0 },
+{ 12908, 4369, 0 },
+{ 12909, 4370, 0 },
+{ 12910, 4352, 4449, 0 },
+{ 12911, 4354, 4449, 0 },
+{ 12912, 4355, 4449, 0 },
+{ 12913, 4357, 4449, 0 },
+{ 12914, 4358, 4449, 0 },
+{ 12915, 4359, 4449, 0 },
+{ 12916, 4361, 4449, 0 },
+{ 12917, 4363, 4449, 0 },
+{ 12918, 4364, 4449, 0 },
+{ 12919, 4366, 4449, 0 },
+{ 12920, 4367, 4449, 0 },
+{ 12921, 4368, 4449, 0 },
+{ 12922, 4369, 4449, 0 },
+{ 12923, 4370, 4449, 0 },
+{ 12924, 4366, 4449, 4535, 4352, 4457, 0 },
+{ 12925, 4364, 4462, 4363, 4468, 0 },
+{ 12926, 4363, 4462, 0 },
+{ 12928, 19968, 0 },
+{ 12929, 20108, 0 },
+{ 12930, 19977, 0 },
+{ 12931, 22235, 0 },
+{ 12932, 20116, 0 },
+{ 12933, 20845, 0 },
+{ 12934, 19971, 0 },
+{ 12935, 20843, 0 },
+{ 12936, 20061, 0 },
+{ 12937, 21313, 0 },
+{ 12938, 26376, 0 },
+{ 12939, 28779, 0 },
+{ 12940, 27700, 0 },
+{ 12941, 26408, 0 },
+{ 12942, 37329, 0 },
+{ 12943, 22303, 0 },
+{ 12944, 26085, 0 },
+{ 12945, 26666, 0 },
+{ 12946, 26377, 0 },
+{ 12947, 31038, 0 },
+{ 12948, 21517, 0 },
+{ 12949, 29305, 0 },
+{ 12950, 36001, 0 },
+{ 12951, 31069, 0 },
+{ 12952, 21172, 0 },
+{ 12953, 31192, 0 },
+{ 12954, 30007, 0 },
+{ 12955, 22899, 0 },
+{ 12956, 36969, 0 },
+{ 12957, 20778, 0 },
+{ 12958, 21360, 0 },
+{ 12959, 27880, 0 },
+{ 12960, 38917, 0 },
+{ 12961, 20241, 0 },
+{ 12962, 20889, 0 },
+{ 12963, 27491, 0 },
+{ 12964, 19978, 0 },
+{ 12965, 20013, 0 },
+{ 12966, 19979, 0 },
+{ 12967, 24038, 0 },
+{ 12968, 21491, 0 },
+{ 12969, 21307, 0 },
+{ 12970, 23447, 0 },
+{ 12971, 23398, 0 },
+{ 12972, 30435, 0 },
+{ 12973, 20225, 0 },
+{ 12974, 36039, 0 },
+{ 12975, 21332, 0 },
+{ 12976, 22812, 0 },
+{ 12977, 51, 54, 0 },
+{ 12978, 51, 55, 0 },
+{ 12979, 51, 56, 0 },
+{ 12980, 51, 57, 0 },
+{ 12981, 52, 48, 0 },
+{ 12982, 52, 49, 0 },
+{ 12983, 52, 50, 0 },
+{ 12984, 52, 51, 0 },
+{ 12985, 52, 52, 0 },
+{ 12986, 52, 53, 0 },
+{ 12987, 52, 54, 0 },
+{ 12988, 52, 55, 0 },
+{ 12989, 52, 56, 0 },
+{ 12990, 52, 57, 0 },
+{ 12991, 53, 48, 0 },
 { 12992, 49, 26376, 0 },
 { 12993, 50, 26376, 0 },
 { 12994, 51, 26376, 0 },
@@ -1594,6 +2026,145 @@
 { 13001, 49, 48, 26376, 0 },
 { 13002, 49, 49, 26376, 0 },
 { 13003, 49, 50, 26376, 0 },
+{ 13004, 72, 103, 0 },
+{ 13005, 101, 114, 103, 0 },
+{ 13006, 101, 86, 0 },
+{ 13007, 76, 84, 68, 0 },
+{ 13008, 12450, 0 },
+{ 13009, 12452, 0 },
+{ 13010, 12454, 0 },
+{ 13011, 12456, 0 },
+{ 13012, 12458, 0 },
+{ 13013, 12459, 0 },
+{ 13014, 12461, 0 },
+{ 13015, 12463, 0 },
+{ 13016, 12465, 0 },
+{ 13017, 12467, 0 },
+{ 13018, 12469, 0 },
+{ 13019, 12471, 0 },
+{ 13020, 12473, 0 },
+{ 13021, 12475, 0 },
+{ 13022, 12477, 0 },
+{ 13023, 12479, 0 },
+{ 13024, 12481, 0 },
+{ 13025, 12484, 0 },
+{ 13026, 12486, 0 },
+{ 13027, 12488, 0 },
+{ 13028, 12490, 0 },
+{ 13029, 12491, 0 },
+{ 13030, 12492, 0 },
+{ 13031, 12493, 0 },
+{ 13032, 12494, 0 },
+{ 13033, 12495, 0 },
+{ 13034, 12498, 0 },
+{ 13035, 12501, 0 },
+{ 13036, 12504, 0 },
+{ 13037, 12507, 0 },
+{ 13038, 12510, 0 },
+{ 13039, 12511, 0 },
+{ 13040, 12512, 0 },
+{ 13041, 12513, 0 },
+{ 13042, 12514, 0 },
+{ 13043, 12516, 0 },
+{ 13044, 12518, 0 },
+{ 13045, 12520, 0 },
+{ 13046, 12521, 0 },
+{ 13047, 12522, 0 },
+{ 13048, 12523, 0 },
+{ 13049, 12524, 0 },
+{ 13050, 12525, 0 },
+{ 13051, 12527, 0 },
+{ 13052, 12528, 0 },
+{ 13053, 12529, 0 },
+{ 13054, 12530, 0 },
+{ 13056, 12450, 12495, 12442, 12540, 12488, 0 },
+{ 13057, 12450, 12523, 12501, 12449, 0 },
+{ 13058, 12450, 12531, 12504, 12442, 12450, 0 },
+{ 13059, 12450, 12540, 12523, 0 },
+{ 13060, 12452, 12491, 12531, 12463, 12441, 0 },
+{ 13061, 12452, 12531, 12481, 0 },
+{ 13062, 12454, 12457, 12531, 0 },
+{ 13063, 12456, 12473, 12463, 12540, 12488, 12441, 0 },
+{ 13064, 12456, 12540, 12459, 12540, 0 },
+{ 13065, 12458, 12531, 12473, 0 },
+{ 13066, 12458, 12540, 12512, 0 },
+{ 13067, 12459, 12452, 12522, 0 },
+{ 13068, 12459, 12521, 12483, 12488, 0 },
+{ 13069, 12459, 12525, 12522, 12540, 0 },
+{ 13070, 12459, 12441, 12525, 12531, 0 },
+{ 13071, 12459, 12441, 12531, 12510, 0 },
+{ 13072, 12461, 12441, 12459, 12441, 0 },
+{ 13073, 12461, 12441, 12491, 12540, 0 },
+{ 13074, 12461, 12517, 12522, 12540, 0 },
+{ 13075, 12461, 12441, 12523, 12479, 12441, 12540, 0 },
+{ 13076, 12461, 12525, 0 },
+{ 13077, 12461, 12525, 12463, 12441, 12521, 12512, 0 },
+{ 13078, 12461, 12525, 12513, 12540, 12488, 12523, 0 },
+{ 13079, 12461, 12525, 12527, 12483, 12488, 0 },
+{ 13080, 12463, 12441, 12521, 12512, 0 },
+{ 13081, 12463, 12441, 12521, 12512, 12488, 12531, 0 },
+{ 13082, 12463, 12523, 12475, 12441, 12452, 12525, 0 },
+{ 13083, 12463, 12525, 12540, 12493, 0 },
+{ 13084, 12465, 12540, 12473, 0 },
+{ 13085, 12467, 12523, 12490, 0 },
+{ 13086, 12467, 12540, 12507, 12442, 0 },
+{ 13087, 12469, 12452, 12463, 12523, 0 },
+{ 13088, 12469, 12531, 12481, 12540, 12512, 0 },
+{ 13089, 12471, 12522, 12531, 12463, 12441, 0 },
+{ 13090, 12475, 12531, 12481, 0 },
+{ 13091, 12475, 12531, 12488, 0 },
+{ 13092, 12479, 12441, 12540, 12473, 0 },
+{ 13093, 12486, 12441, 12471, 0 },
+{ 13094, 12488, 12441, 12523, 0 },
+{ 13095, 12488, 12531, 0 },
+{ 13096, 12490, 12494, 0 },
+{ 13097, 12494, 12483, 12488, 0 },
+{ 13098, 12495, 12452, 12484, 0 },
+{ 13099, 12495, 12442, 12540, 12475, 12531, 12488, 0 },
+{ 13100, 12495, 12442, 12540, 12484, 0 },
+{ 13101, 12495, 12441, 12540, 12524, 12523, 0 },
+{ 13102, 12498, 12442, 12450, 12473, 12488, 12523, 0 },
+{ 13103, 12498, 12442, 12463, 12523, 0 },
+{ 13104, 12498, 12442, 12467, 0 },
+{ 13105, 12498, 12441, 12523, 0 },
+{ 13106, 12501, 12449, 12521, 12483, 12488, 12441, 0 },
+{ 13107, 12501, 12451, 12540, 12488, 0 },
+{ 13108, 12501, 12441, 12483, 12471, 12455, 12523, 0 },
+{ 13109, 12501, 12521, 12531, 0 },
+{ 13110, 12504, 12463, 12479, 12540, 12523, 0 },
+{ 13111, 12504, 12442, 12477, 0 },
+{ 13112, 12504, 12442, 12491, 12498, 0 },
+{ 13113, 12504, 12523, 12484, 0 },
+{ 13114, 12504, 12442, 12531, 12473, 0 },
+{ 13115, 12504, 12442, 12540, 12471, 12441, 0 },
+{ 13116, 12504, 12441, 12540, 12479, 0 },
+{ 13117, 12507, 12442, 12452, 12531, 12488, 0 },
+{ 13118, 12507, 12441, 12523, 12488, 0 },
+{ 13119, 12507, 12531, 0 },
+{ 13120, 12507, 12442, 12531, 12488, 12441, 0 },
+{ 13121, 12507, 12540, 12523, 0 },
+{ 13122, 12507, 12540, 12531, 0 },
+{ 13123, 12510, 12452, 12463, 12525, 0 },
+{ 13124, 12510, 12452, 12523, 0 },
+{ 13125, 12510, 12483, 12495, 0 },
+{ 13126, 12510, 12523, 12463, 0 },
+{ 13127, 12510, 12531, 12471, 12519, 12531, 0 },
+{ 13128, 12511, 12463, 12525, 12531, 0 },
+{ 13129, 12511, 12522, 0 },
+{ 13130, 12511, 12522, 12495, 12441, 12540, 12523, 0 },
+{ 13131, 12513, 12459, 12441, 0 },
+{ 13132, 12513, 12459, 12441, 12488, 12531, 0 },
+{ 13133, 12513, 12540, 12488, 12523, 0 },
+{ 13134, 12516, 12540, 12488, 12441, 0 },
+{ 13135, 12516, 12540, 12523, 0 },
+{ 13136, 12518, 12450, 12531, 0 },
+{ 13137, 12522, 12483, 12488, 12523, 0 },
+{ 13138, 12522, 12521, 0 },
+{ 13139, 12523, 12498, 12442, 12540, 0 },
+{ 13140, 12523, 12540, 12501, 12441, 12523, 0 },
+{ 13141, 12524, 12512, 0 },
+{ 13142, 12524, 12531, 12488, 12465, 12441, 12531, 0 },
+{ 13143, 12527, 12483, 12488, 0 },
 { 13144, 48, 28857, 0 },
 { 13145, 49, 28857, 0 },
 { 13146, 50, 28857, 0 },
@@ -1619,6 +2190,117 @@
 { 13166, 50, 50, 28857, 0 },
 { 13167, 50, 51, 28857, 0 },
 { 13168, 50, 52, 28857, 0 },
+{ 13169, 104, 80, 97, 0 },
+{ 13170, 100, 97, 0 },
+{ 13171, 65, 85, 0 },
+{ 13172, 98, 97, 114, 0 },
+{ 13173, 111, 86, 0 },
+{ 13174, 112, 99, 0 },
+{ 13175, 100, 109, 0 },
+{ 13176, 100, 109, 50, 0 },
+{ 13177, 100, 109, 51, 0 },
+{ 13178, 73, 85, 0 },
+{ 13179, 24179, 25104, 0 },
+{ 13180, 26157, 21644, 0 },
+{ 13181, 22823, 27491, 0 },
+{ 13182, 26126, 27835, 0 },
+{ 13183, 26666, 24335, 20250, 31038, 0 },
+{ 13184, 112, 65, 0 },
+{ 13185, 110, 65, 0 },
+{ 13186, 956, 65, 0 },
+{ 13187, 109, 65, 0 },
+{ 13188, 107, 65, 0 },
+{ 13189, 75, 66, 0 },
+{ 13190, 77, 66, 0 },
+{ 13191, 71, 66, 0 },
+{ 13192, 99, 97, 108, 0 },
+{ 13193, 107, 99, 97, 108, 0 },
+{ 13194, 112, 70, 0 },
+{ 13195, 110, 70, 0 },
+{ 13196, 956, 70, 0 },
+{ 13197, 956, 103, 0 },
+{ 13198, 109, 103, 0 },
+{ 13199, 107, 103, 0 },
+{ 13200, 72, 122, 0 },
+{ 13201, 107, 72, 122, 0 },
+{ 13202, 77, 72, 122, 0 },
+{ 13203, 71, 72, 122, 0 },
+{ 13204, 84, 72, 122, 0 },
+{ 13205, 956, 108, 0 },
+{ 13206, 109, 108, 0 },
+{ 13207, 100, 108, 0 },
+{ 13208, 107, 108, 0 },
+{ 13209, 102, 109, 0 },
+{ 13210, 110, 109, 0 },
+{ 13211, 956, 109, 0 },
+{ 13212, 109, 109, 0 },
+{ 13213, 99, 109, 0 },
+{ 13214, 107, 109, 0 },
+{ 13215, 109, 109, 50, 0 },
+{ 13216, 99, 109, 50, 0 },
+{ 13217, 109, 50, 0 },
+{ 13218, 107, 109, 50, 0 },
+{ 13219, 109, 109, 51, 0 },
+{ 13220, 99, 109, 51, 0 },
+{ 13221, 109, 51, 0 },
+{ 13222, 107, 109, 51, 0 },
+{ 13223, 109, 8725, 115, 0 },
+{ 13224, 109, 8725, 115, 50, 0 },
+{ 13225, 80, 97, 0 },
+{ 13226, 107, 80, 97, 0 },
+{ 13227, 77, 80, 97, 0 },
+{ 13228, 71, 80, 97, 0 },
+{ 13229, 114, 97, 100, 0 },
+{ 13230, 114, 97, 100, 8725, 115, 0 },
+{ 13231, 114, 97, 100, 8725, 115, 50, 0 },
+{ 13232, 112, 115, 0 },
+{ 13233, 110, 115, 0 },
+{ 13234, 956, 115, 0 },
+{ 13235, 109, 115, 0 },
+{ 13236, 112, 86, 0 },
+{ 13237, 110, 86, 0 },
+{ 13238, 956, 86, 0 },
+{ 13239, 109, 86, 0 },
+{ 13240, 107, 86, 0 },
+{ 13241, 77, 86, 0 },
+{ 13242, 112, 87, 0 },
+{ 13243, 110, 87, 0 },
+{ 13244, 956, 87, 0 },
+{ 13245, 109, 87, 0 },
+{ 13246, 107, 87, 0 },
+{ 13247, 77, 87, 0 },
+{ 13248, 107, 937, 0 },
+{ 13249, 77, 937, 0 },
+{ 13250, 97, 46, 109, 46, 0 },
+{ 13251, 66, 113, 0 },
+{ 13252, 99, 99, 0 },
+{ 13253, 99, 100, 0 },
+{ 13254, 67, 8725, 107, 103, 0 },
+{ 13255, 67, 111, 46, 0 },
+{ 13256, 100, 66, 0 },
+{ 13257, 71, 121, 0 },
+{ 13258, 104, 97, 0 },
+{ 13259, 72, 80, 0 },
+{ 13260, 105, 110, 0 },
+{ 13261, 75, 75, 0 },
+{ 13262, 75, 77, 0 },
+{ 13263, 107, 116, 0 },
+{ 13264, 108, 109, 0 },
+{ 13265, 108, 110, 0 },
+{ 13266, 108, 111, 103, 0 },
+{ 13267, 108, 120, 0 },
+{ 13268, 109, 98, 0 },
+{ 13269, 109, 105, 108, 0 },
+{ 13270, 109, 111, 108, 0 },
+{ 13271, 80, 72, 0 },
+{ 13272, 112, 46, 109, 46, 0 },
+{ 13273, 80, 80, 77, 0 },
+{ 13274, 80, 82, 0 },
+{ 13275, 115, 114, 0 },
+{ 13276, 83, 118, 0 },
+{ 13277, 87, 98, 0 },
+{ 13278, 86, 8725, 109, 0 },
+{ 13279, 65, 8725, 109, 0 },
 { 13280, 49, 26085, 0 },
 { 13281, 50, 26085, 0 },
 { 13282, 51, 26085, 0 },
@@ -1650,6 +2332,16 @@
 { 13308, 50, 57, 26085, 0 },
 { 13309, 51, 48, 26085, 0 },
 { 13310, 51, 49, 26085, 0 },
+{ 13311, 103, 97, 108, 0 },
+{ 42652, 1098, 0 },
+{ 42653, 1100, 0 },
+{ 42864, 42863, 0 },
+{ 43000, 294, 0 },
+{ 43001, 339, 0 },
+{ 43868, 42791, 0 },
+{ 43869, 43831, 0 },
+{ 43870, 619, 0 },
+{ 43871, 43858, 0 },
 { 63744, 35912, 0 },
 { 63745, 26356, 0 },
 { 63746, 36554, 0 },
@@ -2124,6 +2816,16 @@
 { 64279, 1396, 1389, 0 },
 { 64285, 1497, 1460, 0 },
 { 64287, 1522, 1463, 0 },
+{ 64288, 1506, 0 },
+{ 64289, 1488, 0 },
+{ 64290, 1491, 0 },
+{ 64291, 1492, 0 },
+{ 64292, 1499, 0 },
+{ 64293, 1500, 0 },
+{ 64294, 1501, 0 },
+{ 64295, 1512, 0 },
+{ 64296, 1514, 0 },
+{ 64297, 43, 0 },
 { 64298, 1513, 1473, 0 },
 { 64299, 1513, 1474, 0 },
 { 64300, 1513, 1468, 1473, 0 },
@@ -2157,6 +2859,631 @@
 { 64333, 1499, 1471, 0 },
 { 64334, 1508, 1471, 0 },
 { 64335, 1488, 1500, 0 },
+{ 64336, 1649, 0 },
+{ 64337, 1649, 0 },
+{ 64338, 1659, 0 },
+{ 64339, 1659, 0 },
+{ 64340, 1659, 0 },
+{ 64341, 1659, 0 },
+{ 64342, 1662, 0 },
+{ 64343, 1662, 0 },
+{ 64344, 1662, 0 },
+{ 64345, 1662, 0 },
+{ 64346, 1664, 0 },
+{ 64347, 1664, 0 },
+{ 64348, 1664, 0 },
+{ 64349, 1664, 0 },
+{ 64350, 1658, 0 },
+{ 64351, 1658, 0 },
+{ 64352, 1658, 0 },
+{ 64353, 1658, 0 },
+{ 64354, 1663, 0 },
+{ 64355, 1663, 0 },
+{ 64356, 1663, 0 },
+{ 64357, 1663, 0 },
+{ 64358, 1657, 0 },
+{ 64359, 1657, 0 },
+{ 64360, 1657, 0 },
+{ 64361, 1657, 0 },
+{ 64362, 1700, 0 },
+{ 64363, 1700, 0 },
+{ 64364, 1700, 0 },
+{ 64365, 1700, 0 },
+{ 64366, 1702, 0 },
+{ 64367, 1702, 0 },
+{ 64368, 1702, 0 },
+{ 64369, 1702, 0 },
+{ 64370, 1668, 0 },
+{ 64371, 1668, 0 },
+{ 64372, 1668, 0 },
+{ 64373, 1668, 0 },
+{ 64374, 1667, 0 },
+{ 64375, 1667, 0 },
+{ 64376, 1667, 0 },
+{ 64377, 1667, 0 },
+{ 64378, 1670, 0 },
+{ 64379, 1670, 0 },
+{ 64380, 1670, 0 },
+{ 64381, 1670, 0 },
+{ 64382, 1671, 0 },
+{ 64383, 1671, 0 },
+{ 64384, 1671, 0 },
+{ 64385, 1671, 0 },
+{ 64386, 1677, 0 },
+{ 64387, 1677, 0 },
+{ 64388, 1676, 0 },
+{ 64389, 1676, 0 },
+{ 64390, 1678, 0 },
+{ 64391, 1678, 0 },
+{ 64392, 1672, 0 },
+{ 64393, 1672, 0 },
+{ 64394, 1688, 0 },
+{ 64395, 1688, 0 },
+{ 64396, 1681, 0 },
+{ 64397, 1681, 0 },
+{ 64398, 1705, 0 },
+{ 64399, 1705, 0 },
+{ 64400, 1705, 0 },
+{ 64401, 1705, 0 },
+{ 64402, 1711, 0 },
+{ 64403, 1711, 0 },
+{ 64404, 1711, 0 },
+{ 64405, 1711, 0 },
+{ 64406, 1715, 0 },
+{ 64407, 1715, 0 },
+{ 64408, 1715, 0 },
+{ 64409, 1715, 0 },
+{ 64410, 1713, 0 },
+{ 64411, 1713, 0 },
+{ 64412, 1713, 0 },
+{ 64413, 1713, 0 },
+{ 64414, 1722, 0 },
+{ 64415, 1722, 0 },
+{ 64416, 1723, 0 },
+{ 64417, 1723, 0 },
+{ 64418, 1723, 0 },
+{ 64419, 1723, 0 },
+{ 64420, 1749, 1620, 0 },
+{ 64421, 1749, 1620, 0 },
+{ 64422, 1729, 0 },
+{ 64423, 1729, 0 },
+{ 64424, 1729, 0 },
+{ 64425, 1729, 0 },
+{ 64426, 1726, 0 },
+{ 64427, 1726, 0 },
+{ 64428, 1726, 0 },
+{ 64429, 1726, 0 },
+{ 64430, 1746, 0 },
+{ 64431, 1746, 0 },
+{ 64432, 1746, 1620, 0 },
+{ 64433, 1746, 1620, 0 },
+{ 64467, 1709, 0 },
+{ 64468, 1709, 0 },
+{ 64469, 1709, 0 },
+{ 64470, 1709, 0 },
+{ 64471, 1735, 0 },
+{ 64472, 1735, 0 },
+{ 64473, 1734, 0 },
+{ 64474, 1734, 0 },
+{ 64475, 1736, 0 },
+{ 64476, 1736, 0 },
+{ 64477, 1735, 1652, 0 },
+{ 64478, 1739, 0 },
+{ 64479, 1739, 0 },
+{ 64480, 1733, 0 },
+{ 64481, 1733, 0 },
+{ 64482, 1737, 0 },
+{ 64483, 1737, 0 },
+{ 64484, 1744, 0 },
+{ 64485, 1744, 0 },
+{ 64486, 1744, 0 },
+{ 64487, 1744, 0 },
+{ 64488, 1609, 0 },
+{ 64489, 1609, 0 },
+{ 64490, 1610, 1620, 1575, 0 },
+{ 64491, 1610, 1620, 1575, 0 },
+{ 64492, 1610, 1620, 1749, 0 },
+{ 64493, 1610, 1620, 1749, 0 },
+{ 64494, 1610, 1620, 1608, 0 },
+{ 64495, 1610, 1620, 1608, 0 },
+{ 64496, 1610, 1620, 1735, 0 },
+{ 64497, 1610, 1620, 1735, 0 },
+{ 64498, 1610, 1620, 1734, 0 },
+{ 64499, 1610, 1620, 1734, 0 },
+{ 64500, 1610, 1620, 1736, 0 },
+{ 64501, 1610, 1620, 1736, 0 },
+{ 64502, 1610, 1620, 1744, 0 },
+{ 64503, 1610, 1620, 1744, 0 },
+{ 64504, 1610, 1620, 1744, 0 },
+{ 64505, 1610, 1620, 1609, 0 },
+{ 64506, 1610, 1620, 1609, 0 },
+{ 64507, 1610, 1620, 1609, 0 },
+{ 64508, 1740, 0 },
+{ 64509, 1740, 0 },
+{ 64510, 1740, 0 },
+{ 64511, 1740, 0 },
+{ 64512, 1610, 1620, 1580, 0 },
+{ 64513, 1610, 1620, 1581, 0 },
+{ 64514, 1610, 1620, 1605, 0 },
+{ 64515, 1610, 1620, 1609, 0 },
+{ 64516, 1610, 1620, 1610, 0 },
+{ 64517, 1576, 1580, 0 },
+{ 64518, 1576, 1581, 0 },
+{ 64519, 1576, 1582, 0 },
+{ 64520, 1576, 1605, 0 },
+{ 64521, 1576, 1609, 0 },
+{ 64522, 1576, 1610, 0 },
+{ 64523, 1578, 1580, 0 },
+{ 64524, 1578, 1581, 0 },
+{ 64525, 1578, 1582, 0 },
+{ 64526, 1578, 1605, 0 },
+{ 64527, 1578, 1609, 0 },
+{ 64528, 1578, 1610, 0 },
+{ 64529, 1579, 1580, 0 },
+{ 64530, 1579, 1605, 0 },
+{ 64531, 1579, 1609, 0 },
+{ 64532, 1579, 1610, 0 },
+{ 64533, 1580, 1581, 0 },
+{ 64534, 1580, 1605, 0 },
+{ 64535, 1581, 1580, 0 },
+{ 64536, 1581, 1605, 0 },
+{ 64537, 1582, 1580, 0 },
+{ 64538, 1582, 1581, 0 },
+{ 64539, 1582, 1605, 0 },
+{ 64540, 1587, 1580, 0 },
+{ 64541, 1587, 1581, 0 },
+{ 64542, 1587, 1582, 0 },
+{ 64543, 1587, 1605, 0 },
+{ 64544, 1589, 1581, 0 },
+{ 64545, 1589, 1605, 0 },
+{ 64546, 1590, 1580, 0 },
+{ 64547, 1590, 1581, 0 },
+{ 64548, 1590, 1582, 0 },
+{ 64549, 1590, 1605, 0 },
+{ 64550, 1591, 1581, 0 },
+{ 64551, 1591, 1605, 0 },
+{ 64552, 1592, 1605, 0 },
+{ 64553, 1593, 1580, 0 },
+{ 64554, 1593, 1605, 0 },
+{ 64555, 1594, 1580, 0 },
+{ 64556, 1594, 1605, 0 },
+{ 64557, 1601, 1580, 0 },
+{ 64558, 1601, 1581, 0 },
+{ 64559, 1601, 1582, 0 },
+{ 64560, 1601, 1605, 0 },
+{ 64561, 1601, 1609, 0 },
+{ 64562, 1601, 1610, 0 },
+{ 64563, 1602, 1581, 0 },
+{ 64564, 1602, 1605, 0 },
+{ 64565, 1602, 1609, 0 },
+{ 64566, 1602, 1610, 0 },
+{ 64567, 1603, 1575, 0 },
+{ 64568, 1603, 1580, 0 },
+{ 64569, 1603, 1581, 0 },
+{ 64570, 1603, 1582, 0 },
+{ 64571, 1603, 1604, 0 },
+{ 64572, 1603, 1605, 0 },
+{ 64573, 1603, 1609, 0 },
+{ 64574, 1603, 1610, 0 },
+{ 64575, 1604, 1580, 0 },
+{ 64576, 1604, 1581, 0 },
+{ 64577, 1604, 1582, 0 },
+{ 64578, 1604, 1605, 0 },
+{ 64579, 1604, 1609, 0 },
+{ 64580, 1604, 1610, 0 },
+{ 64581, 1605, 1580, 0 },
+{ 64582, 1605, 1581, 0 },
+{ 64583, 1605, 1582, 0 },
+{ 64584, 1605, 1605, 0 },
+{ 64585, 1605, 1609, 0 },
+{ 64586, 1605, 1610, 0 },
+{ 64587, 1606, 1580, 0 },
+{ 64588, 1606, 1581, 0 },
+{ 64589, 1606, 1582, 0 },
+{ 64590, 1606, 1605, 0 },
+{ 64591, 1606, 1609, 0 },
+{ 64592, 1606, 1610, 0 },
+{ 64593, 1607, 1580, 0 },
+{ 64594, 1607, 1605, 0 },
+{ 64595, 1607, 1609, 0 },
+{ 64596, 1607, 1610, 0 },
+{ 64597, 1610, 1580, 0 },
+{ 64598, 1610, 1581, 0 },
+{ 64599, 1610, 1582, 0 },
+{ 64600, 1610, 1605, 0 },
+{ 64601, 1610, 1609, 0 },
+{ 64602, 1610, 1610, 0 },
+{ 64603, 1584, 1648, 0 },
+{ 64604, 1585, 1648, 0 },
+{ 64605, 1609, 1648, 0 },
+{ 64606, 32, 1612, 1617, 0 },
+{ 64607, 32, 1613, 1617, 0 },
+{ 64608, 32, 1614, 1617, 0 },
+{ 64609, 32, 1615, 1617, 0 },
+{ 64610, 32, 1616, 1617, 0 },
+{ 64611, 32, 1617, 1648, 0 },
+{ 64612, 1610, 1620, 1585, 0 },
+{ 64613, 1610, 1620, 1586, 0 },
+{ 64614, 1610, 1620, 1605, 0 },
+{ 64615, 1610, 1620, 1606, 0 },
+{ 64616, 1610, 1620, 1609, 0 },
+{ 64617, 1610, 1620, 1610, 0 },
+{ 64618, 1576, 1585, 0 },
+{ 64619, 1576, 1586, 0 },
+{ 64620, 1576, 1605, 0 },
+{ 64621, 1576, 1606, 0 },
+{ 64622, 1576, 1609, 0 },
+{ 64623, 1576, 1610, 0 },
+{ 64624, 1578, 1585, 0 },
+{ 64625, 1578, 1586, 0 },
+{ 64626, 1578, 1605, 0 },
+{ 64627, 1578, 1606, 0 },
+{ 64628, 1578, 1609, 0 },
+{ 64629, 1578, 1610, 0 },
+{ 64630, 1579, 1585, 0 },
+{ 64631, 1579, 1586, 0 },
+{ 64632, 1579, 1605, 0 },
+{ 64633, 1579, 1606, 0 },
+{ 64634, 1579, 1609, 0 },
+{ 64635, 1579, 1610, 0 },
+{ 64636, 1601, 1609, 0 },
+{ 64637, 1601, 1610, 0 },
+{ 64638, 1602, 1609, 0 },
+{ 64639, 1602, 1610, 0 },
+{ 64640, 1603, 1575, 0 },
+{ 64641, 1603, 1604, 0 },
+{ 64642, 1603, 1605, 0 },
+{ 64643, 1603, 1609, 0 },
+{ 64644, 1603, 1610, 0 },
+{ 64645, 1604, 1605, 0 },
+{ 64646, 1604, 1609, 0 },
+{ 64647, 1604, 1610, 0 },
+{ 64648, 1605, 1575, 0 },
+{ 64649, 1605, 1605, 0 },
+{ 64650, 1606, 1585, 0 },
+{ 64651, 1606, 1586, 0 },
+{ 64652, 1606, 1605, 0 },
+{ 64653, 1606, 1606, 0 },
+{ 64654, 1606, 1609, 0 },
+{ 64655, 1606, 1610, 0 },
+{ 64656, 1609, 1648, 0 },
+{ 64657, 1610, 1585, 0 },
+{ 64658, 1610, 1586, 0 },
+{ 64659, 1610, 1605, 0 },
+{ 64660, 1610, 1606, 0 },
+{ 64661, 1610, 1609, 0 },
+{ 64662, 1610, 1610, 0 },
+{ 64663, 1610, 1620, 1580, 0 },
+{ 64664, 1610, 1620, 1581, 0 },
+{ 64665, 1610, 1620, 1582, 0 },
+{ 64666, 1610, 1620, 1605, 0 },
+{ 64667, 1610, 1620, 1607, 0 },
+{ 64668, 1576, 1580, 0 },
+{ 64669, 1576, 1581, 0 },
+{ 64670, 1576, 1582, 0 },
+{ 64671, 1576, 1605, 0 },
+{ 64672, 1576, 1607, 0 },
+{ 64673, 1578, 1580, 0 },
+{ 64674, 1578, 1581, 0 },
+{ 64675, 1578, 1582, 0 },
+{ 64676, 1578, 1605, 0 },
+{ 64677, 1578, 1607, 0 },
+{ 64678, 1579, 1605, 0 },
+{ 64679, 1580, 1581, 0 },
+{ 64680, 1580, 1605, 0 },
+{ 64681, 1581, 1580, 0 },
+{ 64682, 1581, 1605, 0 },
+{ 64683, 1582, 1580, 0 },
+{ 64684, 1582, 1605, 0 },
+{ 64685, 1587, 1580, 0 },
+{ 64686, 1587, 1581, 0 },
+{ 64687, 1587, 1582, 0 },
+{ 64688, 1587, 1605, 0 },
+{ 64689, 1589, 1581, 0 },
+{ 64690, 1589, 1582, 0 },
+{ 64691, 1589, 1605, 0 },
+{ 64692, 1590, 1580, 0 },
+{ 64693, 1590, 1581, 0 },
+{ 64694, 1590, 1582, 0 },
+{ 64695, 1590, 1605, 0 },
+{ 64696, 1591, 1581, 0 },
+{ 64697, 1592, 1605, 0 },
+{ 64698, 1593, 1580, 0 },
+{ 64699, 1593, 1605, 0 },
+{ 64700, 1594, 1580, 0 },
+{ 64701, 1594, 1605, 0 },
+{ 64702, 1601, 1580, 0 },
+{ 64703, 1601, 1581, 0 },
+{ 64704, 1601, 1582, 0 },
+{ 64705, 1601, 1605, 0 },
+{ 64706, 1602, 1581, 0 },
+{ 64707, 1602, 1605, 0 },
+{ 64708, 1603, 1580, 0 },
+{ 64709, 1603, 1581, 0 },
+{ 64710, 1603, 1582, 0 },
+{ 64711, 1603, 1604, 0 },
+{ 64712, 1603, 1605, 0 },
+{ 64713, 1604, 1580, 0 },
+{ 64714, 1604, 1581, 0 },
+{ 64715, 1604, 1582, 0 },
+{ 64716, 1604, 1605, 0 },
+{ 64717, 1604, 1607, 0 },
+{ 64718, 1605, 1580, 0 },
+{ 64719, 1605, 1581, 0 },
+{ 64720, 1605, 1582, 0 },
+{ 64721, 1605, 1605, 0 },
+{ 64722, 1606, 1580, 0 },
+{ 64723, 1606, 1581, 0 },
+{ 64724, 1606, 1582, 0 },
+{ 64725, 1606, 1605, 0 },
+{ 64726, 1606, 1607, 0 },
+{ 64727, 1607, 1580, 0 },
+{ 64728, 1607, 1605, 0 },
+{ 64729, 1607, 1648, 0 },
+{ 64730, 1610, 1580, 0 },
+{ 64731, 1610, 1581, 0 },
+{ 64732, 1610, 1582, 0 },
+{ 64733, 1610, 1605, 0 },
+{ 64734, 1610, 1607, 0 },
+{ 64735, 1610, 1620, 1605, 0 },
+{ 64736, 1610, 1620, 1607, 0 },
+{ 64737, 1576, 1605, 0 },
+{ 64738, 1576, 1607, 0 },
+{ 64739, 1578, 1605, 0 },
+{ 64740, 1578, 1607, 0 },
+{ 64741, 1579, 1605, 0 },
+{ 64742, 1579, 1607, 0 },
+{ 64743, 1587, 1605, 0 },
+{ 64744, 1587, 1607, 0 },
+{ 64745, 1588, 1605, 0 },
+{ 64746, 1588, 1607, 0 },
+{ 64747, 1603, 1604, 0 },
+{ 64748, 1603, 1605, 0 },
+{ 64749, 1604, 1605, 0 },
+{ 64750, 1606, 1605, 0 },
+{ 64751, 1606, 1607, 0 },
+{ 64752, 1610, 1605, 0 },
+{ 64753, 1610, 1607, 0 },
+{ 64754, 1600, 1614, 1617, 0 },
+{ 64755, 1600, 1615, 1617, 0 },
+{ 64756, 1600, 1616, 1617, 0 },
+{ 64757, 1591, 1609, 0 },
+{ 64758, 1591, 1610, 0 },
+{ 64759, 1593, 1609, 0 },
+{ 64760, 1593, 1610, 0 },
+{ 64761, 1594, 1609, 0 },
+{ 64762, 1594, 1610, 0 },
+{ 64763, 1587, 1609, 0 },
+{ 64764, 1587, 1610, 0 },
+{ 64765, 1588, 1609, 0 },
+{ 64766, 1588, 1610, 0 },
+{ 64767, 1581, 1609, 0 },
+{ 64768, 1581, 1610, 0 },
+{ 64769, 1580, 1609, 0 },
+{ 64770, 1580, 1610, 0 },
+{ 64771, 1582, 1609, 0 },
+{ 64772, 1582, 1610, 0 },
+{ 64773, 1589, 1609, 0 },
+{ 64774, 1589, 1610, 0 },
+{ 64775, 1590, 1609, 0 },
+{ 64776, 1590, 1610, 0 },
+{ 64777, 1588, 1580, 0 },
+{ 64778, 1588, 1581, 0 },
+{ 64779, 1588, 1582, 0 },
+{ 64780, 1588, 1605, 0 },
+{ 64781, 1588, 1585, 0 },
+{ 64782, 1587, 1585, 0 },
+{ 64783, 1589, 1585, 0 },
+{ 64784, 1590, 1585, 0 },
+{ 64785, 1591, 1609, 0 },
+{ 64786, 1591, 1610, 0 },
+{ 64787, 1593, 1609, 0 },
+{ 64788, 1593, 1610, 0 },
+{ 64789, 1594, 1609, 0 },
+{ 64790, 1594, 1610, 0 },
+{ 64791, 1587, 1609, 0 },
+{ 64792, 1587, 1610, 0 },
+{ 64793, 1588, 1609, 0 },
+{ 64794, 1588, 1610, 0 },
+{ 64795, 1581, 1609, 0 },
+{ 64796, 1581, 1610, 0 },
+{ 64797, 1580, 1609, 0 },
+{ 64798, 1580, 1610, 0 },
+{ 64799, 1582, 1609, 0 },
+{ 64800, 1582, 1610, 0 },
+{ 64801, 1589, 1609, 0 },
+{ 64802, 1589, 1610, 0 },
+{ 64803, 1590, 1609, 0 },
+{ 64804, 1590, 1610, 0 },
+{ 64805, 1588, 1580, 0 },
+{ 64806, 1588, 1581, 0 },
+{ 64807, 1588, 1582, 0 },
+{ 64808, 1588, 1605, 0 },
+{ 64809, 1588, 1585, 0 },
+{ 64810, 1587, 1585, 0 },
+{ 64811, 1589, 1585, 0 },
+{ 64812, 1590, 1585, 0 },
+{ 64813, 1588, 1580, 0 },
+{ 64814, 1588, 1581, 0 },
+{ 64815, 1588, 1582, 0 },
+{ 64816, 1588, 1605, 0 },
+{ 64817, 1587, 1607, 0 },
+{ 64818, 1588, 1607, 0 },
+{ 64819, 1591, 1605, 0 },
+{ 64820, 1587, 1580, 0 },
+{ 64821, 1587, 1581, 0 },
+{ 64822, 1587, 1582, 0 },
+{ 64823, 1588, 1580, 0 },
+{ 64824, 1588, 1581, 0 },
+{ 64825, 1588, 1582, 0 },
+{ 64826, 1591, 1605, 0 },
+{ 64827, 1592, 1605, 0 },
+{ 64828, 1575, 1611, 0 },
+{ 64829, 1575, 1611, 0 },
+{ 64848, 1578, 1580, 1605, 0 },
+{ 64849, 1578, 1581, 1580, 0 },
+{ 64850, 1578, 1581, 1580, 0 },
+{ 64851, 1578, 1581, 1605, 0 },
+{ 64852, 1578, 1582, 1605, 0 },
+{ 64853, 1578, 1605, 1580, 0 },
+{ 64854, 1578, 1605, 1581, 0 },
+{ 64855, 1578, 1605, 1582, 0 },
+{ 64856, 1580, 1605, 1581, 0 },
+{ 64857, 1580, 1605, 1581, 0 },
+{ 64858, 1581, 1605, 1610, 0 },
+{ 64859, 1581, 1605, 1609, 0 },
+{ 64860, 1587, 1581, 1580, 0 },
+{ 64861, 1587, 1580, 1581, 0 },
+{ 64862, 1587, 1580, 1609, 0 },
+{ 64863, 1587, 1605, 1581, 0 },
+{ 64864, 1587, 1605, 1581, 0 },
+{ 64865, 1587, 1605, 1580, 0 },
+{ 64866, 1587, 1605, 1605, 0 },
+{ 64867, 1587, 1605, 1605, 0 },
+{ 64868, 1589, 1581, 1581, 0 },
+{ 64869, 1589, 1581, 1581, 0 },
+{ 64870, 1589, 1605, 1605, 0 },
+{ 64871, 1588, 1581, 1605, 0 },
+{ 64872, 1588, 1581, 1605, 0 },
+{ 64873, 1588, 1580, 1610, 0 },
+{ 64874, 1588, 1605, 1582, 0 },
+{ 64875, 1588, 1605, 1582, 0 },
+{ 64876, 1588, 1605, 1605, 0 },
+{ 64877, 1588, 1605, 1605, 0 },
+{ 64878, 1590, 1581, 1609, 0 },
+{ 64879, 1590, 1582, 1605, 0 },
+{ 64880, 1590, 1582, 1605, 0 },
+{ 64881, 1591, 1605, 1581, 0 },
+{ 64882, 1591, 1605, 1581, 0 },
+{ 64883, 1591, 1605, 1605, 0 },
+{ 64884, 1591, 1605, 1610, 0 },
+{ 64885, 1593, 1580, 1605, 0 },
+{ 64886, 1593, 1605, 1605, 0 },
+{ 64887, 1593, 1605, 1605, 0 },
+{ 64888, 1593, 1605, 1609, 0 },
+{ 64889, 1594, 1605, 1605, 0 },
+{ 64890, 1594, 1605, 1610, 0 },
+{ 64891, 1594, 1605, 1609, 0 },
+{ 64892, 1601, 1582, 1605, 0 },
+{ 64893, 1601, 1582, 1605, 0 },
+{ 64894, 1602, 1605, 1581, 0 },
+{ 64895, 1602, 1605, 1605, 0 },
+{ 64896, 1604, 1581, 1605, 0 },
+{ 64897, 1604, 1581, 1610, 0 },
+{ 64898, 1604, 1581, 1609, 0 },
+{ 64899, 1604, 1580, 1580, 0 },
+{ 64900, 1604, 1580, 1580, 0 },
+{ 64901, 1604, 1582, 1605, 0 },
+{ 64902, 1604, 1582, 1605, 0 },
+{ 64903, 1604, 1605, 1581, 0 },
+{ 64904, 1604, 1605, 1581, 0 },
+{ 64905, 1605, 1581, 1580, 0 },
+{ 64906, 1605, 1581, 1605, 0 },
+{ 64907, 1605, 1581, 1610, 0 },
+{ 64908, 1605, 1580, 1581, 0 },
+{ 64909, 1605, 1580, 1605, 0 },
+{ 64910, 1605, 1582, 1580, 0 },
+{ 64911, 1605, 1582, 1605, 0 },
+{ 64914, 1605, 1580, 1582, 0 },
+{ 64915, 1607, 1605, 1580, 0 },
+{ 64916, 1607, 1605, 1605, 0 },
+{ 64917, 1606, 1581, 1605, 0 },
+{ 64918, 1606, 1581, 1609, 0 },
+{ 64919, 1606, 1580, 1605, 0 },
+{ 64920, 1606, 1580, 1605, 0 },
+{ 64921, 1606, 1580, 1609, 0 },
+{ 64922, 1606, 1605, 1610, 0 },
+{ 64923, 1606, 1605, 1609, 0 },
+{ 64924, 1610, 1605, 1605, 0 },
+{ 64925, 1610, 1605, 1605, 0 },
+{ 64926, 1576, 1582, 1610, 0 },
+{ 64927, 1578, 1580, 1610, 0 },
+{ 64928, 1578, 1580, 1609, 0 },
+{ 64929, 1578, 1582, 1610, 0 },
+{ 64930, 1578, 1582, 1609, 0 },
+{ 64931, 1578, 1605, 1610, 0 },
+{ 64932, 1578, 1605, 1609, 0 },
+{ 64933, 1580, 1605, 1610, 0 },
+{ 64934, 1580, 1581, 1609, 0 },
+{ 64935, 1580, 1605, 1609, 0 },
+{ 64936, 1587, 1582, 1609, 0 },
+{ 64937, 1589, 1581, 1610, 0 },
+{ 64938, 1588, 1581, 1610, 0 },
+{ 64939, 1590, 1581, 1610, 0 },
+{ 64940, 1604, 1580, 1610, 0 },
+{ 64941, 1604, 1605, 1610, 0 },
+{ 64942, 1610, 1581, 1610, 0 },
+{ 64943, 1610, 1580, 1610, 0 },
+{ 64944, 1610, 1605, 1610, 0 },
+{ 64945, 1605, 1605, 1610, 0 },
+{ 64946, 1602, 1605, 1610, 0 },
+{ 64947, 1606, 1581, 1610, 0 },
+{ 64948, 1602, 1605, 1581, 0 },
+{ 64949, 1604, 1581, 1605, 0 },
+{ 64950, 1593, 1605, 1610, 0 },
+{ 64951, 1603, 1605, 1610, 0 },
+{ 64952, 1606, 1580, 1581, 0 },
+{ 64953, 1605, 1582, 1610, 0 },
+{ 64954, 1604, 1580, 1605, 0 },
+{ 64955, 1603, 1605, 1605, 0 },
+{ 64956, 1604, 1580, 1605, 0 },
+{ 64957, 1606, 1580, 1581, 0 },
+{ 64958, 1580, 1581, 1610, 0 },
+{ 64959, 1581, 1580, 1610, 0 },
+{ 64960, 1605, 1580, 1610, 0 },
+{ 64961, 1601, 1605, 1610, 0 },
+{ 64962, 1576, 1581, 1610, 0 },
+{ 64963, 1603, 1605, 1605, 0 },
+{ 64964, 1593, 1580, 1605, 0 },
+{ 64965, 1589, 1605, 1605, 0 },
+{ 64966, 1587, 1582, 1610, 0 },
+{ 64967, 1606, 1580, 1610, 0 },
+{ 65008, 1589, 1604, 1746, 0 },
+{ 65009, 1602, 1604, 1746, 0 },
+{ 65010, 1575, 1604, 1604, 1607, 0 },
+{ 65011, 1575, 1603, 1576, 1585, 0 },
+{ 65012, 1605, 1581, 1605, 1583, 0 },
+{ 65013, 1589, 1604, 1593, 1605, 0 },
+{ 65014, 1585, 1587, 1608, 1604, 0 },
+{ 65015, 1593, 1604, 1610, 1607, 0 },
+{ 65016, 1608, 1587, 1604, 1605, 0 },
+{ 65017, 1589, 1604, 1609, 0 },
+{ 65018, 1589, 1604, 1609, 32, 1575, 1604, 1604, 1607, 32, 1593, 1604, 1610, 1607, 32, 1608, 1587, 1604, 1605, 0 },
+{ 65019, 1580, 1604, 32, 1580, 1604, 1575, 1604, 1607, 0 },
+{ 65020, 1585, 1740, 1575, 1604, 0 },
+{ 65040, 44, 0 },
+{ 65041, 12289, 0 },
+{ 65042, 12290, 0 },
+{ 65043, 58, 0 },
+{ 65044, 59, 0 },
+{ 65045, 33, 0 },
+{ 65046, 63, 0 },
+{ 65047, 12310, 0 },
+{ 65048, 12311, 0 },
+{ 65049, 46, 46, 46, 0 },
+{ 65072, 46, 46, 0 },
+{ 65073, 8212, 0 },
+{ 65074, 8211, 0 },
+{ 65075, 95, 0 },
+{ 65076, 95, 0 },
+{ 65077, 40, 0 },
+{ 65078, 41, 0 },
+{ 65079, 123, 0 },
+{ 65080, 125, 0 },
+{ 65081, 12308, 0 },
+{ 65082, 12309, 0 },
+{ 65083, 12304, 0 },
+{ 65084, 12305, 0 },
+{ 65085, 12298, 0 },
+{ 65086, 12299, 0 },
+{ 65087, 12296, 0 },
+{ 65088, 12297, 0 },
+{ 65089, 12300, 0 },
+{ 65090, 12301, 0 },
+{ 65091, 12302, 0 },
+{ 65092, 12303, 0 },
+{ 65095, 91, 0 },
+{ 65096, 93, 0 },
 { 65097, 32, 773, 0 },
 { 65098, 32, 773, 0 },
 { 65099, 32, 773, 0 },
@@ -2164,6 +3491,396 @@
 { 65101, 95, 0 },
 { 65102, 95, 0 },
 { 65103, 95, 0 },
+{ 65104, 44, 0 },
+{ 65105, 12289, 0 },
+{ 65106, 46, 0 },
+{ 65108, 59, 0 },
+{ 65109, 58, 0 },
+{ 65110, 63, 0 },
+{ 65111, 33, 0 },
+{ 65112, 8212, 0 },
+{ 65113, 40, 0 },
+{ 65114, 41, 0 },
+{ 65115, 123, 0 },
+{ 65116, 125, 0 },
+{ 65117, 12308, 0 },
+{ 65118, 12309, 0 },
+{ 65119, 35, 0 },
+{ 65120, 38, 0 },
+{ 65121, 42, 0 },
+{ 65122, 43, 0 },
+{ 65123, 45, 0 },
+{ 65124, 60, 0 },
+{ 65125, 62, 0 },
+{ 65126, 61, 0 },
+{ 65128, 92, 0 },
+{ 65129, 36, 0 },
+{ 65130, 37, 0 },
+{ 65131, 64, 0 },
+{ 65136, 32, 1611, 0 },
+{ 65137, 1600, 1611, 0 },
+{ 65138, 32, 1612, 0 },
+{ 65140, 32, 1613, 0 },
+{ 65142, 32, 1614, 0 },
+{ 65143, 1600, 1614, 0 },
+{ 65144, 32, 1615, 0 },
+{ 65145, 1600, 1615, 0 },
+{ 65146, 32, 1616, 0 },
+{ 65147, 1600, 1616, 0 },
+{ 65148, 32, 1617, 0 },
+{ 65149, 1600, 1617, 0 },
+{ 65150, 32, 1618, 0 },
+{ 65151, 1600, 1618, 0 },
+{ 65152, 1569, 0 },
+{ 65153, 1575, 1619, 0 },
+{ 65154, 1575, 1619, 0 },
+{ 65155, 1575, 1620, 0 },
+{ 65156, 1575, 1620, 0 },
+{ 65157, 1608, 1620, 0 },
+{ 65158, 1608, 1620, 0 },
+{ 65159, 1575, 1621, 0 },
+{ 65160, 1575, 1621, 0 },
+{ 65161, 1610, 1620, 0 },
+{ 65162, 1610, 1620, 0 },
+{ 65163, 1610, 1620, 0 },
+{ 65164, 1610, 1620, 0 },
+{ 65165, 1575, 0 },
+{ 65166, 1575, 0 },
+{ 65167, 1576, 0 },
+{ 65168, 1576, 0 },
+{ 65169, 1576, 0 },
+{ 65170, 1576, 0 },
+{ 65171, 1577, 0 },
+{ 65172, 1577, 0 },
+{ 65173, 1578, 0 },
+{ 65174, 1578, 0 },
+{ 65175, 1578, 0 },
+{ 65176, 1578, 0 },
+{ 65177, 1579, 0 },
+{ 65178, 1579, 0 },
+{ 65179, 1579, 0 },
+{ 65180, 1579, 0 },
+{ 65181, 1580, 0 },
+{ 65182, 1580, 0 },
+{ 65183, 1580, 0 },
+{ 65184, 1580, 0 },
+{ 65185, 1581, 0 },
+{ 65186, 1581, 0 },
+{ 65187, 1581, 0 },
+{ 65188, 1581, 0 },
+{ 65189, 1582, 0 },
+{ 65190, 1582, 0 },
+{ 65191, 1582, 0 },
+{ 65192, 1582, 0 },
+{ 65193, 1583, 0 },
+{ 65194, 1583, 0 },
+{ 65195, 1584, 0 },
+{ 65196, 1584, 0 },
+{ 65197, 1585, 0 },
+{ 65198, 1585, 0 },
+{ 65199, 1586, 0 },
+{ 65200, 1586, 0 },
+{ 65201, 1587, 0 },
+{ 65202, 1587, 0 },
+{ 65203, 1587, 0 },
+{ 65204, 1587, 0 },
+{ 65205, 1588, 0 },
+{ 65206, 1588, 0 },
+{ 65207, 1588, 0 },
+{ 65208, 1588, 0 },
+{ 65209, 1589, 0 },
+{ 65210, 1589, 0 },
+{ 65211, 1589, 0 },
+{ 65212, 1589, 0 },
+{ 65213, 1590, 0 },
+{ 65214, 1590, 0 },
+{ 65215, 1590, 0 },
+{ 65216, 1590, 0 },
+{ 65217, 1591, 0 },
+{ 65218, 1591, 0 },
+{ 65219, 1591, 0 },
+{ 65220, 1591, 0 },
+{ 65221, 1592, 0 },
+{ 65222, 1592, 0 },
+{ 65223, 1592, 0 },
+{ 65224, 1592, 0 },
+{ 65225, 1593, 0 },
+{ 65226, 1593, 0 },
+{ 65227, 1593, 0 },
+{ 65228, 1593, 0 },
+{ 65229, 1594, 0 },
+{ 65230, 1594, 0 },
+{ 65231, 1594, 0 },
+{ 65232, 1594, 0 },
+{ 65233, 1601, 0 },
+{ 65234, 1601, 0 },
+{ 65235, 1601, 0 },
+{ 65236, 1601, 0 },
+{ 65237, 1602, 0 },
+{ 65238, 1602, 0 },
+{ 65239, 1602, 0 },
+{ 65240, 1602, 0 },
+{ 65241, 1603, 0 },
+{ 65242, 1603, 0 },
+{ 65243, 1603, 0 },
+{ 65244, 1603, 0 },
+{ 65245, 1604, 0 },
+{ 65246, 1604, 0 },
+{ 65247, 1604, 0 },
+{ 65248, 1604, 0 },
+{ 65249, 1605, 0 },
+{ 65250, 1605, 0 },
+{ 65251, 1605, 0 },
+{ 65252, 1605, 0 },
+{ 65253, 1606, 0 },
+{ 65254, 1606, 0 },
+{ 65255, 1606, 0 },
+{ 65256, 1606, 0 },
+{ 65257, 1607, 0 },
+{ 65258, 1607, 0 },
+{ 65259, 1607, 0 },
+{ 65260, 1607, 0 },
+{ 65261, 1608, 0 },
+{ 65262, 1608, 0 },
+{ 65263, 1609, 0 },
+{ 65264, 1609, 0 },
+{ 65265, 1610, 0 },
+{ 65266, 1610, 0 },
+{ 65267, 1610, 0 },
+{ 65268, 1610, 0 },
+{ 65269, 1604, 1575, 1619, 0 },
+{ 65270, 1604, 1575, 1619, 0 },
+{ 65271, 1604, 1575, 1620, 0 },
+{ 65272, 1604, 1575, 1620, 0 },
+{ 65273, 1604, 1575, 1621, 0 },
+{ 65274, 1604, 1575, 1621, 0 },
+{ 65275, 1604, 1575, 0 },
+{ 65276, 1604, 1575, 0 },
+{ 65281, 33, 0 },
+{ 65282, 34, 0 },
+{ 65283, 35, 0 },
+{ 65284, 36, 0 },
+{ 65285, 37, 0 },
+{ 65286, 38, 0 },
+{ 65287, 39, 0 },
+{ 65288, 40, 0 },
+{ 65289, 41, 0 },
+{ 65290, 42, 0 },
+{ 65291, 43, 0 },
+{ 65292, 44, 0 },
+{ 65293, 45, 0 },
+{ 65294, 46, 0 },
+{ 65295, 47, 0 },
+{ 65296, 48, 0 },
+{ 65297, 49, 0 },
+{ 65298, 50, 0 },
+{ 65299, 51, 0 },
+{ 65300, 52, 0 },
+{ 65301, 53, 0 },
+{ 65302, 54, 0 },
+{ 65303, 55, 0 },
+{ 65304, 56, 0 },
+{ 65305, 57, 0 },
+{ 65306, 58, 0 },
+{ 65307, 59, 0 },
+{ 65308, 60, 0 },
+{ 65309, 61, 0 },
+{ 65310, 62, 0 },
+{ 65311, 63, 0 },
+{ 65312, 64, 0 },
+{ 65313, 65, 0 },
+{ 65314, 66, 0 },
+{ 65315, 67, 0 },
+{ 65316, 68, 0 },
+{ 65317, 69, 0 },
+{ 65318, 70, 0 },
+{ 65319, 71, 0 },
+{ 65320, 72, 0 },
+{ 65321, 73, 0 },
+{ 65322, 74, 0 },
+{ 65323, 75, 0 },
+{ 65324, 76, 0 },
+{ 65325, 77, 0 },
+{ 65326, 78, 0 },
+{ 65327, 79, 0 },
+{ 65328, 80, 0 },
+{ 65329, 81, 0 },
+{ 65330, 82, 0 },
+{ 65331, 83, 0 },
+{ 65332, 84, 0 },
+{ 65333, 85, 0 },
+{ 65334, 86, 0 },
+{ 65335, 87, 0 },
+{ 65336, 88, 0 },
+{ 65337, 89, 0 },
+{ 65338, 90, 0 },
+{ 65339, 91, 0 },
+{ 65340, 92, 0 },
+{ 65341, 93, 0 },
+{ 65342, 94, 0 },
+{ 65343, 95, 0 },
+{ 65344, 96, 0 },
+{ 65345, 97, 0 },
+{ 65346, 98, 0 },
+{ 65347, 99, 0 },
+{ 65348, 100, 0 },
+{ 65349, 101, 0 },
+{ 65350, 102, 0 },
+{ 65351, 103, 0 },
+{ 65352, 104, 0 },
+{ 65353, 105, 0 },
+{ 65354, 106, 0 },
+{ 65355, 107, 0 },
+{ 65356, 108, 0 },
+{ 65357, 109, 0 },
+{ 65358, 110, 0 },
+{ 65359, 111, 0 },
+{ 65360, 112, 0 },
+{ 65361, 113, 0 },
+{ 65362, 114, 0 },
+{ 65363, 115, 0 },
+{ 65364, 116, 0 },
+{ 65365, 117, 0 },
+{ 65366, 118, 0 },
+{ 65367, 119, 0 },
+{ 65368, 120, 0 },
+{ 65369, 121, 0 },
+{ 65370, 122, 0 },
+{ 65371, 123, 0 },
+{ 65372, 124, 0 },
+{ 65373, 125, 0 },
+{ 65374, 126, 0 },
+{ 65375, 10629, 0 },
+{ 65376, 10630, 0 },
+{ 65377, 12290, 0 },
+{ 65378, 12300, 0 },
+{ 65379, 12301, 0 },
+{ 65380, 12289, 0 },
+{ 65381, 12539, 0 },
+{ 65382, 12530, 0 },
+{ 65383, 12449, 0 },
+{ 65384, 12451, 0 },
+{ 65385, 12453, 0 },
+{ 65386, 12455, 0 },
+{ 65387, 12457, 0 },
+{ 65388, 12515, 0 },
+{ 65389, 12517, 0 },
+{ 65390, 12519, 0 },
+{ 65391, 12483, 0 },
+{ 65392, 12540, 0 },
+{ 65393, 12450, 0 },
+{ 65394, 12452, 0 },
+{ 65395, 12454, 0 },
+{ 65396, 12456, 0 },
+{ 65397, 12458, 0 },
+{ 65398, 12459, 0 },
+{ 65399, 12461, 0 },
+{ 65400, 12463, 0 },
+{ 65401, 12465, 0 },
+{ 65402, 12467, 0 },
+{ 65403, 12469, 0 },
+{ 65404, 12471, 0 },
+{ 65405, 12473, 0 },
+{ 65406, 12475, 0 },
+{ 65407, 12477, 0 },
+{ 65408, 12479, 0 },
+{ 65409, 12481, 0 },
+{ 65410, 12484, 0 },
+{ 65411, 12486, 0 },
+{ 65412, 12488, 0 },
+{ 65413, 12490, 0 },
+{ 65414, 12491, 0 },
+{ 65415, 12492, 0 },
+{ 65416, 12493, 0 },
+{ 65417, 12494, 0 },
+{ 65418, 12495, 0 },
+{ 65419, 12498, 0 },
+{ 65420, 12501, 0 },
+{ 65421, 12504, 0 },
+{ 65422, 12507, 0 },
+{ 65423, 12510, 0 },
+{ 65424, 12511, 0 },
+{ 65425, 12512, 0 },
+{ 65426, 12513, 0 },
+{ 65427, 12514, 0 },
+{ 65428, 12516, 0 },
+{ 65429, 12518, 0 },
+{ 65430, 12520, 0 },
+{ 65431, 12521, 0 },
+{ 65432, 12522, 0 },
+{ 65433, 12523, 0 },
+{ 65434, 12524, 0 },
+{ 65435, 12525, 0 },
+{ 65436, 12527, 0 },
+{ 65437, 12531, 0 },
+{ 65438, 12441, 0 },
+{ 65439, 12442, 0 },
+{ 65440, 4448, 0 },
+{ 65441, 4352, 0 },
+{ 65442, 4353, 0 },
+{ 65443, 4522, 0 },
+{ 65444, 4354, 0 },
+{ 65445, 4524, 0 },
+{ 65446, 4525, 0 },
+{ 65447, 4355, 0 },
+{ 65448, 4356, 0 },
+{ 65449, 4357, 0 },
+{ 65450, 4528, 0 },
+{ 65451, 4529, 0 },
+{ 65452, 4530, 0 },
+{ 65453, 4531, 0 },
+{ 65454, 4532, 0 },
+{ 65455, 4533, 0 },
+{ 65456, 4378, 0 },
+{ 65457, 4358, 0 },
+{ 65458, 4359, 0 },
+{ 65459, 4360, 0 },
+{ 65460, 4385, 0 },
+{ 65461, 4361, 0 },
+{ 65462, 4362, 0 },
+{ 65463, 4363, 0 },
+{ 65464, 4364, 0 },
+{ 65465, 4365, 0 },
+{ 65466, 4366, 0 },
+{ 65467, 4367, 0 },
+{ 65468, 4368, 0 },
+{ 65469, 4369, 0 },
+{ 65470, 4370, 0 },
+{ 65474, 4449, 0 },
+{ 65475, 4450, 0 },
+{ 65476, 4451, 0 },
+{ 65477, 4452, 0 },
+{ 65478, 4453, 0 },
+{ 65479, 4454, 0 },
+{ 65482, 4455, 0 },
+{ 65483, 4456, 0 },
+{ 65484, 4457, 0 },
+{ 65485, 4458, 0 },
+{ 65486, 4459, 0 },
+{ 65487, 4460, 0 },
+{ 65490, 4461, 0 },
+{ 65491, 4462, 0 },
+{ 65492, 4463, 0 },
+{ 65493, 4464, 0 },
+{ 65494, 4465, 0 },
+{ 65495, 4466, 0 },
+{ 65498, 4467, 0 },
+{ 65499, 4468, 0 },
+{ 65500, 4469, 0 },
+{ 65504, 162, 0 },
+{ 65505, 163, 0 },
+{ 65506, 172, 0 },
+{ 65507, 32, 772, 0 },
+{ 65508, 166, 0 },
+{ 65509, 165, 0 },
+{ 65510, 8361, 0 },
+{ 65512, 9474, 0 },
+{ 65513, 8592, 0 },
+{ 65514, 8593, 0 },
+{ 65515, 8594, 0 },
+{ 65516, 8595, 0 },
+{ 65517, 9632, 0 },
+{ 65518, 9675, 0 },
 { 69786, 69785, 69818, 0 },
 { 69788, 69787, 69818, 0 },
 { 69803, 69797, 69818, 0 },
@@ -2189,6 +3906,1143 @@
 { 119230, 119226, 119141, 119150, 0 },
 { 119231, 119225, 119141, 119151, 0 },
 { 119232, 119226, 119141, 119151, 0 },
+{ 119808, 65, 0 },
+{ 119809, 66, 0 },
+{ 119810, 67, 0 },
+{ 119811, 68, 0 },
+{ 119812, 69, 0 },
+{ 119813, 70, 0 },
+{ 119814, 71, 0 },
+{ 119815, 72, 0 },
+{ 119816, 73, 0 },
+{ 119817, 74, 0 },
+{ 119818, 75, 0 },
+{ 119819, 76, 0 },
+{ 119820, 77, 0 },
+{ 119821, 78, 0 },
+{ 119822, 79, 0 },
+{ 119823, 80, 0 },
+{ 119824, 81, 0 },
+{ 119825, 82, 0 },
+{ 119826, 83, 0 },
+{ 119827, 84, 0 },
+{ 119828, 85, 0 },
+{ 119829, 86, 0 },
+{ 119830, 87, 0 },
+{ 119831, 88, 0 },
+{ 119832, 89, 0 },
+{ 119833, 90, 0 },
+{ 119834, 97, 0 },
+{ 119835, 98, 0 },
+{ 119836, 99, 0 },
+{ 119837, 100, 0 },
+{ 119838, 101, 0 },
+{ 119839, 102, 0 },
+{ 119840, 103, 0 },
+{ 119841, 104, 0 },
+{ 119842, 105, 0 },
+{ 119843, 106, 0 },
+{ 119844, 107, 0 },
+{ 119845, 108, 0 },
+{ 119846, 109, 0 },
+{ 119847, 110, 0 },
+{ 119848, 111, 0 },
+{ 119849, 112, 0 },
+{ 119850, 113, 0 },
+{ 119851, 114, 0 },
+{ 119852, 115, 0 },
+{ 119853, 116, 0 },
+{ 119854, 117, 0 },
+{ 119855, 118, 0 },
+{ 119856, 119, 0 },
+{ 119857, 120, 0 },
+{ 119858, 121, 0 },
+{ 119859, 122, 0 },
+{ 119860, 65, 0 },
+{ 119861, 66, 0 },
+{ 119862, 67, 0 },
+{ 119863, 68, 0 },
+{ 119864, 69, 0 },
+{ 119865, 70, 0 },
+{ 119866, 71, 0 },
+{ 119867, 72, 0 },
+{ 119868, 73, 0 },
+{ 119869, 74, 0 },
+{ 119870, 75, 0 },
+{ 119871, 76, 0 },
+{ 119872, 77, 0 },
+{ 119873, 78, 0 },
+{ 119874, 79, 0 },
+{ 119875, 80, 0 },
+{ 119876, 81, 0 },
+{ 119877, 82, 0 },
+{ 119878, 83, 0 },
+{ 119879, 84, 0 },
+{ 119880, 85, 0 },
+{ 119881, 86, 0 },
+{ 119882, 87, 0 },
+{ 119883, 88, 0 },
+{ 119884, 89, 0 },
+{ 119885, 90, 0 },
+{ 119886, 97, 0 },
+{ 119887, 98, 0 },
+{ 119888, 99, 0 },
+{ 119889, 100, 0 },
+{ 119890, 101, 0 },
+{ 119891, 102, 0 },
+{ 119892, 103, 0 },
+{ 119894, 105, 0 },
+{ 119895, 106, 0 },
+{ 119896, 107, 0 },
+{ 119897, 108, 0 },
+{ 119898, 109, 0 },
+{ 119899, 110, 0 },
+{ 119900, 111, 0 },
+{ 119901, 112, 0 },
+{ 119902, 113, 0 },
+{ 119903, 114, 0 },
+{ 119904, 115, 0 },
+{ 119905, 116, 0 },
+{ 119906, 117, 0 },
+{ 119907, 118, 0 },
+{ 119908, 119, 0 },
+{ 119909, 120, 0 },
+{ 119910, 121, 0 },
+{ 119911, 122, 0 },
+{ 119912, 65, 0 },
+{ 119913, 66, 0 },
+{ 119914, 67, 0 },
+{ 119915, 68, 0 },
+{ 119916, 69, 0 },
+{ 119917, 70, 0 },
+{ 119918, 71, 0 },
+{ 119919, 72, 0 },
+{ 119920, 73, 0 },
+{ 119921, 74, 0 },
+{ 119922, 75, 0 },
+{ 119923, 76, 0 },
+{ 119924, 77, 0 },
+{ 119925, 78, 0 },
+{ 119926, 79, 0 },
+{ 119927, 80, 0 },
+{ 119928, 81, 0 },
+{ 119929, 82, 0 },
+{ 119930, 83, 0 },
+{ 119931, 84, 0 },
+{ 119932, 85, 0 },
+{ 119933, 86, 0 },
+{ 119934, 87, 0 },
+{ 119935, 88, 0 },
+{ 119936, 89, 0 },
+{ 119937, 90, 0 },
+{ 119938, 97, 0 },
+{ 119939, 98, 0 },
+{ 119940, 99, 0 },
+{ 119941, 100, 0 },
+{ 119942, 101, 0 },
+{ 119943, 102, 0 },
+{ 119944, 103, 0 },
+{ 119945, 104, 0 },
+{ 119946, 105, 0 },
+{ 119947, 106, 0 },
+{ 119948, 107, 0 },
+{ 119949, 108, 0 },
+{ 119950, 109, 0 },
+{ 119951, 110, 0 },
+{ 119952, 111, 0 },
+{ 119953, 112, 0 },
+{ 119954, 113, 0 },
+{ 119955, 114, 0 },
+{ 119956, 115, 0 },
+{ 119957, 116, 0 },
+{ 119958, 117, 0 },
+{ 119959, 118, 0 },
+{ 119960, 119, 0 },
+{ 119961, 120, 0 },
+{ 119962, 121, 0 },
+{ 119963, 122, 0 },
+{ 119964, 65, 0 },
+{ 119966, 67, 0 },
+{ 119967, 68, 0 },
+{ 119970, 71, 0 },
+{ 119973, 74, 0 },
+{ 119974, 75, 0 },
+{ 119977, 78, 0 },
+{ 119978, 79, 0 },
+{ 119979, 80, 0 },
+{ 119980, 81, 0 },
+{ 119982, 83, 0 },
+{ 119983, 84, 0 },
+{ 119984, 85, 0 },
+{ 119985, 86, 0 },
+{ 119986, 87, 0 },
+{ 119987, 88, 0 },
+{ 119988, 89, 0 },
+{ 119989, 90, 0 },
+{ 119990, 97, 0 },
+{ 119991, 98, 0 },
+{ 119992, 99, 0 },
+{ 119993, 100, 0 },
+{ 119995, 102, 0 },
+{ 119997, 104, 0 },
+{ 119998, 105, 0 },
+{ 119999, 106, 0 },
+{ 120000, 107, 0 },
+{ 120001, 108, 0 },
+{ 120002, 109, 0 },
+{ 120003, 110, 0 },
+{ 120005, 112, 0 },
+{ 120006, 113, 0 },
+{ 120007, 114, 0 },
+{ 120008, 115, 0 },
+{ 120009, 116, 0 },
+{ 120010, 117, 0 },
+{ 120011, 118, 0 },
+{ 120012, 119, 0 },
+{ 120013, 120, 0 },
+{ 120014, 121, 0 },
+{ 120015, 122, 0 },
+{ 120016, 65, 0 },
+{ 120017, 66, 0 },
+{ 120018, 67, 0 },
+{ 120019, 68, 0 },
+{ 120020, 69, 0 },
+{ 120021, 70, 0 },
+{ 120022, 71, 0 },
+{ 120023, 72, 0 },
+{ 120024, 73, 0 },
+{ 120025, 74, 0 },
+{ 120026, 75, 0 },
+{ 120027, 76, 0 },
+{ 120028, 77, 0 },
+{ 120029, 78, 0 },
+{ 120030, 79, 0 },
+{ 120031, 80, 0 },
+{ 120032, 81, 0 },
+{ 120033, 82, 0 },
+{ 120034, 83, 0 },
+{ 120035, 84, 0 },
+{ 120036, 85, 0 },
+{ 120037, 86, 0 },
+{ 120038, 87, 0 },
+{ 120039, 88, 0 },
+{ 120040, 89, 0 },
+{ 120041, 90, 0 },
+{ 120042, 97, 0 },
+{ 120043, 98, 0 },
+{ 120044, 99, 0 },
+{ 120045, 100, 0 },
+{ 120046, 101, 0 },
+{ 120047, 102, 0 },
+{ 120048, 103, 0 },
+{ 120049, 104, 0 },
+{ 120050, 105, 0 },
+{ 120051, 106, 0 },
+{ 120052, 107, 0 },
+{ 120053, 108, 0 },
+{ 120054, 109, 0 },
+{ 120055, 110, 0 },
+{ 120056, 111, 0 },
+{ 120057, 112, 0 },
+{ 120058, 113, 0 },
+{ 120059, 114, 0 },
+{ 120060, 115, 0 },
+{ 120061, 116, 0 },
+{ 120062, 117, 0 },
+{ 120063, 118, 0 },
+{ 120064, 119, 0 },
+{ 120065, 120, 0 },
+{ 120066, 121, 0 },
+{ 120067, 122, 0 },
+{ 120068, 65, 0 },
+{ 120069, 66, 0 },
+{ 120071, 68, 0 },
+{ 120072, 69, 0 },
+{ 120073, 70, 0 },
+{ 120074, 71, 0 },
+{ 120077, 74, 0 },
+{ 120078, 75, 0 },
+{ 120079, 76, 0 },
+{ 120080, 77, 0 },
+{ 120081, 78, 0 },
+{ 120082, 79, 0 },
+{ 120083, 80, 0 },
+{ 120084, 81, 0 },
+{ 120086, 83, 0 },
+{ 120087, 84, 0 },
+{ 120088, 85, 0 },
+{ 120089, 86, 0 },
+{ 120090, 87, 0 },
+{ 120091, 88, 0 },
+{ 120092, 89, 0 },
+{ 120094, 97, 0 },
+{ 120095, 98, 0 },
+{ 120096, 99, 0 },
+{ 120097, 100, 0 },
+{ 120098, 101, 0 },
+{ 120099, 102, 0 },
+{ 120100, 103, 0 },
+{ 120101, 104, 0 },
+{ 120102, 105, 0 },
+{ 120103, 106, 0 },
+{ 120104, 107, 0 },
+{ 120105, 108, 0 },
+{ 120106, 109, 0 },
+{ 120107, 110, 0 },
+{ 120108, 111, 0 },
+{ 120109, 112, 0 },
+{ 120110, 113, 0 },
+{ 120111, 114, 0 },
+{ 120112, 115, 0 },
+{ 120113, 116, 0 },
+{ 120114, 117, 0 },
+{ 120115, 118, 0 },
+{ 120116, 119, 0 },
+{ 120117, 120, 0 },
+{ 120118, 121, 0 },
+{ 120119, 122, 0 },
+{ 120120, 65, 0 },
+{ 120121, 66, 0 },
+{ 120123, 68, 0 },
+{ 120124, 69, 0 },
+{ 120125, 70, 0 },
+{ 120126, 71, 0 },
+{ 120128, 73, 0 },
+{ 120129, 74, 0 },
+{ 120130, 75, 0 },
+{ 120131, 76, 0 },
+{ 120132, 77, 0 },
+{ 120134, 79, 0 },
+{ 120138, 83, 0 },
+{ 120139, 84, 0 },
+{ 120140, 85, 0 },
+{ 120141, 86, 0 },
+{ 120142, 87, 0 },
+{ 120143, 88, 0 },
+{ 120144, 89, 0 },
+{ 120146, 97, 0 },
+{ 120147, 98, 0 },
+{ 120148, 99, 0 },
+{ 120149, 100, 0 },
+{ 120150, 101, 0 },
+{ 120151, 102, 0 },
+{ 120152, 103, 0 },
+{ 120153, 104, 0 },
+{ 120154, 105, 0 },
+{ 120155, 106, 0 },
+{ 120156, 107, 0 },
+{ 120157, 108, 0 },
+{ 120158, 109, 0 },
+{ 120159, 110, 0 },
+{ 120160, 111, 0 },
+{ 120161, 112, 0 },
+{ 120162, 113, 0 },
+{ 120163, 114, 0 },
+{ 120164, 115, 0 },
+{ 120165, 116, 0 },
+{ 120166, 117, 0 },
+{ 120167, 118, 0 },
+{ 120168, 119, 0 },
+{ 120169, 120, 0 },
+{ 120170, 121, 0 },
+{ 120171, 122, 0 },
+{ 120172, 65, 0 },
+{ 120173, 66, 0 },
+{ 120174, 67, 0 },
+{ 120175, 68, 0 },
+{ 120176, 69, 0 },
+{ 120177, 70, 0 },
+{ 120178, 71, 0 },
+{ 120179, 72, 0 },
+{ 120180, 73, 0 },
+{ 120181, 74, 0 },
+{ 120182, 75, 0 },
+{ 120183, 76, 0 },
+{ 120184, 77, 0 },
+{ 120185, 78, 0 },
+{ 120186, 79, 0 },
+{ 120187, 80, 0 },
+{ 120188, 81, 0 },
+{ 120189, 82, 0 },
+{ 120190, 83, 0 },
+{ 120191, 84, 0 },
+{ 120192, 85, 0 },
+{ 120193, 86, 0 },
+{ 120194, 87, 0 },
+{ 120195, 88, 0 },
+{ 120196, 89, 0 },
+{ 120197, 90, 0 },
+{ 120198, 97, 0 },
+{ 120199, 98, 0 },
+{ 120200, 99, 0 },
+{ 120201, 100, 0 },
+{ 120202, 101, 0 },
+{ 120203, 102, 0 },
+{ 120204, 103, 0 },
+{ 120205, 104, 0 },
+{ 120206, 105, 0 },
+{ 120207, 106, 0 },
+{ 120208, 107, 0 },
+{ 120209, 108, 0 },
+{ 120210, 109, 0 },
+{ 120211, 110, 0 },
+{ 120212, 111, 0 },
+{ 120213, 112, 0 },
+{ 120214, 113, 0 },
+{ 120215, 114, 0 },
+{ 120216, 115, 0 },
+{ 120217, 116, 0 },
+{ 120218, 117, 0 },
+{ 120219, 118, 0 },
+{ 120220, 119, 0 },
+{ 120221, 120, 0 },
+{ 120222, 121, 0 },
+{ 120223, 122, 0 },
+{ 120224, 65, 0 },
+{ 120225, 66, 0 },
+{ 120226, 67, 0 },
+{ 120227, 68, 0 },
+{ 120228, 69, 0 },
+{ 120229, 70, 0 },
+{ 120230, 71, 0 },
+{ 120231, 72, 0 },
+{ 120232, 73, 0 },
+{ 120233, 74, 0 },
+{ 120234, 75, 0 },
+{ 120235, 76, 0 },
+{ 120236, 77, 0 },
+{ 120237, 78, 0 },
+{ 120238, 79, 0 },
+{ 120239, 80, 0 },
+{ 120240, 81, 0 },
+{ 120241, 82, 0 },
+{ 120242, 83, 0 },
+{ 120243, 84, 0 },
+{ 120244, 85, 0 },
+{ 120245, 86, 0 },
+{ 120246, 87, 0 },
+{ 120247, 88, 0 },
+{ 120248, 89, 0 },
+{ 120249, 90, 0 },
+{ 120250, 97, 0 },
+{ 120251, 98, 0 },
+{ 120252, 99, 0 },
+{ 120253, 100, 0 },
+{ 120254, 101, 0 },
+{ 120255, 102, 0 },
+{ 120256, 103, 0 },
+{ 120257, 104, 0 },
+{ 120258, 105, 0 },
+{ 120259, 106, 0 },
+{ 120260, 107, 0 },
+{ 120261, 108, 0 },
+{ 120262, 109, 0 },
+{ 120263, 110, 0 },
+{ 120264, 111, 0 },
+{ 120265, 112, 0 },
+{ 120266, 113, 0 },
+{ 120267, 114, 0 },
+{ 120268, 115, 0 },
+{ 120269, 116, 0 },
+{ 120270, 117, 0 },
+{ 120271, 118, 0 },
+{ 120272, 119, 0 },
+{ 120273, 120, 0 },
+{ 120274, 121, 0 },
+{ 120275, 122, 0 },
+{ 120276, 65, 0 },
+{ 120277, 66, 0 },
+{ 120278, 67, 0 },
+{ 120279, 68, 0 },
+{ 120280, 69, 0 },
+{ 120281, 70, 0 },
+{ 120282, 71, 0 },
+{ 120283, 72, 0 },
+{ 120284, 73, 0 },
+{ 120285, 74, 0 },
+{ 120286, 75, 0 },
+{ 120287, 76, 0 },
+{ 120288, 77, 0 },
+{ 120289, 78, 0 },
+{ 120290, 79, 0 },
+{ 120291, 80, 0 },
+{ 120292, 81, 0 },
+{ 120293, 82, 0 },
+{ 120294, 83, 0 },
+{ 120295, 84, 0 },
+{ 120296, 85, 0 },
+{ 120297, 86, 0 },
+{ 120298, 87, 0 },
+{ 120299, 88, 0 },
+{ 120300, 89, 0 },
+{ 120301, 90, 0 },
+{ 120302, 97, 0 },
+{ 120303, 98, 0 },
+{ 120304, 99, 0 },
+{ 120305, 100, 0 },
+{ 120306, 101, 0 },
+{ 120307, 102, 0 },
+{ 120308, 103, 0 },
+{ 120309, 104, 0 },
+{ 120310, 105, 0 },
+{ 120311, 106, 0 },
+{ 120312, 107, 0 },
+{ 120313, 108, 0 },
+{ 120314, 109, 0 },
+{ 120315, 110, 0 },
+{ 120316, 111, 0 },
+{ 120317, 112, 0 },
+{ 120318, 113, 0 },
+{ 120319, 114, 0 },
+{ 120320, 115, 0 },
+{ 120321, 116, 0 },
+{ 120322, 117, 0 },
+{ 120323, 118, 0 },
+{ 120324, 119, 0 },
+{ 120325, 120, 0 },
+{ 120326, 121, 0 },
+{ 120327, 122, 0 },
+{ 120328, 65, 0 },
+{ 120329, 66, 0 },
+{ 120330, 67, 0 },
+{ 120331, 68, 0 },
+{ 120332, 69, 0 },
+{ 120333, 70, 0 },
+{ 120334, 71, 0 },
+{ 120335, 72, 0 },
+{ 120336, 73, 0 },
+{ 120337, 74, 0 },
+{ 120338, 75, 0 },
+{ 120339, 76, 0 },
+{ 120340, 77, 0 },
+{ 120341, 78, 0 },
+{ 120342, 79, 0 },
+{ 120343, 80, 0 },
+{ 120344, 81, 0 },
+{ 120345, 82, 0 },
+{ 120346, 83, 0 },
+{ 120347, 84, 0 },
+{ 120348, 85, 0 },
+{ 120349, 86, 0 },
+{ 120350, 87, 0 },
+{ 120351, 88, 0 },
+{ 120352, 89, 0 },
+{ 120353, 90, 0 },
+{ 120354, 97, 0 },
+{ 120355, 98, 0 },
+{ 120356, 99, 0 },
+{ 120357, 100, 0 },
+{ 120358, 101, 0 },
+{ 120359, 102, 0 },
+{ 120360, 103, 0 },
+{ 120361, 104, 0 },
+{ 120362, 105, 0 },
+{ 120363, 106, 0 },
+{ 120364, 107, 0 },
+{ 120365, 108, 0 },
+{ 120366, 109, 0 },
+{ 120367, 110, 0 },
+{ 120368, 111, 0 },
+{ 120369, 112, 0 },
+{ 120370, 113, 0 },
+{ 120371, 114, 0 },
+{ 120372, 115, 0 },
+{ 120373, 116, 0 },
+{ 120374, 117, 0 },
+{ 120375, 118, 0 },
+{ 120376, 119, 0 },
+{ 120377, 120, 0 },
+{ 120378, 121, 0 },
+{ 120379, 122, 0 },
+{ 120380, 65, 0 },
+{ 120381, 66, 0 },
+{ 120382, 67, 0 },
+{ 120383, 68, 0 },
+{ 120384, 69, 0 },
+{ 120385, 70, 0 },
+{ 120386, 71, 0 },
+{ 120387, 72, 0 },
+{ 120388, 73, 0 },
+{ 120389, 74, 0 },
+{ 120390, 75, 0 },
+{ 120391, 76, 0 },
+{ 120392, 77, 0 },
+{ 120393, 78, 0 },
+{ 120394, 79, 0 },
+{ 120395, 80, 0 },
+{ 120396, 81, 0 },
+{ 120397, 82, 0 },
+{ 120398, 83, 0 },
+{ 120399, 84, 0 },
+{ 120400, 85, 0 },
+{ 120401, 86, 0 },
+{ 120402, 87, 0 },
+{ 120403, 88, 0 },
+{ 120404, 89, 0 },
+{ 120405, 90, 0 },
+{ 120406, 97, 0 },
+{ 120407, 98, 0 },
+{ 120408, 99, 0 },
+{ 120409, 100, 0 },
+{ 120410, 101, 0 },
+{ 120411, 102, 0 },
+{ 120412, 103, 0 },
+{ 120413, 104, 0 },
+{ 120414, 105, 0 },
+{ 120415, 106, 0 },
+{ 120416, 107, 0 },
+{ 120417, 108, 0 },
+{ 120418, 109, 0 },
+{ 120419, 110, 0 },
+{ 120420, 111, 0 },
+{ 120421, 112, 0 },
+{ 120422, 113, 0 },
+{ 120423, 114, 0 },
+{ 120424, 115, 0 },
+{ 120425, 116, 0 },
+{ 120426, 117, 0 },
+{ 120427, 118, 0 },
+{ 120428, 119, 0 },
+{ 120429, 120, 0 },
+{ 120430, 121, 0 },
+{ 120431, 122, 0 },
+{ 120432, 65, 0 },
+{ 120433, 66, 0 },
+{ 120434, 67, 0 },
+{ 120435, 68, 0 },
+{ 120436, 69, 0 },
+{ 120437, 70, 0 },
+{ 120438, 71, 0 },
+{ 120439, 72, 0 },
+{ 120440, 73, 0 },
+{ 120441, 74, 0 },
+{ 120442, 75, 0 },
+{ 120443, 76, 0 },
+{ 120444, 77, 0 },
+{ 120445, 78, 0 },
+{ 120446, 79, 0 },
+{ 120447, 80, 0 },
+{ 120448, 81, 0 },
+{ 120449, 82, 0 },
+{ 120450, 83, 0 },
+{ 120451, 84, 0 },
+{ 120452, 85, 0 },
+{ 120453, 86, 0 },
+{ 120454, 87, 0 },
+{ 120455, 88, 0 },
+{ 120456, 89, 0 },
+{ 120457, 90, 0 },
+{ 120458, 97, 0 },
+{ 120459, 98, 0 },
+{ 120460, 99, 0 },
+{ 120461, 100, 0 },
+{ 120462, 101, 0 },
+{ 120463, 102, 0 },
+{ 120464, 103, 0 },
+{ 120465, 104, 0 },
+{ 120466, 105, 0 },
+{ 120467, 106, 0 },
+{ 120468, 107, 0 },
+{ 120469, 108, 0 },
+{ 120470, 109, 0 },
+{ 120471, 110, 0 },
+{ 120472, 111, 0 },
+{ 120473, 112, 0 },
+{ 120474, 113, 0 },
+{ 120475, 114, 0 },
+{ 120476, 115, 0 },
+{ 120477, 116, 0 },
+{ 120478, 117, 0 },
+{ 120479, 118, 0 },
+{ 120480, 119, 0 },
+{ 120481, 120, 0 },
+{ 120482, 121, 0 },
+{ 120483, 122, 0 },
+{ 120484, 305, 0 },
+{ 120485, 567, 0 },
+{ 120488, 913, 0 },
+{ 120489, 914, 0 },
+{ 120490, 915, 0 },
+{ 120491, 916, 0 },
+{ 120492, 917, 0 },
+{ 120493, 918, 0 },
+{ 120494, 919, 0 },
+{ 120495, 920, 0 },
+{ 120496, 921, 0 },
+{ 120497, 922, 0 },
+{ 120498, 923, 0 },
+{ 120499, 924, 0 },
+{ 120500, 925, 0 },
+{ 120501, 926, 0 },
+{ 120502, 927, 0 },
+{ 120503, 928, 0 },
+{ 120504, 929, 0 },
+{ 120505, 920, 0 },
+{ 120506, 931, 0 },
+{ 120507, 932, 0 },
+{ 120508, 933, 0 },
+{ 120509, 934, 0 },
+{ 120510, 935, 0 },
+{ 120511, 936, 0 },
+{ 120512, 937, 0 },
+{ 120513, 8711, 0 },
+{ 120514, 945, 0 },
+{ 120515, 946, 0 },
+{ 120516, 947, 0 },
+{ 120517, 948, 0 },
+{ 120518, 949, 0 },
+{ 120519, 950, 0 },
+{ 120520, 951, 0 },
+{ 120521, 952, 0 },
+{ 120522, 953, 0 },
+{ 120523, 954, 0 },
+{ 120524, 955, 0 },
+{ 120525, 956, 0 },
+{ 120526, 957, 0 },
+{ 120527, 958, 0 },
+{ 120528, 959, 0 },
+{ 120529, 960, 0 },
+{ 120530, 961, 0 },
+{ 120531, 962, 0 },
+{ 120532, 963, 0 },
+{ 120533, 964, 0 },
+{ 120534, 965, 0 },
+{ 120535, 966, 0 },
+{ 120536, 967, 0 },
+{ 120537, 968, 0 },
+{ 120538, 969, 0 },
+{ 120539, 8706, 0 },
+{ 120540, 949, 0 },
+{ 120541, 952, 0 },
+{ 120542, 954, 0 },
+{ 120543, 966, 0 },
+{ 120544, 961, 0 },
+{ 120545, 960, 0 },
+{ 120546, 913, 0 },
+{ 120547, 914, 0 },
+{ 120548, 915, 0 },
+{ 120549, 916, 0 },
+{ 120550, 917, 0 },
+{ 120551, 918, 0 },
+{ 120552, 919, 0 },
+{ 120553, 920, 0 },
+{ 120554, 921, 0 },
+{ 120555, 922, 0 },
+{ 120556, 923, 0 },
+{ 120557, 924, 0 },
+{ 120558, 925, 0 },
+{ 120559, 926, 0 },
+{ 120560, 927, 0 },
+{ 120561, 928, 0 },
+{ 120562, 929, 0 },
+{ 120563, 920, 0 },
+{ 120564, 931, 0 },
+{ 120565, 932, 0 },
+{ 120566, 933, 0 },
+{ 120567, 934, 0 },
+{ 120568, 935, 0 },
+{ 120569, 936, 0 },
+{ 120570, 937, 0 },
+{ 120571, 8711, 0 },
+{ 120572, 945, 0 },
+{ 120573, 946, 0 },
+{ 120574, 947, 0 },
+{ 120575, 948, 0 },
+{ 120576, 949, 0 },
+{ 120577, 950, 0 },
+{ 120578, 951, 0 },
+{ 120579, 952, 0 },
+{ 120580, 953, 0 },
+{ 120581, 954, 0 },
+{ 120582, 955, 0 },
+{ 120583, 956, 0 },
+{ 120584, 957, 0 },
+{ 120585, 958, 0 },
+{ 120586, 959, 0 },
+{ 120587, 960, 0 },
+{ 120588, 961, 0 },
+{ 120589, 962, 0 },
+{ 120590, 963, 0 },
+{ 120591, 964, 0 },
+{ 120592, 965, 0 },
+{ 120593, 966, 0 },
+{ 120594, 967, 0 },
+{ 120595, 968, 0 },
+{ 120596, 969, 0 },
+{ 120597, 8706, 0 },
+{ 120598, 949, 0 },
+{ 120599, 952, 0 },
+{ 120600, 954, 0 },
+{ 120601, 966, 0 },
+{ 120602, 961, 0 },
+{ 120603, 960, 0 },
+{ 120604, 913, 0 },
+{ 120605, 914, 0 },
+{ 120606, 915, 0 },
+{ 120607, 916, 0 },
+{ 120608, 917, 0 },
+{ 120609, 918, 0 },
+{ 120610, 919, 0 },
+{ 120611, 920, 0 },
+{ 120612, 921, 0 },
+{ 120613, 922, 0 },
+{ 120614, 923, 0 },
+{ 120615, 924, 0 },
+{ 120616, 925, 0 },
+{ 120617, 926, 0 },
+{ 120618, 927, 0 },
+{ 120619, 928, 0 },
+{ 120620, 929, 0 },
+{ 120621, 920, 0 },
+{ 120622, 931, 0 },
+{ 120623, 932, 0 },
+{ 120624, 933, 0 },
+{ 120625, 934, 0 },
+{ 120626, 935, 0 },
+{ 120627, 936, 0 },
+{ 120628, 937, 0 },
+{ 120629, 8711, 0 },
+{ 120630, 945, 0 },
+{ 120631, 946, 0 },
+{ 120632, 947, 0 },
+{ 120633, 948, 0 },
+{ 120634, 949, 0 },
+{ 120635, 950, 0 },
+{ 120636, 951, 0 },
+{ 120637, 952, 0 },
+{ 120638, 953, 0 },
+{ 120639, 954, 0 },
+{ 120640, 955, 0 },
+{ 120641, 956, 0 },
+{ 120642, 957, 0 },
+{ 120643, 958, 0 },
+{ 120644, 959, 0 },
+{ 120645, 960, 0 },
+{ 120646, 961, 0 },
+{ 120647, 962, 0 },
+{ 120648, 963, 0 },
+{ 120649, 964, 0 },
+{ 120650, 965, 0 },
+{ 120651, 966, 0 },
+{ 120652, 967, 0 },
+{ 120653, 968, 0 },
+{ 120654, 969, 0 },
+{ 120655, 8706, 0 },
+{ 120656, 949, 0 },
+{ 120657, 952, 0 },
+{ 120658, 954, 0 },
+{ 120659, 966, 0 },
+{ 120660, 961, 0 },
+{ 120661, 960, 0 },
+{ 120662, 913, 0 },
+{ 120663, 914, 0 },
+{ 120664, 915, 0 },
+{ 120665, 916, 0 },
+{ 120666, 917, 0 },
+{ 120667, 918, 0 },
+{ 120668, 919, 0 },
+{ 120669, 920, 0 },
+{ 120670, 921, 0 },
+{ 120671, 922, 0 },
+{ 120672, 923, 0 },
+{ 120673, 924, 0 },
+{ 120674, 925, 0 },
+{ 120675, 926, 0 },
+{ 120676, 927, 0 },
+{ 120677, 928, 0 },
+{ 120678, 929, 0 },
+{ 120679, 920, 0 },
+{ 120680, 931, 0 },
+{ 120681, 932, 0 },
+{ 120682, 933, 0 },
+{ 120683, 934, 0 },
+{ 120684, 935, 0 },
+{ 120685, 936, 0 },
+{ 120686, 937, 0 },
+{ 120687, 8711, 0 },
+{ 120688, 945, 0 },
+{ 120689, 946, 0 },
+{ 120690, 947, 0 },
+{ 120691, 948, 0 },
+{ 120692, 949, 0 },
+{ 120693, 950, 0 },
+{ 120694, 951, 0 },
+{ 120695, 952, 0 },
+{ 120696, 953, 0 },
+{ 120697, 954, 0 },
+{ 120698, 955, 0 },
+{ 120699, 956, 0 },
+{ 120700, 957, 0 },
+{ 120701, 958, 0 },
+{ 120702, 959, 0 },
+{ 120703, 960, 0 },
+{ 120704, 961, 0 },
+{ 120705, 962, 0 },
+{ 120706, 963, 0 },
+{ 120707, 964, 0 },
+{ 120708, 965, 0 },
+{ 120709, 966, 0 },
+{ 120710, 967, 0 },
+{ 120711, 968, 0 },
+{ 120712, 969, 0 },
+{ 120713, 8706, 0 },
+{ 120714, 949, 0 },
+{ 120715, 952, 0 },
+{ 120716, 954, 0 },
+{ 120717, 966, 0 },
+{ 120718, 961, 0 },
+{ 120719, 960, 0 },
+{ 120720, 913, 0 },
+{ 120721, 914, 0 },
+{ 120722, 915, 0 },
+{ 120723, 916, 0 },
+{ 120724, 917, 0 },
+{ 120725, 918, 0 },
+{ 120726, 919, 0 },
+{ 120727, 920, 0 },
+{ 120728, 921, 0 },
+{ 120729, 922, 0 },
+{ 120730, 923, 0 },
+{ 120731, 924, 0 },
+{ 120732, 925, 0 },
+{ 120733, 926, 0 },
+{ 120734, 927, 0 },
+{ 120735, 928, 0 },
+{ 120736, 929, 0 },
+{ 120737, 920, 0 },
+{ 120738, 931, 0 },
+{ 120739, 932, 0 },
+{ 120740, 933, 0 },
+{ 120741, 934, 0 },
+{ 120742, 935, 0 },
+{ 120743, 936, 0 },
+{ 120744, 937, 0 },
+{ 120745, 8711, 0 },
+{ 120746, 945, 0 },
+{ 120747, 946, 0 },
+{ 120748, 947, 0 },
+{ 120749, 948, 0 },
+{ 120750, 949, 0 },
+{ 120751, 950, 0 },
+{ 120752, 951, 0 },
+{ 120753, 952, 0 },
+{ 120754, 953, 0 },
+{ 120755, 954, 0 },
+{ 120756, 955, 0 },
+{ 120757, 956, 0 },
+{ 120758, 957, 0 },
+{ 120759, 958, 0 },
+{ 120760, 959, 0 },
+{ 120761, 960, 0 },
+{ 120762, 961, 0 },
+{ 120763, 962, 0 },
+{ 120764, 963, 0 },
+{ 120765, 964, 0 },
+{ 120766, 965, 0 },
+{ 120767, 966, 0 },
+{ 120768, 967, 0 },
+{ 120769, 968, 0 },
+{ 120770, 969, 0 },
+{ 120771, 8706, 0 },
+{ 120772, 949, 0 },
+{ 120773, 952, 0 },
+{ 120774, 954, 0 },
+{ 120775, 966, 0 },
+{ 120776, 961, 0 },
+{ 120777, 960, 0 },
+{ 120778, 988, 0 },
+{ 120779, 989, 0 },
+{ 120782, 48, 0 },
+{ 120783, 49, 0 },
+{ 120784, 50, 0 },
+{ 120785, 51, 0 },
+{ 120786, 52, 0 },
+{ 120787, 53, 0 },
+{ 120788, 54, 0 },
+{ 120789, 55, 0 },
+{ 120790, 56, 0 },
+{ 120791, 57, 0 },
+{ 120792, 48, 0 },
+{ 120793, 49, 0 },
+{ 120794, 50, 0 },
+{ 120795, 51, 0 },
+{ 120796, 52, 0 },
+{ 120797, 53, 0 },
+{ 120798, 54, 0 },
+{ 120799, 55, 0 },
+{ 120800, 56, 0 },
+{ 120801, 57, 0 },
+{ 120802, 48, 0 },
+{ 120803, 49, 0 },
+{ 120804, 50, 0 },
+{ 120805, 51, 0 },
+{ 120806, 52, 0 },
+{ 120807, 53, 0 },
+{ 120808, 54, 0 },
+{ 120809, 55, 0 },
+{ 120810, 56, 0 },
+{ 120811, 57, 0 },
+{ 120812, 48, 0 },
+{ 120813, 49, 0 },
+{ 120814, 50, 0 },
+{ 120815, 51, 0 },
+{ 120816, 52, 0 },
+{ 120817, 53, 0 },
+{ 120818, 54, 0 },
+{ 120819, 55, 0 },
+{ 120820, 56, 0 },
+{ 120821, 57, 0 },
+{ 120822, 48, 0 },
+{ 120823, 49, 0 },
+{ 120824, 50, 0 },
+{ 120825, 51, 0 },
+{ 120826, 52, 0 },
+{ 120827, 53, 0 },
+{ 120828, 54, 0 },
+{ 120829, 55, 0 },
+{ 120830, 56, 0 },
+{ 120831, 57, 0 },
+{ 126464, 1575, 0 },
+{ 126465, 1576, 0 },
+{ 126466, 1580, 0 },
+{ 126467, 1583, 0 },
+{ 126469, 1608, 0 },
+{ 126470, 1586, 0 },
+{ 126471, 1581, 0 },
+{ 126472, 1591, 0 },
+{ 126473, 1610, 0 },
+{ 126474, 1603, 0 },
+{ 126475, 1604, 0 },
+{ 126476, 1605, 0 },
+{ 126477, 1606, 0 },
+{ 126478, 1587, 0 },
+{ 126479, 1593, 0 },
+{ 126480, 1601, 0 },
+{ 126481, 1589, 0 },
+{ 126482, 1602, 0 },
+{ 126483, 1585, 0 },
+{ 126484, 1588, 0 },
+{ 126485, 1578, 0 },
+{ 126486, 1579, 0 },
+{ 126487, 1582, 0 },
+{ 126488, 1584, 0 },
+{ 126489, 1590, 0 },
+{ 126490, 1592, 0 },
+{ 126491, 1594, 0 },
+{ 126492, 1646, 0 },
+{ 126493, 1722, 0 },
+{ 126494, 1697, 0 },
+{ 126495, 1647, 0 },
+{ 126497, 1576, 0 },
+{ 126498, 1580, 0 },
+{ 126500, 1607, 0 },
+{ 126503, 1581, 0 },
+{ 126505, 1610, 0 },
+{ 126506, 1603, 0 },
+{ 126507, 1604, 0 },
+{ 126508, 1605, 0 },
+{ 126509, 1606, 0 },
+{ 126510, 1587, 0 },
+{ 126511, 1593, 0 },
+{ 126512, 1601, 0 },
+{ 126513, 1589, 0 },
+{ 126514, 1602, 0 },
+{ 126516, 1588, 0 },
+{ 126517, 1578, 0 },
+{ 126518, 1579, 0 },
+{ 126519, 1582, 0 },
+{ 126521, 1590, 0 },
+{ 126523, 1594, 0 },
+{ 126530, 1580, 0 },
+{ 126535, 1581, 0 },
+{ 126537, 1610, 0 },
+{ 126539, 1604, 0 },
+{ 126541, 1606, 0 },
+{ 126542, 1587, 0 },
+{ 126543, 1593, 0 },
+{ 126545, 1589, 0 },
+{ 126546, 1602, 0 },
+{ 126548, 1588, 0 },
+{ 126551, 1582, 0 },
+{ 126553, 1590, 0 },
+{ 126555, 1594, 0 },
+{ 126557, 1722, 0 },
+{ 126559, 1647, 0 },
+{ 126561, 1576, 0 },
+{ 126562, 1580, 0 },
+{ 126564, 1607, 0 },
+{ 126567, 1581, 0 },
+{ 126568, 1591, 0 },
+{ 126569, 1610, 0 },
+{ 126570, 1603, 0 },
+{ 126572, 1605, 0 },
+{ 126573, 1606, 0 },
+{ 126574, 1587, 0 },
+{ 126575, 1593, 0 },
+{ 126576, 1601, 0 },
+{ 126577, 1589, 0 },
+{ 126578, 1602, 0 },
+{ 126580, 1588, 0 },
+{ 126581, 1578, 0 },
+{ 126582, 1579, 0 },
+{ 126583, 1582, 0 },
+{ 126585, 1590, 0 },
+{ 126586, 1592, 0 },
+{ 126587, 1594, 0 },
+{ 126588, 1646, 0 },
+{ 126590, 1697, 0 },
+{ 126592, 1575, 0 },
+{ 126593, 1576, 0 },
+{ 126594, 1580, 0 },
+{ 126595, 1583, 0 },
+{ 126596, 1607, 0 },
+{ 126597, 1608, 0 },
+{ 126598, 1586, 0 },
+{ 126599, 1581, 0 },
+{ 126600, 1591, 0 },
+{ 126601, 1610, 0 },
+{ 126603, 1604, 0 },
+{ 126604, 1605, 0 },
+{ 126605, 1606, 0 },
+{ 126606, 1587, 0 },
+{ 126607, 1593, 0 },
+{ 126608, 1601, 0 },
+{ 126609, 1589, 0 },
+{ 126610, 1602, 0 },
+{ 126611, 1585, 0 },
+{ 126612, 1588, 0 },
+{ 126613, 1578, 0 },
+{ 126614, 1579, 0 },
+{ 126615, 1582, 0 },
+{ 126616, 1584, 0 },
+{ 126617, 1590, 0 },
+{ 126618, 1592, 0 },
+{ 126619, 1594, 0 },
+{ 126625, 1576, 0 },
+{ 126626, 1580, 0 },
+{ 126627, 1583, 0 },
+{ 126629, 1608, 0 },
+{ 126630, 1586, 0 },
+{ 126631, 1581, 0 },
+{ 126632, 1591, 0 },
+{ 126633, 1610, 0 },
+{ 126635, 1604, 0 },
+{ 126636, 1605, 0 },
+{ 126637, 1606, 0 },
+{ 126638, 1587, 0 },
+{ 126639, 1593, 0 },
+{ 126640, 1601, 0 },
+{ 126641, 1589, 0 },
+{ 126642, 1602, 0 },
+{ 126643, 1585, 0 },
+{ 126644, 1588, 0 },
+{ 126645, 1578, 0 },
+{ 126646, 1579, 0 },
+{ 126647, 1582, 0 },
+{ 126648, 1584, 0 },
+{ 126649, 1590, 0 },
+{ 126650, 1592, 0 },
+{ 126651, 1594, 0 },
 { 127232, 48, 46, 0 },
 { 127233, 48, 44, 0 },
 { 127234, 49, 44, 0 },
@@ -2227,6 +5081,92 @@
 { 127272, 40, 89, 41, 0 },
 { 127273, 40, 90, 41, 0 },
 { 127274, 12308, 83, 12309, 0 },
+{ 127275, 67, 0 },
+{ 127276, 82, 0 },
+{ 127277, 67, 68, 0 },
+{ 127278, 87, 90, 0 },
+{ 127280, 65, 0 },
+{ 127281, 66, 0 },
+{ 127282, 67, 0 },
+{ 127283, 68, 0 },
+{ 127284, 69, 0 },
+{ 127285, 70, 0 },
+{ 127286, 71, 0 },
+{ 127287, 72, 0 },
+{ 127288, 73, 0 },
+{ 127289, 74, 0 },
+{ 127290, 75, 0 },
+{ 127291, 76, 0 },
+{ 127292, 77, 0 },
+{ 127293, 78, 0 },
+{ 127294, 79, 0 },
+{ 127295, 80, 0 },
+{ 127296, 81, 0 },
+{ 127297, 82, 0 },
+{ 127298, 83, 0 },
+{ 127299, 84, 0 },
+{ 127300, 85, 0 },
+{ 127301, 86, 0 },
+{ 127302, 87, 0 },
+{ 127303, 88, 0 },
+{ 127304, 89, 0 },
+{ 127305, 90, 0 },
+{ 127306, 72, 86, 0 },
+{ 127307, 77, 86, 0 },
+{ 127308, 83, 68, 0 },
+{ 127309, 83, 83, 0 },
+{ 127310, 80, 80, 86, 0 },
+{ 127311, 87, 67, 0 },
+{ 127338, 77, 67, 0 },
+{ 127339, 77, 68, 0 },
+{ 127376, 68, 74, 0 },
+{ 127488, 12411, 12363, 0 },
+{ 127489, 12467, 12467, 0 },
+{ 127490, 12469, 0 },
+{ 127504, 25163, 0 },
+{ 127505, 23383, 0 },
+{ 127506, 21452, 0 },
+{ 127507, 12486, 12441, 0 },
+{ 127508, 20108, 0 },
+{ 127509, 22810, 0 },
+{ 127510, 35299, 0 },
+{ 127511, 22825, 0 },
+{ 127512, 20132, 0 },
+{ 127513, 26144, 0 },
+{ 127514, 28961, 0 },
+{ 127515, 26009, 0 },
+{ 127516, 21069, 0 },
+{ 127517, 24460, 0 },
+{ 127518, 20877, 0 },
+{ 127519, 26032, 0 },
+{ 127520, 21021, 0 },
+{ 127521, 32066, 0 },
+{ 127522, 29983, 0 },
+{ 127523, 36009, 0 },
+{ 127524, 22768, 0 },
+{ 127525, 21561, 0 },
+{ 127526, 28436, 0 },
+{ 127527, 25237, 0 },
+{ 127528, 25429, 0 },
+{ 127529, 19968, 0 },
+{ 127530, 19977, 0 },
+{ 127531, 36938, 0 },
+{ 127532, 24038, 0 },
+{ 127533, 20013, 0 },
+{ 127534, 21491, 0 },
+{ 127535, 25351, 0 },
+{ 127536, 36208, 0 },
+{ 127537, 25171, 0 },
+{ 127538, 31105, 0 },
+{ 127539, 31354, 0 },
+{ 127540, 21512, 0 },
+{ 127541, 28288, 0 },
+{ 127542, 26377, 0 },
+{ 127543, 26376, 0 },
+{ 127544, 30003, 0 },
+{ 127545, 21106, 0 },
+{ 127546, 21942, 0 },
+{ 127547, 37197, 0 },
 { 127552, 12308, 26412, 12309, 0 },
 { 127553, 12308, 19977, 12309, 0 },
 { 127554, 12308, 20108, 12309, 0 },
@@ -2236,6 +5176,8 @@
 { 127558, 12308, 30423, 12309, 0 },
 { 127559, 12308, 21213, 12309, 0 },
 { 127560, 12308, 25943, 12309, 0 },
+{ 127568, 24471, 0 },
+{ 127569, 21487, 0 },
 { 194560, 20029, 0 },
 { 194561, 20024, 0 },
 { 194562, 20033, 0 },
diff --git a/src/u5e/props/compatibility_and_canonical_decomposition_mapping_data.pl b/src/u5e/props/compatibility_and_canonical_decomposition_mapping_data.pl
index 9f0c62e..f7553f5 100644
--- a/src/u5e/props/compatibility_and_canonical_decomposition_mapping_data.pl
+++ b/src/u5e/props/compatibility_and_canonical_decomposition_mapping_data.pl
@@ -17,10 +17,9 @@ while (defined (my $line = <$ucd>)) {
   my ($codepoint, $decomposition) = (split /;/, $line)[0,5];
   # ignore codepoints that are already decomposed.
   next unless $decomposition;
-  # we include the compat decompoistions as well
-  $decomposition =~ s/^<compat> //;
-  # but no other
-  next if $decomposition =~ /^\</;
+  # every tagged mapping is a compatibility decomposition, <compat> is
+  # just the tag for the ones without a more specific formatting tag.
+  $decomposition =~ s/^<[^>]+> //;
   $d{$codepoint} = [ split /\s+/, $decomposition ];
 }
 close $ucd;
-- 
2.43.0


From a75f158f5e95af617a1cbf49158f3381e1b2d309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:17 +0000
Subject: [PATCH 15/17] fix: assignment of encoded strings

It tried to assign the encoded string to the native string, so it could
not be compiled, and returned nothing.
---
 include/u5e/basic_encodedstring.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/u5e/basic_encodedstring.hpp b/include/u5e/basic_encodedstring.hpp
index c75b8d6..74e612b 100644
--- a/include/u5e/basic_encodedstring.hpp
+++ b/include/u5e/basic_encodedstring.hpp
@@ -104,7 +104,8 @@ namespace u5e {
      */
     basic_encodedstring&
     operator= (const basic_encodedstring &other) {
-      native_string = other;
+      native_string = other.native_string;
+      return *this;
     }
 
     //@{
-- 
2.43.0


From 28adf1d3cef07f13b5be3fdd90c78437b69c4c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:36 +0000
Subject: [PATCH 16/17] fix: agree on where codepoints start when octets are
 missing or left

In a text with correct bounds but stray continuation octets inside,
incrementing at a stray octet went back to the same octet, so the
iteration never ended. With continuation octets missing inside, going
forward skipped positions that going back stopped at, so a range could
be reversed or step over its end.
---
 include/u5e/utf8.hpp          | 16 +++++------
 include/u5e/utf8_iterator.hpp | 53 ++++++++++++++++++++++++-----------
 2 files changed, 43 insertions(+), 26 deletions(-)

diff --git a/include/u5e/utf8.hpp b/include/u5e/utf8.hpp
index 7bf1f3c..bbff0ff 100644
--- a/include/u5e/utf8.hpp
+++ b/include/u5e/utf8.hpp
@@ -60,15 +60,13 @@ namespace u5e {
     (typename NativeString::const_iterator first,
      utf8_const_iterator<typename NativeString::const_iterator> last) {
       typename NativeString::const_iterator end = last.raw_iterator_;
-      typename NativeString::const_iterator it = end;
-      while (it != first) {
-        --it;
-        if (!utf8_util::is_codepoint_continuation(*it)) {
-          if (std::distance(it, end) < utf8_util::codepoint_size(*it) &&
-              utf8_util::is_codepoint_continuation(*end)) {
-            return it;
-          }
-          break;
+      if (first != end) {
+        last.raw_iterator_--;
+        last.rewind_to_start_of_codepoint(*(last.raw_iterator_));
+        if (std::distance(last.raw_iterator_, end) <
+            utf8_util::codepoint_size(*(last.raw_iterator_)) &&
+            utf8_util::is_codepoint_continuation(*end)) {
+          return last.raw_iterator_;
         }
       }
       return end;
diff --git a/include/u5e/utf8_iterator.hpp b/include/u5e/utf8_iterator.hpp
index f0150e8..ebcb5f7 100644
--- a/include/u5e/utf8_iterator.hpp
+++ b/include/u5e/utf8_iterator.hpp
@@ -50,25 +50,37 @@ namespace u5e {
     inline bool rewind_to_start_of_codepoint(const char current_octet) {
       // when we do '*it = codepoint', we will leave the iterator
       // halfway into the next character
-      bool ret = false;
-      while (utf8_util::is_codepoint_continuation(*raw_iterator_)) {
-        raw_iterator_--;
-        ret = true;
+      //
+      // a continuation that is not preceded by a first octet that
+      // includes it is not part of any codepoint, in that case we're
+      // already in the start of what is going to be a codepoint by
+      // itself.
+      NativeIterator it = raw_iterator_;
+      int walked = 0;
+      while (utf8_util::is_codepoint_continuation(*it)) {
+        if (++walked == 6) {
+          return false;
+        }
+        it--;
       }
-      return ret;
+      if (walked == 0 || walked >= utf8_util::codepoint_size(*it)) {
+        return false;
+      }
+      raw_iterator_ = it;
+      return true;
     }
 
     /**
      * Advance the iterator to the next codepoint
      */
     inline void forward_one_codepoint() {
-      NativeIterator from = raw_iterator_;
       rewind_to_start_of_codepoint(*raw_iterator_);
       difference_type size = utf8_util::codepoint_size(*raw_iterator_);
-      // a continuation that doesn't belong to any codepoint is beyond
-      // the size of what we found, it still needs to be stepped over
-      difference_type walked = std::distance(raw_iterator_, from);
-      std::advance(raw_iterator_, std::max(size, walked + 1));
+      // if there are less continuations than what the first octet
+      // asks for, the next codepoint starts where they end
+      do {
+        ++raw_iterator_;
+      } while (--size && utf8_util::is_codepoint_continuation(*raw_iterator_));
     }
 
     /**
@@ -102,8 +114,17 @@ namespace u5e {
       const NativeIterator& higher = is_lower ? other : raw_iterator_;
       utf8_iterator_base lower(is_lower ? raw_iterator_ : other);
       lower.rewind_to_start_of_codepoint(*lower.raw_iterator_);
-      return std::distance(lower.raw_iterator_, higher) <
-        utf8_util::codepoint_size(*lower.raw_iterator_);
+      int size = utf8_util::codepoint_size(*lower.raw_iterator_);
+      while (--size) {
+        ++lower.raw_iterator_;
+        if (!utf8_util::is_codepoint_continuation(*lower.raw_iterator_)) {
+          return false;
+        }
+        if (lower.raw_iterator_ == higher) {
+          return true;
+        }
+      }
+      return false;
     }
 
     /**
@@ -114,12 +135,10 @@ namespace u5e {
       if (utf8_util::is_7bit_character(first_octet)) {
         return first_octet;
       } else {
-        // reading must not move the iterator
-        utf8_iterator_base start(raw_iterator_);
-        if (start.rewind_to_start_of_codepoint(first_octet)) {
-          first_octet = *start.raw_iterator_;
+        if (rewind_to_start_of_codepoint(first_octet)) {
+          first_octet = *raw_iterator_;
         }
-        NativeIterator copy_ = start.raw_iterator_;
+        NativeIterator copy_ = raw_iterator_;
         difference_type size =
           utf8_util::codepoint_size(first_octet);
         unsigned char mask_first_octet = ~(0xFF<<(7-size));
-- 
2.43.0


From a44c619f28d1eb6778cda8c387a2f8b38627e271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:13 +0000
Subject: [PATCH 17/17] fix: compare grapheme iterators in linear time

Comparing two grapheme iterators looked for every codepoint of one
grapheme in all of the other, which for graphemes of some ten thousand
codepoints takes minutes.
---
 include/u5e/basic_grapheme_iterator.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/u5e/basic_grapheme_iterator.hpp b/include/u5e/basic_grapheme_iterator.hpp
index 8c164ed..8276151 100644
--- a/include/u5e/basic_grapheme_iterator.hpp
+++ b/include/u5e/basic_grapheme_iterator.hpp
@@ -268,13 +268,11 @@ namespace u5e {
           other == end_) {
         return true;
       } else {
-        for (const_codepoint_iterator copy = where_;
-             copy != end_of_grapheme_; copy++) {
-          if (other == copy) {
-            return true;
-          }
-        }
-        return false;
+        // two graphemes have a codepoint in common when one of them
+        // contains the start of the other
+        return
+          (where_ != end_of_grapheme_ && other == where_) ||
+          (other.where_ != other.end_of_grapheme_ && *this == other.where_);
       }
     }
 
-- 
2.43.0

