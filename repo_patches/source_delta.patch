From d514bfa187a1c2d6a735b4b41e916e0d0febb46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 01/34] fix: rotate with n_first == last leaves the range alone
 and returns first

The single-word path shifted by zero and returned the wrong position, and the
multi-word path read past the end of the storage.
---
 include/bitlib/bit-algorithms/rotate.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bitlib/bit-algorithms/rotate.hpp b/include/bitlib/bit-algorithms/rotate.hpp
index f9509ba..3ee1ac7 100644
--- a/include/bitlib/bit-algorithms/rotate.hpp
+++ b/include/bitlib/bit-algorithms/rotate.hpp
@@ -193,6 +193,7 @@ bit_iterator<ForwardIt> rotate(
     _assert_range_viability(first, last);
     //if (first == n_first) return n_first;
     if (first == n_first) return last;
+    if (n_first == last) return first;
 
     // Types and constants
     using word_type = typename bit_iterator<ForwardIt>::word_type;
-- 
2.43.0


From 5e073d5daacbf65cb25793bfe9957ef229d52824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 02/34] fix: count of an empty range does not read the word it
 points to

An empty range may sit at the end of the storage, where there is no word.
---
 include/bitlib/bit-algorithms/count.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/bitlib/bit-algorithms/count.hpp b/include/bitlib/bit-algorithms/count.hpp
index 1a804b1..ca20b39 100644
--- a/include/bitlib/bit-algorithms/count.hpp
+++ b/include/bitlib/bit-algorithms/count.hpp
@@ -48,6 +48,7 @@ count(
 
     // Initialization
     difference_type result = 0;
+    if (first == last) return result;
 
     // Computation when bits belong to several underlying words
     if (first.base() != last.base()) {
-- 
2.43.0


From 76543f30d27e00a89c5ce834e8f48caaa0211e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 03/34] fix: shift_left and shift_right compile over raw word
 pointers in C++17

bit_iterator<WordType*> is documented; word_shift_* only accepted class-type
iterators.
---
 .../bitlib/bit-algorithms/bit_algorithm_details.hpp    | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
index 984c499..e609e32 100644
--- a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
+++ b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
@@ -66,7 +66,7 @@ template <class InputIt>
 bool is_within(
         bit_iterator<InputIt> first,
         bit_iterator<InputIt> last,
-        typename InputIt::difference_type n
+        typename std::iterator_traits<InputIt>::difference_type n
 ) {
     //using word_type = typename bit_iterator<InputIt>::word_type;
     //using size_type = typename bit_iterator<InputIt>::size_type;
@@ -279,11 +279,11 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
 template <class RandomAccessIt>
 RandomAccessIt word_shift_left(RandomAccessIt first,
                           RandomAccessIt last,
-                          typename RandomAccessIt::difference_type n
+                          typename std::iterator_traits<RandomAccessIt>::difference_type n
 )
 {
     if (n <= 0) return last;
-    if (n >= distance(first, last)) return first;
+    if (n >= std::distance(first, last)) return first;
     RandomAccessIt mid = first + n;
     auto ret = std::move(mid, last, first);
     return ret;
@@ -296,10 +296,10 @@ RandomAccessIt word_shift_left(RandomAccessIt first,
 template <class RandomAccessIt>
 RandomAccessIt word_shift_right(RandomAccessIt first,
                           RandomAccessIt last,
-                          typename RandomAccessIt::difference_type n
+                          typename std::iterator_traits<RandomAccessIt>::difference_type n
 )
 {
-    auto d = distance(first, last);
+    auto d = std::distance(first, last);
     if (n <= 0) return first;
     if (n >= d) return last;
     std::move_backward(first, last-n, last);
-- 
2.43.0


From bc2b67325e164bdc560132c58e9802304ca9c19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 04/34] fix: resize gives the bits it appends the requested
 value

resize(count, value) filled from the new end, and resize(count) exposed
whatever earlier erases or shrinks had left in the last word.
---
 include/bitlib/bit-containers/bit_vector.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index f971c49..148f70d 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -610,8 +610,7 @@ constexpr void bit_vector<WordType, Allocator>::pop_back() {
 
 template<class WordType, class Allocator>
 constexpr void bit_vector<WordType, Allocator>::resize(size_type count) {
-    word_vector.resize(word_count(count));
-    length_ = count;
+    resize(count, bit0);
     return;
 }
 
@@ -621,7 +620,7 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
     word_vector.resize(word_count(count));
     length_ = count;
     if (length_ > old_length) {
-        fill(begin() + length_, end(), value);
+        fill(begin() + old_length, end(), value);
     }
     return;
 }
-- 
2.43.0


From fe8ddcb6c854fcd111e11da9f44f7a357741a778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 05/34] fix: insert computes the words it needs exactly

The available bits were held in a float, so vectors over 2^24 bits could write
past their storage.
---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 148f70d..f506999 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -529,7 +529,7 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
-    const float bits_available = word_vector.size() * digits;
+    const size_type bits_available = word_vector.size() * digits;
     const bool need_to_add = length_ + count > bits_available;
     if (need_to_add) {
         const auto words_to_add = word_count(length_ + count - bits_available);
@@ -552,7 +552,7 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
-    const float bits_available = word_vector.size()*digits;
+    const size_type bits_available = word_vector.size()*digits;
     const auto need_to_add = length_ + count > bits_available;
     if (need_to_add) {
         const auto words_to_add = word_count(length_ + count - bits_available);
-- 
2.43.0


From 595dde5f2efca2eac6db4a7c2192f93dccf433ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 06/34] fix: word_count does not truncate bit counts to 32 bits

---
 include/bitlib/bit-containers/bit_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index f506999..4c767b3 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -41,7 +41,7 @@ class bit_vector {
 
         // TODO are privates always inlined?
         // @brief Get the number of words needed to represet num_bits bits
-        constexpr uint64_t word_count(unsigned int num_bits) {
+        constexpr uint64_t word_count(uint64_t num_bits) {
             return ((num_bits + digits - 1) / digits);
         }
 
-- 
2.43.0


From 0f0742309a3a3c505f1d0f9c0f590aa8aef13695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 07/34] fix: the move constructors move

They took const rvalues, so they copied: the noexcept one terminated when the
copy could not allocate, and the source was not left empty.
---
 include/bitlib/bit-containers/bit_vector.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 4c767b3..c354470 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -112,8 +112,8 @@ class bit_vector {
                 const Allocator& alloc=Allocator());
         constexpr bit_vector(const bit_vector<WordType, Allocator>& other) = default;
         constexpr bit_vector(const bit_vector<WordType, Allocator>& other, const Allocator& alloc);
-        constexpr bit_vector(const bit_vector<WordType, Allocator>&& other) noexcept;
-        constexpr bit_vector(const bit_vector<WordType, Allocator>&& other, const Allocator& alloc);
+        constexpr bit_vector(bit_vector<WordType, Allocator>&& other) noexcept;
+        constexpr bit_vector(bit_vector<WordType, Allocator>&& other, const Allocator& alloc);
         constexpr bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc=Allocator());
         constexpr bit_vector(std::initializer_list<bool> init, const Allocator& alloc=Allocator());
         constexpr bit_vector(std::initializer_list<WordType> init, const Allocator& alloc=Allocator());
@@ -242,12 +242,16 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
 }
 
 template<class WordType, class Allocator>
-constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>&& other) noexcept
-    : word_vector(std::move(other.word_vector)), length_(other.length_) {}
+constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other) noexcept
+    : word_vector(std::move(other.word_vector)), length_(other.length_) {
+    other.length_ = 0;
+}
 
 template<class WordType, class Allocator>
-constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>&& other, const Allocator& alloc)
-    : word_vector(std::move(other.word_vector), alloc), length_(other.length_) {}
+constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other, const Allocator& alloc)
+    : word_vector(std::move(other.word_vector), alloc), length_(other.length_) {
+    other.clear();
+}
 
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc)
-- 
2.43.0


From ea8c6ae280f7dee776d9df4b698ab0f19f83e472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 08/34] fix: define the allocator-extended copy constructor

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index c354470..1669fd5 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -241,6 +241,10 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
     );
 }
 
+template<class WordType, class Allocator>
+constexpr bit_vector<WordType, Allocator>::bit_vector(const bit_vector<WordType, Allocator>& other, const Allocator& alloc)
+    : word_vector(other.word_vector, alloc), length_(other.length_) {}
+
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Allocator>&& other) noexcept
     : word_vector(std::move(other.word_vector)), length_(other.length_) {
-- 
2.43.0


From ed131e8f81ae97a7b8ea701ecf12d5ec48272159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 09/34] fix: iterator types follow the allocator, and
 const_iterator can be incremented

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 1669fd5..a28532c 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -84,8 +84,8 @@ class bit_vector {
         using reference = bit_reference<WordType>;
         using const_reference = const reference;
         using pointer = bit_pointer<WordType>;
-        using iterator = bit_iterator<typename std::vector<WordType>::iterator>;
-        using const_iterator = bit_iterator<const typename std::vector<WordType>::const_iterator>;
+        using iterator = bit_iterator<typename std::vector<WordType, Allocator>::iterator>;
+        using const_iterator = bit_iterator<typename std::vector<WordType, Allocator>::const_iterator>;
 
 
         /*
-- 
2.43.0


From ef514945973b9cc5e5d310f62428061c8e1b68d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 10/34] fix: element access on const vectors compiles

operator[], at, front and back of a const vector returned references to
mutable words, which cannot be made from its const iterators.
---
 include/bitlib/bit-containers/bit_vector.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index a28532c..e04432e 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -82,7 +82,7 @@ class bit_vector {
         using size_type = std::size_t;
         using difference_type = std::ptrdiff_t;
         using reference = bit_reference<WordType>;
-        using const_reference = const reference;
+        using const_reference = bit_reference<const WordType>;
         using pointer = bit_pointer<WordType>;
         using iterator = bit_iterator<typename std::vector<WordType, Allocator>::iterator>;
         using const_iterator = bit_iterator<typename std::vector<WordType, Allocator>::const_iterator>;
@@ -137,7 +137,7 @@ class bit_vector {
          * Element Access
          */
         constexpr reference operator[](size_type pos);
-        constexpr reference operator[](size_type pos) const;
+        constexpr const_reference operator[](size_type pos) const;
         constexpr reference at(size_type pos);
         constexpr const_reference at(size_type pos) const;
         constexpr reference front();
@@ -260,7 +260,7 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(bit_vector<WordType, Alloc
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::initializer_list<bit_value> init, const Allocator& alloc)
     : word_vector(alloc), length_(0) {
-    for (const_reference b : init) {
+    for (const bit_value& b : init) {
         this->push_back(b);
     }
 }
@@ -366,7 +366,7 @@ constexpr typename bit_vector<WordType, Allocator>::reference
 bit_vector<WordType, Allocator>::operator[](size_type pos) {return begin()[pos];}
 
 template<class WordType, class Allocator>
-constexpr typename bit_vector<WordType, Allocator>::reference
+constexpr typename bit_vector<WordType, Allocator>::const_reference
 bit_vector<WordType, Allocator>::operator[](size_type pos) const {return begin()[pos];}
 
 template<class WordType, class Allocator>
-- 
2.43.0


From cc234b0066bd7ee2696d4ecff5b73554cb017b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 11/34] fix: debug_string over a range of const iterators
 compiles

---
 include/bitlib/bit-containers/bit_vector.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index e04432e..db2ac5f 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -640,16 +640,14 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
 template<class WordType, class Allocator>
 constexpr std::string bit_vector<WordType, Allocator>::debug_string(const_iterator first, const_iterator last) {
     std::string ret = "";
-    iterator mem = first;
     auto position = 0;
-    for (iterator it = first; it != last; ++it) {
+    for (const_iterator it = first; it != last; ++it) {
         if (position % digits == 0 && position != 0) {
             ret += " ";
         } else if (position % 8 == 0 && position != 0) {
             ret += '.';
         }
         ret += *it == bit1 ? '1' : '0';
-        mem = it;
         ++position;
     }
     return ret;
-- 
2.43.0


From 27029ffbb8807d8d7d7798798dc224e3e4639de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 12/34] fix: copy, move, copy_backward and equal accept ranges
 of const words

---
 include/bitlib/bit-algorithms/copy.hpp          | 2 +-
 include/bitlib/bit-algorithms/copy_backward.hpp | 2 +-
 include/bitlib/bit-algorithms/equal.hpp         | 4 ++--
 include/bitlib/bit-algorithms/move.hpp          | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/bitlib/bit-algorithms/copy.hpp b/include/bitlib/bit-algorithms/copy.hpp
index 2d50751..95714d1 100644
--- a/include/bitlib/bit-algorithms/copy.hpp
+++ b/include/bitlib/bit-algorithms/copy.hpp
@@ -35,7 +35,7 @@ constexpr bit_iterator<RandomAccessIt2> copy(bit_iterator<RandomAccessIt1> first
 {
     // Types and constants
     using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using src_word_type = ::std::remove_cv_t<typename bit_iterator<RandomAccessIt1>::word_type>;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/copy_backward.hpp b/include/bitlib/bit-algorithms/copy_backward.hpp
index 55bd6f6..dfcdda6 100644
--- a/include/bitlib/bit-algorithms/copy_backward.hpp
+++ b/include/bitlib/bit-algorithms/copy_backward.hpp
@@ -32,7 +32,7 @@ constexpr bit_iterator<RandomAccessIt2> copy_backward(bit_iterator<RandomAccessI
 {
     // Types and constants
     using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using src_word_type = ::std::remove_cv_t<typename bit_iterator<RandomAccessIt1>::word_type>;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/equal.hpp b/include/bitlib/bit-algorithms/equal.hpp
index e3fb144..3acd135 100644
--- a/include/bitlib/bit-algorithms/equal.hpp
+++ b/include/bitlib/bit-algorithms/equal.hpp
@@ -34,8 +34,8 @@ constexpr bool equal(
 )
 {
     // Types and constants
-    using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using dst_word_type = ::std::remove_cv_t<typename bit_iterator<RandomAccessIt2>::word_type>;
+    using src_word_type = ::std::remove_cv_t<typename bit_iterator<RandomAccessIt1>::word_type>;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
diff --git a/include/bitlib/bit-algorithms/move.hpp b/include/bitlib/bit-algorithms/move.hpp
index 401cbfd..c921bf9 100644
--- a/include/bitlib/bit-algorithms/move.hpp
+++ b/include/bitlib/bit-algorithms/move.hpp
@@ -30,7 +30,7 @@ constexpr bit_iterator<RandomAccessIt2> move(bit_iterator<RandomAccessIt1> first
 {
     // Types and constants
     using dst_word_type = typename bit_iterator<RandomAccessIt2>::word_type;
-    using src_word_type = typename bit_iterator<RandomAccessIt1>::word_type;
+    using src_word_type = std::remove_cv_t<typename bit_iterator<RandomAccessIt1>::word_type>;
     using word_type = dst_word_type;
     using size_type = typename bit_iterator<RandomAccessIt2>::size_type;
     constexpr size_type digits = binary_digits<word_type>::value;
-- 
2.43.0


From 01a3887f1628d3cd9df89aafdeb1c6430850664f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:49 +0000
Subject: [PATCH 13/34] fix: bit_iterator can be assigned from another iterator
 type

The converting assignment reached into private members of a different class.
---
 include/bitlib/bit-iterator/bit_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_iterator.hpp b/include/bitlib/bit-iterator/bit_iterator.hpp
index 235d028..19c6b81 100644
--- a/include/bitlib/bit-iterator/bit_iterator.hpp
+++ b/include/bitlib/bit-iterator/bit_iterator.hpp
@@ -190,8 +190,8 @@ constexpr bit_iterator<Iterator>& bit_iterator<Iterator>::operator=(
     const bit_iterator<T>& other
 )
 {
-    _current = other._current;
-    _position = other._position;
+    _current = other.base();
+    _position = other.position();
     return *this;
 }
 // -------------------------------------------------------------------------- //
-- 
2.43.0


From d1b3932d4fb14ac9ee184e1e9aaf0de09f306b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 14/34] fix: bit_pointer can be assigned from a pointer to
 another word type

The converting assignment reached into private members of a different class.
---
 include/bitlib/bit-iterator/bit_pointer.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_pointer.hpp b/include/bitlib/bit-iterator/bit_pointer.hpp
index 4a56472..0d00385 100644
--- a/include/bitlib/bit-iterator/bit_pointer.hpp
+++ b/include/bitlib/bit-iterator/bit_pointer.hpp
@@ -212,9 +212,7 @@ constexpr bit_pointer<WordType>& bit_pointer<WordType>::operator=(
     const bit_pointer<T>& other
 ) noexcept
 {
-    _ref._ptr = other._ref._ptr;
-    _ref._mask = other._ref._mask;
-    return *this;
+    return *this = bit_pointer(other);
 }
 // -------------------------------------------------------------------------- //
 
-- 
2.43.0


From da3ee40fd7f5f45d8e902b4b22bc7bad7ae94a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:14 +0000
Subject: [PATCH 15/34] fix: bit_value::swap with a bit_reference compiles

---
 include/bitlib/bit-iterator/bit_value.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-iterator/bit_value.hpp b/include/bitlib/bit-iterator/bit_value.hpp
index 0fd6ee4..88dcba1 100644
--- a/include/bitlib/bit-iterator/bit_value.hpp
+++ b/include/bitlib/bit-iterator/bit_value.hpp
@@ -287,7 +287,7 @@ void bit_value::swap(
     bit_reference<T> other
 ) noexcept
 {
-    if (other != _value) {
+    if (other != *this) {
         flip();
         other.flip();
     }
-- 
2.43.0


From 3c3aaceca02cb4840d75027b3c21f1d84f3a80d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:59 +0000
Subject: [PATCH 16/34] fix: find compiles over const words in SIMD builds

---
 include/bitlib/bit-algorithms/find.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/find.hpp b/include/bitlib/bit-algorithms/find.hpp
index b35583c..c7cf603 100644
--- a/include/bitlib/bit-algorithms/find.hpp
+++ b/include/bitlib/bit-algorithms/find.hpp
@@ -36,7 +36,7 @@ constexpr bit_iterator<RandomAccessIt> find(
         bit_iterator<RandomAccessIt> last, bit::bit_value bv
 ) {
 
-    using word_type = typename bit_iterator<RandomAccessIt>::word_type;
+    using word_type = std::remove_cv_t<typename bit_iterator<RandomAccessIt>::word_type>;
     using size_type = typename bit_iterator<RandomAccessIt>::size_type;
     const std::size_t digits = binary_digits<word_type>::value;
 
-- 
2.43.0


From b6d5f99d1bffcea2dc9a9074d48d5c6a762720d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 17/34] fix: sizes near the top of size_type throw instead of
 wrapping around

A count that overflowed gave a vector of that length without storage, and the
insert of such a count wrote out of bounds.
---
 include/bitlib/bit-containers/bit_vector.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index db2ac5f..4022b03 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -15,6 +15,7 @@
 // C++ standard library
 #include <vector>
 #include <cmath>
+#include <stdexcept>
 #include <string>
 #include <iostream>
 #include <algorithm>
@@ -42,7 +43,7 @@ class bit_vector {
         // TODO are privates always inlined?
         // @brief Get the number of words needed to represet num_bits bits
         constexpr uint64_t word_count(uint64_t num_bits) {
-            return ((num_bits + digits - 1) / digits);
+            return num_bits / digits + (num_bits % digits != 0);
         }
 
         // Iterator pair constructor specializations
@@ -537,6 +538,9 @@ bit_vector<WordType, Allocator>::insert(
     if (count == 0) {
         return begin() + d;
     }
+    if (count > max_size() - length_) {
+        throw std::length_error("bit_vector::insert");
+    }
     const size_type bits_available = word_vector.size() * digits;
     const bool need_to_add = length_ + count > bits_available;
     if (need_to_add) {
-- 
2.43.0


From 32588e5418bedcdb98080e89a607f52fdc11bc01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:41 +0000
Subject: [PATCH 18/34] fix: swap_ranges compiles for ranges with different
 iterator types

---
 include/bitlib/bit-algorithms/swap_ranges.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/swap_ranges.hpp b/include/bitlib/bit-algorithms/swap_ranges.hpp
index 67cd5a0..9af430a 100644
--- a/include/bitlib/bit-algorithms/swap_ranges.hpp
+++ b/include/bitlib/bit-algorithms/swap_ranges.hpp
@@ -106,7 +106,7 @@ constexpr bit_iterator<RandomAccessIt2> swap_ranges(
                         last1.position()
                 );
             }
-            return bit_iterator<RandomAccessIt1>(it2, last1.position());
+            return bit_iterator<RandomAccessIt2>(it2, last1.position());
 
         // first1 range spans mutliple words and is not aligned with first2
         } else {
-- 
2.43.0


From 9b9355e075ad507e2aaef5d1e2b697321759aa5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:48 +0000
Subject: [PATCH 19/34] fix: the range constructors use the allocator they are
 given

---
 include/bitlib/bit-containers/bit_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 4022b03..14bb987 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -234,7 +234,8 @@ template<class RandomAccessIt>
 constexpr bit_vector<WordType, Allocator>::bit_vector(
         RandomAccessIt first,
         RandomAccessIt last,
-        const Allocator& alloc) {
+        const Allocator& alloc)
+    : word_vector(alloc), length_(0) {
     bit_vector<WordType, Allocator>::range_constructor(
         first,
         last,
-- 
2.43.0


From 3743b8a7cac67af89e680e4c1fcc5b46da0e9cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 20/34] fix: move assignment may throw when it has to allocate

---
 include/bitlib/bit-containers/bit_vector.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 14bb987..ad92a97 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -131,7 +131,8 @@ class bit_vector {
          * Assignment
          */
         constexpr bit_vector& operator=(const bit_vector<WordType, Allocator>& other) = default;
-        constexpr bit_vector& operator=(bit_vector<WordType, Allocator>&& other) noexcept;
+        constexpr bit_vector& operator=(bit_vector<WordType, Allocator>&& other)
+            noexcept(std::is_nothrow_move_assignable<std::vector<WordType, Allocator>>::value);
 
 
         /*
@@ -352,9 +353,10 @@ constexpr bit_vector<WordType, Allocator>::~bit_vector() {
 // ------------------------ BIT VECTOR: ASSIGNMENT ------------------------ //
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>&
-bit_vector<WordType, Allocator>::operator=(bit_vector<WordType, Allocator>&& other) noexcept {
-    length_ = other.length_;
+bit_vector<WordType, Allocator>::operator=(bit_vector<WordType, Allocator>&& other)
+    noexcept(std::is_nothrow_move_assignable<std::vector<WordType, Allocator>>::value) {
     word_vector = std::move(other.word_vector);
+    length_ = other.length_;
     other.length_ = 0;
     return *this;
 }
-- 
2.43.0


From 53f74c9613b0bf59b679dc5865fabc778bf93938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:59 +0000
Subject: [PATCH 21/34] fix: bit_vector compiles with clang in C++17

---
 include/bitlib/bit-containers/bit_vector.hpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index ad92a97..532c35b 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -26,6 +26,12 @@
 #include "bitlib/bit-algorithms/bit_algorithm.hpp"
 // Third-party libraries
 // Miscellaneous
+// std::string is a literal type, as a constexpr function needs, from C++20 on
+#if __cplusplus >= 202002L
+#define BITLIB_STRING_CONSTEXPR constexpr
+#else
+#define BITLIB_STRING_CONSTEXPR inline
+#endif
 namespace bit {
 // ========================================================================== //
 
@@ -189,8 +195,8 @@ class bit_vector {
         /*
          * Helper functions
          */
-        constexpr std::string debug_string(const_iterator first, const_iterator last);
-        constexpr std::string debug_string();
+        BITLIB_STRING_CONSTEXPR std::string debug_string(const_iterator first, const_iterator last);
+        BITLIB_STRING_CONSTEXPR std::string debug_string();
 
         // TODO Make constexpr
         //friend std::ostream& operator<<(std::ostream& os, bit_vector bv) {
@@ -645,7 +651,7 @@ constexpr void bit_vector<WordType, Allocator>::resize(size_type count, const va
 
 // ------------------------ BIT VECTOR: DEBUGGING -------------------------- //
 template<class WordType, class Allocator>
-constexpr std::string bit_vector<WordType, Allocator>::debug_string(const_iterator first, const_iterator last) {
+BITLIB_STRING_CONSTEXPR std::string bit_vector<WordType, Allocator>::debug_string(const_iterator first, const_iterator last) {
     std::string ret = "";
     auto position = 0;
     for (const_iterator it = first; it != last; ++it) {
@@ -661,7 +667,7 @@ constexpr std::string bit_vector<WordType, Allocator>::debug_string(const_iterat
 }
 
 template<class WordType, class Allocator>
-constexpr std::string bit_vector<WordType, Allocator>::debug_string() {
+BITLIB_STRING_CONSTEXPR std::string bit_vector<WordType, Allocator>::debug_string() {
     auto first = begin();
     auto last = end();
     std::string ret = "";
@@ -684,5 +690,6 @@ constexpr std::string bit_vector<WordType, Allocator>::debug_string() {
 
 // ========================================================================== //
 } // namespace bit
+#undef BITLIB_STRING_CONSTEXPR
 #endif // _BIT_VECTOR_HPP_INCLUDED
 // ========================================================================== //
-- 
2.43.0


From be1a6257270f05c954924a5431fcefe570a6aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:50 +0000
Subject: [PATCH 22/34] fix: constructing a bit_vector from a range or a string
 takes the words it needs

They allocated one word for every bit, 8 to 64 times what the bits take.
---
 include/bitlib/bit-containers/bit_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index 532c35b..fd17f21 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -231,7 +231,7 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
         bit_iterator<RandomAccessIt> first,
         bit_iterator<RandomAccessIt> last,
         const Allocator& alloc)
-    : word_vector(distance(first, last), alloc), length_(distance(first, last)) {
+    : word_vector(word_count(distance(first, last)), alloc), length_(distance(first, last)) {
     copy(first, last, this->begin());
 }
 
@@ -292,7 +292,7 @@ constexpr bit_vector<WordType, Allocator>::bit_vector(
 template<class WordType, class Allocator>
 constexpr bit_vector<WordType, Allocator>::bit_vector(std::string_view s) {
     this->length_ = std::count(s.begin(), s.end(), '0') + std::count(s.begin(), s.end(), '1');
-    this->word_vector = std::vector<WordType, Allocator>(this->length_);
+    this->word_vector = std::vector<WordType, Allocator>(word_count(this->length_));
     size_type i = 0;
     for (char c : s) {
         if (c == '0') {
@@ -317,7 +317,7 @@ constexpr bit_vector<WordType, Allocator>::range_constructor(
         RandomAccessIt first,
         RandomAccessIt last,
         const Allocator& alloc) {
-    word_vector = std::vector<WordType, Allocator>(std::distance(first, last), alloc);
+    word_vector = std::vector<WordType, Allocator>(word_count(std::distance(first, last)), alloc);
     length_ = std::distance(first, last);
     std::transform(
             first,
-- 
2.43.0


From 30d4c8c6f7bd6d2ad353f18d3773cfb4a5079930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:04 +0000
Subject: [PATCH 23/34] fix: SIMD algorithms accept every word type

With BITLIB_HWY the algorithms did not compile for words of unsigned long long,
char16_t or char32_t, for which Highway has no lanes.
---
 .../bit-algorithms/bit_algorithm_details.hpp  | 26 +++++++++++++++++++
 include/bitlib/bit-algorithms/fill.hpp        |  4 +--
 include/bitlib/bit-algorithms/find.hpp        |  4 +--
 include/bitlib/bit-algorithms/shift.hpp       | 16 ++++++------
 include/bitlib/bit-algorithms/transform.hpp   |  8 +++---
 5 files changed, 42 insertions(+), 16 deletions(-)

diff --git a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
index e609e32..c385b8e 100644
--- a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
+++ b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
@@ -14,6 +14,8 @@
 
 // ============================== PREAMBLE ================================== //
 // C++ standard library
+#include <cstdint>
+#include <type_traits>
 // Project sources
 #include "bitlib/bit-iterator/bit.hpp"
 // Third-party libraries
@@ -23,6 +25,30 @@ namespace bit {
 
 
 
+#ifdef BITLIB_HWY
+// -------------------------- SIMD Lanes of Words --------------------------- //
+// Highway only knows lanes of the types uintN_t, of which unsigned long long,
+// char16_t, ... need not be one although they may be words
+template <class WordType>
+using _lane_type = std::conditional_t<sizeof(WordType) == 1, std::uint8_t,
+                   std::conditional_t<sizeof(WordType) == 2, std::uint16_t,
+                   std::conditional_t<sizeof(WordType) == 4, std::uint32_t,
+                   std::conditional_t<sizeof(WordType) == 8, std::uint64_t, WordType>>>>;
+
+template <class WordType>
+_lane_type<WordType>* _lanes(WordType* words) noexcept {
+    return reinterpret_cast<_lane_type<WordType>*>(words);
+}
+
+template <class WordType>
+const _lane_type<WordType>* _lanes(const WordType* words) noexcept {
+    return reinterpret_cast<const _lane_type<WordType>*>(words);
+}
+// -------------------------------------------------------------------------- //
+
+
+
+#endif
 // -------------------------- Iterator Algorithms --------------------------- //
 // Returns the number of increments needed to get to last from first.
 // May be negative if last comes before first (Only when input is RAI)
diff --git a/include/bitlib/bit-algorithms/fill.hpp b/include/bitlib/bit-algorithms/fill.hpp
index 08f9c61..dba7eb4 100644
--- a/include/bitlib/bit-algorithms/fill.hpp
+++ b/include/bitlib/bit-algorithms/fill.hpp
@@ -66,11 +66,11 @@ void fill(bit_iterator<RandomAccessIt> first, bit_iterator<RandomAccessIt> last,
         for (; it != last.base() && !is_aligned(&*it, 64); it++) {
             *it = fill_word;
         }
-        const hn::ScalableTag<word_type> d;
+        const hn::ScalableTag<_lane_type<word_type>> d;
         const auto fill_vec = bv == bit0 ? hn::Set(d, 0) : hn::Set(d, ones);
         for (; std::distance(it, last.base()) >= hn::Lanes(d); it += hn::Lanes(d))
         {
-            hn::Store(fill_vec, d, &*it);
+            hn::Store(fill_vec, d, _lanes(&*it));
         }
 #endif
         std::fill(it, last.base(), fill_word);
diff --git a/include/bitlib/bit-algorithms/find.hpp b/include/bitlib/bit-algorithms/find.hpp
index c7cf603..637ecb8 100644
--- a/include/bitlib/bit-algorithms/find.hpp
+++ b/include/bitlib/bit-algorithms/find.hpp
@@ -78,11 +78,11 @@ constexpr bit_iterator<RandomAccessIt> find(
     }
 
     // SIMD
-    hn::ScalableTag<word_type> d;
+    hn::ScalableTag<_lane_type<word_type>> d;
     const auto z = hn::Zero(d);
     for (; std::distance(it, last.base()) >= hn::Lanes(d); it += hn::Lanes(d))
     {
-        auto v = hn::Load(d, &*it);
+        auto v = hn::Load(d, _lanes(&*it));
         if (bv == bit0)
         {
             v = hn::Not(v);
diff --git a/include/bitlib/bit-algorithms/shift.hpp b/include/bitlib/bit-algorithms/shift.hpp
index e598e0c..354b5a8 100644
--- a/include/bitlib/bit-algorithms/shift.hpp
+++ b/include/bitlib/bit-algorithms/shift.hpp
@@ -191,12 +191,12 @@ bit_iterator<RandomAccessIt> shift_left(
         middle += digits;
     }
 
-    const hn::ScalableTag<word_type> d_tag;
+    const hn::ScalableTag<_lane_type<word_type>> d_tag;
     while (std::distance(middle.base(), last.base()) >= hn::Lanes(d_tag) + 10 + !is_last_aligned)
     {
-        const auto v = hn::ShiftRightSame(hn::LoadU(d_tag, &*middle.base()), offset);
-        const auto v_plus1 = hn::ShiftLeftSame(hn::LoadU(d_tag, &*(middle.base()+1)), digits - offset);
-        hn::Store(v | v_plus1, d_tag, &*first.base());
+        const auto v = hn::ShiftRightSame(hn::LoadU(d_tag, _lanes(&*middle.base())), offset);
+        const auto v_plus1 = hn::ShiftLeftSame(hn::LoadU(d_tag, _lanes(&*(middle.base()+1))), digits - offset);
+        hn::Store(v | v_plus1, d_tag, _lanes(&*first.base()));
         first += hn::Lanes(d_tag)*digits;
         middle += hn::Lanes(d_tag)*digits;
     }
@@ -319,7 +319,7 @@ bit_iterator<RandomAccessIt> shift_right(
     {
 #ifdef BITLIB_HWY
         // Align to 64 bit boundary
-        const hn::ScalableTag<word_type> d;
+        const hn::ScalableTag<_lane_type<word_type>> d;
         while (std::prev(middle.base()) > first.base() && !is_aligned(&*(last.base() - hn::Lanes(d)), 64)) {
             *std::prev(last.base()) = _shrd<word_type>(*std::prev(middle.base()), *middle.base(), offset);
             last -= digits;
@@ -329,12 +329,12 @@ bit_iterator<RandomAccessIt> shift_right(
         while (std::distance(first.base(), middle.base()) > hn::Lanes(d) + 1)
         {
             const auto v = hn::ShiftRightSame(
-                    hn::LoadU(d, &*(middle.base() - hn::Lanes(d))),
+                    hn::LoadU(d, _lanes(&*(middle.base() - hn::Lanes(d)))),
                     offset);
             const auto v_plus1 = hn::ShiftLeftSame(
-                    hn::LoadU(d, &*(middle.base() - hn::Lanes(d) + 1)),
+                    hn::LoadU(d, _lanes(&*(middle.base() - hn::Lanes(d) + 1))),
                     digits - offset);
-            hn::Store(v | v_plus1, d, &*(last.base() - hn::Lanes(d)));
+            hn::Store(v | v_plus1, d, _lanes(&*(last.base() - hn::Lanes(d))));
 
             last -= digits * hn::Lanes(d);
             middle -= digits * hn::Lanes(d);
diff --git a/include/bitlib/bit-algorithms/transform.hpp b/include/bitlib/bit-algorithms/transform.hpp
index 8857788..4d4cbf9 100644
--- a/include/bitlib/bit-algorithms/transform.hpp
+++ b/include/bitlib/bit-algorithms/transform.hpp
@@ -89,15 +89,15 @@ constexpr bit_iterator<RandomAccessIt> transform(
 
                 bool out_is_aligned = is_aligned(&*it, 64);
 
-                constexpr hn::ScalableTag<word_type> d;
+                constexpr hn::ScalableTag<_lane_type<word_type>> d;
                 for (; std::distance(firstIt, last.base()) >= hn::Lanes(d); firstIt += hn::Lanes(d), it += hn::Lanes(d))
                 {
-                    const auto v = hn::Not(hn::Load(d, &*firstIt));
+                    const auto v = hn::Not(hn::Load(d, _lanes(&*firstIt)));
                     if (out_is_aligned)
                     {
-                        hn::Store(v, d, &*it);
+                        hn::Store(v, d, _lanes(&*it));
                     } else {
-                        hn::StoreU(v, d, &*it);
+                        hn::StoreU(v, d, _lanes(&*it));
                     }
                 }
             }
-- 
2.43.0


From 27a0ba41ff280afddd2f6d03947700181ea3f15e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:25 +0000
Subject: [PATCH 24/34] fix: rotate cut the number of swaps of more than 2^32
 to 32 bits

---
 include/bitlib/bit-algorithms/rotate.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-algorithms/rotate.hpp b/include/bitlib/bit-algorithms/rotate.hpp
index 3ee1ac7..cf3c863 100644
--- a/include/bitlib/bit-algorithms/rotate.hpp
+++ b/include/bitlib/bit-algorithms/rotate.hpp
@@ -135,7 +135,7 @@ bit_iterator<RandomAccessIt> _rotate_via_raw(
                 return ret;
             }
             bit_iterator<RandomAccessIt> q = p + k;
-            unsigned int full_swaps = (n - k) / k;
+            size_type full_swaps = (n - k) / k;
             size_type remainder = (n - k) - full_swaps*k;
             while (full_swaps > 0) {
                 swap_ranges(p, q, q);
@@ -161,7 +161,7 @@ bit_iterator<RandomAccessIt> _rotate_via_raw(
             }
             bit_iterator<RandomAccessIt> q = p + n;
             p = q - k;
-            unsigned int full_swaps = (n - k) / k;
+            size_type full_swaps = (n - k) / k;
             size_type remainder = (n - k) - full_swaps*k;
             while (full_swaps > 0) {
                 p -= k;
-- 
2.43.0


From a3cfa33357be4e8ae8b395931b835138013e19ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:04 +0000
Subject: [PATCH 25/34] fix: the wider of several word types is found with
 _wider_type

_wider_type recursed into _narrower_type, so that next after the first
candidate the narrower type was taken: the widest of 8 and 16 bits was 8.
---
 include/bitlib/bit-iterator/bit_details.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index 595cd81..a37c5b5 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -235,7 +235,7 @@ struct _wider_type
         typename std::tuple_element<I, tuple>::type,
         typename std::conditional<
             (I + 1 < std::tuple_size<tuple>::value),
-            typename _narrower_type<
+            typename _wider_type<
                 T,
                 (I + 1 < std::tuple_size<tuple>::value ? I + 1 : -1)
             >::type,
-- 
2.43.0


From 2274ba8b8430bb497422d1b38bcbe6de419bcf3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:04 +0000
Subject: [PATCH 26/34] fix: word operations over the whole width do not shift
 by the width

_bextr, _bitblend, _shld and _shrd shifted by the width of the word or more
for full or overlong fields and for shifts by zero, which is undefined: no
constant expression, and at -O0 _shld and _shrd by zero gave dst | src.
---
 include/bitlib/bit-iterator/bit_details.hpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/include/bitlib/bit-iterator/bit_details.hpp b/include/bitlib/bit-iterator/bit_details.hpp
index a37c5b5..ddcea05 100644
--- a/include/bitlib/bit-iterator/bit_details.hpp
+++ b/include/bitlib/bit-iterator/bit_details.hpp
@@ -538,8 +538,8 @@ constexpr T _bextr(T src, T start, T len, X...) noexcept
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
     constexpr T one = 1;
-    const T msk = (one << len) * (len < digits) - one;
-    return (src >> start) & msk * (start < digits);
+    const T msk = len < digits ? (one << len) - one : ~T();
+    return start < digits ? (src >> start) & msk : T();
 }
 // -------------------------------------------------------------------------- //
 
@@ -756,8 +756,9 @@ constexpr T _bitblend(T src0, T src1, T start, T len) noexcept
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
     constexpr T one = 1;
-    const T msk = ((one << len) * (len < digits) - one) << start;
-    return src0 ^ ((src0 ^ src1) & msk * (start < digits));
+    const T ones = len < digits ? (one << len) - one : ~T();
+    const T msk = start < digits ? ones << start : T();
+    return src0 ^ ((src0 ^ src1) & msk);
 }
 // -------------------------------------------------------------------------- //
 
@@ -858,10 +859,12 @@ constexpr T _shld(T dst, T src, T cnt) noexcept
 {
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
-    if (cnt < digits) {
+    if (cnt == T()) {
+        return dst;
+    } else if (cnt < digits) {
         dst = (dst << cnt) | (src >> (digits - cnt));
     } else {
-        dst = (src << (cnt - digits)) * (cnt < digits + digits);
+        dst = cnt - digits < digits ? src << (cnt - digits) : T();
     }
     return dst;
 }
@@ -876,10 +879,12 @@ constexpr T _shrd(T dst, T src, T cnt) noexcept
 {
     static_assert(binary_digits<T>::value, "");
     constexpr T digits = binary_digits<T>::value;
-    if (cnt < digits) {
+    if (cnt == T()) {
+        return dst;
+    } else if (cnt < digits) {
         dst = (dst >> cnt) | (src << (digits - cnt));
     } else {
-        dst = (src >> (cnt - digits)) * (cnt < digits + digits);
+        dst = cnt - digits < digits ? src >> (cnt - digits) : T();
     }
     return dst;
 }
-- 
2.43.0


From b460879d36de2ed0c06074458423ae071b1906a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:04 +0000
Subject: [PATCH 27/34] fix: shift_left and shift_right do not form addresses
 outside the range

first + n and last - n were formed before n was compared with the length.
---
 include/bitlib/bit-algorithms/shift.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/bitlib/bit-algorithms/shift.hpp b/include/bitlib/bit-algorithms/shift.hpp
index 354b5a8..3a5f672 100644
--- a/include/bitlib/bit-algorithms/shift.hpp
+++ b/include/bitlib/bit-algorithms/shift.hpp
@@ -62,7 +62,6 @@ bit_iterator<RandomAccessIt> shift_left(
     auto d = bit::distance(first, last);
     const bool is_first_aligned = first.position() == 0;
     const bool is_last_aligned = last.position() == 0;
-    auto middle = first + n;
 
     // Out of range cases
     if (n <= 0) return last;
@@ -71,6 +70,7 @@ bit_iterator<RandomAccessIt> shift_left(
         //bit::fill(first, last, bit::bit0);    
         return first;
     }
+    auto middle = first + n;
 
     // Single word case
     // Triggered if all relevant bits are in first.base()
@@ -252,11 +252,11 @@ bit_iterator<RandomAccessIt> shift_right(
     const bool is_last_aligned = last.position() == 0;
     constexpr auto digits = binary_digits<word_type>::value;
     auto d = bit::distance(first, last);
-    bit_iterator<RandomAccessIt> middle = last - n;
 
     // Out of range cases
     if (n <= 0) return first;
     else if (n >= d) return last;
+    bit_iterator<RandomAccessIt> middle = last - n;
 
     // Single word case
     if (std::next(first.base(), is_last_aligned) == last.base()) {
-- 
2.43.0


From 559ba7064a8f19073d10bf3b9943c93ae15a1223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:04 +0000
Subject: [PATCH 28/34] fix: shift_right does not hold the address before the
 first word

Its loops held the addresses before the words they had reached, and the SIMD
loop asked for the alignment of a block that may begin before the words.
---
 include/bitlib/bit-algorithms/shift.hpp | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/bitlib/bit-algorithms/shift.hpp b/include/bitlib/bit-algorithms/shift.hpp
index 3a5f672..2d33d90 100644
--- a/include/bitlib/bit-algorithms/shift.hpp
+++ b/include/bitlib/bit-algorithms/shift.hpp
@@ -320,7 +320,7 @@ bit_iterator<RandomAccessIt> shift_right(
 #ifdef BITLIB_HWY
         // Align to 64 bit boundary
         const hn::ScalableTag<_lane_type<word_type>> d;
-        while (std::prev(middle.base()) > first.base() && !is_aligned(&*(last.base() - hn::Lanes(d)), 64)) {
+        while (std::distance(first.base(), middle.base()) > hn::Lanes(d) + 1 && !is_aligned(&*(last.base() - hn::Lanes(d)), 64)) {
             *std::prev(last.base()) = _shrd<word_type>(*std::prev(middle.base()), *middle.base(), offset);
             last -= digits;
             middle -= digits;
@@ -341,24 +341,24 @@ bit_iterator<RandomAccessIt> shift_right(
         }
 #endif
 
-        auto last_base_prev   = std::prev(last.base());
-        auto middle_base_prev = std::prev(middle.base());
+        auto last_base   = last.base();
+        auto middle_base = middle.base();
 
-        while (middle_base_prev > first.base()) {
-            *last_base_prev = _shrd<word_type>(*middle_base_prev, *std::next(middle_base_prev), offset);
-            last_base_prev--;
-            middle_base_prev--;
+        while (std::prev(middle_base) > first.base()) {
+            *std::prev(last_base) = _shrd<word_type>(*std::prev(middle_base), *middle_base, offset);
+            last_base--;
+            middle_base--;
         }
 
         if (first.position() <= middle.position())
         {
-            *last_base_prev = _shrd<word_type>(*middle_base_prev, *std::next(middle_base_prev), offset);
-            last_base_prev--;
-            middle_base_prev--;
+            *std::prev(last_base) = _shrd<word_type>(*std::prev(middle_base), *middle_base, offset);
+            last_base--;
+            middle_base--;
         }
 
-        last = bit_iterator<RandomAccessIt>(std::next(last_base_prev), last.position());
-        middle = bit_iterator<RandomAccessIt>(std::next(middle_base_prev), middle.position());
+        last = bit_iterator<RandomAccessIt>(last_base, last.position());
+        middle = bit_iterator<RandomAccessIt>(middle_base, middle.position());
     }
 
     if (first.position() != middle.position())
-- 
2.43.0


From 9e4086cab415e579a5d4cbe966b5531343f67383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:04 +0000
Subject: [PATCH 29/34] fix: copy_backward does not step before the first word

The output iterator was decremented also when no bits remained to be copied.
---
 include/bitlib/bit-algorithms/copy_backward.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/bitlib/bit-algorithms/copy_backward.hpp b/include/bitlib/bit-algorithms/copy_backward.hpp
index dfcdda6..7b8dc46 100644
--- a/include/bitlib/bit-algorithms/copy_backward.hpp
+++ b/include/bitlib/bit-algorithms/copy_backward.hpp
@@ -76,7 +76,6 @@ constexpr bit_iterator<RandomAccessIt2> copy_backward(bit_iterator<RandomAccessI
             it = ::std::copy_backward(first.base() + 1, last.base(), it);
             last -= digits * N;
             remaining_bits_to_copy -= digits * N;
-            it--;
         } else {
             // TODO benchmark if its faster to ::std::copy the entire range then shift
             while (remaining_bits_to_copy >= digits) {
@@ -84,9 +83,9 @@ constexpr bit_iterator<RandomAccessIt2> copy_backward(bit_iterator<RandomAccessI
                 remaining_bits_to_copy -= digits;
                 advance(last, -digits);
             }
-            it--;
         }
         if (remaining_bits_to_copy > 0) {
+            --it;
             *it = _bitblend<word_type>(
                     *it,
                     get_word<word_type>(last - remaining_bits_to_copy, remaining_bits_to_copy)
-- 
2.43.0


From 73700d21a66f16732aa43a4c8de84171dd2fb894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:04 +0000
Subject: [PATCH 30/34] fix: count does not dereference the end

The address of the first whole word was taken also when there is none.
---
 include/bitlib/bit-algorithms/count.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/count.hpp b/include/bitlib/bit-algorithms/count.hpp
index ca20b39..1ce7ea2 100644
--- a/include/bitlib/bit-algorithms/count.hpp
+++ b/include/bitlib/bit-algorithms/count.hpp
@@ -94,7 +94,9 @@ count(
             //);
 
             // libpopcnt
-            result += popcnt(&*it, (digits / 8) * std::distance(it, last.base()));
+            if (it != last.base()) {
+                result += popcnt(&*it, (digits / 8) * std::distance(it, last.base()));
+            }
         }
         if (last.position() != 0) {
             word_type last_value = *last.base() << (digits - last.position());
-- 
2.43.0


From 559e99f337a89443f9e95af0c5ad1854b3c03bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:04 +0000
Subject: [PATCH 31/34] fix: transform does not dereference the end of its
 output

In SIMD builds the alignment of the first whole word was asked for also when
there is none.
---
 include/bitlib/bit-algorithms/transform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/transform.hpp b/include/bitlib/bit-algorithms/transform.hpp
index 4d4cbf9..ff7b664 100644
--- a/include/bitlib/bit-algorithms/transform.hpp
+++ b/include/bitlib/bit-algorithms/transform.hpp
@@ -87,7 +87,7 @@ constexpr bit_iterator<RandomAccessIt> transform(
                     *it = unary_op(*firstIt);
                 }
 
-                bool out_is_aligned = is_aligned(&*it, 64);
+                bool out_is_aligned = firstIt != last.base() && is_aligned(&*it, 64);
 
                 constexpr hn::ScalableTag<_lane_type<word_type>> d;
                 for (; std::distance(firstIt, last.base()) >= hn::Lanes(d); firstIt += hn::Lanes(d), it += hn::Lanes(d))
-- 
2.43.0


From e38443d898e2f621ec4d286f0e4fbc51339b7cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:04 +0000
Subject: [PATCH 32/34] fix: erase of one bit returns an iterator that is valid

It returned the one it was given, which popping the last word may have
invalidated.
---
 include/bitlib/bit-containers/bit_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/bitlib/bit-containers/bit_vector.hpp b/include/bitlib/bit-containers/bit_vector.hpp
index fd17f21..a0e1cd2 100644
--- a/include/bitlib/bit-containers/bit_vector.hpp
+++ b/include/bitlib/bit-containers/bit_vector.hpp
@@ -588,12 +588,13 @@ bit_vector<WordType, Allocator>::insert(
 template<class WordType, class Allocator>
 constexpr typename bit_vector<WordType, Allocator>::iterator
 bit_vector<WordType, Allocator>::erase(iterator pos) {
+    const auto d = distance(begin(), pos);
     shift_left(pos, begin() + length_, 1);
     length_ -= 1;
     if (length_ % digits == 0) {
         word_vector.pop_back();
     }
-    return pos;
+    return begin() + d;
 }
 
 template<class WordType, class Allocator>
-- 
2.43.0


From 3b5067e34a6f17b62f8dd90b184a007b664db2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:59 +0000
Subject: [PATCH 33/34] fix: get_word accepts lengths over the width of the
 words it reads

Its assertion compared the length with the width of the words instead of that
of the value, so that it failed for values of wider types.
---
 include/bitlib/bit-algorithms/bit_algorithm_details.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
index c385b8e..fa83129 100644
--- a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
+++ b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
@@ -133,7 +133,7 @@ T get_word(bit_iterator<InputIt> first, size_t len=binary_digits<T>::value)
 {
     using native_word_type = typename bit_iterator<InputIt>::word_type;
     constexpr T digits = binary_digits<native_word_type>::value;
-    assert(digits >= len);
+    assert(binary_digits<T>::value >= len);
     T offset = digits - first.position();
     T ret_word = *first.base() >> first.position();
 
-- 
2.43.0


From d0bab919c0ca58944e17c9fedf5ffd044872355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:59 +0000
Subject: [PATCH 34/34] fix: write_word writes values of wider and narrower
 types than the words

For narrower types the words were blended in the type of the value, which
cleared their upper bits; for wider types it did not compile, and would not
have moved the value to the position of the first bit.
---
 .../bit-algorithms/bit_algorithm_details.hpp  | 41 +++++++------------
 1 file changed, 15 insertions(+), 26 deletions(-)

diff --git a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
index fa83129..0068e54 100644
--- a/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
+++ b/include/bitlib/bit-algorithms/bit_algorithm_details.hpp
@@ -248,18 +248,18 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
             *dst_bit_it.base() = src;
         }
         else {
-            *dst_bit_it.base() = _bitblend<src_type>(
+            *dst_bit_it.base() = _bitblend<dst_type>(
                    *dst_bit_it.base(),
-                   src << dst_bit_it.position(),
+                   static_cast<dst_type>(src) << dst_bit_it.position(),
                    dst_bit_it.position(),
-                   std::min<src_type>(
+                   std::min<dst_type>(
                        dst_digits - dst_bit_it.position(),
                        len
                    )
             );
             if (len > dst_digits - dst_bit_it.position()) {
                 OutputIt overflow_dst = std::next(dst_bit_it.base());
-                *overflow_dst = _bitblend<src_type>(
+                *overflow_dst = _bitblend<dst_type>(
                         *overflow_dst,
                         src >> (dst_digits - dst_bit_it.position()),
                         0,
@@ -269,32 +269,21 @@ void write_word(src_type src, bit_iterator<OutputIt> dst_bit_it,
         }
     } else {
         OutputIt it = dst_bit_it.base();
-        if (dst_bit_it.position() != 0) {
-            *it = _bitblend(
+        src_type position = dst_bit_it.position();
+        while (len > 0) {
+            // Bits that go into this word
+            const src_type bits = std::min<src_type>(dst_digits - position, len);
+            *it = _bitblend<dst_type>(
                     *it,
-                    static_cast<dst_type>(src),
-                    static_cast<dst_type>(-1) << dst_bit_it.position()
+                    static_cast<dst_type>(src) << position,
+                    position,
+                    bits
             );
-            len -= dst_digits - dst_bit_it.position();
-            // TODO would it be faster to jsut shift src every time it is
-            // passed as an argument and keep track of how much we need to
-            // shift?
-            src >>= dst_digits - dst_bit_it.position();
+            src >>= bits;
+            len -= bits;
+            position = 0;
             ++it;
         }
-        while (len >= dst_digits) {
-            *it = static_cast<dst_type>(src);
-            src >>= dst_digits;
-            len -= dst_digits;
-            ++it;
-        }
-        if (len > 0 ) {
-            *it = _bitblend(
-                    *it,
-                    static_cast<dst_type>(src),
-                    (1 << len) - 1
-            );
-        }
     }
     return;
 }
-- 
2.43.0

