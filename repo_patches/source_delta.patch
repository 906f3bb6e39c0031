From d6b50f43e80afefa6ab98cb7b83ecaf615b4f8c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:06 +0000
Subject: [PATCH 01/81] fix: split_n honours include_all_delimiters (it
 included only the first delimiter of a run)

---
 strtk.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index cc44874..c7e0721 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3579,14 +3579,17 @@ namespace strtk
          {
             if (include_delimiters)
             {
-               ++range.second;
+               if (include_1st_delimiter)
+                  ++range.second;
+               else
+                  while ((end != range.second) && delimiter(*range.second)) ++range.second;
                (*out) = range;
                ++out;
 
                if (++match_count >= token_count)
                   return match_count;
 
-               if (compress_delimiters)
+               if ((!include_all_delimiters) && compress_delimiters)
                   while ((end != range.second) && delimiter(*range.second)) ++range.second;
             }
             else
-- 
2.43.0


From 468c8c5e5ccc8b37113e586f39fecff1c851d0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:38 +0000
Subject: [PATCH 02/81] fix: parse long/unsigned long over their full range
 where they are 64 bits wide

---
 strtk.hpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c7e0721..4726d3e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -16912,8 +16912,10 @@ namespace strtk
          static const unsigned int ldpos        =  5;
       };
 
+      template <std::size_t long_size> struct numeric_long {};
+
       template<>
-      struct numeric<long>
+      struct numeric_long<4>
       {
          static const unsigned int length       = 10;
          static const unsigned int size         = 16;
@@ -16924,7 +16926,20 @@ namespace strtk
       };
 
       template<>
-      struct numeric<unsigned long>
+      struct numeric_long<8>
+      {
+         static const unsigned int length       = 19;
+         static const unsigned int size         = 24;
+         static const unsigned int bound_length = 19;
+         static const long long m10             = 922337203685477580LL;
+         static const long long ldpos           =  7;
+         static const long long ldneg           =  8;
+      };
+
+      template <std::size_t long_size> struct numeric_ulong {};
+
+      template<>
+      struct numeric_ulong<4>
       {
          static const unsigned int  length       = 10;
          static const unsigned int  size         = 16;
@@ -16933,6 +16948,22 @@ namespace strtk
          static const unsigned long ldpos        = 5;
       };
 
+      template<>
+      struct numeric_ulong<8>
+      {
+         static const unsigned int length        = 20;
+         static const unsigned int size          = 24;
+         static const unsigned int bound_length  = 20;
+         static const unsigned long long m10     = 1844674407370955161ULL;
+         static const unsigned long long ldpos   = 5;
+      };
+
+      template<>
+      struct numeric<long> : public numeric_long<sizeof(long)> {};
+
+      template<>
+      struct numeric<unsigned long> : public numeric_ulong<sizeof(unsigned long)> {};
+
       template<>
       struct numeric<long long>
       {
-- 
2.43.0


From 8cc22cbd5369afdd5ea9a65d3fff53a1bbf20bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:43 +0000
Subject: [PATCH 03/81] fix: scale reals with exponents beyond the power table
 without reading past it

---
 strtk.hpp | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 4726d3e..381ad12 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -16822,25 +16822,21 @@ namespace strtk
 
          static const int fract10_size = static_cast<int>(sizeof(fract10) / sizeof(double));
 
-         const int e = std::abs(exponent);
+         int e = std::abs(exponent);
 
-         if (exponent >= std::numeric_limits<T>::min_exponent10)
+         // Note: exponents beyond the table are applied in table sized steps.
+         for ( ; e >= fract10_size; e -= (fract10_size - 1))
          {
-            if (e < fract10_size)
-            {
-               if (exponent > 0)
-                  return T(d * fract10[e]);
-               else
-                  return T(d / fract10[e]);
-            }
+            if (exponent > 0)
+               d = T(d * fract10[fract10_size - 1]);
             else
-               return T(d * std::pow(10.0, 10.0 * exponent));
+               d = T(d / fract10[fract10_size - 1]);
          }
+
+         if (exponent > 0)
+            return T(d * fract10[e]);
          else
-         {
-                     d /= fract10[          -std::numeric_limits<T>::min_exponent10];
-            return T(d / fract10[-exponent + std::numeric_limits<T>::min_exponent10]);
-         }
+            return T(d / fract10[e]);
       }
 
       #define strtk_register_pod_type(T)                                                           \
-- 
2.43.0


From 7bd5ce2283471c40ff083cf9dc087f161a9c813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:44 +0000
Subject: [PATCH 04/81] fix: real conversion no longer skips a stray character
 inside the exponent

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 381ad12..52ada4a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17554,11 +17554,11 @@ namespace strtk
                #ifdef strtk_use_lut
 
                #define strtk_process_digit \
-               if (strtk_likely((digit = details::digit_table[(int)*itr++]) < 10)) result = result * 10 + (digit); else { return_result = false; break; }
+               if (strtk_likely((digit = details::digit_table[(int)*itr]) < 10)) { result = result * 10 + (digit); ++itr; } else { return_result = false; break; }
 
                #else
                #define strtk_process_digit \
-               if (strtk_likely((digit = (*itr++ - '0')) < 10)) result = result * 10 + (digit); else { return_result = false; break; }
+               if (strtk_likely((digit = (*itr - '0')) < 10)) { result = result * 10 + (digit); ++itr; } else { return_result = false; break; }
 
                #endif
 
-- 
2.43.0


From 1b731e528d40ff6797525afe9bfb666f0c8b4355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:25 +0000
Subject: [PATCH 05/81] fix: base64 decoding does not look for padding before
 the start of short inputs

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 52ada4a..51bfbe9 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4668,9 +4668,9 @@ namespace strtk
 
       const unsigned char* end_itr = end;
 
-      if ('=' == *(end - 2))
+      if ((std::distance(begin,end) >= 2) && ('=' == *(end - 2)))
          end_itr = end - 2;
-      else if ('=' == *(end - 1))
+      else if ((std::distance(begin,end) >= 1) && ('=' == *(end - 1)))
          end_itr = end - 1;
 
       const std::size_t length = std::distance(begin,end_itr);
-- 
2.43.0


From 8b333258ebda002916588f0bf5ae0934d8b37df8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 06/81] fix: number sinks read short hexadecimal/base64 text by
 value, reject text that does not fit, and report validity

---
 strtk.hpp | 55 +++++++++++++++++++++++++++++++------------------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 51bfbe9..8175dbc 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14842,7 +14842,7 @@ namespace strtk
       {}
 
       hex_to_number_sink(const hex_to_number_sink& hns)
-      : valid_(hns.valid),
+      : valid_(hns.valid_),
         t_(hns.t_)
       {}
 
@@ -14860,22 +14860,28 @@ namespace strtk
          const std::size_t size = std::distance(s.first,s.second);
          if ((size > 2) && ((*s.first) == '0') && (((*(s.first + 1)) == 'x') || ((*(s.first + 1)) == 'X')))
             offset = 2;
-         if ((size - offset) > (2 * sizeof(T)))
-            return (*this);
 
          const std::size_t buffer_size = 2 * sizeof(T);
-         const std::size_t buffer_offset = ((size - offset) % 2);
-         char buffer[buffer_size] = { '0' };
+         const std::size_t digits = size - offset;
+
+         if ((0 == digits) || (digits > buffer_size))
+         {
+            valid_ = false;
+            return (*this);
+         }
+
+         char buffer[buffer_size];
          if (!range_only_contains(hex_value_check(),s.first + offset,s.first + size))
          {
             valid_ = false;
             return (*this);
          }
 
-         std::copy(s.first + offset, s.first + size, buffer + buffer_offset);
+         std::fill_n(buffer, buffer_size - digits, '0');
+         std::copy(s.first + offset, s.first + size, buffer + (buffer_size - digits));
          (*t_) = 0;
          valid_= convert_hex_to_bin(buffer,
-                                    buffer + (size - offset) + buffer_offset,
+                                    buffer + buffer_size,
                                     reinterpret_cast<char*>(t_));
          reverse_bytes();
          return (*this);
@@ -14944,7 +14950,7 @@ namespace strtk
       {}
 
       base64_to_number_sink(const base64_to_number_sink& bns)
-      : valid_(bns.valid),
+      : valid_(bns.valid_),
         t_(bns.t_)
       {}
 
@@ -14957,33 +14963,34 @@ namespace strtk
 
       inline base64_to_number_sink& operator=(const std::string& s)
       {
-         if (!range_only_contains(base64_value_check(), to_ptr(s), to_ptr(s) + s.size()))
-         {
-            valid_ = false;
-            return (*this);
-         }
-
-         (*t_) = T(0);
-
-         convert_base64_to_bin(to_ptr(s), to_ptr(s) + s.size(), reinterpret_cast<char*>(t_));
-         reverse_bytes();
-
-         return (*this);
+         return this->operator =(std::make_pair(to_ptr(s), to_ptr(s) + s.size()));
       }
 
       template <typename InputIterator>
       inline base64_to_number_sink& operator=(const std::pair<InputIterator,InputIterator>& s)
       {
-         if (!range_only_contains(base64_value_check(),s.first,s.second))
+         const std::size_t size = std::distance(s.first,s.second);
+         const std::size_t buffer_size = ((sizeof(T) + 2) / 3) * 4;
+
+         valid_ = false;
+
+         if ((0 == size) || (size > buffer_size) || !range_only_contains(base64_value_check(),s.first,s.second))
          {
-            valid_ = false;
             return (*this);
          }
 
-         (*t_) = T(0);
+         char buffer[buffer_size];
+         const std::size_t length = convert_base64_to_bin(s.first, s.second, buffer);
 
-         convert_base64_to_bin(s.first, s.second,reinterpret_cast<char*>(t_));
+         if ((0 == length) || (length > sizeof(T)))
+         {
+            return (*this);
+         }
+
+         (*t_) = T(0);
+         std::copy(buffer, buffer + length, reinterpret_cast<char*>(t_) + (sizeof(T) - length));
          reverse_bytes();
+         valid_ = true;
 
          return (*this);
       }
-- 
2.43.0


From 408e1b80c601975bd82a29b459ae5beca8c69cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 07/81] fix: 32-bit byte order conversion lost two of the four
 bytes

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 8175dbc..b2c5838 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13753,8 +13753,8 @@ namespace strtk
          static inline unsigned int convert(const unsigned int v)
          {
             //static_assert(4 == sizeof(v),"");
-            return ((v >> 24) & 0x000000FF) | ((v << 24) & 0x0000FF00) |
-                   ((v <<  8) & 0x00FF0000) | ((v >>  8) & 0xFF000000);
+            return ((v >> 24) & 0x000000FF) | ((v << 24) & 0xFF000000) |
+                   ((v <<  8) & 0x00FF0000) | ((v >>  8) & 0x0000FF00);
          }
 
          static inline unsigned long long int convert(const unsigned long long int v)
-- 
2.43.0


From 1f45ec36b928dc521477c5dbedb673822efaa1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 08/81] fix: right padded serialized field was padded to the
 wrong width

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index b2c5838..1a2d808 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14591,7 +14591,7 @@ namespace strtk
                else if (s.size() < size)
                {
                   if (right_padding == pmode)
-                     s.resize(size - s.size(),padding);
+                     s.resize(size,padding);
                   else
                      s = std::string(size - s.size(),padding) + s;
                }
-- 
2.43.0


From de2e138ea6083a51d5206a55b8e0564e8b4f0c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:49 +0000
Subject: [PATCH 09/81] fix: length argument ignored when reading an array with
 a 64-bit length and no stored length

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 1a2d808..612a209 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -13982,7 +13982,7 @@ namespace strtk
          inline bool operator()(T*& data, uint64_t& length, const bool read_length = true)
          {
             uint32_t l = 0;
-            if (read_length)
+            if (!read_length)
                l = static_cast<uint32_t>(length);
             if (!operator()(data,l,read_length))
                return false;
-- 
2.43.0


From 74ca79bdad4aaff403ecbae5ad93446b7d6808f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:42 +0000
Subject: [PATCH 10/81] fix: containers of variable-size elements are not
 rejected by a size check based on sizeof the element

---
 strtk.hpp | 48 +++++++++++++++++++++++++++++++++++-------------
 1 file changed, 35 insertions(+), 13 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 612a209..570e2ce 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14030,7 +14030,8 @@ namespace strtk
             if (!read_pod(size))                           \
                return false;                               \
                                                            \
-            const std::size_t raw_size = size * sizeof(T); \
+            const std::size_t raw_size =                   \
+               selector<T>::type::minimum_size(size);      \
             if (!buffer_capacity_ok(raw_size))             \
                return false;                               \
                                                            \
@@ -14059,13 +14060,11 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
+            const std::size_t raw_size = selector<T>::type::minimum_size(size);
 
             if (!buffer_capacity_ok(raw_size))
                return false;
 
-            vec.resize(size);
-
             return selector<T>::type::batch_vector_read(*this,size,vec,false);
          }
 
@@ -14078,7 +14077,7 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
+            const std::size_t raw_size = selector<T>::type::minimum_size(size);
             if (!buffer_capacity_ok(raw_size))
                return false;
 
@@ -14102,7 +14101,7 @@ namespace strtk
             if (!read_pod(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
+            const std::size_t raw_size = selector<T>::type::minimum_size(size);
             if (!buffer_capacity_ok(raw_size))
                return false;
 
@@ -14234,6 +14233,12 @@ namespace strtk
             template <typename T, typename IsPOD>
             struct selector_impl
             {
+               static inline std::size_t minimum_size(const std::size_t&)
+               {
+                  //Unknown until read or written, each element is checked individually.
+                  return 0;
+               }
+
                template <typename Reader>
                static inline bool run(Reader& r, T& t)
                {
@@ -14247,13 +14252,13 @@ namespace strtk
                                                     std::vector<T,Allocator>& v,
                                                     const bool)
                {
-                  T t;
+                  v.clear();
 
                   for (std::size_t i = 0; i < size; ++i)
                   {
-                     if (r.operator()(t))
-                        v[i] = t;
-                     else
+                     v.push_back(T());
+
+                     if (!r.operator()(v.back()))
                         return false;
                   }
 
@@ -14264,6 +14269,11 @@ namespace strtk
             template <typename T>
             struct selector_impl<T,strtk::details::yes_t>
             {
+               static inline std::size_t minimum_size(const std::size_t& size)
+               {
+                  return size * sizeof(T);
+               }
+
                template <typename Reader>
                static inline bool run(Reader& r,
                                       T& t,
@@ -14280,6 +14290,7 @@ namespace strtk
                                                     const bool)
                {
                   const std::size_t raw_size = sizeof(T) * size;
+                  v.resize(size);
                   char* ptr = const_cast<char*>(reinterpret_cast<const char*>(&v[0]));
                   std::copy(r.buffer_, r.buffer_ + raw_size, ptr);
                   r.buffer_ += raw_size;
@@ -14473,7 +14484,7 @@ namespace strtk
          inline bool operator()(const std::vector<T,Allocator>& vec)
          {
             const uint32_t size = static_cast<uint32_t>(vec.size());
-            const std::size_t raw_size = (size * sizeof(T));
+            const std::size_t raw_size = selector<T>::type::minimum_size(size);
             if (!buffer_capacity_ok(raw_size + sizeof(size)))
                return false;
             if (!operator()(size))
@@ -14490,7 +14501,7 @@ namespace strtk
             if (!operator()(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
+            const std::size_t raw_size = selector<T>::type::minimum_size(size);
 
             if (!buffer_capacity_ok(raw_size))
                return false;
@@ -14517,7 +14528,7 @@ namespace strtk
             if (!operator()(size))
                return false;
 
-            const std::size_t raw_size = size * sizeof(T);
+            const std::size_t raw_size = selector<T>::type::minimum_size(size);
             if (!buffer_capacity_ok(raw_size))
                return false;
 
@@ -14631,6 +14642,12 @@ namespace strtk
             template <typename T, typename IsPOD>
             struct selector_impl
             {
+               static inline std::size_t minimum_size(const std::size_t&)
+               {
+                  //Unknown until read or written, each element is checked individually.
+                  return 0;
+               }
+
                template <typename Writer>
                static inline bool run(Writer& w, const T& t)
                {
@@ -14658,6 +14675,11 @@ namespace strtk
             template <typename T>
             struct selector_impl<T,strtk::details::yes_t>
             {
+               static inline std::size_t minimum_size(const std::size_t& size)
+               {
+                  return size * sizeof(T);
+               }
+
                template <typename Writer>
                static inline bool run(Writer& w, const T& t)
                {
-- 
2.43.0


From 8d4b94cc0d9a730bd78b35b5f5c804b9d398886f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 11/81] fix: wildcard matching read past the end of the data
 and missed matches needing backtracking

---
 strtk.hpp | 57 ++++++++++++++++++++++++-------------------------------
 1 file changed, 25 insertions(+), 32 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 570e2ce..6eed6aa 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1905,47 +1905,40 @@ namespace strtk
                              const typename std::iterator_traits<Iterator>::value_type& match_zero_or_more,
                              const typename std::iterator_traits<Iterator>::value_type& match_zero_or_one)
       {
-         Iterator d_itr = data_begin;
-         Iterator p_itr = pattern_begin;
+         // row[i]: the first i pattern elements match the data consumed so far.
+         std::vector<char> row(1 + std::distance(pattern_begin,pattern_end),0);
+         std::size_t i = 0;
 
-         while ((p_itr != pattern_end) && (d_itr != data_end))
-         {
-            if (match_zero_or_more == *p_itr)
-            {
-               while ((p_itr != pattern_end) && (*p_itr == match_zero_or_more || *p_itr == match_zero_or_one))
-               {
-                  ++p_itr;
-               }
+         row[0] = 1;
 
-               if (p_itr == pattern_end)
-                  return true;
+         for (Iterator p_itr = pattern_begin; pattern_end != p_itr; ++p_itr, ++i)
+         {
+            row[i + 1] = row[i] && ((match_zero_or_more == *p_itr) || (match_zero_or_one == *p_itr));
+         }
 
-               const typename std::iterator_traits<Iterator>::value_type c = *(p_itr++);
+         for (Iterator d_itr = data_begin; data_end != d_itr; ++d_itr)
+         {
+            char previous = row[0];
 
-               while ((d_itr != data_end) && !Comparator::cmp(c, *d_itr))
-               {
-                  ++d_itr;
-               }
+            row[0] = 0;
+            i = 0;
 
-               ++d_itr;
-            }
-            else if ((*p_itr == match_zero_or_one) || Comparator::cmp(*p_itr, *d_itr))
+            for (Iterator p_itr = pattern_begin; pattern_end != p_itr; ++p_itr, ++i)
             {
-               ++d_itr;
-               ++p_itr;
+               const char current = row[i + 1];
+
+               if (match_zero_or_more == *p_itr)
+                  row[i + 1] = (row[i] || current);
+               else if (match_zero_or_one == *p_itr)
+                  row[i + 1] = (row[i] || previous);
+               else
+                  row[i + 1] = (previous && Comparator::cmp(*p_itr, *d_itr));
+
+               previous = current;
             }
-            else
-               return false;
          }
 
-         if (d_itr != data_end)
-            return false;
-         else if (p_itr == pattern_end)
-            return true;
-         else if ((match_zero_or_more == *p_itr) || (match_zero_or_one == *p_itr))
-            ++p_itr;
-
-         return pattern_end == p_itr;
+         return (0 != row.back());
       }
    }
 
-- 
2.43.0


From 627e5140cd81001bc4f402e15da633e46b3d5bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 12/81] fix: case-insensitive match against a sequence of
 strings only compiled for pointers

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 6eed6aa..3d62e8f 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -2015,7 +2015,7 @@ namespace strtk
    template <typename Iterator>
    inline Iterator imatch(const std::string& s, const Iterator begin, const Iterator end)
    {
-      for (const std::string* itr = begin; end != itr; ++itr)
+      for (Iterator itr = begin; end != itr; ++itr)
       {
          if (imatch(s,*itr))
          {
-- 
2.43.0


From a28e7ce005b1f51aae850889041134e8df23bafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 13/81] fix: pattern replacement overwrote its own output with
 output iterators other than inserters

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 3d62e8f..fc702c7 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1852,9 +1852,9 @@ namespace strtk
          pos = std::distance(s_begin,temp_s_itr) - p_size;
          int diff = pos - prev_pos;
 
-         std::copy(s_itr,s_itr + diff, out);
+         out = std::copy(s_itr,s_itr + diff, out);
          s_itr = temp_s_itr;
-         std::copy(r_itr,r_end, out);
+         out = std::copy(r_itr,r_end, out);
 
          pos += p_size;
          prev_pos = pos;
-- 
2.43.0


From 7d0d77f831718145b737e68e7972183ace5d70ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 14/81] fix: remove_duplicates indexed its table out of bounds
 for characters above 0x7E

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index fc702c7..44cd92e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1432,16 +1432,16 @@ namespace strtk
 
    inline std::string remove_duplicates(const std::string& str)
    {
-      std::string::value_type table[0xFF];
-      std::fill_n(table,0xFF,static_cast<char>(0));
+      std::string::value_type table[0x100];
+      std::fill_n(table,0x100,static_cast<char>(0));
       std::string result;
       result.reserve(str.size());
       for (std::size_t i = 0; i < str.size(); ++i)
       {
          const char c = str[i];
-         if (0 == table[static_cast<std::size_t>(c)])
+         if (0 == table[static_cast<unsigned char>(c)])
          {
-            table[static_cast<std::size_t>(c)] = 0x01;
+            table[static_cast<unsigned char>(c)] = 0x01;
             result += c;
          }
       }
-- 
2.43.0


From bebd0a051ce560369271f3e2d79b02c7bb2219aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:05 +0000
Subject: [PATCH 15/81] fix: remove_trailing kept the first character even when
 it is to be removed

---
 strtk.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 44cd92e..7ad447c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1462,12 +1462,11 @@ namespace strtk
       if (0 == length)
          return 0;
 
-      Iterator itr = begin + (length - 1);
+      Iterator itr = begin + length;
       std::size_t removal_count = 0;
 
-      while ((begin != itr) && predicate(*itr))
+      while ((begin != itr) && predicate(*(--itr)))
       {
-         --itr;
          ++removal_count;
       }
 
-- 
2.43.0


From 16ebfe20700070e643f7d098dfc5d0c33926024c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:35 +0000
Subject: [PATCH 16/81] fix: case-insensitive match against a set of strings
 did not compile

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7ad447c..9f2d4fe 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -2034,13 +2034,13 @@ namespace strtk
    template <typename Comparator, typename Allocator>
    inline bool imatch(const std::string& s, const std::set<std::string,Comparator,Allocator>& set)
    {
-      return imatch(s, set.begin(), set.end());
+      return (set.end() != imatch(s, set.begin(), set.end()));
    }
 
    template <typename Comparator, typename Allocator>
    inline bool imatch(const std::string& s, const std::multiset<std::string,Comparator,Allocator>& multiset)
    {
-      return imatch(s, multiset.begin(), multiset.end());
+      return (multiset.end() != imatch(s, multiset.begin(), multiset.end()));
    }
 
    template <typename Iterator, typename OutputIterator>
-- 
2.43.0


From 218adb62145632a6e6b89a9bece18dc0a5db13df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 17/81] fix: trimming double quotes read outside empty tokens
 and inverted the range of a lone quote

---
 strtk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strtk.hpp b/strtk.hpp
index 9f2d4fe..834186c 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7504,6 +7504,7 @@ namespace strtk
                for (std::size_t i = 0; i < dsv_index_.token_list.size(); ++i)
                {
                   if (
+                      (std::distance(dsv_index_.token_list[i].first,dsv_index_.token_list[i].second) > 1) &&
                       ((*(dsv_index_.token_list[i].first     )) == '"') &&
                       ((*(dsv_index_.token_list[i].second - 1)) == '"')
                      )
-- 
2.43.0


From 68a5b430c1cf83cb9747e13917fc34d08699796d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 18/81] fix: an unbalanced double quote in one grid row changed
 the tokens of the following rows

---
 strtk.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 834186c..030cd0a 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5438,7 +5438,9 @@ namespace strtk
 
             row_start_index_ = static_cast<index_t>(idx_.token_list.size());
 
-            std::size_t token_count = split(token_predicate_,
+            const DelimiterPredicate row_token_predicate(token_predicate_);
+
+            std::size_t token_count = split(row_token_predicate,
                                             range.first, range.second,
                                             std::back_inserter(idx_.token_list),
                                             split_mode_);
-- 
2.43.0


From 20b8bcb2c9892c4ead39b0f6026b2e5427ceddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 19/81] fix: token grid row ranges were bounded by the number
 of tokens

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 030cd0a..46d5869 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5469,9 +5469,9 @@ namespace strtk
       {
          if (upper_bound == std::numeric_limits<index_t>::max())
          {
-            upper_bound = static_cast<index_t>(dsv_index_.token_list.size());
+            upper_bound = static_cast<index_t>(dsv_index_.row_index.size());
          }
-         else if (upper_bound > dsv_index_.token_list.size())
+         else if (upper_bound > dsv_index_.row_index.size())
          {
             return row_range_t(std::numeric_limits<index_t>::max(),std::numeric_limits<index_t>::max());
          }
-- 
2.43.0


From 03a8d6f0b6764b39c0b12946bd130142a7833383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 20/81] fix: column extraction into plain iterators stored
 every value in the first position

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 46d5869..74daec7 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7545,7 +7545,7 @@ namespace strtk
       }
 
       template <typename OutputIterator>
-      inline void process_token(const range_t& range, OutputIterator out) const
+      inline void process_token(const range_t& range, OutputIterator& out) const
       {
          typedef typename std::iterator_traits<OutputIterator>::value_type output_type;
          (*out) = string_to_type_converter<output_type>(range.first,range.second);
@@ -7553,7 +7553,7 @@ namespace strtk
       }
 
       template <typename OutputIterator>
-      inline void process_token_checked(const range_t& range, OutputIterator out) const
+      inline void process_token_checked(const range_t& range, OutputIterator& out) const
       {
          typedef typename std::iterator_traits<OutputIterator>::value_type output_type;
 
-- 
2.43.0


From 949edf68217fdd4352afd2a8326c0b45900c4bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 21/81] fix: joining the last row dropped its last token and
 read past the token list

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 74daec7..c1d4c18 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7080,9 +7080,9 @@ namespace strtk
          const row_index_range_t& r = dsv_index_.row_index[row];
 
          token_list_t::const_iterator itr = dsv_index_.token_list.begin() + r.first;
-         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + (row < (dsv_index_.row_index.size() - 1) ? 1 : 0);
+         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + 1;
 
-         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,end->second));
+         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,(end - 1)->second));
 
          bool appended = false;
 
@@ -7117,9 +7117,9 @@ namespace strtk
          const row_index_range_t& r = dsv_index_.row_index[row];
 
          token_list_t::const_iterator itr = (dsv_index_.token_list.begin() + r.first);
-         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + (row < (dsv_index_.row_index.size() - 1) ? 1 : 0);
+         token_list_t::const_iterator end = dsv_index_.token_list.begin() + r.second + 1;
 
-         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,end->second));
+         result.reserve(delimiter.size() * dsv_index_.token_count(r) + std::distance(itr->first,(end - 1)->second));
 
          bool appended = false;
 
-- 
2.43.0


From 25e0e49f7f13032ad0d592d6cba361fb0d8817b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 22/81] fix: conditional column join left out the delimiter
 before the last row

---
 strtk.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c1d4c18..2786949 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7213,8 +7213,6 @@ namespace strtk
 
          bool appended = false;
 
-         const std::size_t pre_end_index = row_range.second - 1;
-
          for (std::size_t i = row_range.first; i < row_range.second; ++i)
          {
             const row_index_range_t& r = dsv_index_.row_index[i];
@@ -7224,7 +7222,7 @@ namespace strtk
                row_type row = row_type(i,dsv_index_);
                const range_t& range = row.token(col);
 
-               if (!delimiter.empty() && appended && (pre_end_index != i))
+               if (!delimiter.empty() && appended)
                   result.append(delimiter);
 
                appended = false;
-- 
2.43.0


From 71ec31b83a03ef3da429b20f1ea8445c1d32ac73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:35 +0000
Subject: [PATCH 23/81] fix: minimum and maximum column counts were stale after
 removing rows

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 2786949..de3bc12 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -6721,6 +6721,7 @@ namespace strtk
          if (index < dsv_index_.row_index.size())
          {
             dsv_index_.remove_row(index);
+            update_minmax_columns();
          }
       }
 
@@ -6775,6 +6776,8 @@ namespace strtk
             remove_inplace(index_remover(remove_token_list),dsv_index_.token_list);
          }
 
+         update_minmax_columns();
+
          return true;
       }
 
-- 
2.43.0


From 81071ae8f875d4b9d6bca3f8b8809146466affda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 24/81] fix: a copied util::value kept pointing into the buffer
 of the original

---
 strtk.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index de3bc12..056aacb 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21282,6 +21282,13 @@ namespace strtk
             std::fill_n(type_holder_buffer_, sizeof(type_holder_buffer_), static_cast<unsigned char>(0x00));
          }
 
+         value(const value& v)
+         : type_holder_(0)
+         {
+            std::fill_n(type_holder_buffer_, sizeof(type_holder_buffer_), static_cast<unsigned char>(0x00));
+            this->operator=(v);
+         }
+
          template <typename T>
          inline explicit value(T& t)
          {
-- 
2.43.0


From c5040f8149f7007bf7b9d4bf69904b6b9ee3030e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 25/81] fix: the prefix trie stored the value of a key at the
 parent of its last node

---
 strtk.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 056aacb..34f3f00 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19832,7 +19832,6 @@ namespace strtk
 
             key_iterator_t itr = begin;
             key_value_t key    = (*itr);
-            node_ptr parent    = 0;
             node_ptr next_node = 0;
             node_ptr n = head_ = ((0 == head_) ? new node_t(*itr) : head_);
 
@@ -19845,12 +19844,11 @@ namespace strtk
                   n->add_node(next_node = new node_t(key));
                }
 
-               parent = n;
                n = next_node;
                ++itr;
             }
 
-            parent->assign_value(v);
+            n->assign_value(v);
          }
 
          template <typename key_iterator_t>
@@ -19862,7 +19860,6 @@ namespace strtk
                return false;
 
             key_iterator_t itr = begin;
-            node_ptr parent = head_;
             node_ptr n = head_;
 
             while (end != itr)
@@ -19872,13 +19869,12 @@ namespace strtk
                if (0 == next_node)
                   return false;
 
-               parent = n;
                n = next_node;
                ++itr;
             }
-            if (!parent->value_holder())
+            if (!n->value_holder())
                return false;
-             v = parent->value();
+             v = n->value();
              return true;
          }
 
-- 
2.43.0


From 53b6152c0a64e4a9fdbae58de18ce2fd458df2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:20 +0000
Subject: [PATCH 26/81] fix: prefix trie helpers taking a C string did not
 compile

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 34f3f00..0c31e6b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19916,11 +19916,11 @@ namespace strtk
       }
 
       template <typename Value>
-      inline void insert(prefix<std::string::iterator,Value>& trie,
+      inline void insert(prefix<std::string::const_iterator,Value>& trie,
                          const char* key,
                          const Value& value = Value(0))
       {
-         trie.insert(std::string(key),value);
+         insert(trie,std::string(key),value);
       }
 
       template <typename Value>
@@ -19936,7 +19936,7 @@ namespace strtk
                        const char* key,
                        Value& v)
       {
-         return trie.find_prefix(trie,std::string(key),v);
+         return find(trie,std::string(key),v);
       }
 
       template <typename Value>
@@ -19950,7 +19950,7 @@ namespace strtk
       inline bool find_prefix(prefix<std::string::const_iterator,Value>& trie,
                               const char* key)
       {
-         return trie.find_prefix(trie,std::string(key));
+         return find_prefix(trie,std::string(key));
       }
 
    } // namespace trie
-- 
2.43.0


From 1c83f76e35174cc63d10f97010139f6d11fd06a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 27/81] fix: copying a bloom filter deleted an uninitialised
 table pointer

---
 strtk.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/strtk.hpp b/strtk.hpp
index 0c31e6b..7410b51 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20156,6 +20156,7 @@ namespace strtk
          }
 
          filter(const filter& filter)
+         : bit_table_(0)
          {
             this->operator=(filter);
          }
-- 
2.43.0


From 37b5eb8d9fc23219e82e8ae1c0528a51362b6b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 28/81] fix: a bloom filter table size that is not a multiple
 of 8 bits overran the table

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7410b51..7b3f4f8 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20150,7 +20150,7 @@ namespace strtk
             salt_count_ = p.optimal_parameters.number_of_hashes;
             table_size_ = p.optimal_parameters.table_size;
             generate_unique_salt();
-            raw_table_size_ = table_size_ / bits_per_char;
+            raw_table_size_ = (table_size_ + (bits_per_char - 1)) / bits_per_char;
             bit_table_ = new cell_type[static_cast<std::size_t>(raw_table_size_)];
             std::fill_n(&bit_table_[0], static_cast<std::size_t>(raw_table_size_), static_cast<unsigned char>(0x00));
          }
@@ -20688,7 +20688,7 @@ namespace strtk
             cell_type* tmp = new cell_type[static_cast<std::size_t>(new_table_size / bits_per_char)];
             std::copy(bit_table_, bit_table_ + (new_table_size / bits_per_char), tmp);
             cell_type* itr = bit_table_ + (new_table_size / bits_per_char);
-            cell_type* end = bit_table_ + (original_table_size / bits_per_char);
+            cell_type* end = bit_table_ + ((original_table_size + (bits_per_char - 1)) / bits_per_char);
             cell_type* itr_tmp = tmp;
 
             while (end != itr)
-- 
2.43.0


From 7f723ebdd53a389f19ef63455c0c7c424eb101be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 29/81] fix: compressing a bloom filter by more than half wrote
 past the new table

---
 strtk.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 7b3f4f8..1108c1d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20691,13 +20691,19 @@ namespace strtk
             cell_type* end = bit_table_ + ((original_table_size + (bits_per_char - 1)) / bits_per_char);
             cell_type* itr_tmp = tmp;
 
+            cell_type* end_tmp = tmp + (new_table_size / bits_per_char);
+
             while (end != itr)
             {
                *(itr_tmp++) |= (*itr++);
+
+               if (end_tmp == itr_tmp)
+                  itr_tmp = tmp;
             }
 
             delete[] bit_table_;
             bit_table_ = tmp;
+            raw_table_size_ = new_table_size / bits_per_char;
             size_list.push_back(new_table_size);
 
             return true;
-- 
2.43.0


From 4df54de29ebf2850a018a453a47733f84819ef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:36 +0000
Subject: [PATCH 30/81] fix: combining bloom filters with tables of different
 lengths overran the shorter one

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 1108c1d..a1fa264 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20348,6 +20348,7 @@ namespace strtk
             if (
                 (salt_count_  == f.salt_count_) &&
                 (table_size_  == f.table_size_) &&
+                (raw_table_size_ == f.raw_table_size_) &&
                 (random_seed_ == f.random_seed_)
                )
             {
@@ -20365,6 +20366,7 @@ namespace strtk
             if (
                 (salt_count_  == f.salt_count_) &&
                 (table_size_  == f.table_size_) &&
+                (raw_table_size_ == f.raw_table_size_) &&
                 (random_seed_ == f.random_seed_)
                )
             {
@@ -20382,6 +20384,7 @@ namespace strtk
             if (
                 (salt_count_  == f.salt_count_) &&
                 (table_size_  == f.table_size_) &&
+                (raw_table_size_ == f.raw_table_size_) &&
                 (random_seed_ == f.random_seed_)
                )
             {
-- 
2.43.0


From 3c0d5a0cf82adc826a8dafe8edc8e86cf06748b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 31/81] fix: nth_combination_sequence accessed memory before
 its index list for k of 0 and 1

---
 strtk.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index a1fa264..d07ae55 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12569,7 +12569,7 @@ namespace strtk
       value_type x = 0;
       ++n;
 
-      for (std::size_t i = 1; i <= (k - 1); ++i)
+      for (std::size_t i = 1; i < k; ++i)
       {
          index_list[i - 1] = 0;
 
@@ -12589,7 +12589,10 @@ namespace strtk
          x -= j;
       }
 
-      index_list[k - 1] = index_list[k - 2] + static_cast<std::size_t>(n) - static_cast<std::size_t>(x);
+      if (0 < k)
+      {
+         index_list[k - 1] = ((1 < k) ? index_list[k - 2] : 0) + static_cast<std::size_t>(n) - static_cast<std::size_t>(x);
+      }
 
       for (std::size_t i = 0; i < index_list.size(); --index_list[i++]);
 
-- 
2.43.0


From 300d3711da23961aa87f21cd965291c91ce4ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 32/81] fix: nth_permutation_sequence of an empty range wrote
 to an empty list

---
 strtk.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index d07ae55..b6115f1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -12640,6 +12640,8 @@ namespace strtk
    inline void nth_permutation_sequence(std::size_t n, const std::size_t k, OutputIterator out)
    {
       //Note: n in [0,k!)
+      if (0 == k) return;
+
       std::vector<std::size_t> factorid (k,0);
       std::vector<std::size_t> permutate(k,0);
 
-- 
2.43.0


From bbfcfc01a81bc9ea86e3de4c5e1d14b7d3b575ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 33/81] fix: first_non_repeated_char indexed its table with
 negative characters

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index b6115f1..8948062 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4330,7 +4330,7 @@ namespace strtk
 
       while (end != itr)
       {
-         unsigned long long int& element = lut[static_cast<unsigned int>(*itr)];
+         unsigned long long int& element = lut[static_cast<unsigned char>(*itr)];
 
          if (not_yet_encountered == element)
          {
-- 
2.43.0


From d4a51fa7daee39fd93717cafd652b40ab3847ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 34/81] fix: translation_table indexed its table with negative
 characters

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 8948062..c3e099e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11797,13 +11797,13 @@ namespace strtk
 
          for (std::size_t i = 0; i < itable.size(); ++i)
          {
-            table_[static_cast<unsigned int>(itable[i])] = static_cast<unsigned char>(otable[i]);
+            table_[static_cast<unsigned char>(itable[i])] = static_cast<unsigned char>(otable[i]);
          }
       }
 
       inline char operator()(const char c) const
       {
-         return static_cast<char>(table_[static_cast<unsigned int>(c)]);
+         return static_cast<char>(table_[static_cast<unsigned char>(c)]);
       }
 
       inline unsigned char operator()(const unsigned char c) const
-- 
2.43.0


From a13a10058d1ea131cba37c7ca3ebbcb5dd4b8915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 35/81] fix: twoway_bitwise_interleave of strings wrote past
 its output

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index c3e099e..b10c191 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4929,7 +4929,7 @@ namespace strtk
          return false;
       }
 
-      out.resize(str1.size());
+      out.resize(str1.size() + str2.size());
 
       return twoway_bitwise_interleave(to_ptr(str1), to_ptr(str1) + str1.size(),
                                        to_ptr(str2), to_ptr(str2) + str2.size(),
-- 
2.43.0


From d5823b662c2eeb4dbe01c9aadc6d01ea34a442b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 36/81] fix: hamming_distance_elementwise never advanced

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index b10c191..810f4e5 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -5176,6 +5176,9 @@ namespace strtk
       {
          if ((*itr1) != (*itr2))
             ++distance;
+
+         ++itr1;
+         ++itr2;
       }
 
       return distance;
-- 
2.43.0


From 5948f8f9dfb9bf462b02cf1f3932a9cb969290b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 37/81] fix: join_if of a sequence did not compile

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 810f4e5..46ef757 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11367,7 +11367,7 @@ namespace strtk
                               Predicate predicate,
                               const Sequence<T,Allocator>& sequence)
    {
-      return join(delimiter,predicate,sequence.begin(),sequence.end());
+      return join_if(delimiter,predicate,sequence.begin(),sequence.end());
    }
 
    template <typename T,
-- 
2.43.0


From 7bfa9ab95ff5d0db2fce788c6658c4cfce8fb5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 38/81] fix: lexicographically_canonicalize did not compare
 rotations past the end

---
 strtk.hpp | 20 +++++++-------------
 1 file changed, 7 insertions(+), 13 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 46ef757..2d71a5d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -4250,6 +4250,8 @@ namespace strtk
       typedef typename std::list<iter_type> itr_list_type;
       itr_list_type itr_list;
 
+      if (begin == end) return;
+
       type smallest = (*std::min_element(begin,end));
 
       for (Iterator itr = begin; itr != end; ++itr)
@@ -4257,16 +4259,17 @@ namespace strtk
          if (*itr == smallest) itr_list.push_back(std::make_pair(itr,itr));
       }
 
-      while (itr_list.size() > 1)
+      std::size_t remaining = std::distance(begin,end);
+
+      while ((itr_list.size() > 1) && (--remaining > 0))
       {
          typename itr_list_type::iterator itr = itr_list.begin();
          while (itr_list.end() != itr)
          {
             ++(*itr).first;
             if (end == (*itr).first)
-               itr = itr_list.erase(itr);
-            else
-               ++itr;
+               (*itr).first = begin;
+            ++itr;
          }
 
          smallest = *(*itr_list.begin()).first;
@@ -4287,15 +4290,6 @@ namespace strtk
            else
               ++itr;
          }
-
-         itr = itr_list.begin();
-         while (itr_list.end() != itr)
-         {
-            if (end == (*itr).first)
-               itr = itr_list.erase(itr);
-            else
-               ++itr;
-         }
       }
 
       std::rotate(begin,(*itr_list.begin()).second,end);
-- 
2.43.0


From c4aaace4ff92bd5a2df16716ef3c302877f0a8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 39/81] fix: a copied semantic action kept pointing into the
 buffer of the original

---
 strtk.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 2d71a5d..12f8ddb 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21077,6 +21077,17 @@ namespace strtk
             assign(f);
          }
 
+         semantic_action_impl(const semantic_action_impl& sa)
+         : function_holder_(0)
+         {
+            std::copy(sa.function_holder_buffer_,
+                      sa.function_holder_buffer_ + function_holder_buffer_size,
+                      function_holder_buffer_);
+
+            if (0 != sa.function_holder_)
+               function_holder_ = reinterpret_cast<function_holder_ptr>(function_holder_buffer_);
+         }
+
          inline bool operator!() const
          {
             return (0 == function_holder_);
-- 
2.43.0


From 782ec52fb8cc24910bd20c0b1d61ab8de8f8891c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 40/81] fix: set_array read past the end of a source shorter
 than the destination

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 12f8ddb..089f579 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -24019,7 +24019,7 @@ namespace strtk
    {
       if (N < M)
          return false;
-      std::copy(src,src + N, &dest[0]);
+      std::copy(src,src + M, &dest[0]);
       if ((M < N) && pad)
          std::fill_n(&dest[M],N - M,padding);
       return true;
-- 
2.43.0


From 529b27646b7b9051a855f89e640fd05af56b0fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:28 +0000
Subject: [PATCH 41/81] fix: delete_if of a set or multiset of pointers did not
 compile

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 089f579..2f76dea 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21675,8 +21675,8 @@ namespace strtk
          {
             if (p(*itr))
             {
-               delete (*itr).second;
-               itr = cont.erase(itr);
+               delete (*itr);
+               cont.erase(itr++);
             }
             else
                ++itr;
@@ -21696,8 +21696,8 @@ namespace strtk
          {
             if (p(*itr))
             {
-               delete (*itr).second;
-               itr = cont.erase(itr);
+               delete (*itr);
+               cont.erase(itr++);
             }
             else
                ++itr;
-- 
2.43.0


From aa9ff34f316fbecf913c73239b3464507af94733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:05 +0000
Subject: [PATCH 42/81] fix: assigning an empty util::value left the old target
 bound

---
 strtk.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 2f76dea..8822caf 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21338,6 +21338,8 @@ namespace strtk
                             type_holder_buffer_);
                   type_holder_ = reinterpret_cast<type_holder_base*>(type_holder_buffer_);
                }
+               else
+                  type_holder_ = 0;
             }
             return *this;
          }
-- 
2.43.0


From f5466b8b60e40d3f9373097ff60f240dd39468f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 43/81] fix: copying a non-const util::value bound to the
 original object

---
 strtk.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 8822caf..2f07365 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -21308,6 +21308,13 @@ namespace strtk
             this->operator=(v);
          }
 
+         value(value& v)
+         : type_holder_(0)
+         {
+            std::fill_n(type_holder_buffer_, sizeof(type_holder_buffer_), static_cast<unsigned char>(0x00));
+            this->operator=(v);
+         }
+
          template <typename T>
          inline explicit value(T& t)
          {
-- 
2.43.0


From 9fa6370ca675fbb8f4ca80bc03a5842f17696211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 44/81] fix: inrange accepted NaN

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 2f07365..66a5067 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -16388,9 +16388,9 @@ namespace strtk
             T temp;
             if (!strtk::string_to_type_converter(begin, end, temp))
                return false;
-            else if (temp < low_)
+            else if (!(low_ <= temp))
                return false;
-            else if (temp > hi_)
+            else if (!(temp <= hi_))
                return false;
             (*t_) = temp;
             return true;
-- 
2.43.0


From 6105f443513e03680224beda948c7986a4306629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 45/81] fix: decimal_sink read past the end of empty text and
 of text without a fraction

---
 strtk.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 66a5067..f6c5251 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15201,6 +15201,9 @@ namespace strtk
          if (0 == t_)
             return false;
 
+         if (end == itr)
+            return false;
+
          typedef typename strtk::details::real_type<T>::type real_t;
 
          bool negative = ('-' == (*itr));
@@ -15232,7 +15235,8 @@ namespace strtk
                return false;
          }
 
-         ++itr;
+         if (end != itr)
+            ++itr;
 
          length = std::min<std::size_t>(frac_size_,std::distance(itr,end));
          end_n  = itr + length;
-- 
2.43.0


From 3edf7174fd5f9aea662505ae34a0252ab179d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 46/81] fix: a sink bound to a container on construction used
 an uninitialised element count

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index f6c5251..70b5fd4 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15392,7 +15392,8 @@ namespace strtk
                        const split_options::type& split_option = split_options::compress_delimiters)
       : delimiters_(delimiters),
         split_option_(split_option),
-        container_(&container)
+        container_(&container),
+        element_count_(std::numeric_limits<std::size_t>::max())
       {}
 
       inline sink_type& count(const std::size_t& element_count = std::numeric_limits<std::size_t>::max())
-- 
2.43.0


From 8bfa8b20d9d232d1bccd912adc679ac9eb606c68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:18 +0000
Subject: [PATCH 47/81] fix: decimal_sink could not be used as a parse target
 (did not compile)

---
 strtk.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 70b5fd4..aa595dd 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17898,6 +17898,15 @@ namespace strtk
          return true;
       }
 
+      template <typename Iterator, typename DecimalSink>
+      inline bool string_to_type_converter_impl(Iterator& itr, const Iterator end, DecimalSink& t, decsink_type_tag)
+      {
+         if (!t(itr,end))
+            return false;
+         itr = end;
+         return true;
+      }
+
       template <typename Iterator, typename SinkType>
       inline bool string_to_type_converter_impl(Iterator& itr, const Iterator end, SinkType& t, sink_type_tag)
       {
-- 
2.43.0


From 1419997d474f0827341839a297b9c2aacc144e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 48/81] fix: text::remove_inplace and insert_inplace copied
 overlapping memory, insertion past the end wrote outside

---
 strtk.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index aa595dd..a48eb9e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15612,7 +15612,7 @@ namespace strtk
       {
          if (index >= s.size())
             return;
-         std::memcpy(const_cast<char*>(to_ptr(s) + index), const_cast<char*>(to_ptr(s) + (index + 1)), s.size() - index);
+         std::memmove(const_cast<char*>(to_ptr(s) + index), const_cast<char*>(to_ptr(s) + (index + 1)), s.size() - (index + 1));
          s.resize(s.size() - 1);
       }
 
@@ -15625,8 +15625,10 @@ namespace strtk
 
       inline void insert_inplace(std::string& s, const std::size_t& index, const char c)
       {
+         if (index > s.size())
+            return;
          s.resize(s.size() + 1);
-         std::memcpy(const_cast<char*>(to_ptr(s) + index + 1), const_cast<char*>(to_ptr(s) + (index)), s.size() - index);
+         std::memmove(const_cast<char*>(to_ptr(s) + index + 1), const_cast<char*>(to_ptr(s) + (index)), s.size() - (index + 1));
          s[index] = c;
       }
 
-- 
2.43.0


From 616f7d04b1c6d3b73fab40655f54ba75c80ac9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 49/81] fix: matching at least n consecutive values failed if
 the whole range matched

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index a48eb9e..c1db95f 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15836,7 +15836,7 @@ namespace strtk
                return false;
          }
 
-         return false;
+         return (count >= n);
       }
 
       template <typename Iterator,typename Predicate>
-- 
2.43.0


From 877caeb06f7f247d1e081af06a6c88c01edb7e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 50/81] fix: split_on_consecutive_n delivered one range more
 than asked for

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c1db95f..c7bc4b2 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15987,7 +15987,7 @@ namespace strtk
       range_type itr_range(begin,end);
       std::size_t match_count = 0;
 
-      while ((end != itr_range.first) && (match_count <= n))
+      while ((end != itr_range.first) && (match_count < n))
       {
          range_type found_itr = details::find_exactly_n_consecutive_values(m,p,itr_range);
          if ((end == found_itr.first) && (found_itr.first == found_itr.second))
@@ -16059,7 +16059,7 @@ namespace strtk
       range_type itr_range(begin,end);
       std::size_t match_count = 0;
 
-      while ((end != itr_range.first) && (match_count <= n))
+      while ((end != itr_range.first) && (match_count < n))
       {
          range_type found_itr = find_n_consecutive<iterator_type>(m,type,mode,itr_range);
 
-- 
2.43.0


From 94cd39b47fd9c96ea2ef434c91f81a1864cfff7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:54 +0000
Subject: [PATCH 51/81] fix: split_on_consecutive_n with a predicate did not
 compile

---
 strtk.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index c7bc4b2..413f080 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15989,7 +15989,7 @@ namespace strtk
 
       while ((end != itr_range.first) && (match_count < n))
       {
-         range_type found_itr = details::find_exactly_n_consecutive_values(m,p,itr_range);
+         range_type found_itr = details::find_exactly_n_consecutive_values<iterator_type,Predicate>(m,p,itr_range);
          if ((end == found_itr.first) && (found_itr.first == found_itr.second))
          {
             break;
@@ -16234,14 +16234,13 @@ namespace strtk
                                              const char* end,
                                              OutputIterator out)
    {
-      return split_on_consecutive_n<Predicate,
-                                    char*,
-                                    OutputIterator>(n,
-                                                    m,
-                                                    p,
-                                                    const_cast<char*>(begin),
-                                                    const_cast<char*>(end),
-                                                    out);
+      return split_on_consecutive<Predicate,
+                                  OutputIterator>(n,
+                                                  m,
+                                                  p,
+                                                  const_cast<char*>(begin),
+                                                  const_cast<char*>(end),
+                                                  out);
    }
 
    template <typename Predicate, typename OutputIterator>
-- 
2.43.0


From 5415f4e1635fe743f53a9dc0c80aef1139bf6449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 52/81] fix: fileio::write_pod did not compile

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 413f080..0d83942 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18696,7 +18696,7 @@ namespace strtk
          template <typename T>
          inline bool write_pod_proxy(std::ofstream& stream, const T& t)
          {
-            return (false == stream.write(reinterpret_cast<char*>(&t),
+            return (false == stream.write(reinterpret_cast<const char*>(&t),
                                           static_cast<std::streamsize>(sizeof(T))).fail());
          }
       }
@@ -19030,7 +19030,7 @@ namespace strtk
       template <typename T, std::size_t N>
       inline bool write_pod(std::ofstream& stream, T (&t)[N])
       {
-         return (false != stream.write(reinterpret_cast<char*>(&t[0]),sizeof(T) * N).fail());
+         return (false != stream.write(reinterpret_cast<const char*>(&t[0]),sizeof(T) * N).fail());
       }
 
       template <typename T,
-- 
2.43.0


From 8e3fdd3e3d1098d5038fcf7bc0482b21955993cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 53/81] fix: fileio::read_pod and write_pod of an array
 returned true on failure only

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 0d83942..f820b18 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18834,7 +18834,7 @@ namespace strtk
       template <typename T, std::size_t N>
       inline bool read_pod(std::ifstream& stream, T (&t)[N])
       {
-         return (false != stream.read(reinterpret_cast<char*>(&t[0]),sizeof(T) * N).fail());
+         return (false == stream.read(reinterpret_cast<char*>(&t[0]),sizeof(T) * N).fail());
       }
 
       template <typename T,
@@ -19030,7 +19030,7 @@ namespace strtk
       template <typename T, std::size_t N>
       inline bool write_pod(std::ofstream& stream, T (&t)[N])
       {
-         return (false != stream.write(reinterpret_cast<const char*>(&t[0]),sizeof(T) * N).fail());
+         return (false == stream.write(reinterpret_cast<const char*>(&t[0]),sizeof(T) * N).fail());
       }
 
       template <typename T,
-- 
2.43.0


From bfe12b6db742cff4603a687e6367f3266fe87cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:54 +0000
Subject: [PATCH 54/81] fix: fileio::write_pod of a container did not compile
 and returned no value

---
 strtk.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index f820b18..1888c31 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19039,8 +19039,8 @@ namespace strtk
       inline bool write_pod(std::ofstream& stream,
                             const Sequence<T,Allocator>& sequence)
       {
-         typename Sequence<T,Allocator>::iterator itr = sequence.begin();
-         typename Sequence<T,Allocator>::iterator end = sequence.end();
+         typename Sequence<T,Allocator>::const_iterator itr = sequence.begin();
+         typename Sequence<T,Allocator>::const_iterator end = sequence.end();
 
          while (end != itr)
          {
@@ -19049,6 +19049,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       template <typename T,
@@ -19067,6 +19069,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       template <typename T,
@@ -19085,6 +19089,8 @@ namespace strtk
             else
                return false;
          }
+
+         return true;
       }
 
       inline bool read_at_offset(std::ifstream& stream,
-- 
2.43.0


From b7ed17e6e1566cddf2725fc65775a1634a8c6606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 55/81] fix: fileio::read_pod with a non-const element count
 overwrote the container object

---
 strtk.hpp | 47 +++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 47 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 1888c31..99fd423 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18897,6 +18897,53 @@ namespace strtk
          return true;
       }
 
+      template <typename T,
+                typename Allocator>
+      inline bool read_pod(std::ifstream& stream,
+                           std::size_t& count,
+                           std::vector<T,Allocator>& container)
+      {
+         return read_pod(stream,static_cast<const std::size_t&>(count),container);
+      }
+
+      template <typename T,
+                typename Allocator>
+      inline bool read_pod(std::ifstream& stream,
+                           std::size_t& count,
+                           std::deque<T,Allocator>& container)
+      {
+         return read_pod(stream,static_cast<const std::size_t&>(count),container);
+      }
+
+      template <typename T,
+                typename Allocator>
+      inline bool read_pod(std::ifstream& stream,
+                           std::size_t& count,
+                           std::list<T,Allocator>& container)
+      {
+         return read_pod(stream,static_cast<const std::size_t&>(count),container);
+      }
+
+      template <typename T,
+                typename Comparator,
+                typename Allocator>
+      inline bool read_pod(std::ifstream& stream,
+                           std::size_t& count,
+                           std::set<T,Comparator,Allocator>& container)
+      {
+         return read_pod(stream,static_cast<const std::size_t&>(count),container);
+      }
+
+      template <typename T,
+                typename Comparator,
+                typename Allocator>
+      inline bool read_pod(std::ifstream& stream,
+                           std::size_t& count,
+                           std::multiset<T,Comparator,Allocator>& container)
+      {
+         return read_pod(stream,static_cast<const std::size_t&>(count),container);
+      }
+
       template <typename T1, typename T2, typename T3, typename T4,
                 typename T5, typename T6, typename T7, typename T8,
                 typename T9, typename T10>
-- 
2.43.0


From e622e9acefb76f85c98dd8b9bb55f7f8a5792d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:19 +0000
Subject: [PATCH 56/81] fix: for_each_line_n delivered every line for n of zero

---
 strtk.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 99fd423..3a25d1b 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -137,11 +137,10 @@ namespace strtk
       buffer.reserve(buffer_size);
       std::size_t line_count = 0;
 
-      while (std::getline(stream,buffer))
+      while ((line_count < n) && std::getline(stream,buffer))
       {
          function(buffer);
-         if (n == ++line_count)
-            break;
+         ++line_count;
       }
 
       return line_count;
@@ -202,14 +201,13 @@ namespace strtk
       std::string buffer;
       buffer.reserve(buffer_size);
       std::size_t line_count = 0;
-      while (std::getline(stream,buffer))
+      while ((line_count < n) && std::getline(stream,buffer))
       {
          if (!function(buffer))
          {
             return line_count;
          }
-         if (n == ++line_count)
-            break;
+         ++line_count;
       }
       return line_count;
    }
-- 
2.43.0


From 9b88b54699b2ceaecff28c47592221d56d6c00ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:24 +0000
Subject: [PATCH 57/81] fix: read_line_as_value did not compile

---
 strtk.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 3a25d1b..ac2e2c9 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -238,6 +238,9 @@ namespace strtk
          return 0;
    }
 
+   template <typename T>
+   inline bool string_to_type_converter(const std::string& s, T& t);
+
    template <typename T>
    inline bool read_line_as_value(std::istream& stream,
                                   T& t,
-- 
2.43.0


From ed9e0a14c28c4aa39381571b55bc86a78be6f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 58/81] fix: loading a token grid from an unreadable file
 deleted the caller's buffer and kept its old tokens

---
 strtk.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index ac2e2c9..eb9ff90 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7330,9 +7330,11 @@ namespace strtk
          if ((load_from_file_) && (0 != buffer_))
          {
             delete [] buffer_;
-            buffer_ = 0;
          }
 
+         dsv_index_.clear();
+
+         buffer_           = 0;
          buffer_size_      = 0;
          min_column_count_ = 0;
          max_column_count_ = 0;
-- 
2.43.0


From 873f68cb2c5db5e609f3462015bd8c0e01484498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 59/81] fix: binary reader reported success for streams that
 were too short

---
 strtk.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index eb9ff90..f7750b1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14120,15 +14120,13 @@ namespace strtk
          inline bool operator()(std::ifstream& stream, const std::size_t& length)
          {
             if (length > buffer_length_) return false;
-            stream.read(original_buffer_,static_cast<std::streamsize>(length));
-            return true;
+            return (false == stream.read(original_buffer_,static_cast<std::streamsize>(length)).fail());
          }
 
          inline bool operator()(std::ifstream& stream)
          {
             if (0 == amount_read_sofar_) return false;
-            stream.read(original_buffer_,static_cast<std::streamsize>(amount_read_sofar_));
-            return true;
+            return (false == stream.read(original_buffer_,static_cast<std::streamsize>(amount_read_sofar_)).fail());
          }
 
          template <typename T>
-- 
2.43.0


From a51fef7778a327d5bb581177f37c4326270c3997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 60/81] fix: filter_on_wildcard_match passed on what did not
 match instead of what did

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index f7750b1..fcc9d78 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7678,7 +7678,7 @@ namespace strtk
       template <typename Iterator>
       inline void operator() (const std::pair<Iterator,Iterator>& range) const
       {
-         if (match(match_pattern_.begin(),match_pattern_.end(),range.first,range.second,'*','?') ^ allow_through_on_match_)
+         if (match(match_pattern_.begin(),match_pattern_.end(),range.first,range.second,'*','?') == allow_through_on_match_)
          {
             predicate_(range);
          }
@@ -7686,7 +7686,7 @@ namespace strtk
 
       inline void operator() (const std::string& s) const
       {
-         if (match(match_pattern_,s) ^ allow_through_on_match_)
+         if (match(match_pattern_,s) == allow_through_on_match_)
          {
             predicate_(s);
          }
-- 
2.43.0


From e6e0ad11b63941080132ab794446683bbf6e1293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 61/81] fix: filter_on_match compared past the end of short
 tokens and matched prefixes

---
 strtk.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index fcc9d78..0f94ab2 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7726,7 +7726,9 @@ namespace strtk
             if (
                  (case_insensitive_ &&
                  (imatch(to_ptr((*itr)), to_ptr((*itr)) + (*itr).size(), range.first,range.second))) ||
-                 (!case_insensitive_ && std::equal((*itr).begin(), (*itr).end(), range.first))
+                 (!case_insensitive_ &&
+                 (static_cast<std::size_t>(std::distance(range.first,range.second)) == (*itr).size()) &&
+                 std::equal((*itr).begin(), (*itr).end(), range.first))
                )
             {
                if (allow_through_on_match_)
@@ -7751,7 +7753,7 @@ namespace strtk
             if (
                  (case_insensitive_ &&
                  (imatch((*itr).begin(),(*itr).end(),s.begin(),s.end()))) ||
-                 (!case_insensitive_ && std::equal((*itr).begin(),(*itr).end(),s.begin()))
+                 (!case_insensitive_ && ((*itr) == s))
                )
             {
                if (allow_through_on_match_)
-- 
2.43.0


From bfe3739835356f69e36babb4affedfebfc7f8832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 62/81] fix: filter_on_match passed on matching strings that it
 should hold back

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 0f94ab2..4077c10 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7759,15 +7759,15 @@ namespace strtk
                if (allow_through_on_match_)
                {
                   predicate_(s);
-                  return;
                }
+
+               return;
             }
          }
 
          if (!allow_through_on_match_)
          {
             predicate_(s);
-            return;
          }
       }
 
-- 
2.43.0


From eda02be3b9e66e52c0618d0e2a34f88ce9e02805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 63/81] fix: a range adapter over non-const characters
 converted to an empty string

---
 strtk.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 4077c10..da3ed5d 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -969,6 +969,11 @@ namespace strtk
             return std::string(begin,end);
          }
 
+         static inline std::string stringify(char* begin, char* end)
+         {
+            return std::string(begin,end);
+         }
+
          iterator begin_;
          iterator end_;
       };
-- 
2.43.0


From 2d2f90dc579d2f8773557379af9f1ea01fef75b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:11 +0000
Subject: [PATCH 64/81] fix: range::type of pointers and arrays did not compile

---
 strtk.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index da3ed5d..0d357a8 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -982,15 +982,15 @@ namespace strtk
       typedef adapter<const unsigned char> ustring;
 
       template <typename T>
-      inline adapter<T> type(const T* begin, const T* end)
+      inline adapter<const T> type(const T* begin, const T* end)
       {
-         return adapter<T>(begin,end);
+         return adapter<const T>(begin,end);
       }
 
       template <typename T, std::size_t N>
-      inline adapter<T> type(const T (&t)[N])
+      inline adapter<const T> type(const T (&t)[N])
       {
-         return adapter<T>(t,N);
+         return adapter<const T>(t,N);
       }
 
       static inline adapter<const char> type(const std::string& s)
-- 
2.43.0


From 81e720a27ded89f2222a586d6cb15d8a87e17840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 65/81] fix: string_condition begins_with and ends_with
 accepted texts of equal length only

---
 strtk.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 0d357a8..e1ea6d4 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19679,7 +19679,7 @@ namespace strtk
 
       inline bool condition_begins_with(const itr_type begin, const itr_type end) const
       {
-         if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
+         if (s.size() <= static_cast<std::size_t>(std::distance(begin,end)))
          {
             return strtk::begins_with(s_begin, s_end, begin, end);
          }
@@ -19689,7 +19689,7 @@ namespace strtk
 
       inline bool condition_ends_with(const itr_type begin, const itr_type end) const
       {
-         if (s.size() == static_cast<std::size_t>(std::distance(begin,end)))
+         if (s.size() <= static_cast<std::size_t>(std::distance(begin,end)))
          {
             return strtk::ends_with(s_begin, s_end, begin, end);
          }
-- 
2.43.0


From b5134a49287c68f842e4a1e03be79d0a1a4e435a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 66/81] fix: a copied string_condition kept pointing into the
 original

---
 strtk.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index e1ea6d4..b6984e8 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -19758,6 +19758,24 @@ namespace strtk
          }
       }
 
+      string_condition(const string_condition& sc)
+      : cond_type_(sc.cond_type_),
+        s(sc.s),
+        s_begin(reinterpret_cast<const unsigned char*>(to_ptr(s))),
+        s_end  (reinterpret_cast<const unsigned char*>(to_ptr(s) + s.size())),
+        condition_method_(sc.condition_method_)
+      {}
+
+      string_condition& operator=(const string_condition& sc)
+      {
+         cond_type_ = sc.cond_type_;
+         s          = sc.s;
+         s_begin    = reinterpret_cast<const unsigned char*>(to_ptr(s));
+         s_end      = reinterpret_cast<const unsigned char*>(to_ptr(s) + s.size());
+         condition_method_ = sc.condition_method_;
+         return (*this);
+      }
+
       template <typename Iterator>
       inline bool operator()(const Iterator begin, const Iterator end)
       {
-- 
2.43.0


From 050a2d4313cff563ad0b6e9ba4ca2af85c52e2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 67/81] fix: column_selector of two to ten columns compiled
 only when the first two types were equal

---
 strtk.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index b6984e8..8ff0f33 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -22361,7 +22361,7 @@ namespace strtk
          typedef column_list_impl<10> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3, T4& t4,
+                              T0& t0, T1& t1, T2& t2, T3& t3, T4& t4,
                               T5& t5, T6& t6, T7& t7, T8& t8, T9& t9)
          : csb_t(column_list)
          {
@@ -22384,7 +22384,7 @@ namespace strtk
          typedef column_list_impl<9> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3, T4& t4,
+                              T0& t0, T1& t1, T2& t2, T3& t3, T4& t4,
                               T5& t5, T6& t6, T7& t7, T8& t8)
          : csb_t(column_list)
          {
@@ -22407,7 +22407,7 @@ namespace strtk
          typedef column_list_impl<8> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3,
+                              T0& t0, T1& t1, T2& t2, T3& t3,
                               T4& t4, T5& t5, T6& t6, T7& t7)
          : csb_t(column_list)
          {
@@ -22429,7 +22429,7 @@ namespace strtk
          typedef column_list_impl<7> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3,
+                              T0& t0, T1& t1, T2& t2, T3& t3,
                               T4& t4, T5& t5, T6& t6)
          : csb_t(column_list)
          {
@@ -22451,7 +22451,7 @@ namespace strtk
          typedef column_list_impl<6> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2,
+                              T0& t0, T1& t1, T2& t2,
                               T3& t3, T4& t4, T5& t5)
          : csb_t(column_list)
          {
@@ -22472,7 +22472,7 @@ namespace strtk
          typedef column_list_impl<5> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2,
+                              T0& t0, T1& t1, T2& t2,
                               T3& t3, T4& t4)
          : csb_t(column_list)
          {
@@ -22492,7 +22492,7 @@ namespace strtk
          typedef column_list_impl<4> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2, T3& t3)
+                              T0& t0, T1& t1, T2& t2, T3& t3)
          : csb_t(column_list)
          {
             csb_t::cvl().register_value(t0); csb_t::cvl().register_value(t1);
@@ -22510,7 +22510,7 @@ namespace strtk
          typedef column_list_impl<3> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1, T2& t2)
+                              T0& t0, T1& t1, T2& t2)
          : csb_t(column_list)
          {
             csb_t::cvl().register_value(t0); csb_t::cvl().register_value(t1);
@@ -22528,7 +22528,7 @@ namespace strtk
          typedef column_list_impl<2> column_list_t;
 
          column_selector_impl(const column_list_t& column_list,
-                              T1& t0, T1& t1)
+                              T0& t0, T1& t1)
          : csb_t(column_list)
          {
             csb_t::cvl().register_value(t0); csb_t::cvl().register_value(t1);
-- 
2.43.0


From c058318083c67c464fe0d161c1759b3679345760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:19 +0000
Subject: [PATCH 68/81] fix: a column selector kept a reference to the caller's
 column list

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 8ff0f33..ea50665 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -22286,7 +22286,7 @@ namespace strtk
             return cvl_;
          }
 
-         const column_list_t& column_list_;
+         const column_list_t column_list_;
          std::size_t current_index_;
          std::size_t target_index_;
          std::size_t col_list_index_;
-- 
2.43.0


From 63f97d452872a6938e322f6a42b5160c14e1f510 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:57 +0000
Subject: [PATCH 69/81] fix: column_selector of eleven and twelve columns did
 not compile

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index ea50665..110daff 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -22777,8 +22777,8 @@ namespace strtk
    template <typename T0, typename T1, typename  T2, typename T3,
              typename T4, typename T5, typename  T6, typename T7,
              typename T8, typename T9, typename T10, typename T11>
-   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9>
-      column_selector(const details::column_list_impl<11>& col_list,
+   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10,T11>
+      column_selector(const details::column_list_impl<12>& col_list,
                       T0& t0, T1& t1, T2& t2, T3& t3,  T4&  t4,  T5& t5,
                       T6& t6, T7& t7, T8& t8, T9& t9, T10& t10, T11& t11)
    {
@@ -22791,7 +22791,7 @@ namespace strtk
    template <typename T0, typename T1, typename T2, typename T3,
              typename T4, typename T5, typename T6, typename T7,
              typename T8, typename T9, typename T10>
-   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9>
+   inline typename details::column_selector_impl<T0,T1,T2,T3,T4,T5,T6,T7,T8,T9,T10>
       column_selector(const details::column_list_impl<11>& col_list,
                       T0& t0, T1& t1, T2& t2, T3& t3, T4& t4, T5& t5,
                       T6& t6, T7& t7, T8& t8, T9& t9, T10& t10)
-- 
2.43.0


From eac19005fdfeadda4700e260994ef29a6a48aed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 70/81] fix: remove_duplicates_inplace left the string
 unchanged

---
 strtk.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 110daff..e9370b0 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -1456,7 +1456,8 @@ namespace strtk
 
    inline std::string remove_duplicates_inplace(std::string& str)
    {
-      return remove_duplicates(str);
+      str = remove_duplicates(str);
+      return str;
    }
 
    template <typename Iterator, typename Predicate>
-- 
2.43.0


From 36b6bb13485e673ebda4f276773dcc6d174b3c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:15 +0000
Subject: [PATCH 71/81] fix: a range_to_ptr_type iterator could neither be
 copied nor called with a range

---
 strtk.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index e9370b0..2e15f7e 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -3041,7 +3041,8 @@ namespace strtk
       {}
 
       range_to_ptr_type_iterator(const range_to_ptr_type_iterator& itr)
-      : pointer_(itr.pointer_)
+      : pointer_(itr.pointer_),
+        insert_count_(itr.insert_count_)
       {}
 
       inline range_to_ptr_type_iterator& operator=(const range_to_ptr_type_iterator& itr)
@@ -3084,7 +3085,7 @@ namespace strtk
       }
 
       template <typename Iterator>
-      inline void operator()(const std::pair<Iterator,Iterator>& r) const
+      inline void operator()(const std::pair<Iterator,Iterator>& r)
       {
          value_type t;
          if (string_to_type_converter(r.first,r.second,t))
-- 
2.43.0


From ce682dd81c47223c6e6c488dc1256364b63bedfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:01 +0000
Subject: [PATCH 72/81] fix: ext_string operator*= produced one copy more than
 operator*

---
 strtk.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/strtk.hpp b/strtk.hpp
index 2e15f7e..5ebcc95 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -18375,7 +18375,7 @@ namespace strtk
 
       inline ext_string& operator *= (const std::size_t& n)
       {
-         strtk::replicate_inplace(n,s_);
+         s_ = strtk::replicate(n,s_);
          return (*this);
       }
 
-- 
2.43.0


From ae5584f8c29daad655477dd09e6a8cae9583672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:17 +0000
Subject: [PATCH 73/81] fix: token_grid::sequential_partition gives a single
 row between two transitions its own partition

---
 strtk.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 5ebcc95..a0fa675 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7272,17 +7272,15 @@ namespace strtk
          {
             if (p(row_type(i,dsv_index_)))
             {
-               if (r.first != r.second)
+               if (r.first != i)
                {
                   r.second = i;
                   if (!f(*this,r))
                      return false;
                }
 
-               r.first = r.second;
+               r.first = i;
             }
-            else
-               r.second = i;
          }
 
          if (r.first != row_range.second)
-- 
2.43.0


From 132e4aef95e1757c4bb3bb5d5134ff48328bba29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:17 +0000
Subject: [PATCH 74/81] fix: token_grid joins left a delimiter behind the last
 joined token when later ones were empty or rejected

---
 strtk.hpp | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index a0fa675..aa06fc1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7096,13 +7096,11 @@ namespace strtk
 
          while (end != itr)
          {
-            if (!delimiter.empty() && appended)
-               result.append(delimiter);
-
-            appended = false;
-
             if ((*itr).first != (*itr).second)
             {
+               if (appended)
+                  result.append(delimiter);
+
                result.append((*itr).first,(*itr).second);
                appended = true;
             }
@@ -7133,15 +7131,13 @@ namespace strtk
 
          while (end != itr)
          {
-            if (!delimiter.empty() && appended)
-               result.append(delimiter);
-
-            appended = false;
-
             if ((*itr).first != (*itr).second)
             {
                if (predicate(*itr))
                {
+                  if (appended)
+                     result.append(delimiter);
+
                   result.append((*itr).first,(*itr).second);
                   appended = true;
                }
@@ -7184,13 +7180,11 @@ namespace strtk
 
                const range_t& range = row.token(col);
 
-               if (!delimiter.empty() && appended)
-                  result.append(delimiter);
-
-               appended = false;
-
                if (range.first != range.second)
                {
+                  if (appended)
+                     result.append(delimiter);
+
                   result.append(range.first,range.second);
                   appended = true;
                }
@@ -7230,15 +7224,13 @@ namespace strtk
                row_type row = row_type(i,dsv_index_);
                const range_t& range = row.token(col);
 
-               if (!delimiter.empty() && appended)
-                  result.append(delimiter);
-
-               appended = false;
-
                if (range.first != range.second)
                {
                   if (predicate(row))
                   {
+                     if (appended)
+                        result.append(delimiter);
+
                      result.append(range.first,range.second);
                      appended = true;
                   }
-- 
2.43.0


From 95621910f65127a5c8982b058e0578a898cb0246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:29 +0000
Subject: [PATCH 75/81] fix: token_grid::accumulate_column counted rows that do
 not have the column

---
 strtk.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index aa06fc1..7e7d6a1 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -7013,12 +7013,13 @@ namespace strtk
                const range_t& range = *(dsv_index_.token_list.begin() + r.first + col);
 
                if (string_to_type_converter(range.first,range.second,current_value))
+               {
                   result += current_value;
+                  ++process_count;
+               }
                else
                   return 0;
             }
-
-            ++process_count;
          }
 
          return process_count;
-- 
2.43.0


From 3987eb319baa4962c4831828eb4d377ddcae0128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:29 +0000
Subject: [PATCH 76/81] fix: token_grid column count enforcement ignored the
 range of rows it was given

---
 strtk.hpp | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 7e7d6a1..6866689 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -6867,10 +6867,15 @@ namespace strtk
          if (row_range_invalid(row_range))
             return;
 
-         remove_row_if(insufficient_number_of_columns(column_count));
+         const bool whole_grid = (all_rows() == row_range);
 
-         min_column_count_ = column_count;
-         max_column_count_ = column_count;
+         remove_row_if(row_range,insufficient_number_of_columns(column_count));
+
+         if (whole_grid)
+         {
+            min_column_count_ = column_count;
+            max_column_count_ = column_count;
+         }
       }
 
       inline void enforce_column_count(const std::size_t& column_count)
@@ -6885,10 +6890,15 @@ namespace strtk
          if (row_range_invalid(row_range))
             return;
 
-         remove_row_if(insufficient_number_of_minmax_columns(min_column_count,max_column_count));
+         const bool whole_grid = (all_rows() == row_range);
 
-         min_column_count_ = min_column_count;
-         max_column_count_ = max_column_count;
+         remove_row_if(row_range,insufficient_number_of_minmax_columns(min_column_count,max_column_count));
+
+         if (whole_grid)
+         {
+            min_column_count_ = min_column_count;
+            max_column_count_ = max_column_count;
+         }
       }
 
       inline void enforce_min_max_column_count(const std::size_t& min_column_count,
-- 
2.43.0


From 5d92c446508ebdc09cc8beff6aad4cc4a4a3a7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 77/81] fix: a bloom filter that failed to read its file was
 left using a table it does not have

---
 strtk.hpp | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 6866689..4c583d7 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -20579,6 +20579,20 @@ namespace strtk
 
             delete[] buffer;
 
+            //The table must be able to hold every index that will be computed.
+            result = result && (0 != table_size_) &&
+                     (((table_size_ - 1) / bits_per_char) < raw_table_size_);
+
+            if (!result)
+            {
+               delete[] bit_table_;
+               bit_table_      = 0;
+               salt_count_     = 0;
+               table_size_     = 0;
+               raw_table_size_ = 0;
+               salt_.clear();
+            }
+
             return result;
          }
 
@@ -20770,6 +20784,18 @@ namespace strtk
             return size_list.back();
          }
 
+         inline bool read_from_file(const std::string& file_name)
+         {
+            const bool result = filter::read_from_file(file_name);
+
+            if (result || (0 == table_size_))
+            {
+               size_list.assign(1,table_size_);
+            }
+
+            return result;
+         }
+
          inline bool compress(const double& percentage)
          {
             if ((0.0 >= percentage) || (percentage >= 100.0))
-- 
2.43.0


From 24dc04b85c773943c42796dfdabb67f918055ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 78/81] fix: the binary reader and writer accepted sizes whose
 sum with the position wraps around

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 4c583d7..5691a2f 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -14231,7 +14231,7 @@ namespace strtk
 
          inline bool buffer_capacity_ok(const std::size_t& required_read_qty)
          {
-            return ((required_read_qty + amount_read_sofar_) <= buffer_length_);
+            return (required_read_qty <= (buffer_length_ - amount_read_sofar_));
          }
 
          template <typename Type>
@@ -14600,7 +14600,7 @@ namespace strtk
                                 const padding_mode pmode,
                                 const char padding = ' ')
          {
-            if (amount_written_sofar_ + size <= buffer_length_)
+            if (buffer_capacity_ok(size))
             {
                std::string s;
                s.reserve(size);
@@ -14640,7 +14640,7 @@ namespace strtk
 
          inline bool buffer_capacity_ok(const std::size_t& required_write_qty)
          {
-            return ((required_write_qty + amount_written_sofar_) <= buffer_length_);
+            return (required_write_qty <= (buffer_length_ - amount_written_sofar_));
          }
 
          template <typename Type>
-- 
2.43.0


From 3946f3d5b023b24c3c243ec9a2d15c48c4fddb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:36 +0000
Subject: [PATCH 79/81] fix: decimal_sink accepted any character in place of
 the decimal point

---
 strtk.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/strtk.hpp b/strtk.hpp
index 5691a2f..42fbe87 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -15247,7 +15247,11 @@ namespace strtk
          }
 
          if (end != itr)
+         {
+            if ('.' != (*itr))
+               return false;
             ++itr;
+         }
 
          length = std::min<std::size_t>(frac_size_,std::distance(itr,end));
          end_n  = itr + length;
-- 
2.43.0


From 89a11bf7c8bdf8b434722b0486ea7cc82dc96be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:59 +0000
Subject: [PATCH 80/81] fix: the strtk_use_lut digit tables were indexed with
 negative characters

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 42fbe87..3b12ef4 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -17602,7 +17602,7 @@ namespace strtk
                #ifdef strtk_use_lut
 
                #define strtk_process_digit \
-               if (strtk_likely((digit = details::digit_table[(int)*itr]) < 10)) { result = result * 10 + (digit); ++itr; } else { return_result = false; break; }
+               if (strtk_likely((digit = details::digit_table[static_cast<unsigned char>(*itr)]) < 10)) { result = result * 10 + (digit); ++itr; } else { return_result = false; break; }
 
                #else
                #define strtk_process_digit \
@@ -17714,10 +17714,10 @@ namespace strtk
          #ifdef strtk_use_lut
 
          #define parse_digit_1(d) \
-         if (strtk_likely((digit = details::digit_table[(int)*itr]) < 10)) { d = d * real_t(10) + digit; } else break; if (end == ++itr) break; \
+         if (strtk_likely((digit = details::digit_table[static_cast<unsigned char>(*itr)]) < 10)) { d = d * real_t(10) + digit; } else break; if (end == ++itr) break; \
 
          #define parse_digit_2(d) \
-         if (strtk_likely((digit = details::digit_table[(int)*itr]) < 10)) { d = d * real_t(10) + digit; } else break; ++itr; \
+         if (strtk_likely((digit = details::digit_table[static_cast<unsigned char>(*itr)]) < 10)) { d = d * real_t(10) + digit; } else break; ++itr; \
 
          #else
 
-- 
2.43.0


From abd48ba055d91538bc677af12d372cb36a5fc7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:59 +0000
Subject: [PATCH 81/81] fix: generate_random_data wrote in front of a buffer of
 less than four bytes

---
 strtk.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/strtk.hpp b/strtk.hpp
index 3b12ef4..64979fb 100644
--- a/strtk.hpp
+++ b/strtk.hpp
@@ -11866,9 +11866,9 @@ namespace strtk
 
       if (length > 0)
       {
-         itr -= (sizeof(unsigned int) - length);
-         x = reinterpret_cast<unsigned int*>(itr);
-         (*x) = rnd();
+         const unsigned int value = rnd();
+         const unsigned char* v = reinterpret_cast<const unsigned char*>(&value);
+         std::copy(v, v + length, itr);
       }
    }
 
-- 
2.43.0

