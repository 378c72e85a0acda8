From cc711ac09df04fdffef64942af4b84aadbbdaaba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:19 +0000
Subject: [PATCH 001/113] fix: from_chars honours sign before trailing text,
 rejects input without digits, parses lowest value

---
 src/estd/internal/charconv/from_chars.hpp | 79 ++++++++++++-----------
 1 file changed, 42 insertions(+), 37 deletions(-)

diff --git a/src/estd/internal/charconv/from_chars.hpp b/src/estd/internal/charconv/from_chars.hpp
index 8fb20cd..db3ad32 100644
--- a/src/estd/internal/charconv/from_chars.hpp
+++ b/src/estd/internal/charconv/from_chars.hpp
@@ -8,6 +8,20 @@
 
 namespace estd { namespace internal {
 
+template <class T, class Digit>
+inline bool raise_and_accumulate(T& value, const unsigned short base, Digit digit, bool negate, estd::true_type)
+{
+    return negate ?
+        raise_and_sub(value, base, digit) :
+        raise_and_add(value, base, digit);
+}
+
+template <class T, class Digit>
+inline bool raise_and_accumulate(T& value, const unsigned short base, Digit digit, bool, estd::false_type)
+{
+    return raise_and_add(value, base, digit);
+}
+
 template<class Cbase, class T, class CharIt>
 detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
     T& value,
@@ -24,7 +38,7 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
 #endif
 
     CharIt current = first;
-    bool negate;
+    bool negate = false;
     // "If no characters match the pattern or if the value obtained by parsing
     // the matched characters is not representable in the type of value, value is unmodified," [1]
     T local_value = 0;
@@ -40,65 +54,56 @@ detail::from_chars_result<CharIt> from_chars_integer(CharIt first, CharIt last,
     while (estd::internal::ascii_isspace(*current))
         current++; */
 
-    if (estd::is_signed<T>::value)
+    if (estd::is_signed<T>::value && current != last)
     {
         negate = *current == '-';
 
         if (negate) ++current;
     }
 
+    // At least one digit must follow the optional sign
+    if (current == last || !cbase_type::from_char(*current, base).has_value())
+    {
+#ifdef FEATURE_CPP_INITIALIZER_LIST
+        return result_type{first, estd::errc::invalid_argument};
+#else
+        return result_type(first, estd::errc::invalid_argument);
+#endif
+    }
+
     while (current != last)
     {
         // DEBT: Use has_value() and friends for clarity here
         const optional_type digit = cbase_type::from_char(*current, base);
-        if (digit.has_value())
-        {
-            bool success = raise_and_add(local_value, base, digit.value());
 
-            // If we didn't succeed, that means we overflowed
-            if (!success)
-            {
-                // skip to either end or next spot which isn't a number
-                // "ptr points at the first character not matching the pattern." [1]
-                while (++current != last && cbase_type::is_in_base(*current)) {}
+        if (!digit.has_value()) break;
 
-#ifdef FEATURE_CPP_INITIALIZER_LIST
-                return result_type{current, estd::errc::result_out_of_range};
-#else
-                return result_type(current, estd::errc::result_out_of_range);
-#endif
-            }
-        }
-        else if(current == first)
-        {
-            return result_type
-#ifdef FEATURE_CPP_INITIALIZER_LIST
-                {current, estd::errc::invalid_argument};
-#else
-            (current, estd::errc::invalid_argument);
-#endif
-        }
-        else
+        // Negative numbers accumulate downwards, since lowest value has no positive counterpart
+        const bool success = raise_and_accumulate(local_value, base, digit.value(), negate,
+            estd::is_signed<T>());
+
+        // If we didn't succeed, that means we overflowed
+        if (!success)
         {
-            value = local_value;
+            // skip to either end or next spot which isn't a number
+            // "ptr points at the first character not matching the pattern." [1]
+            while (++current != last && cbase_type::is_in_base(*current, base)) {}
+
 #ifdef FEATURE_CPP_INITIALIZER_LIST
-            return result_type{current, estd::errc(0)};
+            return result_type{current, estd::errc::result_out_of_range};
 #else
-            return result_type(current, estd::errc(0));
+            return result_type(current, estd::errc::result_out_of_range);
 #endif
         }
+
         ++current;
     }
 
-    // prepend with constexpr so we can optimize out non-signed flavors
-    if (estd::is_signed<T>::value && negate)
-        local_value = -local_value;
-
     value = local_value;
 #ifdef FEATURE_CPP_INITIALIZER_LIST
-    return result_type{last,estd::errc(0)};
+    return result_type{current, estd::errc(0)};
 #else
-    return result_type(last,estd::errc(0));
+    return result_type(current, estd::errc(0));
 #endif
 }
 
-- 
2.43.0


From 9842b1e624a240e27765dd128ca1a882e8897bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:36 +0000
Subject: [PATCH 002/113] fix: to_chars fills the whole buffer, stays in bounds
 and renders the lowest value

---
 src/estd/internal/charconv.hpp         | 18 ++++++++++++------
 src/estd/internal/charconv/reverse.hpp | 11 +++++------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/src/estd/internal/charconv.hpp b/src/estd/internal/charconv.hpp
index 088fcb5..a89a125 100644
--- a/src/estd/internal/charconv.hpp
+++ b/src/estd/internal/charconv.hpp
@@ -51,27 +51,33 @@ inline detail::to_chars_result<CharIt> to_chars_integer_opt(
     static_assert(is_same<typename cbase_type::char_type, char_type>::value, "CharIt must align with cbase");
 #endif
 
-    if(numeric_limits::is_signed && negative) value *= -1;
-
-    while(first != --last)
+    while(first != last)
     {
+        --last;
+
 // EXPERIMENTAL, not sure if this helps at all
 #if FEATURE_ESTD_TO_CHARS_LIBC_DIV
         using d = div<Int>;
         const typename d::result v = d::eval(value, base());
-        *last = cbase_type::to_char(v.rem);
+        const Int digit = v.rem;
         value = v.quot;
 #else
         // DEBT: Pretty sure there's a div and mod combined operation, use that
         // i.e. https://riscv.org/wp-content/uploads/2017/05/riscv-spec-v2.2.pdf page 36 section 6.2
-        *last = cbase.to_char(value % base());
-        value /= base();
+        const Int digit = value % (Int)base();
+        value /= (Int)base();
 #endif
+        // Digits are negated one at a time because lowest value has no positive counterpart
+        *last = cbase.to_char(numeric_limits::is_signed && negative ? -digit : digit);
 
         if(value == 0)
         {
             if(numeric_limits::is_signed && negative)
+            {
+                if(first == last) break;
+
                 *--last = '-';
+            }
 
 #ifdef __cpp_initializer_lists
             return result_type{last, estd::errc(0)};
diff --git a/src/estd/internal/charconv/reverse.hpp b/src/estd/internal/charconv/reverse.hpp
index c3a2711..4b2a81e 100644
--- a/src/estd/internal/charconv/reverse.hpp
+++ b/src/estd/internal/charconv/reverse.hpp
@@ -15,18 +15,17 @@ to_chars_result to_chars_integer_reverse(char* first, char* last, TInt value, co
     typedef cbase<char, b, classic_locale_type> cbase_type;
     typedef typename cbase_type::char_type char_type;
 
-    if(estd::numeric_limits<TInt>::is_signed && value < 0)
-    {
-        *first++ = '-';
-        value *= -1;
-    }
+    const bool negative = estd::numeric_limits<TInt>::is_signed && value < 0;
+
+    if(negative && first != last) *first++ = '-';
 
     char_type* current = first;
 
     while(current != last)
     {
         // DEBT: instance method in case its runtime casing
-        *current = cbase_type().to_char(value % base);
+        const TInt digit = value % base;
+        *current = cbase_type().to_char(negative ? -digit : digit);
         value /= base;
 
         current++;
-- 
2.43.0


From 460680a18b20769d19dc761f8803225fc3c51a4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 003/113] fix: num_get overflow skips digits only, sign or
 nothing alone is a failure, base taken from flags

---
 src/estd/internal/locale/iterated/num_get.h | 30 ++++++++++++++++-----
 src/estd/internal/locale/num_get.h          |  4 +--
 2 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/estd/internal/locale/iterated/num_get.h b/src/estd/internal/locale/iterated/num_get.h
index 34995e6..9d8611a 100644
--- a/src/estd/internal/locale/iterated/num_get.h
+++ b/src/estd/internal/locale/iterated/num_get.h
@@ -147,7 +147,7 @@ struct num_get
             // TODO: Account for thousands separators
             // NOTE: Probably should use is_floating_point here instead, though so far
             // is_integer is in no danger of causing us grief
-            if(is_integer() == false && c == numpunct_type::decimal_point())
+            if(is_integer() == false && state_.decimal_place_ == 0 && c == numpunct_type::decimal_point())
             {
                 state_.decimal_place_ = 1;
                 return false;
@@ -213,7 +213,7 @@ struct num_get
                 // to ensure this hyphen compare is proper
                 if (is_signed<T>() && c == ctype_type::widen('-'))
                 {
-                    state_.state_ = NominalNegative;
+                    state_.state_ = FirstNegative;
                     return false;
                 }
                 else
@@ -234,6 +234,8 @@ struct num_get
                     return false;
 
             case FirstNegative:
+                state_.state_ = NominalNegative;
+
                 if(nominal<false>(c, err, v))
                 {
                     // "if the conversion function fails std::ios_base::failbit is assigned to err" [1]
@@ -251,7 +253,7 @@ struct num_get
 
             case Overflow:
                 // Merely consumed numbers in this mode
-                return cbase_type::from_char(c).has_value();
+                return cbase_type::from_char(c).has_value() == false;
 
             // FIX: Just to satisfy compilation
             default:
@@ -266,10 +268,24 @@ struct num_get
     {
         if(i != end) return get(*i++, err, v);
 
-        err |= ios_base::eofbit;
+        finish(err, v);
         return true;
     }
 
+    /// Call when input runs out before a non-numeric character is encountered
+    template <class T>
+    void finish(ios_base::iostate& err, T& v) const
+    {
+        err |= ios_base::eofbit;
+
+        // Nothing or a lone sign is not a number
+        if(state_.state_ == Start || state_.state_ == FirstNegative)
+        {
+            v = 0;
+            err |= ios_base::failbit;
+        }
+    }
+
     // Just a bit of future proofing
     ESTD_CPP_CONSTEXPR_RET num_get(locale_type) {}
     ESTD_CPP_DEFAULT_CTOR(num_get)
@@ -329,7 +345,8 @@ struct bool_get<TChar, TLocale, false> : num_get<2, TChar, TLocale>
     {
         if(i != end) return get(*i++, err, v);
 
-        err |= ios_base::eofbit;
+        v = false;
+        err |= ios_base::eofbit | ios_base::failbit;
         return true;
     }
 
@@ -380,7 +397,8 @@ struct bool_get<Char, Locale, true>
     {
         if(i != end) return get(*i++, err, v);
 
-        err |= ios_base::eofbit;
+        v = false;
+        err |= ios_base::eofbit | ios_base::failbit;
         return true;
     }
 
diff --git a/src/estd/internal/locale/num_get.h b/src/estd/internal/locale/num_get.h
index 3282384..db16c3a 100644
--- a/src/estd/internal/locale/num_get.h
+++ b/src/estd/internal/locale/num_get.h
@@ -69,7 +69,7 @@ private:
                 }
             }
 
-            err |= ios_base::eofbit;
+            n.finish(err, v);
             n.finalize(v, is_integer());
             return i;
         }
@@ -82,7 +82,7 @@ private:
             IncomingLocale l,
             T& v)
         {
-            switch(basefield)
+            switch(basefield & estd::ios_base::basefield)
             {
 #if FEATURE_ESTD_OSTREAM_OCTAL
                 case estd::ios_base::oct:   return get_signed_number<8>(in, end, err,l, v);
-- 
2.43.0


From c53eb8e2fef6eb441e86a1a125dc35be48098dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 004/113] fix: chooser rejects a character none of the names
 starts with

---
 src/estd/internal/chooser.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/internal/chooser.h b/src/estd/internal/chooser.h
index 043ed01..066195f 100644
--- a/src/estd/internal/chooser.h
+++ b/src/estd/internal/chooser.h
@@ -54,6 +54,9 @@ public:
                     break;
                 }
             }
+
+            // Nothing starts with this character
+            if(chosen_ == -1) return true;
         }
         else
         {
-- 
2.43.0


From 66da38e87646ecda7039777c641c64b1bafb67a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 005/113] fix: ctype classifies all lower case letters, alpha,
 punct and combined masks; isspace covers all C white space

---
 src/estd/internal/cctype.h       |  2 +-
 src/estd/internal/locale/ctype.h | 18 ++++++++++++++++--
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/cctype.h b/src/estd/internal/cctype.h
index 48f3104..ead7da1 100644
--- a/src/estd/internal/cctype.h
+++ b/src/estd/internal/cctype.h
@@ -9,7 +9,7 @@ inline int ascii_isdigit(int ch)
 
 inline int ascii_isspace(int ch)
 {
-    return ch == ' ';
+    return ch == ' ' || ('\t' <= ch && ch <= '\r');
 }
 
 
diff --git a/src/estd/internal/locale/ctype.h b/src/estd/internal/locale/ctype.h
index ce77fad..0c1cf60 100644
--- a/src/estd/internal/locale/ctype.h
+++ b/src/estd/internal/locale/ctype.h
@@ -73,7 +73,13 @@ public:
 
     static bool islower(char ch)
     {
-        return 'a' <= ch && ch <= 'a';
+        return 'a' <= ch && ch <= 'z';
+    }
+
+    static bool ispunct(char ch)
+    {
+        return ('!' <= ch && ch <= '/') || (':' <= ch && ch <= '@') ||
+            ('[' <= ch && ch <= '`') || ('{' <= ch && ch <= '~');
     }
 
     typedef char char_type;
@@ -103,10 +109,18 @@ public:
         {
             if(isupper(ch)) return true;
         }
-        else if(m & lower)
+        if(m & lower)
         {
             if(islower(ch)) return true;
         }
+        if(m & alpha)
+        {
+            if(isupper(ch) || islower(ch)) return true;
+        }
+        if(m & punct)
+        {
+            if(ispunct(ch)) return true;
+        }
         return false;
     }
 };
-- 
2.43.0


From e5963f3bead6773792baaa17d6ffc82032e4084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:30 +0000
Subject: [PATCH 006/113] fix: istreambuf_iterator over an exhausted streambuf
 is an end iterator

---
 src/estd/internal/istreambuf_iterator.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/estd/internal/istreambuf_iterator.h b/src/estd/internal/istreambuf_iterator.h
index 81f5065..7352f67 100644
--- a/src/estd/internal/istreambuf_iterator.h
+++ b/src/estd/internal/istreambuf_iterator.h
@@ -56,6 +56,13 @@ private:
         return false;
     }
 
+    // An already exhausted streambuf yields an 'end' iterator
+    void check_eof()
+    {
+        if (rdbuf_ != NULLPTR && rdbuf_->in_avail() == -1 && rdbuf_->sgetc() == traits_type::eof())
+            rdbuf_ = NULLPTR;
+    }
+
 public:
 #ifdef FEATURE_CPP_CONSTEXPR
     constexpr
@@ -67,17 +74,20 @@ public:
 
     istreambuf_iterator(streambuf_type& s) : rdbuf_(&s)
     {
+        check_eof();
     }
 
     template <class TIstreamBase>
     istreambuf_iterator(estd::detail::basic_istream<TStreambuf, TIstreamBase>& is) :
         rdbuf_(is.rdbuf())
     {
+        check_eof();
     }
 
     istreambuf_iterator(streambuf_type* s) :
         rdbuf_(s)
     {
+        check_eof();
     }
 
 #ifdef FEATURE_CPP_DEFAULT_CTOR
-- 
2.43.0


From 56ab547038045687ed2f9b9fd31e0e683eae728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 007/113] fix: string search stays in bounds and reports
 absolute positions

---
 src/estd/internal/runtime_array.h | 57 +++++++++++++++----------------
 1 file changed, 27 insertions(+), 30 deletions(-)

diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index a189959..188303b 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -153,7 +153,7 @@ protected:
 
     ESTD_CPP_CONSTEXPR(14) bool starts_with(const_reference ch) const
     {
-        const bool r = *clock(0, 1) == ch;
+        const bool r = size() > 0 && *clock(0, 1) == ch;
 
         cunlock();
 
@@ -170,7 +170,8 @@ protected:
 
     ESTD_CPP_CONSTEXPR(14) bool ends_with(const_reference ch) const
     {
-        const bool r = *clock(size() - 1, 1) == ch;
+        const size_type sz = size();
+        const bool r = sz > 0 && *clock(sz - 1, 1) == ch;
 
         cunlock();
 
@@ -398,17 +399,20 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
-        const_pointer data = clock();
-        const_pointer end = data + size();
+        const size_type sz = size();
 
-        data += pos;
+        // Not enough characters left for 's' to fit
+        if(pos > sz || count > sz - pos) return npos;
 
-        for(const_pointer i = data; i != end; ++i)
+        const_pointer data = clock();
+        const size_type last = sz - count;
+
+        for(; pos <= last; ++pos)
         {
-            if(memcmp(s, i, count) == 0)
+            if(memcmp(s, data + pos, count * sizeof(value_type)) == 0)
             {
                 cunlock();
-                return i - data;
+                return pos;
             }
         }
 
@@ -428,37 +432,25 @@ public:
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
         const size_type sz = size();
-        if(pos >= sz) pos = sz - 1;
 
-        unsigned remainder = sz - pos;
+        if(count > sz) return npos;
 
-        // if remaining characters including & after pos wouldn't fit 's'
-        // i.e. "Hello" finding "llo" at pos 4 ("o" = remainder 1, count 3)
-        if(remainder < count)
-        {
-            // Make sure there's enough room to move backwards for a useful
-            // comparison
-            // i.e. "Hello" finding "llo" at pos 4 (can we move back 2 to pos=2 reach a new remainder of 3?)
-            if(pos < count - remainder) return npos;
-
-            // skip over compares that can't succeed where pos is too close
-            // to end
-            // i.e. "Hello" finding "llo" at pos 4 ("o") moves back 2
-            pos -= count - remainder;
-        }
+        // skip over compares that can't succeed where pos is too close
+        // to end
+        // i.e. "Hello" finding "llo" at pos 4 ("o") moves back 2
+        if(pos > sz - count) pos = sz - count;
 
         const_pointer data = clock();
-        const_pointer rend = data - 1;
 
-        data += pos;
-
-        for(; data != rend; --pos, --data)
+        for(;;--pos)
         {
-            if(memcmp(s, data, count) == 0)
+            if(memcmp(s, data + pos, count * sizeof(value_type)) == 0)
             {
                 cunlock();
                 return pos;
             }
+
+            if(pos == 0) break;
         }
 
         cunlock();
@@ -469,6 +461,8 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find_first_of(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
+        if(pos >= size()) return npos;
+
         const_pointer data = clock();
         const_pointer end = data + size();
 
@@ -482,7 +476,10 @@ public:
     ESTD_CPP_CONSTEXPR(14) size_type find_last_of(
         const_pointer s, size_type pos, size_type count, size_type npos) const
     {
-        if(pos == npos) pos = size() - 1;   // DEBT: I think this line should go back up to string
+        const size_type sz = size();
+
+        if(sz == 0) return npos;
+        if(pos >= sz) pos = sz - 1;   // DEBT: I think this line should go back up to string
 
         const_pointer data = clock();
         const_pointer rend = data - 1;
-- 
2.43.0


From 437f4b8a8e5edfb08d1b789a83d808e02773a7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:54 +0000
Subject: [PATCH 008/113] fix: dynamic array erase moves whole elements, insert
 by reference copies the value

---
 src/estd/internal/dynamic_array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 0e83625..a09aab3 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -335,7 +335,7 @@ protected:
         // to_insert_pos to to_insert_pos + 1
         copy_assist(data + to_insert_pos, data + sz, data + sz + 1);
 
-        new (data + to_insert_pos) value_type(to_insert_value);
+        new (data + to_insert_pos) value_type(*to_insert_value);
 
         unlock();
     }
@@ -500,7 +500,7 @@ public:
         else
             impl().size(prev_size - count);
 
-        memmove(raw, raw + count, prev_size - (index + count));
+        memmove(raw, raw + count, (prev_size - (index + count)) * sizeof(value_type));
 
         unlock();
     }
-- 
2.43.0


From 1f17462d6f4424251bf946a689f13e4d4dbc91bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:48 +0000
Subject: [PATCH 009/113] fix: unbounded layer2 strings measure lengths beyond
 255

---
 src/estd/allocators/fixed.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/allocators/fixed.h b/src/estd/allocators/fixed.h
index bc3e8fd..48acfe0 100644
--- a/src/estd/allocators/fixed.h
+++ b/src/estd/allocators/fixed.h
@@ -199,7 +199,9 @@ public:
 // NOTE: uninitialized_array is handy to use for TBuffer to avoid value-init of all the elements
 template <
         class T, size_t len, class Buffer = T[len],
-        class Size = typename internal::deduce_fixed_size_t<len>::size_type>
+        // unbounded (len == 0) can't deduce anything, so that uses full size_t
+        class Size = conditional_t<len == 0, size_t,
+            typename internal::deduce_fixed_size_t<len>::size_type>>
 struct single_fixedbuf_allocator : public
         single_allocator_base<T, Buffer, Size>
 {
-- 
2.43.0


From b2df0ffd61d07a6923d36161bcce8031fff27f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:48 +0000
Subject: [PATCH 010/113] fix: starts_with accepts a prefix as long as the
 string itself

---
 src/estd/internal/container/starts_with.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/container/starts_with.h b/src/estd/internal/container/starts_with.h
index dae9c13..47bc065 100644
--- a/src/estd/internal/container/starts_with.h
+++ b/src/estd/internal/container/starts_with.h
@@ -12,14 +12,14 @@ inline ESTD_CPP_CONSTEXPR(14) bool starts_with_n(It1 lhs, It2 rhs, int count_lhs
 {
     // DEBT: Using signed int here is fiddly, since incoming count likely won't be signed
 
-    while(count_lhs-- && count_rhs--)
+    while(count_rhs-- && count_lhs--)
         if(*lhs++ != *rhs++)
         {
             return false;
         }
 
     // if compare_to is longer than we are, then it's also a fail
-    return count_lhs != -1;
+    return count_rhs == -1;
 }
 
 
-- 
2.43.0


From 6fb7683a55c8d042ac12c411035a19b77421b2d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:58 +0000
Subject: [PATCH 011/113] fix: string_view substr clamps the count to what
 remains

---
 src/estd/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/string_view.h b/src/estd/string_view.h
index 2ed3669..a5bff94 100644
--- a/src/estd/string_view.h
+++ b/src/estd/string_view.h
@@ -112,7 +112,7 @@ public:
         basic_string_view copy(*this);
 
         copy.remove_prefix(pos);
-        if(count != base_type::npos)
+        if(count < copy.size())
         {
             allocator_type& a = copy.get_allocator();
 
-- 
2.43.0


From fd8145e503462b83cdc076a92e0270c777ad6a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:58 +0000
Subject: [PATCH 012/113] fix: empty() of arrays whose size is their capacity

---
 src/estd/internal/impl/dynamic_array.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/impl/dynamic_array.h b/src/estd/internal/impl/dynamic_array.h
index c855988..a55b874 100644
--- a/src/estd/internal/impl/dynamic_array.h
+++ b/src/estd/internal/impl/dynamic_array.h
@@ -226,7 +226,7 @@ public:
 
     ESTD_CPP_CONSTEXPR_RET bool empty(const handle_descriptor& hd) const
     {
-        return hd.size() > 0;
+        return hd.size() == 0;
     }
 
     ESTD_CPP_CONSTEXPR_RET size_type size(const handle_descriptor& hd) const
-- 
2.43.0


From 7f874091735d6ddfaed07d93bd8894ec2e30f743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:28 +0000
Subject: [PATCH 013/113] fix: deque refuses to overfill or underrun, iterates
 when full, keeps element lifetimes

---
 src/estd/queue.h | 64 +++++++++++++++++++++++++++++++++---------------
 1 file changed, 44 insertions(+), 20 deletions(-)

diff --git a/src/estd/queue.h b/src/estd/queue.h
index 353d0b0..de57f85 100644
--- a/src/estd/queue.h
+++ b/src/estd/queue.h
@@ -48,7 +48,8 @@ struct normal_array_policy
     template <class T, size_t N>
     struct Array
     {
-        typedef array<T, N> container_type;
+        // elements come alive on push and emplace, not before
+        typedef estd::internal::uninitialized_array<T, N> container_type;
 
         // TODO: Make special iterator for dequeue which does the rollover/rollunder
         // and checks that you only move back and forth within one 'session' of
@@ -189,18 +190,23 @@ public:
     }
 
 #ifdef FEATURE_CPP_MOVESEMANTIC
-    constexpr deque(deque&& move_from) :
-        m_array(std::move(move_from.m_array)),
-        m_front(std::move(move_from.m_front)),
-        m_back(std::move(move_from.m_back)),
-        m_empty(std::move(move_from.m_empty))
-    {}
+    // Our positions point into our own m_array, so elements move over one by one
+    deque(deque&& move_from) :
+        m_front(m_array.begin()),
+        m_back(m_array.begin()),
+        m_empty(true)
+    {
+        array_iterator i = move_from.m_front;
+
+        for(size_t n = move_from.size(); n > 0; --n, move_from.increment(&i))
+            push_back(std::move(*i));
+    }
 #endif
     
 
     ~deque()
     {
-        // TODO: destruct all remaining items
+        while(pop_back()) {}
     }
 
     typedef T value_type;
@@ -215,24 +221,29 @@ public:
     {
         const deque& parent;
         array_iterator current;
+        // m_front and m_back coincide when full, so position alone doesn't tell begin from end
+        bool at_end;
 
         // DEBT: Do we need a copy constructor here?
 
-        ESTD_CPP_CONSTEXPR_RET forward_iterator(const deque& parent, array_iterator current)
+        ESTD_CPP_CONSTEXPR_RET forward_iterator(const deque& parent, array_iterator current, bool at_end = false)
             : parent(parent),
-              current(current)
+              current(current),
+              at_end(at_end)
         {}
 
         forward_iterator& operator++()
         {
             parent.increment(&current);
+            at_end = current == parent.m_back;
             return *this;
         }
 
         // FIX: perhaps we can do reverse iteration easily here after all
         forward_iterator& operator--()
         {
-            parent.decrement(&current);
+            parent.decrement((const_array_iterator*)&current);
+            at_end = false;
             return *this;
         }
 
@@ -250,21 +261,21 @@ public:
 
         bool operator==(const forward_iterator& compare_to) const
         {
-            return compare_to.current == current;
+            return compare_to.current == current && compare_to.at_end == at_end;
         }
 
         bool operator!=(const forward_iterator& compare_to) const
         {
-            return compare_to.current != current;
+            return !(*this == compare_to);
         }
     };
 
     typedef forward_iterator iterator;
     typedef const iterator const_iterator;
 
-    iterator begin() { return iterator(*this, m_front); }
+    iterator begin() { return iterator(*this, m_front, m_empty); }
 
-    iterator end() { return iterator(*this, m_back); }
+    iterator end() { return iterator(*this, m_back, true); }
 
     bool empty() const { return m_empty; }
 
@@ -283,7 +294,9 @@ public:
 
     bool push_back(const_reference value)
     {
-        *m_back++ = value;
+        if(size() == max_size()) return false;
+
+        new (&*m_back++) value_type(value);
         m_empty = false;
 
         evaluate_rollover((const_array_iterator*)&m_back);
@@ -302,11 +315,13 @@ public:
     ///
     bool push_front(const_reference value)
     {
+        if(size() == max_size()) return false;
+
         // NOTE: doesn't do a before-begin style, but for consistency probably should
         evaluate_rollunder((const_array_iterator*)&m_front);
         m_front--; // due to the non-before-begin approach. confusing
 
-        *m_front = value;
+        new (&*m_front) value_type(value);
 
         m_empty = false;
 
@@ -316,6 +331,8 @@ public:
 
     bool pop_back()
     {
+        if(empty()) return false;
+
         back().~value_type();
 
         decrement(&m_back);
@@ -327,6 +344,8 @@ public:
 
     bool pop_front()
     {
+        if(empty()) return false;
+
         front().~value_type();
 
         m_front++;
@@ -369,7 +388,7 @@ public:
     {
         array_iterator i = m_back;
 
-        decrement(&i);
+        decrement((const_array_iterator*)&i);
 
         return *i;
     }
@@ -379,11 +398,14 @@ public:
     template <class ...TArgs>
     reference emplace_front(TArgs&&...args)
     {
-        value_type& retval = *m_front;
+        array_iterator i = m_front;
+        decrement(&i);
+
+        value_type& retval = *i;
 
         new (&retval) value_type(std::forward<TArgs>(args)...);
 
-        decrement(&m_front);
+        m_front = i;
         m_empty = false;
 
         return retval;
@@ -406,6 +428,8 @@ public:
 #ifdef FEATURE_CPP_MOVESEMANTIC
     bool push_back(value_type&& value)
     {
+        if(size() == max_size()) return false;
+
         value_type& back = *m_back++;
 
         new (&back) value_type(std::move(value));
-- 
2.43.0


From cc69d5359eeb28aec918d9cf105a759b5952b344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:15 +0000
Subject: [PATCH 014/113] fix: swapping an integer with itself keeps its value

---
 src/estd/utility.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/utility.h b/src/estd/utility.h
index 18090e2..543dc43 100644
--- a/src/estd/utility.h
+++ b/src/estd/utility.h
@@ -195,6 +195,9 @@ namespace internal {
 template <class T>
 inline void xor_swap(T& a, T& b)
 {
+    // xor'ing an object with itself would zero it
+    if(&a == &b) return;
+
     a ^= b;
     b ^= a;
     a ^= b;
-- 
2.43.0


From 7d58879ff031963939e714d1bd9bd2f9d78f0842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:15 +0000
Subject: [PATCH 015/113] fix: make_heap accepts an empty range

---
 src/estd/internal/algorithm/heap.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/estd/internal/algorithm/heap.h b/src/estd/internal/algorithm/heap.h
index 790770a..6cd1048 100644
--- a/src/estd/internal/algorithm/heap.h
+++ b/src/estd/internal/algorithm/heap.h
@@ -162,6 +162,9 @@ struct heap
 
     void make()
     {
+        // nothing to order, and first_ may not be dereferenced
+        if(empty()) return;
+
         int last_nonleaf_idx = (size() - 1) / k;
         // FIX: this is not sufficient, because restore_up doesn't evaluate all children
         //while(!restore_up());
-- 
2.43.0


From 522167336ff5763944b94f867955dba49ad1c3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:10 +0000
Subject: [PATCH 016/113] fix: assigning a priority queue carries its
 comparator along

---
 src/estd/internal/priority_queue.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/internal/priority_queue.h b/src/estd/internal/priority_queue.h
index 74f9139..a122ed9 100644
--- a/src/estd/internal/priority_queue.h
+++ b/src/estd/internal/priority_queue.h
@@ -111,6 +111,7 @@ public:
 
     priority_queue& operator =(priority_queue&& move_from) noexcept
     {
+        compare_provider_type::operator=(move_from);
         c = std::move(move_from.c);
         return *this;
     }
@@ -118,6 +119,7 @@ public:
 
     priority_queue& operator =(const priority_queue& copy_from)
     {
+        compare_provider_type::operator=(copy_from);
         c = copy_from.c;
         return *this;
     }
-- 
2.43.0


From 581ac0740b76908874391439d0fb2e63cd86b8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 017/113] fix: array::back is the last element

---
 src/estd/internal/array.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/array.h b/src/estd/internal/array.h
index ac95c54..fe3967f 100644
--- a/src/estd/internal/array.h
+++ b/src/estd/internal/array.h
@@ -151,8 +151,8 @@ struct array : Impl
     reference front() { return *begin(); }
     constexpr const_reference front() const { return *begin(); }
 
-    reference back() { return *base_type::end(); }
-    constexpr const_reference back() const { return *base_type::end(); }
+    reference back() { return *(end() - 1); }
+    constexpr const_reference back() const { return *(end() - 1); }
 
     reference operator[](size_type pos) { return *base_type::get_at(pos); }
     constexpr const_reference operator[](size_type pos) const
-- 
2.43.0


From 956bd6d7d590c972a8a5f9e8f29840eeb1f295b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:14 +0000
Subject: [PATCH 018/113] fix: forward_list remove and remove_if handle
 adjacent matches

---
 src/estd/forward_list.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/estd/forward_list.h b/src/estd/forward_list.h
index 81ca246..45296b8 100644
--- a/src/estd/forward_list.h
+++ b/src/estd/forward_list.h
@@ -223,8 +223,10 @@ public:
 
                 if (first_only) return;
             }
+            else
+                // a removed node no longer precedes anything
+                previous = current;
 
-            previous = current;
             current = _next;
         }
     }
@@ -265,8 +267,10 @@ public:
 
                 if(first_only) return;
             }
+            else
+                // a removed node no longer precedes anything
+                previous = current;
 
-            previous = current;
             current = _next;
         }
 #endif
-- 
2.43.0


From dae7279fcaca81f54fe59ea665dbac06911580a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:33 +0000
Subject: [PATCH 019/113] fix: forward lists with back survive running empty
 and node reuse

---
 src/estd/internal/list_node.h | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/estd/internal/list_node.h b/src/estd/internal/list_node.h
index ff5d4ba..7dc9830 100644
--- a/src/estd/internal/list_node.h
+++ b/src/estd/internal/list_node.h
@@ -365,6 +365,9 @@ protected:
     // accross strata of list handlers
     void set_back(node_handle new_back)
     {
+        // a node which was in a list before may still be linked to something
+        base_type::set_next(new_back, base_type::after_end_node());
+
         // are we tracking anything?
         if(base_type::m_back != base_type::after_end_node())
         {
@@ -410,6 +413,15 @@ public:
         set_back(h);
     }
 
+    void pop_front()
+    {
+        base_type::pop_front();
+
+        // no back to track once the list is empty
+        if(base_type::empty())
+            base_type::m_back = base_type::after_end_node();
+    }
+
     void push_front(nv_reference value)
     {
         set_front(base_type::get_traits().allocate(value));
-- 
2.43.0


From eb7e345521a2409acd3065348271e6827a6e2c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:01 +0000
Subject: [PATCH 020/113] fix: moving the only linked_ref leaves its successor
 linked to itself

---
 src/estd/internal/linked_ref.h | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/linked_ref.h b/src/estd/internal/linked_ref.h
index c8a0e28..b992b16 100644
--- a/src/estd/internal/linked_ref.h
+++ b/src/estd/internal/linked_ref.h
@@ -89,11 +89,20 @@ public:
         // is superior here, but that's
         // 1. not implemented yet
         // 2. increases our footprint by ~33%
-        list_type l(&move_from);
-        const_iterator pos(l.before_begin().current_);
+        if(move_from.next_ == &move_from)
+        {
+            // the only one there, so now we're the only one there
+            next_ = this;
+        }
+        else
+        {
+            list_type l(&move_from);
+            const_iterator pos(l.before_begin().current_);
+
+            // Not quite ready yet
+            l.replace_after(pos, *this);
+        }
 
-        // Not quite ready yet
-        l.replace_after(pos, *this);
         move_from.next_ = nullptr;
     }
 
-- 
2.43.0


From de8d72fd740d035857369436d7996b505e43f9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:30 +0000
Subject: [PATCH 021/113] fix: unordered containers keep keys unique and
 reachable, stay in bounds, construct and destroy mapped values once

---
 src/estd/internal/container/unordered/base.h  | 77 +++++++++++--------
 .../internal/container/unordered/traits.h     | 22 ++++--
 src/estd/internal/container/unordered_map.h   | 47 ++++-------
 3 files changed, 77 insertions(+), 69 deletions(-)

diff --git a/src/estd/internal/container/unordered/base.h b/src/estd/internal/container/unordered/base.h
index 9be2a91..003bdbc 100644
--- a/src/estd/internal/container/unordered/base.h
+++ b/src/estd/internal/container/unordered/base.h
@@ -93,7 +93,7 @@ protected:
     template <class It, class It2>
     static ESTD_CPP_CONSTEXPR(14) It skip_empty(It it, It2 end)
     {
-        for(; traits::is_empty(*it) && it != end; ++it)   {}
+        for(; it != end && traits::is_empty(*it); ++it)   {}
 
         return it;
     }
@@ -107,7 +107,7 @@ protected:
     template <class Control>
     ESTD_CPP_CONSTEXPR(14) Control skip_sparse(Control p, unsigned n) const
     {
-        for(; traits::is_sparse(*p, n) && p != container_.cend(); ++p)    {}
+        for(; p != container_.cend() && traits::is_sparse(*p, n); ++p)    {}
 
         return p;
     }
@@ -215,16 +215,28 @@ protected:
 
         // linear probing
 
-        control_pointer it = &container_[n];
+        control_pointer it = container_.begin() + n;
+        // first vacated spot inside our own bucket
+        control_pointer vacant = nullptr;
 
-        // Move over occupied spots.  Sparse does NOT count as occupied
-        // DEBT: optimize is_null/is_sparse together
-        for(;traits::is_empty(*it) == false; ++it)
+        // Move over occupied spots, up to the end of our bucket.  Our own sparse spots are
+        // reusable, but the bucket continues past them - a duplicate may yet follow
+        for(; it != container_.cend(); ++it)
         {
-            // if we get to the complete end, that's a fail
-            // if we've moved to the next bucket, that's also a fail
-            if(it == container_.cend() || index(base_type::key(*it)) != n)
-                return { nullptr, false };
+            if(traits::is_sparse(*it, n))
+            {
+                if(vacant == nullptr)   vacant = it;
+            }
+            else if(traits::is_empty(*it))
+            {
+                // A sparse spot of another bucket isn't available, others of that bucket
+                // may follow and would no longer be found
+                if(vacant == nullptr && traits::is_null_not_sparse(*it)) vacant = it;
+                break;
+            }
+            // if we've moved to the next bucket, that's its end also
+            else if(index(base_type::key(*it)) != n)
+                break;
             else if(!permit_duplicates)
             {
                 if(key_eq_c(key, *it))
@@ -237,8 +249,10 @@ protected:
             // but iterating through a bucket you can get to all of them (and more, likely)
         }
 
-        // Success, but someone else still needs to initialize 'it'
-        return { it, true };
+        if(vacant == nullptr)   return { nullptr, false };
+
+        // Success, but someone else still needs to initialize it
+        return { vacant, true };
     }
 
 
@@ -389,16 +403,16 @@ protected:
 
             // skip over any sparse entries belonging to this bucket.  They are invisible
             // null entries for this iterator
-            for(; traits::is_sparse(*it_, n_) && it_ != parent_->container_.cend(); ++it_)   {}
+            for(; it_ != parent_->container_.cend() && traits::is_sparse(*it_, n_); ++it_)   {}
 
             return *this;
         }
 
         this_type operator++(int)
         {
+            this_type temp(*this);
             operator++();
-
-            return { n_, it_ - 1 };
+            return temp;
         }
 
         constexpr bool operator==(const LocalIt& other) const
@@ -448,25 +462,27 @@ protected:
     // deviates from std in that other iterators part of this bucket could be invalidated
     void erase_and_gc_ll(control_pointer pos)
     {
-        auto start = pos;
+        // Deduce our bucket# while the key is still there
+        const size_type n = index(traits::key(*pos));
+        control_pointer last = pos;
 
         destruct(pos);
 
-        ++pos;
+        // Find last active one in bucket
+        for(control_pointer it = pos + 1; it != container_.cend(); ++it)
+        {
+            if(traits::is_sparse(*it, n)) continue;
+            if(traits::is_empty(*it) || index(traits::key(*it)) != n) break;
 
-        // No housekeeping if next guy is null (sparse is OK, but
-        // not yet accounted for here)
-        if (base_type::is_empty(*pos))
-            return;
+            last = it;
+        }
 
-        // Quick-deduce our bucket#
-        size_type n = start - container_.cbegin();
-        // Find last one in bucket
-        for(;n == index(traits::key(*pos)) && pos < container_.cend(); ++pos) {}
-        // Decrement to position on actual last one in bucket
-        --pos;
+        // Have it fill the gap, so that the bucket stays contiguous
+        if(last != pos) traits::relocate(*last, *pos);
 
-        traits::swap(*pos, *start);
+        // Nothing left to skip over past the end of the bucket
+        for(++last; last != container_.cend() && traits::is_sparse(*last, n); ++last)
+            base_type::set_null(last);
     }
 
 public:
@@ -576,9 +592,10 @@ ESTD_CPP_CONSTEXPR(14) bool operator==(const unordered_base<Container, Traits>&
     // DEBT: Not optimal, since we have to iterate inside size() to make this determination
     if(lhs.size() != rhs.size())    return false;
 
-    for(it l = lhs.begin(), r = rhs.begin(); l != lhs.cend(); ++l, ++r)
+    // Order within a bucket depends on the history, so compare by presence
+    for(it l = lhs.begin(); l != lhs.cend(); ++l)
     {
-        if(traits::key(*l) != traits::key(*r)) return false;
+        if(!rhs.contains(traits::key(*l))) return false;
     }
 
     return true;
diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index 7603817..f02a044 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -89,7 +89,7 @@ struct unordered_map_traits_control
             // aka "sparse" - exists specifically to mark as deleted, but physically unmoved
             uint16_t marked_for_gc : 1;
             // which bucket this empty slot *used to* belong to
-            uint16_t bucket : 6;
+            uint16_t bucket : 15;
         };
 
         uint16_t raw;
@@ -104,11 +104,15 @@ struct unordered_map_traits_control
     using control_type = pair<key_type, meta>;
 
     // DEBT: Couldn't dial in specialization, so doing this as a method
-    static ESTD_CPP_CONSTEXPR(14) void swap(control_type& lhs, control_type& rhs)
+    /// Moves active 'from' into empty 'to', 'from' becoming as empty as 'to' was
+    static ESTD_CPP_CONSTEXPR(14) void relocate(control_type& from, control_type& to)
     {
-        estd::swap(lhs.first, rhs.first);
-        // DEBT: We'll be swapping destructed ones too.  Perhaps that would be better suited as a std::move?
-        estd::swap(lhs.second.mapped(), rhs.second.mapped());
+        const uint16_t raw = to.second.raw;
+
+        estd::swap(from.first, to.first);
+        new (&to.second) mapped_type(std::move(from.second.mapped()));
+        from.second.mapped().~mapped_type();
+        from.second.raw = raw;
     }
 };
 
@@ -176,11 +180,12 @@ struct unordered_map_traits :
         return v.second.mapped();
     }
 
-    /// Nulls out key
+    /// Nulls out key, and not sparse either
     /// @remark Does not run destructor
     static ESTD_CPP_CONSTEXPR(14) void set_null(control_type* v)
     {
         nullable{}.set(&v->first);
+        v->second.raw = 0;
     }
 
 private:
@@ -231,6 +236,7 @@ struct unordered_set_traits : unordered_traits<Key, Key, Hash, KeyEqual ESTD_UNO
         return nullable{}.is_null(v);
     }
 
+    static constexpr bool is_null_not_sparse(const value_type& v) { return is_empty(v); }
     static constexpr bool is_sparse(const value_type&) { return false; }
     static constexpr bool is_sparse(const value_type&, unsigned) { return false; }
 
@@ -239,9 +245,9 @@ struct unordered_set_traits : unordered_traits<Key, Key, Hash, KeyEqual ESTD_UNO
     static constexpr const mapped_type& mapped(const control_type& v) { return v; }
 
     // DEBT: I tried to specialize this guy but failed, so we have this shim here instead
-    static ESTD_CPP_CONSTEXPR(14) void swap(control_type& lhs, control_type& rhs)
+    static ESTD_CPP_CONSTEXPR(14) void relocate(control_type& from, control_type& to)
     {
-        estd::swap(lhs, rhs);
+        estd::swap(from, to);
     }
 };
 
diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index a9bda66..93fd4f2 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -25,6 +25,7 @@ class unordered_map : public unordered_base<Container, Traits>
     using base_type::skip_empty;
     using base_type::cast;
     using base_type::insert_precheck;
+    using base_type::destruct;
     using traits = Traits;
 
     template <class Pointer>
@@ -50,7 +51,6 @@ public:
     using base_type::end;
     using base_type::key_eq;
     using base_type::set_null;
-    using base_type::destruct;
     using typename base_type::key_type;
     using typename base_type::mapped_type;
     using typename base_type::nullable;
@@ -84,12 +84,6 @@ public:
     using typename base_type::const_local_iterator;
 
 private:
-    static void destruct(control_pointer v)
-    {
-        base_type::destruct_ll(v->first);
-        base_type::destruct(v);
-    }
-
     // For insert/emplace operations specifically
     constexpr pair<iterator, bool> wrap_result(insert_result r) const
     {
@@ -128,8 +122,7 @@ private:
                     if(control->second.bucket != n) return pos;
                 }
 
-                //it->swap(*pos);
-                traits::swap(*it, *pos);
+                traits::relocate(*pos, *it);
                 return it;
             }
         }
@@ -149,9 +142,7 @@ public:
     ///
     void prune_sparse_ll(control_pointer start, control_pointer pos, size_type n)
     {
-        --start;
-
-        for(; is_sparse(*pos, n) && pos != start; --pos)
+        for(; pos >= start && is_sparse(*pos, n); --pos)
             gc_sparse_ll(pos);
     }
 
@@ -164,7 +155,7 @@ public:
 
         // get to end of identified bucket, skipping past sparse and active bucket items
         // DEBT: Be careful of index(0)
-        for(;(is_sparse(*pos, n) || index(pos->first) == n) && pos != container_.cend(); ++pos)
+        for(;pos != container_.cend() && (is_sparse(*pos, n) || (!is_empty(*pos) && index(pos->first) == n)); ++pos)
         {
         }
 
@@ -181,7 +172,11 @@ public:
 
     ESTD_CPP_CONSTEXPR(14) void clear()
     {
-        for(control_type& v : container_)   destruct(&v);
+        for(control_type& v : container_)
+        {
+            if(is_empty(v)) set_null(&v);   // sparse ones end here also
+            else            destruct(&v);
+        }
     }
 
     mapped_type& operator[](const key_type& key)
@@ -229,20 +224,10 @@ public:
     {
         const insert_result ret = insert_precheck(key, false);
 
-        // pair requires two parameters to construct, PLUS it's a const key.
-        // fortunately, since we presume it's a trivial-ish type (no dtor)
-        // we can brute force the key assignment
         if(ret.second)
-        {
-            // NOTE: Deviation from spec in that spec implies ->second gets value initialized,
-            // where we do not do that.  Not 100% sure if that's what spec calls for though
-            ESTD_CPP_IF_CONSTEXPR(sizeof...(Args) == 0)
-                ret.first->first = key;
-            else
-                new (ret.first) value_type(piecewise_construct_t{},
-                    estd::forward_as_tuple(key),
-                    estd::forward_as_tuple(std::forward<Args>(args)...));
-        }
+            new (ret.first) value_type(piecewise_construct_t{},
+                estd::forward_as_tuple(key),
+                estd::forward_as_tuple(std::forward<Args>(args)...));
 
         return wrap_result(ret);
     }
@@ -281,9 +266,8 @@ public:
         if(found.second != npos())
         {
             control_pointer cp = found.first;
-            mapped_type& p = cp->second.mapped();
-            new (&p) mapped_type(std::forward<M>(obj));
-            return { { this, cast(cp) }, true };
+            cp->second.mapped() = std::forward<M>(obj);
+            return { { this, cast(cp) }, false };
         }
         else
         {
@@ -347,7 +331,8 @@ public:
         // - if next entry is an active item in a different bucket
         // - if next entry is a null entry
         // then we are clear to null out trailing sparse entries
-        if(auto_prune && (next == container_.cend() || is_null_not_sparse(*next)))
+        if(auto_prune && (next == container_.cend() ||
+            (is_empty(*next) ? !is_sparse(*next, n) : index(traits::key(*next)) != n)))
         {
             gc_sparse_ll(control);      // nullify this entry
             control_pointer start = container_.begin() + n;
-- 
2.43.0


From f9432451f5078cee48ccfbd9a5a4811eb72d0b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:28 +0000
Subject: [PATCH 022/113] fix: span subspan without a count ends where the span
 does

---
 src/estd/span.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/span.h b/src/estd/span.h
index 83fe184..697de4f 100644
--- a/src/estd/span.h
+++ b/src/estd/span.h
@@ -200,7 +200,7 @@ public:
 
     span<element_type> subspan(size_type offset, size_type count = detail::dynamic_extent())
     {
-        if(count == detail::dynamic_extent::value) count = base_type::size();
+        if(count == detail::dynamic_extent::value) count = base_type::size() - offset;
 
         pointer data = base_type::data();
 
-- 
2.43.0


From f7fd795b723c778adaa369acf9aa89454f7309b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:07 +0000
Subject: [PATCH 023/113] fix: span first with a fixed count compiles

---
 src/estd/span.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/estd/span.h b/src/estd/span.h
index 697de4f..ca55525 100644
--- a/src/estd/span.h
+++ b/src/estd/span.h
@@ -24,6 +24,9 @@ inline CONSTEXPR ptrdiff_t dynamic_extent = detail::dynamic_extent::value;
 
 namespace internal {
 
+template <class T, estd::size_t N>
+struct span;
+
 template <class T>
 struct span_base
 {
@@ -41,14 +44,14 @@ protected:
 
 public:
     template <estd::size_t count>
-    constexpr span<T, count> first() const
+    constexpr estd::span<T, count> first() const
     {
-        return data_;
+        return internal::span<T, count>(data_);
     }
 
-    constexpr span<T> first(size_type count) const
+    constexpr estd::span<T> first(size_type count) const
     {
-        return span<T>(data_, count);
+        return estd::span<T>(data_, count);
     }
 
     constexpr pointer data() const { return data_; }
-- 
2.43.0


From 8035a678713059d62a29e0deead092e6e0fcbe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:45 +0000
Subject: [PATCH 024/113] fix: monostate values are never unequal

---
 src/estd/internal/raw/variant.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/raw/variant.h b/src/estd/internal/raw/variant.h
index cd56269..51706af 100644
--- a/src/estd/internal/raw/variant.h
+++ b/src/estd/internal/raw/variant.h
@@ -8,7 +8,7 @@ namespace estd {
 struct monostate {};
 
 constexpr bool operator==(monostate, monostate) NOEXCEPT { return true; }
-constexpr bool operator!=(monostate, monostate) NOEXCEPT { return true; }
+constexpr bool operator!=(monostate, monostate) NOEXCEPT { return false; }
 
 template <>
 struct hash<monostate>
-- 
2.43.0


From 214719b3f09d705ea2ce6e296ce4a1511a2031b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:45 +0000
Subject: [PATCH 025/113] fix: variant storage is aligned for its alternatives

---
 src/estd/internal/variant/storage.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/variant/storage.h b/src/estd/internal/variant/storage.h
index 1fea032..5d60681 100644
--- a/src/estd/internal/variant/storage.h
+++ b/src/estd/internal/variant/storage.h
@@ -39,7 +39,7 @@ inline static monostate construct_at(void* placement, TArgs&&...args)
 template <class ...T>
 union variant_union<false, T...>
 {
-    estd::byte raw[sizeof(typename largest_type<T...>::type)];
+    alignas(T...) estd::byte raw[sizeof(typename largest_type<T...>::type)];
 };
 
 template <>
-- 
2.43.0


From c709fc11030dbfead42290d1a25ddb701a5bf679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:45 +0000
Subject: [PATCH 026/113] fix: optional compares unequal with another optional

---
 src/estd/optional.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/estd/optional.h b/src/estd/optional.h
index 6a54c65..7d7252d 100644
--- a/src/estd/optional.h
+++ b/src/estd/optional.h
@@ -421,6 +421,19 @@ ESTD_CPP_CONSTEXPR_RET bool operator!=(const optional<T, TBase>& opt, const U& v
 }
 
 
+template <class T, class U, class TBase>
+ESTD_CPP_CONSTEXPR_RET bool operator!=(const U& value, const optional<T, TBase>& opt)
+{
+    return opt.has_value() ? value != *opt : true;
+}
+
+template <class T, class T2, class TBase, class TBase2>
+ESTD_CPP_CONSTEXPR_RET bool operator!=(const optional<T, TBase>& lhs, const optional<T2, TBase2>& rhs)
+{
+    return !(lhs == rhs);
+}
+
+
 template <class T, class U, class TBase>
 ESTD_CPP_CONSTEXPR_RET bool operator>(const optional<T, TBase>& opt, const U& value)
 {
-- 
2.43.0


From 88516bcbd9632be0da5280c48c16f1d8f3396cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:03 +0000
Subject: [PATCH 027/113] fix: optional keeps track of its value when
 constructing it throws

---
 src/estd/optional.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/estd/optional.h b/src/estd/optional.h
index 7d7252d..7fe6c2b 100644
--- a/src/estd/optional.h
+++ b/src/estd/optional.h
@@ -47,6 +47,10 @@ class optional :
     template <class U>
     void assign_value(U&& u)
     {
+        // If T can't be assigned to it gets rebuilt instead, so what is held
+        // goes first - should the constructor throw, nothing is held anymore
+        if(!is_assignable<T&, U>::value) base_type::reset();
+
         base_type::assign_value(
             base_type::has_value(),
             std::forward<U>(u));
@@ -177,6 +181,8 @@ public:
 
     optional& operator=(const optional& assign_from)
     {
+        if(this == &assign_from) return *this;
+
         if(assign_from.has_value())
             assign_value(assign_from.value());
         else
@@ -231,7 +237,8 @@ public:
     template<class... TArgs>
     T& emplace(TArgs&&... args)
     {
-        base_type::destroy();
+        // Not merely destroy(), in case constructor throws
+        base_type::reset();
 
         T& v = base_type::emplace(std::forward<TArgs>(args)...);
 
-- 
2.43.0


From 41f3775730aeef2254f48d32eea3e932b6e14778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:17 +0000
Subject: [PATCH 028/113] fix: empty optionals hash alike

---
 src/estd/optional.h | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/estd/optional.h b/src/estd/optional.h
index 7fe6c2b..0b22ef6 100644
--- a/src/estd/optional.h
+++ b/src/estd/optional.h
@@ -473,6 +473,19 @@ struct hash<optional<T, Base>>
     {
         using underlying = hash<estd::remove_const_t<T>>;
 
+        return v.has_value() ? underlying{}(*v) : 0;
+    }
+};
+
+// This flavor always holds a well defined value, null_value when empty
+template <class T, T null_value>
+struct hash<optional<T, internal::layer1::optional_base<T, 0, null_value> > >
+{
+    constexpr size_t operator()(
+        const optional<T, internal::layer1::optional_base<T, 0, null_value> >& v) const
+    {
+        using underlying = hash<estd::remove_const_t<T>>;
+
         return underlying{}(*v);
     }
 };
-- 
2.43.0


From e794d625f93be6deaee7549b5a4341229452eb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:08 +0000
Subject: [PATCH 029/113] fix: get on a variant rvalue compiles and moves

---
 src/estd/variant.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/variant.h b/src/estd/variant.h
index fe6ffda..544eb98 100644
--- a/src/estd/variant.h
+++ b/src/estd/variant.h
@@ -59,7 +59,7 @@ internal::type_at_index<index, Types...>&& get(variant<Types...>&& v)
 {
     internal::assert_index_matches<index>(v);
 
-    return * internal::get_ll<index>(v);
+    return std::move(* internal::get_ll<index>(v));
 }
 
 
@@ -78,7 +78,7 @@ constexpr const T& get(const variant<Types...>& v)
 template <class T, class ...Types>
 T&& get(variant<Types...>&& v)
 {
-    return get<internal::select_type<T, Types...>::first::index>(v);
+    return get<internal::select_type<T, Types...>::first::index>(std::move(v));
 }
 
 
-- 
2.43.0


From ffd91bd44b0907a5ecbaca40e74fbcfa0a91f6bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:47 +0000
Subject: [PATCH 030/113] fix: bad_variant_access can be caught as a
 std::exception

---
 src/estd/internal/variant/core.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/variant/core.h b/src/estd/internal/variant/core.h
index 38e8005..6b0d99e 100644
--- a/src/estd/internal/variant/core.h
+++ b/src/estd/internal/variant/core.h
@@ -16,7 +16,7 @@
 namespace estd {
 
 #if __cpp_exceptions
-class bad_variant_access : std::exception
+class bad_variant_access : public std::exception
 {
 public:
 };
-- 
2.43.0


From 7d59d931b85522ed5c5966faa3b17f981e0c0833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:47 +0000
Subject: [PATCH 031/113] fix: variant index stays in step with what it holds

---
 src/estd/internal/variant.h         | 37 ++++++++++++++++++-----------
 src/estd/internal/variant/storage.h | 12 ++++++++--
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/estd/internal/variant.h b/src/estd/internal/variant.h
index 6e98476..19c53b1 100644
--- a/src/estd/internal/variant.h
+++ b/src/estd/internal/variant.h
@@ -93,8 +93,7 @@ class variant : protected variant_storage<Types...>
             enable_if_t<is_copy_assignable<remove_const_t<T_i>>::value, bool> = true>
         bool operator()(variadic::visitor_instance<I, T_i> vi, variant& v, const variant& assign_from)
         {
-            size_type index = v.index();
-            v.template assign_or_init<I>(&index, vi.value);
+            v.template assign_or_init<I>(&v.index_, vi.value);
             return true;
         }
 
@@ -103,8 +102,7 @@ class variant : protected variant_storage<Types...>
             enable_if_t<is_move_assignable<remove_const_t<T_i>>::value, bool> = true>
         bool operator()(variadic::visitor_instance<I, T_i> vi, variant& v, variant&& assign_from)
         {
-            size_type index = v.index();
-            v.template assign_or_init<I>(&index, std::move(vi.value));
+            v.template assign_or_init<I>(&v.index_, std::move(vi.value));
             return true;
         }
 
@@ -117,6 +115,9 @@ class variant : protected variant_storage<Types...>
             // breaks our burgeoning paradigm, so holding off
             v.destroy_if_valid();
 
+            // In case constructor throws
+            v.index_ = variant_npos();
+
             v.template copy<I>(copy_from);
 
             return true;
@@ -130,6 +131,9 @@ class variant : protected variant_storage<Types...>
         {
             v.destroy_if_valid();
 
+            // In case constructor throws
+            v.index_ = variant_npos();
+
             v.template move<I>(std::move(move_from));
 
 #if FEATURE_ESTD_VARIANT_EAGER_DESTRUCT
@@ -310,6 +314,8 @@ public:
     // DEBT: Needs more work, but coming along
     variant& operator=(const variant& rhs)
     {
+        if(this == &rhs) return *this;
+
         if(rhs.valueless_by_exception())
         {
             destroy_if_valid();
@@ -329,6 +335,8 @@ public:
 
     variant& operator=(variant&& rhs)
     {
+        if(this == &rhs) return *this;
+
         if(rhs.valueless_by_exception())
         {
             destroy_if_valid();
@@ -348,25 +356,26 @@ public:
         enable_if_t<is_constructible<T, TArgs...>::value, bool> = true>
     T& emplace(TArgs&&...args)
     {
+        return emplace<select_type<T>::index>(std::forward<TArgs>(args)...);
+    }
+
+    template <unsigned I, class... TArgs>
+    variant_alternative_t<I>& emplace(TArgs&&...args)
+    {
+        typedef variant_alternative_t<I> T_i;
+
         destroy_if_valid();
 
         // Unset index just in case exception is thrown during construction
         index_ = variant_npos();
 
-        T* const v = base_type::template emplace<T>(std::forward<TArgs>(args)...);
+        T_i* const v = base_type::template emplace<T_i>(std::forward<TArgs>(args)...);
 
-        index_ = select_type<T>::index;
+        // By position, as T_i may be present more than once
+        index_ = I;
 
         return *v;
     }
-
-    template <unsigned I, class... TArgs>
-    variant_alternative_t<I>& emplace(TArgs&&...args)
-    {
-        typedef variant_alternative_t<I> T_i;
-
-        return emplace<T_i>(std::forward<TArgs>(args)...);
-    }
 };
 
 }
diff --git a/src/estd/internal/variant/storage.h b/src/estd/internal/variant/storage.h
index 5d60681..f75ab82 100644
--- a/src/estd/internal/variant/storage.h
+++ b/src/estd/internal/variant/storage.h
@@ -507,13 +507,21 @@ public:
         // Are we tracking the exact type being assigned?
         if(*index == I)
         {
+            // Without an assignment we destroy and reinitialize, which may throw.
+            // Indicate nothing is tracked in the meantime
+            if(!is_assignable<T_j&, U>::value) *index = variant_npos();
+
             assignment_helper<I, T_j>(std::forward<U>(u));
+            *index = I;
         }
         else
         {
             // ... if not, destroy what we're tracking (if any) and
-            // do a direct initialization
-            destroy(*index);
+            // do a direct initialization.  Indicate nothing is tracked in the
+            // meantime, in case that throws
+            const size_type previous = *index;
+            *index = variant_npos();
+            destroy(previous);
             direct_init_helper<I, T_j>(std::forward<U>(u));
             *index = I;
         }
-- 
2.43.0


From 08f86b98e712645b19492d5c08a27fffa322bbe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:53 +0000
Subject: [PATCH 032/113] fix: expected and unexpected accessors and copies
 compile

---
 src/estd/expected.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/estd/expected.h b/src/estd/expected.h
index b0b7fb6..ed66280 100644
--- a/src/estd/expected.h
+++ b/src/estd/expected.h
@@ -40,7 +40,7 @@ public:
     // DEBT: needs more filters to be not same as unexpected, in_place_t, etc
     template <class Err = E, class =
         enable_if_t<
-            is_same<remove_cvref<Err>, unexpected>::value == false>
+            is_same<remove_cvref_t<Err>, unexpected>::value == false>
         >
     constexpr explicit unexpected(Err&& e) : base_type(std::forward<Err>(e)) {}
 
@@ -71,7 +71,7 @@ class expected : public internal::expected<T, E>
             base_type::destroy_error();
     }
 
-    void assert_has_value()
+    void assert_has_value() const
     {
         if(!has_value_)
 #if __cpp_exceptions
@@ -256,12 +256,12 @@ public:
 #if __cpp_rvalue_references
     nonvoid_value_type&& operator*() &&
     {
-        return base_type::value();
+        return std::move(base_type::value());
     }
 
     const nonvoid_value_type&& operator*() const&&
     {
-        return base_type::value();
+        return std::move(base_type::value());
     }
 #endif
 
-- 
2.43.0


From 66178bf852b22bde82de68e6f0bee0e3264fa805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:19:42 +0000
Subject: [PATCH 033/113] fix: expected moves when moved, and keeps what it
 holds when an assignment throws

---
 src/estd/expected.h          |   5 +-
 src/estd/internal/expected.h | 110 +++++++++++++++++++++++++++++++++--
 2 files changed, 108 insertions(+), 7 deletions(-)

diff --git a/src/estd/expected.h b/src/estd/expected.h
index ed66280..19acb8b 100644
--- a/src/estd/expected.h
+++ b/src/estd/expected.h
@@ -220,8 +220,7 @@ public:
     template <class ...TArgs>
     nonvoid_value_type& emplace(TArgs&&...args)
     {
-        destroy();
-        new (&base_type::value()) T(std::forward<TArgs>(args)...);
+        base_type::emplace_value(has_value_, std::forward<TArgs>(args)...);
         has_value_ = true;
         return base_type::value();
     }
@@ -279,7 +278,7 @@ public:
     template <class U>
     ESTD_CPP_CONSTEXPR_RET T value_or(U&& default_value) const&
     {
-        return has_value_ ? base_type::value() : default_value;
+        return has_value_ ? base_type::value() : std::forward<U>(default_value);
     }
 #endif
 };
diff --git a/src/estd/internal/expected.h b/src/estd/internal/expected.h
index 66055cd..8915303 100644
--- a/src/estd/internal/expected.h
+++ b/src/estd/internal/expected.h
@@ -120,6 +120,16 @@ protected:
     {
     }
 
+#if __cpp_rvalue_references
+    expected(expected&& move_from, bool has_value)
+    {
+        if(has_value)
+            storage.template move<VALUE>(std::move(move_from.storage));
+        else
+            storage.template move<ERROR>(std::move(move_from.storage));
+    }
+#endif
+
     ESTD_CPP_CONSTEXPR_RET expected() :
         storage(in_place_index_t<0>()) {}
 
@@ -164,12 +174,104 @@ protected:
         storage.template destroy<ERROR>();
     }
 
-#if __cpp_rvalue_references
+#if __cpp_rvalue_references && __cpp_variadic_templates
+    // Destroys what is held at index 'from' and constructs at index 'to'
+    template <int to, int from, class... TArgs>
+    void reinit_direct(TArgs&&...args)
+    {
+        storage.template destroy<from>();
+        storage.template emplace<to>(std::forward<TArgs>(args)...);
+    }
+
+#if __cpp_exceptions
+    // Same, but puts back what was held at index 'from' should constructor throw,
+    // since (unlike variant) we have no valueless state
+    template <int to, int from, class... TArgs>
+    void reinit_guarded(true_type, TArgs&&...args)
+    {
+        typedef internal::type_at_index<from, nonvoid_value_type, E> from_type;
+
+        from_type held(std::move(get<from>(storage)));
+
+        try
+        {
+            reinit_direct<to, from>(std::forward<TArgs>(args)...);
+        }
+        catch(...)
+        {
+            storage.template emplace<from>(std::move(held));
+            throw;
+        }
+    }
+#else
+    template <int to, int from, class... TArgs>
+    void reinit_guarded(true_type, TArgs&&...args)
+    {
+        reinit_direct<to, from>(std::forward<TArgs>(args)...);
+    }
+#endif
+
+    template <int to, int from, class... TArgs>
+    void reinit_guarded(false_type, TArgs&&...args)
+    {
+        reinit_direct<to, from>(std::forward<TArgs>(args)...);
+    }
+
+    template <int to, int from, class... TArgs>
+    void reinit(TArgs&&...args)
+    {
+        typedef internal::type_at_index<to, nonvoid_value_type, E> to_type;
+        typedef internal::type_at_index<from, nonvoid_value_type, E> from_type;
+
+        reinit_guarded<to, from>(bool_constant<
+            !is_nothrow_constructible<to_type, TArgs...>::value &&
+            is_move_constructible<from_type>::value>{},
+            std::forward<TArgs>(args)...);
+    }
+
+    // 'held' is already present, so assign over it - or, if it can't be assigned to, rebuild it
+    template <int held, class U>
+    void assign(true_type, U&& u)
+    {
+        get<held>(storage) = std::forward<U>(u);
+    }
+
+    template <int held, class U>
+    void assign(false_type, U&& u)
+    {
+        reinit<held, held>(std::forward<U>(u));
+    }
+
+    template <int to, int other, class U>
+    void assign_or_reinit(bool present, U&& u)
+    {
+        typedef internal::type_at_index<to, nonvoid_value_type, E> to_type;
+
+        if(present)
+            assign<to>(bool_constant<is_assignable<to_type&, U>::value>{}, std::forward<U>(u));
+        else
+            reinit<to, other>(std::forward<U>(u));
+    }
+
     template <class U>
     void assign_value(bool has_value, U&& v)
     {
-        storage.template assign_or_init<0, 1>(has_value,
-            std::forward<U>(v));
+        assign_or_reinit<VALUE, ERROR>(has_value, std::forward<U>(v));
+    }
+
+    template <class... TArgs>
+    void emplace_value(bool has_value, TArgs&&...args)
+    {
+        if(has_value)
+            reinit<VALUE, VALUE>(std::forward<TArgs>(args)...);
+        else
+            reinit<VALUE, ERROR>(std::forward<TArgs>(args)...);
+    }
+
+    template <class G>
+    void assign_error(bool has_error, const G& v)
+    {
+        assign_or_reinit<ERROR, VALUE>(has_error, v);
     }
 #else
     template <class U>
@@ -177,13 +279,13 @@ protected:
     {
         storage.template assign_or_init<0, 1>(has_value, v);
     }
-#endif
 
     template <class G>
     void assign_error(bool has_error, const G& v)
     {
         storage.template assign_or_init<1, 0>(has_error, v);
     }
+#endif
 
 public:
     nonvoid_value_type& value() { return get<VALUE>(storage); }
-- 
2.43.0


From 7d93ad4fadb43a104be4dc8035d83e155d86d3b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:18 +0000
Subject: [PATCH 034/113] fix: bipbuf peek and poll refuse more than what can
 be read

---
 src/estd/ext/willemt/bipbuffer/bipbuffer.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/ext/willemt/bipbuffer/bipbuffer.c b/src/estd/ext/willemt/bipbuffer/bipbuffer.c
index fdcc2eb..6b2a543 100644
--- a/src/estd/ext/willemt/bipbuffer/bipbuffer.c
+++ b/src/estd/ext/willemt/bipbuffer/bipbuffer.c
@@ -97,7 +97,7 @@ int bipbuf_offer(bipbuf_t* me, const unsigned char *data, const int size)
 unsigned char *bipbuf_peek(const bipbuf_t* me, const unsigned int size)
 {
     /* make sure we can actually peek at this data */
-    if (me->size < me->a_start + size)
+    if (me->a_end - me->a_start < size)
         return NULL;
 
     if (bipbuf_is_empty(me))
@@ -112,7 +112,7 @@ unsigned char *bipbuf_poll(bipbuf_t* me, const unsigned int size)
         return NULL;
 
     /* make sure we can actually poll this data */
-    if (me->size < me->a_start + size)
+    if (me->a_end - me->a_start < size)
         return NULL;
 
     void *end = me->data + me->a_start;
-- 
2.43.0


From 1cfe2a340416babad84a1039b1e79f9f0fb417fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:43 +0000
Subject: [PATCH 035/113] fix: streambufs neither drop, duplicate nor overrun
 what passes through them

---
 src/estd/internal/impl/streambuf/bipbuf.h | 69 +++++++++++++++--------
 src/estd/internal/impl/streambuf/buffer.h | 27 ++++++---
 src/estd/internal/impl/streambuf/pos.h    |  3 +-
 src/estd/internal/impl/streambuf/span.h   | 29 +++++++---
 src/estd/internal/impl/streambuf/string.h | 41 +++++++++-----
 src/estd/streambuf.h                      |  2 +-
 6 files changed, 117 insertions(+), 54 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/bipbuf.h b/src/estd/internal/impl/streambuf/bipbuf.h
index 3187c62..04de729 100644
--- a/src/estd/internal/impl/streambuf/bipbuf.h
+++ b/src/estd/internal/impl/streambuf/bipbuf.h
@@ -16,6 +16,12 @@ using adapt_bipbuf = estd::conditional_t<(len > 0),
         estd::layer3::bipbuf>;
 
 
+// number of bytes which can be read in one piece
+inline unsigned contiguous(const bipbuf_t& b)
+{
+    return b.a_end - b.a_start;
+}
+
 // 21MAY24 TODO: Consider representing this as our own 'syncbuf' as per
 // https://en.cppreference.com/w/cpp/io/basic_syncbuf.  I just discovered
 // this class today
@@ -47,17 +53,23 @@ protected:
 
     void pbump(int count)
     {
-        buf_.offer_end(count);
+        buf_.offer_end(count * sizeof(char_type));
     }
 
     int sync()
     {
         // DEBT: A lot of tuning opportunity here
-        const unsigned sz = buf_.used();
-        auto b = (char_type*)buf_.peek(sz);
-        unsigned written = base_type::rdbuf().sputn(b, sz);
-        if(written == 0) return -1;
-        buf_.poll(written);
+        // what is buffered may be in two pieces
+        while(buf_.used() != 0)
+        {
+            const unsigned sz = contiguous(*buf_.native()) / sizeof(char_type);
+            const auto b = (const char_type*)buf_.peek();
+            const streamsize written = base_type::rdbuf().sputn(b, sz);
+
+            if(written > 0) buf_.poll(written * sizeof(char_type));
+            if(written != (streamsize)sz) return -1;
+        }
+
         return 0;
     }
 
@@ -68,7 +80,7 @@ public:
 
     int_type sputc(char_type ch)
     {
-        return overflow(ch);
+        return overflow(traits_type::to_int_type(ch));
     }
 
 protected:
@@ -97,8 +109,12 @@ protected:
     int_type overflow(int_type ch)
     {
         if(xout_avail() == 0)
+        {
             sync();
 
+            if(xout_avail() == 0) return traits_type::eof();
+        }
+
         *pptr() = traits_type::to_char_type(ch);
         pbump(1);
 
@@ -142,7 +158,8 @@ public:
     using nonconst_char_type = remove_const_t<char_type>;
 
 private:
-    adapt_bipbuf<sizeof(char_type) * len> buf_;
+    // mutable for native(), which egptr() needs
+    mutable adapt_bipbuf<sizeof(char_type) * len> buf_;
 
 protected:
     // 21MAY24 DEBT: It's unclear what constitutes a failure here (-1).
@@ -151,7 +168,7 @@ protected:
     // If so, these -1's in our implementation are overstated
     int sync()
     {
-        const unsigned unused = buf_.unused();
+        const unsigned unused = buf_.unused() / sizeof(char_type);
 
         if(unused == 0)    return -1;
 
@@ -159,16 +176,16 @@ protected:
 
         const streamsize actually_read = base_type::rdbuf().sgetn(buffer, unused);
 
-        if(actually_read == 0)  return -1;
+        if(actually_read <= 0)  return -1;
 
-        buf_.offer_end(actually_read);
+        buf_.offer_end(actually_read * sizeof(char_type));
 
         return 0;
     }
 
     constexpr streamsize xin_avail() const
     {
-        return buf_.used();
+        return buf_.used() / sizeof(char_type);
     }
 
     // DEBT: This needs to interrogate wrapped Streambuf
@@ -179,12 +196,22 @@ protected:
 
     streamsize xsgetn(nonconst_char_type* s, streamsize count)
     {
-        if(count > xin_avail())
-            count = xin_avail();
+        streamsize copied = 0;
 
-        copy_n(buf_.peek(), count, s);
+        // what is buffered may be in two pieces
+        while(copied < count)
+        {
+            if(xin_avail() == 0 && sync() == -1) break;
 
-        return count;
+            const streamsize avail = egptr() - gptr();
+            const streamsize n = avail < count - copied ? avail : count - copied;
+
+            estd::copy_n(gptr(), n, s + copied);
+            gbump(n);
+            copied += n;
+        }
+
+        return copied;
     }
 
     ESTD_CPP_FORWARDING_CTOR(in_buffered_bipbuf)
@@ -193,12 +220,10 @@ protected:
     {
         if(xin_avail() == 0)
         {
-            // DEBT: Return proper eof
-            if(sync() == -1)    return -1;
+            if(sync() == -1)    return traits_type::eof();
         }
 
-        // DEBT: Wrap with traits
-        return xsgetc();
+        return traits_type::to_int_type(xsgetc());
     }
 
     int_type uflow()
@@ -216,7 +241,7 @@ protected:
 
     void gbump(int count)
     {
-        buf_.poll(count);
+        buf_.poll(count * sizeof(char_type));
     }
 
     char_type xsgetc() const { return *gptr(); }
@@ -230,7 +255,7 @@ public:
 
     const char_type* egptr() const
     {
-        return gptr() + buf_.used();
+        return gptr() + contiguous(*buf_.native()) / sizeof(char_type);
     }
 };
 
diff --git a/src/estd/internal/impl/streambuf/buffer.h b/src/estd/internal/impl/streambuf/buffer.h
index d88b72e..e76f848 100644
--- a/src/estd/internal/impl/streambuf/buffer.h
+++ b/src/estd/internal/impl/streambuf/buffer.h
@@ -44,10 +44,18 @@ class out_buffered_stringbuf : public wrapped_streambuf_base<Streambuf>
         // DEBT: We can expect potential spinlock type behavior,
         // which may be needed due to the simplicity of string buffering
         // (may need a queue or bipbuffer to really overcome that)
-        base_type::rdbuf().sputn(buf_.data(), buf_.size());
-        buf_.clear();
-        // DEBT: Need to heed output of sputn to truly indicate status
-        return 0;
+        const estd::streamsize sz = buf_.size();
+        const estd::streamsize written = base_type::rdbuf().sputn(buf_.data(), sz);
+
+        if(written >= sz)
+        {
+            buf_.clear();
+            return 0;
+        }
+
+        // what the underlying streambuf did not take stays buffered
+        if(written > 0) buf_.erase(0, written);
+        return -1;
     }
 
 public:
@@ -67,10 +75,12 @@ protected:
     {
         if(full())
         {
-            if(ll_sync() != 0)  return traits_type::eof();
+            ll_sync();
+
+            if(full())  return traits_type::eof();
         }
 
-        if(traits_type::not_eof(ch))
+        if(ch != traits_type::eof())
         {
             buf_ += traits_type::to_char_type(ch);
         }
@@ -84,7 +94,8 @@ protected:
     {
         const estd::streamsize maximum = remaining();
 
-        buf_.append(s, count > maximum ? maximum : count);
+        if(count > maximum) count = maximum;
+        if(count > 0) buf_.append(s, count);
 
         // wrapper sputn handles this via 'overflow' - a little clumsy though
         //if(full())
@@ -102,7 +113,7 @@ public:
 
     int_type sputc(char_type ch)
     {
-        return overflow(ch);
+        return overflow(traits_type::to_int_type(ch));
     }
 };
 
diff --git a/src/estd/internal/impl/streambuf/pos.h b/src/estd/internal/impl/streambuf/pos.h
index 1edd79a..0775c9a 100644
--- a/src/estd/internal/impl/streambuf/pos.h
+++ b/src/estd/internal/impl/streambuf/pos.h
@@ -31,7 +31,8 @@ protected:
 #endif
     EXPLICIT pos_streambuf_base(const index_type& pos) : _pos(pos) {}
 
-    inline const index_type& seekpos(const pos_type& p)
+    inline const index_type& seekpos(const pos_type& p,
+        ios_base::openmode = ios_base::in | ios_base::out)
     {
         _pos = p;
         return _pos;
diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index 1eee046..facf92e 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -73,12 +73,17 @@ struct out_span_streambuf :
     }
 
     char_type* pptr() const { return pbase() + base_out_type::pos(); }
-    char_type* epptr() const { return pbase() + out().size_bytes(); }
+    char_type* epptr() const { return pbase() + out().size(); }
 
     streamsize xsputn(const char_type* s, streamsize count)
     {
-        // TODO: do proper bounds checking here
-        memcpy(pptr(), s, count);
+        const size_type pos = base_out_type::pos();
+        const size_type remaining = pos < out().size() ? out().size() - pos : 0;
+
+        if(count < 0) count = 0;
+        if(size_type(count) > remaining) count = remaining;
+
+        estd::copy_n(s, count, pptr());
         this->pbump(count);
         return count;
     }
@@ -86,7 +91,7 @@ struct out_span_streambuf :
     int_type sputc(char_type ch)
     {
         const pos_type& pos = base_out_type::pos();
-        if(pos >= out().size_bytes())
+        if(pos >= out().size())
             return base_out_type::overflow();
 
         *(pptr()) = ch;
@@ -115,7 +120,7 @@ protected:
 
             case ios_base::end:
                 // UNTESTED
-                base_out_type::seekpos(out().size_bytes() + off);
+                base_out_type::seekpos(out().size() + off);
                 break;
         }
 
@@ -139,13 +144,13 @@ template <class TChar,
         std::size_t Extent = detail::dynamic_extent::value,
         class TBase = estd::experimental::instance_provider<estd::span<TChar, Extent> > >
 struct in_span_streambuf :
-        in_pos_streambuf_base<TCharTraits>,
+        in_pos_streambuf_base<TCharTraits, typename TBase::value_type::size_type>,
 
         streambuf_gptr_tag,
 
         TBase
 {
-    typedef in_pos_streambuf_base<TCharTraits> base_pos_type;
+    typedef in_pos_streambuf_base<TCharTraits, typename TBase::value_type::size_type> base_pos_type;
     typedef TBase base_type;
 
     using typename base_pos_type::traits_type;
@@ -153,6 +158,7 @@ struct in_span_streambuf :
     typedef typename span_type::size_type size_type;
     typedef typename traits_type::int_type int_type;
     typedef typename base_pos_type::pos_type pos_type;
+    typedef typename base_pos_type::off_type off_type;
     typedef TChar char_type;
     typedef typename remove_const<char_type>::type nonconst_char_type;
 
@@ -193,6 +199,15 @@ protected:
     }
 
     ESTD_CPP_CONSTEXPR_RET const char_type& xsgetc() const { return *gptr(); }
+
+    pos_type seekoff(off_type off, ios_base::seekdir way,
+        ios_base::openmode which = ios_base::in | ios_base::out)
+    {
+        if(way == ios_base::end && (which & ios_base::in))
+            return base_pos_type::seekpos(in().size() + off);
+
+        return base_pos_type::seekoff(off, way, which);
+    }
 };
 
 
diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index 64eef37..489e5d0 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -34,15 +34,20 @@ struct out_stringbuf : stringbuf_base<String>
 
     streamsize xsputn(const char_type* s, streamsize count)
     {
-        // FIX: normal strings throw an exception if we exceed internal
-        // buffer size, but here we should instead have an optional error
-        // facility
-        str_.append(s, count);
+        // strings do not check appends against their buffer, so take no more
+        // than there is room for
+        const streamsize remaining = str_.max_size() - str_.size();
+
+        if(count > remaining) count = remaining;
+        if(count > 0) str_.append(s, count);
+
         return count;
     }
 
     int_type sputc(char_type ch)
     {
+        if(str_.size() >= str_.max_size()) return traits_type::eof();
+
         str_ += ch;
         return traits_type::to_int_type(ch);
     }
@@ -73,13 +78,15 @@ struct out_stringbuf : stringbuf_base<String>
 template <class String>
 struct basic_stringbuf :
         out_stringbuf<String>,
-        in_pos_streambuf_base<typename remove_reference_t<String>::traits_type>,
+        in_pos_streambuf_base<typename remove_reference_t<String>::traits_type,
+            typename remove_reference_t<String>::size_type>,
 
         streambuf_sungetc_tag
 {
     typedef out_stringbuf<String> base_type;
     using char_traits = typename remove_reference_t<String>::traits_type;
-    typedef in_pos_streambuf_base<char_traits> in_base_type;
+    typedef in_pos_streambuf_base<char_traits,
+        typename remove_reference_t<String>::size_type> in_base_type;
     typedef typename base_type::traits_type traits_type;
     typedef typename base_type::char_type char_type;
     typedef typename traits_type::int_type int_type;
@@ -128,27 +135,31 @@ struct basic_stringbuf :
     // UNTESTED
     pos_type seekoff(off_type off, ios_base::seekdir dir, ios_base::openmode which)
     {
+        // put position is always the end of the string
+        if(!(which & ios_base::in))
+            return base_type::seekoff(off, dir, which);
+
         switch(dir)
         {
             case ios_base::beg:
-                if(which & ios_base::in)
-                    return in_base_type::seekpos(off);
-                break;
+                return in_base_type::seekpos(off);
 
             case ios_base::cur:
-                if(which & ios_base::in)
-                    in_base_type::gbump(off);
-                break;
+                in_base_type::gbump(off);
+                return pos();
 
             case ios_base::end:
-                if(which & ios_base::in)
-                    return in_base_type::seekpos(this->str().length() + off);
-                break;
+                return in_base_type::seekpos(this->str().length() + off);
         }
 
         return pos_type(off_type(-1));
     }
 
+    pos_type seekpos(pos_type p, ios_base::openmode which)
+    {
+        return seekoff(off_type(p), ios_base::beg, which);
+    }
+
     int_type sungetc()
     {
         if(pos() == 0)
diff --git a/src/estd/streambuf.h b/src/estd/streambuf.h
index 1ef327d..169c2c2 100644
--- a/src/estd/streambuf.h
+++ b/src/estd/streambuf.h
@@ -135,7 +135,7 @@ public:
         {
             s += written;
 
-            if(this->overflow(*s) != traits_type::eof())
+            if(this->overflow(traits_type::to_int_type(*s)) != traits_type::eof())
             {
                 // getting here means one more character was placed into put area
                 count -= ++written;
-- 
2.43.0


From aa936bcf4417a005ab4fd3da8f482c6af682435e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:02 +0000
Subject: [PATCH 036/113] fix: istream counts what it extracts, getline stays
 in its buffer, and fill holds its whole range

---
 src/estd/internal/ios.h      |   2 +-
 src/estd/internal/ios_base.h |   2 +-
 src/estd/internal/istream.h  | 102 ++++++++++++++++++-----------------
 src/estd/internal/ostream.h  |   3 +-
 src/estd/istream.h           |   2 +-
 5 files changed, 57 insertions(+), 54 deletions(-)

diff --git a/src/estd/internal/ios.h b/src/estd/internal/ios.h
index 6109d28..6ad7c39 100644
--- a/src/estd/internal/ios.h
+++ b/src/estd/internal/ios.h
@@ -78,7 +78,7 @@ protected:
     streambuf_type* rdbuf(streambuf_type* sb)
     {
         clear();
-        streambuf_type temp = _rdbuf;
+        streambuf_type* temp = _rdbuf;
         _rdbuf = sb;
         return temp;
     }
diff --git a/src/estd/internal/ios_base.h b/src/estd/internal/ios_base.h
index c670124..b960a2f 100644
--- a/src/estd/internal/ios_base.h
+++ b/src/estd/internal/ios_base.h
@@ -225,7 +225,7 @@ protected:
         positioning alignment : 2;  // DEBT: Unused
 
         // DEBT: Presumes ASCII, 7-bit.  Unicode and friends are out
-        char fillchar : 6;          // + 32 (from ' ' to '`' ASCII)
+        unsigned char fillchar : 6; // + 32 (from ' ' to '`' ASCII)
         //bool showbase : 1;          // DEBT: Unused
 
         ESTD_CPP_CONSTEXPR_RET ostream_internal() :
diff --git a/src/estd/internal/istream.h b/src/estd/internal/istream.h
index c8d2b42..b593158 100644
--- a/src/estd/internal/istream.h
+++ b/src/estd/internal/istream.h
@@ -98,11 +98,10 @@ public:
 public:
     int_type get()
     {
-#if FEATURE_ESTD_IOS_GCOUNT
-        ++_gcount;
-#endif
         int_type c = this->rdbuf()->sbumpc();
 
+        gcount(c == traits_type::eof() ? 0 : 1);
+
         if(c == traits_type::eof())
         {
             base_type::setstate(
@@ -126,7 +125,7 @@ public:
 
     __istream_type& seekg(off_type off, ios_base::seekdir dir)
     {
-        this->unsetstate(ios_base::failbit);
+        this->unsetstate(ios_base::failbit | ios_base::eofbit);
         this->rdbuf()->pubseekoff(off, dir, ios_base::in);
         return *this;
     }
@@ -140,12 +139,16 @@ public:
         // if count > number of available bytes
         // then read only available bytes
         // otherwise read all of count
-        streamsize m = estd::min(count, rdbuf.in_avail());
+        const streamsize avail = rdbuf.in_avail();
+        streamsize m = 0;
 
-#if FEATURE_ESTD_IOS_GCOUNT
-        _gcount = m;
-#endif
-        return rdbuf.sgetn(s, m);
+        if(avail == -1)
+            this->setstate(base_type::eofbit);
+        else
+            m = rdbuf.sgetn(s, estd::min(count, avail));
+
+        gcount(m);
+        return m;
     }
 
     __istream_type& read(char_type* s, streamsize n)
@@ -153,49 +156,59 @@ public:
         // TODO: optimization point.  We want to do something
         // so that we don't inline this (and other read/write operations like it)
         // all over the place
-        if (this->rdbuf()->sgetn(s, n) != n)
-            // TODO: Consider setting _gcount here to what *was* returned
-            this->setstate(base_type::eofbit);
+        const streamsize m = this->rdbuf()->sgetn(s, n);
 
-#if FEATURE_ESTD_IOS_GCOUNT
-        _gcount = n;
-#endif
+        if (m != n)
+            this->setstate(base_type::eofbit | base_type::failbit);
+
+        gcount(m);
 
         return *this;
     }
 
     // TODO: optimize, ensure this isn't inlined
+    /// @param count size of s, including room for the null terminator
     __istream_type& getline(char_type* s, streamsize count, char_type delim = '\n')
     {
         streambuf_type* stream = this->rdbuf();
-
-#if FEATURE_ESTD_IOS_GCOUNT
-        _gcount = 0;
-#endif
+        const int_type d = traits_type::to_int_type(delim);
+        streamsize extracted = 0;
 
         for (;;)
         {
-            int_type c = stream->sbumpc();
+            const int_type c = stream->sgetc();
 
-            if (traits_type::eq(c, traits_type::eof()))
+            if (c == traits_type::eof())
             {
                 this->setstate(base_type::eofbit);
+                // "if the function extracts no characters"
+                if(extracted == 0)  this->setstate(base_type::failbit);
+                break;
+            }
+
+            if (c == d)
+            {
+                // delimiter is extracted and counted, but not stored
+                stream->sbumpc();
+                ++extracted;
                 break;
             }
 
-            if (!count-- || traits_type::eq(c, delim))
+            if (count <= 1)
             {
                 this->setstate(base_type::failbit);
                 break;
             }
 
-            *s++ = c;
-#if FEATURE_ESTD_IOS_GCOUNT
-            _gcount++;
-#endif
+            stream->sbumpc();
+            *s++ = traits_type::to_char_type(c);
+            --count;
+            ++extracted;
         }
 
-        *s = 0;
+        if(count > 0)   *s = 0;
+
+        gcount(extracted);
 
         return *this;
     }
@@ -253,44 +266,33 @@ public:
     // delim test is disabled if delim is default value, which would be EOF
     basic_istream& ignore(streamsize count = 1)
     {
-        while (count--)
-        {
-            int_type ch = get();
-
-            if (ch == traits_type::eof())
-            {
-                this->setstate(ios_base::eofbit);
-                return *this;
-            }
-
-#if FEATURE_ESTD_IOS_GCOUNT
-            _gcount++;
-#endif
-        }
-        return *this;
+        return ignore(count, traits_type::eof());
     }
 
     // http://en.cppreference.com/w/cpp/io/basic_istream/ignore
     basic_istream& ignore(streamsize count, const int_type delim)
     {
-        // "This [delimiter] test is disabled if delim is Traits::eof()"
-        if (delim == traits_type::eof()) return ignore(count);
+        streamsize extracted = 0;
 
-        while (count--)
+        while (extracted < count)
         {
-            int_type ch = get();
+            const int_type ch = this->rdbuf()->sbumpc();
 
             if (ch == traits_type::eof())
             {
                 this->setstate(ios_base::eofbit);
                 break;
             }
-            else if (ch == delim) break;
 
-#if FEATURE_ESTD_IOS_GCOUNT
-            _gcount++;
-#endif
+            ++extracted;
+
+            // "This [delimiter] test is disabled if delim is Traits::eof()", which
+            // is never seen here
+            if (ch == delim) break;
         }
+
+        gcount(extracted);
+
         return *this;
     }
 
diff --git a/src/estd/internal/ostream.h b/src/estd/internal/ostream.h
index fd064cc..97841a0 100644
--- a/src/estd/internal/ostream.h
+++ b/src/estd/internal/ostream.h
@@ -98,7 +98,7 @@ public:
     char_type fill(char_type ch)
     {
         char_type old_fill = fill();
-        ostream_.fillchar = 0x20 + ch;
+        ostream_.fillchar = ch - 0x20;
         return old_fill;
     }
 
@@ -156,6 +156,7 @@ public:
     __ostream_type& seekp(off_type off, ios_base::seekdir dir)
     {
         this->rdbuf()->pubseekoff(off, dir, ios_base::out);
+        return *this;
     }
 
     // When the time comes, these will replace the old virtual ones
diff --git a/src/estd/istream.h b/src/estd/istream.h
index 007f613..ea5367d 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -161,7 +161,7 @@ detail::basic_istream<Streambuf, Base>& operator >>(
 
     const typename traits::int_type c = in.get();
 
-    if(traits::not_eof(c))  value = traits::to_char_type(c);
+    if(c != traits::eof())  value = traits::to_char_type(c);
 
     return in;
 }
-- 
2.43.0


From 00e969befeda493f3b759888f6745c0b1f7472f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:48 +0000
Subject: [PATCH 037/113] fix: 0xff of a const char source is not end of input,
 and wide sources count beyond 16 bits

---
 src/estd/internal/impl/streambuf/base.h   | 2 +-
 src/estd/internal/impl/streambuf/span.h   | 2 +-
 src/estd/internal/impl/streambuf/string.h | 2 +-
 src/estd/istream.h                        | 6 +++---
 src/estd/sstream.h                        | 4 ++--
 src/estd/streambuf.h                      | 2 +-
 6 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/estd/internal/impl/streambuf/base.h b/src/estd/internal/impl/streambuf/base.h
index 4fbe0c5..4257b91 100644
--- a/src/estd/internal/impl/streambuf/base.h
+++ b/src/estd/internal/impl/streambuf/base.h
@@ -99,7 +99,7 @@ protected:
     // Helper to produce showmanyc-style return values from regular
     // in avail style values.  Remember "0" for showmanyc means
     // unknown character availabity
-    inline static streamsize showmanyc(int_type avail, bool eof = true)
+    inline static streamsize showmanyc(streamsize avail, bool eof = true)
     {
         if(eof)
             // eof flag tells us whether there's any ambiguity about actually being end of buffer
diff --git a/src/estd/internal/impl/streambuf/span.h b/src/estd/internal/impl/streambuf/span.h
index facf92e..abebfe8 100644
--- a/src/estd/internal/impl/streambuf/span.h
+++ b/src/estd/internal/impl/streambuf/span.h
@@ -140,7 +140,7 @@ public:
 // be implemented in a derived class
 // DEBT: Refactor this to take CharTraits directly
 template <class TChar,
-        class TCharTraits =  estd::char_traits<TChar>,
+        class TCharTraits =  estd::char_traits<typename remove_const<TChar>::type>,
         std::size_t Extent = detail::dynamic_extent::value,
         class TBase = estd::experimental::instance_provider<estd::span<TChar, Extent> > >
 struct in_span_streambuf :
diff --git a/src/estd/internal/impl/streambuf/string.h b/src/estd/internal/impl/streambuf/string.h
index 489e5d0..e5e9623 100644
--- a/src/estd/internal/impl/streambuf/string.h
+++ b/src/estd/internal/impl/streambuf/string.h
@@ -100,7 +100,7 @@ struct basic_stringbuf :
     // See in_base_type::pos() for why we use ref here
     const typename in_base_type::index_type& pos() const { return in_base_type::pos(); }
 
-    streamsize xsgetn(char_type* s, streamsize count)
+    streamsize xsgetn(typename remove_const<char_type>::type* s, streamsize count)
     {
         size_type count_copied = base_type::str().copy(s, count, pos());
 
diff --git a/src/estd/istream.h b/src/estd/istream.h
index ea5367d..e399076 100644
--- a/src/estd/istream.h
+++ b/src/estd/istream.h
@@ -170,13 +170,13 @@ detail::basic_istream<Streambuf, Base>& operator >>(
 // live in estd itself rather than estd::detail
 namespace detail {
 
-template <class Char, class CharTraits = estd::char_traits<Char>>
+template <class Char, class CharTraits = estd::char_traits<remove_const_t<Char>>>
 using basic_ispanbuf = estd::internal::streambuf<estd::internal::impl::in_span_streambuf<Char, CharTraits> >;
 
 using ispanbuf = basic_ispanbuf<char>;
 
-template <class Char, class CharTraits = estd::char_traits<Char>>
-using basic_ispanstream = estd::detail::basic_istream<basic_ispanbuf<Char>>;
+template <class Char, class CharTraits = estd::char_traits<remove_const_t<Char>>>
+using basic_ispanstream = estd::detail::basic_istream<basic_ispanbuf<Char, CharTraits>>;
 
 using ispanstream = basic_ispanstream<char>;
 }
diff --git a/src/estd/sstream.h b/src/estd/sstream.h
index 41d3c13..bc9a9b7 100644
--- a/src/estd/sstream.h
+++ b/src/estd/sstream.h
@@ -108,14 +108,14 @@ struct ostringstream : estd::detail::basic_ostream<layer1::basic_stringbuf<char,
 namespace layer2 {
 
 #ifdef __cpp_alias_templates
-template<class Char, size_t N = 0, bool null_terminated = true, class Traits = estd::char_traits<Char> >
+template<class Char, size_t N = 0, bool null_terminated = true, class Traits = estd::char_traits<remove_const_t<Char>> >
 using basic_stringbuf = detail::streambuf <
     internal::impl::basic_stringbuf<
         layer2::basic_string <Char, N, null_terminated, Traits> > >;
 
 using stringbuf = basic_stringbuf<char>;
 
-template <class Char, size_t N = 0, bool null_terminated = true, class Traits = estd::char_traits<Char> >
+template <class Char, size_t N = 0, bool null_terminated = true, class Traits = estd::char_traits<remove_const_t<Char>> >
 using basic_istringstream =
     detail::basic_istream<basic_stringbuf<Char, N, null_terminated, Traits>>;
 #endif
diff --git a/src/estd/streambuf.h b/src/estd/streambuf.h
index 169c2c2..3764149 100644
--- a/src/estd/streambuf.h
+++ b/src/estd/streambuf.h
@@ -198,7 +198,7 @@ public:
         return this->sync();
     }
 
-    inline pos_type pubseekpos(int_type pos, ios_base::openmode which = ios_base::in | ios_base::out)
+    inline pos_type pubseekpos(off_type pos, ios_base::openmode which = ios_base::in | ios_base::out)
     {
         return this->seekpos(pos, which);
     }
-- 
2.43.0


From af6794ba42ca2d40cfaeea3096405ee97318591b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:32 +0000
Subject: [PATCH 038/113] fix: extracting a word stops when the string is full

---
 src/estd/internal/istream_runtimearray.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/estd/internal/istream_runtimearray.hpp b/src/estd/internal/istream_runtimearray.hpp
index a732392..a805e3d 100644
--- a/src/estd/internal/istream_runtimearray.hpp
+++ b/src/estd/internal/istream_runtimearray.hpp
@@ -2,6 +2,7 @@
  * References:
  *
  * 1. https://en.cppreference.com/w/cpp/io/ios_base/iostate
+ * 2. https://en.cppreference.com/w/cpp/string/basic_string/operator_ltltgtgt
  */
 #pragma once
 
@@ -52,6 +53,9 @@ void do_input(detail::basic_istream<TStreambuf, TBase>& in,
             break;
         }
         else if(isspace(traits_type::to_char_type(ch), loc)) break;
+        // strings do not check push_back against their buffer, so "str.max_size()
+        // characters are stored" [2] ends the extraction
+        else if(value.size() >= value.max_size()) break;
 
         // NOTE: += is defined and should have worked
         value.push_back(traits_type::to_char_type(ch));
-- 
2.43.0


From 1206492ce9618437f7cd562dc33a788e666c2f7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:47 +0000
Subject: [PATCH 039/113] fix: printing a pointer links

---
 src/estd/ostream.h | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/estd/ostream.h b/src/estd/ostream.h
index 4f23357..d401a98 100644
--- a/src/estd/ostream.h
+++ b/src/estd/ostream.h
@@ -78,27 +78,24 @@ inline basic_ostream<TStreambuf, TBase>& operator <<(basic_ostream<TStreambuf, T
     return out.put(ch);
 }
 
-// Somehow, blackfin has the PRIXPTR and friends even though it doesn't have
-// inttypes.h or cinttypes.  
-#if defined(FEATURE_STD_INTTYPES) || defined(__ADSPBLACKFIN__)
-// explicit prototype here to avoid pulling in collision-happy stdio
-// watch out for linker errors if your environment doesn't have this call
-int snprintf( char* buffer, std::size_t buf_size, const char* format, ... );
-#endif
-
 template <class TStreambuf>
 inline basic_ostream<TStreambuf>& operator<<(basic_ostream<TStreambuf>& out, void* addr)
 {
+#ifdef ESP_OPEN_RTOS
     char buffer[sizeof(uintptr_t) * 3];
 
-#ifdef ESP_OPEN_RTOS
     __utoa((uint32_t)addr, buffer, 16);
-#elif defined(FEATURE_STD_INTTYPES) || defined(__ADSPBLACKFIN__)
-    snprintf(buffer, sizeof(buffer), "%" PRIXPTR, (uintptr_t)addr);
+    return out << buffer;
 #else
-#error Not implemented
+    const ios_base::fmtflags flags = out.flags();
+
+    out.setf(ios_base::hex, ios_base::basefield);
+    out.setf(ios_base::uppercase);
+    out_int_helper(out, reinterpret_cast<uintptr_t>(addr));
+    out.flags(flags);
+
+    return out;
 #endif
-    return out << buffer;
 }
 
 #if __cpp_rvalue_references
-- 
2.43.0


From 54e148ddfc83699b4fab4ef63805533f904a6725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:49:47 +0000
Subject: [PATCH 040/113] fix: setfill on a stream over a streambuf reference
 compiles

---
 src/estd/iomanip.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/iomanip.h b/src/estd/iomanip.h
index beed336..e684cdd 100644
--- a/src/estd/iomanip.h
+++ b/src/estd/iomanip.h
@@ -20,7 +20,7 @@ ESTD_CPP_CONSTEXPR_RET internal::setw setw(unsigned width)
 
 template <class TStreambuf, class TBase>
 estd::detail::basic_ostream<TStreambuf, TBase>& operator <<(
-    estd::detail::basic_ostream<TStreambuf, TBase>& out, internal::setfill<typename TStreambuf::char_type> sf)
+    estd::detail::basic_ostream<TStreambuf, TBase>& out, internal::setfill<typename TBase::char_type> sf)
 {
     out.fill(sf.c);
     return out;
-- 
2.43.0


From 42ada313f0c151d20e5b98454f30e832568ed138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:30 +0000
Subject: [PATCH 041/113] fix: pair, make_pair and swap move instead of copying
 what they are given as rvalues

---
 src/estd/utility.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/estd/utility.h b/src/estd/utility.h
index 543dc43..1dfe2ff 100644
--- a/src/estd/utility.h
+++ b/src/estd/utility.h
@@ -39,7 +39,8 @@ struct pair
         first(first), second(second) {}
 
     template <class U1, class U2>
-    constexpr pair(U1&& first, U2&& second) : first(first), second(second) {}
+    constexpr pair(U1&& first, U2&& second) :
+        first(std::forward<U1>(first)), second(std::forward<U2>(second)) {}
 
 #if FEATURE_ESTD_CPP03_TUPLE == 0
     template <class ...Args1, class ...Args2>
@@ -54,6 +55,7 @@ struct pair
 #endif
 
     pair& operator=(const pair& other) = default;
+    pair& operator=(pair&& other) = default;
 
     ESTD_CPP_CONSTEXPR(14) void swap(pair& other)
     {
@@ -71,7 +73,7 @@ ESTD_CPP_CONSTEXPR(14) void swap(pair<T1, T2>& x, pair<T1, T2>& y)
 template <class T1, class T2>
 ESTD_CPP_CONSTEXPR(11) pair<T1, T2> make_pair(T1 t, T2 u)
 {
-    return pair<T1, T2> { t, u };
+    return pair<T1, T2> { std::move(t), std::move(u) };
 }
 
 
@@ -182,12 +184,17 @@ T exchange(T& obj, U&& new_value)
 template <class T>
 ESTD_CPP_CONSTEXPR(14) void swap(T& a, T& b)
 {
-    // NOTE: perhaps we should use move/forward here...?  so that
-    // objects with underlying self-referencing pointers can be managed?
+#ifdef FEATURE_CPP_MOVESEMANTIC
+    T temp = std::move(a);
+
+    a = std::move(b);
+    b = std::move(temp);
+#else
     const T temp = a;
 
     a = b;
     b = temp;
+#endif
 }
 
 namespace internal {
-- 
2.43.0


From 3bfb63cf42ea2d6d936ef9e1c5de37a9837c16d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:30 +0000
Subject: [PATCH 042/113] fix: get on a tuple rvalue, by index from const, by
 type, and of an empty element

---
 src/estd/internal/tuple/get.h | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/src/estd/internal/tuple/get.h b/src/estd/internal/tuple/get.h
index f9b017c..13482a5 100644
--- a/src/estd/internal/tuple/get.h
+++ b/src/estd/internal/tuple/get.h
@@ -37,6 +37,9 @@ struct GetImpl<sparse, 0, First, Rest...>
     using target = tuple_storage<sparse, First>;
     using valref_type = typename target::valref_type;
     using const_valref_type = typename target::const_valref_type;
+    // Sparse empty types have no storage to refer to, so they're yielded by value here too
+    using rvalref_type = conditional_t<is_lvalue_reference<valref_type>::value, First&&, First>;
+    using const_rvalref_type = conditional_t<is_lvalue_reference<valref_type>::value, const First&&, First>;
 
     static constexpr const_valref_type value(const tuple<sparse, First, Rest...>& t)
     {
@@ -48,9 +51,14 @@ struct GetImpl<sparse, 0, First, Rest...>
         return t.first();
     }
 
-    static First&& value(tuple<sparse, First, Rest...>&& t)
+    static rvalref_type value(tuple<sparse, First, Rest...>&& t)
     {
-        return std::forward<First>(t.first());
+        return static_cast<rvalref_type>(t.first());
+    }
+
+    static constexpr const_rvalref_type value(const tuple<sparse, First, Rest...>&& t)
+    {
+        return static_cast<const_rvalref_type>(t.first());
     }
 };
 
@@ -72,14 +80,16 @@ ESTD_CPP_CONSTEXPR(20) typename tuple_element<index, tuple<Types...> >::valref_t
 }
 
 template<int index, bool sparse, typename... Types>
-ESTD_CPP_CONSTEXPR(20) tuple_element_t<index, tuple<Types...> >&& get(internal::tuple<sparse, Types...>&& t)
+ESTD_CPP_CONSTEXPR(20) typename internal::GetImpl<sparse, index, Types...>::rvalref_type get(
+    internal::tuple<sparse, Types...>&& t)
 {
     return internal::GetImpl<sparse, index, Types...>::value(
         std::forward<internal::tuple<sparse, Types...>>(t));
 }
 
 template<int index, bool sparse, typename... Types>
-constexpr tuple_element_t<index, tuple<Types...> >&& get(const internal::tuple<sparse, Types...>&& t)
+constexpr typename internal::GetImpl<sparse, index, Types...>::const_rvalref_type get(
+    const internal::tuple<sparse, Types...>&& t)
 {
     return internal::GetImpl<sparse, index, Types...>::value(
         std::forward<const internal::tuple<sparse, Types...>>(t));
@@ -93,9 +103,10 @@ ESTD_CPP_CONSTEXPR(14) T& get(internal::tuple<sparse, Types...>& t)
 
 
 template <class T, bool sparse, typename... Types>
-ESTD_CPP_CONSTEXPR(14) T&& get(internal::tuple<sparse, Types...>&& t)
+ESTD_CPP_CONSTEXPR(14) typename internal::GetImpl<sparse, internal::single_index_of_type<T, Types...>::index, Types...>::rvalref_type get(
+    internal::tuple<sparse, Types...>&& t)
 {
-    return get<internal::single_index_of_type<T, Types...>::index>(t);
+    return get<internal::single_index_of_type<T, Types...>::index>(std::move(t));
 }
 
 template <class T, bool sparse, typename... Types>
@@ -105,9 +116,10 @@ constexpr const T& get(const internal::tuple<sparse, Types...>& t)
 }
 
 template <class T, bool sparse, typename... Types>
-constexpr const T&& get(const internal::tuple<sparse, Types...>&& t)
+constexpr typename internal::GetImpl<sparse, internal::single_index_of_type<T, Types...>::index, Types...>::const_rvalref_type get(
+    const internal::tuple<sparse, Types...>&& t)
 {
-    return get<internal::single_index_of_type<T, Types...>::index>(t);
+    return get<internal::single_index_of_type<T, Types...>::index>(std::move(t));
 }
 
 }
-- 
2.43.0


From b5ee6a9c64c645a789152c00762ec4a1a4ec8cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:30 +0000
Subject: [PATCH 043/113] fix: tuple visit returns the index, not whether it is
 nonzero

---
 src/estd/internal/tuple.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/tuple.h b/src/estd/internal/tuple.h
index 204b43a..33bac9b 100644
--- a/src/estd/internal/tuple.h
+++ b/src/estd/internal/tuple.h
@@ -24,7 +24,7 @@ class tuple<sparse>
 public:
     //static CONSTEXPR int index = 0;
     template <class F, class ...Args>
-    constexpr bool visit(F&&, Args&&...) const { return {}; }
+    constexpr int visit(F&&, Args&&...) const { return -1; }
 };
 
 
@@ -64,14 +64,14 @@ public:
 
     // EXPERIMENTAL, though I think I'm wanting to keep it
     template <class F, class ...Args2>
-    bool visit(F&& f, Args2&&...args)
+    int visit(F&& f, Args2&&...args)
     {
         return types::visitor::visit(internal::visit_tuple_functor{}, *this, f,
             std::forward<Args2>(args)...);
     }
 
     template <class F, class ...Args2>
-    constexpr bool visit(F&& f, Args2&&...args) const
+    constexpr int visit(F&& f, Args2&&...args) const
     {
         return types::visitor::visit(internal::visit_tuple_functor{}, *this, f,
             std::forward<Args2>(args)...);
-- 
2.43.0


From 990d18fe53175234d7f5c37cda5a98317c4151f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:30 +0000
Subject: [PATCH 044/113] fix: values contains a value which is listed more
 than once

---
 src/estd/internal/variadic/integer_sequence.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/variadic/integer_sequence.h b/src/estd/internal/variadic/integer_sequence.h
index aa5b364..30d51c8 100644
--- a/src/estd/internal/variadic/integer_sequence.h
+++ b/src/estd/internal/variadic/integer_sequence.h
@@ -94,7 +94,7 @@ struct values :
         template <T v>
         using contains = bool_constant<
             selector<
-                internal::is_same_value_selector<T, v>>::values::size() == 1>;
+                internal::is_same_value_selector<T, v>>::values::size() != 0>;
     };
 
     template <class Eval>
-- 
2.43.0


From 10837ba523df975391fd447d754bd9c41f405e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:30 +0000
Subject: [PATCH 045/113] fix: an empty value list can be visited

---
 src/estd/internal/variadic/visitor.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/variadic/visitor.h b/src/estd/internal/variadic/visitor.h
index c24342f..5e36357 100644
--- a/src/estd/internal/variadic/visitor.h
+++ b/src/estd/internal/variadic/visitor.h
@@ -254,7 +254,7 @@ struct value_visitor
     template <size_t I>
     using value = v1::visitor_value<I, T, get<I>::value>;
 
-    template <size_t I,
+    template <size_t I = 0,
         class enabled = enable_if_t<(I == sizeof...(Values))>,
         class... Args,
         class F>
-- 
2.43.0


From e10b077e2555ee6ccbecb678b0d3eff8933c135e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:31 +0000
Subject: [PATCH 046/113] fix: cref gives a reference to const

---
 src/estd/functional.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index dc23f7e..2c265f8 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -82,9 +82,9 @@ reference_wrapper<T> ref(T& t) NOEXCEPT
 }
 
 template <class T>
-reference_wrapper<T> cref(const T& t) NOEXCEPT
+reference_wrapper<const T> cref(const T& t) NOEXCEPT
 {
-    return reference_wrapper<T>(t);
+    return reference_wrapper<const T>(t);
 }
 
 #if defined (FEATURE_CPP_VARIADIC) && defined (FEATURE_CPP_MOVESEMANTIC)
-- 
2.43.0


From ea30e319b9084d08f09da564ff778d0182c9ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:31 +0000
Subject: [PATCH 047/113] fix: copies of inline and method functions refer to
 their own model, not the source's

---
 src/estd/functional.h          | 9 ++++++++-
 src/estd/internal/functional.h | 7 +++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index 2c265f8..7fbb924 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -287,8 +287,15 @@ public:
 
     }
 
+    // Base points at our own model, not at the one we copy from
+    inline_function(const inline_function& copy_from) :
+        base_type(&m),
+        m(copy_from.m)
+    {
+
+    }
+
     /*
-    inline_function(const inline_function& copy_from) = default;
     inline_function(inline_function&& move_from) :
         base_type(std::move(move_from)),
         m(std::move(move_from.m))
diff --git a/src/estd/internal/functional.h b/src/estd/internal/functional.h
index 33d274e..6966fb5 100644
--- a/src/estd/internal/functional.h
+++ b/src/estd/internal/functional.h
@@ -312,6 +312,13 @@ public:
     {
     }
 
+    // Base points at our own model, not at the one we copy from
+    thisify_function(const thisify_function& copy_from) :
+        base_type(&m_),
+        m_(copy_from.m_)
+    {
+    }
+
     // UNUSED, and you're probably better off using inline_function
     template <class T, function_type<T> f>
     static thisify_function create(T* foreign_this)
-- 
2.43.0


From 3b671bbba88acaf67c20c4db4ccae38470c2a738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:31 +0000
Subject: [PATCH 048/113] fix: copying a function copies its callable, and
 lvalue callables are not moved from

---
 src/estd/functional.h | 61 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 53 insertions(+), 8 deletions(-)

diff --git a/src/estd/functional.h b/src/estd/functional.h
index 7fbb924..9e4e2bb 100644
--- a/src/estd/functional.h
+++ b/src/estd/functional.h
@@ -146,8 +146,34 @@ private:
         delete (model_type*) c;
     }
 
+    typedef model_base* (*cloner_type)(const model_base*);
+
+    template <class Model>
+    static model_base* clone(const model_base* c, estd::true_type)
+    {
+        return new Model(*static_cast<const Model*>(c));
+    }
+
+    // Functors which can't be copied can only be moved along, a copy of their function is null
+    template <class Model>
+    static model_base* clone(const model_base*, estd::false_type)
+    {
+        return nullptr;
+    }
+
+    template <class F>
+    static model_base* cloner(const model_base* c)
+    {
+        typedef typename estd::decay_t<F> incoming_function_type;
+        typedef typename base_type::template model<incoming_function_type> model_type;
+
+        return clone<model_type>(c, estd::bool_constant<
+            estd::is_copy_constructible<incoming_function_type>::value>());
+    }
+
     // Jumping through some hoops to avoid overhead of a virtual destructor.  On a plus note
     const deleter_type _deleter;
+    const cloner_type _cloner;
 
     void reset()
     {
@@ -170,27 +196,30 @@ public:
         estd::enable_if_t<!estd::is_base_of<function_base_tag,
             estd::remove_cv_t<T>
             >::value, bool> = true> */
-    template <typename T>
+    template <typename T,
+        estd::enable_if_t<!estd::is_same<estd::decay_t<T>, function>::value, bool> = true>
     function(T&& t) :
         allocator_provider_type(TAllocator()),
-        _deleter{deleter<T>}
+        _deleter{deleter<T>},
+        _cloner{cloner<T>}
     {
         typedef typename estd::decay<T>::type incoming_function_type;
         typedef typename base_type::template model<incoming_function_type> model_type;
         //allocator_traits::rebind_alloc<model_type>
         // FIX: Don't want to dynamically allocate memory quite this way
-        auto m = new model_type(std::move(t));
+        auto m = new model_type(incoming_function_type(std::forward<T>(t)));
         base_type::m = m;
     }
 
     template <typename T>
     function(T&& t, TAllocator& allocator) :
         allocator_provider_type(allocator),
-        _deleter{deleter<T>}
+        _deleter{deleter<T>},
+        _cloner{cloner<T>}
     {
         typedef typename estd::decay<T>::type incoming_function_type;
         typedef typename base_type::template model<incoming_function_type> model_type;
-        auto m = new model_type(std::forward<T>(t));
+        auto m = new model_type(incoming_function_type(std::forward<T>(t)));
         base_type::m = m;
     }
 
@@ -209,13 +238,22 @@ public:
         auto h = allocator_traits::allocate(alloc, sizeof(model_type));
     } */
 
-    function(const function& other) = default;
+    // Each function owns and deletes its model, so a copy needs a model of its own
+    function(const function& other) :
+        base_type(),
+        allocator_provider_type(other),
+        _deleter{other._deleter},
+        _cloner{other._cloner}
+    {
+        base_type::m = other.getm() ? _cloner(other.getm()) : nullptr;
+    }
 
 #ifdef FEATURE_CPP_MOVESEMANTIC
     // FIX: SFINAE remove this when nullable == false
     function(function&& other) NOEXCEPT :
         allocator_provider_type(std::move(other)),
-        _deleter{other._deleter}
+        _deleter{other._deleter},
+        _cloner{other._cloner}
     {
         base_type::m = other.getm();
         other.clear();
@@ -230,11 +268,18 @@ public:
     template <typename F>
     function& operator=(F&& f)
     {
+        // Before letting go of our own model, since f may be (or be owned by) it
+        function temp(std::forward<F>(f));
         reset();
-        new (this) function(std::move(f));
+        new (this) function(std::move(temp));
         return *this;
     }
 
+    function& operator=(const function& other)
+    {
+        return operator=<const function&>(other);
+    }
+
     template <typename F>
     static inline_function<F, TResult(TArgs...)> make_inline2(F&& f)
     {
-- 
2.43.0


From 8a36e0237636e49a2185fa92e1f538a0240eb9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:31 +0000
Subject: [PATCH 049/113] fix: invoke of an ordinary callable is not ambiguous

---
 src/estd/internal/invoke.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/invoke.h b/src/estd/internal/invoke.h
index 13b196f..dd9958c 100644
--- a/src/estd/internal/invoke.h
+++ b/src/estd/internal/invoke.h
@@ -16,7 +16,7 @@ template <class T>
 constexpr bool is_reference_wrapper_v = is_reference_wrapper<T>::value;
 
 template <class T, class Type, class T1, class... Args>
-decltype(auto) INVOKE(Type T::* f, T1&& t1, Args&&... args)
+decltype(auto) invoke_dispatch(Type T::* f, T1&& t1, Args&&... args)
 {
     if constexpr (std::is_member_function_pointer_v<decltype(f)>) {
         if constexpr (estd::is_base_of_v<T, std::decay_t<T1>>)
@@ -38,7 +38,7 @@ decltype(auto) INVOKE(Type T::* f, T1&& t1, Args&&... args)
 }
 
 template <class F, class... Args>
-decltype(auto) INVOKE(F&& f, Args&&... args)
+decltype(auto) invoke_dispatch(F&& f, Args&&... args)
 {
       return std::forward<F>(f)(std::forward<Args>(args)...);
 }
@@ -49,7 +49,7 @@ template< class F, class... Args>
 estd::invoke_result_t<F, Args...> invoke(F&& f, Args&&... args)
   noexcept(std::is_nothrow_invocable_v<F, Args...>)
 {
-    return detail::INVOKE(std::forward<F>(f), std::forward<Args>(args)...);
+    return detail::invoke_dispatch(std::forward<F>(f), std::forward<Args>(args)...);
 }
 
 
-- 
2.43.0


From 131d6579a1971f13e686721e750321c285811f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:39 +0000
Subject: [PATCH 050/113] fix: hh_mm_ss minutes and seconds do not wrap past
 255 minutes or hours

---
 src/estd/internal/chrono/formatter.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/chrono/formatter.hpp b/src/estd/internal/chrono/formatter.hpp
index 8cc5f08..2af510a 100644
--- a/src/estd/internal/chrono/formatter.hpp
+++ b/src/estd/internal/chrono/formatter.hpp
@@ -177,13 +177,15 @@ public:
 
     constexpr minutes_type minutes() const NOEXCEPT
     {
-        return minutes_type{_abs() - hours()};
+        // Full width of rep here: hours() itself carries no more than 8 bits
+        return minutes_type{_abs() - duration<rep, chrono::hours::period>{_abs()}};
     }
 
     inline seconds_type seconds() const NOEXCEPT
     {
         duration_type a = _abs();
-        auto v = a - minutes_type{a};
+        // Full width of rep here: minutes_type is only wide enough for 0-59
+        auto v = a - duration<rep, chrono::minutes::period>{a};
         return seconds_type{v};
     }
 
-- 
2.43.0


From 49f565671247bdb4ca0e64887a1030e35400611f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:39 +0000
Subject: [PATCH 051/113] fix: year::is_leap follows the Gregorian rule

---
 src/estd/internal/chrono/units.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/chrono/units.hpp b/src/estd/internal/chrono/units.hpp
index 4ca044b..b5e539c 100644
--- a/src/estd/internal/chrono/units.hpp
+++ b/src/estd/internal/chrono/units.hpp
@@ -76,7 +76,10 @@ public:
     static constexpr year min() NOEXCEPT { return year(-32767); }
     static constexpr year max() NOEXCEPT { return year(32767); }
 
-    constexpr bool is_leap() const NOEXCEPT { return value_ % 400 == 0; }
+    constexpr bool is_leap() const NOEXCEPT 
+    {
+        return value_ % 4 == 0 && (value_ % 100 != 0 || value_ % 400 == 0);
+    }
 
     // upper end of 16-bit value can never be out of range
     constexpr bool ok() const NOEXCEPT { return *this >= min(); }
-- 
2.43.0


From f710bb5d4c9043d0dff56ebc23ea793cbd130ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:39 +0000
Subject: [PATCH 052/113] fix: year_month_day_last::day compiles and knows
 September has 30 days

---
 src/estd/internal/chrono/formatter.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/chrono/formatter.hpp b/src/estd/internal/chrono/formatter.hpp
index 2af510a..556bc39 100644
--- a/src/estd/internal/chrono/formatter.hpp
+++ b/src/estd/internal/chrono/formatter.hpp
@@ -91,13 +91,14 @@ public:
     {
         switch(month_.value())
         {
-            case 2: return year_.is_leap() ? day(29) : day(28);
+            case 2: return year_.is_leap() ? chrono::day(29) : chrono::day(28);
 
-            case 4: return day(30);
-            case 6: return day(30);
-            case 11: return day(30);
+            case 4: return chrono::day(30);
+            case 6: return chrono::day(30);
+            case 9: return chrono::day(30);
+            case 11: return chrono::day(30);
 
-            default:    return day(31);
+            default:    return chrono::day(31);
         }
     }
 
-- 
2.43.0


From ba702b6914f592a96f4d9ae18ce964749d06d91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:58 +0000
Subject: [PATCH 053/113] fix: std::chrono duration plus estd duration compiles

---
 src/estd/port/std/chrono.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/estd/port/std/chrono.h b/src/estd/port/std/chrono.h
index 2f2e4a3..b5ab876 100644
--- a/src/estd/port/std/chrono.h
+++ b/src/estd/port/std/chrono.h
@@ -21,11 +21,14 @@ inline ToDuration duration_cast(const std::chrono::duration<Rep, Period>& d)
 // need these overloads below
 
 template <class Rep1, class Period1, class Rep2, class Period2>
-typename std::common_type<std::chrono::duration<Rep1,Period1>, std::chrono::duration<Rep2,Period2>>::type
+typename std::common_type<std::chrono::duration<Rep1,Period1>,
+    std::chrono::duration<Rep2,std::ratio<Period2::num, Period2::den>>>::type
 constexpr operator+( const std::chrono::duration<Rep1,Period1>& lhs,
     const duration<Rep2,Period2>& rhs )
 {
-    return lhs + std::chrono::duration<Rep2, Period2>(rhs.count());
+    typedef std::ratio<Period2::num, Period2::den> period_type;
+
+    return lhs + std::chrono::duration<Rep2, period_type>(rhs.count());
 }
 
 template <class C, class D1, class R2, class P2>
-- 
2.43.0


From c24b0caadf34195c58e8572ab8df895294e320b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:58 +0000
Subject: [PATCH 054/113] fix: year_month_day gives the calendar date rather
 than an average-length one

---
 src/estd/internal/chrono/formatter.hpp | 38 ++++++++++++++++++++------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/estd/internal/chrono/formatter.hpp b/src/estd/internal/chrono/formatter.hpp
index 556bc39..2e8e2b9 100644
--- a/src/estd/internal/chrono/formatter.hpp
+++ b/src/estd/internal/chrono/formatter.hpp
@@ -26,28 +26,48 @@ class year_month_day
 
     sys_days days_;
 
+    // Civil calendar fields, counted from the unix epoch
+    struct civil
+    {
+        int32_t year;
+        uint8_t month, day;
+    };
+
+    // Counts in 400 year eras which begin on a 1st of March, so that the leap day (if any)
+    // is always the last day of a year
+    civil to_civil() const NOEXCEPT
+    {
+        const int64_t z = int64_t(days_.time_since_epoch().count()) + 719468;
+        const int64_t era = (z >= 0 ? z : z - 146096) / 146097;
+        const int32_t doe = int32_t(z - era * 146097);
+        const int32_t yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365;
+        const int32_t doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
+        const int32_t mp = (5 * doy + 2) / 153;
+        const int32_t m = mp < 10 ? mp + 3 : mp - 9;
+
+        civil c;
+        c.day = uint8_t(doy - (153 * mp + 2) / 5 + 1);
+        c.month = uint8_t(m);
+        c.year = int32_t(yoe + era * 400 + (m <= 2 ? 1 : 0) - 1970);
+        return c;
+    }
+
 public:
     chrono::day days() const NOEXCEPT
     {
-        chrono::months m = days_.time_since_epoch();
-        chrono::days d = days_.time_since_epoch() - m;
-        return clock_traits::adjust_epoch(chrono::day(d.count() + 1));
+        return clock_traits::adjust_epoch(chrono::day(to_civil().day));
     }
 
     //constexpr
     chrono::month month() const NOEXCEPT
     {
-        chrono::years y = days_.time_since_epoch();
-        chrono::days d{y};
-        chrono::months m = days_.time_since_epoch() - d;
-        return clock_traits::adjust_epoch(chrono::month(m.count() + 1));
+        return clock_traits::adjust_epoch(chrono::month(to_civil().month));
     }
 
     //constexpr
     chrono::year year() const NOEXCEPT
     {
-        chrono::years y = days_.time_since_epoch();
-        return clock_traits::adjust_epoch(chrono::year(y.count()));
+        return clock_traits::adjust_epoch(chrono::year(to_civil().year));
     }
 
     constexpr year_month_day(const sys_days& dp) NOEXCEPT :
-- 
2.43.0


From 77102097d799c0968b819902d46e92bb01f7b138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:58 +0000
Subject: [PATCH 055/113] fix: ratio reduction of negative values keeps a
 positive denominator

---
 src/estd/internal/numeric.h | 2 +-
 src/estd/ratio.h            | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/numeric.h b/src/estd/internal/numeric.h
index 84a9c16..f8472bd 100644
--- a/src/estd/internal/numeric.h
+++ b/src/estd/internal/numeric.h
@@ -21,7 +21,7 @@ template<std::intmax_t a, std::intmax_t b> struct gcd
 template<std::intmax_t a>
 struct gcd<a, 0>
 {
-    static constexpr std::intmax_t value = a;
+    static constexpr std::intmax_t value = a < 0 ? -a : a;
 };
 
 // https://www.variadic.xyz/2012/01/07/c-template-metaprogramming/
diff --git a/src/estd/ratio.h b/src/estd/ratio.h
index 814a520..e27bb95 100644
--- a/src/estd/ratio.h
+++ b/src/estd/ratio.h
@@ -19,7 +19,9 @@ template<
 > class ratio
 {
 private:
-    static CONSTEXPR std::intmax_t gcd = internal::gcd<Num, Denom>::value;
+    // carries the sign of Denom, so that reduced version has a positive denominator
+    static CONSTEXPR std::intmax_t gcd =
+        (Denom < 0 ? -1 : 1) * internal::gcd<Num, Denom>::value;
 public:
     /// Reduced version
     typedef ratio<Num / gcd, Denom / gcd> type;
-- 
2.43.0


From f1d83169701049f3cd78bc80b5b1d2612400315e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:37 +0000
Subject: [PATCH 056/113] fix: giga prefix is available to every unit

---
 src/estd/internal/units/si.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/units/si.h b/src/estd/internal/units/si.h
index 0dcdd30..a3c31ca 100644
--- a/src/estd/internal/units/si.h
+++ b/src/estd/internal/units/si.h
@@ -36,8 +36,8 @@ struct traits<estd::mega, Tag>
     static constexpr const char* abbrev() { return "M"; }
 };
 
-template <>
-struct traits<estd::giga>
+template <class Tag>
+struct traits<estd::giga, Tag>
 {
     static constexpr const char* name() { return "giga"; }
     static constexpr const char* abbrev() { return "G"; }
-- 
2.43.0


From 3ff034b1cf79fb16a69ecfb9ec47196b44d1fbda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:37 +0000
Subject: [PATCH 057/113] fix: units between -1 and 0 are written with their
 sign

---
 src/estd/internal/units/ostream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/internal/units/ostream.h b/src/estd/internal/units/ostream.h
index 2fdf30e..7dbd0f1 100644
--- a/src/estd/internal/units/ostream.h
+++ b/src/estd/internal/units/ostream.h
@@ -20,6 +20,8 @@ estd::detail::basic_ostream<TStreambuf, TBase>& operator <<(
     if(v_dec < 0)   v_dec = -v_dec;
 
     // DEBT: I think ostream is supposed to auto reset to dec, but isn't
+    // integer part alone can't carry the sign between -1 and 0
+    if(v < 0 && v_ == 0 && v_dec != 0) out << '-';
     out << estd::dec << v_;
     out << '.';
     if(v_dec < 10) out << '0';
-- 
2.43.0


From 497a873feebba0f2214bc76b4edeb75c7b87533f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:37 +0000
Subject: [PATCH 058/113] fix: get_from_percent does not overflow the unit's
 own rep

---
 src/estd/internal/units/percent.h | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/units/percent.h b/src/estd/internal/units/percent.h
index 42592a8..1eb679c 100644
--- a/src/estd/internal/units/percent.h
+++ b/src/estd/internal/units/percent.h
@@ -53,14 +53,11 @@ inline unit_base<Rep2, Ratio2, Tag, F2> get_from_percent(
     using target_type = unit_base<Rep2, Ratio2, Tag, F2>;
     const target_type range = max - min;
 
-    // DEBT: Use common_type here
-    auto v = range.count() * p.count();
-
     // DEBT: Perhaps inspect num vs 100 to see if we would compile-time
     // calc differently - though I bet compiler will do a handy job of this
     // already
-    v *= Ratio1::num;
-    v /= 100 * Ratio1::den;
+    // Leading with num lifts integers to intmax_t, so that the product has room
+    auto v = Ratio1::num * range.count() * p.count() / (100 * Ratio1::den);
 
     return target_type(v + min.count());
 }
-- 
2.43.0


From 3bf73ba0849e7ebd7c023dcdd67eceb1592c36a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:37 +0000
Subject: [PATCH 059/113] fix: constructing a projected unit reverses its
 projection as assignment does

---
 src/estd/internal/units/base.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/units/base.h b/src/estd/internal/units/base.h
index 7f03925..3234f25 100644
--- a/src/estd/internal/units/base.h
+++ b/src/estd/internal/units/base.h
@@ -49,6 +49,25 @@ struct adder : estd::integral_constant<Int, add>
 
 
 
+// Takes a projected count back to an unprojected one.  Passthrough leaves the type alone too,
+// so that narrowing remains visible to the receiver
+template <class F>
+struct reverser
+{
+    template <class T>
+    static constexpr auto apply(T v) -> decltype(typename F::reversal{}(v))
+    {
+        return typename F::reversal{}(v);
+    }
+};
+
+template <class Rep>
+struct reverser<passthrough<Rep> >
+{
+    template <class T>
+    static constexpr T apply(T v) { return v; }
+};
+
 template <class ToScalar, class FromScalar>
 constexpr ToScalar unit_cast(const FromScalar& s)
 {
@@ -183,7 +202,7 @@ public:
     // Converting only precision or F modified
     template <class Rep2, ESTD_CPP_CONCEPT(Adder<Rep2>) F2>
     constexpr unit_base(const unit_base<Rep2, Period, Tag, F2>& s) :    // NOLINT
-        rep_{s.count()}
+        rep_{reverser<F>::apply(s.count())}
     {
     }
 
-- 
2.43.0


From 562d21a50d7ea613dccdd4f0936c5811c9d434fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:43 +0000
Subject: [PATCH 060/113] fix: typed_pool::emplace gives its block back when
 the constructor throws

---
 src/estd/internal/memory/v1/pool.h | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/estd/internal/memory/v1/pool.h b/src/estd/internal/memory/v1/pool.h
index 4e03e1a..3339bf2 100644
--- a/src/estd/internal/memory/v1/pool.h
+++ b/src/estd/internal/memory/v1/pool.h
@@ -161,11 +161,24 @@ public:
     template <class ...Args>
     T* emplace(Args&&...args)
     {
-        void* const storage = base_type::alloc();
+        // gives the block back to the pool if T's constructor throws
+        struct guard
+        {
+            base_type& pool_;
+            void* storage_;
+
+            ~guard() { if(storage_ != nullptr) pool_.free(storage_); }
+        };
+
+        guard g{*this, base_type::alloc()};
+
+        if(g.storage_ == nullptr)  return nullptr;
+
+        T* const t = new (g.storage_) T(std::forward<Args>(args)...);
 
-        if(storage == nullptr)  return nullptr;
+        g.storage_ = nullptr;
 
-        return new (storage) T(std::forward<Args>(args)...);
+        return t;
     }
 
     void erase(T* t)
-- 
2.43.0


From e136209b38453eac7c0d5404c4821dc6174dd2cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 061/113] fix: copies of a shared_ptr made after its master was
 reset are counted

---
 src/estd/memory.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/memory.h b/src/estd/memory.h
index 2bfdf37..6a11d06 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -309,7 +309,9 @@ public:
     shared_ptr2_base(estd::internal::shared_ptr_control_block<T>* master_shared_ptr) :
         base_type(master_shared_ptr)
     {
-        if(master_shared_ptr && master_shared_ptr->is_active)
+        // is_active speaks only for the master itself.  Others may go on sharing
+        // (and copying from one another) after it let go
+        if(master_shared_ptr)
             master_shared_ptr->shared_count++;
     }
 
-- 
2.43.0


From d1488a7b61b28c4a6340d056d47dfe06a20f340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 062/113] fix: shared_ptr assignment acquires the new object
 before releasing the old one

---
 src/estd/memory.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/estd/memory.h b/src/estd/memory.h
index 6a11d06..34b9c3f 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -585,8 +585,13 @@ public:
     shared_ptr& operator=(TSharedPtr&
                          copy_from)
     {
-        this->reset();
-        new (this) shared_ptr(copy_from);
+        // acquire before releasing: copy_from may be *this, or live inside
+        // the very object we are about to let go of
+        shared_ptr acquired(copy_from);
+        estd::internal::shared_ptr_control_block<T>* const c = acquired.value_ptr();
+
+        acquired.value_ptr(this->value_ptr());
+        this->value_ptr(c);
         return *this;
     }
 
-- 
2.43.0


From c4b65195f47bb041b737e0165e4c08b2bb9041d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:01 +0000
Subject: [PATCH 063/113] fix: get() of a shared_ptr which shares nothing is
 null

---
 src/estd/memory.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/estd/memory.h b/src/estd/memory.h
index 34b9c3f..df9be04 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -268,7 +268,7 @@ public:
 #ifdef FEATURE_ESTD_SHARED_PTR_ALIAS
         return stored;
 #else
-        return control().shared;
+        return base_type::managed();
 #endif
     }
 
@@ -370,6 +370,7 @@ struct shared_ptr_base :
     {}
 
 protected:
+    managed_type* managed() const { return base_type::value().shared; }
     bool is_active() const { return base_type::value().is_active; }
     void activate() { base_type::value().is_active = true; }
     void deactivate() { base_type::value().is_active = false; }
@@ -461,6 +462,7 @@ struct shared_ptr_base :
     {}
 
 protected:
+    T* managed() const { return this->value().shared; }
     bool is_active() const { return this->value().is_active; }
     void deactivate() { this->value().is_active = false; }
 };
@@ -515,6 +517,8 @@ struct shared_ptr_base :
         estd::internal::shared_ptr_control_block<T> > base_type;
 
 protected:
+    // unlike layer1 and layer2, there's no control block at all when not tracking anything
+    T* managed() const { return is_active() ? this->value_ptr()->shared : NULLPTR; }
     bool is_active() const { return this->value_ptr() != NULLPTR; }
     void deactivate() { this->value_ptr(NULLPTR); }
 
-- 
2.43.0


From e27d578493fc96998ea16d47a29fadbbc3f46772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:52:36 +0000
Subject: [PATCH 064/113] fix: objects held in inline arrays and providers are
 aligned for their type

---
 src/estd/internal/array.h | 6 ------
 src/estd/memory.h         | 3 +++
 2 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/estd/internal/array.h b/src/estd/internal/array.h
index fe3967f..f7e9643 100644
--- a/src/estd/internal/array.h
+++ b/src/estd/internal/array.h
@@ -35,14 +35,8 @@ struct uninitialized_array : array_base_size<N>
 
     struct container
     {
-        // as per pggcc-29, looks like arrays don't have to worry much about alignment
-#if UNUSED
 #ifdef FEATURE_CPP_ALIGN
         alignas(T)
-#elif defined(__GNUC__)
-        // FIX: This gets mad for odd sizes
-        __attribute__((aligned(sizeof(T))))
-#endif
 #endif
         estd::byte data[sizeof(T)];
     };
diff --git a/src/estd/memory.h b/src/estd/memory.h
index df9be04..4811383 100644
--- a/src/estd/memory.h
+++ b/src/estd/memory.h
@@ -347,6 +347,9 @@ struct shared_ptr_base :
     typedef experimental::instance_provider<TControlBlock> base_type;
     typedef typename TControlBlock::managed_type managed_type;
 
+#ifdef FEATURE_CPP_ALIGN
+    alignas(managed_type)
+#endif
     experimental::raw_instance_provider<managed_type, size> _provided;
 
     // FIX: clean up naming - getting 'value' collisions from multiple providers
-- 
2.43.0


From c594d57b1e056e6131141107e99be7eae3a38a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:44 +0000
Subject: [PATCH 065/113] fix: unique_lock releases the mutex it owns

---
 src/estd/mutex.h | 63 +++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 12 deletions(-)

diff --git a/src/estd/mutex.h b/src/estd/mutex.h
index bc1be48..a7d758e 100644
--- a/src/estd/mutex.h
+++ b/src/estd/mutex.h
@@ -50,6 +50,8 @@ class unique_lock : protected TBase
 {
     typedef TBase base_type;
 
+    bool owned_;
+
 public:
     typedef TMutex mutex_type;
 
@@ -59,45 +61,82 @@ public:
     {
         mutex_type* temp = mutex();
         base_type::value(NULLPTR);
+        owned_ = false;
         return temp;
     }
 
-    void lock() { mutex()->lock(); }
+    void lock()
+    {
+        mutex()->lock();
+        owned_ = true;
+    }
+
+    bool try_lock()
+    {
+        owned_ = mutex()->try_lock();
+        return owned_;
+    }
+
+    void unlock()
+    {
+        owned_ = false;
+        mutex()->unlock();
+    }
 
-    void unlock() { mutex()->unlock(); }
+    bool owns_lock() const { return owned_; }
 
 #ifdef FEATURE_ESTD_CHRONO2
     template< class Rep, class Period >
     bool try_lock_for( const estd::chrono::duration<Rep,Period>& timeout_duration )
     {
-        return mutex()->try_lock_for(timeout_duration);
+        owned_ = mutex()->try_lock_for(timeout_duration);
+        return owned_;
     }
 #endif
 
-    unique_lock() : base_type(NULLPTR) {}
+    unique_lock() : base_type(NULLPTR), owned_(false) {}
+
+#ifdef FEATURE_CPP_DELETE_CTOR
+    unique_lock(const unique_lock&) = delete;
+    unique_lock& operator=(const unique_lock&) = delete;
+#endif
+
+#ifdef FEATURE_CPP_MOVESEMANTIC
+    unique_lock(unique_lock&& move_from) :
+        base_type(move_from.mutex()),
+        owned_(move_from.owned_)
+    {
+        move_from.release();
+    }
+#endif
 
-    explicit unique_lock(mutex_type& m) : base_type(&m)
+    explicit unique_lock(mutex_type& m) : base_type(&m), owned_(false)
     {
-        m.lock();
+        lock();
     }
 
-    unique_lock(mutex_type& m, defer_lock_t) : base_type(&m) {}
-    unique_lock(mutex_type& m, adopt_lock_t) : base_type(&m) {}
+    unique_lock(mutex_type& m, defer_lock_t) : base_type(&m), owned_(false) {}
+    unique_lock(mutex_type& m, adopt_lock_t) : base_type(&m), owned_(true) {}
 
-    unique_lock( mutex_type& m, try_to_lock_t) : base_type(&m)
+    unique_lock( mutex_type& m, try_to_lock_t) : base_type(&m), owned_(false)
     {
-        m.try_lock();
+        try_lock();
     }
 
 #ifdef FEATURE_ESTD_CHRONO2
     template< class Rep, class Period >
     unique_lock( mutex_type& m, 
              const estd::chrono::duration<Rep,Period>& timeout_duration ) :
-            base_type(&m)
+            base_type(&m), owned_(false)
     {
-        m.try_lock_for(timeout_duration);
+        try_lock_for(timeout_duration);
     }
 #endif
+
+    ~unique_lock()
+    {
+        if(owned_) mutex()->unlock();
+    }
 };
 
 
-- 
2.43.0


From 7349d92d0803ed872ec061191bd30fcedec6b86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:46 +0000
Subject: [PATCH 066/113] fix: timed locking is available whichever header
 comes first

---
 src/estd/mutex.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/estd/mutex.h b/src/estd/mutex.h
index a7d758e..7f978b9 100644
--- a/src/estd/mutex.h
+++ b/src/estd/mutex.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include "internal/platform.h"
+
 #ifdef FEATURE_CPP_VARIADIC
 // FIX: Resolve name collision with other FEATURE_ESTD_CHRONO
 // this one guards against compilation against pre c++11 scenarios
-- 
2.43.0


From 1329112c71287beb457c41ea3842747a2b6f8001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:03 +0000
Subject: [PATCH 067/113] fix: inserting returns a position which is still
 valid after growth

---
 src/estd/internal/dynamic_array.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index a09aab3..bb29a08 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -684,17 +684,22 @@ public:
     // const_iterator here
     iterator insert(iterator pos, const_reference value)
     {
-        raw_insert(pos - cbegin(), &value);
+        const size_type index = pos - cbegin();
 
-        return pos;
+        raw_insert(index, &value);
+
+        // making room may have moved everything
+        return base_type::create_iterator(index);
     }
 
 #if __cpp_rvalue_references
     iterator insert(iterator pos, value_type&& value)
     {
-        raw_insert(pos - cbegin(), std::move(value));
+        const size_type index = pos - cbegin();
+
+        raw_insert(index, std::move(value));
 
-        return pos;
+        return base_type::create_iterator(index);
     }
 #endif
 
@@ -702,9 +707,11 @@ public:
     template <class InputIt>
     iterator insert(const_iterator pos, InputIt first, InputIt last)
     {
-        raw_insert(pos - cbegin(), first, last);
+        const size_type index = pos - cbegin();
+
+        raw_insert(index, first, last);
 
-        return pos;
+        return base_type::create_iterator(index);
     }
 
     void shrink_to_fit()
-- 
2.43.0


From 8d5c0d5e87328d656d9d1aa78e0df0a129a48253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:03 +0000
Subject: [PATCH 068/113] fix: own content can be appended and inserted

---
 src/estd/internal/dynamic_array.h | 61 ++++++++++++++++++++++++++++++-
 1 file changed, 59 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index bb29a08..ee4a02c 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -300,6 +300,49 @@ protected:
     }
 #endif
 
+    // position within our own content p refers to, or a value no position has if it lies elsewhere
+    size_type own_position(const_pointer p) const
+    {
+        const_pointer data = base_type::clock();
+        const bool own = p >= data && p < data + size();
+        base_type::cunlock();
+
+        return own ? size_type(p - data) : size_type(-1);
+    }
+
+    // What gets inserted may be part of our own content, which moves while making room for it
+    bool raw_insert(unsigned to_insert_pos, const_pointer first, const_pointer last)
+    {
+        const size_type sz = impl().size();
+        const size_type input_sz = last - first;
+        const size_type own = own_position(first);
+        if(ensure_total_size(sz + input_sz) == false) return false;
+
+        pointer data = lock();
+        pointer d_first = data + to_insert_pos;
+
+        copy_assist(d_first, data + sz, data + sz + input_sz);
+
+        if(own != size_type(-1))
+        {
+            first = data + own;
+            last = first + input_sz;
+
+            // the part ahead of the insertion is still where it was
+            for(; first != last && first < data + to_insert_pos; ++first, ++d_first)
+                *d_first = *first;
+
+            // the rest moved on
+            first += input_sz;
+            last += input_sz;
+        }
+
+        estd::copy(first, last, d_first);
+
+        unlock();
+        return true;
+    }
+
     template <class InputIt>
     bool raw_insert(unsigned to_insert_pos, InputIt first, InputIt last)
     {
@@ -456,7 +499,16 @@ public:
     // version
     append_result append(const value_type* buf, size_type len)
     {
+        const size_type own = own_position(buf);
         grow_result r = grow(len);
+
+        // buf is part of our own content, which may have moved
+        if(own != size_type(-1))
+        {
+            buf = base_type::clock() + own;
+            base_type::cunlock();
+        }
+
         const size_type current_size = r.starting_size;
 #if FEATURE_ESTD_DYNAMIC_ARRAY_BOUNDS_CHECK
         const bool grow_success = r.increased_by.has_value();
@@ -604,7 +656,10 @@ public:
 
     append_result push_back(const value_type& value)
     {
-        return append(&value, 1);
+        // value may be one of our own, which may be about to move
+        const value_type copy(value);
+
+        return append(&copy, 1);
     }
 
 #ifdef __cpp_rvalue_references
@@ -685,8 +740,10 @@ public:
     iterator insert(iterator pos, const_reference value)
     {
         const size_type index = pos - cbegin();
+        // value may be one of our own, which are about to move
+        const value_type copy(value);
 
-        raw_insert(index, &value);
+        raw_insert(index, &copy);
 
         // making room may have moved everything
         return base_type::create_iterator(index);
-- 
2.43.0


From dc0b202bb3cc40cf0e24e4024f89933ae5d78ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:12 +0000
Subject: [PATCH 069/113] fix: removed list nodes are destroyed and given back,
 inserting before the end of a list appends

---
 src/estd/forward_list.h     | 2 ++
 src/estd/list.h             | 7 +++++++
 src/estd/traits/list_node.h | 2 +-
 3 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/estd/forward_list.h b/src/estd/forward_list.h
index 45296b8..5054547 100644
--- a/src/estd/forward_list.h
+++ b/src/estd/forward_list.h
@@ -161,6 +161,8 @@ public:
 
         set_next(node_to_erase_after, node_following_erased);
 
+        get_traits().deallocate(node_to_erase);
+
         return iterator(node_following_erased, base_t::traits);
     }
 
diff --git a/src/estd/list.h b/src/estd/list.h
index bccb345..9798801 100644
--- a/src/estd/list.h
+++ b/src/estd/list.h
@@ -122,6 +122,13 @@ public:
             return base_t::begin();
         }
 
+        // the end has no node to insert on
+        if(pos == base_t::end())
+        {
+            push_back(value);
+            return iterator(base_t::m_back, base_t::traits);
+        }
+
         node_handle new_node = base_t::traits.allocate(value);
 
         node_handle node_to_insert_on = pos.node(); // or 'before', if you like
diff --git a/src/estd/traits/list_node.h b/src/estd/traits/list_node.h
index 06fc7d1..7b7c9d8 100644
--- a/src/estd/traits/list_node.h
+++ b/src/estd/traits/list_node.h
@@ -266,7 +266,7 @@ struct inlinevalue_node_traits_new_base :
 
     void deallocate(node_handle& h)
     {
-        base_t::deallocate_node(h);
+        base_t::destroy(h);
     }
 
 #ifdef FEATURE_CPP_VARIADIC
-- 
2.43.0


From 2cc126122b1bcd06b9f52e1cd52c96fa1a58c32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:03 +0000
Subject: [PATCH 070/113] fix: erased entries of buckets past the fifteen bit
 range keep their bucket reachable

---
 src/estd/internal/container/unordered/traits.h | 2 +-
 src/estd/internal/container/unordered_map.h    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/container/unordered/traits.h b/src/estd/internal/container/unordered/traits.h
index f02a044..3b358d1 100644
--- a/src/estd/internal/container/unordered/traits.h
+++ b/src/estd/internal/container/unordered/traits.h
@@ -164,7 +164,7 @@ struct unordered_map_traits :
     {
         return is_empty(v) &&
             v.second.marked_for_gc &&
-            v.second.bucket == n;
+            v.second.bucket == (n & 0x7FFF);     // only 15 bits are kept
     }
 
     template <class K, class T2>
diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index 93fd4f2..715ca78 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -119,7 +119,7 @@ private:
                     // NOTE: we could make an extended mode which just reaches on forever, linear probing doesn't
                     // prohibit that at all - it's just crossing into a new bucket now we have to do some extra checks.
                     // a prune_sparse_ll may make that easier
-                    if(control->second.bucket != n) return pos;
+                    if(!is_sparse(*control, n)) return pos;
                 }
 
                 traits::relocate(*pos, *it);
-- 
2.43.0


From 122d3ee92b96bab129790d8456df382693aa1bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:28 +0000
Subject: [PATCH 071/113] fix: references to void and to qualified function
 types are those types themselves

---
 src/estd/internal/raw/type_traits.h | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/raw/type_traits.h b/src/estd/internal/raw/type_traits.h
index 7b92e21..e23f4ca 100644
--- a/src/estd/internal/raw/type_traits.h
+++ b/src/estd/internal/raw/type_traits.h
@@ -98,15 +98,34 @@ struct add_cv { typedef const volatile T type; };
 
 template< class T> struct add_const { typedef const T type; };
 
+namespace internal {
+
+template <class T>
+struct always_void { typedef void type; };
+
+// void and qualified function types can't be referred to, those remain as they are
+template <class T, class = void>
+struct add_lvalue_reference : type_identity<T> {};
+
+template <class T>
+struct add_lvalue_reference<T, typename always_void<T&>::type> : type_identity<T&> {};
+
+#ifdef __cpp_rvalue_references
+template <class T, class = void>
+struct add_rvalue_reference : type_identity<T> {};
+
 template <class T>
-struct add_lvalue_reference : type_identity<T&> {};
+struct add_rvalue_reference<T, typename always_void<T&&>::type> : type_identity<T&&> {};
+#endif
 
-template <>
-struct add_lvalue_reference<void> : type_identity<void> {};
+}
+
+template <class T>
+struct add_lvalue_reference : internal::add_lvalue_reference<T> {};
 
 #ifdef __cpp_rvalue_references
 template <class T>
-struct add_rvalue_reference : type_identity<T&&> {};;
+struct add_rvalue_reference : internal::add_rvalue_reference<T> {};
 #endif
 
 #ifdef __cpp_alias_templates
-- 
2.43.0


From 1fb0fc0364676ba8d93faa8ab7c801c1b0801db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:28 +0000
Subject: [PATCH 072/113] fix: add_pointer and decay take noexcept and
 qualified function types

---
 src/estd/type_traits.h | 27 +++++++++------------------
 1 file changed, 9 insertions(+), 18 deletions(-)

diff --git a/src/estd/type_traits.h b/src/estd/type_traits.h
index a6785ca..40aa219 100644
--- a/src/estd/type_traits.h
+++ b/src/estd/type_traits.h
@@ -66,29 +66,20 @@ struct is_floating_point
 
 
 namespace detail {
-template< class T, bool is_function_type = false >
-struct add_pointer :
-    type_identity<typename estd::remove_reference<T>::type*> {};
+
+// qualified function types can't be pointed to, those remain as they are
+template< class T, class = void >
+struct add_pointer : type_identity<T> {};
 
 template< class T >
-struct add_pointer<T, true> : type_identity<T> {};
+struct add_pointer<T,
+    typename internal::always_void<typename estd::remove_reference<T>::type*>::type> :
+    type_identity<typename estd::remove_reference<T>::type*> {};
 
-#if __cpp_variadic_templates
-template< class T, class... Args >
-struct add_pointer<T(Args...), true> {
-    using type = T(*)(Args...);
-};
- 
-template< class T, class... Args >
-struct add_pointer<T(Args..., ...), true> {
-    using type = T(*)(Args..., ...);
-};
-#endif
- 
 } // namespace detail
 
 template< class T >
-struct add_pointer : detail::add_pointer<T, estd::is_function<T>::value> {};
+struct add_pointer : detail::add_pointer<T> {};
 
 // because is_function requires variadic
 #ifdef __cpp_variadic_templates
@@ -99,7 +90,7 @@ private:
 public:
     typedef typename estd::conditional<
         estd::is_array<U>::value,
-        typename estd::remove_extent<U>::type*,
+        typename estd::add_pointer<typename estd::remove_extent<U>::type>::type,
         typename estd::conditional<
             estd::is_function<U>::value,
             typename estd::add_pointer<U>::type,
-- 
2.43.0


From 50534d18770a9e6b2ac484d042c5869da891637e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:28 +0000
Subject: [PATCH 073/113] fix: only arithmetic types are unsigned

---
 src/estd/type_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/type_traits.h b/src/estd/type_traits.h
index 40aa219..5de1422 100644
--- a/src/estd/type_traits.h
+++ b/src/estd/type_traits.h
@@ -49,7 +49,7 @@ template<typename T>
 struct is_signed : internal::is_signed<T>::type {};
 
 template<typename T>
-struct is_unsigned : bool_constant<!is_signed<T>::value> {};
+struct is_unsigned : bool_constant<is_arithmetic<T>::value && !is_signed<T>::value> {};
 
 template< class T > struct is_pointer : internal::___is_pointer<typename remove_cv<T>::type> {};
 
-- 
2.43.0


From f86393d815be486c8a466aec343d08099ffb9893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:46:44 +0000
Subject: [PATCH 074/113] fix: unions are unions, and neither they nor
 nullptr_t and member pointers enumerations

---
 src/estd/internal/llvm_type_traits.h | 18 +++---------------
 src/estd/type_traits.h               |  3 ++-
 2 files changed, 5 insertions(+), 16 deletions(-)

diff --git a/src/estd/internal/llvm_type_traits.h b/src/estd/internal/llvm_type_traits.h
index 8153aa5..5bada0e 100644
--- a/src/estd/internal/llvm_type_traits.h
+++ b/src/estd/internal/llvm_type_traits.h
@@ -125,22 +125,10 @@ typedef
     > > > > > __signed_types;
 }
 
-// original also had a clang-specific check to use an inbuild __is_enum
-// but we don't follow suit, at least not for now
+// as in the original, ask the compiler: what remains after ruling out all else
+// was more than enumerations (nullptr_t, for one)
 template <class _Tp> struct is_enum
-    : public integral_constant<bool, !is_void<_Tp>::value             &&
-                                     !is_integral<_Tp>::value         &&
-                                     !is_floating_point<_Tp>::value   &&
-                                     !is_array<_Tp>::value            &&
-                                     !is_pointer<_Tp>::value          &&
-                                     !is_reference<_Tp>::value        &&
-                                     //!is_member_pointer<_Tp>::value   &&
-                                     //!is_union<_Tp>::value            &&
-#ifdef FEATURE_CPP_VARIADIC
-                                    !is_function<_Tp>::value         &&
-#endif
-                                     !is_class<_Tp>::value
-        > {};
+    : public integral_constant<bool, __is_enum(_Tp)> {};
 
 namespace internal {
 
diff --git a/src/estd/type_traits.h b/src/estd/type_traits.h
index 5de1422..4648fd5 100644
--- a/src/estd/type_traits.h
+++ b/src/estd/type_traits.h
@@ -16,7 +16,8 @@ template <class T> char is_class_test(int T::*);
 struct two { char c[2]; };
 template <class T> two is_class_test(...);
 
-template <class _Tp> struct __libcpp_union : public false_type {};
+// only the compiler knows
+template <class _Tp> struct __libcpp_union : public integral_constant<bool, __is_union(_Tp)> {};
 
 }
 
-- 
2.43.0


From 6c11b89a857e0ab60b197e958c2e770d1faa1a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:47:56 +0000
Subject: [PATCH 075/113] fix: functions with C style variadic arguments are
 functions

---
 src/estd/internal/type_traits/is_function.h | 30 +++++++++------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/src/estd/internal/type_traits/is_function.h b/src/estd/internal/type_traits/is_function.h
index 5e2003c..82b706c 100644
--- a/src/estd/internal/type_traits/is_function.h
+++ b/src/estd/internal/type_traits/is_function.h
@@ -28,17 +28,15 @@ struct is_function<Ret(Args...) volatile> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) const volatile> : true_type {};
 
-#ifdef FEATURE_CPP_AMBIGUOUS_ELLIPSES
 // specialization for variadic functions such as printf
 template<class Ret, class... Args>
-struct is_function<Ret(Args......)> : true_type {};
+struct is_function<Ret(Args..., ...)> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const> : true_type {};
+struct is_function<Ret(Args..., ...) const> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) volatile> : true_type {};
+struct is_function<Ret(Args..., ...) volatile> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const volatile> : true_type {};
-#endif
+struct is_function<Ret(Args..., ...) const volatile> : true_type {};
 
 // specialization for function types that have ref-qualifiers
 template<class Ret, class... Args>
@@ -49,16 +47,14 @@ template<class Ret, class... Args>
 struct is_function<Ret(Args...) volatile &> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) const volatile &> : true_type {};
-#ifdef FEATURE_CPP_AMBIGUOUS_ELLIPSES
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) &> : true_type {};
+struct is_function<Ret(Args..., ...) &> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const &> : true_type {};
+struct is_function<Ret(Args..., ...) const &> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) volatile &> : true_type {};
+struct is_function<Ret(Args..., ...) volatile &> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const volatile &> : true_type {};
-#endif
+struct is_function<Ret(Args..., ...) const volatile &> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) &&> : true_type {};
 template<class Ret, class... Args>
@@ -67,16 +63,14 @@ template<class Ret, class... Args>
 struct is_function<Ret(Args...) volatile &&> : true_type {};
 template<class Ret, class... Args>
 struct is_function<Ret(Args...) const volatile &&> : true_type {};
-#ifdef FEATURE_CPP_AMBIGUOUS_ELLIPSES
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) &&> : true_type {};
+struct is_function<Ret(Args..., ...) &&> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const &&> : true_type {};
+struct is_function<Ret(Args..., ...) const &&> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) volatile &&> : true_type {};
+struct is_function<Ret(Args..., ...) volatile &&> : true_type {};
 template<class Ret, class... Args>
-struct is_function<Ret(Args......) const volatile &&> : true_type {};
-#endif
+struct is_function<Ret(Args..., ...) const volatile &&> : true_type {};
 
 // specializations for noexcept versions of all the above (C++17 and later)
 
-- 
2.43.0


From 474dc6b5f5187ae5ab5a73bd8963872f77d33991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:00 +0000
Subject: [PATCH 076/113] fix: promoted_type takes uint64_t

---
 src/estd/internal/promoted_type.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/estd/internal/promoted_type.h b/src/estd/internal/promoted_type.h
index 1b5b885..6edbc51 100644
--- a/src/estd/internal/promoted_type.h
+++ b/src/estd/internal/promoted_type.h
@@ -64,6 +64,13 @@ struct promote_type<uint32_t>
     typedef uint64_t type;
 };
 
+// As with int64_t, touched but not promoted to
+template<>
+struct promote_type<uint64_t>
+{
+    typedef void type;
+};
+
 }
 
 // TODO: Fix name - auto_promote means, if necessary, move
-- 
2.43.0


From f808b57e7cdd10e307d3590835c2d4f0d9bb5797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:16 +0000
Subject: [PATCH 077/113] fix: the length of octal text counts a topmost digit
 of one bit

---
 src/estd/internal/limits/traits.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/limits/traits.h b/src/estd/internal/limits/traits.h
index 4153773..c437120 100644
--- a/src/estd/internal/limits/traits.h
+++ b/src/estd/internal/limits/traits.h
@@ -32,10 +32,10 @@ template <unsigned bits>
 struct uint_strlen<16, bits> :
     estd::integral_constant<unsigned, bits / 4> {};
 
-// DEBT: calculation approximate, higher the bitcount the more wasted space
+// three bits a digit, the topmost digit perhaps less
 template <unsigned bits>
 struct uint_strlen<8, bits> :
-    estd::integral_constant<unsigned, (bits + 1) / 3> {};
+    estd::integral_constant<unsigned, (bits + 2) / 3> {};
 
 // Not the same as boost's version
 template <class T, bool is_signed_>
-- 
2.43.0


From e718fad4e5933f028adbc5623c0af9cb0d2292d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:27 +0000
Subject: [PATCH 078/113] fix: ostream_iterator can be pre-incremented

---
 src/estd/internal/ostream_iterator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/ostream_iterator.h b/src/estd/internal/ostream_iterator.h
index 7dd845e..a92da7e 100644
--- a/src/estd/internal/ostream_iterator.h
+++ b/src/estd/internal/ostream_iterator.h
@@ -27,7 +27,7 @@ public:
         return *this;
     }
 
-    constexpr ostream_iterator& operator++() const { return *this; }
+    constexpr const ostream_iterator& operator++() const { return *this; }
     constexpr ostream_iterator operator++(int) const { return *this; }  // NOLINT
     constexpr ostream_iterator operator*() const { return *this; }
 };
-- 
2.43.0


From 8da011589735654c89ae59a176762c98b39d1f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:27 +0000
Subject: [PATCH 079/113] fix: back_insert_iterator's assignment returns the
 iterator

---
 src/estd/internal/iterator/back_insert.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/estd/internal/iterator/back_insert.h b/src/estd/internal/iterator/back_insert.h
index 4b7cf1c..05b6574 100644
--- a/src/estd/internal/iterator/back_insert.h
+++ b/src/estd/internal/iterator/back_insert.h
@@ -23,6 +23,7 @@ public:
     back_insert_iterator& operator=(const cvalue_type& value)
     {
         container->push_back(value);
+        return *this;
     }
 };
 
-- 
2.43.0


From 60acd950ceabb074dc7816d7e39249cf58da51d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:27 +0000
Subject: [PATCH 080/113] fix: ostreambuf_iterator has failed once a character
 was not taken, and not before

---
 src/estd/iterator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/estd/iterator.h b/src/estd/iterator.h
index fcac627..902bcd9 100644
--- a/src/estd/iterator.h
+++ b/src/estd/iterator.h
@@ -86,14 +86,16 @@ public:
     }
 
     ostreambuf_iterator(streambuf_type* rdbuf) :
-        rdbuf(rdbuf)
+        rdbuf(rdbuf),
+        last_written(traits_type::not_eof(traits_type::eof()))
     {
 
     }
 
     template <class TBase>
     ostreambuf_iterator(estd::detail::basic_ostream<TStreambuf, TBase>& stream) :
-        rdbuf(stream.rdbuf())
+        rdbuf(stream.rdbuf()),
+        last_written(traits_type::not_eof(traits_type::eof()))
     {
 
     }
@@ -121,7 +123,7 @@ public:
 
     bool failed() const
     {
-        return last_written != traits_type::eof();
+        return last_written == traits_type::eof();
     }
 };
 
-- 
2.43.0


From 4bad0b6c7393adc7a7eb5b2613ac61c690ea34c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:03 +0000
Subject: [PATCH 081/113] fix: FreeRTOS task wrapper sets the application task
 tag with vTaskSetApplicationTaskTag

---
 src/estd/port/freertos/wrapper/task.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/port/freertos/wrapper/task.h b/src/estd/port/freertos/wrapper/task.h
index a02c04b..e4ee594 100644
--- a/src/estd/port/freertos/wrapper/task.h
+++ b/src/estd/port/freertos/wrapper/task.h
@@ -88,7 +88,7 @@ public:
 
     void tag(TaskHookFunction_t tagValue)
     {
-        xTaskSetApplicationTaskTag(t, tagValue);
+        vTaskSetApplicationTaskTag(t, tagValue);
     }
 #endif
 
-- 
2.43.0


From fd745323feb9d4fffa912a78a6fdbbd2d4702d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:23 +0000
Subject: [PATCH 082/113] fix: owners of FreeRTOS kernel objects can't be
 copied, which deleted the object twice

---
 src/estd/port/freertos/event_groups.h |  5 +++++
 src/estd/port/freertos/queue.h        |  5 +++++
 src/estd/port/freertos/semaphore.h    |  5 +++++
 src/estd/port/freertos/timer.h        | 10 ++++++++++
 4 files changed, 25 insertions(+)

diff --git a/src/estd/port/freertos/event_groups.h b/src/estd/port/freertos/event_groups.h
index aa93643..7139b44 100644
--- a/src/estd/port/freertos/event_groups.h
+++ b/src/estd/port/freertos/event_groups.h
@@ -47,6 +47,11 @@ protected:
 
 public:
     event_group() : base_type(base_type::create()) {}
+#ifdef FEATURE_CPP_DELETE_CTOR
+    event_group(const event_group&) = delete;
+    event_group& operator=(const event_group&) = delete;
+#endif
+
     ~event_group() { base_type::free(); }
 
 };
diff --git a/src/estd/port/freertos/queue.h b/src/estd/port/freertos/queue.h
index 680ccfc..0cffb36 100644
--- a/src/estd/port/freertos/queue.h
+++ b/src/estd/port/freertos/queue.h
@@ -20,6 +20,11 @@ protected:
     wrapper::queue q;
 
     queue(QueueHandle_t q) : q(q) {}
+#ifdef FEATURE_CPP_DELETE_CTOR
+    queue(const queue&) = delete;
+    queue& operator=(const queue&) = delete;
+#endif
+
     ~queue()
     {
         q.free();
diff --git a/src/estd/port/freertos/semaphore.h b/src/estd/port/freertos/semaphore.h
index 10c935a..6fc5683 100644
--- a/src/estd/port/freertos/semaphore.h
+++ b/src/estd/port/freertos/semaphore.h
@@ -21,6 +21,11 @@ protected:
     semaphore_base(SemaphoreHandle_t s) :
         s{s} {}
 
+#ifdef FEATURE_CPP_DELETE_CTOR
+    semaphore_base(const semaphore_base&) = delete;
+    semaphore_base& operator=(const semaphore_base&) = delete;
+#endif
+
     ~semaphore_base()
     {
         // From the source code:
diff --git a/src/estd/port/freertos/timer.h b/src/estd/port/freertos/timer.h
index db89399..2a95349 100644
--- a/src/estd/port/freertos/timer.h
+++ b/src/estd/port/freertos/timer.h
@@ -20,6 +20,11 @@ public:
 
     }
 
+#ifdef FEATURE_CPP_DELETE_CTOR
+    timer(const timer&) = delete;
+    timer& operator=(const timer&) = delete;
+#endif
+
     ~timer()
     {
         // DEBT: Feed this via a policy
@@ -47,6 +52,11 @@ public:
 
     }
 
+#ifdef FEATURE_CPP_DELETE_CTOR
+    timer(const timer&) = delete;
+    timer& operator=(const timer&) = delete;
+#endif
+
     ~timer()
     {
         // DEBT: Feed this via a policy
-- 
2.43.0


From 6c2349c7385bb086b8478ced54cd4b97907ec076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:23 +0000
Subject: [PATCH 083/113] fix: FreeRTOS waits until a time point compile, and
 waits for time already over don't wait

---
 src/estd/port/freertos/chrono.h    | 22 ++++++++++++++++++++++
 src/estd/port/freertos/mutex.h     |  8 +++-----
 src/estd/port/freertos/semaphore.h |  6 ++----
 src/estd/port/freertos/thread.h    | 10 ++--------
 4 files changed, 29 insertions(+), 17 deletions(-)

diff --git a/src/estd/port/freertos/chrono.h b/src/estd/port/freertos/chrono.h
index 3f4ed9d..d6a19e1 100644
--- a/src/estd/port/freertos/chrono.h
+++ b/src/estd/port/freertos/chrono.h
@@ -57,6 +57,28 @@ ESTD_CPP_CONSTEXPR_RET estd::chrono::freertos_clock::duration max_delay()
     return estd::chrono::freertos_clock::duration(portMAX_DELAY);
 }
 
+namespace internal {
+
+// Ticks to wait for a given amount of time - none at all if that time isn't positive
+template <class Rep, class Period>
+inline TickType_t ticks_for(const estd::chrono::duration<Rep, Period>& d)
+{
+    return d.count() > 0 ? estd::chrono::freertos_clock::duration(d).count() : 0;
+}
+
+// Ticks to wait until a given time - none at all if that time is past.  Tick count wraps around, so
+// a time which appears to be more than half the tick count's range ahead is a past one
+template <class Duration>
+inline TickType_t ticks_until(const estd::chrono::time_point<estd::chrono::freertos_clock, Duration>& t)
+{
+    const estd::chrono::freertos_clock::duration d(t.time_since_epoch());
+    const TickType_t ticks = d.count() - xTaskGetTickCount();
+
+    return ticks > portMAX_DELAY / 2 ? 0 : ticks;
+}
+
+}
+
 }
 
 }
diff --git a/src/estd/port/freertos/mutex.h b/src/estd/port/freertos/mutex.h
index d79c527..bd5f322 100644
--- a/src/estd/port/freertos/mutex.h
+++ b/src/estd/port/freertos/mutex.h
@@ -104,16 +104,14 @@ public:
         // duration, which is very specifically freertos-tick bound
         // if this works well, use duration_cast instead and directly
         // on xSemaphoreTake
-        estd::chrono::freertos_clock::duration d = timeout_duration;
-
-        // get number of ticks
-        return xSemaphoreTake(base_type::s, d.count());
+        // (get number of ticks)
+        return xSemaphoreTake(base_type::s, internal::ticks_for(timeout_duration));
     }
 
     template<class Clock, class Duration>
     bool try_lock_until(const estd::chrono::time_point<Clock,Duration>& timeout_time)
     {
-        return xSemaphoreTake(base_type::s, timeout_time - chrono::freertos_clock::now());
+        return xSemaphoreTake(base_type::s, internal::ticks_until(timeout_time));
     }
 };
 
diff --git a/src/estd/port/freertos/semaphore.h b/src/estd/port/freertos/semaphore.h
index 6fc5683..cd59bee 100644
--- a/src/estd/port/freertos/semaphore.h
+++ b/src/estd/port/freertos/semaphore.h
@@ -76,15 +76,13 @@ public:
     template<class Rep, class Period>
     bool try_acquire_for(const estd::chrono::duration<Rep,Period>& timeout_duration)
     {
-        estd::chrono::freertos_clock::duration d = timeout_duration;
-
-        return s.take(d.count());
+        return s.take(freertos::internal::ticks_for(timeout_duration));
     }
 
     template<class Clock, class Duration>
     bool try_acquire_until(const estd::chrono::time_point<Clock,Duration>& timeout_time)
     {
-        return s.take(timeout_time - chrono::freertos_clock::now());
+        return s.take(freertos::internal::ticks_until(timeout_time));
     }
 
     void release()
diff --git a/src/estd/port/freertos/thread.h b/src/estd/port/freertos/thread.h
index b285478..4d95c6a 100644
--- a/src/estd/port/freertos/thread.h
+++ b/src/estd/port/freertos/thread.h
@@ -106,11 +106,7 @@ namespace this_thread {
 template< class Rep, class Period >
 void sleep_for( const chrono::duration<Rep, Period>& sleep_duration )
 {
-    // TODO: Pretty sure we can do a straight chrono::stead_clock::duration instance here
-    chrono::freertos_clock::rep count =
-            estd::chrono::duration_cast<chrono::freertos_clock::duration>(sleep_duration).count();
-
-    vTaskDelay(count);
+    vTaskDelay(freertos::internal::ticks_for(sleep_duration));
 }
 
 // FreeRTOS' "delay until" code is subtly but fundamentally different than std lib version,
@@ -122,9 +118,7 @@ void sleep_for( const chrono::duration<Rep, Period>& sleep_duration )
 template< class Clock, class Duration >
 void sleep_until( const chrono::time_point<Clock,Duration>& sleep_time )
 {
-    chrono::freertos_clock::rep count = sleep_time - chrono::freertos_clock::now();
-
-    vTaskDelay(count);
+    vTaskDelay(freertos::internal::ticks_until(sleep_time));
 }
 
 inline void yield() { taskYIELD(); }
-- 
2.43.0


From ef2f7f7cfa8aaea046678a0c601dd47fb4429ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:31 +0000
Subject: [PATCH 084/113] fix: flags::operator|= compiles (an enum has no |= of
 its own)

---
 src/estd/flags.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/flags.h b/src/estd/flags.h
index 5234911..bcffe86 100644
--- a/src/estd/flags.h
+++ b/src/estd/flags.h
@@ -36,7 +36,7 @@ public:
 
     ESTD_CPP_CONSTEXPR(14) flags& operator|=(const flags& v)
     {
-        value_ |= v;
+        value_ = value_type(int_type(value_) | int_type(v.value_));
         return *this;
     }
 
-- 
2.43.0


From 39ac9bdbc2177416970c60c7f37f4867119ab9cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:31 +0000
Subject: [PATCH 085/113] fix: flags operators don't narrow in braces, which
 clang refuses for enums smaller than int

---
 src/estd/flags.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/flags.h b/src/estd/flags.h
index bcffe86..f86bf85 100644
--- a/src/estd/flags.h
+++ b/src/estd/flags.h
@@ -55,17 +55,17 @@ public:
 
     constexpr flags operator ^(const value_type& v) const
     {
-        return flags{int_type(v) ^ int_type(value_)};
+        return flags(int_type(v) ^ int_type(value_));
     }
 
     constexpr flags operator |(const value_type& v) const
     {
-        return flags{int_type(v) | int_type(value_)};
+        return flags(int_type(v) | int_type(value_));
     }
 
     constexpr flags operator &(const value_type& v) const
     {
-        return flags{int_type(v) & int_type(value_)};
+        return flags(int_type(v) & int_type(value_));
     }
 };
 
-- 
2.43.0


From feedd306a40bc74de6a1520ff754c9e307beb9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:20 +0000
Subject: [PATCH 086/113] fix: integers stream out in decimal, not octal, when
 no base flag is set

---
 src/estd/internal/locale/num_put.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/locale/num_put.h b/src/estd/internal/locale/num_put.h
index 37ecf0b..f368723 100644
--- a/src/estd/internal/locale/num_put.h
+++ b/src/estd/internal/locale/num_put.h
@@ -36,7 +36,7 @@ inline unsigned get_base2(const ios_base::fmtflags basefield)
 constexpr unsigned get_base(const ios_base::fmtflags basefield)
 {
     return basefield == ios_base::hex ? 16 :
-        basefield == ios_base::dec ? 10 :
+        basefield == ios_base::dec || basefield == 0 ? 10 :  // no base at all is decimal also
         8;
 }
 
-- 
2.43.0


From 5e91377c23bd13d92a60624de1dc70e73cb9cf6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:23:42 +0000
Subject: [PATCH 087/113] fix: reserve never takes space away, and neither it
 nor shrink_to_fit abort on fixed storage

---
 src/estd/internal/dynamic_array.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index ee4a02c..129e57d 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -440,6 +440,9 @@ public:
     {
         if(!impl().is_allocated())
             return impl().allocate(new_cap);
+        else if(new_cap <= capacity())
+            // already have that much, and reserve never takes space away
+            return true;
         else
             return impl().reallocate(new_cap);
     }
@@ -773,7 +776,12 @@ public:
 
     void shrink_to_fit()
     {
-        reserve(size());
+        // Fixed storage is as big as it is
+        if(impl_type::is_always_allocated() || !impl().is_allocated()) return;
+
+        const size_type fit = size() + (impl_type::uses_termination() ? 1 : 0);
+
+        if(fit < capacity()) impl().reallocate(fit);
     }
 };
 
-- 
2.43.0


From f927f7a590d03b0edc123e89d24f12a69c035b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:29:58 +0000
Subject: [PATCH 088/113] fix: assigning from a pair of iterators compiles

---
 src/estd/internal/container/specializer.h | 2 +-
 src/estd/internal/dynamic_array.h         | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/container/specializer.h b/src/estd/internal/container/specializer.h
index 75234fd..691dda7 100644
--- a/src/estd/internal/container/specializer.h
+++ b/src/estd/internal/container/specializer.h
@@ -111,7 +111,7 @@ struct dynamic_array_helper<Impl, enable_if_t<
 
     // copies into da from first to last
     template <class InputIt>
-    void copy_from(array& da, unsigned pos, InputIt first, InputIt last)
+    static void copy_from(array& da, unsigned pos, InputIt first, InputIt last)
     {
         pointer raw = da.lock(pos);
 
diff --git a/src/estd/internal/dynamic_array.h b/src/estd/internal/dynamic_array.h
index 129e57d..a9c482f 100644
--- a/src/estd/internal/dynamic_array.h
+++ b/src/estd/internal/dynamic_array.h
@@ -452,7 +452,7 @@ public:
     {
         ensure_total_size(last - first, 0, true);
 
-        helper::copy(*this, 0, first, last);
+        helper::copy_from(*this, 0, first, last);
     }
 
 //protected:
-- 
2.43.0


From 32d0cd04eee82a69d578868df5499ae05e3317e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:30:23 +0000
Subject: [PATCH 089/113] fix: starts_with and ends_with a character don't
 unlock what they didn't lock

---
 src/estd/internal/runtime_array.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/runtime_array.h b/src/estd/internal/runtime_array.h
index 188303b..9779cd8 100644
--- a/src/estd/internal/runtime_array.h
+++ b/src/estd/internal/runtime_array.h
@@ -153,7 +153,9 @@ protected:
 
     ESTD_CPP_CONSTEXPR(14) bool starts_with(const_reference ch) const
     {
-        const bool r = size() > 0 && *clock(0, 1) == ch;
+        if(size() == 0) return false;
+
+        const bool r = *clock(0, 1) == ch;
 
         cunlock();
 
@@ -171,7 +173,9 @@ protected:
     ESTD_CPP_CONSTEXPR(14) bool ends_with(const_reference ch) const
     {
         const size_type sz = size();
-        const bool r = sz > 0 && *clock(sz - 1, 1) == ch;
+        if(sz == 0) return false;
+
+        const bool r = *clock(sz - 1, 1) == ch;
 
         cunlock();
 
-- 
2.43.0


From 9b615b9110f2e4d854df7de26a9ce2e450e8ff14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:18 +0000
Subject: [PATCH 090/113] fix: stepping a list iterator back unlocks the node
 it locked

---
 src/estd/iterators/list.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/estd/iterators/list.h b/src/estd/iterators/list.h
index bd19e6c..3191256 100644
--- a/src/estd/iterators/list.h
+++ b/src/estd/iterators/list.h
@@ -321,10 +321,13 @@ public:
     {
         node_type& c = base_t::lock_internal();
 
-        this->current = base_t::get_traits().prev(c);
+        node_handle_t new_current = base_t::get_traits().prev(c);
 
+        // let go of the node we come from, not of the one we go to
         base_t::unlock_internal();
 
+        this->current = new_current;
+
         return *this;
     }
 
-- 
2.43.0


From f81fd27869aee129c3d49b18f88731e7180df997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:34:18 +0000
Subject: [PATCH 091/113] fix: list iterator minus a number doesn't call itself
 forever

---
 src/estd/iterators/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/iterators/list.h b/src/estd/iterators/list.h
index 3191256..c9b07e7 100644
--- a/src/estd/iterators/list.h
+++ b/src/estd/iterators/list.h
@@ -350,7 +350,7 @@ public:
     {
         ReverseIterator temp(*this);
 
-        return temp - subtrahend;
+        return temp -= subtrahend;
     }
 
     // untested
-- 
2.43.0


From 01942e90af3781551a9bd561eb96971e6efff4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:44 +0000
Subject: [PATCH 092/113] fix: arduino_streambuf reads bytes above 127 as
 themselves, and 255 isn't end of file

---
 src/estd/port/arduino/streambuf.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/estd/port/arduino/streambuf.h b/src/estd/port/arduino/streambuf.h
index 822380b..b95be75 100644
--- a/src/estd/port/arduino/streambuf.h
+++ b/src/estd/port/arduino/streambuf.h
@@ -80,7 +80,7 @@ public:
     int_type sbumpc()
     {
         int_type ch = underlying().read();
-        return ch == -1 ? traits_type::eof() : traits_type::to_char_type(ch);
+        return ch == -1 ? traits_type::eof() : ch;
     }
 
     // TODO: Document somewhere why we have xin_avail AND shomanyc
@@ -92,13 +92,13 @@ public:
     int_type underflow() const
     {
         int_type ch = underlying().peek();
-        return ch == -1 ? traits_type::eof() : traits_type::to_char_type(ch);
+        return ch == -1 ? traits_type::eof() : ch;
     }
 
     int_type uflow() const
     {
         int_type ch = underlying().read();
-        return ch == -1 ? traits_type::eof() : traits_type::to_char_type(ch);
+        return ch == -1 ? traits_type::eof() : ch;
     }
 
     streamsize xsgetn(char_type* s, streamsize count)
-- 
2.43.0


From 68b2d8d7a58decd12ce7ed5d55a488679cdc65b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:44 +0000
Subject: [PATCH 093/113] fix: appending an Arduino String to a string
 compiles, and appends all of it

---
 src/estd/port/arduino/string.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/estd/port/arduino/string.h b/src/estd/port/arduino/string.h
index 14409b5..bd54aa8 100644
--- a/src/estd/port/arduino/string.h
+++ b/src/estd/port/arduino/string.h
@@ -59,7 +59,6 @@ template <class Impl>
 operator+=(estd::detail::basic_string<Impl>& lhs,
            const String& rhs )
 {
-    rhs.getBytes(lhs.lock(rhs.length()), lhs.size());
-    lhs.unlock();
+    lhs.append(rhs.c_str(), rhs.length());
     return lhs;
 }
-- 
2.43.0


From 2d3417a00618b66b6c3e098778dec84519cbf848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:44 +0000
Subject: [PATCH 094/113] fix: a Pico stdio streambuf can be read from

---
 src/estd/port/rpi/pico/streambuf.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/estd/port/rpi/pico/streambuf.h b/src/estd/port/rpi/pico/streambuf.h
index 6849f62..8e560ab 100644
--- a/src/estd/port/rpi/pico/streambuf.h
+++ b/src/estd/port/rpi/pico/streambuf.h
@@ -60,7 +60,8 @@ protected:
 
 template <class TTraits, class TProvider>
 class pico_stdio_streambuf : public streambuf_base<TTraits>,
-    TProvider
+    TProvider,
+    streambuf_sbumpc_tag
 {
     typedef streambuf_base<TTraits> base_type;
     typedef TProvider provider;
@@ -80,7 +81,7 @@ protected:
     // EXPERIMENTAL, UNTESTED
     streamsize xsgetn(char_type* s, streamsize count)
     {
-        int rc = provider::value()->in_chars(&s, count);
+        int rc = provider::value()->in_chars(s, count);
 
         if(rc < PICO_OK) return 0;
 
@@ -101,7 +102,7 @@ public:
 
         int rc = provider::value()->in_chars(&c, 1);
 
-        if(rc == PICO_ERROR_NO_DATA)
+        if(rc < 1)
             return traits_type::eof();
         else
             return traits_type::to_int_type(c);
-- 
2.43.0


From e8a7f50e37ef725e473b04e286f72eb6d6076fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:44 +0000
Subject: [PATCH 095/113] fix: a posix_streambuf can be read from

---
 src/estd/port/posix/streambuf.cpp | 2 +-
 src/estd/port/posix/streambuf.h   | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/estd/port/posix/streambuf.cpp b/src/estd/port/posix/streambuf.cpp
index 524e5f7..cba65b4 100644
--- a/src/estd/port/posix/streambuf.cpp
+++ b/src/estd/port/posix/streambuf.cpp
@@ -36,7 +36,7 @@ int posix_streambuf::sbumpc()
 }
 
 //template<>
-int posix_streambuf::sgetc()
+int posix_streambuf::underflow()
 {
     int c = fgetc(&this->stream);
     ungetc(c, &this->stream);
diff --git a/src/estd/port/posix/streambuf.h b/src/estd/port/posix/streambuf.h
index 070baf2..7eddf53 100644
--- a/src/estd/port/posix/streambuf.h
+++ b/src/estd/port/posix/streambuf.h
@@ -6,6 +6,7 @@
 #include <stdint.h>
 
 #include "../../internal/impl/streambuf.h"
+#include "../../internal/impl/streambuf/tags.h"
 
 namespace estd {
 
@@ -78,7 +79,8 @@ struct posix_fd_streambuf : streambuf_base<Traits>
 };
 
 struct posix_streambuf :
-        native_streambuf_base<char, posix_stream_t, ::std::char_traits<char> >
+        native_streambuf_base<char, posix_stream_t, ::std::char_traits<char> >,
+        streambuf_sbumpc_tag
 {
     typedef native_streambuf_base<char, posix_stream_t, ::std::char_traits<char> > base_type;
     typedef base_type::char_type char_type;
@@ -87,7 +89,9 @@ struct posix_streambuf :
     streamsize xsgetn(char_type* s, streamsize count);
     streamsize xsputn(const char_type* s, streamsize count);
 
-    int sgetc();
+    int underflow();
+    // Never reached, since xin_avail doesn't report what stdio has buffered
+    static char_type xsgetc() { return {}; }
     int sbumpc();
     int sputc(char);
 
-- 
2.43.0


From ea6876456a769dc09bccd21cf201ab0fe56d6992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:03 +0000
Subject: [PATCH 096/113] fix: estd's own char_traits doesn't take character
 255 for eof

---
 src/estd/traits/char_traits.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/traits/char_traits.h b/src/estd/traits/char_traits.h
index d52323b..12c5de0 100644
--- a/src/estd/traits/char_traits.h
+++ b/src/estd/traits/char_traits.h
@@ -32,7 +32,8 @@ struct char_traits<char>
     typedef int off_type;
 
     static ESTD_CPP_CONSTEXPR_RET char_type to_char_type(int_type ch) { return ch; }
-    static ESTD_CPP_CONSTEXPR_RET int_type to_int_type(const char ch) { return ch; }
+    // Like std, never mistakes a character for eof
+    static ESTD_CPP_CONSTEXPR_RET int_type to_int_type(const char ch) { return (unsigned char)ch; }
     static ESTD_CPP_CONSTEXPR_RET int_type eof() { return -1; }
     static ESTD_CPP_CONSTEXPR_RET bool eq(char c1, char c2) { return c1 == c2; }
     static ESTD_CPP_CONSTEXPR_RET bool not_eof(int_type v) { return v != -1; }
-- 
2.43.0


From 7179709c0716e4d1765ed3c68e4c1c9f521f9ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:04 +0000
Subject: [PATCH 097/113] fix: estd's own char_traits compares characters as
 unsigned

---
 src/estd/traits/char_traits.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/estd/traits/char_traits.h b/src/estd/traits/char_traits.h
index 12c5de0..0ab1bf1 100644
--- a/src/estd/traits/char_traits.h
+++ b/src/estd/traits/char_traits.h
@@ -73,8 +73,9 @@ struct char_traits<char>
     {
         for(;count != 0; --count, ++s1, ++s2)
         {
-            if(*s1 < *s2) return -1;
-            if(*s1 > *s2) return 1;
+            // Like std, characters compare as unsigned
+            if((unsigned char)*s1 < (unsigned char)*s2) return -1;
+            if((unsigned char)*s1 > (unsigned char)*s2) return 1;
         }
 
         return 0;
-- 
2.43.0


From 02502722444a46e31e12e4cd510090d6db255f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:04 +0000
Subject: [PATCH 098/113] fix: estd's own char_traits::not_eof gives back the
 character

---
 src/estd/traits/char_traits.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/traits/char_traits.h b/src/estd/traits/char_traits.h
index 0ab1bf1..767135c 100644
--- a/src/estd/traits/char_traits.h
+++ b/src/estd/traits/char_traits.h
@@ -36,7 +36,7 @@ struct char_traits<char>
     static ESTD_CPP_CONSTEXPR_RET int_type to_int_type(const char ch) { return (unsigned char)ch; }
     static ESTD_CPP_CONSTEXPR_RET int_type eof() { return -1; }
     static ESTD_CPP_CONSTEXPR_RET bool eq(char c1, char c2) { return c1 == c2; }
-    static ESTD_CPP_CONSTEXPR_RET bool not_eof(int_type v) { return v != -1; }
+    static ESTD_CPP_CONSTEXPR_RET int_type not_eof(int_type v) { return v != eof() ? v : 0; }
 
     static const char_type* find(const char_type* p, size_t count, const char_type& ch)
     {
-- 
2.43.0


From 6a97bf9132b708c01d5be433eb22bf8723d256be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:46 +0000
Subject: [PATCH 099/113] fix: estd's own is_constructible isn't fooled by
 casts or by what can't be destroyed

---
 src/estd/internal/type_traits/constructible.h | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/estd/internal/type_traits/constructible.h b/src/estd/internal/type_traits/constructible.h
index 1084ade..cadfa1a 100644
--- a/src/estd/internal/type_traits/constructible.h
+++ b/src/estd/internal/type_traits/constructible.h
@@ -61,25 +61,37 @@ namespace detail {
 template <class, class T, class... Args>
 struct is_constructible : false_type {};
 
+// A new expression rather than T(args), since with one argument the latter is a cast and permits
+// far more, i.e. an int out of an enum class or a pointer.  The delete is there because what
+// cannot be destroyed doesn't count as constructible
 template <class T, class... Args>
 struct is_constructible<
-    void_t<decltype(T(std::declval<Args>()...))>,
+    void_t<decltype(::new T(std::declval<Args>()...)), decltype(::delete std::declval<T*>())>,
     T, Args...> : true_type {};
 
+// References cannot be had from a new expression
+template <class T, class Arg>
+struct is_constructible<
+    void_t<decltype(static_cast<void(*)(T&)>(nullptr)(std::declval<Arg>()))>,
+    T&, Arg> : true_type {};
+
+template <class T, class Arg>
+struct is_constructible<
+    void_t<decltype(static_cast<void(*)(T&&)>(nullptr)(std::declval<Arg>()))>,
+    T&&, Arg> : true_type {};
+
 // 27JUN23 MB My own hacks of is_constructible
 template <class, class T>
 struct is_copy_constructible : false_type {};
 
 template <class T>
-struct is_copy_constructible<
-    void_t<decltype(T(std::declval<const T&>()))>, T> : true_type {};
+struct is_copy_constructible<void_t<const T&>, T> : is_constructible<void_t<>, T, const T&> {};
 
 template <class, class T>
 struct is_move_constructible : false_type {};
 
 template <class T>
-struct is_move_constructible<
-    void_t<decltype(T(std::declval<T&&>()))>, T> : true_type {};
+struct is_move_constructible<void_t<T&&>, T> : is_constructible<void_t<>, T, T&&> {};
 }
 
 #if FEATURE_ESTD_TYPE_TRAITS_ALIASED == false
-- 
2.43.0


From a929fd7737f5c1cad1b2b428e1be2d2209072820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:04 +0000
Subject: [PATCH 100/113] fix: an expected can be made from one of other types

---
 src/estd/internal/expected.h | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/expected.h b/src/estd/internal/expected.h
index 8915303..74ccd60 100644
--- a/src/estd/internal/expected.h
+++ b/src/estd/internal/expected.h
@@ -113,13 +113,25 @@ private:
     // yet whether it's fully compatible (probably though)
     variant_storage<nonvoid_value_type, E> storage;
 
-protected:
     template <class U, class G>
-    ESTD_CPP_CONSTEXPR_RET expected(const expected<U, G>& copy_from, bool has_value) :
+    friend class expected;
+
+protected:
+    ESTD_CPP_CONSTEXPR_RET expected(const expected& copy_from, bool has_value) :
         storage(copy_from.storage, has_value ? VALUE : ERROR)
     {
     }
 
+    // From an expected of other types, whose storage cannot merely be copied
+    template <class U, class G>
+    expected(const expected<U, G>& copy_from, bool has_value)
+    {
+        if(has_value)
+            storage.template emplace<VALUE>(*copy_from.storage.template get<VALUE>());
+        else
+            storage.template emplace<ERROR>(*copy_from.storage.template get<ERROR>());
+    }
+
 #if __cpp_rvalue_references
     expected(expected&& move_from, bool has_value)
     {
-- 
2.43.0


From 8edd26114ba313f21f3396f31ccbba56265bc4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:42:04 +0000
Subject: [PATCH 101/113] fix: estd's own is_nothrow_move_constructible
 compiles with clang

---
 src/estd/internal/type_traits/constructible.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/type_traits/constructible.h b/src/estd/internal/type_traits/constructible.h
index cadfa1a..ea6e8f1 100644
--- a/src/estd/internal/type_traits/constructible.h
+++ b/src/estd/internal/type_traits/constructible.h
@@ -109,8 +109,16 @@ using is_move_constructible = detail::is_move_constructible<void_t<>, T>;
 template <class T, class... Args>
 using is_nothrow_constructible = detail::is_constructible<void_t<>, T, Args...>;
 
-template <class T, class... Args>
-using is_nothrow_move_constructible = detail::is_move_constructible<void_t<>, T, Args...>;
+template <class T>
+using is_nothrow_move_constructible = detail::is_move_constructible<void_t<>, T>;
+
+#if __cpp_inline_variables
+template <class T, class ...TArgs>
+inline constexpr bool is_constructible_v = is_constructible<T, TArgs...>::value;
+
+template <class T>
+inline constexpr bool is_copy_constructible_v = is_copy_constructible<T>::value;
+#endif
 #endif
 
 }
-- 
2.43.0


From 2651ef90bc2c81b2c6078dec93e5a4c2d00b90d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:24 +0000
Subject: [PATCH 102/113] fix: visiting values compiles with clang

---
 src/estd/internal/variadic/visitor.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/variadic/visitor.h b/src/estd/internal/variadic/visitor.h
index 5e36357..e3603c1 100644
--- a/src/estd/internal/variadic/visitor.h
+++ b/src/estd/internal/variadic/visitor.h
@@ -172,7 +172,8 @@ struct visitor_value :
     internal::visitor_index<I>,
     integral_constant<T, v>
 {
-
+    // Needed to soften 'explicit' in_place_index_t
+    constexpr visitor_value() : internal::visitor_index<I>()    {}
 };
 
 template <size_t I, class T>
-- 
2.43.0


From 672da4275b5c90367b5bd5be5f773233886f37d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:54 +0000
Subject: [PATCH 103/113] fix: unordered containers compile in C++20, and
 arrays, strings and vectors do with clang in C++20

---
 src/estd/internal/macro/c++/const.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/estd/internal/macro/c++/const.h b/src/estd/internal/macro/c++/const.h
index b7dcf95..4d77b38 100644
--- a/src/estd/internal/macro/c++/const.h
+++ b/src/estd/internal/macro/c++/const.h
@@ -43,9 +43,7 @@
 #endif
 
 // DEBT: Perhaps we can merely call this CONSTEVAL
-#if __cpp_consteval
-#define ESTD_CPP_CONSTEVAL consteval
-#else
+// Never really consteval, since what's marked with this is also called at runtime:  with references
+// as parameters, or as a static member by way of an object which isn't constant
 #define ESTD_CPP_CONSTEVAL constexpr
-#endif
 
-- 
2.43.0


From a43652d06fee9cf06fbd4259632f556368c04e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:02:15 +0000
Subject: [PATCH 104/113] fix: overflow is noticed where the compiler has no
 builtins for it

---
 src/estd/internal/raise_and_add.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/estd/internal/raise_and_add.h b/src/estd/internal/raise_and_add.h
index f4fb526..3051226 100644
--- a/src/estd/internal/raise_and_add.h
+++ b/src/estd/internal/raise_and_add.h
@@ -2,6 +2,7 @@
 
 #include "platform.h"
 #include "../algorithm.h"
+#include "../limits.h"
 
 namespace estd { namespace internal {
 
@@ -42,13 +43,16 @@ inline raise_and_sub(T& __val, const unsigned short __base, Subtrahend sub)
     return true;
 }
 #else
-// Overflow goes unnoticed.  If the __builtins aren't available, you may have to implement
-// a platform specific approach here
+// Without the __builtins, look ahead to see whether there's room.  Unlike with them, value is left
+// alone if there is not
 template <typename T>
 inline bool raise_and_add(T& val, const unsigned short base, unsigned char c)
 {
-    val *= base;
-    val += c;
+    const T max = numeric_limits<T>::max();
+
+    if (val > max / T(base) || T(val * T(base)) > max - c) return false;
+
+    val = T(val * T(base) + c);
     return true;
 }
 
@@ -56,8 +60,11 @@ inline bool raise_and_add(T& val, const unsigned short base, unsigned char c)
 template <typename T>
 inline bool raise_and_sub(T& val, const unsigned short base, unsigned char c)
 {
-    val *= base;
-    val -= c;
+    const T min = numeric_limits<T>::min();
+
+    if (val < min / T(base) || T(val * T(base)) < min + c) return false;
+
+    val = T(val * T(base) - c);
     return true;
 }
 #endif
-- 
2.43.0


From a6538ecc45b2a8a7f2fb380e8214873a08e1fea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:04:13 +0000
Subject: [PATCH 105/113] fix: dividing longs by the C library takes longs

---
 src/estd/internal/cstdlib.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/cstdlib.h b/src/estd/internal/cstdlib.h
index 5a79f25..1661fe3 100644
--- a/src/estd/internal/cstdlib.h
+++ b/src/estd/internal/cstdlib.h
@@ -51,7 +51,7 @@ struct div<long>
 #else
     using result = ::ldiv_t;
 
-    static result eval(int x, int y) { return ::ldiv(x, y); }
+    static result eval(long x, long y) { return ::ldiv(x, y); }
 #endif
 };
 
-- 
2.43.0


From eae9c063a3925cac729cb5dcb1c7f0977b9108b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:58 +0000
Subject: [PATCH 106/113] fix: a list emplaces from any number of arguments

---
 src/estd/list.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/list.h b/src/estd/list.h
index 9798801..98664be 100644
--- a/src/estd/list.h
+++ b/src/estd/list.h
@@ -105,7 +105,7 @@ public:
     template <class ...TArgs>
     void emplace_front(TArgs&&...args)
     {
-        node_handle new_front = base_t::traits.alloc_emplace(std::forward<TArgs...>(args)...);
+        node_handle new_front = base_t::traits.alloc_emplace(std::forward<TArgs>(args)...);
 
         push_front(new_front);
     }
-- 
2.43.0


From ecc997aabf45ae58eee87c0cfbdd43b977670439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:48:58 +0000
Subject: [PATCH 107/113] fix: a dynamic vector of a stateless allocator can
 emplace_back and pop_back

---
 src/estd/internal/impl/handle_desc.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/impl/handle_desc.h b/src/estd/internal/impl/handle_desc.h
index a31f7c7..6524052 100644
--- a/src/estd/internal/impl/handle_desc.h
+++ b/src/estd/internal/impl/handle_desc.h
@@ -231,7 +231,7 @@ public:
     template <class ...TArgs>
     void construct(size_type pos, TArgs&&...args)
     {
-        allocator_type& a = base_t::get_allocator();
+        typename base_t::allocator_ref a = base_t::get_allocator();
         allocator_traits::construct(a, &lock(pos, 1), std::forward<TArgs>(args)...);
         unlock();
     }
@@ -239,7 +239,7 @@ public:
 
     void destroy(size_type pos)
     {
-        allocator_type& a = base_t::get_allocator();
+        typename base_t::allocator_ref a = base_t::get_allocator();
         allocator_traits::destroy(a, &lock(pos, 1));
         unlock();
     }
-- 
2.43.0


From 31c824923f09ab1574e87ae4b268a7fd071608b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:50:54 +0000
Subject: [PATCH 108/113] fix: list.h can be included on its own

---
 src/estd/internal/list_node.h | 2 +-
 src/estd/list.h               | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/list_node.h b/src/estd/internal/list_node.h
index 7dc9830..2f72a27 100644
--- a/src/estd/internal/list_node.h
+++ b/src/estd/internal/list_node.h
@@ -301,7 +301,7 @@ public:
     const_iterator end() const { return iterator(after_end_node(), get_traits()); }
 
 #ifdef FEATURE_ESTD_LIST_BEFORE_BEGINNING
-    iterator before_begin() { return iterator(m_front, get_traits(), true); }
+    iterator before_begin() { return iterator(base_type::m_front, get_traits(), true); }
 #endif
 };
 
diff --git a/src/estd/list.h b/src/estd/list.h
index 98664be..0c314fb 100644
--- a/src/estd/list.h
+++ b/src/estd/list.h
@@ -1,8 +1,8 @@
 #pragma once
 
-#include "iterators/list.h"
 #include "traits/list_node.h"
 #include "forward_list.h"
+#include "iterators/list.h"
 #include "internal/reverse_list.h"
 
 namespace estd {
-- 
2.43.0


From e10d4cf201d83cff894b605f34192c80d87ea889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:54:01 +0000
Subject: [PATCH 109/113] fix: an insert_or_assign and a value_or move what
 they are given; iomanip.h can be included on its own

---
 src/estd/internal/container/unordered_map.h | 2 +-
 src/estd/iomanip.h                          | 1 +
 src/estd/optional.h                         | 2 +-
 3 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index 715ca78..908ffd1 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -273,7 +273,7 @@ public:
         {
             // DEBT: Would prefer an emplace here, but it's not smart enough to reliably
             // sort out class K
-            return insert({k, std::forward<M>(obj)});
+            return insert(value_type{k, std::forward<M>(obj)});
         }
     }
 
diff --git a/src/estd/iomanip.h b/src/estd/iomanip.h
index e684cdd..f15caea 100644
--- a/src/estd/iomanip.h
+++ b/src/estd/iomanip.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "internal/iomanip.h"
+#include "internal/ios_base.h"
 #include "iosfwd.h"
 
 namespace estd {
diff --git a/src/estd/optional.h b/src/estd/optional.h
index 0b22ef6..dd816a1 100644
--- a/src/estd/optional.h
+++ b/src/estd/optional.h
@@ -290,7 +290,7 @@ public:
 #endif
     T value_or(U&& default_value) &&
     {
-        return base_type::has_value() ? base_type::value() : std::forward<U>(default_value);
+        return base_type::has_value() ? std::forward<T>(base_type::value()) : std::forward<U>(default_value);
     }
 
     template <class U>
-- 
2.43.0


From a3054c1f07575ae8d8b79789fd89dccdd41ba4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:11:13 +0000
Subject: [PATCH 110/113] fix: num_put writes the number though no adjustment
 is asked for

---
 src/estd/internal/locale/num_put.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/estd/internal/locale/num_put.h b/src/estd/internal/locale/num_put.h
index f368723..b388beb 100644
--- a/src/estd/internal/locale/num_put.h
+++ b/src/estd/internal/locale/num_put.h
@@ -166,8 +166,10 @@ private:
             }
             else
             {
+                // Nothing in particular asked for, same as 'right'
                 // DEBT: 'internal' flavor, needs work
-                return out;
+                out = fill_n(out, width, fill);
+                return copy(result.ptr, buffer + N, out);
             }
         }
         else
-- 
2.43.0


From 2814477fa6801d8395f476e19f0eaaf0e08fc7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:27:53 +0000
Subject: [PATCH 111/113] fix: a list which owns its nodes gives back those
 removed by value or predicate, and tells its first and last value

---
 src/estd/exp/memory/memory_pool.h |  3 +++
 src/estd/forward_list.h           | 10 +++++++---
 src/estd/internal/list_node.h     |  4 ++--
 3 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/estd/exp/memory/memory_pool.h b/src/estd/exp/memory/memory_pool.h
index 4ee47ef..bc3a73a 100644
--- a/src/estd/exp/memory/memory_pool.h
+++ b/src/estd/exp/memory/memory_pool.h
@@ -192,6 +192,9 @@ protected:
 
         void deallocate(node_handle) {}
 
+        // the list's values are the items themselves
+        static node_type& value(node_type& n) { return n; }
+
         static node_handle next(node_type& n)
         {
             return reinterpret_cast<node_handle>(n._next);
diff --git a/src/estd/forward_list.h b/src/estd/forward_list.h
index 5054547..f7afc33 100644
--- a/src/estd/forward_list.h
+++ b/src/estd/forward_list.h
@@ -210,7 +210,7 @@ public:
             node_handle _next = next(current);
             node_type& current_locked = alloc_lock(current);
 
-            bool matched = p(current_locked);
+            bool matched = p(get_traits().value(current_locked));
 
             alloc_unlock(current);
 
@@ -223,6 +223,8 @@ public:
                 else
                     set_next(previous, _next);
 
+                get_traits().deallocate(current);
+
                 if (first_only) return;
             }
             else
@@ -254,7 +256,7 @@ public:
             node_handle _next = next(current);
             node_type& current_locked = alloc_lock(current);
 
-            bool matched = current_locked == value;
+            bool matched = get_traits().value(current_locked) == value;
 
             alloc_unlock(current);
 
@@ -265,7 +267,9 @@ public:
                     // then instead of splicing, we are replacing the front node
                     base_t::m_front = _next;
                 else
-                    set_next(previous, next(current));
+                    set_next(previous, _next);
+
+                get_traits().deallocate(current);
 
                 if(first_only) return;
             }
diff --git a/src/estd/internal/list_node.h b/src/estd/internal/list_node.h
index 2f72a27..b07cc9b 100644
--- a/src/estd/internal/list_node.h
+++ b/src/estd/internal/list_node.h
@@ -226,7 +226,7 @@ public:
         // b) it's an inline node-value pair
         // in which case, when both are true, front_value will actually be invalid
         // so the 'accessor' pattern is of increased importance to stave that off
-        reference front_value = base_type::alloc_lock(m_front);
+        reference front_value = base_type::get_traits().value(base_type::alloc_lock(m_front));
 
         base_type::alloc_unlock(m_front);
 
@@ -325,7 +325,7 @@ public:
     // all the same caveats to front() apply here
     reference back()
     {
-        reference back_value = base_type::alloc_lock(m_back);
+        reference back_value = base_type::get_traits().value(base_type::alloc_lock(m_back));
 
         base_type::alloc_unlock(m_back);
 
-- 
2.43.0


From e0a461a495b6858b75384c1012765bc225122997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:34:46 +0000
Subject: [PATCH 112/113] fix: the storage of a bip buffer is aligned for the
 control block kept in it

---
 src/estd/internal/bip/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/estd/internal/bip/buffer.h b/src/estd/internal/bip/buffer.h
index 1c699c2..85226d4 100644
--- a/src/estd/internal/bip/buffer.h
+++ b/src/estd/internal/bip/buffer.h
@@ -77,7 +77,7 @@ class bipbuf
     // https://stackoverflow.com/questions/11373203/accessing-inactive-union-member-and-undefined-behavior
     // NOTE: Above comment N/A we have left union behind
 
-    byte backing_buffer_[sizeof(bipbuf_t) + N];
+    alignas(bipbuf_t) byte backing_buffer_[sizeof(bipbuf_t) + N];
 
     // Can't do union here
     // https://github.com/malachi-iot/estdlib/issues/30
-- 
2.43.0


From 7107beb89d64e88035a4949622a2dc9585d5b8b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:53:08 +0000
Subject: [PATCH 113/113] fix: estd::clamp and the unordered containers bring
 in the assert they use

---
 src/estd/algorithm.h                        | 2 ++
 src/estd/internal/container/unordered_map.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/estd/algorithm.h b/src/estd/algorithm.h
index 33c510e..66028c8 100644
--- a/src/estd/algorithm.h
+++ b/src/estd/algorithm.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <assert.h>
+
 #include "internal/platform.h"
 #include "internal/heap.h"
 #include "internal/functional.h"
diff --git a/src/estd/internal/container/unordered_map.h b/src/estd/internal/container/unordered_map.h
index 908ffd1..06e6cb6 100644
--- a/src/estd/internal/container/unordered_map.h
+++ b/src/estd/internal/container/unordered_map.h
@@ -1,5 +1,7 @@
 #pragma once
 
+#include <assert.h>
+
 #include "../../numeric.h"
 #include "../platform.h"
 #include "../fwd/functional.h"
-- 
2.43.0

