From 1981ba167b6b8fc9a6dffc801bf1eb9b6c51072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:22 +0000
Subject: [PATCH 01/15] fix: flushing a pending character into a full buffer
 overran it

unicode_loop_reset called xxx_wctomb with no room left; the single-byte
converters do not check and write one byte past the buffer, then abort().
---
 lib/loop_unicode.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/loop_unicode.h b/lib/loop_unicode.h
index 3753ec1..a419907 100644
--- a/lib/loop_unicode.h
+++ b/lib/loop_unicode.h
@@ -178,7 +178,15 @@ static size_t unicode_loop_reset(reiconv_t icd, char **outbuf, size_t *outbytesl
             {
                 unsigned char *outptr = (unsigned char *)*outbuf;
                 size_t outleft = *outbytesleft;
-                int outcount = cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
+                int outcount;
+                if (outleft == 0)
+                {
+                    /* The wctomb functions rely on room for at least one byte. */
+                    cd->istate = last_istate;
+                    errno = E2BIG;
+                    return -1;
+                }
+                outcount = cd->ofuncs.xxx_wctomb(cd, outptr, wc, outleft);
                 if (outcount != RET_ILUNI)
                     goto outcount_ok;
                 /* Handle Unicode tag characters (range U+E0000..U+E007F). */
-- 
2.43.0


From 103bb734163d33a07458e92dc2dd32b9717a6aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:22 +0000
Subject: [PATCH 02/15] fix: HZ encoder wrote a literal tilde unescaped

RFC 1843 requires '~' to be written as '~~'; a lone one is read back as the
start of an escape sequence, so text with a tilde did not survive.
---
 lib/converters/hz.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/converters/hz.h b/lib/converters/hz.h
index 583fdf7..bbffa0f 100644
--- a/lib/converters/hz.h
+++ b/lib/converters/hz.h
@@ -134,7 +134,8 @@ static int hz_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
             abort();
         if (buf[0] < 0x80)
         {
-            int count = (state ? 3 : 1);
+            /* A tilde is the escape character and is doubled (RFC 1843). */
+            int count = (state ? 3 : 1) + (buf[0] == '~' ? 1 : 0);
             if (n < count)
                 return RET_TOOSMALL;
             if (state)
@@ -145,6 +146,8 @@ static int hz_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
                 state = 0;
             }
             r[0] = buf[0];
+            if (buf[0] == '~')
+                r[1] = '~';
             conv->ostate = state;
             return count;
         }
-- 
2.43.0


From 9c05f658b801d91a5123b9e3e92ad416f20951c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:47 +0000
Subject: [PATCH 03/15] fix: encoding names longer than any known one overran
 the stack

reiconv_lookup_from_name and reiconv_open canonicalized the caller's name
into a buffer sized for the longest known alias without checking.
---
 lib/iconv.c | 30 +++++++++++++++++++++++++++---
 1 file changed, 27 insertions(+), 3 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index d2cd52e..309fba1 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -75,7 +75,23 @@ _CPPP_API size_t reiconv_name_canonicalize(const char *name, char *outbuf)
 _CPPP_API int reiconv_lookup_from_name(const char *encoding)
 {
     char buf[MAX_WORD_LENGTH + 2];
-    size_t buf_len = reiconv_name_canonicalize(encoding, buf);
+    size_t buf_len = 0;
+
+    // As reiconv_name_canonicalize, but names may be of any length.
+    for (const char *cp = encoding; *cp; cp++)
+    {
+        char c = *cp;
+        if (c == '-' || c == '_') // Ignore '-' and '_'.
+        {
+            continue;
+        }
+        if (buf_len >= MAX_WORD_LENGTH) // No known name is that long.
+        {
+            return -1;
+        }
+        buf[buf_len++] = (c >= 'a' && c <= 'z') ? (char)(c - ('a' - 'A')) : c; // Uppercase.
+    }
+    buf[buf_len] = '\0';
 
     const struct alias *ap = aliases_lookup(buf, buf_len);
     return ap ? ap->encoding_index : -1;
@@ -144,8 +160,15 @@ _CPPP_API reiconv_t reiconv_open_from_name(const char *fromcode, const char *toc
 
 _CPPP_API reiconv_t reiconv_open(const char *tocode, const char *fromcode)
 {
-    char fromcode_buf[MAX_WORD_LENGTH + 2];
-    char tocode_buf[MAX_WORD_LENGTH + 2];
+    // Names may be of any length, and may carry a suffix.
+    size_t fromcode_size = strlen(fromcode) + 1;
+    char *fromcode_buf = (char *)malloc(fromcode_size + strlen(tocode) + 1);
+    if (fromcode_buf == NULL)
+    {
+        errno = ENOMEM;
+        return (reiconv_t)(-1);
+    }
+    char *tocode_buf = fromcode_buf + fromcode_size;
 
     size_t fromcode_len = reiconv_name_canonicalize(fromcode, fromcode_buf);
     size_t tocode_len = reiconv_name_canonicalize(tocode, tocode_buf);
@@ -178,6 +201,7 @@ _CPPP_API reiconv_t reiconv_open(const char *tocode, const char *fromcode)
 
     int from_index = reiconv_lookup_from_name(fromcode_buf);
     int to_index = reiconv_lookup_from_name(tocode_buf);
+    free(fromcode_buf);
     if (from_index == -1 || to_index == -1)
     {
         errno = EINVAL;
-- 
2.43.0


From 28aa5b20cb7aa19625928899403c75b6b9a43eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:47 +0000
Subject: [PATCH 04/15] fix: looking up an unknown codepage number read outside
 the table

---
 lib/iconv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index 309fba1..54501f2 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -99,6 +99,10 @@ _CPPP_API int reiconv_lookup_from_name(const char *encoding)
 
 _CPPP_API int reiconv_lookup_from_codepage(int codepage)
 {
+    if (codepage < 0 || (size_t)codepage >= sizeof(codepage_to_eindex) / sizeof(codepage_to_eindex[0]))
+    {
+        return -1;
+    }
     return codepage_to_eindex[codepage] - 1;
 }
 
-- 
2.43.0


From 8a255379d78ebe1e229b151c9cb550d183903a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:27 +0000
Subject: [PATCH 05/15] fix: asking for the result size altered the descriptor

reiconv_result_size left shift state behind when it failed, reset a stream
in progress when it succeeded, and kept the byte order of the inspected
data, so that the conversion after it could misread the same data.
---
 lib/iconv.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index 54501f2..b81d442 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -232,6 +232,8 @@ _CPPP_API int reiconv_handle_close(reiconv_t icd)
 
 _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inlength)
 {
+    // Work on a copy: asking for a size must not change the descriptor.
+    struct conv_struct query = *(conv_t)cd;
     size_t count = 0;
     char tmpbuf[TEMP_BUFFER_SIZE];
     char *inptr = (char *)start;
@@ -240,7 +242,7 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
     {
         char *outptr = tmpbuf;
         size_t outsize = TEMP_BUFFER_SIZE;
-        size_t res = reiconv_iconv(cd, &inptr, &insize, &outptr, &outsize);
+        size_t res = reiconv_iconv(&query, &inptr, &insize, &outptr, &outsize);
         if (res == (size_t)(-1) && errno != E2BIG)
         {
             if (errno == EINVAL)
@@ -253,14 +255,11 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
     }
     char *outptr = tmpbuf;
     size_t outsize = TEMP_BUFFER_SIZE;
-    size_t res = reiconv_iconv(cd, NULL, NULL, &outptr, &outsize);
+    size_t res = reiconv_iconv(&query, NULL, NULL, &outptr, &outsize);
     if (res == (size_t)(-1))
     {
-        // Return to the initial state.
-        reiconv_iconv(cd, NULL, NULL, NULL, NULL);
         return (size_t)(-1);
     }
-    reiconv_iconv(cd, NULL, NULL, NULL, NULL);
     return count + outptr - tmpbuf;
 }
 
-- 
2.43.0


From f12a8f089ce75f19cf48397983d5a16510513c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:27 +0000
Subject: [PATCH 06/15] fix: fixed-size conversion ignored truncated input and
 kept state on failure

reiconv_convert_static_size reported success for input ending inside a
character, and after a failure the next conversion started in the shift
state of the failed one.
---
 lib/iconv.c | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index b81d442..ea49af7 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -275,18 +275,20 @@ _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data,
         size_t res = reiconv_iconv(cd, &inptr, &insize, &outptr, &outsize);
         if (res == (size_t)(-1))
         {
-            if (errno == EINVAL)
-            {
-                break;
-            }
-            else
-            {
-                return -1;
-            }
+            // Input that ends inside a character is invalid, as for reiconv_result_size.
+            int err = errno == EINVAL ? EILSEQ : errno;
+            // Return to the initial state.
+            reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+            errno = err;
+            return -1;
         }
     }
     if (reiconv_iconv(cd, NULL, NULL, &outptr, &outsize) == (size_t)(-1))
     {
+        int err = errno;
+        // Return to the initial state.
+        reiconv_iconv(cd, NULL, NULL, NULL, NULL);
+        errno = err;
         return -1;
     }
     return 0;
-- 
2.43.0


From 8bba2b2952ca11dbd7d45be4d0a0574836fee9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:27 +0000
Subject: [PATCH 07/15] fix: reiconv_convert used the result of a failed
 allocation

It wrote through the null pointer, and a failed realloc lost the caller's
buffer.
---
 lib/iconv.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index ea49af7..642d9b1 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -314,8 +314,16 @@ _CPPP_API int reiconv_convert(reiconv_t cd, const char *input_data, size_t input
         return -1;
     }
 
-    *output_data_ptr =
-        (*output_data_ptr == NULL ? (char *)malloc(output_length) : (char *)realloc(*output_data_ptr, output_length));
+    // At least one byte, so that an empty result is not mistaken for a failed allocation.
+    char *output_data = (char *)realloc(*output_data_ptr, output_length > 0 ? output_length : 1);
+    if (output_data == NULL)
+    {
+        free(*output_data_ptr);
+        *output_data_ptr = NULL;
+        errno = ENOMEM;
+        return -1;
+    }
+    *output_data_ptr = output_data;
 
     if (reiconv_convert_static_size(cd, input_data, input_length, *output_data_ptr, output_length) == -1)
     {
-- 
2.43.0


From ae3bffe12523fb85368575e328a8190e17d00a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:11:27 +0000
Subject: [PATCH 08/15] fix: C++ conversion of invalid input threw length_error
 and leaked

A failed reiconv_result_size was used as a length, and the descriptor was
not closed when allocating the result failed.
---
 lib/reiconv.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/reiconv.cpp b/lib/reiconv.cpp
index f1bc597..df1bb84 100644
--- a/lib/reiconv.cpp
+++ b/lib/reiconv.cpp
@@ -60,13 +60,29 @@ _CPPP_API std::string reiconv::convert(reiconv::Encoding from, reiconv::Encoding
         throw std::system_error(errno, std::system_category(), "reiconv_open_from_index");
     }
     std::size_t outlen = ::reiconv_result_size(cd, input.data(), input.size());
+    if (outlen == (std::size_t)(-1))
+    {
+        int err = errno;
+        ::reiconv_handle_close(cd);
+        throw std::system_error(err, std::system_category(), "reiconv_result_size");
+    }
 
-    std::string res(outlen, '\0');
+    std::string res;
+    try
+    {
+        res.resize(outlen);
+    }
+    catch (...)
+    {
+        ::reiconv_handle_close(cd);
+        throw;
+    }
     char *result = const_cast<char *>(res.data());
     if (::reiconv_convert_static_size(cd, input.data(), input.size(), result, outlen) != 0)
     {
+        int err = errno;
         ::reiconv_handle_close(cd);
-        throw std::system_error(errno, std::system_category(), "reiconv_convert");
+        throw std::system_error(err, std::system_category(), "reiconv_convert");
     }
 
     ::reiconv_handle_close(cd);
-- 
2.43.0


From 816d677373cce109554a7faac0fdf5a3f2efd1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:42 +0000
Subject: [PATCH 09/15] fix: one-shot conversions failed when a discarded
 character came last

The output buffer, sized exactly by reiconv_result_size, is already (nearly)
full when the conversion reaches trailing characters that produce no output,
and the conversion loop reports E2BIG before looking at them.
---
 lib/iconv.c | 30 ++++++++++++++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/lib/iconv.c b/lib/iconv.c
index 642d9b1..ba317b1 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -263,6 +263,32 @@ _CPPP_API size_t reiconv_result_size(reiconv_t cd, const char *start, size_t inl
     return count + outptr - tmpbuf;
 }
 
+/*
+ * Converts, or flushes if inptr is NULL, like reiconv_iconv. A nearly full output buffer is no obstacle as long as what
+ * follows fits, in particular characters that are discarded and produce no output.
+ */
+static size_t convert_exact(reiconv_t cd, char **inptr, size_t *insize, char **outptr, size_t *outsize)
+{
+    size_t res = reiconv_iconv(cd, inptr, insize, outptr, outsize);
+    if (res == (size_t)(-1) && errno == E2BIG)
+    {
+        char spare[64];
+        char *spare_ptr = spare;
+        size_t spare_size = sizeof(spare);
+        res = reiconv_iconv(cd, inptr, insize, &spare_ptr, &spare_size);
+        size_t produced = spare_ptr - spare;
+        if (produced > *outsize)
+        {
+            errno = E2BIG;
+            return (size_t)(-1);
+        }
+        memcpy(*outptr, spare, produced);
+        *outptr += produced;
+        *outsize -= produced;
+    }
+    return res;
+}
+
 _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data, size_t input_length, char *output_data,
                                           size_t output_length)
 {
@@ -272,7 +298,7 @@ _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data,
     size_t outsize = output_length;
     while (insize > 0)
     {
-        size_t res = reiconv_iconv(cd, &inptr, &insize, &outptr, &outsize);
+        size_t res = convert_exact(cd, &inptr, &insize, &outptr, &outsize);
         if (res == (size_t)(-1))
         {
             // Input that ends inside a character is invalid, as for reiconv_result_size.
@@ -283,7 +309,7 @@ _CPPP_API int reiconv_convert_static_size(reiconv_t cd, const char *input_data,
             return -1;
         }
     }
-    if (reiconv_iconv(cd, NULL, NULL, &outptr, &outsize) == (size_t)(-1))
+    if (convert_exact(cd, NULL, NULL, &outptr, &outsize) == (size_t)(-1))
     {
         int err = errno;
         // Return to the initial state.
-- 
2.43.0


From b9b6a7c64bb9c1e9241c7353e560a50f1ce1f828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:19 +0000
Subject: [PATCH 10/15] fix: looking up a non-ASCII encoding name read outside
 the hash table

---
 lib/iconv.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/iconv.c b/lib/iconv.c
index ba317b1..4ff4573 100644
--- a/lib/iconv.c
+++ b/lib/iconv.c
@@ -85,6 +85,10 @@ _CPPP_API int reiconv_lookup_from_name(const char *encoding)
         {
             continue;
         }
+        if ((unsigned char)c >= 0x80) // Names are ASCII; the hash table has no entries for other bytes.
+        {
+            return -1;
+        }
         if (buf_len >= MAX_WORD_LENGTH) // No known name is that long.
         {
             return -1;
-- 
2.43.0


From 9d5673a6fac8302f5640753cf5da461b78ae3ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:06 +0000
Subject: [PATCH 11/15] fix: discarding a character wrote over unused room of
 the output

---
 lib/converters/utf16.h | 2 +-
 lib/converters/utf7.h  | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/converters/utf16.h b/lib/converters/utf16.h
index 63fbb93..8eb174b 100644
--- a/lib/converters/utf16.h
+++ b/lib/converters/utf16.h
@@ -95,7 +95,7 @@ ilseq:
 /* The state is 0 at the beginning, 1 after the BOM has been written. */
 static int utf16_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t n)
 {
-    if (wc != 0xfffe && !(wc >= 0xd800 && wc < 0xe000))
+    if (wc != 0xfffe && wc < 0x110000 && !(wc >= 0xd800 && wc < 0xe000))
     {
         int count = 0;
         if (!conv->ostate)
diff --git a/lib/converters/utf7.h b/lib/converters/utf7.h
index 3335a58..a051b94 100644
--- a/lib/converters/utf7.h
+++ b/lib/converters/utf7.h
@@ -219,6 +219,8 @@ utf7_wctomb (conv_t conv, unsigned char *r, ucs4_t iwc, size_t n)
   state_t state = conv->ostate;
   unsigned int wc = iwc;
   int count = 0;
+  if (wc >= 0x110000)
+    return RET_ILUNI;
   if (state & 3)
     goto active;
 
-- 
2.43.0


From cb827a13007f86c172abb786913847f125940795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:20 +0000
Subject: [PATCH 12/15] fix: GB18030 encoder wrote four bytes into room for two

---
 lib/converters/gb18030_2005.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/converters/gb18030_2005.h b/lib/converters/gb18030_2005.h
index 649b3ea..803ec8b 100644
--- a/lib/converters/gb18030_2005.h
+++ b/lib/converters/gb18030_2005.h
@@ -399,6 +399,8 @@ static int gb18030_2005_wctomb(conv_t conv, unsigned char *r, ucs4_t wc, size_t
                         }
                         else
                         {
+                            if (n < 4)
+                                return RET_TOOSMALL;
                             r[0] = (c >> 24);
                             r[1] = (c >> 16) & 0xff;
                             r[2] = (c >> 8) & 0xff;
-- 
2.43.0


From df3e57740aaebb2ea3076c2c66a4221a65f2d0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:24 +0000
Subject: [PATCH 13/15] fix: JAVA and C99 decoders took the letters G to Z for
 hexadecimal digits

---
 lib/converters/c99.h  | 8 ++++----
 lib/converters/java.h | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/lib/converters/c99.h b/lib/converters/c99.h
index 673d143..4bda537 100644
--- a/lib/converters/c99.h
+++ b/lib/converters/c99.h
@@ -61,9 +61,9 @@ static int c99_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n
                 c = s[i];
                 if (c >= '0' && c <= '9')
                     c -= '0';
-                else if (c >= 'A' && c <= 'Z')
+                else if (c >= 'A' && c <= 'F')
                     c -= 'A' - 10;
-                else if (c >= 'a' && c <= 'z')
+                else if (c >= 'a' && c <= 'f')
                     c -= 'a' - 10;
                 else
                     goto simply_backslash;
@@ -85,9 +85,9 @@ static int c99_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n
                 c = s[i];
                 if (c >= '0' && c <= '9')
                     c -= '0';
-                else if (c >= 'A' && c <= 'Z')
+                else if (c >= 'A' && c <= 'F')
                     c -= 'A' - 10;
-                else if (c >= 'a' && c <= 'z')
+                else if (c >= 'a' && c <= 'f')
                     c -= 'a' - 10;
                 else
                     goto simply_backslash;
diff --git a/lib/converters/java.h b/lib/converters/java.h
index b93172b..9f8d78e 100644
--- a/lib/converters/java.h
+++ b/lib/converters/java.h
@@ -57,9 +57,9 @@ static int java_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t
         c = s[i];
         if (c >= '0' && c <= '9')
             c -= '0';
-        else if (c >= 'A' && c <= 'Z')
+        else if (c >= 'A' && c <= 'F')
             c -= 'A' - 10;
-        else if (c >= 'a' && c <= 'z')
+        else if (c >= 'a' && c <= 'f')
             c -= 'a' - 10;
         else
             goto simply_backslash;
@@ -88,9 +88,9 @@ static int java_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t
         c = s[i];
         if (c >= '0' && c <= '9')
             c -= '0';
-        else if (c >= 'A' && c <= 'Z')
+        else if (c >= 'A' && c <= 'F')
             c -= 'A' - 10;
-        else if (c >= 'a' && c <= 'z')
+        else if (c >= 'a' && c <= 'f')
             c -= 'a' - 10;
         else
             goto simply_backslash;
-- 
2.43.0


From 2ac2cbd784b927e19c0e68aa651080413597c985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:24 +0000
Subject: [PATCH 14/15] fix: HZ decoder read bytes above 0x7F as Latin-1
 characters

---
 lib/converters/hz.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/converters/hz.h b/lib/converters/hz.h
index bbffa0f..847f457 100644
--- a/lib/converters/hz.h
+++ b/lib/converters/hz.h
@@ -93,6 +93,8 @@ static int hz_mbtowc(conv_t conv, ucs4_t *pwc, const unsigned char *s, size_t n)
     }
     if (state == 0)
     {
+        if (c >= 0x80)
+            goto ilseq;
         *pwc = (ucs4_t)c;
         conv->istate = state;
         return count + 1;
-- 
2.43.0


From ab1467e25677929f1031f3eb95faf4d505924ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:26 +0000
Subject: [PATCH 15/15] fix: converters aborted on a gigabyte of consecutive
 shift sequences

The mbtowc functions count the bytes of a run of shift sequences or byte order
marks in an int; the count, or its double, overflowed on runs of a gigabyte and
more and the call ended in abort().
---
 lib/loop_unicode.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/loop_unicode.h b/lib/loop_unicode.h
index a419907..34f890e 100644
--- a/lib/loop_unicode.h
+++ b/lib/loop_unicode.h
@@ -49,7 +49,11 @@ static size_t unicode_loop_convert(reiconv_t icd, const char **inbuf, size_t *in
         ucs4_t wc;
         int incount;
         int outcount;
-        incount = cd->ifuncs.xxx_mbtowc(cd, &wc, inptr, inleft);
+        /*
+         * The mbtowc functions count the bytes of a run of shift sequences in an int and return twice that number. Longer
+         * runs are taken in several steps.
+         */
+        incount = cd->ifuncs.xxx_mbtowc(cd, &wc, inptr, inleft <= RET_COUNT_MAX / 2 ? inleft : RET_COUNT_MAX / 2);
         if (incount < 0)
         {
             if ((unsigned int)(-1 - incount) % 2 == (unsigned int)(-1 - RET_ILSEQ) % 2)
-- 
2.43.0

