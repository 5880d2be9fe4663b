From 3a62b754259a2d9a37f2201ba6208a439f19dfc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:43 +0000
Subject: [PATCH 01/53] fix: StringStream ignored a minimum above the maximum
 and truncated large skips

---
 include/strigi/stringstream.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/strigi/stringstream.h b/include/strigi/stringstream.h
index 64440d0..8267699 100644
--- a/include/strigi/stringstream.h
+++ b/include/strigi/stringstream.h
@@ -110,8 +110,8 @@ StringStream<T>::read(const T*& start, int32_t min, int32_t max) {
         StreamBase<T>::m_status = Eof;
         return -1;
     }
-    if (min < 0) min = 0;
-    int32_t nread = (max > left || max < 1) ?(int32_t)left :max;
+    // a maximum below the minimum means that there is no limit
+    int32_t nread = (max > left || max < min || max < 1) ?(int32_t)left :max;
     start = data + StreamBase<T>::m_position;
     StreamBase<T>::m_position += nread;
     if (StreamBase<T>::m_position == StreamBase<T>::m_size) {
@@ -124,6 +124,9 @@ int64_t
 StringStream<T>::skip(int64_t ntoskip) {
     if (ntoskip == 0) return 0;
     const T* start;
+    // the stream can not be longer than fits in 32 bits
+    const int64_t left = StreamBase<T>::m_size - StreamBase<T>::m_position;
+    if (ntoskip > left) ntoskip = left;
     return read(start, (int32_t)ntoskip, (int32_t)ntoskip);
 }
 template <class T>
-- 
2.43.0


From 7f349b3e56814f049149e82a4c2eb05281c123cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 02/53] fix: SkippingFileInputStream returned 0 at the end and
 did not report read errors

---
 lib/skippingfileinputstream.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index 9759c54..b431c82 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -90,6 +90,8 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
          m_status = Error;
          return -2; // error
     }
+    if (m_status == Error) return -2;
+    if (m_status == Eof) return -1;
     // take a decent buffersize that can hold the request
     int32_t n = max(_min, _max);
     if (_max <= 0) {
@@ -110,6 +112,8 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
     if (nr != n) {
         if (ferror(file)) {
             m_status = Error;
+            m_error = "Could not read from file '" + filepath + "'.";
+            return -2;
         } else {
             m_status = Eof;
             if (m_size == -1) {
@@ -118,7 +122,7 @@ SkippingFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
         }
     }
     start = buffer;
-    return nr;
+    return (nr == 0) ?-1 :nr;
 }
 int64_t
 SkippingFileInputStream::skip(int64_t ntoskip) {
@@ -132,9 +136,11 @@ SkippingFileInputStream::reset(int64_t pos) {
          m_status = Error;
          return -2; // error
     }
+    if (m_status == Error) return -2;
     if (m_size >= 0 && pos > m_size) pos = m_size;
     if (fseek(file, pos, SEEK_SET)) {
         m_status = Error;
+        m_error = "Could not seek in file '" + filepath + "'.";
         return -2;
     }
     m_position = ftell(file);
-- 
2.43.0


From 5cbe2f7532c26852a335df586bbe7a82fb814bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 03/53] fix: MMapFileInputStream returned 0 for an empty file
 and skipped after an error

---
 lib/mmapfileinputstream.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mmapfileinputstream.cpp b/lib/mmapfileinputstream.cpp
index 8552f60..2fbe605 100644
--- a/lib/mmapfileinputstream.cpp
+++ b/lib/mmapfileinputstream.cpp
@@ -75,6 +75,7 @@ MMapFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
     if (n >= m_size - m_position) {
         m_status = Eof;
         n = (int32_t)(m_size - m_position);
+        if (n == 0) return -1;
     }
     start = buffer + m_position;
     m_position += n;
@@ -82,6 +83,7 @@ MMapFileInputStream::read(const char*& start, int32_t _min, int32_t _max) {
 }
 int64_t
 MMapFileInputStream::skip(int64_t ntoskip) {
+    if (m_status == Error) return -2;
     if (ntoskip >= m_size - m_position) {
         ntoskip = m_size - m_position;
         m_status = Eof;
-- 
2.43.0


From 8886062d7ba77359ed7d5ef7556dd7686f66690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 04/53] fix: SubInputStream could leave its window and
 mishandled the end of its input

---
 lib/subinputstream.cpp | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/lib/subinputstream.cpp b/lib/subinputstream.cpp
index ca81173..2da81e1 100644
--- a/lib/subinputstream.cpp
+++ b/lib/subinputstream.cpp
@@ -33,6 +33,8 @@ SubInputStream::SubInputStream(InputStream *i, int64_t length)
 }
 int32_t
 SubInputStream::read(const char*& start, int32_t min, int32_t max) {
+    if (m_status == Error) return -2;
+    if (m_status == Eof) return -1;
     if (m_size != -1) {
         const int64_t left = m_size - m_position;
         if (left == 0) {
@@ -56,8 +58,8 @@ SubInputStream::read(const char*& start, int32_t min, int32_t max) {
             m_status = Eof;
             if (nread > 0) {
                 m_position += nread;
-                m_size = m_position;
             }
+            m_size = m_position;
         } else {
 //            fprintf(stderr, "!!!!!!!!!!!!!!!!!!!!!!!!!!!!!!! nread %i min %i max %i m_size %li\n", nread, min, max, m_size);
 //            fprintf(stderr, "pos %li parentpos %li\n", m_position, m_input->position());
@@ -80,21 +82,28 @@ SubInputStream::reset(int64_t newpos) {
     assert(newpos >= 0);
 //    fprintf(stderr, "subreset pos: %li newpos: %li m_offset: %li m_size: %li\n",
 //         m_position, newpos, m_offset, m_size);
-    m_position = m_input->reset(newpos + m_offset);
-    if (m_position < m_offset) {
-        cerr << "########### m_position " << m_position << " newpos " << newpos
-            << endl;
+    if (m_status == Error) return -2;
+    // do not leave the window
+    if (m_size != -1 && newpos > m_size) newpos = m_size;
+    const int64_t inputpos = m_input->reset(newpos + m_offset);
+    if (m_input->status() == Error) {
         m_status = Error;
         m_error = m_input->error();
-    } else {
-        m_position -= m_offset;
-        m_status = m_input->status();
+        return -2;
     }
+    if (inputpos < m_offset || (m_size != -1 && inputpos > m_offset + m_size)) {
+        m_status = Error;
+        m_error = "Input stream could not be repositioned.";
+        return -2;
+    }
+    m_position = inputpos - m_offset;
+    m_status = (m_position == m_size) ?Eof :Ok;
     return m_position;
 }
 int64_t
 SubInputStream::skip(int64_t ntoskip) {
 //    fprintf(stderr, "subskip pos: %li ntoskip: %li m_offset: %li m_size: %li\n", m_position, ntoskip, m_offset, m_size);
+    if (m_status == Error) return -2;
     if (m_size == m_position) {
         m_status = Eof;
         return -1;
@@ -112,10 +121,14 @@ SubInputStream::skip(int64_t ntoskip) {
         m_status = Error;
         m_error = m_input->error();
     } else {
-        m_position += skipped;
+        if (skipped > 0) m_position += skipped;
+        if (m_size == -1 && skipped < ntoskip) {
+            // the end of an unlimited substream is the end of the input
+            m_size = m_position;
+        }
         if (m_position == m_size) {
             m_status = Eof;
-        } else if (skipped <= 0) {
+        } else if (skipped < ntoskip) {
             m_status = Error;
             m_error = "Premature end of stream\n";
             skipped = -2;
-- 
2.43.0


From cca9779e9662d422d187406af2a4ef9f3338c6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 05/53] fix: StringTerminatedSubStream could pass the
 terminator and mishandled repositioning

---
 lib/stringterminatedsubstream.cpp | 44 +++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 11 deletions(-)

diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index a0c3484..665dda9 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -20,6 +20,7 @@
 #include <strigi/stringterminatedsubstream.h>
 #include <strigi/strigiconfig.h>
 #include <strigi/kmpsearcher.h>
+#include <algorithm>
 #include <cassert>
 #include <iostream>
 
@@ -58,6 +59,9 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     if (m_status == Error) return -2;
     int32_t nread;
 
+    // a maximum below the minimum means that there is no limit
+    if (max < min) max = 0;
+
     // check if we already read enough
     const int64_t pos = p->m_input->position();
     nread = (int32_t)(p->furthest - pos);
@@ -66,12 +70,13 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
             max = nread;
         }
         nread = p->m_input->read(start, min, max);
-        assert(nread >= -1);
-        if (nread > 0) {
+        if (nread < -1) {
+            m_status = Error;
+            m_error = p->m_input->error();
+        } else if (nread > 0) {
+            // if this was the last data, the next call finds the terminator
+            // and positions the input stream after it
             m_position += nread;
-            if (m_position == m_size) {
-                m_status = Eof;
-            }
         }
         return nread;
     }
@@ -92,6 +97,7 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     nread = p->m_input->read(start, tlmin, tlmax);
     if (nread == -1) {
         m_status = Eof;
+        m_size = m_position;
         return nread;
     }
     if (nread < -1) {
@@ -130,19 +136,35 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
     if (nread > 0) m_position += nread;
     if (m_status == Eof) {
         m_size = m_position;
+        if (nread == 0) nread = -1;
     }
     return nread;
 }
 int64_t
 StringTerminatedSubStream::reset(int64_t newpos) {
-    m_position = p->m_input->reset(newpos + p->m_offset);
-    if (m_position >= p->m_offset) {
-        m_position -= p->m_offset;
-        if (m_position != m_size) m_status = Ok;
-    } else {
+    if (m_status == Error) return -2;
+    // do not go beyond the terminator or the part that was searched for it
+    int64_t limit = m_size;
+    if (limit == -1) limit = max(m_position, p->furthest - p->m_offset);
+    if (newpos > limit) newpos = limit;
+    const int64_t inputpos = p->m_input->reset(newpos + p->m_offset);
+    if (inputpos < p->m_offset) {
         // the stream is not positioned at a valid m_position
         m_status = Error;
-        m_position = -1;
+        m_error = p->m_input->error();
+        if (m_error.empty()) {
+            m_error = "Input stream could not be repositioned.";
+        }
+        return -2;
+    }
+    if (m_size != -1 && inputpos > p->m_offset + m_size) {
+        // the input stream is still positioned after the terminator
+        m_position = m_size;
+        m_status = Eof;
+    } else {
+        // if this is the end, the next call finds the terminator again
+        m_position = inputpos - p->m_offset;
+        m_status = Ok;
     }
     return m_position;
 }
-- 
2.43.0


From 7e74d0ad827e8511dfb5eaf39d94dedef5fab1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:37 +0000
Subject: [PATCH 06/53] fix: BZ2InputStream used uninitialised state, refused
 empty data and gave no message for truncated input

---
 lib/bz2inputstream.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/bz2inputstream.cpp b/lib/bz2inputstream.cpp
index d4ec6b4..9ace3cb 100644
--- a/lib/bz2inputstream.cpp
+++ b/lib/bz2inputstream.cpp
@@ -40,17 +40,20 @@ bool
 BZ2InputStream::checkHeader(const char* data, int32_t datasize) {
     static const char magic[] = {0x42, 0x5a};
     static const char compressed_magic[] = {0x31, 0x41, 0x59, 0x26, 0x53, 0x59};
+    // a stream without any data has no blocks
+    static const char empty_magic[] = {0x17, 0x72, 0x45, 0x38, 0x50, (char)0x90};
     if (datasize < 10) return false;
     return (std::memcmp(data, magic, 2) == 0
             && (data[2] == 0x68 || data[2] == 0x30)
-            && std::memcmp(data + 4, compressed_magic, 6) == 0);
+            && (std::memcmp(data + 4, compressed_magic, 6) == 0
+                || std::memcmp(data + 4, empty_magic, 6) == 0));
 }
 BZ2InputStream::BZ2InputStream(InputStream* input) :p(new Private(this, input)){
 }
 BZ2InputStream::Private::Private(BZ2InputStream* bis, InputStream* i)
         :p(bis), input(i) {
     // initialize values that signal state
-    this->input = input;
+    std::memset(&bzstream, 0, sizeof(bzstream));
 
     // check first bytes of stream before allocating buffer
     if (!checkMagic()) {
@@ -111,7 +114,7 @@ BZ2InputStream::Private::readFromStream() {
     const char* inStart;
     int32_t nread;
     nread = input->read(inStart, 1, 0);
-    if (nread <= -1) {
+    if (nread < -1) {
         p->m_status = Error;
         p->m_error = input->error();
     } else if (nread < 1) {
-- 
2.43.0


From 4573c6b81e4a9723592a2170bbf7c1f0f14cbf5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:38 +0000
Subject: [PATCH 07/53] fix: LZMAInputStream gave no error message for
 truncated input

---
 lib/lzmainputstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/lzmainputstream.cpp b/lib/lzmainputstream.cpp
index bfec55a..594f42c 100644
--- a/lib/lzmainputstream.cpp
+++ b/lib/lzmainputstream.cpp
@@ -107,7 +107,7 @@ void
 LZMAInputStream::Private::readFromStream() {
     // read data from the input stream
     avail_in = input->read(next_in, 1, 0);
-    if (avail_in <= -1) {
+    if (avail_in < -1) {
         p->m_status = Error;
         p->m_error = input->error();
     } else if (avail_in < 1) {
-- 
2.43.0


From eb1903181774d12342cfcc3d41a4f4927b5705bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 08/53] fix: Base64InputStream::decode read before the start of
 empty input

---
 lib/base64inputstream.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/base64inputstream.cpp b/lib/base64inputstream.cpp
index 1b344a5..526b11a 100644
--- a/lib/base64inputstream.cpp
+++ b/lib/base64inputstream.cpp
@@ -186,7 +186,7 @@ string
 Base64InputStream::decode(const char* in, string::size_type length) {
     initialize();
     string d;
-    if (length%4) return d;
+    if (length == 0 || length%4) return d;
     initialize();
     string::size_type words = length/4;
     d.reserve(words*3);
-- 
2.43.0


From e7ce9f94c6d5ef656cf6be9bedea7ebc835ef724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 09/53] fix: EncodingInputStream delivered garbage or
 overflowed when a character did not fit the buffer

---
 lib/encodinginputstream.cpp | 43 ++++++++++++++++++++++++++++++++-----
 1 file changed, 38 insertions(+), 5 deletions(-)

diff --git a/lib/encodinginputstream.cpp b/lib/encodinginputstream.cpp
index 7aca985..934ea50 100644
--- a/lib/encodinginputstream.cpp
+++ b/lib/encodinginputstream.cpp
@@ -40,14 +40,23 @@ public:
     iconv_t converter;
     int32_t charsLeft;
     bool finishedEncoding;
+    // true if all input that was read so far has been converted, apart from
+    // an incomplete last character
+    bool needInput;
+    // output of a character that did not fit in the space of the last call
+    char pending[64];
+    int32_t npending;
 
     Private(EncodingInputStream* eis, InputStream* i, const char* inenc,
             const char* outenc) :p(eis), input(i),
-            converter((iconv_t)-1), charsLeft(0), finishedEncoding(false) {
+            converter((iconv_t)-1), charsLeft(0), finishedEncoding(false),
+            needInput(true), npending(0) {
         if (outenc == 0) {
             outenc = "UTF-8";
         }
-        converter = iconv_open(outenc, inenc);
+        if (inenc) {
+            converter = iconv_open(outenc, inenc);
+        }
     }
     ~Private() {
         if (converter != (iconv_t) -1) {
@@ -85,6 +94,13 @@ EncodingInputStream::~EncodingInputStream() {
 }
 int32_t
 EncodingInputStream::Private::decode(char* start, int32_t space) {
+    if (npending > 0) {
+        const int32_t n = (npending < space) ?npending :space;
+        std::memcpy(start, pending, n);
+        npending -= n;
+        std::memmove(pending, pending + n, npending);
+        return n;
+    }
     // decode from charbuf
     ICONV_CONST char *inbuf = charbuf.readPos;
     size_t inbytesleft = charbuf.avail;
@@ -105,11 +121,20 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
             charbuf.readPos = charbuf.start;
             charbuf.avail = (int32_t)inbytesleft;
             nwritten = (int32_t)(outbuf - start);
+            needInput = true;
             break;
         case E2BIG: // output buffer is full
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
-            nwritten = space;
+            nwritten = (int32_t)(outbuf - start);
+            needInput = false;
+            if (nwritten == 0 && space < (int32_t)sizeof(pending)) {
+                // there is not enough space for even one character
+                const int32_t n = decode(pending, sizeof(pending));
+                if (n <= 0) return n;
+                npending = n;
+                return decode(start, space);
+            }
             break;
         default:
             char tmp[10];
@@ -124,6 +149,7 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
         charbuf.readPos = charbuf.start;
         charbuf.avail = 0;
         nwritten = (int32_t)(outbuf - start);
+        needInput = true;
         if (input == 0) {
             finishedEncoding = true;
         }
@@ -132,8 +158,9 @@ EncodingInputStream::Private::decode(char* start, int32_t space) {
 }
 int32_t
 EncodingInputStream::fillBuffer(char* start, int32_t space) {
+    if (p->input == 0 && p->npending == 0) return -1;
     // fill up charbuf
-    if (p->input && p->charbuf.readPos == p->charbuf.start) {
+    if (p->input && p->needInput && p->npending == 0) {
         const char *begin;
         int32_t numRead;
         numRead = p->input->read(begin, 1, p->charbuf.size - p->charbuf.avail);
@@ -150,8 +177,14 @@ EncodingInputStream::fillBuffer(char* start, int32_t space) {
             if (p->charbuf.avail) {
                 m_error = "stream ends on incomplete character";
                 m_status = Error;
+                return -1;
             }
-            return -1;
+            // some encodings end with a sequence that resets their state
+            char* out = p->pending;
+            size_t left = sizeof(p->pending);
+            iconv(p->converter, 0, 0, &out, &left);
+            p->npending = (int32_t)(sizeof(p->pending) - left);
+            return (p->npending > 0) ?p->decode(start, space) :-1;
         }
         // copy data into other buffer
         std::memmove(p->charbuf.start + p->charbuf.avail, begin, numRead);
-- 
2.43.0


From b2d40761ca7e0e100b13fedae8b090243cf13034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:16 +0000
Subject: [PATCH 10/53] fix: DataEventInputStream forgot its size or error
 message when skipping

---
 lib/dataeventinputstream.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/dataeventinputstream.cpp b/lib/dataeventinputstream.cpp
index 91da8ee..d8bcdeb 100644
--- a/lib/dataeventinputstream.cpp
+++ b/lib/dataeventinputstream.cpp
@@ -90,7 +90,12 @@ DataEventInputStream::skip(int64_t ntoskip) {
         skipped = input->skip(ntoskip);
         m_status = input->status();
         m_position = input->position();
-        m_size = input->size();
+        if (m_status == Error) {
+            m_error = input->error();
+        }
+        if (m_size == -1) {
+            m_size = input->size();
+        }
     } else {
         // we call the default implementation because it calls
         // read() which is required for sending the signals
-- 
2.43.0


From fb678fbf32628736f72c7c09f32fccf1291870ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:20 +0000
Subject: [PATCH 11/53] fix: DataEventInputStream invalidated data when moving
 forward within the last read

---
 lib/dataeventinputstream.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/dataeventinputstream.cpp b/lib/dataeventinputstream.cpp
index d8bcdeb..ca2e193 100644
--- a/lib/dataeventinputstream.cpp
+++ b/lib/dataeventinputstream.cpp
@@ -106,12 +106,14 @@ DataEventInputStream::skip(int64_t ntoskip) {
 int64_t
 DataEventInputStream::reset(int64_t np) {
 //    fprintf(stderr, "DataEventInputStream::reset from %lli to %lli.\n", m_position, np);
-    if (np > m_position) {
+    if (np > m_position && totalread != -1 && np > totalread) {
         // advance to the new position, using skip ensure we actually read
         // the files
         skip(np - m_position);
         return m_position;
     }
+    // everything up to the new position has been reported already, so it may
+    // lie in the segment that was read last
 //    fprintf(stderr, "DataEventInputStream::reset\n");
     int64_t newpos = input->reset(np);
     if (newpos < 0) {
@@ -122,7 +124,10 @@ DataEventInputStream::reset(int64_t np) {
     }
 //    fprintf(stderr, "np %lli newpos %lli status %i\n", np, newpos, m_status);
     m_position = newpos;
-    return newpos;
+    if (m_status == Ok && newpos < np) {
+        skip(np - newpos);
+    }
+    return m_position;
 }
 void
 DataEventInputStream::finish() {
-- 
2.43.0


From df46c9560da28906580ab53ce0fafdaf9196eed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 12/53] fix: readLittleEndianInt64 and readBigEndianInt64 of
 unsigned char data read 16 bits

---
 include/strigi/textutils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/strigi/textutils.h b/include/strigi/textutils.h
index d69d4d0..dc6bc91 100644
--- a/include/strigi/textutils.h
+++ b/include/strigi/textutils.h
@@ -107,7 +107,7 @@ inline STREAMS_INLINE_EXPORT uint32_t readLittleEndianUInt32(const unsigned char
     return readLittleEndianUInt32(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT int64_t  readLittleEndianInt64(const unsigned char* c) {
-    return readLittleEndianInt16(reinterpret_cast<const char*>(c));
+    return readLittleEndianInt64(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT uint64_t readLittleEndianUInt64(const unsigned char* c) {
     return readLittleEndianUInt64(reinterpret_cast<const char*>(c));
@@ -125,7 +125,7 @@ inline STREAMS_INLINE_EXPORT uint32_t readBigEndianUInt32(const unsigned char* c
     return readBigEndianUInt32(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT int64_t  readBigEndianInt64(const unsigned char* c) {
-    return readBigEndianInt16(reinterpret_cast<const char*>(c));
+    return readBigEndianInt64(reinterpret_cast<const char*>(c));
 }
 inline STREAMS_INLINE_EXPORT uint64_t readBigEndianUInt64(const unsigned char* c) {
     return readBigEndianUInt64(reinterpret_cast<const char*>(c));
-- 
2.43.0


From 4e9931e9047e58c705b4684ec41712abb334bea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 13/53] fix: zip modification times after 16:00 were read
 wrongly

---
 lib/dostime.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/dostime.cpp b/lib/dostime.cpp
index 8076068..373e294 100644
--- a/lib/dostime.cpp
+++ b/lib/dostime.cpp
@@ -50,7 +50,7 @@ dos2unixtime (unsigned long dostime)
   ltime.tm_year = (int)(dostime >> 25) + 80;
   ltime.tm_mon = ((int)(dostime >> 21) & 0x0f) - 1;
   ltime.tm_mday = (int)(dostime >> 16) & 0x1f;
-  ltime.tm_hour = (int)(dostime >> 11) & 0x0f;
+  ltime.tm_hour = (int)(dostime >> 11) & 0x1f;
   ltime.tm_min = (int)(dostime >> 5) & 0x3f;
   ltime.tm_sec = (int)(dostime & 0x1f) << 1;
 
-- 
2.43.0


From a2ca66110efacad5e074c874213fadf3c62e1cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 14/53] fix: checkUtf8 accepted overlong forms and values above
 U+10FFFF

---
 lib/textutils.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/textutils.cpp b/lib/textutils.cpp
index ae11316..496e2a2 100644
--- a/lib/textutils.cpp
+++ b/lib/textutils.cpp
@@ -34,6 +34,7 @@ Strigi::checkUtf8(const char* p, int32_t length) {
     // check if the text is valid UTF-8
     char nb = 0;
     uint64_t val = 0;
+    uint64_t minval = 0; // smallest value that needs this many bytes
     while (p < end) {
         unsigned char c = *p;
         if (nb) {
@@ -44,6 +45,8 @@ Strigi::checkUtf8(const char* p, int32_t length) {
             if (--nb == 0) {
                 // check the range of the utf 8 value
                 if (val == 0xFFFE || val == 0xFFFF // Noncharacters
+                        // overlong forms and values beyond Unicode
+                        || val < minval || val > 0x10FFFF
                         // surrogate values not allowed in UTF-8
                         || (val >= 0xD800 && val <= 0xDFFF)) {
                     return false;
@@ -52,12 +55,15 @@ Strigi::checkUtf8(const char* p, int32_t length) {
         } else if (c >= 0xC2 && c <= 0xDF) {
             nb = 1;
             val = c & 0x1F;
+            minval = 0x80;
         } else if ((0xF0 & c) == 0xE0) {
             nb = 2;
             val = c & 0x0F;
+            minval = 0x800;
         } else if (c >= 0xF0 && c <= 0xF4) {
             nb = 3;
             val = c & 0x07;
+            minval = 0x10000;
         } else if (c > 0x7F
                 || (c < 0x20 && !(c == 0x9 || c == 0xA || c == 0xD))) {
             return false;
@@ -86,6 +92,7 @@ Strigi::checkUtf8(const char* p, int32_t length, char& nb) {
     const char* end = p + length;
     const char* cs = p;
     uint64_t val = 0;
+    uint64_t minval = 0; // smallest value that needs this many bytes
     // check if the text is valid UTF-8
     nb = 0;
     while (p < end) {
@@ -100,6 +107,8 @@ Strigi::checkUtf8(const char* p, int32_t length, char& nb) {
             if (--nb == 0) {
                 // check the range of the utf 8 value
                 if (val == 0xFFFE || val == 0xFFFF // Noncharacters
+                        // overlong forms and values beyond Unicode
+                        || val < minval || val > 0x10FFFF
                         // surrogate values not allowed in UTF-8
                         || (val >= 0xD800 && val <= 0xDFFF)) {
                     // nb is 0 to signal an error
@@ -109,14 +118,17 @@ Strigi::checkUtf8(const char* p, int32_t length, char& nb) {
         } else if (c >= 0xC2 && c <= 0xDF) {
             cs = p;
             val = c & 0x1F;
+            minval = 0x80;
             nb = 1;
         } else if ((0xF0 & c) == 0xE0) {
             cs = p;
             val = c & 0x0F;
+            minval = 0x800;
             nb = 2;
         } else if (c >= 0xF0 && c <= 0xF4) {
             cs = p;
             val = c & 0x07;
+            minval = 0x10000;
             nb = 3;
         } else if (c > 0x7F
                 || (c < 0x20 && !(c == 0x9 || c == 0xA || c == 0xD))) {
-- 
2.43.0


From e692b81930c277e20122b8f7f96058d7120ffea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:34 +0000
Subject: [PATCH 15/53] fix: TarInputStream misread long names, prefixes, large
 numbers and premature ends

---
 include/strigi/tarinputstream.h |  2 +-
 lib/tarinputstream.cpp          | 82 ++++++++++++++++++++++++---------
 2 files changed, 62 insertions(+), 22 deletions(-)

diff --git a/include/strigi/tarinputstream.h b/include/strigi/tarinputstream.h
index 41692a7..2cef99d 100644
--- a/include/strigi/tarinputstream.h
+++ b/include/strigi/tarinputstream.h
@@ -46,7 +46,7 @@ private:
     void readFileName(int32_t len);
     const char* readHeader();
     void parseHeader();
-    int32_t readOctalField(const char *b, int32_t offset);
+    int64_t readOctalField(const char *b, int32_t offset);
     void readLongLink(const char *b);
 public:
     explicit TarInputStream(InputStream *input);
diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index ecda8d7..e6b63da 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -53,10 +53,18 @@ TarInputStream::readHeader() {
     // read the first 512 characters
     const char *begin;
     int32_t nread = m_input->read(begin, 512, 512);
-    if (nread == 0 || m_input->status() == Eof) {
-        m_status = Eof;
-    } else if (nread != 512) {
-        m_status = Error;
+    if (nread != 512) {
+        if (nread <= 0 && m_input->status() == Eof) {
+            m_status = Eof;
+        } else {
+            m_status = Error;
+            m_error = "Error reading header: ";
+            if (m_input->status() == Error) {
+                m_error += m_input->error();
+            } else {
+                m_error += " premature end of file.";
+            }
+        }
     }
     return begin;
 }
@@ -140,19 +148,39 @@ TarInputStream::parseHeader() {
     }
     if (len > 100) len = 100;
     m_entryinfo.filename.resize(0);
-    if (len == 13 && strncmp(hb, "././@LongLink", 13) == 0) {
+    while (len == 13 && strncmp(hb, "././@LongLink", 13) == 0) {
         readLongLink(hb);
         if (m_status) return;
         hb = readHeader();
-        if (m_status) return;
-    } else if (len > 1 && hb[0] == '.' && hb[1] == '/') {
-        // skip initial './' part of filename
-        if (len == 2) { // skip entry './'
-            return parseHeader();
+        if (m_status) {
+            m_status = Error;
+            m_error = "Premature end of file.";
+            return;
+        }
+        if (!checkHeader(hb, 257)) {
+            m_error = "Invalid tar header.\n";
+            m_status = Error;
+            return;
+        }
+        len = std::strlen(hb);
+        if (len > 100) len = 100;
+    }
+    if (m_entryinfo.filename.length() == 0) {
+        if (memcmp(hb+257, "ustar", 6) == 0 && hb[345]) {
+            // the first part of a long name is in the prefix field
+            size_t plen = 0;
+            while (plen < 155 && hb[345+plen]) ++plen;
+            m_entryinfo.filename.append(hb+345, plen);
+            m_entryinfo.filename.append(1, '/');
+        }
+        m_entryinfo.filename.append(hb, len);
+        if (m_entryinfo.filename.compare(0, 2, "./") == 0) {
+            // skip initial './' part of filename
+            if (m_entryinfo.filename.length() == 2) { // skip entry './'
+                return parseHeader();
+            }
+            m_entryinfo.filename.erase(0, 2);
         }
-        m_entryinfo.filename.append(hb, 2, len-2);
-    } else {
-        m_entryinfo.filename.append(hb, 0, len);
     }
 
     // read the file size which is in octal format
@@ -167,7 +195,7 @@ TarInputStream::parseHeader() {
     }
 
     len = m_entryinfo.filename.length();
-    if (m_entryinfo.filename[len-1] == '/') {
+    if (len && m_entryinfo.filename[len-1] == '/') {
         m_entryinfo.filename.resize(len-1);
     }
     // read file type
@@ -180,11 +208,11 @@ TarInputStream::parseHeader() {
     }
 //    printf("!%s %i\n", m_entryinfo.filename.c_str(), hb[156]);
 }
-int32_t
+int64_t
 TarInputStream::readOctalField(const char *b, int32_t offset) {
-    int32_t val;
-    int r = sscanf(b+offset, "%o", &val);
-    if (r != 1) {
+    unsigned long long val;
+    int r = sscanf(b+offset, "%llo", &val);
+    if (r != 1 || val > 0xfffffffffffULL) {
         m_status = Error;
         m_error = "Error reading header: octal field is not a valid integer.";
         return 0;
@@ -193,13 +221,21 @@ TarInputStream::readOctalField(const char *b, int32_t offset) {
 }
 void
 TarInputStream::readLongLink(const char *b) {
-    int32_t toread = readOctalField(b, 124);
+    int64_t size = readOctalField(b, 124);
+    if (m_status) return;
+    if (size == 0 || size > 0x100000) {
+        m_status = Error;
+        m_error = "Error reading LongLink: invalid length.";
+        return;
+    }
+    // 'K' is the name of a link target
+    bool isName = b[156] != 'K';
+    int32_t toread = (int32_t)size;
     int32_t left = toread%512;
     if (left) {
         left = 512 - left;
     }
     const char *begin;
-    if (m_status) return;
     int32_t nread = m_input->read(begin, toread, toread);
     if (nread != toread) {
             m_status = Error;
@@ -211,7 +247,11 @@ TarInputStream::readLongLink(const char *b) {
             }
             return;
     }
-    m_entryinfo.filename.append(begin, nread);
+    if (isName) {
+        size_t len = 0;
+        while ((int32_t)len < nread && begin[len]) ++len;
+        m_entryinfo.filename.assign(begin, len);
+    }
 
     int64_t skipped = m_input->skip(left);
     if (skipped != left) {
-- 
2.43.0


From 5e396360e6bf5da26bd39b9c381799f4d865bf4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 16/53] fix: ZipInputStream took truncated archives for
 complete ones

---
 lib/zipinputstream.cpp | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index bd2a20c..0ef7d6f 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -59,6 +59,11 @@ ZipInputStream::nextEntry() {
 	// the end by skipping in the compressed stream, without decompressing
         if (compressedEntryStream) {
             compressedEntryStream->skip(compressedEntryStream->size());
+            if (compressedEntryStream->status() == Error) {
+                m_status = Error;
+                m_error = compressedEntryStream->error();
+                return 0;
+            }
             delete compressedEntryStream;
             compressedEntryStream = 0;
             delete uncompressionStream;
@@ -68,11 +73,9 @@ ZipInputStream::nextEntry() {
             const char* c;
             int64_t p = m_input->position();
             int32_t n = m_input->read(c, 16, 16);
-            if (n == 16) {
-                n = readLittleEndianUInt32((const unsigned char*)c);
-                if (n != 0x08074b50) {
-                    m_input->reset(p);
-                }
+            if (n > 0 && (n != 16 || readLittleEndianUInt32(
+                    (const unsigned char*)c) != 0x08074b50)) {
+                m_input->reset(p);
             }
         } else {
             int64_t size = m_entrystream->size();
@@ -82,6 +85,11 @@ ZipInputStream::nextEntry() {
             while (m_entrystream->status() == Ok) {
                 m_entrystream->skip(size);
             }
+            if (m_entrystream->status() == Error) {
+                m_status = Error;
+                m_error = m_entrystream->error();
+                return 0;
+            }
             if (m_entryinfo.size < 0) {
                 // skip the data descriptor that occurs after the data
                 const char* c;
@@ -148,6 +156,11 @@ ZipInputStream::readHeader() {
     // read the first 30 characters
     toread = 30;
     nread = m_input->read(b, toread, toread);
+    if (nread == -1) {
+        // there is no directory after the last entry
+        m_status = Eof;
+        return;
+    }
     if (nread != toread) {
         m_error = "Error reading zip header: ";
         if (nread == -1) {
-- 
2.43.0


From 96824a1168be794a850dd47889f541e53c3124c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:47 +0000
Subject: [PATCH 17/53] fix: ArInputStream took truncated archives for complete
 ones and misread names and tables

---
 lib/arinputstream.cpp | 136 ++++++++++++++++++++++++------------------
 1 file changed, 78 insertions(+), 58 deletions(-)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 65c3fda..63f5991 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -38,6 +38,7 @@ ArInputStream::ArInputStream(InputStream* input)
     const char*b;
     if (input->read(b, 8, 8) != 8 || !checkHeader(b, 8)) {
         m_status = Error;
+        m_error = "No valid ar header.";
     }
 }
 ArInputStream::~ArInputStream() {
@@ -47,6 +48,11 @@ ArInputStream::nextEntry() {
     if (m_status) return 0;
     if (m_entrystream) {
         m_entrystream->skip(m_entrystream->size());
+        if (m_entrystream->status() == Error) {
+            m_status = Error;
+            m_error = m_entrystream->error();
+            return 0;
+        }
         delete m_entrystream;
         m_entrystream = 0;
     }
@@ -61,63 +67,62 @@ ArInputStream::readHeader() {
     int32_t toread;
     int32_t nread;
 
-    int64_t pos = m_input->position();
-    if (pos%2) {
-        m_input->skip(1);
-    }
-
-    // read the first 60 characters
-    toread = 60;
-    nread = m_input->read(b, toread, toread);
-    if (m_input->status() == Error) {
-        m_error = "Error reading ar header: ";
-        m_error += m_input->error();
-        m_status = Error;
-        return;
-    }
-    if (nread <= 1) { // allow for a closing byte
-        m_status = Eof;
-        return;
-    }
-    if (nread != toread) {
-        m_error = "Error reading ar header: premature end of file.";
-        m_status = Error;
-        return;
-    }
-    int len;
-    for (len=0; len<16; len++) {
-        char c = b[len];
-        if (c == ' ' || c == '/' || c == '\0') {
-            break;
+    // skip over the tables until the header of an entry is found
+    for (;;) {
+        int64_t pos = m_input->position();
+        if (pos%2) {
+            m_input->skip(1);
         }
-    }
 
-    // we must copy this string to safely call atoi
-    char bc[61];
-    std::memcpy(bc, b, 60);
-    bc[60] = '\0';
-    m_entryinfo.size = atoi(bc+48);
-    if (m_entryinfo.size < 0) {
-        m_error = "Error: negative file size.";
-        m_status = Error;
-        return;
-    }
-    m_entryinfo.mtime = atoi(bc+16);
-    if (len == 0) {
-        if (b[1] == '/') {
-            // fprintf(stderr, "SIZE: %lli\n", m_entryinfo.size);
-            nread = m_input->read(b, (int32_t)m_entryinfo.size, (int32_t)m_entryinfo.size);
-            if (nread != m_entryinfo.size) {
-                m_error = "premature end of stream";
-                m_status = Error;
-                return;
+        // read the first 60 characters
+        toread = 60;
+        nread = m_input->read(b, toread, toread);
+        if (m_input->status() == Error) {
+            m_error = "Error reading ar header: ";
+            m_error += m_input->error();
+            m_status = Error;
+            return;
+        }
+        if (nread <= 0 || (nread == 1 && *b == '\n')) { // allow for a closing byte
+            m_status = Eof;
+            return;
+        }
+        if (nread != toread) {
+            m_error = "Error reading ar header: premature end of file.";
+            m_status = Error;
+            return;
+        }
+        // the name ends at a '/' or, in other variants, before trailing spaces
+        int len;
+        for (len=0; len<16; len++) {
+            char c = b[len];
+            if (c == '/' || c == '\0') {
+                break;
             }
-            gnufilenames.assign(b, (unsigned int)m_entryinfo.size);
-            readHeader();
-        } else if (b[1] == ' ') {
-            m_input->skip(m_entryinfo.size);
-            readHeader();
-        } else {
+        }
+        if (len == 16) {
+            while (len > 0 && b[len-1] == ' ') {
+                len--;
+            }
+        }
+
+        // we must copy this string to safely call atoll
+        char bc[61];
+        std::memcpy(bc, b, 60);
+        bc[60] = '\0';
+        m_entryinfo.size = atoll(bc+48);
+        if (m_entryinfo.size < 0) {
+            m_error = "Error: negative file size.";
+            m_status = Error;
+            return;
+        }
+        m_entryinfo.mtime = atoll(bc+16);
+        m_entryinfo.type = Strigi::EntryInfo::File;
+        if (len > 0) {
+            m_entryinfo.filename = std::string(b, len);
+            return;
+        }
+        if (b[1] != '/' && b[1] != ' ') {
             uint p = atoi(bc+1);
             if (gnufilenames.length() <= p) {
                 m_error = "Invalid name field.";
@@ -125,15 +130,30 @@ ArInputStream::readHeader() {
                 return;
             }
             const char* c = gnufilenames.c_str() + p;
-            const char* e = std::strchr(c, '/');
+            const char* e = std::strstr(c, "/\n");
             if (e) {
                 m_entryinfo.filename = std::string(c, e-c);
             } else {
                 m_entryinfo.filename = c;
             }
+            return;
+        }
+        if (m_entryinfo.size == 0) {
+            continue;
+        }
+        if (b[1] == '/' && m_entryinfo.size <= 0x7fffffff) {
+            // fprintf(stderr, "SIZE: %lli\n", m_entryinfo.size);
+            nread = m_input->read(b, (int32_t)m_entryinfo.size, (int32_t)m_entryinfo.size);
+            if (nread != m_entryinfo.size) {
+                m_error = "premature end of stream";
+                m_status = Error;
+                return;
+            }
+            gnufilenames.assign(b, (unsigned int)m_entryinfo.size);
+        } else if (m_input->skip(m_entryinfo.size) != m_entryinfo.size) {
+            m_error = "premature end of stream";
+            m_status = Error;
+            return;
         }
-    } else {
-        m_entryinfo.filename = std::string(b, len);
     }
-    m_entryinfo.type = Strigi::EntryInfo::File;
 }
-- 
2.43.0


From a9c3e9b451a6c5fa6621025b30160a7823f311eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 18/53] fix: CpioInputStream took truncated archives for
 complete ones and failed on large or invalid fields

---
 include/strigi/cpioinputstream.h |  2 +-
 lib/cpioinputstream.cpp          | 35 +++++++++++++++++++++-----------
 2 files changed, 24 insertions(+), 13 deletions(-)

diff --git a/include/strigi/cpioinputstream.h b/include/strigi/cpioinputstream.h
index ec44ea7..afd1db7 100644
--- a/include/strigi/cpioinputstream.h
+++ b/include/strigi/cpioinputstream.h
@@ -31,7 +31,7 @@ private:
     char padding;
 
     void readHeader();
-    int32_t readHexField(const char *b);
+    uint32_t readHexField(const char *b);
 public:
     explicit CpioInputStream(InputStream* input);
     ~CpioInputStream();
diff --git a/lib/cpioinputstream.cpp b/lib/cpioinputstream.cpp
index 5ae2f13..6e35466 100644
--- a/lib/cpioinputstream.cpp
+++ b/lib/cpioinputstream.cpp
@@ -53,18 +53,20 @@ CpioInputStream::nextEntry() {
         while (m_entrystream->status() == Ok) {
             m_entrystream->skip(m_entrystream->size());
         }
+        if (m_entrystream->status() == Error) {
+            m_status = Error;
+            m_error = m_entrystream->error();
+        }
         delete m_entrystream;
         m_entrystream = 0;
+        if (m_status) return 0;
         if (padding) {
             m_input->skip(padding);
         }
     }
     readHeader();
+    if (m_status) return 0;
     m_entrystream = new SubInputStream(m_input, m_entryinfo.size);
-    if (m_status) {
-        delete m_entrystream;
-        m_entrystream = 0;
-    }
     return m_entrystream;
 }
 void
@@ -78,12 +80,13 @@ CpioInputStream::readHeader() {
     toread = 110;
     nread = m_input->read(b, toread, toread);
     if (nread != toread) {
-        m_status = m_input->status();
-        if (m_status == Eof) {
+        if (nread == -1) {
+            m_status = Eof;
             return;
         }
+        m_status = Error;
         m_error = "Error reading cpio entry: ";
-        if (nread == -1) {
+        if (m_input->status() == Error) {
             m_error += m_input->error();
         } else {
             m_error += " premature end of file.";
@@ -99,7 +102,12 @@ CpioInputStream::readHeader() {
     }
     m_entryinfo.size = readHexField(b+54);
     m_entryinfo.mtime = readHexField(b+46);
+    m_entryinfo.type = (readHexField(b+14) & 0170000) == 0040000
+        ?EntryInfo::Dir :EntryInfo::File;
     int32_t filenamesize = readHexField(b+94);
+    if (filenamesize < 1 || filenamesize > 0x100000) {
+        m_status = Error;
+    }
     if (m_status) {
         m_error = "Error parsing entry field.";
         return;
@@ -120,6 +128,7 @@ CpioInputStream::readHeader() {
     int32_t len = filenamesize - 1;
     if (len > 2 && b[0] == '.' && b[1] == '/') {
         b += 2;
+        filenamesize -= 2;
     }
     // check if the name is not shorter than specified
     len = 0;
@@ -131,19 +140,21 @@ CpioInputStream::readHeader() {
         m_status = Eof;
     }
 }
-int32_t
+uint32_t
 CpioInputStream::readHexField(const char *b) {
-    int32_t val = 0;
+    uint32_t val = 0;
     char c;
     for (unsigned char i=0; i<8; ++i) {
         val <<= 4;
         c = b[i];
-        if (c > 'F') {
+        if (c >= 'a' && c <= 'f') {
             val += c - 87;
-        } else if (c > '9') {
+        } else if (c >= 'A' && c <= 'F') {
             val += c - 55;
-        } else {
+        } else if (c >= '0' && c <= '9') {
             val += c - 48;
+        } else {
+            m_status = Error;
         }
     }
     return val;
-- 
2.43.0


From 08eb7e30005af8accfddbfb3fde0870538000a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 19/53] fix: RpmInputStream did not check the lengths in its
 headers

---
 lib/rpminputstream.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/lib/rpminputstream.cpp b/lib/rpminputstream.cpp
index 9673284..01ac6f5 100644
--- a/lib/rpminputstream.cpp
+++ b/lib/rpminputstream.cpp
@@ -68,11 +68,15 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     int32_t nindex = readBigEndianInt32(b+8);
     int32_t hsize = readBigEndianInt32(b+12);
+    if (nindex < 0 || nindex > 0xffffff || hsize < 0 || hsize > 0xfffffff) {
+        m_error = "m_error in signature\n";
+        return;
+    }
     int32_t sz = nindex*16+hsize;
     if (sz%8) {
         sz+=8-sz%8;
     }
-    if (m_input->read(b, sz, sz) != sz) {
+    if (sz > 0 && m_input->read(b, sz, sz) != sz) {
         m_error = "RPM seems to be truncated or corrupted.";
         return;
     }
@@ -84,8 +88,12 @@ RpmInputStream::RpmInputStream(InputStream* input)
     }
     nindex = readBigEndianInt32(b+8);
     hsize = readBigEndianInt32(b+12);
+    if (nindex < 0 || nindex > 0xffffff || hsize < 0 || hsize > 0xfffffff) {
+        m_error = "m_error in header\n";
+        return;
+    }
     int32_t size = nindex*16+hsize;
-    if (m_input->read(b, size, size) != size) {
+    if (size > 0 && m_input->read(b, size, size) != size) {
         m_error = "could not read header\n";
         return;
     }
-- 
2.43.0


From 9aa0b886a7615af81c1f8b20394caa38d2f30772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:11 +0000
Subject: [PATCH 20/53] fix: SdfInputStream lost bytes of records and missed
 delimiters

---
 lib/sdfinputstream.cpp | 76 ++++++++++++++++++++++--------------------
 1 file changed, 39 insertions(+), 37 deletions(-)

diff --git a/lib/sdfinputstream.cpp b/lib/sdfinputstream.cpp
index 16e41d7..8639704 100644
--- a/lib/sdfinputstream.cpp
+++ b/lib/sdfinputstream.cpp
@@ -82,18 +82,15 @@ InputStream*
 SdfInputStream::nextEntry() {
     if (m_status != Ok) return 0;
 
-    m_input->reset(previousStartOfDelimiter);
-    int32_t nread = 0;
-
-    // read anything that's left over in the previous substream
+    // skip anything that's left over in the previous substream
     if (substream) {
-        substream->reset(0);
-        const char* dummy;
-        while (substream->status() == Ok) {
-            substream->read(dummy, 1, 0);
+        if (substream->status() == Ok) {
+            substream->skip(substream->size() - substream->position());
         }
-        if (substream->status() == Error) {
+        const bool failed = substream->status() == Error;
+        if (failed) {
             m_status = Error;
+            m_error = substream->error();
         }
         if (substream && substream != m_entrystream) {
             delete substream;
@@ -101,19 +98,22 @@ SdfInputStream::nextEntry() {
         substream = 0;
         delete m_entrystream;
         m_entrystream = 0;
-    
+        if (failed) return 0;
+
         m_input->reset(previousStartOfDelimiter);
-    
-        // eat delimiter and following newlines
-        if (m_input->status() == Ok) {
-            nread = m_input->read(dummy, 4, 4);
-            if (nread == 4 && strncmp(dummy, delimiter.c_str(), 4) == 0) {
-                m_input->read(dummy, 1, 1);
-                while (m_input->status() == Ok && (
-                        strncmp(dummy, "\n", 1) == 0
-                        || strncmp(dummy, "\r", 1) == 0)) {
-                    m_input->read(dummy, 1, 1);
+
+        // eat the delimiter and the end of its line
+        const char* dummy;
+        int32_t n = m_input->read(dummy, 4, 4);
+        if (n == 4) {
+            n = m_input->read(dummy, 1, 1);
+            if (n == 1 && *dummy == '\r') {
+                n = m_input->read(dummy, 1, 1);
+                if (n == 1 && *dummy != '\n') {
+                    m_input->reset(m_input->position() - 1);
                 }
+            } else if (n == 1 && *dummy != '\n') {
+                m_input->reset(m_input->position() - 1);
             }
         }
     }
@@ -121,31 +121,33 @@ SdfInputStream::nextEntry() {
     // we can not check it in checkHeader due to low header size limit
     // There is only one way to destinguish between MOL and SD:
     // MOL does not have $$$$ delimiter. Return no entries if it is a MOL.
-    const char* start;
-    const char* end;
-    int32_t total = 0;
+    // The record is read in one go because only the last read can be undone.
     const int64_t pos = m_input->position();
-    int64_t len=0;
-    
+    int32_t toread = 1024;
+    int64_t len = 0;
+
     while (m_input->status() == Ok) {
-        nread = m_input->read(start, 1024, 0);
-        if (nread > 0) {
-            end = m_searcher.search(start, nread);
-            if (end) {
-                len = end - start + total;
-                break;
-            }
-            total += nread;
-        }    
-    }    
+        const char* start;
+        int32_t nread = m_input->read(start, toread, 0);
+        if (nread <= 0) break;
+        const char* end = m_searcher.search(start, nread);
+        if (end) {
+            len = end - start;
+            break;
+        }
+        if (m_input->status() != Ok || nread > 0x20000000) break;
+        m_input->reset(pos);
+        toread = 2 * nread;
+    }
     if (m_input->status() == Error) {
         m_status = Error;
+        m_error = m_input->error();
         m_entrystream = 0;
         return 0;
     }
-    
+
     m_input->reset(pos);
-    
+
     if (len > 0) {
         // this stream is an SD
         substream = new SubInputStream(m_input, len);
-- 
2.43.0


From aedaf37cd3f6901ced44cb3f05b8dd80f837fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:19 +0000
Subject: [PATCH 21/53] fix: OleInputStream checked bounds wrongly, freed its
 entry twice and turned errors into ends

---
 lib/oleinputstream.cpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index 343e1d5..705b3cc 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -114,13 +114,14 @@ OleEntryStream::fillBuffer(char* start, int32_t space) {
         d = parent->getCurrentSmallBlock();
         if (d == 0) {
             m_status = Error;
+            m_error = "Invalid OLE small block.";
             fprintf(stderr, "error in small blocks\n");
 	    return -1;
         }
     } else {
         d = parent->data+(1+parent->currentDataBlock)*512;
     }
-    if (d < parent->data || parent->data + parent->size < d + n) {
+    if (d < parent->data || parent->data + parent->size < d + blockoffset + n) {
         m_status = Error;
         m_error = "Invalid OLE stream.";
         cerr << "not 0 < " << d-parent->data << " < " << m_size << " "
@@ -143,6 +144,7 @@ OleEntryStream::fillBuffer(char* start, int32_t space) {
             if (parent->currentDataBlock != -2 || done != m_size) {
                 fprintf(stderr, "error: %i\n", parent->currentDataBlock);
                 m_status = Error;
+                m_error = "Invalid OLE block chain.";
                 n = -1;
             }
         }
@@ -155,7 +157,7 @@ OleInputStream::OleInputStream(InputStream* input) :SubStreamProvider(input),
 }
 bool
 OleInputStream::Private::readInt32(int32_t offset, int32_t& val) {
-    if (offset < 0 || offset + 4 >= size) {
+    if (offset < 0 || offset > size - 4) {
         stream->m_status = Error;
         stream->m_error = string("pointer out of range.");
         return false;
@@ -181,23 +183,26 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     int32_t xBatOffset = readLittleEndianInt32(data+0x44);
     int32_t nXBat = readLittleEndianInt32(data+0x48);
     if (!checkHeader(data, size) || nBat < 0 || nBat > 128*nXBat+109
-            || nXBat < 0) {
+            || nXBat < 0 || nXBat > 0xffff) {
         stream->m_status = Error;
         stream->m_error = "Invalid OLE file.";
         return;
     }
     int32_t max = 0;
-    batIndex.reserve(nBat);
-    data += 76;
     for (int i = 0; i < ::min(109, nBat); ++i) {
         int32_t p;
-        if (!readInt32(4*i, p)) { return; }
+        if (!readInt32(76 + 4*i, p)) { return; }
         batIndex.push_back(p);
         if (p > max) max = p;
     }
     if (ptOffset > max) max = ptOffset;
     if (128*(nBat-1) > max) max = 128*(nBat-1);
 
+    if (ptOffset < 0 || max > 0x3ffffd) {
+        stream->m_status = Error;
+        stream->m_error = "Invalid OLE file.";
+        return;
+    }
     int32_t toread = (max+2)*512;
     if (input->size() >= 0 && input->size() < toread) {
         stream->m_status = Error;
@@ -214,6 +219,11 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
         return;
     }
     maxindex = size/512-2;
+    if (ptOffset > maxindex) {
+        stream->m_status = Error;
+        stream->m_error = "File is incomplete.";
+        return;
+    }
 
     // read any remaining BAT entries from XBAT blocks
     xBatOffset = 512 + 512 * xBatOffset;
@@ -267,6 +277,7 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
 }
 OleInputStream::~OleInputStream() {
     delete p;
+    m_entrystream = 0;
 }
 OleInputStream::Private::~Private() {
     delete entrystream;
@@ -378,8 +389,9 @@ OleInputStream::Private::readEntryInfo() {
 }
 InputStream*
 OleInputStream::nextEntry() {
+    if (m_status != Ok) return 0;
     m_entrystream = p->nextEntry();
-    if (!m_entrystream) m_status = Eof;
+    if (!m_entrystream && m_status == Ok) m_status = Eof;
     return m_entrystream;
 }
 InputStream*
@@ -389,6 +401,10 @@ OleInputStream::Private::nextEntry() {
         if (++currentTableIndex == 4) {
             currentTableBlock = nextBlock(currentTableBlock);
             if (currentTableBlock < 0) {
+                if (currentTableBlock != -2) {
+                    stream->m_status = Error;
+                    stream->m_error = "Invalid OLE directory.";
+                }
                 return 0;
             }
             currentTableIndex = 0;
-- 
2.43.0


From 7124e76199f70184920e317684535ec9f1037eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:34 +0000
Subject: [PATCH 22/53] fix: MailInputStream lost or changed header values and
 part contents, and took errors for ends

---
 lib/mailinputstream.cpp | 45 ++++++++++++++++++++++++++---------------
 1 file changed, 29 insertions(+), 16 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index de95840..3525ac1 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -187,11 +187,17 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
 
             // continue after the quoted data
             s = p = end + 2;
-        } else if (e-s > 3 && s[0] == 13 && s[1] == 10
-                && (s[2] == 9 || s[2] == 32)) {
-            // skip the CRLF WSP used for folding the header lines
+        } else if ((e-s > 2 && s[0] == 13 && s[1] == 10
+                && (s[2] == 9 || s[2] == 32))
+                || (e-s > 1 && s[0] == 10 && (s[1] == 9 || s[1] == 32))) {
+            // skip the line end used for folding the header lines
+            bool afterEncoded = p == s && s > v;
             decoded.append(p, s-p);
-            s = p = s + 4;
+            s = p = (*s == 13) ?s + 2 :s + 1;
+            // white space between encoded words is not part of the value
+            if (afterEncoded && e-s > 8 && s[1] == '=' && s[2] == '?') {
+                s = p = s + 1;
+            }
         } else {
             s++;
         }
@@ -384,7 +390,13 @@ MailInputStream::Private::readHeaderLine() {
         nread = m->m_input->read(linestart, linepos+1, maxlinesize);
         if (nread < linepos+1) {
             completeLine = true;
-            lineend = linestart + nread;
+            if (m->m_input->status() == Error) {
+                lineend = linestart;
+                m->m_status = Error;
+                m->m_error = m->m_input->error();
+                return;
+            }
+            lineend = (nread > 0) ?linestart + nread :linestart;
             m->m_status = Eof;
             return;
         }
@@ -421,7 +433,7 @@ MailInputStream::Private::readHeaderLine() {
                         state = 0;
                     }
                 } else if (state == 2) { // '\n'
-                    if (c == '\n' || !isspace(c)) { // end
+                    if (c == '\n' || linepos == 1 || !isspace(c)) { // end
                         completeLine = true;
                         lineend = linestart + linepos - 1;
                         break;
@@ -456,15 +468,16 @@ MailInputStream::Private::value(const char* n, const string& headerline) const {
     }
     v += nl;
     v += strspn(v, "= \n\r");
-    const char* vend = strchr(v, ';');
+    const char* vend;
+    if (*v == '"') {
+        vend = strchr(++v, '"');
+    } else {
+        vend = strchr(v, ';');
+    }
     if (vend == 0) {
         vend = hl + headerline.length();
     }
-    if (*v == '"' && vend-v > 2) {
-        value.assign(v+1, vend-v-2);
-    } else {
-        value.assign(v, vend-v);
-    }
+    value.assign(v, vend-v);
     return value;
 }
 void
@@ -521,9 +534,7 @@ MailInputStream::Private::handleHeaderLine() {
     static const char* contentdisposition = "Content-Disposition:";
     int32_t len = (int32_t)(lineend - linestart);
     if (len < 2) return;
-    if (len < 8) {
-        return;
-    } else if (strncasecmp(linestart, subject, 8) == 0) {
+    if (strncasecmp(linestart, subject, 8) == 0) {
         int32_t offset = 8;
         while (offset < len && isspace(linestart[offset])) offset++;
         m->m_subject = decoder.decodedHeaderValue(linestart+offset, len-offset);
@@ -603,10 +614,10 @@ MailInputStream::Private::handleBodyLine() {
     if (boundary.size() > n) {
         return false;
     }
-    readHeaderLine();
     if (m->m_status != Ok) {
         return false;
     }
+    m->m_input->reset(nextLineStartPosition);
 
     // get the filename
     m->m_entryinfo.filename = value("filename", m_contentdisposition);
@@ -647,6 +658,7 @@ MailInputStream::nextEntry() {
     if (p->boundary.size() == 0) {
         // signal eof because we only return eof once
         m_status = Eof;
+        m_input->reset(p->nextLineStartPosition);
         m_entrystream = new SubInputStream(m_input);
         m_entryinfo.filename = "body";
         return m_entrystream;
@@ -659,6 +671,7 @@ MailInputStream::nextEntry() {
         }
         if (p->substream->status() == Error) {
             m_status = Error;
+            m_error = p->substream->error();
         } else {
             p->nextLineStartPosition = p->substream->offset()
                 + p->substream->size();
-- 
2.43.0


From ddf2ade4b89ecdc8488d1fd9293074a592a955cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:27 +0000
Subject: [PATCH 23/53] fix: OleInputStream omitted small streams that start at
 a high small block

---
 lib/oleinputstream.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index 705b3cc..ad8b25a 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -383,7 +383,9 @@ OleInputStream::Private::readEntryInfo() {
     currentDataBlock = readLittleEndianInt32(d+0x74);
     currentStreamSize = readLittleEndianInt32(d+0x78);
     stream->m_entryinfo.size = currentStreamSize;
-    if (currentDataBlock > maxindex || currentStreamSize <= 0) {
+    // small streams start at a small block
+    int32_t maxblock = (currentStreamSize < 4096) ?maxsindex :maxindex;
+    if (currentDataBlock > maxblock || currentStreamSize <= 0) {
         currentDataBlock = -1;
     }
 }
-- 
2.43.0


From b42f3ade8e86da7f8dbd2f4ae1f6c0928d20b3cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:42 +0000
Subject: [PATCH 24/53] fix: OleInputStream accepted incomplete files from
 sources of unknown size

---
 lib/oleinputstream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index ad8b25a..afdefff 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -203,7 +203,8 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
         stream->m_error = "Invalid OLE file.";
         return;
     }
-    int32_t toread = (max+2)*512;
+    const int32_t needed = (max+2)*512;
+    int32_t toread = needed;
     if (input->size() >= 0 && input->size() < toread) {
         stream->m_status = Error;
         stream->m_error = "File is incomplete.";
@@ -219,7 +220,7 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
         return;
     }
     maxindex = size/512-2;
-    if (ptOffset > maxindex) {
+    if (size < needed || ptOffset > maxindex) {
         stream->m_status = Error;
         stream->m_error = "File is incomplete.";
         return;
-- 
2.43.0


From 19a616d9e13ea5cb2f187172e5f44215e9a40c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:20 +0000
Subject: [PATCH 25/53] fix: ProcessInputStream sent its signal to process
 SIGTERM instead of to the command

---
 lib/processinputstream.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 73dde00..60feaee 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -63,9 +63,9 @@ ProcessInputStream::~ProcessInputStream() {
         close(fdout);
     }
     if (pid != -1) {
-        kill(SIGTERM, pid);
+        kill(pid, SIGTERM);
         int status;
-        waitpid(pid, &status , 0);
+        while (waitpid(pid, &status, 0) == -1 && errno == EINTR) {}
     }
     const char* const* p = args;
     while (*p) {
-- 
2.43.0


From 66a4cb4f148b07f1f3c67378bb3e725fc557adf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:28 +0000
Subject: [PATCH 26/53] fix: ProcessInputStream deadlocked, lost input, died of
 SIGPIPE and let commands share its pipes

---
 lib/processinputstream.cpp | 114 ++++++++++++++++++++++++++++++++-----
 1 file changed, 99 insertions(+), 15 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index 60feaee..d3e84a1 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -20,9 +20,15 @@
 #include <strigi/processinputstream.h>
 #include <strigi/strigiconfig.h>
 #include <errno.h>
+#include <fcntl.h>
+#include <poll.h>
+#include <pthread.h>
+#include <signal.h>
+#include <stdio.h>
+#include <stdlib.h>
+#include <string.h>
 #include <sys/wait.h>
 #include <unistd.h>
-#include <signal.h>
 
 using namespace std;
 using namespace Strigi;
@@ -73,17 +79,40 @@ ProcessInputStream::~ProcessInputStream() {
     }
     delete [] args;
 }
+/**
+ * Write to a pipe without receiving SIGPIPE if nobody is reading from it.
+ **/
+static ssize_t
+writeWithoutSignal(int fd, const char* data, size_t size) {
+    sigset_t sigpipe, previous, pending;
+    sigemptyset(&sigpipe);
+    sigaddset(&sigpipe, SIGPIPE);
+    sigpending(&pending);
+    const bool wasPending = sigismember(&pending, SIGPIPE) == 1;
+    pthread_sigmask(SIG_BLOCK, &sigpipe, &previous);
+    const ssize_t n = write(fd, data, size);
+    const int error = errno;
+    if (n < 0 && error == EPIPE && !wasPending) {
+        sigpending(&pending);
+        if (sigismember(&pending, SIGPIPE) == 1) {
+            int sig;
+            sigwait(&sigpipe, &sig);
+        }
+    }
+    pthread_sigmask(SIG_SETMASK, &previous, 0);
+    errno = error;
+    return n;
+}
 void
 ProcessInputStream::writeToPipe() {
     // read from the inputstream
     int64_t pos = input->position();
     const char* b;
     int32_t n = input->read(b, 1, 0);
-    if (n <= 0 || input->status() == Eof) {
+    if (n <= 0) {
         if (input->status() == Error) {
             m_status = Error;
             m_error = input->error();
-            n = 0;
         }
         // close the pipe if no more output is available
         input = 0;
@@ -91,23 +120,52 @@ ProcessInputStream::writeToPipe() {
         fdin = -1;
     } else {
         // write into the pipe
-        ssize_t m = write(fdin, b, n);
-        if (m < 0) {
+        ssize_t m = writeWithoutSignal(fdin, b, n);
+        if (m < 0 && (errno == EAGAIN || errno == EINTR)) {
+            m = 0;
+        }
+        if (m < 0 && errno == EPIPE) {
+            // the command does not want any more input
+            input = 0;
+            close(fdin);
+            fdin = -1;
+        } else if (m < 0) {
             m_error = strerror(errno);
             m_status = Error;
             input = 0;
-        } else if (m != n) {
-            input->reset(pos+n);
+        } else if (m != n && input->reset(pos+m) != pos+m) {
+            m_error = "Input stream could not be repositioned.";
+            m_status = Error;
+            input = 0;
         }
     }
 }
 int32_t
 ProcessInputStream::fillBuffer(char* start, int32_t space) {
     if (fdout <= 0) return -1;
-    if (input && input->status() == Ok) {
-        writeToPipe();
+    // as long as there is input, wait until the command reads or writes
+    while (input) {
+        struct pollfd fds[2];
+        fds[0].fd = fdout;
+        fds[0].events = POLLIN;
+        fds[1].fd = fdin;
+        fds[1].events = POLLOUT;
+        fds[0].revents = fds[1].revents = 0;
+        if (poll(fds, 2, -1) == -1 && errno != EINTR) {
+            m_error = strerror(errno);
+            m_status = Error;
+            return -2;
+        }
+        if (fds[1].revents) {
+            writeToPipe();
+            if (m_status == Error) return -2;
+        }
+        if (fds[0].revents) break;
     }
-    ssize_t n = ::read(fdout, start, space);
+    ssize_t n;
+    do {
+        n = ::read(fdout, start, space);
+    } while (n < 0 && errno == EINTR);
     if (n < 0) {
         m_error = strerror(errno);
         m_status = Error;
@@ -124,12 +182,18 @@ ProcessInputStream::runCmd() {
     int p[2];
     if (pipe(p) == -1) {
         fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        m_error = strerror(errno);
+        m_status = Error;
         return;
     }
+    // other commands should not keep this end of the pipe open
+    fcntl(p[0], F_SETFD, FD_CLOEXEC);
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
         fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        m_error = strerror(errno);
+        m_status = Error;
         close (p[0]);
         close (p[1]);
         return;
@@ -138,14 +202,15 @@ ProcessInputStream::runCmd() {
     if (pid == 0) {
         // define the output to be written into p[1]
         dup2(p[1], 1);
+        if (p[1] != 1) close(p[1]);
         // close p[0], because this process will not read from it
         close(0);
         close(p[0]);
         close(2);
         char *const *unconstargs = (char *const *) (args);
         execve(args[0], unconstargs, environ);
-        fprintf(stderr, "%s\n", strerror(errno));
-        exit(EXIT_FAILURE);
+        // do not flush the buffers of the parent process
+        _exit(EXIT_FAILURE);
     }
     close(p[1]);
     fdout = p[0];
@@ -154,14 +219,31 @@ void
 ProcessInputStream::runCmdWithInput() {
     int pin[2];
     int pout[2];
-    if (pipe(pin) == -1 || pipe(pout) == -1) {
+    if (pipe(pin) == -1) {
+        fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        m_error = strerror(errno);
+        m_status = Error;
+        return;
+    }
+    if (pipe(pout) == -1) {
         fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
+        m_error = strerror(errno);
+        m_status = Error;
+        close (pin[0]);
+        close (pin[1]);
         return;
     }
+    // other commands should not keep these ends of the pipes open
+    fcntl(pin[1], F_SETFD, FD_CLOEXEC);
+    fcntl(pout[0], F_SETFD, FD_CLOEXEC);
+    // do not block on a command that is busy writing
+    fcntl(pin[1], F_SETFL, fcntl(pin[1], F_GETFL) | O_NONBLOCK);
     
     if( (pid=fork()) == -1) {
         /* something went wrong */
         fprintf(stderr,"ProcessInputStream::runCmdWithInput: fork error\n");
+        m_error = strerror(errno);
+        m_status = Error;
         close (pin[0]);
         close (pin[1]);
         close (pout[0]);
@@ -173,14 +255,16 @@ ProcessInputStream::runCmdWithInput() {
         // define the output to be written into p[1]
         dup2(pin[0], 0);
         dup2(pout[1], 1);
+        if (pin[0] != 0) close(pin[0]);
+        if (pout[1] != 1) close(pout[1]);
         // close p[0], because this process will not read from it
         close(pin[1]);
         close(pout[0]);
         close(2);
         char *const *unconstargs = (char *const *) (args);
         execve(args[0], unconstargs, environ);
-        fprintf(stderr, "%s\n", strerror(errno));
-        exit(EXIT_FAILURE);
+        // do not flush the buffers of the parent process
+        _exit(EXIT_FAILURE);
     }
     close(pin[0]);
     close(pout[1]);
-- 
2.43.0


From f3f200828cebb0ede75fdbc4cce84b2e128931d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:24 +0000
Subject: [PATCH 27/53] fix: ArchiveReader: copies of a DirLister share the
 listing, keep its url and hold a reference

---
 lib/archivereader.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index c5d1340..809fe42 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -40,7 +40,7 @@ private:
     const ArchiveEntryCache::SubEntry* entry;
     set<std::string> done;
 public:
-    const std::string url;
+    std::string url;
     explicit Private(const vector<EntryInfo>& v, int p = 0)
         :pos(p), entries(v), listing(NULL), entry(NULL) {
     }
@@ -48,17 +48,22 @@ public:
             :pos(0), listing(l), entry(NULL), url(u) {
         listing->ref();
     }
+    Private(const Private& a) :pos(a.pos), entries(a.entries),
+            listing(a.listing), entry(a.entry), done(a.done), url(a.url) {
+        if (listing) listing->ref();
+    }
     ~Private() {
         if (listing && listing->unref()) delete listing;
     }
     void operator=(const Private& a) {
         pos = a.pos;
         entries = a.entries;
+        if (a.listing) a.listing->ref();
         if (listing && listing->unref()) delete listing;
         listing = a.listing;
-        if (listing) listing->ref();
         entry = a.entry;
         done = a.done;
+        url = a.url;
     }
     bool
     nextEntry(EntryInfo& e) {
-- 
2.43.0


From 0cc4e1ac727719ab2d253539d4d0279447f691f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:26 +0000
Subject: [PATCH 28/53] fix: ArchiveReader: listers keep using the entries of a
 listing that has moved to the cache

---
 lib/archiveentrycache.h   | 9 +++++++--
 lib/archivereader.cpp     | 7 +++++--
 lib/listinginprogress.cpp | 7 ++++++-
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/lib/archiveentrycache.h b/lib/archiveentrycache.h
index 5c61f83..f92114f 100644
--- a/lib/archiveentrycache.h
+++ b/lib/archiveentrycache.h
@@ -52,9 +52,14 @@ public:
      * @brief Represents a top-level entry in the cache
      */
     class RootSubEntry : public SubEntry {
+    private:
+        int refcount;
     public:
         /** Constructor */
-        RootSubEntry() :SubEntry() {}
+        RootSubEntry() :SubEntry(), refcount(0), indexed(false) {}
+        /** The entry is shared by the cache and the listing it comes from. */
+        void ref() { refcount++; }
+        void unref() { if (--refcount == 0) delete this; }
         /** Whether this entry and its subentries have been indexed yet */
         bool indexed;
         const SubEntry* findEntry(const std::string& rootpath,
@@ -63,7 +68,7 @@ public:
     ~ArchiveEntryCache() {
        std::map<std::string, RootSubEntry*>::const_iterator i;
        for (i = cache.begin(); i != cache.end(); ++i) {
-           delete i->second;
+           i->second->unref();
        }
     }
     /**
diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 809fe42..476141c 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -471,8 +471,11 @@ ArchiveReader::dirEntries(const std::string& url) {
 
     if (lip) {
         if (lip->isDone()) {
-            p->cache.cache[lip->url] = lip->root;
-            lip->root = 0;
+            // the listers that are not done yet keep using the entry
+            ArchiveEntryCache::RootSubEntry*& root = p->cache.cache[lip->url];
+            lip->root->ref();
+            if (root) root->unref();
+            root = lip->root;
             p->listingsInProgress.erase(lip->url);
             if (lip->unref()) delete lip;
         } else {
diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index d813d03..8075f78 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -161,6 +161,7 @@ ListingInProgress::ListingInProgress(const Subs& sbs,
         const EntryInfo& entry, const std::string& u, InputStream* s)
         :subs(sbs), stream(s), refcount(0), url(u) {
     root = new ArchiveEntryCache::RootSubEntry();
+    root->ref();
     root->entry = entry;
     root->indexed = true;
     stack.resize(10);
@@ -179,7 +180,11 @@ ListingInProgress::~ListingInProgress() {
     for (size_t i=0; i<stack.size(); ++i) {
         free(stack[i].streams);
     }
-    delete root;
+    // entries that are not complete have not been added to their parent yet
+    for (int i=1; i<=currentdepth; ++i) {
+        delete stack[i].entry;
+    }
+    root->unref();
     delete stream;
 }
 void
-- 
2.43.0


From 1feb791d0a70a74faabe0cc229bb4d40e8de996a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 29/53] fix: ArchiveReader: an entry for a directory that
 follows its content does not hide that content

---
 lib/listinginprogress.cpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 8075f78..f8b2b2e 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -64,7 +64,21 @@ addEntry(ArchiveEntryCache::SubEntry* parent,
         parent = child;
     }
     // this is what we came for: add the entry to the parent
-    parent->entries[name] = se;
+    ArchiveEntryCache::SubEntry*& slot = parent->entries[name];
+    if (slot == NULL) {
+        slot = se;
+        return;
+    }
+    // there is an entry with this name already, e.g. for a directory of which
+    // the contents came first: it keeps its subentries
+    slot->entry = se->entry;
+    ArchiveEntryCache::SubEntryMap::iterator i;
+    for (i = se->entries.begin(); i != se->entries.end(); ++i) {
+        if (slot->entries.insert(*i).second) {
+            i->second = NULL;
+        }
+    }
+    delete se;
 }
 }
 
-- 
2.43.0


From 232786c6dff3b1094d77fc1098bf1c46487461e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:30 +0000
Subject: [PATCH 30/53] fix: ArchiveReader: read the whole header when looking
 for LZMA data

---
 lib/listinginprogress.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index f8b2b2e..131535a 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -129,7 +129,7 @@ subStreamProvider(const Subs& subs, InputStream* input,
                 s->reset(0);
             }
         }
-        n = s->read(c, 2, 0);
+        n = s->read(c, 13, 0);
         s->reset(0);
         if (LZMAInputStream::checkHeader(c, n)) {
             InputStream* ns = new LZMAInputStream(s);
-- 
2.43.0


From 036d5c9fefcbf3aa4e60bf02671ce417946b7f9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:32 +0000
Subject: [PATCH 31/53] fix: ArchiveReader: finish the listing of a file that
 is not an archive, and make room for nested archives

---
 lib/listinginprogress.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/listinginprogress.cpp b/lib/listinginprogress.cpp
index 131535a..464c5f5 100644
--- a/lib/listinginprogress.cpp
+++ b/lib/listinginprogress.cpp
@@ -187,7 +187,10 @@ ListingInProgress::ListingInProgress(const Subs& sbs,
                 = (EntryInfo::Type)(e.entry->entry.type|EntryInfo::Dir);
         currentdepth = 0;
     } else {
+        // there is nothing to list
         currentdepth = -1;
+        delete stream;
+        stream = 0;
     }
 }
 ListingInProgress::~ListingInProgress() {
@@ -218,8 +221,8 @@ ListingInProgress::fillEntry(InputStream* s) {
 }
 int
 ListingInProgress::nextEntry(int depth) {
-    if (stack.size() < (size_t)(depth+1)) {
-        stack.resize(depth+1);
+    if (stack.size() < (size_t)(depth+2)) {
+        stack.resize(depth+2);
     }
     StackEntry* e = &stack[depth];
     StackEntry* ce = &stack[depth+1];
-- 
2.43.0


From e1a91f5eeeece6ad3cc0887644f88e677c62a471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:34 +0000
Subject: [PATCH 32/53] fix: ArchiveReader: match whole names when opening a
 member

---
 lib/archivereader.cpp | 58 +++++++++++++++++--------------------------
 1 file changed, 23 insertions(+), 35 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 476141c..badeb9c 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -245,52 +245,40 @@ ArchiveReader::ArchiveReaderPrivate::positionedProvider(const string& url) {
     // open the substreams until the complete path has been opened
     SubStreamProvider* provider;
     InputStream* substream = stream;
-    vector<size_t>::reverse_iterator i;
     list<StreamPtr> streams;
     streams.push_back(stream);
-    for (i = partpos.rbegin(); i != partpos.rend(); ++i) {
+    // the start of the part of the url that has not been resolved yet
+    size_t pos = partpos.size() ? partpos.back() : url.length();
+    while (substream && pos < url.length()) {
         // try to open the stream as a SubStreamProvider
         provider = subStreamProvider(subs, substream, streams);
         if (provider == 0) {
-            free(streams);
-            return 0;
+            break;
         }
         // let sn point to the trailing part of the url
-        const char* sn = url.c_str() + *i;
-        size_t len = url.length();
-        bool nextstream = false;
-        // try to open the first substream of the current SubStreamProvider
+        const char* sn = url.c_str() + pos;
+        const size_t len = url.length() - pos;
+        size_t n = 0;
+        // look for the entry with the name that sn starts with
         substream = provider->currentEntry();
-        do {
+        while (substream) {
             const EntryInfo& e = provider->entryInfo();
-            // check that the filename matches at least one entry
-            if (e.type == EntryInfo::File
-                    && e.filename.length() < len
-                    && strncmp(e.filename.c_str(), sn,
-                           e.filename.length()) == 0) {
-                nextstream = true;
-                // skip the number of entries that are matched
-                size_t end = *i + e.filename.length();
-                do {
-                    ++i;
-                } while (i != partpos.rend() && *i < end);
-                if (i == partpos.rend()) {
-                    // success!
-                    openstreams[substream] = streams;
-                    return provider;
-                }
-                // no match: rewind
-                --i;
-            } else {
-                substream = provider->nextEntry();
+            n = e.filename.length();
+            if (e.type == EntryInfo::File && n > 0 && n <= len
+                    && strncmp(e.filename.c_str(), sn, n) == 0
+                    && (n == len || sn[n] == '/')) {
+                break;
             }
-        } while(substream && !nextstream);
-    }
-    if (substream) {
-        openstreams[substream] = streams;
-    } else {
-        free(streams);
+            substream = provider->nextEntry();
+        }
+        if (substream && n == len) {
+            // success!
+            openstreams[substream] = streams;
+            return provider;
+        }
+        pos += n + 1;
     }
+    free(streams);
     return 0;
 }
 /**
-- 
2.43.0


From 39379ea258281aa19e57dfa4cae038c953ef7f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:37 +0000
Subject: [PATCH 33/53] fix: ArchiveReader: only a file that is an archive is
 an archive

---
 lib/archivereader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index badeb9c..72b8cb3 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -412,7 +412,7 @@ ArchiveReader::isArchive(const std::string& url) {
     if (p->localStat(url, e) != 0) {
         return false;
     }
-    return ((e.type & (EntryInfo::File | EntryInfo::Dir)) != 0);
+    return (e.type & EntryInfo::File) && (e.type & EntryInfo::Dir);
 }
 std::vector<EntryInfo>
 convert(const ArchiveEntryCache::SubEntry* entry) {
-- 
2.43.0


From 0077c7c8f0fbc441b4eba16d7466488099453343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:40 +0000
Subject: [PATCH 34/53] fix: ArchiveReader: forget what is known about a file
 that has changed or is gone

---
 lib/archivereader.cpp | 47 +++++++++++++++++++++++++++++++++++--------
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 72b8cb3..3e95633 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -175,6 +175,13 @@ public:
     ArchiveReaderPrivate();
     ~ArchiveReaderPrivate();
     ListingInProgress* findListingInProgress(const string& url) const;
+    bool hasChanged(const string& url, const EntryInfo& e) const;
+    /**
+     * @brief Forget what is known about a file that has changed.
+     *
+     * @param url the url of the file or of an entry in it
+     */
+    void dropChanged(const string& url);
 };
 ArchiveReader::ArchiveReaderPrivate::ArchiveReaderPrivate() {
     typedef std::pair<bool (*)(const char*, int32_t),
@@ -293,9 +300,38 @@ ArchiveReader::ArchiveReaderPrivate::open(const string& url) const {
     }
     return stream;
 }
+bool
+ArchiveReader::ArchiveReaderPrivate::hasChanged(const string& url,
+        const EntryInfo& e) const {
+    list<StreamOpener*>::const_iterator i;
+    for (i = openers.begin(); i != openers.end(); ++i) {
+        EntryInfo current;
+        if ((*i)->stat(url, current) == 0) {
+            return !(current.type & EntryInfo::File)
+                || current.mtime != e.mtime;
+        }
+    }
+    return true;
+}
+void
+ArchiveReader::ArchiveReaderPrivate::dropChanged(const string& url) {
+    ListingInProgress* lip = findListingInProgress(url);
+    if (lip && hasChanged(lip->url, lip->root->entry)) {
+        listingsInProgress.erase(lip->url);
+        if (lip->unref()) delete lip;
+    }
+    map<string, ArchiveEntryCache::RootSubEntry*>::const_iterator se
+        = cache.findRootEntry(url);
+    if (se != cache.cache.end() && hasChanged(se->first, se->second->entry)) {
+        const string root(se->first);
+        se->second->unref();
+        cache.cache.erase(root);
+    }
+}
 int
 ArchiveReader::ArchiveReaderPrivate::localStat(const std::string& url,
         EntryInfo& e) {
+    dropChanged(url);
     // try with the supplied streamOpeners
     list<StreamOpener*>::const_iterator i;
     for (i = openers.begin(); i != openers.end(); ++i) {
@@ -317,14 +353,8 @@ ArchiveReader::ArchiveReaderPrivate::localStat(const std::string& url,
             map<string, ArchiveEntryCache::RootSubEntry*>::const_iterator se
                 = cache.cache.find(url);
             if (se != cache.cache.end()) {
-                if (se->second->entry.mtime == e.mtime) {
-                    e.type = se->second->entry.type;
-                    return 0;
-                }
-                // the file has changed: it is removed from the cache
-                ArchiveEntryCache::RootSubEntry* rse = se->second;
-                cache.cache.erase(se->second->entry.filename);
-                delete rse;
+                e.type = se->second->entry.type;
+                return 0;
             }
 
             // The file exists, but is it an archive?
@@ -426,6 +456,7 @@ convert(const ArchiveEntryCache::SubEntry* entry) {
 }
 ArchiveReader::DirLister
 ArchiveReader::dirEntries(const std::string& url) {
+    p->dropChanged(url);
     // find the entry in the cache
     const ArchiveEntryCache::SubEntry* subentry = p->cache.findEntry(url);
 
-- 
2.43.0


From 2b470bfa422839240cc5fc1af176564b545dce52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:43 +0000
Subject: [PATCH 35/53] fix: ArchiveReader: do not list a file again that is in
 the cache

---
 lib/archivereader.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/archivereader.cpp b/lib/archivereader.cpp
index 3e95633..7924b10 100644
--- a/lib/archivereader.cpp
+++ b/lib/archivereader.cpp
@@ -480,6 +480,11 @@ ArchiveReader::dirEntries(const std::string& url) {
             // let name be the name of physical file
             name.resize(l[l.size()-1]-1);
         }
+        if (p->cache.cache.find(name) != p->cache.cache.end()) {
+            // the file is in the cache, but it does not have this entry
+            delete s;
+            return DirLister(new DirLister::Private(v));
+        }
         EntryInfo e;
         // get the properties of the physical file
         p->localStat(name, e);
-- 
2.43.0


From d3e3e3753ad55f4c601f77ae5a41ec1b23c2b3b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:44 +0000
Subject: [PATCH 36/53] fix: file streams: opening a directory is an error

---
 lib/fileinputstream.cpp          | 10 ++++++++++
 lib/skippingfileinputstream.cpp  | 10 ++++++++++
 lib/skippingfileinputstream2.cpp | 10 ++++++++++
 3 files changed, 30 insertions(+)

diff --git a/lib/fileinputstream.cpp b/lib/fileinputstream.cpp
index 820b831..44a8cc8 100644
--- a/lib/fileinputstream.cpp
+++ b/lib/fileinputstream.cpp
@@ -26,6 +26,7 @@
 #include <iostream>
 #include <cerrno>
 #include <cstring>
+#include <sys/stat.h>
 
 using namespace Strigi;
 using namespace std;
@@ -60,6 +61,15 @@ FileInputStream::open(FILE* f, const char* path, int32_t buffersize) {
         m_status = Error;
         return;
     }
+    // a directory can be opened, but there is nothing that can be read from it
+    struct stat sb;
+    if (fstat(fileno(file), &sb) == 0 && S_ISDIR(sb.st_mode)) {
+        m_error = "Could not read file '" + filepath + "': it is a directory.";
+        m_status = Error;
+        fclose(file);
+        file = 0;
+        return;
+    }
     // determine file size. if the stream is not seekable, the size will be -1
     if (fseeko(file, 0, SEEK_END) == -1) {
         m_size = -1;
diff --git a/lib/skippingfileinputstream.cpp b/lib/skippingfileinputstream.cpp
index b431c82..850c374 100644
--- a/lib/skippingfileinputstream.cpp
+++ b/lib/skippingfileinputstream.cpp
@@ -24,6 +24,7 @@
 #include <algorithm>
 #include <cerrno>
 #include <cstring>
+#include <sys/stat.h>
 #include <cstdlib>
 
 using namespace Strigi;
@@ -56,6 +57,15 @@ SkippingFileInputStream::open(FILE* f, const char* path) {
         m_status = Error;
         return;
     }
+    // a directory can be opened, but there is nothing that can be read from it
+    struct stat sb;
+    if (fstat(fileno(file), &sb) == 0 && S_ISDIR(sb.st_mode)) {
+        m_error = "Could not read file '" + filepath + "': it is a directory.";
+        m_status = Error;
+        fclose(file);
+        file = 0;
+        return;
+    }
     // determine file size. if the stream is not seekable, the size will be -1
     if (fseeko(file, 0, SEEK_END) == -1) {
         m_size = -1;
diff --git a/lib/skippingfileinputstream2.cpp b/lib/skippingfileinputstream2.cpp
index dcfcef2..83932ba 100644
--- a/lib/skippingfileinputstream2.cpp
+++ b/lib/skippingfileinputstream2.cpp
@@ -23,6 +23,7 @@
 #include <iostream>
 #include <cerrno>
 #include <cstring>
+#include <sys/stat.h>
 
 using namespace Strigi;
 using namespace std;
@@ -57,6 +58,15 @@ SkippingFileInputStream2::open(FILE* f, const char* path, int32_t buffersize) {
         m_status = Error;
         return;
     }
+    // a directory can be opened, but there is nothing that can be read from it
+    struct stat sb;
+    if (fstat(fileno(file), &sb) == 0 && S_ISDIR(sb.st_mode)) {
+        m_error = "Could not read file '" + filepath + "': it is a directory.";
+        m_status = Error;
+        fclose(file);
+        file = 0;
+        return;
+    }
     // determine file size. if the stream is not seekable, the size will be -1
     if (fseeko(file, 0, SEEK_END) == -1) {
         m_size = -1;
-- 
2.43.0


From 63e9827630aafd98cfd7ecc3c5dabfb6ff94ea12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:45 +0000
Subject: [PATCH 37/53] fix: tar: strip './' from long names too

---
 lib/tarinputstream.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/tarinputstream.cpp b/lib/tarinputstream.cpp
index e6b63da..cf4deff 100644
--- a/lib/tarinputstream.cpp
+++ b/lib/tarinputstream.cpp
@@ -174,13 +174,13 @@ TarInputStream::parseHeader() {
             m_entryinfo.filename.append(1, '/');
         }
         m_entryinfo.filename.append(hb, len);
-        if (m_entryinfo.filename.compare(0, 2, "./") == 0) {
-            // skip initial './' part of filename
-            if (m_entryinfo.filename.length() == 2) { // skip entry './'
-                return parseHeader();
-            }
-            m_entryinfo.filename.erase(0, 2);
+    }
+    if (m_entryinfo.filename.compare(0, 2, "./") == 0) {
+        // skip initial './' part of filename
+        if (m_entryinfo.filename.length() == 2) { // skip entry './'
+            return parseHeader();
         }
+        m_entryinfo.filename.erase(0, 2);
     }
 
     // read the file size which is in octal format
-- 
2.43.0


From bdfec3ff42d250a764772aa1525283fa428a2b22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:46 +0000
Subject: [PATCH 38/53] fix: zip: do not read 0 bytes for an empty entry name,
 and report a name that cannot be read

---
 lib/zipinputstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/zipinputstream.cpp b/lib/zipinputstream.cpp
index 0ef7d6f..4ace7d1 100644
--- a/lib/zipinputstream.cpp
+++ b/lib/zipinputstream.cpp
@@ -242,9 +242,14 @@ ZipInputStream::readHeader() {
 void
 ZipInputStream::readFileName(int32_t len) {
     m_entryinfo.filename.resize(0);
+    if (len == 0) { // the entry has no name
+        m_entryinfo.type = EntryInfo::File;
+        return;
+    }
     const char *begin;
     int32_t nread = m_input->read(begin, len, len);
     if (nread != len) {
+        m_status = Error;
         m_error = "Error reading filename: ";
         if (nread == -1) {
             m_error += m_input->error();
-- 
2.43.0


From 410483a5e415c0793d91f90d4a30c4d727a98f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:01 +0000
Subject: [PATCH 39/53] fix: StringTerminatedSubStream: do not truncate the
 distance to the known end to 32 bits

---
 lib/stringterminatedsubstream.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/stringterminatedsubstream.cpp b/lib/stringterminatedsubstream.cpp
index 665dda9..258ce58 100644
--- a/lib/stringterminatedsubstream.cpp
+++ b/lib/stringterminatedsubstream.cpp
@@ -64,10 +64,10 @@ StringTerminatedSubStream::read(const char*& start, int32_t min, int32_t max) {
 
     // check if we already read enough
     const int64_t pos = p->m_input->position();
-    nread = (int32_t)(p->furthest - pos);
-    if (min <= nread) {
-        if (max <= 0 || max > nread) {
-            max = nread;
+    const int64_t nknown = p->furthest - pos;
+    if (min <= nknown) {
+        if (max <= 0 || max > nknown) {
+            max = (int32_t)nknown;
         }
         nread = p->m_input->read(start, min, max);
         if (nread < -1) {
-- 
2.43.0


From 0616b70e4fc7e1d8be8e98e4220203e2bc382b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:03 +0000
Subject: [PATCH 40/53] fix: zip: keep the compressed size of an entry in 64
 bits

---
 include/strigi/zipinputstream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strigi/zipinputstream.h b/include/strigi/zipinputstream.h
index ef0c964..e4fddb1 100644
--- a/include/strigi/zipinputstream.h
+++ b/include/strigi/zipinputstream.h
@@ -40,7 +40,7 @@ private:
     // information relating to the current entry
     InputStream* compressedEntryStream;
     GZipInputStream *uncompressionStream;
-    int32_t entryCompressedSize;
+    int64_t entryCompressedSize;
     int32_t compressionMethod;
 
     void readFileName(int32_t len);
-- 
2.43.0


From f0a5d61a3c32a364ecde797b86b2eee963602b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:08 +0000
Subject: [PATCH 41/53] fix: SkippingBufferedStream: do not leave stale data
 behind and do not skip past the end

---
 lib/skippingbufferedstream.h     | 7 +++++--
 lib/skippingfileinputstream2.cpp | 4 ++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/lib/skippingbufferedstream.h b/lib/skippingbufferedstream.h
index c22e12a..e332380 100644
--- a/lib/skippingbufferedstream.h
+++ b/lib/skippingbufferedstream.h
@@ -169,7 +169,7 @@ SkippingBufferedStream<T>::reset(int64_t newpos) {
     if (StreamBase<T>::m_status == Error) return -2;
     // check to see if we have this position
     int64_t d = StreamBase<T>::m_position - newpos;
-    if (buffer.readPos - d >= buffer.start && -d < buffer.avail) {
+    if (buffer.readPos >= buffer.start + d && -d <= buffer.avail) {
         StreamBase<T>::m_position -= d;
         buffer.avail += (int32_t)d;
         buffer.readPos -= d;
@@ -181,6 +181,7 @@ template <class T>
 int64_t
 SkippingBufferedStream<T>::skip(int64_t ntoskip) {
     assert(ntoskip >= 0);
+    if (StreamBase<T>::m_status == Error) return -2;
     if (ntoskip == 0) return 0;
     if (buffer.avail > ntoskip) {
         buffer.avail -= (int32_t)ntoskip;
@@ -191,10 +192,12 @@ SkippingBufferedStream<T>::skip(int64_t ntoskip) {
     int32_t frombuffer = buffer.avail;
     StreamBase<T>::m_position += frombuffer;
     int64_t oldpos = StreamBase<T>::m_position;
+    // what is in the buffer does not precede the new position
+    buffer.readPos = buffer.start;
     buffer.avail = 0;
     ntoskip -= frombuffer;
     int64_t n = (ntoskip) ?advanceInput(ntoskip) :0;
-    if (n < 0) {
+    if (n < 0 || StreamBase<T>::m_status == Error) {
         StreamBase<T>::m_status = Error;
         return -2;
     }
diff --git a/lib/skippingfileinputstream2.cpp b/lib/skippingfileinputstream2.cpp
index 83932ba..682e646 100644
--- a/lib/skippingfileinputstream2.cpp
+++ b/lib/skippingfileinputstream2.cpp
@@ -126,6 +126,10 @@ int64_t
 SkippingFileInputStream2::advanceInput(int64_t ntoskip) {
     if (m_status == Error) return -1;
     if (file == 0) return 0;
+    // a size that is not known might mean that seeking is not possible
+    if (m_size == -1) return SkippingBufferedInputStream::advanceInput(ntoskip);
+    // do not skip past the end
+    if (ntoskip > m_size - m_position) ntoskip = m_size - m_position;
     if (fseeko(file, ntoskip, SEEK_CUR)) {
         m_error = "Could not skip in file '" + filepath + "'.";
         fclose(file);
-- 
2.43.0


From 38f77b188e008b177941ffa4c57637d9a7fd72a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:09 +0000
Subject: [PATCH 42/53] fix: FileInputStream::open: read pipes and files
 without a known size through the buffered stream

---
 lib/fileinputstream.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/fileinputstream.cpp b/lib/fileinputstream.cpp
index 44a8cc8..ee35a38 100644
--- a/lib/fileinputstream.cpp
+++ b/lib/fileinputstream.cpp
@@ -128,6 +128,13 @@ FileInputStream::fillBuffer(char* start, int32_t space) {
 InputStream*
 FileInputStream::open(const char* filepath, StreamTypeHint hint,
         int32_t buffersize) {
+    // only the buffered stream can handle what is not seekable or has a size
+    // that is not known in advance, like a pipe or a file in /proc
+    struct stat sb;
+    if (filepath && stat(filepath, &sb) == 0
+            && (!S_ISREG(sb.st_mode) || sb.st_size == 0)) {
+        hint = Buffered;
+    }
     switch (hint) {
     case Buffered:
         return new FileInputStream(filepath, buffersize);
-- 
2.43.0


From f999429d998524e47a287e84d7817b30d3f510fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:53 +0000
Subject: [PATCH 43/53] fix: choosing a reader looked at four bytes of shorter
 data and wrote them to stderr

---
 lib/substreamproviderprovider.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/lib/substreamproviderprovider.cpp b/lib/substreamproviderprovider.cpp
index b6b3ec8..c8d0b34 100644
--- a/lib/substreamproviderprovider.cpp
+++ b/lib/substreamproviderprovider.cpp
@@ -38,18 +38,14 @@ SubStreamProviderProvider::subStreamProvider(InputStream* input) {
     if (headersize <= 0) {
         return 0;
     }
-    fprintf(stderr, "%x%x%x%x\n", header[0], header[1], header[2], header[3]);
     if (MailInputStream::checkHeader(header, headersize)) {
         return new MailInputStream(input);
     }
     if (ZipInputStream::checkHeader(header, headersize)) {
-        fprintf(stderr, "zip!\n");
         return new ZipInputStream(input);
     }
     if (SdfInputStream::checkHeader(header, headersize)) {
-        fprintf(stderr, "sdf!\n");
         return new SdfInputStream(input);
     }
-    fprintf(stderr, "no match %i\n", headersize);
     return 0;
 }
-- 
2.43.0


From 689f11f0b27ca3125bd5cd7deb10044144a4b95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:55 +0000
Subject: [PATCH 44/53] fix: a mail starts where its input is, and a failed
 reset is an error

---
 lib/mailinputstream.cpp | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 3525ac1..af06322 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -332,6 +332,7 @@ public:
 
     HeaderDecoder decoder;
 
+    bool resetToLineStart();
     void readHeaderLine();
     void readHeader();
     void scanBody();
@@ -348,8 +349,10 @@ public:
 };
 MailInputStream::Private::Private(MailInputStream* mail) :m(mail) {
     substream = 0;
+    linestart = lineend = 0;
     entrynumber = 0;
-    nextLineStartPosition = 0;
+    // the mail starts where the input is now
+    nextLineStartPosition = m->m_input->position();
 }
 MailInputStream::Private::~Private() {
     if (substream && substream != m->m_entrystream) {
@@ -368,6 +371,23 @@ MailInputStream::MailInputStream(InputStream* input)
 MailInputStream::~MailInputStream() {
     delete p;
 }
+/**
+ * Go to the start of the next line. If the input cannot go there, set the error
+ * status and return false.
+ **/
+bool
+MailInputStream::Private::resetToLineStart() {
+    if (m->m_input->reset(nextLineStartPosition) == nextLineStartPosition) {
+        return true;
+    }
+    lineend = linestart;
+    m->m_status = Error;
+    m->m_error = m->m_input->error();
+    if (m->m_error.empty()) {
+        m->m_error = "The mail stream could not be reset to the line start.";
+    }
+    return false;
+}
 /**
  * This function read the input until the end of a header line.
  * A header line can span multiple normal lines. All normal lines after the
@@ -385,7 +405,7 @@ MailInputStream::Private::readHeaderLine() {
     bool completeLine = false;
     char c = 0;
 
-    m->m_input->reset(nextLineStartPosition);
+    if (!resetToLineStart()) return;
     do {
         nread = m->m_input->read(linestart, linepos+1, maxlinesize);
         if (nread < linepos+1) {
@@ -400,10 +420,7 @@ MailInputStream::Private::readHeaderLine() {
             m->m_status = Eof;
             return;
         }
-        m->m_input->reset(nextLineStartPosition);
-        if (m->m_input->status() == Error) {
-            m->m_status = Error;
-            m->m_error = m->m_input->error();
+        if (!resetToLineStart()) {
             return;
         } else if (linepos >= maxlinesize) {
             // error line is too long
-- 
2.43.0


From 30c9e0c59faef293a6419ace2c0cbe26b4545e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:57 +0000
Subject: [PATCH 45/53] fix: white space between encoded words and words of
 unknown encodings in mail headers

---
 lib/mailinputstream.cpp | 52 ++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 24 deletions(-)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index af06322..2fb6210 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -135,6 +135,25 @@ QuotedPrintableDecoder::decodeQuotedPrintable(const char* v, uint32_t len) {
     }
     return decoded;
 }
+/**
+ * Find the parts of the encoded word '=?charset?encoding?text?=' at s. Returns
+ * false if there is no encoded word of which the encoding is supported.
+ * q1 is set to the encoding, q2 to the text and end to the end of the text.
+ **/
+static bool
+findEncodedWord(const char* s, const char* e, const char*& q1, const char*& q2,
+        const char*& end) {
+    if (e-s <= 8 || *s != '=' || s[1] != '?') return false;
+    q1 = s+2;
+    while (q1 < e && *q1 != '?') q1++;
+    q1++;
+    q2 = q1+1;
+    if (q2 >= e || *q2 != '?' || !memchr("bBqQ", *q1, 4)) return false;
+    q2++;
+    end = q2;
+    while (end < e && *end != '?') end++;
+    return e - end > 1 && end[1] == '=';
+}
 /**
  * This function can decode a mail header if it contains utf8 encoded in base64.
  **/
@@ -148,25 +167,11 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
     const char* p = v;
     const char* e = s + len;
     while (s < e) {
-        if (e-s > 8 && *s == '=' && s[1] == '?') {
-            // start of encoded data, find the next position of '?','?' and '?='
-            const char *q1, *q2, *end;
-            q1 = s+2;
-            while (q1 < e && *q1 != '?') q1++;
-            q2 = q1+1;
-            while (q2 < e && *q2 != '?') q2++;
-            end = q2+1;
-            while (end < e && *end != '?') end++;
-            if (e - end < 1 || end[1] != '=') {
-                s++;
-                continue;
-            }
+        const char *q1, *q2, *end;
+        if (findEncodedWord(s, e, q1, q2, end)) {
             // save the stuff from before the encoding
             decoded.append(p, s-p);
             s += 2;
-            q1++;
-            q2++;
-            // find the end
             if (*q1 == 'b' || *q1 == 'B') {
                 string str(Base64InputStream::decode(q2, end-q2));
                 if (strncasecmp("utf-8", s, 5)) {
@@ -174,30 +179,29 @@ HeaderDecoder::decodedHeaderValue(const char* v, uint32_t len) {
                     decode(encoding, str);
                 }
                 decoded.append(str);
-            } else if (*q1 == 'q' || *q1 =='Q') {
+            } else {
                 string& str(decodeQuotedPrintable(q2, end-q2));
                 if (strncasecmp("utf-8", s, 5) != 0) {
                     string encoding(s, q1-s-1);
                     decode(encoding, str);
                 }
                 decoded.append(str);
-            } else {
-                s -= 1;
             }
 
             // continue after the quoted data
             s = p = end + 2;
+            // white space between encoded words is not part of the value
+            const char* n = s;
+            while (n < e && isspace((unsigned char)*n)) n++;
+            if (findEncodedWord(n, e, q1, q2, end)) {
+                s = p = n;
+            }
         } else if ((e-s > 2 && s[0] == 13 && s[1] == 10
                 && (s[2] == 9 || s[2] == 32))
                 || (e-s > 1 && s[0] == 10 && (s[1] == 9 || s[1] == 32))) {
             // skip the line end used for folding the header lines
-            bool afterEncoded = p == s && s > v;
             decoded.append(p, s-p);
             s = p = (*s == 13) ?s + 2 :s + 1;
-            // white space between encoded words is not part of the value
-            if (afterEncoded && e-s > 8 && s[1] == '=' && s[2] == '?') {
-                s = p = s + 1;
-            }
         } else {
             s++;
         }
-- 
2.43.0


From 1f71d84c94421d7c909e75c3981ad9402c0c5d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:58 +0000
Subject: [PATCH 46/53] fix: ar and OLE files that do not start at position 0
 of their input

---
 lib/arinputstream.cpp  |  4 ++--
 lib/oleinputstream.cpp | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/lib/arinputstream.cpp b/lib/arinputstream.cpp
index 63f5991..0f0f5a0 100644
--- a/lib/arinputstream.cpp
+++ b/lib/arinputstream.cpp
@@ -69,8 +69,8 @@ ArInputStream::readHeader() {
 
     // skip over the tables until the header of an entry is found
     for (;;) {
-        int64_t pos = m_input->position();
-        if (pos%2) {
+        // data of odd length is followed by one byte of padding
+        if (m_entryinfo.size > 0 && m_entryinfo.size%2) {
             m_input->skip(1);
         }
 
diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index afdefff..3f0fa99 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -168,6 +168,8 @@ OleInputStream::Private::readInt32(int32_t offset, int32_t& val) {
 OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
         :entrystream(new OleEntryStream(this)), stream(s) {
     currentTableBlock = -1;
+    // the file starts where the input is now
+    const int64_t start = input->position();
     // read start
     size = input->read(data, 512, 512);
     if (size != 512) {
@@ -175,7 +177,7 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
         stream->m_error = "File is too small.";
         return;
     }
-    input->reset(0);
+    input->reset(start);
 
     int32_t nBat = readLittleEndianInt32(data+0x2c);
     int32_t ptOffset = readLittleEndianInt32(data+0x30);
@@ -205,15 +207,15 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     }
     const int32_t needed = (max+2)*512;
     int32_t toread = needed;
-    if (input->size() >= 0 && input->size() < toread) {
+    if (input->size() >= 0 && input->size() - start < toread) {
         stream->m_status = Error;
         stream->m_error = "File is incomplete.";
         return;
     }
-    toread = (input->size() > 0) ?(int32_t)input->size() :10000000;
+    toread = (input->size() > 0) ?(int32_t)(input->size() - start) :10000000;
     size = input->read(data, toread, toread);
-    input->reset(0);
-    if (size != input->size()) {
+    input->reset(start);
+    if (size != input->size() - start) {
         stream->m_status = Error;
         stream->m_error
             = string("File cannot be read completely: ")+input->error();
-- 
2.43.0


From 4e8aceb9dfd7a03f3240cf6b370a15b012c53723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:25 +0000
Subject: [PATCH 47/53] fix: the compressing stream could wait forever for room
 for a stored block

---
 lib/gzipcompressstream.cpp | 88 ++++++++++++++++----------------------
 lib/gzipcompressstream.h   |  3 ++
 2 files changed, 39 insertions(+), 52 deletions(-)

diff --git a/lib/gzipcompressstream.cpp b/lib/gzipcompressstream.cpp
index 02cf43a..874e5a4 100644
--- a/lib/gzipcompressstream.cpp
+++ b/lib/gzipcompressstream.cpp
@@ -19,7 +19,7 @@
  */
 #include "gzipcompressstream.h"
 #include <zlib.h>
-#include <iostream>
+#include <cstring>
 
 using namespace Strigi;
 using namespace std;
@@ -28,6 +28,7 @@ GZipCompressInputStream::GZipCompressInputStream(InputStream* input, int level)
     // initialize values that signal state
     m_status = Ok;
     zstream = 0;
+    outpos = outend = 0;
     if ( level < 0 || level > 9 ) {
         level = Z_DEFAULT_COMPRESSION;
     }
@@ -49,9 +50,6 @@ GZipCompressInputStream::GZipCompressInputStream(InputStream* input, int level)
         m_status = Error;
         return;
     }
-
-    // signal that we need to read into the buffer
-    zstream->avail_out = 1;
 }
 GZipCompressInputStream::~GZipCompressInputStream() {
     dealloc();
@@ -80,56 +78,42 @@ GZipCompressInputStream::readFromStream() {
         zstream->avail_in = nread;
     }
 }
-int32_t
-GZipCompressInputStream::fillBuffer(char* start, int32_t space) {
-    cerr << "GZCI " << this << " " << zstream << endl;
-    if (zstream == 0) return -1;
-
-    // make sure we can write into the buffer
-    zstream->avail_out = space;
-    zstream->next_out = (Bytef*)start;
-
-    int r;
-    // make sure there is data to decompress
-    if (zstream->avail_in == 0) {
-        readFromStream();
-        if (m_status == Error) {
-            cerr << "error " << endl;
-            // no data was read
-            return -1;
-        } else if (zstream->avail_in == 0) {
-            r = deflate(zstream, Z_FINISH);
-            int32_t nwritten = space - zstream->avail_out;
-            cerr << "GZCI end " << this << " " << nwritten << " " << m_status
-<< endl;
-            if (r != Z_OK) {
-                cerr << "GZCI streamend " << r << endl;
-                dealloc();
-                if (r != Z_STREAM_END) {
-                    fprintf(stderr, "deflate should report Z_STREAM_END\n");
-                    return -1;
-                }
-            }
-            return nwritten;
+/**
+ * Compress input until there is output. Some output, such as the header of a
+ * stored block, is written only where there is enough room for all of it.
+ **/
+void
+GZipCompressInputStream::compressFromStream() {
+    outpos = 0;
+    zstream->next_out = (Bytef*)out;
+    zstream->avail_out = sizeof(out);
+    int r = Z_OK;
+    while (r == Z_OK && zstream->avail_out == sizeof(out)) {
+        // make sure there is data to compress
+        if (zstream->avail_in == 0) {
+            readFromStream();
+            if (m_status == Error) return;
         }
+        r = deflate(zstream, (zstream->avail_in == 0) ?Z_FINISH :Z_NO_FLUSH);
     }
-    r = deflate(zstream, Z_NO_FLUSH);
-    // inform the buffer of the number of bytes that was read
-    int32_t nwritten = space - zstream->avail_out;
-    switch (r) {
-    case Z_NEED_DICT:
-        m_error = "Z_NEED_DICT while inflating stream.";
-        m_status = Error;
-        break;
-    case Z_DATA_ERROR:
-        m_error = "Z_DATA_ERROR while inflating stream.";
-        m_status = Error;
-        break;
-    case Z_MEM_ERROR:
-        m_error = "Z_MEM_ERROR while inflating stream.";
+    outend = sizeof(out) - zstream->avail_out;
+    if (r == Z_STREAM_END) {
+        dealloc();
+    } else if (r != Z_OK) {
         m_status = Error;
-        break;
+        m_error = "Error compressing stream.";
+    }
+}
+int32_t
+GZipCompressInputStream::fillBuffer(char* start, int32_t space) {
+    if (outpos == outend) {
+        if (zstream == 0) return -1;
+        compressFromStream();
+        if (m_status == Error) return -1;
     }
-    cerr << "GZCI more " << this << " " << nwritten << endl;
-    return nwritten;
+    int32_t n = outend - outpos;
+    if (n > space) n = space;
+    memcpy(start, out+outpos, n);
+    outpos += n;
+    return (n > 0) ?n :-1;
 }
diff --git a/lib/gzipcompressstream.h b/lib/gzipcompressstream.h
index 1b6f82b..ceba8ac 100644
--- a/lib/gzipcompressstream.h
+++ b/lib/gzipcompressstream.h
@@ -32,6 +32,9 @@ class GZipCompressInputStream : public BufferedInputStream {
 private:
     z_stream_s* zstream;
     InputStream* input;
+    char out[1024]; // compressed data that was not delivered yet
+    int32_t outpos;
+    int32_t outend;
 
     void dealloc();
     void readFromStream();
-- 
2.43.0


From d476d8cadea80b9afc8fcf8ba002f0bb70c85ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:17 +0000
Subject: [PATCH 48/53] fix: large OLE documents from sources of unknown size,
 and large containers of small streams, were not read

---
 lib/oleinputstream.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/lib/oleinputstream.cpp b/lib/oleinputstream.cpp
index 3f0fa99..88fe403 100644
--- a/lib/oleinputstream.cpp
+++ b/lib/oleinputstream.cpp
@@ -212,10 +212,22 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
         stream->m_error = "File is incomplete.";
         return;
     }
-    toread = (input->size() > 0) ?(int32_t)(input->size() - start) :10000000;
+    // read all blocks that the allocation table can address
+    int64_t total = 512*(128*(int64_t)nBat+1);
+    if (total > 0x7ffffe00) total = 0x7ffffe00;
+    if (total < needed) total = needed;
+    if (input->size() > 0 && input->size() - start < total) {
+        total = input->size() - start;
+    }
+    toread = (input->size() > 0 || total < 10000000) ?(int32_t)total :10000000;
     size = input->read(data, toread, toread);
     input->reset(start);
-    if (size != input->size() - start) {
+    while (size == toread && toread < total) {
+        toread = (int32_t)::min((int64_t)2*toread, total);
+        size = input->read(data, toread, toread);
+        input->reset(start);
+    }
+    if (size != toread && size != input->size() - start) {
         stream->m_status = Error;
         stream->m_error
             = string("File cannot be read completely: ")+input->error();
@@ -253,7 +265,7 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
 
     // collect all sbat blocks
 //    fprintf(stderr, "sbat blocks\n");
-    while (sBatOffset >= 0 && sbatIndex.size() < 1000) {
+    while (sBatOffset >= 0) {
         sbatIndex.push_back(sBatOffset);
 /*        const char* b = data+(1+sBatOffset)*512;
         fprintf(stderr, "%4.i\n", sBatOffset);
@@ -269,7 +281,7 @@ OleInputStream::Private::Private(OleInputStream* s, InputStream* input)
     // read the info for the root entry
     currentDataBlock = (1+ptOffset)*512 + 0x74;
     if (!readInt32(currentDataBlock, currentDataBlock)) { return; }
-    while (currentDataBlock >= 0 && sbatbIndex.size() < 16000) {
+    while (currentDataBlock >= 0) {
         sbatbIndex.push_back(currentDataBlock);
         currentDataBlock = nextBlock(currentDataBlock);
     }
-- 
2.43.0


From 2ab1d10d1ad5522f2281e34eb978ac9844978726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:24 +0000
Subject: [PATCH 49/53] fix: the buffer size overflowed when more than 1 GiB
 was read at once

---
 include/strigi/streambuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/strigi/streambuffer.h b/include/strigi/streambuffer.h
index 5b26435..8dbb15e 100644
--- a/include/strigi/streambuffer.h
+++ b/include/strigi/streambuffer.h
@@ -171,7 +171,7 @@ StreamBuffer<T>::makeSpace(int32_t needed) {
 
     // still not enough space, we have to allocate more
 //    printf("resize %i %i %i %i %i\n", avail, needed, space, size + needed - space, size);
-    if (size > needed - space) {
+    if (size > needed - space && size < 0x40000000) {
         // double the buffer size
         space += size;
         setSize(2 * size);
-- 
2.43.0


From 8d63a07d316bf16f39c72f92d481c51aa5633890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:25 +0000
Subject: [PATCH 50/53] fix: the reader lost characters that the converter
 holds back

---
 include/strigi/inputstreamreader.h |  2 +-
 lib/inputstreamreader.cpp          | 33 +++++++++++++++++++++---------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/include/strigi/inputstreamreader.h b/include/strigi/inputstreamreader.h
index 9ddba16..abab8d7 100644
--- a/include/strigi/inputstreamreader.h
+++ b/include/strigi/inputstreamreader.h
@@ -41,7 +41,7 @@ private:
     iconv_t converter;
     bool finishedDecoding;
     InputStream* input;
-    int32_t charsLeft;
+    bool needInput;
 
     StreamBuffer<char> charbuf;
     void readFromStream();
diff --git a/lib/inputstreamreader.cpp b/lib/inputstreamreader.cpp
index 43e471e..c29d840 100644
--- a/lib/inputstreamreader.cpp
+++ b/lib/inputstreamreader.cpp
@@ -63,7 +63,7 @@ InputStreamReader::InputStreamReader(InputStream* i, const char* enc) {
     }
     charbuf.setSize(262);
     //mark(262);
-    charsLeft = 0;
+    needInput = true;
 }
 InputStreamReader::~InputStreamReader() {
     if (converter != (iconv_t) -1) {
@@ -92,11 +92,13 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
             charbuf.readPos = charbuf.start;
             charbuf.avail = (int32_t)inbytesleft;
             nwritten = (int32_t)(((wchar_t*)outbuf) - start);
+            needInput = true;
             break;
         case E2BIG: // output buffer is full
             charbuf.readPos += charbuf.avail - inbytesleft;
             charbuf.avail = (int32_t)inbytesleft;
-            nwritten = space;
+            nwritten = (int32_t)(((wchar_t*)outbuf) - start);
+            needInput = false;
             break;
         default:
             char tmp[10];
@@ -111,16 +113,15 @@ InputStreamReader::decode(wchar_t* start, int32_t space) {
         charbuf.readPos = charbuf.start;
         charbuf.avail = 0;
         nwritten = (int32_t)(((wchar_t*)outbuf) - start);
-        if (input == 0) {
-            finishedDecoding = true;
-        }
+        needInput = true;
     }
     return nwritten;
 }
 int32_t
 InputStreamReader::fillBuffer(wchar_t* start, int32_t space) {
+    if (finishedDecoding) return -1;
     // fill up charbuf
-    if (input && charbuf.readPos == charbuf.start) {
+    if (input && needInput) {
         const char *begin;
         int32_t numRead;
         numRead = input->read(begin, 1, charbuf.size - charbuf.avail);
@@ -129,6 +130,7 @@ InputStreamReader::fillBuffer(wchar_t* start, int32_t space) {
             m_error = input->error();
             m_status = Error;
             input = 0;
+            finishedDecoding = true;
             return numRead;
         }
         if (numRead < 1) {
@@ -137,12 +139,23 @@ InputStreamReader::fillBuffer(wchar_t* start, int32_t space) {
             if (charbuf.avail) {
                 m_error = "stream ends on incomplete character";
                 m_status = Error;
+                finishedDecoding = true;
+                return -1;
             }
-            return -1;
+        } else {
+            // copy data into other buffer
+            std::memmove(charbuf.start + charbuf.avail, begin, numRead);
+            charbuf.avail = numRead + charbuf.avail;
         }
-        // copy data into other buffer
-        std::memmove(charbuf.start + charbuf.avail, begin, numRead);
-        charbuf.avail = numRead + charbuf.avail;
+    }
+    if (input == 0) {
+        // some encodings hold back the last character until the end
+        char *outbuf = (char*)start;
+        size_t outbytesleft = sizeof(wchar_t)*space;
+        const size_t r = iconv(converter, 0, 0, &outbuf, &outbytesleft);
+        finishedDecoding = (r != (size_t)-1 || errno != E2BIG);
+        const int32_t n = (int32_t)(((wchar_t*)outbuf) - start);
+        return (n == 0 && finishedDecoding) ?-1 :n;
     }
     // decode
     int32_t n = decode(start, space);
-- 
2.43.0


From dba7cef6e712cfa68a5282669a728cd39a392ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:26 +0000
Subject: [PATCH 51/53] fix: encoded words lost characters that the converter
 holds back

---
 lib/mailinputstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/mailinputstream.cpp b/lib/mailinputstream.cpp
index 2fb6210..8a07e6a 100644
--- a/lib/mailinputstream.cpp
+++ b/lib/mailinputstream.cpp
@@ -87,7 +87,12 @@ Decoder::decode(const string& enc, string& data) {
     if (olen > 0) {
         char* out = buffer;
         char* mem = out;
+        iconv(conv, 0, 0, 0, 0);
         size_t r = iconv(conv, &in, &ilen, &out, &olen);
+        if (r != (size_t)-1) {
+            // some encodings hold back the last character until the end
+            r = iconv(conv, 0, 0, &out, &olen);
+        }
         if (r != (size_t)-1) {
             data.assign(mem, out-mem);
         }
-- 
2.43.0


From 02afec9ade17d237efcd9c545a2962e0bb099b28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:37 +0000
Subject: [PATCH 52/53] fix: opening a file without a name in memory is an
 error, not a crash

---
 lib/mmapfileinputstream.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/mmapfileinputstream.cpp b/lib/mmapfileinputstream.cpp
index 2fbe605..2ada290 100644
--- a/lib/mmapfileinputstream.cpp
+++ b/lib/mmapfileinputstream.cpp
@@ -31,6 +31,12 @@ using namespace Strigi;
 using namespace std;
 
 MMapFileInputStream::MMapFileInputStream(const char* filepath) {
+    if (filepath == 0) {
+        buffer = 0;
+        m_error = "No filename was provided.";
+        m_status = Error;
+        return;
+    }
     int fd = ::open(filepath, O_RDONLY);
     struct stat sb;
     if (fd == -1 || fstat(fd, &sb) == -1) {
-- 
2.43.0


From c9f6e163fe6a83c73f5103881dc9658017780b94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:56:39 +0000
Subject: [PATCH 53/53] fix: commands got no input or gave no output if the
 standard descriptors are closed

---
 lib/processinputstream.cpp | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/lib/processinputstream.cpp b/lib/processinputstream.cpp
index d3e84a1..7e304a1 100644
--- a/lib/processinputstream.cpp
+++ b/lib/processinputstream.cpp
@@ -177,10 +177,32 @@ ProcessInputStream::fillBuffer(char* start, int32_t space) {
     }
     return (int32_t)n;
 }
+/**
+ * Create a pipe that does not use the descriptors of standard input, standard
+ * output and standard error, even if these are closed.
+ **/
+static int
+createPipe(int p[2]) {
+    if (pipe(p) == -1) return -1;
+    for (int i = 0; i < 2; ++i) {
+        if (p[i] > 2) continue;
+        const int fd = fcntl(p[i], F_DUPFD, 3);
+        if (fd == -1) {
+            const int error = errno;
+            close(p[0]);
+            close(p[1]);
+            errno = error;
+            return -1;
+        }
+        close(p[i]);
+        p[i] = fd;
+    }
+    return 0;
+}
 void
 ProcessInputStream::runCmd() {
     int p[2];
-    if (pipe(p) == -1) {
+    if (createPipe(p) == -1) {
         fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
         m_error = strerror(errno);
         m_status = Error;
@@ -219,13 +241,13 @@ void
 ProcessInputStream::runCmdWithInput() {
     int pin[2];
     int pout[2];
-    if (pipe(pin) == -1) {
+    if (createPipe(pin) == -1) {
         fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
         m_error = strerror(errno);
         m_status = Error;
         return;
     }
-    if (pipe(pout) == -1) {
+    if (createPipe(pout) == -1) {
         fprintf(stderr,"ProcessInputStream::runCmd: %s\n", strerror(errno));
         m_error = strerror(errno);
         m_status = Error;
-- 
2.43.0

