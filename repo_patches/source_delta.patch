From da84ecb22c42a24e5a324b45fa25bfcd0b8ec28a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 01/63] fix: negative sizes read past the limit of a
 LimitReader

---
 warcio/limitreader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/limitreader.py b/warcio/limitreader.py
index bfa6d9e..ef81bd7 100644
--- a/warcio/limitreader.py
+++ b/warcio/limitreader.py
@@ -15,7 +15,7 @@ class LimitReader(object):
         return buff
 
     def read(self, length=None):
-        if length is not None:
+        if length is not None and length >= 0:
             length = min(length, self.limit)
         else:
             length = self.limit
@@ -27,7 +27,7 @@ class LimitReader(object):
         return self._update(buff)
 
     def readline(self, length=None):
-        if length is not None:
+        if length is not None and length >= 0:
             length = min(length, self.limit)
         else:
             length = self.limit
-- 
2.43.0


From f0ced3c0c1084049e23cecc2dcf9853114dd37c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:51 +0000
Subject: [PATCH 02/63] fix: limiting a LimitReader further changed its
 position

---
 warcio/limitreader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/limitreader.py b/warcio/limitreader.py
index ef81bd7..27f9d2c 100644
--- a/warcio/limitreader.py
+++ b/warcio/limitreader.py
@@ -57,7 +57,10 @@ class LimitReader(object):
                 # optimize: if already a LimitStream, set limit to
                 # the smaller of the two limits
                 if isinstance(stream, LimitReader):
+                    delivered = stream.tell()
                     stream.limit = min(stream.limit, content_length)
+                    # keep tell() at the number of bytes delivered so far
+                    stream._orig_limit = delivered + stream.limit
                 else:
                     stream = LimitReader(stream, content_length)
 
-- 
2.43.0


From 3daff7876be8db1ef3d1215c31580f0ad537518c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:15 +0000
Subject: [PATCH 03/63] fix: sized readline spanning several buffers stopped
 short

---
 warcio/bufferedreaders.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 80a4612..243ccbe 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -191,9 +191,10 @@ class BufferedReader(object):
 
         # we may be at a boundary
         while not linebuff.endswith(b'\n'):
-            if length:
-                length -= len(linebuff)
-                if length <= 0:
+            remaining = None
+            if length is not None and length > 0:
+                remaining = length - len(linebuff)
+                if remaining <= 0:
                     break
 
             self._fillbuff()
@@ -201,7 +202,7 @@ class BufferedReader(object):
             if self.empty():
                 break
 
-            linebuff += self.buff.readline(length)
+            linebuff += self.buff.readline(remaining)
 
         return linebuff
 
-- 
2.43.0


From a421347baac52511fe7aecf69984839d34356bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:15 +0000
Subject: [PATCH 04/63] fix: BufferedReader.read() with a negative length
 returned nothing

---
 warcio/bufferedreaders.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 243ccbe..634dc41 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -157,6 +157,10 @@ class BufferedReader(object):
         if at buffer boundary, will attempt to read again until
         specified length is read
         """
+        # as for any file, a negative length means no limit
+        if length is not None and length < 0:
+            length = None
+
         all_buffs = []
         while length is None or length > 0:
             self._fillbuff()
-- 
2.43.0


From 972b6d5982f7363a5dae90ae37a4e92376647bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:15 +0000
Subject: [PATCH 05/63] fix: reading all gzip members stopped at an empty or
 block-aligned member

---
 warcio/bufferedreaders.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 634dc41..8bd632b 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -104,21 +104,27 @@ class BufferedReader(object):
 
         block_size = block_size or self.block_size
 
-        if self.starting_data:
-            data = self.starting_data
-            self.starting_data = None
-        else:
-            data = self.stream.read(block_size)
-
-        self._process_read(data)
+        while True:
+            if self.starting_data:
+                data = self.starting_data
+                self.starting_data = None
+            else:
+                data = self.stream.read(block_size)
 
-        # if raw data is not empty and decompressor set, but
-        # decompressed buff is empty, keep reading --
-        # decompressor likely needs more data to decompress
-        while data and self.decompressor and not self.decompressor.unused_data and self.empty():
-            data = self.stream.read(block_size)
             self._process_read(data)
 
+            # if raw data is not empty and decompressor set, but
+            # decompressed buff is empty, keep reading --
+            # decompressor likely needs more data to decompress
+            # (if reading all members, empty() moves to the next member,
+            # whose data is then processed next)
+            if not data or not self.decompressor or not self.empty():
+                break
+
+            # at the end of a member
+            if self.decompressor.unused_data:
+                break
+
     def _process_read(self, data):
         # don't process if no raw data read
         if not data:
-- 
2.43.0


From 3c487d2104199fe39935878212f86489bcf4217c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:33 +0000
Subject: [PATCH 06/63] fix: first bytes of data that is not gzip were lost if
 read one at a time

---
 warcio/bufferedreaders.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 8bd632b..a0bd6a1 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -83,6 +83,8 @@ class BufferedReader(object):
 
     def _init_decomp(self, decomp_type):
         self.num_block_read = 0
+        # raw data read before any was decompressed
+        self.undecided = b''
         if decomp_type:
             try:
                 self.decomp_type = decomp_type
@@ -126,12 +128,19 @@ class BufferedReader(object):
                 break
 
     def _process_read(self, data):
-        # don't process if no raw data read
-        if not data:
+        if data:
+            data = self._decompress(data)
+        elif (self.decompressor and self.decomp_type == 'gzip' and
+              len(self.undecided) == 1 and self.undecided != b'\x1f'):
+            # a single byte, which can't be gzip, is all there is,
+            # too little for the decompressor to reject it
+            data = self.undecided
+            self.decompressor = None
+        else:
+            # don't process if no raw data read
             self.buff = None
             return
 
-        data = self._decompress(data)
         self.buff_size = len(data)
         self.num_read += self.buff_size
         self.num_block_read += self.buff_size
@@ -139,11 +148,16 @@ class BufferedReader(object):
 
     def _decompress(self, data):
         if self.decompressor and data:
+            if self.num_block_read == 0:
+                self.undecided += data
+
             try:
                 data = self.decompressor.decompress(data)
             except Exception as e:
-                # if first read attempt, assume non-gzipped stream
+                # if nothing decompressed yet, assume non-gzipped stream
+                # including any data that was already read
                 if self.num_block_read == 0:
+                    data = self.undecided
                     if self.decomp_type == 'deflate':
                         self._init_decomp('deflate_alt')
                         data = self._decompress(data)
-- 
2.43.0


From 59ce1716dc8918f779d635fb8137b03699606ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 07/63] fix: replacing a repeated header changed an occurrence
 that lookups do not return

---
 warcio/statusandheaders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index ce42d66..8cbdd96 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -52,7 +52,8 @@ class StatusAndHeaders(object):
         return old header value, if any
         """
         name_lower = name.lower()
-        for index in range(len(self.headers) - 1, -1, -1):
+        # replace the first match, which is what get_header() returns
+        for index in range(len(self.headers)):
             curr_name, curr_value = self.headers[index]
             if curr_name.lower() == name_lower:
                 self.headers[index] = (curr_name, value)
-- 
2.43.0


From dc02fcd6429d135c869f329430319943f63cd570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:30 +0000
Subject: [PATCH 08/63] fix: a header with an empty value was reported as not
 present

---
 warcio/statusandheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 8cbdd96..34bb4e4 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -216,7 +216,7 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
     __setitem__ = replace_header
     __delitem__ = remove_header
     def __contains__(self, key):
-        return bool(self[key])
+        return self[key] is not None
 
 #=================================================================
 def _strip_count(string, total_read):
-- 
2.43.0


From c33e62df59a000974e9889db606c3ad5fe314934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 09/63] fix: headers with neither status nor headers were not
 equal to themselves

---
 warcio/statusandheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 34bb4e4..bc49a99 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -126,7 +126,7 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
         return not (self == other)
 
     def __eq__(self, other):
-        if not other:
+        if not isinstance(other, StatusAndHeaders):
             return False
 
         return (self.statusline == other.statusline and
-- 
2.43.0


From e9084c1b275dd816e4c1c4c737f28295cec8b896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 10/63] fix: unicode white space at the ends of header values
 was lost

---
 warcio/statusandheaders.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index bc49a99..2e032dc 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -219,9 +219,13 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
         return self[key] is not None
 
 #=================================================================
+LINE_WS = ' \t\r\n'
+
 def _strip_count(string, total_read):
     length = len(string)
-    return string.rstrip(), total_read + length
+    # only line ends and white space as known to http,
+    # other (unicode) white space is part of the value
+    return string.rstrip(LINE_WS), total_read + length
 
 
 #=================================================================
@@ -277,7 +281,7 @@ class StatusAndHeadersParser(object):
             result = line.split(':', 1)
             if len(result) == 2:
                 name = result[0].rstrip(' \t')
-                value = result[1].lstrip()
+                value = result[1].lstrip(LINE_WS)
             else:
                 name = result[0]
                 value = None
@@ -299,7 +303,7 @@ class StatusAndHeadersParser(object):
             line = next_line
 
         if len(protocol_status) > 1:
-            statusline = protocol_status[1].strip()
+            statusline = protocol_status[1].strip(LINE_WS)
         else:
             statusline = ''
 
-- 
2.43.0


From 98289ca1b33e9712d84c0cfeeb91e0ce7d2a69df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:07 +0000
Subject: [PATCH 11/63] fix: value given only on a continuation line kept the
 line's indentation

---
 warcio/statusandheaders.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 2e032dc..5d14fb2 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -297,7 +297,8 @@ class StatusAndHeadersParser(object):
                                                      total_read)
 
             if value is not None:
-                header = (name, value)
+                # value may be entirely on continuation lines
+                header = (name, value.lstrip(LINE_WS))
                 headers.append(header)
 
             line = next_line
-- 
2.43.0


From 72d82a3f32c8ffcaa4107cd8033994b74a168709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 12/63] fix: data that is not chunked was lost if it began with
 a negative number

A negative chunk size was accepted, reading nothing (or, for some streams, everything).
---
 warcio/bufferedreaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index a0bd6a1..e2aa68b 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -352,7 +352,7 @@ class ChunkedDataReader(BufferedReader):
             chunk_size = length_header[:-2].split(b';')[0]
             chunk_size = int(chunk_size, 16)
             # sanity check chunk size
-            assert(chunk_size <= 2**31)
+            assert(0 <= chunk_size <= 2**31)
         except (ValueError, AssertionError):
             raise ChunkedDataException(b"Couldn't decode length header " +
                                        length_header)
-- 
2.43.0


From 80f3984dbbafa8073d5b00c48121f79958c94bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 13/63] fix: chunk with long chunk extensions was not decoded

---
 warcio/bufferedreaders.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index e2aa68b..4209c53 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -328,7 +328,7 @@ class ChunkedDataReader(BufferedReader):
                not self.not_chunked):
 
             try:
-                length_header = self.stream.readline(64)
+                length_header = self._read_length_header()
                 self._try_decode(length_header)
             except ChunkedDataException as e:
                 if self.raise_chunked_data_exceptions:
@@ -344,6 +344,15 @@ class ChunkedDataReader(BufferedReader):
                 # parse as block as non-chunked
                 return super(ChunkedDataReader, self)._fillbuff(block_size)
 
+    def _read_length_header(self):
+        length_header = self.stream.readline(64)
+
+        # chunk extensions may make the line longer
+        if b';' in length_header and length_header[-1:] != b'\n':
+            length_header += self.stream.readline(BUFF_SIZE)
+
+        return length_header
+
     def _try_decode(self, length_header):
         # decode length header
         try:
-- 
2.43.0


From ffec65d3e5eea71db04db83da63281938dbefc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 14/63] fix: trailers after the last chunk were returned as
 data

A chunked body may end with trailer fields; they were taken for damage, and
the last size line, and what followed the two bytes read, became content.
---
 warcio/bufferedreaders.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 4209c53..6f75138 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -367,12 +367,19 @@ class ChunkedDataReader(BufferedReader):
                                        length_header)
 
         if not chunk_size:
-            # chunk_size 0 indicates end of file. read final bytes to compute digest.
-            final_data = self.stream.read(2)
-            try:
-                assert(final_data == b'\r\n')
-            except AssertionError:
-                raise ChunkedDataException(b"Incorrect \r\n after length header of 0")
+            # chunk_size 0 indicates end of file. read final bytes, including
+            # any trailers, to compute digest.
+            final_data = b''
+            while True:
+                line = self.stream.readline()
+                if line == b'\r\n':
+                    break
+
+                final_data += line
+                if b':' not in line:
+                    raise ChunkedDataException(b"Incorrect \r\n after length header of 0",
+                                               final_data)
+
             self.all_chunks_read = True
             self._process_read(b'')
             return
-- 
2.43.0


From 35f242f7ca5259021ebda2bb34bb1083b7c2081c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:48 +0000
Subject: [PATCH 15/63] fix: chunked data cut off between chunks returned chunk
 headers as data

Cut off within a chunk, all data so far was returned, but cut off within a
terminator, a later size line or the end, parts of these became content too.
---
 warcio/bufferedreaders.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 6f75138..52b4bf4 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -293,9 +293,11 @@ class DecompressingBufferedReader(BufferedReader):
 
 #=================================================================
 class ChunkedDataException(Exception):
-    def __init__(self, msg, data=b''):
+    def __init__(self, msg, data=b'', cut_off=False):
         Exception.__init__(self, msg)
         self.data = data
+        # True if the chunked data ended early, instead of being invalid
+        self.cut_off = cut_off
 
 
 #=================================================================
@@ -312,6 +314,7 @@ class ChunkedDataReader(BufferedReader):
         super(ChunkedDataReader, self).__init__(stream, **kwargs)
         self.all_chunks_read = False
         self.not_chunked = False
+        self.any_chunks_read = False
 
         # if False, we'll use best-guess fallback for parse errors
         self.raise_chunked_data_exceptions = raise_exceptions
@@ -334,6 +337,12 @@ class ChunkedDataReader(BufferedReader):
                 if self.raise_chunked_data_exceptions:
                     raise
 
+                # Chunked data was cut off after some chunks: nothing left
+                if e.cut_off and self.any_chunks_read:
+                    self.all_chunks_read = True
+                    self._process_read(e.data)
+                    return
+
                 # Can't parse the data as chunked.
                 # It's possible that non-chunked data is served
                 # with a Transfer-Encoding: chunked.
@@ -363,8 +372,12 @@ class ChunkedDataReader(BufferedReader):
             # sanity check chunk size
             assert(0 <= chunk_size <= 2**31)
         except (ValueError, AssertionError):
+            cut_off = (len(length_header) not in (64, 64 + BUFF_SIZE) and
+                       not length_header.split(b';')[0].strip(b'0123456789abcdefABCDEF \r'))
             raise ChunkedDataException(b"Couldn't decode length header " +
-                                       length_header)
+                                       length_header, cut_off=cut_off)
+
+        self.any_chunks_read = True
 
         if not chunk_size:
             # chunk_size 0 indicates end of file. read final bytes, including
@@ -375,6 +388,10 @@ class ChunkedDataReader(BufferedReader):
                 if line == b'\r\n':
                     break
 
+                if line[-1:] != b'\n':
+                    raise ChunkedDataException(b"Ran out of data after length header of 0",
+                                               cut_off=True)
+
                 final_data += line
                 if b':' not in line:
                     raise ChunkedDataException(b"Incorrect \r\n after length header of 0",
@@ -411,7 +428,7 @@ class ChunkedDataReader(BufferedReader):
             clrf = self.stream.read(2)
             if clrf != b'\r\n':
                 raise ChunkedDataException(b"Chunk terminator not found.",
-                                           data)
+                                           data, cut_off=clrf in (b'', b'\r'))
 
         # hand to base class for further processing
         self._process_read(data)
-- 
2.43.0


From ab46e2e815d478eeb807d980372077562c96953b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 16/63] fix: records with an empty HTTP header block were
 written with a wrong length

A payload beginning with a blank line, or with only a protocol before the blank
line, gives headers which are false as a condition: they were taken from the
payload but not written, and not counted.
---
 warcio/recordbuilder.py | 4 ++--
 warcio/recordloader.py  | 2 +-
 warcio/warcwriter.py    | 8 ++++----
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 081b5b1..96a5e63 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -92,7 +92,7 @@ class RecordBuilder(object):
         if payload and not http_headers:
             loader = ArcWarcRecordLoader()
             http_headers = loader.load_http_headers(record_type, uri, payload, length)
-            if http_headers and length is not None:
+            if http_headers is not None and length is not None:
                 length -= payload.tell()
 
         if not payload:
@@ -183,7 +183,7 @@ class RecordBuilder(object):
             pos = 0
             temp_file = self._create_temp_file()
 
-        if block_digester and record.http_headers:
+        if block_digester and record.http_headers is not None:
             if not record.http_headers.headers_buff:
                 record.http_headers.compute_headers_buffer(self.header_filter)
             block_digester.update(record.http_headers.headers_buff)
diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 475507b..932bb8d 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -141,7 +141,7 @@ class ArcWarcRecordLoader(object):
         if not no_record_parse:
             start = stream.tell()
             http_headers = self.load_http_headers(rec_type, uri, stream, length)
-            if length and http_headers:
+            if length and http_headers is not None:
                 payload_length = length - (stream.tell() - start)
 
         # generate validate http headers (eg. for replay)
diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 6fb71be..dc4a9df 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -42,7 +42,7 @@ class BaseWARCWriter(RecordBuilder):
         if self.gzip:
             out = GzippingWrapper(out)
 
-        if record.http_headers:
+        if record.http_headers is not None:
             record.http_headers.compute_headers_buffer(self.header_filter)
 
         # Content-Length is None/unknown
@@ -73,10 +73,10 @@ class BaseWARCWriter(RecordBuilder):
             http_headers_only = False
 
         # compute Content-Length
-        if record.http_headers and record.payload_length >= 0:
+        if record.http_headers is not None and record.payload_length >= 0:
             actual_len = 0
 
-            if record.http_headers:
+            if record.http_headers is not None:
                 actual_len = len(record.http_headers.headers_buff)
 
             if not http_headers_only:
@@ -91,7 +91,7 @@ class BaseWARCWriter(RecordBuilder):
         out.write(record.rec_headers.to_bytes(encoding='utf-8'))
 
         # write headers buffer, if any
-        if record.http_headers:
+        if record.http_headers is not None:
             out.write(record.http_headers.headers_buff)
 
         if not http_headers_only:
-- 
2.43.0


From 2b9b7de8e3e1e9d077843a5cdd17068b1cb57373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 17/63] fix: length of a record with HTTP headers in a payload
 not starting at 0

The length of the HTTP headers was taken to be the position in the payload
stream, wrong if it did not start at 0, an error if it can not be told.
---
 warcio/recordbuilder.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 96a5e63..82e01ba 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -4,6 +4,7 @@ import tempfile
 from datetime import datetime, timezone
 from io import BytesIO
 
+from warcio.limitreader import LimitReader
 from warcio.recordloader import ArcWarcRecord, ArcWarcRecordLoader
 from warcio.statusandheaders import StatusAndHeadersParser, StatusAndHeaders
 from warcio.timeutils import datetime_to_iso_date
@@ -90,10 +91,18 @@ class RecordBuilder(object):
             warc_headers_dict = dict()
 
         if payload and not http_headers:
+            start = 0
+            if length is not None:
+                # position of payload may not be known, or may not start at 0
+                try:
+                    start = payload.tell()
+                except Exception:
+                    payload = LimitReader(payload, length)
+
             loader = ArcWarcRecordLoader()
             http_headers = loader.load_http_headers(record_type, uri, payload, length)
             if http_headers is not None and length is not None:
-                length -= payload.tell()
+                length -= payload.tell() - start
 
         if not payload:
             payload = BytesIO()
-- 
2.43.0


From c8af21950a37c9e6d65600b8f73e1aeb612505d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:57 +0000
Subject: [PATCH 18/63] fix: revisit record with a block other than HTTP
 headers was written without it

Its length was that of the block, so that the record and the file were invalid.
---
 warcio/warcwriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index dc4a9df..1f0ab55 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -67,7 +67,7 @@ class BaseWARCWriter(RecordBuilder):
             # ensure proper content type
             record.rec_headers.replace_header('Content-Type', record.content_type)
 
-        if record.rec_type == 'revisit':
+        if record.rec_type == 'revisit' and record.http_headers is not None:
             http_headers_only = True
         else:
             http_headers_only = False
-- 
2.43.0


From d4cbfe942d8336c6fb677e891180edcdbd5e8462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:04 +0000
Subject: [PATCH 19/63] fix: response or request record without a target URI
 could not be read

Iterating a file with such a record ended in an AttributeError, losing it and
every record after it.
---
 warcio/recordloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 932bb8d..3ca8ed5 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -181,7 +181,7 @@ class ArcWarcRecordLoader(object):
             return None
 
         # only http:/https: uris can have http headers
-        if not uri.startswith(self.HTTP_SCHEMES):
+        if not uri or not uri.startswith(self.HTTP_SCHEMES):
             return None
 
         # request record: parse request
-- 
2.43.0


From 353368efcfaa15973d681c78ba9461b8190cb06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 20/63] fix: header with non-ASCII text beside a parameter
 could not be written

For a value such as 'e-acute; a=b' only the parameters were encoded, and
writing the record failed with a UnicodeEncodeError.
---
 warcio/statusandheaders.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 5d14fb2..db27355 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -181,6 +181,14 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
 
         return string + b'\r\n'
 
+    @staticmethod
+    def _is_ascii(value):
+        try:
+            value.encode('ascii')
+            return True
+        except (UnicodeEncodeError, UnicodeDecodeError):
+            return False
+
     def percent_encode_non_ascii_headers(self, encoding='UTF-8'):
         """ Encode any headers that are not plain ascii
             as UTF-8 as per:
@@ -192,10 +200,8 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
 
         for index in range(len(self.headers) - 1, -1, -1):
             curr_name, curr_value = self.headers[index]
-            try:
-                # test if header is ascii encodable, no action needed
-                curr_value.encode('ascii')
-            except:
+            # if header is ascii encodable, no action needed
+            if not self._is_ascii(curr_value):
                 # if single value header, (eg. no ';'), %-encode entire header
                 if ';' not in curr_value:
                     new_value = quote(curr_value)
@@ -203,7 +209,8 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
                 else:
                 # %-encode value in ; name="value"
                     new_value = self.ENCODE_HEADER_RX.sub(do_encode, curr_value)
-                    if new_value == curr_value:
+                    if not self._is_ascii(new_value):
+                        # not all in values, %-encode entire header
                         new_value = quote(curr_value)
 
                 self.headers[index] = (curr_name, new_value)
-- 
2.43.0


From 733e5927e0b7c752d4d53cded9e042b63711ef89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:24 +0000
Subject: [PATCH 21/63] fix: non-ASCII status lines and header names could not
 be written

Only header values were encoded, so that writing such a record failed with a
UnicodeEncodeError.
---
 warcio/statusandheaders.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index db27355..53d0f59 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -189,6 +189,14 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
         except (UnicodeEncodeError, UnicodeDecodeError):
             return False
 
+    @classmethod
+    def _encode_non_ascii(cls, value):
+        if cls._is_ascii(value):
+            return value
+
+        # keep all ascii characters, other than %
+        return quote(value, safe=''.join(chr(c) for c in range(128) if c != ord('%')))
+
     def percent_encode_non_ascii_headers(self, encoding='UTF-8'):
         """ Encode any headers that are not plain ascii
             as UTF-8 as per:
@@ -198,6 +206,9 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
         def do_encode(m):
             return "*={0}''".format(encoding) + quote(to_native_str(m.group(1)))
 
+        self.protocol = self._encode_non_ascii(self.protocol)
+        self.statusline = self._encode_non_ascii(self.statusline)
+
         for index in range(len(self.headers) - 1, -1, -1):
             curr_name, curr_value = self.headers[index]
             # if header is ascii encodable, no action needed
@@ -215,6 +226,10 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
 
                 self.headers[index] = (curr_name, new_value)
 
+            if not self._is_ascii(curr_name):
+                self.headers[index] = (self._encode_non_ascii(curr_name),
+                                       self.headers[index][1])
+
     # act like a (case-insensitive) dictionary of headers, much like other
     # python http headers apis including http.client.HTTPMessage
     # and requests.structures.CaseInsensitiveDict
-- 
2.43.0


From c03f3207f961db5e58663721346e70b737d917dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:25 +0000
Subject: [PATCH 22/63] fix: BufferedReader.tell() counted data still in its
 buffer

A record built with such a reader as its payload, of known length and with HTTP
headers to be parsed, got a wrong Content-Length.
---
 warcio/bufferedreaders.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 52b4bf4..21fbe60 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -231,6 +231,10 @@ class BufferedReader(object):
         return linebuff
 
     def tell(self):
+        # data still in the buffer was not read by the caller yet
+        if self.buff:
+            return self.num_read - (self.buff_size - self.buff.tell())
+
         return self.num_read
 
     def empty(self):
-- 
2.43.0


From 6359871d6adcc739f1ed1f9ef185a5b362053a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 23/63] fix: digests were misjudged, or checking them raised,
 depending on encoding

Which encoding a digest is in was told from its length: hex md5 digests, as
long as padded base32 ones, always failed, as did unpadded base32 of most
algorithms. A digest which was not valid in the encoding assumed, or of an
algorithm of variable length, raised an error while reading instead of failing.
---
 warcio/digestverifyingreader.py | 43 +++++++++++----------------------
 1 file changed, 14 insertions(+), 29 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 985a4ed..fd23bd4 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -119,45 +119,30 @@ def _compare_digest_rfc_3548(digester, digest):
     if not digester or not digest:
         return None
 
-    digester_b32 = str(digester)
+    _, value = _parse_digest(digest)
 
-    our_algo, our_value = _parse_digest(digester_b32)
-    warc_algo, warc_value = _parse_digest(digest)
+    try:
+        binary = digester.digester.digest()
+    except TypeError:
+        # digests of no fixed length (eg. shake) can not be compared
+        return False
 
-    warc_b32 = _to_b32(len(our_value), warc_value)
-
-    if our_value == warc_b32:
+    if value.lower() == to_native_str(base64.b16encode(binary)).lower():
         return True
 
-    return False
-
-
-def _to_b32(length, value):
-    '''
-    Convert value to base 32, given that it's supposed to have the same
-    length as the digest we're about to compare it to
-    '''
-    if len(value) == length:
-        return value  # casefold needed here? -- rfc recommends not allowing
-
-    if len(value) > length:
-        binary = base64.b16decode(value, casefold=True)
-    else:
-        binary = _b64_wrapper(value)
+    # the padding may be left out
+    value = value.rstrip('=')
 
-    return to_native_str(base64.b32encode(binary), encoding='ascii')
+    # casefold needed here? -- rfc recommends not allowing
+    return value in [to_native_str(encoded).rstrip('=') for encoded in (
+                         base64.b32encode(binary),
+                         base64.b64encode(binary),
+                         base64.b64encode(binary, altchars=base64_url_filename_safe_alt))]
 
 
 base64_url_filename_safe_alt = b'-_'
 
 
-def _b64_wrapper(value):
-    if '-' in value or '_' in value:
-        return base64.b64decode(value, altchars=base64_url_filename_safe_alt)
-    else:
-        return base64.b64decode(value)
-
-
 def _parse_digest(digest):
     algo, sep, value = digest.partition(':')
     if sep == ':':
-- 
2.43.0


From 2b39cfe80add9d7c6516f95366bdffcde9bfd9dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 24/63] fix: block digest of a record with an empty block was
 not checked

---
 warcio/digestverifyingreader.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index fd23bd4..c58c184 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -76,6 +76,14 @@ class DigestVerifyingReader(LimitReader):
                 self.payload_digester_obj = None
 
     def begin_payload(self):
+        # nothing will be read from an empty block
+        if self._orig_limit == 0:
+            check = _compare_digest_rfc_3548(self.block_digester, self.block_digest)
+            if check is False:
+                self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
+            elif check is True and self.digest_checker.passed is not False:
+                self.digest_checker.passed = True
+
         self.payload_digester = self.payload_digester_obj
         if self.limit == 0:
             check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
-- 
2.43.0


From 610a8b45d891e563df5c1cd394f0562d6783ac7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:11 +0000
Subject: [PATCH 25/63] fix: record cut short was not reported by digest
 checking

The digests are compared when the record has been read up to its length, which
does not happen if the file ends before.
---
 warcio/digestverifyingreader.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index c58c184..87183d4 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -59,6 +59,7 @@ class DigestVerifyingReader(LimitReader):
         self.payload_digester = None
         self.payload_digester_obj = None
         self.block_digester = None
+        self.cut_short = False
 
         if block_digest:
             try:
@@ -101,6 +102,12 @@ class DigestVerifyingReader(LimitReader):
         if self.block_digester:
             self.block_digester.update(buff)
 
+        # at end of stream, but not of record
+        if not buff and not self.cut_short:
+            self.cut_short = True
+            if self.block_digester or self.payload_digester_obj:
+                self.digest_checker.problem('record is cut short, {} bytes missing'.format(self.limit))
+
         if self.limit == 0:
             check = _compare_digest_rfc_3548(self.block_digester, self.block_digest)
             if check is False:
-- 
2.43.0


From 2ef63fed8aaf19bc362538972d710fd934d9aee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:25 +0000
Subject: [PATCH 26/63] fix: payload digests failed if reading without parsing
 HTTP headers

With no_record_parse, the digest was computed over the HTTP headers too, so
that every correct HTTP record was reported as failed.
---
 warcio/digestverifyingreader.py |  7 ++++++-
 warcio/recordloader.py          | 15 ++++++++++-----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 87183d4..b40f701 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -76,7 +76,12 @@ class DigestVerifyingReader(LimitReader):
                 self.digest_checker.problem('unknown hash algorithm name in payload digest')
                 self.payload_digester_obj = None
 
-    def begin_payload(self):
+    def begin_payload(self, unknown=False):
+        # can't check the payload digest if payload is not known
+        if unknown:
+            self.payload_digest = None
+            self.payload_digester_obj = None
+
         # nothing will be read from an empty block
         if self._orig_limit == 0:
             check = _compare_digest_rfc_3548(self.block_digester, self.block_digest)
diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 3ca8ed5..1fd5095 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -148,8 +148,10 @@ class ArcWarcRecordLoader(object):
         if not http_headers and ensure_http_headers:
             http_headers = self.default_http_headers(length, content_type)
 
+        # without parsing, it is unknown where the payload after http headers begins
         if is_verifying:
-            stream.begin_payload()
+            stream.begin_payload(
+                unknown=no_record_parse and self.may_have_http_headers(rec_type, uri, length))
 
         return ArcWarcRecord(the_format, rec_type,
                              rec_headers, stream, http_headers,
@@ -170,18 +172,21 @@ class ArcWarcRecordLoader(object):
                                        segment_number=segment_number)
         return stream, True
 
-    def load_http_headers(self, rec_type, uri, stream, length):
+    def may_have_http_headers(self, rec_type, uri, length):
         # only if length == 0 don't parse
         # try parsing is length is unknown (length is None) or length > 0
         if length == 0:
-            return None
+            return False
 
         # only certain record types can have http headers
         if rec_type not in self.HTTP_RECORDS:
-            return None
+            return False
 
         # only http:/https: uris can have http headers
-        if not uri or not uri.startswith(self.HTTP_SCHEMES):
+        return bool(uri and uri.startswith(self.HTTP_SCHEMES))
+
+    def load_http_headers(self, rec_type, uri, stream, length):
+        if not self.may_have_http_headers(rec_type, uri, length):
             return None
 
         # request record: parse request
-- 
2.43.0


From 840d064d33c3269c20b5d36dd328b86b5c687919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 27/63] fix: recompressing lost data if gzip members were cut
 within a record

If the second part happened to be readable as a record, the records were
taken as they were, instead of decompressing the whole file first.
---
 warcio/recompressor.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/warcio/recompressor.py b/warcio/recompressor.py
index c164827..9506ba3 100644
--- a/warcio/recompressor.py
+++ b/warcio/recompressor.py
@@ -3,6 +3,7 @@ from warcio.exceptions import ArchiveLoadFailed
 
 from warcio.warcwriter import WARCWriter
 from warcio.bufferedreaders import DecompressingBufferedReader
+from warcio.limitreader import LimitReader
 from warcio.utils import fsspec_open
 
 import tempfile
@@ -25,7 +26,7 @@ class Recompressor(object):
             msg = ''
             with fsspec_open(self.filename, 'rb') as stream:
                 try:
-                    count = self.load_and_write(stream, self.output)
+                    count = self.load_and_write(stream, self.output, strict=True)
                     msg = 'No Errors Found!'
                 except Exception as e:
                     if self.verbose:
@@ -53,7 +54,7 @@ class Recompressor(object):
             print('Recompress Failed: {0} could not be read as a WARC or ARC'.format(self.filename))
             sys.exit(1)
 
-    def load_and_write(self, stream, output):
+    def load_and_write(self, stream, output, strict=False):
         count = 0
         with fsspec_open(output, 'wb') as out:
             writer = WARCWriter(filebuf=out, gzip=True)
@@ -63,11 +64,23 @@ class Recompressor(object):
                                           arc2warc=True,
                                           verify_http=False):
 
+                length, stream = record.length, record.raw_stream
+
                 writer.write_record(record)
                 count += 1
 
+                # a record not ending in its gzip member probably goes on in the next one
+                if strict and self.is_cut_short(length, stream):
+                    raise ArchiveLoadFailed('Record {0} is cut short'.format(count))
+
             return count
 
+    def is_cut_short(self, length, stream):
+        if length is None:
+            return True
+
+        return isinstance(stream, LimitReader) and stream.limit > 0
+
     def decompress_and_recompress(self, stream, output):
         with tempfile.TemporaryFile() as tout:
             decomp = DecompressingBufferedReader(stream, read_all_members=True)
-- 
2.43.0


From 2e556c513faa68b0ac52fc84918607e4ad8eb63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:29 +0000
Subject: [PATCH 28/63] fix: blank line in place of a record was read as an
 empty record

A gzip member beginning with a blank line, eg. if a record is split over
several members, gave a record without type, headers or length.
---
 warcio/recordloader.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 1fd5095..be25f70 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -227,6 +227,9 @@ class ArcWarcRecordLoader(object):
             # try as warc first
             try:
                 rec_headers = self.warc_parser.parse(stream, statusline)
+                if not rec_headers.protocol:
+                    raise ArchiveLoadFailed('Invalid WARC record, first line is blank')
+
                 return 'warc', rec_headers
             except StatusAndHeadersParserException as se:
                 if known_format == 'warc':
-- 
2.43.0


From 4f9b5b9e216c266a6e3d793afcef0ef06ded1f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:12 +0000
Subject: [PATCH 29/63] fix: records after the first of a gzip member were lost
 after an empty member

Instead of the error about a file not gzipped by record, iteration ended
after the first record of any member following an empty one.
---
 warcio/archiveiterator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index 31a6942..a793cfd 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -103,9 +103,10 @@ class ArchiveIterator(six.Iterator):
         """ iterate over each record
         """
         raise_invalid_gzip = False
-        empty_record = False
 
         while True:
+            empty_record = False
+
             try:
                 self.record = self._next_record(self.next_line)
                 if raise_invalid_gzip:
-- 
2.43.0


From f83f8bc01c7d697cab883ba03b50e07c8ed6d894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 30/63] fix: record cut short before its HTTP headers was
 silently skipped

It was taken for the end of the file or gzip member, so digest checking and
recompressing missed it, and the next gzip member was read with its first line.
---
 warcio/recordloader.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index be25f70..7a40944 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -189,20 +189,19 @@ class ArcWarcRecordLoader(object):
         if not self.may_have_http_headers(rec_type, uri, length):
             return None
 
-        # request record: parse request
-        if rec_type == 'request':
-            return self.http_req_parser.parse(stream)
+        try:
+            # request record: parse request
+            if rec_type == 'request':
+                return self.http_req_parser.parse(stream)
 
-        elif rec_type == 'revisit':
-            try:
+            # response record or non-empty revisit: parse HTTP status and headers!
+            else:
                 return self.http_parser.parse(stream)
-            except EOFError:
-                # empty revisit with no http headers, is ok!
-                return None
 
-        # response record or non-empty revisit: parse HTTP status and headers!
-        else:
-            return self.http_parser.parse(stream)
+        except EOFError:
+            # empty revisit with no http headers, is ok!
+            # any other record is cut short, but still a record
+            return None
 
     def default_http_headers(self, length, content_type=None):
         headers = []
-- 
2.43.0


From 48c8e8e6bf3cbe6876c7463b57ce9687bed414e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 31/63] fix: first line of a record cut short was used for the
 next gzip member

---
 warcio/archiveiterator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index a793cfd..e000f7e 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -108,7 +108,8 @@ class ArchiveIterator(six.Iterator):
             empty_record = False
 
             try:
-                self.record = self._next_record(self.next_line)
+                next_line, self.next_line = self.next_line, None
+                self.record = self._next_record(next_line)
                 if raise_invalid_gzip:
                     self._raise_invalid_gzip_err()
 
-- 
2.43.0


From c54cebb1f9023a2e8d739a3daf3876fc56b2b16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:32 +0000
Subject: [PATCH 32/63] fix: recompressing lost part of an ARC record cut in
 its first line

If a gzip member ended within it, the first part was skipped as invalid data,
or taken for the whole line.
---
 warcio/recompressor.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/warcio/recompressor.py b/warcio/recompressor.py
index 9506ba3..151efd3 100644
--- a/warcio/recompressor.py
+++ b/warcio/recompressor.py
@@ -59,11 +59,12 @@ class Recompressor(object):
         with fsspec_open(output, 'wb') as out:
             writer = WARCWriter(filebuf=out, gzip=True)
 
-            for record in ArchiveIterator(stream,
-                                          no_record_parse=False,
-                                          arc2warc=True,
-                                          verify_http=False):
+            archive = ArchiveIterator(stream,
+                                      no_record_parse=False,
+                                      arc2warc=True,
+                                      verify_http=False)
 
+            for record in archive:
                 length, stream = record.length, record.raw_stream
 
                 writer.write_record(record)
@@ -73,6 +74,12 @@ class Recompressor(object):
                 if strict and self.is_cut_short(length, stream):
                     raise ArchiveLoadFailed('Record {0} is cut short'.format(count))
 
+                # neither may part of the next record be at the end of its gzip member
+                archive.read_to_end()
+                if strict and (archive.err_count or
+                               (archive.next_line and archive.reader.decompressor)):
+                    raise ArchiveLoadFailed('Invalid data after record {0}'.format(count))
+
             return count
 
     def is_cut_short(self, length, stream):
-- 
2.43.0


From e412717702aa7ca8527c906c4a418ccffa5d3f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:38 +0000
Subject: [PATCH 33/63] fix: chunked transfer encoding not spelled in lower
 case was not decoded

---
 warcio/recordloader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 7a40944..5078af3 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -36,7 +36,9 @@ class ArcWarcRecord(object):
             if encoding not in BufferedReader.get_supported_decompressors():
                 encoding = None
 
-        if self.http_headers.get_header('transfer-encoding') == 'chunked':
+        transfer_encoding = self.http_headers.get_header('transfer-encoding')
+
+        if transfer_encoding and transfer_encoding.lower() == 'chunked':
             return ChunkedDataReader(self.raw_stream, decomp_type=encoding)
         elif encoding:
             return BufferedReader(self.raw_stream, decomp_type=encoding)
-- 
2.43.0


From b7d2f3aecbe70d6845e7acf310026171b1d93106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:19 +0000
Subject: [PATCH 34/63] fix: 5-digit timestamps ending in 0 resolved to
 February

All others resolve to December, as parts given incompletely are not given.
---
 warcio/timeutils.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/warcio/timeutils.py b/warcio/timeutils.py
index 8847dd9..89ade5f 100644
--- a/warcio/timeutils.py
+++ b/warcio/timeutils.py
@@ -266,6 +266,9 @@ def timestamp_to_datetime(string, tz_aware=False):
     >>> timestamp_to_datetime('20141')
     datetime.datetime(2014, 12, 31, 23, 59, 59)
 
+    >>> timestamp_to_datetime('20140')
+    datetime.datetime(2014, 12, 31, 23, 59, 59)
+
     # 4-digit padding
     >>> timestamp_to_datetime('2014')
     datetime.datetime(2014, 12, 31, 23, 59, 59)
@@ -316,6 +319,10 @@ def timestamp_to_datetime(string, tz_aware=False):
 
     """
 
+    # an incomplete month is not given
+    if len(string) == 5:
+        string = string[:4]
+
     # pad to 6 digits
     string = pad_timestamp(string, PAD_6_UP)
 
-- 
2.43.0


From 13859784b3307051fdd59ef83202a7179c9bacf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:19 +0000
Subject: [PATCH 35/63] fix: time zones of datetimes were ignored or added to
 ISO dates with Z

With microseconds, aware datetimes gave invalid dates ending in +00:00Z.
---
 warcio/timeutils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/warcio/timeutils.py b/warcio/timeutils.py
index 89ade5f..841d211 100644
--- a/warcio/timeutils.py
+++ b/warcio/timeutils.py
@@ -102,6 +102,13 @@ def datetime_to_http_date(the_datetime):
                       usegmt=True)
 
 
+def to_naive_utc(the_datetime):
+    if the_datetime.tzinfo is not None:
+        the_datetime = the_datetime.astimezone(timezone.utc).replace(tzinfo=None)
+
+    return the_datetime
+
+
 def datetime_to_iso_date(the_datetime, use_micros=False):
     """
     >>> datetime_to_iso_date(datetime(2013, 12, 26, 10, 11, 12))
@@ -121,6 +128,8 @@ def datetime_to_iso_date(the_datetime, use_micros=False):
 
     """
 
+    the_datetime = to_naive_utc(the_datetime)
+
     if not use_micros:
         return the_datetime.strftime(ISO_DT)
     else:
@@ -133,7 +142,7 @@ def datetime_to_timestamp(the_datetime):
     '20131226101112'
     """
 
-    return the_datetime.strftime(TIMESTAMP_14)
+    return to_naive_utc(the_datetime).strftime(TIMESTAMP_14)
 
 
 def timestamp_now():
-- 
2.43.0


From d1163a32d7aa510898860e3d9a0da425d39447f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:15 +0000
Subject: [PATCH 36/63] fix: ARC file headers with a non-ASCII version line got
 a wrong length

Characters were counted instead of bytes, so the next record was not found.
---
 warcio/recordloader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 5078af3..17f95b6 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -308,8 +308,9 @@ class ARCHeadersParser(object):
 
         # if arc header, consume next two lines
         if headerline.startswith('filedesc://'):
-            version = StatusAndHeadersParser.decode_header(stream.readline())  # skip version
-            spec = StatusAndHeadersParser.decode_header(stream.readline())  # skip header spec, use preset one
+            version = stream.readline()  # skip version
+            spec = stream.readline()  # skip header spec, use preset one
+            # the length in the header line counts bytes
             total_read += len(version)
             total_read += len(spec)
 
-- 
2.43.0


From bb735231613fe7cd1d05d5a2ab961f00ef861557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:42 +0000
Subject: [PATCH 37/63] fix: extract left out HTTP headers having neither
 status nor headers

---
 warcio/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/extractor.py b/warcio/extractor.py
index 9d37e4f..c849815 100644
--- a/warcio/extractor.py
+++ b/warcio/extractor.py
@@ -31,7 +31,7 @@ class Extractor(object):
                     buf = stream.read(self.READ_SIZE)
             else:
                 stdout_raw.write(record.rec_headers.to_bytes())
-                if record.http_headers:
+                if record.http_headers is not None:
                     stdout_raw.write(record.http_headers.to_bytes())
                 if not headers_only:
                     buf = record.raw_stream.read(self.READ_SIZE)
-- 
2.43.0


From 665bf38dbce4e300f84488ecca4971c0bb65df80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 38/63] fix: capturing recorded more than was read by
 readinto(), and failed on read1() and peek()

---
 warcio/capture_http.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index d83cb27..a67758a 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -50,12 +50,26 @@ class RecordingStream(object):
         self.recorder.write_response(buff)
         return buff
 
+    # Used in PY3 Only
+    def read1(self, amt=-1):  #pragma: no cover
+        buff = self.fp.read1(amt)
+        self.recorder.write_response(buff)
+        return buff
+
+    # Used in PY3 Only
+    def peek(self, amt=0):  #pragma: no cover
+        return self.fp.peek(amt)
+
     # Used in PY3 Only
     def readinto(self, buff):  #pragma: no cover
         res = self.fp.readinto(buff)
-        self.recorder.write_response(buff)
+        # only part of the buffer may have been filled
+        self.recorder.write_response(memoryview(buff)[:res])
         return res
 
+    def fileno(self):
+        return self.fp.fileno()
+
     def readline(self, maxlen=-1):
         line = self.fp.readline(maxlen)
         self.recorder.write_response(line)
-- 
2.43.0


From d7adce583206dc55aacec77a27da15f2017c260a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:53 +0000
Subject: [PATCH 39/63] fix: capturing hid the error of a client that got no
 valid response, and recorded it

---
 warcio/capture_http.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index a67758a..0fc7c62 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -76,9 +76,11 @@ class RecordingStream(object):
         return line
 
     def close(self):
-        self.recorder.done()
-        if self.fp:
-            return self.fp.close()
+        try:
+            self.recorder.done()
+        finally:
+            if self.fp:
+                self.fp.close()
 
     def flush(self):
         return self.fp.flush()
@@ -88,8 +90,14 @@ class RecordingStream(object):
 class RecordingHTTPResponse(httplib.HTTPResponse):
     def __init__(self, recorder, *args, **kwargs):
         httplib.HTTPResponse.__init__(self, *args, **kwargs)
+        self.recorder = recorder
         self.fp = RecordingStream(self.fp, recorder)
 
+    def begin(self):
+        httplib.HTTPResponse.begin(self)
+        # until here, what was received may not be a response at all
+        self.recorder.response_begun = True
+
 
 # ============================================================================
 class RecordingHTTPConnection(httplib.HTTPConnection):
@@ -154,6 +162,7 @@ class RequestRecorder(object):
         self.connect_host = self.connect_port = None
         self.started_req = False
         self.first_line_read = False
+        self.response_begun = False
         self.lock = threading.Lock()
         self.warc_headers = {}
         self.record_ip = record_ip
@@ -169,6 +178,7 @@ class RequestRecorder(object):
         self.url = None
         self.started_req = True
         self.first_line_read = False
+        self.response_begun = False
 
     def _create_buffer(self):
         return SpooledTemporaryFile(BUFF_SIZE)
@@ -199,7 +209,13 @@ class RequestRecorder(object):
         if not self.started_req:
             return
 
+        # once is enough
+        self.started_req = False
+
         try:
+            if not self.response_begun:
+                return
+
             request = self._create_record(self.request_out, 'request')
             response = self._create_record(self.response_out, 'response')
 
-- 
2.43.0


From 2c22b7428f0e05e6c4fa24622edbc21bb2573687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 40/63] fix: capturing failed on, or changed, methods and
 versions other than the common ones

---
 warcio/capture_http.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 0fc7c62..59fc686 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -8,6 +8,7 @@ from contextlib import contextmanager
 
 from array import array
 
+from warcio.statusandheaders import StatusAndHeadersParser
 from warcio.utils import to_native_str, BUFF_SIZE, open
 from warcio.warcwriter import WARCWriter, BufferWARCWriter
 
@@ -64,7 +65,7 @@ class RecordingStream(object):
     def readinto(self, buff):  #pragma: no cover
         res = self.fp.readinto(buff)
         # only part of the buffer may have been filled
-        self.recorder.write_response(memoryview(buff)[:res])
+        self.recorder.write_response(memoryview(buff).cast('B')[:res])
         return res
 
     def fileno(self):
@@ -198,12 +199,15 @@ class RequestRecorder(object):
     def _create_record(self, out, record_type):
         length = out.tell()
         out.seek(0)
+        # any method and version, as used by client and server
+        http_headers = StatusAndHeadersParser([], verify=False).parse(out)
         return self.writer.create_warc_record(
                 warc_headers_dict=self.warc_headers,
                 uri=self.url,
                 record_type=record_type,
                 payload=out,
-                length=length)
+                length=length - out.tell(),
+                http_headers=http_headers)
 
     def done(self):
         if not self.started_req:
-- 
2.43.0


From 1aee30218177a2647ea2f3a46fd0472b44ad46b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 41/63] fix: interim responses (100 Continue) were recorded as
 the response

---
 warcio/capture_http.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 59fc686..64c57e9 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -94,6 +94,11 @@ class RecordingHTTPResponse(httplib.HTTPResponse):
         self.recorder = recorder
         self.fp = RecordingStream(self.fp, recorder)
 
+    def _read_status(self):
+        # what was received before is an interim response (100 Continue)
+        self.recorder.restart_response()
+        return httplib.HTTPResponse._read_status(self)
+
     def begin(self):
         httplib.HTTPResponse.begin(self)
         # until here, what was received may not be a response at all
@@ -181,6 +186,11 @@ class RequestRecorder(object):
         self.first_line_read = False
         self.response_begun = False
 
+    def restart_response(self):
+        if self.started_req:
+            self.response_out.seek(0)
+            self.response_out.truncate()
+
     def _create_buffer(self):
         return SpooledTemporaryFile(BUFF_SIZE)
 
-- 
2.43.0


From cdd2d3ab02e45a78154589b6e06e1df5be7ae112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:17 +0000
Subject: [PATCH 42/63] fix: capturing a request whose body is sent from a text
 file or iterable failed

---
 warcio/capture_http.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 64c57e9..cd0520d 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -9,7 +9,7 @@ from contextlib import contextmanager
 from array import array
 
 from warcio.statusandheaders import StatusAndHeadersParser
-from warcio.utils import to_native_str, BUFF_SIZE, open
+from warcio.utils import to_native_str, collections_abc, BUFF_SIZE, open
 from warcio.warcwriter import WARCWriter, BufferWARCWriter
 
 from tempfile import SpooledTemporaryFile
@@ -19,6 +19,15 @@ from tempfile import SpooledTemporaryFile
 orig_connection = httplib.HTTPConnection
 
 
+# ============================================================================
+def is_bytes_like(data):
+    try:
+        memoryview(data)
+        return True
+    except TypeError:
+        return isinstance(data, (bytes, array))
+
+
 # ============================================================================
 class RecordingStream(object):
     def __init__(self, fp, recorder):
@@ -141,6 +150,14 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
                 if not buff:
                     break
 
+                # same encoding as used by httplib
+                if not isinstance(buff, bytes):
+                    buff = buff.encode('iso-8859-1')
+
+                send_request(buff)
+        # also supported, like a stream
+        elif isinstance(data, collections_abc.Iterable) and not is_bytes_like(data):
+            for buff in data:
                 send_request(buff)
         else:
             send_request(data)
-- 
2.43.0


From 69771ee6c147f73cbbea9c4e31f737e106ae37f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 43/63] fix: exchanges captured at the same time or in sequence
 got each other's data and headers

---
 warcio/capture_http.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index cd0520d..c4b5b51 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -125,6 +125,10 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
         else:
             self.recorder = None
 
+        if self.recorder:
+            # not shared with other connections
+            self.recorder = self.recorder.new_exchange()
+
         def make_recording_response(*args, **kwargs):
             return RecordingHTTPResponse(self.recorder, *args, **kwargs)
 
@@ -169,9 +173,11 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
         return orig_connection._tunnel(self, *args, **kwargs)
 
     def putrequest(self, *args, **kwargs):
+        orig_connection.putrequest(self, *args, **kwargs)
         if self.recorder:
+            # responses of other requests may not have been read yet
+            self.recorder = self.recorder.new_exchange()
             self.recorder.start()
-        return orig_connection.putrequest(self, *args, **kwargs)
 
 
 # ============================================================================
@@ -190,6 +196,19 @@ class RequestRecorder(object):
         self.warc_headers = {}
         self.record_ip = record_ip
 
+    def new_exchange(self):
+        """
+        A recorder of another exchange over the same connection
+        (or over a new connection, if none was used yet)
+        """
+        recorder = RequestRecorder(self.writer, self.filter_func, record_ip=self.record_ip)
+        recorder.lock = self.lock
+        recorder.connect_host = self.connect_host
+        recorder.connect_port = self.connect_port
+        if self.connect_host:
+            recorder.warc_headers['WARC-Proxy-Host'] = self.warc_headers['WARC-Proxy-Host']
+        return recorder
+
     def start_tunnel(self):
         self.connect_host = self.connect_port = None
         self.started_req = False
-- 
2.43.0


From 42f7eac2410d5a3de5ac095ac3f5bf6eb6ce448c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:05 +0000
Subject: [PATCH 44/63] fix: wrong URL captured for requests about the whole
 server or with upper case scheme

---
 warcio/capture_http.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index c4b5b51..81f939c 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -305,7 +305,11 @@ class RequestRecorder(object):
         if self.connect_port:
             port = self.connect_port
 
-        if path.startswith(('http:', 'https:')):
+        # request about the server itself, not any path
+        if path == '*':
+            path = ''
+
+        if path.lower().startswith(('http:', 'https:')):
             self.warc_headers['WARC-Proxy-Host'] = "http://{0}:{1}".format(host, port)
             self.url = path
             return
-- 
2.43.0


From df077478e9a5b3a571ae2e407f5a0e2e33efb230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:10 +0000
Subject: [PATCH 45/63] fix: request opening a tunnel was not captured

---
 warcio/capture_http.py | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 81f939c..9ed3de8 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -140,6 +140,10 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
             orig_connection.send(self, data)
             return
 
+        # open the connection, and any tunnel, before looking at the request
+        if self.sock is None and self.auto_open:
+            self.connect()
+
         def send_request(buff):
             self.recorder.extract_url(buff, self.host, self.port, self.default_port)
 
@@ -167,10 +171,19 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
             send_request(data)
 
     def _tunnel(self, *args, **kwargs):
-        if self.recorder:
-            self.recorder.start_tunnel()
+        if not self.recorder:
+            return orig_connection._tunnel(self, *args, **kwargs)
 
-        return orig_connection._tunnel(self, *args, **kwargs)
+        # opening the tunnel is not part of the exchange that may have been started
+        exchange = self.recorder
+        self.recorder = exchange.new_exchange()
+        self.recorder.start_tunnel()
+
+        try:
+            return orig_connection._tunnel(self, *args, **kwargs)
+        finally:
+            exchange.use_tunnel(self.recorder)
+            self.recorder = exchange
 
     def putrequest(self, *args, **kwargs):
         orig_connection.putrequest(self, *args, **kwargs)
@@ -203,12 +216,15 @@ class RequestRecorder(object):
         """
         recorder = RequestRecorder(self.writer, self.filter_func, record_ip=self.record_ip)
         recorder.lock = self.lock
-        recorder.connect_host = self.connect_host
-        recorder.connect_port = self.connect_port
-        if self.connect_host:
-            recorder.warc_headers['WARC-Proxy-Host'] = self.warc_headers['WARC-Proxy-Host']
+        recorder.use_tunnel(self)
         return recorder
 
+    def use_tunnel(self, recorder):
+        self.connect_host = recorder.connect_host
+        self.connect_port = recorder.connect_port
+        if self.connect_host:
+            self.warc_headers['WARC-Proxy-Host'] = recorder.warc_headers['WARC-Proxy-Host']
+
     def start_tunnel(self):
         self.connect_host = self.connect_port = None
         self.started_req = False
-- 
2.43.0


From e2d3df9f65419932211a842dd00e4c8620e56b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:10 +0000
Subject: [PATCH 46/63] fix: wrong URL captured for IPv6 hosts, and tunnels to
 them failed

---
 warcio/capture_http.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 9ed3de8..9394e9b 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -296,6 +296,10 @@ class RequestRecorder(object):
             self.request_out.close()
             self.response_out.close()
 
+    @staticmethod
+    def _url_host(host):
+        return '[' + host + ']' if ':' in host else host
+
     def extract_url(self, data, host, port, default_port):
         if self.first_line_read:
             return
@@ -309,10 +313,10 @@ class RequestRecorder(object):
         path = parts[1]
 
         if verb == "CONNECT":
-            parts = path.split(":", 1)
-            self.connect_host = parts[0]
+            parts = path.rsplit(":", 1)
+            self.connect_host = parts[0].strip('[]')
             self.connect_port = int(parts[1]) if len(parts) > 1 else default_port
-            self.warc_headers['WARC-Proxy-Host'] = "https://{0}:{1}".format(host, port)
+            self.warc_headers['WARC-Proxy-Host'] = "https://{0}:{1}".format(self._url_host(host), port)
             return
 
         if self.connect_host:
@@ -326,12 +330,12 @@ class RequestRecorder(object):
             path = ''
 
         if path.lower().startswith(('http:', 'https:')):
-            self.warc_headers['WARC-Proxy-Host'] = "http://{0}:{1}".format(host, port)
+            self.warc_headers['WARC-Proxy-Host'] = "http://{0}:{1}".format(self._url_host(host), port)
             self.url = path
             return
 
         scheme = 'https' if default_port == 443 else 'http'
-        self.url = scheme + '://' + host
+        self.url = scheme + '://' + self._url_host(host)
         if port != default_port:
             self.url += ':' + str(port)
 
-- 
2.43.0


From fe0a5cc433dfff7f114fb74f9228435887cceaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:10 +0000
Subject: [PATCH 47/63] fix: leaving a capture context within another one
 stopped both

---
 warcio/capture_http.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 9394e9b..0ac4e01 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -360,13 +360,14 @@ def capture_http(warc_writer=None, filter_func=None, append=True,
         out = open(warc_writer, 'ab' if append else 'xb')
         warc_writer = WARCWriter(out, **kwargs)
 
+    outer = getattr(RecordingHTTPConnection.local, 'recorder', None)
     try:
         recorder = RequestRecorder(warc_writer, filter_func, record_ip=record_ip)
         RecordingHTTPConnection.local.recorder = recorder
         yield warc_writer
 
     finally:
-        RecordingHTTPConnection.local.recorder = None
+        RecordingHTTPConnection.local.recorder = outer
         if out:
             out.close()
 
-- 
2.43.0


From fbe0e8f72c6bc2acd270c14dcd23defb65e5bd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:01 +0000
Subject: [PATCH 48/63] fix: capture_http: records written at the same time by
 several contexts to one writer were mixed up

---
 warcio/capture_http.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 0ac4e01..828f75b 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -195,6 +195,9 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
 
 # ============================================================================
 class RequestRecorder(object):
+    # of all recorders, as different ones may use the same writer
+    lock = threading.RLock()
+
     def __init__(self, writer, filter_func=None, record_ip=True):
         self.writer = writer
         self.filter_func = filter_func
@@ -205,7 +208,6 @@ class RequestRecorder(object):
         self.started_req = False
         self.first_line_read = False
         self.response_begun = False
-        self.lock = threading.Lock()
         self.warc_headers = {}
         self.record_ip = record_ip
 
@@ -215,7 +217,6 @@ class RequestRecorder(object):
         (or over a new connection, if none was used yet)
         """
         recorder = RequestRecorder(self.writer, self.filter_func, record_ip=self.record_ip)
-        recorder.lock = self.lock
         recorder.use_tunnel(self)
         return recorder
 
-- 
2.43.0


From 163c00067724dbc90015dfda62bb5a0605eca5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:53 +0000
Subject: [PATCH 49/63] fix: digest algorithm names with a null character ended
 reading with a TypeError

---
 warcio/digestverifyingreader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index b40f701..a4651be 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -65,14 +65,14 @@ class DigestVerifyingReader(LimitReader):
             try:
                 algo, _ = _parse_digest(block_digest)
                 self.block_digester = Digester(algo)
-            except ValueError:
+            except (ValueError, TypeError):
                 self.digest_checker.problem('unknown hash algorithm name in block digest')
                 self.block_digester = None
         if payload_digest:
             try:
                 algo, _ = _parse_digest(self.payload_digest)
                 self.payload_digester_obj = Digester(algo)
-            except ValueError:
+            except (ValueError, TypeError):
                 self.digest_checker.problem('unknown hash algorithm name in payload digest')
                 self.payload_digester_obj = None
 
-- 
2.43.0


From ad7a3b3f3f5d4a8791acbeb026aaaee08d353b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:35 +0000
Subject: [PATCH 50/63] fix: record lengths of twenty digits ended reading with
 an OverflowError

---
 warcio/recordloader.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 17f95b6..81f2786 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -13,6 +13,7 @@ from warcio.timeutils import timestamp_to_iso_date
 from six.moves import zip
 
 import logging
+import sys
 logger = logging.getLogger(__name__)
 
 
@@ -115,7 +116,8 @@ class ArcWarcRecordLoader(object):
         try:
             if length is not None:
                 length = int(length) - sub_len
-                if length < 0:
+                # not valid, or more than can be read
+                if length < 0 or length > sys.maxsize:
                     is_err = True
 
         except (ValueError, TypeError):
-- 
2.43.0


From 70e8402776b6fa9c21385c4ab1d5f1a0a967a0b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:51 +0000
Subject: [PATCH 51/63] fix: capture_http: exchanges over connections opened
 while capturing to a file failed once it was closed

---
 warcio/capture_http.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 828f75b..77aa311 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -198,8 +198,10 @@ class RequestRecorder(object):
     # of all recorders, as different ones may use the same writer
     lock = threading.RLock()
 
-    def __init__(self, writer, filter_func=None, record_ip=True):
+    def __init__(self, writer, filter_func=None, record_ip=True, out=None):
         self.writer = writer
+        # file closed at the end of the context, if any
+        self.out = out
         self.filter_func = filter_func
         self.request_out = None
         self.response_out = None
@@ -216,7 +218,8 @@ class RequestRecorder(object):
         A recorder of another exchange over the same connection
         (or over a new connection, if none was used yet)
         """
-        recorder = RequestRecorder(self.writer, self.filter_func, record_ip=self.record_ip)
+        recorder = RequestRecorder(self.writer, self.filter_func,
+                                   record_ip=self.record_ip, out=self.out)
         recorder.use_tunnel(self)
         return recorder
 
@@ -292,7 +295,8 @@ class RequestRecorder(object):
                     return
 
             with self.lock:
-                self.writer.write_request_response_pair(request, response)
+                if not self.out or not self.out.closed:
+                    self.writer.write_request_response_pair(request, response)
         finally:
             self.request_out.close()
             self.response_out.close()
@@ -363,13 +367,15 @@ def capture_http(warc_writer=None, filter_func=None, append=True,
 
     outer = getattr(RecordingHTTPConnection.local, 'recorder', None)
     try:
-        recorder = RequestRecorder(warc_writer, filter_func, record_ip=record_ip)
+        recorder = RequestRecorder(warc_writer, filter_func, record_ip=record_ip, out=out)
         RecordingHTTPConnection.local.recorder = recorder
         yield warc_writer
 
     finally:
         RecordingHTTPConnection.local.recorder = outer
         if out:
-            out.close()
+            # other threads may be writing
+            with RequestRecorder.lock:
+                out.close()
 
 
-- 
2.43.0


From 709ba122bb8b2cd8e007dbda7e05912a40a49db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 52/63] fix: records built with an empty record id or date
 header had two of them

---
 warcio/recordbuilder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 82e01ba..0549df3 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -132,13 +132,13 @@ class RecordBuilder(object):
         warc_headers = StatusAndHeaders('', list(warc_headers_dict.items()), protocol=self.warc_version)
         warc_headers.replace_header('WARC-Type', record_type)
         if not warc_headers.get_header('WARC-Record-ID'):
-            warc_headers.add_header('WARC-Record-ID', self._make_warc_id())
+            warc_headers.replace_header('WARC-Record-ID', self._make_warc_id())
 
         if uri:
             warc_headers.replace_header('WARC-Target-URI', uri)
 
         if not warc_headers.get_header('WARC-Date'):
-            warc_headers.add_header('WARC-Date', self.curr_warc_date())
+            warc_headers.replace_header('WARC-Date', self.curr_warc_date())
 
         return warc_headers
 
-- 
2.43.0


From cf7573bacf963f1c53eb2bf570697c46dc41c859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:15 +0000
Subject: [PATCH 53/63] fix: BufferWARCWriter overwrote records after its
 stream was read

---
 warcio/warcwriter.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 1f0ab55..81ab9f9 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -147,6 +147,11 @@ class BufferWARCWriter(WARCWriter):
         out = self._create_temp_file()
         super(BufferWARCWriter, self).__init__(out, *args, **kwargs)
 
+    def _write_warc_record(self, out, record):
+        # reading from the stream may have moved the position
+        out.seek(0, 2)
+        super(BufferWARCWriter, self)._write_warc_record(out, record)
+
     def get_contents(self):
         pos = self.out.tell()
         self.out.seek(0)
-- 
2.43.0


From dadd0f3fefbe84cfff354438e074d9411589be9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:38 +0000
Subject: [PATCH 54/63] fix: chunk terminator split over two reads of the
 stream was not found

---
 warcio/bufferedreaders.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 21fbe60..cbcb59c 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -430,6 +430,10 @@ class ChunkedDataReader(BufferedReader):
         # it should end in \r\n
         if not self.all_chunks_read:
             clrf = self.stream.read(2)
+            if len(clrf) == 1:
+                # delivered in two reads
+                clrf += self.stream.read(1)
+
             if clrf != b'\r\n':
                 raise ChunkedDataException(b"Chunk terminator not found.",
                                            data, cut_off=clrf in (b'', b'\r'))
-- 
2.43.0


From 9766ad2f1ec39078c3557d66ee55d123903d8453 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:03 +0000
Subject: [PATCH 55/63] fix: block digest of a revisit record covered a payload
 which is not written

---
 warcio/recordbuilder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 0549df3..f5335ac 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -197,8 +197,11 @@ class RecordBuilder(object):
                 record.http_headers.compute_headers_buffer(self.header_filter)
             block_digester.update(record.http_headers.headers_buff)
 
+        # only the http headers of a revisit record are written
+        http_headers_only = (record.rec_type == 'revisit' and record.http_headers is not None)
+
         for buf in self._iter_stream(record.raw_stream):
-            if block_digester:
+            if block_digester and not http_headers_only:
                 block_digester.update(buf)
 
             if payload_digester:
-- 
2.43.0


From 2c952bc06fa52a2eac3403552b82a0fb8da4cf3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:35 +0000
Subject: [PATCH 56/63] fix: write a request whose response has no target URI
 or date

The header was set to None, so that writing the request failed after the
response had been written.
---
 warcio/warcwriter.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 81ab9f9..b0e961d 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -23,8 +23,11 @@ class BaseWARCWriter(RecordBuilder):
         url = resp.rec_headers.get_header('WARC-Target-URI')
         dt = resp.rec_headers.get_header('WARC-Date')
 
-        req.rec_headers.replace_header('WARC-Target-URI', url)
-        req.rec_headers.replace_header('WARC-Date', dt)
+        # the response may lack them, then the request keeps its own
+        if url is not None:
+            req.rec_headers.replace_header('WARC-Target-URI', url)
+        if dt is not None:
+            req.rec_headers.replace_header('WARC-Date', dt)
 
         resp_id = resp.rec_headers.get_header('WARC-Record-ID')
         if resp_id:
-- 
2.43.0


From 2da15da7606baa919b15c4120ce5ad6d69fd1f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:25 +0000
Subject: [PATCH 57/63] fix: record the url of requests for other schemes sent
 to a proxy

A request for eg. ftp://host/path, which urllib sends to a proxy just as
any other, was recorded as http://proxyftp://host/path.
---
 warcio/capture_http.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 77aa311..d69b4a8 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -334,7 +334,8 @@ class RequestRecorder(object):
         if path == '*':
             path = ''
 
-        if path.lower().startswith(('http:', 'https:')):
+        # full url (of any scheme) as sent to a proxy
+        if not path.startswith('/') and '://' in path.split('?', 1)[0]:
             self.warc_headers['WARC-Proxy-Host'] = "http://{0}:{1}".format(self._url_host(host), port)
             self.url = path
             return
-- 
2.43.0


From 951026084b49551e0f32c34580dab80861542f79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:45 +0000
Subject: [PATCH 58/63] fix: recompressing a file to itself destroyed it

---
 warcio/recompressor.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/warcio/recompressor.py b/warcio/recompressor.py
index 151efd3..08786bb 100644
--- a/warcio/recompressor.py
+++ b/warcio/recompressor.py
@@ -6,6 +6,7 @@ from warcio.bufferedreaders import DecompressingBufferedReader
 from warcio.limitreader import LimitReader
 from warcio.utils import fsspec_open
 
+import os
 import tempfile
 import shutil
 import traceback
@@ -19,8 +20,23 @@ class Recompressor(object):
         self.output = output
         self.verbose = verbose
 
+    def is_same_file(self):
+        if self.filename == self.output:
+            return True
+
+        try:
+            return os.path.samefile(self.filename, self.output)
+        except (OSError, TypeError, ValueError):
+            return False
+
     def recompress(self):
         from warcio.cli import main
+
+        # opening the output would empty the input
+        if self.is_same_file():
+            print('Recompress Failed: {0} is both input and output'.format(self.filename))
+            sys.exit(1)
+
         try:
             count = 0
             msg = ''
-- 
2.43.0


From aebd225fe35814b7b92387f2e391c38c7214a763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:02 +0000
Subject: [PATCH 59/63] fix: close temporary files of a written record, and
 never the stream of the caller

---
 warcio/recordbuilder.py |  6 +++++-
 warcio/warcwriter.py    | 13 +++++++------
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index f5335ac..966e456 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -213,7 +213,11 @@ class RecordBuilder(object):
         if temp_file:
             record.payload_length = temp_file.tell()
             temp_file.seek(0)
-            record._orig_stream = record.raw_stream
+            if hasattr(record, '_orig_stream'):
+                # what was read is a temp file already
+                record.raw_stream.close()
+            else:
+                record._orig_stream = record.raw_stream
             record.raw_stream = temp_file
         else:
             record.raw_stream.seek(pos)
diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index b0e961d..8dddcff 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -97,14 +97,15 @@ class BaseWARCWriter(RecordBuilder):
         if record.http_headers is not None:
             out.write(record.http_headers.headers_buff)
 
-        if not http_headers_only:
-            try:
+        try:
+            if not http_headers_only:
                 for buf in self._iter_stream(record.raw_stream):
                     out.write(buf)
-            finally:
-                if hasattr(record, '_orig_stream'):
-                    record.raw_stream.close()
-                    record.raw_stream = record._orig_stream
+        finally:
+            if hasattr(record, '_orig_stream'):
+                record.raw_stream.close()
+                record.raw_stream = record._orig_stream
+                del record._orig_stream
 
         # add two lines
         out.write(b'\r\n\r\n')
-- 
2.43.0


From e6402ce53ac0609e2a57ecbd79c740c349340176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:29 +0000
Subject: [PATCH 60/63] fix: commands failed on names and texts the output
 cannot encode

---
 warcio/cli.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/warcio/cli.py b/warcio/cli.py
index df6369e..89a6462 100644
--- a/warcio/cli.py
+++ b/warcio/cli.py
@@ -59,6 +59,11 @@ def main(args=None):
     check.set_defaults(func=checker)
 
     cmd = parser.parse_args(args=args)
+
+    # file names and texts of records may hold characters the output can't encode
+    if getattr(sys.stdout, 'errors', None) == 'strict' and hasattr(sys.stdout, 'reconfigure'):
+        sys.stdout.reconfigure(errors='backslashreplace')
+
     cmd.func(cmd)
 
 
-- 
2.43.0


From 015b8b991d598c7853f9a6c3a2bc6d450cd4924f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:04 +0000
Subject: [PATCH 61/63] fix: writing, chunked decoding and status validation
 relied on assertions, which python -O turns off

---
 warcio/bufferedreaders.py  | 9 ++++++---
 warcio/recordbuilder.py    | 8 ++++++--
 warcio/statusandheaders.py | 6 ++++--
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index cbcb59c..6ae1f0e 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -370,12 +370,15 @@ class ChunkedDataReader(BufferedReader):
         # decode length header
         try:
             # ensure line ends with \r\n
-            assert(length_header[-2:] == b'\r\n')
+            if length_header[-2:] != b'\r\n':
+                raise ValueError('length header does not end its line')
+
             chunk_size = length_header[:-2].split(b';')[0]
             chunk_size = int(chunk_size, 16)
             # sanity check chunk size
-            assert(0 <= chunk_size <= 2**31)
-        except (ValueError, AssertionError):
+            if not 0 <= chunk_size <= 2**31:
+                raise ValueError('invalid chunk size')
+        except ValueError:
             cut_off = (len(length_header) not in (64, 64 + BUFF_SIZE) and
                        not length_header.split(b';')[0].strip(b'0123456789abcdefABCDEF \r'))
             raise ChunkedDataException(b"Couldn't decode length header " +
diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 966e456..0083edd 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -63,7 +63,9 @@ class RecordBuilder(object):
     def create_revisit_record(self, uri, digest, refers_to_uri, refers_to_date,
                               http_headers=None, warc_headers_dict=None):
 
-        assert digest, 'Digest can not be empty'
+        if not digest:
+            raise AssertionError('Digest can not be empty')
+
         if warc_headers_dict is None:
             warc_headers_dict = dict()
 
@@ -185,7 +187,9 @@ class RecordBuilder(object):
         temp_file = None
         try:
             # force buffering if no length is set
-            assert(has_length)
+            if not has_length:
+                raise ValueError('length is not known')
+
             pos = record.raw_stream.tell()
             record.raw_stream.seek(pos)
         except:
diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 53d0f59..7264392 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -91,9 +91,11 @@ class StatusAndHeaders(object):
         code = self.get_statuscode()
         try:
             code = int(code)
-            assert(code > 0)
+            if code <= 0:
+                raise ValueError('invalid status code')
+
             return True
-        except(ValueError, AssertionError):
+        except ValueError:
             self.statusline = valid_statusline
             return False
 
-- 
2.43.0


From 7709069f234836540414fd42a1b302e8f6f48ec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:05 +0000
Subject: [PATCH 62/63] fix: damaged data and digest problems raised
 AttributeError if standard error is closed

---
 warcio/archiveiterator.py       | 4 +++-
 warcio/bufferedreaders.py       | 4 +++-
 warcio/digestverifyingreader.py | 3 ++-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index e000f7e..14cc2fb 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -186,7 +186,9 @@ class ArchiveIterator(six.Iterator):
                     # if first line is not blank,
                     # likely content-length was invalid, display warning
                     err_offset = self.fh.tell() - self.reader.rem_length() - empty_size
-                    sys.stderr.write(self.INC_RECORD.format(err_offset, line))
+                    # there is none if it was closed
+                    if sys.stderr:
+                        sys.stderr.write(self.INC_RECORD.format(err_offset, line))
                     self.err_count += 1
 
                 first_line = False
diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 6ae1f0e..da12e05 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -165,7 +165,9 @@ class BufferedReader(object):
                         self.decompressor = None
                 # otherwise (partly decompressed), something is wrong
                 else:
-                    sys.stderr.write(str(e) + '\n')
+                    # there is none if it was closed
+                    if sys.stderr:
+                        sys.stderr.write(str(e) + '\n')
                     return b''
         return data
 
diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index a4651be..978f04b 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -29,7 +29,8 @@ class DigestChecker(object):
         self._problem.append(value)
         if self.kind == 'raise':
             raise ArchiveLoadFailed(value)
-        if self.kind == 'log':
+        # there is no stderr if it was closed
+        if self.kind == 'log' and sys.stderr:
             sys.stderr.write(value + '\n')
         self._passed = passed
 
-- 
2.43.0


From 2ded057de9c1a1b12a2e377407ed6f0f9ee232dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:36 +0000
Subject: [PATCH 63/63] fix: recompressing a file to itself, named by an url,
 emptied it

---
 warcio/recompressor.py | 14 ++------------
 warcio/utils.py        | 25 +++++++++++++++++++++++++
 2 files changed, 27 insertions(+), 12 deletions(-)

diff --git a/warcio/recompressor.py b/warcio/recompressor.py
index 08786bb..c1ca9d4 100644
--- a/warcio/recompressor.py
+++ b/warcio/recompressor.py
@@ -4,9 +4,8 @@ from warcio.exceptions import ArchiveLoadFailed
 from warcio.warcwriter import WARCWriter
 from warcio.bufferedreaders import DecompressingBufferedReader
 from warcio.limitreader import LimitReader
-from warcio.utils import fsspec_open
+from warcio.utils import fsspec_open, is_same_file
 
-import os
 import tempfile
 import shutil
 import traceback
@@ -20,20 +19,11 @@ class Recompressor(object):
         self.output = output
         self.verbose = verbose
 
-    def is_same_file(self):
-        if self.filename == self.output:
-            return True
-
-        try:
-            return os.path.samefile(self.filename, self.output)
-        except (OSError, TypeError, ValueError):
-            return False
-
     def recompress(self):
         from warcio.cli import main
 
         # opening the output would empty the input
-        if self.is_same_file():
+        if is_same_file(self.filename, self.output):
             print('Recompress Failed: {0} is both input and output'.format(self.filename))
             sys.exit(1)
 
diff --git a/warcio/utils.py b/warcio/utils.py
index 35ac899..e50350a 100644
--- a/warcio/utils.py
+++ b/warcio/utils.py
@@ -11,6 +11,7 @@ except ImportError:  #pragma: no cover
 
 try:
     from fsspec import open as _fsspec_open
+    from fsspec.core import url_to_fs as _url_to_fs
     HAS_FSSPEC = True
 except ImportError:
     HAS_FSSPEC = False
@@ -56,6 +57,30 @@ def fsspec_open(filename, mod, default_fh=None, **kwargs):
         yield default_fh
 
 
+# #===========================================================================
+def is_same_file(filename, other):
+    """
+    True if both are names (paths, or urls if using fsspec) of the same file
+    """
+    if filename == other:
+        return True
+
+    try:
+        if HAS_FSSPEC:
+            fs, filename = _url_to_fs(filename)
+            other_fs, other = _url_to_fs(other)
+            if fs != other_fs:
+                return False
+
+            if filename == other:
+                return True
+
+        return os.path.samefile(filename, other)
+    except Exception:
+        # to be found out when opening them
+        return False
+
+
 # #===========================================================================
 @contextmanager
 def open_or_default(filename, mod, default_fh):
-- 
2.43.0

