From 22a61e2199d0919592b6b50d5d94ca9d384872be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:30 +0000
Subject: [PATCH 01/38] fix: http2 encoder looped forever when a referenced
 header could not be kept in the table

---
 compressor/http2/http2Codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/http2/http2Codec.py b/compressor/http2/http2Codec.py
index 736200d..7845550 100644
--- a/compressor/http2/http2Codec.py
+++ b/compressor/http2/http2Codec.py
@@ -430,7 +430,7 @@ class HTTP2Codec(object):
           encoded_headers = True
         else:
           remaining_headers.append(header)
-      
+      referenced_headers = remaining_headers
     
     # Return frame
     frame = pack("!HBBL", len(self.encoded_stream), 0, 0, 0)
-- 
2.43.0


From b8ead6abfacf584ec6c46d375e4edd492fbe8691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:30 +0000
Subject: [PATCH 02/38] fix: headerdiff inflated the frame header along with
 the deflated payload

---
 compressor/headerdiff/headerDiffCodec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 565633d..b7ad5d4 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -176,7 +176,7 @@ class HeaderDiffCodec(object):
     self.decodedStreamIndex = 0
     # If Deflate was used, apply Inflate
     if self.windowSize != None:
-      self.decodedStream = self.decomp.decompress(stream)
+      self.decodedStream = self.decomp.decompress(self.decodedStream)
     # Initialize variables
     headers = [] # List of decoded headers
     # Decode number of headers
-- 
2.43.0


From 0bb7ae277c39f63d595c720edb7cff1104a77f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:30 +0000
Subject: [PATCH 03/38] fix: headerdiff took two headers with equal
 concatenated name and value for the same header

---
 compressor/headerdiff/headerDiffCodec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index b7ad5d4..2cd29ff 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -67,7 +67,7 @@ class IndexedHeader(object):
     self.value = value
     self.index = index
     # Full is used by encoder as a key to find an indexed header
-    self.full = name + value
+    self.full = (name, value)
     # Age is used by encoder when determining header representation
     self.age = 0
     # Number of usage as a reference for a delta-encoding
@@ -363,7 +363,7 @@ class HeaderDiffCodec(object):
     for he in headerTuples:
       headerName = he.name
       headerValue = he.value
-      headerFull = headerName + headerValue
+      headerFull = (headerName, headerValue)
       # Determine representation
       hr = self.determineRepresentation(
         headerName,
@@ -472,7 +472,7 @@ class HeaderDiffCodec(object):
     # Default encoding: literal without indexing
     hr = HeaderRepresentation()
     # Check possibility of indexed representation
-    headerFull = headerName + headerValue
+    headerFull = (headerName, headerValue)
     if headerFull in self.headersTableEncoder:
       hr.representation = INDEXED_REPRESENTATION
       hr.referenceHeader = self.headersTableEncoder[headerFull]
-- 
2.43.0


From f8df99f8a645de020bcad304eca98c171eed8a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:28 +0000
Subject: [PATCH 04/38] fix: delta wrote more than 256 operations under an
 operation count of 256

---
 compressor/delta/spdy4_codec_impl.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 41da906..42f1fdc 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -402,10 +402,9 @@ class Spdy4SeDer(object):  # serializer deserializer
     ops_idx = 0
     ops_len = len(ops)
     while ops_len > ops_idx:
-      ops_to_go = ops_len - ops_idx
-      iteration_end = min(ops_to_go, 256) + ops_idx
+      ops_to_go = min(ops_len - ops_idx, 256)
       data.StoreBits8(OpcodeToVal(opcode))
-      data.StoreBits8(min(256, ops_to_go) - 1)
+      data.StoreBits8(ops_to_go - 1)
       orig_idx = ops_idx
       for i in xrange(ops_to_go):
         try:
-- 
2.43.0


From 39b25cf41004403cc70e434c3474db7f8ea124b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:20:49 +0000
Subject: [PATCH 05/38] fix: delta never evicted by size: values were not
 counted, dropped keys were kept, MakeSpace called a free PopOne

---
 compressor/delta/spdy4_codec_impl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 42f1fdc..6ebc7a2 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -687,7 +687,7 @@ class Storage(object):
       if not self.PopOne():
         return
     while self.state_size + space_required > self.max_state_size:
-      if not PopOne():
+      if not self.PopOne():
         return
 
   def FindKeyEntry(self, key): ####
@@ -731,6 +731,7 @@ class Storage(object):
     self.IncrementRefCnt(ke)
     self.MakeSpace(len(val), 1)
     self.num_vals += 1
+    self.state_size += len(val)
     ke.val_map[val] = ve = self.NewVE(key, val, ke)
     self.DecrementRefCnt(ke)
     return ve
@@ -789,6 +790,8 @@ class Storage(object):
     if not ke or len(ke.val_map) > 0 or ke.ref_cnt > 0:
       return
     self.state_size -= len(ke.key())
+    del self.key_map[ke.key()]
+    del self.key_idx_to_ke[ke.key_idx]
 
   def RemoveVal(self, ve): ####
     self.RemoveFromLRU(ve)
-- 
2.43.0


From 2d258448d3ada0e42ca87426d12b3736eecbd82f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:28 +0000
Subject: [PATCH 06/38] fix: delta and delta2 lost headers when a payload
 needed more than one frame

---
 compressor/delta/spdy4_codec_impl.py  | 12 ++++++++++--
 compressor/delta2/spdy4_codec_impl.py | 12 ++++++++++--
 2 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 6ebc7a2..bcd9aea 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -489,11 +489,11 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'payload_len: ', payload_len
       bytes_to_consume = min(payload_len, bytes_allowed)
       #print 'bytes_to_consume: ', bytes_to_consume
-      end_of_frame = (bytes_to_consume <= payload_len)
+      end_of_frame = (payload_len <= bytes_allowed)
       #print 'end_of_Frame: ', end_of_frame
       self.WriteControlFrameBoilerplate(overall_bb, bytes_to_consume,
                                         end_of_frame, stream_id, group_id, 0x8)
-      overall_bb.StoreBits( (payload, bytes_to_consume*8))
+      overall_bb.StoreBits( (payload[:bytes_to_consume], bytes_to_consume*8))
       payload = payload[bytes_to_consume:]
       payload_len -= bytes_allowed
       if payload_len <= 0:
@@ -508,6 +508,7 @@ class Spdy4SeDer(object):  # serializer deserializer
     ops = []
     bb = BitBucket()
     bb.StoreBits(frame.GetAllBits())
+    payload_bb = BitBucket()
     flags = 0
     #print 'DeserializeInstructions'
     while flags == 0:
@@ -521,6 +522,13 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'frame_type: ', frame_type
       group_id = bb.GetBits8()
       #print 'group_id: ', group_id
+      payload_bb.StoreBits(bb.GetBits(frame_len))
+      if flags == 0:
+        continue
+      # An op may cross from one frame into the next, so only parse once the
+      # payload is whole again.
+      bb = payload_bb
+      frame_len = bb.NumBits()
       while frame_len > 16:  # 16 bits minimum for the opcode + count...
         bits_remaining_at_start = bb.BitsRemaining()
         opcode_val = bb.GetBits8()
diff --git a/compressor/delta2/spdy4_codec_impl.py b/compressor/delta2/spdy4_codec_impl.py
index 21894a3..5125e88 100644
--- a/compressor/delta2/spdy4_codec_impl.py
+++ b/compressor/delta2/spdy4_codec_impl.py
@@ -600,13 +600,13 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'payload_len: ', payload_len
       bytes_to_consume = min(payload_len, bytes_allowed)
       #print 'bytes_to_consume: ', bytes_to_consume
-      end_of_frame = (bytes_to_consume <= payload_len)
+      end_of_frame = (payload_len <= bytes_allowed)
       #print 'end_of_Frame: ', end_of_frame
       self.WriteControlFrameBoilerplate(overall_bb, bytes_to_consume,
                                         end_of_frame, stream_id, group_id, 0x8)
       if verbose >= 5:
         descr.appendleft(FormatHex(overall_bb.GetAllBits()[0]))
-      overall_bb.StoreBits( (payload, bytes_to_consume*8))
+      overall_bb.StoreBits( (payload[:bytes_to_consume], bytes_to_consume*8))
       payload = payload[bytes_to_consume:]
       payload_len -= bytes_allowed
       if payload_len <= 0:
@@ -626,6 +626,7 @@ class Spdy4SeDer(object):  # serializer deserializer
     ops = []
     bb = BitBucket()
     bb.StoreBits(frame.GetAllBits())
+    payload_bb = BitBucket()
     flags = 0
     #print 'DeserializeInstructions'
     while flags == 0:
@@ -639,6 +640,13 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'stream_id: ', stream_id
       group_id = bb.GetBits8()
       #print 'group_id: ', group_id
+      payload_bb.StoreBits(bb.GetBits(frame_len))
+      if flags == 0:
+        continue
+      # An op may cross from one frame into the next, so only parse once the
+      # payload is whole again.
+      bb = payload_bb
+      frame_len = bb.NumBits()
       while frame_len > 8:
         bits_remaining_at_start = bb.BitsRemaining()
         try:
-- 
2.43.0


From e42a2672f0dccb82775e3f05691d9d88de734365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:10 +0000
Subject: [PATCH 07/38] fix: print_summary called locale.format, which Python
 3.12 no longer has, so no run could print its results

---
 lib/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/stream.py b/lib/stream.py
index f5a7681..5493838 100755
--- a/lib/stream.py
+++ b/lib/stream.py
@@ -41,7 +41,7 @@ class Stream(object):
     for proc in self.procs:
       ttl_size = sum(self.sizes[proc])
       ttl_time = sum(self.times[proc])
-      pretty_size = locale.format("%13d", ttl_size, grouping=True)
+      pretty_size = locale.format_string("%13d", ttl_size, grouping=True)
       ratio = 1.0 * ttl_size / baseline_size
       try:
         std = meanstdv(self.ratios[proc])[1]
-- 
2.43.0


From dc321de230c7c9aeddb50fae060ff62f7c2bf0dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:10 +0000
Subject: [PATCH 08/38] fix: an unparsable HAR file raised TypeError from its
 own error report

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 3bac9b7..a66daf6 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -22,7 +22,7 @@ def read_har_file(filename):
     har = json.loads(fhandle.read())
   except Exception as oops:
     sys.stderr.write("Unable to parse %s\n\n" % filename)
-    sys.stderr.write(oops)
+    sys.stderr.write("%s\n" % oops)
     sys.exit(1)
   finally: 
     fhandle.close()
-- 
2.43.0


From 345bf3c0bac74ca1e6526653ad7dafc8c2d62b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:10 +0000
Subject: [PATCH 09/38] fix: totalling the sessions changed the first session's
 messages and renamed an only session TOTAL

---
 compare_compressors.py | 4 +---
 lib/stream.py          | 3 +--
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/compare_compressors.py b/compare_compressors.py
index db38e0b..8742ceb 100755
--- a/compare_compressors.py
+++ b/compare_compressors.py
@@ -16,8 +16,6 @@ from collections import defaultdict
 from importlib import import_module
 import locale
 import optparse
-import operator
-from functools import reduce
 
 from lib.harfile import read_har_file
 from lib.processors import Processors
@@ -59,7 +57,7 @@ class CompressionTester(object):
         session.print_summary(self.output, self.options.baseline)
     self.processors.done()
     for msg_type in self.msg_types:
-      ttl_stream = reduce(operator.add, [s for s in sessions if s.msg_type == msg_type])
+      ttl_stream = sum([s for s in sessions if s.msg_type == msg_type])
       ttl_stream.name = "TOTAL"
       ttl_stream.print_header(self.output)
       ttl_stream.print_summary(self.output, self.options.baseline)
diff --git a/lib/stream.py b/lib/stream.py
index 5493838..c8c3aea 100755
--- a/lib/stream.py
+++ b/lib/stream.py
@@ -72,8 +72,7 @@ class Stream(object):
 
   def __add__(self, other):
     assert self.msg_type == other.msg_type
-    new = Stream('', self.messages, self.msg_type, self.procs)
-    new.messages.extend(other.messages) # NB: not great for memory
+    new = Stream('', self.messages + other.messages, self.msg_type, self.procs)
     new.sizes = merge_dols(self.sizes, other.sizes)
     new.ratios = merge_dols(self.ratios, other.ratios)
     new.times = merge_dols(self.times, other.times)
-- 
2.43.0


From e23ddc6a8d0a74eab14b7b7dd3dbaae4d34c5938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:10 +0000
Subject: [PATCH 10/38] fix: the zlib codecs mixed text and bytes: two could
 not run, spdy3 refused its dictionary and non-ASCII values

---
 compressor/http1_gzip/__init__.py    | 6 +++---
 compressor/http1_huffman/__init__.py | 6 +++---
 compressor/spdy3/__init__.py         | 7 ++++---
 3 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/compressor/http1_gzip/__init__.py b/compressor/http1_gzip/__init__.py
index 825eeed..5bc5029 100644
--- a/compressor/http1_gzip/__init__.py
+++ b/compressor/http1_gzip/__init__.py
@@ -10,13 +10,13 @@ class Processor(BaseProcessor):
     BaseProcessor.__init__(self, options, is_request, params)
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15)
-    self.compressor.compress(spdy_dictionary.spdy_dict);
+    self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'));
     self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
     http1_msg = format_http1(in_headers)
-    return ''.join([
-                   self.compressor.compress(http1_msg),
+    return b''.join([
+                   self.compressor.compress(http1_msg.encode('utf-8')),
                    self.compressor.flush(zlib.Z_SYNC_FLUSH)
                   ])
   
\ No newline at end of file
diff --git a/compressor/http1_huffman/__init__.py b/compressor/http1_huffman/__init__.py
index 5f8b304..4e48603 100644
--- a/compressor/http1_huffman/__init__.py
+++ b/compressor/http1_huffman/__init__.py
@@ -10,13 +10,13 @@ class Processor(BaseProcessor):
     BaseProcessor.__init__(self, options, is_request, params)
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15, 8, zlib.Z_HUFFMAN_ONLY)
-    self.compressor.compress(spdy_dictionary.spdy_dict);
+    self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'));
     self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
     http1_msg = format_http1(in_headers)
-    return ''.join([
-                   self.compressor.compress(http1_msg),
+    return b''.join([
+                   self.compressor.compress(http1_msg.encode('utf-8')),
                    self.compressor.flush(zlib.Z_SYNC_FLUSH)
                   ])
   
\ No newline at end of file
diff --git a/compressor/spdy3/__init__.py b/compressor/spdy3/__init__.py
index 57547b0..e295cf6 100644
--- a/compressor/spdy3/__init__.py
+++ b/compressor/spdy3/__init__.py
@@ -12,7 +12,7 @@ class Processor(BaseProcessor):
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15)
     if 'dict' in params:
-      self.compressor.compress(spdy_dictionary.spdy_dict);
+      self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'));
       self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
@@ -41,9 +41,10 @@ class Processor(BaseProcessor):
 #    out_frame.append(struct.pack('!L', stream_id))
 #    out_frame.append(struct.pack('!L', num_kv_pairs))
     for (key, val) in request.items():
+      key, val = key.encode('utf-8'), val.encode('utf-8')
       out_frame.append(struct.pack('!L', len(key)))
-      out_frame.append(key.encode('ascii'))
+      out_frame.append(key)
       out_frame.append(struct.pack('!L', len(val)))
-      out_frame.append(val.encode('ascii'))
+      out_frame.append(val)
     return b''.join(out_frame)
 
-- 
2.43.0


From 4b791817632e887343369f73aad351388946a743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:10 +0000
Subject: [PATCH 11/38] fix: hyper_hpack returned a list from decompress, not a
 header dictionary

---
 compressor/hyper_hpack/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compressor/hyper_hpack/__init__.py b/compressor/hyper_hpack/__init__.py
index bf314f5..c3e0523 100644
--- a/compressor/hyper_hpack/__init__.py
+++ b/compressor/hyper_hpack/__init__.py
@@ -14,4 +14,7 @@ class Processor(BaseProcessor):
     return self.compressor.encode(headers)
 
   def decompress(self, compressed):
-    return self.decompressor.decode(compressed)
\ No newline at end of file
+    headers = {}
+    for (name, value) in self.decompressor.decode(compressed):
+      headers[name] = value
+    return headers
-- 
2.43.0


From 9df85e2d8cf2f2c2d46b68c62a83ef9d2a8bb6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:50 +0000
Subject: [PATCH 12/38] fix: the fork codec could not be imported, never
 flushed its message, and took a dead child's silence for an empty result

---
 compressor/fork/__init__.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/compressor/fork/__init__.py b/compressor/fork/__init__.py
index eb8c636..1caedb1 100644
--- a/compressor/fork/__init__.py
+++ b/compressor/fork/__init__.py
@@ -7,7 +7,7 @@ import subprocess
 import struct
 import sys
 
-from .. import BaseProcessor, format_http1, strip_conn_headers
+from .. import BaseProcessor, format_http1
 
 class Processor(BaseProcessor):
   def __init__(self, options, is_request, params):
@@ -24,17 +24,22 @@ class Processor(BaseProcessor):
                                      stdin=subprocess.PIPE)
 
   def compress(self, in_headers, host):
-    http1_msg = format_http1(strip_conn_headers(in_headers))
-    self.process.stdin.write(http1_msg)
+    http1_msg = format_http1(in_headers)
+    self.process.stdin.write(http1_msg.encode('utf-8'))
+    self.process.stdin.flush()
     if self.delimit_binary:
       output = self.process.stdout.read(8)
       size = struct.unpack("q", output)[0]
       output = self.process.stdout.read(int(size))
+      if len(output) != size:
+        raise EOFError("%s stopped in the middle of a message" % self.name)
     else:
-      output = ""
+      output = b""
       while True:
         line = self.process.stdout.readline()
-        if line.strip() == "":
+        if not line:
+          raise EOFError("%s stopped in the middle of a message" % self.name)
+        if line.strip() == b"":
           break
         output += line
     return output
-- 
2.43.0


From 96d82454ac5fa07e12d69d9b77000c4e11aceafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:23 +0000
Subject: [PATCH 13/38] fix: http2 decoder put a substituted header at the
 wrong index when the entry it replaces had been evicted

---
 compressor/http2/http2Codec.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compressor/http2/http2Codec.py b/compressor/http2/http2Codec.py
index 7845550..e3c24bb 100644
--- a/compressor/http2/http2Codec.py
+++ b/compressor/http2/http2Codec.py
@@ -132,7 +132,8 @@ class HTTP2Codec(object):
       if index >= 0:
         self.decoder_table[index] = entry
       else:
-        self.decoder_table.insert(index, entry)
+        # The replaced entry was dropped: the new one goes first.
+        self.decoder_table.insert(0, entry)
       self.decoder_table_size += size
 
     return dropped_number
-- 
2.43.0


From 6096a05d158c21c5a0e385d78ecfa096f32ba626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:48 +0000
Subject: [PATCH 14/38] fix: simple's date option returned another value for
 dates it cannot restore and for values such as 'expires: -1'

---
 compressor/simple/__init__.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/compressor/simple/__init__.py b/compressor/simple/__init__.py
index ba66111..e7dc120 100644
--- a/compressor/simple/__init__.py
+++ b/compressor/simple/__init__.py
@@ -132,9 +132,14 @@ class Processor(BaseProcessor):
       # re-encoding
       if self.compress_dates and name in self.date_hdrs:
         try:
-          value = "%x" % parse_date(value)
+          seconds = parse_date(value)
+          if format_date(seconds) != value:
+            raise ValueError
+          value = "%x" % seconds
         except ValueError:
-          pass
+          # Its full name says that this value is not a number of seconds.
+          headers["!%s" % name] = value
+          continue
       headers[self.hdr_name(name)] = value
     self.last_c = in_headers
     if refs:
-- 
2.43.0


From d63f5fa79b2a741633df7aa70dd49733f3376dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:27 +0000
Subject: [PATCH 15/38] fix: simple's huffman option flushed its inflater after
 every message, after which it may not be used again

---
 compressor/simple/__init__.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/compressor/simple/__init__.py b/compressor/simple/__init__.py
index e7dc120..2d98007 100644
--- a/compressor/simple/__init__.py
+++ b/compressor/simple/__init__.py
@@ -207,10 +207,7 @@ class Processor(BaseProcessor):
                   ])
                       
   def huffman_decode(self, blob):
-    return ''.join([
-                   self.decompressor.decompress(blob),
-                   self.decompressor.flush(zlib.Z_SYNC_FLUSH)
-                  ])
+    return self.decompressor.decompress(blob)
 
 
 DATE = r"""(?:\w{3},\ [0-9]{2}\ \w{3}\ [0-9]{4}\ [0-9]{2}:[0-9]{2}:[0-9]{2}\ GMT |
-- 
2.43.0


From d9ba47d6c3f81f11990654d90989f84463205ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:41 +0000
Subject: [PATCH 16/38] fix: delta2 kept references to strings it had not
 stored, so their bytes never counted towards max_byte_size

---
 compressor/delta2/spdy4_codec_impl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compressor/delta2/spdy4_codec_impl.py b/compressor/delta2/spdy4_codec_impl.py
index 5125e88..4311d7a 100644
--- a/compressor/delta2/spdy4_codec_impl.py
+++ b/compressor/delta2/spdy4_codec_impl.py
@@ -740,6 +740,7 @@ class Storage(object):
     if self.lru_storage.Reserve(entry, 1):
       self.lru_storage.Store(entry)
       return self.lru_storage.ring[-1].seq_num
+    entry.done()
     return None
 
   def LookupFromIdx(self, entry_seqnum, by_seqnum=None):
@@ -1117,6 +1118,7 @@ class Spdy4CoDe(object):
         hg_store_later.append((kv, lru_idx));
     # Modify the LRU.
     for kv in store_later:
+      kv.done() # only what is in the storage may hold references.
       new_idx = self.Store(kv)
       if self.implicit_hg_add and new_idx is not None:
         current_header_group.hg_store.add(new_idx)
-- 
2.43.0


From abd542d4a7dd6774c04ee8c1f1e04fb4b943675d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:22 +0000
Subject: [PATCH 17/38] fix: the HAR reader replaced every captured Host
 header, and took a URL without a path for the host

---
 lib/harfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index a66daf6..2fa546e 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -50,8 +50,8 @@ def har2hdrs(har):
       headers[":path"] += "?%s" % url.query
     headers[":scheme"] = url.scheme.lower()
     headers[":version"] = request["httpVersion"]
-    if not ":host" in request_headers:
-      headers[":host"] = re.sub("^[^:]*://([^/]*)/.*$", "\\1", request["url"])
+    if not ":host" in headers:
+      headers[":host"] = url.netloc
     request_headers.append(headers)
 
     response = entry["response"]
-- 
2.43.0


From 197269eb7e7f95a467b3603392e74c0143263d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:22 +0000
Subject: [PATCH 18/38] fix: the HAR reader made a request line without a path
 for URLs that have none

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 2fa546e..ae52479 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -45,7 +45,7 @@ def har2hdrs(har):
       continue
     headers = process_headers(request["headers"])
     headers[":method"] = request["method"].lower()
-    headers[":path"] = url.path
+    headers[":path"] = url.path or "/"
     if url.query:
       headers[":path"] += "?%s" % url.query
     headers[":scheme"] = url.scheme.lower()
-- 
2.43.0


From 2167fde1edb0cd32ca3b278c65127bd10caf28e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:15 +0000
Subject: [PATCH 19/38] fix: delta2 lost table capacity for good whenever an
 evicted entry shared a string with one about to be stored

---
 compressor/delta2/lrustorage.py       | 13 +++++++++++--
 compressor/delta2/spdy4_codec_impl.py |  1 +
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/compressor/delta2/lrustorage.py b/compressor/delta2/lrustorage.py
index c7f120a..45229ad 100755
--- a/compressor/delta2/lrustorage.py
+++ b/compressor/delta2/lrustorage.py
@@ -80,14 +80,23 @@ class LruStorage:
       return 0
     if self.max_items is not None:
       while len(self.ring) + item_count > self.max_items:
-        if not self.PopOne():
+        if not self.PopOneFor(entry):
           return  0 # can't pop one, nothing more to do.
     if self.max_bytes is not None:
       while self.byte_size + entry.ByteSize() > self.max_bytes:
-        if not self.PopOne():
+        if not self.PopOneFor(entry):
           return 0 # can't pop one, nothing more to do.
     return 1
 
+  def PopOneFor(self, entry):
+    # A string which only the popped item and the entry-to-be share leaves the
+    # storage with the popped item; it is accounted for again by Store(entry).
+    size_before = entry.ByteSize()
+    if not self.PopOne():
+      return 0
+    self.byte_size -= entry.ByteSize() - size_before
+    return 1
+
   def PopOne(self):
     if not self.ring:
       return 0
diff --git a/compressor/delta2/spdy4_codec_impl.py b/compressor/delta2/spdy4_codec_impl.py
index 4311d7a..e197a06 100644
--- a/compressor/delta2/spdy4_codec_impl.py
+++ b/compressor/delta2/spdy4_codec_impl.py
@@ -1119,6 +1119,7 @@ class Spdy4CoDe(object):
     # Modify the LRU.
     for kv in store_later:
       kv.done() # only what is in the storage may hold references.
+    for kv in store_later:
       new_idx = self.Store(kv)
       if self.implicit_hg_add and new_idx is not None:
         current_header_group.hg_store.add(new_idx)
-- 
2.43.0


From 5aa2d17e9d00a7355ebbd81117d8fea9f1ca3353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:09 +0000
Subject: [PATCH 20/38] fix: delta2's Huffman code depended on the iteration
 order of a dict

---
 compressor/delta2/huffman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/delta2/huffman.py b/compressor/delta2/huffman.py
index efcdc2c..ef83d58 100644
--- a/compressor/delta2/huffman.py
+++ b/compressor/delta2/huffman.py
@@ -118,7 +118,7 @@ class Huffman(object):
     code = -1
     prev_code_length = 0
     canonical_code_table = {}
-    for k,v in depth_to_sym.iteritems():
+    for k,v in sorted(depth_to_sym.iteritems()):
       current_code_length = k
       #print k
       for sym in sorted(map(lambda x: x[1], v)):
-- 
2.43.0


From 334df32ee42651d3c81736cce4a4a580072ce0f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:09 +0000
Subject: [PATCH 21/38] fix: delta2's Huffman never came to an end for
 frequencies that need codes longer than 32 bits

---
 compressor/delta2/huffman.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/compressor/delta2/huffman.py b/compressor/delta2/huffman.py
index ef83d58..4d1d755 100644
--- a/compressor/delta2/huffman.py
+++ b/compressor/delta2/huffman.py
@@ -50,9 +50,11 @@ class Huffman(object):
     internals = deque()
     for elem in freq_table:
       (sym, freq) = elem
-      if freq == 0:
-        freq = 1.0/512
-      weight = freq * 1.0 / divisor
+      # Integer division: the frequencies have to become more alike for the
+      # tree to become less deep.
+      weight = freq // divisor
+      if weight == 0:
+        weight = 1.0/512
       leaves.append( (weight, MN(sym), 0, []) )
 
     # freq_table is (symbol, count)
-- 
2.43.0


From 600d704c8b9bdeb6862471b228ff69391bb89f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 22/38] fix: the C++ bit bucket did not count integers stored
 at a byte boundary

---
 compressor/delta/bit_bucket.h      | 6 +++---
 compressor/delta_bohe/bit_bucket.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/compressor/delta/bit_bucket.h b/compressor/delta/bit_bucket.h
index b7bc2f9..89299fe 100644
--- a/compressor/delta/bit_bucket.h
+++ b/compressor/delta/bit_bucket.h
@@ -133,6 +133,7 @@ class BitBucket {
   }
 
   void StoreBits8(uint8_t val) {
+    num_bits += 8;
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val));
       return;
@@ -140,10 +141,10 @@ class BitBucket {
     size_t bits_left_in_byte = 8 - bsa_boff;
     bsa.back() |= val >> bsa_boff;
     bsa.push_back(val << bits_left_in_byte);
-    num_bits += 8;
   }
 
   void StoreBits16(uint16_t val) {
+    num_bits += 16;
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val >> 8));
       bsa.push_back(static_cast<uint8_t>(val & 255u));
@@ -156,10 +157,10 @@ class BitBucket {
     c = val & 255u;
     bsa.back() |= c >> bsa_boff;
     bsa.push_back(c << bits_left_in_byte);
-    num_bits += 16;
   }
 
   void StoreBits32(uint32_t val) {
+    num_bits += 32;
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(        val >> 24));
       bsa.push_back(static_cast<uint8_t>(255u & (val >> 16)));
@@ -180,7 +181,6 @@ class BitBucket {
     c =  255u & (val >>  0);
     bsa.back() |= c >> bsa_boff;
     bsa.push_back(c << bits_left_in_byte);
-    num_bits += 32;
   }
 
   void StoreBits(const vector<char>& inp_bytes, size_t inp_bits) {
diff --git a/compressor/delta_bohe/bit_bucket.h b/compressor/delta_bohe/bit_bucket.h
index b7bc2f9..89299fe 100644
--- a/compressor/delta_bohe/bit_bucket.h
+++ b/compressor/delta_bohe/bit_bucket.h
@@ -133,6 +133,7 @@ class BitBucket {
   }
 
   void StoreBits8(uint8_t val) {
+    num_bits += 8;
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val));
       return;
@@ -140,10 +141,10 @@ class BitBucket {
     size_t bits_left_in_byte = 8 - bsa_boff;
     bsa.back() |= val >> bsa_boff;
     bsa.push_back(val << bits_left_in_byte);
-    num_bits += 8;
   }
 
   void StoreBits16(uint16_t val) {
+    num_bits += 16;
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val >> 8));
       bsa.push_back(static_cast<uint8_t>(val & 255u));
@@ -156,10 +157,10 @@ class BitBucket {
     c = val & 255u;
     bsa.back() |= c >> bsa_boff;
     bsa.push_back(c << bits_left_in_byte);
-    num_bits += 16;
   }
 
   void StoreBits32(uint32_t val) {
+    num_bits += 32;
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(        val >> 24));
       bsa.push_back(static_cast<uint8_t>(255u & (val >> 16)));
@@ -180,7 +181,6 @@ class BitBucket {
     c =  255u & (val >>  0);
     bsa.back() |= c >> bsa_boff;
     bsa.push_back(c << bits_left_in_byte);
-    num_bits += 32;
   }
 
   void StoreBits(const vector<char>& inp_bytes, size_t inp_bits) {
-- 
2.43.0


From 3be79415463bd973ab58c4d18b1457e287ca3c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:45 +0000
Subject: [PATCH 23/38] fix: the C++ bit bucket read past the end of its
 storage when part of it had been consumed

---
 compressor/delta/bit_bucket.h      | 2 +-
 compressor/delta_bohe/bit_bucket.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/bit_bucket.h b/compressor/delta/bit_bucket.h
index 89299fe..64326a3 100644
--- a/compressor/delta/bit_bucket.h
+++ b/compressor/delta/bit_bucket.h
@@ -274,7 +274,7 @@ class BitBucket {
     size_t output_bytes = (num_bits + 7) / 8;
     retval->reserve(output_bytes);
     size_t old_idx_boff = idx_boff;
-    if (num_bits > NumBits()) {
+    if (BitsConsumed() + num_bits > NumBits()) {
       cerr << "Oops, we're asking to get more bits than are available.\n";
       cerr << "Bits available: " << BitsRemaining() << "\n";
       cerr << "Bits requested: " << num_bits << "\n";
diff --git a/compressor/delta_bohe/bit_bucket.h b/compressor/delta_bohe/bit_bucket.h
index 89299fe..64326a3 100644
--- a/compressor/delta_bohe/bit_bucket.h
+++ b/compressor/delta_bohe/bit_bucket.h
@@ -274,7 +274,7 @@ class BitBucket {
     size_t output_bytes = (num_bits + 7) / 8;
     retval->reserve(output_bytes);
     size_t old_idx_boff = idx_boff;
-    if (num_bits > NumBits()) {
+    if (BitsConsumed() + num_bits > NumBits()) {
       cerr << "Oops, we're asking to get more bits than are available.\n";
       cerr << "Bits available: " << BitsRemaining() << "\n";
       cerr << "Bits requested: " << num_bits << "\n";
-- 
2.43.0


From 255aecdf166a82522a5ee2bc7444c766b38d7403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:23 +0000
Subject: [PATCH 24/38] fix: the C++ Huffman decoder kept the bits of a 32-bit
 code in its window

---
 compressor/delta/bit_bucket.h      | 3 ++-
 compressor/delta_bohe/bit_bucket.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/bit_bucket.h b/compressor/delta/bit_bucket.h
index 64326a3..fb089e3 100644
--- a/compressor/delta/bit_bucket.h
+++ b/compressor/delta/bit_bucket.h
@@ -108,7 +108,8 @@ class BitBucket {
 
   // This is horribly inefficient.
   void ShiftBitsIntoWord(uint32_t* word, size_t num_bits) {
-    *word <<= num_bits;
+    // shifting a 32-bit word by 32 is undefined (and does nothing on x86)
+    *word = num_bits < 32 ? *word << num_bits : 0;
     size_t saved_idx_byte = idx_byte;
     size_t saved_idx_boff = idx_boff;
     uint32_t tmp_word = 0;
diff --git a/compressor/delta_bohe/bit_bucket.h b/compressor/delta_bohe/bit_bucket.h
index 64326a3..fb089e3 100644
--- a/compressor/delta_bohe/bit_bucket.h
+++ b/compressor/delta_bohe/bit_bucket.h
@@ -108,7 +108,8 @@ class BitBucket {
 
   // This is horribly inefficient.
   void ShiftBitsIntoWord(uint32_t* word, size_t num_bits) {
-    *word <<= num_bits;
+    // shifting a 32-bit word by 32 is undefined (and does nothing on x86)
+    *word = num_bits < 32 ? *word << num_bits : 0;
     size_t saved_idx_byte = idx_byte;
     size_t saved_idx_boff = idx_boff;
     uint32_t tmp_word = 0;
-- 
2.43.0


From feb0b6c2a3475f6e635fc9d956f208f987f13f3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:46 +0000
Subject: [PATCH 25/38] fix: Connection options are case-insensitive and may
 span several fields

---
 lib/processors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/processors.py b/lib/processors.py
index 1af25d0..9ec11eb 100755
--- a/lib/processors.py
+++ b/lib/processors.py
@@ -87,7 +87,9 @@ class Processors(object):
     new_hdrs = {}
     ignore_hdrs = [':status-text', ':version', 'keep-alive', 'connection']
     if 'connection' in hdrs:
-      ignore_hdrs.extend([x.strip(' ') for x in hdrs['connection'].split(',')])
+      # Options are case-insensitive, and there may be several such fields.
+      options = hdrs['connection'].replace('\0', ',').lower()
+      ignore_hdrs.extend([x.strip() for x in options.split(',')])
 
     for k,v in hdrs.items():
       if k in ignore_hdrs:
-- 
2.43.0


From 93bdbe2b9cbb6d8d044f19d31d96a9aa3550c6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:40 +0000
Subject: [PATCH 26/38] fix: a baseline codec with parameters could not be
 looked up by its printed name

---
 compare_compressors.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/compare_compressors.py b/compare_compressors.py
index 8742ceb..8deddb2 100755
--- a/compare_compressors.py
+++ b/compare_compressors.py
@@ -39,6 +39,10 @@ class CompressionTester(object):
     self.output = output
     self.tsv_out = defaultdict(list)  # accumulator for TSV output
     self.processors = Processors(self.options, self.msg_types, output)
+    # Results go by the name of a processor, which includes its parameters.
+    baseline_idx = self.options.processor_names.index(self.options.baseline)
+    self.options.baseline = \
+      self.processors.processors[self.msg_types[0]][baseline_idx].name
     self.streamify = self.load_streamifier(self.options.streamifier)
     self.run()
 
-- 
2.43.0


From 5017e903d7a2ed6b0c48b8c4cffb1893c7084bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:10 +0000
Subject: [PATCH 27/38] fix: simple took a header named h for the host when it
 was sent by reference

---
 compressor/simple/__init__.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/compressor/simple/__init__.py b/compressor/simple/__init__.py
index 2d98007..070b76d 100644
--- a/compressor/simple/__init__.py
+++ b/compressor/simple/__init__.py
@@ -125,7 +125,7 @@ class Processor(BaseProcessor):
       and name == ':host' \
       and self.last_c.get(name, None) == value \
       and len(refs) < self.max_entries:
-          refs.append('h')
+          refs.append(name)
           continue
       elif name in self.ignore_hdrs:
         continue
@@ -143,7 +143,8 @@ class Processor(BaseProcessor):
       headers[self.hdr_name(name)] = value
     self.last_c = in_headers
     if refs:
-      headers["ref"] = ",".join([self.hdr_name(ref) for ref in refs])
+      headers["ref"] = ",".join([self.lookups[ref] if ref == ':host'
+                                 else self.hdr_name(ref) for ref in refs])
     if headers.has_key('h'):
       headers[':host'] = headers['h']
       del headers['h']
@@ -161,8 +162,6 @@ class Processor(BaseProcessor):
     for name in headers.keys():
       if name == "ref":
         continue
-      elif name == ":host":
-        out_headers['h'] = headers[name]
       elif name[0] == ":":
         out_headers[name] = headers[name]
       elif name[0] == '!':
@@ -190,9 +189,6 @@ class Processor(BaseProcessor):
           sys.stdout.write("\n\n%s\n\n" % repr(self.last_d))
           raise
     self.last_d = copy(out_headers)
-    if out_headers.has_key('h'):
-      out_headers[':host'] = out_headers['h']
-      del out_headers['h']
     return out_headers
 
   def hdr_name(self, name):
-- 
2.43.0


From b8c316fcc72e43cfdb3451572698c61ce35c25cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:38 +0000
Subject: [PATCH 28/38] fix: headerdiff could not write a long index under a
 two-byte prefix

---
 compressor/headerdiff/headerDiffCodec.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 2cd29ff..293abec 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -581,8 +581,12 @@ class HeaderDiffCodec(object):
       # If prefix size is greater than 0,
       # write MAX_VALUE as the prefix
       if prefixBits > 0:
-        currentByte = currentByte | MAX_VALUES[prefixBits]
-        self.encodedStream+= pack("!B", currentByte)
+        if prefixBits <= 8:
+          currentByte = currentByte | MAX_VALUES[prefixBits]
+          self.encodedStream+= pack("!B", currentByte)
+        else:
+          b = (currentByte << 8) | MAX_VALUES[prefixBits]
+          self.encodedStream+= pack("!H", b)
       # Write value on next byte or bytes
       integerValue = integerValue - MAX_VALUES[prefixBits]
       if integerValue == 0:
-- 
2.43.0


From c98f20a787207e8a088c1b8a67d8eb520fc6144b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:38 +0000
Subject: [PATCH 29/38] fix: Huffman::Init called again kept the decode table
 of the first call

---
 compressor/delta/huffman.h      | 2 ++
 compressor/delta_bohe/huffman.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/compressor/delta/huffman.h b/compressor/delta/huffman.h
index 5bd71e8..6562910 100644
--- a/compressor/delta/huffman.h
+++ b/compressor/delta/huffman.h
@@ -410,6 +410,8 @@ class Huffman {
   void BuildDecodeTable() {
     //const uint32_t max_val = (0x1U << lookup_bits);
 
+    branches.clear();
+    decode_table.clear();
     vector<pair<uint32_t, int> > sorted_by_code; // code->symbol
     for (unsigned int i = 0; i < code_table.size(); ++i) {
       pair<uint32_t, int> insert_val;
diff --git a/compressor/delta_bohe/huffman.h b/compressor/delta_bohe/huffman.h
index bb3bde6..407ba83 100644
--- a/compressor/delta_bohe/huffman.h
+++ b/compressor/delta_bohe/huffman.h
@@ -409,6 +409,8 @@ class Huffman {
     const int lookup_bits = 8;
     //const uint32_t max_val = (0x1U << lookup_bits);
 
+    branches.clear();
+    decode_table.clear();
     vector<pair<uint32_t, int> > sorted_by_code; // code->symbol
     for (unsigned int i = 0; i < code_table.size(); ++i) {
       pair<uint32_t, int> insert_val;
-- 
2.43.0


From cb8b931845eaddbf9ef8abb509d9f9c58c98af50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:38 +0000
Subject: [PATCH 30/38] fix: HAR files were read in the encoding of the locale,
 not in UTF-8

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index ae52479..772f794 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -17,7 +17,7 @@ from urllib.parse import urlsplit
 
 def read_har_file(filename):
   "Read filename and return the header dictionaries for it."
-  fhandle = open(filename)
+  fhandle = open(filename, encoding="utf-8")
   try:
     har = json.loads(fhandle.read())
   except Exception as oops:
-- 
2.43.0


From 8267648ea5f2e5809ed523acd121aba42221c40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:53 +0000
Subject: [PATCH 31/38] fix: a HAR file that starts with a byte order mark was
 refused

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 772f794..39ef2df 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -17,7 +17,7 @@ from urllib.parse import urlsplit
 
 def read_har_file(filename):
   "Read filename and return the header dictionaries for it."
-  fhandle = open(filename, encoding="utf-8")
+  fhandle = open(filename, encoding="utf-8-sig")
   try:
     har = json.loads(fhandle.read())
   except Exception as oops:
-- 
2.43.0


From d5fce42ba78d6d8563fb85593a8d43c00c51b913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:45 +0000
Subject: [PATCH 32/38] fix: a damaged frame could send delta2's decoder
 through billions of indices

---
 compressor/delta2/spdy4_codec_impl.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/compressor/delta2/spdy4_codec_impl.py b/compressor/delta2/spdy4_codec_impl.py
index e197a06..2ac157d 100644
--- a/compressor/delta2/spdy4_codec_impl.py
+++ b/compressor/delta2/spdy4_codec_impl.py
@@ -733,6 +733,9 @@ class Storage(object):
     return retval
 
 
+  def NumEntries(self):
+    return len(self.static_storage) + len(self.lru_storage)
+
   def SetRemoveValCB(self, remove_val_cb):
     self.lru_storage.pop_cb = remove_val_cb
 
@@ -1069,11 +1072,15 @@ class Spdy4CoDe(object):
       elif opcode == 'strang':
         lru_idx_last = op['index']
         lru_idx_start = op['index_start']
+        if lru_idx_last - lru_idx_start >= self.storage.NumEntries():
+          raise IndexError('range of indices larger than the table')
         for lru_idx in xrange(lru_idx_start, lru_idx_last+1):
           stoggles.symmetric_difference_update([lru_idx])
       elif opcode == 'etrang':
         lru_idx_last = op['index']
         lru_idx_start = op['index_start']
+        if lru_idx_last - lru_idx_start >= self.storage.NumEntries():
+          raise IndexError('range of indices larger than the table')
         for lru_idx in xrange(lru_idx_start, lru_idx_last+1):
           etoggles.symmetric_difference_update([lru_idx])
       elif opcode == 'sclone':
-- 
2.43.0


From 71c4165efd53938b8760d4ba83a609f337a82b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:57 +0000
Subject: [PATCH 33/38] fix: the C++ capture reader added an empty response at
 the end of every stream

---
 compressor/delta/trivial_http_parse.h      | 5 ++---
 compressor/delta_bohe/trivial_http_parse.h | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/compressor/delta/trivial_http_parse.h b/compressor/delta/trivial_http_parse.h
index abc5a03..70fe0bb 100644
--- a/compressor/delta/trivial_http_parse.h
+++ b/compressor/delta/trivial_http_parse.h
@@ -65,9 +65,8 @@ class TrivialHTTPParse {
     }
     HeaderFrame* cur_frame = GetHeaderFramePtr(frames[frames_idx], frames_len);
 
-    while (istrm.good()) {
-      string line;
-      getline(istrm, line);
+    string line;
+    while (getline(istrm, line)) {
       size_t colon_pos = line.find_first_of(":", 1);
       if (line.size() == 0) {
         // finished with this frame.
diff --git a/compressor/delta_bohe/trivial_http_parse.h b/compressor/delta_bohe/trivial_http_parse.h
index abc5a03..70fe0bb 100644
--- a/compressor/delta_bohe/trivial_http_parse.h
+++ b/compressor/delta_bohe/trivial_http_parse.h
@@ -65,9 +65,8 @@ class TrivialHTTPParse {
     }
     HeaderFrame* cur_frame = GetHeaderFramePtr(frames[frames_idx], frames_len);
 
-    while (istrm.good()) {
-      string line;
-      getline(istrm, line);
+    string line;
+    while (getline(istrm, line)) {
       size_t colon_pos = line.find_first_of(":", 1);
       if (line.size() == 0) {
         // finished with this frame.
-- 
2.43.0


From c32bba124f0d9f6b764f1adcfb2b6e401676d8e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:42:39 +0000
Subject: [PATCH 34/38] fix: the command ended before it began where the en_US
 locale is not installed

---
 compare_compressors.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/compare_compressors.py b/compare_compressors.py
index 8deddb2..b63b301 100755
--- a/compare_compressors.py
+++ b/compare_compressors.py
@@ -132,8 +132,11 @@ class CompressionTester(object):
 if __name__ == "__main__":
   import os
   import sys
-  if os.name == "nt":
-    locale.setlocale(locale.LC_ALL, 'english-us')
-  else:
-    locale.setlocale(locale.LC_ALL, 'en_US')
+  try:
+    if os.name == "nt":
+      locale.setlocale(locale.LC_ALL, 'english-us')
+    else:
+      locale.setlocale(locale.LC_ALL, 'en_US')
+  except locale.Error:
+    pass  # not installed; sizes are printed without separators.
   CompressionTester(sys.stdout.write)
-- 
2.43.0


From f6b1b76dff3943b3eec2fd9a956923f4aa2dab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:10 +0000
Subject: [PATCH 35/38] fix: a capture without HTTP entries ended the all_one
 streamifier in a division by zero

---
 lib/streamifiers/all_one.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/streamifiers/all_one.py b/lib/streamifiers/all_one.py
index e30cbea..6505afb 100644
--- a/lib/streamifiers/all_one.py
+++ b/lib/streamifiers/all_one.py
@@ -7,6 +7,8 @@ class Streamifier(BaseStreamifier):
   Put all messages into two streams, requests and responses.
   """
   def streamify(self, messages):
+    if not messages:
+      return []
     reqs, ress = [], []
     for req, res in messages:
       host = req[':host']
-- 
2.43.0


From e771ecbf64d23a4a13807ceba7b0531956575d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:41 +0000
Subject: [PATCH 36/38] fix: the fork codec kept the children of every session
 until the command ran out of files

---
 compressor/fork/__init__.py | 5 +++++
 lib/processors.py           | 1 +
 2 files changed, 6 insertions(+)

diff --git a/compressor/fork/__init__.py b/compressor/fork/__init__.py
index 1caedb1..24e1f27 100644
--- a/compressor/fork/__init__.py
+++ b/compressor/fork/__init__.py
@@ -43,3 +43,8 @@ class Processor(BaseProcessor):
           break
         output += line
     return output
+
+  def done(self):
+    # The child ends when its input does.
+    self.process.stdin.close()
+    self.process.stdout.close()
diff --git a/lib/processors.py b/lib/processors.py
index 9ec11eb..6b48959 100755
--- a/lib/processors.py
+++ b/lib/processors.py
@@ -70,6 +70,7 @@ class Processors(object):
     """
     msg_idx = 0
     msg_tot = len(session.messages)
+    self.done() # with those of the previous session
     self.processors = self.get_processors(self.options.processor_names)
     for (hdrs, host) in session.messages:
       msg_idx += 1
-- 
2.43.0


From ad6a54c8eba6cd9758216f65182ddfcb484b86be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:50 +0000
Subject: [PATCH 37/38] fix: a header with characters the terminal does not
 have ended the command

---
 compare_compressors.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compare_compressors.py b/compare_compressors.py
index b63b301..dd60cbc 100755
--- a/compare_compressors.py
+++ b/compare_compressors.py
@@ -139,4 +139,6 @@ if __name__ == "__main__":
       locale.setlocale(locale.LC_ALL, 'en_US')
   except locale.Error:
     pass  # not installed; sizes are printed without separators.
+  # Headers may hold characters that the terminal does not have.
+  sys.stdout.reconfigure(errors='backslashreplace')
   CompressionTester(sys.stdout.write)
-- 
2.43.0


From fb83796016d8bc6e74148659e7d83549174a121e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:16:06 +0000
Subject: [PATCH 38/38] fix: TSV files were written in the encoding of the
 locale, which may lack characters of a host

---
 compare_compressors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compare_compressors.py b/compare_compressors.py
index dd60cbc..7576149 100755
--- a/compare_compressors.py
+++ b/compare_compressors.py
@@ -69,7 +69,8 @@ class CompressionTester(object):
       out = {}
       for msg_type in self.msg_types:
         out[msg_type] = [
-          open("%s%s" % (self.options.prefix, "%s.tsv" % msg_type), 'w'),
+          open("%s%s" % (self.options.prefix, "%s.tsv" % msg_type), 'w',
+               encoding='utf-8'),
           0
         ]
         sessions[0].print_tsv_header(out[msg_type][0].write)
-- 
2.43.0

