From 91c825f2379fb507e992131bd6a68ab2e8f67120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:55 +0000
Subject: [PATCH 01/64] fix: headerdiff: do not confuse headers whose name and
 value concatenate alike

---
 compressor/headerdiff/headerDiffCodec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 565633d..67bcf8d 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -67,7 +67,7 @@ class IndexedHeader(object):
     self.value = value
     self.index = index
     # Full is used by encoder as a key to find an indexed header
-    self.full = name + value
+    self.full = name + "\0" + value
     # Age is used by encoder when determining header representation
     self.age = 0
     # Number of usage as a reference for a delta-encoding
@@ -363,7 +363,7 @@ class HeaderDiffCodec(object):
     for he in headerTuples:
       headerName = he.name
       headerValue = he.value
-      headerFull = headerName + headerValue
+      headerFull = headerName + "\0" + headerValue
       # Determine representation
       hr = self.determineRepresentation(
         headerName,
@@ -472,7 +472,7 @@ class HeaderDiffCodec(object):
     # Default encoding: literal without indexing
     hr = HeaderRepresentation()
     # Check possibility of indexed representation
-    headerFull = headerName + headerValue
+    headerFull = headerName + "\0" + headerValue
     if headerFull in self.headersTableEncoder:
       hr.representation = INDEXED_REPRESENTATION
       hr.referenceHeader = self.headersTableEncoder[headerFull]
-- 
2.43.0


From c05d5b38d10cd7dffd75755d23cda9d91cb47247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:55 +0000
Subject: [PATCH 02/64] fix: headerdiff: skip the frame header before inflating

---
 compressor/headerdiff/headerDiffCodec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 67bcf8d..7ec9c6c 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -176,7 +176,7 @@ class HeaderDiffCodec(object):
     self.decodedStreamIndex = 0
     # If Deflate was used, apply Inflate
     if self.windowSize != None:
-      self.decodedStream = self.decomp.decompress(stream)
+      self.decodedStream = self.decomp.decompress(self.decodedStream)
     # Initialize variables
     headers = [] # List of decoded headers
     # Decode number of headers
-- 
2.43.0


From 61bb550370c0b7aa2937065b56698c441ed297e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:52 +0000
Subject: [PATCH 03/64] fix: http2: re-encode an evicted referenced header only
 once (endless loop)

---
 compressor/http2/http2Codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/http2/http2Codec.py b/compressor/http2/http2Codec.py
index 736200d..7845550 100644
--- a/compressor/http2/http2Codec.py
+++ b/compressor/http2/http2Codec.py
@@ -430,7 +430,7 @@ class HTTP2Codec(object):
           encoded_headers = True
         else:
           remaining_headers.append(header)
-      
+      referenced_headers = remaining_headers
     
     # Return frame
     frame = pack("!HBBL", len(self.encoded_stream), 0, 0, 0)
-- 
2.43.0


From 0c604549b063928d57a9f9f95e07fd80551a3356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:08 +0000
Subject: [PATCH 04/64] fix: delta: load the default header table under its own
 names

The loop used key/val left over from the opcode table, so a bogus entry
was installed instead of the defaults and a header named like it crashed
the codec.
---
 compressor/delta/spdy4_codec_impl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 41da906..0b1d755 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -662,10 +662,11 @@ class Storage(object):
     self.key_idx_to_ke = {}
 
     for (k, v) in g_default_kvs:
-      ke = self.FindKeyEntry(key)
+      ke = self.FindKeyEntry(k)
       if ke is None:
-        self.key_map[key] = ke = self.NewKE(key)
-      ke.val_map[val] = ve = self.NewVE(key, val, ke)
+        self.key_map[k] = ke = self.NewKE(k)
+        self.key_idx_to_ke[ke.key_idx] = ke
+      ke.val_map[v] = ve = self.NewVE(k, v, ke)
       ve.lru_idx = lru_idx = self.GetNextUnusedLruId()
       self.lru_idx_to_ve[lru_idx] = ve
       self.lru_ids.minimum_id = lru_idx
-- 
2.43.0


From d86ab839f877a13929d83481ee67780b25498570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:08 +0000
Subject: [PATCH 05/64] fix: delta: write at most 256 operations per opcode
 block

---
 compressor/delta/spdy4_codec_impl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 0b1d755..c5b5937 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -407,7 +407,7 @@ class Spdy4SeDer(object):  # serializer deserializer
       data.StoreBits8(OpcodeToVal(opcode))
       data.StoreBits8(min(256, ops_to_go) - 1)
       orig_idx = ops_idx
-      for i in xrange(ops_to_go):
+      for i in xrange(iteration_end - orig_idx):
         try:
           self.WriteOpData(data, ops[orig_idx + i], huff)
         except:
-- 
2.43.0


From ab92571ac3160b3e928dd86e98e6a095f5510666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:32 +0000
Subject: [PATCH 06/64] fix: delta: account for stored values and forget
 evicted keys

MakeSpace called an undefined name as soon as the byte limit was exceeded,
values were never added to state_size and evicted keys stayed in the maps
although their size had been subtracted.
---
 compressor/delta/spdy4_codec_impl.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index c5b5937..b443da8 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -689,7 +689,7 @@ class Storage(object):
       if not self.PopOne():
         return
     while self.state_size + space_required > self.max_state_size:
-      if not PopOne():
+      if not self.PopOne():
         return
 
   def FindKeyEntry(self, key): ####
@@ -733,6 +733,7 @@ class Storage(object):
     self.IncrementRefCnt(ke)
     self.MakeSpace(len(val), 1)
     self.num_vals += 1
+    self.state_size += len(val)
     ke.val_map[val] = ve = self.NewVE(key, val, ke)
     self.DecrementRefCnt(ke)
     return ve
@@ -791,6 +792,8 @@ class Storage(object):
     if not ke or len(ke.val_map) > 0 or ke.ref_cnt > 0:
       return
     self.state_size -= len(ke.key())
+    del self.key_map[ke.key()]
+    del self.key_idx_to_ke[ke.key_idx]
 
   def RemoveVal(self, ve): ####
     self.RemoveFromLRU(ve)
-- 
2.43.0


From e02e90c928ccd8597aba62943969a205ff422a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:41 +0000
Subject: [PATCH 07/64] fix: delta_bohe, delta2_bohe: write at most 256
 operations per opcode block

---
 compressor/delta2_bohe/spdy4_codec_impl.py | 2 +-
 compressor/delta_bohe/spdy4_codec_impl.py  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta2_bohe/spdy4_codec_impl.py b/compressor/delta2_bohe/spdy4_codec_impl.py
index 1067622..54a6eaf 100755
--- a/compressor/delta2_bohe/spdy4_codec_impl.py
+++ b/compressor/delta2_bohe/spdy4_codec_impl.py
@@ -427,7 +427,7 @@ class Spdy4SeDer(object):  # serializer deserializer
       data.StoreBits8(OpcodeToVal(opcode))
       data.StoreBits8(min(256, ops_to_go) - 1)
       orig_idx = ops_idx
-      for i in xrange(ops_to_go):
+      for i in xrange(iteration_end - orig_idx):
         try:
           self.WriteOpData(data, ops[orig_idx + i], huff)
         except:
diff --git a/compressor/delta_bohe/spdy4_codec_impl.py b/compressor/delta_bohe/spdy4_codec_impl.py
index 76198cc..83007d4 100755
--- a/compressor/delta_bohe/spdy4_codec_impl.py
+++ b/compressor/delta_bohe/spdy4_codec_impl.py
@@ -355,7 +355,7 @@ class Spdy4SeDer(object):  # serializer deserializer
       data.StoreBits8(OpcodeToVal(opcode))
       data.StoreBits8(min(256, ops_to_go) - 1)
       orig_idx = ops_idx
-      for i in xrange(ops_to_go):
+      for i in xrange(iteration_end - orig_idx):
         self.WriteOpData(data, ops[orig_idx + i], huff)
         ops_idx += 1
 
-- 
2.43.0


From c9e29c3ebb1cd9c79fa7393dac9de872ed639431 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:13 +0000
Subject: [PATCH 08/64] fix: delta family: continue header blocks larger than a
 frame correctly

Every frame carried the end flag and the whole remaining payload, and the
decoder parsed each frame's operations on their own.
---
 compressor/delta/spdy4_codec_impl.py       | 10 ++++++++--
 compressor/delta2/spdy4_codec_impl.py      | 10 ++++++++--
 compressor/delta2_bohe/spdy4_codec_impl.py |  4 ++--
 compressor/delta_bohe/spdy4_codec_impl.py  |  4 ++--
 4 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index b443da8..65655af 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -490,11 +490,11 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'payload_len: ', payload_len
       bytes_to_consume = min(payload_len, bytes_allowed)
       #print 'bytes_to_consume: ', bytes_to_consume
-      end_of_frame = (bytes_to_consume <= payload_len)
+      end_of_frame = (payload_len <= bytes_allowed)
       #print 'end_of_Frame: ', end_of_frame
       self.WriteControlFrameBoilerplate(overall_bb, bytes_to_consume,
                                         end_of_frame, stream_id, group_id, 0x8)
-      overall_bb.StoreBits( (payload, bytes_to_consume*8))
+      overall_bb.StoreBits( (payload[:bytes_to_consume], bytes_to_consume*8))
       payload = payload[bytes_to_consume:]
       payload_len -= bytes_allowed
       if payload_len <= 0:
@@ -509,6 +509,7 @@ class Spdy4SeDer(object):  # serializer deserializer
     ops = []
     bb = BitBucket()
     bb.StoreBits(frame.GetAllBits())
+    payload_bb = BitBucket()
     flags = 0
     #print 'DeserializeInstructions'
     while flags == 0:
@@ -522,6 +523,11 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'frame_type: ', frame_type
       group_id = bb.GetBits8()
       #print 'group_id: ', group_id
+      payload_bb.StoreBits(bb.GetBits(frame_len))
+      if flags == 0:
+        continue  # the operations go on in the next frame
+      bb = payload_bb
+      frame_len = bb.NumBits()
       while frame_len > 16:  # 16 bits minimum for the opcode + count...
         bits_remaining_at_start = bb.BitsRemaining()
         opcode_val = bb.GetBits8()
diff --git a/compressor/delta2/spdy4_codec_impl.py b/compressor/delta2/spdy4_codec_impl.py
index 21894a3..0f736df 100644
--- a/compressor/delta2/spdy4_codec_impl.py
+++ b/compressor/delta2/spdy4_codec_impl.py
@@ -600,13 +600,13 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'payload_len: ', payload_len
       bytes_to_consume = min(payload_len, bytes_allowed)
       #print 'bytes_to_consume: ', bytes_to_consume
-      end_of_frame = (bytes_to_consume <= payload_len)
+      end_of_frame = (payload_len <= bytes_allowed)
       #print 'end_of_Frame: ', end_of_frame
       self.WriteControlFrameBoilerplate(overall_bb, bytes_to_consume,
                                         end_of_frame, stream_id, group_id, 0x8)
       if verbose >= 5:
         descr.appendleft(FormatHex(overall_bb.GetAllBits()[0]))
-      overall_bb.StoreBits( (payload, bytes_to_consume*8))
+      overall_bb.StoreBits( (payload[:bytes_to_consume], bytes_to_consume*8))
       payload = payload[bytes_to_consume:]
       payload_len -= bytes_allowed
       if payload_len <= 0:
@@ -626,6 +626,7 @@ class Spdy4SeDer(object):  # serializer deserializer
     ops = []
     bb = BitBucket()
     bb.StoreBits(frame.GetAllBits())
+    payload_bb = BitBucket()
     flags = 0
     #print 'DeserializeInstructions'
     while flags == 0:
@@ -639,6 +640,11 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'stream_id: ', stream_id
       group_id = bb.GetBits8()
       #print 'group_id: ', group_id
+      payload_bb.StoreBits(bb.GetBits(frame_len))
+      if flags == 0:
+        continue  # the operations go on in the next frame
+      bb = payload_bb
+      frame_len = bb.NumBits()
       while frame_len > 8:
         bits_remaining_at_start = bb.BitsRemaining()
         try:
diff --git a/compressor/delta2_bohe/spdy4_codec_impl.py b/compressor/delta2_bohe/spdy4_codec_impl.py
index 54a6eaf..7eb9925 100755
--- a/compressor/delta2_bohe/spdy4_codec_impl.py
+++ b/compressor/delta2_bohe/spdy4_codec_impl.py
@@ -511,11 +511,11 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'payload_len: ', payload_len
       bytes_to_consume = min(payload_len, bytes_allowed)
       #print 'bytes_to_consume: ', bytes_to_consume
-      end_of_frame = (bytes_to_consume <= payload_len)
+      end_of_frame = (payload_len <= bytes_allowed)
       #print 'end_of_Frame: ', end_of_frame
       self.WriteControlFrameBoilerplate(overall_bb, bytes_to_consume,
                                         end_of_frame, stream_id, group_id, 0x8)
-      overall_bb.StoreBits( (payload, bytes_to_consume*8))
+      overall_bb.StoreBits( (payload[:bytes_to_consume], bytes_to_consume*8))
       payload = payload[bytes_to_consume:]
       payload_len -= bytes_allowed
       if payload_len <= 0:
diff --git a/compressor/delta_bohe/spdy4_codec_impl.py b/compressor/delta_bohe/spdy4_codec_impl.py
index 83007d4..bc41615 100755
--- a/compressor/delta_bohe/spdy4_codec_impl.py
+++ b/compressor/delta_bohe/spdy4_codec_impl.py
@@ -429,11 +429,11 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'payload_len: ', payload_len
       bytes_to_consume = min(payload_len, bytes_allowed)
       #print 'bytes_to_consume: ', bytes_to_consume
-      end_of_frame = (bytes_to_consume <= payload_len)
+      end_of_frame = (payload_len <= bytes_allowed)
       #print 'end_of_Frame: ', end_of_frame
       self.WriteControlFrameBoilerplate(overall_bb, bytes_to_consume,
                                         end_of_frame, stream_id, 0x8)
-      overall_bb.StoreBits( (payload, bytes_to_consume*8))
+      overall_bb.StoreBits( (payload[:bytes_to_consume], bytes_to_consume*8))
       payload = payload[bytes_to_consume:]
       payload_len -= bytes_allowed
       if payload_len <= 0:
-- 
2.43.0


From b287ff8969f2785392afdaf230af75281368a6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:21 +0000
Subject: [PATCH 09/64] fix: bit_bucket: do not report one unread bit too few

---
 compressor/bohe/bit_bucket.py        | 2 +-
 compressor/delta/bit_bucket.py       | 2 +-
 compressor/delta2/bit_bucket.py      | 2 +-
 compressor/delta2_bohe/bit_bucket.py | 2 +-
 compressor/delta_bohe/bit_bucket.py  | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/compressor/bohe/bit_bucket.py b/compressor/bohe/bit_bucket.py
index 05cceb3..dec620b 100644
--- a/compressor/bohe/bit_bucket.py
+++ b/compressor/bohe/bit_bucket.py
@@ -146,7 +146,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
diff --git a/compressor/delta/bit_bucket.py b/compressor/delta/bit_bucket.py
index eb13c9c..84228e6 100644
--- a/compressor/delta/bit_bucket.py
+++ b/compressor/delta/bit_bucket.py
@@ -139,7 +139,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
diff --git a/compressor/delta2/bit_bucket.py b/compressor/delta2/bit_bucket.py
index b6f522d..2ab870f 100644
--- a/compressor/delta2/bit_bucket.py
+++ b/compressor/delta2/bit_bucket.py
@@ -155,7 +155,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
diff --git a/compressor/delta2_bohe/bit_bucket.py b/compressor/delta2_bohe/bit_bucket.py
index eb13c9c..84228e6 100644
--- a/compressor/delta2_bohe/bit_bucket.py
+++ b/compressor/delta2_bohe/bit_bucket.py
@@ -139,7 +139,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
diff --git a/compressor/delta_bohe/bit_bucket.py b/compressor/delta_bohe/bit_bucket.py
index eb13c9c..84228e6 100644
--- a/compressor/delta_bohe/bit_bucket.py
+++ b/compressor/delta_bohe/bit_bucket.py
@@ -139,7 +139,7 @@ class BitBucket:
     """
     Returns the number of unread/unconsumed bits.
     """
-    return self.NumBits() - (8*self.idx_byte + self.idx_boff) - 1
+    return self.NumBits() - (8*self.idx_byte + self.idx_boff)
 
   def AllConsumed(self):
     """ Returns true if all stored bits were consumed, else returns false"""
-- 
2.43.0


From 4d2c6d2ee2e71ca0c67e3595fdc1d9ca9467ed31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:39 +0000
Subject: [PATCH 10/64] fix: bohe: StoreBits22 stores the 22 least significant
 bits

---
 compressor/bohe/bit_bucket.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/bohe/bit_bucket.py b/compressor/bohe/bit_bucket.py
index dec620b..570945e 100644
--- a/compressor/bohe/bit_bucket.py
+++ b/compressor/bohe/bit_bucket.py
@@ -63,7 +63,7 @@ class BitBucket:
     """
     Stores the 22 least-significant bits from val in network order (big endian)
     """
-    tmp_val = struct.pack(">I", val)
+    tmp_val = struct.pack(">I", (val & 0x3fffff) << 10)[:3]
     self.StoreBits ( (StrToList(tmp_val), 22))
 
   def StoreBits32(self, val):
-- 
2.43.0


From d71b93977a360c5c7b3089ead0c63acfc79fa1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:09 +0000
Subject: [PATCH 11/64] fix: bit_bucket.h: count the bits of aligned 8, 16 and
 32 bit stores

---
 compressor/delta/bit_bucket.h      | 3 +++
 compressor/delta_bohe/bit_bucket.h | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/compressor/delta/bit_bucket.h b/compressor/delta/bit_bucket.h
index b7bc2f9..646f2e5 100644
--- a/compressor/delta/bit_bucket.h
+++ b/compressor/delta/bit_bucket.h
@@ -135,6 +135,7 @@ class BitBucket {
   void StoreBits8(uint8_t val) {
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val));
+      num_bits += 8;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -147,6 +148,7 @@ class BitBucket {
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val >> 8));
       bsa.push_back(static_cast<uint8_t>(val & 255u));
+      num_bits += 16;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -165,6 +167,7 @@ class BitBucket {
       bsa.push_back(static_cast<uint8_t>(255u & (val >> 16)));
       bsa.push_back(static_cast<uint8_t>(255u & (val >>  8)));
       bsa.push_back(static_cast<uint8_t>(255u & (val >>  0)));
+      num_bits += 32;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
diff --git a/compressor/delta_bohe/bit_bucket.h b/compressor/delta_bohe/bit_bucket.h
index b7bc2f9..646f2e5 100644
--- a/compressor/delta_bohe/bit_bucket.h
+++ b/compressor/delta_bohe/bit_bucket.h
@@ -135,6 +135,7 @@ class BitBucket {
   void StoreBits8(uint8_t val) {
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val));
+      num_bits += 8;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -147,6 +148,7 @@ class BitBucket {
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val >> 8));
       bsa.push_back(static_cast<uint8_t>(val & 255u));
+      num_bits += 16;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -165,6 +167,7 @@ class BitBucket {
       bsa.push_back(static_cast<uint8_t>(255u & (val >> 16)));
       bsa.push_back(static_cast<uint8_t>(255u & (val >>  8)));
       bsa.push_back(static_cast<uint8_t>(255u & (val >>  0)));
+      num_bits += 32;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
-- 
2.43.0


From 40281515c3ea778ebc67b2de48718740282089a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:09 +0000
Subject: [PATCH 12/64] fix: bit_bucket.h: compare reads with the unread bits,
 not all bits

---
 compressor/delta/bit_bucket.h      | 2 +-
 compressor/delta_bohe/bit_bucket.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/bit_bucket.h b/compressor/delta/bit_bucket.h
index 646f2e5..607aed2 100644
--- a/compressor/delta/bit_bucket.h
+++ b/compressor/delta/bit_bucket.h
@@ -277,7 +277,7 @@ class BitBucket {
     size_t output_bytes = (num_bits + 7) / 8;
     retval->reserve(output_bytes);
     size_t old_idx_boff = idx_boff;
-    if (num_bits > NumBits()) {
+    if (num_bits > BitsRemaining()) {
       cerr << "Oops, we're asking to get more bits than are available.\n";
       cerr << "Bits available: " << BitsRemaining() << "\n";
       cerr << "Bits requested: " << num_bits << "\n";
diff --git a/compressor/delta_bohe/bit_bucket.h b/compressor/delta_bohe/bit_bucket.h
index 646f2e5..607aed2 100644
--- a/compressor/delta_bohe/bit_bucket.h
+++ b/compressor/delta_bohe/bit_bucket.h
@@ -277,7 +277,7 @@ class BitBucket {
     size_t output_bytes = (num_bits + 7) / 8;
     retval->reserve(output_bytes);
     size_t old_idx_boff = idx_boff;
-    if (num_bits > NumBits()) {
+    if (num_bits > BitsRemaining()) {
       cerr << "Oops, we're asking to get more bits than are available.\n";
       cerr << "Bits available: " << BitsRemaining() << "\n";
       cerr << "Bits requested: " << num_bits << "\n";
-- 
2.43.0


From 76215ac03e0ab98c2bd37e49caea3ba47a64bdff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:09 +0000
Subject: [PATCH 13/64] fix: bit_bucket.h: do not shift a 32 bit word by 32

---
 compressor/delta/bit_bucket.h      | 2 +-
 compressor/delta_bohe/bit_bucket.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/bit_bucket.h b/compressor/delta/bit_bucket.h
index 607aed2..051658d 100644
--- a/compressor/delta/bit_bucket.h
+++ b/compressor/delta/bit_bucket.h
@@ -108,7 +108,7 @@ class BitBucket {
 
   // This is horribly inefficient.
   void ShiftBitsIntoWord(uint32_t* word, size_t num_bits) {
-    *word <<= num_bits;
+    *word = (num_bits < 32) ? (*word << num_bits) : 0;
     size_t saved_idx_byte = idx_byte;
     size_t saved_idx_boff = idx_boff;
     uint32_t tmp_word = 0;
diff --git a/compressor/delta_bohe/bit_bucket.h b/compressor/delta_bohe/bit_bucket.h
index 607aed2..051658d 100644
--- a/compressor/delta_bohe/bit_bucket.h
+++ b/compressor/delta_bohe/bit_bucket.h
@@ -108,7 +108,7 @@ class BitBucket {
 
   // This is horribly inefficient.
   void ShiftBitsIntoWord(uint32_t* word, size_t num_bits) {
-    *word <<= num_bits;
+    *word = (num_bits < 32) ? (*word << num_bits) : 0;
     size_t saved_idx_byte = idx_byte;
     size_t saved_idx_boff = idx_boff;
     uint32_t tmp_word = 0;
-- 
2.43.0


From 8b75a01114cea886b6d0ac7c9462783f14868e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:09 +0000
Subject: [PATCH 14/64] fix: spdy4_headers_codec: SetMaxVals sets the entry
 limit

---
 compressor/delta/spdy4_headers_codec.cc      | 2 +-
 compressor/delta_bohe/spdy4_headers_codec.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index 031533f..93c081a 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -1296,5 +1296,5 @@ void SPDY4HeadersCodec::SetMaxStateSize(size_t size) {
 }
 
 void SPDY4HeadersCodec::SetMaxVals(size_t size) {
-  impl->SetMaxStateSize(size);
+  impl->SetMaxVals(size);
 }
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index 031533f..93c081a 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -1296,5 +1296,5 @@ void SPDY4HeadersCodec::SetMaxStateSize(size_t size) {
 }
 
 void SPDY4HeadersCodec::SetMaxVals(size_t size) {
-  impl->SetMaxStateSize(size);
+  impl->SetMaxVals(size);
 }
-- 
2.43.0


From 3b95b8d118c09e15c3b9db58ff05f955df14ebff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:25 +0000
Subject: [PATCH 15/64] fix: spdy4_headers_codec: do not read evicted entries
 when serializing toggles

---
 compressor/delta/spdy4_headers_codec.cc      | 7 ++++---
 compressor/delta_bohe/spdy4_headers_codec.cc | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index 93c081a..fca2dc7 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -520,10 +520,11 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
 
   struct ToggleOp {
     ValEntry* entry;
+    LRUIdx lru_idx;  // 'entry' may be evicted before this is serialized.
    public:
-    explicit ToggleOp(ValEntry* kv) : entry(kv) { }
-    ToggleOp() : entry(0) {}
-    LRUIdx idx() const { return entry->lru_idx; }
+    explicit ToggleOp(ValEntry* kv) : entry(kv), lru_idx(kv->lru_idx) { }
+    ToggleOp() : entry(0), lru_idx(0) {}
+    LRUIdx idx() const { return lru_idx; }
     bool operator<(const ToggleOp& ob_b) const {
       return idx() < ob_b.idx();
     }
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index 93c081a..fca2dc7 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -520,10 +520,11 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
 
   struct ToggleOp {
     ValEntry* entry;
+    LRUIdx lru_idx;  // 'entry' may be evicted before this is serialized.
    public:
-    explicit ToggleOp(ValEntry* kv) : entry(kv) { }
-    ToggleOp() : entry(0) {}
-    LRUIdx idx() const { return entry->lru_idx; }
+    explicit ToggleOp(ValEntry* kv) : entry(kv), lru_idx(kv->lru_idx) { }
+    ToggleOp() : entry(0), lru_idx(0) {}
+    LRUIdx idx() const { return lru_idx; }
     bool operator<(const ToggleOp& ob_b) const {
       return idx() < ob_b.idx();
     }
-- 
2.43.0


From 63eb91f4e11d1ab1a2cb17c77980606623daa2b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:44 +0000
Subject: [PATCH 16/64] fix: spdy4_headers_codec: serialize the toggles

Single toggles were never written, ranges started at the wrong entry and
all default entries shared the index 0.
---
 compressor/delta/spdy4_headers_codec.cc      | 7 ++++++-
 compressor/delta_bohe/spdy4_headers_codec.cc | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index fca2dc7..51e5983 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -911,6 +911,9 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
       storage.AddToHeadOfLRU(entry);
       // add the entry to that group.
       SetHeaderGroupEntry(group_id, entry, true);
+    } else {
+      // a default entry is not in the LRU, but toggles need to refer to it.
+      entry->lru_idx = storage.lru_ids.GetNext();
     }
   }
 
@@ -1033,16 +1036,18 @@ class InlineSerialization :
 
       if (!ot->empty()) {
         if ((idx - ot->back()) == 1) {
-          ot->pop_back();
           otr->push_back(make_pair(ot->back(), idx));
+          ot->pop_back();
           continue;
         }
       }
       if (!otr->empty()) {
         if ((idx - otr->back().second) == 1) {
           otr->back().second = idx;
+          continue;
         }
       }
+      ot->push_back(idx);
     }
   }
 
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index fca2dc7..51e5983 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -911,6 +911,9 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
       storage.AddToHeadOfLRU(entry);
       // add the entry to that group.
       SetHeaderGroupEntry(group_id, entry, true);
+    } else {
+      // a default entry is not in the LRU, but toggles need to refer to it.
+      entry->lru_idx = storage.lru_ids.GetNext();
     }
   }
 
@@ -1033,16 +1036,18 @@ class InlineSerialization :
 
       if (!ot->empty()) {
         if ((idx - ot->back()) == 1) {
-          ot->pop_back();
           otr->push_back(make_pair(ot->back(), idx));
+          ot->pop_back();
           continue;
         }
       }
       if (!otr->empty()) {
         if ((idx - otr->back().second) == 1) {
           otr->back().second = idx;
+          continue;
         }
       }
+      ot->push_back(idx);
     }
   }
 
-- 
2.43.0


From 5b84a0feed8db5c8c89f0cc789f9023ba2fb2977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:44 +0000
Subject: [PATCH 17/64] fix: spdy4_headers_codec: allow a header name to occur
 more than once

---
 compressor/delta/spdy4_headers_codec.cc      | 4 ++--
 compressor/delta_bohe/spdy4_headers_codec.cc | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index 51e5983..567e1ab 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -727,7 +727,7 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
       key_lookups.push_back(lc);
       if (lc.HasKey()) {
         lc.k_i->second.IncRefcnt();
-        assert(lc.k_i->second.refcnt == 1);
+        assert(lc.k_i->second.refcnt >= 1);
       }
     }
 
@@ -777,7 +777,7 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
       // As we're proceeding through, we reduce the refcnt by one
       // if we had incremented it before.
       if (key_lu_it->HasKey()) {
-        assert(key_lu_it->k_i->second.refcnt == 1);
+        assert(key_lu_it->k_i->second.refcnt >= 1);
         key_lu_it->k_i->second.DecRefcnt();
       }
     }
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index 51e5983..567e1ab 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -727,7 +727,7 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
       key_lookups.push_back(lc);
       if (lc.HasKey()) {
         lc.k_i->second.IncRefcnt();
-        assert(lc.k_i->second.refcnt == 1);
+        assert(lc.k_i->second.refcnt >= 1);
       }
     }
 
@@ -777,7 +777,7 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
       // As we're proceeding through, we reduce the refcnt by one
       // if we had incremented it before.
       if (key_lu_it->HasKey()) {
-        assert(key_lu_it->k_i->second.refcnt == 1);
+        assert(key_lu_it->k_i->second.refcnt >= 1);
         key_lu_it->k_i->second.DecRefcnt();
       }
     }
-- 
2.43.0


From 7af7053161af84a9b5fb894f233c32adf399ad22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:45 +0000
Subject: [PATCH 18/64] fix: stream: locale.format is gone in Python 3.12

---
 lib/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/stream.py b/lib/stream.py
index f5a7681..5493838 100755
--- a/lib/stream.py
+++ b/lib/stream.py
@@ -41,7 +41,7 @@ class Stream(object):
     for proc in self.procs:
       ttl_size = sum(self.sizes[proc])
       ttl_time = sum(self.times[proc])
-      pretty_size = locale.format("%13d", ttl_size, grouping=True)
+      pretty_size = locale.format_string("%13d", ttl_size, grouping=True)
       ratio = 1.0 * ttl_size / baseline_size
       try:
         std = meanstdv(self.ratios[proc])[1]
-- 
2.43.0


From 6a15b7b9caf1e138aba4ec4aee21195deb7626df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:45 +0000
Subject: [PATCH 19/64] fix: do not rename the only session to TOTAL, nor grow
 the first one

The total of a single stream was that stream itself, so its TSV lines were
labelled TOTAL; adding streams also appended to the first one's messages.
---
 compare_compressors.py | 4 +---
 lib/stream.py          | 4 ++--
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/compare_compressors.py b/compare_compressors.py
index db38e0b..8742ceb 100755
--- a/compare_compressors.py
+++ b/compare_compressors.py
@@ -16,8 +16,6 @@ from collections import defaultdict
 from importlib import import_module
 import locale
 import optparse
-import operator
-from functools import reduce
 
 from lib.harfile import read_har_file
 from lib.processors import Processors
@@ -59,7 +57,7 @@ class CompressionTester(object):
         session.print_summary(self.output, self.options.baseline)
     self.processors.done()
     for msg_type in self.msg_types:
-      ttl_stream = reduce(operator.add, [s for s in sessions if s.msg_type == msg_type])
+      ttl_stream = sum([s for s in sessions if s.msg_type == msg_type])
       ttl_stream.name = "TOTAL"
       ttl_stream.print_header(self.output)
       ttl_stream.print_summary(self.output, self.options.baseline)
diff --git a/lib/stream.py b/lib/stream.py
index 5493838..a4d39e2 100755
--- a/lib/stream.py
+++ b/lib/stream.py
@@ -72,8 +72,8 @@ class Stream(object):
 
   def __add__(self, other):
     assert self.msg_type == other.msg_type
-    new = Stream('', self.messages, self.msg_type, self.procs)
-    new.messages.extend(other.messages) # NB: not great for memory
+    new = Stream('', self.messages + other.messages, # NB: not great for memory
+                 self.msg_type, self.procs)
     new.sizes = merge_dols(self.sizes, other.sizes)
     new.ratios = merge_dols(self.ratios, other.ratios)
     new.times = merge_dols(self.times, other.times)
-- 
2.43.0


From a909f1a130e5bfbaf06d4e18eaefd5eeb9fe7c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:45 +0000
Subject: [PATCH 20/64] fix: harfile: keep the Host header, report unparsable
 files

The list of requests was searched instead of the headers, so the header was
always replaced by the URL's host, or by all of a URL without a path.
---
 lib/harfile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 3bac9b7..2fa546e 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -22,7 +22,7 @@ def read_har_file(filename):
     har = json.loads(fhandle.read())
   except Exception as oops:
     sys.stderr.write("Unable to parse %s\n\n" % filename)
-    sys.stderr.write(oops)
+    sys.stderr.write("%s\n" % oops)
     sys.exit(1)
   finally: 
     fhandle.close()
@@ -50,8 +50,8 @@ def har2hdrs(har):
       headers[":path"] += "?%s" % url.query
     headers[":scheme"] = url.scheme.lower()
     headers[":version"] = request["httpVersion"]
-    if not ":host" in request_headers:
-      headers[":host"] = re.sub("^[^:]*://([^/]*)/.*$", "\\1", request["url"])
+    if not ":host" in headers:
+      headers[":host"] = url.netloc
     request_headers.append(headers)
 
     response = entry["response"]
-- 
2.43.0


From 9748fb9a8205411a7b45f849a288ac8a11d16952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:45 +0000
Subject: [PATCH 21/64] fix: http1_gzip, http1_huffman, spdy3: give zlib bytes

---
 compressor/http1_gzip/__init__.py    | 6 +++---
 compressor/http1_huffman/__init__.py | 6 +++---
 compressor/spdy3/__init__.py         | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/compressor/http1_gzip/__init__.py b/compressor/http1_gzip/__init__.py
index 825eeed..5bc5029 100644
--- a/compressor/http1_gzip/__init__.py
+++ b/compressor/http1_gzip/__init__.py
@@ -10,13 +10,13 @@ class Processor(BaseProcessor):
     BaseProcessor.__init__(self, options, is_request, params)
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15)
-    self.compressor.compress(spdy_dictionary.spdy_dict);
+    self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'));
     self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
     http1_msg = format_http1(in_headers)
-    return ''.join([
-                   self.compressor.compress(http1_msg),
+    return b''.join([
+                   self.compressor.compress(http1_msg.encode('utf-8')),
                    self.compressor.flush(zlib.Z_SYNC_FLUSH)
                   ])
   
\ No newline at end of file
diff --git a/compressor/http1_huffman/__init__.py b/compressor/http1_huffman/__init__.py
index 5f8b304..4e48603 100644
--- a/compressor/http1_huffman/__init__.py
+++ b/compressor/http1_huffman/__init__.py
@@ -10,13 +10,13 @@ class Processor(BaseProcessor):
     BaseProcessor.__init__(self, options, is_request, params)
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15, 8, zlib.Z_HUFFMAN_ONLY)
-    self.compressor.compress(spdy_dictionary.spdy_dict);
+    self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'));
     self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
     http1_msg = format_http1(in_headers)
-    return ''.join([
-                   self.compressor.compress(http1_msg),
+    return b''.join([
+                   self.compressor.compress(http1_msg.encode('utf-8')),
                    self.compressor.flush(zlib.Z_SYNC_FLUSH)
                   ])
   
\ No newline at end of file
diff --git a/compressor/spdy3/__init__.py b/compressor/spdy3/__init__.py
index 57547b0..5dc149f 100644
--- a/compressor/spdy3/__init__.py
+++ b/compressor/spdy3/__init__.py
@@ -12,7 +12,7 @@ class Processor(BaseProcessor):
     self.compressor = zlib.compressobj(zlib.Z_DEFAULT_COMPRESSION,
                                        zlib.DEFLATED, 15)
     if 'dict' in params:
-      self.compressor.compress(spdy_dictionary.spdy_dict);
+      self.compressor.compress(spdy_dictionary.spdy_dict.encode('latin-1'));
       self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
-- 
2.43.0


From 689c4005c85008978cfdfc4c1e386abba1371e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:45 +0000
Subject: [PATCH 22/64] fix: fork: do not import a missing name, talk bytes and
 flush them

---
 compressor/fork/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/compressor/fork/__init__.py b/compressor/fork/__init__.py
index eb8c636..730f630 100644
--- a/compressor/fork/__init__.py
+++ b/compressor/fork/__init__.py
@@ -7,7 +7,7 @@ import subprocess
 import struct
 import sys
 
-from .. import BaseProcessor, format_http1, strip_conn_headers
+from .. import BaseProcessor, format_http1
 
 class Processor(BaseProcessor):
   def __init__(self, options, is_request, params):
@@ -24,17 +24,18 @@ class Processor(BaseProcessor):
                                      stdin=subprocess.PIPE)
 
   def compress(self, in_headers, host):
-    http1_msg = format_http1(strip_conn_headers(in_headers))
-    self.process.stdin.write(http1_msg)
+    http1_msg = format_http1(in_headers)
+    self.process.stdin.write(http1_msg.encode('utf-8'))
+    self.process.stdin.flush()
     if self.delimit_binary:
       output = self.process.stdout.read(8)
       size = struct.unpack("q", output)[0]
       output = self.process.stdout.read(int(size))
     else:
-      output = ""
+      output = b""
       while True:
         line = self.process.stdout.readline()
-        if line.strip() == "":
+        if line.strip() == b"":
           break
         output += line
     return output
-- 
2.43.0


From 3556b8daf4ca71877f5872763b1b9b97c88d6610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:45 +0000
Subject: [PATCH 23/64] fix: delta2_bohe: do not import a missing name

---
 compressor/delta2_bohe/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta2_bohe/__init__.py b/compressor/delta2_bohe/__init__.py
index 4d3defd..9510e2c 100644
--- a/compressor/delta2_bohe/__init__.py
+++ b/compressor/delta2_bohe/__init__.py
@@ -9,7 +9,7 @@ import header_freq_tables
 import spdy4_codec_impl
 import huffman
 import common_utils
-from .. import BaseProcessor, strip_conn_headers
+from .. import BaseProcessor
 
 # There are a number of TODOS in the spdy4
 #      have near indices. Possibly renumber whever something is referenced)
@@ -72,7 +72,7 @@ class Processor(BaseProcessor):
     else:
       group_id = self.group_ids.GetNext()
       self.hosts[normalized_host] = group_id
-    inp_ops = self.compressor.MakeOperations(strip_conn_headers(inp_headers), group_id)
+    inp_ops = self.compressor.MakeOperations(inp_headers, group_id)
     inp_real_ops = self.compressor.OpsToRealOps(inp_ops, group_id)
     compressed_blob = self.compressor.Compress(inp_real_ops)
     return compressed_blob
-- 
2.43.0


From 5ed511f88a6a7d1643dd8c1411658f5bb88293dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 24/64] fix: bohe: write both flag bits of every header

The binary flag was left out when it is 0, and the multiple values flag
looked for a literal backslash-u00 instead of the NUL that separates values.
---
 compressor/bohe/__init__.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/compressor/bohe/__init__.py b/compressor/bohe/__init__.py
index 33af40e..7a17655 100644
--- a/compressor/bohe/__init__.py
+++ b/compressor/bohe/__init__.py
@@ -42,8 +42,10 @@ class Processor(BaseProcessor):
         if k in bohe.ENCODERS:
           data.StoreBit(1)
           dohuff = False
+        else:
+          data.StoreBit(0)
         # Set the multiple values flag...
-        if '\u00' in v:
+        if '\x00' in v:
           data.StoreBit(1)
         else:
           data.StoreBit(0)
@@ -59,7 +61,7 @@ class Processor(BaseProcessor):
         data.StoreBits8(128 | len(k))
         data.StoreBits((common_utils.StrToList(k), len(k)*8))
         data.StoreBit(0) # assume not binary value for now
-        if '\u00' in v:
+        if '\x00' in v:
           data.StoreBit(1)
         else:
           data.StoreBit(0)
-- 
2.43.0


From e46e1d579c787de54488efa8b00e216e64b05cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:14 +0000
Subject: [PATCH 25/64] fix: processors: match the names listed in Connection
 case-insensitively

---
 lib/processors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/processors.py b/lib/processors.py
index 1af25d0..9384f92 100755
--- a/lib/processors.py
+++ b/lib/processors.py
@@ -87,7 +87,7 @@ class Processors(object):
     new_hdrs = {}
     ignore_hdrs = [':status-text', ':version', 'keep-alive', 'connection']
     if 'connection' in hdrs:
-      ignore_hdrs.extend([x.strip(' ') for x in hdrs['connection'].split(',')])
+      ignore_hdrs.extend([x.strip(' ').lower() for x in hdrs['connection'].split(',')])
 
     for k,v in hdrs.items():
       if k in ignore_hdrs:
-- 
2.43.0


From 0f78b5ba1d7b04d1eb91a5c8da6c9511640fdbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:32 +0000
Subject: [PATCH 26/64] fix: delta2_bohe: look up entries after the sequence
 numbers wrapped

---
 compressor/delta2_bohe/lrustorage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta2_bohe/lrustorage.py b/compressor/delta2_bohe/lrustorage.py
index 3f928cb..be855a0 100755
--- a/compressor/delta2_bohe/lrustorage.py
+++ b/compressor/delta2_bohe/lrustorage.py
@@ -59,7 +59,7 @@ class LruStorage:
       raise MemoryError("max_items exceeded")
     item.seq_num = self.seq_num
     self.seq_num += 1
-    if self.max_seq_num and self.seq_num > self.max_seq_num:
+    if self.max_seq_num and self.seq_num >= self.max_seq_num:
       self.seq_num = self.offset
     self.byte_size += item_byte_size
     self.ring.append(item)
@@ -72,7 +72,7 @@ class LruStorage:
       #print "fsn: %d, sn: %d" % (first_seq_num, seq_num)
       if self.max_seq_num:
         #print "a ",;
-        lru_idx = (self.max_seq_num - first_seq_num) + seq_num
+        lru_idx = (self.max_seq_num - first_seq_num) + (seq_num - self.offset)
       else:
         raise IndexError("MaxSeqNum not defined and "
                          "seq_num(%d) < first_seq_num(%d)" %
-- 
2.43.0


From 2661a03bd0d74fa3b2d85bd54cc8ff4b53ee3782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:18:05 +0000
Subject: [PATCH 27/64] fix: delta_bohe: evict entries instead of raising
 NameError, account for values

---
 compressor/delta_bohe/spdy4_codec_impl.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/compressor/delta_bohe/spdy4_codec_impl.py b/compressor/delta_bohe/spdy4_codec_impl.py
index bc41615..8e1ac50 100755
--- a/compressor/delta_bohe/spdy4_codec_impl.py
+++ b/compressor/delta_bohe/spdy4_codec_impl.py
@@ -580,6 +580,7 @@ class Storage(object):
     if self.remove_val_cb:
       self.remove_val_cb(ve)
     self.RemoveVal(ve)
+    return 1
 
   def MakeSpace(self, space_required, adding_val):  ####
     """
@@ -590,7 +591,7 @@ class Storage(object):
       if not self.PopOne():
         return
     while self.state_size + space_required > self.max_state_size:
-      if not PopOne():
+      if not self.PopOne():
         return
 
   def FindKeyEntry(self, key): ####
@@ -648,6 +649,7 @@ class Storage(object):
     self.IncrementRefCnt(ke)
     self.MakeSpace(len(val), 1)
     self.num_vals += 1
+    self.state_size += len(val)
     ke['val_map'][val] = ve = self.NewVE(key, val, ke)
     self.DecrementRefCnt(ke)
     return ve
@@ -687,6 +689,8 @@ class Storage(object):
     if not ke or len(ke['val_map']) > 0 or ke['ref_cnt'] > 0:
       return
     self.state_size -= len(ke['key'])
+    del self.key_map[ke['key']]
+    del self.key_idx_to_ke[ke['key_idx']]
 
   def RemoveVal(self, ve): ####
     self.RemoveFromLRU(ve)
@@ -729,7 +733,7 @@ class Spdy4CoDe(object):
           to_be_removed.append(group_id)
       for group_id in to_be_removed:
         #print "Deleted group_id: %d" % group_id
-        del header_group[group_id]
+        del self.header_groups[group_id]
 
     self.storage.SetRemoveValCB(RemoveVEFromAllHeaderGroups)
 
@@ -850,7 +854,7 @@ class Spdy4CoDe(object):
       return self.header_groups[group_id]
 
   def TouchHeaderGroupEntry(self, group_id, ve):
-    self.header_groups[group_id].TouchEntry(ve)
+    self.FindOrMakeHeaderGroup(group_id).TouchEntry(ve)
 
   def VEInHeaderGroup(self, group_id, ve):
     return self.header_groups[group_id].HasEntry(ve)
-- 
2.43.0


From daa684f49582b6beeea08dc23751411f945c4a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:36 +0000
Subject: [PATCH 28/64] fix: delta: renumber an entry into the group that used
 it

The loop variable shadowed the group, so that an entry shared by several groups
moved to whichever of them the set's iteration order put last: the encoder and a
decoder agreed only if they iterated alike.
---
 compressor/delta/spdy4_codec_impl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 65655af..f59e735 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -901,8 +901,8 @@ class Spdy4CoDe(object):
   def RenumberVELruIdx(self, ve, group_id):
     v_idx = ve.lru_idx
     removals = []
-    for group_id in ve.groups:
-      header_group = self.header_groups[group_id]
+    for old_group_id in ve.groups:
+      header_group = self.header_groups[old_group_id]
       header_group.RemoveEntry(v_idx)
     ve.groups.clear()
     ve.groups.add(group_id)
-- 
2.43.0


From 9cd888900bdaba62679fcafee00928a8592091cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:50 +0000
Subject: [PATCH 29/64] fix: delta_bohe: keep the ids within the 16 bits they
 have on the wire

After about 65000 stored or renumbered entries the codec raised StandardError.
---
 compressor/delta_bohe/spdy4_codec_impl.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/compressor/delta_bohe/spdy4_codec_impl.py b/compressor/delta_bohe/spdy4_codec_impl.py
index 8e1ac50..5e8eb95 100755
--- a/compressor/delta_bohe/spdy4_codec_impl.py
+++ b/compressor/delta_bohe/spdy4_codec_impl.py
@@ -614,8 +614,17 @@ class Storage(object):
   def DecrementRefCnt(self, ke): ####
     ke['ref_cnt'] -= 1
 
+  @staticmethod
+  def NextUnusedId(ids, used):
+    """ Gets the next id which fits into its 16 bits on the wire and which
+    is not a key of 'used'"""
+    idx = ids.GetNext() & 0xffff
+    while idx in used:
+      idx = ids.GetNext() & 0xffff
+    return idx
+
   def NewKE(self, key): ####
-    return {'key_idx': self.key_ids.GetNext(),
+    return {'key_idx': self.NextUnusedId(self.key_ids, self.key_idx_to_ke),
             'ref_cnt': 0,
             'val_map': {},
             'key': key,
@@ -658,7 +667,7 @@ class Storage(object):
     if ve['lru_idx'] >= 0:
       raise StandardError()
     if ve is not None:
-      lru_idx = self.lru_ids.GetNext()
+      lru_idx = self.NextUnusedId(self.lru_ids, self.lru_idx_to_ve)
       ve['lru_idx'] = lru_idx
       self.lru_idx_to_ve[lru_idx] = ve
       self.lru.append(ve)
@@ -874,7 +883,8 @@ class Spdy4CoDe(object):
 
   def RenumberVELruIdx(self, ve):
     lru_idx = ve['lru_idx']
-    new_lru_idx = ve['lru_idx'] = self.storage.lru_ids.GetNext()
+    new_lru_idx = ve['lru_idx'] = self.storage.NextUnusedId(
+        self.storage.lru_ids, self.storage.lru_idx_to_ve)
     del self.storage.lru_idx_to_ve[lru_idx]
     self.storage.lru_idx_to_ve[new_lru_idx] = ve
 
-- 
2.43.0


From ff47ce75904228f067b53fa61e32fcd701acf933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:32:26 +0000
Subject: [PATCH 30/64] fix: headerdiff: write both bytes of a full 14 bit
 prefix

With more than 16446 indexed headers the long index was written with its first
byte missing, and the frame could not be decoded.
---
 compressor/headerdiff/headerDiffCodec.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 7ec9c6c..1fc2741 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -580,7 +580,10 @@ class HeaderDiffCodec(object):
     else:
       # If prefix size is greater than 0,
       # write MAX_VALUE as the prefix
-      if prefixBits > 0:
+      if prefixBits > 8:
+        b = currentByte | (MAX_VALUES[prefixBits] >> 8)
+        self.encodedStream+= pack("!H", (b << 8) | 0xff)
+      elif prefixBits > 0:
         currentByte = currentByte | MAX_VALUES[prefixBits]
         self.encodedStream+= pack("!B", currentByte)
       # Write value on next byte or bytes
-- 
2.43.0


From 1634d355257db665612c9e37bf67f0837abb2bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:53 +0000
Subject: [PATCH 31/64] fix: delta2: count the names and values that are kept

Every entry shared its name (and with refcnt_vals its value) with a temporary
that never let go of it, and shared strings count as empty: max_byte_size did
not limit the names at all.
---
 compressor/delta2/spdy4_codec_impl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/compressor/delta2/spdy4_codec_impl.py b/compressor/delta2/spdy4_codec_impl.py
index 0f736df..829dd06 100644
--- a/compressor/delta2/spdy4_codec_impl.py
+++ b/compressor/delta2/spdy4_codec_impl.py
@@ -1043,8 +1043,8 @@ class Spdy4CoDe(object):
 
   def Store(self, kv):
     if self.refcnt_vals:
-      return self.storage.InsertVal(lrustorage.KV(kv.key_, kv.val_))
-    return self.storage.InsertVal(lrustorage.KV(kv.key_, kv.val()))
+      return self.storage.InsertVal(lrustorage.KV(kv.key(), kv.val_))
+    return self.storage.InsertVal(lrustorage.KV(kv.key(), kv.val()))
 
   def DecompressorExecuteOps(self, ops, group_id):
     store_later = deque()
@@ -1078,7 +1078,7 @@ class Spdy4CoDe(object):
         val = op['val']
         kv = self.storage.LookupFromIdx(lru_idx)
         AppendToHeaders(headers, kv.key(), val)
-        store_later.append(lrustorage.KV(kv.key_, val))
+        store_later.append(lrustorage.KV(kv.key(), val))
       elif opcode == 'eclone':
         lru_idx = op['index']
         val = op['val']
@@ -1115,7 +1115,7 @@ class Spdy4CoDe(object):
         hg_store_later.append((kv, lru_idx));
     # Modify the LRU.
     for kv in store_later:
-      new_idx = self.Store(kv)
+      new_idx = self.storage.InsertVal(kv)
       if self.implicit_hg_add and new_idx is not None:
         current_header_group.hg_store.add(new_idx)
     if self.hg_adjust:
-- 
2.43.0


From 2e498869b5c3d0c208aab61474befe2e339f10d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:59 +0000
Subject: [PATCH 32/64] fix: harfile: a URL without a path asks for "/"

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 2fa546e..ae52479 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -45,7 +45,7 @@ def har2hdrs(har):
       continue
     headers = process_headers(request["headers"])
     headers[":method"] = request["method"].lower()
-    headers[":path"] = url.path
+    headers[":path"] = url.path or "/"
     if url.query:
       headers[":path"] += "?%s" % url.query
     headers[":scheme"] = url.scheme.lower()
-- 
2.43.0


From 5740973f8cb6b5a756d2a3b6bff24a8b026edb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:37 +0000
Subject: [PATCH 33/64] fix: simple: keep values of date headers that are not
 dates

---
 compressor/simple/__init__.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/compressor/simple/__init__.py b/compressor/simple/__init__.py
index ba66111..9079c60 100644
--- a/compressor/simple/__init__.py
+++ b/compressor/simple/__init__.py
@@ -26,7 +26,8 @@ class Processor(BaseProcessor):
     name does not occur there, its name will be preceded with a "!".
 
   * Header types that are known to be dates are expressed as a hexidecimal
-    number of seconds since the epoch.    
+    number of seconds since the epoch. Values that would not survive this
+    are preceded with a "!".
     
   * "\n" is used as a line delimiter, instead of "\r\n".
   
@@ -132,9 +133,12 @@ class Processor(BaseProcessor):
       # re-encoding
       if self.compress_dates and name in self.date_hdrs:
         try:
-          value = "%x" % parse_date(value)
+          seconds = parse_date(value)
+          if format_date(seconds) != value:
+            raise ValueError
+          value = "%x" % seconds
         except ValueError:
-          pass
+          value = "!%s" % value
       headers[self.hdr_name(name)] = value
     self.last_c = in_headers
     if refs:
@@ -168,7 +172,7 @@ class Processor(BaseProcessor):
           try:
             out_headers[expanded_name] = format_date(int(headers[name], 16))
           except ValueError:
-            out_headers[expanded_name] = headers[name]
+            out_headers[expanded_name] = headers[name][1:]
         else:
           out_headers[expanded_name] = headers[name]
     if headers.has_key('ref') and self.last_d:
-- 
2.43.0


From 340c1dae7ab8fa841b8e06a0df4c1a875b64ae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:03:25 +0000
Subject: [PATCH 34/64] fix: delta2_bohe: do not try to store entries larger
 than the table

---
 compressor/delta2_bohe/lrustorage.py       | 4 ++--
 compressor/delta2_bohe/spdy4_codec_impl.py | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/compressor/delta2_bohe/lrustorage.py b/compressor/delta2_bohe/lrustorage.py
index be855a0..79e2eda 100755
--- a/compressor/delta2_bohe/lrustorage.py
+++ b/compressor/delta2_bohe/lrustorage.py
@@ -35,11 +35,11 @@ class LruStorage:
   def Reserve(self, byte_size, item_count):
     if self.max_items:
       while len(self.ring) + item_count > self.max_items:
-        if not self.PopOne():
+        if not self.ring or not self.PopOne():
           return  0 # can't pop one, nothing more to do.
     if self.max_bytes:
       while self.byte_size + byte_size > self.max_bytes:
-        if not self.PopOne():
+        if not self.ring or not self.PopOne():
           return 0 # can't pop one, nothing more to do.
     return 1
 
diff --git a/compressor/delta2_bohe/spdy4_codec_impl.py b/compressor/delta2_bohe/spdy4_codec_impl.py
index 7eb9925..d8cc242 100755
--- a/compressor/delta2_bohe/spdy4_codec_impl.py
+++ b/compressor/delta2_bohe/spdy4_codec_impl.py
@@ -657,7 +657,8 @@ class Storage(object):
     return self.lru_storage.Lookup(entry_seqnum)
 
   def InsertVal(self, entry):
-    self.lru_storage.Reserve(entry.ByteSize(), 1)
+    if not self.lru_storage.Reserve(entry.ByteSize(), 1):
+      return None # too large to be stored
     self.lru_storage.Store(entry)
     return self.lru_storage.ring[-1].seq_num
 
@@ -932,7 +933,8 @@ class Spdy4CoDe(object):
       # kvsto - store key,value
       #print "\t\t!!! %s %s %s" % (opcode, op['key'], op['val'])
       v_idx = self.storage.InsertVal(lrustorage.KV(op['key'], op['val']))
-      self.TouchHeaderGroupEntry(group_id, v_idx)
+      if v_idx is not None:
+        self.TouchHeaderGroupEntry(group_id, v_idx)
     elif opcode == 'eref' and ephemereal_headers is not None:
       ephemereal_headers[op['key']] = op['val']
 
-- 
2.43.0


From 204d232984516e30e0df2648020b0f949664402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:51 +0000
Subject: [PATCH 35/64] fix: hyper_hpack: decompress returns a dictionary

---
 compressor/hyper_hpack/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/hyper_hpack/__init__.py b/compressor/hyper_hpack/__init__.py
index bf314f5..b49788f 100644
--- a/compressor/hyper_hpack/__init__.py
+++ b/compressor/hyper_hpack/__init__.py
@@ -14,4 +14,4 @@ class Processor(BaseProcessor):
     return self.compressor.encode(headers)
 
   def decompress(self, compressed):
-    return self.decompressor.decode(compressed)
\ No newline at end of file
+    return dict(self.decompressor.decode(compressed))
\ No newline at end of file
-- 
2.43.0


From bfc911ce484feb43d4fd0ba10aafc655cd0829ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:07 +0000
Subject: [PATCH 36/64] fix: http1: a response may carry a Host header too

---
 compressor/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/__init__.py b/compressor/__init__.py
index 0cc3f4f..7846068 100644
--- a/compressor/__init__.py
+++ b/compressor/__init__.py
@@ -101,11 +101,11 @@ def parse_http1(message, is_request, host='host'):
     out[':method'] = top_line[0]
     out[':path'] = top_line[1]
     out[':version'] = top_line[2].strip()
-    if host in out:
-      out[':host'] = out[host]
-      del out[host]
   else:
     out[':version'] = top_line[0]
     out[':status'] = top_line[1]
     out[':status-text'] = top_line[2].strip()
+  if host in out:
+    out[':host'] = out[host]
+    del out[host]
   return out
-- 
2.43.0


From 46ec6fa4bdaaf4abef6f1228966f9f8ec779d6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 37/64] fix: huffman.h: free the trees that are too deep

---
 compressor/delta/huffman.h      | 4 +++-
 compressor/delta_bohe/huffman.h | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/huffman.h b/compressor/delta/huffman.h
index 5bd71e8..73fa7a7 100644
--- a/compressor/delta/huffman.h
+++ b/compressor/delta/huffman.h
@@ -458,7 +458,9 @@ class Huffman {
     DeleteCodeTree();
     for (uint32_t divisor = 1;
          BuildCodeTree(freq_table, divisor) > 32;
-         divisor *= 2){}
+         divisor *= 2) {
+      DeleteCodeTree();
+    }
     // And now that we know that all the codes are <= 32 bits long...
     BuildCodeTable();
   }
diff --git a/compressor/delta_bohe/huffman.h b/compressor/delta_bohe/huffman.h
index bb3bde6..842d6a7 100644
--- a/compressor/delta_bohe/huffman.h
+++ b/compressor/delta_bohe/huffman.h
@@ -457,7 +457,9 @@ class Huffman {
     DeleteCodeTree();
     for (uint32_t divisor = 1;
          BuildCodeTree(freq_table, divisor) > 32;
-         divisor *= 2){}
+         divisor *= 2) {
+      DeleteCodeTree();
+    }
     // And now that we know that all the codes are <= 32 bits long...
     BuildCodeTable();
   }
-- 
2.43.0


From e36ee470611cde2b8c6a820aa2fcb7123fb433df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 38/64] fix: huffman.h: a second Init replaces the decode
 tables

---
 compressor/delta/huffman.h      | 2 ++
 compressor/delta_bohe/huffman.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/compressor/delta/huffman.h b/compressor/delta/huffman.h
index 73fa7a7..1fecf64 100644
--- a/compressor/delta/huffman.h
+++ b/compressor/delta/huffman.h
@@ -419,6 +419,8 @@ class Huffman {
     }
     sort(sorted_by_code.begin(), sorted_by_code.end());
 
+    branches.clear();
+    decode_table.clear();
     BuildDecodeHelper(sorted_by_code, &decode_table, &branches,
                       0, sorted_by_code.size(),
                       0, lookup_bits);
diff --git a/compressor/delta_bohe/huffman.h b/compressor/delta_bohe/huffman.h
index 842d6a7..e8bc29d 100644
--- a/compressor/delta_bohe/huffman.h
+++ b/compressor/delta_bohe/huffman.h
@@ -418,6 +418,8 @@ class Huffman {
     }
     sort(sorted_by_code.begin(), sorted_by_code.end());
 
+    branches.clear();
+    decode_table.clear();
     BuildDecodeHelper(sorted_by_code, &decode_table, &branches,
                       0, sorted_by_code.size(),
                       0, lookup_bits);
-- 
2.43.0


From dce13509255105de8cc94f4ba4bb8f5918f6bc50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 39/64] fix: spdy4_headers_sample: SPDY/3 frame length counted
 its own field

---
 compressor/delta/spdy4_headers_sample.cc      | 3 ++-
 compressor/delta_bohe/spdy4_headers_sample.cc | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/spdy4_headers_sample.cc b/compressor/delta/spdy4_headers_sample.cc
index 78ed549..121aaf8 100644
--- a/compressor/delta/spdy4_headers_sample.cc
+++ b/compressor/delta/spdy4_headers_sample.cc
@@ -248,7 +248,8 @@ class SPDY3Formatter {
     FormatHeaderBlock(&to_be_compressed, frame);
     Compress(out, to_be_compressed);
     to_be_compressed.clear();
-    OverwriteInt24(out, length_pin, out->size() - length_pin);
+    // the length is that of what follows the (three bytes long) length.
+    OverwriteInt24(out, length_pin, out->size() - (length_pin + 3));
   }
 };
 
diff --git a/compressor/delta_bohe/spdy4_headers_sample.cc b/compressor/delta_bohe/spdy4_headers_sample.cc
index eda6632..1972b9d 100644
--- a/compressor/delta_bohe/spdy4_headers_sample.cc
+++ b/compressor/delta_bohe/spdy4_headers_sample.cc
@@ -248,7 +248,8 @@ class SPDY3Formatter {
     FormatHeaderBlock(&to_be_compressed, frame);
     Compress(out, to_be_compressed);
     to_be_compressed.clear();
-    OverwriteInt24(out, length_pin, out->size() - length_pin);
+    // the length is that of what follows the (three bytes long) length.
+    OverwriteInt24(out, length_pin, out->size() - (length_pin + 3));
   }
 };
 
-- 
2.43.0


From 59cef3723f02b5887f04db21055d707b4f4cd00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:37 +0000
Subject: [PATCH 40/64] fix: spdy4_headers_sample: free the deflate state

---
 compressor/delta/spdy4_headers_sample.cc      | 4 ++++
 compressor/delta_bohe/spdy4_headers_sample.cc | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/compressor/delta/spdy4_headers_sample.cc b/compressor/delta/spdy4_headers_sample.cc
index 121aaf8..8124c2d 100644
--- a/compressor/delta/spdy4_headers_sample.cc
+++ b/compressor/delta/spdy4_headers_sample.cc
@@ -150,6 +150,10 @@ class SPDY3Formatter {
     InitHeaderCompressor();
   }
 
+  ~SPDY3Formatter() {
+    deflateEnd(header_compressor_.get());
+  }
+
   void ResizeOutput(vector<char>* out, size_t required_extra_capacity) {
     out->resize(out->size() + required_extra_capacity);
   }
diff --git a/compressor/delta_bohe/spdy4_headers_sample.cc b/compressor/delta_bohe/spdy4_headers_sample.cc
index 1972b9d..915ec24 100644
--- a/compressor/delta_bohe/spdy4_headers_sample.cc
+++ b/compressor/delta_bohe/spdy4_headers_sample.cc
@@ -150,6 +150,10 @@ class SPDY3Formatter {
     InitHeaderCompressor();
   }
 
+  ~SPDY3Formatter() {
+    deflateEnd(header_compressor_.get());
+  }
+
   void ResizeOutput(vector<char>* out, size_t required_extra_capacity) {
     out->resize(out->size() + required_extra_capacity);
   }
-- 
2.43.0


From 162973eb5964026d915673ca2861e2fe148efac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:10 +0000
Subject: [PATCH 41/64] fix: delta_bohe: encoding a string took time quadratic
 in its length

---
 compressor/delta_bohe/huffman.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/compressor/delta_bohe/huffman.py b/compressor/delta_bohe/huffman.py
index 1c57815..eb41c9d 100644
--- a/compressor/delta_bohe/huffman.py
+++ b/compressor/delta_bohe/huffman.py
@@ -106,11 +106,7 @@ class Huffman(object):
     'include_eof' is true, then an EFO will also be encoded at the end.
     """
     for c in text:
-      prelen = bb.GetAllBits()[1]
-      prestr = str(bb)
       bb.StoreBits(self.code_table[c])
-      if bb.GetAllBits()[1] == prelen:
-        raise StandardError()
     if include_eof:
       bb.StoreBits(self.code_table[256])
 
-- 
2.43.0


From 19bd455664f02998a5998e5474a835f6ceb2d7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:10 +0000
Subject: [PATCH 42/64] fix: delta2_bohe: find the oldest entry and older
 values of a name

The search never looked at index 0 and compared the newest value only, so
date, the first of the static table, was sent as an unknown name.
---
 compressor/delta2_bohe/lrustorage.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/compressor/delta2_bohe/lrustorage.py b/compressor/delta2_bohe/lrustorage.py
index 79e2eda..5aa6dc9 100755
--- a/compressor/delta2_bohe/lrustorage.py
+++ b/compressor/delta2_bohe/lrustorage.py
@@ -88,16 +88,14 @@ class LruStorage:
     # Looks for key/vals starting from the last entry
     ke = None
     ve = None
-    for i in xrange(len(self.ring)-1, 0, -1):
+    for i in xrange(len(self.ring)-1, -1, -1):
       entry = self.ring[i]
       if entry.key == key:
-        ke = entry
-        for j in xrange(i, 0, -1):
-          entry = self.ring[i]
-          if entry.val == val:
-            ve = entry
-            break
-        break
+        if ke is None:
+          ke = entry
+        if entry.val == val:
+          ve = entry
+          break
     return (ke, ve)
 
   def __len__(self):
-- 
2.43.0


From 288848273d346b13b2bddd7219ab9f536407940b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:39 +0000
Subject: [PATCH 43/64] fix: delta2_bohe: turn entries off before evictions
 remove them

An evicted entry was not toggled off when the message did not have it, and
not toggled on again when it had: both looked the same to a receiver.
---
 compressor/delta2_bohe/spdy4_codec_impl.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/compressor/delta2_bohe/spdy4_codec_impl.py b/compressor/delta2_bohe/spdy4_codec_impl.py
index d8cc242..7ba391a 100755
--- a/compressor/delta2_bohe/spdy4_codec_impl.py
+++ b/compressor/delta2_bohe/spdy4_codec_impl.py
@@ -863,13 +863,12 @@ class Spdy4CoDe(object):
       else:
         self.ProcessKV(k, bohe.encode(k,v,self.is_request), group_id, instructions)
 
-    #print "EXECUTING NON-TURNOFFS"
-    self.ExecuteInstructionsExceptERefs(group_id, instructions)
-    #print "COMPUTING TURNOFFS"
+    # what is turned off has to be known before entries are evicted, as the
+    # receiver takes the message from what the toggles leave in the group.
     turn_offs = self.DiscoverTurnOffs(group_id, instructions)
-    for op in turn_offs:
-      self.ExecuteOp(group_id, op)
     instructions['toggl'].extend(turn_offs)
+    self.ExecuteInstructionsExceptERefs(group_id, instructions)
+    self.FindOrMakeHeaderGroup(group_id)  # evictions may have emptied it
     #print "DONE COMPUTING INSTRUCTIONS"
     #print FormatOps(instructions)
     #print "LRU(after Make+Execute) ", self.storage.lru_storage
-- 
2.43.0


From e7cfd77577b2810046178c1db72ef3df3f6984c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:39 +0000
Subject: [PATCH 44/64] fix: delta_bohe: forget names that lost their last
 value while in use

Their reference count kept them in the table for good.
---
 compressor/delta_bohe/spdy4_codec_impl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compressor/delta_bohe/spdy4_codec_impl.py b/compressor/delta_bohe/spdy4_codec_impl.py
index 5e8eb95..026bcde 100755
--- a/compressor/delta_bohe/spdy4_codec_impl.py
+++ b/compressor/delta_bohe/spdy4_codec_impl.py
@@ -950,6 +950,7 @@ class Spdy4CoDe(object):
 
     for ke in incremented_keys:
       self.storage.DecrementRefCnt(ke)
+      self.storage.MaybeRemoveFromKeyMap(ke)
     # SerializeInstructions()
     self.storage.UnPinLRU()
     self.header_groups[group_id].IncrementGeneration()
-- 
2.43.0


From d765a2f5da846eea9a3c02639b43358245db61e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:39 +0000
Subject: [PATCH 45/64] fix: delta_bohe, delta2_bohe: send equal cookie crumbs
 once

The second one raised StandardError, or toggled the first off again.
---
 compressor/delta2_bohe/spdy4_codec_impl.py | 6 +++++-
 compressor/delta_bohe/spdy4_codec_impl.py  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/compressor/delta2_bohe/spdy4_codec_impl.py b/compressor/delta2_bohe/spdy4_codec_impl.py
index 7ba391a..026efa1 100755
--- a/compressor/delta2_bohe/spdy4_codec_impl.py
+++ b/compressor/delta2_bohe/spdy4_codec_impl.py
@@ -858,8 +858,12 @@ class Spdy4CoDe(object):
       if k == 'cookie':
         splitvals = [x.lstrip(' ') for x in v.split(';')]
         splitvals.sort()
+        encoded = []
         for splitval in splitvals:
-          self.ProcessKV(k, bohe.encode(k,splitval,self.is_request), group_id, instructions)
+          val = bohe.encode(k,splitval,self.is_request)
+          if val not in encoded:  # an entry is in a header group once at most
+            encoded.append(val)
+            self.ProcessKV(k, val, group_id, instructions)
       else:
         self.ProcessKV(k, bohe.encode(k,v,self.is_request), group_id, instructions)
 
diff --git a/compressor/delta_bohe/spdy4_codec_impl.py b/compressor/delta_bohe/spdy4_codec_impl.py
index 026bcde..f28bbfd 100755
--- a/compressor/delta_bohe/spdy4_codec_impl.py
+++ b/compressor/delta_bohe/spdy4_codec_impl.py
@@ -939,8 +939,12 @@ class Spdy4CoDe(object):
       if k == 'cookie':
         splitvals = [x.lstrip(' ') for x in v.split(';')]
         splitvals.sort()
+        encoded = []
         for splitval in splitvals:
-          self.ProcessKV(k, bohe.encode(k,splitval), group_id, instructions)
+          val = bohe.encode(k,splitval)
+          if val not in encoded:  # an entry is in a header group once at most
+            encoded.append(val)
+            self.ProcessKV(k, val, group_id, instructions)
       else:
         self.ProcessKV(k, bohe.encode(k,v), group_id, instructions)
 
-- 
2.43.0


From 7397e5a1776e821951a333c00bb9ca9a55f76af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:39 +0000
Subject: [PATCH 46/64] fix: delta_bohe, delta2_bohe: names of typed headers
 had no end

Only their values are in a binary encoding; the names are strings.
---
 compressor/delta2_bohe/spdy4_codec_impl.py | 8 +++++---
 compressor/delta_bohe/spdy4_codec_impl.py  | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/compressor/delta2_bohe/spdy4_codec_impl.py b/compressor/delta2_bohe/spdy4_codec_impl.py
index 026efa1..a296274 100755
--- a/compressor/delta2_bohe/spdy4_codec_impl.py
+++ b/compressor/delta2_bohe/spdy4_codec_impl.py
@@ -440,9 +440,11 @@ class Spdy4SeDer(object):  # serializer deserializer
     A helper function for OutputOps which does the packing for
     the operation's fields.
     """
-    # turn off huffman coding for this operation.. we're using a binary encoded value
+    # turn off huffman coding for the value of this operation.. we're using a
+    # binary encoded value
+    val_huff = huff
     if 'huff' in op and not op['huff']:
-      huff = None
+      val_huff = None
     for field_name in packing_order:
       if not field_name in op:
         continue
@@ -451,7 +453,7 @@ class Spdy4SeDer(object):  # serializer deserializer
       (params, pack_fn, _) = packing_instructions[field_name]
       val = op[field_name]
       try:
-        pack_fn(data, params, val, huff)
+        pack_fn(data, params, val, val_huff if field_name == 'val' else huff)
       except:
         print field_name, data, params, val
         raise
diff --git a/compressor/delta_bohe/spdy4_codec_impl.py b/compressor/delta_bohe/spdy4_codec_impl.py
index f28bbfd..fbb080b 100755
--- a/compressor/delta_bohe/spdy4_codec_impl.py
+++ b/compressor/delta_bohe/spdy4_codec_impl.py
@@ -365,9 +365,11 @@ class Spdy4SeDer(object):  # serializer deserializer
     A helper function for OutputOps which does the packing for
     the operation's fields.
     """
-    # turn off huffman coding for this operation.. we're using a binary encoded value
+    # turn off huffman coding for the value of this operation.. we're using a
+    # binary encoded value
+    val_huff = huff
     if 'huff' in op and not op['huff']:
-      huff = None
+      val_huff = None
     for field_name in packing_order:
       if not field_name in op:
         continue
@@ -375,7 +377,7 @@ class Spdy4SeDer(object):  # serializer deserializer
         continue
       (params, pack_fn, _) = packing_instructions[field_name]
       val = op[field_name]
-      pack_fn(data, params, val, huff)
+      pack_fn(data, params, val, val_huff if field_name == 'val' else huff)
 
   def WriteControlFrameStreamId(self, data, stream_id):
     if (stream_id & 0x80000000):
-- 
2.43.0


From 919dd1c5efacc85444b9dea3e4f570b88b861207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:39 +0000
Subject: [PATCH 47/64] fix: delta2_bohe: keep header group ids within their
 byte

---
 compressor/delta2_bohe/__init__.py     | 2 +-
 compressor/delta2_bohe/common_utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta2_bohe/__init__.py b/compressor/delta2_bohe/__init__.py
index 9510e2c..179839e 100644
--- a/compressor/delta2_bohe/__init__.py
+++ b/compressor/delta2_bohe/__init__.py
@@ -29,7 +29,7 @@ class Processor(BaseProcessor):
     self.decompressor = spdy4_codec_impl.Spdy4CoDe()
     self.options = options
     self.hosts = {}
-    self.group_ids = common_utils.IDStore(2**31)
+    self.group_ids = common_utils.IDStore(255)
     self.wf = self.compressor.wf
     self.name = "delta2_bohe"
     if is_request:
diff --git a/compressor/delta2_bohe/common_utils.py b/compressor/delta2_bohe/common_utils.py
index 8b35243..c222be4 100644
--- a/compressor/delta2_bohe/common_utils.py
+++ b/compressor/delta2_bohe/common_utils.py
@@ -57,7 +57,7 @@ class IDStore(object):
   def __init__(self, max_id):
     self.ids = set()
     self.next_idx = 0
-    self.mininum_id = 0
+    self.minimum_id = 0
     self.maximum_id = max_id
     if self.maximum_id is None:
       print "need a max id"
-- 
2.43.0


From 19a8d6d7ba4220d3e719cc6ee968b6c0e49cb0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:39 +0000
Subject: [PATCH 48/64] fix: delta2_bohe: encode responses as responses

The encoders were always told to encode a request, s-maxage was dropped.
---
 compressor/delta2_bohe/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/delta2_bohe/__init__.py b/compressor/delta2_bohe/__init__.py
index 179839e..fa35d7f 100644
--- a/compressor/delta2_bohe/__init__.py
+++ b/compressor/delta2_bohe/__init__.py
@@ -24,10 +24,10 @@ class Processor(BaseProcessor):
   can eventually be constructed for use with the Huffman encoder.
   """
   def __init__(self, options, is_request, params):
+    BaseProcessor.__init__(self, options, is_request, params)
     # 'params' is ignored
-    self.compressor   = spdy4_codec_impl.Spdy4CoDe()
-    self.decompressor = spdy4_codec_impl.Spdy4CoDe()
-    self.options = options
+    self.compressor   = spdy4_codec_impl.Spdy4CoDe(is_request)
+    self.decompressor = spdy4_codec_impl.Spdy4CoDe(is_request)
     self.hosts = {}
     self.group_ids = common_utils.IDStore(255)
     self.wf = self.compressor.wf
-- 
2.43.0


From dfba0a7ddeb12a3dc908847cf2cf485c5f65e097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:55 +0000
Subject: [PATCH 49/64] fix: keep what follows a NUL in the output of the HAR
 translator

---
 compressor/delta/spdy4_headers_sample.cc      | 5 ++---
 compressor/delta_bohe/spdy4_headers_sample.cc | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/compressor/delta/spdy4_headers_sample.cc b/compressor/delta/spdy4_headers_sample.cc
index 8124c2d..cb69125 100644
--- a/compressor/delta/spdy4_headers_sample.cc
+++ b/compressor/delta/spdy4_headers_sample.cc
@@ -58,15 +58,14 @@ int ParseHarFiles(int n_files, char** files,
   stringstream input;
   char buf[256];
   ssize_t bytes_read = 0;
-  while ((bytes_read = read(pipe_fds[0], &buf, sizeof(buf)-1))) {
+  while ((bytes_read = read(pipe_fds[0], &buf, sizeof(buf)))) {
     if (bytes_read < 0) {
       if (errno == EINTR) {
         continue;
       }
       break;
     } else {
-      buf[bytes_read] = 0;
-      input << buf;
+      input.write(buf, bytes_read);
     }
   }
   if (!TrivialHTTPParse::ParseStream(input, requests, responses)) {
diff --git a/compressor/delta_bohe/spdy4_headers_sample.cc b/compressor/delta_bohe/spdy4_headers_sample.cc
index 915ec24..4859605 100644
--- a/compressor/delta_bohe/spdy4_headers_sample.cc
+++ b/compressor/delta_bohe/spdy4_headers_sample.cc
@@ -58,15 +58,14 @@ int ParseHarFiles(int n_files, char** files,
   stringstream input;
   char buf[256];
   ssize_t bytes_read = 0;
-  while ((bytes_read = read(pipe_fds[0], &buf, sizeof(buf)-1))) {
+  while ((bytes_read = read(pipe_fds[0], &buf, sizeof(buf)))) {
     if (bytes_read < 0) {
       if (errno == EINTR) {
         continue;
       }
       break;
     } else {
-      buf[bytes_read] = 0;
-      input << buf;
+      input.write(buf, bytes_read);
     }
   }
   if (!TrivialHTTPParse::ParseStream(input, requests, responses)) {
-- 
2.43.0


From 88ca11e52e4ca2f6c72ef9f7218b303afeca6b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:30 +0000
Subject: [PATCH 50/64] fix: encode P3P without a CP value and with unknown
 suffixes

---
 compressor/bohe/bohe.py        | 5 +++--
 compressor/delta2_bohe/bohe.py | 5 +++--
 compressor/delta_bohe/bohe.py  | 5 +++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/compressor/bohe/bohe.py b/compressor/bohe/bohe.py
index 2d0bbd9..8a1b4b2 100644
--- a/compressor/bohe/bohe.py
+++ b/compressor/bohe/bohe.py
@@ -197,11 +197,12 @@ def enc_p3p(val, type='req'):
   else:
     _v += enc_uvarint(0)
   cp = ''
-  if 'CP' in val:
+  if val.get('CP'):
     tokens = val['CP'].split(' ')
     for token in tokens:
       # check for the fake P3P profiles like google produces... will ignore those nil values for now
-      if not token[:3] in p3p_table:
+      if not token[:3] in p3p_table \
+      or (len(token) == 4 and not token[-1] in 'aio'):
         cp = '' 
         break
       q = (p3p_table.index(token[:3])+1) << 2
diff --git a/compressor/delta2_bohe/bohe.py b/compressor/delta2_bohe/bohe.py
index 2ab1698..f0af6a5 100644
--- a/compressor/delta2_bohe/bohe.py
+++ b/compressor/delta2_bohe/bohe.py
@@ -256,11 +256,12 @@ class P3PEncoder(BaseEncoder):
     else:
       _v += self.enc_uvarint(0)
     cp = ''
-    if 'CP' in val:
+    if val.get('CP'):
       tokens = val['CP'].split(' ')
       for token in tokens:
         # check for the fake P3P profiles like google produces... will ignore those nil values for now
-        if not token[:3] in self.p3p_table:
+        if not token[:3] in self.p3p_table \
+        or (len(token) == 4 and not token[-1] in 'aio'):
           cp = '' 
           break
         q = (self.p3p_table.index(token[:3])+1) << 2
diff --git a/compressor/delta_bohe/bohe.py b/compressor/delta_bohe/bohe.py
index 76a24d1..a07bbce 100644
--- a/compressor/delta_bohe/bohe.py
+++ b/compressor/delta_bohe/bohe.py
@@ -197,11 +197,12 @@ def enc_p3p(val, type='req'):
   else:
     _v += enc_uvarint(0)
   cp = ''
-  if 'CP' in val:
+  if val.get('CP'):
     tokens = val['CP'].split(' ')
     for token in tokens:
       # check for the fake P3P profiles like google produces... will ignore those nil values for now
-      if not token[:3] in p3p_table:
+      if not token[:3] in p3p_table \
+      or (len(token) == 4 and not token[-1] in 'aio'):
         cp = '' 
         break
       q = (p3p_table.index(token[:3])+1) << 2
-- 
2.43.0


From c8c8eefadb39bc6cced207b55c62be953df57abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:30 +0000
Subject: [PATCH 51/64] fix: encode Set-Cookie names that the cookie parser
 refuses

---
 compressor/bohe/bohe.py        | 10 ++++++++--
 compressor/delta2_bohe/bohe.py | 10 ++++++++--
 compressor/delta_bohe/bohe.py  | 10 ++++++++--
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/compressor/bohe/bohe.py b/compressor/bohe/bohe.py
index 8a1b4b2..35ce752 100644
--- a/compressor/bohe/bohe.py
+++ b/compressor/bohe/bohe.py
@@ -3,7 +3,7 @@ Provides binary encoders for various http header value types
 """
 
 from datetime import datetime
-from Cookie import BaseCookie
+from Cookie import BaseCookie, CookieError
 from werkzeug import http
 import sys
 import struct
@@ -59,7 +59,13 @@ def enc_setcookie(val, typ='req'):
       encoded += '\x00';
     v = v.replace(']','_') # work around parsing bug for some cookie values
     v = v.replace('[','_')
-    cookie = BaseCookie(v)
+    try:
+      cookie = BaseCookie(v)
+    except CookieError:
+      # names which the parser reads but does not take
+      v = re.sub(r"""(?:(?<![^\s;"])=+)?[^\s;="]*(?=\s*=)""",
+                 lambda m: re.sub(r"[^\w!#%&'*+.^`|~-]", '_', m.group(0)), v)
+      cookie = BaseCookie(v)
     for n in cookie:
       morsel = cookie[n]
       encoded += '.' #TODO non-op... represent the bit flags.. add these in later
diff --git a/compressor/delta2_bohe/bohe.py b/compressor/delta2_bohe/bohe.py
index f0af6a5..fb4535f 100644
--- a/compressor/delta2_bohe/bohe.py
+++ b/compressor/delta2_bohe/bohe.py
@@ -3,7 +3,7 @@ Provides binary encoders for various http header value types
 """
 
 from datetime import datetime
-from Cookie import BaseCookie
+from Cookie import BaseCookie, CookieError
 from werkzeug import http
 import sys
 import struct
@@ -96,7 +96,13 @@ class SetCookieEncoder(BaseEncoder):
         encoded += '\x00';
       v = v.replace(']','_') # work around parsing bug for some cookie values
       v = v.replace('[','_')
-      cookie = BaseCookie(v)
+      try:
+        cookie = BaseCookie(v)
+      except CookieError:
+        # names which the parser reads but does not take
+        v = re.sub(r"""(?:(?<![^\s;"])=+)?[^\s;="]*(?=\s*=)""",
+                   lambda m: re.sub(r"[^\w!#%&'*+.^`|~-]", '_', m.group(0)), v)
+        cookie = BaseCookie(v)
       for n in cookie:
         morsel = cookie[n]
         encoded += '.' #TODO non-op... represent the bit flags.. add these in later
diff --git a/compressor/delta_bohe/bohe.py b/compressor/delta_bohe/bohe.py
index a07bbce..f65b6a1 100644
--- a/compressor/delta_bohe/bohe.py
+++ b/compressor/delta_bohe/bohe.py
@@ -3,7 +3,7 @@ Provides binary encoders for various http header value types
 """
 
 from datetime import datetime
-from Cookie import BaseCookie
+from Cookie import BaseCookie, CookieError
 from werkzeug import http
 import sys
 import struct
@@ -59,7 +59,13 @@ def enc_setcookie(val, typ='req'):
       encoded += '\x00';
     v = v.replace(']','_') # work around parsing bug for some cookie values
     v = v.replace('[','_')
-    cookie = BaseCookie(v)
+    try:
+      cookie = BaseCookie(v)
+    except CookieError:
+      # names which the parser reads but does not take
+      v = re.sub(r"""(?:(?<![^\s;"])=+)?[^\s;="]*(?=\s*=)""",
+                 lambda m: re.sub(r"[^\w!#%&'*+.^`|~-]", '_', m.group(0)), v)
+      cookie = BaseCookie(v)
     for n in cookie:
       morsel = cookie[n]
       encoded += '.' #TODO non-op... represent the bit flags.. add these in later
-- 
2.43.0


From ff12e6c7348ff2d0f74cc8d079554b82f71c9421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:30 +0000
Subject: [PATCH 52/64] fix: encode a numeric header whose value is no number
 as 0

---
 compressor/bohe/bohe.py        | 6 +++++-
 compressor/delta2_bohe/bohe.py | 6 +++++-
 compressor/delta_bohe/bohe.py  | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/compressor/bohe/bohe.py b/compressor/bohe/bohe.py
index 35ce752..34175fa 100644
--- a/compressor/bohe/bohe.py
+++ b/compressor/bohe/bohe.py
@@ -42,7 +42,11 @@ def enc_uvarint(val, typ='req'):
   v = ''
   for val in vals:
     # TODO: Determine best encoding for multiple null separated values...
-    val = max(0,int(val))  # TODO: should this be long?
+    try:
+      val = max(0,int(val))  # TODO: should this be long?
+    except ValueError:
+      # not a number... just set to 0 and move on, as for dates
+      val = 0
     shift = True
     while shift:
       shift = val >> 7
diff --git a/compressor/delta2_bohe/bohe.py b/compressor/delta2_bohe/bohe.py
index fb4535f..f500e99 100644
--- a/compressor/delta2_bohe/bohe.py
+++ b/compressor/delta2_bohe/bohe.py
@@ -41,7 +41,11 @@ class BaseEncoder(object):
     v = ''
     for val in vals:
       # TODO: Determine best encoding for multiple null separated values...
-      val = max(0,int(val))  # TODO: should this be long?
+      try:
+        val = max(0,int(val))  # TODO: should this be long?
+      except ValueError:
+        # not a number... just set to 0 and move on, as for dates
+        val = 0
       shift = True
       while shift:
         shift = val >> 7
diff --git a/compressor/delta_bohe/bohe.py b/compressor/delta_bohe/bohe.py
index f65b6a1..f0a1ae3 100644
--- a/compressor/delta_bohe/bohe.py
+++ b/compressor/delta_bohe/bohe.py
@@ -42,7 +42,11 @@ def enc_uvarint(val, typ='req'):
   v = ''
   for val in vals:
     # TODO: Determine best encoding for multiple null separated values...
-    val = max(0,int(val))  # TODO: should this be long?
+    try:
+      val = max(0,int(val))  # TODO: should this be long?
+    except ValueError:
+      # not a number... just set to 0 and move on, as for dates
+      val = 0
     shift = True
     while shift:
       shift = val >> 7
-- 
2.43.0


From d0336739c92852ac62827df1f4860678c09ec888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:06 +0000
Subject: [PATCH 53/64] fix: http1: read a response without a status text

---
 compressor/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/__init__.py b/compressor/__init__.py
index 7846068..cd1c920 100644
--- a/compressor/__init__.py
+++ b/compressor/__init__.py
@@ -104,7 +104,7 @@ def parse_http1(message, is_request, host='host'):
   else:
     out[':version'] = top_line[0]
     out[':status'] = top_line[1]
-    out[':status-text'] = top_line[2].strip()
+    out[':status-text'] = ''.join(top_line[2:]).strip()
   if host in out:
     out[':host'] = out[host]
     del out[host]
-- 
2.43.0


From 6fabdcb1135ce0bb63d90831ddb59d8e53b4f815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:41 +0000
Subject: [PATCH 54/64] fix: display_tsv.html: draw tables of a single codec

The stream labels were taken from the second codec of the table.
---
 display_tsv.html | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/display_tsv.html b/display_tsv.html
index a9a8212..c03de75 100644
--- a/display_tsv.html
+++ b/display_tsv.html
@@ -131,7 +131,7 @@ function display_tsv(filename, title) {
 
     // stream labels
     var lastLabel = null;
-    var streamLabels = items[1].values.forEach( function(i) {
+    var streamLabels = items[0].values.forEach( function(i) {
       if (lastLabel != i.stream) {
         svg.append("g")
           .attr("class", "note")
-- 
2.43.0


From a2ca5a59c94472e112bf5100b4de96fa1dfc96d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:41 +0000
Subject: [PATCH 55/64] fix: HAR files without HTTP messages ended the tool
 with an error

---
 compare_compressors.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/compare_compressors.py b/compare_compressors.py
index 8742ceb..25f8c5e 100755
--- a/compare_compressors.py
+++ b/compare_compressors.py
@@ -48,7 +48,10 @@ class CompressionTester(object):
     for filename in self.args:
       har_requests, har_responses = read_har_file(filename)
       messages = list(zip(har_requests, har_responses))
-      sessions.extend(self.streamify(messages))
+      # a file without HTTP messages has nothing to compare
+      sessions.extend([s for s in self.streamify(messages) if s.messages])
+    if not sessions:
+      return
     for session in sessions:
       if self.options.verbose > 0:
         session.print_header(self.output)
-- 
2.43.0


From 45efcd1a761063a044a73cfcaafd28dba06ec3f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:41 +0000
Subject: [PATCH 56/64] fix: ParseFile reported success for text it refused

---
 compressor/delta/trivial_http_parse.h      | 3 +--
 compressor/delta_bohe/trivial_http_parse.h | 3 +--
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/compressor/delta/trivial_http_parse.h b/compressor/delta/trivial_http_parse.h
index abc5a03..187c143 100644
--- a/compressor/delta/trivial_http_parse.h
+++ b/compressor/delta/trivial_http_parse.h
@@ -51,8 +51,7 @@ class TrivialHTTPParse {
                 vector<HeaderFrame>* requests,
                 vector<HeaderFrame>* responses) {
     ifstream ifs(fn.c_str());
-    ParseStream(ifs, requests, responses);
-    return 1;
+    return ParseStream(ifs, requests, responses);
   }
   static int ParseStream(istream& istrm,
                 vector<HeaderFrame>* requests,
diff --git a/compressor/delta_bohe/trivial_http_parse.h b/compressor/delta_bohe/trivial_http_parse.h
index abc5a03..187c143 100644
--- a/compressor/delta_bohe/trivial_http_parse.h
+++ b/compressor/delta_bohe/trivial_http_parse.h
@@ -51,8 +51,7 @@ class TrivialHTTPParse {
                 vector<HeaderFrame>* requests,
                 vector<HeaderFrame>* responses) {
     ifstream ifs(fn.c_str());
-    ParseStream(ifs, requests, responses);
-    return 1;
+    return ParseStream(ifs, requests, responses);
   }
   static int ParseStream(istream& istrm,
                 vector<HeaderFrame>* requests,
-- 
2.43.0


From 052fe7981c9fe578ff98b92e3630c6fe6349a728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:22 +0000
Subject: [PATCH 57/64] fix: delta2: frequency tables with codes longer than 32
 bits raised an error

Dividing every weight by the same number does not make the tree flatter; as in the
C++ encoder, the counts are divided as integers.
---
 compressor/delta2/huffman.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/compressor/delta2/huffman.py b/compressor/delta2/huffman.py
index efcdc2c..b8ec965 100644
--- a/compressor/delta2/huffman.py
+++ b/compressor/delta2/huffman.py
@@ -50,9 +50,10 @@ class Huffman(object):
     internals = deque()
     for elem in freq_table:
       (sym, freq) = elem
+      freq //= divisor
       if freq == 0:
         freq = 1.0/512
-      weight = freq * 1.0 / divisor
+      weight = freq * 1.0
       leaves.append( (weight, MN(sym), 0, []) )
 
     # freq_table is (symbol, count)
-- 
2.43.0


From 8cdcdfb45a6f398258c71da5676544479c54e9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:22 +0000
Subject: [PATCH 58/64] fix: delta2: build the canonical Huffman code in order
 of length

Dictionaries do not keep their keys in order when one is 32.
---
 compressor/delta2/huffman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/delta2/huffman.py b/compressor/delta2/huffman.py
index b8ec965..c6da7b2 100644
--- a/compressor/delta2/huffman.py
+++ b/compressor/delta2/huffman.py
@@ -119,7 +119,7 @@ class Huffman(object):
     code = -1
     prev_code_length = 0
     canonical_code_table = {}
-    for k,v in depth_to_sym.iteritems():
+    for k,v in sorted(depth_to_sym.iteritems()):
       current_code_length = k
       #print k
       for sym in sorted(map(lambda x: x[1], v)):
-- 
2.43.0


From 0879d1e669b5fedfcb3fc45bd14ff9fcf78d8405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 59/64] fix: HAR files are UTF-8, with or without a byte order
 mark

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index ae52479..8471552 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -17,7 +17,7 @@ from urllib.parse import urlsplit
 
 def read_har_file(filename):
   "Read filename and return the header dictionaries for it."
-  fhandle = open(filename)
+  fhandle = open(filename, encoding='utf-8-sig')
   try:
     har = json.loads(fhandle.read())
   except Exception as oops:
-- 
2.43.0


From 837e53cb42daae15408508315db75df5335ea530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 60/64] fix: the login in a URL is no part of the host

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 8471552..fc98a88 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -51,7 +51,7 @@ def har2hdrs(har):
     headers[":scheme"] = url.scheme.lower()
     headers[":version"] = request["httpVersion"]
     if not ":host" in headers:
-      headers[":host"] = url.netloc
+      headers[":host"] = url.netloc.rsplit("@", 1)[-1]
     request_headers.append(headers)
 
     response = entry["response"]
-- 
2.43.0


From baa73ce6391a1ffbde460fb0ea7937bc0b4081f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 61/64] fix: fields named by a second Connection field are
 hop-by-hop as well

---
 lib/processors.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/processors.py b/lib/processors.py
index 9384f92..915fa3e 100755
--- a/lib/processors.py
+++ b/lib/processors.py
@@ -87,7 +87,9 @@ class Processors(object):
     new_hdrs = {}
     ignore_hdrs = [':status-text', ':version', 'keep-alive', 'connection']
     if 'connection' in hdrs:
-      ignore_hdrs.extend([x.strip(' ').lower() for x in hdrs['connection'].split(',')])
+      # of a repeated field, the values are joined by NUL
+      ignore_hdrs.extend([x.strip(' \t').lower() for x in
+                          hdrs['connection'].replace('\0', ',').split(',')])
 
     for k,v in hdrs.items():
       if k in ignore_hdrs:
-- 
2.43.0


From ec5e3886fc5641d8b62166150fce59139e23a5a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 62/64] fix: an IP address has no public suffix but itself

---
 lib/streamifiers/public_suffix.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/lib/streamifiers/public_suffix.py b/lib/streamifiers/public_suffix.py
index 6729789..43ffb14 100644
--- a/lib/streamifiers/public_suffix.py
+++ b/lib/streamifiers/public_suffix.py
@@ -1,6 +1,7 @@
 #!/usr/bin/env python
 
 from collections import defaultdict
+import re
 
 from . import BaseStreamifier, Stream
 
@@ -15,6 +16,13 @@ class Streamifier(BaseStreamifier):
     BaseStreamifier.__init__(self, procs)
     self.psl = PublicSuffixList()
 
+  def suffix_of(self, host):
+    "The public suffix of a host; an address has none but itself."
+    address = re.match(r"[0-9]+(\.[0-9]+){3}(?=:|$)|\[[^]]*\]", host)
+    if address:
+      return address.group()
+    return self.psl.get_public_suffix(host.split(":", 1)[0])
+
   def streamify(self, messages):
     """
     Given a list of messages (each a req, res tuple), return a list of
@@ -25,7 +33,7 @@ class Streamifier(BaseStreamifier):
     suffixes = []
     for req, res in messages:
       host = req[':host']
-      suffix = self.psl.get_public_suffix(host.split(":", 1)[0])
+      suffix = self.suffix_of(host)
       if suffix not in suffixes:
         suffixes.append(suffix)
       reqs[suffix].append((req, host))
-- 
2.43.0


From c00363c641d11f23f1bfed47607bf7e5820ed8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 63/64] fix: spdy3 ended the run on a header that is not ASCII

---
 compressor/spdy3/__init__.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/compressor/spdy3/__init__.py b/compressor/spdy3/__init__.py
index 5dc149f..d364442 100644
--- a/compressor/spdy3/__init__.py
+++ b/compressor/spdy3/__init__.py
@@ -29,21 +29,23 @@ class Processor(BaseProcessor):
     """
     out_frame = []
     frame_len = 0
-    for (key, val) in request.items():
+    pairs = [(key.encode('utf-8'), val.encode('utf-8'))
+             for (key, val) in request.items()]
+    for (key, val) in pairs:
       frame_len += 4
       frame_len += len(key)
       frame_len += 4
       frame_len += len(val)
     stream_id = 1
-    num_kv_pairs = len(list(request.keys()))
+    num_kv_pairs = len(pairs)
 #    out_frame.append(struct.pack('!L', 0x1 << 31 | 0x11 << 15 | 0x8))
 #    out_frame.append(struct.pack('!L', frame_len))
 #    out_frame.append(struct.pack('!L', stream_id))
 #    out_frame.append(struct.pack('!L', num_kv_pairs))
-    for (key, val) in request.items():
+    for (key, val) in pairs:
       out_frame.append(struct.pack('!L', len(key)))
-      out_frame.append(key.encode('ascii'))
+      out_frame.append(key)
       out_frame.append(struct.pack('!L', len(val)))
-      out_frame.append(val.encode('ascii'))
+      out_frame.append(val)
     return b''.join(out_frame)
 
-- 
2.43.0


From 7913489242ca3c97900c7aaa4ac14b006e98492d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:06 +0000
Subject: [PATCH 64/64] fix: a codec with parameters can be the baseline

---
 compare_compressors.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/compare_compressors.py b/compare_compressors.py
index 25f8c5e..7a04c79 100755
--- a/compare_compressors.py
+++ b/compare_compressors.py
@@ -39,6 +39,9 @@ class CompressionTester(object):
     self.output = output
     self.tsv_out = defaultdict(list)  # accumulator for TSV output
     self.processors = Processors(self.options, self.msg_types, output)
+    # results are known by the name of the processor, which has the parameters
+    self.options.baseline = self.processors.processors['req'][
+      self.options.processor_names.index(self.options.baseline)].name
     self.streamify = self.load_streamifier(self.options.streamifier)
     self.run()
 
-- 
2.43.0

