From 0a613ad6263877476ccad51d2fc7312fafa50c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 1/6] fix: keep the avx2 sbox+permute routine when the
 alternative sbox is enabled

The avx2 word loads streams without deinterleaving them and relies on its
own BLOCK_SBOX_PERMUTE to do it. --enable-alt-sbox replaced that macro with
the generic one, so every batch was (de)scrambled wrongly.
---
 src/dvbcsa_bs_block.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dvbcsa_bs_block.c b/src/dvbcsa_bs_block.c
index 470e299..fc935a8 100644
--- a/src/dvbcsa_bs_block.c
+++ b/src/dvbcsa_bs_block.c
@@ -89,7 +89,7 @@ static const uint16_t dvbcsa_block_sbox_perm[256] =
     0x388c, 0x1a89, 0xe166, 0x7ffd, 0xccb2, 0x5aa9, 0x9e9b, 0x09c0,
   };
 
-#ifdef DVBCSA_USE_ALT_SBOX
+#if defined(DVBCSA_USE_ALT_SBOX) && !defined(BLOCK_SBOX_PERMUTE)
 
 #define BLOCK_SBOX_PERMUTE(in_buf, out_buf) \
     { \
-- 
2.43.0


From d2182a5d15c011c809ae113bb7e88b51e79c5c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 2/6] fix: do not overflow the batch buffer on packets longer
 than 184 bytes

The packet buffer holds DVBCSA_BS_MAX_PACKET_LEN bytes per packet. A longer
packet was copied in (and back) whole, overwriting the next packets of the
batch and the stack. Only the first maxlen bytes can be processed, so load
and store no more than what fits.
---
 src/dvbcsa_bs_algo.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/dvbcsa_bs_algo.c b/src/dvbcsa_bs_algo.c
index 54ff830..84611e0 100644
--- a/src/dvbcsa_bs_algo.c
+++ b/src/dvbcsa_bs_algo.c
@@ -38,6 +38,13 @@
 #include <assert.h>
 #endif
 
+/* a packet slot can not hold more than DVBCSA_BS_MAX_PACKET_LEN bytes */
+static inline unsigned int dvbcsa_pkt_len(const struct dvbcsa_bs_batch_s *pck)
+{
+  return pck->len < DVBCSA_BS_MAX_PACKET_LEN
+    ? pck->len : DVBCSA_BS_MAX_PACKET_LEN;
+}
+
 static void dvbcsa_pkt_buf_load(struct dvbcsa_bs_pkt_buf *pkt_buf,
                                 const struct dvbcsa_bs_batch_s *pcks,
                                 unsigned int maxlen)
@@ -47,8 +54,10 @@ static void dvbcsa_pkt_buf_load(struct dvbcsa_bs_pkt_buf *pkt_buf,
 
   for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)
     {
-      pkt_buf->len8[i] = pcks[i].len & (unsigned)~0x7;
-      memcpy(block, pcks[i].data, pcks[i].len);
+      unsigned int len = dvbcsa_pkt_len(pcks + i);
+
+      pkt_buf->len8[i] = len & (unsigned)~0x7;
+      memcpy(block, pcks[i].data, len);
     }
 
   pkt_buf->n_packets = i;
@@ -62,7 +71,7 @@ static void dvbcsa_pkt_buf_store(const struct dvbcsa_bs_pkt_buf *pkt_buf,
   const dvbcsa_bs_block8_t *block = pkt_buf->data;
 
   for (i = 0; pcks[i].data; i++, block += BS_PKT_BLOCKS8)
-    memcpy(pcks[i].data, block, pcks[i].len);
+    memcpy(pcks[i].data, block, dvbcsa_pkt_len(pcks + i));
 }
 
 void dvbcsa_bs_decrypt(const struct dvbcsa_bs_key_s *key,
-- 
2.43.0


From c7d155b91a80629a9f1562048b37021bbef790a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 3/6] fix: signed overflow in 32 bits batch key schedule

kk[i] * 0x01010101 is computed as int and overflows for kk[i] >= 128.
---
 src/dvbcsa_bs_key.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dvbcsa_bs_key.c b/src/dvbcsa_bs_key.c
index e2fcf55..77d871e 100644
--- a/src/dvbcsa_bs_key.c
+++ b/src/dvbcsa_bs_key.c
@@ -46,7 +46,7 @@ dvbcsa_bs_key_set (const dvbcsa_cw_t cw, struct dvbcsa_bs_key_s *key)
   for (i = 0; i < DVBCSA_KEYSBUFF_SIZE; i++)
     {
 #if BS_BATCH_SIZE == 32
-      *(dvbcsa_u32_aliasing_t *)(key->block + i) = kk[i] * 0x01010101;
+      *(dvbcsa_u32_aliasing_t *)(key->block + i) = kk[i] * 0x01010101U;
 
 #elif BS_BATCH_SIZE == 64
       *(dvbcsa_u64_aliasing_t *)(key->block + i) = kk[i] * 0x0101010101010101ULL;
-- 
2.43.0


From 52aa22df37774651043d0c05989bb76fd486422d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 4/6] fix: avx2 table gather reads past the end of
 dvbcsa_block_sbox_perm

The gather loads 32 bits at each 16 bits entry; add a padding entry so that
a lookup of entry 255 stays within the table.
---
 src/dvbcsa_bs_avx2.h  | 2 +-
 src/dvbcsa_bs_block.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dvbcsa_bs_avx2.h b/src/dvbcsa_bs_avx2.h
index 8398943..5117288 100644
--- a/src/dvbcsa_bs_avx2.h
+++ b/src/dvbcsa_bs_avx2.h
@@ -58,7 +58,7 @@ typedef __m256i dvbcsa_bs_word_t;
       var_hi = _mm256_load_si256((ptr) + 1); \
       }
 
-static const uint16_t dvbcsa_block_sbox_perm[256];
+static const uint16_t dvbcsa_block_sbox_perm[256 + 1];
 
 static inline void avx2_block_sbox_permute(dvbcsa_bs_word_t *src,
                                            dvbcsa_bs_word_t *dst)
diff --git a/src/dvbcsa_bs_block.c b/src/dvbcsa_bs_block.c
index fc935a8..cf05d88 100644
--- a/src/dvbcsa_bs_block.c
+++ b/src/dvbcsa_bs_block.c
@@ -53,7 +53,7 @@
   LSB: sbox output
   MSB: permuted sbox output
 */
-static const uint16_t dvbcsa_block_sbox_perm[256] =
+static const uint16_t dvbcsa_block_sbox_perm[256 + 1] =
   {
     0xd43a, 0xd9ea, 0x5168, 0xfdfe, 0xc633, 0x5be9, 0x1888, 0x941a,
     0x8a83, 0xbbcf, 0x4be1, 0xf77f, 0xdcba, 0xc9e2, 0x5438, 0x8412,
-- 
2.43.0


From b53c678e0f18b84ed9e7eac87da0b96213eadc2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:38 +0000
Subject: [PATCH 5/6] fix: dvbcsa_encrypt skips CBC on packets of 2 GiB and
 more

The block offset was kept in an int, which is negative from the start when
len >= 2^31 + 16, so that only the last block was encrypted.
---
 src/dvbcsa_algo.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dvbcsa_algo.c b/src/dvbcsa_algo.c
index 268f03c..4a738bc 100644
--- a/src/dvbcsa_algo.c
+++ b/src/dvbcsa_algo.c
@@ -50,7 +50,7 @@ void dvbcsa_decrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int
 void dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int len)
 {
   unsigned int  alen = len & (unsigned)~0x7;
-  int       i;
+  unsigned int  i;
 
   if (len < 8)
     return;
@@ -58,8 +58,9 @@ void dvbcsa_encrypt (const struct dvbcsa_key_s *key, uint8_t *data, unsigned int
 #ifndef DVBCSA_DISABLE_BLOCK
   dvbcsa_block_encrypt(key->sch, data + alen - 8, data + alen - 8);
 
-  for (i = alen - 16; i >= 0; i -= 8)
+  for (i = alen - 8; i > 0; )
     {
+      i -= 8;
       dvbcsa_xor_64(data + i, data + i + 8);
       dvbcsa_block_encrypt(key->sch, data + i, data + i);
     }
-- 
2.43.0


From 0ead41f86c87e18755be8f5d1c7049bafcad1097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:14 +0000
Subject: [PATCH 6/6] fix: make the AltiVec word type compile again

get_bs_val8() assigned vectors of different element types to each other, the
shift macros passed word vectors where vec_slo()/vec_sro() take octets, and
shift counts 8, 16 and 32, used by the transposition code, had no SHVAL_n.
---
 src/dvbcsa_bs_altivec.h | 54 ++++-------------------------------------
 1 file changed, 5 insertions(+), 49 deletions(-)

diff --git a/src/dvbcsa_bs_altivec.h b/src/dvbcsa_bs_altivec.h
index 72a3dbe..663a7bb 100644
--- a/src/dvbcsa_bs_altivec.h
+++ b/src/dvbcsa_bs_altivec.h
@@ -45,61 +45,17 @@ typedef vector unsigned int dvbcsa_bs_word_t;
 #define BS_VAL32(n)     BS_VAL64(n##n)
 #define BS_VAL16(n)     BS_VAL32(n##n)
 
-static DVBCSA_INLINE dvbcsa_bs_word_t get_bs_val8( uint8_t val, dvbcsa_bs_word_t def_val )
-{
-        if ( (val & 0xf) == val ) {
-                return (dvbcsa_bs_word_t)vec_splat_u8(val);
-        }
-
-        switch (val) {
-        case 0x02:
-                return (dvbcsa_bs_word_t)vec_splat_u8(2);
-        case 0x03:
-                return (dvbcsa_bs_word_t)vec_splat_u8(3);
-        case 0x04:
-                return (dvbcsa_bs_word_t)vec_splat_u8(4);
-        case 0x10: {
-                dvbcsa_bs_word_t x = vec_splat_u8(8);
-                return (dvbcsa_bs_word_t)vec_add(x,x);
-        }
-        case 0x29: {
-                dvbcsa_bs_word_t x = vec_splat_u8(10);
-                return (dvbcsa_bs_word_t)vec_add(vec_splat_u8(0x1),vec_rl(x,x));
-        }
-        case 0x40: {
-                dvbcsa_bs_word_t x = vec_splat_u8(4);
-                return (dvbcsa_bs_word_t)vec_rl(x,x);
-        }
-        case 0x80: {
-                vector unsigned char x = vec_splat_u8(6);
-                return (dvbcsa_bs_word_t)vec_sl(x,x);
-        }
-        case 0xff:
-                return (dvbcsa_bs_word_t)vec_splat_s8(-1);
-        default:
-                return def_val;
-        }
-}
-
-#define BS_VAL8(x) get_bs_val8(0x##x, BS_VAL16(x##x))
+#define BS_VAL8(n)      ((dvbcsa_bs_word_t)vec_splats((unsigned char)0x##n))
 
 #define BS_AND(a, b)    vec_and((a), (b))
 #define BS_OR(a, b)     vec_or((a), (b))
 #define BS_XOR(a, b)    vec_xor((a), (b))
 #define BS_NOT(a)       vec_nor((a), (a))
 
-#define SHVAL_1 BS_VAL8(01)
-#define SHVAL_2 BS_VAL8(02)
-#define SHVAL_3 BS_VAL8(03)
-#define SHVAL_4 BS_VAL8(04)
-#define SHVAL_6 BS_VAL8(06)
-#define SHVAL_28 BS_VAL8(1C)
-#define SHVAL_13 BS_VAL8(0d)
-#define SHVAL_14 BS_VAL8(0e)
-#define SHVAL_7 BS_VAL8(07)
-
-#define BS_SHL(a, n)    ({ dvbcsa_bs_word_t x = SHVAL_##n; vec_sll(vec_slo((a), x), x); })
-#define BS_SHR(a, n)    ({ dvbcsa_bs_word_t x = SHVAL_##n; vec_srl(vec_sro((a), x), x); })
+/* 128 bits shifts: whole octets, then remaining bits */
+#define BS_SHCOUNT(n)   vec_splats((unsigned char)(n))
+#define BS_SHL(a, n)    ((dvbcsa_bs_word_t)vec_sll(vec_slo((vector unsigned char)(a), BS_SHCOUNT(n)), BS_SHCOUNT(n)))
+#define BS_SHR(a, n)    ((dvbcsa_bs_word_t)vec_srl(vec_sro((vector unsigned char)(a), BS_SHCOUNT(n)), BS_SHCOUNT(n)))
 
 #define BS_EXTRACT8(a, n) ((dvbcsa_u8_aliasing_t *)&(a))[15 - (n)]
 
-- 
2.43.0

