From f92d2ca470a9290368072110ac2d5c1a46b9319d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 01/42] fix: report zero output when an update only tops up the
 partial block

BlockCipherMode::update left *outl unset when the buffered block stayed
incomplete, so callers (and do_final) advanced by garbage.
---
 include/gmlib/block_cipher_mode/block_cipher_mode.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/gmlib/block_cipher_mode/block_cipher_mode.h b/include/gmlib/block_cipher_mode/block_cipher_mode.h
index 92208c0..5b51442 100644
--- a/include/gmlib/block_cipher_mode/block_cipher_mode.h
+++ b/include/gmlib/block_cipher_mode/block_cipher_mode.h
@@ -60,6 +60,7 @@ public:
             std::memcpy(buf_ + buf_size_, in, size);
             buf_size_ += size, in += size, inl -= size;
 
+            *outl = 0;
             if (buf_size_ == BLOCK_SIZE)
             {
                 this->update_blocks(out, buf_, 1);
-- 
2.43.0


From c6d36fdc20b87478520e36873b9b58f83d32ffa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 02/42] fix: drop buffered input when a cipher mode object is
 re-initialised

init() kept the partial block of the previous message, which was then
prepended to the next one.
---
 include/gmlib/block_cipher_mode/cbc_mode.h | 2 ++
 include/gmlib/block_cipher_mode/cfb_mode.h | 2 ++
 include/gmlib/block_cipher_mode/ctr_mode.h | 1 +
 include/gmlib/block_cipher_mode/ecb_mode.h | 2 ++
 include/gmlib/block_cipher_mode/gcm_mode.h | 1 +
 include/gmlib/block_cipher_mode/ofb_mode.h | 1 +
 6 files changed, 9 insertions(+)

diff --git a/include/gmlib/block_cipher_mode/cbc_mode.h b/include/gmlib/block_cipher_mode/cbc_mode.h
index cd64d4d..f2c6932 100644
--- a/include/gmlib/block_cipher_mode/cbc_mode.h
+++ b/include/gmlib/block_cipher_mode/cbc_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
@@ -98,6 +99,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::DECRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/cfb_mode.h b/include/gmlib/block_cipher_mode/cfb_mode.h
index a61604f..2dd5926 100644
--- a/include/gmlib/block_cipher_mode/cfb_mode.h
+++ b/include/gmlib/block_cipher_mode/cfb_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
@@ -93,6 +94,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/ctr_mode.h b/include/gmlib/block_cipher_mode/ctr_mode.h
index 1561526..6a8729b 100644
--- a/include/gmlib/block_cipher_mode/ctr_mode.h
+++ b/include/gmlib/block_cipher_mode/ctr_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(counter_, iv, Cipher::BLOCK_SIZE);
     }
diff --git a/include/gmlib/block_cipher_mode/ecb_mode.h b/include/gmlib/block_cipher_mode/ecb_mode.h
index 3e3514d..23e9837 100644
--- a/include/gmlib/block_cipher_mode/ecb_mode.h
+++ b/include/gmlib/block_cipher_mode/ecb_mode.h
@@ -28,6 +28,7 @@ public:
 public:
     void init(const std::uint8_t* user_key)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
     }
 
@@ -83,6 +84,7 @@ public:
 public:
     void init(const std::uint8_t* user_key)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::DECRYPTION);
     }
 
diff --git a/include/gmlib/block_cipher_mode/gcm_mode.h b/include/gmlib/block_cipher_mode/gcm_mode.h
index b69bb0b..65afe65 100644
--- a/include/gmlib/block_cipher_mode/gcm_mode.h
+++ b/include/gmlib/block_cipher_mode/gcm_mode.h
@@ -49,6 +49,7 @@ public:
         static const std::uint8_t ZERO[16] = {0};
         std::uint8_t              t[16];
 
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         cipher_.encrypt_block(t, ZERO);
         hash.set_key(t);
diff --git a/include/gmlib/block_cipher_mode/ofb_mode.h b/include/gmlib/block_cipher_mode/ofb_mode.h
index 12b3b72..c179faa 100644
--- a/include/gmlib/block_cipher_mode/ofb_mode.h
+++ b/include/gmlib/block_cipher_mode/ofb_mode.h
@@ -30,6 +30,7 @@ public:
 public:
     void init(const std::uint8_t* user_key, const std::uint8_t* iv)
     {
+        this->BlockCipherMode<Cipher::BLOCK_SIZE>::reset();
         cipher_.set_key(user_key, Cipher::ENCRYPTION);
         std::memcpy(iv_, iv, Cipher::BLOCK_SIZE);
     }
-- 
2.43.0


From 48e8f918a43eff1146b433afb3ab8cfc8fb7ea1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 03/42] fix: drop buffered input when GHash is reset or
 re-keyed

---
 include/gmlib/ghash/ghash.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gmlib/ghash/ghash.h b/include/gmlib/ghash/ghash.h
index f759cc8..8f45394 100644
--- a/include/gmlib/ghash/ghash.h
+++ b/include/gmlib/ghash/ghash.h
@@ -37,11 +37,13 @@ public:
 
     void reset() noexcept
     {
+        this->Hash<alg::GHASH_BLOCK_SIZE>::reset();
         alg::ghash_reset(&ctx_);
     }
 
     void set_key(const std::uint8_t H[16]) noexcept
     {
+        this->Hash<alg::GHASH_BLOCK_SIZE>::reset();
         alg::ghash_init(&ctx_, H);
     }
 
-- 
2.43.0


From 8c5693abdf48c403b4984ade9187cc2918795912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 04/42] fix: use the hash's own block size after completing a
 partial block

Hash::update divided by 64, so a 16-byte-block hash (GHash) fed after a
partial block copied up to 63 bytes into its 16-byte buffer.
---
 include/gmlib/hash_lib/hash.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/hash_lib/hash.h b/include/gmlib/hash_lib/hash.h
index 67daf11..307ec77 100644
--- a/include/gmlib/hash_lib/hash.h
+++ b/include/gmlib/hash_lib/hash.h
@@ -64,7 +64,7 @@ public:
         }
         if (inl && buf_size_ == 0)
         {
-            std::size_t block_num = inl / 64;
+            std::size_t block_num = inl / BLOCK_SIZE;
             this->update_blocks(in, block_num);
             in += block_num * BLOCK_SIZE, inl -= block_num * BLOCK_SIZE;
             if (inl)
-- 
2.43.0


From 6c1f5ba23072c17e1af9afe8db0facd7c3dcd1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 05/42] fix: do not share GCM decryption scratch buffers
 between calls

The zero padding was taken from a static buffer that the previous
finalisation had overwritten, so every later message with a partial last
block was refused (and concurrent decryptions raced).
---
 include/gmlib/block_cipher_mode/gcm_mode.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/block_cipher_mode/gcm_mode.h b/include/gmlib/block_cipher_mode/gcm_mode.h
index 65afe65..3a5e53f 100644
--- a/include/gmlib/block_cipher_mode/gcm_mode.h
+++ b/include/gmlib/block_cipher_mode/gcm_mode.h
@@ -315,7 +315,7 @@ private:
                      const std::uint8_t* in,
                      std::size_t         inl) override
     {
-        static std::uint8_t t[16] = {0}, tag[16];
+        std::uint8_t t[16] = {0}, tag[16];
         if (inl != 0)
         {
             std::size_t nxt_ct_len = ct_len_ + inl;
-- 
2.43.0


From 35b521092ff6b94c85cbc1f04e1c63744becc4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 06/42] fix: do not read past the 24-byte key in the AES-NI
 AES-192 key schedule

---
 src/aes/aes_aesni.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aes/aes_aesni.cpp b/src/aes/aes_aesni.cpp
index cc2cda0..764e276 100644
--- a/src/aes/aes_aesni.cpp
+++ b/src/aes/aes_aesni.cpp
@@ -110,7 +110,7 @@ static void AES_192_Key_Expansion(const unsigned char* userkey,
     __m128i  temp1, temp2, temp3;
     __m128i* Key_Schedule = (__m128i*)key;
     temp1                 = _mm_loadu_si128((__m128i*)userkey);
-    temp3                 = _mm_loadu_si128((__m128i*)(userkey + 16));
+    temp3                 = _mm_loadl_epi64((__m128i*)(userkey + 16));
     Key_Schedule[0]       = temp1;
     Key_Schedule[1]       = temp3;
     temp2                 = _mm_aeskeygenassist_si128(temp3, 0x1);
-- 
2.43.0


From af613b47a9cc61c91abc9b13178e259cf5fadb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:46 +0000
Subject: [PATCH 07/42] fix: avoid shifting by 32 in the SM3 round constant
 rotation

---
 src/sm3/sm3_common.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sm3/sm3_common.cpp b/src/sm3/sm3_common.cpp
index 5e2dff2..a1c898f 100644
--- a/src/sm3/sm3_common.cpp
+++ b/src/sm3/sm3_common.cpp
@@ -28,7 +28,7 @@ namespace sm3::internal::common {
 
 static inline std::uint32_t rotl(std::uint32_t x, int n) noexcept
 {
-    return (x << n) | (x >> (32 - n));
+    return (x << (n & 31)) | (x >> ((32 - n) & 31));
 }
 
 static inline std::uint32_t P0(std::uint32_t x) noexcept
-- 
2.43.0


From 65a4e565540e38509362cd0072a9fe3a102283fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 08/42] fix: compare 64-bit multi-limb integers from the most
 significant limb

---
 src/number/mpz_x64.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number/mpz_x64.cpp b/src/number/mpz_x64.cpp
index 551a411..f02ffaf 100644
--- a/src/number/mpz_x64.cpp
+++ b/src/number/mpz_x64.cpp
@@ -94,8 +94,8 @@ int mpz_cmp(const std::uint64_t* a,
     for (std::size_t i = 0; i < limb_size; i++)
     {
         std::size_t pos = limb_size - 1 - i;
-        if (a[i] > b[i]) return 1;
-        if (a[i] < b[i]) return -1;
+        if (a[pos] > b[pos]) return 1;
+        if (a[pos] < b[pos]) return -1;
     }
     return 0;
 }
-- 
2.43.0


From 3b58231205b52ab0e96d2bf404432c8b33f4af34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 09/42] fix: return zero, not P, for the negation of zero
 (32-bit Montgomery)

---
 src/number/mont256_common.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index a9ff88d..58a8e39 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -143,6 +143,7 @@ void mont256_neg(const Mont256CTX*   ctx,
     if (uint256_equal_zero(num))
     {
         uint256_set_zero(ret);
+        return;
     }
     uint256_sub_borrow(ret, ctx->P, num);
 }
-- 
2.43.0


From 3a4b567b15fc2e2fa01b76cbc5630b1c3389c0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 10/42] fix: a zero exponent gives one in Montgomery form

---
 src/number/mont256_common.cpp | 2 +-
 src/number/mont256_x64.cpp    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/number/mont256_common.cpp b/src/number/mont256_common.cpp
index 58a8e39..e801fcc 100644
--- a/src/number/mont256_common.cpp
+++ b/src/number/mont256_common.cpp
@@ -197,7 +197,7 @@ void mont256_pow(const Mont256CTX*   ctx,
     }
     if (uint256_equal_zero(exponent))
     {
-        uint256_set_one(power);
+        mont256_set_one(ctx, power);
         return;
     }
 
diff --git a/src/number/mont256_x64.cpp b/src/number/mont256_x64.cpp
index d7a9caa..3d58aa8 100644
--- a/src/number/mont256_x64.cpp
+++ b/src/number/mont256_x64.cpp
@@ -252,7 +252,7 @@ void mont256_pow(const Mont256CTX*   ctx,
     }
     if (uint256_equal_zero(exponent))
     {
-        uint256_set_one(power);
+        mont256_set_one(ctx, power);
         return;
     }
 
-- 
2.43.0


From 8385b8a92f8fc26d4374f98c8ecb35620382c03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 11/42] fix: generate SM2 private keys in [1, n-2]

---
 include/gmlib/sm2/sm2.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 12be82a..ab1d326 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -557,7 +557,7 @@ inline void SM2PrivateKey<Hash>::gen_priv(rng::Rng& rng)
     internal::sm2_bn_t d;
     rng.gen(priv_key, 32);
     internal::sm2_bn_from_bytes(d, priv_key);
-    internal::sm2_bn_mod_n_sub1(d);
+    internal::sm2_bn_mod_n_sub2(d);
     internal::sm2_bn_add_uint32(d, d, 1);
     internal::sm2_bn_to_bytes(priv_, d);
     // set pub
-- 
2.43.0


From 2f43fabc1d17e7acdc92cde1d1010269a0f17c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 12/42] fix: reject SM2 public keys with unreduced coordinates

---
 include/gmlib/sm2/sm2.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index ab1d326..22d7951 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -356,7 +356,11 @@ inline void SM2PublicKey<Hash>::set_pub(const std::uint8_t x[32],
     internal::sm2_ec_a T;
     internal::sm2_fp_from_bytes(T[0], x);
     internal::sm2_fp_from_bytes(T[1], y);
-    if (!internal::sm2_ec_a_check(T))
+    // coordinates must be reduced modulo p
+    std::uint8_t xy[64];
+    internal::sm2_ec_a_to_bytes04(xy, T);
+    if (std::memcmp(xy, x, 32) != 0 || std::memcmp(xy + 32, y, 32) != 0 ||
+        !internal::sm2_ec_a_check(T))
     {
         throw std::runtime_error("invalid sm2p256v1 PublicKey");
     }
-- 
2.43.0


From e2a7b51c8b08e6d0d401616cf62bbc1797dc730d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 13/42] fix: handle equal points in SM2 mixed addition

---
 src/sm2/sm2p256v1.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 8046bd8..3cf32fc 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -602,6 +602,18 @@ void sm2_ec_j_add_a(sm2_ec_j R, const sm2_ec_j P, const sm2_ec_a Q) noexcept
     sm2_fp_mul(U2, X2, Z1Z1); //  U2 = X2*Z1Z1
     sm2_fp_mul(S2, Y2, Z1);
     sm2_fp_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
+    if (sm2_fp_equal(U2, X1))
+    {
+        if (sm2_fp_equal(S2, Y1))
+        {
+            sm2_ec_j_dbl(R, P);
+        }
+        else
+        {
+            sm2_ec_j_set_inf(R);
+        }
+        return;
+    }
     sm2_fp_sub(H, U2, X1);    // H = U2-X1
     sm2_fp_sqr(HH, H);        // HH = H^2
     sm2_fp_dbl(I, HH);
-- 
2.43.0


From b62586a64c54ca58d738fd7ad40f755293f20712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:02 +0000
Subject: [PATCH 14/42] fix: SM2 verification refuses an over-long id instead
 of terminating

---
 include/gmlib/sm2/sm2.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 22d7951..1378470 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -443,6 +443,11 @@ inline bool SM2PublicKey<Hash>::verify_(const std::uint8_t  sig_r[32],
     {
         return false;
     }
+    // the bit length of id must fit in 16 bits
+    if (id_len > UINT16_MAX / 8)
+    {
+        return false;
+    }
     // H(Z || M)
     internal::sm2_compute_z<Hash>(Z, id, id_len, x_, y_);
     Hash hash;
-- 
2.43.0


From 75097f91ebae77f260769746f1cf38c6df099c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:03 +0000
Subject: [PATCH 15/42] fix: reject SM2 signatures for which [s]G + [t]P is
 infinity

---
 include/gmlib/sm2/sm2.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gmlib/sm2/sm2.h b/include/gmlib/sm2/sm2.h
index 1378470..de7eb11 100644
--- a/include/gmlib/sm2/sm2.h
+++ b/include/gmlib/sm2/sm2.h
@@ -469,6 +469,10 @@ inline bool SM2PublicKey<Hash>::verify_(const std::uint8_t  sig_r[32],
     internal::sm2_ec_j_mul_g(sG.j, sig_s);
     internal::sm2_ec_j_mul_a(tP.j, t, tP.a);
     internal::sm2_ec_j_add(tP.j, sG.j, tP.j);
+    if (internal::sm2_ec_j_is_inf(tP.j))
+    {
+        return false;
+    }
     internal::sm2_ec_j_to_a(tP.a, tP.j);
     // R = e' + x1' mod n
     internal::sm2_fn_from_fp(tmp.fn, tP.a[0]);
-- 
2.43.0


From ea5de91f9f8b20451ef4511d66bcd7e06559a714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 16/42] fix: check the input length when decoding an SM2 point

---
 src/sm2/sm2p256v1.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 3cf32fc..f995d92 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -462,11 +462,19 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 65)
+        {
+            return -1;
+        }
         *read_n = 65;
         sm2_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
+        if (inl < 33)
+        {
+            return -1;
+        }
         *read_n = 33;
         sm2_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
-- 
2.43.0


From 9b83032ca56b223947953ec2a180a5337f109da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 17/42] fix: check the parity of y in hybrid SM2 points

---
 src/sm2/sm2p256v1.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index f995d92..8e94e40 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -468,6 +468,11 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
         }
         *read_n = 65;
         sm2_ec_a_from_bytes04(R, in + 1);
+        // hybrid form carries the parity of y
+        if (in[0] != 0x04 && (in[0] & 1) != (in[64] & 1))
+        {
+            return -1;
+        }
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
-- 
2.43.0


From 79c4faa814b1b5bebdc3a1c2803816e5593620b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 18/42] fix: reject SM2 points with unreduced coordinates

---
 src/sm2/sm2p256v1.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sm2/sm2p256v1.cpp b/src/sm2/sm2p256v1.cpp
index 8e94e40..1526df9 100644
--- a/src/sm2/sm2p256v1.cpp
+++ b/src/sm2/sm2p256v1.cpp
@@ -2,6 +2,7 @@
 #include <gmlib/sm2/internal/sm2p256v1.h>
 
 #include <cstdio>
+#include <cstring>
 namespace sm2::internal {
 
 const std::uint8_t SM2_DEFAULT_ID[16] = {
@@ -492,6 +493,13 @@ int sm2_ec_a_from_bytes(sm2_ec_a            R,
     {
         return -1;
     }
+    // coordinates must be reduced modulo p
+    std::uint8_t buf[64];
+    sm2_ec_a_to_bytes04(buf, R);
+    if (std::memcmp(buf, in + 1, *read_n - 1) != 0)
+    {
+        return -1;
+    }
     return sm2_ec_a_check(R) ? 0 : -1;
 }
 
-- 
2.43.0


From 040c3082c781a2304131625cb8d2301631c57eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 19/42] fix: refuse ASN.1 elements that are longer than the
 input

---
 src/asn1/asn1.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 066606d..7c431e6 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -154,6 +154,10 @@ int asn1_decode_tlv(Asn1TLV*            tlv,
     }
     in += n, inl -= n, *read_num += n;
     // value
+    if (tlv->length > inl)
+    {
+        return -1;
+    }
     tlv->value = in;
     *read_num += tlv->length;
     return 0;
-- 
2.43.0


From cdb869086cc6c360eaa7560c37ab2d911f0bf14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 20/42] fix: make room for nine length octets in
 asn1_encode_tlv_outl

---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 7c431e6..e458cbb 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -231,7 +231,7 @@ const char* asn1_tag_number_name(Asn1TagNumber tag_number) noexcept
 
 std::size_t asn1_encode_tlv_outl(std::size_t value_length) noexcept
 {
-    std::uint8_t l_buf[sizeof(std::size_t)];
+    std::uint8_t l_buf[1 + sizeof(std::size_t)];
     std::size_t  l_size;
     asn1_encode_length_octets(l_buf, &l_size, value_length);
     return 1 + l_size + value_length;
-- 
2.43.0


From 7762739179098f10e4c1a64b780e45cf9167e263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 21/42] fix: keep the leading zero octet of an ASN.1 INTEGER
 with its top bit set

---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index e458cbb..d8c1aaf 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -356,7 +356,7 @@ void asn1_encode_integer_tlv(std::uint8_t*       out,
     {
         if (data[0] >= 0x80)
         {
-            *out = 0, *outl += 1;
+            *out = 0, out += 1, *outl += 1;
         }
         std::memmove(out, data, data_len);
         *outl += data_len;
-- 
2.43.0


From 6bc4035a9a284dbc4134b5398a3d29e0203422b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 22/42] fix: encode ASN.1 INTEGER without superfluous leading
 zero octets

---
 src/asn1/asn1.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index d8c1aaf..0a973e0 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -242,6 +242,20 @@ std::size_t asn1_encode_boolean_outl() noexcept
     return 3; // tag(1), length(1), value(1)
 }
 
+/**
+ * @brief           drop the leading zero octets that DER does not allow
+ * @param data      integer memory data(big endian), 'data_len' bytes
+ * @param data_len  data length(in bytes)
+ */
+static void asn1_strip_leading_zeros(const std::uint8_t*& data,
+                                     std::size_t&         data_len) noexcept
+{
+    while (data_len > 1 && data[0] == 0)
+    {
+        data++, data_len--;
+    }
+}
+
 /**
  * @brief           calculate ASN.1 INTEGER value length
  * @param data      integer memory data(big endian), 'data_len' bytes
@@ -253,6 +267,7 @@ static std::size_t asn1_encode_integer_value_length(
     std::size_t         data_len) noexcept
 {
     std::size_t value_length;
+    asn1_strip_leading_zeros(data, data_len);
     if (data_len == 0)
     {
         value_length = 0;
@@ -346,6 +361,7 @@ void asn1_encode_integer_tlv(std::uint8_t*       out,
                              std::size_t         data_len) noexcept
 {
     std::size_t n;
+    asn1_strip_leading_zeros(data, data_len);
     asn1_encode_tl(out, &n,
                    ASN1_TAG_CLASS_UNIVERSAL, //
                    ASN1_TAG_PC_PRIMITIVE,    //
-- 
2.43.0


From 248a8598ffb0b0f8d8979c5cc0c9539203216bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 23/42] fix: take the unused-bit count of a BIT STRING from its
 contents

---
 src/asn1/asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 0a973e0..9b923e2 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -553,7 +553,7 @@ int asn1_decode_bit_string_value(const std::uint8_t** data_ptr,
     }
     *data_ptr    = tlv.value + 1;
     *data_length = tlv.length - 1;
-    *bits_length = 8 * (tlv.length - 1) - in[0];
+    *bits_length = 8 * (tlv.length - 1) - tlv.value[0];
     return 0;
 }
 
-- 
2.43.0


From 6ded2463401768cc797bd65670e2739c574e0102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 24/42] fix: check the tag class when decoding universal ASN.1
 types

---
 src/asn1/asn1.cpp | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 9b923e2..4e2b4fc 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -474,7 +474,8 @@ int asn1_decode_boolean_value(bool*               ret,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
         tlv.tag_number != ASN1_TAG_BOOLEAN || tlv.length != 1)
     {
         return -1;
@@ -495,7 +496,8 @@ int asn1_decode_integer_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
         tlv.tag_number != ASN1_TAG_INTEGER || tlv.length == 0)
     {
         return -1;
@@ -538,7 +540,8 @@ int asn1_decode_bit_string_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_number != ASN1_TAG_BIT_STRING || tlv.length == 0)
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_number != ASN1_TAG_BIT_STRING || tlv.length == 0)
     {
         return -1;
     }
@@ -569,7 +572,8 @@ int asn1_decode_octet_string_value(const std::uint8_t** data_ptr,
     {
         return err;
     }
-    if (tlv.tag_number != ASN1_TAG_OCTET_STRING || tlv.length == 0)
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_number != ASN1_TAG_OCTET_STRING || tlv.length == 0)
     {
         return -1;
     }
@@ -589,7 +593,8 @@ int asn1_decode_null_value(std::size_t*        read_num,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_PRIMITIVE ||
         tlv.tag_number != ASN1_TAG_NULL || tlv.length != 0)
     {
         return -1;
@@ -609,7 +614,8 @@ int asn1_decode_sequence_value(const std::uint8_t** value_ptr,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
         tlv.tag_number != ASN1_TAG_SEQUENCE || tlv.length == 0)
     {
         return -1;
@@ -632,7 +638,8 @@ int asn1_decode_set_value(const std::uint8_t** value_ptr,
     {
         return err;
     }
-    if (tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
+    if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
+        tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
         tlv.tag_number != ASN1_TAG_SET || tlv.length == 0)
     {
         return -1;
-- 
2.43.0


From dea896af59dbcfa6b715b0b0132e1ab98d14f723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 25/42] fix: accept empty OCTET STRING, SEQUENCE and SET

---
 src/asn1/asn1.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/asn1/asn1.cpp b/src/asn1/asn1.cpp
index 4e2b4fc..9b91299 100644
--- a/src/asn1/asn1.cpp
+++ b/src/asn1/asn1.cpp
@@ -573,7 +573,7 @@ int asn1_decode_octet_string_value(const std::uint8_t** data_ptr,
         return err;
     }
     if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
-        tlv.tag_number != ASN1_TAG_OCTET_STRING || tlv.length == 0)
+        tlv.tag_number != ASN1_TAG_OCTET_STRING)
     {
         return -1;
     }
@@ -616,7 +616,7 @@ int asn1_decode_sequence_value(const std::uint8_t** value_ptr,
     }
     if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
         tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
-        tlv.tag_number != ASN1_TAG_SEQUENCE || tlv.length == 0)
+        tlv.tag_number != ASN1_TAG_SEQUENCE)
     {
         return -1;
     }
@@ -640,7 +640,7 @@ int asn1_decode_set_value(const std::uint8_t** value_ptr,
     }
     if (tlv.tag_class != ASN1_TAG_CLASS_UNIVERSAL ||
         tlv.tag_pc != ASN1_TAG_PC_CONSTRUCTED ||
-        tlv.tag_number != ASN1_TAG_SET || tlv.length == 0)
+        tlv.tag_number != ASN1_TAG_SET)
     {
         return -1;
     }
-- 
2.43.0


From baadad46c906a6ea247e1783338fe97ca4062878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 26/42] fix: require exactly 65 bytes in an SM2 public key BIT
 STRING

---
 src/sm2/sm2p256v1_asn1.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sm2/sm2p256v1_asn1.cpp b/src/sm2/sm2p256v1_asn1.cpp
index 6c9d04e..26d50a9 100644
--- a/src/sm2/sm2p256v1_asn1.cpp
+++ b/src/sm2/sm2p256v1_asn1.cpp
@@ -67,7 +67,7 @@ int sm2_public_key_asn1_decode(ASN1_SM2PublicKey*  pub,
     {
         return -1;
     }
-    if (data_length != 65 && data_bits != 65 * 8)
+    if (data_length != 65 || data_bits != 65 * 8)
     {
         return -1;
     }
-- 
2.43.0


From d467fde6d2b68769a2ea0eb5b05a5c8cdac04919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 27/42] fix: refuse superfluous elements in SM2 signature and
 cipher SEQUENCEs

---
 src/sm2/sm2p256v1_asn1.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sm2/sm2p256v1_asn1.cpp b/src/sm2/sm2p256v1_asn1.cpp
index 26d50a9..d81993f 100644
--- a/src/sm2/sm2p256v1_asn1.cpp
+++ b/src/sm2/sm2p256v1_asn1.cpp
@@ -140,6 +140,11 @@ int sm2_signature_asn1_decode(ASN1_SM2Signature*  sig,
     {
         return -1;
     }
+    // nothing may follow
+    if (n != seq_v_len)
+    {
+        return -1;
+    }
     *read_num = inl_save - inl;
     return 0;
 }
@@ -243,6 +248,11 @@ int sm2_cipher_asn1_decode(ASN1_SM2Cipher*     cipher,
         return -1;
     }
     seq_value += n, seq_v_len -= n;
+    // nothing may follow
+    if (seq_v_len != 0)
+    {
+        return -1;
+    }
     *read_num = inl_save - inl;
     return 0;
 }
-- 
2.43.0


From 2c6a695d0ec4d35f58b170cae13aa552a179f25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 28/42] fix: refuse negative numbers in SM2 DER structures

---
 src/sm2/sm2p256v1_asn1.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/sm2/sm2p256v1_asn1.cpp b/src/sm2/sm2p256v1_asn1.cpp
index d81993f..3891884 100644
--- a/src/sm2/sm2p256v1_asn1.cpp
+++ b/src/sm2/sm2p256v1_asn1.cpp
@@ -6,6 +6,16 @@
 
 namespace sm2::internal {
 
+/**
+ * @brief       is the decoded 32-byte INTEGER negative?
+ * @note        a set top bit needs a preceding zero octet; without one the
+ *              octet before the value is its length (32)
+ */
+static bool asn1_integer_is_negative(const std::uint8_t* value)
+{
+    return (value[0] & 0x80) != 0 && value[-1] != 0;
+}
+
 // ****************************************
 // ********** PrivateKey ******************
 // ****************************************
@@ -33,7 +43,7 @@ int sm2_private_key_asn1_decode(ASN1_SM2PrivateKey* priv,
     {
         return -1;
     }
-    if (data_length != 32)
+    if (data_length != 32 || asn1_integer_is_negative(priv->value))
     {
         return -1;
     }
@@ -125,7 +135,7 @@ int sm2_signature_asn1_decode(ASN1_SM2Signature*  sig,
     {
         return -1;
     }
-    if (int_1_v_len != 32)
+    if (int_1_v_len != 32 || asn1_integer_is_negative(sig->R))
     {
         return -1;
     }
@@ -136,7 +146,7 @@ int sm2_signature_asn1_decode(ASN1_SM2Signature*  sig,
     {
         return -1;
     }
-    if (int_2_v_len != 32)
+    if (int_2_v_len != 32 || asn1_integer_is_negative(sig->S))
     {
         return -1;
     }
@@ -219,7 +229,7 @@ int sm2_cipher_asn1_decode(ASN1_SM2Cipher*     cipher,
     {
         return -1;
     }
-    if (int_1_v_len != 32)
+    if (int_1_v_len != 32 || asn1_integer_is_negative(cipher->XCoordinate))
     {
         return -1;
     }
@@ -229,7 +239,7 @@ int sm2_cipher_asn1_decode(ASN1_SM2Cipher*     cipher,
     {
         return -1;
     }
-    if (int_2_v_len != 32)
+    if (int_2_v_len != 32 || asn1_integer_is_negative(cipher->YCoordinate))
     {
         return -1;
     }
-- 
2.43.0


From b4e0e6ed0571b80547ad39e79b0a242beabacc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 29/42] fix: report errors in nested elements from asn1_dump

---
 src/asn1/asn1_dump.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/asn1/asn1_dump.cpp b/src/asn1/asn1_dump.cpp
index 2489002..3911682 100644
--- a/src/asn1/asn1_dump.cpp
+++ b/src/asn1/asn1_dump.cpp
@@ -36,7 +36,11 @@ static int r_asn1_dump(const std::uint8_t* in,
         printf(",%s)\n", asn1_tag_pc_name(tlv.tag_pc));
         if (tlv.tag_pc == ASN1_TAG_PC_CONSTRUCTED)
         {
-            r_asn1_dump(tlv.value, tlv.length, depth + 1);
+            err = r_asn1_dump(tlv.value, tlv.length, depth + 1);
+            if (err)
+            {
+                return err;
+            }
         }
         else
         {
-- 
2.43.0


From a64ba043ca06e4c291f6f1bab2189fdfbd603050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:21 +0000
Subject: [PATCH 30/42] fix: bound the recursion of asn1_dump

---
 src/asn1/asn1_dump.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/asn1/asn1_dump.cpp b/src/asn1/asn1_dump.cpp
index 3911682..3a145c0 100644
--- a/src/asn1/asn1_dump.cpp
+++ b/src/asn1/asn1_dump.cpp
@@ -5,6 +5,9 @@
 
 namespace asn1 {
 
+/// @brief limit of nesting, bounds the recursion
+static constexpr std::size_t ASN1_DUMP_MAX_DEPTH = 128;
+
 static int r_asn1_dump(const std::uint8_t* in,
                        std::size_t         inl,
                        std::size_t         depth) noexcept
@@ -12,6 +15,10 @@ static int r_asn1_dump(const std::uint8_t* in,
     Asn1TLV     tlv;
     std::size_t read_num;
     int         err;
+    if (depth > ASN1_DUMP_MAX_DEPTH)
+    {
+        return -2; // unsupport
+    }
     while (inl)
     {
         err = asn1_decode_tlv(&tlv, &read_num, in, inl);
-- 
2.43.0


From d200f7d27d8ccc326a52ce240a41e3aff7ca5a67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:25 +0000
Subject: [PATCH 31/42] fix: the SM9 square root of zero exists

---
 src/sm9/sm9_field.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 9be388b..4f99d14 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -340,6 +340,12 @@ int sm9_fp_sqrt(sm9_fp_t r, const sm9_fp_t a) noexcept
     number::mont256_t neg1;
     number::mont256_set_one(&FP_MONT_CTX, neg1);
     number::mont256_neg(&FP_MONT_CTX, neg1, neg1);
+    // the square root of 0 is 0
+    if (number::mont256_equal_zero(&FP_MONT_CTX, a))
+    {
+        number::mont256_set_zero(&FP_MONT_CTX, r);
+        return 0;
+    }
     // z = a^(2u+1)
     number::mont256_pow(&FP_MONT_CTX, z, a, U_MUL2_ADD1.v);
     // if z=1:  return g^(u+1)
-- 
2.43.0


From f8e8ca753fdcfee5cd1dd25cf4f910a91ad95c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 32/42] fix: a zero exponent gives one in sm9_fp12_pow

---
 src/sm9/sm9_field.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 4f99d14..d5fba46 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -933,7 +933,12 @@ void sm9_fp12_pow(sm9_fp12_t         r,
         sm9_fp12_mul(lut_table[j], lut_table[j - 1], a);
     }
     // compute power
-    while (e_u8[i] == 0) i++;
+    while (i < 32 && e_u8[i] == 0) i++;
+    if (i == 32)
+    {
+        sm9_fp12_set_one(r);
+        return;
+    }
     if (e_u8[i] > 0xF)
     {
         int index = (e_u8[i] >> 4) & 0xF;
-- 
2.43.0


From 0ae5f03272b76cf2ae7cccc8846ad7acc71d8a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 33/42] fix: handle equal points in SM9 mixed addition

---
 src/sm9/sm9_field.cpp | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index d5fba46..1c5726e 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1217,6 +1217,18 @@ void sm9_ec_j_add_a(sm9_ec_j R, const sm9_ec_j P, const sm9_ec_a Q) noexcept
     sm9_fp_mul(U2, X2, Z1Z1); //  U2 = X2*Z1Z1
     sm9_fp_mul(S2, Y2, Z1);
     sm9_fp_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
+    if (sm9_fp_equal(U2, X1))
+    {
+        if (sm9_fp_equal(S2, Y1))
+        {
+            sm9_ec_j_dbl(R, P);
+        }
+        else
+        {
+            sm9_ec_j_set_inf(R);
+        }
+        return;
+    }
     sm9_fp_sub(H, U2, X1);    // H = U2-X1
     sm9_fp_sqr(HH, H);        // HH = H^2
     sm9_fp_dbl(I, HH);
@@ -1624,6 +1636,18 @@ void sm9_ec2_j_add_a(sm9_ec2_j R, const sm9_ec2_j P, const sm9_ec2_a Q) noexcept
     sm9_fp2_mul(U2, X2, Z1Z1); //  U2 = X2*Z1Z1
     sm9_fp2_mul(S2, Y2, Z1);
     sm9_fp2_mul(S2, S2, Z1Z1); //  S2 = Y2*Z1*Z1Z1
+    if (sm9_fp2_equal(U2, X1))
+    {
+        if (sm9_fp2_equal(S2, Y1))
+        {
+            sm9_ec2_j_dbl(R, P);
+        }
+        else
+        {
+            sm9_ec2_j_set_inf(R);
+        }
+        return;
+    }
     sm9_fp2_sub(H, U2, X1);    // H = U2-X1
     sm9_fp2_sqr(HH, H);        // HH = H^2
     sm9_fp2_dbl(I, HH);
-- 
2.43.0


From 645898a1c12578bc4020c6c6659e77ac68db293d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 34/42] fix: reject SM9 signatures for which [h1]P2 + Ppub is
 infinity

---
 include/gmlib/sm9/sm9.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/gmlib/sm9/sm9.h b/include/gmlib/sm9/sm9.h
index ab69cbe..e77ccfc 100644
--- a/include/gmlib/sm9/sm9.h
+++ b/include/gmlib/sm9/sm9.h
@@ -418,6 +418,10 @@ inline bool SM9SignMasterPublicKey<Hash>::verify(
     //  P = [h1]P2 + Ppub
     internal::sm9_ec2_j_mul_g(T.j, h_);
     internal::sm9_ec2_j_add_a(T.j, T.j, P_);
+    if (internal::sm9_ec2_j_is_inf(T.j))
+    {
+        return false;
+    }
     internal::sm9_ec2_j_to_a(T.a, T.j);
     // w' = e(S', P) * t
     internal::sm9_pairing(w, S, T.a);
-- 
2.43.0


From 0102d70fb03233e5b0d958e083cc5cdcd69e0290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 35/42] fix: check the input length when decoding an SM9 point

---
 src/sm9/sm9_field.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 1c5726e..c95b1dd 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1078,11 +1078,19 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 65)
+        {
+            return -1;
+        }
         *read_n = 65;
         sm9_ec_a_from_bytes04(R, in + 1);
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
+        if (inl < 33)
+        {
+            return -1;
+        }
         *read_n = 33;
         sm9_fp_from_bytes(R[0], in + 1);
         int y_hat = in[0] == 0x02 ? 0 : 1;
-- 
2.43.0


From 04562a2ddc1591c24aef8a222423dcaba1d8d495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 36/42] fix: check the parity of y in hybrid SM9 points

---
 src/sm9/sm9_field.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index c95b1dd..19f0f8d 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1084,6 +1084,11 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
         }
         *read_n = 65;
         sm9_ec_a_from_bytes04(R, in + 1);
+        // hybrid form carries the parity of y
+        if (in[0] != 0x04 && (in[0] & 1) != (in[64] & 1))
+        {
+            return -1;
+        }
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
-- 
2.43.0


From 5a6059d8f4c13a5a0f718a34f71eb8557df37b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 37/42] fix: reject SM9 points with unreduced coordinates

---
 src/sm9/sm9_field.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 19f0f8d..d9b8b55 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1,6 +1,8 @@
 #include <gmlib/number/mpz.h>
 #include <gmlib/sm9/internal/sm9_field.h>
 
+#include <cstring>
+
 namespace sm9::internal {
 // y^2 = x^3 + 5
 // 0xb640000002a3a6f1d603ab4ff58ec74521f2934b1a7aeedbe56f9b27e351457d
@@ -1108,6 +1110,13 @@ int sm9_ec_a_from_bytes(sm9_ec_a            R,
     {
         return -1;
     }
+    // coordinates must be reduced modulo p
+    std::uint8_t buf[64];
+    sm9_ec_a_to_bytes04(buf, R);
+    if (std::memcmp(buf, in + 1, *read_n - 1) != 0)
+    {
+        return -1;
+    }
     return sm9_ec_a_check(R) ? 0 : -1;
 }
 
-- 
2.43.0


From 73d577ff10e0c3a98d6f6db68c78ca2051b27496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 38/42] fix: use both 64-byte coordinates of an SM9
 second-group point

---
 src/sm9/sm9_field.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index d9b8b55..20d80c7 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1484,13 +1484,13 @@ void sm9_ec2_a_neg(sm9_ec2_a R, const sm9_ec2_a P) noexcept
 void sm9_ec2_a_to_bytes04(std::uint8_t out[128], const sm9_ec2_a P) noexcept
 {
     sm9_fp2_to_bytes(out + 0, P[0]);
-    sm9_fp2_to_bytes(out + 32, P[1]);
+    sm9_fp2_to_bytes(out + 64, P[1]);
 }
 
 void sm9_ec2_a_from_bytes04(sm9_ec2_a R, const std::uint8_t in[128]) noexcept
 {
     sm9_fp2_from_bytes(R[0], in + 0);
-    sm9_fp2_from_bytes(R[1], in + 32);
+    sm9_fp2_from_bytes(R[1], in + 64);
 }
 
 void sm9_ec2_a_to_bytes_uncompressed(std::uint8_t    out[129],
-- 
2.43.0


From a250593c6eb6053c2f88a4e2506c34ad6125694d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:01 +0000
Subject: [PATCH 39/42] fix: check length and coordinates when decoding an SM9
 second-group point

---
 src/sm9/sm9_field.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/sm9/sm9_field.cpp b/src/sm9/sm9_field.cpp
index 20d80c7..31415d5 100644
--- a/src/sm9/sm9_field.cpp
+++ b/src/sm9/sm9_field.cpp
@@ -1525,9 +1525,20 @@ int sm9_ec2_a_from_bytes(sm9_ec2_a           R,
     }
     if (in[0] == 0x04 || in[0] == 0x06 || in[0] == 0x07)
     {
+        if (inl < 129)
+        {
+            return -1;
+        }
         *read_n = 129;
         sm9_ec2_a_from_bytes04(R, in + 1);
-        return 0;
+        // coordinates must be reduced modulo p
+        std::uint8_t buf[128];
+        sm9_ec2_a_to_bytes04(buf, R);
+        if (std::memcmp(buf, in + 1, 128) != 0)
+        {
+            return -1;
+        }
+        return sm9_ec2_a_check(R) ? 0 : -1;
     }
     else if (in[0] == 0x02 || in[0] == 0x03)
     {
-- 
2.43.0


From 7d151093be712b6cd93c2f508e34ddb8aa9e0479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:11 +0000
Subject: [PATCH 40/42] fix: decrypt CBC data correctly when the output is the
 input buffer

---
 include/gmlib/block_cipher_mode/cbc_mode.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/gmlib/block_cipher_mode/cbc_mode.h b/include/gmlib/block_cipher_mode/cbc_mode.h
index f2c6932..20db326 100644
--- a/include/gmlib/block_cipher_mode/cbc_mode.h
+++ b/include/gmlib/block_cipher_mode/cbc_mode.h
@@ -126,9 +126,11 @@ private:
             std::memcpy(next_iv, in + REMAIN, BLOCK_SIZE);
 
             cipher_.decrypt_blocks(buffer, in, PARALLEL_NUM);
-            memory_utils::memxor<BLOCK_SIZE>(out, buffer, iv_);
-            std::uint8_t *ptr1 = out + BLOCK_SIZE, *ptr2 = buffer + BLOCK_SIZE;
-            memory_utils::memxor<REMAIN>(ptr1, ptr2, in);
+            // out may be in: read all of in before writing any of out
+            std::uint8_t* ptr = buffer + BLOCK_SIZE;
+            memory_utils::memxor<REMAIN>(ptr, ptr, in);
+            memory_utils::memxor<BLOCK_SIZE>(buffer, buffer, iv_);
+            std::memcpy(out, buffer, PARALLEL_BYTES);
             in += PARALLEL_BYTES, out += PARALLEL_BYTES;
             block_num -= PARALLEL_NUM;
 
@@ -140,9 +142,10 @@ private:
             std::memcpy(next_iv, in + remain, BLOCK_SIZE);
 
             cipher_.decrypt_blocks(buffer, in, block_num);
-            memory_utils::memxor<BLOCK_SIZE>(out, buffer, iv_);
-            std::uint8_t *ptr1 = out + BLOCK_SIZE, *ptr2 = buffer + BLOCK_SIZE;
-            memory_utils::memxor_n(ptr1, ptr2, in, remain);
+            std::uint8_t* ptr = buffer + BLOCK_SIZE;
+            memory_utils::memxor_n(ptr, ptr, in, remain);
+            memory_utils::memxor<BLOCK_SIZE>(buffer, buffer, iv_);
+            std::memcpy(out, buffer, remain + BLOCK_SIZE);
 
             std::memcpy(iv_, next_iv, BLOCK_SIZE);
         }
-- 
2.43.0


From ef144a402ddea692d79acbebf8d875ab78970dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 41/42] fix: leave an SM9 user key unchanged when its public
 half is refused

---
 include/gmlib/sm9/sm9.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/gmlib/sm9/sm9.h b/include/gmlib/sm9/sm9.h
index e77ccfc..7c688b0 100644
--- a/include/gmlib/sm9/sm9.h
+++ b/include/gmlib/sm9/sm9.h
@@ -446,9 +446,10 @@ inline void SM9SignPrivateKey<Hash>::set_priv(const std::uint8_t priv_x[32],
     {
         throw std::runtime_error("invalid sm9 SignPrivateKey");
     }
-    internal::sm9_ec_a_cpy(priv_, T);
-
+    // refuses the public key before the private key is replaced
     pub_.set_pub(pub_x, pub_y);
+
+    internal::sm9_ec_a_cpy(priv_, T);
 }
 
 template <class Hash>
-- 
2.43.0


From 10655252fc5910c77227377f05cb20280a2fc86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:41 +0000
Subject: [PATCH 42/42] fix: memdump printed padding almost without end after a
 failed output

---
 src/memory_utils/memdump.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/memory_utils/memdump.cpp b/src/memory_utils/memdump.cpp
index 2006bd6..411c442 100644
--- a/src/memory_utils/memdump.cpp
+++ b/src/memory_utils/memdump.cpp
@@ -7,6 +7,12 @@
 
 namespace memory_utils {
 
+/// @brief characters printed, a failed output (negative) counts as none
+static std::size_t printed(int ret)
+{
+    return ret > 0 ? (std::size_t)ret : 0;
+}
+
 void memdump(const void *mem,
              std::size_t size,
              std::size_t maxline,
@@ -36,8 +42,8 @@ void memdump(const void *mem,
         line_char_num = 0;
         for (std::size_t i = 0; i < maxline; i++)
         {
-            line_char_num += (std::size_t)std::printf(item_fmt, data[i]);
-            line_char_num += (std::size_t)std::printf("%s", sep);
+            line_char_num += printed(std::printf(item_fmt, data[i]));
+            line_char_num += printed(std::printf("%s", sep));
         }
         if (decode_ascii)
         {
@@ -65,12 +71,12 @@ void memdump(const void *mem,
         char_num = 0;
         for (std::size_t i = 0; i < size; i++)
         {
-            char_num += std::printf(item_fmt, data[i]);
-            char_num += std::printf("%s", sep);
+            char_num += printed(std::printf(item_fmt, data[i]));
+            char_num += printed(std::printf("%s", sep));
         }
-        while (char_num < line_char_num)
+        for (; char_num < line_char_num; char_num++)
         {
-            char_num += (std::size_t)std::printf(" ");
+            std::printf(" ");
         }
         if (decode_ascii)
         {
-- 
2.43.0

