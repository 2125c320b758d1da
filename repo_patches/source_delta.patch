From 83d550eb9bdc96581b56afc81242ff453a141547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 1/7] fix: do not rely on upper half of 32-bit argument in asm
 add/subtract

---
 cpp/AsmX8664.s | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cpp/AsmX8664.s b/cpp/AsmX8664.s
index 34a1509..31ad9c9 100644
--- a/cpp/AsmX8664.s
+++ b/cpp/AsmX8664.s
@@ -10,6 +10,7 @@
 /* uint32_t asm_Uint256_add(uint32_t dest[8], const uint32_t src[8], uint32_t enable) */
 .globl asm_Uint256_add
 asm_Uint256_add:
+	movl    %edx, %edx  /* Upper half of argument register is undefined */
 	negq    %rdx
 	movq     0(%rsi), %rax
 	movq     8(%rsi), %rcx
@@ -31,6 +32,7 @@ asm_Uint256_add:
 /* uint32_t asm_Uint256_subtract(uint32_t dest[8], const uint32_t src[8], uint32_t enable) */
 .globl asm_Uint256_subtract
 asm_Uint256_subtract:
+	movl    %edx, %edx  /* Upper half of argument register is undefined */
 	negq    %rdx
 	movq     0(%rsi), %rax
 	movq     8(%rsi), %rcx
-- 
2.43.0


From 98a5dce048d06d4e198bb23553ebeaddf7dc0484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:44 +0000
Subject: [PATCH 2/7] fix: do not require 16-byte alignment in asm replace and
 equalTo

---
 cpp/AsmX8664.s | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/cpp/AsmX8664.s b/cpp/AsmX8664.s
index 31ad9c9..9186f74 100644
--- a/cpp/AsmX8664.s
+++ b/cpp/AsmX8664.s
@@ -98,8 +98,10 @@ asm_Uint256_replace:
 	pshufd    $0, %xmm0, %xmm0
 	movdqu     0(%rdi), %xmm1
 	movdqu    16(%rdi), %xmm2
-	pblendvb   0(%rsi), %xmm1
-	pblendvb  16(%rsi), %xmm2
+	movdqu     0(%rsi), %xmm3
+	movdqu    16(%rsi), %xmm4
+	pblendvb  %xmm3, %xmm1
+	pblendvb  %xmm4, %xmm2
 	movdqu    %xmm1,  0(%rdi)
 	movdqu    %xmm2, 16(%rdi)
 	retq
@@ -133,8 +135,10 @@ asm_Uint256_swap:
 asm_Uint256_equalTo:
 	movdqu     0(%rdi), %xmm0
 	movdqu    16(%rdi), %xmm1
-	pcmpeqb    0(%rsi), %xmm0
-	pcmpeqb   16(%rsi), %xmm1
+	movdqu     0(%rsi), %xmm2
+	movdqu    16(%rsi), %xmm3
+	pcmpeqb   %xmm2, %xmm0
+	pcmpeqb   %xmm3, %xmm1
 	pand      %xmm1, %xmm0
 	pmovmskb  %xmm0, %eax
 	cmpl      $0xFFFF, %eax
-- 
2.43.0


From 3e28234561a87a25b6a89bc98004ba27379f9209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 3/7] fix: reject Bech32 strings with uppercase before
 lowercase letters

---
 java/io/nayuki/bitcoin/crypto/Bech32.java | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/java/io/nayuki/bitcoin/crypto/Bech32.java b/java/io/nayuki/bitcoin/crypto/Bech32.java
index 7cd285a..74911ec 100644
--- a/java/io/nayuki/bitcoin/crypto/Bech32.java
+++ b/java/io/nayuki/bitcoin/crypto/Bech32.java
@@ -216,16 +216,18 @@ public final class Bech32 {
 		
 		{  // Normalize to lowercase, rejecting mixed case
 			boolean hasLower = false;
+			boolean hasUpper = false;
 			char[] temp = s.toCharArray();
 			for (int i = 0; i < temp.length; i++) {
 				char c = temp[i];
 				hasLower |= 'a' <= c && c <= 'z';
 				if ('A' <= c && c <= 'Z') {
-					if (hasLower)
-						throw new IllegalArgumentException("String has mixed case");
+					hasUpper = true;
 					temp[i] += 'a' - 'A';
 				}
 			}
+			if (hasLower && hasUpper)
+				throw new IllegalArgumentException("String has mixed case");
 			s = new String(temp);
 		}
 		
-- 
2.43.0


From 660764dd4a8fe0dbd199b08edc6e8f78a3b5568e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 4/7] fix: reject segwit addresses with a whole group of
 padding

---
 java/io/nayuki/bitcoin/crypto/Bech32.java | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/java/io/nayuki/bitcoin/crypto/Bech32.java b/java/io/nayuki/bitcoin/crypto/Bech32.java
index 74911ec..b66edf0 100644
--- a/java/io/nayuki/bitcoin/crypto/Bech32.java
+++ b/java/io/nayuki/bitcoin/crypto/Bech32.java
@@ -138,8 +138,8 @@ public final class Bech32 {
 		
 		// Final checks and return
 		assert outputIndex == witProg.length;
-		if (bitBuffer != 0)
-			throw new IllegalArgumentException("Non-zero padding");
+		if (bitBuffer != 0 || bitBufferLen >= IN_BITS)
+			throw new IllegalArgumentException("Non-zero or excessive padding");
 		return new Object[]{decoded[0], witVer, witProg};
 	}
 	
-- 
2.43.0


From 7d60fe3e0c8f25f3c47fddcebf132c2d8d75e126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 5/7] fix: throw IllegalArgumentException for Base58Check
 strings without a checksum

---
 java/io/nayuki/bitcoin/crypto/Base58Check.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/java/io/nayuki/bitcoin/crypto/Base58Check.java b/java/io/nayuki/bitcoin/crypto/Base58Check.java
index 6f3acc8..98ae68c 100644
--- a/java/io/nayuki/bitcoin/crypto/Base58Check.java
+++ b/java/io/nayuki/bitcoin/crypto/Base58Check.java
@@ -63,6 +63,8 @@ public final class Base58Check {
 	// The caller is responsible for handling the version byte(s).
 	public static byte[] base58ToBytes(String s) {
 		byte[] concat = base58ToRawBytes(s);
+		if (concat.length < 4)
+			throw new IllegalArgumentException("Missing checksum");
 		byte[] data = Arrays.copyOf(concat, concat.length - 4);
 		byte[] hash = Arrays.copyOfRange(concat, concat.length - 4, concat.length);
 		byte[] rehash = Arrays.copyOf(Sha256.getDoubleHash(data).toBytes(), 4);
-- 
2.43.0


From 687eb54d016fd12d3cb0d879eea0d03573a8febe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 6/7] fix: reduce the message hash modulo the order when
 signing (C++)

---
 cpp/Ecdsa.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cpp/Ecdsa.cpp b/cpp/Ecdsa.cpp
index 46f8c4a..1da5230 100644
--- a/cpp/Ecdsa.cpp
+++ b/cpp/Ecdsa.cpp
@@ -48,7 +48,8 @@ bool Ecdsa::sign(const Uint256 &privateKey, const Sha256Hash &msgHash, const Uin
 	countOps(1 * curvepointCopyOps);
 	
 	Uint256 s = r;
-	const Uint256 z(msgHash.value);
+	Uint256 z(msgHash.value);
+	z.subtract(order, static_cast<uint32_t>(z >= order));
 	multiplyModOrder(s, privateKey);
 	uint32_t carry = s.add(z);
 	s.subtract(order, carry | static_cast<uint32_t>(s >= order));
-- 
2.43.0


From 293012de2b1f461995c7ffe4a871af55592de697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:14 +0000
Subject: [PATCH 7/7] fix: reduce the message hash modulo the order when
 signing (Java)

---
 java/io/nayuki/bitcoin/crypto/Ecdsa.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/java/io/nayuki/bitcoin/crypto/Ecdsa.java b/java/io/nayuki/bitcoin/crypto/Ecdsa.java
index 692e67a..c021c94 100644
--- a/java/io/nayuki/bitcoin/crypto/Ecdsa.java
+++ b/java/io/nayuki/bitcoin/crypto/Ecdsa.java
@@ -72,6 +72,7 @@ public final class Ecdsa {
 		Int256Math.copy(val, rOff, val, sOff);
 		Arrays.fill(val, zOff, zOff + NUM_WORDS, 0);
 		Int256Math.bytesToUint(msgHash.toBytes(), val, zOff);
+		Int256Math.uintSubtract(val, zOff, orderOff, Int256Math.lessThan(val, zOff, orderOff) ^ 1, zOff);
 		multiplyModOrder(val, sOff, privateKey, 0, tempOff);
 		int carry = Int256Math.uintAdd(val, sOff, zOff, 1, sOff);
 		Int256Math.uintSubtract(val, sOff, orderOff, carry | (Int256Math.lessThan(val, sOff, orderOff) ^ 1), sOff);
-- 
2.43.0

