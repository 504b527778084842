From 3bc1249dc8ff8be913747a2010b0b01bf535d321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 01/12] fix: ArtinSchreier table skipped one solvable right
 hand side

In fields where x*x+x can become all ones (e.g. 0b100101, 0b100101011 or
the 16 bit ones) correctable two error patterns were reported as failure.
---
 reed_solomon_error_correction.hh | 2 --
 1 file changed, 2 deletions(-)

diff --git a/reed_solomon_error_correction.hh b/reed_solomon_error_correction.hh
index 4796adf..1bb1d47 100644
--- a/reed_solomon_error_correction.hh
+++ b/reed_solomon_error_correction.hh
@@ -44,8 +44,6 @@ struct ArtinSchreier
 		for (int i = 2; i < GF::N; i += 2) {
 			ValueType x(i);
 			ValueType xxx(x * x + x);
-			if (xxx == ValueType(GF::N))
-				continue;
 			assert(xxx.v);
 			assert(!imap[xxx.v].v);
 			imap[xxx.v] = x;
-- 
2.43.0


From 836a0c8d7a84f432752357a431f6342db3c0e91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:55 +0000
Subject: [PATCH 02/12] fix: reject locator polynomials of too low degree

If the degree of the locator is below the length of the shift register, no
error pattern explains the syndromes and applying the found roots leaves a
non-codeword behind while reporting success.
---
 reed_solomon_error_correction.hh | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/reed_solomon_error_correction.hh b/reed_solomon_error_correction.hh
index 1bb1d47..a5b06c1 100644
--- a/reed_solomon_error_correction.hh
+++ b/reed_solomon_error_correction.hh
@@ -205,9 +205,8 @@ struct ReedSolomonErrorCorrection
 		assert(locator_degree);
 		assert(locator_degree <= NR);
 		assert(locator[0] == ValueType(1));
-		while (!locator[locator_degree])
-			if (--locator_degree < 0)
-				return -1;
+		if (!locator[locator_degree])
+			return -1;
 		int count = search(locator, locator_degree, locations);
 		if (count < locator_degree)
 			return -1;
-- 
2.43.0


From 1f6457424d13c577983952c9a92a733fa45288ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:05 +0000
Subject: [PATCH 03/12] fix: pick the least reliable positions in the Chase
 algorithm

The list started out filled with position zero, so with position zero being
among the least reliable ones the others never made it into the list and
most of the test patterns were the same.
---
 short_bch_code_decoder.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/short_bch_code_decoder.hh b/short_bch_code_decoder.hh
index 6e68966..e6db72b 100644
--- a/short_bch_code_decoder.hh
+++ b/short_bch_code_decoder.hh
@@ -98,7 +98,7 @@ public:
 			int worst[L] = { 0 };
 			for (int k = 0; k < N; ++k) {
 				int j = 0;
-				while (j < L && std::abs(code[worst[j]]) < std::abs(code[k]))
+				while (j < L && j < k && std::abs(code[worst[j]]) < std::abs(code[k]))
 					++j;
 				for (int i = L-1; i > j; --i)
 					worst[i] = worst[i-1];
-- 
2.43.0


From 8fd0f6c40a9d9f3253f16a4d51851d6404c6124e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:15 +0000
Subject: [PATCH 04/12] fix: let the Chase algorithm compare candidates of
 negative correlation

The placeholders for a missing word and for the second best metric were
valid metrics, so a uniquely best candidate could be reported as failure
and a tie could go unnoticed.
---
 short_bch_code_decoder.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/short_bch_code_decoder.hh b/short_bch_code_decoder.hh
index e6db72b..20212e7 100644
--- a/short_bch_code_decoder.hh
+++ b/short_bch_code_decoder.hh
@@ -6,6 +6,8 @@ Copyright 2020 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <limits>
+
 namespace CODE {
 
 template <int N, int K, int G, int T>
@@ -30,7 +32,7 @@ class ShortBCHCodeDecoder
 	static int metric(const int8_t *soft, int hard)
 	{
 		if (hard < 0)
-			return -1;
+			return std::numeric_limits<int>::min();
 		int lol = 8 * sizeof(hard) - 1;
 		int sum = 0;
 		for (int i = 0; i < N; ++i)
@@ -71,7 +73,7 @@ public:
 			return word;
 		// metric of hard decision
 		int best = metric(code, word);
-		int next = -2;
+		int next = std::numeric_limits<int>::min();
 		auto update = [code, &word, &best, &next](int hard) {
 			if (hard == word)
 				return;
-- 
2.43.0


From b7c905e23059900dc15ac3d4a203258b54acc6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 05/12] fix: OSD: don't mistake a best or second best
 correlation of -1 or less

The runner-up started out as -1, so with only negative correlations ties
went unnoticed and a best correlation of -1 was always called ambiguous.
---
 osd.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/osd.hh b/osd.hh
index dfbc0c1..b9f9259 100644
--- a/osd.hh
+++ b/osd.hh
@@ -6,6 +6,7 @@ Copyright 2020 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <limits>
 #include <initializer_list>
 #include "bitman.hh"
 #include "sort.hh"
@@ -191,7 +192,7 @@ public:
 		for (int i = 0; i < N; ++i)
 			candidate[i] = codeword[i];
 		int best = metric(codeword, softperm);
-		int next = -1;
+		int next = std::numeric_limits<int>::min();
 		auto update = [this, &best, &next]() {
 			int met = metric(codeword, softperm);
 			if (met > best) {
-- 
2.43.0


From 42afd33f128ef0a4b95697619c9cbde7c56c7299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:21 +0000
Subject: [PATCH 06/12] fix: OSLD: list candidates with negative correlations

Unused list entries started out with a score of -1, so candidates with
correlations of -1 or less never replaced them and uninitialized words
were returned.
---
 osd.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/osd.hh b/osd.hh
index b9f9259..351245d 100644
--- a/osd.hh
+++ b/osd.hh
@@ -353,7 +353,7 @@ public:
 			candidate[i] = codeword[i];
 		score[0] = metric();
 		for (int i = 1; i < L; ++i)
-			score[i] = -1;
+			score[i] = std::numeric_limits<int>::min();
 		for (int i = 0; i < L; ++i)
 			cperm[i] = i;
 		for (int a = 0; O >= 1 && a < K; ++a) {
-- 
2.43.0


From 0e47044ff1863b3294ee1336cef124afa6a50af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:51 +0000
Subject: [PATCH 07/12] fix: LDPC decoder: rotate write disable bits only among
 conflicting links

When the last link of a check node was not part of the conflicting links
right before it, its bit was rotated together with theirs: it then lost
its updates while all of the conflicting links were written.
---
 ldpc_decoder.hh | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ldpc_decoder.hh b/ldpc_decoder.hh
index 010ae96..1d9a3fd 100644
--- a/ldpc_decoder.hh
+++ b/ldpc_decoder.hh
@@ -189,11 +189,9 @@ class LDPCDecoder
 					}
 				}
 				if (wd[W*i+j]) {
-					for (int first = 0, c = 1; c < cnt; ++c) {
-						if (lo[first].off != lo[c].off || c == cnt-1) {
+					for (int first = 0, c = 1; c <= cnt; ++c) {
+						if (c == cnt || lo[first].off != lo[c].off) {
 							int last = c - 1;
-							if (c == cnt-1)
-								++last;
 							if (last != first) {
 								int count = last - first + 1;
 								wd_t mask = ((1 << count) - 1) << first;
-- 
2.43.0


From 5ba01eb28c28156088d0721dc1817175665d36bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:14 +0000
Subject: [PATCH 08/12] fix: parity aided decoder: don't touch message before
 the first message bit

With the very first non-frozen position being a parity position, the
elements before the first of message and maps were overwritten.
---
 polar_parity_aided.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/polar_parity_aided.hh b/polar_parity_aided.hh
index f1230b0..2a3e771 100644
--- a/polar_parity_aided.hh
+++ b/polar_parity_aided.hh
@@ -135,8 +135,10 @@ struct PolarParityNode<TYPE, 0>
 			++*index;
 			--*count;
 		} else {
-			message[*index-1] = vshuf(message[*index-1], map);
-			maps[*index-1] = vshuf(maps[*index-1], map);
+			if (*index) {
+				message[*index-1] = vshuf(message[*index-1], map);
+				maps[*index-1] = vshuf(maps[*index-1], map);
+			}
 			*count = stride;
 		}
 		*hard = hrd;
-- 
2.43.0


From f78cb63bb2eb85e085e3c5837f6ad906a5fc4715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:04 +0000
Subject: [PATCH 09/12] fix: clamp 64 bit lanes with AVX2 instructions

---
 avx2.hh        | 4 +++-
 avx2_double.hh | 7 +++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/avx2.hh b/avx2.hh
index b275cee..ef44102 100644
--- a/avx2.hh
+++ b/avx2.hh
@@ -1150,7 +1150,9 @@ template <>
 inline SIMD<int64_t, 4> vclamp(SIMD<int64_t, 4> x, int64_t a, int64_t b)
 {
 	SIMD<int64_t, 4> tmp;
-	tmp.m = _mm256_min_epi64(_mm256_max_epi64(x.m, _mm256_set1_epi64x(a)), _mm256_set1_epi64x(b));
+	__m256i c = _mm256_set1_epi64x(a), d = _mm256_set1_epi64x(b);
+	__m256i e = _mm256_blendv_epi8(x.m, c, _mm256_cmpgt_epi64(c, x.m));
+	tmp.m = _mm256_blendv_epi8(e, d, _mm256_cmpgt_epi64(e, d));
 	return tmp;
 }
 
diff --git a/avx2_double.hh b/avx2_double.hh
index 82a82bc..901dfdb 100644
--- a/avx2_double.hh
+++ b/avx2_double.hh
@@ -1276,8 +1276,11 @@ template <>
 inline SIMD<int64_t, 8> vclamp(SIMD<int64_t, 8> x, int64_t a, int64_t b)
 {
 	SIMD<int64_t, 8> tmp;
-	for (int i = 0; i < 2; ++i)
-		tmp.m[i] = _mm256_min_epi64(_mm256_max_epi64(x.m[i], _mm256_set1_epi64x(a)), _mm256_set1_epi64x(b));
+	__m256i c = _mm256_set1_epi64x(a), d = _mm256_set1_epi64x(b);
+	for (int i = 0; i < 2; ++i) {
+		__m256i e = _mm256_blendv_epi8(x.m[i], c, _mm256_cmpgt_epi64(c, x.m[i]));
+		tmp.m[i] = _mm256_blendv_epi8(e, d, _mm256_cmpgt_epi64(e, d));
+	}
 	return tmp;
 }
 
-- 
2.43.0


From 79658de4f62c3e0fe8c32331b9073c6d1b7d42a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:09 +0000
Subject: [PATCH 10/12] fix: polar list decoders: no fixed metric for dead and
 forbidden paths

The constant of one million was less than the metrics of the living: with
large soft values or long words forbidden forks of the parity aided
decoder survived instead, and copies stood in for real paths.
---
 polar_list_decoder.hh | 3 ++-
 polar_parity_aided.hh | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/polar_list_decoder.hh b/polar_list_decoder.hh
index 07a1cb1..d78b93b 100644
--- a/polar_list_decoder.hh
+++ b/polar_list_decoder.hh
@@ -6,6 +6,7 @@ Copyright 2020 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <limits>
 #include "sort.hh"
 #include "polar_helper.hh"
 
@@ -289,7 +290,7 @@ public:
 		int count = 0;
 		metric[0] = 0;
 		for (int k = 1; k < TYPE::SIZE; ++k)
-			metric[k] = 1000000;
+			metric[k] = std::numeric_limits<PATH>::max() / 2;
 		int length = 1 << level;
 		for (int i = 0; i < length; ++i)
 			soft[length+i] = vdup<TYPE>(codeword[i]);
diff --git a/polar_parity_aided.hh b/polar_parity_aided.hh
index 2a3e771..b009774 100644
--- a/polar_parity_aided.hh
+++ b/polar_parity_aided.hh
@@ -6,6 +6,7 @@ Copyright 2023 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <limits>
 #include "sort.hh"
 #include "polar_helper.hh"
 
@@ -114,9 +115,9 @@ struct PolarParityNode<TYPE, 0>
 			*parity = PH::one();
 			for (int k = 0; k < TYPE::SIZE; ++k)
 				if (chk.v[k] < 0)
-					fork[2*k] = 1000000;
+					fork[2*k] = std::numeric_limits<PATH>::max();
 				else
-					fork[2*k+1] = 1000000;
+					fork[2*k+1] = std::numeric_limits<PATH>::max();
 		}
 		int perm[2*TYPE::SIZE];
 		CODE::insertion_sort(perm, fork, 2*TYPE::SIZE);
@@ -356,7 +357,7 @@ public:
 		PATH metric[TYPE::SIZE];
 		metric[0] = 0;
 		for (int k = 1; k < TYPE::SIZE; ++k)
-			metric[k] = 1000000;
+			metric[k] = std::numeric_limits<PATH>::max() / 2;
 		int length = 1 << level;
 		for (int i = 0; i < length; ++i)
 			soft[length+i] = vdup<TYPE>(codeword[i]);
-- 
2.43.0


From 8e7fd9b8d29525bce554048bb5b305b62ef17362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:18 +0000
Subject: [PATCH 11/12] fix: Hadamard decoder: the only element of the shortest
 code was not read

---
 hadamard_decoder.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hadamard_decoder.hh b/hadamard_decoder.hh
index 3da8548..e46e4d6 100644
--- a/hadamard_decoder.hh
+++ b/hadamard_decoder.hh
@@ -16,6 +16,7 @@ public:
 	int operator()(const int8_t *code)
 	{
 		int sum[N];
+		sum[0] = code[0];
 		for (int i = 0; i < N-1; i += 2) {
 			sum[i] = code[i] + code[i+1];
 			sum[i+1] = code[i] - code[i+1];
-- 
2.43.0


From b17f3d43a43451a12ff818d8fd87bc2a657d3a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:26 +0000
Subject: [PATCH 12/12] fix: sorting no elements wrote an index

---
 sort.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sort.hh b/sort.hh
index 8742e6c..c54ac8a 100644
--- a/sort.hh
+++ b/sort.hh
@@ -33,8 +33,7 @@ static void insertion_sort(TYPE *a, int n, COMP comp)
 template <typename INDEX, typename TYPE>
 static void insertion_sort(INDEX *p, TYPE *a, int n)
 {
-	p[0] = 0;
-	for (int i = 1, j; i < n; ++i) {
+	for (int i = 0, j; i < n; ++i) {
 		TYPE t = a[i];
 		for (j = i; j > 0 && t < a[j-1]; --j) {
 			a[j] = a[j-1];
-- 
2.43.0

