From 8622dd400e6120cdb9ef0916792bafbb16f57545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:43:42 +0000
Subject: [PATCH 1/4] fix: MovMax starts from the lowest value of floating
 point types

---
 movext.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movext.hh b/movext.hh
index ab9bf08..b66ffac 100644
--- a/movext.hh
+++ b/movext.hh
@@ -62,7 +62,7 @@ class MovMax
 {
 	MovExt<TYPE, std::equal_to<TYPE>, std::greater<TYPE>, NUM> movmax;
 public:
-	MovMax() : movmax(std::numeric_limits<TYPE>::min())
+	MovMax() : movmax(std::numeric_limits<TYPE>::lowest())
 	{
 	}
 	TYPE operator () (TYPE input)
-- 
2.43.0


From b78f31ead19844a9c1cd769bf4065cb659cc5667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:41:21 +0000
Subject: [PATCH 2/4] fix: atan2 keeps the sign of y when y/x underflows in the
 left half plane

---
 atan2.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atan2.hh b/atan2.hh
index a4d1ee1..df070a9 100644
--- a/atan2.hh
+++ b/atan2.hh
@@ -64,7 +64,7 @@ TYPE atan2(TYPE y, TYPE x)
 		return copysign(Const<TYPE>::HalfPi(), y);
 	TYPE phase = atan(y / x);
 	if (x < TYPE(0))
-		return phase > TYPE(0) ?
+		return y < TYPE(0) ?
 			phase - Const<TYPE>::Pi() :
 			phase + Const<TYPE>::Pi();
 	return phase;
-- 
2.43.0


From baf05a81ccfd16817e1a4548e2826bda0387da95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 23:52:35 +0000
Subject: [PATCH 3/4] fix: FDZP moves every negative frequency bin without
 overwriting

---
 fdzp.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fdzp.hh b/fdzp.hh
index 09d71e4..c2b2bff 100644
--- a/fdzp.hh
+++ b/fdzp.hh
@@ -23,14 +23,14 @@ public:
 	void operator ()(CMPLX *output, const CMPLX *input)
 	{
 		fwd(tmp, input);
+		for (int i = INPUT-1; i > INPUT/2; --i)
+			tmp[OUTPUT-INPUT+i] = tmp[i];
+		for (int i = INPUT/2+1; i <= OUTPUT-INPUT+INPUT/2; ++i)
+			tmp[i] = 0;
 		if (!(INPUT&1)) {
 			tmp[INPUT/2] *= VALUE(0.5);
 			tmp[OUTPUT-INPUT/2] = tmp[INPUT/2];
 		}
-		for (int i = (INPUT+1)/2+1; i < INPUT; ++i)
-			tmp[OUTPUT-INPUT+i] = tmp[i];
-		for (int i = (INPUT+1)/2+1; i < INPUT; ++i)
-			tmp[i] = 0;
 		bwd(output, tmp);
 		for (int i = 0; i < OUTPUT; ++i)
 			output[i] *= SCALE;
-- 
2.43.0


From f17ef511d17d28912679e66d48fcda5303799c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 00:15:45 +0000
Subject: [PATCH 4/4] fix: ReadPNM picks the branch of the sRGB curve by the
 exact threshold

The threshold between the linear and the power part was rounded to an
integer code. For small maximum values this rounded up and sent a code to
the wrong branch: with a maximum value of 13, code 1 was read as a value
whose sRGB code is 0.907.
---
 netpbm.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netpbm.hh b/netpbm.hh
index 6d78ac8..9d210ce 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -20,7 +20,7 @@ class ReadPNM : public ReadPEL<TYPE>
 
 	TYPE linear(int val)
 	{
-		int K0 = std::nearbyint(0.04045 * maxval_);
+		TYPE K0(0.04045 * maxval_);
 		TYPE phi(12.92 * maxval_), a(0.055 * maxval_), gamma(2.4);
 		return val <= K0 ? val / phi : std::pow((val + a) / (maxval_ + a), gamma);
 	}
-- 
2.43.0

