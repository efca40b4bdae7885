From b770c9b53d54b4eec5818e53fbad9e73f644a452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:47 +0000
Subject: [PATCH 01/15] fix: zero pad odd sizes and small ratios correctly in
 FDZP

The negative frequencies of an odd sized input start at INPUT/2+1, but the
first of them was left in place.  With OUTPUT smaller than 1.5 times INPUT the
source and destination ranges overlap, so bins were overwritten or cleared
before they were used.  Move the bins from the top down and clear only the gap.
---
 fdzp.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fdzp.hh b/fdzp.hh
index 09d71e4..bb23331 100644
--- a/fdzp.hh
+++ b/fdzp.hh
@@ -23,14 +23,14 @@ public:
 	void operator ()(CMPLX *output, const CMPLX *input)
 	{
 		fwd(tmp, input);
+		for (int i = INPUT-1; i > INPUT/2; --i)
+			tmp[OUTPUT-INPUT+i] = tmp[i];
+		for (int i = INPUT/2+1; i < OUTPUT-INPUT+INPUT/2+1; ++i)
+			tmp[i] = 0;
 		if (!(INPUT&1)) {
 			tmp[INPUT/2] *= VALUE(0.5);
 			tmp[OUTPUT-INPUT/2] = tmp[INPUT/2];
 		}
-		for (int i = (INPUT+1)/2+1; i < INPUT; ++i)
-			tmp[OUTPUT-INPUT+i] = tmp[i];
-		for (int i = (INPUT+1)/2+1; i < INPUT; ++i)
-			tmp[i] = 0;
 		bwd(output, tmp);
 		for (int i = 0; i < OUTPUT; ++i)
 			output[i] *= SCALE;
-- 
2.43.0


From a36cdc65193133cf4e3c115eda0e5e6580f91944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:47 +0000
Subject: [PATCH 02/15] fix: start MovMax from the lowest value of the type

For floating point types min() is the smallest positive normal number, not the
identity of max.  An input equal to it was dropped from the window too early.
---
 movext.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/movext.hh b/movext.hh
index ab9bf08..b66ffac 100644
--- a/movext.hh
+++ b/movext.hh
@@ -62,7 +62,7 @@ class MovMax
 {
 	MovExt<TYPE, std::equal_to<TYPE>, std::greater<TYPE>, NUM> movmax;
 public:
-	MovMax() : movmax(std::numeric_limits<TYPE>::min())
+	MovMax() : movmax(std::numeric_limits<TYPE>::lowest())
 	{
 	}
 	TYPE operator () (TYPE input)
-- 
2.43.0


From 56a2676b7ba4652f06842a337d48b19ed3297969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:47 +0000
Subject: [PATCH 03/15] fix: pick the half plane in atan2 by the sign of y

When y/x underflows to zero the phase carries no sign information, and a tiny
negative y with a negative x came out as +Pi instead of -Pi.
---
 atan2.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/atan2.hh b/atan2.hh
index a4d1ee1..df070a9 100644
--- a/atan2.hh
+++ b/atan2.hh
@@ -64,7 +64,7 @@ TYPE atan2(TYPE y, TYPE x)
 		return copysign(Const<TYPE>::HalfPi(), y);
 	TYPE phase = atan(y / x);
 	if (x < TYPE(0))
-		return phase > TYPE(0) ?
+		return y < TYPE(0) ?
 			phase - Const<TYPE>::Pi() :
 			phase + Const<TYPE>::Pi();
 	return phase;
-- 
2.43.0


From 0f8316d26616cdcb27873944b2c43e42d64434eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:47 +0000
Subject: [PATCH 04/15] fix: support the exponent range of double in ldexp

The scale was built from 1 << (|n| / 8), which overflows int for |n| >= 248.
ldexp and exp10 returned garbage for doubles beyond 1e74 and below 1e-74.
---
 exp.hh | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/exp.hh b/exp.hh
index 6e822a4..6ade555 100644
--- a/exp.hh
+++ b/exp.hh
@@ -15,13 +15,10 @@ template <typename TYPE>
 TYPE ldexp(TYPE x, int n)
 {
 	int a = n < 0 ? -n : n;
-	int a8 = a / 8;
-	int ar = a - a8 * 8;
-	TYPE t = 1 << a8;
-	t *= t;
-	t *= t;
-	t *= t;
-	t *= 1 << ar;
+	TYPE t = 1;
+	for (TYPE b = 2; a; a >>= 1, b *= b)
+		if (a & 1)
+			t *= b;
 	return n < 0 ? x / t : x * t;
 }
 
-- 
2.43.0


From 600a1c4b7c33125d86e3d90302bf816e726bd27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:47 +0000
Subject: [PATCH 05/15] fix: use the floating point abs in SMA1::abs_dev

An unqualified abs in namespace DSP finds the integer abs of the C library (or
nothing at all if complex.hh was included before), so fractional deviations
were truncated to zero.
---
 sma.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sma.hh b/sma.hh
index dd2039a..189ca9a 100644
--- a/sma.hh
+++ b/sma.hh
@@ -6,6 +6,7 @@ Copyright 2019 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <cmath>
 #include "kahan.hh"
 #include "delay.hh"
 #include "swa.hh"
@@ -26,6 +27,7 @@ public:
 	}
 	VALUE abs_dev()
 	{
+		using std::abs;
 		VALUE sum(abs(hist_inp[0] - hist_avg));
 		for (int i = 1; i < NUM; ++i)
 			sum += abs(hist_inp[i] - hist_avg);
-- 
2.43.0


From cccf546e6e6ab53abbaf619260e749980f8ffb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:02:47 +0000
Subject: [PATCH 06/15] fix: use the floating point abs in Coeffs::normalize

An unqualified abs in namespace DSP finds the integer abs of the C library (or
nothing at all if complex.hh was included before), so the coefficients were
divided by the truncated sum.
---
 coeffs.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coeffs.hh b/coeffs.hh
index a9bccd6..a9e123f 100644
--- a/coeffs.hh
+++ b/coeffs.hh
@@ -6,6 +6,8 @@ Copyright 2018 Ahmet Inan <inan@aicodix.de>
 
 #pragma once
 
+#include <cmath>
+
 namespace DSP {
 
 template <int TAPS, typename TYPE, bool NORMALIZE = false>
@@ -31,6 +33,7 @@ public:
 	}
 	void normalize(TYPE divisor = 1)
 	{
+		using std::abs;
 		TYPE sum(0);
 		for (int n = 0; n < TAPS; ++n)
 			sum += w[n];
-- 
2.43.0


From b9c46311638b225eeda2f879680e3493a9424617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:25 +0000
Subject: [PATCH 07/15] fix: report an unsupported WAV file as not good

The header parser returned early on anything it could not handle, but good()
still said true and every accessor returned an uninitialized member.  The
factor is only set once the header has been accepted.
---
 wav.hh | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wav.hh b/wav.hh
index 94c8e95..b0a5953 100644
--- a/wav.hh
+++ b/wav.hh
@@ -45,7 +45,9 @@ class ReadWAV : public ReadPCM<TYPE>
 		return u.f;
 	}
 public:
-	ReadWAV(const char *name) : is(name, std::ios::binary)
+	ReadWAV(const char *name) : is(name, std::ios::binary),
+		bits_(0), bytes(0), rate_(0), channels_(0), frames_(0),
+		offset(0), factor(0)
 	{
 		char ChunkID[4];
 		is.read(ChunkID, 4);
@@ -141,7 +143,7 @@ public:
 	}
 	bool good()
 	{
-		return is.good();
+		return factor && is.good();
 	}
 	void skip(int num)
 	{
-- 
2.43.0


From e1eb40cb5b4862b926fb3818dcf818ae5316ec60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:25 +0000
Subject: [PATCH 08/15] fix: reject WAV files without channels

A header with zero channels and matching zero block align and byte rate made
the reader divide the data size by zero.  Counts beyond 32767 wrapped around
to negative values.
---
 wav.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wav.hh b/wav.hh
index b0a5953..0824103 100644
--- a/wav.hh
+++ b/wav.hh
@@ -69,6 +69,8 @@ public:
 		if (AudioFormat != 1 && AudioFormat != 3)
 			return;
 		channels_ = readLE(2);
+		if (channels_ < 1)
+			return;
 		rate_ = readLE(4);
 		int ByteRate = readLE(4);
 		int BlockAlign = readLE(2);
-- 
2.43.0


From 272e80ebf36eaa95dcab77c9c43baada58b57d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:25 +0000
Subject: [PATCH 09/15] fix: avoid signed overflow on hostile WAV headers

Large values of the rate, channels and data size fields overflowed int while
the header was checked for consistency.
---
 wav.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wav.hh b/wav.hh
index 0824103..240241b 100644
--- a/wav.hh
+++ b/wav.hh
@@ -84,7 +84,7 @@ public:
 		bytes = bits_ / 8;
 		if (bytes * channels_ != BlockAlign)
 			return;
-		if (rate_ * bytes * channels_ != ByteRate)
+		if ((long long)rate_ * bytes * channels_ != ByteRate)
 			return;
 		if (Subchunk1Size == 18) {
 			int ExtSize = readLE(2);
@@ -108,7 +108,7 @@ public:
 		if (Subchunk2Size <= 0 || ChunkSize <= 0) {
 			frames_ = -1;
 		} else {
-			if (Subchunk2Size + overhead - 8 != ChunkSize)
+			if (Subchunk2Size != ChunkSize - (overhead - 8))
 				return;
 			if (Subchunk1Size == 16)
 				frames_ = Subchunk2Size / (bytes * channels_);
-- 
2.43.0


From a2e5898c7b8fccba5ad57811164b77eef08eab39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:25 +0000
Subject: [PATCH 10/15] fix: report an unsupported Netpbm file as not good

The header parser returned early on anything it could not handle, but good()
still said true and every accessor returned an uninitialized member.  The
maximum value is only set once the header has been accepted.
---
 netpbm.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/netpbm.hh b/netpbm.hh
index 6d78ac8..fdf8ed9 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -41,7 +41,8 @@ class ReadPNM : public ReadPEL<TYPE>
 		return c - '0';
 	}
 public:
-	ReadPNM(const char *name) : is(name, std::ios::binary)
+	ReadPNM(const char *name) : is(name, std::ios::binary),
+		width_(0), height_(0), maxval_(0), mono_(false)
 	{
 		if (is.get() != 'P')
 			return;
@@ -98,7 +99,7 @@ public:
 	}
 	bool good()
 	{
-		return is.good();
+		return maxval_ && is.good();
 	}
 	bool mono()
 	{
-- 
2.43.0


From 440856246b676b61b26ae6947f58a078f4f60968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:03:25 +0000
Subject: [PATCH 11/15] fix: avoid signed overflow on hostile Netpbm headers

A long run of digits in the header overflowed int while it was parsed.
---
 netpbm.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/netpbm.hh b/netpbm.hh
index fdf8ed9..3a79d6c 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -66,8 +66,11 @@ public:
 					while (is.good() && !newline(is.get()));
 			while (space(c))
 				c = is.get();
-			for (num[i] = 0; digit(c); c = is.get())
+			for (num[i] = 0; digit(c); c = is.get()) {
+				if (num[i] > (2147483647 - 9) / 10)
+					return;
 				num[i] = 10 * num[i] + value(c);
+			}
 		}
 		if (!space(c))
 			return;
-- 
2.43.0


From df5058b814a7512f2a64606b578170cea7ded014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 18:06:28 +0000
Subject: [PATCH 12/15] fix: do not compare WAV chunk IDs that could not be
 read

At the end of a truncated file the buffers for the chunk IDs were left
uninitialized, so whatever was on the stack decided how parsing went on.
---
 wav.hh | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wav.hh b/wav.hh
index 240241b..7e0a046 100644
--- a/wav.hh
+++ b/wav.hh
@@ -49,16 +49,16 @@ public:
 		bits_(0), bytes(0), rate_(0), channels_(0), frames_(0),
 		offset(0), factor(0)
 	{
-		char ChunkID[4];
+		char ChunkID[4] = { 0 };
 		is.read(ChunkID, 4);
 		if (cmp4("RIFF", ChunkID))
 			return;
 		int ChunkSize = readLE(4);
-		char Format[4];
+		char Format[4] = { 0 };
 		is.read(Format, 4);
 		if (cmp4("WAVE", Format))
 			return;
-		char Subchunk1ID[4];
+		char Subchunk1ID[4] = { 0 };
 		is.read(Subchunk1ID, 4);
 		if (cmp4("fmt ", Subchunk1ID))
 			return;
@@ -90,7 +90,7 @@ public:
 			int ExtSize = readLE(2);
 			if (ExtSize != 0)
 				return;
-			char SubchunkID[4];
+			char SubchunkID[4] = { 0 };
 			is.read(SubchunkID, 4);
 			if (cmp4("fact", SubchunkID))
 				return;
@@ -99,7 +99,7 @@ public:
 				return;
 			frames_ = readLE(4);
 		}
-		char Subchunk2ID[4];
+		char Subchunk2ID[4] = { 0 };
 		is.read(Subchunk2ID, 4);
 		if (cmp4("data", Subchunk2ID))
 			return;
-- 
2.43.0


From 7144d910ecd09cc8ca807e9fabeb357fa825056a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:15:01 +0000
Subject: [PATCH 13/15] fix: avoid signed overflow when skipping far in WAV
 files

---
 wav.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wav.hh b/wav.hh
index 7e0a046..4afc5d7 100644
--- a/wav.hh
+++ b/wav.hh
@@ -149,7 +149,7 @@ public:
 	}
 	void skip(int num)
 	{
-		is.seekg(num * channels_ * bytes, std::ios_base::cur);
+		is.seekg((std::streamoff)num * channels_ * bytes, std::ios_base::cur);
 	}
 	int frames()
 	{
-- 
2.43.0


From 68b2df5de7bf1c0d65eac570bcc249a07d513b3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 22:20:03 +0000
Subject: [PATCH 14/15] fix: end the linear segment of sRGB at the right code

---
 netpbm.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/netpbm.hh b/netpbm.hh
index 3a79d6c..2b39429 100644
--- a/netpbm.hh
+++ b/netpbm.hh
@@ -20,7 +20,7 @@ class ReadPNM : public ReadPEL<TYPE>
 
 	TYPE linear(int val)
 	{
-		int K0 = std::nearbyint(0.04045 * maxval_);
+		int K0 = 0.04045 * maxval_;
 		TYPE phi(12.92 * maxval_), a(0.055 * maxval_), gamma(2.4);
 		return val <= K0 ? val / phi : std::pow((val + a) / (maxval_ + a), gamma);
 	}
-- 
2.43.0


From 22ade3280d7404a0f954ffc3a2d7ac2d2bd11d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 02:42:14 +0000
Subject: [PATCH 15/15] fix: avoid zero by zero in integer ratio filter designs
 with a cutoff of zero

---
 filter.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/filter.hh b/filter.hh
index 006aacd..9af565e 100644
--- a/filter.hh
+++ b/filter.hh
@@ -35,9 +35,9 @@ public:
 	TYPE operator () (int n, int N) const
 	{
 		int twox = 2 * n - (N - 1);
-		return !twox ? fac : fac *
+		return !twox ? fac :
 			UnitCircle<TYPE>::sin((twox * num) % (2 * den), 2 * den) /
-			(Const<TYPE>::HalfPi() * fac * TYPE(twox));
+			(Const<TYPE>::HalfPi() * TYPE(twox));
 	}
 };
 
@@ -68,8 +68,8 @@ public:
 		int twox = 2 * n - (N - 1);
 		return !twox ? TYPE(1) - fac :
 			UnitCircle<TYPE>::sin(twox % 4, 4) / (Const<TYPE>::HalfPi() * TYPE(twox))
-			- fac * UnitCircle<TYPE>::sin((twox * num) % (2 * den), 2 * den) /
-			(Const<TYPE>::HalfPi() * fac * TYPE(twox));
+			- UnitCircle<TYPE>::sin((twox * num) % (2 * den), 2 * den) /
+			(Const<TYPE>::HalfPi() * TYPE(twox));
 	}
 };
 
-- 
2.43.0

