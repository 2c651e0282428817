From 967f1ab4b400e22b0fade0af0a74b7156ad2298d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:24 +0000
Subject: [PATCH 1/3] fix: do not modify the receiver in FieldElement.BytesInto
 (generic backend)

BytesInto overwrote its receiver with the fully reduced, non-negative limbs.
These do not leave the headroom Mul() assumes after an add() or sub(), so
that 19*b[i] overflowed an int32 when a point obtained from SetRistretto() (or
one on which RistrettoElligator2Inverse() had been called) was added
to another one: roughly one in five such sums was wrong.
---
 edwards25519/field_generic.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/edwards25519/field_generic.go b/edwards25519/field_generic.go
index c8eb2a2..b02ad76 100644
--- a/edwards25519/field_generic.go
+++ b/edwards25519/field_generic.go
@@ -251,6 +251,11 @@ func (fe *FieldElement) ConditionalSet(a *FieldElement, b int32) {
 func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
 	var carry [10]int32
 
+	// Reduce a copy: fe should not be changed and the fully reduced limbs
+	// are too large for the headroom that Mul() assumes after add() and sub().
+	orig, t := fe, *fe
+	fe = &t
+
 	q := (19*fe[9] + (1 << 24)) >> 25
 	q = (fe[0] + q) >> 26
 	q = (fe[1] + q) >> 25
@@ -327,7 +332,7 @@ func (fe *FieldElement) BytesInto(s *[32]byte) *FieldElement {
 	s[29] = byte(fe[9] >> 2)
 	s[30] = byte(fe[9] >> 10)
 	s[31] = byte(fe[9] >> 18)
-	return fe
+	return orig
 }
 
 // Sets fe to the little endian number encoded in buf modulo 2^255-19.
-- 
2.43.0


From 04e56181eaf09c452e923a396d9489f3bf347a76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:35:52 +0000
Subject: [PATCH 2/3] fix: do not panic in UnmarshalText on text longer than an
 encoding

base64's Decode() requires a destination of at least DecodedLen() bytes.
Both Point.UnmarshalText() and Scalar.UnmarshalText() passed a 32 byte buffer
and so panicked with an index out of range on most texts of 44 or more
characters, instead of returning an error.
---
 ristretto.go | 5 ++++-
 scalar.go    | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/ristretto.go b/ristretto.go
index 7917d79..89af5bd 100644
--- a/ristretto.go
+++ b/ristretto.go
@@ -373,13 +373,16 @@ func textToBuf(dst, src []byte) error {
 		}
 	}
 	enc := base64.RawURLEncoding
-	n, err = enc.Decode(dst, src)
+	// Decode() requires room for everything src might encode.
+	buf := make([]byte, enc.DecodedLen(len(src)))
+	n, err = enc.Decode(buf, src)
 	if err != nil {
 		return err
 	}
 	if n != 32 {
 		return fmt.Errorf("ristretto.Point should be 32 bytes; not %d", n)
 	}
+	copy(dst, buf)
 	return nil
 }
 
diff --git a/scalar.go b/scalar.go
index 10c0cfc..b286792 100644
--- a/scalar.go
+++ b/scalar.go
@@ -1067,13 +1067,16 @@ func (s *Scalar) MarshalText() ([]byte, error) {
 func (s *Scalar) UnmarshalText(txt []byte) error {
 	enc := base64.RawURLEncoding
 	var buf [32]byte
-	n, err := enc.Decode(buf[:], txt)
+	// Decode() requires room for everything txt might encode.
+	dec := make([]byte, enc.DecodedLen(len(txt)))
+	n, err := enc.Decode(dec, txt)
 	if err != nil {
 		return err
 	}
 	if n != 32 {
 		return fmt.Errorf("ristretto.Scalar should be 32 bytes; not %d", n)
 	}
+	copy(buf[:], dec)
 	s.SetBytes(&buf)
 	return nil
 }
-- 
2.43.0


From be17f3deb75b658f5eb9b8639213ba364e361579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:19:40 +0000
Subject: [PATCH 3/3] fix: NielsPoint.Neg computed a wrong result in place

With p == q, YMinusX was overwritten before YPlusX read it, so n.Neg(&n)
left YPlusX == YMinusX instead of swapping them.
---
 edwards25519/table.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/edwards25519/table.go b/edwards25519/table.go
index 09e431a..fc56983 100644
--- a/edwards25519/table.go
+++ b/edwards25519/table.go
@@ -33,8 +33,10 @@ func (p *NielsPoint) ConditionalSet(q *NielsPoint, b int32) *NielsPoint {
 
 // Set p to -q.  Returns p.
 func (p *NielsPoint) Neg(q *NielsPoint) *NielsPoint {
-	p.YMinusX.Set(&q.YPlusX)
+	var t FieldElement
+	t.Set(&q.YPlusX)
 	p.YPlusX.Set(&q.YMinusX)
+	p.YMinusX.Set(&t)
 	p.XY2D.Neg(&q.XY2D)
 	return p
 }
-- 
2.43.0

