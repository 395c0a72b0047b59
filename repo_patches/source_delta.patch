From e4a5be82533018eecfc26833b7561246904f252c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:30 +0000
Subject: [PATCH 01/52] fix: overflow detection of checked and saturating
 integer arithmetic

CheckedMul/SaturatingMul compared against the positive maximum for operands of
different signs, SaturatingMul picked the wrong bound when exactly the right
operand is negative, CheckedSub also rejected values whose sum overflows,
CheckedRem rejected valid remainders, and ISize/USize used 32-bit bounds.
---
 ops.go | 54 +++++++++++++++++++++++++++---------------------------
 1 file changed, 27 insertions(+), 27 deletions(-)

diff --git a/ops.go b/ops.go
index 187ff22..b4d5145 100644
--- a/ops.go
+++ b/ops.go
@@ -1132,10 +1132,10 @@ func (self U64) _HasUnderflow_Sub(rhs U64) bool {
 }
 
 func (self ISize) _HasUnderflow_Sub(rhs ISize) bool {
-	if rhs > 0 && self < math.MinInt32+rhs {
+	if rhs > 0 && self < math.MinInt+rhs {
 		return true
 	}
-	if rhs < 0 && self > math.MaxInt32+rhs {
+	if rhs < 0 && self > math.MaxInt+rhs {
 		return true
 	}
 	return false
@@ -1188,13 +1188,13 @@ func (self ISize) _HasOverflow_Mul(rhs ISize) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt/self {
+			if rhs < math.MinInt/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt/rhs {
+			if self < math.MinInt/rhs {
 				return true
 			}
 		} else {
@@ -1213,13 +1213,13 @@ func (self I8) _HasOverflow_Mul(rhs I8) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt8/self {
+			if rhs < math.MinInt8/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt8/rhs {
+			if self < math.MinInt8/rhs {
 				return true
 			}
 		} else {
@@ -1238,13 +1238,13 @@ func (self I16) _HasOverflow_Mul(rhs I16) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt16/self {
+			if rhs < math.MinInt16/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt16/rhs {
+			if self < math.MinInt16/rhs {
 				return true
 			}
 		} else {
@@ -1263,13 +1263,13 @@ func (self I32) _HasOverflow_Mul(rhs I32) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt32/self {
+			if rhs < math.MinInt32/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt32/rhs {
+			if self < math.MinInt32/rhs {
 				return true
 			}
 		} else {
@@ -1288,13 +1288,13 @@ func (self I64) _HasOverflow_Mul(rhs I64) bool {
 				return true
 			}
 		} else {
-			if rhs < math.MaxInt64/self {
+			if rhs < math.MinInt64/self {
 				return true
 			}
 		}
 	} else {
 		if rhs > 0 {
-			if self < math.MaxInt64/rhs {
+			if self < math.MinInt64/rhs {
 				return true
 			}
 		} else {
@@ -1307,7 +1307,7 @@ func (self I64) _HasOverflow_Mul(rhs I64) bool {
 }
 
 func (self USize) _HasOverflow_Mul(rhs USize) bool {
-	if self != 0 && rhs > math.MaxUint32/self {
+	if self != 0 && rhs > math.MaxUint/self {
 		return true
 	}
 	return false
@@ -1784,7 +1784,7 @@ func (self ISize) CheckedSub(rhs ISize) Option[ISize] {
 func (self I8) CheckedSub(rhs I8) Option[I8] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasUnderflow_Sub(rhs) {
 		return None[I8]()
 	}
 	return Some[I8](result)
@@ -1793,7 +1793,7 @@ func (self I8) CheckedSub(rhs I8) Option[I8] {
 func (self I16) CheckedSub(rhs I16) Option[I16] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I16]()
 	}
@@ -1803,7 +1803,7 @@ func (self I16) CheckedSub(rhs I16) Option[I16] {
 func (self I32) CheckedSub(rhs I32) Option[I32] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I32]()
 	}
@@ -1813,7 +1813,7 @@ func (self I32) CheckedSub(rhs I32) Option[I32] {
 func (self I64) CheckedSub(rhs I64) Option[I64] {
 	result := self - rhs
 
-	if self._HasOverflow_Add(rhs) || self._HasUnderflow_Sub(rhs) {
+	if self._HasUnderflow_Sub(rhs) {
 		// Overflow occurred
 		return None[I64]()
 	}
@@ -2085,7 +2085,7 @@ func (self ISize) CheckedRem(rhs ISize) Option[ISize] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
+	if self._HasOverflow_Div(rhs) {
 		// Overflow occurred
 		return None[ISize]()
 	}
@@ -2099,7 +2099,7 @@ func (self I8) CheckedRem(rhs I8) Option[I8] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
+	if self._HasOverflow_Div(rhs) {
 		// Overflow occurred
 		return None[I8]()
 	}
@@ -2113,7 +2113,7 @@ func (self I16) CheckedRem(rhs I16) Option[I16] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
+	if self._HasOverflow_Div(rhs) {
 		// Overflow occurred
 		return None[I16]()
 	}
@@ -2127,7 +2127,7 @@ func (self I32) CheckedRem(rhs I32) Option[I32] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
+	if self._HasOverflow_Div(rhs) {
 		// Overflow occurred
 		return None[I32]()
 	}
@@ -2141,7 +2141,7 @@ func (self I64) CheckedRem(rhs I64) Option[I64] {
 
 	result := self % rhs
 
-	if result > self || result > rhs {
+	if self._HasOverflow_Div(rhs) {
 		// Overflow occurred
 		return None[I64]()
 	}
@@ -2447,7 +2447,7 @@ func (self U64) SaturatingSub(rhs U64) U64 {
 func (self ISize) SaturatingMul(rhs ISize) ISize {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return ISize(math.MinInt)
 		}
 		return ISize(math.MaxInt)
@@ -2458,7 +2458,7 @@ func (self ISize) SaturatingMul(rhs ISize) ISize {
 func (self I8) SaturatingMul(rhs I8) I8 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I8(math.MinInt8)
 		}
 		return I8(math.MaxInt8)
@@ -2469,7 +2469,7 @@ func (self I8) SaturatingMul(rhs I8) I8 {
 func (self I16) SaturatingMul(rhs I16) I16 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I16(math.MinInt16)
 		}
 		return I16(math.MaxInt16)
@@ -2480,7 +2480,7 @@ func (self I16) SaturatingMul(rhs I16) I16 {
 func (self I32) SaturatingMul(rhs I32) I32 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I32(math.MinInt32)
 		}
 		return I32(math.MaxInt32)
@@ -2491,7 +2491,7 @@ func (self I32) SaturatingMul(rhs I32) I32 {
 func (self I64) SaturatingMul(rhs I64) I64 {
 	if self._HasOverflow_Mul(rhs) {
 		// Overflow occurred, saturate
-		if self < 0 {
+		if (self < 0) != (rhs < 0) {
 			return I64(math.MinInt64)
 		}
 		return I64(math.MaxInt64)
-- 
2.43.0


From f461bcdaaefec709c4c8fe5822619d2e390576d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:45 +0000
Subject: [PATCH 02/52] fix: ISize.WrappingMul wraps modulo 2^64

---
 ops.go | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ops.go b/ops.go
index b4d5145..598a112 100644
--- a/ops.go
+++ b/ops.go
@@ -1547,10 +1547,6 @@ func (self U64) WrappingSub(rhs U64) U64 {
 func (self ISize) WrappingMul(rhs ISize) ISize {
 	result := self * rhs
 
-	if result < self || result < rhs {
-		// Overflow occurred, wrap around
-		result = result - ISize(math.MaxInt) - 1
-	}
 	return result
 }
 
-- 
2.43.0


From 190354db83832b6769a2f7078e0d33effd6cc9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 03/52] fix: Neg of the 8- to 64-bit integers takes no
 argument, as the Neg trait requires

---
 ops.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ops.go b/ops.go
index 598a112..2e350ce 100644
--- a/ops.go
+++ b/ops.go
@@ -3024,23 +3024,23 @@ func (self U64) Pow(exp U32) U64 {
 	return self * (self * self).Pow(exp/2)
 }
 
-func (self ISize) Neg(rhs ISize) ISize {
+func (self ISize) Neg() ISize {
 	return -self
 }
 
-func (self I8) Neg(rhs I8) I8 {
+func (self I8) Neg() I8 {
 	return -self
 }
 
-func (self I16) Neg(rhs I16) I16 {
+func (self I16) Neg() I16 {
 	return -self
 }
 
-func (self I32) Neg(rhs I32) I32 {
+func (self I32) Neg() I32 {
 	return -self
 }
 
-func (self I64) Neg(rhs I64) I64 {
+func (self I64) Neg() I64 {
 	return -self
 }
 
-- 
2.43.0


From 2f0ce30a42f742053af1fafb5a80b8e87ba21eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 04/52] fix: I128 negation, division, remainder and sign over
 the whole value range

---
 ops.go | 69 +++++++++-------------------------------------------------
 1 file changed, 10 insertions(+), 59 deletions(-)

diff --git a/ops.go b/ops.go
index 2e350ce..f29c0bf 100644
--- a/ops.go
+++ b/ops.go
@@ -405,36 +405,14 @@ func (lhs I128) Div(rhs I128) I128 {
 		rhs = rhs.Neg()
 	}
 
-	if lhs.Cmp(rhs) == OrderingLess {
-		return I128{
-			high: 0,
-			low:  0,
-		}
-	}
-
-	// TODO: This is a hack, we should implement a proper division algorithm
-	bigLhs := big.NewInt(0)
-	bigRhs := big.NewInt(0)
-
-	bigLhs.SetString(string(lhs.ToString()), 10)
-	bigRhs.SetString(string(rhs.ToString()), 10)
-
-	bigLhs.Div(bigLhs, bigRhs)
+	// The magnitudes are unsigned: that of the minimum value does not fit an I128.
+	quotient := U128{high: U64(lhs.high), low: lhs.low}.Div(U128{high: U64(rhs.high), low: rhs.low})
 
 	result := I128{
-		high: 0,
-		low:  0,
+		high: I64(quotient.high),
+		low:  quotient.low,
 	}
 
-	buffer := make([]byte, 16)
-	bytes := bigLhs.FillBytes(buffer)
-
-	lowBytes := bytes[8:16]
-	highBytes := bytes[0:8]
-
-	result.high = I64(binary.BigEndian.Uint64(highBytes))
-	result.low = U64(binary.BigEndian.Uint64(lowBytes))
-
 	if isNegative {
 		result = result.Neg()
 	}
@@ -554,39 +532,12 @@ func (lhs I128) Rem(rhs I128) I128 {
 		rhs = rhs.Neg()
 	}
 
-	if lhs.Cmp(rhs) == OrderingLess {
-		if isNegative {
-			return lhs.Neg()
-		} else {
-			return lhs
-		}
-	}
-
-	// TODO: This is a hack, we should implement a proper division algorithm
-	bigLhs := big.NewInt(0)
-	bigRhs := big.NewInt(0)
-
-	bigLhs.SetString(string(lhs.ToString()), 10)
-	bigRhs.SetString(string(rhs.ToString()), 10)
-
-	bigLhs.Rem(bigLhs, bigRhs)
+	// The magnitudes are unsigned: that of the minimum value does not fit an I128.
+	remainder := U128{high: U64(lhs.high), low: lhs.low}.Rem(U128{high: U64(rhs.high), low: rhs.low})
 
 	result := I128{
-		high: 0,
-		low:  0,
-	}
-
-	buffer := make([]byte, 16)
-	bytes := bigLhs.FillBytes(buffer)
-
-	lowBytes := bytes[8:16]
-	highBytes := bytes[0:8]
-
-	result.high = I64(binary.BigEndian.Uint64(highBytes))
-	result.low = U64(binary.BigEndian.Uint64(lowBytes))
-
-	if result.high == 0 && result.low == 0 {
-		return result
+		high: I64(remainder.high),
+		low:  remainder.low,
 	}
 
 	if isNegative {
@@ -2851,7 +2802,7 @@ func (self I64) IsPositive() Bool {
 
 // Returns true if self is positive and false if the number is zero or negative.
 func (self I128) IsPositive() Bool {
-	return self.high > 0
+	return self.high > 0 || (self.high == 0 && self.low > 0)
 }
 
 // Returns true if self is negative and false if the number is zero or positive.
@@ -3048,7 +2999,7 @@ func (self I128) Neg() I128 {
 	high := self.high
 	low := self.low
 
-	hasCarry := low == U64_MAX
+	hasCarry := low == 0
 
 	high = ^high
 	low = ^low
-- 
2.43.0


From 97f83db3cefc05509e96d7d095722c52bb38c25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 05/52] fix: shifts use the requested amount at every width

---
 bitwise.go | 128 +++++++++++++++++++++++------------------------------
 1 file changed, 56 insertions(+), 72 deletions(-)

diff --git a/bitwise.go b/bitwise.go
index dbcfb51..1f939e7 100644
--- a/bitwise.go
+++ b/bitwise.go
@@ -9,165 +9,149 @@ type Shr[T any] interface {
 }
 
 func (lhs ISize) Shl(rhs ISize) ISize {
-	return ISize(lhs << lhs)
+	return ISize(lhs << rhs)
 }
 
 func (lhs I8) Shl(rhs I8) I8 {
-	return I8(lhs << lhs)
+	return I8(lhs << rhs)
 }
 
 func (lhs I16) Shl(rhs I16) I16 {
-	return I16(lhs << lhs)
+	return I16(lhs << rhs)
 }
 
 func (lhs I32) Shl(rhs I32) I32 {
-	return I32(lhs << lhs)
+	return I32(lhs << rhs)
 }
 
 func (lhs I64) Shl(rhs I64) I64 {
-	return I64(lhs << lhs)
+	return I64(lhs << rhs)
 }
 
 func (lhs I128) Shl(rhs I128) I128 {
-	hasCarry := false
+	amount := rhs.low
 
-	low := lhs.low << rhs.low
-	high := lhs.high << rhs.low
-
-	// check if there is a carry
-	if lhs.low>>63 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		high += 1
+	if amount >= 64 {
+		return I128{
+			high: I64(lhs.low << (amount - 64)),
+			low:  0,
+		}
 	}
 
+	// the bits shifted out of the low half move into the high half
 	return I128{
-		high: high,
-		low:  low,
+		high: lhs.high<<amount | I64(lhs.low>>(64-amount)),
+		low:  lhs.low << amount,
 	}
 }
 
 func (lhs USize) Shl(rhs USize) USize {
-	return USize(lhs << lhs)
+	return USize(lhs << rhs)
 }
 
 func (lhs U8) Shl(rhs U8) U8 {
-	return U8(lhs << lhs)
+	return U8(lhs << rhs)
 }
 
 func (lhs U16) Shl(rhs U16) U16 {
-	return U16(lhs << lhs)
+	return U16(lhs << rhs)
 }
 
 func (lhs U32) Shl(rhs U32) U32 {
-	return U32(lhs << lhs)
+	return U32(lhs << rhs)
 }
 
 func (lhs U64) Shl(rhs U64) U64 {
-	return U64(lhs << lhs)
+	return U64(lhs << rhs)
 }
 
 func (lhs U128) Shl(rhs U128) U128 {
-	hasCarry := false
-
-	low := lhs.low << rhs.low
-	high := lhs.high << rhs.low
-
-	// check if there is a carry
-	if lhs.low>>63 == 1 {
-		hasCarry = true
-	}
+	amount := rhs.low
 
-	if hasCarry {
-		high += 1
+	if amount >= 64 {
+		return U128{
+			high: lhs.low << (amount - 64),
+			low:  0,
+		}
 	}
 
+	// the bits shifted out of the low half move into the high half
 	return U128{
-		high: high,
-		low:  low,
+		high: lhs.high<<amount | lhs.low>>(64-amount),
+		low:  lhs.low << amount,
 	}
 }
 
 func (lhs ISize) Shr(rhs ISize) ISize {
-	return ISize(lhs >> lhs)
+	return ISize(lhs >> rhs)
 }
 
 func (lhs I8) Shr(rhs I8) I8 {
-	return I8(lhs >> lhs)
+	return I8(lhs >> rhs)
 }
 
 func (lhs I16) Shr(rhs I16) I16 {
-	return I16(lhs >> lhs)
+	return I16(lhs >> rhs)
 }
 
 func (lhs I32) Shr(rhs I32) I32 {
-	return I32(lhs >> lhs)
+	return I32(lhs >> rhs)
 }
 
 func (lhs I64) Shr(rhs I64) I64 {
-	return I64(lhs >> lhs)
+	return I64(lhs >> rhs)
 }
 
 func (lhs I128) Shr(rhs I128) I128 {
-	hasCarry := false
+	amount := rhs.low
 
-	low := lhs.low >> rhs.low
-	high := lhs.high >> rhs.low
-
-	// check if there is a carry
-	if lhs.high&1 == 1 {
-		hasCarry = true
-	}
-
-	if hasCarry {
-		low |= U64(uint64(1) << 63)
+	if amount >= 64 {
+		return I128{
+			high: lhs.high >> 63,
+			low:  U64(lhs.high >> (amount - 64)),
+		}
 	}
 
+	// the bits shifted out of the high half move into the low half
 	return I128{
-		high: high,
-		low:  low,
+		high: lhs.high >> amount,
+		low:  lhs.low>>amount | U64(lhs.high)<<(64-amount),
 	}
 }
 
 func (lhs USize) Shr(rhs USize) USize {
-	return USize(lhs >> lhs)
+	return USize(lhs >> rhs)
 }
 
 func (lhs U8) Shr(rhs U8) U8 {
-	return U8(lhs >> lhs)
+	return U8(lhs >> rhs)
 }
 
 func (lhs U16) Shr(rhs U16) U16 {
-	return U16(lhs >> lhs)
+	return U16(lhs >> rhs)
 }
 
 func (lhs U32) Shr(rhs U32) U32 {
-	return U32(lhs >> lhs)
+	return U32(lhs >> rhs)
 }
 
 func (lhs U64) Shr(rhs U64) U64 {
-	return U64(lhs >> lhs)
+	return U64(lhs >> rhs)
 }
 
 func (lhs U128) Shr(rhs U128) U128 {
-	hasCarry := false
-
-	low := lhs.low >> rhs.low
-	high := lhs.high >> rhs.low
-
-	// check if there is a carry
-	if lhs.high&1 == 1 {
-		hasCarry = true
-	}
+	amount := rhs.low
 
-	if hasCarry {
-		low |= U64(uint64(1) << 63)
+	if amount >= 64 {
+		return U128{
+			high: 0,
+			low:  lhs.high >> (amount - 64),
+		}
 	}
 
+	// the bits shifted out of the high half move into the low half
 	return U128{
-		high: high,
-		low:  low,
+		high: lhs.high >> amount,
+		low:  lhs.low>>amount | lhs.high<<(64-amount),
 	}
 }
-- 
2.43.0


From 36e3d967317d3d53f9c7ae6bbf3610debfd44eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:46 +0000
Subject: [PATCH 06/52] fix: USize text and ParseU64 cover the unsigned 64-bit
 range, and only that

---
 string.go    | 2 +-
 to_string.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/string.go b/string.go
index f09d530..baa1788 100644
--- a/string.go
+++ b/string.go
@@ -130,7 +130,7 @@ func (self String) ParseI64() Result[I64] {
 
 // Parses this string slice into another type. (U64)
 func (self String) ParseU64() Result[U64] {
-	parsed, err := strconv.Atoi(string(self))
+	parsed, err := strconv.ParseUint(strings.TrimPrefix(string(self), "+"), 10, 64)
 
 	if err != nil {
 		return Err[U64](err)
diff --git a/to_string.go b/to_string.go
index 2e3192b..308249b 100644
--- a/to_string.go
+++ b/to_string.go
@@ -71,7 +71,7 @@ func (self I128) ToString() String {
 }
 
 func (self USize) ToString() String {
-	return String(strconv.Itoa(int(self)))
+	return String(strconv.FormatUint(uint64(self), 10))
 }
 
 func (self U8) ToString() String {
-- 
2.43.0


From 3433f41a6e3fba425235fc5efcc291757da0aa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:00 +0000
Subject: [PATCH 07/52] fix: Vec.Reserve grows the capacity and not the length

---
 vec.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vec.go b/vec.go
index f4570b0..e9055de 100644
--- a/vec.go
+++ b/vec.go
@@ -70,7 +70,9 @@ func (self Vec[T]) IsEmpty() Bool {
 //	gost.AssertEq(vec.Capacity(), gost.USize(10))
 func (self *Vec[T]) Reserve(additional USize) {
 	if self.Capacity() < self.Len()+additional {
-		self.data = append(self.data, make([]T, additional)...)
+		newData := make([]T, self.Len(), self.Len()+additional)
+		copy(newData, self.data)
+		self.data = newData
 	}
 }
 
-- 
2.43.0


From 1f230969f28f1f58f8e8dfb282b875fbd2924191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:00 +0000
Subject: [PATCH 08/52] fix: Vec.Set out of range returns the value instead of
 panicking

---
 vec.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec.go b/vec.go
index e9055de..a3aeeab 100644
--- a/vec.go
+++ b/vec.go
@@ -261,7 +261,7 @@ func (self Vec[T]) GetUnchecked(index USize) T {
 //	gost.AssertEq(vec.GetUnchecked(0), gost.I32(4))
 func (self *Vec[T]) Set(index USize, value T) Option[T] {
 	if index < 0 || index >= self.Len() {
-		return Some[T](self.data[index])
+		return Some[T](value)
 	} else {
 		self.data[index] = value
 		return None[T]()
-- 
2.43.0


From d211d8e5a9ae4d438f73037f304fb6ee98747dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:01 +0000
Subject: [PATCH 09/52] fix: Vec.DedupByKey removes only consecutive repeats

---
 vec.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vec.go b/vec.go
index a3aeeab..2d5760f 100644
--- a/vec.go
+++ b/vec.go
@@ -183,12 +183,12 @@ func (self *Vec[T]) Retain(predicate func(T) Bool) {
 //	gost.AssertEq(vec.Len(), gost.USize(3))
 func (self *Vec[T]) DedupByKey(key func(T) any) {
 	newData := make([]T, 0, len(self.data))
-	seen := make(map[any]bool)
-	for _, value := range self.data {
+	var prev any
+	for i, value := range self.data {
 		k := key(value)
-		if !seen[k] {
-			seen[k] = true
+		if i == 0 || k != prev {
 			newData = append(newData, value)
+		prev = k
 		}
 	}
 	self.data = newData
-- 
2.43.0


From a57d359ddfeab9da49d1d27d8523dbc657ad4dbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:01 +0000
Subject: [PATCH 10/52] fix: VecIter.Rev of a partially consumed iterator
 yields no phantom elements

---
 vec.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec.go b/vec.go
index 2d5760f..bbadb02 100644
--- a/vec.go
+++ b/vec.go
@@ -596,8 +596,8 @@ func (self VecIter[T]) Fold(init T, f func(T, T) T) T {
 
 // rev
 func (self VecIter[T]) Rev() Iterator[T] {
-	newVec := VecWithLen[T](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[T](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
-- 
2.43.0


From fff84d6870f20cad9d4d1bab6e4b0329dffaabac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:01 +0000
Subject: [PATCH 11/52] fix: Vec.Dedup and Contains compare by the Eq trait

---
 cmp.go | 9 +++++++++
 vec.go | 5 ++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmp.go b/cmp.go
index 38aa71c..b261eea 100644
--- a/cmp.go
+++ b/cmp.go
@@ -291,3 +291,12 @@ func castToEq[T any](value T) _InternalOption[Eq[T]] {
 		return _None[Eq[T]]()
 	}
 }
+
+// Compares by the Eq trait if the type implements it, and structurally otherwise.
+func isEqual[T any](lhs T, rhs T) bool {
+	if eq := castToEq(lhs); eq.IsSome() {
+		return bool(eq.Unwrap().Eq(rhs))
+	}
+
+	return reflect.DeepEqual(lhs, rhs)
+}
diff --git a/vec.go b/vec.go
index bbadb02..58004ed 100644
--- a/vec.go
+++ b/vec.go
@@ -2,7 +2,6 @@ package gost
 
 import (
 	"fmt"
-	"reflect"
 	"sort"
 )
 
@@ -212,7 +211,7 @@ func (self *Vec[T]) Dedup() {
 	prev := 0
 
 	for i := 1; i < len(self.data); i++ {
-		if !reflect.DeepEqual(self.data[prev], self.data[i]) {
+		if !isEqual(self.data[prev], self.data[i]) {
 			prev++
 			self.data[prev] = self.data[i]
 		}
@@ -320,7 +319,7 @@ func (self *Vec[T]) Reverse() {
 //	gost.Assert(!vec.Contains(4))
 func (self Vec[T]) Contains(value T) Bool {
 	for _, v := range self.data {
-		if reflect.DeepEqual(v, value) {
+		if isEqual(v, value) {
 			return true
 		}
 	}
-- 
2.43.0


From 7539eb217cbd5619df1c0ab7fa013247884b2dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:01 +0000
Subject: [PATCH 12/52] fix: Vec.Fill stores clones of the value

---
 clone.go | 9 +++++++++
 vec.go   | 4 ++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/clone.go b/clone.go
index 0b9e9bf..53952d3 100644
--- a/clone.go
+++ b/clone.go
@@ -17,6 +17,15 @@ func castToClone[T any](value T) _InternalOption[Clone[T]] {
 	}
 }
 
+// Clones the value if its type implements the Clone trait, and copies it otherwise.
+func cloneOrCopy[T any](value T) T {
+	if clone := castToClone(value); clone.IsSome() {
+		return clone.Unwrap().Clone()
+	}
+
+	return value
+}
+
 func (self ISize) Clone() ISize {
 	return self
 }
diff --git a/vec.go b/vec.go
index 58004ed..f2f9373 100644
--- a/vec.go
+++ b/vec.go
@@ -187,8 +187,8 @@ func (self *Vec[T]) DedupByKey(key func(T) any) {
 		k := key(value)
 		if i == 0 || k != prev {
 			newData = append(newData, value)
-		prev = k
 		}
+		prev = k
 	}
 	self.data = newData
 }
@@ -413,7 +413,7 @@ func (self Vec[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 //	gost.AssertEq(vec.GetUnchecked(0), gost.I32(1))
 func (self *Vec[T]) Fill(value T) {
 	for i := 0; i < len(self.data); i++ {
-		self.data[i] = value
+		self.data[i] = cloneOrCopy(value)
 	}
 }
 
-- 
2.43.0


From ce8876688dff960f1ab6b0adf1e7677324727f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:01 +0000
Subject: [PATCH 13/52] fix: BinaryHeap.Append leaves the other heap empty

---
 binary_heap.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/binary_heap.go b/binary_heap.go
index 2d4121e..63f2324 100644
--- a/binary_heap.go
+++ b/binary_heap.go
@@ -187,6 +187,7 @@ func (self *BinaryHeap[T]) Append(other *BinaryHeap[T]) {
 	for _, item := range other.vec.data {
 		self.Push(item)
 	}
+	other.Clear()
 }
 
 // Clears the heap, removing all values.
-- 
2.43.0


From 5c53fdf5036048ec8c32d33c35194d88ed2716f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:01 +0000
Subject: [PATCH 14/52] fix: VecDeque.Fill and Clone store clones; Clone
 returns a VecDeque

---
 vec_deque.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index e908ced..550f0b8 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -380,7 +380,7 @@ func (self VecDeque[T]) Contains(value T) Bool {
 //	gost.AssertEq(deque.GetUnchecked(1), gost.I32(1))
 func (self *VecDeque[T]) Fill(value T) {
 	for i := USize(0); i < self.Len(); i++ {
-		self.SetUnchecked(i, value)
+		self.SetUnchecked(i, cloneOrCopy(value))
 	}
 }
 
@@ -825,14 +825,15 @@ func (self VecDeque[T]) AsRef() *VecDeque[T] {
 }
 
 // impl Clone for VecDeque
-func (self VecDeque[T]) Clone() *VecDeque[T] {
+func (self VecDeque[T]) Clone() VecDeque[T] {
 	cloned := VecDequeWithCapacity[T](self.Capacity())
 
 	for i := USize(0); i < self.Len(); i++ {
-		cloned.PushBack(self.Get(i).Unwrap())
+		e := castToClone(self.Get(i).Unwrap()).Unwrap()
+		cloned.PushBack(e.Clone())
 	}
 
-	return &cloned
+	return cloned
 }
 
 // impl Eq for Vec
-- 
2.43.0


From dea36f45b1de6ce192c0dfbefdbf0a0c45ce5eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:01 +0000
Subject: [PATCH 15/52] fix: VecDeque.Dedup compares the keys it is given

---
 vec_deque.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vec_deque.go b/vec_deque.go
index 550f0b8..8172d97 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -225,7 +225,7 @@ func (self *VecDeque[T]) Dedup(key func(T) any) {
 	newLen := USize(1)
 
 	for i := USize(1); i < self.Len(); i++ {
-		if !castToEq(self.GetUnchecked(i)).Unwrap().Eq(self.GetUnchecked(newLen - 1)) {
+		if key(self.GetUnchecked(i)) != key(self.GetUnchecked(newLen-1)) {
 			self.SetUnchecked(newLen, self.GetUnchecked(i))
 			newLen++
 		}
-- 
2.43.0


From 8d61a580d19d0668c4e67c005df08335b9904ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:01 +0000
Subject: [PATCH 16/52] fix: VecDeque iterator adaptors act on the remaining
 elements, Rev terminates

---
 vec_deque.go | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index 8172d97..3fc4c49 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -722,7 +722,7 @@ func (self *VecDequeIter[T]) Next() Option[T] {
 func (self *VecDequeIter[T]) Map(f func(T) T) Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newDeque.PushBack(f(self.deque.Get(i).Unwrap()))
 	}
 
@@ -733,7 +733,7 @@ func (self *VecDequeIter[T]) Map(f func(T) T) Iterator[T] {
 func (self *VecDequeIter[T]) Filter(f func(T) Bool) Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		value := self.deque.Get(i).Unwrap()
 		if f(value) {
 			newDeque.PushBack(value)
@@ -747,7 +747,7 @@ func (self *VecDequeIter[T]) Filter(f func(T) Bool) Iterator[T] {
 func (self *VecDequeIter[T]) Fold(initial T, f func(T, T) T) T {
 	accumulator := initial
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		accumulator = f(accumulator, self.deque.Get(i).Unwrap())
 	}
 
@@ -758,8 +758,8 @@ func (self *VecDequeIter[T]) Fold(initial T, f func(T, T) T) T {
 func (self *VecDequeIter[T]) Rev() Iterator[T] {
 	newDeque := VecDequeWithCapacity[T](self.deque.Capacity())
 
-	for i := self.deque.Len().WrappingSub(1); i >= 0; i-- {
-		newDeque.PushBack(self.deque.Get(i).Unwrap())
+	for i := self.deque.Len(); i > self.position; i-- {
+		newDeque.PushBack(self.deque.Get(i - 1).Unwrap())
 	}
 
 	return newDeque.IntoIter()
@@ -769,7 +769,7 @@ func (self *VecDequeIter[T]) Rev() Iterator[T] {
 func (self *VecDequeIter[T]) CollectToVec() Vec[T] {
 	newVec := VecWithCapacity[T](self.deque.Capacity())
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newVec.Push(self.deque.Get(i).Unwrap())
 	}
 
@@ -780,7 +780,7 @@ func (self *VecDequeIter[T]) CollectToVec() Vec[T] {
 func (self *VecDequeIter[T]) CollectToLinkedList() LinkedList[T] {
 	newLinkedList := LinkedListNew[T]()
 
-	for i := USize(0); i < self.deque.Len(); i++ {
+	for i := self.position; i < self.deque.Len(); i++ {
 		newLinkedList.PushBack(self.deque.Get(i).Unwrap())
 	}
 
-- 
2.43.0


From f227024b627d8043dde35086e3f30348da74ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:01 +0000
Subject: [PATCH 17/52] fix: VecDeque slices, searches and sorts its elements
 wherever the ring starts

---
 vec_deque.go | 63 ++++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 46 insertions(+), 17 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index 3fc4c49..59af208 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -341,7 +341,16 @@ func (self *VecDeque[T]) Clear() {
 
 // Extracts a slice containing the entire vecdeque.
 func (self VecDeque[T]) AsSlice() []T {
-	return self.buffer[:self.len]
+	end := self.head + self.len
+
+	if end <= USize(len(self.buffer)) {
+		return self.buffer[self.head:end]
+	}
+
+	// the ring wraps around: there is no contiguous slice to return
+	slice := make([]T, 0, self.len)
+	slice = append(slice, self.buffer[self.head:]...)
+	return append(slice, self.buffer[:end-USize(len(self.buffer))]...)
 }
 
 // Require `impl Eq[T] for T`
@@ -413,7 +422,7 @@ func (self VecDeque[T]) BinarySearch(value T) Option[USize] {
 	for low <= high {
 		mid := (low + high) / 2
 
-		midData := castToOrd[T](self.buffer[mid]).Unwrap()
+		midData := castToOrd[T](self.GetUnchecked(USize(mid))).Unwrap()
 		ordering := midData.Cmp(value)
 
 		switch ordering {
@@ -457,7 +466,7 @@ func (self VecDeque[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 
 	for low <= high {
 		mid := (low + high) / 2
-		ordering := f(self.buffer[mid])
+		ordering := f(self.GetUnchecked(USize(mid)))
 
 		switch ordering {
 		case OrderingLess:
@@ -491,14 +500,16 @@ func (self VecDeque[T]) BinarySearchBy(f func(T) Ordering) Option[USize] {
 //	gost.AssertEq(deque.GetUnchecked(1), gost.I32(2))
 //	gost.AssertEq(deque.GetUnchecked(2), gost.I32(3))
 func (self *VecDeque[T]) Sort() {
-	sort.SliceStable(self.buffer[:self.len], func(i, j int) bool {
-		if castToOrd[T](self.buffer[i]).IsNone() {
-			typeName := getTypeName(self.buffer[i])
+	data := self._MakeContiguous()
+
+	sort.SliceStable(data, func(i, j int) bool {
+		if castToOrd[T](data[i]).IsNone() {
+			typeName := getTypeName(data[i])
 			panic(fmt.Sprintf("'%s' does not implement Ord[%s]", typeName, typeName))
 		}
 
-		lhs := castToOrd[T](self.buffer[i]).Unwrap()
-		rhs := self.buffer[j]
+		lhs := castToOrd[T](data[i]).Unwrap()
+		rhs := data[j]
 
 		return lhs.Cmp(rhs) == OrderingLess
 	})
@@ -525,8 +536,10 @@ func (self *VecDeque[T]) Sort() {
 //	})
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortBy(f func(T, T) Ordering) {
-	sort.SliceStable(self.buffer[:self.len], func(i, j int) bool {
-		return f(self.buffer[i], self.buffer[j]) == OrderingLess
+	data := self._MakeContiguous()
+
+	sort.SliceStable(data, func(i, j int) bool {
+		return f(data[i], data[j]) == OrderingLess
 	})
 }
 
@@ -540,14 +553,16 @@ func (self *VecDeque[T]) SortBy(f func(T, T) Ordering) {
 //	deque.SortUnstable()
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortUnstable() {
-	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
-		if castToOrd[T](self.buffer[i]).IsNone() {
-			typeName := getTypeName(self.buffer[i])
+	data := self._MakeContiguous()
+
+	sort.Slice(data, func(i, j int) bool {
+		if castToOrd[T](data[i]).IsNone() {
+			typeName := getTypeName(data[i])
 			panic(fmt.Sprintf("'%s' does not implement Ord[%s]", typeName, typeName))
 		}
 
-		lhs := castToOrd[T](self.buffer[i]).Unwrap()
-		rhs := self.buffer[j]
+		lhs := castToOrd[T](data[i]).Unwrap()
+		rhs := data[j]
 
 		return lhs.Cmp(rhs) == OrderingLess
 	})
@@ -574,11 +589,25 @@ func (self *VecDeque[T]) SortUnstable() {
 //	})
 //	gost.AssertEq(deque.GetUnchecked(0), gost.I32(1))
 func (self *VecDeque[T]) SortUnstableBy(f func(T, T) Ordering) {
-	sort.Slice(self.buffer[:self.len], func(i, j int) bool {
-		return f(self.buffer[i], self.buffer[j]) == OrderingLess
+	data := self._MakeContiguous()
+
+	sort.Slice(data, func(i, j int) bool {
+		return f(data[i], data[j]) == OrderingLess
 	})
 }
 
+// Rearranges the ring so that it does not wrap around, and returns its elements in order.
+func (self *VecDeque[T]) _MakeContiguous() []T {
+	if self.head+self.len > USize(len(self.buffer)) {
+		newBuffer := make([]T, len(self.buffer))
+		copy(newBuffer, self.AsSlice())
+		self.buffer = newBuffer
+		self.head = 0
+	}
+
+	return self.buffer[self.head : self.head+self.len]
+}
+
 // Returns `true` if the buffer is at full capacity.
 func (self VecDeque[T]) _IsFull() bool {
 	return self.len == USize(len(self.buffer))
-- 
2.43.0


From 2753815844aef8db3b0d88ec13f20d72002f9187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:06 +0000
Subject: [PATCH 18/52] fix: BTreeMap keeps its entries across node splits,
 borrows and merges

---
 btree_map.go | 84 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 53 insertions(+), 31 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 7015fe5..2341bcf 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -50,11 +50,12 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 	if self.root == nil {
 		// Allocate memory for root
 		self.root = &BTreeNode[K, V]{
-			_Type:  _LEAF,
-			keys:   VecWithLen[*K](_BTREE_CAPACITY),
-			values: VecWithLen[*V](_BTREE_CAPACITY),
-			childs: VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
-			n:      1,
+			_Type:          _LEAF,
+			_MinimumDegree: _B,
+			keys:           VecWithLen[*K](_BTREE_CAPACITY),
+			values:         VecWithLen[*V](_BTREE_CAPACITY),
+			childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
+			n:              1,
 		}
 
 		self.root.keys.SetUnchecked(0, &key)
@@ -79,7 +80,7 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 			// Allocate memory for new root
 			newRoot := &BTreeNode[K, V]{
 				_Type:          _INTERNAL,
-				_MinimumDegree: _BTREE_CAPACITY,
+				_MinimumDegree: _B,
 				keys:           VecWithLen[*K](_BTREE_CAPACITY),
 				values:         VecWithLen[*V](_BTREE_CAPACITY),
 				childs:         VecWithLen[*BTreeNode[K, V]](_BTREE_CAPACITY + 1),
@@ -185,6 +186,10 @@ func (self *BTreeMap[K, V]) Remove(key K) Option[V] {
 	}
 
 	result, index := self.root._Search(key)
+	if result.IsNone() {
+		return None[V]()
+	}
+	removed := *result.Unwrap().values.GetUnchecked(USize(index))
 
 	// Call the remove function for root
 	self.root._Remove(key)
@@ -199,22 +204,17 @@ func (self *BTreeMap[K, V]) Remove(key K) Option[V] {
 		}
 	}
 
-	if result.IsNone() {
-		return None[V]()
-	} else {
-		self.len--
-		return Some(*result.Unwrap().values.data[index])
-	}
+	self.len--
+	return Some(removed)
 }
 
 // Debug only
 // Function to traverse all nodes in a subtree rooted with this node
 func (self BTreeNode[K, V]) _Traverse() {
-	// There are n keys and n+1 children, traverse through n keys
-	// and first n children
+	// There are n keys and n+1 children
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -225,17 +225,21 @@ func (self BTreeNode[K, V]) _Traverse() {
 		Println("{}, {}", self.keys.GetUnchecked(i), self.values.GetUnchecked(i))
 		i++
 	}
+
+	// Traverse the last child
+	if self._Type != _LEAF && self.childs.GetUnchecked(i) != nil {
+		self.childs.GetUnchecked(i)._Traverse()
+	}
 }
 
 // To Vec[Pair[K, V]]
 func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 	vec := Vec[Pair[K, V]]{}
 
-	// There are n keys and n+1 children, traverse through n keys
-	// and first n children
+	// There are n keys and n+1 children
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -251,6 +255,12 @@ func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 		i++
 	}
 
+	// Traverse the last child
+	if self._Type != _LEAF && self.childs.GetUnchecked(i) != nil {
+		childsVec := self.childs.GetUnchecked(i)._ToVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
@@ -258,11 +268,10 @@ func (self BTreeNode[K, V]) _ToVec() Vec[Pair[K, V]] {
 func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 	vec := Vec[K]{}
 
-	// There are n keys and n+1 children, traverse through n keys
-	// and first n children
+	// There are n keys and n+1 children
 
 	i := USize(0)
-	for i < self.keys.Len() && i < USize(self.n) {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -280,6 +289,12 @@ func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 		i++
 	}
 
+	// Traverse the last child
+	if self._Type != _LEAF && self.childs.GetUnchecked(i) != nil {
+		childsVec := self.childs.GetUnchecked(i)._ToKeyVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
@@ -287,11 +302,10 @@ func (self BTreeNode[K, V]) _ToKeyVec() Vec[K] {
 func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 	vec := Vec[V]{}
 
-	// There are n keys and n+1 children, traverse through n keys
-	// and first n children
+	// There are n keys and n+1 children
 
 	i := USize(0)
-	for i < self.keys.Len() {
+	for i < USize(self.n) {
 		// If this is not leaf, then before printing key[i],
 		// traverse the subtree rooted with child C[i].
 		if self._Type != _LEAF {
@@ -308,6 +322,12 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 		i++
 	}
 
+	// Traverse the last child
+	if self._Type != _LEAF && self.childs.GetUnchecked(i) != nil {
+		childsVec := self.childs.GetUnchecked(i)._ToValueVec()
+		vec.Append(&childsVec)
+	}
+
 	return vec
 }
 
@@ -315,12 +335,12 @@ func (self BTreeNode[K, V]) _ToValueVec() Vec[V] {
 func (self BTreeNode[K, V]) _Search(key K) (Option[*BTreeNode[K, V]], uint) {
 	// Find the first key greater than or equal to k
 	i := USize(0)
-	for i < self.keys.Len() && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingGreater {
+	for i < USize(self.n) && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingGreater {
 		i++
 	}
 
 	// If the found key is equal to k, return this node
-	if i < self.keys.Len() && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
+	if i < USize(self.n) && self.keys.GetUnchecked(i) != nil && key.Cmp(*self.keys.GetUnchecked(i)) == OrderingEqual {
 		return Some[*BTreeNode[K, V]](&self), uint(i)
 	}
 
@@ -414,7 +434,7 @@ func (self *BTreeNode[K, V]) _InsertNonFull(key K, value V) {
 		}
 
 		// See if the found child is full
-		if self.childs.GetUnchecked(USize(i+1)).keys.Len() == _BTREE_CAPACITY {
+		if self.childs.GetUnchecked(USize(i+1)).n == _BTREE_CAPACITY {
 			// If the child is full, then split it
 			self.splitChild(i+1, self.childs.GetUnchecked(USize(i+1)))
 
@@ -443,7 +463,7 @@ func (self *BTreeNode[K, V]) splitChild(i int, y *BTreeNode[K, V]) {
 	z.n = self._MinimumDegree - 1
 
 	// Copy the last (t-1) keys of y to z
-	for j := 0; j < z._MinimumDegree; j++ {
+	for j := 0; j < self._MinimumDegree-1; j++ {
 		z.keys.SetUnchecked(USize(j), y.keys.GetUnchecked(USize(j+self._MinimumDegree)))
 		z.values.SetUnchecked(USize(j), y.values.GetUnchecked(USize(j+self._MinimumDegree)))
 	}
@@ -469,7 +489,7 @@ func (self *BTreeNode[K, V]) splitChild(i int, y *BTreeNode[K, V]) {
 
 	// A key of y will move to this node. Find location of
 	// new key and move all greater keys one space ahead
-	for j := self.n; j >= i; j-- {
+	for j := self.n - 1; j >= i; j-- {
 		self.keys.SetUnchecked(USize(j+1), self.keys.GetUnchecked(USize(j)))
 		self.values.SetUnchecked(USize(j+1), self.values.GetUnchecked(USize(j)))
 	}
@@ -541,13 +561,15 @@ func (self *BTreeNode[K, V]) _RemoveFromLeaf(idx int) {
 	// Move all the keys after the idx-th pos one place backward
 	for i := idx + 1; i < self.n; i++ {
 		self.keys.SetUnchecked(USize(i-1), self.keys.GetUnchecked(USize(i)))
-		self.keys.SetUnchecked(USize(i), nil)
 		self.values.SetUnchecked(USize(i-1), self.values.GetUnchecked(USize(i)))
-		self.values.SetUnchecked(USize(i), nil)
 	}
 
 	// Reduce the count of keys
 	self.n--
+
+	// The last slot no longer holds an entry
+	self.keys.SetUnchecked(USize(self.n), nil)
+	self.values.SetUnchecked(USize(self.n), nil)
 }
 
 // A function to remove the idx-th key from this node - which is a non-leaf node
-- 
2.43.0


From 7dd2803a9871fe2a542f72c0e447b1c93d7c72d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:11 +0000
Subject: [PATCH 19/52] fix: iterating an empty BTreeSet yields nothing instead
 of panicking

---
 btree_set.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/btree_set.go b/btree_set.go
index 6a00e57..aaaf4c7 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -305,7 +305,11 @@ type BTreeSetIter[K Ord[K]] struct {
 
 // into_iter
 func (self *BTreeSet[K]) IntoIter() Iterator[K] {
-	keys := self._treemap.root._ToKeyVec()
+	keys := VecNew[K]()
+
+	if self._treemap.root != nil {
+		keys = self._treemap.root._ToKeyVec()
+	}
 
 	return &BTreeSetIter[K]{vec: keys, position: 0}
 }
-- 
2.43.0


From 82bdffbddf7069e0d65ff0ac83c3e40b9cb598c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:15 +0000
Subject: [PATCH 20/52] fix: BTreeSet.Clone terminates

---
 btree_set.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/btree_set.go b/btree_set.go
index aaaf4c7..33d2f6d 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -441,8 +441,9 @@ func (self BTreeSet[K]) AsRef() *BTreeSet[K] {
 func (self BTreeSet[K]) Clone() BTreeSet[K] {
 	newSet := BTreeSetNew[K]()
 
+	iter := self.IntoIter()
 	for {
-		value := self.IntoIter().Next()
+		value := iter.Next()
 
 		if value.IsNone() {
 			return newSet
-- 
2.43.0


From 7c66ede545672601e56b792d2bcabba119105d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:20 +0000
Subject: [PATCH 21/52] fix: BTreeMap.Eq has the signature of the Eq trait

---
 btree_map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/btree_map.go b/btree_map.go
index 2341bcf..23537f9 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -1149,7 +1149,7 @@ func (self BTreeMap[K, V]) AsRef() *BTreeMap[K, V] {
 }
 
 // impl Eq for BTreeMap
-func (self BTreeMap[K, V]) Eq(other *BTreeMap[K, V]) bool {
+func (self BTreeMap[K, V]) Eq(other BTreeMap[K, V]) Bool {
 	if self.Len() != other.Len() {
 		return false
 	}
-- 
2.43.0


From 8646287eabf3ded9f032d27f6353480088f27e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:25 +0000
Subject: [PATCH 22/52] fix: Rev of a partially consumed map or set iterator
 yields no phantom elements

---
 btree_map.go | 12 ++++++------
 btree_set.go |  4 ++--
 hash_map.go  | 12 ++++++------
 hash_set.go  |  4 ++--
 4 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 23537f9..60f80a8 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -849,8 +849,8 @@ func (self *BTreeMapIter[K, V]) Fold(init Pair[K, V], f func(Pair[K, V], Pair[K,
 
 // rev
 func (self BTreeMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
-	newVec := VecWithLen[Pair[K, V]](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[Pair[K, V]](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -963,8 +963,8 @@ func (self *BTreeMapKeys[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self BTreeMapKeys[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -1077,8 +1077,8 @@ func (self *BTreeMapValues[V]) Fold(init V, f func(V, V) V) V {
 
 // rev
 func (self BTreeMapValues[V]) Rev() Iterator[V] {
-	newVec := VecWithLen[V](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[V](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/btree_set.go b/btree_set.go
index 33d2f6d..e6b9243 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -372,8 +372,8 @@ func (self BTreeSetIter[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self BTreeSetIter[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/hash_map.go b/hash_map.go
index 632a11e..706f067 100644
--- a/hash_map.go
+++ b/hash_map.go
@@ -188,8 +188,8 @@ func (self HashMapIter[K, V]) Fold(init Pair[K, V], f func(Pair[K, V], Pair[K, V
 
 // rev
 func (self HashMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
-	newVec := VecWithLen[Pair[K, V]](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[Pair[K, V]](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -303,8 +303,8 @@ func (self HashMapKeys[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self HashMapKeys[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
@@ -411,8 +411,8 @@ func (self HashMapValues[V]) Fold(init V, f func(V, V) V) V {
 
 // rev
 func (self HashMapValues[V]) Rev() Iterator[V] {
-	newVec := VecWithLen[V](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[V](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
diff --git a/hash_set.go b/hash_set.go
index 0d74497..1eb34f5 100644
--- a/hash_set.go
+++ b/hash_set.go
@@ -403,8 +403,8 @@ func (self HashSetIter[K]) Fold(init K, f func(K, K) K) K {
 
 // rev
 func (self HashSetIter[K]) Rev() Iterator[K] {
-	newVec := VecWithLen[K](self.vec.Len())
-	i := self.vec.Len() - 1
+	newVec := VecWithLen[K](self.vec.Len() - self.position)
+	i := newVec.Len() - 1
 
 	for {
 		value := self.Next()
-- 
2.43.0


From 705efbad868f0f07f8118797fa7f567aca04bacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:41 +0000
Subject: [PATCH 23/52] fix: CollectToVec of a partially consumed map or set
 iterator returns the remaining elements

---
 btree_map.go | 33 ++++++++++++++++++++++++++++++---
 btree_set.go | 11 ++++++++++-
 hash_map.go  | 33 ++++++++++++++++++++++++++++++---
 hash_set.go  | 11 ++++++++++-
 4 files changed, 80 insertions(+), 8 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index 60f80a8..afe175a 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -865,7 +865,16 @@ func (self BTreeMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
 
 // Collect to Vec
 func (self BTreeMapIter[K, V]) CollectToVec() Vec[Pair[K, V]] {
-	return self.vec
+	vec := VecNew[Pair[K, V]]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -979,7 +988,16 @@ func (self BTreeMapKeys[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self BTreeMapKeys[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -1093,7 +1111,16 @@ func (self BTreeMapValues[V]) Rev() Iterator[V] {
 
 // Collect to Vec
 func (self BTreeMapValues[V]) CollectToVec() Vec[V] {
-	return self.vec
+	vec := VecNew[V]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/btree_set.go b/btree_set.go
index e6b9243..d1a64fb 100644
--- a/btree_set.go
+++ b/btree_set.go
@@ -388,7 +388,16 @@ func (self BTreeSetIter[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self BTreeSetIter[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/hash_map.go b/hash_map.go
index 706f067..353449c 100644
--- a/hash_map.go
+++ b/hash_map.go
@@ -204,7 +204,16 @@ func (self HashMapIter[K, V]) Rev() Iterator[Pair[K, V]] {
 
 // Collect to Vec
 func (self HashMapIter[K, V]) CollectToVec() Vec[Pair[K, V]] {
-	return self.vec
+	vec := VecNew[Pair[K, V]]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -319,7 +328,16 @@ func (self HashMapKeys[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self HashMapKeys[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
@@ -427,7 +445,16 @@ func (self HashMapValues[V]) Rev() Iterator[V] {
 
 // Collect to Vec
 func (self HashMapValues[V]) CollectToVec() Vec[V] {
-	return self.vec
+	vec := VecNew[V]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
diff --git a/hash_set.go b/hash_set.go
index 1eb34f5..4e66a7b 100644
--- a/hash_set.go
+++ b/hash_set.go
@@ -419,7 +419,16 @@ func (self HashSetIter[K]) Rev() Iterator[K] {
 
 // Collect to Vec
 func (self HashSetIter[K]) CollectToVec() Vec[K] {
-	return self.vec
+	vec := VecNew[K]()
+
+	for {
+		value := self.Next()
+
+		if value.IsNone() {
+			return vec
+		}
+		vec.Push(value.Unwrap())
+	}
 }
 
 // Collect to LinkedList
-- 
2.43.0


From b8a66df62e21079b975e1e01188309ef0733fc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:46 +0000
Subject: [PATCH 24/52] fix: LinkedListIter.Rev reverses

---
 linked_list.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/linked_list.go b/linked_list.go
index 39389ca..9b83aa2 100644
--- a/linked_list.go
+++ b/linked_list.go
@@ -329,7 +329,7 @@ func (self LinkedListIter[T]) Rev() Iterator[T] {
 			break
 		}
 
-		newList.PushBack(value.Unwrap())
+		newList.PushFront(value.Unwrap())
 	}
 
 	return newList.IntoIter()
-- 
2.43.0


From 4fe3afa0f7ee1eb064330f9cc72b05364bc32754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:41 +0000
Subject: [PATCH 25/52] fix: Pair satisfies ToString, Display and Debug

---
 pair.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pair.go b/pair.go
index 93a94d0..b58cb22 100644
--- a/pair.go
+++ b/pair.go
@@ -9,7 +9,7 @@ type Pair[K any, V any] struct {
 }
 
 // impl Display for Pair
-func (p Pair[K, V]) ToString() string {
+func (p Pair[K, V]) ToString() String {
 	keyToString := castToToString[K](p.Key)
 	valueToString := castToToString[V](p.Value)
 
@@ -28,16 +28,16 @@ func (p Pair[K, V]) ToString() string {
 		value = String(fmt.Sprintf("%v", p.Value))
 	}
 
-	return fmt.Sprintf("Pair[%s, %s]", key, value)
+	return String(fmt.Sprintf("Pair[%s, %s]", key, value))
 }
 
 // impl Display for Pair
-func (p Pair[K, V]) Display() string {
+func (p Pair[K, V]) Display() String {
 	return p.ToString()
 }
 
 // impl Debug for Pair
-func (p Pair[K, V]) Debug() string {
+func (p Pair[K, V]) Debug() String {
 	return p.ToString()
 }
 
-- 
2.43.0


From 90607ac3aee58237e62c615a61f815d1a77613bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 26/52] fix: Pair shows keys and values that are collections by
 their Display

---
 pair.go | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/pair.go b/pair.go
index b58cb22..cc3b04a 100644
--- a/pair.go
+++ b/pair.go
@@ -8,26 +8,24 @@ type Pair[K any, V any] struct {
 	Value V
 }
 
-// impl Display for Pair
-func (p Pair[K, V]) ToString() String {
-	keyToString := castToToString[K](p.Key)
-	valueToString := castToToString[V](p.Value)
-
-	var key String
-	var value String
-
-	if keyToString.IsSome() {
-		key = keyToString.Unwrap().ToString()
-	} else {
-		key = String(fmt.Sprintf("%v", p.Key))
+// text of a key or value: its ToString, else its Display, else the default Go format
+func pairField[T any](value T) String {
+	if toString := castToToString(value); toString.IsSome() {
+		return toString.Unwrap().ToString()
 	}
 
-	if valueToString.IsSome() {
-		value = valueToString.Unwrap().ToString()
-	} else {
-		value = String(fmt.Sprintf("%v", p.Value))
+	if display := castToDisplay(value); display.IsSome() {
+		return display.Unwrap().Display()
 	}
 
+	return String(fmt.Sprintf("%v", value))
+}
+
+// impl ToString for Pair
+func (p Pair[K, V]) ToString() String {
+	key := pairField(p.Key)
+	value := pairField(p.Value)
+
 	return String(fmt.Sprintf("Pair[%s, %s]", key, value))
 }
 
-- 
2.43.0


From db18c58b49ecfd149a15d89af913c2a91f21a3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:14 +0000
Subject: [PATCH 27/52] fix: I128 and U128 satisfy Clone and AsRef

---
 clone.go   | 8 ++++++++
 convert.go | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/clone.go b/clone.go
index 53952d3..3ee516f 100644
--- a/clone.go
+++ b/clone.go
@@ -46,6 +46,10 @@ func (self I64) Clone() I64 {
 	return self
 }
 
+func (self I128) Clone() I128 {
+	return self
+}
+
 func (self USize) Clone() USize {
 	return self
 }
@@ -66,6 +70,10 @@ func (self U64) Clone() U64 {
 	return self
 }
 
+func (self U128) Clone() U128 {
+	return self
+}
+
 func (self F32) Clone() F32 {
 	return self
 }
diff --git a/convert.go b/convert.go
index a2ae4e4..8c70e67 100644
--- a/convert.go
+++ b/convert.go
@@ -25,6 +25,10 @@ func (self I64) AsRef() *I64 {
 	return &self
 }
 
+func (self I128) AsRef() *I128 {
+	return &self
+}
+
 func (self USize) AsRef() *USize {
 	return &self
 }
@@ -45,6 +49,10 @@ func (self U64) AsRef() *U64 {
 	return &self
 }
 
+func (self U128) AsRef() *U128 {
+	return &self
+}
+
 func (self F32) AsRef() *F32 {
 	return &self
 }
-- 
2.43.0


From 42cbcf0e8c908c6c858f1301bb3d324531dff2df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:19 +0000
Subject: [PATCH 28/52] fix: the Debug trait has the signature every type
 implements

---
 fmt.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fmt.go b/fmt.go
index 64d9fd2..6f95440 100644
--- a/fmt.go
+++ b/fmt.go
@@ -103,7 +103,7 @@ func castToDisplay[T any](value T) Option[Display[T]] {
 // ? formatting.
 // Debug should format the output in a programmer-facing, debugging context.
 type Debug[T any] interface {
-	Debug() string
+	Debug() String
 }
 
 func (self ISize) Debug() String {
-- 
2.43.0


From 8b7756728334f19ce9d4b6092d5e2e828abbf4a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 29/52] fix: And, AndThen and Replace of a None option

---
 option.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/option.go b/option.go
index bc26efd..c864c4c 100644
--- a/option.go
+++ b/option.go
@@ -173,7 +173,7 @@ func (self Option[T]) MapOrElse(defaultValue func() T, f func(T) T) T {
 //	gost.AssertEq(x.and(y), Some(gost.I32(3)));
 func (self Option[T]) And(optb Option[any]) Option[any] {
 	if self.IsNone() {
-		return Some[any](nil)
+		return None[any]()
 	} else {
 		return optb
 	}
@@ -189,7 +189,7 @@ func (self Option[T]) And(optb Option[any]) Option[any] {
 //	gost.AssertEq(x.and_then(func(value gost.I32) Option[gost.I32] { return Some[gost.I32](value + 1) }), None[gost.I32]())
 func (self Option[T]) AndThen(f func(T) Option[any]) Option[any] {
 	if self.IsNone() {
-		return Some[any](nil)
+		return None[any]()
 	} else {
 		return f(*self.value)
 	}
@@ -333,7 +333,8 @@ func (self *Option[T]) Take() Option[T] {
 //	gost.AssertEq(x.Replace(gost.I32(3)), None[gost.I32]())
 func (self *Option[T]) Replace(value T) Option[T] {
 	if self.IsNone() {
-		return *self
+		self.value = &value
+		return None[T]()
 	} else {
 		oldValue := *self.value
 		self.value = &value
-- 
2.43.0


From 84ce96de8271146b1f483431b507e7234a32e785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:15 +0000
Subject: [PATCH 30/52] fix: ElseIf is skipped once a branch was taken

---
 syntax.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/syntax.go b/syntax.go
index 647de15..583d0f3 100644
--- a/syntax.go
+++ b/syntax.go
@@ -40,7 +40,7 @@ func (self ifElseContext[T]) Else(expression func() T) T {
 }
 
 func (self ifElseContext[T]) ElseIf(condition Bool, expression func() T) ifElseContext[T] {
-	if condition {
+	if self.returnValue == nil && condition {
 		value := expression()
 		self.returnValue = &value
 	}
-- 
2.43.0


From 6994c83298d1b57f2ff9eccd84f77c2ab492db03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 31/52] fix: StringFromUTF16 uses every code unit and rejects
 lone surrogates

---
 string.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/string.go b/string.go
index baa1788..33858e0 100644
--- a/string.go
+++ b/string.go
@@ -1,8 +1,10 @@
 package gost
 
 import (
+	"errors"
 	"strconv"
 	"strings"
+	"unicode"
 	"unicode/utf16"
 )
 
@@ -16,7 +18,18 @@ func StringFromUTF16(bytes Vec[U16]) Result[String] {
 	data := bytes.data
 	convertedData := []uint16{}
 
-	for i := 0; i < len(data); i += 2 {
+	for i := 0; i < len(data); i++ {
+		unit := rune(data[i])
+
+		if utf16.IsSurrogate(unit) {
+			if i+1 == len(data) || utf16.DecodeRune(unit, rune(data[i+1])) == unicode.ReplacementChar {
+				return Err[String](errors.New("invalid utf-16: lone surrogate found"))
+			}
+
+			convertedData = append(convertedData, uint16(data[i]))
+			i++
+		}
+
 		convertedData = append(convertedData, uint16(data[i]))
 	}
 
-- 
2.43.0


From 6de87c704197cc0b5530ad521b5d696bd6beed1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 32/52] fix: assertion messages are formatted with the
 arguments that follow them

---
 panic.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/panic.go b/panic.go
index c02c29a..62b5b25 100644
--- a/panic.go
+++ b/panic.go
@@ -14,7 +14,11 @@ func Assert(condition Bool, args ...any) {
 	if !condition {
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panic(Format(message, args...))
+				panic(Format(message, args[1:]...))
+			}
+
+			if message, ok := args[0].(string); ok {
+				panic(Format(String(message), args[1:]...))
 			}
 		}
 
@@ -31,11 +35,11 @@ func AssertEq[T Eq[T]](lhs T, rhs T, args ...any) {
 
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panicMessage += "\n>>> " + Format(message, args...)
+				panicMessage += "\n>>> " + Format(message, args[1:]...)
 			}
 
 			if message, ok := args[0].(string); ok {
-				panicMessage += "\n>>> " + Format(String(message), args...)
+				panicMessage += "\n>>> " + Format(String(message), args[1:]...)
 			}
 		}
 
@@ -52,11 +56,11 @@ func AssertNe[T Eq[T]](lhs T, rhs T, args ...any) {
 
 		if len(args) > 0 {
 			if message, ok := args[0].(String); ok {
-				panicMessage += "\n>>> " + Format(message, args...)
+				panicMessage += "\n>>> " + Format(message, args[1:]...)
 			}
 
 			if message, ok := args[0].(string); ok {
-				panicMessage += "\n>>> " + Format(String(message), args...)
+				panicMessage += "\n>>> " + Format(String(message), args[1:]...)
 			}
 		}
 
-- 
2.43.0


From 3ceedc1420019697c65a506e96bb5953b8b00e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:27 +0000
Subject: [PATCH 33/52] fix: ReadLine reads the whole line and appends it

---
 io.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/io.go b/io.go
index ff5ff73..5792c69 100644
--- a/io.go
+++ b/io.go
@@ -1,7 +1,9 @@
 package gost
 
 import (
+	"bytes"
 	"fmt"
+	"os"
 	"sync"
 	"unicode/utf8"
 )
@@ -82,7 +84,24 @@ func (self *Stdin) ReadLine(buffer *String) {
 	self.lock.Lock()
 	defer self.lock.Unlock()
 
-	var line string
-	fmt.Scanln(&line)
-	*buffer = String(line)
+	line := []byte{}
+	char := make([]byte, 1)
+
+	// one byte at a time: nothing beyond the line may be consumed
+	for {
+		n, err := os.Stdin.Read(char)
+
+		if n > 0 {
+			if char[0] == '\n' {
+				line = bytes.TrimSuffix(line, []byte("\r"))
+				break
+			}
+
+			line = append(line, char[0])
+		} else if err != nil {
+			break
+		}
+	}
+
+	*buffer += String(line)
 }
-- 
2.43.0


From 46084e0c45e94ba04e9eafa90e0b60633ed4fb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:13 +0000
Subject: [PATCH 34/52] fix: ReadDir lists only the entries there are, with
 their types

---
 fs.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/fs.go b/fs.go
index 6f224e2..32c8b89 100644
--- a/fs.go
+++ b/fs.go
@@ -137,16 +137,16 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 	if err != nil {
 		return Err[Vec[DirEntry]](err)
 	} else {
-		vec := VecWithLen[DirEntry](USize(len(entries)))
+		vec := VecWithCapacity[DirEntry](USize(len(entries)))
 
 		for _, entry := range entries {
 			fileType := FileType{}
 
-			if entry.Type().Perm().IsDir() {
+			if entry.Type().IsDir() {
 				fileType.typeInfo = "dir"
-			} else if entry.Type().Perm().IsRegular() {
+			} else if entry.Type().IsRegular() {
 				fileType.typeInfo = "file"
-			} else if entry.Type().Perm()&os.ModeSymlink != 0 {
+			} else if entry.Type()&os.ModeSymlink != 0 {
 				fileType.typeInfo = "symlink"
 			}
 
-- 
2.43.0


From e0764a31f3ce2bee06de0b44ed81fdf830df62e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:26 +0000
Subject: [PATCH 35/52] fix: Copy copies the contents and permission bits
 instead of hard-linking

---
 fs.go | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/fs.go b/fs.go
index 32c8b89..ebf946b 100644
--- a/fs.go
+++ b/fs.go
@@ -166,7 +166,26 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 // Copies the contents of one file to another. This function will also copy the permission bits of the original file to the destination file.
 // This function will overwrite the contents of to.
 func Copy(from String, to String) Result[any] {
-	err := os.Link(string(from), string(to))
+	stat, err := os.Stat(string(from))
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	data, err := os.ReadFile(string(from))
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	err = os.WriteFile(string(to), data, stat.Mode().Perm())
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	// the mode given to WriteFile is subject to the umask, and unused if the file exists
+	err = os.Chmod(string(to), stat.Mode().Perm())
 
 	if err != nil {
 		return Err[any](err)
-- 
2.43.0


From e59de89cb9a75409aae53e1fff7a543294b509be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:48 +0000
Subject: [PATCH 36/52] fix: RemoveDir removes only directories and RemoveFile
 only files

---
 fs.go | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/fs.go b/fs.go
index ebf946b..8bbd0e2 100644
--- a/fs.go
+++ b/fs.go
@@ -3,6 +3,7 @@ package gost
 import (
 	"os"
 	"path/filepath"
+	"syscall"
 )
 
 // Creates a new, empty directory at the provided path
@@ -18,7 +19,17 @@ func CreateDir(path String) Result[any] {
 
 // Removes an empty directory.
 func RemoveDir(path String) Result[any] {
-	err := os.Remove(string(path))
+	stat, err := os.Lstat(string(path))
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	if !stat.IsDir() {
+		return Err[any](&os.PathError{Op: "rmdir", Path: string(path), Err: syscall.ENOTDIR})
+	}
+
+	err = os.Remove(string(path))
 
 	if err != nil {
 		return Err[any](err)
@@ -54,7 +65,17 @@ func Write(path String, data []Byte) Result[any] {
 
 // Removes a file from the filesystem.
 func RemoveFile(path String) Result[any] {
-	err := os.Remove(string(path))
+	stat, err := os.Lstat(string(path))
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	if stat.IsDir() {
+		return Err[any](&os.PathError{Op: "unlink", Path: string(path), Err: syscall.EISDIR})
+	}
+
+	err = os.Remove(string(path))
 
 	if err != nil {
 		return Err[any](err)
-- 
2.43.0


From dccd5e2b3ae2cfd0e9bc66365aa1fe54013b09bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:23 +0000
Subject: [PATCH 37/52] fix: Read and ReadToString read until the end of the
 file

---
 fs.go | 36 ++----------------------------------
 1 file changed, 2 insertions(+), 34 deletions(-)

diff --git a/fs.go b/fs.go
index 8bbd0e2..34b35f8 100644
--- a/fs.go
+++ b/fs.go
@@ -98,23 +98,7 @@ func Rename(from String, to String) Result[any] {
 
 // Read the entire contents of a file into a bytes vector.
 func Read(path String) Result[[]Byte] {
-	file, err := os.Open(string(path))
-
-	if err != nil {
-		return Err[[]Byte](err)
-	}
-
-	defer file.Close()
-
-	stat, err := file.Stat()
-
-	if err != nil {
-		return Err[[]Byte](err)
-	}
-
-	data := make([]byte, stat.Size())
-
-	_, err = file.Read(data)
+	data, err := os.ReadFile(string(path))
 
 	if err != nil {
 		return Err[[]Byte](err)
@@ -217,23 +201,7 @@ func Copy(from String, to String) Result[any] {
 
 // Read the entire contents of a file into a string.
 func ReadToString(path String) Result[String] {
-	file, err := os.Open(string(path))
-
-	if err != nil {
-		return Err[String](err)
-	}
-
-	defer file.Close()
-
-	stat, err := file.Stat()
-
-	if err != nil {
-		return Err[String](err)
-	}
-
-	data := make([]byte, stat.Size())
-
-	_, err = file.Read(data)
+	data, err := os.ReadFile(string(path))
 
 	if err != nil {
 		return Err[String](err)
-- 
2.43.0


From 040a33ffdf092f433a3db27182940f1d6692bcef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:25 +0000
Subject: [PATCH 38/52] fix: JoinHandle can be polled and joined more than once

The spawned function's end was signalled by one send on an unbuffered channel:
an IsFinished that returned true or a Join consumed it, so a later Join blocked
forever and a later IsFinished was false; a handle nobody joined leaked the
goroutine. Closing the channel makes the end visible to every call.
---
 thread.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread.go b/thread.go
index a27241a..08c89d7 100644
--- a/thread.go
+++ b/thread.go
@@ -48,7 +48,7 @@ func Spawn(f func()) JoinHandle {
 
 	go func() {
 		f()
-		channel <- Unit{}
+		close(channel)
 	}()
 
 	return JoinHandle{
-- 
2.43.0


From 87137d9081602211f1de2545aac6639b702830af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:38 +0000
Subject: [PATCH 39/52] fix: panics for a missing trait name the type instead
 of failing in reflect

---
 utils.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utils.go b/utils.go
index eb94c60..42e8451 100644
--- a/utils.go
+++ b/utils.go
@@ -3,7 +3,7 @@ package gost
 import "reflect"
 
 func getTypeName[T any](value T) string {
-	return reflect.TypeOf(value).Elem().Name()
+	return reflect.TypeOf(&value).Elem().String()
 }
 
 func _Swap[T any](lhs *T, rhs *T) {
-- 
2.43.0


From 5af31111c2a88166d868d07d88f5ecbd609017d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:24:54 +0000
Subject: [PATCH 40/52] fix: nil interface elements can be searched for,
 deduplicated and filled in

---
 clone.go | 6 +-----
 cmp.go   | 4 +---
 2 files changed, 2 insertions(+), 8 deletions(-)

diff --git a/clone.go b/clone.go
index 3ee516f..4495469 100644
--- a/clone.go
+++ b/clone.go
@@ -1,16 +1,12 @@
 package gost
 
-import "reflect"
-
 // A common trait for the ability to explicitly duplicate an object.
 type Clone[T any] interface {
 	Clone() T
 }
 
 func castToClone[T any](value T) _InternalOption[Clone[T]] {
-	reflectedValue := reflect.ValueOf(value)
-
-	if casted, ok := reflectedValue.Interface().(Clone[T]); ok {
+	if casted, ok := any(value).(Clone[T]); ok {
 		return _Some[Clone[T]](casted)
 	} else {
 		return _None[Clone[T]]()
diff --git a/cmp.go b/cmp.go
index b261eea..e84b580 100644
--- a/cmp.go
+++ b/cmp.go
@@ -283,9 +283,7 @@ func (self Char) Eq(rhs Char) Bool {
 }
 
 func castToEq[T any](value T) _InternalOption[Eq[T]] {
-	reflectedValue := reflect.ValueOf(value)
-
-	if casted, ok := reflectedValue.Interface().(Eq[T]); ok {
+	if casted, ok := any(value).(Eq[T]); ok {
 		return _Some[Eq[T]](casted)
 	} else {
 		return _None[Eq[T]]()
-- 
2.43.0


From e29baac1a70d0cfb98ffd76e4b5de468fd92ce07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:25 +0000
Subject: [PATCH 41/52] fix: Vec.Insert beyond the end must not append before
 it panics

---
 vec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vec.go b/vec.go
index f2f9373..4b910f9 100644
--- a/vec.go
+++ b/vec.go
@@ -141,6 +141,10 @@ func (self Vec[T]) AsSlice() []T {
 //	gost.AssertEq(vec.GetUnchecked(0), gost.I32(1))
 //	gost.AssertEq(vec.GetUnchecked(1), gost.I32(3))
 func (self *Vec[T]) Insert(index USize, value T) {
+	if index > self.Len() {
+		panic("Vec.Insert: index out of bounds")
+	}
+
 	self.data = append(self.data, value)
 	copy(self.data[index+1:], self.data[index:])
 	self.data[index] = value
-- 
2.43.0


From 30bd08e7fc9f97045c93422d8c74fcba4db23fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:25 +0000
Subject: [PATCH 42/52] fix: Vec.Reserve ignored a request that overflows

---
 vec.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vec.go b/vec.go
index 4b910f9..bc9de4d 100644
--- a/vec.go
+++ b/vec.go
@@ -68,6 +68,10 @@ func (self Vec[T]) IsEmpty() Bool {
 //	vec.Reserve(10)
 //	gost.AssertEq(vec.Capacity(), gost.USize(10))
 func (self *Vec[T]) Reserve(additional USize) {
+	if self.Len()+additional < additional {
+		panic("Vec.Reserve: capacity overflow")
+	}
+
 	if self.Capacity() < self.Len()+additional {
 		newData := make([]T, self.Len(), self.Len()+additional)
 		copy(newData, self.data)
-- 
2.43.0


From a4973a1bd1a3810dc02b3fb10c6f63d7dc0d41b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:25 +0000
Subject: [PATCH 43/52] fix: VecDeque.Swap out of range replaced an element by
 a stale slot

---
 vec_deque.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vec_deque.go b/vec_deque.go
index 59af208..68c6a27 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -249,6 +249,10 @@ func (self *VecDeque[T]) Swap(a USize, b USize) {
 		return
 	}
 
+	if a >= self.len || b >= self.len {
+		panic("VecDeque.Swap: index out of bounds")
+	}
+
 	a = self._ToPhysicalIndex(a)
 	b = self._ToPhysicalIndex(b)
 
-- 
2.43.0


From 47d271478e98258345c339466f95d2aa1bcdf36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:25 +0000
Subject: [PATCH 44/52] fix: VecDeque.Reserve ignored a request that overflows

---
 vec_deque.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vec_deque.go b/vec_deque.go
index 68c6a27..2466e7f 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -80,10 +80,13 @@ func (self VecDeque[T]) Capacity() USize {
 //	deque.Reserve(gost.USize(8))
 //	gost.AssertEqual(deque.Capacity(), gost.USize(8))
 func (self *VecDeque[T]) Reserve(additional USize) {
-	// TODO: overflow check
 	oldCapacity := self.Capacity()
 	newCapacity := oldCapacity + additional
 
+	if newCapacity < oldCapacity {
+		panic("VecDeque.Reserve: capacity overflow")
+	}
+
 	if newCapacity > oldCapacity {
 		newBuffer := make([]T, newCapacity)
 		copy(newBuffer, self.buffer)
-- 
2.43.0


From 3b906137160f0d8491b90af5d76a40a814e697d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:59 +0000
Subject: [PATCH 45/52] fix: Join waited for ever for a thread that ended by
 runtime.Goexit

---
 thread.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/thread.go b/thread.go
index 08c89d7..8feab76 100644
--- a/thread.go
+++ b/thread.go
@@ -47,8 +47,8 @@ func Spawn(f func()) JoinHandle {
 	channel := make(chan Unit)
 
 	go func() {
+		defer close(channel)
 		f()
-		close(channel)
 	}()
 
 	return JoinHandle{
-- 
2.43.0


From 73731d34afd814e8fc9794c41c59c5a30f308221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:59 +0000
Subject: [PATCH 46/52] fix: a gokio future that is never awaited kept its
 goroutine for ever

---
 gokio/gokio.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gokio/gokio.go b/gokio/gokio.go
index 92acbf3..3d9612b 100644
--- a/gokio/gokio.go
+++ b/gokio/gokio.go
@@ -11,7 +11,7 @@ func (self *gokioFuture[T]) Await() T {
 }
 
 func Spawn[T any](f func() T) gost.Future[T] {
-	ch := make(chan T)
+	ch := make(chan T, 1)
 
 	future := gokioFuture[T]{ch: ch}
 
-- 
2.43.0


From 6bc15e653aa251dea4317ee048178cdcecdf8ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:18:59 +0000
Subject: [PATCH 47/52] fix: VecDeque.Reserve and Append grew the buffer even
 with room to spare

---
 vec_deque.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vec_deque.go b/vec_deque.go
index 2466e7f..e619e05 100644
--- a/vec_deque.go
+++ b/vec_deque.go
@@ -81,9 +81,9 @@ func (self VecDeque[T]) Capacity() USize {
 //	gost.AssertEqual(deque.Capacity(), gost.USize(8))
 func (self *VecDeque[T]) Reserve(additional USize) {
 	oldCapacity := self.Capacity()
-	newCapacity := oldCapacity + additional
+	newCapacity := self.len + additional
 
-	if newCapacity < oldCapacity {
+	if newCapacity < additional {
 		panic("VecDeque.Reserve: capacity overflow")
 	}
 
-- 
2.43.0


From d623300dc448b119dbb226fe33328d8f4465a0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:50 +0000
Subject: [PATCH 48/52] fix: Println wrote the newline separately, mixing lines
 of concurrent callers

---
 io.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/io.go b/io.go
index 5792c69..9e18614 100644
--- a/io.go
+++ b/io.go
@@ -9,8 +9,7 @@ import (
 )
 
 func Println(format String, params ...any) {
-	Print(format, params...)
-	fmt.Println()
+	fmt.Print(Format(format, params...) + "\n")
 }
 
 func Print(format String, params ...any) {
-- 
2.43.0


From cb69560dc845d8dd9aad34cb91ad6cd9fee6712d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:39 +0000
Subject: [PATCH 49/52] fix: BTreeMap.Insert keeps all entries when a
 comparison panics while the root grows

---
 btree_map.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/btree_map.go b/btree_map.go
index afe175a..dfec79a 100644
--- a/btree_map.go
+++ b/btree_map.go
@@ -92,6 +92,9 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 			// Split the old root and move 1 key to the new root
 			newRoot.splitChild(0, self.root)
 
+			// Change root
+			self.root = newRoot
+
 			// New root has two children now.  Decide which of the
 			// two children is going to have new key
 			i := USize(0)
@@ -99,9 +102,6 @@ func (self *BTreeMap[K, V]) Insert(key K, value V) Option[V] {
 				i++
 			}
 			newRoot.childs.GetUnchecked(i)._InsertNonFull(key, value)
-
-			// Change root
-			self.root = newRoot
 			self.len++
 			return None[V]()
 		} else /* If root is not full, call insertNonFull for root */ {
-- 
2.43.0


From 43b3b4bb2bea4612086308590bf30c795b61de04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:45 +0000
Subject: [PATCH 50/52] fix: the Path of a ReadDir entry leads to it when the
 directory is named through a link and ..

---
 fs.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fs.go b/fs.go
index 34b35f8..2d92bee 100644
--- a/fs.go
+++ b/fs.go
@@ -2,7 +2,6 @@ package gost
 
 import (
 	"os"
-	"path/filepath"
 	"syscall"
 )
 
@@ -155,7 +154,14 @@ func ReadDir(path String) Result[Vec[DirEntry]] {
 				fileType.typeInfo = "symlink"
 			}
 
-			entryPath := filepath.Join(string(path), entry.Name())
+			// not cleaned: ".." after a symbolic link does not lead back
+			entryPath := string(path)
+
+			if !os.IsPathSeparator(entryPath[len(entryPath)-1]) {
+				entryPath += string(os.PathSeparator)
+			}
+
+			entryPath += entry.Name()
 
 			vec.Push(DirEntry{
 				FileName: String(entry.Name()),
-- 
2.43.0


From 4b2c5c83d854aa5212bf342be96bd18f64e78b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:48:56 +0000
Subject: [PATCH 51/52] fix: a Copy that may not set the permission bits failed
 with the target overwritten

---
 fs.go | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/fs.go b/fs.go
index 2d92bee..f1710cc 100644
--- a/fs.go
+++ b/fs.go
@@ -189,14 +189,37 @@ func Copy(from String, to String) Result[any] {
 		return Err[any](err)
 	}
 
-	err = os.WriteFile(string(to), data, stat.Mode().Perm())
+	file, err := os.OpenFile(string(to), os.O_WRONLY|os.O_CREATE, stat.Mode().Perm())
 
 	if err != nil {
 		return Err[any](err)
 	}
 
-	// the mode given to WriteFile is subject to the umask, and unused if the file exists
-	err = os.Chmod(string(to), stat.Mode().Perm())
+	defer file.Close()
+
+	target, err := file.Stat()
+
+	if err != nil {
+		return Err[any](err)
+	}
+
+	// whatever can be refused comes before the old contents are lost
+	if target.Mode().IsRegular() {
+		// the mode given to OpenFile is subject to the umask, and unused if the file exists
+		err = file.Chmod(stat.Mode().Perm())
+
+		if err != nil {
+			return Err[any](err)
+		}
+
+		err = file.Truncate(0)
+
+		if err != nil {
+			return Err[any](err)
+		}
+	}
+
+	_, err = file.Write(data)
 
 	if err != nil {
 		return Err[any](err)
-- 
2.43.0


From c596d4c0b7f5ebea6f8e1249a30cbd637ad6595b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:49 +0000
Subject: [PATCH 52/52] fix: Display of an Option or Result refused pointer and
 interface types that implement it

---
 option.go | 5 +++++
 result.go | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/option.go b/option.go
index c864c4c..7870672 100644
--- a/option.go
+++ b/option.go
@@ -347,6 +347,11 @@ func (self Option[T]) Display() String {
 	if self.IsNone() {
 		return "None"
 	} else {
+		// T may be a pointer or an interface type, which *T has no methods of
+		if display, ok := any(*self.value).(Display[T]); ok {
+			return "Some(" + display.Display() + ")"
+		}
+
 		value := reflect.ValueOf(self.value)
 
 		if display, ok := value.Interface().(Display[T]); ok {
diff --git a/result.go b/result.go
index ddc9f73..861b6c9 100644
--- a/result.go
+++ b/result.go
@@ -319,6 +319,11 @@ func (self Result[T]) UnwrapOrElse(f func() T) T {
 // impl Display for Result
 func (self Result[T]) Display() String {
 	if self.IsOk() {
+		// T may be a pointer or an interface type, which *T has no methods of
+		if display, ok := any(*self.ok).(Display[T]); ok {
+			return "Ok(" + display.Display() + ")"
+		}
+
 		value := reflect.ValueOf(self.ok)
 
 		if display, ok := value.Interface().(Display[T]); ok {
-- 
2.43.0

