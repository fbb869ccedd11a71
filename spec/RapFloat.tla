------------------------------ MODULE RapFloat ------------------------------
(* IEEE-754 on 16 bit words.  A float64 is <<w3, w2, w1, w0>>, a float32 is  *)
(* <<hi, lo>>, most significant word first.  All NaNs are one value: the     *)
(* recorder maps every NaN to NaN64 / NaN32.                                 *)
EXTENDS RapBytes
LOCAL INSTANCE SequencesExt

NaN64 == <<32760, 0, 0, 0>>
NaN32 == <<32704, 0>>
PosInf64 == <<32752, 0, 0, 0>>
NegInf64 == <<65520, 0, 0, 0>>
Zero64 == <<0, 0, 0, 0>>

Neg64(w) == w[1] >= 32768
Exp64(w) == (w[1] % 32768) \div 16
Man4(w) == w[1] % 16                       \* top four bits of the mantissa
IsNaN64(w) == Exp64(w) = 2047 /\ (Man4(w) # 0 \/ w[2] # 0 \/ w[3] # 0 \/ w[4] # 0)
IsZero64(w) == w[1] % 32768 = 0 /\ w[2] = 0 /\ w[3] = 0 /\ w[4] = 0
Canon64(w) == IF IsNaN64(w) THEN NaN64 ELSE w
IsNaN32(x) == (x[1] % 32768) \div 128 = 255 /\ (x[1] % 128 # 0 \/ x[2] # 0)
Canon32(x) == IF IsNaN32(x) THEN NaN32 ELSE x

(* --------------------------------------------------------------------- order *)
MagLess(a, b) == \/ a[1] % 32768 < b[1] % 32768
                 \/ a[1] % 32768 = b[1] % 32768 /\ a[2] < b[2]
                 \/ a[1] % 32768 = b[1] % 32768 /\ a[2] = b[2] /\ a[3] < b[3]
                 \/ a[1] % 32768 = b[1] % 32768 /\ a[2] = b[2] /\ a[3] = b[3] /\ a[4] < b[4]
\* a < b as IEEE numbers: false when either is NaN, and -0 equals +0
FLess(a, b) ==
  /\ ~IsNaN64(a) /\ ~IsNaN64(b) /\ ~(IsZero64(a) /\ IsZero64(b))
  /\ IF Neg64(a) THEN (~Neg64(b) \/ MagLess(b, a)) ELSE (~Neg64(b) /\ MagLess(a, b))
FEq(a, b) == ~IsNaN64(a) /\ ~IsNaN64(b) /\ (a = b \/ (IsZero64(a) /\ IsZero64(b)))
FLeq(a, b) == FLess(a, b) \/ FEq(a, b)
FMin(a, b) == IF FLess(b, a) THEN b ELSE a
FMax(a, b) == IF FLess(a, b) THEN b ELSE a

(* ------------------------------------------------- float64 -> float32, to nearest even *)
Mk32(neg, bits) == << (IF neg THEN 32768 ELSE 0) + (bits \div 65536), bits % 65536 >>
ToF32(w) ==
  LET neg == Neg64(w)
      e   == Exp64(w) - 1023 + 127
      m23 == Man4(w) * 524288 + w[2] * 8 + (w[3] \div 8192)
      rest == (w[3] % 8192)                        \* 13 bits, then w[4]
      up23 == rest > 4096 \/ (rest = 4096 /\ (w[4] # 0 \/ m23 % 2 = 1))
  IN  IF IsNaN64(w) THEN NaN32
      ELSE IF Exp64(w) = 2047 \/ e >= 255 THEN Mk32(neg, 255 * 8388608)
      ELSE IF e >= 1 THEN Mk32(neg, e * 8388608 + m23 + (IF up23 THEN 1 ELSE 0))
      ELSE LET s == 1 - e                          \* into the subnormals
               sig == 8388608 + m23
           IN  IF s > 24 \/ Exp64(w) = 0 THEN Mk32(neg, 0)
               ELSE LET kept == sig \div P2[s]
                        rem  == sig % P2[s]
                        half == P2[s - 1]
                        tail == rest # 0 \/ w[4] # 0
                        up   == rem > half \/ (rem = half /\ (tail \/ kept % 2 = 1))
                    IN  Mk32(neg, kept + (IF up THEN 1 ELSE 0))

(* ----------------------------------------------------------- float32 -> float64, exact *)
Mk64(neg, e, m23) == << (IF neg THEN 32768 ELSE 0) + e * 16 + (m23 \div 524288),
                        (m23 \div 8) % 65536, (m23 % 8) * 8192, 0 >>
ToF64(x) ==
  LET neg == x[1] >= 32768
      e == (x[1] % 32768) \div 128
      m == (x[1] % 128) * 65536 + x[2]
  IN  IF e = 255 THEN (IF m # 0 THEN NaN64 ELSE IF neg THEN NegInf64 ELSE PosInf64)
      ELSE IF e > 0 THEN Mk64(neg, e - 127 + 1023, m)
      ELSE IF m = 0 THEN << (IF neg THEN 32768 ELSE 0), 0, 0, 0 >>
      ELSE LET k == CHOOSE j \in 0..22 : P2[j] <= m /\ m < P2[j + 1]   \* leading bit
           IN  Mk64(neg, k - 149 + 1023, (m - P2[k]) * P2[23 - k])
Round32(w) == ToF64(ToF32(w))

(* --------------------------------------------------- scaled integers (value * 2^17) *)
\* Lossy techniques compute with values on the grid of 2^-17; a value below 2^13
\* in magnitude and on that grid is also an integer here.  OffGrid otherwise.
ScaleBits == 17
OffGrid == -2147483647
ScaledOf64(w) ==
  LET e == Exp64(w) - 1023
      \* the 53 bit significand as three integers: 21 + 16 + 16 bits
      h == 1048576 + Man4(w) * 65536 + w[2]
      shift == 52 - e - ScaleBits                  \* bits to drop
  IN  IF IsZero64(w) THEN 0
      ELSE IF Exp64(w) = 0 \/ e > 13 \/ shift > 52 THEN OffGrid
      ELSE LET mag == IF shift >= 32
                      THEN (IF w[3] = 0 /\ w[4] = 0 /\ h % P2[shift - 32] = 0
                            THEN h \div P2[shift - 32] ELSE OffGrid)
                      ELSE IF shift >= 16 /\ w[4] = 0 /\ w[3] % P2[shift - 16] = 0 /\ e <= 12
                      THEN h * P2[32 - shift] + (w[3] \div P2[shift - 16])
                      ELSE OffGrid
           IN  IF mag = OffGrid THEN OffGrid ELSE IF Neg64(w) THEN 0 - mag ELSE mag
\* n * 2^-17 as a float64, exact for |n| < 2^30
F64OfScaled(n) ==
  IF n = 0 THEN Zero64
  ELSE LET a == AbsOf(n)
           k == CHOOSE j \in 0..29 : P2[j] <= a /\ a < P2[j + 1]
           r == a - P2[k]
           top == IF k <= 20 THEN r * P2[20 - k] ELSE r \div P2[k - 20]
           low == IF k <= 20 THEN 0 ELSE (r % P2[k - 20]) * P2[36 - k]
       IN  << (IF n < 0 THEN 32768 ELSE 0) + (k - ScaleBits + 1023) * 16 + (top \div 65536),
              top % 65536, low, 0 >>
Scaled32(x) == ScaledOf64(ToF64(x))
\* an integer as a float64 and (truncated past 24 bits) as a float32
F64OfInt(n) == IF n = 0 THEN Zero64
               ELSE LET w == F64OfScaled(n) IN << w[1] + ScaleBits * 16, w[2], w[3], w[4] >>
F32OfInt(n) == ToF32(F64OfInt(n))
=============================================================================
