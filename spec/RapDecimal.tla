------------------------------ MODULE RapDecimal ------------------------------
(* Numbers as text: which texts are numbers, and the float64 or float32      *)
(* nearest to one (ties to even), exactly, whatever its length and exponent. *)
EXTENDS RapFloat
LOCAL INSTANCE SequencesExt

(* ------------------------------------------------------------- large naturals *)
\* sequences of 15 bit limbs, least significant first, without leading zeros
Limb == 32768
NZero == <<>>
RECURSIVE Carry(_)
Carry(c) == IF c = 0 THEN <<>> ELSE <<c % Limb>> \o Carry(c \div Limb)
\* n * m + a, for m and a below 2^15
NMulAdd(n, m, a) ==
  LET r == FoldLeft(LAMBDA acc, x : LET y == x * m + acc[2] IN <<Append(acc[1], y % Limb), y \div Limb>>, <<<<>>, a>>, n)
  IN  r[1] \o Carry(r[2])
NLess(a, b) ==
  IF Len(a) # Len(b) THEN Len(a) < Len(b)
  ELSE LET d == {i \in DOMAIN a : a[i] # b[i]} IN
       d # {} /\ LET i == CHOOSE i \in d : \A j \in d : j <= i IN a[i] < b[i]
NTrim(n) == LET nz == {i \in DOMAIN n : n[i] # 0} IN
            IF nz = {} THEN <<>> ELSE SubSeq(n, 1, CHOOSE i \in nz : \A j \in nz : j <= i)
\* a - b, for b <= a
NSub(a, b) ==
  NTrim(FoldLeft(LAMBDA acc, i : LET y == a[i] - (IF i <= Len(b) THEN b[i] ELSE 0) - acc[2] IN
                   IF y < 0 THEN <<Append(acc[1], y + Limb), 1>> ELSE <<Append(acc[1], y), 0>>,
                 <<<<>>, 0>>, [i \in DOMAIN a |-> i])[1])
BitsOf(x) == CHOOSE k \in 1..15 : P2[k - 1] <= x /\ x < P2[k]
NBits(n) == IF n = <<>> THEN 0 ELSE 15 * (Len(n) - 1) + BitsOf(n[Len(n)])
NShift(n, s) == IF s = 0 THEN n
                ELSE NMulAdd([i \in 1..(s \div 15) |-> 0] \o n, P2[s % 15], 0)
NPow10(k) == FoldLeft(LAMBDA a, i : NMulAdd(a, 10000, 0), <<<<1>>, <<10>>, <<100>>, <<1000>>>>[(k % 4) + 1], [i \in 1..(k \div 4) |-> i])
NOfDigits(ds) == FoldLeft(LAMBDA a, x : NMulAdd(a, 10, x), NZero, ds)

(* ---------------------------------------------------------------- to the nearest *)
\* n / d (n, d > 0) with p bits and exponents emin..emax: <<"num", significand
\* as words, exponent>> or <<"over">>
Nearest(n, d, p, emin) ==
  LET s == NBits(d) - NBits(n)
      n0 == IF s > 0 THEN NShift(n, s) ELSE n
      d0 == IF s < 0 THEN NShift(d, -s) ELSE d
      low == NLess(n0, d0)
      n1 == IF low THEN NShift(n0, 1) ELSE n0            \* 1 <= n1 / d0 < 2
      e == (IF low THEN -1 ELSE 0) - s
      keep == IF e >= emin THEN p ELSE p - (emin - e)
      q == IF keep < 1 THEN <<WZero, n1>>
           ELSE FoldLeft(LAMBDA a, i : LET r == NShift(a[2], 1) IN
                           IF NLess(r, d0) THEN <<WMulAdd(a[1], 2, 0), r>> ELSE <<WMulAdd(a[1], 2, 1), NSub(r, d0)>>,
                         <<WOfInt(1), NSub(n1, d0)>>, [i \in 1..(keep - 1) |-> i])
      \* what is left, over a whole step
      rest == IF keep >= 1 THEN NShift(q[2], 1) ELSE n1
      up == keep >= 0 /\ (NLess(d0, rest) \/ (rest = d0 /\ q[1][4] % 2 = 1))
  IN  << IF up THEN WMulAdd(q[1], 1, 1) ELSE q[1], IF e >= emin THEN e ELSE emin >>
\* 10^x over or under 1
Quotient(ds, x) == IF x >= 0 THEN <<FoldLeft(LAMBDA a, i : NMulAdd(a, 10000, 0), NMulAdd(NOfDigits(ds), <<1, 10, 100, 1000>>[(x % 4) + 1], 0),
                                             [i \in 1..(x \div 4) |-> i]), <<1>>>>
                   ELSE <<NOfDigits(ds), NPow10(-x)>>
\* the digits ds (no leading zeros, not empty) times 10^x: [over, w]
Dec64(neg, ds, x) ==
  LET sign == IF neg THEN 32768 ELSE 0
      q == Quotient(ds, x)
      r == Nearest(q[1], q[2], 53, -1022)
      top == r[1][1] + 16 * (r[2] + 1022)
  IN  IF ds = <<>> \/ x + Len(ds) < -340 THEN [over |-> FALSE, w |-> <<sign, 0, 0, 0>>]
      ELSE IF x + Len(ds) > 320 THEN [over |-> TRUE, w |-> Zero64]
      ELSE IF r[2] > 1023 \/ top >= 32752 THEN [over |-> TRUE, w |-> Zero64]
      ELSE [over |-> FALSE, w |-> <<sign + top, r[1][2], r[1][3], r[1][4]>>]
Dec32(neg, ds, x) ==
  LET sign == IF neg THEN 32768 ELSE 0
      q == Quotient(ds, x)
      r == Nearest(q[1], q[2], 24, -126)
      top == r[1][3] + 128 * (r[2] + 126)
  IN  IF ds = <<>> \/ x + Len(ds) < -60 THEN [over |-> FALSE, w |-> <<sign, 0>>]
      ELSE IF x + Len(ds) > 60 THEN [over |-> TRUE, w |-> <<0, 0>>]
      ELSE IF r[2] > 127 \/ top >= 32640 THEN [over |-> TRUE, w |-> <<0, 0>>]
      ELSE [over |-> FALSE, w |-> <<sign + top, r[1][4]>>]

(* ---------------------------------------------------------------------- numerals *)
\* what a text reads as: [k: "no" "num" "inf" "nan" "vague", neg, ds, x]
\* (+|-) digits (. digits) (e (+|-) digits), or in any case inf, infinity, nan;
\* hexadecimal floats and underscores are left open
RECURSIVE Digits10(_)
Digits10(n) == (IF n < 10 THEN <<>> ELSE Digits10(n \div 10)) \o <<48 + (n % 10)>>
Lower(d) == [i \in DOMAIN d |-> IF d[i] \in 65..90 THEN d[i] + 32 ELSE d[i]]
IsDigit(x) == x \in 48..57
DropZeros(ds) == LET nz == {i \in DOMAIN ds : ds[i] # 0} IN
                 IF nz = {} THEN <<>> ELSE SubSeq(ds, CHOOSE i \in nz : \A j \in nz : i <= j, Len(ds))
\* a run of digits as a number, large ones as 100000
Clamped(s) == FoldLeft(LAMBDA a, x : IF a >= 10000 THEN 100000 ELSE 10 * a + (x - 48), 0, s)
Numeral(d) ==
  LET R(k, neg, ds, x) == [k |-> k, neg |-> neg, ds |-> ds, x |-> x]
      signed == d # <<>> /\ d[1] \in {43, 45}
      neg == d # <<>> /\ d[1] = 45
      s == Lower(IF signed THEN Tail(d) ELSE d)
      es == {i \in DOMAIN s : s[i] = 101}
      e == IF es = {} THEN Len(s) + 1 ELSE CHOOSE i \in es : \A j \in es : i <= j
      body == SubSeq(s, 1, e - 1)
      dots == {i \in DOMAIN body : body[i] = 46}
      digits == SelectSeq(body, IsDigit)
      point == IF dots = {} THEN Len(body) ELSE CHOOSE i \in dots : TRUE
      exp == SubSeq(s, e + 1, Len(s))
      xs == IF exp # <<>> /\ exp[1] \in {43, 45} THEN Tail(exp) ELSE exp
      x == IF exp # <<>> /\ exp[1] = 45 THEN 0 - Clamped(xs) ELSE Clamped(xs)
      good == /\ digits # <<>> /\ Cardinality(dots) <= 1 /\ Len(digits) + Cardinality(dots) = Len(body)
              /\ es # {} => xs # <<>> /\ \A i \in DOMAIN xs : IsDigit(xs[i])
  IN  IF s = <<105, 110, 102>> \/ s = <<105, 110, 102, 105, 110, 105, 116, 121>> THEN R("inf", neg, <<>>, 0)
      ELSE IF s = <<110, 97, 110>> /\ ~signed THEN R("nan", FALSE, <<>>, 0)
      ELSE IF good THEN R("num", neg, DropZeros([i \in DOMAIN digits |-> digits[i] - 48]),
                          x - (IF dots = {} THEN 0 ELSE Len(body) - point))
      ELSE IF (\E i \in DOMAIN s : s[i] \in {95, 120}) /\ (\E i \in DOMAIN s : IsDigit(s[i])) THEN R("vague", FALSE, <<>>, 0)
      ELSE R("no", FALSE, <<>>, 0)
===============================================================================
