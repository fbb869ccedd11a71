------------------------------- MODULE RapText --------------------------------
(* Text: the hexadecimal form of printable ASCII, UTF-8 with its invalid     *)
(* bytes replaced, decimal numerals.                                         *)
EXTENDS RapFloat
LOCAL INSTANCE SequencesExt

Printable == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
CharHex == TLCEval([c \in {SubSeq(Printable, i, i) : i \in 1..Len(Printable)} |->
                      HexOf[31 + CHOOSE i \in 1..Len(Printable) : SubSeq(Printable, i, i) = c]])
X(text) == FoldLeft(LAMBDA a, i : a \o CharHex[SubSeq(text, i, i)], "", [i \in 1..Len(text) |-> i])

(* ------------------------------------------------------------------------- UTF-8 *)
Cont(b, i) == i <= Len(b) /\ b[i] >= 128 /\ b[i] < 192
\* the length of the character at i, 0 when the byte there begins none
RuneLen(b, i) ==
  LET c == b[i] IN
  IF c < 128 THEN 1
  ELSE IF c >= 194 /\ c < 224 THEN (IF Cont(b, i + 1) THEN 2 ELSE 0)
  ELSE IF c >= 224 /\ c < 240
  THEN (IF Cont(b, i + 1) /\ Cont(b, i + 2) /\ (c = 224 => b[i + 1] >= 160) /\ (c = 237 => b[i + 1] < 160) THEN 3 ELSE 0)
  ELSE IF c >= 240 /\ c < 245
  THEN (IF /\ Cont(b, i + 1) /\ Cont(b, i + 2) /\ Cont(b, i + 3)
           /\ (c = 240 => b[i + 1] >= 144) /\ (c = 244 => b[i + 1] < 144) THEN 4 ELSE 0)
  ELSE 0
\* (no byte both begins a character and belongs to one that began before it)
RECURSIVE InHalves(_)
InHalves(ss) == IF Len(ss) < 9 THEN Cat(ss)
              ELSE LET h == Len(ss) \div 2 IN InHalves(SubSeq(ss, 1, h)) \o InHalves(SubSeq(ss, h + 1, Len(ss)))
FixBytes(b) ==
  InHalves([i \in DOMAIN b |->
    IF \E k \in 1..3 : k < i /\ RuneLen(b, i - k) > k THEN <<>>
    ELSE LET n == RuneLen(b, i) IN IF n = 0 THEN <<239, 191, 189>> ELSE SubSeq(b, i, i + n - 1)])
HighDigits == {"8", "9", "a", "b", "c", "d", "e", "f"}
AllAscii(h) == \A i \in 1..(Len(h) \div 2) : SubSeq(h, 2 * i - 1, 2 * i - 1) \notin HighDigits
\* text as JSON holds it: every byte that is no part of a character becomes U+FFFD
FixText(h) == IF AllAscii(h) THEN h ELSE ToHex(FixBytes(FromHex(h)))
ValidText(h) == FixText(h) = h

(* ----------------------------------------------------------------- 64 bit words *)
WAllZero(w) == w = WZero
WHalf(w) == << w[1] \div 2, (w[1] % 2) * 32768 + (w[2] \div 2),
               (w[2] % 2) * 32768 + (w[3] \div 2), (w[3] % 2) * 32768 + (w[4] \div 2) >>
WNeg(w) == WInc(WNot(w))
\* signed order
WSLess(a, b) ==
  LET x == <<(a[1] + 32768) % 65536, a[2], a[3], a[4]>>
      y == <<(b[1] + 32768) % 65536, b[2], b[3], b[4]>>
  IN  \/ x[1] < y[1]
      \/ x[1] = y[1] /\ x[2] < y[2]
      \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] < y[3]
      \/ x[1] = y[1] /\ x[2] = y[2] /\ x[3] = y[3] /\ x[4] < y[4]

\* the magnitude of a whole float64 below 2^53 as words: [ok, v]
WholeOf64(w) ==
  LET e == Exp64(w) - 1023
      sig == << 16 + Man4(w), w[2], w[3], w[4] >>
  IN  IF IsZero64(w) THEN [ok |-> TRUE, v |-> WZero]
      ELSE IF e < 0 \/ e > 52 THEN [ok |-> FALSE, v |-> WZero]
      ELSE FoldLeft(LAMBDA a, i : [ok |-> a.ok /\ a.v[4] % 2 = 0, v |-> WHalf(a.v)],
                    [ok |-> TRUE, v |-> sig], [i \in 1..(52 - e) |-> i])
\* a whole float64 that fits 32 bits, as a two's complement pair of words
Int32Of64(w) ==
  LET r == WholeOf64(w)
      n == IF Neg64(w) THEN WNeg(r.v) ELSE r.v
  IN  IF ~r.ok \/ r.v[1] # 0 \/ r.v[2] # 0 THEN [ok |-> FALSE, v |-> <<0, 0>>]
      ELSE IF Neg64(w) THEN [ok |-> r.v[3] < 32768 \/ (r.v[3] = 32768 /\ r.v[4] = 0), v |-> <<n[3], n[4]>>]
      ELSE [ok |-> r.v[3] < 32768, v |-> <<n[3], n[4]>>]
\* an int32 (little endian hex) as a float64, exact
F64OfInt32(hex) ==
  LET b == FromHex(hex)
      neg == b[4] >= 128
      p == <<b[4] * 256 + b[3], b[2] * 256 + b[1]>>
      m == IF neg THEN LET n == WNeg(<<65535, 65535, p[1], p[2]>>) IN <<n[3], n[4]>> ELSE p
      hi == m[1]
      lo == m[2]
      k == IF hi # 0 THEN 16 + CHOOSE j \in 0..15 : P2[j] <= hi /\ hi < P2[j + 1]
           ELSE CHOOSE j \in 0..15 : P2[j] <= lo /\ lo < P2[j + 1]
      \* the bits below the leading one, moved up to 52 bits: 36 bits of words 2..4 plus 4
      r == IF hi # 0 THEN <<0, 0, hi - P2[k - 16], lo>> ELSE <<0, 0, 0, lo - P2[k]>>
      s == FoldLeft(LAMBDA a, i : WMulAdd(a, 2, 0), r, [i \in 1..(52 - k) |-> i])
  IN  IF hi = 0 /\ lo = 0 THEN Zero64
      ELSE << (IF neg THEN 32768 ELSE 0) + (k + 1023) * 16 + s[1], s[2], s[3], s[4] >>

\* floor(|w| * 2^17), for magnitudes below 2^13
Floor17(w) ==
  LET e == Exp64(w) - 1023
      drop == 52 - e - 17
      sig == << 16 + Man4(w), w[2], w[3], w[4] >>
      r == FoldLeft(LAMBDA a, i : WHalf(a), sig, [i \in 1..drop |-> i])
  IN  IF Exp64(w) = 0 \/ drop > 60 THEN 0 ELSE WInt(r)

(* --------------------------------------------------------------------- numerals *)
Two(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
=============================================================================
