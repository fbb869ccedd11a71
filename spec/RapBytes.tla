------------------------------ MODULE RapBytes ------------------------------
(* Bytes, varints and little endian words: the alphabet of the file format.  *)
(*                                                                           *)
(* A byte string is a sequence of 0..255.  In abstract recordings a byte     *)
(* string is kept as its lower case hexadecimal text, so that it can travel  *)
(* through JSON and be compared as a TLA+ string.                            *)
(* An unsigned 64 bit number that may not fit TLC's 32 bit integers is a     *)
(* tuple of four 16 bit words, most significant first.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
LOCAL INSTANCE SequencesExt

MinOf(a, b) == IF a < b THEN a ELSE b
MaxOf(a, b) == IF a > b THEN a ELSE b
AbsOf(a) == IF a < 0 THEN 0 - a ELSE a

RECURSIVE Pow2(_)
Pow2(n) == IF n = 0 THEN 1 ELSE 2 * Pow2(n - 1)
P2 == TLCEval([n \in 0..30 |-> Pow2(n)])

(* ---------------------------------------------------------------- hexadecimal *)
HexDigit == "0123456789abcdef"
HexOf == TLCEval([b \in 0..255 |->
            SubSeq(HexDigit, (b \div 16) + 1, (b \div 16) + 1) \o
            SubSeq(HexDigit, (b % 16) + 1, (b % 16) + 1)])
HexByte == TLCEval([h \in {HexOf[b] : b \in 0..255} |-> CHOOSE b \in 0..255 : HexOf[b] = h])

ToHex(bytes) == FoldLeft(LAMBDA a, b : a \o HexOf[b], "", bytes)
FromHex(h) == [i \in 1..(Len(h) \div 2) |-> HexByte[SubSeq(h, 2 * i - 1, 2 * i)]]

(* ------------------------------------------------------- 64 bit numbers as words *)
WZero == <<0, 0, 0, 0>>
\* w * m + a for small m and a (a carry never exceeds 31 bits for m < 2^14)
WMulAdd(w, m, a) ==
  LET x4 == w[4] * m + a
      x3 == w[3] * m + (x4 \div 65536)
      x2 == w[2] * m + (x3 \div 65536)
      x1 == w[1] * m + (x2 \div 65536)
  IN  <<x1 % 65536, x2 % 65536, x3 % 65536, x4 % 65536>>
WOfInt(n) == <<0, 0, n \div 65536, n % 65536>>     \* n >= 0
\* the two's complement 64 bit pattern of a (possibly negative) small integer
WOfSigned(n) == IF n >= 0 THEN WOfInt(n)
                ELSE LET m == 0 - (n + 1) IN     \* ~m
                     <<65535, 65535, 65535 - (m \div 65536), 65535 - (m % 65536)>>
WSmall(w) == w[1] = 0 /\ w[2] = 0 /\ w[3] < 4096   \* fits 28 bits
WInt(w) == w[3] * 65536 + w[4]
WNot(w) == << 65535 - w[1], 65535 - w[2], 65535 - w[3], 65535 - w[4] >>
WInc(w) == WMulAdd(w, 1, 1)
\* as unsigned numbers
WLeq(v, w) == LET D == {i \in 1..4 : v[i] # w[i]} IN D = {} \/ LET i == CHOOSE i \in D : \A j \in D : i <= j IN v[i] < w[i]
\* w div 128 and w mod 128
WShift7(w) ==
  LET x1 == w[1]
      x2 == (x1 % 128) * 65536 + w[2]
      x3 == (x2 % 128) * 65536 + w[3]
      x4 == (x3 % 128) * 65536 + w[4]
  IN  <<x1 \div 128, x2 \div 128, x3 \div 128, x4 \div 128>>

LE64(w) == << w[4] % 256, w[4] \div 256, w[3] % 256, w[3] \div 256,
              w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256 >>
LE32(w) == << w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256 >>   \* w = <<hi, lo>>
Words64(b, p) == << b[p+7] * 256 + b[p+6], b[p+5] * 256 + b[p+4],
                    b[p+3] * 256 + b[p+2], b[p+1] * 256 + b[p] >>
Words32(b, p) == << b[p+3] * 256 + b[p+2], b[p+1] * 256 + b[p] >>

(* --------------------------------------------------------------------- varints *)
\* base 128, least significant group first, top bit set on all but the last
RECURSIVE UVarW(_)
UVarW(w) == IF WSmall(w) /\ WInt(w) < 128 THEN <<WInt(w)>>
            ELSE <<128 + (w[4] % 128)>> \o UVarW(WShift7(w))
UVar(n) == IF n < 128 THEN <<n>>
           ELSE IF n < 16384 THEN <<128 + (n % 128), n \div 128>>
           ELSE UVarW(WOfInt(n))

(* ------------------------------------------------------------- parsing primitives *)
\* A parse result: ok, the position after what was read, the value, and for a
\* failure why it failed ("short": the data ended; "bad": it can not be decoded).
Good(p, v) == [ok |-> TRUE, p |-> p, v |-> v, why |-> ""]
Fail(p, why, v) == [ok |-> FALSE, p |-> p, v |-> v, why |-> why]

\* an unsigned varint as words
UVarWords(b, p) ==
  LET last == MinOf(p + 9, Len(b))
      ends == {k \in p..last : b[k] < 128}
  IN  IF ends = {}
      THEN Fail(p, IF Len(b) >= p + 9 THEN "bad" ELSE "short", WZero)
      ELSE LET e == CHOOSE k \in ends : \A j \in ends : k <= j
               w == FoldLeft(LAMBDA a, i : WMulAdd(a, 128, b[e - i] % 128), WZero,
                             [i \in 1..(e - p + 1) |-> i - 1])
           IN  IF e = p + 9 /\ b[e] > 1 THEN Fail(p, "bad", WZero) ELSE Good(e + 1, w)

\* a varint used as a count, a size or an index; what does not fit 28 bits is
\* larger than anything this specification gets to see
Huge == 268435456
UVarInt(b, p) ==
  IF p <= Len(b) /\ b[p] < 128 THEN Good(p + 1, b[p])
  ELSE LET r == UVarWords(b, p)
       IN  IF ~r.ok THEN Fail(p, r.why, 0)
           ELSE Good(r.p, IF WSmall(r.v) THEN WInt(r.v) ELSE Huge)

TakeBytes(b, p, n) ==
  IF n > Len(b) - p + 1 THEN Fail(p, "short", <<>>) ELSE Good(p + n, SubSeq(b, p, p + n - 1))

\* length prefixed bytes, and length prefixed text as hexadecimal
ByteArray(b, p) == LET n == UVarInt(b, p) IN IF ~n.ok THEN Fail(p, n.why, <<>>) ELSE TakeBytes(b, n.p, n.v)
Text(b, p) == LET r == ByteArray(b, p) IN IF ~r.ok THEN Fail(p, r.why, "") ELSE Good(r.p, ToHex(r.v))

\* n items, each parsed by Item(b, p); stops at the first that fails.
\* More items than bytes left can only fail once every item takes a byte.
Many(Item(_, _), b, p, n) ==
  IF n > Len(b) - p + 1 THEN Fail(p, "short", <<>>)
  ELSE FoldLeft(LAMBDA a, i :
                  IF ~a.ok THEN a
                  ELSE LET r == Item(b, a.p)
                       IN IF r.ok THEN Good(r.p, Append(a.v, r.v)) ELSE Fail(r.p, r.why, <<>>),
                Good(p, <<>>), [i \in 1..n |-> i])
Counted(Item(_, _), b, p) ==
  LET n == UVarInt(b, p) IN IF ~n.ok THEN Fail(p, n.why, <<>>) ELSE Many(Item, b, n.p, n.v)

TextArray(b, p) == Counted(Text, b, p)
UVarIntArray(b, p) == Counted(UVarInt, b, p)

(* ---------------------------------------------------------------------- encoding *)
Cat(seqs) == FoldLeft(LAMBDA a, s : a \o s, <<>>, seqs)
EncBytes(bytes) == UVar(Len(bytes)) \o bytes
EncText(hex) == EncBytes(FromHex(hex))
EncTexts(hexes) == UVar(Len(hexes)) \o Cat([i \in DOMAIN hexes |-> EncText(hexes[i])])
EncUVars(ns) == UVar(Len(ns)) \o Cat([i \in DOMAIN ns |-> UVar(ns[i])])

RangeOf(s) == {s[i] : i \in DOMAIN s}
\* position of x in s (its first occurrence), 0 when absent
IndexOf(s, x) == LET I == {i \in DOMAIN s : s[i] = x}
                 IN IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
\* 0 based, as files have it; what is not there is one past the end
IndexIn(s, x) == IF IndexOf(s, x) = 0 THEN Len(s) ELSE IndexOf(s, x) - 1
\* s without repetitions, keeping first occurrences
Distinct(s) == FoldLeft(LAMBDA a, x : IF \E i \in DOMAIN a : a[i] = x THEN a ELSE Append(a, x), <<>>, s)
Reverse2(s) == [i \in DOMAIN s |-> s[Len(s) + 1 - i]]
=============================================================================
