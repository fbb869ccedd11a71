-------------------------------- MODULE RapBson -------------------------------
(* Metadata as BSON: what the bytes of an exported document mean, and which  *)
(* document a metadata block is.                                             *)
(*                                                                           *)
(* A value is [t, s, k]: its BSON type, its scalar payload as hexadecimal    *)
(* (as stored; the bytes of a string without the closing zero), and the      *)
(* <<key, value>> pairs of a document or array, in order.                    *)
EXTENDS RapMeta, RapFloat
LOCAL INSTANCE SequencesExt

BDouble == 1  BString == 2  BDoc == 3  BArray == 4  BBin == 5  BBool == 8  BTime == 9  BInt == 16
Bv(t, s, k) == [t |-> t, s |-> s, k |-> k]
\* a little endian 32 bit size, -1 when it is negative or beyond anything here
Int32At(b, p) == IF p + 3 > Len(b) THEN -1
                 ELSE LET w == Words32(b, p) IN IF w[1] >= 4096 THEN -1 ELSE w[1] * 65536 + w[2]
CString(b, p) ==
  LET ends == {i \in p..MinOf(p + 70000, Len(b)) : b[i] = 0} IN
  IF ends = {} THEN Fail(p, "short", "")
  ELSE LET e == CHOOSE i \in ends : \A j \in ends : i <= j IN Good(e + 1, ToHex(SubSeq(b, p, e - 1)))
Raw(b, p, n, t) == IF p + n - 1 > Len(b) THEN Fail(p, "short", Bv(0, "", <<>>)) ELSE Good(p + n, Bv(t, ToHex(SubSeq(b, p, p + n - 1)), <<>>))

RECURSIVE Document(_, _, _)
BValue(b, p, t) ==
  CASE t = BDouble -> Raw(b, p, 8, t)
    [] t = BString -> LET n == Int32At(b, p) IN
         IF n < 1 \/ p + 4 + n - 1 > Len(b) \/ b[p + 4 + n - 1] # 0 THEN Fail(p, "bad", Bv(0, "", <<>>))
         ELSE Good(p + 4 + n, Bv(t, ToHex(SubSeq(b, p + 4, p + 4 + n - 2)), <<>>))
    [] t \in {BDoc, BArray} -> Document(b, p, t)
    [] t = BBin -> LET n == Int32At(b, p) IN
         IF n < 0 \/ p + 5 + n - 1 > Len(b) \/ b[p + 4] # 0 THEN Fail(p, "bad", Bv(0, "", <<>>))
         ELSE Good(p + 5 + n, Bv(t, ToHex(SubSeq(b, p + 5, p + 5 + n - 1)), <<>>))
    [] t = BBool -> Raw(b, p, 1, t)
    [] t = BTime -> Raw(b, p, 8, t)
    [] t = BInt -> Raw(b, p, 4, t)
    [] OTHER -> Fail(p, "bad", Bv(0, "", <<>>))
RECURSIVE Elements(_, _, _)
Elements(b, p, acc) ==
  IF p > Len(b) THEN Fail(p, "short", <<>>)
  ELSE IF b[p] = 0 THEN Good(p + 1, acc)
  ELSE LET k == CString(b, p + 1) IN
       IF ~k.ok THEN Fail(p, k.why, <<>>)
       ELSE LET v == BValue(b, k.p, b[p]) IN
            IF ~v.ok THEN Fail(p, v.why, <<>>) ELSE Elements(b, v.p, Append(acc, <<k.v, v.v>>))
Document(b, p, t) ==
  LET n == Int32At(b, p)
      es == Elements(b, p + 4, <<>>)
  IN  IF n < 5 \/ p + n - 1 > Len(b) THEN Fail(p, "bad", Bv(0, "", <<>>))
      ELSE IF ~es.ok \/ es.p # p + n THEN Fail(p, "bad", Bv(0, "", <<>>))
      ELSE Good(es.p, Bv(t, "", es.v))

(* --------------------------------------------------------- what a value becomes *)
HexOfDouble(w) == ToHex(LE64(w))
SameDouble(hex, w) == Len(hex) = 16 /\ Canon64(Words64(FromHex(hex), 1)) = Canon64(w)
IndexKey(i) == LET s == ToString(i) IN
  FoldLeft(LAMBDA a, j : a \o HexOf[48 + (CHOOSE d \in 0..9 : ToString(d) = SubSeq(s, j, j))], "", [j \in 1..Len(s) |-> j])
\* us microseconds are within ms milliseconds (both 64 bit words): ms = floor(us / 1000)
WithinMilli(us, ms) ==
  LET x == WMulAdd(ms, 1000, 0)
      a == (us[4] - x[4] + 65536) % 65536
  IN  a < 1000 /\ WMulAdd(ms, 1000, a) = us
CharKey(c) == HexOf[c]
RECURSIVE BlockShown(_, _), Shown(_, _)
Vector(s, n, v) ==
  /\ v.t = BDoc /\ Len(v.k) = n
  /\ \A i \in 1..n : /\ v.k[i][1] = CharKey(119 + i)        \* "x", "y", "z"
                     /\ v.k[i][2].t = BDouble
                     /\ SameDouble(v.k[i][2].s, Words64(FromHex(s), 8 * i - 7))
InOrder(k) == \A i \in DOMAIN k : k[i][1] = IndexKey(i - 1)
Shown(p, v) ==
  CASE p.c = CStr -> v.t = BString /\ v.s = p.s
    [] p.c = CInt -> v.t = BInt /\ v.s = p.s
    [] p.c = CF32 -> v.t = BDouble /\ SameDouble(v.s, ToF64(Words32(FromHex(p.s), 1)))
    [] p.c \in {CTrue, CFalse} -> v.t = BBool /\ v.s = (IF p.c = CTrue THEN "01" ELSE "00")
    [] p.c = CByte -> v.t = BInt /\ v.s = p.s \o "000000"
    [] p.c = CVec2 -> Vector(p.s, 2, v)
    [] p.c = CVec3 -> Vector(p.s, 3, v)
    [] p.c = CTime -> v.t = BTime /\ WithinMilli(Words64(FromHex(p.s), 1), Words64(FromHex(v.s), 1))
    [] p.c = CBlock -> v.t = BDoc /\ BlockShown(p.k, v.k)
    [] p.c = CBytes -> v.t = BBin /\ v.s = p.s
    [] p.c = CBools -> LET bs == FromHex(p.s) IN
         v.t = BArray /\ Len(v.k) = Len(bs) /\ InOrder(v.k)
         /\ \A i \in DOMAIN bs : v.k[i][2].t = BBool /\ v.k[i][2].s = (IF bs[i] % 2 = 1 THEN "01" ELSE "00")
    [] OTHER -> v.t = BArray /\ Len(v.k) = Len(p.k) /\ InOrder(v.k) /\ \A i \in DOMAIN p.k : Shown(p.k[i][2], v.k[i][2])
\* keys in any order, each once
BlockShown(m, k) ==
  /\ Len(m) = Len(k)
  /\ \A i \in DOMAIN m : \E j \in DOMAIN k : m[i][1] = k[j][1] /\ Shown(m[i][2], k[j][2])
\* keys end at a zero byte in BSON, so one that holds a zero byte can not be a key
RECURSIVE Keyable(_)
HasZero(h) == \E i \in 1..(Len(h) \div 2) : SubSeq(h, 2 * i - 1, 2 * i) = "00"
Keyable(m) == \A i \in DOMAIN m :
  /\ ~HasZero(m[i][1])
  /\ m[i][2].c = CBlock => Keyable(m[i][2].k)
  /\ m[i][2].c = 13 + CBlock => \A j \in DOMAIN m[i][2].k : Keyable(m[i][2].k[j][2].k)
===============================================================================
