------------------------------ MODULE RapMeta ------------------------------
(* Metadata values.                                                          *)
(*                                                                           *)
(* A property is [c, s, k]: its kind (the type code of the format), its      *)
(* scalar payload as hexadecimal (little endian for numbers, the raw bytes   *)
(* for text, byte and boolean arrays), and its parts: <<key, property>>      *)
(* pairs for a block, <<"", property>> pairs for an array, else <<>>.        *)
(* A metadata block is a sequence of <<key, property>> with distinct keys;   *)
(* the order carries no meaning.                                             *)
EXTENDS RapBytes
LOCAL INSTANCE SequencesExt

CStr == 0   CInt == 1   CF32 == 2   CTrue == 3   CFalse == 4   CByte == 5
CVec2 == 6  CVec3 == 7  CBlock == 11  CTime == 12
CBools == 16  CBytes == 18
\* arrays of properties: 13 + the code of the elements
ArrayBases == {CStr, CInt, CF32, CVec2, CVec3, CBlock, CTime}
ArrayCodes == {13 + b : b \in ArrayBases}
ScalarSize == (CInt :> 4) @@ (CF32 :> 4) @@ (CTrue :> 0) @@ (CFalse :> 0) @@ (CByte :> 1) @@
              (CVec2 :> 16) @@ (CVec3 :> 24) @@ (CTime :> 8)
Codes == DOMAIN ScalarSize \union {CStr, CBlock, CBools, CBytes} \union ArrayCodes

Prop(c, s, k) == [c |-> c, s |-> s, k |-> k]

\* a map written as a list of pairs, a later pair for the same key replacing an earlier one
LastWins(pairs) ==
  LET keep == {i \in DOMAIN pairs : \A j \in DOMAIN pairs : j > i => pairs[j][1] # pairs[i][1]}
  IN  FoldLeft(LAMBDA a, i : IF i \in keep THEN Append(a, pairs[i]) ELSE a, <<>>,
               [i \in DOMAIN pairs |-> i])
Keys(block) == {block[i][1] : i \in DOMAIN block}

(* ------------------------------------------------------------------- equality *)
RECURSIVE SameProp(_, _)
SameBlock(a, b) ==
  \/ a = b
  \/ /\ Len(a) = Len(b)
     /\ Keys(a) = Keys(b)
     /\ \/ RangeOf(a) = RangeOf(b)
        \/ \A i \in DOMAIN a : \E j \in DOMAIN b : a[i][1] = b[j][1] /\ SameProp(a[i][2], b[j][2])
SameProp(p, q) ==
  /\ p.c = q.c
  /\ p.s = q.s
  /\ Len(p.k) = Len(q.k)
  /\ IF p.c = CBlock THEN SameBlock(p.k, q.k)
     ELSE \A i \in DOMAIN p.k : SameProp(p.k[i][2], q.k[i][2])

(* ------------------------------------------------------------------- encoding *)
RECURSIVE EncPropData(_)
EncProp(p) == <<p.c>> \o EncPropData(p)
EncPropData(p) ==
  CASE p.c = CStr -> EncText(p.s)
    [] p.c \in {CBools, CBytes} -> EncText(p.s)
    [] p.c = CBlock -> EncTexts([i \in DOMAIN p.k |-> p.k[i][1]]) \o
                       Cat([i \in DOMAIN p.k |-> EncProp(p.k[i][2])])
    [] p.c \in ArrayCodes -> UVar(Len(p.k)) \o Cat([i \in DOMAIN p.k |-> EncPropData(p.k[i][2])])
    [] OTHER -> FromHex(p.s)

(* -------------------------------------------------------------------- parsing *)
\* every NaN is one value
NaNBytes32(x) == x[4] % 128 = 127 /\ x[3] >= 128 /\ (x[3] % 128 # 0 \/ x[2] # 0 \/ x[1] # 0)
NaNBytes64(x, o) == /\ x[o+8] % 128 = 127 /\ x[o+7] >= 240
                    /\ (x[o+7] % 16 # 0 \/ \E i \in 1..6 : x[o+i] # 0)
CanonPayload(code, x) ==
  IF code = CF32 THEN (IF NaNBytes32(x) THEN <<0, 0, 192, 127>> ELSE x)
  ELSE IF code \in {CVec2, CVec3}
  THEN [i \in DOMAIN x |->
          LET o == ((i - 1) \div 8) * 8 IN
          IF NaNBytes64(x, o) THEN <<0, 0, 0, 0, 0, 0, 248, 127>>[i - o] ELSE x[i]]
  ELSE x
RECURSIVE ParsePropData(_, _, _)
ParseProp(b, p) == IF p > Len(b) THEN Fail(p, "short", <<>>) ELSE ParsePropData(b, p + 1, b[p])
ParsePropData(b, p, code) ==
  IF code \in {CStr, CBools, CBytes}
  THEN LET r == Text(b, p) IN IF r.ok THEN Good(r.p, Prop(code, r.v, <<>>)) ELSE r
  ELSE IF code = CBlock
  THEN LET ks == TextArray(b, p) IN
       IF ~ks.ok THEN ks
       ELSE LET vs == Many(ParseProp, b, ks.p, Len(ks.v)) IN
            IF ~vs.ok THEN vs
            ELSE Good(vs.p, Prop(CBlock, "", LastWins([i \in DOMAIN ks.v |-> <<ks.v[i], vs.v[i]>>])))
  ELSE IF code \in ArrayCodes
  THEN LET Item(bb, pp) == ParsePropData(bb, pp, code - 13)
           r == Counted(Item, b, p)
       IN  IF ~r.ok THEN r
           ELSE Good(r.p, Prop(code, "", [i \in DOMAIN r.v |-> <<"", r.v[i]>>]))
  ELSE IF code \in DOMAIN ScalarSize
  THEN LET r == TakeBytes(b, p, ScalarSize[code]) IN
       IF r.ok THEN Good(r.p, Prop(code, ToHex(CanonPayload(code, r.v)), <<>>)) ELSE r
  ELSE Fail(p, "bad", <<>>)

\* a block whose keys are indices into a dictionary (0 based)
ParseIndexed(b, p, dict) ==
  LET ix == UVarIntArray(b, p) IN
  IF ~ix.ok THEN ix
  ELSE LET vs == Many(ParseProp, b, ix.p, Len(ix.v)) IN
       IF \E i \in DOMAIN ix.v : ix.v[i] >= Len(dict) THEN Fail(ix.p, "bad", <<>>)
       ELSE IF ~vs.ok THEN vs
       ELSE Good(vs.p, LastWins([i \in DOMAIN ix.v |-> <<dict[ix.v[i] + 1], vs.v[i]>>]))
EncIndexed(block, dict) ==
  EncUVars([i \in DOMAIN block |-> IndexIn(dict, block[i][1])]) \o
  Cat([i \in DOMAIN block |-> EncProp(block[i][2])])

(* ------------------------------------------------------- well formed properties *)
RECURSIVE WellProp(_)
WellBlock(m) == /\ \A i, j \in DOMAIN m : m[i][1] = m[j][1] => i = j
                /\ \A i \in DOMAIN m : WellProp(m[i][2])
WellProp(p) ==
  /\ p.c \in Codes
  /\ p.c \in DOMAIN ScalarSize => Len(p.s) = 2 * ScalarSize[p.c] /\ p.k = <<>>
  /\ p.c = CBlock => p.s = "" /\ WellBlock(p.k)
  /\ p.c \in ArrayCodes =>
       /\ p.s = ""
       /\ \A i \in DOMAIN p.k : p.k[i][1] = "" /\ p.k[i][2].c = p.c - 13 /\ WellProp(p.k[i][2])
=============================================================================
