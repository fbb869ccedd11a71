------------------------------- MODULE RapRandom ------------------------------
(* Arbitrary recordings, drawn with TLC's RandomElement (deterministic for a *)
(* given -seed).  A profile says what to draw from:                          *)
(*   times "sorted" "grid" "walk" "any" "edge"                               *)
(*   vals "int" "few" "any" "frac" "walk" "edge"                             *)
(*   kinds, maxcols, maxkids, maxcaps, depth, meta (nesting)                 *)
(*   names "few" "near" "any"                                              *)
EXTENDS RapWire
LOCAL INSTANCE SequencesExt

Pick(S) == RandomElement(S)
Chance(n, d) == RandomElement(1..d) <= n
Times_(n) == [i \in 1..n |-> i]
\* a sequence of n draws (forced one by one)
Draws(n, F(_)) == FoldLeft(LAMBDA a, i : Append(a, F(i)), <<>>, Times_(n))

(* ------------------------------------------------------------------- numbers *)
\* small integers and halves as float64
Grid(S) == {F64OfScaled(n * P2[16]) : n \in S}
TimePool == Grid({-6, -1, 0, 1, 2, 3, 4, 10, 41}) \union
            { <<16313, 39321, 39321, 39322>>,      \* 0.1
              <<16341, 21845, 21845, 21845>>,      \* 1/3
              <<16576, 65535, 65535, 65535>>,      \* just below 8192
              <<49079, 12345, 54321, 1>>,
              <<32768, 0, 0, 0>> }                 \* -0
EdgePool == { Zero64, <<32768, 0, 0, 0>>, PosInf64, NegInf64, NaN64,
              <<0, 0, 0, 1>>, <<32768, 0, 0, 1>>, <<15, 65535, 65535, 65535>>, <<16, 0, 0, 0>>,
              <<32751, 65535, 65535, 65535>>, <<65519, 65535, 65535, 65535>>,
              <<18415, 65535, 57344, 0>>,          \* largest float32
              <<18415, 65535, 61439, 65535>>,      \* rounds down to it
              <<18415, 65535, 61440, 0>>,          \* rounds up to infinity
              <<14336, 0, 0, 0>>, <<14336, 8, 0, 0>>,
              <<13984, 0, 0, 0>>,                  \* the smallest float32 subnormal
              <<13968, 0, 0, 0>>,                  \* half of it: to even, zero
              <<13968, 0, 0, 1>>,                  \* just above: up
              <<14335, 65535, 57344, 0>>, <<14335, 65535, 61440, 0>>,
              <<16369, 39321, 39321, 39322>>, <<16384, 0, 4096, 0>>, <<16384, 0, 12288, 0>>,
              <<16384, 0, 4096, 1>>, <<49152, 0, 12288, 0>>, <<16713, 65535, 65535, 65535>>,
              <<17215, 65535, 65535, 65535>>, <<17216, 0, 0, 1>> }
AnyWord(z_) == <<Pick(0..65535), Pick(0..65535), Pick(0..65535), Pick(0..65535)>>
RandWords(z_) == Canon64(AnyWord(0))
RandEdge(z_) == IF Chance(2, 3) THEN Pick(EdgePool) ELSE RandWords(0)
\* moderate: magnitude between 2^-6 and 2^10
RandModerate(z_) == <<Pick({16288, 49056}) + Pick(0..255), Pick(0..65535), Pick(0..65535), Pick(0..65535)>>

GridTimes(n) ==
  LET start == Pick({0, 4, -7, 200})
      gaps == Draws(n, LAMBDA i : Pick({0, 1, 1, 2, 3, 16}))
  IN  FoldLeft(LAMBDA a, i : Append(a, a[Len(a)] + gaps[i]), <<start>>, Times_(n - 1))
\* n * 2^k
Scaled2(n, k) == LET w == F64OfInt(n) IN IF IsZero64(w) THEN w ELSE << w[1] + 16 * k, w[2], w[3], w[4] >>
\* n values that move in small steps, near the origin or far from it
RandWalk(n) ==
  LET k == Pick({-20, -12, -7, -3, -3, -1, 0, 0, 4, 9, 30})
      base == Pick({0, 0, 1, 1000, -4096, 1048577, -67108863, 134217728, 536870911, -536870913})
      step == Pick({1, 1, 2, 4, 100, 3000, 262144})
      lean == Pick({-1, 0, 0, 1})
      rare == Chance(1, 4)
      ns == FoldLeft(LAMBDA a, i : Append(a, a[Len(a)] + lean * step + (IF rare THEN (IF Chance(1, 6) THEN Pick({-step, step}) ELSE 0) ELSE Pick((0 - step)..step))),
                     <<base>>, Times_(n - 1))
  IN  [i \in 1..n |-> Scaled2(ns[i], k)]
RandTimes(mode, n) ==
  IF n = 0 THEN <<>>
  ELSE IF mode = "grid" \/ (mode = "sorted" /\ Chance(1, 2))
  THEN LET g == GridTimes(n) IN Draws(n, LAMBDA i : F64OfScaled(g[i] * P2[16]))
  ELSE IF mode = "sorted"
  THEN SortSeq(Draws(n, LAMBDA i : RandModerate(0)), FLess)
  ELSE IF mode = "walk" THEN SortSeq(RandWalk(n), FLess)
  ELSE IF mode = "any" THEN Draws(n, LAMBDA i : Pick(TimePool))
  ELSE Draws(n, LAMBDA i : RandEdge(0))
RandVal(mode) ==
  CASE mode = "int" -> F64OfInt(Pick(-700..700))
    [] mode = "few" -> F64OfInt(Pick({-1, 0, 1, 7}))
    [] mode = "any" -> IF Chance(1, 2) THEN RandModerate(0) ELSE F64OfInt(Pick(-20..20))
    [] mode = "frac" -> F64OfScaled(Pick(-4000000..4000000))
    [] OTHER -> RandEdge(0)

(* ---------------------------------------------------------------------- text *)
RandHex(n) == FoldLeft(LAMBDA a, i : a \o HexOf[Pick(0..255)], "", Times_(n))
Rep(h, n) == FoldLeft(LAMBDA a, i : a \o h, "", Times_(n))
SmallNames == {"", "61", "62", "6b", "c3a9", "2275", "00", "ff"}
\* texts that a careless comparison takes for each other: blanks, case, joints, endings
NearNames == {"61", "6120", "2061", "41", "6100", "0061", "61c2a0", "610a", "6161", "20", "2020", "09",
              "61cc81", "c3a1", "c381", "efbbbf61", "612f", "2f61", "612f62", "622f61", "617c62", "613a62", "612d62", "612c62", "612062", "6162",
              "31", "3031", "312e30", "2b31", "2d30", "30", "6e756c6c", "61ff", "61fe", "61efbfbd"}
RandName(p) == IF p.names = "near" THEN Pick(NearNames)
               ELSE IF p.names = "few" \/ Chance(3, 4) THEN Pick(SmallNames)
               ELSE IF Chance(1, 8) THEN Rep("7a", Pick({127, 128, 129, 300}))
               ELSE RandHex(Pick(1..6))

(* ------------------------------------------------------------------ metadata *)
MicroPool == { <<0, 0, 0, 0>>, <<0, 0, 0, 1>>, <<65535, 65535, 65535, 65535>>, <<5, 31234, 999, 4242>>,
               <<65500, 1, 2, 3>>, <<32, 20480, 7, 65535>> }
RECURSIVE RandBlock(_, _)
RECURSIVE RandProp(_, _)
ScalarOf(p, c) ==
  CASE c = CStr -> RandName(p)
    [] c = CInt -> ToHex(LE32(<<Pick({0, 32767, 32768, 65535, 17}), Pick({0, 1, 65535, 300})>>))
    [] c = CF32 -> ToHex(LE32(Canon32(IF Chance(1, 2) THEN <<Pick(0..65535), Pick(0..65535)>>
                                      ELSE Pick({<<0, 0>>, <<32768, 0>>, <<32640, 0>>, NaN32, <<0, 1>>, <<16256, 0>>}))))
    [] c = CByte -> HexOf[Pick({0, 1, 127, 128, 255})]
    [] c = CVec2 -> ToHex(LE64(RandEdge(0)) \o LE64(RandEdge(0)))
    [] c = CVec3 -> ToHex(LE64(RandEdge(0)) \o LE64(RandEdge(0)) \o LE64(RandEdge(0)))
    [] c = CTime -> ToHex(LE64(Pick(MicroPool)))
    [] c = CBools -> Pick({"", "01", "00", "010001", "0000010100000001"})
    [] c = CBytes -> RandHex(Pick({0, 1, 2, 5}))
    [] OTHER -> ""
Payload(p, c, d) ==
  IF c = CBlock THEN Prop(c, "", RandBlock(p, d - 1)) ELSE Prop(c, ScalarOf(p, c), <<>>)
RandProp(p, d) ==
  LET codes == IF d > 0 THEN Codes ELSE Codes \ {CBlock, 13 + CBlock}
      c == Pick(codes)
  IN  IF c \in ArrayCodes
      THEN LET n == Pick({0, 1, 2, 3}) IN
           Prop(c, "", Draws(n, LAMBDA i : <<"", Payload(p, c - 13, d)>>))
      ELSE Payload(p, c, d)
RandBlock(p, d) ==
  LET n == Pick({0, 0, 1, 2, 3})
      keys == Distinct(Draws(n, LAMBDA i : RandName(p)))
  IN  FoldLeft(LAMBDA a, k : Append(a, <<k, RandProp(p, d)>>), <<>>, keys)
RandMeta(p) == IF p.meta < 0 THEN <<>> ELSE RandBlock(p, p.meta)

(* --------------------------------------------------------------- collections *)
RandCaps(p, k, n) ==
  LET ts == RandTimes(p.times, n) IN
  CASE p.vals = "walk" /\ n > 0 /\ k \in {"position", "euler"} ->
         LET x == RandWalk(n)  y == RandWalk(n)  z == RandWalk(n) IN [i \in 1..n |-> Cap(ts[i], <<x[i], y[i], z[i]>>)]
    [] p.vals = "walk" /\ n > 0 /\ k = "float" -> LET x == RandWalk(n) IN [i \in 1..n |-> Cap(ts[i], <<x[i]>>)]
    [] k \in {"position", "euler"} -> Draws(n, LAMBDA i : Cap(ts[i], <<RandVal(p.vals), RandVal(p.vals), RandVal(p.vals)>>))
    [] k = "float" -> Draws(n, LAMBDA i : Cap(ts[i], <<RandVal(p.vals)>>))
    [] k = "enum" -> Draws(n, LAMBDA i : Cap(ts[i], <<Pick({WZero, WOfInt(1), WOfInt(2), WOfInt(127), WOfInt(128),
                                                             WOfInt(16383), WOfInt(16384), WOfSigned(-1), <<32767, 65535, 65535, 65535>>,
                                                             <<32768, 0, 0, 0>>, <<0, 1, 2, 3>>})>>))
    [] OTHER -> Draws(n, LAMBDA i : [t |-> ts[i], v |-> <<>>, n |-> RandName(p), md |-> RandMeta(p)])
RandCol(p) ==
  LET k == Pick(p.kinds)
      n == IF Chance(1, 5) THEN 0 ELSE Pick(1..p.maxcaps)
  IN  Col(k, RandName(p),
          IF k = "enum" THEN Draws(Pick(0..4), LAMBDA i : RandName(p)) ELSE <<>>,
          RandCaps(p, k, n))
RandRef(p) == [nm |-> RandName(p), uri |-> RandName(p),
               sz |-> Pick({WZero, WOfInt(1), WOfInt(127), WOfInt(128), <<0, 7, 1, 2>>, <<65535, 65535, 65535, 65535>>}),
               md |-> RandMeta(p)]
RandBin(p) == LET n == Pick({0, 1, 3, 130}) IN
              [nm |-> RandName(p), data |-> (IF n = 130 THEN Rep(HexOf[Pick(0..255)], n) ELSE RandHex(n)),
               sz |-> WOfInt(n), md |-> RandMeta(p)]

(* ---------------------------------------------------------------- recordings *)
RECURSIVE RandRec(_, _)
RandRec(p, d) ==
  [id |-> RandName(p), nm |-> RandName(p), md |-> RandMeta(p),
   cols |-> Draws(Pick(0..p.maxcols), LAMBDA i : RandCol(p)),
   refs |-> Draws(IF p.meta < 0 THEN 0 ELSE Pick({0, 0, 1, 2}), LAMBDA i : RandRef(p)),
   bins |-> Draws(IF p.meta < 0 THEN 0 ELSE Pick({0, 0, 1, 2}), LAMBDA i : RandBin(p)),
   kids |-> IF d = 0 THEN <<>> ELSE Draws(Pick(0..p.maxkids), LAMBDA i : RandRec(p, d - 1))]

Profile == [times |-> "any", vals |-> "any", kinds |-> Kinds, maxcols |-> 3, maxkids |-> 2,
            maxcaps |-> 4, depth |-> 2, meta |-> 1, names |-> "any"]
HexDigitAt(i) == SubSeq(HexDigit, i + 1, i + 1)
\* collections (and captures) with distinct names all over the tree, by position
RECURSIVE Renamed(_, _)
Renamed(r, pre) ==
  [r EXCEPT !.cols = [i \in DOMAIN @ |-> [@[i] EXCEPT !.nm = pre \o HexOf[i]]],
            !.kids = [i \in DOMAIN @ |-> Renamed(@[i], pre \o "f" \o HexDigitAt(i))]]

(* ------------------------------------------------------------ configurations *)
Shuffle(s) == FoldLeft(LAMBDA a, i :
                LET j == RandomElement(i..Len(s)) IN
                [x \in DOMAIN a |-> IF x = i THEN a[j] ELSE IF x = j THEN a[i] ELSE a[x]],
                s, Times_(Len(s)))
Techs == [k \in Kinds |-> CASE k = "position" -> 0..3 [] k \in {"euler", "float"} -> 0..2 [] OTHER -> {0}]
RandEncs(techs) ==
  Shuffle(<<[k |-> "event", t |-> 0], [k |-> "enum", t |-> 0],
            [k |-> "position", t |-> Pick(techs["position"])],
            [k |-> "euler", t |-> Pick(techs["euler"])], [k |-> "float", t |-> Pick(techs["float"])]>>)
RandCfg(techs, tts) ==
  [encs |-> RandEncs(techs), tt |-> Pick(tts), comp |-> Chance(1, 2), def |-> FALSE]
DefCfg == [encs |-> <<[k |-> "event", t |-> 0], [k |-> "position", t |-> 2], [k |-> "euler", t |-> 1], [k |-> "enum", t |-> 0]>>,
           tt |-> 2, comp |-> TRUE, def |-> TRUE]
\* how a source hands out its bytes
RandDelivery(z_) ==
  [sizes |-> CASE Chance(1, 4) -> <<1>>
               [] Chance(1, 3) -> <<>>
               [] Chance(1, 2) -> Draws(Pick(1..5), LAMBDA i : Pick({0, 1, 1, 2, 3, 5, 8, 64, 511})) \o <<Pick({1, 2, 7})>>
               [] OTHER -> <<0, Pick(1..9)>>,
   eofdata |-> Chance(1, 2), failat |-> -1, faildata |-> Chance(1, 2), err |-> Pick({0, 0, 1, 2, 3, 4, 5, 6, 7})]
\* a recording built of the library's types, of types of the user's own, or with
\* equal parts being one and the same object
RECURSIVE Twinned(_)
Twinned(r) ==
  LET again(s) == IF s # <<>> /\ Chance(1, 2) THEN Append(s, s[1]) ELSE s IN
  [r EXCEPT !.kids = again([i \in DOMAIN @ |-> IF Chance(1, 2) THEN Twinned(@[i]) ELSE @[i]]), !.cols = again(@), !.bins = again(@), !.refs = again(@)]
BuildOp(h, r) == [op |-> "build", keep |-> -1, req |-> -1, h |-> h, rec |-> r,
                  own |-> Pick({0, 0, 0, 0, 1, 2, 3, 3}), del |-> RandDelivery(0)]
AllKinds == <<"event", "position", "euler", "enum", "float">>
=============================================================================
