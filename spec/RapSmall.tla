------------------------------- MODULE RapSmall -------------------------------
(* Small scopes, all of them: every tree of few nodes, every short sequence  *)
(* of times with every pair of bounds, every distribution of encoders, every *)
(* kind of value in every place, every field of a document with every other  *)
(* type, every order of columns, every combination of the parts of a version *)
(* 1 file.  One state for each; TLC visits them all, checks on each what the *)
(* specification says of itself (Law), and hands it to the replay.           *)
EXTENDS RapRandom, RapV1, RapLossy, RapNego, RapTools, RapBson, Json, IOUtils
LOCAL INSTANCE SequencesExt

Fam == IOEnv.FAM
Deep == IOEnv.TIER = "thorough"
SeqsOf(S, n) == UNION {[1..i -> S] : i \in 0..n}
F(n) == F64OfInt(n)
Op(name) == [op |-> name, keep |-> -1, req |-> -1]
Plain(r, own) == Op("build") @@ [h |-> "r1", rec |-> r, own |-> own,
                                 del |-> [sizes |-> <<1>>, eofdata |-> TRUE, failat |-> -1, faildata |-> FALSE, err |-> 0]]
Rec(id, cols, kids) == [id |-> id, nm |-> id \o "2e", md |-> <<>>, cols |-> cols, refs |-> <<>>, bins |-> <<>>, kids |-> kids]
Turned(s, n) == [i \in DOMAIN s |-> s[((i + n - 1) % Len(s)) + 1]]
Order == <<"event", "position", "euler", "enum", "float">>
\* a configuration, by number
CfgOf(n, techs, tts) ==
  [encs |-> Turned([i \in DOMAIN Order |-> [k |-> Order[i], t |-> techs[Order[i]][(n % Len(techs[Order[i]])) + 1]]], n % 5),
   tt |-> tts[(n % Len(tts)) + 1], comp |-> (n \div 2) % 2 = 1, def |-> FALSE]
AnyTech == [k \in Kinds |-> CASE k = "position" -> <<0, 1, 2, 3>> [] k \in {"euler", "float"} -> <<0, 1, 2>> [] OTHER -> <<0>>]
Sum(s) == FoldLeft(LAMBDA a, x : a + x, 0, s)
Hash(s) == FoldLeft(LAMBDA a, x : (a * 31 + x + 7) % 65521, 1, s)
WriteOp(cfg, f) == Op("write") @@ [src |-> "r1", f |-> f, cfg |-> cfg, bytes |-> FALSE]
LoadOp(n, f) == Op("load") @@ [f |-> f, reg |-> Turned(Order, n % 5), h |-> "", junk |-> n % 3]

(* ---------------------------------------------------------------------- trees *)
\* an ordered tree is the depths of its nodes in preorder
Depths(n) == {d \in [1..n -> 0..(n - 1)] : d[1] = 0 /\ \A i \in 2..n : d[i] >= 1 /\ d[i] <= d[i - 1] + 1}
ShapeSpace == UNION {Depths(n) \X [1..n -> 0..3] : n \in 1..(IF Deep THEN 5 ELSE 4)}
Pos(i) == Col("position", HexOf[i], <<>>, <<Cap(F(i), <<F(i), F(2), F(0 - i)>>)>>)
Event(i) == Col("event", HexOf[i], <<>>, <<[t |-> F(i), v |-> <<>>, n |-> HexOf[i % 2], md |-> << <<HexOf[97 + i], Prop(CByte, HexOf[i], <<>>)>> >>]>>)
RECURSIVE TreeOf(_, _, _)
TreeOf(d, lab, i) ==
  LET later == [j \in 1..(Len(d) - i) |-> i + j]
      kids == SelectSeq(later, LAMBDA j : d[j] = d[i] + 1 /\ \A k \in (i + 1)..j : d[k] > d[i])
      cols == CASE lab[i] = 1 -> <<Pos(i)>> [] lab[i] = 2 -> <<Event(i)>>
                [] lab[i] = 3 -> <<Col("enum", HexOf[i], <<"61", HexOf[i]>>, <<Cap(F(0), <<WOfInt(i)>>)>>), Col("position", "", <<>>, <<>>)>> [] OTHER -> <<>>
      r == Rec(HexOf[64 + i], cols, [k \in DOMAIN kids |-> TreeOf(d, lab, kids[k])])
  IN  CASE lab[i] = 2 -> [r EXCEPT !.md = << <<HexOf[98 + i], Prop(CStr, HexOf[i], <<>>)>> >>]
        [] lab[i] = 3 -> [r EXCEPT !.bins = << [nm |-> "62", data |-> HexOf[i] \o "00", sz |-> WOfInt(2), md |-> <<>>] >>,
                                   !.refs = << [nm |-> "72", uri |-> HexOf[i], sz |-> WOfInt(i), md |-> <<>>] >>]
        [] OTHER -> r
\* the bytes of a recording, everything in full
LaidCol(c) == [k |-> c.k, nm |-> c.nm, mem |-> c.mem, caps |-> c.caps, tt |-> 0, ct |-> 0, raw |-> <<>>, traw |-> <<>>, e |-> 0, trim |-> 0]
RECURSIVE Laid(_)
Laid(r) == [r EXCEPT !.cols = [i \in DOMAIN @ |-> LaidCol(@[i])], !.kids = [i \in DOMAIN @ |-> Laid(@[i])]]
FileOf(r) ==
  LET sigs == SetToSeq({SigOf[k] : k \in UsedKinds(r)})
      dict(sig) == [names |-> IF sig = SigEvent THEN EventNames(r) ELSE EnumMembers(r), keys |-> EventKeys(r), extra |-> <<>>, trim |-> 0]
  IN  EncHead(sigs, [i \in DOMAIN sigs |-> WZero], 0) \o EncBody(sigs, [i \in DOMAIN sigs |-> dict(sigs[i])], MetaKeys(r), Laid(r))
\* what is laid out is what is read, all of the file and nothing less
ReadsBack(r, cuts) ==
  LET b == FileOf(r)
      p == ParseFile(b, AllBuiltin)
  IN  /\ p.ok /\ p.p = Len(b) + 1 /\ ~p.v.loose /\ SameRec(p.v.rec, r)
      /\ \A n \in {Len(b) - 1} \union {k \in 0..(Len(b) - 2) : k % cuts = 0} : ~ParseFile(SubSeq(b, 1, n), AllBuiltin).ok
ShapeOps(p) ==
  LET n == Hash(p[1] \o p[2])
      r == TreeOf(p[1], p[2], 1)
  IN  << Plain(r, IF n % 4 = 3 THEN 1 + (n % 3) ELSE 0), WriteOp(CfgOf(n, AnyTech, <<0, 1, 2>>), "f1"), LoadOp(n, "f1") >>
ShapeLaw(p) == ReadsBack(TreeOf(p[1], p[2], 1), IF Len(p[1]) < 3 THEN 1 ELSE 37)

(* --------------------------------------------------------------------- slices *)
SliceTimes == {F(0), F(1), F(2), NaN64}
SliceBounds == {<<>>, F(0), F(1), F(2), <<32768, 0, 0, 0>>, NaN64}
SliceSpace == SeqsOf(SliceTimes, IF Deep THEN 4 ELSE 3)
Ev(i, t) == [t |-> t, v |-> <<>>, n |-> HexOf[i], md |-> <<>>]
SliceRecOf(ts) ==
  LET n == Len(ts)
      fore == Col("event", "61", <<>>, [i \in 1..n |-> Ev(i, ts[i])])
      back == Col("float", "62", <<>>, [i \in 1..n |-> Cap(ts[n + 1 - i], <<F(i)>>)])
      bin == [nm |-> "62", data |-> "00ff", sz |-> WOfInt(2), md |-> <<>>]
  IN  [Rec("72", <<fore>>, <<[Rec("6b", <<back, fore>>, <<>>) EXCEPT !.bins = <<bin>>]>>) EXCEPT !.bins = <<bin, bin>>]
BoundPairs == SetToSeq(SliceBounds \X SliceBounds)
SliceOps(ts) ==
  << Plain(SliceRecOf(ts), Len(ts) % 3) >> \o
  [i \in DOMAIN BoundPairs |-> [op |-> "slice", h |-> "s", src |-> "r1", b |-> BoundPairs[i][1], e |-> BoundPairs[i][2], keep |-> (i % 3) - 1]]
From(b) == IF b = <<>> THEN NegInf64 ELSE b
To(e) == IF e = <<>> THEN PosInf64 ELSE e
CapsIn(r) == Sum([i \in DOMAIN AllCols(r) |-> Len(AllCols(r)[i].caps)])
\* slicing twice is slicing once to both; what is cut in two is whole
SliceLaw(ts) ==
  LET r == SliceRecOf(ts) IN
  \A p \in SliceBounds \X SliceBounds :
    LET once == SliceRec(r, From(p[1]), To(p[2]), TRUE) IN
    /\ SliceRec(once, From(p[1]), To(p[2]), TRUE) = once
    /\ SliceRec(SliceRec(r, From(p[1]), PosInf64, TRUE), NegInf64, To(p[2]), TRUE) = once
    /\ FLeq(From(p[1]), To(p[2])) => CapsIn(SliceRec(r, NegInf64, From(p[1]), TRUE)) + CapsIn(once) + CapsIn(SliceRec(r, To(p[2]), PosInf64, TRUE))
                                      = CapsIn(SliceRec(r, NegInf64, PosInf64, TRUE))

(* ----------------------------------------------------------------- validation *)
ValidTimes == SeqsOf(IF Deep THEN {F(-1), F(1), NaN64} ELSE {F(-1), F(1)}, 2)
ValidSpace == {1, 2, 3} \X ValidTimes \X ValidTimes \X ValidTimes
ValidRec(p) ==
  LET col(i) == Col(<<"event", "float", "enum">>[i - 1], "", <<>>, [j \in DOMAIN p[i] |-> IF i = 2 THEN Ev(j, p[i][j]) ELSE Cap(p[i][j], <<F(0)>>)])
  IN  CASE p[1] = 1 -> Rec("", <<col(2)>>, <<Rec("", <<col(3)>>, <<Rec("", <<col(4)>>, <<>>)>>)>>)
        [] p[1] = 2 -> Rec("", <<col(2)>>, <<Rec("", <<col(3)>>, <<>>), Rec("", <<col(4)>>, <<>>)>>)
        [] OTHER -> Rec("", <<>>, <<Rec("", <<col(2), col(3)>>, <<>>), Rec("", <<col(4)>>, <<>>)>>)
ValidOps(p) ==
  << Plain(ValidRec(p), (Len(p[2]) + Len(p[3])) % 3) >> \o
  [q \in 1..3 |-> Op("validate") @@ [src |-> "r1"] @@ [req |-> q - 2]] \o << Op("bounds") @@ [src |-> "r1"] >>
\* a slice of a valid recording is valid and within it
ValidLaw(p) ==
  LET r == ValidRec(p) IN
  IsChronological(r) =>
    \A b \in {NegInf64, F(-1), F(1)} :
      LET s == SliceRec(r, b, PosInf64, TRUE) IN
      IsChronological(s) /\ FLeq(StartOf(r), StartOf(s)) /\ FLeq(EndOf(s), EndOf(r))

(* ----------------------------------------------------------------- negotiation *)
NegoKinds == {"event", "position"}
NegoCols == {<<>>, <<"event">>, <<"position">>, <<"event", "position">>, <<"position", "event">>}
NegoSpace == (SUBSET NegoKinds) \X (SUBSET NegoKinds) \X NegoCols \X NegoCols
NegoRec(p) ==
  LET cols(ks, pre) == [i \in DOMAIN ks |-> Col(ks[i], pre \o HexOf[i], <<>>, IF i = 1 THEN <<Cap(F(1), IF ks[i] = "position" THEN <<F(1), F(2), F(3)>> ELSE <<>>)>> ELSE <<>>)]
  IN  Rec("72", cols(p[3], "61"), <<Rec("6b", cols(p[4], "62"), <<>>)>>)
NegoEnc(sig, ver, acc) == [sig |-> sig, ver |-> WOfInt(ver), acc |-> acc, fenc |-> FALSE, fdec |-> FALSE]
\* a reader: each of the two encoders missing, older, the same or newer, in either order, maybe one more
NegoRegs ==
  LET one(sig, v) == IF v < 0 THEN <<>> ELSE <<NegoEnc(sig, v, <<>>)>>
      pairs == SetToSeq({-1, 0, 1, 2} \X {-1, 127, 128, 300})
      more == NegoEnc("6163", 9, <<"event", "position">>)
  IN  [i \in DOMAIN pairs |-> one("61", pairs[i][1]) \o one("6162", pairs[i][2])] \o
      [i \in DOMAIN pairs |-> (IF i % 2 = 0 THEN <<more>> ELSE <<>>) \o one("6162", pairs[i][2]) \o one("61", pairs[i][1])]
NegoEncs(p) == <<NegoEnc("61", 1, SetToSeq(p[1])), NegoEnc("6162", 128, SetToSeq(p[2]))>>
NegoOps(p) ==
  << Plain(NegoRec(p), 0), [op |-> "nego", src |-> "r1", encs |-> NegoEncs(p), req |-> -1, keep |-> Cardinality(p[1]) % 2, regs |-> NegoRegs] >>
\* a collection has one owner, the first that will have it
NegoLaw(p) ==
  LET r == NegoRec(p)
      own == Owners(NegoEncs(p), r)
      cs == AllCols(r)
  IN  /\ \A i \in DOMAIN cs : own[i] = 0 <=> cs[i].k \notin p[1] \union p[2]
      /\ \A i \in DOMAIN cs : own[i] = 2 => cs[i].k \notin p[1]
      /\ Sum([t \in 1..2 |-> Len(OwnedBy(NegoEncs(p), r, t))]) = Len(cs) - Cardinality({i \in DOMAIN cs : own[i] = 0})

\* every version against every other
VersionRec == Rec("72", << Col("float", "61", <<>>, <<>>) >>, <<>>)
VersionOps(w) ==
  LET all == SetToSeq(Vers)
      enc(v) == [NegoEnc("61", 0, <<"float">>) EXCEPT !.ver = v]
  IN  << Plain(VersionRec, 0), [op |-> "nego", src |-> "r1", encs |-> <<enc(w)>>, req |-> -1, keep |-> w[4] % 2, regs |-> [i \in DOMAIN all |-> <<enc(all[i])>>]] >>
VersionLaw(w) == WLeq(w, w) /\ \A v \in Vers : (WLeq(v, w) /\ WLeq(w, v)) => v = w

(* -------------------------------------------------------------------- metadata *)
Words(w) == ToHex(LE64(w))
Scalars(c) ==
  CASE c = CStr -> <<"", "61", "c3a900">>
    [] c = CInt -> <<"00000000", "01000000", "ffffff7f", "00000080", "ffffffff">>
    [] c = CF32 -> <<"00000000", "00000080", "0000c03f", "0100007f">>
    [] c = CByte -> <<"00", "7f", "80", "ff">>
    [] c = CVec2 -> <<Words(F(0)) \o Words(F(-1)), Words(<<32768, 0, 0, 0>>) \o Words(<<16313, 39321, 39321, 39322>>)>>
    [] c = CVec3 -> <<Words(F(0)) \o Words(F(-1)) \o Words(F(2)), Words(F(1)) \o Words(<<0, 0, 0, 1>>) \o Words(<<32768, 0, 0, 0>>)>>
    [] c = CTime -> <<Words(WZero), Words(<<0, 0, 0, 1>>), Words(<<65535, 65535, 65535, 65535>>), Words(<<3, 31834, 36434, 17556>>)>>
    [] c = CBools -> <<"", "01", "000100">>
    [] c = CBytes -> <<"", "00", "ff0080">>
    [] OTHER -> <<"">>
Inner == << <<"61", Prop(CInt, "07000000", <<>>)>>, <<"", Prop(CTrue, "", <<>>)>> >>
Values(c) ==
  IF c = CBlock THEN <<Prop(CBlock, "", <<>>), Prop(CBlock, "", Inner), Prop(CBlock, "", << <<"62", Prop(CBlock, "", Inner)>> >>)>>
  ELSE IF c = 13 + CBlock THEN <<Prop(c, "", <<>>), Prop(c, "", << <<"", Prop(CBlock, "", Inner)>>, <<"", Prop(CBlock, "", <<>>)>> >>)>>
  ELSE IF c \in ArrayCodes
  THEN LET s == Scalars(c - 13) IN [i \in 1..(Len(s) + 1) |-> Prop(c, "", [j \in 1..(i - 1) |-> <<"", Prop(c - 13, s[j], <<>>)>>])]
  ELSE LET s == Scalars(c) IN [i \in DOMAIN s |-> Prop(c, s[i], <<>>)]
First(c) == LET v == Values(c) IN v[Len(v)]
Placed(v, place) ==
  LET b == << <<"6b", v>> >>
      e == Col("event", "65", <<>>, << [t |-> F(0), v |-> <<>>, n |-> "6e", md |-> b] >>)
  IN  CASE place = "root" -> [Rec("72", <<>>, <<>>) EXCEPT !.md = b]
        [] place = "kid" -> Rec("72", <<>>, <<[Rec("72", <<>>, <<>>) EXCEPT !.md = b]>>)
        [] place = "ref" -> [Rec("72", <<>>, <<>>) EXCEPT !.refs = << [nm |-> "", uri |-> "", sz |-> WOfInt(3), md |-> b] >>]
        [] place = "bin" -> [Rec("72", <<>>, <<>>) EXCEPT !.bins = << [nm |-> "", data |-> "", sz |-> WZero, md |-> b] >>]
        [] OTHER -> Rec("72", <<e>>, <<Rec("", <<e>>, <<>>)>>)
Wrapped(v, how) ==
  CASE how = "block" -> Prop(CBlock, "", << <<"", v>> >>)
    [] how = "blocks" -> Prop(13 + CBlock, "", << <<"", Prop(CBlock, "", <<>>)>>, <<"", Prop(CBlock, "", << <<"62", v>>, <<"63", v>> >>)>> >>)
    [] OTHER -> v
\* each value in each place and wrapping, and each two kinds next to each other
MetaSpace ==
  {<<"one", c, i, place, how>> : c \in Codes, i \in 1..5, place \in {"root", "kid", "ref", "bin", "event"}, how \in {"", "block", "blocks"}}
MetaOK(p) == p[1] = "two" \/ (p[3] <= Len(Values(p[2])) /\ (p[5] = "" \/ p[4] \in {"root", "event"}))
PairSpace == {<<"two", c, d, "root", "">> : c \in Codes, d \in Codes}
BlockOf(p) == IF p[1] = "two" THEN << <<"61", First(p[2])>>, <<"62", First(p[3])>> >> ELSE << <<"6b", Wrapped(Values(p[2])[p[3]], p[5])>> >>
MetaRec(p) == IF p[1] = "two" THEN [Rec("72", <<>>, <<>>) EXCEPT !.md = BlockOf(p)] ELSE Placed(Wrapped(Values(p[2])[p[3]], p[5]), p[4])
MetaOps(p) == LET n == p[2] * 7 + p[3] IN
  << Plain(MetaRec(p), IF n % 5 = 0 THEN 2 ELSE 0), WriteOp(CfgOf(n, AnyTech, <<0, 1, 2>>), "f1"), LoadOp(n, "f1") >>
\* a value is read back as what it is, and no part of it is enough
MetaLaw(p) ==
  \A i \in DOMAIN BlockOf(p) :
    LET v == BlockOf(p)[i][2]
        b == EncProp(v)
        r == ParseProp(b, 1)
    IN  /\ WellProp(v) /\ r.ok /\ r.p = Len(b) + 1 /\ SameProp(r.v, v)
        /\ \A n \in 0..(Len(b) - 1) : ~ParseProp(SubSeq(b, 1, n), 1).ok
\* values that come through JSON as themselves do so in a block too
TripLaw(p) ==
  LET j == JsonOfBlock(BlockOf(p)) IN
  j.ok => LET b == BlockOfJson(Clean(j.v)) IN b.ok => Keys(b.v) = Keys(BlockOf(p))

(* ---------------------------------------------------------------- dictionaries *)
EvVariants == IF Deep THEN {<<"61", <<>>>>, <<"61", <<"61">>>>, <<"61", <<"62">>>>, <<"62", <<>>>>, <<"62", <<"61">>>>, <<"62", <<"62", "61">>>>}
              ELSE {<<"61", <<>>>>, <<"61", <<"62">>>>, <<"62", <<"61">>>>, <<"62", <<"62", "61">>>>}
DictSpace == {<<1, x, y>> : x \in SeqsOf(EvVariants, 2), y \in SeqsOf(EvVariants, 2)} \union
             {<<2, x, y>> : x \in SeqsOf({"61", "62"}, 3), y \in SeqsOf({"61", "62"}, 3)}
DictRec(p) ==
  LET evs(s, k) == Col("event", HexOf[k], <<>>, [i \in DOMAIN s |->
                     [t |-> F(i), v |-> <<>>, n |-> s[i][1], md |-> [j \in DOMAIN s[i][2] |-> <<s[i][2][j], Prop(CByte, HexOf[16 * k + 4 * i + j], <<>>)>>]]])
      enm(s, k) == Col("enum", HexOf[k], s, [i \in DOMAIN s |-> Cap(F(i), <<WOfInt(Len(s) - i)>>)])
  IN  Rec("72", <<IF p[1] = 1 THEN evs(p[2], 1) ELSE enm(p[2], 1)>>, <<Rec("6b", <<IF p[1] = 1 THEN evs(p[3], 2) ELSE enm(p[3], 2)>>, <<>>)>>)
DictOps(p) ==
  LET n == Len(p[2]) * 3 + Len(p[3]) IN
  << Plain(DictRec(p), IF n % 4 = 1 THEN 1 ELSE 0), WriteOp(CfgOf(n, AnyTech, <<0, 1, 2>>), "f1"), LoadOp(n, "f1"), WriteOp(CfgOf(n + 1, AnyTech, <<0>>), "f2"), LoadOp(n + 1, "f2") >>
DictLaw(p) == ReadsBack(DictRec(p), 53)

(* ------------------------------------------------------------------- documents *)
JO(s) == JObj(s)
JN(n) == JNum(F(n))
JS(text) == JStr(X(text))
Point(n) == JO(<< <<X("time"), JN(n)>>, <<X("data"), JO(<< <<KX, JN(n)>>, <<KY, JN(2)>>, <<KZ, JN(-3)>> >>)>> >>)
Doc == JO(<< <<X("id"), JS("i")>>, <<X("name"), JS("n")>>,
             <<X("metadata"), JO(<< <<X("k"), JN(1)>>, <<X("v"), JO(<< <<KX, JN(1)>>, <<KY, JN(2)>> >>)>>, <<X("a"), JArr(<<JS("0x01"), JS("0x02")>>)>> >>)>>,
             <<X("collections"), JArr(<<
                JO(<< <<X("name"), JS("p")>>, <<X("type"), JS("recolude.position")>>, <<X("captures"), JArr(<<Point(1), Point(4)>>)>> >>),
                JO(<< <<X("name"), JS("r")>>, <<X("type"), JS("recolude.euler")>>, <<X("captures"), JArr(<<Point(2)>>)>> >>),
                JO(<< <<X("name"), JS("e")>>, <<X("type"), JS("recolude.event")>>,
                      <<X("captures"), JArr(<< JO(<< <<X("time"), JN(1)>>, <<X("data"), JO(<< <<X("name"), JS("x")>>, <<X("metadata"), JO(<< <<X("q"), JBool(TRUE)>> >>)>> >>)>> >>) >>)>> >>),
                JO(<< <<X("name"), JS("s")>>, <<X("type"), JS("recolude.enum")>>,
                      <<X("captures"), JArr(<< JO(<< <<X("time"), JN(1)>>, <<X("data"), JS("b")>> >>), JO(<< <<X("time"), JN(2)>>, <<X("data"), JS("a")>> >>) >>)>> >>) >>)>>,
             <<X("references"), JArr(<< JO(<< <<X("name"), JS("f")>>, <<X("uri"), JS("u")>>, <<X("size"), JN(3)>>, <<X("metadata"), JO(<<>>)>> >>) >>)>>,
             <<X("recordings"), JArr(<< JO(<< <<X("id"), JS("c")>>, <<X("name"), JS("d")>> >>) >>)>> >>)
RECURSIVE Places(_)
Places(t) == {<<>>} \union UNION {{<<i>> \o q : q \in Places(t.k[i][2])} : i \in DOMAIN t.k}
Others == <<JNull, JBool(TRUE), JN(0), JN(-2), JNum(<<16376, 0, 0, 0>>), JS("a"), JS("recolude.event"), JStr(""), JArr(<<>>), JO(<<>>),
            JArr(<<JN(1)>>), JArr(<<JNull>>), JO(<< <<X("a"), JN(1)>> >>)>>
RECURSIVE PutAt(_, _, _)
\* what = 0: taken away; -1: its key in capitals; -2: twice
PutAt(t, path, what) ==
  IF path = <<>> THEN Others[what]
  ELSE IF Len(path) > 1 \/ what > 0 THEN [t EXCEPT !.k[path[1]] = <<@[1], PutAt(@[2], Tail(path), what)>>]
  ELSE IF what = 0 THEN [t EXCEPT !.k = SubSeq(@, 1, path[1] - 1) \o SubSeq(@, path[1] + 1, Len(@))]
  ELSE IF what = -1 THEN [t EXCEPT !.k[path[1]] = IF t.j = "obj" THEN <<@[1] \o "20", @[2]>> ELSE @]
  ELSE [t EXCEPT !.k = IF t.j = "obj" THEN @ ELSE Append(@, @[path[1]])]
JsonSpace == {p \in Places(Doc) \X (-2..Len(Others)) : p[1] # <<>> \/ p[2] > 0}
JsonOps(p) ==
  LET n == Hash(p[1] \o <<p[2] + 3>>) IN
  << Op("json") @@ [doc |-> PutAt(Doc, p[1], p[2]), seed |-> n, mode |-> IF n % 3 = 0 THEN (n \div 3) % 6 ELSE 0, cfg |-> CfgOf(n, AnyTech, <<0, 1, 2>>)] >>
\* the document itself is complete; what was asked for can not be done without
JsonLaw(p) == RecOfJson(Doc).ok /\ (p[2] = 0 /\ Len(p[1]) = 1 /\ p[1][1] \in {1, 2} => ~RecOfJson(PutAt(Doc, p[1], p[2])).ok)

(* ----------------------------------------------------------- grids and their steps *)
GridSpace == {1} \X SeqsOf({0, 1, -3, 10}, IF Deep THEN 6 ELSE 4)
GridRec(p) ==
  LET s == p[2]
      n == Len(s)
      at(i) == F(i * i)
  IN  Rec("72", << Col("position", "61", <<>>, [i \in 1..n |-> Cap(at(i), <<F(s[i]), F(2 * s[n + 1 - i]), F(7)>>)]),
                   Col("euler", "62", <<>>, [i \in 1..n |-> Cap(at(i), <<F(90 * s[i]), F(s[n + 1 - i]), F(-360)>>)]),
                   Col("float", "63", <<>>, [i \in 1..n |-> Cap(at(i), <<F(s[i])>>)]) >>, <<>>)
GridTechs(n) == [k \in Kinds |-> CASE k = "position" -> <<2 + n>> [] k \in {"euler", "float"} -> <<2>> [] OTHER -> <<0>>]
GridOps(p) ==
  LET n == Hash([i \in DOMAIN p[2] |-> p[2][i] + 3]) IN
  << Plain(GridRec(p), 0), WriteOp(CfgOf(n, GridTechs(0), <<2>>), "f1"), LoadOp(n, "f1"), WriteOp(CfgOf(n + 2, GridTechs(1), <<2>>), "f2"), LoadOp(n, "f2") >>
\* the gaps between captures
TimeSpace == {-7, 0} \X SeqsOf({0, 1, 2, 5}, IF Deep THEN 6 ELSE 4)
TimeRec(p) ==
  LET at == FoldLeft(LAMBDA a, g : Append(a, a[Len(a)] + g), <<p[1]>>, p[2]) IN
  Rec("72", << Col("event", "61", <<>>, [i \in DOMAIN at |-> Ev(i, F(at[i]))]),
               Col("float", "62", <<>>, [i \in DOMAIN at |-> Cap(F64OfScaled(at[i] * P2[13]), <<F(i)>>)]) >>, <<>>)
TimeOps(p) ==
  LET n == Len(p[2]) IN
  << Plain(TimeRec(p), 0), WriteOp(CfgOf(n, AnyTech, <<2>>), "f1"), LoadOp(n, "f1"), WriteOp(CfgOf(n, AnyTech, <<1>>), "f2"), LoadOp(n, "f2") >>
TimeLaw(p) == IsChronological(TimeRec(p))

(* ---------------------------------------------------------------------- tables *)
Arrangements(S) == {s \in [1..Cardinality(S) -> S] : Cardinality(RangeOf(s)) = Cardinality(S)}
ColumnSet == RangeOf(CsvColumns)
IsNumber(c) == c \in {X("time"), X("x"), X("y"), X("z")}
Cell(c, i, pair) == IF c = X("id") THEN [k |-> "t", s |-> pair[1], w |-> Zero64]
                    ELSE IF c = X("name") THEN [k |-> "t", s |-> pair[2], w |-> Zero64]
                    ELSE IF IsNumber(c) THEN [k |-> "n", s |-> "", w |-> F(10 * i + IndexOf(CsvColumns, c))]
                    ELSE [k |-> "t", s |-> IF c = X("w") THEN "77" ELSE c, w |-> Zero64]
CsvPairs == {<<"61", "62">>, <<"61", "63">>, <<"6162", "">>, <<"", "6162">>}
\* ids and names that read alike once joined, whatever joins them
Separators == {HexOf[i] : i \in 0..255 \ {13}} \union {"2c20", "3a3a", "2d3e", "7c7c", "2f2f", "0000", "203d20", "c3a9", "e28692", "efbfbd"}
OneWhole(h) == << <<"61" \o h \o "62", "63">>, <<"61", "62" \o h \o "63">>, <<"61" \o h, "62">>, <<"61", h \o "62">>, <<h, "">>, <<"", h>>, <<"61", "63">>,
                <<h \o "61", "62">>, <<"61", "62" \o h>> >>
CsvOf(head, pairs) == [head |-> head, rows |-> [i \in DOMAIN pairs |-> [j \in DOMAIN head |-> Cell(head[j], i, pairs[i])]]]
CsvSpace == {<<"order", s, <<<<"61", "62">>, <<"62", "61">>>>>> : s \in Arrangements(ColumnSet)} \union
            {<<"some", SelectSeq(<<X("w")>> \o CsvColumns, LAMBDA c : c \in T), <<<<"61", "62">>>>>> : T \in SUBSET (ColumnSet \union {X("w")})} \union
            {<<"joint", Turned(CsvColumns, n), OneWhole(h)>> : h \in Separators, n \in {0, IndexOf(CsvColumns, X("id")) - 1, IndexOf(CsvColumns, X("name")) - 1}} \union
            \* a column of no use, with any byte for its name and in it, before and after the others
            {<<"beside", <<h>> \o CsvColumns, <<<<"61", "62">>, <<"62", "61">>>>>> : h \in Separators} \union
            {<<"behind", CsvColumns \o <<h>>, <<<<"61", "62">>, <<"62", "61">>>>>> : h \in Separators} \union
            {<<"rows", CsvColumns, q>> : q \in SeqsOf(CsvPairs, IF Deep THEN 5 ELSE 4)}
HeadSeed(p) == IF p[1] \in {"joint", "beside", "behind"} THEN Sum([i \in DOMAIN p[3] |-> Sum(FromHex(p[3][i][1] \o p[3][i][2]))]) + Sum([i \in DOMAIN p[2] |-> i * Sum(FromHex(p[2][i]))]) ELSE 0
CsvOps(p) == LET c == CsvOf(p[2], p[3]) IN
  IF p[2] = <<>> THEN << Op("csv") @@ [chead |-> <<>>, rows |-> <<>>, what |-> "empty", seed |-> 1] >>
  ELSE << Op("csv") @@ [chead |-> c.head, rows |-> c.rows, what |-> "", seed |-> Len(p[3]) + HeadSeed(p)] >>
\* no row is lost, and the order of the columns says nothing
CsvLaw(p) ==
  LET c == CsvOf(p[2], p[3]) IN
  IF ~CsvOK(c.head, c.rows) THEN p[1] = "some"
  ELSE LET r == CsvRecording(c.head, c.rows)
           d == CsvOf(CsvColumns, p[3])
       IN  CountKind(r, "position") = Len(p[3]) /\ (p[1] = "order" => SameCsv(r, CsvRecording(d.head, d.rows)))

(* ------------------------------------------------------------------- version 1 *)
V1Space == [1..11 -> BOOLEAN]
V1Part(on, x) == IF on THEN x ELSE <<>>
Map1(num, k, v) == EncLen(num, EncT(1, k) \o EncT(2, v))
Single(n) == F32OfInt(n)
V1Message(p) ==
  LET event(n) == EncLen(4, V1Part(p[8], EncF(1, Single(n))) \o EncT(2, "65") \o V1Part(p[9], EncT(3, "63") \o Map1(4, "6b", "31")))
      vec(num, n) == EncLen(num, V1Part(p[8], EncF(1, Single(n))) \o EncF(2, Single(1)) \o EncF(3, Single(2)) \o V1Part(p[9], EncF(4, Single(-3))))
      subject == EncLen(3, V1Part(p[5], EncV(1, WOfInt(5))) \o EncT(2, "73") \o V1Part(p[6], Map1(3, "6d", "312e35"))
                           \o V1Part(p[7], event(1) \o event(2)) \o V1Part(p[10], EncLen(5, EncF(1, Single(3)) \o EncV(2, WOfInt(2))) \o EncLen(5, EncV(2, WOfInt(1))))
                           \o V1Part(p[11], vec(6, 1) \o vec(6, 2) \o vec(7, 4)))
  IN  V1Part(p[1], EncT(1, "6e")) \o V1Part(p[2], Map1(2, "6b", "74727565") \o Map1(2, "6a", "2d34")) \o V1Part(p[3], subject \o subject) \o V1Part(p[4], event(9) \o event(0))
V1OK(p) == (~p[3] => ~p[5] /\ ~p[6] /\ ~p[7] /\ ~p[10] /\ ~p[11])
V1Ops(p) ==
  LET n == Sum([i \in 1..11 |-> IF p[i] THEN i ELSE 0]) IN
  << Op("raw1") @@ [f |-> "f1", body |-> V1Message(p), num |-> <<1, 0, 0, 0>>, delta |-> 0, junk |-> n % 2, reg |-> Turned(Order, n % 5)] >> \o
  (IF n % 4 # 0 THEN <<>>
   ELSE << Op("rewrite") @@ [f |-> "f1", reg |-> Order, step |-> 1, at |-> 0, del |-> [sizes |-> <<1>>, eofdata |-> TRUE, failat |-> -1, faildata |-> FALSE],
                             cfg |-> CfgOf(n, AnyTech, <<0, 1, 2>>), prop |-> "C16"] >>)
V1Law(p) ==
  LET r == ParseV1(V1Message(p)) IN
  r.ok /\ ~r.vague /\ Len(r.v.kids) = (IF p[3] THEN 2 ELSE 0)
  /\ CountKind(r.v, "position") = (IF p[11] THEN 4 ELSE 0) /\ CountKind(r.v, "euler") = (IF p[11] THEN 2 ELSE 0)
  /\ CountKind(r.v, "event") = (IF p[7] THEN 4 ELSE 0) + (IF p[4] THEN 2 ELSE 0) /\ CountKind(r.v, "enum") = (IF p[10] THEN 4 ELSE 0)

(* --------------------------------------------------------- every byte, other values *)
SubstRecs ==
  << Rec("", <<>>, <<>>), Rec("72", <<Pos(1)>>, <<>>), Rec("72", <<Event(1)>>, <<>>),
     Rec("72", <<Col("enum", "6e", <<"61", "62">>, <<Cap(F(1), <<WOfInt(1)>>)>>)>>, <<>>),
     Rec("72", <<Col("euler", "6e", <<>>, <<Cap(F(1), <<F(1), F(2), F(3)>>)>>), Col("float", "6e", <<>>, <<Cap(F(1), <<F(3)>>), Cap(F(2), <<F(9)>>)>>)>>, <<>>),
     [Rec("72", <<>>, <<Rec("6b", <<>>, <<>>)>>) EXCEPT !.md = << <<"6b", Prop(CBlock, "", Inner)>> >>],
     TreeOf(<<0, 1>>, <<3, 0>>, 1), TreeOf(<<0, 1, 1>>, <<2, 1, 2>>, 1),
     [Rec("72", <<>>, <<>>) EXCEPT !.md = << <<"61", First(13 + CStr)>>, <<"62", First(13 + CBlock)>>, <<"63", First(CBools)>>, <<"64", First(13 + CVec2)>> >>] >>
SubstSpace == (DOMAIN SubstRecs) \X (0..3)
SubstOps(p) ==
  LET cfg == [CfgOf(p[2], AnyTech, <<0, 1, 2>>) EXCEPT !.comp = p[2] = 3] IN
  << Plain(SubstRecs[p[1]], 0), WriteOp(cfg, "f1"), LoadOp(0, "f1"),
     Op("muts") @@ [f |-> "f1", reg |-> Turned(Order, p[2]), step |-> 1, at |-> 0, n |-> 0, seed |-> 1, del |-> [sizes |-> <<>>, eofdata |-> FALSE, failat |-> -1, faildata |-> FALSE]] >>
SubstLaw(p) == ReadsBack(SubstRecs[p[1]], 1)

(* ------------------------------------------------------------ edges of precision *)
\* every two values that are hard to store next to each other
EdgeSpace == (EdgePool \X EdgePool) \X (0..1)
EdgeRec(p) ==
  LET v == p[1][1]
      w == p[1][2]
  IN  Rec("72", << Col("position", "61", <<>>, <<Cap(v, <<v, w, v>>), Cap(w, <<w, v, w>>)>>),
                   Col("euler", "62", <<>>, <<Cap(w, <<w, w, v>>)>>),
                   Col("float", "63", <<>>, <<Cap(v, <<w>>), Cap(w, <<v>>), Cap(v, <<v>>)>>) >>, <<>>)
EdgeOps(p) ==
  LET n == p[2]
      cfg == CfgOf(n, [k \in Kinds |-> IF k \in {"event", "enum"} THEN <<0>> ELSE <<n>>], <<n>>)
  IN  << Plain(EdgeRec(p), 0), WriteOp(cfg, "f1"), LoadOp(n, "f1") >>
\* rounding to single precision keeps order, and is done once
EdgeLaw(p) ==
  LET v == p[1][1]
      w == p[1][2]
  IN  /\ Round32(Round32(v)) = Round32(v)
      /\ FLess(v, w) => ~FLess(Round32(w), Round32(v))
      /\ ~(FLess(v, w) /\ FLess(w, v)) /\ (IsNaN64(v) \/ IsNaN64(w) \/ FLeq(v, w) \/ FLeq(w, v))

(* ------------------------------------------------------- failing and odd surroundings *)
\* small recordings with every configuration of compression and times
FileSpace == (DOMAIN SubstRecs) \X (0..3)
FileCfg(p) == [CfgOf(p[2], AnyTech, <<0, 1, 2>>) EXCEPT !.comp = p[2] % 2 = 1]
FileOn(name, p) == Op(name) @@ [f |-> "f1", reg |-> Turned(Order, p[2]), step |-> 1, at |-> 0,
                                del |-> [sizes |-> <<>>, eofdata |-> FALSE, failat |-> -1, faildata |-> p[2] > 1, err |-> p[2]]]
Written(p) == << Plain(SubstRecs[p[1]], 0), WriteOp(FileCfg(p), "f1"), LoadOp(0, "f1") >>
\* one read of them all is empty, or gives one byte; or all of them give so many
OneShort == [j \in 1..60 |-> [sizes |-> [i \in 1..60 |-> IF i = j THEN j % 2 ELSE 4096], eofdata |-> j % 3 = 0, failat |-> -1, faildata |-> FALSE, err |-> 0]] \o
            [j \in 1..60 |-> [sizes |-> [i \in 1..60 |-> IF i = j THEN 1 - (j % 2) ELSE 4096], eofdata |-> j % 3 = 1, failat |-> -1, faildata |-> FALSE, err |-> 0]] \o
            [j \in 1..20 |-> [sizes |-> <<j>>, eofdata |-> j % 2 = 0, failat |-> -1, faildata |-> FALSE, err |-> 0]]
\* every place a part can be missing from
HoleWhats == {"kid", "col", "foreign", "bin", "ref", "mixed", "nilcap"}
RECURSIVE Nodes(_)
Nodes(r) == {<<>>} \union UNION {{<<i>> \o q : q \in Nodes(r.kids[i])} : i \in DOMAIN r.kids}
HoleTree(d) == TreeOf(d, [i \in DOMAIN d |-> IF i = 1 THEN 1 ELSE 2 + (i % 2)], 1)
HoleSpace == UNION {{<<d, q, what>> : q \in Nodes(HoleTree(d)), what \in HoleWhats} : d \in UNION {Depths(n) : n \in 1..(IF Deep THEN 6 ELSE 5)}}
RECURSIVE NodeAt(_, _)
NodeAt(r, path) == IF path = <<>> THEN r ELSE NodeAt(r.kids[path[1]], Tail(path))
HoleOps(p) ==
  LET node == NodeAt(HoleTree(p[1]), p[2])
      len == CASE p[3] = "kid" -> Len(node.kids) [] p[3] = "bin" -> Len(node.bins) [] p[3] = "ref" -> Len(node.refs) [] OTHER -> Len(node.cols)
  IN
  [at \in 1..(len + 1) |-> Op("reject") @@ [rec |-> HoleTree(p[1]), path |-> p[2], what |-> p[3], at |-> at, n |-> Len(p[2]) * 7 + at,
                                     cfg |-> CfgOf(Len(p[1]) + at, AnyTech, <<0, 1, 2>>)]]

(* --------------------------------------------------------------------- commands *)
SumSpace == UNION {Depths(n) \X [1..n -> 0..3] : n \in 1..(IF Deep THEN 3 ELSE 2)}
SumOps(p) ==
  LET n == Hash(p[1] \o p[2])
      cli(what) == Op("cli") @@ [what |-> what, f |-> "f1", at |-> -1, modename |-> IF what = "to-json" /\ n % 2 = 0 THEN "stdin" ELSE "file"]
  IN  << Plain(TreeOf(p[1], p[2], 1), 0), WriteOp(CfgOf(n, [AnyTech EXCEPT !["position"] = <<0, 1>>], <<0, 1>>), "f1"), cli("summarize"), cli("upgrade"), cli("to-json") >>

(* ---------------------------------------------------------------------------- *)
Space ==
  CASE Fam = "shapes" -> ShapeSpace [] Fam = "slices" -> SliceSpace [] Fam = "valids" -> ValidSpace [] Fam = "negos" -> NegoSpace
    [] Fam = "metas" -> {p \in MetaSpace : MetaOK(p)} \union PairSpace
    [] Fam \in {"trips", "bsons"} -> {p \in MetaSpace : MetaOK(p) /\ p[4] = "root"} \union PairSpace
    [] Fam = "dicts" -> DictSpace [] Fam = "docs" -> JsonSpace [] Fam = "grids" -> GridSpace [] Fam = "gaps" -> TimeSpace
    [] Fam = "tables" -> CsvSpace [] Fam = "v1parts" -> {p \in V1Space : V1OK(p)} [] Fam = "subst" -> SubstSpace
    [] Fam = "edges" -> EdgeSpace [] Fam \in {"allcuts", "pieces", "refusals"} -> FileSpace [] Fam = "holes" -> {p \in HoleSpace : p[3] \notin {"mixed", "nilcap"}}
    [] Fam = "misfits" -> {p \in HoleSpace : p[3] \in {"mixed", "nilcap"}} [] Fam = "sums" -> SumSpace [] Fam = "versions" -> Vers
Ops(p) ==
  CASE Fam = "shapes" -> ShapeOps(p) [] Fam = "slices" -> SliceOps(p) [] Fam = "valids" -> ValidOps(p) [] Fam = "negos" -> NegoOps(p)
    [] Fam = "metas" -> MetaOps(p)
    [] Fam = "trips" -> << Op("trip") @@ [md |-> BlockOf(p), seed |-> p[2] + p[3]] >>
    [] Fam = "bsons" -> << Op("bson") @@ [md |-> BlockOf(p)] >>
    [] Fam = "dicts" -> DictOps(p) [] Fam = "docs" -> JsonOps(p) [] Fam = "grids" -> GridOps(p) [] Fam = "gaps" -> TimeOps(p)
    [] Fam = "tables" -> CsvOps(p) [] Fam = "v1parts" -> V1Ops(p) [] Fam = "subst" -> SubstOps(p)
    [] Fam = "edges" -> EdgeOps(p) [] Fam \in {"holes", "misfits"} -> HoleOps(p) [] Fam = "sums" -> SumOps(p) [] Fam = "versions" -> VersionOps(p)
    [] Fam = "allcuts" -> Written(p) \o << FileOn("cuts", p), FileOn("srcfails", p) >>
    [] Fam = "pieces" -> Written(p) \o << FileOn("dels", p) @@ [dels |-> OneShort] >>
    [] Fam = "refusals" -> << Plain(SubstRecs[p[1]], 0), Op("sinkfails") @@ [src |-> "r1", cfg |-> FileCfg(p), step |-> 1, at |-> 0, n |-> p[2]] >>
Law(p) ==
  CASE Fam = "shapes" -> ShapeLaw(p) [] Fam = "slices" -> SliceLaw(p) [] Fam = "valids" -> ValidLaw(p) [] Fam = "negos" -> NegoLaw(p)
    [] Fam \in {"metas", "bsons"} -> MetaLaw(p) [] Fam = "trips" -> MetaLaw(p) /\ TripLaw(p)
    [] Fam = "dicts" -> DictLaw(p) [] Fam = "docs" -> JsonLaw(p) [] Fam = "gaps" -> TimeLaw(p)
    [] Fam = "tables" -> CsvLaw(p) [] Fam = "v1parts" -> V1Law(p) [] Fam \in {"subst", "allcuts", "pieces", "refusals"} -> SubstLaw(p)
    [] Fam = "edges" -> EdgeLaw(p) [] Fam = "sums" -> ShapeLaw(p) [] Fam = "versions" -> VersionLaw(p) [] OTHER -> TRUE

VARIABLES p, out
vars == <<p, out>>
Init == p \in Space /\ out = FALSE
Next == /\ ~out
        /\ PrintT("@@S " \o ToJson([id |-> Fam, ops |-> Ops(p)]))
        /\ out' = TRUE /\ UNCHANGED p
Spec == Init /\ [][Next]_vars
Holds == out \/ Law(p)
=============================================================================
