------------------------------- MODULE RapSizes -------------------------------
(* Every size, in one respect at a time: recordings, values, documents,      *)
(* tables and files that have none, one, two, .. of something and little     *)
(* else, so that no size is special without being seen.                      *)
EXTENDS RapToolsGen, RapLossy
LOCAL INSTANCE SequencesExt
V1G == INSTANCE RapV1Gen

Thorough == IOEnv.TIER = "thorough"
Ns == IF Thorough THEN (0..300) \union (510..514) \union (1022..1026)
      ELSE (0..34) \union {39, 40, 47, 48, 49, 50, 63, 64, 65, 79, 80, 99, 100, 101} \union (126..129) \union (254..257)
Turned(s, n) == [i \in DOMAIN s |-> s[((i + n - 1) % Len(s)) + 1]]
Order == <<"event", "position", "euler", "enum", "float">>
TechsOf(k) == CASE k = "position" -> 0..3 [] k \in {"euler", "float"} -> 0..2 [] OTHER -> {0}
Plain(r) == Op("build") @@ [h |-> "r1", rec |-> r]
WriteOp(cfg, bytes) == Op("write") @@ [src |-> "r1", f |-> "f1", cfg |-> cfg, bytes |-> bytes]
LoadOp(n) == Op("load") @@ [f |-> "f1", reg |-> Turned(Order, n % 5), h |-> "", junk |-> n % 3]
Exact == [event |-> 0, position |-> 0, euler |-> 0, enum |-> 0, float |-> 0]
CfgOf(n, techs, tt) == [encs |-> Turned([i \in DOMAIN Order |-> [k |-> Order[i], t |-> techs[Order[i]]]], n % 5), tt |-> tt, comp |-> n % 2 = 1, def |-> FALSE]
SliceOp(b, e) == [op |-> "slice", h |-> "r2", src |-> "r1", b |-> b, e |-> e, keep |-> -1]

(* ------------------------------------------------------------------ recordings *)
Respects == {"kidcols", "evnames", "evkeys", "evkey", "evcols", "members", "values", "cols", "kids", "mdkeys", "kidkeys", "refs", "bins", "depth",
             "id", "nm", "key", "string", "evname", "colname", "member", "refname", "uri", "binname", "data", "bytes"}
Texted(r, how, t, n) ==
  CASE how = "id" -> [r EXCEPT !.id = t] [] how = "nm" -> [r EXCEPT !.nm = t]
    [] how = "key" -> [r EXCEPT !.md = << <<t, Leaf(0)>> >>]
    [] how = "string" -> [r EXCEPT !.md = << <<"6b", Prop(CStr, t, <<>>)>> >>]
    [] how = "bytes" -> [r EXCEPT !.md = << <<"6b", Prop(CBytes, t, <<>>)>> >>]
    [] how = "evname" -> [r EXCEPT !.cols = << Col("event", "61", <<>>, << Event(1, t, << <<t, Leaf(3)>> >>), Event(2, "62", <<>>) >>) >>]
    [] how = "colname" -> [r EXCEPT !.cols = << Col("float", t, <<>>, <<>>), Col("enum", t \o "61", <<"61">>, <<>>) >>]
    [] how = "member" -> [r EXCEPT !.cols = << Col("enum", "61", <<"62", t>>, << Cap(At64(1), <<WOfInt(1)>>) >>) >>]
    [] how = "refname" -> [r EXCEPT !.refs = << [nm |-> t, uri |-> "61", sz |-> WOfInt(n), md |-> <<>>] >>]
    [] how = "uri" -> [r EXCEPT !.refs = << [nm |-> "61", uri |-> t, sz |-> WOfInt(n), md |-> <<>>] >>]
    [] how = "binname" -> [r EXCEPT !.bins = << [nm |-> t, data |-> "00", sz |-> WOfInt(1), md |-> <<>>] >>]
    [] OTHER -> [r EXCEPT !.bins = << [nm |-> "61", data |-> t, sz |-> WOfInt(n), md |-> <<>>], [nm |-> "62", data |-> "ff", sz |-> WOfInt(1), md |-> <<>>] >>]
Texts == {"id", "nm", "key", "string", "evname", "colname", "member", "refname", "uri", "binname", "data", "bytes"}
SizedRec(p) == LET r == [None EXCEPT !.id = "72"] IN IF p[1] \in Texts THEN Texted(r, p[1], Text_(p[2]), p[2]) ELSE Bulky(r, p[1], p[2])
SizeOps(p) ==
  << Plain(SizedRec(p)), WriteOp(CfgOf(p[2], Exact, p[2] % 3), FALSE), LoadOp(p[2]), SliceOp(At64(1), At64(3)),
     Op("bounds") @@ [src |-> "r1"], [op |-> "validate", src |-> "r1", req |-> -1] >>

\* past what two and three bytes of an index hold, and what two bytes of a length do
GiantTexts == Texts \X ({4095, 4096, 4097, 16383, 16384, 32767, 32768, 65535, 65536, 65537} \union IF Thorough THEN {131072, 1048575, 1048577, 2097152} ELSE {262145})
GiantLists == {"evnames", "evkeys", "evkey", "members", "values", "mdkeys"} \X (IF Thorough THEN {4096, 16384, 16385, 32768, 65536, 65537} ELSE {16385})
GiantOps(p) == << Plain(SizedRec(p)), WriteOp(CfgOf(p[2], Exact, p[2] % 3), FALSE), LoadOp(p[2]) >>

(* -------------------------------------------------------------------- captures *)
CountSpace == UNION {{<<k, t, tt, n>> : t \in TechsOf(k), tt \in 0..2, n \in Ns} : k \in Kinds}
ManySpace == {q \in UNION {{<<k, t, tt, n>> : t \in TechsOf(k), tt \in 0..2, n \in IF Thorough THEN {4097, 16385, 65537} ELSE {4097}} : k \in Kinds} : Thorough \/ (q[2] + q[3]) % 3 # 1}
             \union {<<"enum", 0, tt, 65537>> : tt \in 0..2} \union {<<"position", 0, 0, 65537>>, <<"float", 1, 1, 65536>>}
CaptureAt(k, i, n) ==
  LET v(a) == F64OfInt((((i % 1009) * (i % 1009) * a + i) % 37) - 11) IN
  CASE k \in {"position", "euler"} -> Cap(At64(i), <<v(1), v(2), v(5)>>) [] k = "float" -> Cap(At64(i), <<v(3)>>)
    [] k = "enum" -> Cap(At64(i), <<WOfInt(i % 3)>>)
    [] OTHER -> Event(i, HexOf[i % 7], IF i % 5 = 3 THEN << <<"61", Leaf(i)>> >> ELSE <<>>)
CountOps(p) ==
  LET n == p[4]
      c == Col(p[1], "61", IF p[1] = "enum" THEN <<"61", "62", "63">> ELSE <<>>, [i \in 1..n |-> CaptureAt(p[1], i, n)])
  IN  << Plain([None EXCEPT !.cols = << c >>]), WriteOp(CfgOf(n, [Exact EXCEPT ![p[1]] = p[2]], p[3]), FALSE), LoadOp(n),
         SliceOp(At64(1), At64(n)), Op("bounds") @@ [src |-> "r1"] >>

\* one long step, or one value far from the others, anywhere among many
SpikeNs == IF Thorough THEN {60, 130, 300, 700, 1100, 2100, 4200, 8300} ELSE {300, 1100, 4200}
SpikeSpots(n) ==
  {s \in {2, 3, 17, 33, 64, 65, 66, 100, 128, 129, 130, 255, 256, 257, 258, 300, 512, 513, 1000, 1024, 1025, 1026, 2048, 2049, 4096, 4097, 8192, 8193, n - 1, n} :
     s <= n /\ (Thorough \/ n < 4000 \/ s > 1025 \/ s \in {257, 1025}) /\ (Thorough \/ n # 1100 \/ s > 256 \/ s = 129)}
SpikeSpace == UNION {UNION {{<<kt[1], kt[2], n, s>> : s \in SpikeSpots(n)} : n \in SpikeNs} : kt \in {<<"position", 2>>, <<"position", 3>>, <<"float", 2>>, <<"euler", 2>>}}
SpikeAt(k, i, s) ==
  LET q == ((i % 1009) * (i % 1009)) % 97
      up == IF i >= s THEN 1 ELSE 0
      at_ == IF i = s THEN 1 ELSE 0
      t == F64OfScaled(16 * i + 5000 * up + (q % 7)) IN
  CASE k = "position" -> Cap(t, <<F64OfScaled(3 * i + 9000 * up + (q % 5)), F64OfScaled(q - (2 * i) - 7000 * up), F64OfScaled(q + 6000 * at_)>>)
    [] k = "float" -> Cap(t, <<F64OfScaled(q + (IF s % 2 = 0 THEN 9000 ELSE 0 - 9000) * at_)>>)
    [] OTHER -> Cap(t, <<F64OfScaled(q + 900000 * at_), F64OfScaled(q - 900000 * at_), F64OfScaled(i * 4096)>>)
SpikeOps(p) ==
  << Plain([None EXCEPT !.cols = << Col(p[1], "61", <<>>, [i \in 1..p[3] |-> SpikeAt(p[1], i, p[4])]) >>]),
     WriteOp(CfgOf(p[4], [Exact EXCEPT ![p[1]] = p[2]], 2), FALSE), LoadOp(p[4]) >>

(* -------------------------------------------------------------------- metadata *)
Lengthy == {CStr, CBytes, CBools, CBlock} \union {13 + c : c \in {CStr, CInt, CF32, CVec2, CVec3, CBlock, CTime}}
ItemAt(c, i) ==
  CASE c = CStr -> Prop(c, NameAt(i), <<>>)
    [] c \in {CInt, CF32} -> Prop(c, ToHex(LE32(<<0, i % 65536>>)), <<>>)
    [] c = CVec2 -> Prop(c, ToHex(LE64(At64(i)) \o LE64(At64(2))), <<>>)
    [] c = CVec3 -> Prop(c, ToHex(LE64(At64(i)) \o LE64(At64(2)) \o LE64(At64(3))), <<>>)
    [] c = CBlock -> Prop(c, "", IF i % 2 = 0 THEN <<>> ELSE << <<NameAt(i), Leaf(i)>> >>)
    [] OTHER -> Prop(c, ToHex(LE64(<<0, 0, 7, i % 65536>>)), <<>>)
\* n bytes, and n characters fit for a document
Byte_(n) == Cat([i \in 1..n |-> <<(i * 37) % 256>>])
Letters(n) == Cat([i \in 1..n |-> <<97 + ((i * 7) % 26)>>])
Value(c, n) ==
  CASE c = CStr -> Prop(c, ToHex(Letters(n)), <<>>) [] c = CBytes -> Prop(c, ToHex(Byte_(n)), <<>>)
    [] c = CBools -> Prop(c, ToHex([i \in 1..n |-> IF i % 3 = 0 THEN 1 ELSE 0]), <<>>)
    [] OTHER -> Prop(c, "", [i \in 1..n |-> <<"", ItemAt(c - 13, i)>>])
PlainKey(i) == ToHex(<<97 + (i % 26), 97 + ((i \div 26) % 26)>>)
Values(c, n) == IF c = CBlock THEN Prop(c, "", [i \in 1..n |-> <<PlainKey(i), Leaf(2)>>]) ELSE Value(c, n)
MetaSpace == (Lengthy \X Ns) \union ({0 - 1} \X Ns)
BlockOf(p) == IF p[1] < 0 THEN << <<ToHex(Letters(p[2])), Leaf(1)>>, <<"", Leaf(2)>> >> ELSE << <<"6b", Values(p[1], p[2])>>, <<"6c", Leaf(2)>> >>
OnceEach(b) == LastWins(b)
MetaOps(p) == << Plain([None EXCEPT !.md = OnceEach(BlockOf(p))]), WriteOp(CfgOf(p[2], Exact, 0), FALSE), LoadOp(p[2]) >>

\* many keys that JSON and BSON can tell apart, in one block, in its blocks, in arrays
KeyKinds == {"flat", "inner", "items", "deep"}
KeyNs == IF Thorough THEN {10, 11, 26, 100, 101, 127, 128, 129, 255, 256, 257, 500, 513, 1025} ELSE {11, 101, 129, 257, 513}
PlainName(i) == HexOf[97 + (i % 26)] \o HexOf[97 + ((i \div 26) % 26)] \o HexOf[97 + (i \div 676)]
ManyKeys(how, n) ==
  LET flat == [i \in 1..n |-> <<PlainName(i), Leaf(i)>>]
      blk(b) == Prop(CBlock, "", b) IN
  CASE how = "flat" -> flat
    [] how = "inner" -> << <<"61", blk(flat)>>, <<"62", Leaf(1)>> >>
    [] how = "items" -> << <<"61", Prop(13 + CBlock, "", [i \in 1..n |-> <<"", blk(<< <<PlainName(i), Leaf(i)>>, <<"62", Leaf(i + 1)>> >>)>>])>> >>
    [] OTHER -> << <<"61", blk([i \in 1..(n \div 10) |-> <<PlainName(i), blk([j \in 1..10 |-> <<PlainName(j), Leaf(i + j)>>])>>])>> >>
KeySpace == KeyKinds \X KeyNs

\* longer than what is set aside for a length that was read
GiantArrays == IF Thorough THEN {13 + c : c \in {CStr, CInt, CF32, CVec2, CVec3, CBlock, CTime}} \X {65535, 65536, 65537} ELSE {13 + CStr, 13 + CInt, 13 + CVec2} \X {65537}
\* what is said again after more than two bytes of an index hold
AgainNs == IF Thorough THEN {126, 127, 128, 129, 256, 257, 4097, 16383, 16384, 16385, 16386, 20000, 65537} ELSE {127, 128, 129, 257, 16384, 16390}
Again(n) == <<n, 1, n - 1, 2, n \div 2, 1, n>>
AgainRec(p) ==
  LET n == p[2]
      again == [i \in 1..7 |-> NameAt(Again(n)[i])]
      all == [i \in 1..n |-> NameAt(i)] \o again
      says(ns) == [i \in DOMAIN ns |-> IF p[1] = "evnames" THEN Event(i, ns[i], <<>>) ELSE Event(i, "65", << <<ns[i], Leaf(i % 9)>> >>)]
      col(ns) == IF p[1] = "members" THEN Col("enum", "61", ns, << Cap(At64(1), <<WOfInt(Len(ns) - 1)>>) >>) ELSE Col("event", "61", <<>>, says(ns))
  IN  [None EXCEPT !.cols = << col(again), col(all), col(again) >>, !.kids = << [None EXCEPT !.cols = << col(again), col(SubSeq(all, n - 2, n + 7)) >>] >>]
AgainKeys(p) ==
  LET n == p[2]
      few == OnceEach([i \in 1..7 |-> <<NameAt(Again(n)[i]), Leaf(i)>>])
      kid == [None EXCEPT !.md = few, !.refs = << [nm |-> "72", uri |-> "", sz |-> WZero, md |-> few] >>,
                          !.bins = << [nm |-> "62", data |-> "00", sz |-> WOfInt(1), md |-> few] >>] IN
  << Plain([None EXCEPT !.md = [i \in 1..n |-> <<NameAt(i), Leaf(i % 9)>>], !.kids = <<kid, [kid EXCEPT !.kids = <<kid>>]>>, !.refs = kid.refs]),
     WriteOp(CfgOf(n, Exact, 0), FALSE), LoadOp(n) >>
AgainOps(p) == << Plain(AgainRec(p)), WriteOp(CfgOf(p[2], Exact, 0), FALSE), LoadOp(p[2]) >>

(* ---------------------------------------------------------------------- tools *)
DocSpace == (1..8) \X Ns
DocOps(p) == LET k(i) == <<"position", "euler", "event", "enum">>[(i % 4) + 1] IN
  << JsonOp(DocOf(p[1], p[2], CollectionOf(k(p[2] + 1), 2, 2), k(p[2]), (p[2] % 9) + 1, Named(1, <<>>)), "json") >>
\* and thousands of everything
GiantDocSpace == {<<d, n>> : d \in {-3, -2, -1, 0, 2, 3, 4, 5, 8}, n \in (IF Thorough THEN {1023, 1024, 1025, 2049} ELSE {1025})}
GiantDoc(d, n) ==
  CASE d = 2 -> Named(2, << <<KMeta, JObj([i \in 1..n |-> <<PlainName(i), IF i % 2 = 0 THEN IntNum(i) ELSE JStr(PlainName(i))>>])>> >>)
    [] d = 4 -> Named(4, << <<KRecs, JArr([i \in 1..(n \div 2) |-> Named(i, <<>>)])>> >>)
    [] d = 5 -> Named(5, << <<KRefs, JArr([i \in 1..(n \div 2) |-> JObj(<< <<KName, JStr(NameAt(i))>>, <<KUri, JStr(NameAt(n - i))>>, <<KSize, IntNum(i * 1000)>> >>)])>> >>)
    [] d = 8 -> DocOf(8, n * 17, <<>>, "", 0, <<>>)
    [] OTHER -> DocOf(d, n, CollectionOf("enum", 2, 2), <<"position", "euler", "event", "enum">>[(n % 4) + 1], n, <<>>)
GiantDocOps(p) == << JsonOp(IF p[1] > 0 THEN GiantDoc(p[1], p[2])
                            ELSE DocOf(1, p[2], CollectionOf("enum", 2, 2), <<"position", "euler", "event", "enum">>[1 - p[1]], 1 + ((1 - p[1]) * p[2]) \div 4, <<>>), "json") >>
GiantRows == {1025, 4097} \X {1, 3, 400} \X {"id", "none"} \X {TRUE}
RowSpace == {p \in Ns \X {1, 2, 3, 1000} \X {"id", "name", "none"} \X BOOLEAN : p[4] \/ p[2] \in {2, 3}}
RowOps(p) == TableOf(p[1], IF p[2] = 1000 THEN p[1] + 1 ELSE p[2], p[4], p[3], Turned(<<X("time"), X("id"), X("z"), X("name"), X("x"), X("y")>>, p[1] % 6))
FileRespects == {"kidcols", "evcols", "cols", "kids", "mdkeys", "refs", "bins", "values", "depth", "data"}
FileSpace == FileRespects \X (IF Thorough THEN 0..100 ELSE (0..24) \union {63, 64, 65, 100, 127, 128, 129, 255, 256, 257})
FileOps(p) ==
  << Plain(TameRec(SizedRec(<<p[1], IF p[1] = "depth" THEN p[2] % 31 ELSE p[2]>>))), WriteOp(CfgOf(p[2], Exact, 0), FALSE) >> \o
  [i \in 1..3 |-> [Cli(<<"summarize", "to-json", "upgrade">>[i], "f1") EXCEPT !.at = -1]]
\* and of very many captures
GiantFiles == IF Thorough THEN {"position", "euler", "enum", "event"} \X {1023, 1024, 4097, 16385, 65535, 65536, 65537}
              ELSE {<<"position", 65537>>, <<"euler", 4097>>, <<"euler", 65536>>, <<"enum", 16385>>, <<"event", 4097>>}
GiantFileOps(p) ==
  << Plain([None EXCEPT !.cols = << Col(p[1], "61", IF p[1] = "enum" THEN <<"61", "62", "63">> ELSE <<>>, [i \in 1..p[2] |-> CaptureAt(p[1], i, p[2])]),
                                    Col("enum", "62", <<"61">>, <<>>) >>]), WriteOp(CfgOf(p[2], Exact, 0), FALSE) >> \o
  [i \in 1..2 |-> [Cli(<<"summarize", "to-json">>[i], "f1") EXCEPT !.at = -1]]
V1Space == (1..9) \X Ns
V1Ops(p) == << V1G!V1(V1G!MessageOf(p[1], p[2], 1), <<1, 0, 0, 0>>, 0, 0, "f1"),
               V1G!on("rewrite") @@ [cfg |-> CfgOf(p[2], Exact, p[2] % 2), prop |-> "C16"] >>


(* ------------------------------------------- every place among so many of them *)
Most == IF Thorough THEN 24 ELSE 12
\* times that are all different, that come in pairs, that go back, that are one
CutTime(how, i, n) == CASE how = 1 -> At64(i) [] how = 2 -> At64((i + 1) \div 2) [] how = 3 -> At64(n + 1 - i) [] OTHER -> At64(IF i = n THEN 2 ELSE 1)
CutSpace == (1..4) \X (0..Most)
CutOps(p) ==
  LET n == p[2]
      c(k) == Col(k, "61", IF k = "enum" THEN <<"61">> ELSE <<>>, [i \in 1..n |-> [CaptureAt(k, i, n) EXCEPT !.t = CutTime(p[1], i, n)]])
      k == Order[(n % 5) + 1]
      bounds == << <<>>, NegInf64 >> \o [i \in 1..(n + 2) |-> At64(i - 1)] \o << F64OfScaled(4096 * (n \div 2) + 2048) >>
      pairs == Cat([i \in DOMAIN bounds |-> [j \in DOMAIN bounds |-> <<bounds[i], bounds[j]>>]])
  IN  << Plain([None EXCEPT !.cols = <<c(k)>>, !.kids = <<[None EXCEPT !.cols = << c("event"), c("position") >>]>>]) >> \o
      [i \in DOMAIN pairs |-> [SliceOp(pairs[i][1], pairs[i][2]) EXCEPT !.h = "s"]]
\* the one pair of times that goes back
PlacesOf(n) == IF n <= Most THEN 1..n ELSE {1, 2, n \div 2, (n \div 2) + 1, n - 1, n}
OrderNs == (1..Most) \union {16, 17, 32, 33, 64, 65, 128, 129, 257}
OrderSpace == UNION {{<<how, n, i>> : how \in 1..4, i \in PlacesOf(n) \union {0}} : n \in OrderNs}
OrderOps(p) ==
  LET n == p[2]
      at == p[3]
      k == Order[((n + p[1]) % 5) + 1]
      col(m, bad) == Col(k, "61", IF k = "enum" THEN <<"61">> ELSE <<>>,
                         [i \in 1..m |-> [CaptureAt(k, i, m) EXCEPT !.t = IF i = bad THEN (IF at % 3 = 2 THEN NaN64 ELSE At64(0)) ELSE At64((i \div 2) + 1)]])
      two(bad) == col(2, IF bad THEN 2 ELSE 0)
      r == CASE p[1] = 1 -> [None EXCEPT !.cols = <<col(n, at)>>]
             [] p[1] = 2 -> [None EXCEPT !.cols = [i \in 1..n |-> two(i = at)]]
             [] p[1] = 3 -> [None EXCEPT !.kids = [i \in 1..n |-> [None EXCEPT !.cols = <<two(i = at)>>]]]
             [] OTHER -> FoldLeft(LAMBDA a, i : [None EXCEPT !.cols = <<two(i = at)>>, !.kids = <<a>>], None, [i \in 1..Less(n, 100) |-> i])
  IN  << Plain(r) >> \o [q \in 1..3 |-> [op |-> "validate", src |-> "r1", req |-> q - 2]] \o << Op("bounds") @@ [src |-> "r1"] >>
\* the one that is missing or of no known kind
LackParts == {"kid", "col", "foreign", "bin", "ref", "mixed", "nilcap"}
LackSpace == UNION {{<<what, n, i>> : what \in LackParts, i \in PlacesOf(n)} : n \in OrderNs}
LackOps(p) ==
  LET n == p[2]
      r == CASE p[1] = "kid" -> [None EXCEPT !.kids = [i \in 1..(n - 1) |-> None]]
             [] p[1] = "bin" -> [None EXCEPT !.bins = [i \in 1..(n - 1) |-> [nm |-> NameAt(i), data |-> "", sz |-> WZero, md |-> <<>>]]]
             [] p[1] = "ref" -> [None EXCEPT !.refs = [i \in 1..(n - 1) |-> [nm |-> NameAt(i), uri |-> "", sz |-> WZero, md |-> <<>>]]]
             [] OTHER -> [None EXCEPT !.cols = [i \in 1..(n - 1) |-> Col(Order[(i % 5) + 1], NameAt(i), <<>>, <<>>)]]
  IN  << Op("reject") @@ [rec |-> r, path |-> <<>>, what |-> p[1], at |-> p[3], n |-> n, cfg |-> CfgOf(n + p[3], Exact, n % 3)] >>
\* files cut, delivered and refused at every byte
WholeSpace == Respects \X (0..(IF Thorough THEN 20 ELSE 6))
WholeCfg(p) == CfgOf(p[2] + Len(p[1]), Exact, p[2] % 3)
WholeOn(name, p) == Op(name) @@ [f |-> "f1", reg |-> Turned(Order, p[2]), step |-> 1, at |-> 0,
                                 del |-> [sizes |-> <<>>, eofdata |-> FALSE, failat |-> -1, faildata |-> p[2] % 2 = 1, err |-> p[2] % 4]]
WholeFile(p) == << Plain(SizedRec(p)), WriteOp(WholeCfg(p), FALSE), LoadOp(0) >>
ShortOnes == [j \in 1..30 |-> [sizes |-> [i \in 1..30 |-> IF i = j THEN j % 2 ELSE 4096], eofdata |-> j % 3 = 0, failat |-> -1, faildata |-> FALSE, err |-> 0]] \o
             [j \in 1..16 |-> [sizes |-> <<j>>, eofdata |-> j % 2 = 0, failat |-> -1, faildata |-> FALSE, err |-> 0]]

\* files with one piece larger than what is made room for at once: cut, failing and delivered
\* around where more room is made, and up to their end
GiantWhole == (Texts \X {65586, 131122}) \union {<<"caps", 2733>>}
GiantRec(p) ==
  IF p[1] = "caps" THEN [None EXCEPT !.cols = << Col("position", "61", <<>>, [i \in 1..p[2] |-> CaptureAt("position", i, p[2])]) >>]
  ELSE SizedRec(p)
GiantFile(p) == << Plain(GiantRec(p)), WriteOp([CfgOf(p[2], Exact, 0) EXCEPT !.comp = FALSE], FALSE), LoadOp(0) >>
GiantOn(name, p) == [WholeOn(name, p) EXCEPT !.at = IF p[1] = "caps" THEN 87400 ELSE p[2] - 60]
GiantDels == [j \in 1..11 |-> [sizes |-> << <<1>>, <<7>>, <<1000>>, <<4096>>, <<32768>>, <<65535>>, <<65536>>, <<65537>>, <<40000, 0, 1>>, <<65536, 1>>, <<300, 65536>> >>[j],
                               eofdata |-> j % 2 = 0, failat |-> -1, faildata |-> FALSE, err |-> 0]]

Space ==
  CASE Fam \in {"sizes", "bytesizes"} -> {p \in Respects \X Ns : Fam = "sizes" \/ p[2] < 140} [] Fam = "counts" -> CountSpace [] Fam = "giantcounts" -> ManySpace [] Fam = "spikes" -> SpikeSpace [] Fam = "giantarrays" -> GiantArrays [] Fam = "againkeys" -> {"keys"} \X AgainNs [] Fam = "agains" -> {"members", "evnames", "evkeys"} \X AgainNs [] Fam = "giants" -> GiantTexts \union GiantLists
    [] Fam \in {"lengths", "triplengths", "bsonlengths"} -> MetaSpace
    [] Fam \in {"tripkeys", "bsonkeys"} -> KeySpace
    [] Fam = "giantdocs" -> GiantDocSpace [] Fam = "giantrows" -> GiantRows [] Fam = "giantv1" -> (1..9) \X (IF Thorough THEN {1023, 1025, 2049} ELSE {1025})
    [] Fam = "docsizes" -> DocSpace [] Fam = "rowsizes" -> RowSpace [] Fam = "filesizes" -> FileSpace [] Fam = "giantfiles" -> GiantFiles [] Fam = "giantcuts" -> {q \in GiantWhole : q[1] \notin {"evname", "colname"}} [] Fam = "giantdels" -> GiantWhole [] Fam = "v1sizes" -> V1Space
    [] Fam = "slicesizes" -> CutSpace [] Fam = "validsizes" -> OrderSpace
    [] Fam = "holesizes" -> {p \in LackSpace : p[1] \notin {"mixed", "nilcap"}} [] Fam = "misfitsizes" -> {p \in LackSpace : p[1] \in {"mixed", "nilcap"}}
    [] Fam \in {"cutsizes", "delsizes", "refusalsizes"} -> WholeSpace
Ops(p) ==
  CASE Fam = "sizes" -> SizeOps(p) [] Fam \in {"counts", "giantcounts"} -> CountOps(p) [] Fam = "spikes" -> SpikeOps(p) [] Fam = "giantarrays" -> MetaOps(p) [] Fam = "againkeys" -> AgainKeys(p) [] Fam = "agains" -> AgainOps(p) [] Fam = "giants" -> GiantOps(p) [] Fam = "lengths" -> MetaOps(p)
    [] Fam = "bytesizes" -> << Plain(SizedRec(p)), WriteOp(CfgOf(p[2], Exact, p[2] % 3), TRUE) >>
    [] Fam = "triplengths" -> << Op("trip") @@ [md |-> OnceEach(BlockOf(p)), seed |-> p[2]] >>
    [] Fam = "bsonlengths" -> << Op("bson") @@ [md |-> OnceEach(BlockOf(p))] >>
    [] Fam = "tripkeys" -> << Op("trip") @@ [md |-> ManyKeys(p[1], p[2]), seed |-> p[2]] >> [] Fam = "bsonkeys" -> << Op("bson") @@ [md |-> ManyKeys(p[1], p[2])] >>
    [] Fam = "giantdocs" -> GiantDocOps(p) [] Fam = "giantrows" -> RowOps(p) [] Fam = "giantv1" -> V1Ops(p)
    [] Fam = "docsizes" -> DocOps(p) [] Fam = "rowsizes" -> RowOps(p) [] Fam = "filesizes" -> FileOps(p) [] Fam = "giantfiles" -> GiantFileOps(p) [] Fam = "v1sizes" -> V1Ops(p)
    [] Fam = "slicesizes" -> CutOps(p) [] Fam = "validsizes" -> OrderOps(p) [] Fam \in {"holesizes", "misfitsizes"} -> LackOps(p)
    [] Fam = "cutsizes" -> WholeFile(p) \o << WholeOn("cuts", p), WholeOn("srcfails", p) >>
    [] Fam = "delsizes" -> WholeFile(p) \o << WholeOn("dels", p) @@ [dels |-> ShortOnes] >>
    [] Fam = "giantcuts" -> GiantFile(p) \o << GiantOn("cuts", p), GiantOn("srcfails", p) >>
    [] Fam = "giantdels" -> GiantFile(p) \o << GiantOn("dels", p) @@ [dels |-> GiantDels] >>
    [] Fam = "refusalsizes" -> << Plain(SizedRec(p)), Op("sinkfails") @@ [src |-> "r1", cfg |-> WholeCfg(p), step |-> 1, at |-> 0, n |-> p[2]] >>

VARIABLES p, out
allvars == <<p, out, todo>>
Init_ == p \in Space /\ out = FALSE /\ todo = 0
Next_ == /\ ~out
         /\ PrintT("@@S " \o ToJson([id |-> Fam, ops |-> Ops(p)]))
         /\ out' = TRUE /\ UNCHANGED <<p, todo>>
Sizes == Init_ /\ [][Next_]_allvars
=============================================================================
