------------------------------ MODULE RapToolsGen ------------------------------
(* Behaviours around the library: JSON in and out, CSV in, the command line  *)
(* tools.  Every scenario is one behaviour; FAM says of what.                *)
EXTENDS RapNumerals, RapBulk, RapTools, RapBson, Json, IOUtils
LOCAL INSTANCE SequencesExt

VARIABLE todo
vars == <<todo>>
Fam == IOEnv.FAM
Op(name) == [op |-> name, keep |-> -1, req |-> -1]

(* -------------------------------------------------------------- JSON documents *)
TimeTexts == << JTime(X("1970-01-15T06:56:07Z"), <<0, 287, 29165, 28608>>),
                JTime(X("2001-02-03T04:05:06.789012345+05:30"), <<3, 31834, 36434, 17556>>),
                JTime(X("0001-01-01T00:00:00Z"), <<65315, 16385, 212, 16384>>),
                JTime(X("9999-12-31T23:59:59.999999999Z"), <<900, 17420, 52339, 24575>>),
                JTime(X("1969-12-31T23:59:59.999999Z"), <<65535, 65535, 65535, 65535>>),
                JTime(X("2024-02-29T12:00:00.5-08:00"), <<6, 4746, 46164, 45344>>) >>
TextPool == SmallNames \union
  { X("0x01"), X("0xfF"), X("0x0"), X("0xzz"), X("0x0102"), X("0xAbCdEf"), X("0x"), X("0x123"), X("0xz12345"), X("0X01"), X("x0"),
    HexX \o "c3a9", HexX \o "f09f9880",
    X("2020-02-30T00:00:00Z"), X("2020-01-01"), X("2020-01-01 00:00:00Z"), X("2020-01-01T24:00:00Z"), X("null"), X("12"), X("true"),
    "f09f9880", "e280a8e280a9", "01021f7f", "225c2f080c0a0d09", "3c3e26", "efbfbd", "c3", "eda080", "e4bda0e5a5bd", "f48fbfbf", "f4908080",
    X("a.b"), X("id"), X("x"), X("recolude.position") }
RandText(z_) == IF Chance(1, 4) THEN Pick(NearNames) ELSE IF Chance(1, 3) THEN Pick(SmallNames) ELSE IF Chance(9, 10) THEN Pick(TextPool) ELSE RandHex(Pick(1..5))
NumPool == Grid(-6..6) \union
  { F64OfInt(300), F64OfInt(-70000), F64OfInt(16777217),
    <<16863, 65535, 65472, 0>>, <<16864, 0, 0, 0>>, <<49632, 0, 0, 0>>, <<49632, 0, 32, 0>>,  \* around +-2^31
    <<16863, 65535, 65504, 0>>, <<16960, 0, 0, 0>>, <<17456, 0, 0, 1>>,
    <<32768, 0, 0, 0>>, <<16313, 39321, 39321, 39322>>, <<16341, 21845, 21845, 21845>>,
    <<18415, 65535, 57344, 0>>, <<18416, 0, 0, 0>>, <<51184, 0, 0, 0>>, <<32751, 65535, 65535, 65535>>,
    <<13984, 0, 0, 0>>, <<13900, 0, 0, 0>>, <<1, 2, 3, 4>>, <<0, 0, 0, 1>> }
RandNum(z_) == IF Chance(1, 2) THEN F64OfInt(Pick(-20..20)) ELSE IF Chance(1, 2) THEN Pick(NumPool) ELSE RandModerate(0)
WMinus1(w) == WNot(WInc(WNot(w)))
\* a number, spelled out or left to the recorder
NumTree(z_) ==
  IF Chance(1, 5)
  THEN LET d == JsonNumeral(0)
           n == Numeral(d)
           v == Dec64(n.neg, n.ds, n.x)
           \* halfway between two float32 either of them will do
           half == ToF32(WInc(v.w)) # ToF32(WMinus1(v.w))
       IN  IF v.over \/ (~IsZero64(v.w) /\ half) THEN JNum(RandNum(0)) ELSE [JNum(v.w) EXCEPT !.s = ToHex(d)]
  ELSE JNum(RandNum(0))
\* metadata values that are no error, mostly
TameNum(z_) == LET w == RandNum(0) IN IF Exp64(w) < 1023 + 120 THEN w ELSE Zero64
JText(z_) == IF Chance(1, 10) THEN TimeTexts[Pick(DOMAIN TimeTexts)] ELSE JStr(RandText(0))
RECURSIVE JValue(_)
JKeys(n) == Distinct(Draws(n, LAMBDA i : IF Chance(1, 3) THEN Pick({KX, KY, KZ}) ELSE RandText(0)))
JValue(d) ==
  LET c == Pick(IF d > 0 THEN 1..14 ELSE 1..6) IN
  CASE c \in {1, 2} -> JText(0)
    [] c \in {3, 4} -> JNum(TameNum(0))
    [] c = 5 -> JBool(Chance(1, 2))
    [] c = 6 -> IF Chance(1, 12) THEN NumTree(0) ELSE IF Chance(1, 25) THEN JNull ELSE JText(0)
    [] c = 7 -> JObj(Shuffle(<< <<KX, NumTree(0)>>, <<KY, NumTree(0)>> >>))
    [] c = 8 -> JObj(Shuffle(<< <<KX, NumTree(0)>>, <<KY, NumTree(0)>>,
                                <<Pick({KZ, KZ, KZ, X("w")}), IF Chance(1, 8) THEN JText(0) ELSE NumTree(0)>> >>))
    [] c \in {9, 10} -> LET ks == JKeys(Pick(0..3)) IN JObj(Draws(Len(ks), LAMBDA i : <<ks[i], JValue(d - 1)>>))
    \* arrays of one kind
    [] c \in {11, 12} -> LET n == Pick(0..4)
                             m == Pick(1..6)
                         IN  JArr(Draws(n, LAMBDA i :
                               CASE m = 1 -> JBool(Chance(1, 2))
                                 [] m = 2 -> JNum(IF Chance(1, 2) THEN F64OfInt(Pick(-300..300)) ELSE TameNum(0))
                                 [] m = 3 -> JText(0)
                                 [] m = 4 -> TimeTexts[Pick(DOMAIN TimeTexts)]
                                 [] m = 5 -> JStr(X("0x0") \o Pick({X("1"), X("a"), X("F")}))
                                 [] OTHER -> JObj(<< <<KX, NumTree(0)>>, <<KY, NumTree(0)>> >> \o
                                                  (IF Chance(1, 3) THEN << <<KZ, NumTree(0)>> >> ELSE <<>>))))
    \* and of any
    [] c = 13 /\ Chance(1, 3) -> JArr(Draws(Pick(1..3), LAMBDA i : JValue(d - 1)))
    [] OTHER -> JArr(Draws(Pick(1..3), LAMBDA i : JObj(LET ks == JKeys(Pick(0..2)) IN
                                                        Draws(Len(ks), LAMBDA j : <<ks[j], JValue(d - 1)>>))))
JBlock(d) == LET ks == JKeys(Pick({0, 1, 2, 3, 4})) IN JObj(Draws(Len(ks), LAMBDA i : <<ks[i], JValue(d)>>))
\* fields that may be left out, and some nobody asked for
Maybe(n, d, key, v) == IF Chance(n, d) THEN << <<key, v>> >> ELSE <<>>
ExtraField(z_) == IF Chance(1, 8) THEN << <<Pick({X("extra"), X("Id"), KCount, KSig, "", KData}), JValue(1)>> >> ELSE <<>>
JMeta(d) == IF Chance(1, 2) THEN << <<KMeta, JBlock(d)>> >> ELSE <<>>
Fields(fs) == JObj(Shuffle(LastWins(Cat(fs))))
JTimeNum(z_) == IF Chance(3, 4) THEN JNum(Pick(TimePool)) ELSE NumTree(0)
JPoint(z_) == Fields(<< << <<KTime, JTimeNum(0)>>,
                       <<KData, Fields(<< << <<KX, NumTree(0)>>, <<KY, NumTree(0)>>, <<KZ, NumTree(0)>> >>, ExtraField(0) >>)>> >> >>)
JEvent(d) == Fields(<< << <<KTime, JTimeNum(0)>>,
                       <<KData, Fields(<< << <<KName, JStr(RandText(0))>> >>, JMeta(d), ExtraField(0) >>)>> >> >>)
JChoice(z_) == Fields(<< << <<KTime, JTimeNum(0)>>, <<KData, JStr(IF Chance(1, 2) THEN Pick({"", "61", "62", X("0x01"), "f09f9880"}) ELSE Pick(NearNames))>> >> >>)
JCollection(d) ==
  LET k == Pick({"position", "euler", "event", "enum"})
      n == Pick({0, 1, 2, 3, 4})
  IN  Fields(<< << <<KName, JStr(RandText(0))>>, <<KType, JStr(X("recolude." \o k))>>,
                   <<KCaps, JArr(Draws(n, LAMBDA i : CASE k = "event" -> JEvent(d) [] k = "enum" -> JChoice(0) [] OTHER -> JPoint(0)))>> >>,
                ExtraField(0) >>)
JReference(d) ==
  Fields(<< << <<KName, JStr(RandText(0))>>, <<KUri, JStr(RandText(0))>>,
               <<KSize, JNum(Pick({Zero64, F64OfInt(1), F64OfInt(128), F64OfInt(1000000), <<17216, 0, 0, 0>>, <<16880, 3, 2, 0>>, <<32768, 0, 0, 0>>}))>> >>,
            JMeta(d), ExtraField(0) >>)
RECURSIVE JRecording(_, _)
JRecording(d, md) ==
  Fields(<< << <<KId, JStr(RandText(0))>>, <<KName, JStr(RandText(0))>> >>,
            IF Chance(2, 3) THEN << <<KMeta, JBlock(md)>> >> ELSE <<>>,
            IF Chance(2, 3) THEN << <<KCols, JArr(Draws(Pick(0..3), LAMBDA i : JCollection(MinOf(md, 1))))>> >> ELSE <<>>,
            IF Chance(1, 2) THEN << <<KRefs, JArr(Draws(Pick(0..2), LAMBDA i : JReference(1)))>> >> ELSE <<>>,
            IF d > 0 /\ Chance(2, 3) THEN << <<KRecs, JArr(Draws(Pick(0..2), LAMBDA i : JRecording(d - 1, md)))>> >> ELSE <<>>,
            ExtraField(0) >>)

Junk(t) ==
  LET c == Pick(1..13) IN
  CASE c = 1 -> JNull
    [] c = 2 -> JBool(Chance(1, 2))
    [] c = 3 -> NumTree(0)
    [] c = 4 -> JStr(RandText(0))
    [] c = 5 -> JArr(<<>>)
    [] c = 6 -> JObj(<<>>)
    [] c = 7 -> JArr(<<t>>)
    [] c = 8 -> JObj(<< <<X("a"), t>> >>)
    [] c = 9 -> JArr(<<t, t>>)
    [] c = 10 -> JNum(Pick({F64OfInt(-1), <<16376, 0, 0, 0>>, <<17217, 1, 0, 0>>, <<17408, 0, 0, 0>>, <<49136, 0, 0, 0>>}))
    [] c = 11 -> JStr(Pick({X("12"), X("recolude.float"), X("position"), X("recolude.Position"), X("recolude.event")}))
    [] c = 12 -> JArr(<<JNull>>)
    [] OTHER -> IF t.j = "arr" THEN JObj([i \in DOMAIN t.k |-> <<HexOf[48 + (i % 10)] \o HexOf[i], t.k[i][2]>>])
                ELSE IF t.j = "obj" THEN JArr(Items(t)) ELSE JNull
RECURSIVE Mutate(_)
Mutate(t) ==
  IF t.k = <<>> \/ Chance(1, 5) THEN Junk(t)
  ELSE LET i == Pick(DOMAIN t.k) IN
       IF t.j = "obj" /\ Chance(1, 3)
       THEN (IF Chance(1, 5) THEN [t EXCEPT !.k[i] = <<@[1] \o "20", @[2]>>]
             ELSE [t EXCEPT !.k = SubSeq(@, 1, i - 1) \o SubSeq(@, i + 1, Len(@))])
       ELSE IF t.j = "arr" /\ Chance(1, 8) THEN [t EXCEPT !.k = Append(@, <<"", Junk(@[i][2])>>)]
       ELSE [t EXCEPT !.k[i] = <<@[1], Mutate(@[2])>>]
\* sizes of references that have no exact form in both are left alone
RECURSIVE ExactSizes(_)
ExactSizes(t) ==
  [t EXCEPT !.k = [i \in DOMAIN @ |->
     <<@[i][1], IF @[i][1] = KSize /\ IsNum(@[i][2]) /\ Exp64(@[i][2].w) \in (1023 + 53)..(1023 + 69) THEN JNum(F64OfInt(9)) ELSE ExactSizes(@[i][2])>>]]
Doc(z_) ==
  LET d == JRecording(Pick(0..2), Pick({0, 1, 2}))
      n == IF Fam = "jsonbad" THEN Pick({1, 1, 1, 2, 3}) ELSE 0
  IN  ExactSizes(FoldLeft(LAMBDA a, i : Mutate(a), d, Times_(n)))
JsonOp(doc, name) ==
  Op(name) @@ [doc |-> doc, seed |-> Pick(0..1000000), mode |-> (IF Chance(1, 9) THEN Pick({8, 9, 10, 11, 11}) ELSE Pick(0..7)), cfg |-> RandCfg(Techs, {0, 1, 2})]

(* ----------------------------------------------------------------------- export *)
RECURSIVE Tame(_)
TameHex(h) == ToHex([i \in 1..(Len(h) \div 2) |-> LET b == FromHex(h) IN IF i % 8 = 0 THEN b[i] % 64 ELSE b[i]])
Tame(p) == CASE p.c = CF32 -> [p EXCEPT !.s = SubSeq(@, 1, 6) \o "42"]
             [] p.c \in {CVec2, CVec3} -> [p EXCEPT !.s = TameHex(@)]
             [] p.c = CTime -> [p EXCEPT !.s = SubSeq(@, 1, 12) \o Pick({"0100", "0000", "ffff"})]
             [] OTHER -> [p EXCEPT !.k = [i \in DOMAIN @ |-> <<@[i][1], Tame(@[i][2])>>]]
TameBlock(m) == [i \in DOMAIN m |-> <<m[i][1], Tame(m[i][2])>>]
RECURSIVE TameRec(_)
TameRec(r) ==
  [r EXCEPT !.md = TameBlock(@),
            !.cols = [i \in DOMAIN @ |-> [@[i] EXCEPT !.caps = [j \in DOMAIN @ |->
                        [@[j] EXCEPT !.md = TameBlock(@), !.t = IF Exp64(@) = 2047 THEN Zero64 ELSE @]]]],
            !.kids = [i \in DOMAIN @ |-> TameRec(@[i])]]
TextKinds == {"event", "enum", "position", "euler"}
ToolProfile(z_) ==
  [Profile EXCEPT !.kinds = TextKinds, !.maxcols = 3, !.depth = Pick(0..3), !.maxkids = 3,
                  !.meta = Pick({0, 1, 2}), !.names = Pick({"few", "any"}), !.times = Pick({"grid", "any", "edge"}), !.vals = "few"]
ToolCfg(z_) == IF Chance(1, 3) THEN DefCfg ELSE RandCfg(Techs, {0, 0, 1, 2})
RandFloat32Prop(z_) == Prop(CF32, ToHex(LE32(ToF32(RandNum(0)))), <<>>)
TripBlock(z_) ==
  LET p == [Profile EXCEPT !.names = "any"]
      b == RandBlock(p, Pick(0..3)) \o RandBlock(p, 1)
      n == RandText(0)
      all == LastWins(b \o << <<n, IF Chance(1, 2) THEN RandFloat32Prop(0) ELSE Prop(CStr, JText(0).s, <<>>)>> >>)
  IN  IF Chance(4, 5) THEN TameBlock(all) ELSE all

(* ------------------------------------------------------------------------- BSON *)
\* keys that end early, keys that look like an array's, and blocks in blocks
BsonBlock(z_) ==
  LET p == [Profile EXCEPT !.names = Pick({"few", "any", "near"})]
      b == RandBlock(p, Pick(0..3)) \o RandBlock(p, Pick(0..2))
      odd == Draws(Pick(0..2), LAMBDA i : <<Pick({"6100", "00", "30", "31", "5f6964", "24696e63", "612e62", "", "78", "ff"}), RandFloat32Prop(0)>>)
      clean == [i \in DOMAIN b |-> IF HasZero(b[i][1]) THEN <<X("k") \o X(ToString(i % 10)), b[i][2]>> ELSE b[i]]
  IN  LastWins((IF Chance(3, 4) THEN clean ELSE b) \o odd)

(* -------------------------------------------------------------------------- CSV *)
BadNumbers == {"", X("abc"), X("1e400"), X("1,5"), X("0x"), X("--1"), X("1 2"), X("1.2.3"), X("e5"), X("1e"), "c3a9", X("- 1"), X("+-2")}
\* parts that join to the same whole: over every separator
Joints == {"2f", "7c", "3a", "2d", "5f", "20", "2c", "09", "3b", "2e", "00", "1f", "23", "3d", "22", ""}
CsvText(z_) == IF Chance(1, 4) THEN Pick(NearNames) ELSE IF Chance(2, 3) THEN Pick({"61", "62", "", X("a b"), X(" a"), X("a,b"), "610a62", "2261", X("1"), "c3a9"}) ELSE Pick({X("time"), RandHex(2), "00", "ff"})
NoCr(h) == IF \E i \in 1..(Len(h) \div 2) : SubSeq(h, 2 * i - 1, 2 * i) = "0d" THEN "64" ELSE h
CText(z_) == [k |-> "t", s |-> NoCr(CsvText(0)), w |-> Zero64]
CNumber(z_) == [k |-> "n", s |-> "", w |-> IF Chance(1, 3) THEN Pick(EdgePool \union NumPool) ELSE RandNum(0)]
CSpelled(z_) == [k |-> "x", s |-> ToHex(Pick({<<>>, <<>>, <<32>>, <<9, 32>>}) \o Numeral_(0) \o Pick({<<>>, <<>>, <<32>>})), w |-> Zero64]
CNum(z_) == IF Chance(1, 8) THEN LET c == CSpelled(0) IN IF Numeral(Trimmed(FromHex(c.s))).k = "vague" \/ (~CellNum(c).ok /\ Chance(9, 10)) THEN CNumber(0) ELSE c
            ELSE CNumber(0)
CBad(z_) == [k |-> "b", s |-> Pick(BadNumbers), w |-> Zero64]
NumColumns == {X("time"), X("x"), X("y"), X("z")}
CsvScenario(z_) ==
  LET extra == Draws(Pick({0, 0, 1, 2}), LAMBDA i : Pick({X("w"), "", X("ID"), X("times"), X("X"), X("n a"), "c3a9"}))
      bad == Pick({"no", "no1", "no2", "no3", "no4", "column", "ragged", "number", "quote", "empty"})
      base == Shuffle(CsvColumns)
      head == Distinct(Shuffle((IF bad = "column" THEN SubSeq(base, 1, Pick(0..5)) ELSE base) \o extra))
      n == Pick({0, 1, 2, 3, 5, 8, 12})
      cell(i) == IF head[i] \in NumColumns THEN CNum(0) ELSE CText(0)
      row(i) == Draws(Len(head), LAMBDA j : cell(j))
      joint == Chance(1, 3)
      sep == Pick(Joints)
      \* id "a.b" name "c", id "a" name "b.c", and the like
      pairs == <<<<"61" \o sep \o "62", "63">>, <<"61", "62" \o sep \o "63">>, <<"61", "63">>, <<"61" \o sep, "62">>, <<"61", sep \o "62">>, <<"6162", "63">>,
                 <<"61", "6263">>, <<"63", "61">>, <<"", "61">>, <<"61", "">>>>
      put(r) == IF ~joint THEN r
                ELSE LET p == pairs[Pick(DOMAIN pairs)] IN
                     [j \in DOMAIN r |-> IF head[j] = X("id") THEN [r[j] EXCEPT !.s = p[1]] ELSE IF head[j] = X("name") THEN [r[j] EXCEPT !.s = p[2]] ELSE r[j]]
      rows0 == FoldLeft(LAMBDA a, r : Append(a, put(r)), <<>>, Draws(n, row))
      \* rows of a few pairs, interleaved
      rows1 == IF n = 0 \/ head = <<>> THEN <<>> ELSE rows0
      at == IF rows1 = <<>> THEN 0 ELSE Pick(DOMAIN rows1)
      rows == IF at = 0 THEN rows1
              ELSE IF bad = "ragged"
              THEN [rows1 EXCEPT ![at] = IF Chance(1, 2) THEN Append(@, CText(0)) ELSE SubSeq(@, 1, Len(@) - 1)]
              ELSE IF bad = "number"
              THEN LET c == Pick({j \in DOMAIN head : head[j] \in NumColumns}) IN [rows1 EXCEPT ![at][c] = CBad(0)]
              ELSE rows1
  IN  IF head = <<>> \/ bad = "empty"
      THEN << Op("csv") @@ [chead |-> <<>>, rows |-> <<>>, what |-> "empty", modename |-> "file", seed |-> Pick(0..1000000)] >>
      ELSE << Op("csv") @@ [chead |-> head, rows |-> rows, modename |-> (IF Chance(1, 8) THEN Pick({"devfull", "missing", "dir"}) ELSE "file"), what |-> (IF bad = "quote" THEN "quote" ELSE ""), seed |-> Pick(0..1000000)] >>

(* ------------------------------------------------------------- files and commands *)
Cli(what, f) == Op("cli") @@ [what |-> what, f |-> f,
                              at |-> (IF Chance(1, 3) THEN Pick(0..999) ELSE IF Chance(1, 10) THEN Pick({-2, -3}) ELSE -1),
                              modename |-> IF what = "to-json" THEN Pick({"file", "stdin"}) ELSE "file"]
Full(op) == IF Chance(1, 8) THEN [op EXCEPT !.modename = "devfull"] ELSE op
\* of a given size, with something behind the recording
Sized(op) == IF Chance(1, 2) THEN op
             ELSE [op EXCEPT !.at = -1] @@
                  [pad |-> CASE Chance(1, 4) -> Pick({1023, 1024, 1025, 10239, 10240, 10241, 1048575, 1048576})
                             [] Chance(1, 3) -> Pick(800..20000)
                             [] Chance(1, 2) -> Pick(1000..1047000)
                             [] Chance(1, 2) -> 16 * Pick(65530..70000)
                             [] OTHER -> 16 * Pick(65000..700000)]
FileScenario(what) ==
  LET p == ToolProfile(0)
      r0 == RandRec(IF what = "export" THEN p ELSE [p EXCEPT !.times = Pick({"grid", "grid", "any", "sorted"}), !.meta = Pick({-1, 0, 1}), !.maxcaps = 6], p.depth)
      r == IF Chance(4, 5) THEN TameRec(r0) ELSE r0
      w == Op("write") @@ [src |-> "r1", f |-> "f1", cfg |-> ToolCfg(0), bytes |-> FALSE]
  IN  << Op("build") @@ [h |-> "r1", rec |-> r], w >> \o
      CASE what = "export" -> << Full(Cli("to-json", "f1")), Op("trip") @@ [md |-> r.md, seed |-> 0] >>
        [] what = "upgrade" -> << Full(Cli("upgrade", "f1")), Cli("upgrade", "f1") >>
        [] OTHER -> << Cli("summarize", "f1"), Sized(Cli("summarize", "f1")) >>

(* -------------------------------------------- documents, tables and files that are large *)
HowMany(most) == LET n == Draws(1, LAMBDA z : Size(0))[1] IN IF n > most THEN Pick(127..most) ELSE n
IntNum(i) == JNum(F64OfInt(i))
PointAt(i) == JObj(<< <<KTime, IntNum(i)>>, <<KData, JObj(<< <<KX, IntNum(i)>>, <<KY, IntNum((i * 7) % 301)>>, <<KZ, IntNum(0 - i)>> >>)>> >>)
EventAt(i) == JObj(<< <<KTime, IntNum(i)>>,
                      <<KData, JObj(<< <<KName, JStr(NameAt(i))>> >> \o
                                    (IF i % 3 = 0 THEN << <<KMeta, JObj(<< <<HexOf[97 + (i % 9)], IntNum(i)>> >>)>> >> ELSE <<>>))>> >>)
ChoiceAt(i, n) == JObj(<< <<KTime, IntNum(i)>>, <<KData, JStr(NameAt((i * 7) % n))>> >>)
CollectionOf(k, n, m) ==
  JObj(<< <<KName, JStr(X(k))>>, <<KType, JStr(X("recolude." \o k))>>,
          <<KCaps, JArr([i \in 1..n |-> CASE k = "event" -> EventAt(i) [] k = "enum" -> ChoiceAt(i, m) [] OTHER -> PointAt(i)])>> >>)
Named(i, more) == JObj(<< <<KId, JStr(NameAt(i))>>, <<KName, JStr(HexOf[i % 256])>> >> \o more)
RECURSIVE DeepDoc(_, _)
DeepDoc(n, t) == IF n = 0 THEN t ELSE Named(n, << <<KRecs, JArr(<<DeepDoc(n - 1, t)>>)>> >>)
DocOf(dim, n, two, k, m, small) ==
  CASE dim = 1 -> Named(1, << <<KCols, JArr(<< CollectionOf(k, n, m), two >>)>> >>)
    [] dim = 2 -> Named(2, << <<KMeta, JObj([i \in 1..n |-> <<NameAt(i), IF i % 2 = 0 THEN IntNum(i) ELSE JStr(NameAt(i))>>])>> >>)
    [] dim = 3 -> Named(3, << <<KMeta, JObj(<< <<"61", JArr([i \in 1..n |-> IntNum(i)])>>, <<"62", JArr([i \in 1..n |-> JStr(NameAt(i))])>>,
                                               <<"63", JArr([i \in 1..n |-> JBool(i % 3 = 0)])>> >>)>> >>)
    [] dim = 4 -> Named(4, << <<KRecs, JArr([i \in 1..Less(n, 400) |-> Named(i, IF i % 50 = 0 THEN << <<KCols, JArr(<<two>>)>> >> ELSE <<>>)])>> >>)
    [] dim = 5 -> Named(5, << <<KRefs, JArr([i \in 1..Less(n, 600) |-> JObj(<< <<KName, JStr(NameAt(i))>>, <<KUri, JStr(NameAt(n - i))>>, <<KSize, IntNum(i * 1000)>> >>)])>> >>)
    [] dim = 6 -> DeepDoc(Less(n, 33), small)
    [] dim = 7 -> Named(6, << <<KCols, JArr([i \in 1..Less(n, 300) |-> CollectionOf(<<"position", "euler", "event", "enum">>[(i % 4) + 1], i % 3, 2)])>> >>)
    [] OTHER -> LET t == Text_(n) IN
         JObj(<< <<KId, JStr(t)>>, <<KName, JStr(t)>>, <<KMeta, JObj(<< <<t, JStr(t)>> >>)>>,
                 <<KCols, JArr(<< JObj(<< <<KName, JStr(t)>>, <<KType, JStr(X("recolude.enum"))>>,
                    <<KCaps, JArr(<< JObj(<< <<KTime, IntNum(1)>>, <<KData, JStr(t)>> >>) >>)>> >>) >>)>> >>)
Kind4 == {"position", "euler", "event", "enum"}
BulkDoc(z_) ==
  LET n == HowMany(4200) IN
  DocOf(Pick({1, 1, 1, 1, 2, 3, 4, 5, 6, 7, 8} \ (IF Chance(1, 2) THEN 2..8 ELSE {})), IF Chance(1, 8) THEN Pick(20..33) ELSE n,
        CollectionOf(Pick(Kind4), Pick(0..3), 2), Pick(Kind4), Pick({1, 2, 100, 300, n}), ExactSizes(JRecording(0, 1)))
\* rows of a few or of many pairs, in turns or one pair after the other
TableOf(n, p, turns, same, head) ==
  LET who(i) == IF turns THEN i % p ELSE (i * p) \div (n + 1)
      text(i, c) == IF same = c THEN "61" ELSE NameAt(who(i))
      num(i, c) == F64OfInt(CASE c = X("time") -> i [] c = X("x") -> (i * 11) % 3001 [] c = X("y") -> 0 - i [] OTHER -> i % 5)
      cell(i, c) == IF c = X("id") THEN [k |-> "t", s |-> text(i, "id"), w |-> Zero64]
                    ELSE IF c = X("name") THEN [k |-> "t", s |-> text(i, "name"), w |-> Zero64]
                    ELSE [k |-> "n", s |-> "", w |-> num(i, c)]
  IN  << Op("csv") @@ [chead |-> head, rows |-> [i \in 1..n |-> [j \in DOMAIN head |-> cell(i, head[j])]], modename |-> "file", what |-> "", seed |-> n] >>
BulkCsv(z_) ==
  LET n == HowMany(4200)
      p == IF n < 600 THEN Pick({1, 2, 3, 127, 128, 129, n}) ELSE Pick({1, 2, 3, 40})
  IN  TableOf(n, p, Chance(1, 2), Pick({"id", "name", "none"}), Shuffle(CsvColumns))
BulkFile(z_) ==
  LET r0 == IF Chance(1, 12) THEN Deep(Pick(10..30), SmallRec(0)) ELSE BulkOf(Dims \ {"depth", "blockdepth"}, IF Chance(1, 6) THEN 2000 ELSE 700)
      r == [TameRec(r0) EXCEPT !.cols = SelectSeq(@, LAMBDA c : c.k # "float"), !.kids = SelectSeq(@, LAMBDA k : "float" \notin UsedKinds(k))]
  IN  << Op("build") @@ [h |-> "r1", rec |-> r], Op("write") @@ [src |-> "r1", f |-> "f1", cfg |-> ToolCfg(0), bytes |-> FALSE] >> \o
      Shuffle(<< [Cli("summarize", "f1") EXCEPT !.at = -1], [Cli("to-json", "f1") EXCEPT !.at = -1], [Cli("upgrade", "f1") EXCEPT !.at = -1] >>)
Scenario(z_) ==
  CASE Fam = "bulkjson" -> << JsonOp(BulkDoc(0), "json") >>
    [] Fam = "bulkcsv" -> BulkCsv(0)
    [] Fam = "bulkfile" -> BulkFile(0)
    [] Fam \in {"json", "jsonbad"} -> << JsonOp(Doc(0), "json") >>
    [] Fam = "jsoncuts" -> << JsonOp(JRecording(1, 1), "jsoncuts") >>
    [] Fam = "trip" -> << Op("trip") @@ [md |-> TripBlock(0), seed |-> Pick(0..1000000)] >>
    [] Fam = "bson" -> << Op("bson") @@ [md |-> BsonBlock(0)] >>
    [] Fam = "csv" -> CsvScenario(0)
    [] OTHER -> FileScenario(Fam)
Emit ==
  /\ todo > 0
  /\ \E s \in {Scenario(todo)} : PrintT("@@S " \o ToJson([id |-> Fam, ops |-> s]))
  /\ todo' = todo - 1
Init == todo = 1
Next == Emit
Spec == Init /\ [][Next]_vars
===============================================================================
