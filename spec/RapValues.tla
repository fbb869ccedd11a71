------------------------------- MODULE RapValues ------------------------------
(* Every value, in one respect at a time: each byte as a text and within one, *)
(* words that mean something to some reader, whole numbers around every power *)
(* of two, floating point numbers of every exponent.                          *)
EXTENDS RapSizes
LOCAL INSTANCE SequencesExt

(* ------------------------------------------------------------------------ texts *)
Bytes256 == [i \in 1..256 |-> i - 1]
AloneTexts == [i \in 1..256 |-> HexOf[i - 1]]
WithinTexts == [i \in 1..256 |-> "61" \o HexOf[i - 1] \o "62"]
LastTexts == [i \in 1..256 |-> "61" \o HexOf[i - 1]]
FirstTexts == [i \in 1..256 |-> HexOf[i - 1] \o "61"]
Wordlist ==
  << "", X("true"), X("false"), X("True"), X("TRUE"), X("null"), X("nil"), X("none"), X("undefined"), X("NaN"), X("nan"), X("inf"), X("-inf"), X("Infinity"),
     X("0"), X("1"), X("-1"), X("-0"), X("+1"), X("00"), X("01"), X("1.0"), X("1.5"), X(".5"), X("1e5"), X("1E5"), X("1e400"), X("0x"), X("0x0"), X("0x1"), X("0xff"),
     X("0xFF"), X("0x00ff"), X("0xg0"), X("0x0g"), X("0X1f"), X("0b1"), X("0o7"), X("1_000"), X("1,5"), X("12"), X("2147483648"), X("-2147483649"),
     X("18446744073709551616"), X("9007199254740993"), X("0.1"), X("x"), X("y"), X("z"), X("w"), X("X"), X("Y"), X("Z"), X("id"), X("ID"), X("Id"), X("name"), X("Name"),
     X("time"), X("Time"), X("data"), X("type"), X("size"), X("uri"), X("count"), X("metadata"), X("collections"), X("recordings"), X("references"), X("binaries"),
     X("captures"), X("signature"), X("position"), X("recolude.position"), X("recolude.euler"), X("recolude.event"), X("recolude.enum"), X("recolude.float"), X("Position"),
     X("Rotation"), X("Custom Event"), X("Custom Events"), X("Life Cycle"), X("Life Cycle Events"), X("START"), X("ENABLE"), X("Life"), X("Death"), X("Event"), X("contents"), X("recolude"),
     X("color"), X("min"), X("max"), X("a.b"), X("a..b"), X("."), X(".."), X("/"), X("a/b"), X("../a"), X("$ref"), X("$a"), X("_id"), X("__proto__"), X("constructor"),
     X("[]"), X("{}"), X("[0]"), X("a[0]"), X("<a>"), X("&amp;"), X("%s"), X("%d"), X("%!s(MISSING)"), X("%%"), X("%v%n"), X("\\n"), X("\\u0041"), X("a b"), X(" a"), X("a "), X("  "),
     X("2006-01-02T15:04:05Z"), X("1970-01-01T00:00:00Z"), X("2020-02-30T00:00:00Z"), X("2020-01-01"), X("15:04"), X("1h"), X("utf-8"), X("http://a/b?c=d&e=f#g"), X("file:///a"),
     X("c:"), X("--"), X("-f"), X("#a"), X("//"), X("/*"), X("null,"), X("a,b"), X("a;b"), X("a|b"), X("a:b"), X("a=b"), X("a'b"), X("a`b"), X("(a)"), X("*"), X("?"), X("!"),
     "efbbbf", "efbbbf61", "61efbbbf", "efbfbd", "efbfbe", "efbfbf", "c3a9", "65cc81", "c3", "c328", "e28080", "e280a8", "e280a9", "e2808b", "e2808f", "c2a0", "c2ad", "c280", "c29f", "eda080", "edb080", "eda0bdedb880",
     "f09f9880", "f0908080", "f48fbfbf", "f4908080", "c080", "e08080", "f0808080", "fe", "feff", "fffe", "ffffffff", "0000", "00000000", "610062", "0d0a", "0a0d", "610d0a62", "0909", "1b5b306d" >>
AllTexts == TLCEval(Distinct(AloneTexts \o WithinTexts \o [i \in DOMAIN Wordlist |-> Wordlist[i]] \o (IF Thorough THEN LastTexts \o FirstTexts ELSE <<>>)))
Groups(all, n) == [i \in 1..((Len(all) + n - 1) \div n) |-> SubSeq(all, (i - 1) * n + 1, MinOf(i * n, Len(all)))]
TextGroups == TLCEval(Groups(AllTexts, 16))
TextRespects == <<"id", "nm", "key", "string", "evname", "colname", "member", "refname", "uri", "binname">>
\* one child each, or all of them as the parts of one
TextRec(how, g) ==
  LET ws == TextGroups[g]
      n == Len(ws)
      leaf(i) == Leaf((i * 7) % 9) IN
  CASE how = "keys" -> [None EXCEPT !.md = [i \in 1..n |-> <<ws[i], Prop(CStr, ws[n + 1 - i], <<>>)>>]]
    [] how = "cols" -> [None EXCEPT !.cols = [i \in 1..n |-> Col("enum", ws[i], ws, << Cap(At64(i), <<WOfInt(i % n)>>) >>)]]
    [] how = "events" -> [None EXCEPT !.cols = << Col("event", "61", <<>>, [i \in 1..n |-> Event(i, ws[i], << <<ws[n + 1 - i], leaf(i)>> >>)]) >>]
    [] how = "strings" -> [None EXCEPT !.md = << <<"6b", Prop(13 + CStr, "", [i \in 1..n |-> <<"", Prop(CStr, ws[i], <<>>)>>])>>,
                                                 <<"6c", Prop(CBlock, "", [i \in 1..n |-> <<ws[i], leaf(i)>>])>>,
                                                 <<"6d", Prop(13 + CBlock, "", [i \in 1..n |-> <<"", Prop(CBlock, "", << <<ws[i], leaf(i)>> >>)>>])>> >>]
    [] OTHER -> [None EXCEPT !.id = ws[1], !.kids = [i \in 1..n |-> Texted([None EXCEPT !.id = "6b"], how, ws[i], i)]]
Wholes == <<"keys", "cols", "events", "strings">>
TextHows == TextRespects \o Wholes
TextOps(at_) ==
  << Plain(TextRec(at_[1], at_[2])), WriteOp(CfgOf(at_[2], Exact, at_[2] % 3), FALSE), LoadOp(at_[2]), SliceOp(At64(2), At64(9)) >>
ByteOps(at_) == << Plain(TextRec(at_[1], at_[2])), WriteOp(CfgOf(at_[2] + 1, Exact, at_[2] % 3), TRUE) >>
ToolHows == RangeOf(TextHows)
\* through the tools
TextFileOps(at_) ==
  << Plain(TameRec(TextRec(at_[1], at_[2]))), WriteOp(CfgOf(at_[2], Exact, 0), FALSE) >> \o
  [i \in 1..3 |-> [Cli(<<"summarize", "to-json", "upgrade">>[i], "f1") EXCEPT !.at = -1]]
\* as the name a summary shows
NameFileOps(at_) ==
  LET ws == TextGroups[at_[2]] IN
  Cat([i \in DOMAIN ws |-> << Plain([None EXCEPT !.nm = ws[i], !.kids = << None >>]), WriteOp(CfgOf(i, Exact, 0), FALSE), Cli("summarize", "f1"),
                              [Cli("summarize", "f1") EXCEPT !.at = -1] >>])
TripWhat == {"keys", "strings"}
TextMd(at_) == TextRec(at_[1], at_[2]).md
\* documents
\* (texts that are times are read as such among metadata)
MdText(t) == CASE t = X("2006-01-02T15:04:05Z") -> JTime(t, <<4, 2401, 32374, 17216>>) [] t = X("1970-01-01T00:00:00Z") -> JTime(t, WZero) [] OTHER -> JStr(t)
DocHows == {"id", "name", "key", "value", "block", "items", "colname", "coltype", "evname", "evkey", "choice", "refname", "uri", "extra"}
DocOfText(how, ws) ==
  LET n == Len(ws)
      kid(i) == LET t == ws[i]
                    cols(nm, ty, caps) == << <<KCols, JArr(<< JObj(<< <<KName, JStr(nm)>>, <<KType, JStr(ty)>>, <<KCaps, JArr(caps)>> >>) >>)>> >>
                    event(nm, md) == JObj(<< <<KTime, IntNum(i)>>, <<KData, JObj(<< <<KName, JStr(nm)>>, <<KMeta, JObj(md)>> >>)>> >>)
                    choice == JObj(<< <<KTime, IntNum(i)>>, <<KData, JStr(t)>> >>)
                    ref(nm, uri) == << <<KRefs, JArr(<< JObj(<< <<KName, JStr(nm)>>, <<KUri, JStr(uri)>>, <<KSize, IntNum(i)>> >>) >>)>> >>
                IN
        CASE how = "id" -> JObj(<< <<KId, JStr(t)>>, <<KName, JStr("61")>> >>)
          [] how = "name" -> JObj(<< <<KId, JStr("61")>>, <<KName, JStr(t)>> >>)
          [] how = "key" -> Named(1, << <<KMeta, JObj(<< <<t, IntNum(i)>>, <<"6b6b", JStr("61")>> >>)>> >>)
          [] how = "value" -> Named(1, << <<KMeta, JObj(<< <<"6b", MdText(t)>> >>)>> >>)
          [] how = "block" -> Named(1, << <<KMeta, JObj(<< <<"6b", JObj(<< <<t, MdText(t)>>, <<"6b6b", IntNum(2)>> >>)>> >>)>> >>)
          [] how = "items" -> Named(1, << <<KMeta, JObj(<< <<"6b", JArr(<<MdText(t), JStr("61"), MdText(t)>>)>> >>)>> >>)
          [] how = "colname" -> Named(1, cols(t, X("recolude.event"), << event("61", <<>>) >>))
          [] how = "coltype" -> Named(1, cols("61", t, <<>>))
          [] how = "evname" -> Named(1, cols("61", X("recolude.event"), << event(t, <<>>), event("61", <<>>) >>))
          [] how = "evkey" -> Named(1, cols("61", X("recolude.event"), << event("61", << <<t, MdText(t)>> >>) >>))
          [] how = "choice" -> Named(1, cols("61", X("recolude.enum"), << choice, JObj(<< <<KTime, IntNum(i + 1)>>, <<KData, JStr("61")>> >>), choice >>))
          [] how = "refname" -> Named(1, ref(t, "61"))
          [] how = "uri" -> Named(1, ref("61", t))
          [] OTHER -> Named(1, IF t \in {KId, KName, KMeta, KCols, KRefs, KRecs} THEN <<>> ELSE << <<t, JStr("61")>> >>)
  IN  Named(9, << <<KRecs, JArr([i \in 1..n |-> kid(i)])>> >>)
DocTextOps(at_) ==
  LET ws == TextGroups[at_[2]] IN
  IF at_[1] = "coltype" THEN [i \in DOMAIN ws |-> JsonOp(DocOfText("coltype", <<ws[i]>>), "json")]
  ELSE << JsonOp(DocOfText(at_[1], ws), "json") >>
\* messages of version 1
V1Hows == {"name", "mdkey", "mdvalue", "subject", "skey", "svalue", "event", "contents", "ekey", "evalue"}
V1Of(how, ws) ==
  LET n == Len(ws)
      each(F(_)) == Cat([i \in 1..n |-> F(ws[i])]) IN
  CASE how = "mdkey" -> each(LAMBDA t : V1G!EncLen(2, V1G!EncT(1, t) \o V1G!EncT(2, "61")))
    [] how = "mdvalue" -> Cat([i \in 1..n |-> V1G!EncLen(2, V1G!EncT(1, HexOf[96 + i]) \o V1G!EncT(2, ws[i]))])
    [] how = "subject" -> each(LAMBDA t : V1G!EncLen(3, V1G!EncV(1, WOfInt(1)) \o V1G!EncT(2, t)))
    [] how = "skey" -> V1G!EncLen(3, V1G!EncV(1, WOfInt(1)) \o each(LAMBDA t : V1G!EncLen(3, V1G!EncT(1, t) \o V1G!EncT(2, "61"))))
    [] how = "svalue" -> V1G!EncLen(3, V1G!EncV(1, WOfInt(1)) \o Cat([i \in 1..n |-> V1G!EncLen(3, V1G!EncT(1, HexOf[96 + i]) \o V1G!EncT(2, ws[i]))]))
    [] how = "event" -> each(LAMBDA t : V1G!EncLen(4, V1G!EncF(1, F32OfInt(2)) \o V1G!EncT(2, t) \o V1G!EncT(3, "61")))
    [] how = "contents" -> each(LAMBDA t : V1G!EncLen(4, V1G!EncF(1, F32OfInt(2)) \o V1G!EncT(2, "61") \o V1G!EncT(3, t)))
    [] how = "ekey" -> each(LAMBDA t : V1G!EncLen(4, V1G!EncT(2, "61") \o V1G!EncLen(4, V1G!EncT(1, t) \o V1G!EncT(2, "61"))))
    [] how = "evalue" -> each(LAMBDA t : V1G!EncLen(4, V1G!EncT(2, "61") \o V1G!EncLen(4, V1G!EncT(1, "61") \o V1G!EncT(2, t))))
    [] OTHER -> V1G!EncT(1, ws[1]) \o each(LAMBDA t : V1G!EncT(1, t))
V1TextOps(at_) ==
  LET ws == TextGroups[at_[2]]
      one(m) == << V1G!V1(m, <<1, 0, 0, 0>>, 0, 0, "f1"), V1G!on("rewrite") @@ [cfg |-> CfgOf(at_[2], Exact, at_[2] % 2), prop |-> "C16"] >>
  IN  IF at_[1] = "name" THEN Cat([i \in DOMAIN ws |-> one(V1Of("name", <<ws[i]>>))]) ELSE one(V1Of(at_[1], ws))
\* tables
CsvHows == {"id", "name", "both", "extra"}
CsvTextOps(at_) ==
  LET ws == [i \in DOMAIN TextGroups[at_[2]] |-> NoCr(TextGroups[at_[2]][i])]
      n == Len(ws)
      head == Turned(CsvColumns, at_[2] % 6) \o (IF at_[1] = "extra" THEN << X("w") >> ELSE <<>>)
      text(h) == [k |-> "t", s |-> h, w |-> Zero64]
      cell(i, c) == CASE c = X("id") -> text(IF at_[1] \in {"id", "both"} THEN ws[i] ELSE "61")
                      [] c = X("name") -> text(IF at_[1] = "name" THEN ws[i] ELSE IF at_[1] = "both" THEN ws[n + 1 - i] ELSE "61")
                      [] c = X("w") -> text(ws[i])
                      [] OTHER -> [k |-> "n", s |-> "", w |-> F64OfInt(i)]
      rows == [i \in 1..(2 * n) |-> [j \in DOMAIN head |-> cell(((i - 1) % n) + 1, head[j])]]
  IN  << Op("csv") @@ [chead |-> head, rows |-> rows, modename |-> "file", what |-> "", seed |-> at_[2]] >>

(* ---------------------------------------------------------------- whole numbers *)
\* 2^k, one less, one more, and their negatives
Pow64(k) == [i \in 1..4 |-> IF 4 - (k \div 16) = i THEN P2[k % 16] ELSE 0]
WDec(w) == WNot(WInc(WNot(w)))
AroundPow(k) == LET w == Pow64(k) IN << w, WDec(w), WInc(w), WNeg(w), WNeg(WInc(w)), WNeg(WDec(w)) >>
\* three times 2^k, and the same bits over and over
OtherWords == << <<21845, 21845, 21845, 21845>>, <<43690, 43690, 43690, 43690>>, <<258, 772, 1286, 1800>>, <<0, 65535, 0, 65535>>, <<65535, 0, 65535, 0>>, <<32639, 32639, 32639, 32639>>, <<32896, 32896, 32896, 32896>>, <<46, 57920, 15128, 31880>> >>
IntRec(how, k) ==
  LET ws == IF k = 64 THEN OtherWords ELSE AroundPow(k)
      n == Len(ws)
      key(i) == HexOf[96 + i] IN
  CASE how = "size" -> [None EXCEPT !.refs = [i \in 1..n |-> [nm |-> key(i), uri |-> "61", sz |-> ws[i], md |-> <<>>]]]
    [] how = "enum" -> [None EXCEPT !.cols = << Col("enum", "61", <<"61", "62">>, [i \in 1..n |-> Cap(At64(i), <<ws[i]>>)]) >>]
    [] how = "int" -> [None EXCEPT !.md = [i \in 1..n |-> <<key(i), Prop(CInt, ToHex(LE32(<<ws[i][3], ws[i][4]>>)), <<>>)>>] \o
                                          << <<"6b", Prop(13 + CInt, "", [i \in 1..n |-> <<"", Prop(CInt, ToHex(LE32(<<ws[i][3], ws[i][4]>>)), <<>>)>>])>> >>]
    [] how = "byte" -> [None EXCEPT !.md = [i \in 1..4 |-> <<key(i), Prop(CByte, HexOf[(k % 64) * 4 + i - 1], <<>>)>>] \o
                                           << <<"6b", Prop(CBytes, ToHex([i \in 1..4 |-> ((k % 64) * 4) + i - 1]), <<>>)>>, <<"6c", Prop(CBools, ToHex([i \in 1..8 |-> (((k % 64) * 4) \div P2[8 - i]) % 2]), <<>>)>> >>]
    [] OTHER -> [None EXCEPT !.md = [i \in 1..n |-> <<key(i), Prop(CTime, ToHex(LE64(ws[i])), <<>>)>>] \o
                                    << <<"6b", Prop(13 + CTime, "", [i \in 1..n |-> <<"", Prop(CTime, ToHex(LE64(ws[i])), <<>>)>>])>> >>]
IntHows == {"size", "enum", "int", "byte", "time"}
IntOps(at_) == << Plain(IntRec(at_[1], at_[2])), WriteOp(CfgOf(at_[2], Exact, 0), FALSE), LoadOp(at_[2]), SliceOp(At64(2), At64(5)) >>

(* ------------------------------------------------------- floating point numbers *)
Mans == << <<0, 0, 0, 0>>, <<15, 65535, 65535, 65535>>, <<0, 0, 0, 1>>, <<8, 0, 0, 0>>, <<5, 21845, 21845, 21845>>, <<0, 0, 4096, 0>>, <<0, 0, 4096, 1>>, <<0, 0, 12288, 0>>, <<0, 32768, 1, 255>>, <<12, 57, 8192, 128>> >>
FloatAt(e, m, s) == Canon64(<<e * 16 + Mans[m][1] + (IF s THEN 32768 ELSE 0), Mans[m][2], Mans[m][3], Mans[m][4]>>)
\* numbers of sixteen exponents in a row
FloatsOf(g, m) == [i \in 1..16 |-> FloatAt(g * 16 + i - 1, m, (i + m) % 2 = 0)]
FloatGroups == (0..127) \X DOMAIN Mans
FloatQuick == {q \in FloatGroups : Thorough \/ q[2] < 4 \/ q[1] \in 54..73 \/ q[1] = 127}
FloatRec(q) ==
  LET a == FloatsOf(q[1], q[2])
      n == 16
      c(i) == a[i]
      d(i) == FloatAt(q[1] * 16 + ((i * 5) % 16), ((q[2] + i) % Len(Mans)) + 1, i % 3 = 0)
      ups == SortSeq(a, FLess) IN
  [None EXCEPT !.cols = << Col("position", "61", <<>>, [i \in 1..n |-> Cap(ups[i], <<c(i), d(i), c(n + 1 - i)>>)]),
                           Col("euler", "62", <<>>, [i \in 1..n |-> Cap(At64(i), <<d(i), c(i), d(n + 1 - i)>>)]),
                           Col("float", "63", <<>>, [i \in 1..n |-> Cap(ups[i], <<c(i)>>)]),
                           Col("event", "64", <<>>, [i \in 1..2 |-> [t |-> ups[i * 8], v |-> <<>>, n |-> "61", md |-> << <<"61", Prop(CVec3, ToHex(LE64(c(i)) \o LE64(d(i)) \o LE64(c(5))), <<>>)>> >>]]) >>,
               !.md = [i \in 1..8 |-> <<HexOf[96 + i], Prop(CVec2, ToHex(LE64(c(i)) \o LE64(c(i + 8))), <<>>)>>] \o
                      << <<"6b", Prop(13 + CF32, "", [i \in 1..n |-> <<"", Prop(CF32, ToHex(LE32(Canon32(ToF32(c(i))))), <<>>)>>])>> >>]
\* every number on its own, what no text can hold apart from the rest
SinglesOf(q) == LET a == FloatsOf(q[1], q[2]) IN [i \in 1..16 |-> <<HexOf[96 + i], Prop(CF32, ToHex(LE32(Canon32(ToF32(a[i])))), <<>>)>>]
TripMds(q) == LET md == FloatRec(q).md IN << SubSeq(md, 1, 8), SubSeq(md, 9, 9), SinglesOf(q) >>
TripOps(q) == [i \in 1..3 |-> Op("trip") @@ [md |-> TripMds(q)[i], seed |-> q[1]]]
FloatOps(at_) ==
  LET t == (at_[1] + at_[2]) % 2
      a == SortSeq(FloatsOf(at_[1], at_[2]), FLess)
      cfg == CfgOf(at_[1], [Exact EXCEPT !.position = t, !.euler = t, !.float = t], t) IN
  << Plain(FloatRec(at_)), WriteOp(cfg, FALSE), LoadOp(at_[1]), SliceOp(a[4], a[12]), [SliceOp(a[12], PosInf64) EXCEPT !.h = "s"],
     Op("bounds") @@ [src |-> "r1"], [op |-> "validate", src |-> "r1", req |-> -1] >>
\* and with techniques that lose something
FloatLossyOps(at_) ==
  LET t == (at_[1] + at_[2]) % 2
      cfg == CfgOf(at_[1], [Exact EXCEPT !.position = 2 + t, !.euler = 1 + t, !.float = 1 + t], IF Fam = "timefloats" THEN 2 ELSE 0) IN
  << Plain([FloatRec(at_) EXCEPT !.md = <<>>]), WriteOp(cfg, FALSE), LoadOp(at_[1]) >>
\* times that are hard to compare, next to each other
PairsOf(v) == [w \in EdgePool |-> [None EXCEPT !.cols = << Col("event", "61", <<>>, << [Event(1, "61", <<>>) EXCEPT !.t = v], [Event(1, "62", <<>>) EXCEPT !.t = w], [Event(1, "63", <<>>) EXCEPT !.t = v] >>),
                                                          Col("enum", "62", <<"61">>, << Cap(w, <<WZero>>), Cap(v, <<WZero>>) >>) >>]]
TimeOps(at_) ==
  LET v == at_[1]
      r == PairsOf(v)[at_[2]] IN
  << Plain(r), [op |-> "validate", src |-> "r1", req |-> -1], Op("bounds") @@ [src |-> "r1"], SliceOp(v, at_[2]), [SliceOp(at_[2], v) EXCEPT !.h = "s"], [SliceOp(v, <<>>) EXCEPT !.h = "s"] >>
\* numbers of documents, tables and blocks: exponents that the tools take
ToolGroups == {q \in FloatGroups : q[1] \in 54..73 \/ (q[2] < 3 /\ q[1] % 8 = 0)}
FloatDocOps(at_) ==
  LET a == FloatsOf(at_[1], at_[2])
      n(i) == JNum(IF Exp64(a[i]) = 2047 THEN Zero64 ELSE a[i]) IN
  << JsonOp(Named(1, << <<KCols, JArr([k \in 1..2 |->
       JObj(<< <<KName, JStr("61")>>, <<KType, JStr(X("recolude." \o <<"position", "euler">>[k]))>>,
               <<KCaps, JArr([i \in 1..16 |-> JObj(<< <<KTime, n(i)>>, <<KData, JObj(<< <<KX, n(i)>>, <<KY, n(17 - i)>>, <<KZ, n(((i * 3) % 16) + 1)>> >>)>> >>)])>> >>)])>>,
       <<KMeta, JObj(<< <<"61", JObj(<< <<KX, n(1)>>, <<KY, n(9)>> >>)>>, <<"62", JArr([i \in 1..8 |-> JObj(<< <<KX, n(i)>>, <<KY, n(i + 8)>>, <<KZ, n(i)>> >>)])>> >>)>> >>), "json") >>
\* (halfway between two float32 either of them will do, as there is no telling how it is spelled)
Halfway(w) == Exp64(w) = 2047 \/ (~IsZero64(w) /\ ToF32(WInc(w)) # ToF32(WDec(w)))
FloatMetaOps(at_) ==
  LET a == FloatsOf(at_[1], at_[2]) IN
  [i \in 1..16 |-> JsonOp(Named(1, << <<KMeta, JObj(<< <<"61", JNum(IF Halfway(a[i]) THEN Zero64 ELSE a[i])>> >>)>> >>), "json")]
FloatCsvOps(at_) ==
  LET a == FloatsOf(at_[1], at_[2])
      head == Turned(CsvColumns, at_[1] % 6)
      num(w) == [k |-> "n", s |-> "", w |-> w]
      cell(i, c) == IF c \in NumColumns THEN num(a[((i * (IF c = X("time") THEN 1 ELSE IF c = X("x") THEN 3 ELSE IF c = X("y") THEN 5 ELSE 7)) % 16) + 1])
                    ELSE [k |-> "t", s |-> "61", w |-> Zero64] IN
  << Op("csv") @@ [chead |-> head, rows |-> [i \in 1..16 |-> [j \in DOMAIN head |-> cell(i, head[j])]], modename |-> "file", what |-> "", seed |-> at_[1]] >>
V1FloatOps(at_) ==
  LET a == [i \in 1..16 |-> Canon32(ToF32(FloatsOf(at_[1], at_[2])[i]))]
      f(k, i) == V1G!EncF(k, a[((i - 1) % 16) + 1])
      m == V1G!EncLen(3, V1G!EncV(1, WOfInt(1)) \o Cat([i \in 1..16 |-> V1G!EncLen(6, f(1, i) \o f(2, i + 3) \o f(3, i + 7) \o f(4, i + 9))]) \o
                         Cat([i \in 1..16 |-> V1G!EncLen(7, f(1, i + 1) \o f(2, i) \o f(3, i + 5) \o f(4, i + 2))]) \o
                         Cat([i \in 1..16 |-> V1G!EncLen(4, f(1, i) \o V1G!EncT(2, "61"))]))
  IN  << V1G!V1(m, <<1, 0, 0, 0>>, 0, 0, "f1"), V1G!on("rewrite") @@ [cfg |-> CfgOf(at_[1], Exact, at_[1] % 2), prop |-> "C16"] >>
V1IntOps(at_) ==
  LET ws == IF at_[2] = 64 THEN OtherWords ELSE AroundPow(at_[2])
      m == Cat([i \in DOMAIN ws |-> V1G!EncLen(3, V1G!EncV(1, ws[i]) \o V1G!EncT(2, "61") \o V1G!EncLen(5, V1G!EncF(1, F32OfInt(i)) \o V1G!EncV(2, ws[i])))])
  IN  << V1G!V1(m, <<1, 0, 0, 0>>, 0, 0, "f1"), V1G!on("rewrite") @@ [cfg |-> CfgOf(at_[2], Exact, at_[2] % 2), prop |-> "C16"] >>

\* objects that look like vectors: each of four members missing, a number, a
\* text or an object
ShapeKeys == << KX, KY, KZ, X("w") >>
ShapeParts(n) == LET d(i) == (n \div P2[2 * (i - 1)]) % 4 IN SelectSeq(<< <<1, d(1)>>, <<2, d(2)>>, <<3, d(3)>>, <<4, d(4)>> >>, LAMBDA x : x[2] # 0)
ShapeJson(n) == JObj([i \in DOMAIN ShapeParts(n) |-> LET x == ShapeParts(n)[i] IN
  <<ShapeKeys[x[1]], CASE x[2] = 1 -> IntNum((n % 7) + x[1]) [] x[2] = 2 -> JStr("31") [] OTHER -> JObj(<< <<KY, IntNum(n)>>, <<KX, IntNum(x[1])>> >>)>>])
ShapeBlock(n) == [i \in DOMAIN ShapeParts(n) |-> LET x == ShapeParts(n)[i] IN
  <<ShapeKeys[x[1]], CASE x[2] = 1 /\ n % 2 = 0 -> Prop(CF32, ToHex(LE32(ToF32(F64OfInt((n % 7) + x[1])))), <<>>)
                       [] x[2] = 1 -> Prop(CInt, ToHex(LE32(<<0, (n % 7) + x[1]>>)), <<>>)
                       [] x[2] = 2 -> Prop(CStr, "31", <<>>)
                       [] OTHER -> Prop(CVec2, ToHex(LE64(F64OfInt(n)) \o LE64(F64OfInt(x[1]))), <<>>)>>]
ShapeGroups == 0..31
ShapeAt(g, i, s) == ((((g * 8) + i - 1) * s) + s - 1) % 256
ShapeDocOps(g) ==
  LET one(i) == ShapeJson(ShapeAt(g, i, 1))
      other(i) == ShapeJson(ShapeAt(g, i, 37))
      md(i) == <<KMeta, one(i)>>
      keyed(i, v) == <<HexOf[96 + i], v>> IN
  << JsonOp(Named(1, << <<KMeta, JObj([i \in 1..16 |-> IF i < 9 THEN keyed(i, one(i)) ELSE keyed(i, JArr(<< one(i - 8), other(i - 8), one(i - 8) >>))])>>,
                        <<KRecs, JArr([i \in 1..8 |-> Named(i + 1, << md(i) >>)])>>,
                        <<KRefs, JArr([i \in 1..8 |-> JObj(<< <<KName, JStr("61")>>, <<KUri, JStr("62")>>, <<KSize, IntNum(i)>>, md(i) >>)])>>,
                        <<KCols, JArr(<< JObj(<< <<KName, JStr("61")>>, <<KType, JStr(X("recolude.event"))>>,
                                                 <<KCaps, JArr([i \in 1..8 |-> JObj(<< <<KTime, IntNum(i)>>, <<KData, JObj(<< <<KName, JStr("62")>>, md(i) >>)>> >>)])>> >>) >>)>> >>), "json") >>
ShapeTripOps(g) ==
  LET one(i) == ShapeBlock(ShapeAt(g, i, 1))
      blk(b) == Prop(CBlock, "", b)
      trip(md) == Op("trip") @@ [md |-> md, seed |-> g] IN
  << trip([i \in 1..16 |-> <<HexOf[96 + i], IF i < 9 THEN blk(one(i)) ELSE Prop(13 + CBlock, "", << <<"", blk(one(i - 8))>>, <<"", blk(ShapeBlock(ShapeAt(g, i - 8, 37)))>> >>)>>]) >>
  \o [i \in 1..8 |-> trip(one(i))]

\* arrays of every two kinds of items
ItemKinds == << IntNum(3), JNum(<<16376, 0, 0, 0>>), JStr("61"), JStr(X("0x0a")), JStr(X("0x0a0b")), JStr(X("0x")), MdText(X("1970-01-01T00:00:00Z")), JBool(TRUE), JBool(FALSE), JNull,
                JObj(<<>>), JObj(<< <<KX, IntNum(1)>>, <<KY, IntNum(2)>> >>), JObj(<< <<KX, IntNum(1)>>, <<KY, IntNum(2)>>, <<KZ, IntNum(3)>> >>), JArr(<<>>), JArr(<< IntNum(1) >>) >>
MixOps(a, b) ==
  LET doc(items) == JsonOp(Named(1, << <<KMeta, JObj(<< <<"61", JArr(items)>>, <<"62", IntNum(1)>> >>)>> >>), "json")
      x == ItemKinds[a]
      y == ItemKinds[b] IN
  << doc(<<x, y>>), doc(<<x, x, x, y>>), doc(<<x, y, x, x>>), doc(<< JObj(<< <<"61", JArr(<<x, y>>)>> >>) >>) >>

\* every way of giving the command its document, with documents to take and to refuse
ModeDocs == << Named(1, <<>>),
               Named(2, << <<KMeta, JObj(<< <<"61", IntNum(1)>> >>)>>, <<KRecs, JArr(<< Named(3, <<>>) >>)>> >>),
               Named(4, << <<KCols, JArr(<< JObj(<< <<KName, JStr("61")>>, <<KType, JStr(X("recolude.enum"))>>,
                                                    <<KCaps, JArr([i \in 1..40 |-> JObj(<< <<KTime, IntNum(i)>>, <<KData, JStr(HexOf[96 + (i % 9)])>> >>)])>> >>) >>)>> >>),
               Named(5, << <<KRecs, JArr([i \in 1..400 |-> Named(i, <<>>)])>> >>),
               JObj(<< <<KId, JStr("61")>> >>),
               Named(6, << <<KRecs, JArr(<< Named(7, <<>>), JObj(<< <<KName, JStr("61")>> >>) >>)>> >>),
               JArr(<<>>) >>
ModeOps(mode, i) == << [JsonOp(ModeDocs[i], "json") EXCEPT !.mode = mode] >>

Spread(hows) == hows \X DOMAIN TextGroups
ValueSpace ==
  CASE Fam \in {"texts", "textbytes", "textfiles"} -> Spread(RangeOf(TextHows)) [] Fam = "textkeys" -> Spread({"key", "evname", "keys", "events", "strings"})
    [] Fam \in {"triptexts", "bsontexts"} -> Spread(TripWhat) [] Fam = "textnames" -> Spread({"nm"}) [] Fam = "doctexts" -> Spread(DocHows) [] Fam = "v1texts" -> Spread(V1Hows) [] Fam = "csvtexts" -> Spread(CsvHows)
    [] Fam \in {"ints", "intbytes"} -> IntHows \X (0..64) [] Fam \in {"tripints", "bsonints"} -> {"int", "byte", "time"} \X (0..64) [] Fam = "v1ints" -> {1} \X (0..64)
    [] Fam \in {"floats", "lossyfloats", "timefloats"} -> FloatQuick [] Fam = "timepairs" -> EdgePool \X EdgePool
    [] Fam = "docmodes" -> (0..11) \X (DOMAIN ModeDocs)
    [] Fam \in {"shapes", "tripshapes"} -> ShapeGroups [] Fam = "mixes" -> (DOMAIN ItemKinds) \X (DOMAIN ItemKinds)
    [] Fam \in {"docfloats", "csvfloats", "v1floats"} -> ToolGroups [] Fam = "metafloats" -> {q \in ToolGroups : Thorough \/ q[2] < 4} [] Fam \in {"tripfloats", "bsonfloats"} -> FloatQuick
ValueOps(at_) ==
  CASE Fam \in {"texts", "textkeys"} -> TextOps(at_) [] Fam = "textbytes" -> ByteOps(at_) [] Fam = "textfiles" -> TextFileOps(at_) [] Fam = "textnames" -> NameFileOps(at_)
    [] Fam = "triptexts" -> << Op("trip") @@ [md |-> TextMd(at_), seed |-> at_[2]] >> [] Fam = "bsontexts" -> << Op("bson") @@ [md |-> TextMd(at_)] >>
    [] Fam = "doctexts" -> DocTextOps(at_) [] Fam = "v1texts" -> V1TextOps(at_) [] Fam = "csvtexts" -> CsvTextOps(at_)
    [] Fam = "ints" -> IntOps(at_) [] Fam = "intbytes" -> << Plain(IntRec(at_[1], at_[2])), WriteOp(CfgOf(at_[2], Exact, 0), TRUE) >>
    [] Fam = "tripints" -> << Op("trip") @@ [md |-> IntRec(at_[1], at_[2]).md, seed |-> at_[2]] >> [] Fam = "bsonints" -> << Op("bson") @@ [md |-> IntRec(at_[1], at_[2]).md] >>
    [] Fam = "v1ints" -> V1IntOps(at_) [] Fam = "floats" -> FloatOps(at_) [] Fam \in {"lossyfloats", "timefloats"} -> FloatLossyOps(at_) [] Fam = "timepairs" -> TimeOps(at_)
    [] Fam = "docfloats" -> FloatDocOps(at_) [] Fam = "metafloats" -> FloatMetaOps(at_) [] Fam = "csvfloats" -> FloatCsvOps(at_) [] Fam = "v1floats" -> V1FloatOps(at_)
    [] Fam = "docmodes" -> ModeOps(at_[1], at_[2]) [] Fam = "shapes" -> ShapeDocOps(at_) [] Fam = "mixes" -> MixOps(at_[1], at_[2]) [] Fam = "tripshapes" -> ShapeTripOps(at_)
    [] Fam = "tripfloats" -> TripOps(at_) [] Fam = "bsonfloats" -> << Op("bson") @@ [md |-> FloatRec(at_).md], Op("bson") @@ [md |-> SinglesOf(at_)] >>
ValueNext ==
  /\ ~out
  /\ PrintT("@@S " \o ToJson([id |-> Fam, ops |-> ValueOps(p)]))
  /\ out' = TRUE /\ UNCHANGED <<p, todo>>
EachValue == (p \in ValueSpace /\ out = FALSE /\ todo = 0) /\ [][ValueNext]_allvars
=============================================================================
