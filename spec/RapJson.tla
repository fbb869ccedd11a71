------------------------------- MODULE RapJson --------------------------------
(* JSON documents as trees, the recording a document describes, and the      *)
(* document a recording is exported as.                                      *)
(*                                                                           *)
(* A tree is [j, s, w, t, k].  j: "null" "true" "false" "num" "str" "obj"    *)
(* "arr".  s: the text of a string (hexadecimal).  w: the value of a number; *)
(* for a string that is an RFC 3339 time (t set), its microseconds.  k:      *)
(* <<key, tree>> pairs of an object, <<"", tree>> pairs of an array.  In a   *)
(* tree that says what is expected, a number with t set is a single          *)
(* precision value, and a string with t set stands for any text of its time. *)
EXTENDS RapTypes, RapText
LOCAL INSTANCE SequencesExt

J(j, s, w, t, k) == [j |-> j, s |-> s, w |-> w, t |-> t, k |-> k]
JNull == J("null", "", WZero, FALSE, <<>>)
JBool(b) == J(IF b THEN "true" ELSE "false", "", WZero, FALSE, <<>>)
JNum(w) == J("num", "", w, FALSE, <<>>)
JSingle(w) == J("num", "", w, TRUE, <<>>)
JStr(s) == J("str", s, WZero, FALSE, <<>>)
JTime(s, us) == J("str", s, us, TRUE, <<>>)
JArr(items) == J("arr", "", WZero, FALSE, [i \in DOMAIN items |-> <<"", items[i]>>])
JObj(pairs) == J("obj", "", WZero, FALSE, pairs)
IsBool(t) == t.j \in {"true", "false"}
IsNum(t) == t.j = "num"
IsStr(t) == t.j = "str"
Items(t) == [i \in DOMAIN t.k |-> t.k[i][2]]

\* what a JSON reader makes of a document: text repaired, the last of repeated keys kept
RECURSIVE Clean(_)
Clean(t) ==
  IF t.j = "obj" THEN [t EXCEPT !.k = LastWins([i \in DOMAIN @ |-> <<FixText(@[i][1]), Clean(@[i][2])>>])]
  ELSE IF t.j = "arr" THEN [t EXCEPT !.k = [i \in DOMAIN @ |-> <<"", Clean(@[i][2])>>]]
  ELSE [t EXCEPT !.s = FixText(@)]

Has(o, key) == o.j = "obj" /\ \E i \in DOMAIN o.k : o.k[i][1] = key
At(o, key) == IF Has(o, key) THEN o.k[CHOOSE i \in DOMAIN o.k : o.k[i][1] = key][2] ELSE JNull

(* ------------------------------------------------------------- refusals *)
OK(v) == [ok |-> TRUE, v |-> v]
Bad == [ok |-> FALSE, v |-> <<>>]
\* every item converted, or refused
Each(F(_), s) == FoldLeft(LAMBDA a, x : IF ~a.ok THEN a
                                        ELSE LET r == F(x) IN IF r.ok THEN OK(Append(a.v, r.v)) ELSE Bad,
                          OK(<<>>), s)

(* ------------------------------------------------------- metadata values *)
HexX == X("0x")
LowerOf == ("A" :> "a") @@ ("B" :> "b") @@ ("C" :> "c") @@ ("D" :> "d") @@ ("E" :> "e") @@ ("F" :> "f")
\* text that is hexadecimal digits: [ok, v: the hex it spells]
DigitOfHexByte == TLCEval([h \in {HexOf[b] : b \in (48..57) \union (65..70) \union (97..102)} |->
                            LET b == HexByte[h] IN
                            IF b < 65 THEN SubSeq(HexDigit, b - 47, b - 47)
                            ELSE IF b < 97 THEN SubSeq(HexDigit, b - 54, b - 54)
                            ELSE SubSeq(HexDigit, b - 86, b - 86)])
Spelled(h) ==
  LET n == Len(h) \div 2
      at(i) == SubSeq(h, 2 * i - 1, 2 * i)
  IN  IF n % 2 = 1 \/ \E i \in 1..n : at(i) \notin DOMAIN DigitOfHexByte THEN [ok |-> FALSE, v |-> ""]
      ELSE [ok |-> TRUE, v |-> FoldLeft(LAMBDA a, i : a \o DigitOfHexByte[at(i)], "", [i \in 1..n |-> i])]
Prefixed(h) == Len(h) >= 4 /\ SubSeq(h, 1, 4) = HexX

PropOfStr(t) ==
  IF Prefixed(t.s)
  THEN LET r == Spelled(SubSeq(t.s, 5, Len(t.s))) IN
       IF ~r.ok THEN Prop(CStr, t.s, <<>>)
       ELSE IF Len(t.s) = 8 THEN Prop(CByte, r.v, <<>>) ELSE Prop(CBytes, r.v, <<>>)
  ELSE IF t.t THEN Prop(CTime, ToHex(LE64(t.w)), <<>>)
  ELSE Prop(CStr, t.s, <<>>)
PropOfNum(w) ==
  LET i == Int32Of64(w)
      f == ToF32(w)
  IN  IF i.ok THEN OK(Prop(CInt, ToHex(LE32(i.v)), <<>>))
      ELSE IF (f[1] % 32768) \div 128 = 255 THEN Bad
      ELSE OK(Prop(CF32, ToHex(LE32(f)), <<>>))
F32OfInt32(p) == Prop(CF32, ToHex(LE32(ToF32(F64OfInt32(p.s)))), <<>>)

KX == X("x")  KY == X("y")  KZ == X("z")
IsVec2(t) == t.j = "obj" /\ Len(t.k) = 2 /\ IsNum(At(t, KX)) /\ IsNum(At(t, KY))
IsVec3(t) == t.j = "obj" /\ Len(t.k) = 3 /\ IsNum(At(t, KX)) /\ IsNum(At(t, KY)) /\ IsNum(At(t, KZ))

RECURSIVE PropOfJson(_)
RECURSIVE BlockOfJson(_)
BlockOfJson(o) ==
  LET r == Each(LAMBDA kv : LET p == PropOfJson(kv[2]) IN IF p.ok THEN OK(<<kv[1], p.v>>) ELSE Bad, o.k)
  IN  r
\* an array holds values of one kind: what its items are on their own, or (all
\* text, all numbers, all objects) what they have in common
ArrayOfJson(items) ==
  IF items = <<>> THEN OK(Prop(13 + CStr, "", <<>>))
  ELSE IF IsBool(items[1])
  THEN (IF \A i \in DOMAIN items : IsBool(items[i])
        THEN OK(Prop(CBools, FoldLeft(LAMBDA a, x : a \o (IF x.j = "true" THEN "01" ELSE "00"), "", items), <<>>))
        ELSE Bad)
  ELSE
  LET own == Each(PropOfJson, items) IN
  IF ~own.ok THEN Bad
  ELSE LET c == own.v[1].c
           same == \A i \in DOMAIN own.v : own.v[i].c = c
           wrap(code, ps) == Prop(13 + code, "", [i \in DOMAIN ps |-> <<"", ps[i]>>])
       IN  IF same /\ c = CByte THEN OK(Prop(CBytes, FoldLeft(LAMBDA a, p : a \o p.s, "", own.v), <<>>))
           ELSE IF same /\ c \in ArrayBases THEN OK(wrap(c, own.v))
           ELSE IF \A i \in DOMAIN items : IsStr(items[i])
           THEN OK(wrap(CStr, [i \in DOMAIN items |-> Prop(CStr, items[i].s, <<>>)]))
           ELSE IF \A i \in DOMAIN items : IsNum(items[i])
           THEN OK(wrap(CF32, [i \in DOMAIN items |-> IF own.v[i].c = CInt THEN F32OfInt32(own.v[i]) ELSE own.v[i]]))
           ELSE IF \A i \in DOMAIN items : items[i].j = "obj"
           THEN LET bs == Each(BlockOfJson, items) IN
                IF bs.ok THEN OK(wrap(CBlock, [i \in DOMAIN bs.v |-> Prop(CBlock, "", bs.v[i])])) ELSE Bad
           ELSE Bad
PropOfJson(t) ==
  CASE t.j = "true" -> OK(Prop(CTrue, "", <<>>))
    [] t.j = "false" -> OK(Prop(CFalse, "", <<>>))
    [] t.j = "num" -> PropOfNum(t.w)
    [] t.j = "str" -> OK(PropOfStr(t))
    [] t.j = "arr" -> ArrayOfJson(Items(t))
    [] t.j = "obj" ->
         IF IsVec2(t) THEN OK(Prop(CVec2, ToHex(LE64(At(t, KX).w) \o LE64(At(t, KY).w)), <<>>))
         ELSE IF IsVec3(t)
         THEN OK(Prop(CVec3, ToHex(LE64(At(t, KX).w) \o LE64(At(t, KY).w) \o LE64(At(t, KZ).w)), <<>>))
         ELSE LET b == BlockOfJson(t) IN IF b.ok THEN OK(Prop(CBlock, "", b.v)) ELSE Bad
    [] OTHER -> Bad

(* --------------------------------------------------- recordings out of JSON *)
KId == X("id")  KName == X("name")  KMeta == X("metadata")  KRecs == X("recordings")
KRefs == X("references")  KCols == X("collections")  KType == X("type")  KCaps == X("captures")
KTime == X("time")  KData == X("data")  KUri == X("uri")  KSize == X("size")
KSig == X("signature")  KCount == X("count")

StrAt(o, key) == LET v == At(o, key) IN IF IsStr(v) THEN OK(v.s) ELSE Bad
NumAt(o, key) == LET v == At(o, key) IN IF IsNum(v) THEN OK(v.w) ELSE Bad
MetaAt(o) == IF ~Has(o, KMeta) THEN OK(<<>>)
             ELSE IF At(o, KMeta).j # "obj" THEN Bad ELSE BlockOfJson(At(o, KMeta))
\* an optional array of objects, each read by F
ObjectsAt(o, key, F(_)) ==
  IF ~Has(o, key) THEN OK(<<>>)
  ELSE IF At(o, key).j # "arr" THEN Bad
  ELSE Each(LAMBDA x : IF x.j = "obj" THEN F(x) ELSE Bad, Items(At(o, key)))

RefOfJson(o) ==
  LET n == StrAt(o, KName)
      u == StrAt(o, KUri)
      m == MetaAt(o)
      s == NumAt(o, KSize)
      z == IF s.ok THEN WholeOf64(s.v) ELSE [ok |-> FALSE, v |-> WZero]
  IN  IF n.ok /\ u.ok /\ m.ok /\ z.ok /\ (~Neg64(s.v) \/ IsZero64(s.v))
      THEN OK([nm |-> n.v, uri |-> u.v, sz |-> z.v, md |-> m.v]) ELSE Bad

PointOfJson(c) ==
  LET t == NumAt(c, KTime)
      d == At(c, KData)
      x == NumAt(d, KX)
      y == NumAt(d, KY)
      z == NumAt(d, KZ)
  IN  IF t.ok /\ x.ok /\ y.ok /\ z.ok THEN OK([t |-> t.v, v |-> <<x.v, y.v, z.v>>, n |-> "", md |-> <<>>]) ELSE Bad
EventOfJson(c) ==
  LET t == NumAt(c, KTime)
      d == At(c, KData)
      n == StrAt(d, KName)
      m == MetaAt(d)
  IN  IF t.ok /\ n.ok /\ m.ok THEN OK([t |-> t.v, v |-> <<>>, n |-> n.v, md |-> m.v]) ELSE Bad
ChoiceOfJson(c) ==
  LET t == NumAt(c, KTime)
      d == StrAt(c, KData)
  IN  IF t.ok /\ d.ok THEN OK([t |-> t.v, s |-> d.v]) ELSE Bad
KindOfType == (X("recolude.position") :> "position") @@ (X("recolude.euler") :> "euler") @@
              (X("recolude.event") :> "event") @@ (X("recolude.enum") :> "enum")
ColOfJson(o) ==
  LET n == StrAt(o, KName)
      ty == StrAt(o, KType)
      cs == At(o, KCaps)
  IN  IF ~n.ok \/ ~ty.ok \/ cs.j # "arr" THEN Bad
      ELSE IF ty.v \notin DOMAIN KindOfType THEN Bad
      ELSE LET k == KindOfType[ty.v]
               caps == CASE k \in {"position", "euler"} -> Each(PointOfJson, Items(cs))
                         [] k = "event" -> Each(EventOfJson, Items(cs))
                         [] OTHER -> Each(ChoiceOfJson, Items(cs))
           IN  IF ~caps.ok THEN Bad
               ELSE IF k # "enum" THEN OK([k |-> k, nm |-> n.v, mem |-> <<>>, caps |-> caps.v])
               ELSE LET mem == Distinct([i \in DOMAIN caps.v |-> caps.v[i].s]) IN
                    OK([k |-> k, nm |-> n.v, mem |-> mem,
                        caps |-> [i \in DOMAIN caps.v |->
                                    [t |-> caps.v[i].t, v |-> <<WOfInt(IndexIn(mem, caps.v[i].s))>>, n |-> "", md |-> <<>>]]])
RECURSIVE RecOfTree(_)
RecOfTree(o) ==
  LET i == StrAt(o, KId)
      n == StrAt(o, KName)
      m == MetaAt(o)
      rs == ObjectsAt(o, KRefs, RefOfJson)
      cs == ObjectsAt(o, KCols, ColOfJson)
      ks == ObjectsAt(o, KRecs, RecOfTree)
  IN  IF o.j = "obj" /\ i.ok /\ n.ok /\ m.ok /\ rs.ok /\ cs.ok /\ ks.ok
      THEN OK([id |-> i.v, nm |-> n.v, md |-> m.v, cols |-> cs.v, refs |-> rs.v, bins |-> <<>>, kids |-> ks.v])
      ELSE Bad
RecOfJson(doc) == RecOfTree(Clean(doc))

(* ------------------------------------------------------- JSON out of metadata *)
Finite64(w) == Exp64(w) # 2047
\* the years 0 to 9999 in microseconds
FirstMicro == <<65315, 9022, 22249, 0>>
PastMicro == <<900, 17420, 52339, 24576>>
WritableTime(us) == ~WSLess(us, FirstMicro) /\ WSLess(us, PastMicro)
WordsAt(hex, i) == Words64(FromHex(hex), 8 * i + 1)

RECURSIVE JsonOfProp(_)
RECURSIVE JsonOfBlock(_)
JsonOfBlock(m) ==
  LET r == Each(LAMBDA kv : LET p == JsonOfProp(kv[2]) IN IF p.ok THEN OK(<<FixText(kv[1]), p.v>>) ELSE Bad, m)
  IN  IF r.ok THEN OK(JObj(r.v)) ELSE Bad
NumOrBad(ws, mk(_)) == IF \A i \in DOMAIN ws : Finite64(ws[i]) THEN OK(mk(ws)) ELSE Bad
JsonOfProp(p) ==
  CASE p.c = CStr -> OK(JStr(FixText(p.s)))
    [] p.c = CInt -> OK(JNum(F64OfInt32(p.s)))
    [] p.c = CF32 -> LET w == ToF64(Words32(FromHex(p.s), 1)) IN IF Finite64(w) THEN OK(JSingle(w)) ELSE Bad
    [] p.c = CTrue -> OK(JBool(TRUE))
    [] p.c = CFalse -> OK(JBool(FALSE))
    [] p.c \in {CByte, CBytes} -> OK(JStr(HexX \o X(p.s)))
    [] p.c = CVec2 -> LET x == WordsAt(p.s, 0)
                          y == WordsAt(p.s, 1)
                      IN IF Finite64(x) /\ Finite64(y) THEN OK(JObj(<<<<KX, JNum(x)>>, <<KY, JNum(y)>>>>)) ELSE Bad
    [] p.c = CVec3 -> LET x == WordsAt(p.s, 0)
                          y == WordsAt(p.s, 1)
                          z == WordsAt(p.s, 2)
                      IN IF Finite64(x) /\ Finite64(y) /\ Finite64(z)
                         THEN OK(JObj(<<<<KX, JNum(x)>>, <<KY, JNum(y)>>, <<KZ, JNum(z)>>>>)) ELSE Bad
    [] p.c = CTime -> LET us == WordsAt(p.s, 0) IN IF WritableTime(us) THEN OK(JTime("", us)) ELSE Bad
    [] p.c = CBools -> OK(JArr([i \in 1..(Len(p.s) \div 2) |-> JBool(SubSeq(p.s, 2 * i, 2 * i) = "1")]))
    [] p.c = CBlock -> JsonOfBlock(p.k)
    [] OTHER -> LET r == Each(LAMBDA kv : JsonOfProp(kv[2]), p.k) IN IF r.ok THEN OK(JArr(r.v)) ELSE Bad

\* keys that become one key in JSON
RECURSIVE ClashProp(_)
Clashing(m) ==
  \/ Cardinality({FixText(m[i][1]) : i \in DOMAIN m}) # Len(m)
  \/ \E i \in DOMAIN m : ClashProp(m[i][2])
ClashProp(p) == IF p.c = CBlock THEN Clashing(p.k) ELSE \E i \in DOMAIN p.k : ClashProp(p.k[i][2])

\* want (with single precision and times) and what was read from the real document
\* (a whole single precision number is read back as an integer, so its text has
\* to say exactly that one; of any other its text only has to be the nearest)
RECURSIVE SameJson(_, _)
SameObj(a, b) == /\ Len(a) = Len(b)
                 /\ \A i \in DOMAIN a : IF a[i][1] = b[i][1] THEN SameJson(a[i][2], b[i][2])
                                          ELSE \E j \in DOMAIN b : a[i][1] = b[j][1] /\ SameJson(a[i][2], b[j][2])
SameJson(want, got) ==
  /\ want.j = got.j
  /\ CASE want.j = "num" -> IF want.t THEN IF Int32Of64(want.w).ok /\ ~IsZero64(want.w) THEN got.w = want.w ELSE Round32(got.w) = want.w ELSE got.w = want.w
       [] want.j = "str" -> IF want.s = "" /\ want.t THEN got.t /\ got.w = want.w ELSE got.s = want.s
       [] want.j = "obj" -> SameObj(want.k, got.k)
       [] want.j = "arr" -> Len(want.k) = Len(got.k) /\ \A i \in DOMAIN want.k : SameJson(want.k[i][2], got.k[i][2])
       [] OTHER -> TRUE

(* ------------------------------------------------------ a recording's export *)
\* (times are printed with six decimals)
NearTime(t, got) ==
  IF Exp64(t) < 1023 + 13 THEN AbsOf(Floor17(t) - Floor17(got)) <= 1 /\ (Neg64(t) = Neg64(got) \/ Floor17(t) = 0)
  ELSE IF Exp64(t) >= 1023 + 52 THEN FEq(t, got)
  ELSE AbsOf(t[1] - got[1]) <= 1
ExactSix(t) == LET s == ScaledOf64(t) IN s # OffGrid /\ s % 2048 = 0     \* a multiple of 1/64
TimeOK(t, got) == IsNum(got) /\ (IF ExactSix(t) THEN FEq(t, got.w) ELSE NearTime(t, got.w))
Exportable(m) == JsonOfBlock(m).ok
RECURSIVE RecExportable(_)
RecExportable(r) ==
  /\ Exportable(r.md)
  /\ \A i \in DOMAIN r.cols : r.cols[i].k = "event" =>
       \A j \in DOMAIN r.cols[i].caps : Finite64(r.cols[i].caps[j].t) /\ Exportable(r.cols[i].caps[j].md)
  /\ \A i \in DOMAIN r.kids : RecExportable(r.kids[i])
MetaShown(m, got) == IF Clashing(m) THEN got.j = "obj" ELSE SameJson(JsonOfBlock(m).v, got)
TextIs(got, s) == IsStr(got) /\ got.s = FixText(s)
CapShown(c, got) ==
  /\ got.j = "obj"
  /\ TimeOK(c.t, At(got, KTime)) /\ TextIs(At(got, KName), c.n) /\ MetaShown(c.md, At(got, KData))
ColShown(c, got) ==
  /\ got.j = "obj"
  /\ TextIs(At(got, KName), c.nm)
  /\ TextIs(At(got, KSig), X("recolude." \o c.k))
  /\ IsNum(At(got, KCount)) /\ FEq(At(got, KCount).w, F64OfInt(Len(c.caps)))
  /\ c.k = "event" =>
       LET cs == Items(At(got, KCaps)) IN
       /\ At(got, KCaps).j = "arr" /\ Len(cs) = Len(c.caps)
       /\ \A i \in DOMAIN cs : CapShown(c.caps[i], cs[i])
RECURSIVE RecShown(_, _)
RecShown(r, got) ==
  /\ got.j = "obj"
  /\ TextIs(At(got, KId), r.id) /\ TextIs(At(got, KName), r.nm)
  /\ MetaShown(r.md, At(got, KMeta))
  /\ At(got, KCols).j = "arr" /\ At(got, KRecs).j = "arr"
  /\ LET cs == Items(At(got, KCols))
         ks == Items(At(got, KRecs))
     IN  /\ Len(cs) = Len(r.cols) /\ \A i \in DOMAIN cs : ColShown(r.cols[i], cs[i])
         /\ Len(ks) = Len(r.kids) /\ \A i \in DOMAIN ks : RecShown(r.kids[i], ks[i])
=============================================================================
