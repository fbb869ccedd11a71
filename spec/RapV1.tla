-------------------------------- MODULE RapV1 --------------------------------
(* Version 1 files: a count (32 bits, must be one), the size of what follows *)
(* (64 bits), and a deflated Protocol Buffers message; what such a message   *)
(* means as a recording, and how messages are laid out.                      *)
(*                                                                           *)
(*   Recording         1 name  2 metadata(map)  3 subjects*  4 events*       *)
(*   SubjectRecording  1 id(int32)  2 name  3 metadata(map)  4 events*       *)
(*                     5 life cycle*  6 positions*  7 rotations*             *)
(*   CustomEvent       1 time(float)  2 name  3 contents  4 data(map)        *)
(*   LifeCycleEvent    1 time(float)  2 type(enum)                           *)
(*   Vector            1 time  2 x  3 y  4 z (floats)                        *)
(*   map entry         1 key  2 value                                        *)
(* Absent scalar fields are zero, repeated ones: the last wins.              *)
(* A parse is [ok, p, v, why]; vague: it depends on the reader (invalid      *)
(* UTF-8, known fields of another wire type, groups).                        *)
EXTENDS RapWire, RapDecimal
LOCAL INSTANCE SequencesExt

(* -------------------------------------------------------------- wire format *)
\* a field: number, wire type, its number as words, its bytes
OneField(b, p) ==
  LET tag == UVarWords(b, p)
      wt == tag.v[4] % 8
      \* field numbers have 29 bits; the large ones are none of ours
      num == IF tag.v[1] # 0 \/ tag.v[2] # 0 THEN 0 ELSE IF tag.v[3] = 0 THEN tag.v[4] \div 8 ELSE 99999
      F(n, d) == [f |-> num, w |-> wt, n |-> n, d |-> d]
      none == F(WZero, <<>>)
  IN  IF ~tag.ok THEN Fail(p, tag.why, none)
      ELSE IF num = 0 THEN Fail(p, "bad", none)
      ELSE CASE wt = 0 -> LET n == UVarWords(b, tag.p) IN
                          IF n.ok THEN Good(n.p, F(n.v, <<>>)) ELSE Fail(n.p, n.why, none)
             [] wt = 1 -> LET d == TakeBytes(b, tag.p, 8) IN IF d.ok THEN Good(d.p, F(WZero, d.v)) ELSE Fail(p, "short", none)
             [] wt = 2 -> LET d == ByteArray(b, tag.p) IN IF d.ok THEN Good(d.p, F(WZero, d.v)) ELSE Fail(p, d.why, none)
             [] wt = 5 -> LET d == TakeBytes(b, tag.p, 4) IN IF d.ok THEN Good(d.p, F(WZero, d.v)) ELSE Fail(p, "short", none)
             [] wt \in {3, 4} -> Fail(p, "vague", none)
             [] OTHER -> Fail(p, "bad", none)
RECURSIVE FieldsFrom(_, _, _)
FieldsFrom(b, p, acc) ==
  IF p > Len(b) THEN Good(p, acc)
  ELSE LET f == OneField(b, p) IN
       IF ~f.ok THEN Fail(p, f.why, <<>>) ELSE FieldsFrom(b, f.p, Append(acc, f.v))
Fields(b) == FieldsFrom(b, 1, <<>>)

\* valid UTF-8 as far as one and two byte sequences go
RECURSIVE PlainText(_, _)
PlainText(d, i) ==
  IF i > Len(d) THEN TRUE
  ELSE IF d[i] < 128 THEN PlainText(d, i + 1)
  ELSE d[i] \in 194..223 /\ i < Len(d) /\ d[i + 1] \in 128..191 /\ PlainText(d, i + 2)

\* wire: field number -> the wire type it has
Of(fs, num) == SelectSeq(fs, LAMBDA x : x.f = num)
VagueFields(fs, wire) ==
  \E i \in DOMAIN fs : fs[i].f \in DOMAIN wire /\
     \/ fs[i].w # (IF wire[fs[i].f] = 9 THEN 2 ELSE wire[fs[i].f])
     \/ wire[fs[i].f] = 9 /\ ~PlainText(fs[i].d, 1)          \* 9: text
LastOf(fs, num, default(_), get(_)) ==
  LET s == Of(fs, num) IN IF s = <<>> THEN default(0) ELSE get(s[Len(s)])
TextAt(fs, num) == LastOf(fs, num, LAMBDA z : "", LAMBDA x : ToHex(x.d))
FloatAt(fs, num) == LastOf(fs, num, LAMBDA z : Zero64, LAMBDA x : ToF64(Canon32(Words32(x.d, 1))))
VarAt(fs, num) == LastOf(fs, num, LAMBDA z : WZero, LAMBDA x : x.n)

(* ------------------------------------------------------------------- numbers *)
\* what a text is as a number: <<"no">>, <<"yes", float32 words>> or <<"vague">>
\* (one too large for a float32 is none)
NumberOf(d) ==
  LET n == Numeral(d)
      v == Dec32(n.neg, n.ds, n.x)
  IN  CASE n.k = "num" -> IF v.over THEN <<"no">> ELSE <<"yes", v.w>>
        [] n.k = "inf" -> <<"yes", IF n.neg THEN <<65408, 0>> ELSE <<32640, 0>>>>
        [] n.k = "nan" -> <<"yes", NaN32>>
        [] OTHER -> <<n.k>>

(* --------------------------------------------------------------- decimal ids *)
Digits(n) == Digits10(n)
\* the low 32 bits of a varint as a signed number in decimal
IdText(w) ==
  IF w[3] = 32768 /\ w[4] = 0 THEN "2d32313437343833363438"
  ELSE LET n == IF w[3] >= 32768 THEN (w[3] - 65536) * 65536 + w[4] ELSE w[3] * 65536 + w[4]
       IN  IF n < 0 THEN ToHex(<<45>> \o Digits(0 - n)) ELSE ToHex(Digits(n))
\* sign extended from 32 to 64 bits
SignExtend(w) == IF w[3] >= 32768 THEN <<65535, 65535, w[3], w[4]>> ELSE <<0, 0, w[3], w[4]>>

(* ------------------------------------------------------------------- meaning *)
\* every part gives [ok, v, vague]
Sure(v) == [ok |-> TRUE, vague |-> FALSE, v |-> v]
Broken(why) == [ok |-> why = "vague", vague |-> why = "vague", v |-> <<>>]
Murky(x) == [ok |-> TRUE, vague |-> TRUE, v |-> x]
\* all the messages of field num
AllOf(fs, num, Part(_)) ==
  FoldLeft(LAMBDA a, x : LET r == Part(x.d) IN
             [ok |-> a.ok /\ r.ok, vague |-> a.vague \/ r.vague, v |-> Append(a.v, r.v)],
           Sure(<<>>), SelectSeq(fs, LAMBDA x : x.f = num /\ x.w = 2))

WireEntry == (1 :> 9) @@ (2 :> 9)
EntryPart(d) ==
  LET fs == Fields(d) IN
  IF ~fs.ok THEN Broken(fs.why)
  ELSE [Sure(<<TextAt(fs.v, 1), TextAt(fs.v, 2)>>) EXCEPT !.vague = VagueFields(fs.v, WireEntry)]
MapOf(fs, num) == LET r == AllOf(fs, num, EntryPart) IN
                  IF r.ok /\ ~r.vague THEN [r EXCEPT !.v = LastWins(@)] ELSE r

\* metadata: numbers become numbers
MetaValue(h) == LET n == NumberOf(FromHex(h)) IN
                IF n[1] = "yes" THEN Prop(CF32, ToHex(LE32(n[2])), <<>>) ELSE Prop(CStr, h, <<>>)
MetaOf(m) == [i \in DOMAIN m |-> <<m[i][1], MetaValue(m[i][2])>>]
VagueMeta(m) == \E i \in DOMAIN m : NumberOf(FromHex(m[i][2]))[1] = "vague"
\* event data stays text; events without keep their contents
DataOf(m, contents) == IF m = <<>> THEN << <<"76616c7565", Prop(CStr, contents, <<>>)>> >>
                       ELSE [i \in DOMAIN m |-> <<m[i][1], Prop(CStr, m[i][2], <<>>)>>]

WireEvent == (1 :> 5) @@ (2 :> 9) @@ (3 :> 9) @@ (4 :> 2)
EventPart(d) ==
  LET fs == Fields(d) IN
  IF ~fs.ok THEN Broken(fs.why)
  ELSE LET m == MapOf(fs.v, 4)
           vague == VagueFields(fs.v, WireEvent) \/ m.vague
       IN  IF ~m.ok THEN Broken("bad")
           ELSE IF vague THEN Murky(<<>>)
           ELSE Sure([t |-> FloatAt(fs.v, 1), v |-> <<>>, n |-> TextAt(fs.v, 2), md |-> DataOf(m.v, TextAt(fs.v, 3))])
WireLife == (1 :> 5) @@ (2 :> 0)
LifePart(d) ==
  LET fs == Fields(d) IN
  IF ~fs.ok THEN Broken(fs.why)
  ELSE IF VagueFields(fs.v, WireLife) THEN Murky(<<>>)
  ELSE Sure(Cap(FloatAt(fs.v, 1), <<SignExtend(VarAt(fs.v, 2))>>))
WireVector == (1 :> 5) @@ (2 :> 5) @@ (3 :> 5) @@ (4 :> 5)
VectorPart(d) ==
  LET fs == Fields(d) IN
  IF ~fs.ok THEN Broken(fs.why)
  ELSE IF VagueFields(fs.v, WireVector) THEN Murky(<<>>)
  ELSE Sure(Cap(FloatAt(fs.v, 1), <<FloatAt(fs.v, 2), FloatAt(fs.v, 3), FloatAt(fs.v, 4)>>))

LifeMembers == <<"5354415254", "454e41424c45", "44495341424c45", "44455354524f59">>
NmPosition == "506f736974696f6e"
NmRotation == "526f746174696f6e"
NmEvent == "437573746f6d204576656e74"
NmLife == "4c696665204379636c65"
WireSubject == (1 :> 0) @@ (2 :> 9) @@ (3 :> 2) @@ (4 :> 2) @@ (5 :> 2) @@ (6 :> 2) @@ (7 :> 2)
SubjectPart(d) ==
  LET fs == Fields(d) IN
  IF ~fs.ok THEN Broken(fs.why)
  ELSE LET m == MapOf(fs.v, 3)
           ev == AllOf(fs.v, 4, EventPart)
           lf == AllOf(fs.v, 5, LifePart)
           ps == AllOf(fs.v, 6, VectorPart)
           rs == AllOf(fs.v, 7, VectorPart)
       IN  IF ~(m.ok /\ ev.ok /\ lf.ok /\ ps.ok /\ rs.ok) THEN Broken("bad")
           ELSE IF VagueFields(fs.v, WireSubject) \/ m.vague \/ ev.vague \/ lf.vague \/ ps.vague \/ rs.vague \/ VagueMeta(m.v)
           THEN Murky(<<>>)
           ELSE Sure([id |-> IdText(VarAt(fs.v, 1)), nm |-> TextAt(fs.v, 2), md |-> MetaOf(m.v),
                      cols |-> << Col("position", NmPosition, <<>>, ps.v), Col("euler", NmRotation, <<>>, rs.v),
                                  Col("event", NmEvent, <<>>, ev.v), Col("enum", NmLife, LifeMembers, lf.v) >>,
                      refs |-> <<>>, bins |-> <<>>, kids |-> <<>>])
WireRecording == (1 :> 9) @@ (2 :> 2) @@ (3 :> 2) @@ (4 :> 2)
\* the message of a file: [ok, vague, v]; v is its recording
ParseV1(b) ==
  LET fs == Fields(b) IN
  IF ~fs.ok THEN Broken(fs.why)
  ELSE LET m == MapOf(fs.v, 2)
           su == AllOf(fs.v, 3, SubjectPart)
           ev == AllOf(fs.v, 4, EventPart)
       IN  IF ~(m.ok /\ su.ok /\ ev.ok) THEN Broken("bad")
           ELSE IF VagueFields(fs.v, WireRecording) \/ m.vague \/ su.vague \/ ev.vague \/ VagueMeta(m.v)
           THEN Murky(<<>>)
           ELSE Sure([id |-> TextAt(fs.v, 1), nm |-> TextAt(fs.v, 1), md |-> MetaOf(m.v),
                      cols |-> << Col("event", NmEvent, <<>>, ev.v) >>, refs |-> <<>>, bins |-> <<>>, kids |-> su.v])

(* -------------------------------------------------------------------- layout *)
EncTag(num, wt) == UVar(num * 8 + wt)
EncLen(num, bytes) == EncTag(num, 2) \o UVar(Len(bytes)) \o bytes
EncT(num, hex) == EncLen(num, FromHex(hex))
EncF(num, w32) == EncTag(num, 5) \o LE32(w32)
EncV(num, w) == EncTag(num, 0) \o UVarW(w)
EncEntry(num, kv) == EncLen(num, EncT(1, kv[1]) \o EncT(2, kv[2]))
================================================================================
