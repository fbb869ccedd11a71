------------------------------- MODULE RapV1Gen -------------------------------
(* Version 1 files, drawn at random: fields in any order, absent, repeated   *)
(* or unknown, every kind of content, and files with a wrong count or size.  *)
EXTENDS RapNumerals, RapBulk, RapV1, Json, IOUtils
LOCAL INSTANCE SequencesExt

Fam == IOEnv.FAM
VARIABLES todo
vars == <<todo>>

\* texts: plain, and ones that read as numbers or nearly so
Words_ == << "", "61", "6162", "4b6579", "c3a9", "2275", "00", "7a20" >>
Numbers == << "30", "31", "2d31", "312e35", "302e31", "2e35", "352e", "2b37", "3132333435", "302e333333", "2d302e303132", "2d30",
              "31363737373231", "392e39393939", "3031", "2020", "2d", "2e", "31206d", "312c35", "3a31", "74727565" >>
RandT(z_) == IF Chance(1, 8) THEN Rep("7a", Pick({127, 128, 200})) ELSE Words_[Pick(DOMAIN Words_)]
RandV(z_) == IF Chance(1, 4) THEN Numbers[Pick(DOMAIN Numbers)] ELSE IF Chance(2, 3) THEN ToHex(Numeral_(0)) ELSE RandT(0)
RandF32(z_) ==
  CASE Chance(1, 3) -> F32OfInt(Pick(-50..50))
    [] Chance(1, 3) -> Canon32(<<Pick(0..65535), Pick(0..65535)>>)
    [] Chance(1, 2) -> Pick({<<0, 0>>, <<32768, 0>>, <<32640, 0>>, <<65408, 0>>, NaN32, <<0, 1>>, <<32639, 65535>>, <<16256, 1>>})
    [] OTHER -> <<16000 + Pick(0..700), Pick(0..65535)>>
\* a scalar of value zero may be left out
MaybeF(num, w) == IF w = <<0, 0>> /\ Chance(2, 3) THEN <<>> ELSE EncF(num, w)
MaybeT(num, h) == IF h = "" /\ Chance(2, 3) THEN <<>> ELSE EncT(num, h)
MaybeV(num, w) == IF w = WZero /\ Chance(2, 3) THEN <<>> ELSE EncV(num, w)
\* fields no one knows
Unknown(z_) == CASE Chance(1, 4) -> EncV(Pick({15, 16, 200}), <<0, 0, 1, 7>>)
                 [] Chance(1, 3) -> EncLen(Pick({9, 33}), Draws(Pick(0..4), LAMBDA i : Pick(0..255)))
                 [] Chance(1, 2) -> EncTag(Pick({12, 300}), 1) \o Draws(8, LAMBDA i : Pick(0..255))
                 [] OTHER -> EncF(Pick({11, 19}), <<1, 2>>)
Extra(z_) == IF Chance(1, 12) THEN << Unknown(0) >> ELSE <<>>
Mixed(parts) == Cat(IF Chance(1, 3) THEN Shuffle(parts) ELSE parts)

RandMap(num) == LET n == Pick({0, 0, 1, 2, 3}) IN
  Draws(n, LAMBDA i : EncLen(num, Mixed(<<MaybeT(1, RandT(0)), MaybeT(2, RandV(0))>> \o Extra(0))))
RandEvent(z_) == EncLen(4, Mixed(<<MaybeF(1, RandF32(0)), MaybeT(2, RandT(0)), MaybeT(3, RandV(0))>> \o RandMap(4) \o Extra(0)))
RandLife(z_) == EncLen(5, Mixed(<<MaybeF(1, RandF32(0)), MaybeV(2, Pick({WZero, WOfInt(1), WOfInt(2), WOfInt(3), WOfInt(4), WOfSigned(-1), WOfInt(300)}))>>))
RandVector(num) == EncLen(num, Mixed(<<MaybeF(1, RandF32(0)), MaybeF(2, RandF32(0)), MaybeF(3, RandF32(0)), MaybeF(4, RandF32(0))>>
                                     \o (IF Chance(1, 15) THEN <<EncF(Pick(1..4), RandF32(0))>> ELSE <<>>)))
RandId(z_) == Pick({WZero, WOfInt(1), WOfInt(7), WOfInt(127), WOfInt(128), WOfSigned(-1), WOfSigned(-12345), <<0, 0, 32767, 65535>>,
                    <<65535, 65535, 32768, 0>>, <<0, 1, 0, 9>>})
RandSubject(z_) ==
  EncLen(3, Mixed(<<MaybeV(1, RandId(0)), MaybeT(2, RandT(0))>> \o RandMap(3)
                  \o Draws(Pick(0..2), LAMBDA i : RandEvent(0))
                  \o Draws(Pick(0..2), LAMBDA i : RandLife(0))
                  \o Draws(Pick(0..3), LAMBDA i : RandVector(6))
                  \o Draws(Pick(0..3), LAMBDA i : RandVector(7)) \o Extra(0)))
RandMessage(z_) ==
  Mixed(<<MaybeT(1, RandT(0))>> \o RandMap(2) \o Draws(Pick({0, 1, 2, 3}), LAMBDA i : RandSubject(0))
        \o Draws(Pick(0..2), LAMBDA i : RandEvent(0)) \o Extra(0))

\* messages with many of something
VecAt(num, i) == EncLen(num, EncF(1, F32OfInt(i)) \o EncF(2, F32OfInt(0 - i)) \o (IF i % 9 = 0 THEN <<>> ELSE EncF(3, F32OfInt(i % 100))) \o EncF(4, F32OfInt(7)))
EventAt(i) == EncLen(4, EncF(1, F32OfInt(i)) \o EncT(2, NameAt(i)) \o EncT(3, IF i % 4 = 0 THEN "" ELSE NameAt(i * 3))
                        \o (IF i % 5 = 0 THEN EncLen(4, EncT(1, HexOf[97 + (i % 9)]) \o EncT(2, "3132")) ELSE <<>>))
LifeAt(i) == EncLen(5, EncF(1, F32OfInt(i)) \o EncV(2, WOfInt(i % 5)))
MdAt(num, i) == EncLen(num, EncT(1, NameAt(i)) \o EncT(2, IF i % 2 = 0 THEN "3132" ELSE NameAt(i)))
SubjectAt(i, body) == EncLen(3, EncV(1, WOfInt(i)) \o EncT(2, NameAt(i)) \o body)
MessageOf(dim, n, times) ==
  LET items(F(_)) == Cat([i \in 1..n |-> F(i)]) IN
  EncT(1, "6e") \o
  CASE dim = 1 -> SubjectAt(1, items(LAMBDA i : VecAt(6, i))) \o SubjectAt(2, VecAt(6, 3))
    [] dim = 2 -> SubjectAt(1, items(LAMBDA i : VecAt(7, i)) \o VecAt(6, 3))
    [] dim = 3 -> SubjectAt(300, items(EventAt)) \o EventAt(8)
    [] dim = 4 -> SubjectAt(70000, items(LifeAt))
    [] dim = 5 -> items(EventAt)
    [] dim = 6 -> items(LAMBDA i : MdAt(2, i))
    [] dim = 7 -> SubjectAt(1, items(LAMBDA i : MdAt(3, i))) \o EncT(1, "6e6e")
    [] dim = 8 -> items(LAMBDA i : SubjectAt(i, IF i % 20 = 0 THEN VecAt(6, i) ELSE <<>>))
    [] OTHER -> LET t == Text_(n * times) IN
         EncT(1, t) \o EncLen(2, EncT(1, t) \o EncT(2, t)) \o EncLen(4, EncT(2, t) \o EncT(3, t))
         \o EncLen(3, EncT(2, t) \o EncLen(3, EncT(1, t) \o EncT(2, "35")))
BulkMessage(z_) ==
  MessageOf(Pick(1..9), LET k == Draws(1, LAMBDA z : Size(0))[1] IN IF k > 2100 THEN Pick(127..2100) ELSE k, Pick({1, 7}))
Op(name) == [op |-> name, keep |-> -1, req |-> -1]
V1(msg, num, delta, junk, f) == Op("raw1") @@ [f |-> f, body |-> msg, num |-> num, delta |-> delta, junk |-> junk, reg |-> Shuffle(AllKinds)]
on(name) == Op(name) @@ [f |-> "f1", reg |-> <<"load">>, step |-> 1, at |-> 0, del |-> [sizes |-> <<1>>, eofdata |-> TRUE, failat |-> -1, faildata |-> FALSE]]
Cli(what) == Op("cli") @@ [what |-> what, f |-> "f1", at |-> (IF Chance(1, 4) THEN Pick(0..999) ELSE -1),
                            modename |-> IF what = "to-json" THEN Pick({"file", "stdin"}) ELSE "file"]
Deliveries == << [sizes |-> <<1>>, eofdata |-> FALSE, failat |-> -1, faildata |-> FALSE],
                 [sizes |-> <<0, 3>>, eofdata |-> TRUE, failat |-> -1, faildata |-> FALSE],
                 [sizes |-> <<4, 8, 2>>, eofdata |-> FALSE, failat |-> -1, faildata |-> FALSE],
                 [sizes |-> <<>>, eofdata |-> TRUE, failat |-> -1, faildata |-> FALSE] >>
Scenario(z_) ==
  LET msg == IF Fam = "v1bulk" THEN BulkMessage(0) ELSE RandMessage(0)
      good == V1(msg, <<1, 0, 0, 0>>, 0, 0, "f1")
  IN  CASE Fam = "v1" ->
             (IF Chance(1, 6)
              THEN << V1(msg, Pick({<<0, 0, 0, 0>>, <<2, 0, 0, 0>>, <<1, 1, 0, 0>>, <<0, 0, 0, 1>>, <<1, 0, 0, 128>>, <<255, 255, 255, 255>>}), 0, 0, "") >>
              ELSE IF Chance(1, 8) THEN << V1(msg, <<1, 0, 0, 0>>, Pick({-4, -3, 1, 2, 100, 1000000}), 0, "") >>
              ELSE << V1(msg, <<1, 0, 0, 0>>, 0, Pick({0, 0, 5}), "f1"), on("rewrite") @@ [cfg |-> RandCfg(Techs, {0, 1}), prop |-> "C16"] >>)
        [] Fam = "v1bulk" -> << good, on("rewrite") @@ [cfg |-> RandCfg(Techs, {0, 1}), prop |-> "C16"] >>
        [] Fam = "v1cli" ->
             << good >> \o Shuffle(<< Cli("upgrade"), Cli("summarize"), Cli("to-json") >>)
                \o << on("rewrite") @@ [cfg |-> RandCfg(Techs, {0, 1, 2}), prop |-> "C16"] >>
        [] Fam = "v1cuts" -> << good, on("cuts") >>
        [] Fam = "v1dels" -> << good, on("dels") @@ [dels |-> Deliveries] >>
        [] Fam = "v1srcfails" -> << good, on("srcfails") >>
        [] OTHER -> << good, on("muts1") @@ [n |-> 40, seed |-> Pick(1..1000000)] >>
Emit ==
  /\ todo > 0
  /\ \E s \in {Scenario(todo)} : PrintT("@@S " \o ToJson([id |-> Fam, ops |-> s]))
  /\ todo' = todo - 1
Init == todo = 1
Next == Emit
Spec == Init /\ [][Next]_vars
===============================================================================
