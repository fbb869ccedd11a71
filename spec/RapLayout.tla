------------------------------- MODULE RapLayout ------------------------------
(* Version 2 files nobody's writer produced: any permitted layout of a       *)
(* recording, and files with a defect.  What such a file means, if anything, *)
(* is for RapWire!ParseFile to say; this module only draws them.             *)
EXTENDS RapRandom, Json, IOUtils
LOCAL INSTANCE SequencesExt

Fam == IOEnv.FAM
VARIABLES todo
vars == <<todo>>

(* ----------------------------------------------------------- lossy payloads *)
F32(n) == LE32(F32OfInt(n))
RandBytes(n) == Draws(n, LAMBDA i : Pick(0..255))
RandPayload(k, ct, n) ==
  CASE k = "position" ->
         IF n = 0 THEN <<>>
         ELSE IF n = 1 THEN F32(Pick(-99..99)) \o F32(Pick(-99..99)) \o LE32(<<16384, 1>>)
         ELSE LET lo == Draws(3, LAMBDA i : Pick(-60..60))
                  wd == Draws(3, LAMBDA i : Pick({0, 1, 2, 77, 256}))
                  st == Draws(3, LAMBDA i : Pick(-200..200))
              IN  Cat(Draws(3, LAMBDA i : F32(lo[i]))) \o Cat(Draws(3, LAMBDA i : F32(lo[i] + wd[i]))) \o
                  Cat(Draws(3, LAMBDA i : F32(st[i]))) \o RandBytes((n - 1) * (IF ct = 2 THEN 6 ELSE 3))
    [] k = "euler" ->
         IF n = 1 THEN F32(Pick(0..359)) \o F32(Pick(0..359)) \o LE32(<<17332, 0>>) ELSE RandBytes(6 * n)
    [] k = "float" ->
         LET lo == Pick(-60..60) IN F32(lo) \o F32(lo + Pick({0, 1, 5, 300})) \o RandBytes(2 * n)
    [] OTHER -> <<>>
RandTimes16(n) ==
  <<2>> \o UVar(n) \o
  (IF n = 0 THEN <<>> ELSE IF n = 1 THEN F32(Pick(-9..99))
   ELSE F32(Pick({0, 3, -7, 100})) \o F32(Pick({0, 1, 2, 60})) \o RandBytes(2 * (n - 1)))

(* ------------------------------------------------------------------- layouts *)
\* the entries a table needs, in any order, some unused, some twice
RandSigs(r) ==
  LET need == SetToSeq({SigOf[k] : k \in UsedKinds(r)})
      more == Draws(Pick({0, 0, 1, 2}), LAMBDA i : SigOf[Pick(Kinds)])
  IN  Shuffle(need \o more)
Padded(entries, p) == Shuffle(entries \o Draws(Pick({0, 0, 1, 3}), LAMBDA i : RandName(p)))
RandDict(r, sig, p) ==
  IF sig = SigEvent THEN [names |-> Padded(EventNames(r), p), keys |-> Padded(EventKeys(r), p), extra |-> <<>>, trim |-> 0]
  ELSE IF sig = SigEnum THEN [names |-> Padded(EnumMembers(r), p), keys |-> <<>>, extra |-> <<>>, trim |-> 0]
  ELSE [names |-> <<>>, keys |-> <<>>, extra |-> <<>>, trim |-> 0]
Techs_(k) == CASE k = "position" -> 0..3 [] k \in {"euler", "float"} -> 0..2 [] OTHER -> {0}
LaidCol(sigs, c) ==
  LET ct == Pick(Techs_(c.k))
      tt == Pick(0..2)
      n == Len(c.caps)
      spots == {i \in DOMAIN sigs : sigs[i] = SigOf[c.k]}
  IN  [k |-> c.k, nm |-> c.nm, mem |-> c.mem, caps |-> c.caps, tt |-> tt, ct |-> ct,
       raw |-> IF ct > 1 THEN RandPayload(c.k, ct, n) ELSE <<>>,
       traw |-> IF tt = 2 THEN RandTimes16(n) ELSE <<>>,
       e |-> Pick(spots), trim |-> 0]
RECURSIVE LaidRec(_, _)
LaidRec(sigs, r) ==
  [r EXCEPT !.cols = Draws(Len(r.cols), LAMBDA i : LaidCol(sigs, r.cols[i])),
            !.kids = Draws(Len(r.kids), LAMBDA i : LaidRec(sigs, r.kids[i]))]
RandLayout(r, p) ==
  LET sigs == RandSigs(r)
  IN  [sigs |-> sigs, vers |-> [i \in DOMAIN sigs |-> WZero], flag |-> Pick({0, 1}), version |-> 2,
       dicts |-> Draws(Len(sigs), LAMBDA i : RandDict(r, sigs[i], p)),
       keys |-> Padded(MetaKeys(r), p),
       rec |-> LaidRec(sigs, r), cutbody |-> 0, tag |-> "layout"]
HeadOf(f) == [EncHead(f.sigs, f.vers, f.flag) EXCEPT ![1] = f.version]
BodyOf(f) == Trim(EncBody(f.sigs, f.dicts, f.keys, f.rec), f.cutbody)

(* ------------------------------------------------------------------- defects *)
\* change some collection of the tree
RECURSIVE ColPaths(_)
ColPaths(r) == {<<i>> : i \in DOMAIN r.cols} \union
               UNION {{<<0, i>> \o q : q \in ColPaths(r.kids[i])} : i \in DOMAIN r.kids}
ColDefect(c) ==
  CASE Chance(1, 5) -> [c EXCEPT !.ct = Pick({3, 4, 5, 7, 128, 255}), !.raw = RandBytes(40)]
    [] Chance(1, 4) -> [c EXCEPT !.tt = 2, !.traw = <<Pick({3, 4, 9, 255})>> \o Tail(RandTimes16(Len(c.caps)))]
    [] Chance(1, 3) -> [c EXCEPT !.trim = IF c.k \in {"enum", "event"} THEN Pick(0..1) ELSE Pick({1, 1, 1, -1, -2})]
    [] Chance(1, 2) -> [c EXCEPT !.tt = 2, !.traw = RandTimes16(Len(c.caps) + Pick({1, 1, 2, -1, 300}))]
    [] OTHER -> [c EXCEPT !.tt = 2, !.traw = <<Pick(0..2)>> \o UVarW(Pick({<<0, 0, 1, 0>>, <<0, 1, 0, 0>>, <<32768, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>}))]
RECURSIVE SetCol(_, _)
SetCol(r, path) ==
  IF Len(path) = 1 THEN [r EXCEPT !.cols[path[1]] = ColDefect(@)]
  ELSE [r EXCEPT !.kids[path[2]] = SetCol(@, SubSeq(path, 3, Len(path)))]
CodeDefect(r) == [r EXCEPT !.md = @ \o << <<"bad0", [c |-> Pick({8, 9, 10, 17, 21, 22, 23, 26, 27, 99, 255}), s |-> RandHex(3), k |-> <<>>]>> >>]
Defect(f) ==
  LET what == Pick(1..12)
      cols == ColPaths(f.rec)
  IN  CASE what \in {1, 2, 3, 4} /\ cols # {} ->
             LET q == Pick(cols) IN [f EXCEPT !.rec = SetCol(@, q), !.tag = "collection defect"]
        [] what = 5 -> [f EXCEPT !.version = Pick({0, 3, 4, 255}), !.tag = "version"]
        [] what = 6 /\ f.sigs # <<>> -> [f EXCEPT !.sigs[Pick(DOMAIN f.sigs)] = Pick({"", "7265636f6c7564652e", SigEuler \o "73", "ff"}), !.tag = "signature"]
        [] what = 7 /\ f.sigs # <<>> -> [f EXCEPT !.vers[Pick(DOMAIN f.sigs)] = Pick({WOfInt(1), WOfInt(2), WOfInt(127), WOfInt(128), WOfInt(300), WOfInt(65536), <<0, 0, 65535, 0>>, <<0, 1, 0, 0>>, <<32768, 0, 0, 0>>, <<65535, 65535, 65535, 65535>>}), !.tag = "encoder version"]
        [] what = 8 -> [f EXCEPT !.cutbody = Pick({1, 2, 3, 9}), !.tag = "body cut"]
        [] what = 9 /\ f.sigs # <<>> -> [f EXCEPT !.dicts[Pick(DOMAIN f.sigs)].trim = 0 - Pick({1, 2}), !.tag = "header longer"]
        [] what = 10 /\ MetaKeys(f.rec) # <<>> -> [f EXCEPT !.keys = SubSeq(@, 1, Len(@) - 1), !.tag = "key missing"]
        [] what = 11 /\ f.sigs # <<>> ->
             LET i == Pick(DOMAIN f.sigs) IN
             [f EXCEPT !.dicts[i].names = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, Len(@) - 1), !.tag = "dictionary entry missing"]
        [] OTHER -> [f EXCEPT !.flag = Pick({2, 3, 128, 255}), !.tag = "flag"]
Scenario(z_) ==
  LET p == [Profile EXCEPT !.maxcols = Pick({1, 2, 3, 5}), !.depth = Pick(0..2), !.names = Pick({"few", "any"}),
                           !.meta = Pick({-1, 0, 1, 2}), !.vals = Pick({"any", "edge"}), !.times = Pick({"any", "edge"})]
      r == RandRec(p, p.depth)
      unknown == Fam = "defect" /\ Chance(1, 8)
      f0 == RandLayout(IF unknown THEN CodeDefect(r) ELSE r, p)
      f == IF unknown THEN [f0 EXCEPT !.tag = "property code"] ELSE IF Fam = "defect" THEN Defect(f0) ELSE f0
  IN  [f |-> f, r |-> r]
RawOp(f, reg, junk, handle) ==
  [op |-> "raw", f |-> handle, head |-> HeadOf(f), body |-> BodyOf(f), reg |-> reg, junk |-> junk, tag |-> f.tag, keep |-> -1, req |-> -1]
Cli(what) == [op |-> "cli", keep |-> -1, req |-> -1, what |-> what, f |-> "f1", at |-> -1,
              modename |-> IF what = "to-json" THEN Pick({"file", "stdin"}) ELSE "file"]

Emit ==
  /\ todo > 0
  /\ \E s \in {Scenario(todo)} :
       PrintT("@@S " \o ToJson([id |-> Fam, ops |->
          IF Fam = "defect" THEN <<RawOp(s.f, Shuffle(AllKinds), 0, "")>>
          ELSE IF Fam = "layoutcli"
          THEN <<RawOp(s.f, Shuffle(AllKinds), Pick({0, 0, 3}), "f1")>> \o
               Shuffle(<< Cli("upgrade"), Cli("summarize"), Cli("to-json") >>)
          ELSE <<RawOp(s.f, Shuffle(AllKinds), Pick({0, 0, 3}), "f1")>>]))
  /\ todo' = todo - 1
Init == todo = 1
Next == Emit
Spec == Init /\ [][Next]_vars
===============================================================================
