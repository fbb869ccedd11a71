------------------------------- MODULE RapConcur ------------------------------
(* Several operations on the same recordings and files, with the same        *)
(* encoder values: at the same time, or one after the other through the same *)
(* writer or source.                                                         *)
(*                                                                           *)
(* The specification of an operation next to others is the operation alone:  *)
(* its result is a function of what it was given, whatever the others do and *)
(* in whatever order all take their turns (a turn ends where an operation    *)
(* calls back into something it was given).  That function is RapTrace's.    *)
(*                                                                           *)
(* FAM "free", "techs": as the machine schedules them.  "turns": schedules drawn at   *)
(* random.  "switch": every schedule of two operations with at most SWITCHES *)
(* switches between them, each after one of the numbers of turns in Spans.   *)
(* "outlet": one after the other through the same writer, reader and values. *)
EXTENDS RapRandom, RapV1, Json, IOUtils
LOCAL INSTANCE SequencesExt

Fam == IOEnv.FAM
VARIABLES jobs,   \* "switch": the kinds of the two operations
          sched,  \* the schedule so far: <<operation, turns>>
          left    \* switches left
vars == <<jobs, sched, left>>

Op(name) == [op |-> name, keep |-> -1, req |-> -1]
Few(z_) == [Profile EXCEPT !.maxcols = Pick(1..3), !.depth = Pick({0, 0, 1}), !.maxcaps = Pick({2, 3}), !.names = Pick({"few", "few", "near"}),
              !.meta = Pick({-1, 0, 1}), !.times = Pick({"grid", "sorted", "any"}), !.vals = Pick({"few", "int"})]
\* a recording that has something for every encoder
Rich(z_) == LET p == Few(0)
                r == RandRec(p, p.depth)
                ks == Shuffle(AllKinds)
            IN  IF Chance(1, 3) THEN r
                ELSE [r EXCEPT !.cols = Draws(Pick(2..5), LAMBDA i : RandCol([p EXCEPT !.kinds = {ks[i]}]))]
Cfg1(z_) == IF Chance(1, 8) THEN DefCfg ELSE RandCfg(Techs, {0, 1, 2})
CfgFor(r, c) == IF c.def /\ "float" \in UsedKinds(r) THEN [c EXCEPT !.def = FALSE, !.encs = RandEncs(Techs)] ELSE c
\* the same list of encoders, now and then with another technique for the times
Like(c) == IF c.def THEN c ELSE [c EXCEPT !.tt = IF Chance(1, 2) THEN @ ELSE Pick({0, 1, 2}), !.comp = Chance(1, 2)]
Chunks(z_) == [sizes |-> Pick({<<>>, <<>>, <<1>>, <<3, 1>>}), eofdata |-> Chance(1, 2), failat |-> -1, faildata |-> FALSE, err |-> 0]
Bound(r) == LET ts == AllTimes(r) IN IF ts = <<>> \/ Chance(1, 4) THEN <<>> ELSE ts[Pick(DOMAIN ts)]
JobKinds == {"write", "load", "load1", "slice", "validate", "bounds", "export", "import"}
\* a version 1 file: a subject with positions, rotations, events and metadata
Message1(z_) ==
  LET vec(n, i) == EncLen(n, EncF(1, F32OfInt(i)) \o EncF(2, F32OfInt(i + 1)) \o EncF(3, F32OfInt(7)) \o EncF(4, F32OfInt(0 - i)))
      entry(n, k, v) == EncLen(n, EncT(1, k) \o EncT(2, v))
      ev(n, i) == EncLen(4, EncF(1, F32OfInt(i)) \o EncT(2, HexOf[n]) \o EncT(3, "61") \o entry(4, "6b", "3132"))
      subject(i) == EncLen(3, EncV(1, WOfInt(i)) \o EncT(2, HexOf[96 + i]) \o entry(3, "6b", "312e35") \o ev(100, i)
                              \o vec(6, i) \o vec(6, i + 1) \o vec(7, 2) \o EncLen(5, EncF(1, F32OfInt(3)) \o EncV(2, WOfInt(2))))
  IN  EncT(1, "6e") \o entry(2, "61", "31") \o Cat([i \in 1..Pick(1..3) |-> subject(i)]) \o ev(101, 4)

\* job number i of kind w: on recording number a, or file number a
Job(w, i, a, rs, cs, alt) ==
  CASE w = "write" -> [what |-> w, src |-> "r" \o ToString(a), f |-> "p" \o ToString(i),
                       cfg |-> IF alt THEN CfgFor(rs[a], Like(cs[a])) ELSE cs[a], bytes |-> Chance(1, 3), keep |-> -1, req |-> -1]
    [] w = "load" -> [what |-> w, f |-> "f" \o ToString(a), h |-> "", cfg |-> cs[a], del |-> Chunks(0), keep |-> -1, req |-> -1]
    [] w = "load1" -> [what |-> "load", f |-> "f3", h |-> "", cfg |-> DefCfg, del |-> Chunks(0), keep |-> -1, req |-> -1]
    [] w = "slice" -> [what |-> w, src |-> "r" \o ToString(a), h |-> "s" \o ToString(i), b |-> Bound(rs[a]), e |-> Bound(rs[a]),
                       keep |-> Pick({-1, 0, 1}), req |-> -1]
    [] w = "validate" -> [what |-> w, src |-> "r" \o ToString(a), keep |-> -1, req |-> Pick({-1, 0, 1})]
    [] OTHER -> [what |-> w, src |-> "r" \o ToString(a), keep |-> -1, req |-> -1]

\* every technique of every kind at work in each of several operations of one kind
Full(i, tt, comp) ==
  LET cap(k, j) == CASE k \in {"position", "euler"} -> Cap(F64OfInt(j), <<F64OfInt(j * j), F64OfInt(i - j), F64OfInt((j * i) % 7)>>)
                     [] k = "float" -> Cap(F64OfInt(j), <<F64OfInt(j * j + i)>>)
                     [] k = "enum" -> Cap(F64OfInt(j), <<WOfInt(j % 2)>>)
                     [] OTHER -> [t |-> F64OfInt(j), v |-> <<>>, n |-> HexOf[96 + j], md |-> << <<"6b", Prop(CStr, HexOf[i + j], <<>>)>> >>]
      cols == [k \in 1..5 |-> Col(AllKinds[k], HexOf[96 + i], IF AllKinds[k] = "enum" THEN <<"61", "62">> ELSE <<>>, [j \in 1..6 |-> cap(AllKinds[k], j)])]
      r == [id |-> HexOf[64 + i], nm |-> "6e", md |-> RandBlock(Few(0), 3), cols |-> Shuffle(cols), refs |-> <<>>,
            bins |-> << [nm |-> "62", data |-> "6465", sz |-> WOfInt(2), md |-> <<>>] >>, kids |-> <<>>]
  IN  [r EXCEPT !.kids = << [r EXCEPT !.bins = <<>>] >>]
TechCfg(n) == [encs |-> Shuffle(<<[k |-> "event", t |-> 0], [k |-> "enum", t |-> 0], [k |-> "position", t |-> n % 4],
                                  [k |-> "euler", t |-> n % 3], [k |-> "float", t |-> n % 3]>>), tt |-> (n \div 4) % 3, comp |-> n % 2 = 0, def |-> FALSE]
TechJobs == <<"write", "load", "slice", "validate", "bounds", "export", "import">>
AllAtOnce(n) ==
  LET rs == << Full(1, 0, FALSE), Full(2, 0, FALSE) >>
      cs == << TechCfg(n), TechCfg(n) >>
      ws == <<"write", "write", "load", "load", "load1", "load1">> \o (LET w == TechJobs[(n % 7) + 1] IN <<w, w>>)
      jobs_ == FoldLeft(LAMBDA a, i : Append(a, Job(ws[i], i, 1 + (i % 2), rs, cs, FALSE)), <<>>, [i \in DOMAIN ws |-> i])
      setup(i) == << Op("build") @@ [h |-> "r" \o ToString(i), rec |-> rs[i]],
                     Op("write") @@ [src |-> "r" \o ToString(i), f |-> "f" \o ToString(i), cfg |-> cs[i], bytes |-> FALSE] >>
  IN  setup(1) \o setup(2)
      \o << Op("raw1") @@ [f |-> "f3", body |-> Message1(0), num |-> <<1, 0, 0, 0>>, delta |-> 0, junk |-> 0, reg |-> <<"load">>] >>
      \o << Op("par") @@ [jobs |-> jobs_, mode |-> 0, sched |-> <<>>] >>

\* two recordings and their files, the jobs, and what was written loaded again
Parallel(ws, mode, sch) ==
  LET rs == << Rich(0), Rich(0) >>
      c1 == CfgFor(rs[1], Cfg1(0))
      cs == << c1, IF Chance(2, 3) THEN CfgFor(rs[2], Like(c1)) ELSE CfgFor(rs[2], Cfg1(0)) >>
      jobs_ == FoldLeft(LAMBDA a, i : Append(a, Job(ws[i], i, IF Chance(1, 2) THEN 1 ELSE 2, rs, cs, Chance(1, 2))), <<>>, [i \in DOMAIN ws |-> i])
      setup(i) == << Op("build") @@ [h |-> "r" \o ToString(i), rec |-> rs[i]],
                     Op("write") @@ [src |-> "r" \o ToString(i), f |-> "f" \o ToString(i), cfg |-> cs[i], bytes |-> FALSE] >>
      again == Cat([i \in DOMAIN jobs_ |-> IF jobs_[i].what = "write"
                      THEN << Op("load") @@ [f |-> jobs_[i].f, reg |-> Shuffle(AllKinds), h |-> "", junk |-> 0] >> ELSE <<>>])
  IN  setup(1) \o setup(2)
      \o (IF \E i \in DOMAIN ws : ws[i] = "load1"
          THEN << Op("raw1") @@ [f |-> "f3", body |-> Message1(0), num |-> <<1, 0, 0, 0>>, delta |-> 0, junk |-> 0, reg |-> <<"load">>] >> ELSE <<>>)
      \o << Op("par") @@ [jobs |-> jobs_, mode |-> mode, sched |-> sch] >> \o again

\* several recordings through one writer; their files through one source
Sequence(z_) ==
  LET n == Pick(2..4)
      rs == Draws(n, LAMBDA i : Rich(0))
      hasfloat == \E i \in 1..n : "float" \in UsedKinds(rs[i])
      c0 == IF hasfloat THEN RandCfg(Techs, {0, 1, 2}) ELSE Cfg1(0)
      c == IF c0.def THEN c0 ELSE [c0 EXCEPT !.comp = Chance(1, 4)]
      k == Pick(2..5)
      order == Draws(k, LAMBDA i : Pick(1..n))
      f(i) == "f" \o ToString(i)
      files == [i \in 1..k |-> f(i)]
      reg == IF c.def /\ Chance(1, 2) THEN <<"load">> ELSE Shuffle(AllKinds)
  IN  [i \in 1..n |-> Op("build") @@ [h |-> "r" \o ToString(i), rec |-> rs[i]]]
      \o << Op("outlet") @@ [w |-> "w", cfg |-> c] >>
      \o [i \in 1..k |-> Op("write") @@ [src |-> "r" \o ToString(order[i]), f |-> f(i), cfg |-> c, bytes |-> i > 1, w |-> "w"]]
      \o << Op("stream") @@ [fs |-> Shuffle(files), reg |-> reg, one |-> ~c.comp /\ Chance(3, 4), del |-> Chunks(0)] >>
      \o << Op("stream") @@ [fs |-> Shuffle(files), reg |-> reg, one |-> ~c.comp /\ Chance(1, 2), del |-> Chunks(0)] >>

Emit(s) == PrintT("@@S " \o ToJson([id |-> Fam, ops |-> s]))
RandSched(n) == Draws(Pick(1..40), LAMBDA i : <<Pick(1..n), Pick({1, 1, 2, 3, 5, 9, 20})>>)
RandKinds(z_) == Draws(Pick(2..5), LAMBDA i : Pick({"write", "write", "load", "load"} \union JobKinds))

Sample ==
  /\ Fam \notin {"switch", "techs"} /\ left > 0
  /\ \E s \in { CASE Fam = "free" -> Parallel(RandKinds(0) \o << Pick({"write", "load"}) >>, 0, <<>>)
                  [] Fam = "turns" -> LET ks == RandKinds(0) IN Parallel(ks, 1, RandSched(Len(ks)))
                  [] OTHER -> Sequence(left) } : Emit(s)
  /\ left' = left - 1 /\ UNCHANGED <<jobs, sched>>

Spans == IF IOEnv.TIER = "quick" THEN {1, 3, 8, 20} ELSE {1, 2, 3, 5, 8, 13, 21, 34, 55}
SWITCHES == IF IOEnv.TIER = "quick" THEN 2 ELSE 3
Switch ==
  /\ Fam = "switch" /\ left > 0
  /\ \E n \in Spans : sched' = Append(sched, <<(Len(sched) % 2) + 1, n>>)
  /\ left' = left - 1
  /\ UNCHANGED jobs
  \* the first one then runs to its end, and the other after it
  /\ Emit(Parallel(jobs, 1, sched' \o << <<(Len(sched') % 2) + 1, 100000>> >>))
\* each once
Technique ==
  /\ Fam = "techs" /\ left > 0
  /\ \E s \in {AllAtOnce(left)} : Emit(s)
  /\ left' = left - 1 /\ UNCHANGED <<jobs, sched>>
Init ==
  /\ sched = <<>>
  /\ IF Fam = "techs" THEN left = 84 /\ jobs = <<>> ELSE
     IF Fam = "switch"
     THEN left = SWITCHES /\ jobs \in { <<a, b>> : a, b \in {"write", "load", "slice"} } \union { <<"write", "validate">>, <<"load", "bounds">>, <<"load1", "load1">>, <<"load1", "write">> }
     ELSE left = 1 /\ jobs = <<>>
Next == Sample \/ Switch \/ Technique
Spec == Init /\ [][Next]_vars
===============================================================================
