------------------------------- MODULE RapFaults ------------------------------
(* Sessions in which the surroundings misbehave: files cut short, sources    *)
(* and sinks that fail at every offset or deliver in odd pieces, bytes       *)
(* changed, recordings with holes, and encoders of the user's own.           *)
EXTENDS RapNego, RapBulk, Json, IOUtils
LOCAL INSTANCE SequencesExt

Fam == IOEnv.FAM
VARIABLES todo
vars == <<todo>>

(* --------------------------------------------------------------- small sessions *)
SmallProf(z_) == [Profile EXCEPT !.maxcols = Pick({0, 1, 2, 3}), !.depth = Pick({0, 0, 1, 1, 2}), !.maxkids = 2, !.maxcaps = 3,
                    !.names = Pick({"few", "few", "any"}), !.meta = Pick({-1, 0, 1, 2}),
                    !.times = Pick({"grid", "any", "edge"}), !.vals = Pick({"few", "any", "edge"})]
Op(name) == [op |-> name, keep |-> -1, req |-> -1]
Deliveries(n) == <<[sizes |-> <<1>>, eofdata |-> FALSE, failat |-> -1, faildata |-> FALSE],
                   [sizes |-> <<0, 1>>, eofdata |-> TRUE, failat |-> -1, faildata |-> FALSE],
                   [sizes |-> <<>>, eofdata |-> TRUE, failat |-> -1, faildata |-> FALSE]>>
                 \o Draws(n, LAMBDA i : RandDelivery(0))
RegFor(cfg) == IF cfg.def THEN <<"load">> ELSE Shuffle(AllKinds)
AnyCfg(r) == IF Chance(1, 10) /\ "float" \notin UsedKinds(r) THEN DefCfg ELSE RandCfg(Techs, {0, 1, 2})
Session(z_) ==
  LET p == SmallProf(0)
      big == Fam \in {"bulkcuts", "bulkdels", "bulksrcfails", "bulksinkfails"}
      r == IF big THEN BulkRec(5000) ELSE RandRec(p, p.depth)
      cfg == AnyCfg(r)
      reg == RegFor(cfg)
      step == IF big THEN -60 ELSE 1
      on(name) == Op(name) @@ [f |-> "f1", reg |-> reg, step |-> step, at |-> 0, del |-> RandDelivery(0)]
      head == << BuildOp("r1", r) >>
      file == << Op("write") @@ [src |-> "r1", f |-> "f1", cfg |-> cfg, bytes |-> FALSE], Op("load") @@ [f |-> "f1", reg |-> reg, h |-> "", junk |-> 0] >>
  IN  CASE Fam \in {"cuts", "bulkcuts"} -> head \o file \o << on("cuts") >>
        [] Fam \in {"dels", "bulkdels"} -> head \o file \o << on("dels") @@ [dels |-> Deliveries(IF big THEN 4 ELSE 9)] >>
        [] Fam \in {"srcfails", "bulksrcfails"} -> head \o file \o << on("srcfails") >>
        [] Fam \in {"sinkfails", "bulksinkfails"} -> head \o << Op("sinkfails") @@ [src |-> "r1", cfg |-> cfg, step |-> step, at |-> 0, n |-> Pick({0, 1, 3})] >>
        [] OTHER -> head \o file \o << on("muts") @@ [n |-> 40, seed |-> Pick(1..1000000)] >>

(* ------------------------------------------------------------------------ holes *)
RECURSIVE Nodes(_)
Nodes(r) == {<<>>} \union UNION {{<<i>> \o q : q \in Nodes(r.kids[i])} : i \in DOMAIN r.kids}
RECURSIVE At(_, _)
At(r, path) == IF path = <<>> THEN r ELSE At(r.kids[path[1]], Tail(path))
Holes(z_) ==
  LET p == [Profile EXCEPT !.maxcols = 2, !.depth = Pick(0..4), !.maxkids = 2, !.maxcaps = 1, !.names = "few", !.meta = 0]
      r == RandRec(p, p.depth)
      one(i) == LET path == Pick(Nodes(r))
                    n == At(r, path)
                    what == IF Fam = "mixed" THEN Pick({"mixed", "mixed", "nilcap"}) ELSE Pick({"kid", "col", "foreign", "bin", "ref"})
                    len == CASE what = "kid" -> Len(n.kids) [] what \in {"col", "foreign", "mixed", "nilcap"} -> Len(n.cols)
                             [] what = "bin" -> Len(n.bins) [] OTHER -> Len(n.refs)
                IN  Op("reject") @@ [rec |-> r, path |-> path, what |-> what, at |-> Pick(1..(len + 1)), n |-> Pick(0..59),
                                           cfg |-> IF Fam = "mixed" \/ Chance(4, 5) THEN RandCfg(Techs, {0, 1, 2}) ELSE DefCfg]
      \* a writer without some of the encoders
      less == LET c == RandCfg(Techs, {0, 1, 2}) IN [c EXCEPT !.encs = SubSeq(@, 1, Pick(0..4))]
  IN  IF Fam = "mixed" THEN Draws(3, one)
      ELSE IF Chance(1, 4)
      THEN << Op("build") @@ [h |-> "r1", rec |-> r], Op("write") @@ [src |-> "r1", f |-> "f1", cfg |-> less, bytes |-> FALSE] >>
      ELSE Draws(2, one)

(* ---------------------------------------------------------- binaries that fail *)
RECURSIVE WithBin(_, _, _)
WithBin(r, path, b) == IF path = <<>> THEN [r EXCEPT !.bins = Append(@, b)] ELSE [r EXCEPT !.kids[path[1]] = WithBin(@, Tail(path), b)]
Binaries(z_) ==
  LET p == [SmallProf(0) EXCEPT !.depth = Pick(0..3)]
      r0 == RandRec(p, p.depth)
      r == FoldLeft(LAMBDA a, i : LET path == Pick(Nodes(a)) IN WithBin(a, path, RandBin([p EXCEPT !.meta = 0])), r0, [i \in 1..Pick(1..3) |-> i])
      long == IF Chance(1, 10) THEN Draws(1, LAMBDA i : [RandBin([p EXCEPT !.meta = 0]) EXCEPT !.data = Long("616263", 11000), !.sz = WOfInt(33000)]) ELSE <<>>
      all == [r EXCEPT !.bins = @ \o long]
  IN  << Op("binfails") @@ [rec |-> all, cfg |-> AnyCfg(all), del |-> RandDelivery(0), step |-> -12] >>

(* --------------------------------------------------------- encoders of one's own *)
Sigs == <<"61", "6162", "", "7265636f6c7564652e", "c3a9", "62">>
WPrev(w) == IF w = WZero THEN w ELSE WNot(WInc(WNot(w)))
RandKinds(z_) == Pick(SUBSET Kinds)
CustomEncs(n) ==
  LET ss == Shuffle(Sigs) IN
  Draws(n, LAMBDA i : [sig |-> ss[i], ver |-> Pick(Vers),
                       acc |-> SetToSeq(IF i = n /\ Chance(3, 4) THEN Kinds ELSE RandKinds(0)),
                       fenc |-> Chance(1, 25), fdec |-> FALSE])
\* a reader's list: the same ones in another order, older or newer, some missing, others added
RandReg(encs) ==
  LET same == Shuffle(encs)
      turned == Draws(Len(same), LAMBDA i : [same[i] EXCEPT
                  !.ver = IF Chance(3, 5) THEN @ ELSE (IF Chance(1, 2) THEN Pick(Vers) ELSE IF Chance(1, 2) THEN WInc(@) ELSE WPrev(@)),
                  !.acc = SetToSeq(RandKinds(0)), !.fdec = Chance(1, 12), !.fenc = FALSE])
      \* an encoder's signature told apart from its extensions
      kept == SelectSeq(turned, LAMBDA e : Chance(9, 10))
      more == IF Chance(1, 2) THEN << [sig |-> "61626364", ver |-> WOfInt(500), acc |-> <<>>, fenc |-> FALSE, fdec |-> TRUE] >> ELSE <<>>
  IN  Shuffle(kept \o more)
Negotiation(z_) ==
  LET p == [Profile EXCEPT !.maxcols = Pick(1..5), !.depth = Pick(0..3), !.maxcaps = 2, !.names = "few", !.meta = Pick({-1, 0}), !.times = "any"]
      r == Renamed(RandRec(p, p.depth), "")
      encs == CustomEncs(Pick(1..4))
  IN  << Op("build") @@ [h |-> "r1", rec |-> r],
         [op |-> "nego", src |-> "r1", encs |-> encs, req |-> -1, keep |-> Pick({0, 1}), regs |-> Draws(5, LAMBDA i : RandReg(encs))] >>

Emit ==
  /\ todo > 0
  /\ \E s \in { CASE Fam \in {"reject", "mixed"} -> Holes(todo) [] Fam = "binfails" -> Binaries(todo) [] Fam = "nego" -> Negotiation(todo) [] OTHER -> Session(todo) } :
       PrintT("@@S " \o ToJson([id |-> Fam, ops |-> s]))
  /\ todo' = todo - 1
Init == todo = 1
Next == Emit
Spec == Init /\ [][Next]_vars
===============================================================================
