------------------------------ MODULE RapSession ------------------------------
(* A user's session with the library: recordings are built, sliced,          *)
(* validated, written and loaded; any action may follow any other.  The      *)
(* state is what the session has in hand; hist is what was done, in the form *)
(* the harness replays.  FAM (from the environment) selects what is drawn.   *)
EXTENDS RapBulk, Json, IOUtils
LOCAL INSTANCE SequencesExt

Fam == IOEnv.FAM
Bulk == Fam \in {"bulk", "bulkbytes", "bulkdict", "bulkmeta"}
VARIABLES recs,   \* the recordings in hand
          files,  \* the files in hand: [rec (index), cfg]
          hist,   \* the operations done
          todo    \* the kinds of operation still to come
vars == <<recs, files, hist, todo>>

P == Profile
Exact == [k \in Kinds |-> IF k \in {"event", "enum"} THEN {0} ELSE {0, 1}]
Lossy == [k \in Kinds |-> CASE k = "position" -> {2, 3} [] k \in {"euler", "float"} -> {2} [] OTHER -> {0}]

\* profile to draw a recording from
Prof(z_) ==
  CASE Fam = "tree" -> [P EXCEPT !.maxkids = 3, !.depth = Pick(0..4), !.maxcaps = 2, !.names = Pick({"few", "any", "near"}), !.meta = Pick({-1, 0})]
    [] Fam = "dict" -> [P EXCEPT !.kinds = {"event", "enum"}, !.names = Pick({"few", "near"}), !.maxcols = 4, !.depth = 2]
    [] Fam = "meta" -> [P EXCEPT !.kinds = {"event"}, !.names = Pick({"any", "any", "near"}), !.meta = Pick(0..3), !.maxcols = 2, !.maxcaps = 3, !.depth = Pick(0..2)]
    [] Fam = "exact" -> [P EXCEPT !.kinds = {"position", "euler", "float"}, !.vals = "edge", !.times = Pick({"edge", "any"}), !.maxcaps = 6, !.meta = -1, !.depth = 1]
    [] Fam = "lossy" -> [P EXCEPT !.kinds = {"position", "euler", "float"}, !.vals = Pick({"int", "int", "few", "any", "frac"}), !.times = "sorted", !.maxcaps = 14, !.meta = -1, !.depth = Pick({0, 0, 1}), !.maxcols = 4]
    [] Fam = "walk" -> [P EXCEPT !.kinds = Pick({{"position"}, {"position", "euler", "float"}, {"enum"}}), !.vals = "walk", !.times = Pick({"walk", "walk", "sorted"}),
                                 !.maxcaps = Pick({6, 30, 150}), !.meta = -1, !.depth = 0, !.maxcols = 2]
    [] Fam = "times" -> [P EXCEPT !.kinds = Kinds, !.vals = "few", !.times = Pick({"grid", "grid", "sorted"}), !.maxcaps = 14, !.meta = -1, !.depth = Pick({0, 1}), !.maxcols = 4]
    [] Fam = "slice" -> [P EXCEPT !.times = Pick({"any", "grid", "edge"}), !.vals = "few", !.maxcaps = 6, !.names = "few", !.meta = 0]
    [] Fam = "valid" -> [P EXCEPT !.times = Pick({"any", "grid", "grid", "sorted", "sorted", "edge"}), !.vals = "few", !.maxcaps = 5, !.names = "few", !.meta = -1, !.depth = Pick(0..3), !.maxkids = 3]
    [] OTHER -> [P EXCEPT !.times = Pick({"any", "grid", "sorted"}), !.depth = Pick(0..2), !.maxkids = 3]
Cfgs(z_) ==
  CASE Fam = "exact" -> RandCfg(Exact, {0, 1})
    [] Fam = "lossy" -> RandCfg(Lossy, {0, 1, 2})
    [] Fam = "walk" -> RandCfg(Lossy, {2, 2, 2, 0, 1})
    [] Fam = "times" -> RandCfg(Techs, {2, 2, 0, 1})
    [] Fam = "drift" -> RandCfg(Lossy, {2, 2, 2, 2, 0})
    [] Fam = "layout" -> [RandCfg(Techs, {0, 1, 2}) EXCEPT !.comp = Chance(1, 2)]
    [] OTHER -> IF Chance(1, 10) THEN DefCfg ELSE RandCfg(Techs, {0, 1, 2})
Bytes == Fam \in {"layout", "count", "bulkbytes"}
Plan(z_) ==
  CASE Fam \in {"tree", "dict", "meta", "exact", "lossy", "walk", "drift", "times", "count", "layout"} ->
         <<"build", "write", "load", "write", "load">>
    [] Bulk -> <<"build", "write", "load", "slice", "bounds", "validate", "write", "reload">>
    [] Fam = "slice" -> <<"build", "slice", "slice", "slice", "slice", "bounds", "slice", "validate">>
    [] Fam = "valid" -> <<"build", "validate", "bounds", "validate", "slice", "bounds", "validate">>
    [] OTHER -> Draws(14, LAMBDA i : IF i = 1 THEN "build"
                                     ELSE Pick({"build", "slice", "validate", "bounds", "write", "write", "load", "load", "reload", "reload"}))

Handle(i) == "r" \o ToString(i)
File(i) == "f" \o ToString(i)
Op(name) == [op |-> name, keep |-> -1, req |-> -1]
Did(op) == hist' = Append(hist, op) /\ todo' = Tail(todo)
Now(name) == todo # <<>> /\ Head(todo) = name
Same == UNCHANGED <<recs, files>>

Build ==
  /\ Now("build")
  /\ \E r \in {IF Fam = "drift" THEN Drifting(Draws(1, LAMBDA z : Pick({200, 700, 1030, 2000, 4100}))[1]) ELSE
               IF Bulk THEN (IF Bytes THEN BulkOf(Dims, 300) ELSE BulkOf(CASE Fam = "bulkdict" -> DictDims [] Fam = "bulkmeta" -> MetaDims [] OTHER -> Dims, 50000)) ELSE LET p == Prof(0)
                                  r0 == RandRec(p, p.depth)
                              IN  IF Chance(1, 6) /\ p.depth < 6 THEN Twinned(r0) ELSE r0} :
       /\ recs' = Append(recs, r)
       /\ Did(BuildOp(Handle(Len(recs) + 1), r))
       /\ UNCHANGED files

RandBound(r) ==
  LET ts == AllTimes(r) IN
  IF Chance(1, 4) THEN <<>>
  ELSE IF ts # <<>> /\ Chance(2, 3) THEN ts[Pick(DOMAIN ts)]
  ELSE Pick(TimePool \union {PosInf64, NegInf64, NaN64})
Slice ==
  /\ Now("slice")
  /\ \E i \in {Pick(DOMAIN recs)} : \E b \in {RandBound(recs[i])}, e \in {RandBound(recs[i])}, keep \in {Pick({-1, -1, 0, 1})} :
       /\ recs' = Append(recs, SliceRec(recs[i], IF b = <<>> THEN NegInf64 ELSE b,
                                        IF e = <<>> THEN PosInf64 ELSE e, keep # 0))
       /\ Did([op |-> "slice", h |-> Handle(Len(recs) + 1), src |-> Handle(i), b |-> b, e |-> e, keep |-> keep])
       /\ UNCHANGED files

Validate ==
  /\ Now("validate")
  /\ \E i \in {Pick(DOMAIN recs)}, req \in {Pick({-1, -1, 0, 1})} :
       Did([op |-> "validate", src |-> Handle(i), req |-> req])
  /\ Same
Bounds ==
  /\ Now("bounds")
  /\ \E i \in {Pick(DOMAIN recs)} : Did(Op("bounds") @@ [src |-> Handle(i)])
  /\ Same

\* the last recording more often than the others
Latest(n) == IF Chance(2, 3) THEN n ELSE Pick(1..n)
Write ==
  /\ Now("write")
  /\ \E i \in {Latest(Len(recs))} : \E c \in {Cfgs(0)} :
       \E cfg \in {IF c.def /\ "float" \in UsedKinds(recs[i]) THEN RandCfg(Techs, {0, 1, 2}) ELSE c} :
         /\ files' = Append(files, [rec |-> i, cfg |-> cfg])
         /\ Did(Op("write") @@ [src |-> Handle(i), f |-> File(Len(files) + 1), cfg |-> cfg, bytes |-> Bytes])
         /\ UNCHANGED recs

RegFor(c) == IF c.def /\ Chance(1, 2) THEN <<"load">> ELSE Shuffle(AllKinds)
Load ==
  /\ Now("load")
  /\ IF files = <<>> THEN hist' = hist /\ todo' = Tail(todo)
     ELSE \E f \in {Latest(Len(files))} : \E reg \in {RegFor(files[f].cfg)} :
            Did(Op("load") @@ [f |-> File(f), reg |-> reg, h |-> "",
                               junk |-> IF Fam = "count" THEN Pick({0, 1, 9}) ELSE 0])
  /\ Same

\* what was loaded is a recording like any other
Reload ==
  /\ Now("reload")
  /\ IF files = <<>> THEN hist' = hist /\ todo' = Tail(todo) /\ Same
     ELSE \E f \in {Latest(Len(files))} :
            /\ Did(Op("load") @@ [f |-> File(f), reg |-> Shuffle(AllKinds), h |-> Handle(Len(recs) + 1), junk |-> 0])
            /\ recs' = Append(recs, recs[files[f].rec])
            /\ UNCHANGED files

Done ==
  /\ todo = <<>> /\ hist # <<>>
  /\ PrintT("@@S " \o ToJson([id |-> Fam, ops |-> hist]))
  /\ hist' = <<>> /\ UNCHANGED <<recs, files, todo>>

Start ==
  /\ Now("start")
  /\ todo' = Plan(0)
  /\ UNCHANGED <<recs, files, hist>>

Init == recs = <<>> /\ files = <<>> /\ hist = <<>> /\ todo = <<"start">>
Next == Start \/ Build \/ Slice \/ Validate \/ Bounds \/ Write \/ Load \/ Reload \/ Done
Spec == Init /\ [][Next]_vars
===============================================================================
