------------------------------- MODULE RapTrace -------------------------------
(* Conformance: a trace recorded from the real code is a behaviour of this   *)
(* specification.                                                            *)
(*                                                                           *)
(* The state holds what the library's user holds: recordings and files, by   *)
(* handle.  Every line of the trace is one call (or a batch of calls of one  *)
(* kind); its step relates the result observed to what the specification     *)
(* gives for the arguments, in the state reached.  A disagreement is         *)
(* reported as <<property, what disagrees>> and the run goes on.             *)
(*                                                                           *)
(* Recordings appear once in a trace ("val" lines) and are referred to by    *)
(* their line, so equal lines are equal recordings (0: no recording).        *)
EXTENDS RapV1, RapLossy, RapMeasure, RapNego, RapTools, RapBson, Json, IOUtils
LOCAL INSTANCE SequencesExt

Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

VARIABLES l,      \* the line about to be consumed
          recs,   \* handle -> line of the recording it stands for
          files,  \* handle -> the file: [v1, want (line, 0: none), cfg, raw,
                  \*   len, n, comp, kinds, parsed]
          full    \* handle -> line of what the whole file loads as (0: nothing)
vars == <<l, recs, files, full>>

Val(line) == Trace[line].got
FSame(a, b) == a = b \/ FEq(a, b)
V(p, why) == {<<p, why>>}
No == {}
Check(c, p, why) == IF c THEN No ELSE V(p, why)
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
FoldU(S) == UNION S
CodeOf(out) == CASE out = "ok" -> 0 [] out = "err" -> 1 [] out = "panic" -> 2 [] OTHER -> 3

(* ------------------------------------------- what a recording becomes in a file *)
TechOf(cfg, k) == IF \E i \in DOMAIN cfg.encs : cfg.encs[i].k = k
                  THEN cfg.encs[CHOOSE i \in DOMAIN cfg.encs :
                                  cfg.encs[i].k = k /\ \A j \in 1..(i - 1) : cfg.encs[j].k # k].t
                  ELSE -1
RoundAll(ws) == [i \in DOMAIN ws |-> Round32(ws[i])]
Numeric(k) == k \in {"position", "euler", "float"}
\* the words a capture's value loads as; Unk: some value on the grid
WantV(tech, k, n, ws) ==
  IF ~Numeric(k) \/ tech = 0 THEN ws
  ELSE IF tech = 1 \/ (n = 1 /\ k = "position") THEN RoundAll(ws)
  ELSE [i \in DOMAIN ws |-> Unk]
\* (sixteen bit times of a collection out of order start from its earliest)
WantT(tt, chrono, i, w) == IF tt = 0 THEN w ELSE IF tt = 1 \/ (i = 1 /\ chrono) THEN Round32(w) ELSE Unk
TimesOf(c) == [i \in DOMAIN c.caps |-> c.caps[i].t]
WantCol(cfg, c) ==
  LET n == Len(c.caps)
      tech == TechOf(cfg, c.k)
      chrono == Chronological(c) /\ FiniteTimes(TimesOf(c))
  IN  IF cfg.tt = 0 /\ (~Numeric(c.k) \/ tech = 0) THEN c
      ELSE [c EXCEPT !.caps =
              [i \in 1..n |-> [@[i] EXCEPT !.t = WantT(cfg.tt, chrono, i, @),
                                           !.v = WantV(tech, c.k, n, @)]]]
RECURSIVE WantRec(_, _)
WantRec(cfg, r) == [r EXCEPT !.cols = [i \in DOMAIN @ |-> WantCol(cfg, @[i])],
                             !.kids = [i \in DOMAIN @ |-> WantRec(cfg, @[i])]]
Accepted(cfg, r) == \A k \in UsedKinds(r) : TechOf(cfg, k) >= 0

(* ----------------------------------------------- aspects of a loaded recording *)
\* metadata blocks in tree order
RECURSIVE Blocks(_)
Blocks(r) ==
  LET evs == Cat([i \in DOMAIN r.cols |-> IF r.cols[i].k = "event"
                                          THEN [j \in DOMAIN r.cols[i].caps |-> r.cols[i].caps[j].md]
                                          ELSE <<>>])
      own == <<r.md>> \o evs \o [i \in DOMAIN r.refs |-> r.refs[i].md] \o [i \in DOMAIN r.bins |-> r.bins[i].md]
  IN  FoldLeft(LAMBDA a, k : a \o Blocks(k), own, r.kids)

\* the values of all captures in a row (all of one width)
Words(c) ==
  IF c.caps = <<>> THEN <<>>
  ELSE LET k == Len(c.caps[1].v) IN
       IF k = 1 THEN [i \in DOMAIN c.caps |-> c.caps[i].v[1]]
       ELSE [j \in 1..(k * Len(c.caps)) |-> c.caps[((j - 1) \div k) + 1].v[((j - 1) % k) + 1]]
AxisOf(c, a) == [i \in DOMAIN c.caps |-> c.caps[i].v[a]]
Paired(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Len(a[i].caps) = Len(b[i].caps)

DictOK(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in DOMAIN a :
       /\ a[i].nm = b[i].nm /\ a[i].mem = b[i].mem /\ Len(a[i].caps) = Len(b[i].caps)
       /\ \A j \in DOMAIN a[i].caps :
            LET x == a[i].caps[j]
                y == b[i].caps[j]
            IN  x.n = y.n /\ SameBlock(x.md, y.md) /\ (a[i].k = "enum" => x.v = y.v)

ExactOK(cfg, k, tech, a, b) ==
  \A i \in DOMAIN a :
    LET w == WantCol(cfg, a[i]) IN
    /\ cfg.tt \in {0, 1} => TimesOf(w) = TimesOf(b[i])
    /\ (Numeric(k) /\ tech \in {0, 1}) => Words(w) = Words(b[i])
LossyOK(k, tech, a, b) ==
  \A i \in DOMAIN a :
    LET n == Len(a[i].caps) IN
    CASE k = "position" /\ tech \in {2, 3} ->
           IF n = 1 THEN SingleOK(Words(a[i]), Words(b[i]))
           ELSE \A x \in 1..3 : AxisOK(IF tech = 2 THEN 16 ELSE 8, AxisOf(a[i], x), AxisOf(b[i], x))
      [] k = "euler" /\ tech = 2 ->
           IF n = 1 THEN EulerSingleOK(Words(a[i]), Words(b[i])) ELSE EulersOK(Words(a[i]), Words(b[i]))
      [] k = "float" /\ tech = 2 -> FloatsOK(Words(a[i]), Words(b[i]))
      [] OTHER -> TRUE
ChronoOK(cfg, a, b) ==
  \A i \in DOMAIN a :
    (Chronological(a[i]) /\ FiniteTimes(TimesOf(a[i]))) =>
      /\ Chronological(b[i])
      /\ cfg.tt = 2 /\ a[i].caps # <<>> => b[i].caps[1].t = Round32(a[i].caps[1].t)
      /\ cfg.tt = 2 => TimesOK(TimesOf(a[i]), TimesOf(b[i]))
      /\ cfg.tt \in {0, 1} => TimesOf(b[i]) = (IF cfg.tt = 0 THEN TimesOf(a[i]) ELSE RoundAll(TimesOf(a[i])))

\* what is not written or does not load breaks what is promised of its contents
Lost(k, cfg, how) ==
  (CASE k \in {"event", "enum"} -> V("C02", how)
     [] Numeric(k) /\ TechOf(cfg, k) \in {0, 1} -> V("C04", how)
     [] Numeric(k) -> V("C05", how)
     [] OTHER -> No)
  \union V("C06", how)
Failed(r, cfg, how) ==
  V("C01", how) \union FoldU({ Lost(k, cfg, how) : k \in UsedKinds(r) })
  \union (IF \E b \in RangeOf(Blocks(r)) : b # <<>> THEN V("C03", how) ELSE No)

Compare(cfg, want, got) ==
  LET full_ == AllCols(want)
      cols(r, k) == SelectSeq(AllCols(r), LAMBDA c : c.k = k)
      wb == Blocks(want)
      gb == Blocks(got)
  IN  Check(MeantRec(WantRec(cfg, want), got), "C01", "loaded recording differs")
      \union Check(DictOK(cols(want, "event"), cols(got, "event")), "C02", "events differ")
      \union Check(DictOK(cols(want, "enum"), cols(got, "enum")), "C02", "enums differ")
      \union Check(Len(wb) = Len(gb) /\ \A i \in DOMAIN wb : SameBlock(wb[i], gb[i]), "C03", "metadata differs")
      \union FoldU({ LET a == cols(want, k)
                         b == cols(got, k)
                         t == TechOf(cfg, k)
                     IN  IF ~Paired(a, b) THEN Lost(k, cfg, "captures are missing or too many: " \o k)
                         ELSE Check(ExactOK(cfg, k, t, a, b), "C04", "full or single precision differs: " \o k)
                              \union Check(LossyOK(k, t, a, b), "C05", "off the grid: " \o k)
                              \union Check(ChronoOK(cfg, a, b), "C06", "times: " \o k)
                   : k \in UsedKinds(want) })

(* ---------------------------------------------------------------- the steps *)
RegPairs(kinds) == [i \in DOMAIN kinds |-> <<SigOf[kinds[i]], 0>>]
NoParse == Fail(1, "bad", <<>>)

BuildV(e) == Check(e.out = "ok" /\ e.gl = e.wl, "C01", "a recording built differs from its parts")

SliceWant(e) ==
  SliceRec(Val(recs[e.src]), IF e.b = <<>> THEN NegInf64 ELSE e.b,
           IF e.e = <<>> THEN PosInf64 ELSE e.e, e.keep # 0)
SliceV(e) ==
  IF e.out # "ok" THEN V("C08", "slice: " \o e.out)
  ELSE Check(e.gl # 0 /\ SameRec(SliceWant(e), Val(e.gl)), "C08", "slice differs")
       \union Check(e.al = recs[e.src], "C08", "slicing changed the original")
       \union Check(e.al = recs[e.src], "C20", "slicing changed the original")

ValidateV(e) ==
  Check(e.out = (IF Valid(Val(recs[e.src]), e.req # 0) THEN "ok" ELSE "err"), "C09", "validation: " \o e.out)
  \union Check(e.al = recs[e.src], "C20", "validation changed its recording")

BoundsV(e) ==
  LET r == Val(recs[e.src]) IN
  (IF ~IsChronological(r) THEN No
   ELSE Check(e.out = "ok" /\ FSame(e.start, StartOf(r)), "C09", "start")
        \union Check(e.out = "ok" /\ FSame(e.end, EndOf(r)), "C09", "end")
        \union Check(e.out = "ok" /\ FSame(e.dur, e.diff), "C09", "duration"))
  \union Check(e.al = recs[e.src], "C20", "bounds changed their recording")

\* the file as the specification reads it
Parsed(e) == IF e.out # "ok" \/ ~e.bytes THEN NoParse ELSE ParseFile(e.head \o e.body, AllBuiltin)
WriteV(e, parsed) ==
  LET r == Val(recs[e.src])
      acc == Accepted(e.cfg, r)
  IN  Check(e.al = recs[e.src], "C20", "writing changed the recording")
      \union
      IF ~acc THEN Check(e.out = "err" /\ e.len = 0, "C15", "unserialisable: " \o e.out)
      ELSE IF e.out # "ok" THEN Failed(r, e.cfg, "write: " \o e.out)
      ELSE
      Check(~e.cfg.comp => e.n = e.len, "C13", "count is not the length of the file")
      \union
      IF ~e.bytes THEN No
      ELSE Check(e.n = Len(e.head) + Len(e.body), "C13", "count is not the number of bytes")
           \union Check(e.how = (IF e.cfg.comp THEN "inflated" ELSE "plain") /\ e.tail = 0, "C07", "container " \o e.how)
           \union
           IF ~parsed.ok THEN V("C07", "not a version 2 file: " \o parsed.why)
           ELSE Check(parsed.p = Len(e.head) + Len(e.body) + 1 /\ ~parsed.v.loose, "C07", "loose bytes")
                \union Check(LooseRec(WantRec(e.cfg, r), parsed.v.rec), "C07", "the bytes mean another recording")
                \union Check(parsed.v.flag = (IF e.cfg.comp THEN 1 ELSE 0), "C07", "flag")
                \union Check(/\ {SigOf[k] : k \in UsedKinds(r)} = RangeOf(parsed.v.sigs)
                             /\ Len(parsed.v.sigs) = Cardinality(UsedKinds(r)), "C14", "encoder table")
                \union Check(\A i \in DOMAIN parsed.v.vers : parsed.v.vers[i] = WZero, "C14", "encoder versions")
WrittenFile(e, parsed) ==
  [v1 |-> FALSE, want |-> recs[e.src], cfg |-> e.cfg, len |-> e.len, n |-> e.n, comp |-> e.cfg.comp,
   kinds |-> UsedKinds(Val(recs[e.src])), parsed |-> parsed, raw |-> FALSE]

LoadV(e) ==
  LET f == files[e.f] IN
  IF f.raw THEN No
  ELSE LET can == f.kinds \subseteq RangeOf(e.reg)
           want == Val(f.want)
       IN  IF ~can THEN Check(e.out = "err" /\ e.gl = 0, "C14", "loaded without its encoder: " \o e.out)
           ELSE IF e.out # "ok" \/ e.gl = 0
                THEN Failed(want, f.cfg, "load: " \o e.out)
                ELSE Compare(f.cfg, want, Val(e.gl))
                     \union Check(e.n = f.n, "C13", "counts of writing and reading differ")
                     \union Check(f.comp \/ e.used = f.len, "C13", "did not consume exactly the file")
                     \union Check(~f.parsed.ok \/ MeantRec(f.parsed.v.rec, Val(e.gl)), "C07", "loaded differs from what the bytes mean")
Refused(code, line) == code = 1 /\ line = 0
Given(code, line, rec) == code = 0 /\ line # 0 /\ MeantRec(rec, Val(line))
\* every prefix: an error, or all of it once only padding of the compression is gone
CutsV(e) ==
  LET f == files[e.f]
      bad(x) == ~(Refused(x[2], x[3]) \/ (f.comp /\ x[2] = 0 /\ x[3] # 0 /\ x[3] = full[e.f]))
      fails == {i \in DOMAIN e.res : bad(e.res[i])}
  IN  IF fails = {} THEN No
      ELSE V("C11", "cut to " \o ToString(e.res[CHOOSE i \in fails : \A j \in fails : i <= j][1]) \o
                    " of " \o ToString(e.len))
DelsV(e) == Check(\A i \in DOMAIN e.res : e.res[i] = e.base, "C12", "depends on the delivery")
            \union Check(e.base[1] \in {0, 1} /\ \A i \in DOMAIN e.res : e.res[i][1] \in {0, 1}, "C12", "crashed")
SrcFailsV(e) ==
  LET f == files[e.f]
      bad(x) == ~(Refused(x[2], x[3]) \/ (f.comp /\ x[2] = 0 /\ x[3] # 0 /\ x[3] = full[e.f]))
      fails == {i \in DOMAIN e.res : bad(e.res[i])}
  IN  IF fails = {} THEN No
      ELSE V("C12", "source error at " \o ToString(e.res[CHOOSE i \in fails : \A j \in fails : i <= j][1]) \o " not reported")
SinkFailsV(e) ==
  LET r == Val(recs[e.src])
      \* (compressed lengths vary with the order of dictionaries, so whether
      \* this sink refused anything is told by the sink)
      bad(x) == IF x[7] = 0 THEN x[3] # 0
                ELSE x[3] # 1 \/ (~e.cfg.comp /\ x[4] # x[5])
      fails == {i \in DOMAIN e.res : bad(e.res[i])}
  IN  Check(e.al = recs[e.src], "C20", "writing changed the recording")
      \union
      IF ~Accepted(e.cfg, r) THEN No
      ELSE IF fails = {} THEN No
      ELSE LET x == e.res[CHOOSE i \in fails : \A j \in fails : i <= j]
           IN V("C10", "sink failing (mode, at, outcome, count, accepted): " \o ToString(x))

\* a file the specification laid out (or mangled)
RawParsed(e) == ParseFile(e.head \o e.body, RegPairs(e.reg))
RawV(e, parsed) ==
  LET got == Val(e.gl) IN
  IF ~parsed.ok
  THEN Check(e.out = "err" /\ e.gl = 0, "C21", e.tag \o ": undecodable, yet " \o e.out)
  ELSE IF parsed.v.loose
  THEN Check(Refused(CodeOf(e.out), e.gl) \/ Given(CodeOf(e.out), e.gl, parsed.v.rec), "C21", e.tag \o ": " \o e.out)
  ELSE IF e.out # "ok" \/ e.gl = 0 THEN V("C07", e.tag \o ": a conforming file: " \o e.out)
  ELSE Check(MeantRec(parsed.v.rec, got), "C07", e.tag \o ": loads as something else")
       \union Check(e.n = Len(e.head) + Len(e.body) \/ parsed.p <= Len(e.head) + Len(e.body), "C13", "count of a conforming file")
       \union Check(parsed.v.flag = 1 \/ parsed.p <= Len(e.head) + Len(e.body) \/ e.used = e.len, "C13", "did not consume exactly the file")
RawFile(e, parsed) ==
  [v1 |-> FALSE, want |-> 0, cfg |-> [encs |-> <<>>, tt |-> 0, comp |-> FALSE, def |-> FALSE],
   len |-> e.len, n |-> e.n, comp |-> (parsed.ok /\ parsed.v.flag = 1),
   kinds |-> {}, parsed |-> parsed, raw |-> TRUE]

MutsV(e) ==
  LET reg == RegPairs(e.reg)
      verdict(x) ==
        LET pf == ParseFile([e.base EXCEPT ![x[1]] = x[2]], reg) IN
        IF x[3] \notin {0, 1} THEN V("C21", "mutation crashes at " \o ToString(x))
        ELSE IF ~pf.ok THEN Check(x[3] = 1 /\ x[4] = 0, "C21", "mutation accepted at " \o ToString(x) \o ": " \o pf.why)
        ELSE IF pf.v.loose
        THEN Check(Refused(x[3], x[4]) \/ Given(x[3], x[4], pf.v.rec), "C21", "mutation misread at " \o ToString(x))
        ELSE IF x[3] = 1 THEN V("C07", "conforming mutation refused at " \o ToString(x))
        ELSE Check(x[4] # 0 /\ MeantRec(pf.v.rec, Val(x[4])), "C07", "conforming mutation misread at " \o ToString(x))
  IN  FoldLeft(LAMBDA a, x : IF Cardinality(a) > 3 THEN a ELSE a \union verdict(x), No, e.res)

(* ------------------------------------------------------- version 1 files *)
\* one recording whose declared size is that of its content
Plain1(e) == e.num = <<1, 0, 0, 0>> /\ e.delta >= 0
Raw1V(e, p) ==
  IF e.out \notin {"ok", "err"} THEN V("C16", "version 1 file: " \o e.out)
  ELSE IF e.num # <<1, 0, 0, 0>> THEN Check(Refused(CodeOf(e.out), e.gl), "C16", "not one recording, yet " \o e.out)
  ELSE IF e.delta > 0 THEN Check(Refused(CodeOf(e.out), e.gl), "C16", "content missing, yet " \o e.out)
  ELSE IF e.delta < 0 \/ (p.ok /\ p.vague)
  THEN Check(Refused(CodeOf(e.out), e.gl) \/ (e.out = "ok" /\ e.gl # 0 /\ (p.vague \/ (p.ok /\ SameRec(p.v, Val(e.gl))))),
             "C16", "a doubtful version 1 file: " \o e.out)
  ELSE IF ~p.ok THEN Check(Refused(CodeOf(e.out), e.gl), "C16", "malformed, yet " \o e.out)
  ELSE IF e.out # "ok" \/ e.gl = 0 THEN V("C16", "does not load")
  ELSE Check(SameRec(p.v, Val(e.gl)), "C16", "loads as something else")
       \union Check(e.n = e.len, "C13", "count of a version 1 file")
Raw1File(e) ==
  [v1 |-> TRUE, want |-> 0, cfg |-> [encs |-> <<>>, tt |-> 0, comp |-> FALSE, def |-> FALSE],
   len |-> e.len, n |-> e.n, comp |-> FALSE, kinds |-> {}, parsed |-> NoParse, raw |-> TRUE]
Muts1V(e) ==
  LET verdict(x) ==
        LET p == ParseV1([e.base EXCEPT ![x[1]] = x[2]]) IN
        IF x[3] \notin {0, 1} THEN V("C16", "mutation crashes at " \o ToString(x))
        ELSE IF p.ok /\ p.vague THEN No
        ELSE IF ~p.ok THEN Check(Refused(x[3], x[4]), "C16", "mutation accepted at " \o ToString(x))
        ELSE Check(x[3] = 0 /\ x[4] # 0 /\ SameRec(p.v, Val(x[4])), "C16", "mutation misread at " \o ToString(x))
  IN  FoldLeft(LAMBDA a, x : IF Cardinality(a) > 3 THEN a ELSE a \union verdict(x), No, e.res)
\* what was loaded is written (and loaded) like any other recording
RewriteV(e) ==
  IF e.from = 0 THEN No
  ELSE LET want == Val(e.from) IN
       IF ~Accepted(e.cfg, want) THEN Check(e.out = "err", "C15", "unserialisable: " \o e.out)
       ELSE IF e.out # "ok" \/ e.gl = 0 THEN V(e.prop, "what was loaded can not be written and loaded: " \o e.out)
       ELSE Check(MeantRec(WantRec(e.cfg, want), Val(e.gl)), e.prop, "what was loaded is written as something else")
            \union Check(e.n = e.wn, "C13", "counts of writing and reading differ")

RejectV(e) ==
  IF e.what \in {"mixed", "nilcap"}
  THEN Check(e.out = "err", "C14", "a capture no encoder can encode: " \o e.what \o " at " \o ToString(e.path) \o ": " \o e.out)
  ELSE Check(e.out = "err" /\ e.len = 0 /\ e.calls = 0, "C15", e.what \o " at " \o ToString(e.path) \o ": " \o e.out)
\* the data of a binary fails while it is copied
BinFailsV(e) ==
  LET bad(x) == x[3] # 1 \/ (~e.cfg.comp /\ x[4] # x[5])
      fails == {i \in DOMAIN e.res : bad(e.res[i])}
  IN  IF ~Accepted(e.cfg, Val(e.wl)) \/ fails = {} THEN No
      ELSE LET x == e.res[CHOOSE i \in fails : \A j \in fails : i <= j]
           IN V("C10", "binary failing (which, at, outcome, count, accepted): " \o ToString(x))

(* ------------------------------------------------- JSON, CSV and the commands *)
\* what the tools write with
UpCfg == [encs |-> <<[k |-> "event", t |-> 0], [k |-> "position", t |-> 3], [k |-> "euler", t |-> 2],
                     [k |-> "enum", t |-> 0]>>, tt |-> 2, comp |-> TRUE, def |-> FALSE]
Meant1(cfg, want, line) == line # 0 /\ MeantRec(WantRec(cfg, want), Val(line))
Crashed(e) == e.exit = -1
Both(ok, a, b, text) == Check(ok, a, text) \union Check(ok, b, text)
JsonV(e) ==
  LET want == RecOfJson(e.doc) IN
  IF ~want.ok
  THEN Check(e.out = "err" /\ e.gl = 0, "C17", "something required is missing or of the wrong type, yet " \o e.out)
       \union
       IF e.mode = 0 THEN No
       ELSE Check(e.exit > 0, "C17", "from-json: exit " \o ToString(e.exit) \o " for a document to be refused")
            \union Check(e.exit > 0 /\ e.cgl = 0, "C22", "from-json: a refused document gives a file")
            \union Check(e.mode \in {2, 8, 9, 10, 11} => e.kept, "C22", "from-json: existing output lost")
            \union Check(e.mode \in {1, 5, 7} => ~e.made, "C22", "from-json: output left behind")
  ELSE IF e.out # "ok" \/ e.gl = 0 THEN V("C17", "a complete document: " \o e.out)
  ELSE Check(SameRec(want.v, Val(e.gl)), "C17", "imported as something else")
       \union Check(e.wout = "ok" /\ Meant1(e.cfg, want.v, e.wgl), "C17", "what was imported is not what is written and loaded: " \o e.wout)
       \union Check(e.wout # "ok" \/ e.n = e.wn, "C13", "counts of writing and reading differ")
       \union
       IF e.mode = 0 THEN No
       ELSE IF e.mode \in {8, 9, 10} THEN Check(e.exit > 0 /\ e.kept, "C22", "from-json: no input, exit " \o ToString(e.exit) \o ", or existing output lost")
       ELSE IF e.mode \in {6, 7} THEN Check(e.exit > 0 /\ ~e.made, "C22", "from-json: output lost, exit " \o ToString(e.exit))
       ELSE Both(e.exit = 0 /\ Meant1(UpCfg, want.v, e.cgl), "C17", "C22", "from-json: exit " \o ToString(e.exit) \o " or another recording")
            \union Check(e.tail = 0, "C22", "from-json: something behind the end of the file")
JsonCutsV(e) ==
  LET fails == {i \in DOMAIN e.res : ~Refused(e.res[i][2], e.res[i][3])} IN
  IF fails = {} THEN No
  ELSE V("C17", "document cut to (or padded to) " \o ToString(e.res[CHOOSE i \in fails : \A j \in fails : i <= j][1]) \o
                " of " \o ToString(e.len) \o " not refused")

\* kinds whose own functions take them to JSON and back
OwnKinds == {CStr, CInt, CF32, CTrue, CFalse, CByte, CVec2, CVec3, CTime}
SingleV(p, code, got, key) ==
  LET j == JsonOfProp(p)
      at == {i \in DOMAIN got : got[i][1] = key}
  IN  IF ~j.ok THEN Check(code = 1, "C18", "a value with no JSON form: " \o ToString(p.c))
      ELSE IF p.c \in OwnKinds
      THEN Check(code = 0 /\ \E i \in at : SameProp([p EXCEPT !.s = IF p.c = CStr THEN FixText(@) ELSE @], got[i][2]),
                 "C18", "a value changed on its trip through JSON: " \o ToString(p.c))
      ELSE Check(code \in {0, 1}, "C18", "crashed on kind " \o ToString(p.c))
TripV(e) ==
  LET m == Val(e.md).md
      want == JsonOfBlock(m)
      back == BlockOfJson(Clean(e.doc))
      got == Val(e.gl).md
      singles == IF e.sl = 0 THEN <<>> ELSE Val(e.sl).md
  IN  (IF ~want.ok THEN Check(e.out = "err", "C18", "metadata with no JSON form: " \o e.out)
       ELSE IF e.out # "ok" THEN V("C18", "metadata to JSON: " \o e.out)
       ELSE IF Clashing(m) THEN Check(e.doc.j = "obj", "C18", "no JSON object")
       ELSE Check(SameJson(want.v, e.doc), "C18", "metadata is another document")
            \union
            IF ~back.ok THEN Check(e.uout = "err", "C18", "metadata from JSON: " \o e.uout)
            ELSE Check(e.uout = "ok" /\ e.gl # 0 /\ SameBlock(back.v, got), "C18", "metadata reads back as something else: " \o e.uout))
      \union FoldU({ SingleV(m[i][2], e.souts[i][2], singles, m[i][1]) : i \in DOMAIN m })

BsonV(e) ==
  LET m == Val(e.md).md
      d == Document(e.data, 1, BDoc)
  IN  IF ~Keyable(m) THEN Check(e.out = "err", "C23", "a key with no BSON form: " \o e.out)
      ELSE IF e.out # "ok" THEN V("C23", "metadata to BSON: " \o e.out)
      ELSE IF ~d.ok \/ d.p # Len(e.data) + 1 THEN V("C23", "not a BSON document")
      ELSE Check(BlockShown(m, d.v.k), "C23", "metadata is another document")
CsvV(e) ==
  IF CsvOK(e.head, e.rows) /\ e.what = ""
  THEN IF e.mode \in {"missing", "dir"} THEN Check(e.exit > 0 /\ e.len = 0, "C22", "from-csv: no input, exit " \o ToString(e.exit) \o " or output") ELSE
       IF e.mode = "devfull" THEN Check(e.exit > 0, "C22", "from-csv: output lost, exit " \o ToString(e.exit)) ELSE
       Both(e.exit = 0 /\ e.gl # 0 /\ SameCsv(CsvRecording(e.head, e.rows), Val(e.gl)), "C19", "C22", "from-csv: exit " \o ToString(e.exit) \o " or another recording")
       \union Check(e.tail = 0, "C22", "from-csv: something behind the end of the file")
  ELSE Both(e.exit > 0 /\ e.gl = 0, "C19", "C22", "from-csv: a table to be refused: exit " \o ToString(e.exit))

CliFailV(e, p) ==
  Check(e.exit > 0, p, e.what \o ": exit " \o ToString(e.exit) \o " for what can not be done")
  \union Check(CASE e.what = "upgrade" -> e.ogl = 0
                [] e.what = "to-json" -> e.doc.j # "obj"
                [] OTHER -> e.olen = 0, p, e.what \o ": failed, yet gave output that looks complete")
CliV(e) ==
  Check(e.same, "C22", e.what \o ": changed its input")
  \union
  IF e.lout # "ok" \/ e.lgl = 0 THEN CliFailV(e, "C22")
  ELSE IF e.mode = "devfull" THEN Check(e.exit > 0, "C22", e.what \o ": output lost, exit " \o ToString(e.exit))
  ELSE LET r == Val(e.lgl) IN
    CASE e.what = "upgrade" ->
           IF ~Accepted(UpCfg, r) THEN CliFailV(e, "C22")
           ELSE Check(e.exit = 0 /\ Meant1(UpCfg, r, e.ogl), "C22", "upgrade: exit " \o ToString(e.exit) \o " or another recording")
                \union Check(e.ogl = 0 \/ Compare(UpCfg, r, Val(e.ogl)) = No, "C22", "upgrade: beyond the precision of its techniques")
                \union Check(e.tail = 0, "C22", "upgrade: something behind the end of the file")
      [] e.what = "to-json" ->
           IF RecExportable(r) THEN Both(e.exit = 0 /\ RecShown(r, e.doc), "C18", "C22", "to-json: exit " \o ToString(e.exit) \o " or another document")
           ELSE CliFailV(e, "C18") \union CliFailV(e, "C22")
      [] OTHER -> Check(e.exit = 0 /\ SummaryOK(r, e.size, e.text), "C22", "summary: exit " \o ToString(e.exit) \o " or false")

\* operations at the same time: each as it is alone, and no data race
TogetherV(e) ==
  LET n == Len(e.jobs)
      off == {i \in 1..n : e.alone[i] # e.res[i]}
  IN  Check(off = {}, "C20", "at the same time another result: " \o e.jobs[CHOOSE i \in off : TRUE])
      \union Check(e.races = 0, "C20", "data race")
\* what an operation next to others gets wrong, those others may have caused
Beside(e, vs) == IF vs # No /\ "par" \in DOMAIN e /\ e.par
                 THEN vs \union V("C20", "next to other operations: " \o e.op \o " " \o e.out) ELSE vs

Violations1(e, parsed) ==
  CASE e.op = "build" -> BuildV(e)
    [] e.op = "slice" -> SliceV(e)
    [] e.op = "validate" -> ValidateV(e)
    [] e.op = "bounds" -> BoundsV(e)
    [] e.op = "write" -> WriteV(e, parsed)
    [] e.op = "load" -> LoadV(e)
    [] e.op = "cuts" -> CutsV(e)
    [] e.op = "dels" -> DelsV(e)
    [] e.op = "srcfails" -> SrcFailsV(e)
    [] e.op = "sinkfails" -> SinkFailsV(e)
    [] e.op = "binfails" -> BinFailsV(e)
    [] e.op = "raw" -> RawV(e, parsed)
    [] e.op = "muts" -> MutsV(e)
    [] e.op = "reject" -> RejectV(e)
    [] e.op = "raw1" -> Raw1V(e, parsed)
    [] e.op = "muts1" -> Muts1V(e)
    [] e.op = "rewrite" -> RewriteV(e)
    [] e.op = "nego" -> NegoV(Val(recs[e.src]), e, Val)
    [] e.op = "json" -> JsonV(e)
    [] e.op = "jsoncuts" -> JsonCutsV(e)
    [] e.op = "trip" -> TripV(e)
    [] e.op = "bson" -> BsonV(e)
    [] e.op = "csv" -> CsvV(e)
    [] e.op = "cli" -> CliV(e)
    [] e.op = "cells" -> Check(CellsOK(e.h, e.noise, e.e), IF e.time THEN "C06" ELSE "C05", "measured cells: " \o e.kind)
    [] e.op = "steps" -> Check(StepsOK(e.h, e.noise, e.e, e.lo, e.hi), IF e.time THEN "C06" ELSE "C05", "measured steps: " \o e.kind)
                         \union Check(OrderOK(e.back), "C06", "times go back")
    [] e.op = "together" -> TogetherV(e)
    [] OTHER -> No
Violations(e, parsed) == Beside(e, Violations1(e, parsed))

Init == l = 1 /\ recs = <<>> /\ files = <<>> /\ full = <<>>
Step(e) ==
  \E parsed \in { IF e.op = "write" THEN Parsed(e) ELSE IF e.op = "raw" THEN RawParsed(e)
                  ELSE IF e.op = "raw1" THEN ParseV1(e.body) ELSE NoParse } :
    /\ \E vs \in { Violations(e, parsed) } :
         IF vs = No THEN TRUE ELSE PrintT("@@V " \o ToJson([l |-> l, v |-> vs]))
    /\ recs' = IF e.op = "reset" THEN <<>>
               ELSE IF e.op = "build" /\ e.out = "ok" THEN Put(recs, e.h, e.wl)
               ELSE IF e.op = "slice" /\ e.out = "ok" /\ e.gl # 0 THEN Put(recs, e.h, e.gl)
               ELSE IF e.op = "load" /\ e.h # "" /\ e.gl # 0 THEN Put(recs, e.h, e.gl)
               ELSE recs
    /\ files' = IF e.op = "reset" THEN <<>>
                ELSE IF e.op = "write" /\ e.out = "ok" THEN Put(files, e.f, WrittenFile(e, parsed))
                ELSE IF e.op = "raw" /\ e.f # "" THEN Put(files, e.f, RawFile(e, parsed))
                ELSE IF e.op = "raw1" /\ e.f # "" THEN Put(files, e.f, Raw1File(e))
                ELSE files
    /\ full' = IF e.op = "reset" THEN <<>>
               ELSE IF e.op = "load" /\ e.out = "ok" THEN Put(full, e.f, e.gl)
               ELSE IF e.op \in {"raw", "raw1"} /\ e.f # "" THEN Put(full, e.f, e.gl)
               ELSE full
Next ==
  /\ l <= Len(Trace)
  /\ Step(Trace[l])
  /\ l' = l + 1
  /\ IF l = Len(Trace) THEN PrintT("@@END " \o ToString(l)) ELSE TRUE
Spec == Init /\ [][Next]_vars
===============================================================================
