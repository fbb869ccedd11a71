------------------------------ MODULE RapTypes ------------------------------
(* Abstract recordings and the pure operations on them.                      *)
(*                                                                           *)
(*  recording   [id, nm, md, cols, refs, bins, kids]                         *)
(*  collection  [k, nm, mem, caps]   k: "position" "euler" "float" "enum"    *)
(*              "event"; mem: the members of an enum, else <<>>              *)
(*  capture     [t, v, n, md]  t: time as float64 words; v: the components   *)
(*              as float64 words (an enum's value as the words of its 64 bit *)
(*              pattern); n, md: name and metadata of an event               *)
(*  reference   [nm, uri, sz, md]    sz: size as words                       *)
(*  binary      [nm, data, sz, md]                                           *)
(* All text is hexadecimal.                                                  *)
EXTENDS RapMeta, RapFloat
LOCAL INSTANCE SequencesExt

Kinds == {"position", "euler", "float", "enum", "event"}
Components == [k \in Kinds |-> CASE k \in {"position", "euler"} -> 3 [] k = "event" -> 0 [] OTHER -> 1]

(* ------------------------------------------------------------- equality of trees *)
SameCap(a, b) == a.t = b.t /\ a.v = b.v /\ a.n = b.n /\ SameBlock(a.md, b.md)
SameCol(a, b) ==
  \/ a = b
  \/ /\ a.k = b.k /\ a.nm = b.nm /\ a.mem = b.mem
     /\ Len(a.caps) = Len(b.caps)
     /\ \A i \in DOMAIN a.caps : SameCap(a.caps[i], b.caps[i])
SameRef(a, b) == a.nm = b.nm /\ a.uri = b.uri /\ a.sz = b.sz /\ SameBlock(a.md, b.md)
SameBin(a, b) == a.nm = b.nm /\ a.data = b.data /\ a.sz = b.sz /\ SameBlock(a.md, b.md)
SameSeq(Same(_, _), a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Same(a[i], b[i])

\* equality of everything, collections compared by SC
RECURSIVE SameTree(_, _, _)
SameTree(SC(_, _), a, b) ==
  /\ a.id = b.id /\ a.nm = b.nm
  /\ SameBlock(a.md, b.md)
  /\ SameSeq(SC, a.cols, b.cols)
  /\ SameSeq(SameRef, a.refs, b.refs)
  /\ SameSeq(SameBin, a.bins, b.bins)
  /\ Len(a.kids) = Len(b.kids)
  /\ \A i \in DOMAIN a.kids : SameTree(SC, a.kids[i], b.kids[i])
SameRec(a, b) == a = b \/ SameTree(SameCol, a, b)

(* ------------------------------------------------------------------------ slicing *)
Within(t, lo, hi) == FLeq(lo, t) /\ FLess(t, hi)
SliceCol(col, lo, hi) == [col EXCEPT !.caps = SelectSeq(@, LAMBDA c : Within(c.t, lo, hi))]
RECURSIVE SliceRec(_, _, _, _)
SliceRec(r, lo, hi, keepBins) ==
  [r EXCEPT !.cols = [i \in DOMAIN @ |-> SliceCol(@[i], lo, hi)],
            !.bins = IF keepBins THEN @ ELSE <<>>,
            !.kids = [i \in DOMAIN @ |-> SliceRec(@[i], lo, hi, keepBins)]]

(* ----------------------------------------------------------- validation and bounds *)
\* (comparison by index: a capture earlier than the one before it)
Chronological(col) == \A i \in 2..Len(col.caps) : ~FLess(col.caps[i].t, col.caps[i - 1].t)
\* times the lossy technique speaks about: finite, their differences too in
\* single precision
FiniteTimes(ts) == \A i \in DOMAIN ts : IF Len(ts) = 1 THEN ~IsNaN64(ts[i]) ELSE Exp64(ts[i]) < 1149
RECURSIVE AllCols(_)
AllCols(r) == FoldLeft(LAMBDA a, kid : a \o AllCols(kid), r.cols, r.kids)
Valid(r, required) == ~required \/ LET cs == AllCols(r) IN \A i \in DOMAIN cs : Chronological(cs[i])

AllTimes(r) == LET cs == AllCols(r) IN
  FoldLeft(LAMBDA a, c : a \o [i \in DOMAIN c.caps |-> c.caps[i].t], <<>>, cs)
\* (a time that is no number is before and after nothing)
IsChronological(r) == Valid(r, TRUE) /\ LET ts == AllTimes(r) IN \A i \in DOMAIN ts : ~IsNaN64(ts[i])
StartOf(r) == FoldLeft(FMin, PosInf64, AllTimes(r))
EndOf(r) == FoldLeft(FMax, NegInf64, AllTimes(r))

(* ------------------------------------------------------------------------ counting *)
CountKind(r, k) ==
  FoldLeft(LAMBDA a, c : IF c.k = k THEN a + Len(c.caps) ELSE a, 0, AllCols(r))
RECURSIVE TreeSize(_)
TreeSize(r) == FoldLeft(LAMBDA a, kid : a + TreeSize(kid), 1, r.kids)
RECURSIVE TreeDepth(_)
TreeDepth(r) == 1 + FoldLeft(LAMBDA a, kid : MaxOf(a, TreeDepth(kid)), 0, r.kids)

(* --------------------------------------------------- the dictionaries of a recording *)
RECURSIVE MetaKeys(_)
KeysOf(m) == [i \in DOMAIN m |-> m[i][1]]
\* the keys of recording, reference and binary metadata, over the whole tree
MetaKeys(r) ==
  Distinct(KeysOf(r.md) \o
           Cat([i \in DOMAIN r.refs |-> KeysOf(r.refs[i].md)]) \o
           Cat([i \in DOMAIN r.bins |-> KeysOf(r.bins[i].md)]) \o
           Cat([i \in DOMAIN r.kids |-> MetaKeys(r.kids[i])]))
ColsOfKind(r, k) == SelectSeq(AllCols(r), LAMBDA c : c.k = k)
EventNames(r) == LET cs == ColsOfKind(r, "event") IN
  Distinct(Cat([i \in DOMAIN cs |-> [j \in DOMAIN cs[i].caps |-> cs[i].caps[j].n]]))
EventKeys(r) == LET cs == ColsOfKind(r, "event") IN
  Distinct(Cat([i \in DOMAIN cs |-> Cat([j \in DOMAIN cs[i].caps |-> KeysOf(cs[i].caps[j].md)])]))
EnumMembers(r) == LET cs == ColsOfKind(r, "enum") IN
  Distinct(Cat([i \in DOMAIN cs |-> cs[i].mem]))
UsedKinds(r) == LET cs == AllCols(r) IN {cs[i].k : i \in DOMAIN cs}
=============================================================================
