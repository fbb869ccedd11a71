------------------------------- MODULE RapNego --------------------------------
(* Which encoder gets which collection, what the file records about it and   *)
(* which readers accept it.  Encoders: [sig, ver, acc, fenc, fdec]; their    *)
(* signatures are distinct within a list.                                    *)
EXTENDS RapWire
LOCAL INSTANCE SequencesExt

\* versions next to each other, and around where their stored form changes
Vers == {WOfInt(n) : n \in {0, 1, 2, 126, 127, 128, 300, 16383, 16384, 65535, 65536, 65537}} \union
        {<<0, 0, 32767, 65535>>, <<0, 0, 32768, 0>>, <<0, 0, 65535, 65535>>, <<0, 1, 0, 0>>, <<0, 1, 0, 1>>, <<32767, 65535, 65535, 65535>>,
         <<32768, 0, 0, 0>>, <<65535, 65535, 65535, 65534>>, <<65535, 65535, 65535, 65535>>}
Owner(encs, c) ==
  LET I == {i \in DOMAIN encs : c.k \in RangeOf(encs[i].acc)}
  IN  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j
Owners(encs, r) == LET cs == AllCols(r) IN [i \in DOMAIN cs |-> Owner(encs, cs[i])]
OwnedBy(encs, r, t) == SelectSeq(AllCols(r), LAMBDA c : Owner(encs, c) = t)
SameBag(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A x \in RangeOf(a) : Cardinality({i \in DOMAIN a : a[i] = x}) = Cardinality({i \in DOMAIN b : b[i] = x})
EntryFor(reg, sig) == LET I == {i \in DOMAIN reg : reg[i].sig = sig}
                      IN  IF I = {} THEN 0 ELSE CHOOSE i \in I : \A j \in I : i <= j

NegoWriteOK(r, e) ==
  LET own == Owners(e.encs, r)
      used == RangeOf(own)
      h == ParseHead(e.head)
  IN  /\ h.ok
      /\ Len(h.v.sigs) = Cardinality(used)
      /\ RangeOf([i \in DOMAIN h.v.sigs |-> <<h.v.sigs[i], h.v.vers[i]>>])
           = {<<e.encs[t].sig, e.encs[t].ver>> : t \in used}
      \* one call for each encoder used, with all its collections
      /\ Len(e.enc) = Cardinality(used)
      /\ {e.enc[i].tag : i \in DOMAIN e.enc} = used
      /\ \A i \in DOMAIN e.enc :
           LET mine == OwnedBy(e.encs, r, e.enc[i].tag)
           IN  SameBag(e.enc[i].names, [j \in DOMAIN mine |-> mine[j].nm])

\* the file's table names encoders that were registered, with their versions
NegoTableOK(e) ==
  LET h == ParseHead(e.head)
  IN  h.ok /\ \A i \in DOMAIN h.v.sigs : \E t \in DOMAIN e.encs : e.encs[t].sig = h.v.sigs[i] /\ e.encs[t].ver = h.v.vers[i]

NegoReadV(r, e, x, get(_)) ==
  LET cs == AllCols(r)
      own == Owners(e.encs, r)
      ent(t) == EntryFor(x.reg, e.encs[t].sig)
      fits == \A t \in RangeOf(own) : ent(t) # 0 /\ WLeq(e.encs[t].ver, x.reg[ent(t)].ver)
      fails == \E t \in RangeOf(own) : x.reg[ent(t)].fdec
  IN  IF ~fits THEN (IF x.out = "err" /\ x.gl = 0 THEN {} ELSE {<<"C14", "a reader without the encoder: " \o x.out>>})
      ELSE IF fails THEN (IF x.out = "err" /\ x.gl = 0 THEN {} ELSE {<<"C21", "a decoder failed, yet " \o x.out>>})
      ELSE IF x.out = "ok" /\ x.gl # 0 /\ SameRec(r, get(x.gl))
              /\ SameBag([i \in DOMAIN x.dec |-> <<x.dec[i].tag, x.dec[i].name, x.dec[i].hdr, x.dec[i].n>>],
                         [i \in DOMAIN cs |-> <<ent(own[i]), cs[i].nm, own[i], Len(cs[i].caps)>>])
           THEN {} ELSE {<<"C14", "decoding: " \o x.out>>}

\* the list of encoders is the caller's, who may use it elsewhere
Untouched(encs, order) == order = [i \in DOMAIN encs |-> i]
NegoKeptV(e) ==
  IF Untouched(e.encs, e.order) /\ \A i \in DOMAIN e.reads : Untouched(e.reads[i].reg, e.reads[i].order) THEN {}
  ELSE {<<"C20", "the caller's list of encoders is no longer what it was">>}

NegoV(r, e, get(_)) ==
  NegoKeptV(e) \union
  LET own == Owners(e.encs, r)
      used == RangeOf(own) \ {0}
  IN  IF 0 \in RangeOf(own)
      THEN (IF e.out = "err" /\ e.len = 0 /\ e.enc = <<>> THEN {} ELSE {<<"C15", "nobody accepts a collection, yet " \o e.out>>})
      ELSE IF \E t \in used : e.encs[t].fenc
      THEN (IF e.out = "err" THEN {} ELSE {<<"C14", "an encoder failed, yet " \o e.out>>})
      ELSE IF e.out # "ok" THEN {<<"C14", "write: " \o e.out>>}
      ELSE (IF NegoWriteOK(r, e) THEN {} ELSE {<<"C14", "assignment of collections to encoders">>})
           \union (IF NegoTableOK(e) THEN {} ELSE {<<"C07", "the table of encoders does not say what they say">>})
           \union UNION { NegoReadV(r, e, e.reads[i], get) : i \in DOMAIN e.reads }
================================================================================
