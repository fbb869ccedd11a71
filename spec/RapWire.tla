------------------------------- MODULE RapWire -------------------------------
(* The version 2 file format: what the bytes of a file mean, and how a file  *)
(* that means a given thing is laid out.                                     *)
(*                                                                           *)
(* A file is its head (version, encoder table, flag) followed by its body    *)
(* (headers, keys, recordings); when the flag is 1 the body is deflated in   *)
(* the real file.  This module sees the body after inflating.                *)
(*                                                                           *)
(* ParseFile gives [ok, p, v, why]; v = [rec, sigs, vers, flag, loose].      *)
(* loose: the file has bytes that nothing in it accounts for, or an          *)
(* undecodable part that nothing uses; whether a reader minds is left open.  *)
EXTENDS RapTypes
LOCAL INSTANCE SequencesExt

SigEvent == "7265636f6c7564652e6576656e74"
SigPosition == "7265636f6c7564652e706f736974696f6e"
SigEuler == "7265636f6c7564652e65756c6572"
SigEnum == "7265636f6c7564652e656e756d"
SigFloat == "7265636f6c7564652e666c6f6174"
SigOf == [k \in Kinds |-> CASE k = "event" -> SigEvent [] k = "position" -> SigPosition
                            [] k = "euler" -> SigEuler [] k = "enum" -> SigEnum
                            [] k = "float" -> SigFloat]
KindOf(sig) == IF \E k \in Kinds : SigOf[k] = sig
               THEN CHOOSE k \in Kinds : SigOf[k] = sig ELSE ""

\* a value this module can not compute (an off grid number in a lossy header)
Unk == <<-1, -1, -1, -1>>
Zero0 == <<-2, 0, 0, 0>>    \* zero, of either sign (a sum of displacements)
SameWord(want, got) == want = got \/ want = Unk \/ (want = Zero0 /\ IsZero64(got))
SameWords(want, got) == Len(want) = Len(got) /\ \A i \in DOMAIN want : SameWord(want[i], got[i])
\* equality with what a file means: computed values equal, others unconstrained
MeantCap(w, g) == SameWord(w.t, g.t) /\ SameWords(w.v, g.v) /\ w.n = g.n /\ SameBlock(w.md, g.md)
MeantCol(w, g) == \/ w = g
                  \/ /\ w.k = g.k /\ w.nm = g.nm /\ w.mem = g.mem /\ Len(w.caps) = Len(g.caps)
                     /\ \A i \in DOMAIN w.caps : MeantCap(w.caps[i], g.caps[i])
MeantRec(w, g) == w = g \/ SameTree(MeantCol, w, g)

\* equality where either side may be unconstrained
EitherWord(a, b) == a = b \/ a = Unk \/ b = Unk \/ (b = Zero0 /\ IsZero64(a))
EitherCap(w, g) == /\ EitherWord(w.t, g.t) /\ Len(w.v) = Len(g.v) /\ w.n = g.n /\ SameBlock(w.md, g.md)
                   /\ \A i \in DOMAIN w.v : EitherWord(w.v[i], g.v[i])
EitherCol(w, g) == \/ w = g
                   \/ /\ w.k = g.k /\ w.nm = g.nm /\ w.mem = g.mem /\ Len(w.caps) = Len(g.caps)
                      /\ \A i \in DOMAIN w.caps : EitherCap(w.caps[i], g.caps[i])
LooseRec(w, g) == w = g \/ SameTree(EitherCol, w, g)

(* ------------------------------------------------------------ numbers in a stream *)
F64At(b, p) == Canon64(Words64(b, p))
F32At(b, p) == ToF64(Canon32(Words32(b, p)))
\* n float64s / float32s in a row (as float64 words)
F64s(b, p, n) == IF n > Len(b) \/ Len(b) - p + 1 < 8 * n THEN Fail(p, "short", <<>>)
                 ELSE Good(p + 8 * n, [i \in 1..n |-> F64At(b, p + 8 * (i - 1))])
F32s(b, p, n) == IF n > Len(b) \/ Len(b) - p + 1 < 4 * n THEN Fail(p, "short", <<>>)
                 ELSE Good(p + 4 * n, [i \in 1..n |-> F32At(b, p + 4 * (i - 1))])

\* bit k of byte x
BitAt(x, k) == (x \div P2[k]) % 2
Rev8 == TLCEval([x \in 0..255 |-> FoldLeft(LAMBDA a, k : 2 * a + BitAt(x, k), 0, <<0, 1, 2, 3, 4, 5, 6, 7>>)])
\* a 16 bit cell of the binary tree: bit 0 of the first byte decides first
Cell16(b, p) == Rev8[b[p]] * 256 + Rev8[b[p + 1]]
\* an axis of an octree: bit 0 of its byte decides first; 1 is the lower half
Axis8(x) == 255 - Rev8[x]

\* the centre of cell q of 2^bits cells over [lo, lo + range], all scaled by
\* 2^17, when it is on the grid; range a whole number below 2^12
WholeRange(r) == r # OffGrid /\ r >= 0 /\ r % P2[ScaleBits] = 0 /\ r <= 4095 * P2[ScaleBits]
Centre(lo, r, q, bits) ==
  IF lo = OffGrid \/ ~WholeRange(r) THEN OffGrid
  ELSE lo + (r \div P2[ScaleBits]) * (2 * q + 1) * P2[ScaleBits - bits - 1]
Plus(a, b) == IF a = OffGrid \/ b = OffGrid \/ AbsOf(a) > P2[28] \/ AbsOf(b) > P2[28]
              THEN OffGrid ELSE a + b
ScaledOrUnk(n) == IF n = OffGrid THEN Unk ELSE IF n = 0 THEN Zero0 ELSE F64OfScaled(n)
\* differences of two scaled numbers
Width(lo, hi) == IF lo = OffGrid \/ hi = OffGrid \/ AbsOf(lo) > P2[28] \/ AbsOf(hi) > P2[28]
                 THEN OffGrid ELSE hi - lo
\* running sums: s, s + d1, s + d1 + d2, ...
Sums(s, ds) == FoldLeft(LAMBDA a, d : Append(a, Plus(a[Len(a)], d)), <<s>>, ds)

(* ------------------------------------------------------------------ capture times *)
\* technique, count, payload
ParseTimes(b, p) ==
  IF p > Len(b) THEN Fail(p, "short", <<>>)
  ELSE
  LET tech == b[p]
      n == UVarInt(b, p + 1)
  IN  IF ~n.ok THEN Fail(n.p, n.why, <<>>)
      ELSE IF tech = 0 THEN F64s(b, n.p, n.v)
      ELSE IF tech = 1 THEN F32s(b, n.p, n.v)
      ELSE IF tech # 2 THEN Fail(p, "bad", <<>>)
      ELSE IF n.v < 2 THEN F32s(b, n.p, n.v)
      ELSE IF n.v > Len(b) \/ Len(b) - n.p + 1 < 8 + 2 * (n.v - 1) THEN Fail(n.p, "short", <<>>)
      ELSE LET start == Scaled32(Words32(b, n.p))
               gap == Scaled32(Words32(b, n.p + 4))
               ds == [i \in 1..(n.v - 1) |-> Centre(0, gap, Cell16(b, n.p + 6 + 2 * i), 16)]
               sums == Sums(start, ds)
           IN  Good(n.p + 8 + 2 * (n.v - 1),
                    [i \in 1..n.v |-> IF i = 1 THEN F32At(b, n.p) ELSE ScaledOrUnk(sums[i])])

(* ------------------------------------------------------------- collection contents *)
Cap(t, v) == [t |-> t, v |-> v, n |-> "", md |-> <<>>]
Col(k, nm, mem, caps) == [k |-> k, nm |-> nm, mem |-> mem, caps |-> caps]
Triples(ts, vs) == [i \in DOMAIN ts |-> Cap(ts[i], <<vs[3 * i - 2], vs[3 * i - 1], vs[3 * i]>>)]

\* d: the data of one collection; ts: its times.  All give the captures.
Then(r, Make(_)) == IF r.ok THEN Good(r.p, Make(r.v)) ELSE Fail(r.p, r.why, <<>>)

ParsePositions(d, ts) ==
  IF d = <<>> THEN Fail(1, "short", <<>>)
  ELSE
  LET n == Len(ts)
      Make(vs) == Triples(ts, vs)
      bytes == IF d[1] = 2 THEN 6 ELSE 3
      bits == IF d[1] = 2 THEN 16 ELSE 8
      Axis(p, a) == IF d[1] = 2 THEN Axis8(d[p + a - 1]) * 256 + Axis8(d[p + a + 2])
                    ELSE Axis8(d[p + a - 1])
      \* byte order z, x, y; axes x, y, z
      Byte(a) == CASE a = 1 -> 2 [] a = 2 -> 3 [] OTHER -> 1
  IN  CASE d[1] = 0 -> Then(F64s(d, 2, 3 * n), Make)
        [] d[1] = 1 -> Then(F32s(d, 2, 3 * n), Make)
        [] d[1] \in {2, 3} ->
             IF n = 0 THEN Good(2, <<>>)
             ELSE IF n = 1 THEN Then(F32s(d, 2, 3), Make)
             ELSE IF Len(d) < 37 + bytes * (n - 1) THEN Fail(2, "short", <<>>)
             ELSE LET H(i) == Scaled32(Words32(d, 2 + 4 * (i - 1)))
                      path(a) == Sums(H(6 + a),
                                   [i \in 1..(n - 1) |->
                                      Centre(H(a), Width(H(a), H(3 + a)),
                                             Axis(38 + bytes * (i - 1), Byte(a)), bits)])
                      px == path(1)
                      py == path(2)
                      pz == path(3)
                  IN  Good(38 + bytes * (n - 1),
                           [i \in 1..n |->
                              Cap(ts[i], IF i = 1 THEN F32s(d, 26, 3).v
                                         ELSE <<ScaledOrUnk(px[i]), ScaledOrUnk(py[i]), ScaledOrUnk(pz[i])>>)])
        [] OTHER -> Fail(1, "bad", <<>>)

ParseEulers(d, ts) ==
  IF d = <<>> THEN Fail(1, "short", <<>>)
  ELSE
  LET n == Len(ts)
      Make(vs) == Triples(ts, vs)
  IN  CASE d[1] = 0 -> \* eight bytes and two of padding per component
             IF Len(d) < 1 + 30 * n THEN Fail(2, "short", <<>>)
             ELSE Good(2 + 30 * n, Make([i \in 1..(3 * n) |-> F64At(d, 2 + 10 * (i - 1))]))
        [] d[1] = 1 -> Then(F32s(d, 2, 3 * n), Make)
        [] d[1] = 2 ->
             IF n = 1 THEN Then(F32s(d, 2, 3), Make)
             ELSE IF Len(d) < 1 + 6 * n THEN Fail(2, "short", <<>>)
             ELSE Good(2 + 6 * n,
                       Make([i \in 1..(3 * n) |-> F64OfScaled(360 * (2 * Cell16(d, 2 * i) + 1))]))
        [] OTHER -> Fail(1, "bad", <<>>)

ParseFloats(d, ts) ==
  IF d = <<>> THEN Fail(1, "short", <<>>)
  ELSE
  LET n == Len(ts)
      Make(vs) == [i \in 1..n |-> Cap(ts[i], <<vs[i]>>)]
  IN  CASE d[1] = 0 -> Then(F64s(d, 2, n), Make)
        [] d[1] = 1 -> Then(F32s(d, 2, n), Make)
        [] d[1] = 2 ->
             IF Len(d) < 9 + 2 * n THEN Fail(2, "short", <<>>)
             ELSE LET lo == Scaled32(Words32(d, 2))
                      hi == Scaled32(Words32(d, 6))
                  IN  Good(10 + 2 * n,
                           Make([i \in 1..n |->
                                   ScaledOrUnk(Centre(lo, Width(lo, hi), Cell16(d, 8 + 2 * i), 16))]))
        [] OTHER -> Fail(1, "bad", <<>>)

\* the members an enum file shares, then per collection the members' indices
\* and the value of each capture
ParseEnums(dict, d, ts) ==
  LET ix == UVarIntArray(d, 1)
      vs == Many(UVarWords, d, ix.p, Len(ts))
  IN  IF ~ix.ok THEN Fail(ix.p, ix.why, <<>>)
      ELSE IF \E i \in DOMAIN ix.v : ix.v[i] >= Len(dict) THEN Fail(ix.p, "bad", <<>>)
      ELSE IF ~vs.ok THEN Fail(vs.p, vs.why, <<>>)
      ELSE Good(vs.p, [mem |-> [i \in DOMAIN ix.v |-> dict[ix.v[i] + 1]],
                       caps |-> [i \in DOMAIN ts |-> Cap(ts[i], <<vs.v[i]>>)]])

ParseEventHeader(h) ==
  LET names == TextArray(h, 1)
      keys == TextArray(h, names.p)
  IN  IF ~names.ok THEN Fail(1, names.why, [names |-> <<>>, keys |-> <<>>])
      ELSE IF ~keys.ok THEN Fail(1, keys.why, [names |-> <<>>, keys |-> <<>>])
      ELSE Good(keys.p, [names |-> names.v, keys |-> keys.v])
ParseEvents(names, keys, d, ts) ==
  LET Item(b, p) ==
        LET ni == UVarInt(b, p)
            md == ParseIndexed(b, ni.p, keys)
        IN  IF ~ni.ok THEN Fail(p, ni.why, <<>>)
            ELSE IF ni.v >= Len(names) THEN Fail(p, "bad", <<>>)
            ELSE IF ~md.ok THEN Fail(md.p, md.why, <<>>)
            ELSE Good(md.p, [n |-> names[ni.v + 1], md |-> md.v])
      r == Many(Item, d, 1, Len(ts))
  IN  IF ~r.ok THEN Fail(r.p, r.why, <<>>)
      ELSE Good(r.p, [i \in DOMAIN ts |->
                        [t |-> ts[i], v |-> <<>>, n |-> r.v[i].n, md |-> r.v[i].md]])

\* hdr: the parsed header of the encoder (see Header below)
ParseContent(kind, hdr, nm, d, ts) ==
  LET Make(caps) == Col(kind, nm, <<>>, caps)
      MakeEnum(e) == Col(kind, nm, e.mem, e.caps)
  IN  IF ~hdr.ok THEN Fail(1, hdr.why, <<>>)
      ELSE CASE kind = "position" -> Then(ParsePositions(d, ts), Make)
             [] kind = "euler" -> Then(ParseEulers(d, ts), Make)
             [] kind = "float" -> Then(ParseFloats(d, ts), Make)
             [] kind = "enum" -> Then(ParseEnums(hdr.v.names, d, ts), MakeEnum)
             [] kind = "event" -> Then(ParseEvents(hdr.v.names, hdr.v.keys, d, ts), Make)

\* the header of an encoder, as far as its kind has one
Header(kind, h) ==
  CASE kind = "event" -> ParseEventHeader(h)
    [] kind = "enum" -> LET m == TextArray(h, 1) IN
                        IF m.ok THEN Good(m.p, [names |-> m.v, keys |-> <<>>])
                        ELSE Fail(1, m.why, [names |-> <<>>, keys |-> <<>>])
    [] OTHER -> Good(1, [names |-> <<>>, keys |-> <<>>])

(* -------------------------------------------------------------------- recordings *)
\* env: [kinds, hdrs, keys]
ParseCollection(env, b, p) ==
  LET ei == UVarInt(b, p)
      nm == Text(b, ei.p)
      ts == ParseTimes(b, nm.p)
      d == ByteArray(b, ts.p)
  IN  IF ~ei.ok THEN Fail(p, ei.why, <<>>)
      ELSE IF ei.v >= Len(env.kinds) THEN Fail(p, "bad", <<>>)
      ELSE IF ~nm.ok THEN Fail(nm.p, nm.why, <<>>)
      ELSE IF ~ts.ok THEN Fail(ts.p, ts.why, <<>>)
      ELSE IF ~d.ok THEN Fail(d.p, d.why, <<>>)
      ELSE LET c == ParseContent(env.kinds[ei.v + 1], env.hdrs[ei.v + 1], nm.v, d.v, ts.v)
           IN  IF ~c.ok THEN Fail(d.p, c.why, <<>>)
               ELSE Good(d.p, [col |-> c.v, enc |-> ei.v, rest |-> Len(d.v) + 1 - c.p])

ParseRef(env, b, p) ==
  LET nm == Text(b, p)
      uri == Text(b, nm.p)
      sz == UVarWords(b, uri.p)
      md == ParseIndexed(b, sz.p, env.keys)
  IN  IF ~nm.ok THEN nm ELSE IF ~uri.ok THEN uri ELSE IF ~sz.ok THEN Fail(sz.p, sz.why, <<>>)
      ELSE IF ~md.ok THEN md
      ELSE Good(md.p, [nm |-> nm.v, uri |-> uri.v, sz |-> sz.v, md |-> md.v])
ParseBin(env, b, p) ==
  LET nm == Text(b, p)
      sz == UVarInt(b, nm.p)
      md == ParseIndexed(b, sz.p, env.keys)
      data == TakeBytes(b, md.p, sz.v)
  IN  IF ~nm.ok THEN nm ELSE IF ~sz.ok THEN Fail(sz.p, sz.why, <<>>)
      ELSE IF ~md.ok THEN md ELSE IF ~data.ok THEN data
      ELSE Good(data.p, [nm |-> nm.v, data |-> ToHex(data.v), sz |-> WOfInt(sz.v), md |-> md.v])

RECURSIVE ParseRec(_, _, _)
ParseRec(env, b, p) ==
  LET ColItem(bb, pp) == ParseCollection(env, bb, pp)
      RefItem(bb, pp) == ParseRef(env, bb, pp)
      BinItem(bb, pp) == ParseBin(env, bb, pp)
      RecItem(bb, pp) == ParseRec(env, bb, pp)
      id == Text(b, p)
      nm == Text(b, id.p)
      md == ParseIndexed(b, nm.p, env.keys)
      cols == Counted(ColItem, b, md.p)
      refs == Counted(RefItem, b, cols.p)
      bins == Counted(BinItem, b, refs.p)
      kids == Counted(RecItem, b, bins.p)
  IN  IF ~id.ok THEN id ELSE IF ~nm.ok THEN nm ELSE IF ~md.ok THEN md
      ELSE IF ~cols.ok THEN cols ELSE IF ~refs.ok THEN refs
      ELSE IF ~bins.ok THEN bins ELSE IF ~kids.ok THEN kids
      ELSE Good(kids.p,
             [rec |-> [id |-> id.v, nm |-> nm.v, md |-> md.v,
                       cols |-> [i \in DOMAIN cols.v |-> cols.v[i].col],
                       refs |-> refs.v, bins |-> bins.v,
                       kids |-> [i \in DOMAIN kids.v |-> kids.v[i].rec]],
              used |-> FoldLeft(LAMBDA a, k : a \union k.used,
                                {cols.v[i].enc : i \in DOMAIN cols.v}, kids.v),
              loose |-> (\E i \in DOMAIN cols.v : cols.v[i].rest # 0)
                        \/ (\E i \in DOMAIN kids.v : kids.v[i].loose)])

(* -------------------------------------------------------------------------- files *)
\* head: version, encoder table, flag.  reg: the registered encoders of a reader
\* as <<signature, version>> pairs with distinct signatures
ParseHead(b) ==
  IF b = <<>> THEN Fail(1, "short", <<>>)
  ELSE IF b[1] # 2 THEN Fail(1, "bad", <<>>)
  ELSE LET sigs == TextArray(b, 2)
           vers == Many(UVarWords, b, sigs.p, Len(sigs.v))
       IN  IF ~sigs.ok THEN Fail(sigs.p, sigs.why, <<>>)
           ELSE IF ~vers.ok THEN Fail(vers.p, vers.why, <<>>)
           ELSE IF vers.p > Len(b) THEN Fail(vers.p, "short", <<>>)
           ELSE Good(vers.p + 1, [sigs |-> sigs.v, vers |-> vers.v, flag |-> b[vers.p]])
Registered(reg, sig, ver) == \E i \in DOMAIN reg : reg[i][1] = sig /\ WLeq(ver, WOfInt(reg[i][2]))

\* the body at p; kinds: the kind of each entry of the encoder table
ParseBody(b, p, kinds) ==
  LET hdrs == Many(ByteArray, b, p, Len(kinds))
      keys == TextArray(b, hdrs.p)
  IN  IF ~hdrs.ok THEN Fail(hdrs.p, hdrs.why, <<>>)
      ELSE IF ~keys.ok THEN Fail(keys.p, keys.why, <<>>)
      ELSE LET parsed == [i \in DOMAIN kinds |-> Header(kinds[i], hdrs.v[i])]
               r == ParseRec([kinds |-> kinds, hdrs |-> parsed, keys |-> keys.v], b, keys.p)
           IN  IF ~r.ok THEN Fail(r.p, r.why, <<>>)
               ELSE Good(r.p,
                      [rec |-> r.v.rec, keys |-> keys.v, used |-> r.v.used,
                       names |-> [i \in DOMAIN kinds |-> parsed[i].v],
                       loose |-> \/ r.v.loose
                                 \/ \E i \in DOMAIN kinds :
                                      \/ ~parsed[i].ok
                                      \/ kinds[i] \in {"event", "enum"} /\ parsed[i].p # Len(hdrs.v[i]) + 1
                                      \/ kinds[i] \notin {"event", "enum"} /\ hdrs.v[i] # <<>>])

\* a whole file (head then inflated body) for a reader with encoders reg
ParseFile(b, reg) ==
  LET h == ParseHead(b) IN
  IF ~h.ok THEN h
  ELSE IF \E i \in DOMAIN h.v.sigs : ~Registered(reg, h.v.sigs[i], h.v.vers[i])
  THEN Fail(h.p, "bad", <<>>)
  ELSE LET r == ParseBody(b, h.p, [i \in DOMAIN h.v.sigs |-> KindOf(h.v.sigs[i])])
       IN  IF ~r.ok THEN r
           ELSE Good(r.p, [rec |-> r.v.rec, sigs |-> h.v.sigs, vers |-> h.v.vers, flag |-> h.v.flag,
                           keys |-> r.v.keys, used |-> r.v.used, names |-> r.v.names,
                           loose |-> r.v.loose \/ h.v.flag > 1])

AllBuiltin == << <<SigEvent, 0>>, <<SigPosition, 0>>, <<SigEuler, 0>>, <<SigEnum, 0>>, <<SigFloat, 0>> >>
LoadBuiltin == SubSeq(AllBuiltin, 1, 4)

(* ========================================================================= layout *)
\* Laying a recording out.  A collection to lay out carries two more fields:
\*   tt: the time technique;   ct: the content technique;
\*   e: the entry of the encoder table (0: the first of its kind);
\*   trim: bytes missing at the end of its data.
\* Lossy techniques are laid out from given bytes instead (raw: the payload
\* after the technique byte), for their encoding leaves the writer a choice.
EncF64s(ws) == Cat([i \in DOMAIN ws |-> LE64(ws[i])])
EncF32s(ws) == Cat([i \in DOMAIN ws |-> LE32(ToF32(ws[i]))])
\* a cell of the binary tree and of an octree axis
EncCell16(q) == <<Rev8[q \div 256], Rev8[q % 256]>>
EncAxis8(q) == Rev8[255 - q]

EncTimes(tech, ts) ==
  <<tech>> \o UVar(Len(ts)) \o (IF tech = 0 THEN EncF64s(ts) ELSE EncF32s(ts))
FlatV(caps) == Cat([i \in DOMAIN caps |-> caps[i].v])
Pad10(ws) == Cat([i \in DOMAIN ws |-> LE64(ws[i]) \o <<0, 0>>])
EncContent(dict, col) ==
  LET vs == FlatV(col.caps) IN
  CASE col.k \in {"position", "float"} ->
         <<col.ct>> \o (IF col.ct = 0 THEN EncF64s(vs) ELSE IF col.ct = 1 THEN EncF32s(vs) ELSE col.raw)
    [] col.k = "euler" ->
         <<col.ct>> \o (IF col.ct = 0 THEN Pad10(vs) ELSE IF col.ct = 1 THEN EncF32s(vs) ELSE col.raw)
    [] col.k = "enum" ->
         EncUVars([i \in DOMAIN col.mem |-> IndexIn(dict.names, col.mem[i])]) \o
         Cat([i \in DOMAIN vs |-> UVarW(vs[i])])
    [] col.k = "event" ->
         Cat([i \in DOMAIN col.caps |->
                UVar(IndexIn(dict.names, col.caps[i].n)) \o EncIndexed(col.caps[i].md, dict.keys)])

\* dicts: per entry of the encoder table its dictionary [names, keys]; the
\* entry that encodes a kind is the first of that signature, unless the
\* collection names one itself (field e, 0 for none)
\* a defect: the last t bytes are gone, or -t bytes follow
Trim(bytes, t) == IF t >= 0 THEN SubSeq(bytes, 1, Len(bytes) - t)
                  ELSE bytes \o [i \in 1..(0 - t) |-> 85]
EntryOf(sigs, col) == IF col.e > 0 THEN col.e ELSE IndexOf(sigs, SigOf[col.k])
EncCollection(sigs, dicts, col) ==
  LET e == EntryOf(sigs, col) IN
  UVar(e - 1) \o EncText(col.nm) \o
  (IF col.tt = 2 THEN col.traw ELSE EncTimes(col.tt, [i \in DOMAIN col.caps |-> col.caps[i].t])) \o
  EncBytes(Trim(EncContent(dicts[e], col), col.trim))
EncRef(keys, r) == EncText(r.nm) \o EncText(r.uri) \o UVarW(r.sz) \o EncIndexed(r.md, keys)
EncBin(keys, r) == EncText(r.nm) \o UVarW(r.sz) \o EncIndexed(r.md, keys) \o FromHex(r.data)
RECURSIVE EncRec(_, _, _, _)
EncRec(sigs, dicts, keys, r) ==
  EncText(r.id) \o EncText(r.nm) \o EncIndexed(r.md, keys) \o
  UVar(Len(r.cols)) \o Cat([i \in DOMAIN r.cols |-> EncCollection(sigs, dicts, r.cols[i])]) \o
  UVar(Len(r.refs)) \o Cat([i \in DOMAIN r.refs |-> EncRef(keys, r.refs[i])]) \o
  UVar(Len(r.bins)) \o Cat([i \in DOMAIN r.bins |-> EncBin(keys, r.bins[i])]) \o
  UVar(Len(r.kids)) \o Cat([i \in DOMAIN r.kids |-> EncRec(sigs, dicts, keys, r.kids[i])])

EncHeader(sig, dict) ==
  IF sig = SigEvent THEN EncTexts(dict.names) \o EncTexts(dict.keys)
  ELSE IF sig = SigEnum THEN EncTexts(dict.names)
  ELSE dict.extra
EncHead(sigs, vers, flag) == <<2>> \o EncTexts(sigs) \o Cat([i \in DOMAIN vers |-> UVarW(vers[i])]) \o <<flag>>
EncBody(sigs, dicts, keys, r) ==
  Cat([i \in DOMAIN sigs |-> EncBytes(Trim(EncHeader(sigs[i], dicts[i]), dicts[i].trim))]) \o
  EncTexts(keys) \o EncRec(sigs, dicts, keys, r)
=============================================================================
