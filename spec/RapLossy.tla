------------------------------ MODULE RapLossy ------------------------------
(* What the lossy techniques promise, on numbers that are integers once      *)
(* scaled by 2^17.  want, got: sequences of float64 words.  Where a value or *)
(* a range is not on that grid these say nothing (the measured form of the   *)
(* same rules, RapMeasure, covers any float).                                *)
EXTENDS RapFloat
LOCAL INSTANCE SequencesExt

ScaledAll(ws) == [i \in DOMAIN ws |-> ScaledOf64(ws[i])]
OnGrid(ns) == \A i \in DOMAIN ns : ns[i] # OffGrid /\ AbsOf(ns[i]) < P2[28]
\* survives being stored as float32
Fits32(n) == Scaled32(ToF32(F64OfScaled(n))) = n
Whole(r) == r % P2[ScaleBits] = 0 /\ r <= 4095 * P2[ScaleBits]
MinOfSeq(ns) == FoldLeft(MinOf, ns[1], ns)
MaxOfSeq(ns) == FoldLeft(MaxOf, ns[1], ns)

\* one capture is stored in single precision
SingleOK(want, got) == \A i \in DOMAIN want : got[i] = Round32(want[i])

\* grid of 2^16 cells over [min, max]: within half a cell
FloatsOK(want, got) ==
  LET w == ScaledAll(want)
      g == ScaledAll(got)
  IN  want = <<>> \/ ~OnGrid(w) \/
      LET lo == MinOfSeq(w)
          hi == MaxOfSeq(w)
      IN  ~Whole(hi - lo) \/ ~Fits32(lo) \/ ~Fits32(hi) \/
          /\ OnGrid(g)
          /\ \A i \in DOMAIN w : AbsOf(g[i] - w[i]) <= (hi - lo) \div P2[ScaleBits]

\* grid of 2^16 cells over a turn: within half a cell, modulo a turn
Turn == 360 * P2[ScaleBits]
HalfTurn == 180 * P2[ScaleBits]
EulersOK(want, got) ==
  LET w == ScaledAll(want)
      g == ScaledAll(got)
  IN  \A i \in DOMAIN w :
        w[i] = OffGrid \/
        /\ g[i] # OffGrid
        /\ 0 < g[i] /\ g[i] < Turn
        /\ AbsOf(((g[i] - (w[i] % Turn) + HalfTurn) % Turn) - HalfTurn) <= 360

\* a single angle: its value within a turn, in single precision
EulerSingleOK(want, got) ==
  LET w == ScaledAll(want) IN
  \A i \in DOMAIN w : w[i] = OffGrid \/ got[i] = Round32(F64OfScaled(w[i] % Turn))

\* the steps ds quantised over [lo, lo + r] with cells of half width h, errors
\* corrected: e[i] leaves [-h, h] only by what was carried over beyond the slack
CorrectedOK(w, g, lo, hi, h) ==
  \A i \in 2..Len(w) :
    LET d == w[i] - w[i - 1]
        e == g[i] - w[i]
        before == g[i - 1] - w[i - 1]
    IN  /\ e <= MaxOf(h, before + h - (d - lo))
        /\ e >= MinOf(0 - h, before - h + (hi - d))

\* one axis of a position collection of two or more captures
AxisOK(bits, want, got) ==
  LET w == ScaledAll(want)
      g == ScaledAll(got)
  IN  Len(w) < 2 \/ ~OnGrid(w) \/
      LET ds == [i \in 1..(Len(w) - 1) |-> w[i + 1] - w[i]]
          lo == MinOfSeq(ds)
          hi == MaxOfSeq(ds)
      IN  ~Whole(hi - lo) \/ ~Fits32(lo) \/ ~Fits32(hi) \/ ~Fits32(w[1]) \/
          /\ OnGrid(g)
          /\ g[1] = w[1]
          /\ CorrectedOK(w, g, lo, hi, ((hi - lo) \div P2[ScaleBits]) * P2[16 - bits])

\* times in chronological order, 16 bits over [0, largest gap]
TimesOK(want, got) ==
  LET w == ScaledAll(want)
      g == ScaledAll(got)
  IN  Len(w) < 2 \/ ~OnGrid(w) \/
      LET ds == [i \in 1..(Len(w) - 1) |-> w[i + 1] - w[i]]
          hi == MaxOfSeq(ds)
      IN  ~Whole(hi) \/ ~Fits32(hi) \/ ~Fits32(w[1]) \/
          /\ OnGrid(g)
          /\ g[1] = w[1]
          /\ CorrectedOK(w, g, 0, hi, hi \div P2[ScaleBits])
=============================================================================
