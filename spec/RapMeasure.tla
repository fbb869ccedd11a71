------------------------------ MODULE RapMeasure ------------------------------
(* The rules of RapLossy on measurements: for values of any scale the        *)
(* recorder reports errors and slacks in units of a fraction of half a cell  *)
(* (or of the floating point noise where that is coarser), rounded to        *)
(* integers.  h: half a cell; noise: the floating point noise; both in the   *)
(* same units.                                                               *)
EXTENDS Integers, Sequences
LOCAL INSTANCE RapBytes

Rounding == 3
\* values quantised one by one: within half a cell
CellsOK(h, noise, errs) == \A i \in DOMAIN errs : AbsOf(errs[i]) <= h + noise + Rounding
\* steps quantised with correction of the error so far; lo[i], hi[i]: how far
\* step i lies inside of the range (entry 1 is unused)
StepsOK(h, noise, errs, lo, hi) ==
  \A i \in DOMAIN errs :
    IF i = 1 THEN AbsOf(errs[1]) <= noise + Rounding
    ELSE /\ errs[i] <= MaxOf(h, errs[i - 1] + h - lo[i]) + 2 * noise + Rounding
         /\ errs[i] >= MinOf(0 - h, errs[i - 1] - h + hi[i]) - 2 * noise - Rounding
\* never before the one before it
OrderOK(back) == back = 0
================================================================================
