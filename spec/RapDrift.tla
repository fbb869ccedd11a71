------------------------------- MODULE RapDrift -------------------------------
(* The design of the corrected techniques: steps are stored as cells of a    *)
(* range, and the writer aims each cell at the next value from where the     *)
(* reader will be, not from where the last value was.  All states of it, in  *)
(* units of a quarter cell, for any sequence of steps.                       *)
(*                                                                           *)
(* What RapLossy!CorrectedOK and RapMeasure!StepsOK ask of the code is here  *)
(* a theorem of the design, together with what a user may take from it:      *)
(* steps that stay half a cell clear of the ends of the range are within     *)
(* half a cell however many there are; an error got at an end is given back  *)
(* as soon as steps leave the end; times never go back.                      *)
EXTENDS Integers, IOUtils

Deep == IOEnv.TIER = "thorough"
Bits == IF Deep THEN 4 ELSE 3
Half == 2                       \* half a cell
Cells == IF Deep THEN 16 ELSE 8
W == Cells * 2 * Half           \* the width of the range
MaxErr == 6 * Half              \* how far we follow
VARIABLES e,       \* where the reader is, less where the value is
          d,       \* the step just taken, from the lower end of the range
          was,     \* e before it
          moved,   \* how far the reader moved, from the lower end of the range
          clear    \* all steps so far were half a cell clear of the ends
vars == <<e, d, was, moved, clear>>

\* the cell found by halving the range, as the writer does
RECURSIVE Halve(_, _, _, _)
Halve(x, lo, hi, n) == IF n = 0 THEN (lo + hi) \div 2
                       ELSE LET mid == (lo + hi) \div 2 IN
                            IF x < mid THEN Halve(x, lo, mid, n - 1) ELSE Halve(x, mid, hi, n - 1)
Centre(x) == Halve(x, 0, W, Bits)
Take(step) ==
  /\ d' = step
  /\ was' = e
  /\ moved' = Centre(step - e)
  /\ e' = e + moved' - step
  /\ clear' = (clear /\ step >= Half /\ step <= W - Half)
Init == e = 0 /\ d = Half /\ was = 0 /\ moved = Half /\ clear = TRUE
Next == \E step \in 0..W : Take(step)
Spec == Init /\ [][Next]_vars
Followed == e \in (0 - MaxErr)..MaxErr

Min(a, b) == IF a < b THEN a ELSE b
Max(a, b) == IF a > b THEN a ELSE b
Abs(a) == IF a < 0 THEN 0 - a ELSE a
\* what the code is held to
Corrected == /\ e <= Max(Half, was + Half - d)
             /\ e >= Min(0 - Half, was - Half + (W - d))
\* what a user may take from it
NoDrift == clear => Abs(e) <= Half
Recovers == (Abs(was) > Half /\ d >= Half /\ d <= W - Half) => Abs(e) <= Max(Half, Abs(was) - Min(d - Half, W - Half - d))
Forward == moved >= 0
Bounded == Abs(e - was) <= Half \/ Abs(e) <= Max(Half, Abs(was))
=============================================================================
