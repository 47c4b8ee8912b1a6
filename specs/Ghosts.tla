------------------------------- MODULE Ghosts -------------------------------
(***************************************************************************)
(* Split tracing.  A chain is the sequence of non-skipped interfaces, each *)
(*   [n, k, fr, ft, rr, rt]: reflection / transmission met when travelling *)
(*   forward (fr, ft) and in reverse (rr, rt).                             *)
(* A beam travels forward or in reverse and meets interface j next.        *)
(*   "R" refractive: goes on with the transmission coefficient and turns   *)
(*       round with the reflection coefficient,                            *)
(*   "D" detector: the same, but only met travelling forward,              *)
(*   "M" mirror: folds the sequence, carrying on in the same sense,        *)
(*   others pass.                                                          *)
(* Beams whose flux is below the threshold after an interface are dropped. *)
(***************************************************************************)
EXTENDS OpticTree
CONSTANTS Mul(_, _), Below(_, _), One

Splits(e) == e.k \in {"R", "D"}
Pass(e, rev) == IF Splits(e) THEN (IF rev THEN e.rt ELSE e.ft) ELSE One
Back(e, rev) == IF rev THEN e.rr ELSE e.fr
Act(e) == IF e.k = "M" THEN "turn" ELSE "go"
Stepped(b, e, act, c) == [steps |-> Append(b.steps, [n |-> e.n, rev |-> b.rev, act |-> act]), c |-> Mul(b.c, c), rev |-> b.rev, at |-> b.at]
Onward(b) == [b EXCEPT !.at = IF b.rev THEN b.at - 1 ELSE b.at + 1]
Turned(b) == [b EXCEPT !.rev = ~b.rev]
(* beams leaving interface number b.at of chain ch *)
After(ch, b) ==
  LET e == ch[b.at]
      goes == <<Onward(Stepped(b, e, Act(e), Pass(e, b.rev)))>>
      turns == IF Splits(e) THEN <<Onward(Turned(Stepped(b, e, "turn", Back(e, b.rev))))>> ELSE <<>>
  IN goes \o turns
Out(ch, b) == b.at < 1 \/ b.at > Len(ch)
(* all beams that leave the chain with at least flux m *)
RECURSIVE Exits(_, _, _)
Exits(ch, b, m) ==
  IF Out(ch, b) THEN {b}
  ELSE UNION {IF Below(x.c, m) THEN {} ELSE Exits(ch, x, m) : x \in ToSet(After(ch, b))}
Enter(ch, rev, c) == [steps |-> <<>>, c |-> c, rev |-> rev, at |-> IF rev THEN Len(ch) ELSE 1]
AllExits(ch, rev, c, m) == IF Len(ch) = 0 THEN <<>> ELSE SetToSeq(Exits(ch, Enter(ch, rev, c), m))
============================================================================
