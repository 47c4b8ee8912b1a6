------------------------------- MODULE Reverse -----------------------------
(***************************************************************************)
(* Two symmetries of tracing.                                              *)
(*  Reversal: a ray that has come through, turned round and traced in      *)
(*    reverse, goes back along the line it came by, in the same time.      *)
(*  Motion: moving system and rays together moves the traced rays.         *)
(* A ray here is [p |-> position, v |-> velocity, t |-> time].             *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Add(_, _), Sub(_, _), Mul(_, _), Same(_, _)
F == INSTANCE Frames
Turned(r) == [p |-> r.p, v |-> F!VScale(-1, r.v), t |-> Sub(0, r.t)]
(* r and s move along the same line in the same direction at the same speed, both being where the line is at their times *)
Along(r, s) ==
  LET d == F!VSub(s.p, r.p)
      c == F!VCross(d, r.v)
  IN  /\ \A k \in 1..3 : Same(r.v[k], s.v[k])
      /\ \A k \in 1..3 : Same(c[k], 0)
InStep(r, s) == Same(F!VDot(F!VSub(s.p, r.p), r.v), Mul(Sub(s.t, r.t), F!VDot(r.v, r.v)))
Retraces(first, back) == Along(Turned(first), back) /\ InStep(Turned(first), back)
MovedRay(f, g, r) ==    \* the motion that takes frame f to frame g, applied to a ray
  [p |-> F!ToGlobal(g, F!ToLocal(f, r.p)), v |-> F!DirToGlobal(g, F!DirToLocal(f, r.v)), t |-> r.t]
============================================================================
