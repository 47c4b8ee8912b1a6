----------------------------- MODULE OpticEdit -----------------------------
(***************************************************************************)
(* Perturbing and editing systems.  Nodes of OpticTree carry in addition   *)
(*   f     frame of the part                                               *)
(*   stop  <<>> or <<frame of its stop surface>>                           *)
(*   s     its surface,  a  all its other attributes                       *)
(* An operation yields a new tree; a system is a value and never changes.  *)
(***************************************************************************)
EXTENDS OpticTree
CONSTANTS Add(_, _), Sub(_, _), Mul(_, _)
F == INSTANCE Frames

(* rigid motion p |-> G (p - c) + c + d in global coordinates *)
Motion(op, f, R, d, c, g) ==
  CASE op = "sg" -> [G |-> F!Id3, c |-> F!Zero3, d |-> d]
    [] op = "sl" -> [G |-> F!Id3, c |-> F!Zero3, d |-> F!MV(f.R, d)]
    [] op = "rg" -> [G |-> R, c |-> F!ToGlobal(g, c), d |-> F!Zero3]
    [] op = "rl" -> [G |-> F!MM(F!MM(f.R, R), F!Tr(f.R)), c |-> F!ToGlobal(g, c), d |-> F!Zero3]
MovePoint(m, p) == F!VAdd(F!VAdd(F!MV(m.G, F!VSub(p, m.c)), m.c), m.d)
MoveFrame(m, f) == [o |-> MovePoint(m, f.o), R |-> F!MM(m.G, f.R)]
RECURSIVE MoveAll(_, _)
MoveAll(m, t) == [t EXCEPT !.f = MoveFrame(m, @),
                           !.stop = [j \in 1..Len(@) |-> MoveFrame(m, @[j])],
                           !.items = [j \in 1..Len(@) |-> MoveAll(m, @[j])]]
RECURSIVE PutAt(_, _, _)
PutAt(t, a, x) == IF a = <<>> THEN x
                  ELSE [t EXCEPT !.items[Head(a)] = PutAt(t.items[Head(a)], Tail(a), x)]
Perturb(t, a, m) == PutAt(t, a, MoveAll(m, At(t, a)))
(* frames default as documented: the part's own for local rotations *)
RefFrame(op, f, cf) == IF cf # <<>> THEN cf[1] ELSE IF op = "rl" THEN f ELSE F!Global
PerturbOp(t, o) ==
  LET a == Lookup(t, o.key) f == At(t, a).f IN
  Perturb(t, a, Motion(o.op, f, o.R, o.d, o.c, RefFrame(o.op, f, o.cf)))
ReSurface(t, a, s) == PutAt(t, a, [At(t, a) EXCEPT !.s = s])
Edit(t, o) ==
  LET a == Lookup(t, o.key) IN
  CASE o.op \in {"sg", "sl", "rg", "rl"} -> PerturbOp(t, o)
    [] o.op = "ins" -> InsertPart(t, a, o.item)
    [] o.op = "rem" -> RemovePart(t, a)
    [] o.op \in {"surf", "pert"} -> ReSurface(t, a, o.surface)
============================================================================
