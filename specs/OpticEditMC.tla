---------------------------- MODULE OpticEditMC ----------------------------
(* Every sequence of perturbations and edits of a small system, over the   *)
(* rotations of the cube and integer shifts.                               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
IAdd(a, b) == a + b
ISub(a, b) == a - b
IMul(a, b) == a * b
INSTANCE OpticEdit WITH Add <- IAdd, Sub <- ISub, Mul <- IMul
CONSTANTS Steps
RX == <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>
RZ == <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
Fr(x, y, z, R) == [o |-> <<x, y, z>>, R |-> R]
Node(n, k, f, stop, items) == [n |-> n, k |-> k, skip |-> FALSE, items |-> items, f |-> f, stop |-> stop, s |-> "s" \o n, a |-> n]
New == Node("New", "B", Fr(5, 5, 5, RX), <<>>, <<>>)
Root0 == Node("S", "C", Fr(0, 0, 0, F!Id3), <<Fr(0, 0, 9, F!Id3)>>,
   <<Node("A", "M", Fr(1, 0, 0, F!Id3), <<>>, <<>>),
     Node("AB", "C", Fr(0, 1, 0, RZ), <<>>,
          <<Node("A", "R", Fr(0, 0, 1, RX), <<>>, <<>>), Node("C", "R", Fr(0, 0, 2, F!Id3), <<Fr(1, 1, 1, RX)>>, <<>>)>>)>>)
VARIABLES t, n, prev, op
vars == <<t, n, prev, op>>
Keys(u) == {p.toks : p \in Parts(u)}
Ops == {[op |-> o, R |-> R, d |-> <<1, 0, -1>>, c |-> <<0, 2, 0>>, cf |-> <<>>] : o \in {"rg", "rl"}, R \in {RX, RZ}}
       \cup {[op |-> o, R |-> RX, d |-> d, c |-> <<0, 0, 0>>, cf |-> <<>>] : o \in {"sg", "sl"}, d \in {<<1, 0, -1>>}}
WithKey(o, k) == [op |-> o.op, R |-> o.R, d |-> o.d, c |-> o.c, cf |-> o.cf, key |-> k, item |-> New, surface |-> "new"]
Edits == {[op |-> o, R |-> RX, d |-> <<0, 0, 0>>, c |-> <<0, 0, 0>>, cf |-> <<>>] : o \in {"ins", "rem", "surf"}}
Init == t = Root0 /\ n = 0 /\ prev = Root0 /\ op = [op |-> "none", key |-> <<>>]
Next == /\ n < Steps /\ n' = n + 1
        /\ \E k \in Keys(t), o \in Ops \cup Edits :
             LET a == Lookup(t, k) w == WithKey(o, k) IN
             /\ o.op \in {"ins", "rem"} => a # <<>>
             /\ o.op = "rem" => Len(At(t, Parent(a)).items) > 1
             /\ o.op = "ins" => ~ \E p \in Parts(t) : p.toks[Len(p.toks)] = "New"
             /\ o.op = "surf" => ~Inner(At(t, a))
             /\ t' = Edit(t, w) /\ op' = w
        /\ prev' = t
Rigid == \A p \in Parts(t) : LET R == At(t, p.at).f.R IN F!MM(R, F!Tr(R)) = F!Id3 /\ F!Det(R) = 1
Moved == op.op \in {"sg", "sl", "rg", "rl"} /\ prev # t
(* outside the named part nothing changes *)
Elsewhere == op.op \in {"sg", "sl", "rg", "rl"} =>
  LET a == Lookup(prev, op.key) IN
  \A p \in Parts(prev) : ~Under(a, p.at) => At(t, p.at).f = At(prev, p.at).f /\ At(t, p.at).stop = At(prev, p.at).stop
(* inside, the part moves as one body: relative positions are kept *)
Body == op.op \in {"sg", "sl", "rg", "rl"} =>
  LET a == Lookup(prev, op.key) IN
  \A p, q \in Parts(prev) : Under(a, p.at) /\ Under(a, q.at) =>
     F!Xform(At(t, p.at).f, At(t, q.at).f, <<1, 2, 3>>) = F!Xform(At(prev, p.at).f, At(prev, q.at).f, <<1, 2, 3>>)
StopMoves == op.op \in {"sg", "sl", "rg", "rl"} =>
  LET a == Lookup(prev, op.key) IN
  \A p \in Parts(prev) : Under(a, p.at) /\ At(t, p.at).stop # <<>> =>
     F!Xform(At(t, p.at).stop[1], At(t, p.at).f, <<1, 2, 3>>) = F!Xform(At(prev, p.at).stop[1], At(prev, p.at).f, <<1, 2, 3>>)
Shape == op.op \in {"sg", "sl", "rg", "rl", "surf"} => Parts(t) = Parts(prev)
InsRem == op.op = "ins" => RemovePart(t, Lookup(prev, op.key)) = prev
RemIns == op.op = "rem" => LET a == Lookup(prev, op.key) IN InsertPart(t, a, At(prev, a)) = prev \/ a[Len(a)] > Len(At(t, Parent(a)).items)
Names == \A p \in Parts(t) : Lookup(t, p.toks) = p.at
============================================================================
