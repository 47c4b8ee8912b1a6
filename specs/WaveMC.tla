------------------------------- MODULE WaveMC -------------------------------
(* Integer rays under every short history of propagations and moves of the    *)
(* frame: the phase at a place and time never changes, and propagations add.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Len0
Add(a, b) == a + b
Sub(a, b) == a - b
Mul(a, b) == a * b
INSTANCE Wave
VARIABLES q, f, hist, start
vars == <<q, f, hist, start>>
Quarter == {<<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>, <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>}
Rays == {<<1, 0, 2, 0, 1, -2, 1>>, <<0, -1, 0, 1, 1, 1, 0>>, <<-2, 3, 1, 0, 0, -3, -2>>}
Init == q \in Rays /\ f = Global /\ hist = <<>> /\ start = q
Propagate == \E t \in {-3, 0, 2, 5} : q' = Propagated(q, t) /\ f' = f /\ hist' = Append(hist, "prop")
Reframe == \E g \in {[o |-> o, R |-> R] : o \in {<<0, 0, 0>>, <<1, -2, 3>>}, R \in Quarter \cup {Id3}} \cup {Moved(f, R, <<1, 0, 2>>) : R \in Quarter} :
             q' = Reframed(q, f, g) /\ f' = g /\ hist' = Append(hist, "frame")
Next == Len(hist) < Len0 /\ start' = start /\ (Propagate \/ Reframe)
Spec == Init /\ [][Next]_vars
Places == {<<0, 0, 0>>, <<3, -1, 2>>, <<0, 5, -4>>}
Invariant == \A r \in Places, t \in {0, 4} : Turns(q, Xform(Global, f, r), t) = Turns(start, r, t)
SameSpeed == Speed2(q) = Speed2(start)
SameLine == \A t \in {-1, 7} : ToGlobal(f, At(q, t)) = At(start, t)
OnCrest == \A t \in {q[7], 6} : Turns(q, At(q, t), t) = 0            \* a ray rides its own crest
Additive == \A t, u \in {-2, 3} : Propagated(Propagated(q, t), u) = Propagated(q, u) /\ Propagated(q, q[7]) = q
=============================================================================
