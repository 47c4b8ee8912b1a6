------------------------------- MODULE DrawMC ------------------------------
(* The selection laws over all small trees, and the outline on the integer *)
(* lattice: a rigid motion of the frame moves the outline.                 *)
EXTENDS Draw, TLC
CONSTANTS Depth
F == INSTANCE Frames WITH Add <- LAMBDA a, b : a + b, Sub <- LAMBDA a, b : a - b, Mul <- LAMBDA a, b : a * b
Obs == {[shape |-> "circle"], [shape |-> "negannulus"], [shape |-> "none"]}
LeafSet == {[n |-> "x", k |-> k, o |-> o, items |-> <<>>] : k \in {"M", "R"}, o \in Obs}
No == [shape |-> "none"]
RECURSIVE Trees(_)
Trees(d) == LeafSet \cup (IF d = 0 THEN {} ELSE
   {[n |-> "x", k |-> "C", o |-> No, items |-> q] : q \in UNION {[1..l -> Trees(d - 1)] : l \in 1..2}}
   \cup {[n |-> "x", k |-> "L", o |-> No, items |-> q] : q \in [1..2 -> {l \in LeafSet : l.k = "R"}]})
Rot == <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
RotX == <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>
VARIABLES t, todo, out, f, n
vars == <<t, todo, out, f, n>>
(* a drawing machine: it walks the tree, emitting one outline after another *)
Init == /\ t \in {u \in Trees(Depth) : Inner(u)} /\ todo = <<t>> /\ out = <<>> /\ f = F!Global /\ n = 0
Step == /\ todo # <<>> /\ UNCHANGED <<t, f, n>>
        /\ LET h == Head(todo) IN
           IF Inner(h) THEN todo' = h.items \o Tail(todo) /\ out' = out
           ELSE todo' = Tail(todo) /\ out' = IF HasOutline(h.o) THEN Append(out, h) ELSE out
Move == /\ todo = <<>> /\ n < 2 /\ n' = n + 1 /\ UNCHANGED <<t, todo, out>>
        /\ \E G \in {Rot, RotX} : \E c \in {<<0, 0, 0>>, <<1, 2, 0>>} : f' = F!Moved(f, G, c)
Next == Step \/ Move
Spec == Init /\ [][Next]_vars
Complete == todo = <<>> => out = Drawn3D(t)
(* drawing one kind and then the other draws as many outlines as drawing everything *)
Split == Len(Drawn2D(t, {"M"})) + Len(Drawn2D(t, {"R"})) = Len(Drawn2D(t, {})) /\ Drawn2D(t, {"M", "R"}) = Drawn3D(t)
InLens(u) == FlatMap(Leaves, Lenses(u))
LensLaw == \A j \in 1..Len(Lenses(t)) : Fillable(Lenses(t)[j]) => ~Blank(Lenses(t)[j]) /\ Drawn2D(Lenses(t)[j], {}) = Lenses(t)[j].items
Sub == \A j \in 1..Len(InLens(t)) : InLens(t)[j].k = "R"
(* sag x*x + 2*y*y over the rim of radius 2: the drawn global points, taken back to the frame, lie on the surface *)
Sag(x, y) == x * x + 2 * y * y
M2(a, b) == a * b
Outline(g) == {F!ToGlobal(g, <<p[1], p[2], Sag(p[1], p[2])>>) : p \in RimPlaces(Axes, 2, M2) \cup RimPlaces(Axes, 1, M2)}
Carried == \A p \in Outline(f) : LET q == F!ToLocal(f, p) IN q[3] = Sag(q[1], q[2]) /\ q[1] * q[1] + q[2] * q[2] \in {1, 4}
Count == Cardinality(Outline(f)) = 8
PolyLaw == LET a == <<1, 2, 3>> b == <<4, 5>> IN Between(a, b) = Reverse(Between(b, a))
============================================================================
