------------------------------- MODULE ObscMC ------------------------------
(* phase "poly": every simple triangle and quadrilateral on a lattice;      *)
(* phase "alg": Boolean laws over every small expression;                   *)
(* phase "run": rays under sequences of obscurations.                       *)
EXTENDS Obsc, FiniteSets, TLC
CONSTANTS Steps
Vtx == (0..2) \X (0..2)
V(i) == <<4 * (i % 3), 4 * (i \div 3)>>
Poly(s) == [k |-> "poly", xs |-> [i \in DOMAIN s |-> V(s[i])[1]], ys |-> [i \in DOMAIN s |-> V(s[i])[2]], th |-> 0, x |-> 0, y |-> 0, c |-> 1, s |-> 0]
Cr(a, b, c) == (b[1] - a[1]) * (c[2] - a[2]) - (b[2] - a[2]) * (c[1] - a[1])
On(a, b, c) == Cr(a, b, c) = 0 /\ (c[1] - a[1]) * (c[1] - b[1]) <= 0 /\ (c[2] - a[2]) * (c[2] - b[2]) <= 0
Sgn(x) == IF x > 0 THEN 1 ELSE IF x < 0 THEN -1 ELSE 0
Meet(a, b, c, d) == (Sgn(Cr(a, b, c)) # Sgn(Cr(a, b, d)) /\ Sgn(Cr(c, d, a)) # Sgn(Cr(c, d, b)))
                    \/ On(a, b, c) \/ On(a, b, d) \/ On(c, d, a) \/ On(c, d, b)
Simple(s) == IF Len(s) = 3 THEN Cr(V(s[1]), V(s[2]), V(s[3])) # 0
             ELSE /\ ~Meet(V(s[1]), V(s[2]), V(s[3]), V(s[4])) /\ ~Meet(V(s[2]), V(s[3]), V(s[4]), V(s[1]))
                  /\ \A i \in 1..4 : Cr(V(s[i]), V(s[NextI(s, i)]), V(s[NextI(s, NextI(s, i))])) # 0
Idx == 0..8
Seqs == {s \in Idx \X Idx \X Idx : Cardinality({s[1], s[2], s[3]}) = 3 /\ Simple(s)}
        \cup {s \in Idx \X Idx \X Idx \X Idx : Cardinality({s[1], s[2], s[3], s[4]}) = 4 /\ Simple(s)}
Pt == {<<x, y>> : x \in {-1, 1, 2, 4, 5, 7}, y \in {-1, 0, 1, 3, 4, 6}}
(* winding number: signed crossings of the half line to the right *)
Wind(s, p) == LET o == Poly(s)
                  up(i) == o.ys[i] <= p[2] /\ p[2] < o.ys[NextI(s, i)] /\ Cr(V(s[i]), V(s[NextI(s, i)]), p) > 0
                  dn(i) == o.ys[NextI(s, i)] <= p[2] /\ p[2] < o.ys[i] /\ Cr(V(s[i]), V(s[NextI(s, i)]), p) < 0
              IN  Cardinality({i \in DOMAIN s : up(i)}) - Cardinality({i \in DOMAIN s : dn(i)})
Turned(s) == [i \in 1..Len(s) |-> s[NextI(s, i)]]
Reversed(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
(* ---- figures for the algebra ----------------------------------------------- *)
B == [th |-> 0, x |-> 0, y |-> 0, c |-> 1, s |-> 0]
Circ(r, x) == [k |-> "circ", r |-> r, x |-> x, y |-> 0, th |-> 0]
Ann == [k |-> "ann", ri |-> 2, ro |-> 5, x |-> 0, y |-> 0, th |-> 0]
Rect == [k |-> "rect", w |-> 6, h |-> 2, x |-> 1, y |-> 1, th |-> 0, c |-> 1, s |-> 0]
RayF == [k |-> "ray", w |-> 2, x |-> 1, y |-> 0, th |-> 0, c |-> 1, s |-> 0]
Leaves == {Circ(5, 0), Circ(2, 0), Ann, Rect, RayF, Poly(<<0, 2, 8>>)}
Neg(o) == [k |-> "not", items |-> <<o>>]
Uni(a, b) == [k |-> "or", items |-> <<a, b>>]
Cut(a, b) == [k |-> "and", items |-> <<a, b>>]
Pts2 == {<<x, y>> : x \in {-5, -2, 0, 2, 3, 4, 5}, y \in {-3, 0, 1, 4}}
W(o, p) == Where(o, p[1], p[2], TRUE)
Same(a, b) == \A p \in Pts2 : W(a, p) = W(b, p)
VARIABLES phase, s, a, b, vig, n, used
vars == <<phase, s, a, b, vig, n, used>>
Rays2 == {<<0, 0>>, <<3, 4>>, <<2, 0>>, <<4, 1>>}
Init == \/ phase = "poly" /\ s \in Seqs /\ a = <<>> /\ b = <<>> /\ vig = {} /\ n = 0 /\ used = {}
        \/ phase = "alg" /\ s = <<>> /\ a \in Leaves \cup {Neg(q) : q \in Leaves} /\ b \in Leaves \cup {Cut(q, r) : q, r \in Leaves} /\ vig = {} /\ n = 0 /\ used = {}
        \/ phase = "run" /\ s = <<>> /\ a = <<>> /\ b = <<>> /\ vig \in {{}, {<<0, 0>>}} /\ n = 0 /\ used = {<<"start", vig>>}
Next == /\ phase = "run" /\ n < Steps
        /\ \E o \in Leaves \cup {Neg(q) : q \in Leaves} :
             /\ vig' = {p \in Rays2 : Dimmed(o, p[1], p[2], TRUE, p \in vig) = "in"}
             /\ used' = used \cup {<<"o", o>>} /\ n' = n + 1
        /\ UNCHANGED <<phase, s, a, b>>
Spec == Init /\ [][Next]_vars
PolyLaw == phase = "poly" => \A p \in Pt :
   LET w == W(Poly(s), p) IN
   /\ w = W(Poly(Turned(s)), p) /\ w = W(Poly(Reversed(s)), p)
   /\ (w = "edge") = (\E i \in DOMAIN s : On(V(s[i]), V(s[NextI(s, i)]), p))
   /\ w # "edge" => (w = "in") = (Wind(s, p) # 0)
Boolean == phase = "alg" =>
   /\ Same(Neg(Neg(a)), a) /\ Same(Neg(Uni(a, b)), Cut(Neg(a), Neg(b))) /\ Same(Neg(Cut(a, b)), Uni(Neg(a), Neg(b)))
   /\ Same(Uni(a, b), Uni(b, a)) /\ Same(Cut(a, Uni(a, b)), a) /\ Same(Uni(a, Cut(a, b)), a)
   /\ \A p \in Pts2 : (W(a, p) # "edge" => W(Uni(a, Neg(a)), p) = "in" /\ W(Cut(a, Neg(a)), p) = "out")
(* a disc and the annulus around it make the larger disc, as the documentation says *)
Tiling == phase = "alg" => Same(Uni(Circ(2, 0), Ann), Circ(5, 0)) /\ Same(Cut(Neg(Circ(2, 0)), Circ(5, 0)), Ann)
(* whatever the order: a ray is dim iff it was, or lies in a figure used *)
Dim == phase = "run" => \A p \in Rays2 :
   (p \in vig) = (\E u \in used : IF u[1] = "start" THEN p \in u[2] ELSE W(u[2], p) = "in")
OnlyRises == [][phase = "run" => vig \subseteq vig']_vars
============================================================================
