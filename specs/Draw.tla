-------------------------------- MODULE Draw -------------------------------
(***************************************************************************)
(* What is drawn of a system.  An interface has an outline when its        *)
(* obscuration is a circle or an annulus, or the complement of one:        *)
(*   [shape |-> "circle" | "annulus" | "negcircle" | "negannulus", rin,    *)
(*    rout]       - any other shape gives none.                            *)
(* The outline consists of the points of the surface over two rims and     *)
(* four spokes of the local frame, carried to global coordinates.          *)
(***************************************************************************)
EXTENDS OpticTree
Outlined == {"circle", "annulus", "negcircle", "negannulus"}
HasOutline(o) == o.shape \in Outlined
Hole(o) == o.shape \in {"annulus", "negannulus"}
(* places (x, y) of the local frame where something must be drawn, over a ring of unit vectors *)
RimPlaces(dirs, r, Mul(_, _)) == {<<Mul(r, d[1]), Mul(r, d[2])>> : d \in dirs}
Axes == {<<1, 0>>, <<-1, 0>>, <<0, 1>>, <<0, -1>>}

(* --- a slice of a whole system in the (x, z) plane: which interfaces, in order.  only = {} for everything, else a set of kinds *)
Wanted(t, only) == only = {} \/ t.k \in only
Drawn2D(t, only) == SelectSeq(Leaves(t), LAMBDA l : Wanted(l, only) /\ HasOutline(l.o))
Drawn3D(t) == SelectSeq(Leaves(t), LAMBDA l : HasOutline(l.o))
(* lenses to be filled: both faces outlined alike *)
RECURSIVE Lenses(_)
Lenses(t) == IF t.k = "L" THEN <<t>> ELSE IF t.k = "C" THEN FlatMap(Lenses, t.items) ELSE <<>>
Fillable(l) == Len(l.items) = 2 /\ HasOutline(l.items[1].o) /\ HasOutline(l.items[2].o)
               /\ Hole(l.items[1].o) = Hole(l.items[2].o)
Blank(l) == \E j \in 1..Len(l.items) : ~HasOutline(l.items[j].o)
(* the polygon between two slices: out along one face, back along the other *)
Between(s1, s2) == s1 \o Reverse(s2)
(* the part of a ray's polyline that is visible: entry point, then one more vertex for every interface it leaves unvignetted *)
VisibleCount(lost) == 1 + Cardinality({j \in 1..Len(lost) : ~lost[j]})
============================================================================
