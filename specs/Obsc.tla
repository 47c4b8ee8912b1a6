-------------------------------- MODULE Obsc -------------------------------
(***************************************************************************)
(* Obscurations as point sets of the plane.                                *)
(*   circ r x y | ann ri ro x y | rect w h x y th | ray w th x y           *)
(*   poly xs ys | not o | or items | and items                             *)
(* Where(o, x, y) is "in", "out" or, within rounding of a boundary whose   *)
(* side arithmetic cannot decide, "edge".  With exact numbers (small       *)
(* dyadic fractions) boundaries are decided: circles, rectangles and rays  *)
(* are open, an annulus contains its inner circle only.  The boundary of a *)
(* polygon is always "edge".                                               *)
(***************************************************************************)
EXTENDS Dec
LOCAL INSTANCE SequencesExt
EPS == "1e-11"
Sq(a) == DMul(a, a)
Range1(s) == 1..Len(s)
(* cosines and sines are computed once per figure *)
Ready(o) == IF o.k \in {"rect", "ray"} THEN [o EXCEPT !.c = DCos(o.th), !.s = DSin(o.th)] ELSE o
(* is a < b, decided to within the band?  ex: numbers are exact *)
Less(a, b, ex) == IF ex THEN IF DLt(a, b) THEN "in" ELSE "out"
                  ELSE IF DNear(a, b, EPS) THEN "edge" ELSE IF DLt(a, b) THEN "in" ELSE "out"
Not(v) == IF v = "in" THEN "out" ELSE IF v = "out" THEN "in" ELSE v
And(u, v) == IF u = "out" \/ v = "out" THEN "out" ELSE IF u = "edge" \/ v = "edge" THEN "edge" ELSE "in"
Or(u, v) == Not(And(Not(u), Not(v)))
(* ---- polygons ------------------------------------------------------------ *)
NextI(s, i) == IF i = Len(s) THEN 1 ELSE i + 1
(* squared distance from (x, y) to the segment i -> NextI is below EPS^2 *)
OnEdge(o, i, x, y) ==
  LET j == NextI(o.xs, i)
      ax == DSub(x, o.xs[i]) ay == DSub(y, o.ys[i])
      bx == DSub(o.xs[j], o.xs[i]) by == DSub(o.ys[j], o.ys[i])
      L == DAdd(Sq(bx), Sq(by))
      p == DAdd(DMul(ax, bx), DMul(ay, by))
      t == IF DEq(L, 0) THEN 0 ELSE DMax(0, DMin(1, DDiv(p, L)))
  IN  ~(DGt(DAbs(ay), DAdd(DAbs(by), EPS)) \/ DGt(DAbs(ax), DAdd(DAbs(bx), EPS)))      \* far from its box
      /\ DLt(DAdd(Sq(DSub(ax, DMul(t, bx))), Sq(DSub(ay, DMul(t, by)))), "1e-22")
(* does the edge cross the half line from (x, y) to the right? *)
Crosses(o, i, x, y) ==
  LET j == NextI(o.xs, i)
      up == DLe(o.ys[i], y) /\ DLt(y, o.ys[j])
      down == DLe(o.ys[j], y) /\ DLt(y, o.ys[i])
      side == DSub(DMul(DSub(o.xs[j], o.xs[i]), DSub(y, o.ys[i])), DMul(DSub(x, o.xs[i]), DSub(o.ys[j], o.ys[i])))
  IN  (up /\ DGt(side, 0)) \/ (down /\ DLt(side, 0))
Odd(o, x, y) == FoldLeft(LAMBDA acc, i : IF Crosses(o, i, x, y) THEN ~acc ELSE acc, FALSE, [i \in Range1(o.xs) |-> i])
InPoly(o, x, y) == IF \E i \in Range1(o.xs) : OnEdge(o, i, x, y) THEN "edge" ELSE IF Odd(o, x, y) THEN "in" ELSE "out"
(* ---- all figures ---------------------------------------------------------- *)
Leaf(o, x, y, exact) ==
  LET dx == DSub(x, o.x) dy == DSub(y, o.y)
      h2 == DAdd(Sq(dx), Sq(dy))
      Within(r) == IF exact THEN Less(h2, Sq(r), TRUE) ELSE Less(DSqrt(h2), r, FALSE)
      f == Ready(o)
      u == DAdd(DMul(dx, f.c), DMul(dy, f.s))
      v == DSub(DMul(dy, f.c), DMul(dx, f.s))
      ex == exact /\ DEq(o.th, 0)
      Slab(a, w) == And(Less(a, DDiv(w, 2), ex), Less(DNeg(a), DDiv(w, 2), ex))
  IN  CASE o.k = "circ" -> Within(o.r)
        [] o.k = "ann" -> And(Within(o.ro), Not(Within(o.ri)))
        [] o.k = "rect" -> And(Slab(u, o.w), Slab(v, o.h))
        [] o.k = "ray" -> And(Less(0, u, ex), Slab(v, o.w))
        [] o.k = "poly" -> InPoly(o, x, y)
RECURSIVE Where(_, _, _, _)
Where(o, x, y, exact) ==
  CASE o.k = "not" -> Not(Where(o.items[1], x, y, exact))
    [] o.k = "or" -> FoldLeft(LAMBDA acc, q : Or(acc, Where(q, x, y, exact)), "out", o.items)
    [] o.k = "and" -> FoldLeft(LAMBDA acc, q : And(acc, Where(q, x, y, exact)), "in", o.items)
    [] OTHER -> Leaf(o, x, y, exact)
(* what obscuring does to one ray's vignetting flag *)
Dimmed(o, x, y, exact, vig) == IF vig THEN "in" ELSE Where(o, x, y, exact)
Agrees(w, bool) == w = "edge" \/ bool = (w = "in")
============================================================================
