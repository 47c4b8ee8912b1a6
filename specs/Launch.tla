------------------------------- MODULE Launch -------------------------------
(***************************************************************************)
(* C16: launching a bundle of rays.  A launch is: a layout of pupil points *)
(* on the stop surface, one direction of travel, and a plane wave started  *)
(* backDist before the vertex of the stop surface.                         *)
(***************************************************************************)
EXTENDS Dec
LOCAL INSTANCE FiniteSets
P == INSTANCE Projections
S == INSTANCE Surfaces
M == INSTANCE Media
F == INSTANCE Frames WITH Add <- DAdd, Sub <- DSub, Mul <- DMul

(* ---- what is asked: explicit arguments, else the optic's, else defaults *)
Pick(given, optic, fallback) == IF Len(given) > 0 THEN given[1] ELSE IF Len(optic) > 0 THEN optic[1] ELSE fallback
Vacuum == [k |-> "const", p |-> <<"1.0">>]
Flat == [s |-> [k |-> "plane"], cs |-> F!Global]

(* ---- grids ------------------------------------------------------------ *)
(* index of the k-th of n places (k = 1..n): odd n straddle 0, even n have one more before it *)
Place(n, k) == k - 1 - (n \div 2)
(* intervals along the length of a side *)
Intervals(n) == IF n = 1 THEN 1 ELSE IF n = 2 THEN 2 ELSE IF n % 2 = 0 THEN n - 2 ELSE n - 1
StepFromLength(n, l) == DDiv(l, Intervals(n))
SideFromBoth(l, d) == LET r == DDiv(l, d) IN 2 + 2 * (CHOOSE m \in 0..200 : DLe(2 * m, DAdd(r, "0.1")) /\ DLt(DAdd(r, "0.1"), 2 * m + 2))
VecX(l) == IF Len(l) = 1 THEN <<l[1], 0>> ELSE l
VecY(l) == IF Len(l) = 1 THEN <<0, l[1]>> ELSE l
Turned(l) == IF Len(l) < 2 THEN l ELSE <<DNeg(l[2]), l[1]>>
Div2(v, n) == <<DDiv(v[1], n), DDiv(v[2], n)>>
(* n, d, l of the x side and of the y side, each a sequence: empty if not given *)
GridSide(n, d, l, asx) ==
  LET vec(q) == IF asx THEN VecX(q) ELSE VecY(q) IN
  IF Len(n) > 0 /\ Len(d) > 0 THEN [n |-> n[1], step |-> vec(d)]
  ELSE IF Len(n) > 0 THEN [n |-> n[1], step |-> Div2(vec(l), Intervals(n[1]))]
  ELSE LET m == SideFromBoth(l[1], d[1]) IN [n |-> m, step |-> Div2(vec(l), Intervals(m))]
GridOf(g) ==
  LET ny == IF Len(g.ny) > 0 THEN g.ny ELSE g.nx
      dy == IF Len(g.dy) > 0 THEN g.dy ELSE Turned(g.dx)
      ly == IF Len(g.ly) > 0 THEN g.ly ELSE Turned(g.lx)
      X == GridSide(g.nx, g.dx, g.lx, TRUE) Y == GridSide(ny, dy, ly, FALSE)
  IN  [n |-> X.n * Y.n, x |-> X, y |-> Y]
GridAt(G, q) == LET a == Place(G.x.n, ((q - 1) % G.x.n) + 1) b == Place(G.y.n, ((q - 1) \div G.x.n) + 1) IN
                <<DAdd(DMul(a, G.x.step[1]), DMul(b, G.y.step[1])), DAdd(DMul(a, G.x.step[2]), DMul(b, G.y.step[2]))>>
Grid(g) == LET G == GridOf(g) IN [q \in 1..G.n |-> GridAt(G, q)]
GridAsked(g) == Cardinality({j \in 1..3 : Len(<<g.nx, g.dx, g.lx>>[j]) > 0}) = 2
(* the region random rays are drawn from: sides of the parallelogram *)
GridRegion(g) ==
  LET ny == IF Len(g.ny) > 0 THEN g.ny ELSE g.nx
      dy == IF Len(g.dy) > 0 THEN g.dy ELSE Turned(g.dx)
      ly == IF Len(g.ly) > 0 THEN g.ly ELSE Turned(g.lx)
      side(n, d, l, asx) == LET vec(q) == IF asx THEN VecX(q) ELSE VecY(q) s == GridSide(n, d, l, asx) IN
         IF Len(l) > 0 THEN vec(l) ELSE LET m == IF s.n = 1 THEN 0 ELSE Intervals(s.n) IN <<DMul(m, s.step[1]), DMul(m, s.step[2])>>
  IN  <<side(g.nx, g.dx, g.lx, TRUE), side(ny, dy, ly, FALSE)>>

(* ---- rings ------------------------------------------------------------ *)
Even(a, b, n, k) == IF n = 1 THEN a ELSE DAdd(a, DDiv(DMul(k - 1, DSub(b, a)), n - 1))
(* how many azimuths a ring of radius rho may have: a multiple of kfold; at an exact multiple rounding decides *)
RingCounts(rho, outer, naz, kfold) ==
  LET x == DDiv(DMul(naz, rho), DMul(outer, kfold))
      fl(y) == LET m == CHOOSE q \in 0..(naz + 1) : DLe(q, y) /\ DLt(y, q + 1) IN IF m = 0 THEN kfold ELSE kfold * m
  IN  {fl(DAdd(x, "1e-10")), fl(DMax(0, DSub(x, "1e-10")))}

(* ---- the wave --------------------------------------------------------- *)
Unit(d) == LET n == DSqrt(DDot(d, d)) IN <<DDiv(d[1], n), DDiv(d[2], n), DDiv(d[3], n)>>
Direction(w) == IF w.k = "cos" THEN Unit(w.d) ELSE P!DirCos(w.p, w.u, w.v)
(* where the ray through X starts: on the plane backDist before the vertex V *)
Start(X, V, d, back) == F!VSub(X, F!VScale(DAdd(back, F!VDot(d, F!VSub(X, V))), d))
=============================================================================
