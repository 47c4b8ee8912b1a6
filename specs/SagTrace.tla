----------------------------- MODULE SagTrace ------------------------------
(* C20: recorded sags and normals of the real surfaces against Surfaces.   *)
EXTENDS Surfaces, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
Cl(ok, name) == IF ok THEN {} ELSE {name}
STOL == "1e-10"
(* allowed error grows with the steepness: rounding of x and y alone *)
Tol(g) == DMul(STOL, DMax(1, DAdd(DAbs(g[2]), DAbs(g[3]))))
(* the wrong normal of a tilted plane that test_Tilted::test_normal asserts (known finding) *)
Legacy(p, n) == /\ p.k = "tilt" /\ (~DEq(p.tx, 0) \/ ~DEq(p.ty, 0))
                /\ DNear(n[1], DNeg(p.tx), STOL) /\ DNear(n[2], DNeg(p.ty), STOL)
                /\ DSame(n[3], DSqrt(DSub(1, DAdd(Sq(p.tx), Sq(p.ty)))), STOL)
PointFail(p, e, j) ==
  LET x == e.p[j][1] y == e.p[j][2] IN
  IF OnEdge(p, x, y) THEN {} ELSE
  \* force the gradient once
  UNION {LET n == NormalOf(g) bad == DIsNan(g[1]) \/ DIsNan(n[1]) IN
    UNION {LET f == e.forms[q] IN
      Cl(IF DIsNan(g[1]) THEN DIsNan(f.z[j]) ELSE DNear(f.z[j], g[1], Tol(g)), "sag differs from the formula: " \o f.name)
      \cup IF Legacy(p, f.n[j]) THEN {"tilted plane: normal is (-tx, -ty, sqrt(1-tx^2-ty^2))"} ELSE
           Cl(IF bad THEN \E c \in 1..3 : DIsNan(f.n[j][c])
              ELSE \A c \in 1..3 : DNear(f.n[j][c], n[c], STOL), "normal is not that of the sag: " \o f.name)
      : q \in 1..Len(e.forms)} : g \in {SG(p, x, y)}}
ShapeFail(e) == UNION {LET f == e.forms[q] IN
   Cl(Len(f.z) = Len(e.p) /\ Len(f.n) = Len(e.p), "wrong number of results: " \o f.name)
   \cup Cl(f.shape, "wrong shape of results: " \o f.name) : q \in 1..Len(e.forms)}
Fail(e) == IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  LET sf == ShapeFail(e) IN IF sf # {} THEN sf ELSE
  UNION {UNION {PointFail(p, e, j) : j \in 1..Len(e.p)} : p \in {Prepared(e.s)}}
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
============================================================================
