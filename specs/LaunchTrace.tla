----------------------------- MODULE LaunchTrace ----------------------------
(* C16: logged bundles of the real launchers against Launch.                  *)
EXTENDS Launch, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
Cl(ok, name) == IF ok THEN {} ELSE {name}
TOL == "1e-10"
All(j, n, Q(_)) == \A q \in j..n : Q(q)
(* everything resolved once *)
Ctx(e) ==
  LET stop == Pick(e.given.stop, e.optic.stop, Flat)
      cs == IF e.how = "angles" THEN stop.cs ELSE Pick(e.given.cs, e.optic.cs, F!Global)
      n == M!Index(Pick(e.given.medium, e.optic.medium, Vacuum), e.lam)
      s == S!Prepared(stop.s)
      z == S!SG(s, 0, 0)[1]
  IN [stop |-> stop, cs |-> cs, n |-> n, s |-> s, back |-> Pick(e.given.back, e.optic.back, 40),
      V |-> F!Xform(stop.cs, cs, <<0, 0, z>>)]
StopPoint(c, h) == F!Xform(c.stop.cs, c.cs, <<h[1], h[2], S!SG(c.s, h[1], h[2])[1]>>)
Scale(c) == DAdd(1, DAbs(c.back))
Near3(a, b, t) == \A j \in 1..3 : DNear(a[j], b[j], t)
RayFail(e, c, d, q) ==
  LET x == StopPoint(c, q.h) m == F!VCross(F!VSub(x, q.r), d) IN
  Cl(Near3(m, F!Zero3, DMul(TOL, Scale(c))), "a ray does not pass through its point on the stop surface")
  \cup Cl(Near3(F!VScale(c.n, q.v), d, "1e-12"), "a ray does not travel in the requested direction at 1/n")
  \cup Cl(DEq(q.lam, e.lam), "wavelength") \cup Cl(DEq(q.flux, q.want), "flux")
  \cup Cl(~q.vig /\ ~q.fail, "a launched ray is vignetted or failed")
(* one plane wave: one time, one plane, at the requested distance *)
WaveFail(e, c, d, q) ==
  Cl(DEq(q.t, 0), "a ray does not start at time 0")
  \cup Cl(DNear(F!VDot(d, F!VSub(q.r, c.V)), DNeg(c.back), DMul(TOL, Scale(c))), "a ray does not start on the plane backDist before the vertex of the stop surface")
Own(e, c, d, q) == LET x == StopPoint(c, q.h) IN
  Cl(Near3(q.r, F!VSub(x, F!VScale(c.back, d)), DMul(TOL, Scale(c))), "a ray does not start backDist before its stop point")
  \cup Cl(DNear(q.t, DNeg(DMul(c.back, c.n)), DMul(TOL, Scale(c))), "a ray does not reach the stop surface at time 0")
Near2(a, b) == DNear(a[1], b[1], TOL) /\ DNear(a[2], b[2], TOL)
(* of large bundles the rays numbered idx are logged *)
Listed(e, n, At(_), what) ==
  IF e.total # n THEN {what \o ": wrong number of rays"} ELSE
  Cl(\A j \in 1..Len(e.idx) : Near2(e.rays[j].h, At(e.idx[j])), what \o ": rays do not sample the requested pupil points")
Rad(h) == DSqrt(DAdd(S!Sq(h[1]), S!Sq(h[2])))
OnRing(hs, rad, rho) == {j \in 1..Len(hs) : DNear(rad[j], rho, TOL)}
Polar(rho, th) == <<DMul(rho, DCos(th)), DMul(rho, DSin(th))>>
RECURSIVE SumOf(_)
SumOf(s) == IF s = <<>> THEN 0 ELSE Head(s) + SumOf(Tail(s))
Drawn(e) == Cl(e.total = e.nrandom, "wrong number of random rays") \cup Cl(e.rays2, "the same seed draws other rays")
            \cup Cl(Len(e.rays) < 2 \/ ~Near2(e.rays[1].h, e.rays[2].h), "random rays coincide")
GridFail(e) ==
  LET g == e.g
      h == IF Len(g.lx) = 0 /\ Len(e.optic.pupil) > 0 /\ (Len(g.nx) = 0 \/ Len(g.dx) = 0) THEN [g EXCEPT !.lx = e.optic.pupil] ELSE g
  IN IF e.nrandom = 0 THEN UNION {Listed(e, G.n, LAMBDA q : GridAt(G, q), "grid") : G \in {GridOf(h)}} ELSE
     Drawn(e) \cup LET rg == GridRegion(h) a == rg[1] b == rg[2] det == DSub(DMul(a[1], b[2]), DMul(a[2], b[1])) half == "0.5000000001" IN
       Cl(\A j \in 1..Len(e.rays) : LET x == e.rays[j].h
             u == DSub(DMul(x[1], b[2]), DMul(x[2], b[1])) v == DSub(DMul(a[1], x[2]), DMul(a[2], x[1]))
          IN DLe(DAbs(u), DMul(half, DAbs(det))) /\ DLe(DAbs(v), DMul(half, DAbs(det))), "a random ray is outside the requested parallelogram")
FanFail(e) ==
  LET h == IF Len(e.g.lx) = 0 /\ Len(e.g.dx) = 0 THEN e.optic.pupil ELSE e.g.lx
      ln(a, b) == Grid([nx |-> <<a>>, ny |-> <<b>>, dx |-> e.g.dx, dy |-> e.g.dy, lx |-> h, ly |-> e.g.ly])
  IN  UNION {Listed(e, Len(pts), LAMBDA q : pts[q], "fan") : pts \in {(IF e.g.nx[1] > 1 THEN ln(e.g.nx[1], 1) ELSE <<>>) \o (IF e.g.ny[1] > 1 THEN ln(1, e.g.ny[1]) ELSE <<>>)}}
Half(x) == DDiv(x, 2)
Outer(e) == Pick(e.outer, IF Len(e.optic.pupil) > 0 THEN <<Half(e.optic.pupil[1])>> ELSE <<>>, "nan")
PolarFail(e) ==
  LET outer == Outer(e)
      inner == Pick(e.inner, IF Len(e.optic.obsc) > 0 THEN <<Half(DMul(e.optic.pupil[1], e.optic.obsc[1]))>> ELSE <<>>, 0)
  IN IF e.nrandom > 0 THEN Drawn(e) \cup Cl(\A j \in 1..Len(e.rays) : LET r == Rad(e.rays[j].h) IN DLe(DSub(inner, TOL), r) /\ DLe(r, DAdd(outer, TOL)), "a random ray is outside the requested annulus")
     ELSE
     LET rho == [k \in 1..e.nrad |-> Even(outer, inner, e.nrad, k)]
         rad == [j \in 1..Len(e.hs) |-> DNum(Rad(e.hs[j]))]
         on == [k \in 1..e.nrad |-> OnRing(e.hs, rad, rho[k])]
         ok(k) == IF DEq(rho[k], 0) THEN Cardinality(on[k]) = 1 ELSE
            /\ Cardinality(on[k]) \in RingCounts(rho[k], outer, e.naz, e.kfold)
            /\ LET c == Cardinality(on[k]) IN \A a \in 0..(c - 1) : LET w == Polar(rho[k], DDiv(DMul(2 * a, DPi), c)) IN \E j \in on[k] : Near2(e.hs[j], w)
     IN Cl(\A k \in 1..e.nrad : ok(k), "polar: a ring is not sampled as requested")
        \cup Cl(SumOf([k \in 1..e.nrad |-> Cardinality(on[k])]) = e.total, "polar: rays off the requested rings")
SpokesFail(e) ==
  LET outer == Outer(e)
      inner == Pick(e.inner, <<>>, 0)
      rad == [j \in 1..Len(e.hs) |-> DNum(Rad(e.hs[j]))]
      nr == IF e.rings.k = "array" THEN Len(e.rings.a) ELSE e.rings.n
      th == IF e.spokes.k = "array" THEN e.spokes.a ELSE
            LET c == IF e.spokes.k = "none" THEN 2 * nr + 1 ELSE e.spokes.n IN [k \in 1..c |-> DDiv(DMul(2 * (k - 1), DPi), c)]
      \* Gauss rings are those the bundle has, judged below by what they integrate
      rho == IF e.rings.k = "array" THEN e.rings.a ELSE IF e.rings.k = "int" THEN [k \in 1..nr |-> Even(inner, outer, nr, k)]
             ELSE [k \in 1..nr |-> IF k <= Len(rad) THEN rad[k] ELSE "nan"]
      at(k, m) == LET w == Polar(rho[k], th[m]) IN {j \in 1..Len(e.hs) : Near2(e.hs[j], w)}
      eps2 == S!Sq(DDiv(inner, outer))
      u(j) == S!Sq(DDiv(rad[j], outer))
      moment(p) == DSumSeq([j \in 1..Len(e.hs) |-> DMul(e.hs[j][3], DPowI(u(j), p))])
      exact(p) == DDiv(DMul(DPi, DSub(1, DPowI(eps2, p + 1))), p + 1)
  IN Cl(e.total = nr * Len(th), "spokes: wrong number of rays")
     \cup Cl(\A k \in 1..nr : \A m \in 1..Len(th) : at(k, m) # {}, "spokes: a point of a ring and spoke has no ray")
     \cup IF e.rings.k # "GQ" THEN {} ELSE
        Cl(\A a, b \in 1..nr : a # b => ~DNear(rho[a], rho[b], TOL), "spokes: Gauss rings coincide")
        \cup Cl(\A p \in 0..(2 * nr - 1) : DNear(moment(p), exact(p), "1e-9"), "spokes: Gauss rings and fluxes do not integrate polynomials over the annulus exactly")
        \cup Cl(\A k \in 1..nr : \A m \in 1..Len(th) : \A j \in at(k, m) : \A j2 \in at(k, 1) : DNear(e.hs[j][3], e.hs[j2][3], "1e-12"), "spokes: flux differs between spokes")
LayoutFail(e) ==
  CASE e.how = "grid" -> GridFail(e) [] e.how = "fan" -> FanFail(e) [] e.how = "polar" -> PolarFail(e) [] e.how = "spokes" -> SpokesFail(e)
    [] e.how = "stop" -> Listed(e, Len(e.pts), LAMBDA q : e.pts[q], "stop points") [] OTHER -> Listed(e, Len(e.pts), LAMBDA q : e.pts[q], "field angles")
SameFrame(a, b) == Near3(a.o, b.o, "1e-12") /\ \A j \in 1..3 : Near3(a.R[j], b.R[j], "1e-12")
Fail(e) ==
  IF e.bad # "" THEN Cl(e.exc = "ValueError", "an incomplete or contradictory request is not an error: " \o e.bad)
  ELSE IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  Cl(e.kept, "an argument was changed") \cup LayoutFail(e) \cup
  UNION {Cl(SameFrame(e.frame, c.cs), "the bundle is expressed in another frame") \cup
    (IF e.how = "angles" THEN UNION {UNION {RayFail(e, c, d, e.rays[j]) \cup Own(e, c, d, e.rays[j]) : d \in {Direction(e.dirs[e.idx[j]])}} : j \in 1..Len(e.rays)}
     ELSE UNION {UNION {RayFail(e, c, d, e.rays[j]) \cup WaveFail(e, c, d, e.rays[j]) : j \in 1..Len(e.rays)} : d \in {Direction(e.dir)}}) : c \in {Ctx(e)}}
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
=============================================================================
