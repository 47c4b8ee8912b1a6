---------------------------- MODULE AnalysisTrace ---------------------------
(***************************************************************************)
(* C23: analysis products of real telescopes against the traced rays they  *)
(* are about.  A record carries the rays at the focal surface (b), their   *)
(* places on the stop surface, the chief ray, and the product.             *)
(***************************************************************************)
EXTENDS Rays, FiniteSets, TLC, Json, IOUtils
LOCAL INSTANCE SequencesExt
S == INSTANCE Surfaces
Lat == INSTANCE Lattice WITH Add <- DAdd, Mul <- DMul
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
Cl(ok, name) == IF ok THEN {} ELSE {name}
Map(F(_), s) == FoldLeft(LAMBDA acc, e : Append(acc, F(e)), <<>>, s)
Ints(a, b) == [j \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + j - 1]
Sum(F(_), s) == FoldLeft(LAMBDA acc, e : DAdd(acc, F(e)), 0, s)
Sq(a) == DMul(a, a)
Dot3(a, b) == DAdd(DAdd(DMul(a[1], b[1]), DMul(a[2], b[2])), DMul(a[3], b[3]))
Mag(v) == DSumSeq([c \in 1..Len(v) |-> DAbs(v[c])])
TwoPi == DMul(2, DPi)
P(q) == SubSeq(q, 1, 3)
V(q) == SubSeq(q, 4, 6)
Kept(b) == SelectSeq(Ints(1, Len(b.q)), LAMBDA j : ~b.vig[j])          \* rays that reach the focal surface
Mean(F(_), s) == DDiv(Sum(F, s), Len(s))
(* ---- the reference ------------------------------------------------------ *)
IsGrid(e) == e.kind \in {"spot", "wave", "fft", "huygens", "zernike"}
ChiefQ(e) == IF IsGrid(e) THEN e.b.q[Lat!ChiefRay(e.nx) + 1] ELSE e.chief.q[1]
RefPoint(e) ==
  CASE e.ref = "chief" -> P(ChiefQ(e))
    [] e.ref = "mean" -> LET k == Kept(e.b) IN [c \in 1..3 |-> Mean(LAMBDA j : e.b.q[j][c], k)]
    [] OTHER -> <<0, 0, 0>>
(* the chief ray goes through the middle of the stop *)
ChiefOK(e) == LET a == ChiefQ(e) b == e.chief.q[1] IN
  DIsNan(b[1]) \/ \A c \in 1..3 : DNear(a[c], b[c], "1e-9") /\ DNear(a[c + 3], b[c + 3], "1e-9")
(* ---- times on the reference sphere: centre c, radius |R|, on the side of z that R has ---- *)
SphereTime(q, c, R) ==
  LET d == [a \in 1..3 |-> DSub(q[a], c[a])]
      v == V(q)
      vv == Dot3(v, v)
      dv == Dot3(d, v)
      w == DSqrt(DSub(Sq(dv), DMul(vv, DSub(Dot3(d, d), Sq(R)))))
      s1 == DDiv(DSub(w, dv), vv)
      s2 == DDiv(DNeg(DAdd(w, dv)), vv)
      side(s) == DLt(0, DMul(DAdd(d[3], DMul(v[3], s)), R))
  IN  DAdd(q[7], IF side(s1) THEN s1 ELSE s2)
Times(e) == LET c == RefPoint(e) IN Map(LAMBDA j : IF e.b.vig[j] THEN "nan" ELSE SphereTime(e.b.q[j], c, e.R), Ints(1, Len(e.b.q)))
TimesAll(e) == LET c == RefPoint(e) IN Map(LAMBDA j : SphereTime(e.b.q[j], c, e.R), Ints(1, Len(e.b.q)))
T0(e, T) == IF e.ref = "chief" THEN SphereTime(ChiefQ(e), RefPoint(e), e.R) ELSE LET k == Kept(e.b) IN Mean(LAMBDA j : T[j], k)
WTol(e) == DDiv(DMul("3e-15", DAdd(DAdd(20, DMul(2, DAbs(e.R))), Mag(SubSeq(ChiefQ(e), 7, 7)))), e.lam)
(* the wavefront array a product was made from is judged on its own *)
WaveOK(e, w, mask) ==
  LET T == Times(e) t0 == T0(e, T) tol == WTol(e) IN
  /\ Len(w) = Len(T) /\ \A j \in 1..Len(T) : mask[j] = e.b.vig[j]
  /\ \A j \in 1..Len(T) : ~e.b.vig[j] => DLe(DAbs(DSub(w[j], DDiv(DSub(t0, T[j]), e.lam))), tol)
Zeroed(e, w) ==
  LET k == Kept(e.b) IN
  IF k = <<>> THEN TRUE ELSE IF e.ref = "chief" THEN DNear(w[Lat!ChiefRay(e.nx) + 1], 0, "1e-12") ELSE DNear(Mean(LAMBDA j : w[j], k), 0, WTol(e))
Pitch(e) == DDiv(e.size, IF e.nx % 2 = 0 THEN e.nx - 2 ELSE e.nx - 1)
PupilPV(e) == <<<<Pitch(e), 0>>, <<0, Pitch(e)>>>>
SameMat(a, b, tol) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : \A j \in 1..Len(a[i]) : DLe(DAbs(DSub(a[i][j], b[i][j])), DMul(tol, DAdd("1e-300", DSumSeq([k \in 1..Len(a[i]) |-> DAdd(DAbs(a[i][k]), DAbs(b[i][k]))]))))
(* ---- spot -------------------------------------------------------------- *)
SpotFail(e) ==
  LET k == Kept(e.b) r == RefPoint(e) near(a, b) == DLe(DAbs(DSub(a, b)), DMul("1e-14", DAdd(1, DAdd(DAbs(a), Mag(r))))) IN
  Cl(ChiefOK(e), "the central ray of the grid is not the chief ray") \cup
  Cl(Len(e.x) = Len(k) /\ Len(e.y) = Len(k), "a spot for every unvignetted ray") \cup
  (IF Len(e.x) # Len(k) THEN {} ELSE
   Cl(\A j \in 1..Len(k) : near(DSub(e.b.q[k[j]][1], r[1]), e.x[j]) /\ near(DSub(e.b.q[k[j]][2], r[2]), e.y[j]), "spot positions"))
(* ---- wavefront ----------------------------------------------------------- *)
WaveFail(e) ==
  Cl(ChiefOK(e), "the central ray of the grid is not the chief ray")
  \cup Cl(e.shape = <<e.nx, e.nx>>, "shape") \cup Cl(WaveOK(e, e.w, e.mask), "wavefront") \cup Cl(Zeroed(e, e.w), "the wavefront does not vanish at its reference")
  \cup Cl(SameMat(e.pv, PupilPV(e), "1e-14"), "pupil spacing")
(* ---- lattices of point-spread functions ------------------------------------ *)
Scaled(M, k) == [i \in 1..2 |-> [j \in 1..2 |-> DMul(k, M[i][j])]]
Reciprocal(X, K, n) ==                               \* X_i . K_j = 2 pi / n  if i = j, else 0
  \A i \in 1..2 : \A j \in 1..2 :
    LET d == DAdd(DMul(X[i][1], K[j][1]), DMul(X[i][2], K[j][2]))
        m == DMul(DAdd(DAbs(X[i][1]), DAbs(X[i][2])), DAdd(DAbs(K[j][1]), DAbs(K[j][2])))
    IN  DLe(DAbs(DSub(d, IF i = j THEN DDiv(TwoPi, n) ELSE 0)), DMul("1e-11", m))
LatticeOK(e) == Reciprocal(e.pv, Scaled(e.dkdu, Pitch(e)), e.P)
NonNeg(s) == \A j \in 1..Len(s) : DGe(s[j], 0)
(* transform of the unmasked wavefront at cell (a, b) of a P x P array, zero frequency at P div 2 *)
Fourier(e, w, mask, a, b) ==
  LET k1 == Lat!Off(e.P, a) k2 == Lat!Off(e.P, b)
      open == SelectSeq(Ints(1, Len(w)), LAMBDA j : ~mask[j])
      ph(j) == DMul(TwoPi, DSub(w[j], DDiv(((j - 1) \div e.nx) * k1 + ((j - 1) % e.nx) * k2, e.P)))
      z == FoldLeft(LAMBDA acc, j : LET p == ph(j) IN <<DAdd(acc[1], DCos(p)), DAdd(acc[2], DSin(p))>>, <<0, 0>>, open)
  IN  DAdd(Sq(z[1]), Sq(z[2]))
FftFail(e) ==
  LET open == Cardinality({j \in 1..Len(e.mask) : ~e.mask[j]}) IN
  Cl(WaveOK(e, e.w, e.mask), "wavefront") \cup Cl(e.shape = <<e.P, e.P>>, "shape") \cup Cl(NonNeg(e.psf), "negative intensity")
  \cup Cl(DClose(DSumSeq(e.psf), DMul(e.P * e.P, open), "1e-10"), "the power of the pupil")
  \cup UNION {LET c == e.cells[q] IN Cl(DLe(DAbs(DSub(Fourier(e, e.w, e.mask, c[1], c[2]), e.psf[c[1] * e.P + c[2] + 1])), DMul("1e-9", open * open + 1)), "transform of the wavefront") : q \in 1..Len(e.cells)}
  \cup Cl(LatticeOK(e), "lattice of the focal plane")
(* ---- Huygens: the sum of the plane waves of the rays ------------------------- *)
Omega(q) == DDiv(TwoPi, q[8])
WavePhase(q, r) ==                                   \* at time 0; a common time does not matter
  LET v == V(q) d == [c \in 1..3 |-> DSub(r[c], q[c])] IN
  DMul(Omega(q), DAdd(DDiv(Dot3(v, d), Dot3(v, v)), q[7]))
Huygens(e, r) ==
  LET t0 == ChiefQ(e)[7]
      k == SelectSeq(Ints(1, Len(e.b.q)), LAMBDA j : ~e.b.vig[j] /\ ~e.b.fail[j])
      z == FoldLeft(LAMBDA acc, j : LET p == WavePhase(e.b.q[j], r) f == e.b.q[j][9] IN <<DAdd(acc[1], DMul(f, DCos(p))), DAdd(acc[2], DMul(f, DSin(p)))>>, <<0, 0>>, k)
  IN  DAdd(Sq(z[1]), Sq(z[2]))
HuygensFail(e) ==
  LET n == e.shape[1]
      c0 == RefPoint(e)
      flux == Sum(LAMBDA j : e.b.q[j][9], Ints(1, Len(e.b.q)))
      tol == DMul(Sq(flux), DDiv(DMul("2e-14", DAdd(20, DAbs(e.chief.q[1][7]))), e.lam))
      X(a, b) == Lat!Coord(<<n, n>>, <<b, a>>, e.pv)          \* array [row][column] = [y][x]
  IN  Cl(e.shape[1] = e.shape[2] /\ n = e.nout * (IF e.asked = <<>> THEN 2 ELSE 1), "shape") \cup Cl(NonNeg(e.psf), "negative intensity")
      \cup Cl(IF e.asked = <<>> THEN LatticeOK(e) ELSE SameMat(e.pv, e.asked, "1e-15"), "lattice of the focal plane")
      \cup UNION {LET c == e.cells[q] x == X(c[1], c[2]) IN
                  Cl(DLe(DAbs(DSub(Huygens(e, <<DAdd(x[1], c0[1]), DAdd(x[2], c0[2]), 0>>), e.psf[c[1] * n + c[2] + 1])), tol), "sum of the rays' waves") : q \in 1..Len(e.cells)}
(* ---- Zernike coefficients --------------------------------------------------- *)
Basis(e, J) == LET co == [j \in 1..(J + 1) |-> IF j = 1 THEN 0 ELSE 1] Rm == DDiv(e.size, 2) IN
  [x0 |-> 0, y0 |-> 0, Ro |-> Rm, terms |-> S!ZernTerms(co, e.eps)]
(* rows: points; entries <<value, d/dx, d/dy>> of Noll 1..J *)
Rows(p, J, pts) == Map(LAMBDA q : Map(LAMBDA j : S!ZernSG([p EXCEPT !.terms = <<p.terms[j]>>], q[1], q[2]), Ints(1, J)), pts)
(* the fit leaves nothing along any basis function *)
LeastSquares(rows, w, coef, J) ==
  LET res == Map(LAMBDA i : DSub(w[i], Sum(LAMBDA j : DMul(coef[j], rows[i][j]), Ints(1, J))), Ints(1, Len(rows)))
      scale == Sum(LAMBDA i : DAdd(DAbs(w[i]), Sum(LAMBDA j : DAbs(DMul(coef[j], rows[i][j])), Ints(1, J))), Ints(1, Len(rows)))
  IN  \A k \in 1..J :
        LET big == FoldLeft(LAMBDA m, i : DMax(m, DAbs(rows[i][k])), 0, Ints(1, Len(rows))) IN
        DLe(DAbs(Sum(LAMBDA i : DMul(rows[i][k], res[i]), Ints(1, Len(rows)))), DMul("1e-10", DMul(big, DAdd(scale, "1e-300"))))
(* smallest pivot of the Gram matrix of the columns from..J, relative to its largest entry *)
Pivot(rows, from, J) ==
  LET cols == Ints(from, J)
      dot(a, b) == Sum(LAMBDA i : DMul(rows[i][a], rows[i][b]), Ints(1, Len(rows)))
      G == Map(LAMBDA a : Map(LAMBDA b : dot(a, b), cols), cols)
      n == Len(cols)
      elim(M, k) == IF DLe(M[k][k], 0) THEN M ELSE
                    Map(LAMBDA a : IF a <= k THEN M[a] ELSE Map(LAMBDA b : DSub(M[a][b], DDiv(DMul(M[a][k], M[k][b]), M[k][k])), Ints(1, n)), Ints(1, n))
      E == FoldLeft(LAMBDA M, k : elim(M, k), G, Ints(1, n))
  IN  IF rows = <<>> THEN 0 ELSE LET top == FoldLeft(LAMBDA m, k : DMax(m, G[k][k]), 0, Ints(1, n)) IN
      IF DLe(top, 0) THEN 0 ELSE FoldLeft(LAMBDA m, k : DMin(m, DDiv(E[k][k], top)), 1, Ints(1, n))
Deficient(rows, from, J) == DLt(Pivot(rows, from, J), "1e-12")
Sub(s, idx) == Map(LAMBDA i : s[i], idx)
Vals(rows) == Map(LAMBDA r : Map(LAMBDA x : x[1], r), rows)
(* values that rounding alone keeps from 0 make nothing of the fit *)
ZernikeFail(e) ==
  LET k == Kept(e.b) J == e.jmax IN
  Cl(WaveOK(e, e.w, e.mask), "wavefront") \cup
  IF e.exc = "Rank" THEN Cl(Deficient(Vals(Rows(Basis(e, J), J, Sub(e.stop, k))), 1, J), "no fit though there are points enough") ELSE
  Cl(Len(e.z) = J + 1, "number of coefficients") \cup
  IF Len(e.z) # J + 1 THEN {} ELSE
  Cl(DEq(e.z[1], 0), "coefficient 0") \cup Cl(Len(k) >= J, "a fit of more coefficients than points") \cup
  Cl(LeastSquares(Vals(Rows(Basis(e, J), J, Sub(e.stop, k))), Sub(e.w, k), Tail(e.z), J), "the coefficients do not fit the wavefront")
Area(e) == DMul(DPi, DSub(1, Sq(e.eps)))
GQFail(e) ==
  LET J == e.jmax n == Len(e.b.q) IN
  IF e.exc = "failed" THEN Cl(\E j \in 1..n : e.b.fail[j], "no ray failed") ELSE
  IF \E j \in 1..n : e.b.fail[j] THEN {"rays failed, yet coefficients are given"} ELSE
  IF Len(e.z) # J + 1 THEN {"number of coefficients"} ELSE
  LET T == TimesAll(e)
      t0 == T0(e, T)
      rows == Vals(Rows(Basis(e, J), J, e.stop))
      flux(i) == e.b.q[i][9]
      want(j) == DDiv(Sum(LAMBDA i : DMul(DMul(rows[i][j], flux(i)), DDiv(DSub(t0, T[i]), e.lam)), Ints(1, n)), Area(e))
      size(j) == DDiv(Sum(LAMBDA i : DAbs(DMul(rows[i][j], flux(i))), Ints(1, n)), Area(e))
      (* the points and weights integrate products of low orders exactly over the annulus *)
      exact(j, k) == S!NollN(j) + S!NollN(k) <= 2 * e.rings - 1 /\ S!NollM(j) + S!NollM(k) < e.nspokes
      inner(j, k) == DDiv(Sum(LAMBDA i : DMul(flux(i), DMul(rows[i][j], rows[i][k])), Ints(1, n)), Area(e))
  IN  Cl(DEq(e.z[1], 0), "coefficient 0")
      \cup Cl(\A j \in 1..J : DLe(DAbs(DSub(want(j), e.z[j + 1])), DMul(WTol(e), DAdd(1, size(j)))), "the coefficients are not the integrals of the wavefront")
      \cup Cl(\A j \in 1..J : \A k \in 1..j : exact(j, k) => DNear(inner(j, k), IF j = k THEN 1 ELSE 0, "1e-9"), "points and weights do not integrate over the pupil")
(* gradients of the wavefront times the focal length are the transverse aberrations *)
Det2(M) == DSub(DMul(M[1][1], M[2][2]), DMul(M[1][2], M[2][1]))
TAFail(e) ==
  LET k == Kept(e.b) J == e.jmax r == RefPoint(e) IN
  IF e.exc = "Rank" THEN
    (LET R0 == Rows(Basis(e, J), J, Sub(e.stop, k)) IN
     Cl(Deficient(Map(LAMBDA q : Map(LAMBDA x : x[2], q), R0) \o Map(LAMBDA q : Map(LAMBDA x : x[3], q), R0), 2, J), "no fit though there are points enough")) ELSE
  IF Len(e.z) # J + 1 THEN {"number of coefficients"} ELSE
  IF e.f = <<>> /\ ~DLt(0, Det2(e.drdth)) THEN {} ELSE                \* a mirrored image has no focal length in this sense
  LET f == IF Len(e.f) > 0 THEN e.f[1] ELSE DSqrt(Det2(e.drdth))
      R0 == Rows(Basis(e, J), J, Sub(e.stop, k))
      rows == Map(LAMBDA q : Map(LAMBDA x : x[2], q), R0) \o Map(LAMBDA q : Map(LAMBDA x : x[3], q), R0)
      w == Map(LAMBDA i : DSub(e.b.q[i][1], r[1]), k) \o Map(LAMBDA i : DSub(e.b.q[i][2], r[2]), k)
      coef == Map(LAMBDA j : IF j = 1 THEN 0 ELSE DNeg(DMul(DMul(e.z[j + 1], f), e.lam)), Ints(1, J))
  IN  Cl(DEq(e.z[1], 0), "coefficient 0")
      \cup Cl(DLe(DAbs(e.z[2]), DMul("1e-9", DAdd(1, Mag(e.z)))), "piston")
      \cup Cl(LeastSquares(rows, w, coef, J), "the gradients do not fit the aberrations")
XYFail(e) ==
  LET k == IF e.inclvig THEN Ints(1, Len(e.b.q)) ELSE Kept(e.b)
      J == e.jmax
      r == RefPoint(e)
  IN
  IF \E j \in 1..Len(k) : e.b.fail[k[j]] THEN {} ELSE                   \* vignetted rays that also failed have no place
  IF e.exc = "Rank" THEN Cl(Deficient(Vals(Rows(Basis(e, J), J, Sub(e.stop, k))), 1, J), "no fit though there are points enough") ELSE
  IF Len(k) < J THEN {"a fit of more coefficients than points"} ELSE
  IF Len(e.zx) # J + 1 \/ Len(e.zy) # J + 1 THEN {"number of coefficients"} ELSE
  LET rows == Vals(Rows(Basis(e, J), J, Sub(e.stop, k)))
      fit(c, z) == LeastSquares(rows, Map(LAMBDA i : DSub(e.b.q[i][c], r[c]), k), Tail(z), J)
  IN  Cl(DEq(e.zx[1], 0) /\ DEq(e.zy[1], 0), "coefficient 0") \cup Cl(fit(1, e.zx), "the coefficients do not fit the x aberrations") \cup Cl(fit(2, e.zy), "the coefficients do not fit the y aberrations")
(* ---- double Zernikes: quadrature over the field ------------------------------- *)
Legendre(n, x) == FoldLeft(LAMBDA acc, k : <<acc[2], DDiv(DSub(DMul(DMul(2 * k + 1, x), acc[2]), DMul(k, acc[1])), k + 1)>>, <<1, x>>, Ints(1, n - 1))
(* weight of node x of the n point rule: 2 (1 - x^2) / (n P_{n-1}(x))^2 *)
NodeWeight(n, x) == DDiv(DMul(2, DSub(1, Sq(x))), Sq(DMul(n, Legendre(n, x)[1])))
DZFail(e) ==
  LET n == e.rings
      K == e.kmax
      m == Len(e.pts)
      wt(i) == DDiv(NodeWeight(n, e.nodes[((i - 1) \div e.nspokes) + 1]), 2 * e.nspokes)
      p == [x0 |-> 0, y0 |-> 0, Ro |-> e.field, terms |-> S!ZernTerms([j \in 1..(K + 1) |-> IF j = 1 THEN 0 ELSE 1], 0)]
      rows == Vals(Rows(p, K, e.pts))
      J == Len(e.gq[1])
      want(k, j) == Sum(LAMBDA i : DMul(DMul(wt(i), rows[i][k]), e.gq[i][j]), Ints(1, m))
      scale == DAdd(1, Sum(LAMBDA i : Mag(e.gq[i]), Ints(1, m)))
  IN  IF Len(e.z) # K + 1 THEN {"number of coefficients"} ELSE
      Cl(\A q \in 1..n : DNear(Legendre(n, e.nodes[q])[2], 0, "1e-12"), "nodes of the harness")
      \cup Cl(\A j \in 1..J : DEq(e.z[1][j], 0), "coefficient 0")
      \cup Cl(\A k \in 1..K : \A j \in 2..J : DLe(DAbs(DSub(want(k, j), e.z[k + 1][j])), DMul("1e-6", scale)), "double Zernike coefficients")
(* ---- derivatives ------------------------------------------------------------ *)
K2(q) == LET v == V(q) s == DDiv(Omega(q), Dot3(v, v)) IN <<DMul(s, v[1]), DMul(s, v[2])>>
(* the best line through k(u): the slopes given, with the best constant, leave nothing along u *)
DkduFail(e) ==
  LET k == Kept(e.b)
      mean(F(_)) == Mean(F, k)
      ks == Map(LAMBDA j : IF e.b.vig[j] THEN <<0, 0>> ELSE K2(e.b.q[j]), Ints(1, Len(e.b.q)))
      mu == <<mean(LAMBDA j : e.stop[j][1]), mean(LAMBDA j : e.stop[j][2])>>
      mk == <<mean(LAMBDA j : ks[j][1]), mean(LAMBDA j : ks[j][2])>>
      du(j, c) == DSub(e.stop[j][c], mu[c])
      res(j, d) == DSub(DSub(ks[j][d], mk[d]), DAdd(DMul(e.out[1][d], du(j, 1)), DMul(e.out[2][d], du(j, 2))))
      size == DAdd("1", Sum(LAMBDA j : DAdd(DAbs(ks[j][1]), DAbs(ks[j][2])), k))
      bigu == FoldLeft(LAMBDA m, j : DMax(m, DMax(DAbs(du(j, 1)), DAbs(du(j, 2)))), 0, k)
  IN  Cl(\A c \in 1..2 : \A d \in 1..2 : DLe(DAbs(Sum(LAMBDA j : DMul(du(j, c), res(j, d)), k)), DMul("1e-10", DMul(size, bigu))), "slope of k against the pupil")
DrdthFail(e) ==
  LET k == Kept(e.b)
      m(b, c) == Mean(LAMBDA j : b.q[j][c], k)
      ddx(c) == DDiv(DSub(m(e.x1, c), m(e.x0, c)), DMul(2, e.step))
      ddy(c) == DDiv(DSub(m(e.y1, c), m(e.y0, c)), DMul(2, e.step))
      want == <<<<ddx(1), ddy(1)>>, <<ddx(2), ddy(2)>>>>
      o == e.out
      size == DAdd(Mag(o[1]), Mag(o[2]))
      prod(i, j) == DAdd(DMul(o[i][1], e.inv[1][j]), DMul(o[i][2], e.inv[2][j]))
  IN  Cl(\A i \in 1..2 : \A j \in 1..2 : DLe(DAbs(DSub(want[i][j], o[i][j])), DMul("1e-4", size)), "derivative of position with field angle")
      \cup Cl(\A i \in 1..2 : \A j \in 1..2 : DNear(prod(i, j), IF i = j THEN 1 ELSE 0, "1e-9"), "dthdr is not the inverse of drdth")
      \cup Cl(DLt(0, Det2(o)) => DClose(Sq(e.flen), Det2(o), "1e-10"), "focal length")
(* ---- exit pupil: where small-angle chief rays pass closest to the z axis ------- *)
Closest(q) ==                                        \* on the line p + s u, nearest to the axis
  LET u == V(q) den == DAdd(Sq(u[1]), Sq(u[2])) s == DNeg(DDiv(DAdd(DMul(u[1], q[1]), DMul(u[2], q[2])), den)) IN
  [c \in 1..3 |-> DAdd(q[c], DMul(s, u[c]))]
ExitFail(e) ==
  LET pts == Map(LAMBDA q : Closest(q), e.b.q)
      den == FoldLeft(LAMBDA m, q : DMin(m, DDiv(DAdd(Sq(q[4]), Sq(q[5])), Dot3(V(q), V(q)))), 1, e.b.q)
      size == DAdd(1, FoldLeft(LAMBDA m, q : DMax(m, Mag(q)), 0, pts \o Map(LAMBDA q : P(q), e.b.q)))
      tol == DMul(size, DDiv("1e-13", den))
  IN  Cl(\A c \in 1..3 : DLe(DAbs(DSub(e.out[c], Mean(LAMBDA j : pts[j][c], Ints(1, 4)))), tol), "exit pupil")
(* ---- lattices ------------------------------------------------------------------ *)
LatFail(e) ==
  IF ~e.ok THEN Cl(e.exc = "ValueError", "vectors of another dimension are accepted") ELSE
  IF e.exc = "ValueError" THEN {"vectors refused"} ELSE
  LET T == Lat!Tuples(e.shape)
      d == Len(e.shape)
      size == DSumSeq([j \in 1..d |-> DMul(e.shape[j], Mag(e.pv[j]))])
      ok(cs) == Len(cs) = Len(T) /\ \A j \in 1..Len(T) : LET w == Lat!Coord(e.shape, T[j], e.pv) IN \A c \in 1..d : DLe(DAbs(DSub(cs[j][c], w[c])), DMul("1e-15", size))
  IN  Cl(e.cshape = e.shape \o <<d>>, "shape") \cup Cl(ok(e.coords) /\ ok(e.fn), "coordinates") \cup Cl(e.pvout = e.pv, "primitive vectors") \cup Cl(e.again, "coordinates change")
Fail(e) ==
  IF e.exc \notin {"", "Rank", "failed", "ValueError"} \/ (e.exc = "ValueError" /\ e.kind # "lattice") THEN {"exception: " \o e.exc} ELSE
  LET dark == e.kind \in {"xy", "drdth", "dkdu"} /\ Kept(e.b) = <<>> IN         \* no light arrives: nothing is defined
  Cl(e.kept, "asking changed the optic or the array") \cup Cl(e.same, "asking again gives another answer") \cup
  IF dark THEN {} ELSE
  CASE e.kind = "spot" -> SpotFail(e)
    [] e.kind = "wave" -> WaveFail(e)
    [] e.kind = "fft" -> FftFail(e)
    [] e.kind = "huygens" -> HuygensFail(e)
    [] e.kind = "zernike" -> ZernikeFail(e)
    [] e.kind = "gq" -> GQFail(e)
    [] e.kind = "ta" -> TAFail(e)
    [] e.kind = "xy" -> XYFail(e)
    [] e.kind = "dz" -> DZFail(e)
    [] e.kind = "dkdu" -> DkduFail(e)
    [] e.kind = "drdth" -> DrdthFail(e)
    [] e.kind = "exit" -> ExitFail(e)
    [] OTHER -> LatFail(e)
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
=============================================================================
