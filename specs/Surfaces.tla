------------------------------ MODULE Surfaces -----------------------------
(***************************************************************************)
(* The surfaces of batoid as functions z(x, y) with their gradients, in    *)
(* decimals.  A surface is a record s:                                     *)
(*   [k |-> "plane"]                [k |-> "tilt", tx, ty]                 *)
(*   [k |-> "par", R]  [k |-> "sph", R]  [k |-> "quad", R, c]              *)
(*   [k |-> "asph", R, c, co, imin]                                        *)
(*   [k |-> "zern", co, Ro, Ri, x0, y0]    co[j+1] is Noll coefficient j   *)
(*   [k |-> "bic", x0, x1, y0, y1, z, zx, zy, zxy, pol]   z[iy][ix]; zx,   *)
(*      zy, zxy may be <<>> (by finite differences); pol "nan" or "zero"   *)
(*   [k |-> "sum", parts]                                                  *)
(* Prepared(s) computes once what does not depend on the point; SG(p, x, y)*)
(* is <<z, dz/dx, dz/dy>> of a prepared surface.                           *)
(***************************************************************************)
EXTENDS Dec, SequencesExt
Map(F(_), s) == FoldLeft(LAMBDA acc, e : Append(acc, F(e)), <<>>, s)
Ints(a, b) == [j \in 1..(IF b < a THEN 0 ELSE b - a + 1) |-> a + j - 1]
Sq(a) == DMul(a, a)

(* ---- conics: r^2 / (R (1 + sqrt(1 - (1+c) r^2/R^2))) ------------------ *)
ConicSG(R, c, x, y) ==
  LET r2 == DAdd(Sq(x), Sq(y))
      w == DSqrt(DSub(1, DDiv(DMul(DAdd(1, c), r2), Sq(R))))
      rw == DMul(R, w)
  IN  <<DDiv(r2, DMul(R, DAdd(1, w))), DDiv(x, rw), DDiv(y, rw)>>
(* the even polynomial sum_i co_i r^(2 (i + imin - 1)) and its gradient *)
EvenSG(co, imin, x, y) ==
  LET r2 == DAdd(Sq(x), Sq(y))
      P == FoldLeft(LAMBDA acc, j :
             LET e == j + imin - 1 IN
             <<DAdd(acc[1], DMul(co[j], DPowI(r2, e))),
               DAdd(acc[2], DMul(DMul(co[j], 2 * e), DPowI(r2, e - 1)))>>, <<0, 0>>, Ints(1, Len(co)))
  IN  <<P[1], DMul(P[2], x), DMul(P[2], y)>>

(* ---- annular Zernike polynomials, Noll order --------------------------- *)
NollN(j) == CHOOSE n \in 0..60 : n * (n + 1) < 2 * j /\ 2 * j <= (n + 1) * (n + 2)
NollM(j) == LET n == NollN(j)
                i == j - ((n * (n + 1)) \div 2) - 1          \* place within its order, from 0
            IN  (n % 2) + 2 * ((i + ((n + 1) % 2)) \div 2)
(* mean over the annulus e < r < 1 of r^(2p) *)
Moment(e, p) == DDiv(DSub(1, DPowI(e, 2 * (p + 1))), DMul(p + 1, DSub(1, Sq(e))))
(* mean of r^(2m) f(r^2) g(r^2); f, g coefficient sequences in u = r^2 *)
Inner(mo, m, f, g) ==
  FoldLeft(LAMBDA acc, a : FoldLeft(LAMBDA ac, b : DAdd(ac, DMul(DMul(f[a], g[b]), mo[m + a + b - 1])), acc, Ints(1, Len(g))),
           0, Ints(1, Len(f)))
Pad(f, n) == f \o [j \in 1..(n - Len(f)) |-> 0]
Axpy(c, f, g) == Map(LAMBDA j : DSub(g[j], DMul(c, f[j])), Ints(1, Len(g)))   \* g - c f
(* orthonormal polynomials in u of degrees 0..K for azimuthal order m, leading coefficient positive *)
Radial(mo, m, K) ==
  FoldLeft(LAMBDA basis, k :
    LET mono == Map(LAMBDA j : IF j = k + 1 THEN 1 ELSE 0, Ints(1, k + 1))
        orth == FoldLeft(LAMBDA f, q : Axpy(Inner(mo, m, mono, q), Pad(q, k + 1), f), mono, basis)
        norm == DSqrt(Inner(mo, m, orth, orth))
    IN  Append(basis, Map(LAMBDA c : DDiv(c, norm), orth)), <<>>, Ints(0, K))
(* terms: sequence of [m, sin, q] with the coefficients folded into q *)
ZernTerms(co, eps) ==
  LET J == Len(co) - 1
      Nmax == IF J < 1 THEN 0 ELSE NollN(J)
      mo == Map(LAMBDA p : Moment(eps, p), Ints(0, 2 * Nmax + 2))
      bases == Map(LAMBDA m : Radial(mo, m, (Nmax - m) \div 2), Ints(0, Nmax))
  IN  Map(LAMBDA j :
            LET m == NollM(j)
                q == bases[m + 1][(NollN(j) - m) \div 2 + 1]
                f == DMul(co[j + 1], IF m = 0 THEN 1 ELSE DSqrt(2))
            IN  [m |-> m, sin |-> j % 2 = 1, q |-> Map(LAMBDA c : DMul(f, c), q)],
          SelectSeq(Ints(1, J), LAMBDA j : ~DEq(co[j + 1], 0)))
(* powers of (x + iy): <<Re, Im>> for exponents 0..n *)
CPowers(x, y, n) ==
  FoldLeft(LAMBDA acc, j : Append(acc, <<DSub(DMul(acc[j][1], x), DMul(acc[j][2], y)),
                                         DAdd(DMul(acc[j][1], y), DMul(acc[j][2], x))>>), <<<<1, 0>>>>, Ints(1, n))
PolyVal(q, u) == FoldRight(LAMBDA c, acc : DAdd(c, DMul(u, acc)), q, 0)
PolyDer(q, u) == PolyVal(Map(LAMBDA j : DMul(j, q[j + 1]), Ints(1, Len(q) - 1)), u)
ZernSG(p, x, y) ==
  LET X == DDiv(DSub(x, p.x0), p.Ro)
      Y == DDiv(DSub(y, p.y0), p.Ro)
      u == DAdd(Sq(X), Sq(Y))
      mm == FoldLeft(LAMBDA a, t : IF t.m > a THEN t.m ELSE a, 0, p.terms)
      cp == CPowers(X, Y, mm)
      S == FoldLeft(LAMBDA acc, t :
             LET q == PolyVal(t.q, u)
                 d == DMul(2, PolyDer(t.q, u))
                 i == IF t.sin THEN 2 ELSE 1
                 h == cp[t.m + 1][IF t.m = 0 THEN 1 ELSE i]
                 hx == IF t.m = 0 THEN 0 ELSE DMul(t.m, cp[t.m][i])
                 hy == IF t.m = 0 THEN 0 ELSE IF t.sin THEN DMul(t.m, cp[t.m][1]) ELSE DNeg(DMul(t.m, cp[t.m][2]))
             IN  <<DAdd(acc[1], DMul(q, h)),
                   DAdd(acc[2], DAdd(DMul(DMul(X, d), h), DMul(q, hx))),
                   DAdd(acc[3], DAdd(DMul(DMul(Y, d), h), DMul(q, hy)))>>, <<0, 0, 0>>, p.terms)
  IN  <<S[1], DDiv(S[2], p.Ro), DDiv(S[3], p.Ro)>>

(* ---- bicubic Hermite interpolation -------------------------------------- *)
(* derivative of samples f at place i of n, spacing h *)
FD(f, i, n, h) == IF i = 1 THEN DDiv(DSub(f[2], f[1]), h)
                  ELSE IF i = n THEN DDiv(DSub(f[n], f[n - 1]), h)
                  ELSE DDiv(DSub(f[i + 1], f[i - 1]), DMul(2, h))
DX(z, h) == Map(LAMBDA row : Map(LAMBDA i : FD(row, i, Len(row), h), Ints(1, Len(row))), z)
DY(z, h) == Map(LAMBDA iy : Map(LAMBDA ix : FD(Map(LAMBDA r : r[ix], z), iy, Len(z), h), Ints(1, Len(z[1]))), Ints(1, Len(z)))
(* Hermite basis on [0,1]: value at 0, slope at 0, value at 1, slope at 1 *)
HB(u) == LET u2 == Sq(u) v == DSub(1, u) v2 == Sq(v) IN
  <<DMul(v2, DAdd(1, DMul(2, u))), DMul(u, v2), DMul(u2, DSub(3, DMul(2, u))), DNeg(DMul(u2, v))>>
HD(u) == LET v == DSub(1, u) IN
  <<DNeg(DMul(6, DMul(u, v))), DMul(v, DSub(1, DMul(3, u))), DMul(6, DMul(u, v)), DMul(u, DSub(DMul(3, u), 2))>>
Cell(a, a0, h) == DFloor(DDiv(DSub(a, a0), h)) + 1
BicSG(p, x, y) ==
  LET ix == Cell(x, p.x0, p.dx)
      iy == Cell(y, p.y0, p.dy)
  IN  IF ix < 1 \/ ix >= p.nx \/ iy < 1 \/ iy >= p.ny
      THEN IF p.pol = "nan" THEN <<"nan", "nan", "nan">> ELSE <<0, 0, 0>>
      ELSE
  LET u == DSub(DDiv(DSub(x, p.x0), p.dx), ix - 1)
      v == DSub(DDiv(DSub(y, p.y0), p.dy), iy - 1)
      hu == HB(u) hv == HB(v) du == HD(u) dv == HD(v)
      At(f, a, b) == f[iy + b][ix + a]
      Term(A, B, a, b) ==
        DAdd(DAdd(DMul(At(p.z, a, b), DMul(A[2 * a + 1], B[2 * b + 1])),
                  DMul(DMul(At(p.zx, a, b), p.dx), DMul(A[2 * a + 2], B[2 * b + 1]))),
             DAdd(DMul(DMul(At(p.zy, a, b), p.dy), DMul(A[2 * a + 1], B[2 * b + 2])),
                  DMul(DMul(DMul(At(p.zxy, a, b), p.dx), p.dy), DMul(A[2 * a + 2], B[2 * b + 2]))))
      Total(A, B) == DAdd(DAdd(Term(A, B, 0, 0), Term(A, B, 1, 0)), DAdd(Term(A, B, 0, 1), Term(A, B, 1, 1)))
  IN  <<Total(hu, hv), DDiv(Total(du, hv), p.dx), DDiv(Total(hu, dv), p.dy)>>

(* ---- all of them --------------------------------------------------------- *)
RECURSIVE Prepared(_)
Prepared(s) ==
  CASE s.k = "zern" -> [k |-> "zern", x0 |-> s.x0, y0 |-> s.y0, Ro |-> s.Ro, terms |-> ZernTerms(s.co, DDiv(s.Ri, s.Ro))]
    [] s.k = "bic" ->
         LET nx == Len(s.z[1])
             ny == Len(s.z)
             dx == DDiv(DSub(s.x1, s.x0), nx - 1)
             dy == DDiv(DSub(s.y1, s.y0), ny - 1)
             zx == IF s.zx = <<>> THEN DX(s.z, dx) ELSE s.zx
             zy == IF s.zy = <<>> THEN DY(s.z, dy) ELSE s.zy
             zxy == IF s.zxy = <<>> THEN DX(zy, dx) ELSE s.zxy
         IN  [k |-> "bic", x0 |-> s.x0, y0 |-> s.y0, dx |-> dx, dy |-> dy, nx |-> nx, ny |-> ny, pol |-> s.pol,
              z |-> s.z, zx |-> zx, zy |-> zy, zxy |-> zxy]
    [] s.k = "sum" -> [k |-> "sum", parts |-> Map(Prepared, s.parts)]
    [] OTHER -> s
RECURSIVE SG(_, _, _)
SG(p, x, y) ==
  CASE p.k = "plane" -> <<0, 0, 0>>
    [] p.k = "tilt" -> <<DAdd(DMul(x, p.tx), DMul(y, p.ty)), p.tx, p.ty>>
    [] p.k = "tiltl" -> LET w == DSqrt(DSub(1, DAdd(Sq(p.tx), Sq(p.ty)))) IN   \* with the normal (-tx, -ty, w)
         <<DAdd(DMul(x, p.tx), DMul(y, p.ty)), DDiv(p.tx, w), DDiv(p.ty, w)>>
    [] p.k = "par" -> <<DDiv(DAdd(Sq(x), Sq(y)), DMul(2, p.R)), DDiv(x, p.R), DDiv(y, p.R)>>
    [] p.k = "sph" -> ConicSG(p.R, 0, x, y)
    [] p.k = "quad" -> ConicSG(p.R, p.c, x, y)
    [] p.k = "asph" -> LET a == ConicSG(p.R, p.c, x, y)
                           b == EvenSG(p.co, p.imin, x, y)
                       IN  <<DAdd(a[1], b[1]), DAdd(a[2], b[2]), DAdd(a[3], b[3])>>
    [] p.k = "zern" -> ZernSG(p, x, y)
    [] p.k = "bic" -> BicSG(p, x, y)
    [] p.k = "sum" -> FoldLeft(LAMBDA acc, q : LET b == SG(q, x, y) IN <<DAdd(acc[1], b[1]), DAdd(acc[2], b[2]), DAdd(acc[3], b[3])>>,
                               <<0, 0, 0>>, p.parts)
(* unit normal (-zx, -zy, 1)/|.|  of a gradient *)
NormalOf(g) == LET w == DDiv(1, DSqrt(DAdd(1, DAdd(Sq(g[2]), Sq(g[3]))))) IN <<DNeg(DMul(g[2], w)), DNeg(DMul(g[3], w)), w>>

(* points so close to the edge of the domain that rounding decides *)
RECURSIVE OnEdge(_, _, _)
OnEdge(p, x, y) ==
  LET conic(R, c) == DNear(DDiv(DMul(DAdd(1, c), DAdd(Sq(x), Sq(y))), Sq(R)), 1, "1e-6")
      near(a, b, h) == DNear(a, b, DMul(h, "1e-9"))
  IN  CASE p.k = "sph" -> conic(p.R, 0)
        [] p.k \in {"quad", "asph"} -> conic(p.R, p.c)
        [] p.k = "bic" -> near(x, p.x0, p.dx) \/ near(x, DAdd(p.x0, DMul(p.nx - 1, p.dx)), p.dx)
                          \/ near(y, p.y0, p.dy) \/ near(y, DAdd(p.y0, DMul(p.ny - 1, p.dy)), p.dy)
        [] p.k = "sum" -> \E j \in 1..Len(p.parts) : OnEdge(p.parts[j], x, y)
        [] OTHER -> FALSE
============================================================================
