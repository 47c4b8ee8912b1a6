---------------------------- MODULE SurfacesMC -----------------------------
(***************************************************************************)
(* The surface formulas over a grid of surfaces and points: the gradient   *)
(* is the derivative of the sag, the Noll order is the published one, the  *)
(* annular polynomials are orthonormal and reduce to the classical ones,   *)
(* the bicubic passes through its data with its derivatives and is smooth  *)
(* across cells.                                                           *)
(***************************************************************************)
EXTENDS Surfaces, FiniteSets, TLC
Z(j) == [x \in 1..(j + 1) |-> IF x = j + 1 THEN "1" ELSE "0"]
Zern(j, Ri) == [k |-> "zern", co |-> Z(j), Ro |-> "1", Ri |-> Ri, x0 |-> "0", y0 |-> "0"]
Grid == <<<<"0.1", "-0.2", "0.3", "0">>, <<"0.5", "0.7", "-0.1", "0.2">>, <<"-0.4", "0.1", "0.6", "0.9">>>>
Bic == [k |-> "bic", x0 |-> "-1", x1 |-> "2", y0 |-> "0", y1 |-> "1", z |-> Grid, zx |-> <<>>, zy |-> <<>>, zxy |-> <<>>, pol |-> "nan"]
Shapes == <<[k |-> "plane"], [k |-> "tilt", tx |-> "0.3", ty |-> "-0.1"], [k |-> "par", R |-> "7"], [k |-> "sph", R |-> "-9"],
  [k |-> "quad", R |-> "8", c |-> "0.7"], [k |-> "quad", R |-> "-8", c |-> "-1"], [k |-> "quad", R |-> "8", c |-> "-3"],
  [k |-> "asph", R |-> "8", c |-> "-0.5", co |-> <<"0.01", "-0.002">>, imin |-> 2],
  [k |-> "asph", R |-> "8", c |-> "-0.5", co |-> <<"0.01", "-0.002", "0.001">>, imin |-> 1],
  [k |-> "zern", co |-> <<"9", "0.1", "0.2", "-0.1", "0.05", "0.3", "-0.2", "0.1", "0.1", "-0.1", "0.2", "0.1">>, Ro |-> "1.5", Ri |-> "0.6", x0 |-> "0.1", y0 |-> "-0.2"],
  Bic,
  [k |-> "sum", parts |-> <<[k |-> "sph", R |-> "-9"], [k |-> "sum", parts |-> <<Bic, [k |-> "par", R |-> "7"]>>]>>]>>
Pts == {<<"0.3", "0.4">>, <<"-0.7", "0.2">>, <<"0.05", "0.55">>, <<"1.2", "0.9">>, <<"0.5", "0.5">>}
VARIABLES phase, si, pt, j
vars == <<phase, si, pt, j>>
Init == \/ phase = "grad" /\ si \in 1..Len(Shapes) /\ pt \in Pts /\ j = 0
        \/ phase = "zern" /\ si = 0 /\ pt = <<>> /\ j = 1
(* visit the Zernike polynomials in order *)
Next == phase = "zern" /\ j < 15 /\ j' = j + 1 /\ UNCHANGED <<phase, si, pt>>
Spec == Init /\ [][Next]_vars
H == "1e-12"
Gradient == phase = "grad" =>
  \A p \in {Prepared(Shapes[si])} :
    LET x == pt[1] y == pt[2]
        g == SG(p, x, y)
        fx == DDiv(DSub(SG(p, DAdd(x, H), y)[1], SG(p, DSub(x, H), y)[1]), DMul(2, H))
        fy == DDiv(DSub(SG(p, x, DAdd(y, H))[1], SG(p, x, DSub(y, H))[1]), DMul(2, H))
        n == NormalOf(g)
    IN  /\ DNear(g[2], fx, "1e-10") /\ DNear(g[3], fy, "1e-10")
        /\ DNear(DDot(n, n), 1, "1e-40") /\ DGt(n[3], 0)
        /\ DNear(DDot(n, <<1, 0, g[2]>>), 0, "1e-40") /\ DNear(DDot(n, <<0, 1, g[3]>>), 0, "1e-40")
(* Noll (1976), table 1 *)
Table == <<<<0, 0>>, <<1, 1>>, <<1, 1>>, <<2, 0>>, <<2, 2>>, <<2, 2>>, <<3, 1>>, <<3, 1>>, <<3, 3>>, <<3, 3>>,
           <<4, 0>>, <<4, 2>>, <<4, 2>>, <<4, 4>>, <<4, 4>>>>
NollRight == phase = "zern" => <<NollN(j), NollM(j)>> = Table[j]
(* classical values at (x, y) *)
X == "0.3"
Y == "-0.5"
r2 == DAdd(Sq(X), Sq(Y))
Classical == <<1, DMul(2, X), DMul(2, Y), DMul(DSqrt(3), DSub(DMul(2, r2), 1)), DMul(DSqrt(6), DMul(2, DMul(X, Y))),
               DMul(DSqrt(6), DSub(Sq(X), Sq(Y))), DMul(DSqrt(8), DMul(Y, DSub(DMul(3, r2), 2))), DMul(DSqrt(8), DMul(X, DSub(DMul(3, r2), 2)))>>
Orthonormal == phase = "zern" =>
  /\ j <= Len(Classical) => \A p \in {Prepared(Zern(j, "0"))} : DNear(SG(p, X, Y)[1], Classical[j], "1e-40")
  /\ \A e \in {"0", "0.37", "0.61"} :
       LET m == NollM(j)
           K == (NollN(j) - m) \div 2
       IN  \A mo \in {Map(LAMBDA p : Moment(e, p), Ints(0, 12))} : \A B \in {Radial(mo, m, K)} : \A a, b \in 1..(K + 1) :
             DNear(Inner(mo, m, B[a], B[b]), IF a = b THEN 1 ELSE 0, "1e-35")
(* a step s beyond sample i of n *)
x_out(i, s, n) == (i = 1 /\ s = "-1e-20") \/ (i = n /\ s = "1e-20")
(* the interpolant has the data's values and slopes at the grid points, from every cell *)
Hermite == phase = "grad" /\ Shapes[si] = Bic => \A p \in {Prepared(Bic)} : \A ix \in 1..4, iy \in 1..3 :
   \A sx, sy \in {"1e-20", "-1e-20"} :
     LET x == DAdd(DAdd(p.x0, DMul(ix - 1, p.dx)), sx)
         y == DAdd(DAdd(p.y0, DMul(iy - 1, p.dy)), sy)
         g == SG(p, x, y)
     IN  DIsNan(g[1]) = (x_out(ix, sx, 4) \/ x_out(iy, sy, 3))
         /\ (DIsNan(g[1]) \/ (DNear(g[1], Grid[iy][ix], "1e-15") /\ DNear(g[2], p.zx[iy][ix], "1e-15") /\ DNear(g[3], p.zy[iy][ix], "1e-15")))
============================================================================
