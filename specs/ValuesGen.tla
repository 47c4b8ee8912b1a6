------------------------------ MODULE ValuesGen ------------------------------
(* Random descriptions (the numbers are filled in by the driver) and edits.   *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.N)
R(S) == RandomElement(S)
D(k, n, st, su) == [k |-> k, n |-> n, strs |-> st, subs |-> su]
Many(m) == 1..m
RECURSIVE Surf(_), Obsc(_), Opt(_)
Surf(d) == LET k == R(1..(IF d = 0 THEN 9 ELSE 11)) IN
  IF k = 1 THEN D("Plane", <<>>, <<>>, <<>>)
  ELSE IF k = 2 THEN D("Tilted", <<2>>, <<>>, <<>>)
  ELSE IF k = 3 THEN D("Paraboloid", <<1>>, <<>>, <<>>)
  ELSE IF k = 4 THEN D("Sphere", <<1>>, <<>>, <<>>)
  ELSE IF k = 5 THEN D("Quadric", <<2>>, <<>>, <<>>)
  ELSE IF k \in {6, 7} THEN D("Asphere", <<2, R(1..3), R(1..4)>>, <<>>, <<>>)      \* third: imin
  ELSE IF k = 8 THEN D("Zernike", <<R(2..12), 4>>, <<>>, <<>>)
  ELSE IF k = 9 THEN LET x == R(2..4) y == R(2..4) IN D("Bicubic", IF R({TRUE, FALSE}) THEN <<x, y, x * y>> ELSE <<x, y, x * y, x * y, x * y, x * y>>, <<R({"nan", "zero"})>>, <<>>)
  ELSE D("Sum", <<>>, <<>>, [j \in 1..R(1..3) |-> Surf(d - 1)])
Med(z) == LET k == R(1..5) IN
  IF k = 1 THEN D("Const", <<1>>, <<>>, <<>>)
  ELSE IF k = 2 THEN (LET m == R(2..5) IN D("Table", <<m, m>>, <<>>, <<>>))
  ELSE IF k = 3 THEN D("Sellmeier", <<6>>, <<>>, <<>>)
  ELSE IF k = 4 THEN D("Sumita", <<6>>, <<>>, <<>>) ELSE D("Air", <<3>>, <<>>, <<>>)
Coat == D("Coating", <<2>>, <<>>, <<>>)
Obsc(d) == LET k == R(1..(IF d = 0 THEN 5 ELSE 9)) IN
  IF k = 1 THEN D("Circle", <<3>>, <<>>, <<>>)
  ELSE IF k = 2 THEN D("Annulus", <<4>>, <<>>, <<>>)
  ELSE IF k = 3 THEN D("Rectangle", <<5>>, <<>>, <<>>)
  ELSE IF k = 4 THEN D("Ray", <<4>>, <<>>, <<>>)
  ELSE IF k = 5 THEN (LET m == R(3..6) IN D("Polygon", <<m, m>>, <<>>, <<>>))
  ELSE IF k = 6 THEN D("not", <<>>, <<>>, <<Obsc(d - 1)>>)
  ELSE D(R({"or", "and"}), <<>>, <<>>, [j \in 1..R(1..3) |-> Obsc(d - 1)])
Frame == D("CoordSys", <<3, 9>>, <<>>, <<>>)
Trans == D("Transform", <<>>, <<>>, <<Frame, Frame>>)
Latt(z) == LET d == R(1..3) s == [j \in 1..d |-> R(1..4)]
            size == s[1] * (IF d > 1 THEN s[2] ELSE 1) * (IF d > 2 THEN s[3] ELSE 1) IN [D("Lattice", <<d, size, d * d>>, <<>>, <<>>) EXCEPT !.strs = <<>>] @@ [shape |-> s]
None == D("none", <<>>, <<>>, <<>>)
Name(z) == <<R({"A", "B", "M1", "a b", "it's", "x\\y"})>>
Mbox(same) == IF same THEN LET m == Med(0) IN <<m, m>> ELSE <<Med(0), Med(0)>>
Opt(d) == LET k == R(1..(IF d = 0 THEN 6 ELSE 9)) IN
  IF k <= 5 THEN (LET b == R({TRUE, TRUE, FALSE}) IN
     D(<<"Baffle", "Mirror", "Refractive", "Detector", "Interface">>[k], <<>>, Name(0), <<Surf(1), IF b THEN Obsc(1) ELSE None, Frame, Med(0), Med(0)>>))
  ELSE IF k = 6 THEN (LET m == Med(0) IN D("Screen", <<>>, Name(0), <<Surf(1), IF R({TRUE, FALSE}) THEN Obsc(1) ELSE None, Frame, m, m, Surf(0)>>))
  ELSE LET kind == R({"Compound", "Lens"}) IN
     D(kind, <<>>, Name(0), <<Frame, Med(0), Med(0)>> \o [j \in 1..(IF kind = "Lens" THEN 2 ELSE R({0, 1, 1, 2, 2, 3, 3})) |-> Opt(IF kind = "Lens" THEN 0 ELSE d - 1)])
AnyOf(f) == CASE f = 1 -> Surf(2) [] f = 2 -> Med(0) [] f = 3 -> Coat [] f = 4 -> Obsc(3) [] f = 5 -> Frame [] f = 6 -> Trans [] f = 7 -> Latt(0) [] OTHER -> Opt(2)
(* more numbers than numpy prints *)
Long(z) == LET k == R(1..4) P == D("Polygon", <<1040, 1040>>, <<>>, <<>>) IN
  IF k = 1 THEN P ELSE IF k = 2 THEN D("Table", <<1100, 1100>>, <<>>, <<>>) ELSE IF k = 3 THEN D("Bicubic", <<40, 30, 1200>>, <<"nan">>, <<>>) ELSE D("or", <<>>, <<>>, <<P, P>>)
Ops == {"same", "same", "bump", "bump", "bump", "string", "kind", "drop", "append", "swapnum", "swapsub", "other"}
Scenario(i) == LET f == ((i - 1) % 9) + 1 IN
  [id |-> i, d |-> IF i % 40 = 7 THEN Long(0) ELSE AnyOf(f), op |-> R(Ops), deep |-> R({TRUE, TRUE, FALSE}), delta |-> R({"half", "tiny", "tiny", "neg", "zero", "clash", "clash"}),
   other |-> AnyOf(R(1..9)), vals |-> R({"nice", "random", "random", "special"}), style |-> R({"float", "int", "np64", "array", "list", "tuple"}),
   sweep |-> R({TRUE, FALSE, FALSE}), used |-> R({TRUE, FALSE}), ba |-> R({TRUE, FALSE}), coords |-> R({"given", "default"})]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)])
=============================================================================
