------------------------------- MODULE DrawGen -----------------------------
(* Random systems with outlines, and what to draw of them.                 *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.N)
R(S) == RandomElement(S)
LeafKinds == <<"R", "M", "B", "R", "S", "D", "M", "R">>
SurfKinds == <<"plane", "plane", "par", "sph", "quad", "asph", "zern", "bic", "sum", "brim", "brim">>
Shapes == <<"circle", "negcircle", "annulus", "negannulus", "negannulus", "negcircle", "none", "rect", "union", "negrect">>
Basic(k) == [k |-> k, sgn |-> R({-1, 1}), shape |-> R({"ellipsoid", "sphere", "prolate", "parabola", "hyperbola"}),
             nco |-> R(1..2), imin |-> 2, nz |-> R({4, 11}), annular |-> R({TRUE, FALSE}), origin |-> R({TRUE, FALSE}),
             nx |-> R(4..6), ny |-> R(4..6), given |-> R({"none", "all"}), pol |-> R({"nan", "zero"}), neg |-> FALSE, int |-> FALSE, parts |-> <<>>]
Surf(k) == IF k = "sum" THEN [Basic("sum") EXCEPT !.parts = <<Basic(R({"par", "quad"})), Basic("zern")>>] ELSE Basic(k)
Digit(j) == ToString(j)
RECURSIVE Rand(_, _, _)
Rand(d, name, top) ==
  LET inner == top \/ (d > 0 /\ R(1..5) <= 3)
      lens == inner /\ ~top /\ R(1..3) # 1
      w == IF lens THEN 2 ELSE IF top THEN R(1..3) ELSE R({0, 1, 1, 2, 2})
  IN [n |-> name, k |-> IF lens THEN "L" ELSE IF inner THEN "C" ELSE LeafKinds[R(1..Len(LeafKinds))],
      skip |-> ~top /\ R(1..8) = 1,
      o |-> [shape |-> IF inner THEN "none" ELSE Shapes[R(1..Len(Shapes))]],
      s |-> Surf(IF inner THEN "plane" ELSE SurfKinds[R(1..Len(SurfKinds))]),
      items |-> IF inner THEN [j \in 1..w |-> Rand(IF lens THEN 0 ELSE d - 1, name \o Digit(j), FALSE)] ELSE <<>>]
Onlys == <<<<>>, <<"M">>, <<"R">>, <<"D">>, <<"M", "D">>, <<"R", "B", "S">>, <<>>>>
Scenario(i) == [id |-> i, tree |-> Rand(R({2, 2, 3}), "N", TRUE), frames |-> R({"straight", "own"}), move |-> R({"no", "shift", "turn", "part"}),
                only |-> Onlys[R(1..Len(Onlys))], form |-> R({"tuple", "list"}), nslice |-> R({0, 2, 3, 7, 20}), rev |-> R({TRUE, FALSE, FALSE}),
                label |-> R({TRUE, FALSE}), tint |-> R({"c", "color"})]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)])
============================================================================
