------------------------------- MODULE SagGen ------------------------------
(* Random surfaces and point sets.                                          *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.N)
R(S) == RandomElement(S)
Kinds == <<"plane", "tilt", "par", "sph", "quad", "asph", "zern", "bic", "sum">>
Simple == {"plane", "par", "sph", "quad", "asph", "zern", "bic"}
Leaf(k) == [k |-> k, sgn |-> R({-1, 1}), shape |-> R({"ellipsoid", "sphere", "prolate", "parabola", "hyperbola"}),
            nco |-> R(1..4), imin |-> R({1, 2, 2, 3}), nz |-> R({1, 2, 4, 7, 11, 12, 16, 22, 29, 37}), annular |-> R({TRUE, FALSE}),
            origin |-> R({TRUE, FALSE}), nx |-> R(3..7), ny |-> R(3..7), given |-> R({"none", "all", "first", "mixed"}),
            pol |-> R({"nan", "zero"}), neg |-> R({TRUE, FALSE}), int |-> R({TRUE, FALSE, FALSE}),
            parts |-> <<>>]
Surf(k, d) == IF k # "sum" THEN Leaf(k) ELSE
  [Leaf("sum") EXCEPT !.parts = [j \in 1..R(1..3) |-> LET q == R(IF d > 0 THEN Simple \cup {"sum"} ELSE Simple) IN
       IF q = "sum" THEN [Leaf("sum") EXCEPT !.parts = [a \in 1..R(1..2) |-> Leaf(R(Simple))]] ELSE Leaf(q)]]
Scenario(i) == [id |-> i, s |-> Surf(Kinds[(i % Len(Kinds)) + 1], 1), np |-> R(4..12), far |-> R({TRUE, FALSE}),
                scale |-> R({"1", "1", "0.0001", "0.01", "1000"}), pickle |-> R({TRUE, FALSE, FALSE})]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)])
============================================================================
