------------------------------ MODULE OpticsGen ----------------------------
(* Random encounters of rays and surfaces.                                  *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.N)
MODE == IOEnv.MODE
R(S) == RandomElement(S)
Kinds == IF MODE = "int" THEN <<"plane", "tilt", "par", "sph", "quad", "asph", "zern", "bic", "sum", "quad", "sph">>
         ELSE <<"plane", "par", "sph", "quad", "asph", "zern", "bic", "sum", "quad", "tilt">>
Simple == {"plane", "par", "sph", "quad", "asph", "zern", "bic"}
Leaf(k) == [k |-> k, sgn |-> R({-1, 1}), shape |-> R({"ellipsoid", "sphere", "prolate", "parabola", "hyperbola"}),
            nco |-> R(1..4), imin |-> R({1, 2, 2, 3}), nz |-> R({1, 2, 4, 7, 11, 12, 16, 22}), annular |-> R({TRUE, FALSE}),
            origin |-> R({TRUE, FALSE}), nx |-> R(4..7), ny |-> R(4..7), given |-> R({"none", "none", "all", "first"}),
            pol |-> R({"nan", "zero"}), int |-> R({TRUE, FALSE, FALSE}), parts |-> <<>>]
Surf(k) == IF k # "sum" THEN Leaf(k) ELSE
  [Leaf("sum") EXCEPT !.parts = [j \in 1..R(1..3) |-> Leaf(R(IF j = 1 THEN {"plane", "par", "sph", "quad"} ELSE Simple))]]
Solved == {"plane", "tilt", "par", "sph", "quad"}      \* met in closed form, at any size
Media == {"vac", "const", "dense", "table", "sell", "air", "sumita"}
Close == {<<"vac", "thin">>, <<"thin", "air">>, <<"const", "constish">>, <<"sell", "sellish">>, <<"dense", "denser">>, <<"thin", "thinner">>}   \* nearly matched
Pair(i) == IF R(1..4) = 1 THEN LET c == R(Close) IN (IF R({TRUE, FALSE}) THEN c ELSE <<c[2], c[1]>>) ELSE <<R(Media), R(Media)>>
Scenario(i) == LET m == Pair(i) k == Kinds[(i % Len(Kinds)) + 1] IN [id |-> i, s |-> Surf(k), f |-> Leaf(R({"plane", "par", "zern", "bic", "quad", "sum0"})),
   start |-> R({"near", "far", "on", "behind"} \cup (IF k \in {"par", "sph", "quad"} THEN {"exact"} ELSE {})), side |-> R({"up", "down", "both"}), steep |-> R({"axis", "mild", "steep"}),
   frame |-> R({"own", "shift", "any"}), rays |-> R({"own", "any", "global"}), via |-> R({"fn", "meth", "optic", "split", "kw", "tree"}),
   m1 |-> m[1], m2 |-> m[2],
   coat |-> R({"none", "none", "0.3", "0.75"}), rev |-> R({TRUE, FALSE}), odd |-> R({TRUE, FALSE}), scale |-> R({"0.01", "1", "1", "30"} \cup (IF k \in Solved THEN {"0.0001", "1000"} ELSE {}))]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)])
============================================================================
