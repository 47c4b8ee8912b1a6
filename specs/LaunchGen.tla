------------------------------ MODULE LaunchGen -----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.N)
R(S) == RandomElement(S)
Hows == <<"grid", "grid", "grid", "polar", "polar", "spokes", "spokes", "stop", "stop", "angles", "angles", "fan">>
Src == {"given", "given", "optic", "both", "none"}
Scenario(i) ==
  [id |-> i, how |-> Hows[(i % Len(Hows)) + 1],
   stop |-> R(Src), cs |-> R(Src), medium |-> R(Src), back |-> R({"given", "optic", "both", "none", "zero"}), size |-> R(Src), inner |-> R({"given", "optic", "both", "none", "zero"}),
   surf |-> R({"plane", "plane", "sph", "par", "quad", "tilt", "zern", "asph"}),
   med |-> R({"const", "const", "sellmeier", "table", "air", "sumita"}),
   dir |-> R({"cos", "cos", "field", "field", "top", "named"}), p |-> R({"postel", "zemax", "gnomonic", "stereographic", "lambert", "orthographic"}),
   axis |-> R({"any", "any", "any", "x", "-x", "y", "z", "-z"}), zero |-> R({TRUE, FALSE, FALSE}),
   big |-> R(1..7) = 1, nbig |-> R(20..140), mbig |-> R(20..140), nx |-> R(1..8), ny |-> R(0..7), ask |-> R({"nd", "nl", "ld"}), vecs |-> R({"scalar", "scalar", "vector", "xvector", "both"}),
   rand |-> R({FALSE, FALSE, FALSE, TRUE}), rng |-> R({"int", "gen", "none"}), nrad |-> R(1..5), naz |-> R(1..26), kfold |-> R({1, 2, 3, 5, 6, 6, 6, 6, 8}),
   rings |-> R({"int", "int", "array", "GQ", "GQ"}), spokes |-> R({"int", "int", "array", "none"}), nr |-> R(1..5), ns |-> R(1..7),
   flux |-> R({"default", "int", "float", "zero"}), bad |-> R({"", "", "", "", "lambda", "three", "one"}), ints |-> R({TRUE, FALSE, FALSE})]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)])
=============================================================================
