------------------------------ MODULE MediaGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.N)
R(S) == RandomElement(S)
Scenario(i) ==
  [id |-> i, k |-> R({"const", "table", "table", "sellmeier", "sumita", "air"}), size |-> R(2..7), micron |-> R({TRUE, FALSE, FALSE}),
   num |-> R({"float", "float", "int", "np64", "np32", "npint"}), seq |-> R({"list", "tuple", "array", "strided", "f32", "intarray"}),
   how |-> R({"args", "seq", "kw", "file"}), after |-> R({"none", "pickle", "copy", "deepcopy", "mutate", "repeat"}),
   ask |-> [j \in 1..4 |-> [shape |-> R({"scalar", "zero-d", "vector", "matrix", "empty", "strided", "fortran", "f32", "int", "npscalar", "pyint", "broadcast", "bulk"}),
                            where |-> R({"inside", "inside", "nodes", "ends", "outside"})]]]
Files == {"silica_dispersion.txt", "silicon_dispersion.txt"}
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)] \o [j \in 1..2 |-> [id |-> N + j, k |-> "shipped", name |-> IF j = 1 THEN "silica_dispersion.txt" ELSE "silicon_dispersion.txt"]])
=============================================================================
