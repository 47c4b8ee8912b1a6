------------------------------- MODULE ProjGen ------------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.N)
R(S) == RandomElement(S)
Scenario(i) ==
  [id |-> i, p |-> R({"postel", "zemax", "gnomonic", "stereographic", "lambert", "orthographic"}),
   size |-> R({"zero", "tiny", "small", "small", "field", "large", "huge", "mixed"}), axis |-> R({"x", "y", "diag", "any", "any"}),
   shape |-> R({"scalar", "npscalar", "one", "vector", "vector", "matrix", "strided", "fortran", "zero-d", "oneone", "empty", "readonly", "int"}),
   zeros |-> R({TRUE, TRUE, FALSE}), api |-> R({"dispatch", "named", "top"}), bad |-> R({"Postel", "", "TAN", "gnomonic ", "none"})]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)])
=============================================================================
