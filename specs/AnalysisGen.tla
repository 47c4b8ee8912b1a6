----------------------------- MODULE AnalysisGen ----------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.N)
R(S) == RandomElement(S)
Kinds == <<"spot", "wave", "fft", "huygens", "zernike", "gq", "ta", "xy", "dz", "dkdu", "drdth", "exit", "lattice">>
Scenario(i) ==
  [id |-> i, kind |-> Kinds[(i % Len(Kinds)) + 1],
   tel |-> R({"mirror", "mirror", "lens", "cass", "flat", "yaml"}), yaml |-> R(0..40), moved |-> R({"no", "no", "shift", "turn", "detector", "part"}), bumps |-> R({TRUE, FALSE}),
   obsc |-> R({"none", "centre", "off", "heavy"}), p |-> R({"postel", "zemax", "gnomonic", "stereographic", "lambert", "orthographic"}), dflt |-> R({TRUE, FALSE}),
   field |-> R({"axis", "x", "y", "any", "any"}), ref |-> R({"chief", "chief", "mean", "none", "default"}), nx |-> R(3..10), std |-> R(1..6) = 1, radius |-> R({"optic", "optic", "given", "negative", "int"}),
   pad |-> R({1, 2, 2, 3}), jmax |-> R(1..9), eps |-> R({"0", "0", "optic", "some"}), rings |-> R(2..4), spokes |-> R({"default", "given"}), nrad |-> R(2..5), naz |-> R({6, 12, 20}),
   flen |-> R({"own", "given"}), inclvig |-> R({TRUE, FALSE}), out |-> R({"fft", "scalar", "two", "vectors", "lists"}), nout |-> R(0..4), how |-> R({"kw", "pos"}),
   dims |-> R(1..4), sides |-> [d \in 1..4 |-> R(1..5)], pv |-> R({"array", "list", "ints", "flat", "short", "long", "square"})]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)])
=============================================================================
