------------------------------- MODULE WaveGen ------------------------------
(* Histories of propagations, frame changes and copies, then questions.       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.N)
R(S) == RandomElement(S)
Op(j) == [op |-> R({"prop", "prop", "frame", "frame", "copy", "pickle", "slice", "join"}), how |-> R({"float", "int", "np", "zero", "same"}), via |-> R({"meth", "fn", "back"})]
Ask(j) == [what |-> R({"phase", "amp", "sum", "sum", "pos"}), r |-> R({"list", "tuple", "array", "ints", "ray", "far"}), t |-> R({"float", "int", "np", "far", "own"}), ign |-> R({"default", "yes", "no", "kw"})]
Scenario(i) == [id |-> i, n |-> R({0, 1, 2, 3, 9, 17}), w |-> R({"optical", "long", "unit", "xray", "mixed"}), scale |-> R({"1", "1e-3", "1e3"}), flags |-> R({"none", "some", "all"}), cs |-> R({"global", "any"}),
                exact |-> R({TRUE, FALSE, FALSE}), threads |-> R({1, 2, 5, 8}), ops |-> [j \in 1..R(0..5) |-> Op(j)], asks |-> [j \in 1..4 |-> Ask(j)]]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)])
=============================================================================
