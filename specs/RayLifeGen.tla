----------------------------- MODULE RayLifeGen ----------------------------
(* Random sequences of ray operations.                                     *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.N)
LEN == atoi(IOEnv.LEN)
R(S) == RandomElement(S)
Ops == <<"int", "refl", "refr", "split", "screen", "obsc", "trace", "frame", "prop", "read", "refr", "refl">>
Step(j) == LET o == Ops[R(1..Len(Ops))] IN
  [op |-> o, coat |-> IF o \in {"int", "refl", "refr"} THEN R({"none", "none", "0.25", "0.9", "0.0"}) ELSE IF o = "split" THEN R({"0.25", "0.9"}) ELSE "none",
   side |-> R({"a", "b"}), cs |-> R({"own", "new", "none"}), surf |-> R(0..8), via |-> R({"fn", "meth"})]
Scenario(i) == [id |-> i, ops |-> [j \in 1..LEN |-> Step(j)]]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)])
============================================================================
