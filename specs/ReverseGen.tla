----------------------------- MODULE ReverseGen ----------------------------
(* Random systems (or shipped telescopes) with motions to put them through. *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.N)
R(S) == RandomElement(S)
Kinds == [many |-> <<"R", "M", "B", "R", "M", "D", "R", "R">>, stops |-> <<"B", "B", "D", "B", "M", "B">>]
Digit(j) == ToString(j)
RECURSIVE Rand(_, _, _, _)
Rand(d, name, top, LeafKinds) ==
  LET inner == top \/ (d > 0 /\ R(1..5) <= 2)
      lens == inner /\ ~top /\ R(1..2) = 1
      w == IF lens THEN 2 ELSE IF top THEN R(2..4) ELSE R(1..3)
  IN [n |-> name, k |-> IF lens THEN "L" ELSE IF inner THEN "C" ELSE IF lens THEN "R" ELSE LeafKinds[R(1..Len(LeafKinds))],
      skip |-> ~top /\ R(1..8) = 1,
      items |-> IF inner THEN [j \in 1..w |-> Rand(IF lens THEN 0 ELSE d - 1, name \o Digit(j), FALSE, LeafKinds)] ELSE <<>>]
Moves(n) == [j \in 1..n |-> R({"sg", "sl", "rg", "rl", "rc", "rcf"})]
Scenario(i) == [id |-> i, yaml |-> IF i % 4 = 0 THEN (i \div 4) - 1 ELSE -1, tree |-> Rand(2, "N", TRUE, IF i % 4 = 2 THEN Kinds.stops ELSE Kinds.many), shared |-> IF i % 4 = 2 THEN TRUE ELSE R({TRUE, FALSE, FALSE, FALSE}), moves |-> Moves(R(1..3)),
                on |-> R({"surface", "beyond"}), rev |-> R({TRUE, FALSE}), how |-> R({"trace", "full"})]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)])
============================================================================
