------------------------------- MODULE ObscGen -----------------------------
(* Random obscuration expressions and ways of asking about them.            *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.N)
R(S) == RandomElement(S)
Leaf(k) == [k |-> k, turn |-> R({"none", "none", "quarter", "any"}), at |-> R({"origin", "x", "any"}), nv |-> R(3..9),
            shape |-> R({"star", "convex", "stairs", "comb", "closed"}), items |-> <<>>]
Kinds == <<"circ", "ann", "rect", "ray", "poly">>
RECURSIVE Tree(_, _)
Tree(d, x) ==
  LET j == R(1..10) IN
  IF d = 0 \/ j <= 3 THEN Leaf(Kinds[R(1..5)])
  ELSE IF j <= 5 THEN [Leaf("not") EXCEPT !.items = <<Tree(d - 1, 0)>>]
  ELSE [Leaf(R({"or", "and"})) EXCEPT !.items = [i \in 1..R(1..3) |-> Tree(d - 1, i)]]
(* outlines of over a thousand vertices that begin and end alike *)
Long == [Leaf("poly") EXCEPT !.shape = "long"]
Twins(i) == [Leaf(IF (i \div 100) % 2 = 0 THEN "or" ELSE "and") EXCEPT !.items = <<Long, Long>>]
Scenario(i) == [id |-> i, o |-> IF i % 100 = 99 THEN Twins(i) ELSE IF i % 3 # 0 THEN Leaf(Kinds[(i % 5) + 1]) ELSE Tree(R(1..3), i), exact |-> R({TRUE, FALSE}),
                how |-> R({"args", "list", "tuple"}), share |-> R({TRUE, FALSE, FALSE}), rays |-> R({"own", "any"}),
                via |-> R({"fn", "meth", "optic"}), scale |-> R({"0.01", "1", "1", "1000"})]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)])
============================================================================
