------------------------------ MODULE ValuesMC ------------------------------
(* Every small description and every edit of it: value equality is an         *)
(* equivalence, blind to the order of union members and to nothing else.      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Steps
EqI(a, b) == a = b
V == INSTANCE Values WITH EqN <- EqI
D(k, n, s) == [k |-> k, nums |-> n, strs |-> <<>>, subs |-> s]
Leaf == {D("Circle", <<<<i>>>>, <<>>) : i \in 1..2} \cup {D("Ray", <<<<i, 1>>>>, <<>>) : i \in 1..2}
Nest == Leaf \cup {D(k, <<>>, <<a, b>>) : k \in {"or", "and", "Sum"}, a, b \in Leaf}
Base == Nest \cup {D(k, <<>>, <<a, b>>) : k \in {"or", "Sum"}, a \in Nest, b \in Leaf} \cup {D("not", <<>>, <<a>>) : a \in Nest}
Swap(d) == [d EXCEPT !.subs = <<d.subs[2], d.subs[1]>>]
RECURSIVE Edits(_)
Edits(d) == {<<"bump", [d EXCEPT !.nums[1][j] = @ + 10]>> : j \in 1..(IF d.nums = <<>> THEN 0 ELSE Len(d.nums[1]))}
            \cup {<<"kind", [d EXCEPT !.k = k]>> : k \in V!Siblings(d.k)}
            \cup (IF Len(d.subs) = 2 THEN {<<"swap", Swap(d)>>} ELSE {})
            \cup (IF Len(d.subs) = 2 THEN {<<"drop", [d EXCEPT !.subs = <<d.subs[1]>>]>>} ELSE {})
            \cup UNION {{<<IF d.k \in V!Bags \/ e[1] # "swap" THEN e[1] ELSE e[1], [d EXCEPT !.subs[j] = e[2]]>> : e \in Edits(d.subs[j])} : j \in 1..Len(d.subs)}
VARIABLES a, b, how, n
Init == a \in Base /\ b = a /\ how = {} /\ n = 0
Next == n < Steps /\ n' = n + 1 /\ a' = a /\ \E e \in Edits(b) : b' = e[2] /\ how' = how \cup {e[1]}
Spec == Init /\ [][Next]_<<a, b, how, n>>
Reflexive == V!Equal(a, a) /\ V!Equal(b, b)
Symmetric == V!Equal(a, b) = V!Equal(b, a)
ExactImplies == V!Exact(a, b) => V!Equal(a, b)
ExactIsIdentity == V!Exact(a, b) = (a = b)
(* one edit other than reordering always distinguishes *)
Distinguishes == (n = 1 /\ how \cap {"bump", "drop", "kind"} # {}) => ~V!Equal(a, b)
(* reordering distinguishes exactly where order is part of the value *)
RECURSIVE Canon(_)
Canon(d) == LET cs == [j \in 1..Len(d.subs) |-> Canon(d.subs[j])] IN
  [k |-> d.k, nums |-> d.nums, subs |-> IF d.k \in V!Bags THEN {<<c, Cardinality({j \in DOMAIN cs : cs[j] = c})>> : c \in {cs[j] : j \in DOMAIN cs}} ELSE {<<j, cs[j]>> : j \in DOMAIN cs}]
ByCanon == V!Equal(a, b) = (Canon(a) = Canon(b))
=============================================================================
