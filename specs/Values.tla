------------------------------- MODULE Values -------------------------------
(* C14: descriptions as values.  A description is                             *)
(*   [k: kind, nums: sequence of number sequences, strs: strings, subs: parts]*)
(* Members of unions and intersections form a bag; everything else is ordered.*)
EXTENDS Integers, Sequences
Bags == {"or", "and"}
Perms(n) == {p \in [1..n -> 1..n] : \A a, b \in 1..n : p[a] = p[b] => a = b}
(* Same(x, y): numbers compare by value; EqN is a parameter of the model     *)
CONSTANT EqN(_, _)
SameNums(s, t) == Len(s) = Len(t) /\ \A j \in 1..Len(s) : EqN(s[j], t[j])
Shell(a, b) == /\ a.k = b.k /\ a.strs = b.strs /\ Len(a.nums) = Len(b.nums) /\ Len(a.subs) = Len(b.subs)
               /\ \A j \in 1..Len(a.nums) : SameNums(a.nums[j], b.nums[j])
RECURSIVE Equal(_, _), Exact(_, _)
Equal(a, b) ==
  /\ Shell(a, b)
  /\ IF a.k \in Bags THEN \E p \in Perms(Len(a.subs)) : \A j \in 1..Len(a.subs) : Equal(a.subs[j], b.subs[p[j]])
     ELSE \A j \in 1..Len(a.subs) : Equal(a.subs[j], b.subs[j])
(* the same in the same written order *)
Exact(a, b) == Shell(a, b) /\ \A j \in 1..Len(a.subs) : Exact(a.subs[j], b.subs[j])
(* mentions a kind anywhere *)
RECURSIVE Has(_, _)
Has(a, k) == a.k = k \/ \E j \in 1..Len(a.subs) : Has(a.subs[j], k)
(* kinds with the same shape of parameters *)
Classes == {{"Sphere", "Paraboloid", "Const"}, {"Quadric", "Tilted", "Coating"}, {"Sellmeier", "Sumita"}, {"Table", "Polygon"},
            {"Air", "Circle"}, {"Annulus", "Ray"}, {"or", "and"}, {"Baffle", "Mirror", "Refractive", "Detector", "Interface"}, {"Compound", "Lens"}}
Siblings(k) == (UNION {c \in Classes : k \in c}) \ {k}
=============================================================================
