------------------------------ MODULE TreeGen ------------------------------
(* Random systems with what the specification says about tracing them.     *)
EXTENDS OpticTree, TLC, Json, IOUtils, Randomization
N == atoi(IOEnv.N)
MAXD == atoi(IOEnv.DEPTH)
MODE == IOEnv.MODE            \* "trace" or "split"
R(S) == RandomElement(S)
(* first child's name is a prefix of its siblings' names, in either order *)
Endings == <<<<"", "x", "y", "xx">>, <<"xx", "x", "", "y">>, <<"x", "", "xx", "y">>>>
Digit(j) == ToString(j)
LeafKinds == IF MODE = "split" THEN <<"R", "R", "R", "M", "B", "R">> ELSE <<"R", "M", "B", "R", "S", "D", "R", "M">>
RECURSIVE Rand(_, _, _, _)
Rand(d, base, name, top) ==
  LET inner == top \/ (d > 0 /\ R(1..5) <= 2)
      lens == inner /\ ~top /\ R(1..2) = 1
      w == IF lens THEN 2 ELSE IF top THEN R(2..4) ELSE R({0, 1, 1, 2, 2, 3, 3})
      sf == Endings[R(1..3)]
      dd == IF lens THEN 0 ELSE d - 1
  IN [n |-> name,
      k |-> IF lens THEN "L" ELSE IF inner THEN "C" ELSE LeafKinds[R(1..Len(LeafKinds))],
      skip |-> ~top /\ R(1..6) = 1,
      items |-> IF inner THEN [j \in 1..w |-> Rand(dd, base \o Digit(j), "N" \o base \o sf[j], FALSE)]
                ELSE <<>>]
(* a random walk over the interface names without immediate repetition *)
RECURSIVE Walk(_, _)
Walk(names, l) ==
  IF l = 0 THEN <<>>
  ELSE LET w == Walk(names, l - 1) IN
       IF w = <<>> THEN <<names[R(1..Len(names))]>>
       ELSE LET last == w[Len(w)]
                nx == R({j \in 1..Len(names) : names[j] # last})
            IN Append(w, names[nx])
Zig(names) ==        \* forth, back and forth again: the classical two-bounce ghost
  LET m == Len(names) a == R(1..(m - 1)) b == R((a + 1)..m) IN
  SubSeq(names, 1, b) \o Reverse(SubSeq(names, a, b - 1)) \o SubSeq(names, a + 1, m)
(* conditions of the rays sent in: all live, all lost one way or another, one, none *)
Launch == <<"mixed", "lost", "mixed", "one", "live", "mixed", "dark", "mixed", "failed", "mixed", "none", "miss", "miss", "miss", "miss", "miss">>
Scenario(i) ==
  LET t == IF i % 12 = 7 THEN [Rand(0, "0", "Sys", FALSE) EXCEPT !.skip = FALSE] ELSE Rand(MAXD, "0", "Sys", TRUE)     \* one interface alone, or a system
      names == LeafNames(t)
      p == IF Len(names) < 2 THEN <<>>
           ELSE IF i % 2 = 0 THEN Zig(names) ELSE Walk(names, R(2..6))
      ps == IF p = <<>> THEN <<>> ELSE PathSteps(p)
      bare == IF MODE = "trace" /\ i % 5 = 2 THEN R({"all", "some"}) ELSE "no"
      keep == IF bare = "all" THEN <<>> ELSE IF bare = "no" THEN names ELSE SelectSeq(names, LAMBDA x : R({TRUE, FALSE}))
  IN [id |-> i, bare |-> bare, keep |-> keep, frames |-> R({"own", "shared", "straight"}), from |-> R({"any", "first"}), rays |-> Launch[(i % Len(Launch)) + 1], tree |-> t, fwd |-> Visits(t, FALSE), bwd |-> Visits(t, TRUE),
      path |-> p, steps |-> ps]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)])
============================================================================
