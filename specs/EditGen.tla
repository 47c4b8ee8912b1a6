------------------------------ MODULE EditGen ------------------------------
(* Random systems with ambiguous names and random sequences of operations. *)
EXTENDS OpticTree, TLC, Json, IOUtils
N == atoi(IOEnv.N)
OPS == atoi(IOEnv.OPS)
MODE == IOEnv.MODE              \* "perturb", "edit" or "names"
R(S) == RandomElement(S)
Yaml == ndJsonDeserialize(IOEnv.TREES)     \* shipped telescopes, the first scenarios
Pools == <<<<"A", "AB", "B">>, <<"AB", "A", "ABA">>, <<"B", "A", "AB">>, <<"Sys", "S", "A">>, <<"A", "A1", "A10">>>>
LeafKinds == <<"R", "M", "B", "S", "D", "R">>
RECURSIVE Rand(_, _, _)
Rand(d, name, top) ==
  LET inner == top \/ (d > 0 /\ R(1..5) <= 2)
      lens == inner /\ ~top /\ R(1..3) = 1
      w == IF lens THEN 2 ELSE IF top THEN R(2..3) ELSE R({0, 1, 1, 2, 2, 3, 3})
      nm == Pools[R(1..Len(Pools))]
      dd == IF lens THEN 0 ELSE d - 1
  IN [n |-> name, k |-> IF lens THEN "L" ELSE IF inner THEN "C" ELSE LeafKinds[R(1..Len(LeafKinds))],
      skip |-> ~top /\ R(1..6) = 1,
      items |-> IF inner THEN [j \in 1..w |-> Rand(dd, nm[j], FALSE)] ELSE <<>>]
(* keys that denote the part at address a *)
KeysFor(t, p) == {k \in {SubSeq(p.toks, j, Len(p.toks)) : j \in 1..Len(p.toks)} : Lookup(t, k) = p.at}
Bad(t) == CHOOSE k \in {<<"Nope">>, <<t.n, "Nope">>} : Lookup(t, k) = None
Names == <<"P", "Q", "AC", "B1", "Z", "AA", "BB", "T1", "T2">>
RECURSIVE Ops(_, _, _)
(* a sequence of n operations on system t; id makes inserted names fresh *)
Ops(t, n, id) ==
  IF n = 0 THEN <<>>
  ELSE LET P == Parts(t)
           what == IF MODE = "perturb" THEN R({"sg", "sl", "rg", "rl"})
                   ELSE IF MODE = "names" THEN R({"sg", "rl", "ins", "rem"})
                   ELSE R({"ins", "rem", "rem", "surf", "pert", "sl"})
           ok(p) == CASE what \in {"sg", "sl", "rl"} -> TRUE
                      [] what = "rg" -> p.at = <<>>
                      [] what = "ins" -> p.at # <<>> /\ At(t, Parent(p.at)).k # "L"
                      [] what = "rem" -> p.at # <<>> /\ LET q == At(t, Parent(p.at)) IN Len(q.items) > 1 \/ (q.k = "C" /\ (Len(p.at) > 1 \/ R(1..4) = 1))
                      [] what \in {"surf", "pert"} -> ~Inner(At(t, p.at))
           C == {p \in P : ok(p)}
       IN IF C = {} \/ (what \in {"ins", "rem", "surf", "pert"} /\ R(1..10) = 1)
          THEN <<[op |-> "bad", key |-> Bad(t), item |-> t, after |-> t]>> \o Ops(t, n - 1, id)
          ELSE LET p == R(C)
                   k == R(KeysFor(t, p))
                   beside == IF what # "ins" THEN {} ELSE LET q == At(t, Parent(p.at)) IN {q.items[j].n : j \in 1..Len(q.items)}
                   fresh == IF Names[id] \in beside THEN "New" \o ToString(id) ELSE Names[id]
                   nw == IF R(1..3) = 1 THEN [n |-> fresh, k |-> "C", skip |-> FALSE, items |->
                                              <<[n |-> "A", k |-> "B", skip |-> FALSE, items |-> <<>>],
                                                [n |-> "AB", k |-> "M", skip |-> FALSE, items |-> <<>>]>>]
                         ELSE [n |-> fresh, k |-> R({"B", "M", "R"}), skip |-> FALSE, items |-> <<>>]
                   u == CASE what = "ins" -> InsertPart(t, p.at, nw) [] what = "rem" -> RemovePart(t, p.at) [] OTHER -> t
               IN <<[op |-> what, key |-> k, item |-> nw, after |-> u]>> \o Ops(u, n - 1, id + 1)
(* every string of names up to the depth of the tree that matters, with its meaning *)
AllNames(t) == {p.toks[Len(p.toks)] : p \in Parts(t)} \cup {"Nope"}
Tries(t) ==
  LET runs == UNION {{SubSeq(p.toks, a, b) : a \in 1..Len(p.toks), b \in 1..Len(p.toks)} : p \in Parts(t)} \ {<<>>}
      pairs == {<<a, b>> : a \in AllNames(t), b \in AllNames(t)}
      ones == {<<a>> : a \in AllNames(t)}
      longer == {Append(p.toks, "A") : p \in Parts(t)} \cup {<<"A">> \o p.toks : p \in Parts(t)}
      gaps == {<<p.toks[1]>> \o SubSeq(p.toks, 3, Len(p.toks)) : p \in {q \in Parts(t) : Len(q.toks) >= 3}}
  IN runs \cup pairs \cup ones \cup longer \cup gaps
Scenario(i) ==
  LET y == i <= Len(Yaml)
      t == IF y THEN Yaml[i].tree ELSE Rand(3, IF i % 3 = 0 THEN "A" ELSE "Sys", TRUE)
      o == Ops(t, IF MODE = "names" THEN i % 3 ELSE OPS, 1)
      u == IF o = <<>> THEN t ELSE o[Len(o)].after
  IN [id |-> i, yaml |-> IF y THEN Yaml[i].yaml ELSE "", tree |-> t, ops |-> [j \in 1..Len(o) |-> [op |-> o[j].op, key |-> o[j].key, item |-> o[j].item]],
      tries |-> IF MODE = "names" THEN SetToSeq(Tries(u) \cup {p.toks : p \in Parts(t)}) ELSE <<>>]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)])
============================================================================
