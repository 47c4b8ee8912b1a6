----------------------------- MODULE GhostsGen -----------------------------
(* Random systems with coatings and all their exit sequences.              *)
EXTENDS Dec, TLC, Json, IOUtils
INSTANCE Ghosts WITH Mul <- DMul, Below <- DLt, One <- "1"
N == atoi(IOEnv.N)
LIMIT == atoi(IOEnv.LIMIT)
R(S) == RandomElement(S)
Kinds == <<"R", "R", "R", "M", "B", "R", "S">>
Refl == <<"0.02", "0.1", "0.25", "0.5", "0.0">>
Trans == <<"0.97", "0.9", "0.75", "0.5", "1.0", "0.6">>
ReflX == <<"0.5", "0.25", "0.125", "0.5", "0.0">>
TransX == <<"0.5", "0.75", "0.5", "0.25", "1.0", "0.5">>
CutsX == <<"0.0009765625", "0.00390625", "0.0078125", "0.03125", "0.0625", "0.125", "0.25">>
Endings == <<<<"", "x", "y", "xy">>, <<"x", "", "xx", "y">>>>
RECURSIVE Rand(_, _, _, _, _, _)
Rand(d, base, name, top, bare, ex) ==
  LET inner == top \/ (d > 0 /\ R(1..5) <= 2)
      lens == inner /\ ~top /\ R(1..2) = 1
      w == IF lens THEN 2 ELSE IF top THEN R(2..4) ELSE R(1..3)
      sf == Endings[R(1..2)]
      dd == IF lens THEN 0 ELSE d - 1
      j == IF bare THEN 5 ELSE R(1..5) l == IF bare THEN 5 ELSE R(1..5)
  IN [n |-> name, k |-> IF lens THEN "L" ELSE IF inner THEN "C" ELSE Kinds[R(1..Len(Kinds))],
      skip |-> ~top /\ R(1..7) = 1,
      fr |-> IF ex THEN ReflX[j] ELSE Refl[j], ft |-> IF bare THEN "1.0" ELSE IF ex THEN TransX[R({j, 4})] ELSE Trans[R({j, 4})],
      rr |-> IF ex THEN ReflX[l] ELSE Refl[l], rt |-> IF bare THEN "1.0" ELSE IF ex THEN TransX[R({l, 4})] ELSE Trans[R({l, 4})],
      items |-> IF inner THEN [m \in 1..w |-> Rand(dd, base \o ToString(m), "N" \o base \o sf[m], FALSE, bare, ex)] ELSE <<>>]
(* a detector as the last element, behind a refractive interface, or as it is *)
WithDetector(t) ==
  IF ~Inner(t) THEN t ELSE
  LET w == Len(t.items) ch == Chain([t EXCEPT !.items = SubSeq(t.items, 1, w - 1)]) e == t.items[w] IN
  IF Inner(e) \/ ch = <<>> THEN t ELSE IF ch[Len(ch)].k # "R" THEN t
  ELSE LET z == R({TRUE, FALSE, FALSE}) IN
       [t EXCEPT !.items[w].k = "D", !.items[w].fr = IF z THEN "0.0" ELSE @, !.items[w].ft = IF z THEN "1.0" ELSE @]
Chained(t) == LET ch == Chain(t) IN [m \in 1..Len(ch) |-> [n |-> ch[m].n, k |-> ch[m].k, fr |-> ch[m].fr, ft |-> ch[m].ft, rr |-> ch[m].rr, rt |-> ch[m].rt]]
Cuts == <<"0.0005", "0.001", "0.002", "0.007", "0.02", "0.06", "0.2", "0.6">>
(* lower the threshold from high to low while the number of exits is manageable *)
Count(ch, rev, C, m) == Len(AllExits(ch, rev, "2.0", C[m]))
RECURSIVE Pick(_, _, _, _, _)
Pick(ch, rev, C, m, lo) == IF m <= lo THEN m ELSE IF Count(ch, rev, C, m - 1) > LIMIT THEN m ELSE Pick(ch, rev, C, m - 1, lo)
(* bound variables keep one random tree: definitions may be evaluated again *)
The(S) == CHOOSE x \in S : TRUE
Described(i, t, bare, exact, rev) ==
  LET C == IF exact THEN CutsX ELSE Cuts
      ch == Chained(t)
      m == Pick(ch, rev, C, 7, R(1..5))
      ex == AllExits(ch, rev, "2.0", C[m])
  IN [id |-> i, bare |-> bare, tree |-> t, chain |-> ch, rev |-> rev, cut |-> C[m], exact |-> exact, n |-> IF exact THEN R({1, 1, 2, 10}) ELSE R({1, 10, 10}),
      exits |-> [j \in 1..Len(ex) |-> [steps |-> ex[j].steps, rev |-> ex[j].rev]]]
Scenario(i) ==
  LET bare == i % 6 = 0
      exact == ~bare /\ i % 5 < 2                     \* numbers that multiply exactly, so that fluxes meet the threshold exactly
      rev == i % 3 = 1
  IN The({The({Described(i, t, bare, exact, rev) : t \in {IF rev \/ bare \/ i % 4 > 1 THEN u ELSE WithDetector(u)}}) : u \in {IF i % 12 \in {3, 7} THEN [Rand(0, "0", "Sys", FALSE, bare, exact) EXCEPT !.skip = FALSE] ELSE Rand(2, "0", "Sys", TRUE, bare, exact)}})
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)])
============================================================================
