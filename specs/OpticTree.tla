----------------------------- MODULE OpticTree -----------------------------
(***************************************************************************)
(* Optical systems as trees.  A node is                                    *)
(*   [n |-> name, k |-> kind, skip |-> BOOLEAN, items |-> sequence]        *)
(* with kind "C" (compound) or "L" (lens) for inner nodes and              *)
(*   "M" mirror, "R" refractive interface, "B" baffle, "D" detector,       *)
(*   "S" optical-path-difference screen                                    *)
(* for interfaces.  Parts are addressed by the sequence of child indices   *)
(* leading to them; <<>> is the system itself.                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Inner(t) == t.k \in {"C", "L"}

FlatMap(F(_), s) == FlattenSeq([j \in 1..Len(s) |-> F(s[j])])

(* ------------------------------------------------ sequential tracing --- *)
(* the interfaces visited, in order; rev: the media are exchanged          *)
RECURSIVE Visits(_, _)
Visits(t, rev) ==
  IF ~Inner(t) THEN <<[n |-> t.n, rev |-> rev]>>
  ELSE FlatMap(LAMBDA c : IF c.skip THEN <<>> ELSE Visits(c, rev),
               IF rev THEN Reverse(t.items) ELSE t.items)

(* every interface, skipped or not *)
RECURSIVE Leaves(_)
Leaves(t) == IF ~Inner(t) THEN <<t>> ELSE FlatMap(Leaves, t.items)
LeafNames(t) == [j \in 1..Len(Leaves(t)) |-> Leaves(t)[j].n]

(* ------------------------------------------------------ path tracing --- *)
FirstIndex(s, x) == CHOOSE j \in 1..Len(s) : s[j] = x /\ \A m \in 1..(j - 1) : s[m] # x
RECURSIVE Dedup(_)
Dedup(s) == IF s = <<>> THEN <<>>
            ELSE LET d == Dedup(SubSeq(s, 1, Len(s) - 1)) l == s[Len(s)] IN
                 IF \E j \in 1..Len(d) : d[j] = l THEN d ELSE Append(d, l)
Rank(path, x) == FirstIndex(Dedup(path), x)
(* direction of travel after step j, TRUE = reverse *)
RECURSIVE DirAfter(_, _)
DirAfter(path, j) ==
  IF j = 0 THEN FALSE
  ELSE IF j = Len(path) THEN IF Rank(path, path[j]) = 1 THEN TRUE ELSE DirAfter(path, j - 1)
  ELSE Rank(path, path[j + 1]) < Rank(path, path[j])
(* "go": the interface's own interaction, "turn": reflect there *)
PathSteps(path) ==
  [j \in 1..Len(path) |->
     [n |-> path[j], rev |-> DirAfter(path, j - 1),
      act |-> IF DirAfter(path, j) = DirAfter(path, j - 1) THEN "go" ELSE "turn"]]
(* how many earlier steps of the path visit the same interface *)
VisitNo(path, j) == Cardinality({m \in 1..(j - 1) : path[m] = path[j]})

(* ------------------------------------------------------------- names --- *)
RECURSIVE PartsOf(_, _)
(* all parts as <<address, sequence of names from the root>> *)
PartsOf(t, pre) ==
  {[at |-> pre.at, toks |-> Append(pre.toks, t.n)]} \cup
  (IF Inner(t) THEN UNION {PartsOf(t.items[j], [at |-> Append(pre.at, j), toks |-> Append(pre.toks, t.n)]) : j \in 1..Len(t.items)}
   ELSE {})
Parts(t) == PartsOf(t, [at |-> <<>>, toks |-> <<>>])
IsSuffixOf(s, l) == Len(s) <= Len(l) /\ SubSeq(l, Len(l) - Len(s) + 1, Len(l)) = s
(* address of the part a key denotes, or <<0>> when there is none *)
None == <<0>>
Lookup(t, key) ==
  LET P == Parts(t)
      full == {p \in P : p.toks = key}
      part == {p \in P : IsSuffixOf(key, p.toks)}
  IN IF full # {} THEN (CHOOSE p \in full : TRUE).at
     ELSE IF Cardinality(part) = 1 THEN (CHOOSE p \in part : TRUE).at
     ELSE None

RECURSIVE At(_, _)
At(t, a) == IF a = <<>> THEN t ELSE At(t.items[Head(a)], Tail(a))
Under(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a     \* b lies inside a

(* --------------------------------------------------- structural edits --- *)
RECURSIVE WithItems(_, _, _)
(* give the node at address a the items s *)
WithItems(t, a, s) ==
  IF a = <<>> THEN [t EXCEPT !.items = s]
  ELSE [t EXCEPT !.items[Head(a)] = WithItems(t.items[Head(a)], Tail(a), s)]
Parent(a) == SubSeq(a, 1, Len(a) - 1)
InsertPart(t, a, x) ==
  LET j == a[Len(a)] s == At(t, Parent(a)).items IN
  WithItems(t, Parent(a), SubSeq(s, 1, j - 1) \o <<x>> \o SubSeq(s, j, Len(s)))
RemovePart(t, a) ==
  LET j == a[Len(a)] s == At(t, Parent(a)).items IN
  WithItems(t, Parent(a), SubSeq(s, 1, j - 1) \o SubSeq(s, j + 1, Len(s)))

(* ------------------------------------------------------- ghost paths --- *)
(* A chain is the sequence of non-skipped interfaces.  Continuations of a  *)
(* beam about to meet interface j travelling in direction d:               *)
(*   refracted/passed on  ("T"), reflected ("R").                          *)
RECURSIVE Chain(_)
Chain(t) == IF ~Inner(t) THEN <<t>>
            ELSE FlatMap(LAMBDA c : IF c.skip THEN <<>> ELSE Chain(c), t.items)
Outcomes(kind) == CASE kind = "R" -> {"T", "R"} [] kind = "M" -> {"R"} [] OTHER -> {"T"}
(* a mirror folds the sequence: its reflection carries on in the same order *)
Turns(kind, how) == kind = "R" /\ how = "R"
============================================================================
