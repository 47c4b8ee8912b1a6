----------------------------- MODULE GhostsMC ------------------------------
(* The nested work queue that traces systems item by item against the flat *)
(* enumeration of exit sequences; flux is conserved.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bags
IMul(a, b) == (a * b) \div 4         \* coefficients in quarters
ILess(a, b) == a < b
INSTANCE Ghosts WITH Mul <- IMul, Below <- ILess, One <- 4
CONSTANTS Flux, Cut, Width
Leafs == {[n |-> "x", k |-> "R", skip |-> s, items |-> <<>>, fr |-> 1, ft |-> 3, rr |-> 2, rt |-> 2] : s \in BOOLEAN}
         \cup {[n |-> "x", k |-> k, skip |-> FALSE, items |-> <<>>, fr |-> 0, ft |-> 4, rr |-> 0, rt |-> 4] : k \in {"M", "B"}}
SeqsUpTo(S, w) == UNION {[1..l -> S] : l \in 1..w}
Detector == [n |-> "x", k |-> "D", skip |-> FALSE, items |-> <<>>, fr |-> 1, ft |-> 3, rr |-> 0, rt |-> 0]
Inners == {[n |-> "x", k |-> "C", skip |-> s, items |-> q, fr |-> 0, ft |-> 0, rr |-> 0, rt |-> 0] : s \in BOOLEAN, q \in SeqsUpTo(Leafs, 2)}
RECURSIVE Named(_, _)
Named(t, id) == [t EXCEPT !.n = id, !.items = [j \in 1..Len(t.items) |-> Named(t.items[j], 10 * id + j)]]
Roots == {Named([n |-> 1, k |-> "C", skip |-> FALSE, items |-> q, fr |-> 0, ft |-> 0, rr |-> 0, rt |-> 0], 1) : q \in SeqsUpTo(Leafs \cup Inners, Width)}
Ended == {[t EXCEPT !.items = @ \o <<[Detector EXCEPT !.n = 19]>>] : t \in Roots}     \* with a detector at the end

(* item-by-item tracing: every item returns the beams leaving it forward and in reverse *)
RECURSIVE Split(_, _, _)
RECURSIVE Loop(_, _, _, _, _)
Keep(s) == SelectSeq(s, LAMBDA b : b.c >= Cut)
Split(t, b, rev) ==
  IF t.skip THEN (IF rev THEN [f |-> <<>>, r |-> <<b>>] ELSE [f |-> <<b>>, r |-> <<>>])
  ELSE IF ~Inner(t) THEN
    LET go == Stepped([b EXCEPT !.rev = rev], t, Act(t), Pass(t, rev))
        tu == Stepped([b EXCEPT !.rev = rev], t, "turn", Back(t, rev))
        same == <<go>>  other == IF Splits(t) THEN <<tu>> ELSE <<>>
    IN IF rev THEN [f |-> other, r |-> same] ELSE [f |-> same, r |-> other]
  ELSE Loop(t, <<[b |-> b, rev |-> rev, j |-> IF rev THEN Len(t.items) ELSE 1]>>, <<>>, <<>>, 0)
Loop(t, queue, f, r, n) ==
  IF queue = <<>> THEN [f |-> f, r |-> r]
  ELSE LET q == queue[Len(queue)]
           s == Split(t.items[q.j], q.b, q.rev)
           kf == Keep(s.f)  kr == Keep(s.r)
           mf == IF q.j = Len(t.items) THEN <<>> ELSE [m \in 1..Len(kf) |-> [b |-> kf[m], rev |-> FALSE, j |-> q.j + 1]]
           mr == IF q.j = 1 THEN <<>> ELSE [m \in 1..Len(kr) |-> [b |-> kr[m], rev |-> TRUE, j |-> q.j - 1]]
       IN Loop(t, SubSeq(queue, 1, Len(queue) - 1) \o mf \o mr,
               IF q.j = Len(t.items) THEN f \o kf ELSE f, IF q.j = 1 THEN r \o kr ELSE r, n + 1)
BagOf(s) == [x \in ToSet(s) |-> Cardinality({j \in 1..Len(s) : s[j] = x})]
Core(s) == [j \in 1..Len(s) |-> [steps |-> s[j].steps, c |-> s[j].c]]

VARIABLES root, rev, flight, outs, lost
vars == <<root, rev, flight, outs, lost>>
Init == /\ rev \in BOOLEAN /\ root \in Roots \cup (IF rev THEN {} ELSE Ended)
        /\ Chain(root) # <<>>
        /\ flight = <<Enter(Chain(root), rev, Flux)>> /\ outs = <<>> /\ lost = 0
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE Head(s).c + Sum(Tail(s))
Next == /\ flight # <<>>
        /\ LET ch == Chain(root) a == After(ch, Head(flight))
               alive == SelectSeq(a, LAMBDA b : b.c >= Cut)
           IN /\ flight' = SelectSeq(alive, LAMBDA b : ~Out(ch, b)) \o Tail(flight)
              /\ outs' = outs \o SelectSeq(alive, LAMBDA b : Out(ch, b))
              /\ lost' = lost + Head(flight).c - Sum(alive)
        /\ UNCHANGED <<root, rev>>
(* what is in flight, has left, or was dropped or lost to rounding adds up *)
Conserved == Sum(flight) + Sum(outs) + lost = Flux /\ lost >= 0
Names(b) == <<[j \in 1..Len(b.steps) |-> b.steps[j].n], b.rev>>
(* no exit sequence twice, also when only interface names and side are known *)
Distinct == Cardinality({Names(outs[j]) : j \in 1..Len(outs)}) = Len(outs)
Done == flight = <<>> =>
  LET ex == AllExits(Chain(root), rev, Flux, Cut)
      sp == Split(root, [steps |-> <<>>, c |-> Flux, rev |-> rev, at |-> 0], rev)
  IN /\ ToSet(ex) = ToSet(outs) /\ Len(ex) = Len(outs)
     /\ BagOf(Core(sp.f)) = BagOf(Core(SelectSeq(outs, LAMBDA b : ~b.rev)))
     /\ BagOf(Core(sp.r)) = BagOf(Core(SelectSeq(outs, LAMBDA b : b.rev)))
============================================================================
