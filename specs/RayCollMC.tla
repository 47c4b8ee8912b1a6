----------------------------- MODULE RayCollMC -----------------------------
(* Every short program over a store; collections of numbered rays.          *)
EXTENDS RayColl, TLC, FiniteSets
CONSTANTS Steps, MaxLen
LOCAL INSTANCE SequencesExt
Bounds(n) == {<<>>} \cup {<<k>> : k \in (-(n + 2))..(n + 2)}
VARIABLES st, n, last
vars == <<st, n, last>>
Start(k) == [rays |-> [j \in 1..k |-> <<j, 0>>], frame |-> 1]
Idx(m) == {[t |-> "int", j |-> k] : k \in {0, -1, m - 1}} \cup {[t |-> "slice", a |-> <<>>, b |-> <<>>, c |-> -1], [t |-> "slice", a |-> <<1>>, b |-> <<>>, c |-> 2]}
          \cup {[t |-> "list", l |-> <<0, 0, -1>>], [t |-> "mask", m |-> [j \in 1..m |-> (j % 2) = 0]]}
Ops == UNION {{[op |-> "copy", src |-> s]} \cup {[op |-> "index", src |-> s, i |-> i] : i \in {q \in Idx(Len(st[s].rays)) : Len(st[s].rays) > 0 /\ Valid(q, Len(st[s].rays))}} : s \in DOMAIN st}
       \cup {[op |-> "concat", srcs |-> <<s, t>>] : s, t \in DOMAIN st}
Mutate(s) == [st EXCEPT ![s].rays = [j \in 1..Len(st[s].rays) |-> <<st[s].rays[j][1], st[s].rays[j][2] + 1>>]]
Init == \E k \in 0..3 : st = <<Start(k)>> /\ n = 0 /\ last = <<"start">>
Next == /\ n < Steps /\ n' = n + 1
        /\ \/ \E o \in Ops : st' = Made(st, o) /\ Len(st'[Len(st')].rays) <= MaxLen /\ last' = <<"make", o>>
           \/ \E s \in DOMAIN st : st' = Mutate(s) /\ last' = <<"mutate", s>>
Spec == Init /\ [][Next]_vars
(* making a collection leaves the others as they were; changing one changes only that one *)
Isolated == [][(last'[1] = "make" => SubSeq(st', 1, Len(st)) = st) /\ (last'[1] = "mutate" => \A s \in DOMAIN st : s # last'[2] => st'[s] = st[s])]_vars
(* no ray is invented *)
Known == \A s \in DOMAIN st : \A j \in 1..Len(st[s].rays) : st[s].rays[j][1] \in 1..3
(* slicing against a definition by membership: x is selected iff it lies on the progression inside the bounds *)
SliceLaw == n = 0 => LET m == Len(st[1].rays) + 1 IN \A a, b \in Bounds(m) : \A c \in {-3, -2, -1, 1, 2, 3} :
   LET sl == SliceOf(a, b, c, m)
       wrap(x) == IF x < 0 THEN x + m ELSE x
       lo == IF c > 0 THEN (IF a = <<>> THEN 0 ELSE Larger(0, wrap(a[1]))) ELSE (IF b = <<>> THEN 0 ELSE Larger(0, wrap(b[1]) + 1))
       hi == IF c > 0 THEN (IF b = <<>> THEN m - 1 ELSE Smaller(m - 1, wrap(b[1]) - 1)) ELSE (IF a = <<>> THEN m - 1 ELSE Smaller(m - 1, wrap(a[1])))
       from == IF c > 0 THEN lo ELSE hi
   IN  /\ {sl[j] : j \in DOMAIN sl} = {x \in lo..hi : (x - from) % (IF c > 0 THEN c ELSE -c) = 0}
       /\ \A j \in 1..(Len(sl) - 1) : sl[j + 1] - sl[j] = c
       /\ (c = 1 /\ a = <<>> /\ b = <<>> => sl = [j \in 1..m |-> j - 1])
Split == \A s \in DOMAIN st : LET c == st[s] m == Len(c.rays) IN \A k \in 0..m :
   Concat(<<Select(c, [t |-> "slice", a |-> <<>>, b |-> <<k>>, c |-> 1]), Select(c, [t |-> "slice", a |-> <<k>>, b |-> <<>>, c |-> 1])>>) = c
============================================================================
