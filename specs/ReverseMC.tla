------------------------------ MODULE ReverseMC ----------------------------
(* Rays of unit integer velocity among diagonal plane mirrors, half-speed  *)
(* slabs and passive planes on the lattice: a small optics that is exact   *)
(* in integers.  Every system of the given length, every ray.              *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Length, Bound
IAdd(a, b) == a + b
ISub(a, b) == a - b
IMul(a, b) == a * b
ISame(a, b) == a = b
INSTANCE Reverse WITH Add <- IAdd, Sub <- ISub, Mul <- IMul, Same <- ISame
(* an element: a plane a.x = b (a, b in units of the lattice), and what it does.            *)
(*  "mirror": reflect (a = e_i +- e_j: swaps components);  "pass": nothing;                  *)
(*  "in"/"out": speed 2 -> 1 / 1 -> 2 across a plane met head on                             *)
Norms == {<<1, -1, 0>>, <<0, 1, -1>>, <<1, 0, 1>>}
Elems == {[k |-> "mirror", a |-> a, b |-> b] : a \in Norms, b \in {0, 2}}
         \cup {[k |-> "pass", a |-> a, b |-> b] : a \in {<<0, 0, 1>>, <<1, 0, 0>>}, b \in {4}}
         \cup {[k |-> k, a |-> a, b |-> b] : k \in {"in", "out"}, a \in {<<0, 0, 1>>, <<0, 1, 0>>}, b \in {6}}
Speed(v) == F!VDot(v, v)
Hit(e, r) ==        \* <<>> when parallel or off the lattice, else the ray brought to the plane
  LET den == F!VDot(e.a, r.v) gap == e.b - F!VDot(e.a, r.p) IN
  IF den = 0 \/ (gap % (IF den < 0 THEN -den ELSE den)) # 0 THEN <<>>
  ELSE LET dt == IF den > 0 THEN gap \div den ELSE (-gap) \div (-den) IN <<[p |-> F!VAdd(r.p, F!VScale(dt, r.v)), v |-> r.v, t |-> r.t + dt]>>
Act(e, r, rev) ==
  LET k == IF rev THEN CASE e.k = "in" -> "out" [] e.k = "out" -> "in" [] OTHER -> e.k ELSE e.k IN
  CASE k = "mirror" -> <<[r EXCEPT !.v = F!VSub(r.v, F!VScale(F!VDot(e.a, r.v), e.a))]>>   \* |a|^2 = 2
    [] k = "pass" -> <<r>>
    [] k = "in" -> IF Speed(r.v) = 4 /\ F!VCross(r.v, e.a) = F!Zero3 THEN <<[r EXCEPT !.v = <<r.v[1] \div 2, r.v[2] \div 2, r.v[3] \div 2>>]>> ELSE <<>>
    [] k = "out" -> IF Speed(r.v) = 1 /\ F!VCross(r.v, e.a) = F!Zero3 THEN <<[r EXCEPT !.v = F!VScale(2, r.v)]>> ELSE <<>>
VARIABLES sys, ray, first, at, dir
vars == <<sys, ray, first, at, dir>>
Init == /\ sys \in [1..Length -> Elems] /\ \A j \in 2..Length : sys[j] # sys[j - 1]
        /\ ray \in {[p |-> p, v |-> v, t |-> 0] : p \in {<<0, 0, 0>>, <<1, 2, 0>>}, v \in {<<1, 0, 0>>, <<0, 0, -1>>, <<0, 2, 0>>, <<0, 0, 2>>}}
        /\ first = ray /\ at = 1 /\ dir = 1
One(e, r, rev) == LET h == Hit(e, r) IN IF h = <<>> THEN <<>> ELSE Act(e, h[1], rev)
Forward == /\ dir = 1 /\ at <= Length
           /\ LET o == One(sys[at], ray, FALSE) IN o # <<>> /\ ray' = o[1] /\ at' = at + 1
           /\ UNCHANGED <<sys, first, dir>>
Turn == /\ dir = 1 /\ at = Length + 1 /\ dir' = -1 /\ at' = Length /\ ray' = Turned(ray) /\ UNCHANGED <<sys, first>>
Backward == /\ dir = -1 /\ at >= 1
            /\ LET o == One(sys[at], ray, TRUE) IN o # <<>> /\ ray' = o[1] /\ at' = at - 1
            /\ UNCHANGED <<sys, first, dir>>
Next == Forward \/ Turn \/ Backward
Spec == Init /\ [][Next]_vars
(* a reversed ray is never lost, and at the end it is back on its line in step *)
Back == dir = -1 /\ at = 0 => Retraces(first, ray)
NeverLost == dir = -1 /\ at >= 1 => One(sys[at], ray, TRUE) # <<>>
(* a moved element acts on a moved ray as the element on the ray *)
Gs == {<<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>, <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>}
Moves == {[o |-> o, R |-> G] : o \in {<<0, 0, 0>>, <<1, -2, 3>>}, G \in Gs}
MovedElem(g, e) == LET a == F!DirToGlobal(g, e.a) IN [e EXCEPT !.a = a, !.b = e.b + F!VDot(a, g.o)]
Covers == dir = 1 /\ at <= Length =>
  \A g \in Moves : LET o == One(sys[at], ray, FALSE) m == One(MovedElem(g, sys[at]), MovedRay(F!Global, g, ray), FALSE) IN
    IF o = <<>> THEN m = <<>> ELSE m # <<>> /\ m[1] = MovedRay(F!Global, g, o[1])
============================================================================
