------------------------------- MODULE ParseMC ------------------------------
(* Going down a nest of items, what Parse hands on is what the nearest        *)
(* enclosing statement says, and the frame is the chain of local motions.     *)
EXTENDS Parse, TLC
CONSTANTS Depth
VARIABLES chain
vars == <<chain>>
Med(j) == [k |-> "const", p |-> <<j>>]
Q == <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
P == <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>
Motions == {<<>>, <<[k |-> "x", v |-> <<2>>], [k |-> "turn", v |-> Q]>>, <<[k |-> "turn", v |-> P], [k |-> "shift", v |-> <<1, 0, 3>>]>>}
Opt(S) == {<<>>} \cup {<<m>> : m \in S}
(* a level: the item, and which place it has in its parent *)
Levels == {[t |-> t, cs |-> c, inM |-> i, outM |-> o, medium |-> IF t = "Lens" THEN <<Med(9)>> ELSE <<>>, place |-> p] :
             t \in {"CompoundOptic", "Lens"}, c \in Motions, i \in Opt({Med(2)}), o \in Opt({Med(3)}), p \in {1, 2}}
RECURSIVE EnvAt(_, _)
EnvAt(c, j) == IF j = 0 THEN Root ELSE Here(c[j], IF j = 1 THEN Root ELSE Inside(c[j - 1], EnvAt(c, j - 1), c[j].place))
Init == chain = <<>>
Next == Len(chain) < Depth /\ \E l \in Levels : chain' = Append(chain, l)
Spec == Init /\ [][Next]_vars
n == Len(chain)
RECURSIVE NearIn(_), NearOut(_), Up(_, _), Local(_, _)
NearIn(j) == IF chain[j].inM # <<>> THEN chain[j].inM[1] ELSE IF j = 1 THEN Vac
             ELSE IF chain[j - 1].t = "Lens" /\ chain[j].place = 2 THEN chain[j - 1].medium[1] ELSE NearIn(j - 1)
NearOut(j) == IF chain[j].outM # <<>> THEN chain[j].outM[1] ELSE IF j = 1 THEN NearIn(1)
              ELSE IF chain[j - 1].t = "Lens" /\ chain[j].place = 1 THEN chain[j - 1].medium[1] ELSE NearOut(j - 1)
(* from coordinates inside a level to those of its parent, the last step first *)
Local(steps, p) == IF steps = <<>> THEN p ELSE LET s == steps[Len(steps)] rest == SubSeq(steps, 1, Len(steps) - 1) IN
   Local(rest, CASE s.k = "x" -> F!VAdd(p, <<s.v[1], 0, 0>>) [] s.k = "shift" -> F!VAdd(p, s.v) [] OTHER -> F!MV(s.v, p))
Up(j, p) == IF j = 0 THEN p ELSE Up(j - 1, Local(chain[j].cs, p))
Nearest == n > 0 => EnvAt(chain, n).in = NearIn(n) /\ EnvAt(chain, n).out = <<NearOut(n)>>
Framed == \A p \in {<<0, 0, 0>>, <<1, 2, 3>>} : \A c \in 1..3 : DEq(F!ToGlobal(EnvAt(chain, n).f, p)[c], Up(n, p)[c])
=============================================================================
