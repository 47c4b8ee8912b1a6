------------------------------ MODULE LaunchMC ------------------------------
(* Model check of Launch: every small layout, launched and followed until it  *)
(* has crossed the stop.                                                      *)
EXTENDS Launch, TLC
CONSTANTS MaxN
VARIABLES nx, ny, skew, dir, back, tick
vars == <<nx, ny, skew, dir, back, tick>>
(* integer directions with integer length *)
Dirs == {<<0, 0, -1>>, <<1, 0, 0>>, <<3, 0, -4>>, <<0, -3, -4>>, <<2, -1, -2>>, <<-1, 2, 2>>, <<6, 2, -3>>}
Init == nx \in 1..MaxN /\ ny \in 1..MaxN /\ skew \in {0, 1} /\ dir \in Dirs /\ back \in {0, 3} /\ tick = 0
Next == tick < 4 /\ tick' = tick + 1 /\ UNCHANGED <<nx, ny, skew, dir, back>>
Spec == Init /\ [][Next]_vars
DX == IF skew = 0 THEN <<2>> ELSE <<2, 1>>
DY == IF skew = 0 THEN <<2>> ELSE <<"-0.5", 3>>
None == <<>>
G1 == Grid([nx |-> <<nx>>, ny |-> <<ny>>, dx |-> DX, dy |-> DY, lx |-> None, ly |-> None])
Times(v, m) == [j \in 1..Len(v) |-> DMul(m, v[j])]
G2 == Grid([nx |-> <<nx>>, ny |-> <<ny>>, dx |-> None, dy |-> None, lx |-> Times(DX, Intervals(nx)), ly |-> Times(DY, Intervals(ny))])
G3 == Grid([nx |-> None, ny |-> None, dx |-> DX, dy |-> DY, lx |-> Times(DX, Intervals(nx)), ly |-> Times(DY, Intervals(ny))])
Eq2(a, b) == DEq(a[1], b[1]) /\ DEq(a[2], b[2])
SameGrid(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : Eq2(a[j], b[j])
Mine(a, b) == Eq2(F!VSub(Append(a, 0), Append(b, 0)), VecX(DX))
(* three ways of asking for the same grid agree *)
Agree == /\ SameGrid(G1, G2) \/ (nx = 1 \/ ny = 1)
         /\ nx % 2 = 0 /\ ny % 2 = 0 /\ nx > 2 /\ ny > 2 /\ skew = 0 => SameGrid(G1, G3)
Counted == Len(G1) = nx * ny
Spacing == \A j \in 1..(Len(G1) - 1) : j % nx # 0 => Mine(G1[j + 1], G1[j])
Rows == \A j \in 1..(Len(G1) - nx) : Eq2(F!VSub(Append(G1[j + nx], 0), Append(G1[j], 0)), VecY(DY))
Centred == \E j \in 1..Len(G1) : Eq2(G1[j], <<0, 0>>)
Symmetric == nx % 2 = 1 /\ ny % 2 = 1 => \A j \in 1..Len(G1) : Eq2(G1[j], Times(G1[Len(G1) + 1 - j], -1))
Unequal == (nx = 1 /\ ny = 1) \/ \A j, k \in 1..Len(G1) : j # k => ~Eq2(G1[j], G1[k])
(* followed in time, the bundle is one plane wave and each ray meets its pupil point *)
D == Unit(dir)
V == <<1, -2, 5>>
At(X) == F!VAdd(Start(X, V, D, back), F!VScale(DMul(2, tick), D))
X3(j) == <<G1[j][1], G1[j][2], DMul(G1[j][1], "0.25")>>
Nr(a, b) == DNear(a, b, "1e-40")
Coherent == \A j \in 1..Len(G1) : Nr(F!VDot(D, F!VSub(At(X3(j)), V)), DSub(DMul(2, tick), back))
Meets == \A j \in 1..Len(G1) : LET X == X3(j) c == F!VCross(F!VSub(X, At(X)), D) IN Nr(c[1], 0) /\ Nr(c[2], 0) /\ Nr(c[3], 0)
(* rings: kfold divides every count, outer rings have no fewer *)
Rings == \A k \in {1, 3, 6}, naz \in {1, 5, 12, 13}, a \in 1..6 :
   \A c \in RingCounts(a, 6, naz, k) : c % k = 0 /\ c >= k /\ c <= (IF naz < k THEN k ELSE naz) /\ (a < 6 => \E b \in RingCounts(a + 1, 6, naz, k) : b >= c)
============================================================================
