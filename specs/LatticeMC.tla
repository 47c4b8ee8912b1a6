------------------------------ MODULE LatticeMC -----------------------------
(* Every small shape, every small lattice, walked cell by cell; the exact     *)
(* discrete Fourier transform of a 2x2 pupil padded to 4x4, whose values are  *)
(* 0 or powers of i, cell by cell.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
IAdd(a, b) == a + b
IMul(a, b) == a * b
INSTANCE Lattice WITH Add <- IAdd, Mul <- IMul
CONSTANT SIDE, RANGE
VARIABLES shape, pv, k, pupil, start, a, power
vars == <<shape, pv, k, pupil, start, a, power>>
Vec == {v \in (-RANGE..RANGE) \X (-RANGE..RANGE) : v # <<0, 0>>}
DetV(p) == p[1][1] * p[2][2] - p[1][2] * p[2][1]
(* a Gaussian integer power of i, or nothing: 4 *)
I(e) == CASE e % 4 = 0 -> <<1, 0>> [] e % 4 = 1 -> <<0, 1>> [] e % 4 = 2 -> <<-1, 0>> [] OTHER -> <<0, -1>>
CAdd(u, v) == <<u[1] + v[1], u[2] + v[2]>>
Cells == {<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 1>>}
(* amplitude of frequency f (each component modulo 4), pupil beginning at s *)
Amp(p, s, f) ==
  LET term(c) == IF p[c] = 4 THEN <<0, 0>> ELSE I(p[c] - (f[1] * (c[1] + s) + f[2] * (c[2] + s)) + 16 * 4)
  IN  CAdd(CAdd(term(<<0, 0>>), term(<<0, 1>>)), CAdd(term(<<1, 0>>), term(<<1, 1>>)))
Power(p, s, f) == Amp(p, s, f)[1] ^ 2 + Amp(p, s, f)[2] ^ 2
Init == /\ shape \in {<<n, m>> : n \in 1..SIDE, m \in 1..SIDE}
        /\ pv \in {p \in Vec \X Vec : DetV(p) # 0} /\ k = 0
        /\ pupil \in (IF shape = <<1, 1>> /\ pv = <<<<1, 0>>, <<0, 1>>>> THEN [Cells -> 0..4] ELSE {[c \in Cells |-> 0]})
        /\ start \in 0..2 /\ (start = 0 \/ (shape = <<1, 1>> /\ pv = <<<<1, 0>>, <<0, 1>>>>))
        /\ a = 0 /\ power = 0
Size == shape[1] * shape[2]
(* walk the lattice, then the transform *)
Step == \/ k + 1 < Size /\ k' = k + 1 /\ UNCHANGED <<shape, pv, pupil, start, a, power>>
        \/ k + 1 = Size /\ a < 16 /\ shape = <<1, 1>> /\ a' = a + 1
           /\ power' = power + Power(pupil, start, <<a \div 4, a % 4>>) /\ UNCHANGED <<shape, pv, k, pupil, start>>
Spec == Init /\ [][Step]_vars
Here == Coord(shape, Tuples(shape)[k + 1], pv)
(* the cells are all different, so are their coordinates *)
Distinct == k > 0 => Here # Coord(shape, Tuples(shape)[k], pv)
(* odd sides are symmetric about 0; an even side has exactly one coordinate more on the negative side *)
Centred ==
  LET T == Tuples(shape)
      offs(d) == {Off(shape[d], T[j][d]) : j \in 1..Len(T)}
  IN  \A d \in 1..2 : LET lo == - (shape[d] \div 2) hi == shape[d] - 1 - (shape[d] \div 2) IN
        offs(d) = lo..hi /\ hi = (IF shape[d] % 2 = 1 THEN -lo ELSE -lo - 1)
(* the chief ray is the one ray at the origin, wherever the array lies *)
Chief == shape[1] = shape[2] =>
  LET n == shape[1] IN
  /\ ArrayCell(n, ChiefRay(n)) = CoordCell(n, ChiefRay(n))
  /\ \A j \in 0..(n * n - 1) : (Coord(shape, CoordCell(n, j), pv) = <<0, 0>>) <=> j = ChiefRay(n)
(* the transposed reading: ray k lies at coordinates [x][y] and in the array at [y][x] *)
Transposed == shape[1] = shape[2] =>
  LET n == shape[1] c == CoordCell(n, k) r == ArrayCell(n, k) IN
    c = <<r[2], r[1]>> /\ Coord(shape, c, <<<<1, 0>>, <<0, 1>>>>) = <<Off(n, k % n), Off(n, k \div n)>>
(* reciprocal vectors, times the determinant *)
Adj(p) == <<<<p[2][2], -p[2][1]>>, <<-p[1][2], p[1][1]>>>>
Dual == LET q == Adj(pv) d(i, j) == pv[i][1] * q[j][1] + pv[i][2] * q[j][2] IN
  /\ d(1, 1) = DetV(pv) /\ d(2, 2) = DetV(pv) /\ d(1, 2) = 0 /\ d(2, 1) = 0
  /\ Adj(q) = pv
(* all the power of the pupil arrives; where the pupil sits in its padding does not matter; nothing is negative *)
Open == Cardinality({c \in Cells : pupil[c] # 4})
Parseval == a = 16 => power = 16 * Open
Placed == a < 16 => LET f == <<a \div 4, a % 4>> IN Power(pupil, start, f) = Power(pupil, 0, f) /\ Power(pupil, start, f) >= 0
(* a flat wavefront peaks at the centre *)
Peak == (\A c \in Cells : pupil[c] = 0) => Power(pupil, start, <<0, 0>>) = 16
=============================================================================
