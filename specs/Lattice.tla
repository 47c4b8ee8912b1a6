------------------------------- MODULE Lattice ------------------------------
(***************************************************************************)
(* C23: lattices of points: index tuples, coordinates, reciprocal lattices *)
(* and the place of the chief ray in a square grid.  The number system of  *)
(* the vectors is a parameter (integers in the model, decimals in traces). *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Add(_, _), Mul(_, _)
(* place of index i (from 0) on a side of n: odd sides are centred, even ones have one more before the centre *)
Off(n, i) == i - (n \div 2)
(* all index tuples (from 0) of a shape, last index fastest *)
RECURSIVE Tuples(_)
Tuples(shape) ==
  IF shape = <<>> THEN <<<<>>>> ELSE
  LET rest == Tuples(Tail(shape))
      m == Len(rest)
  IN  [k \in 1..(Head(shape) * m) |-> <<(k - 1) \div m>> \o rest[((k - 1) % m) + 1]]
RECURSIVE Comb(_, _, _, _)
(* component c of  sum over d of place_d * vector_d *)
Comb(shape, idx, pv, c) ==
  IF shape = <<>> THEN 0 ELSE
  Add(Mul(Off(Head(shape), Head(idx)), Head(pv)[c]), Comb(Tail(shape), Tail(idx), Tail(pv), c))
Coord(shape, idx, pv) == [c \in 1..Len(pv) |-> Comb(shape, idx, pv, c)]
(* a square grid of rays, x fastest: ray number of the ray through the centre of the pupil (from 0) *)
ChiefRay(n) == (n \div 2) * n + (n \div 2)
(* an array indexed [row][column] = [y][x] beside coordinates indexed [x][y] *)
ArrayCell(n, k) == <<k \div n, k % n>>                 \* of ray k (from 0)
CoordCell(n, k) == <<k % n, k \div n>>
=============================================================================
