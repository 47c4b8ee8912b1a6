------------------------------ MODULE RayColl ------------------------------
(***************************************************************************)
(* A store of ray collections with value semantics.                        *)
(* A collection is [rays, frame]; every operation makes one new collection *)
(* from existing ones, or changes exactly one collection in place.         *)
(* Positions count from 0 as in Python; "none" stands for an omitted bound.*)
(***************************************************************************)
EXTENDS Integers, Sequences
LOCAL INSTANCE SequencesExt
Larger(a, b) == IF a > b THEN a ELSE b
Smaller(a, b) == IF a < b THEN a ELSE b
Bool2(b) == IF b THEN 1 ELSE 0
(* slices: bounds are <<>> (omitted) or <<integer>>; the positions s[start:stop:step] selects from n *)
Clamp(b, n, lo, hi) == LET v == IF b[1] < 0 THEN b[1] + n ELSE b[1] IN Larger(lo, Smaller(hi, v))
SliceOf(start, stop, step, n) ==
  LET first == IF start = <<>> THEN (IF step > 0 THEN 0 ELSE n - 1) ELSE IF step > 0 THEN Clamp(start, n, 0, n) ELSE Clamp(start, n, -1, n - 1)
      last == IF stop = <<>> THEN (IF step > 0 THEN n ELSE -1) ELSE IF step > 0 THEN Clamp(stop, n, 0, n) ELSE Clamp(stop, n, -1, n - 1)
      cnt == IF step > 0 THEN Larger(0, ((last - first) + (step - 1)) \div step)
             ELSE Larger(0, ((first - last) + ((-step) - 1)) \div (-step))
  IN  [j \in 1..cnt |-> first + ((j - 1) * step)]
(* an index i: [t |-> "int", j], [t |-> "slice", a, b, c], [t |-> "mask", m], [t |-> "list", l] *)
Valid(i, n) == i.t = "int" => (-n <= i.j /\ i.j < n)
Chosen(i, n) ==
  CASE i.t = "int" -> <<IF i.j < 0 THEN i.j + n ELSE i.j>>
    [] i.t = "slice" -> SliceOf(i.a, i.b, i.c, n)
    [] i.t = "mask" -> SelectSeq([j \in 1..n |-> j - 1], LAMBDA j : i.m[j + 1])
    [] i.t = "list" -> [j \in 1..Len(i.l) |-> IF i.l[j] < 0 THEN i.l[j] + n ELSE i.l[j]]
Select(col, i) == LET c == Chosen(i, Len(col.rays)) IN [col EXCEPT !.rays = [j \in 1..Len(c) |-> col.rays[c[j] + 1]]]
Concat(cols) == [rays |-> FlattenSeq([j \in 1..Len(cols) |-> cols[j].rays]), frame |-> cols[1].frame]
(* broadcast a column to n entries *)
Wide(col, n) == IF Len(col) = n THEN col ELSE [j \in 1..n |-> col[1]]
(* the store after an operation that makes a collection *)
Made(st, o) ==
  CASE o.op \in {"copy", "pickle", "deepcopy"} -> Append(st, st[o.src])
    [] o.op = "index" -> Append(st, Select(st[o.src], o.i))
    [] o.op \in {"concat", "parts"} -> Append(st, Concat([j \in 1..Len(o.srcs) |-> st[o.srcs[j]]]))
    [] o.op = "iter" -> Append(st, st[o.src])
============================================================================
