------------------------------ MODULE ParTrace ------------------------------
(* C18: the same call on a bundle whole, row by row, permuted, in parts, on a *)
(* large bundle of repeated rows, with other numbers of threads, and again.   *)
(* Rows of results are interned by the driver: equal numbers, equal results.  *)
EXTENDS Par, Dec, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
Cl(ok, name) == IF ok THEN {} ELSE {name}
(* the order of rows handed over: a permutation cut into parts is a partition *)
RECURSIVE Concat(_)
Concat(parts) == IF parts = <<>> THEN <<>> ELSE Head(parts) \o Concat(Tail(parts))
Covers(parts, n) == LET c == Concat(parts) IN Len(c) = n /\ {c[j] : j \in 1..Len(c)} = 1..n
VariantFail(e, v) ==
  LET solo(r) == e.solo[r] IN
  Cl(\A k \in 1..Len(v.parts) : v.out[k] = Seqs(solo, v.parts[k]), v.what \o ": a row's result is not what that row alone gives")
(* a sum of complex amplitudes *)
SumFail(e) ==
  LET tot(c, rows) == DSumSeq([k \in 1..Len(rows) |-> IF Counted(e.vig[rows[k]], e.fail[rows[k]], e.ignore) THEN DMul(e.flux[rows[k]], e.amp[rows[k]][c]) ELSE 0])
      big(rows) == DAdd(1, DSumSeq([k \in 1..Len(rows) |-> DAbs(e.flux[rows[k]])]))
  IN UNION {LET v == e.variants[q] IN Cl(\A k \in 1..Len(v.parts) : \A c \in 1..2 : DNear(v.sum[k][c], tot(c, v.parts[k]), DMul("1e-12", big(v.parts[k]))),
                                         v.what \o ": the sum is not the sum of the counted rows' contributions") : q \in 1..Len(e.variants)}
Fail(e) == IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  IF ~(\A q \in 1..Len(e.variants) : e.variants[q].whole => Covers(e.variants[q].parts, e.n)) THEN {"harness: not a partition"} ELSE
  IF e.op = "sum" THEN SumFail(e) ELSE UNION {VariantFail(e, e.variants[q]) : q \in 1..Len(e.variants)}
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
=============================================================================
