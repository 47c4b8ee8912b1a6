----------------------------- MODULE RayCollGen ----------------------------
(* Random programs over a store of ray collections; TLC tracks the lengths. *)
EXTENDS RayColl, TLC, Json, IOUtils
LOCAL INSTANCE SequencesExt
N == atoi(IOEnv.N)
LEN == atoi(IOEnv.LEN)
R(S) == RandomElement(S)
Bound(n) == IF R(1..3) = 1 THEN <<>> ELSE <<R((-(n + 3))..(n + 3))>>
Index(n) ==
  LET k == R(1..6) IN
  IF k = 1 /\ n > 0 THEN [t |-> "int", j |-> R((-n)..(n - 1)), np |-> R({TRUE, FALSE})]
  ELSE IF k = 2 THEN [t |-> "int", j |-> R({n, -n - 1, n + 5, -n - 7}), np |-> FALSE]
  ELSE IF k = 3 THEN [t |-> "mask", m |-> [j \in 1..n |-> R({TRUE, FALSE})], list |-> n > 0 /\ R({TRUE, FALSE})]
  ELSE IF k = 4 /\ n > 0 THEN [t |-> "list", l |-> [j \in 1..R(1..(n + 2)) |-> R((-n)..(n - 1))], list |-> R({TRUE, FALSE})]
  ELSE [t |-> "slice", a |-> Bound(n), b |-> Bound(n), c |-> R({1, 1, 2, 3, -1, -2})]
Fields == {"x", "y", "z", "vx", "vy", "vz", "t", "wavelength", "flux", "vignetted", "failed"}
Make(ls, fs) ==        \* a step that makes a collection: <<op, its length, its frame tag>>
  LET s == R(1..Len(ls)) k == R(1..8) IN
  IF k = 1 \/ ls[s] > 12 THEN <<[op |-> R({"copy", "pickle", "deepcopy"}), src |-> s], ls[s], fs[s]>>
  ELSE IF k = 2 /\ ls[s] > 0 THEN <<[op |-> "iter", src |-> s], ls[s], fs[s]>>
  ELSE IF k <= 4 THEN
    LET same == SelectSeq([j \in 1..Len(ls) |-> j], LAMBDA j : fs[j] = fs[s])
        srcs == [j \in 1..R(1..3) |-> IF j = 1 THEN s ELSE same[R(1..Len(same))]]
    IN  <<[op |-> "concat", srcs |-> srcs, gen |-> R({"list", "tuple"})], FoldLeft(LAMBDA acc, j : acc + ls[j], 0, srcs), fs[s]>>
  ELSE LET i == Index(ls[s]) IN
    IF Valid(i, ls[s]) THEN <<[op |-> "index", src |-> s, i |-> i], Len(Chosen(i, ls[s])), fs[s]>>
    ELSE <<[op |-> "badindex", src |-> s, i |-> i], -1, 0>>
Change(ls, j) ==
  [op |-> R({"write", "write", "frame", "prop", "obsc", "int", "read", "refl", "trace", "args"}), src |-> R(1..Len(ls)), field |-> R(Fields), at |-> R(0..20)]
RECURSIVE Program(_, _, _, _, _)
Program(k, ls, fs, nf, acc) ==
  IF k = 0 THEN {acc} ELSE
  IF R(1..5) <= 3 /\ Len(ls) < 7 THEN
    UNION {IF m[2] < 0 THEN Program(k - 1, ls, fs, nf, Append(acc, m[1])) ELSE Program(k - 1, Append(ls, m[2]), Append(fs, m[3]), nf, Append(acc, m[1])) : m \in {Make(ls, fs)}}
  ELSE UNION {Program(k - 1, ls, IF c.op \in {"frame", "int", "refl", "trace"} THEN [fs EXCEPT ![c.src] = nf] ELSE fs, nf + 1, Append(acc, c)) : c \in {Change(ls, 0)}}
(* the positions and velocities may be single values too: then the other columns set the length, or it is one ray *)
Scal(k) == [f \in Fields |-> IF f \in {"x", "y", "z", "vx", "vy", "vz"} THEN (IF k = 1 THEN R({"scalar", "scalar", "one", "array"}) ELSE IF k = 2 THEN "scalar" ELSE "array")
                              ELSE IF k = 2 THEN R({"omit", "scalar", "scalar"}) ELSE R({"omit", "scalar", "one", "array", "array"})]
New(n, scal) == [op |-> "new", n |-> n, scal |-> scal,
           form |-> R({"array", "list", "strided", "float32", "int", "mixed"}), flags |-> R({"none", "some"}), frame |-> R({"own", "any"})]
Length(n, scal) == IF \A f \in Fields : scal[f] # "array" THEN 1 ELSE n
The(S) == CHOOSE x \in S : TRUE
Scenario(i) ==
  The({[id |-> i, new |-> New(d.n, d.scal), ops |-> The(Program(LEN, <<Length(d.n, d.scal)>>, <<0>>, 1, <<>>))] :
       d \in {[n |-> R({0, 1, 2, 3, 5, 8}), scal |-> Scal(R(1..8))]}})
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)])
============================================================================
