----------------------------- MODULE TreeTrace -----------------------------
(* Judges recorded traces of real systems against OpticTree.               *)
EXTENDS OpticTree, Rays, TLC, Json, IOUtils
INSTANCE Frames WITH Add <- DAdd, Sub <- DSub, Mul <- DMul
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
Clause(ok, name) == IF ok THEN {} ELSE {name}

(* e.snaps: rays before and after every visit, by primitive operations *)
TraceFail(e) ==
  IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  Clause(e.visits = Visits(e.tree, e.rev), "MACHINERY: replayed another visit list")
  \cup Clause(SameRays(e.got, Last(e.snaps)), IF e.rev THEN "reverse tracing is not the composition of the interfaces in opposite order"
                                              ELSE "tracing is not the in-order composition of the interfaces")
  \cup Clause(SameFrame(e.got.cs, Last(e.snaps).cs), "rays not expressed in the frame of the last interface")
  \cup Clause(e.inplace, "rays not transformed in place")

FullFail(e) ==
  IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  LET v == Visits(e.tree, e.rev) n == Len(v) m == Len(e.full) IN
  Clause(e.visits = v, "MACHINERY: replayed another visit list")
  \cup Clause([j \in 1..m |-> e.full[j].key] = [j \in 1..n |-> v[j].n], "history does not have one entry per interface in visiting order")
  \cup Clause(\A j \in 1..m : e.full[j].name = e.full[j].key, "entry under another interface's name")
  \cup (IF m # n THEN {} ELSE
        Clause(m = 0 \/ SameBundle(e.full[1].in, e.snaps[1]), "first entry does not start from the given rays")
        \cup Clause(\A j \in 2..m : SameBundle(e.full[j].in, e.full[j - 1].out), "history is not a gap-free chain")
        \cup Clause(\A j \in 1..m : SameBundle(e.full[j].out, e.snaps[j + 1]), "recorded rays are not those at that interface"))
  \cup Clause(m = 0 \/ SameBundle(Last(e.full).out, e.traced), "history disagrees with tracing")
  \cup Clause(Identical(e.after, e.before), "the given rays were changed")

(* global vertices of an interval a..b of the history *)
VertFail(e) ==
  IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  LET n == Len(e.ents[1].in.q)
      Bund(j) == IF j = 1 THEN e.ents[1].in ELSE e.ents[j - 1].out
      Pos(b, r) == <<b.q[r][1], b.q[r][2], b.q[r][3]>>
      k == Len(e.ents)
      Want(r, j) == ToGlobal(Bund(j).cs, Pos(Bund(j), r))
      Good(r, j) == Bund(j).fail[r] \/ DSameSeq(e.xyz[r][j], Want(r, j), RTOL)
  IN Clause(Len(e.xyz) = n /\ \A r \in 1..n : Len(e.xyz[r]) = k + 1 /\ \A j \in 1..(k + 1) : Good(r, j),
            "global vertices are not the entry and exit points")
     \cup Clause(Len(e.raylen) = n /\ \A r \in 1..n : e.raylen[r] = 1 + Cardinality({j \in 1..k : ~e.ents[j].out.vig[r]}),
                 "visible vertex count")

KeyOf(path, j) == path[j] \o "_" \o ToString(VisitNo(path, j))
PathFail(e) ==
  IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  LET n == Len(e.path) m == Len(e.full) IN
  Clause(e.steps = PathSteps(e.path), "MACHINERY: replayed another path")
  \cup Clause(SameBundle(e.got, Last(e.snaps)), "path tracing does not visit and turn as listed")
  \cup Clause(e.inplace, "rays not transformed in place")
  \cup Clause([j \in 1..m |-> e.full[j].key] = [j \in 1..n |-> KeyOf(e.path, j)], "path history keys")
  \cup Clause(\A j \in 1..m : j > n \/ e.full[j].name = e.path[j], "path history names")
  \cup (IF m # n THEN {} ELSE
        Clause(SameBundle(e.full[1].in, e.snaps[1]), "path history does not start from the given rays")
        \cup Clause(\A j \in 2..m : SameBundle(e.full[j].in, e.full[j - 1].out), "path history is not chained")
        \cup Clause(\A j \in 1..m : SameBundle(e.full[j].out, e.snaps[j + 1]), "path history entry is not the rays at that visit"))
  \cup Clause(Identical(e.after, e.before), "the given rays were changed")

Fail(e) == CASE e.k = "trace" -> TraceFail(e) [] e.k = "full" -> FullFail(e)
             [] e.k = "vert" -> VertFail(e) [] e.k = "path" -> PathFail(e)

VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
============================================================================
