----------------------------- MODULE ValuesTrace -----------------------------
(* C14: what ==, !=, hash, pickle, copy and repr said about pairs of objects. *)
EXTENDS Integers, Sequences, Dec, TLC, Json, IOUtils
V == INSTANCE Values WITH EqN <- DEq
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
Cl(ok, name) == IF ok THEN {} ELSE {name}
All(s) == \A j \in 1..Len(s) : s[j]
RT(e, r) ==
  Cl(r.err = "", r.how \o " raises: " \o r.err)
  \cup (IF r.err # "" THEN {} ELSE
        Cl(r.kind /\ All(r.eq) /\ ~r.ne[1] /\ ~r.ne[2], r.how \o " does not give an equal object")
        \cup Cl(r.hash, r.how \o " changes the hash")
        \cup Cl(DSameSeq(r.probe, e.pa, "1e-9"), r.how \o " gives an object that behaves differently"))
\* the description with one number replaced
RECURSIVE Put(_, _, _, _, _)
Put(d, p, i, j, v) == IF p = <<>> THEN [d EXCEPT !.nums[i][j] = v] ELSE [d EXCEPT !.subs[p[1]] = Put(d.subs[p[1]], Tail(p), i, j, v)]
One(e, w) == IF w.err # "" THEN {"exception with one number changed: " \o w.err} ELSE
  LET same == V!Equal(e.a, Put(e.a, w.p, w.i, w.j, w.v)) IN
  Cl(w.eq = same /\ w.qe = same, "one number changed: equality is wrong") \cup Cl(same => w.hash, "equal objects have different hashes")
Fail(e) == IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  LET same == V!Equal(e.a, e.b)
      order == same /\ ~V!Exact(e.a, e.b) /\ e.tie      \* members that print alike: their order is not promised away
  IN (IF order THEN {} ELSE
      (IF same THEN Cl(All(e.eq) /\ ~e.ne[1] /\ ~e.ne[2], "objects with the same parameters are not equal")
                    \cup Cl(e.hash, "equal objects have different hashes") \cup Cl(DSameSeq(e.pb, e.pa, "1e-9"), "equal objects behave differently")
       ELSE Cl(~e.eq[1] /\ ~e.eq[2] /\ All(e.ne), "objects with different parameters are equal")))
     \cup Cl(e.eq[1] = e.eq[2], "equality is not symmetric")
     \cup Cl(\A j \in 1..Len(e.eq) : e.eq[j] = ~e.ne[j], "!= is not the negation of ==")
     \cup Cl(\A j \in 1..Len(e.foreign) : ~e.foreign[j], "equal to something that is no such object")
     \cup Cl(e.self, "an object is not equal to itself")
     \cup Cl(e.hashagain, "the hash of an object changed")
     \cup UNION {RT(e, e.rt[j]) : j \in 1..Len(e.rt)}
     \cup Cl(e.repr.err = "", "the printed form does not evaluate: " \o e.repr.err)
     \cup Cl(e.repr.kind /\ e.repr.again, "the printed form gives an object of another kind or that prints differently")
     \cup Cl(e.full.err = "" /\ All(e.full.eq), "the printed form at full precision does not give an equal object")
     \cup UNION {One(e, e.sweep[j]) : j \in 1..Len(e.sweep)}
     \cup Cl(e.mut = <<>> \/ All(e.mut), "changing an argument after construction changed the object")
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
=============================================================================
