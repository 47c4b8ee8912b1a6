----------------------------- MODULE EditTrace -----------------------------
(* Judges recorded operations on real systems against OpticEdit.           *)
EXTENDS Rays, TLC, Json, IOUtils
INSTANCE OpticEdit WITH Add <- DAdd, Sub <- DSub, Mul <- DMul
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
Clause(ok, name) == IF ok THEN {} ELSE {name}
FTOL == "1e-9"
NearFrame(f, g) == DSameSeq(f.o, g.o, FTOL) /\ \A a \in 1..3 : DSameSeq(f.R[a], g.R[a], FTOL)

RECURSIVE Diff(_, _)
(* what differs between two systems *)
Diff(t, u) ==
  Clause(t.n = u.n /\ t.k = u.k /\ Len(t.items) = Len(u.items), "the parts or their order")
  \cup Clause(NearFrame(t.f, u.f), "a frame")
  \cup Clause(Len(t.stop) = Len(u.stop) /\ \A j \in 1..Len(t.stop) : NearFrame(t.stop[j], u.stop[j]), "a stop surface")
  \cup Clause(t.s = u.s, "a surface")
  \cup Clause(t.skip = u.skip, "a skip flag")
  \cup Clause(t.a = u.a, "an attribute")
  \cup (IF Len(t.items) # Len(u.items) THEN {} ELSE UNION {Diff(t.items[j], u.items[j]) : j \in 1..Len(t.items)})
RECURSIVE PathsOK(_)
PathsOK(t) == t.path = LeafNames(t) /\ \A j \in 1..Len(t.items) : PathsOK(t.items[j])

What(op) == CASE op = "sg" -> "global shift" [] op = "sl" -> "local shift" [] op = "rg" -> "global rotation"
              [] op = "rl" -> "local rotation" [] op = "ins" -> "insertion" [] op = "rem" -> "removal"
              [] op = "surf" -> "new surface" [] op = "pert" -> "perturbed surface" [] OTHER -> op
(* the new object may compute the drawing radii of interfaces; they carry over *)
EvFail(e) ==
  IF e.exc # "" THEN {What(e.op) \o " raised " \o e.exc}
  ELSE IF e.op = "bad" THEN Clause(e.refused, "a name that fits no part was accepted")
  ELSE {What(e.op) \o " got wrong: " \o x : x \in Diff(Edit(e.before, e), e.after)}
       \cup Clause(e.own, What(e.op) \o " returned the same object")
       \cup Clause(e.back, What(e.op) \o " and its inverse do not give back an equal system")
       \cup Clause(e.direct, What(e.op) \o " of the part itself gives another part")
       \cup Clause(PathsOK(e.after), "listed interface names of the new system")
       \cup (IF e.op # "pert" THEN {} ELSE
             Clause(\A j \in 1..Len(e.sag[1]) : DIsNan(e.sag[1][j]) \/ DClose(DAdd(e.sag[1][j], e.sag[2][j]), e.sag[3][j], "1e-12"),
                    "sag of a perturbed surface is not the sum"))
OpsFail(r) == UNION {EvFail(r.ev[j]) : j \in 1..Len(r.ev)} \cup Clause(r.frozen, "an existing system changed")

TrFail(e) ==
  IF e.exc # "" THEN {"tracing an edited system raised " \o e.exc} ELSE
  LET v == Visits(e.tree, FALSE) IN
  Clause(e.visits = [j \in 1..Len(v) |-> v[j].n], "MACHINERY: replayed another visit list")
  \cup Clause(SameBundle(e.got, e.want), "tracing an edited system is not tracing its interfaces")

NamesFail(e) ==
  IF e.exc # "" THEN {"perturbation or edit raised " \o e.exc} ELSE
  LET P == Parts(e.tree)
      bad == {j \in 1..Len(e.tries) : e.got[j] # Lookup(e.tree, e.tries[j])}
  IN Clause(\A j \in bad : Lookup(e.tree, e.tries[j]) # None, "a name that fits no single part was accepted or refused wrongly")
     \cup Clause(\A j \in bad : Lookup(e.tree, e.tries[j]) = None, "a name leads to no part or another part")
     \cup Clause(Len(e.dict) = Cardinality(P) /\ {<<d[1], d[2]>> : d \in ToSet(e.dict)} = {<<p.toks, p.at>> : p \in P},
                 "the mapping of qualified names does not list every part once")

Fail(e) == CASE e.k = "ops" -> OpsFail(e) [] e.k = "names" -> NamesFail(e) [] e.k = "tr" -> TrFail(e)
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
============================================================================
