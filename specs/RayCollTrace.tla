---------------------------- MODULE RayCollTrace ---------------------------
(* C15: recorded programs over ray vectors against the store of RayColl.    *)
EXTENDS RayColl, Dec, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
Cl(ok, name) == IF ok THEN {} ELSE {name}
Count(e) == IF \A c \in 1..11 : Len(e.cols[c]) = 1 THEN 1 ELSE e.n
StartFail(e) ==
  LET n == Count(e) col == e.start[1] IN
  Cl(Len(col.rays) = n /\ \A c \in 1..11 : LET w == Wide(e.cols[c], n) IN \A j \in 1..n : DEq(e.rows[col.rays[j]].v[c], w[j]),
     "a new ray vector does not hold the values it was given")
Before(e, k) == IF k = 1 THEN e.start ELSE e.ev[k - 1].store
StepFail(e, k) ==
  LET o == e.ev[k] st == Before(e, k) new == o.store IN
  IF o.op \in {"copy", "pickle", "deepcopy", "index", "concat", "iter"} THEN
    IF Len(new) = Len(st) + 1 /\ new = Made(st, o) THEN {} ELSE {o.op \o ": not the selected rays in order with all attributes and the frame"}
  ELSE IF o.op = "badindex" THEN Cl(o.raised = "IndexError" /\ new = st, "an index out of range does not raise IndexError")
  ELSE IF o.op \in {"read", "args"} THEN Cl(new = st, o.op \o ": a collection changed although nothing was done to it")
  ELSE Cl(\A s \in 1..Len(st) : s # o.src => new[s] = st[s], "changing one collection changed another")
       \cup Cl(Len(new[o.src].rays) = Len(st[o.src].rays), "an operation lost or gained rays")
       \cup (IF o.op = "write" THEN
               Cl(new[o.src].frame = st[o.src].frame /\ \A j \in 1..Len(st[o.src].rays) :
                    LET a == e.rows[st[o.src].rays[j]].v b == e.rows[new[o.src].rays[j]].v IN
                    \A c \in 1..11 : b[c] = (IF j = o.j + 1 /\ c = o.f THEN o.val ELSE a[c]) \/ DEq(b[c], IF j = o.j + 1 /\ c = o.f THEN o.val ELSE a[c]),
                  "writing one attribute of one ray did something else")
             ELSE {})
EqFail(e) ==
  LET st == IF e.ev = <<>> THEN e.start ELSE e.ev[Len(e.ev)].store IN
  Cl(\A a, b \in 1..Len(st) :
       LET same == st[a].rays = st[b].rays
           skip == same /\ (st[a].frame # st[b].frame \/ \E j \in 1..Len(st[a].rays) : e.rows[st[a].rays[j]].nan)
       IN  skip \/ (e.eq[a][b][1] = same /\ e.eq[a][b][2] = ~same), "equality does not mean equal lengths and attributes")
  \cup Cl(\A a \in 1..Len(st) : e.len[a] = Len(st[a].rays), "len is not the number of rays")
Fail(e) == IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  StartFail(e) \cup UNION {StepFail(e, k) : k \in 1..Len(e.ev)} \cup EqFail(e)
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
============================================================================
