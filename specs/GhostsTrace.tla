---------------------------- MODULE GhostsTrace ----------------------------
(* Judges recorded split traces of real systems against Ghosts.            *)
EXTENDS Rays, TLC, Json, IOUtils
INSTANCE Ghosts WITH Mul <- DMul, Below <- DLt, One <- "1"
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
Clause(ok, name) == IF ok THEN {} ELSE {name}
NamesOf(steps) == [j \in 1..Len(steps) |-> steps[j].n]
Ids(b) == [j \in 1..Len(b.q) |-> b.q[j][8]]          \* wavelengths identify rays
(* rays of a replayed exit that the specification lets out: their flux is the *)
(* input flux times the coefficients met *)
Fail(e) ==
  IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  LET ex == AllExits(e.chain, e.rev, "2.0", e.cut)
      same == ToSet([m \in 1..Len(ex) |-> ex[m].steps]) = ToSet([m \in 1..Len(e.exits) |-> e.exits[m].steps])
      replayed == [m \in 1..Len(ex) |-> e.exits[CHOOSE g \in 1..Len(e.exits) : e.exits[g].steps = ex[m].steps].rays]
      n == Len(e.flux)
      Alive(m, j) == ~replayed[m].vig[j] /\ ~DLt(DMul(e.flux[j], DDiv(ex[m].c, "2.0")), e.cut)
      Want(m) == {j \in 1..n : Alive(m, j)}
      Due == {m \in 1..Len(ex) : Want(m) # {}}
      Match(m) == {g \in 1..Len(e.got) : e.got[g].path = NamesOf(ex[m].steps) /\ e.got[g].rev = ex[m].rev}
      Known == UNION {Match(m) : m \in 1..Len(ex)}
      Good(m, g) ==
        LET got == e.got[g].rays want == replayed[m]
            ord == SelectSeq([j \in 1..n |-> j], LAMBDA j : j \in Want(m)) IN
        /\ Len(got.q) = Len(ord)
        /\ SameFrame(got.cs, want.cs)
        /\ \A a \in 1..Len(ord) : \E b \in 1..Len(got.q) :
              LET j == ord[a] IN
              /\ got.q[b][8] = want.q[j][8] /\ ~got.vig[b] /\ ~got.fail[b]
              /\ \A c \in 1..7 : DSame(got.q[b][c], want.q[j][c], RTOL)
      FluxOK(m, g) ==
        LET got == e.got[g].rays IN
        \A b \in 1..Len(got.q) : \E j \in 1..n : got.q[b][8] = e.wave[j] /\ DClose(got.q[b][9], DMul(e.flux[j], DDiv(ex[m].c, "2.0")), "1e-9")
  IN IF ~same THEN {"MACHINERY: replayed other exits"} ELSE
     Clause(\A m \in Due : Match(m) # {}, "an exit sequence is missing")
     \cup Clause(\A m \in 1..Len(ex) : Cardinality(Match(m)) <= 1, "an exit sequence appears twice")
     \cup Clause(Known = 1..Len(e.got), "output for a sequence that leaves elsewhere or not at all")
     \cup Clause(\A m \in Due : \A g \in Match(m) : Good(m, g), "rays of an exit sequence are not those traced along it")
     \cup Clause(\A m \in 1..Len(ex) \ Due : Match(m) = {}, "rays below threshold or vignetted were kept")
     \cup Clause(\A m \in Due : \A g \in Match(m) : FluxOK(m, g), "flux is not the product of the coefficients")
     \cup (IF ~e.bare THEN {} ELSE
           Clause(\A j \in 1..n : LET kept == {<<g, b>> \in UNION {{<<g, b>> : b \in 1..Len(e.got[g].rays.q)} : g \in 1..Len(e.got)} :
                                                 e.got[g].rays.q[b][8] = e.wave[j]} IN
                    IF e.traced.vig[j] \/ DLt(e.flux[j], e.cut) THEN kept = {}
                    ELSE Cardinality(kept) = 1 /\ \A p \in kept : LET x == e.got[p[1]].rays IN
                           e.got[p[1]].rev = e.rev /\ \A c \in 1..9 : DSame(x.q[p[2]][c], e.traced.q[j][c], RTOL),
                  "without reflections split tracing is not tracing"))
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
============================================================================
