------------------------------ MODULE WaveTrace -----------------------------
(* C21: positions, phases and amplitudes of real rays.                        *)
EXTENDS Rays, TLC, Json, IOUtils
INSTANCE Wave WITH Add <- DAdd, Sub <- DSub, Mul <- DMul
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
Cl(ok, name) == IF ok THEN {} ELSE {name}
EPS == "2e-15"                                                        \* some units in the last place of a double
Q(b, j) == SubSeq(b.q[j], 1, 7)
Omega(b, j) == DDiv(DMul(2, DPi), b.q[j][8])
Mag(v) == DSumSeq([c \in 1..Len(v) |-> DAbs(v[c])])
(* how far rounding may take a phase: relative to the terms it is the difference of *)
Slack(q, r, t) == DMul(EPS, DAdd(DDiv(DMul(DAdd(Mag(r), Mag(P(q))), Mag(V(q))), Speed2(q)), DAdd(DAbs(t), DAbs(q[7]))))
Phase(b, j, r, t) == DMul(DDiv(Turns(Q(b, j), r, t), Speed2(Q(b, j))), Omega(b, j))
Err(b, j, r, t) == DMul(Slack(Q(b, j), r, t), Omega(b, j))
Fine(b, j) == \A c \in 1..7 : DIsFin(b.q[j][c])
KeepsRest(b, c, j) == b.vig[j] = c.vig[j] /\ b.fail[j] = c.fail[j] /\ DEq(b.q[j][8], c.q[j][8]) /\ DEq(b.q[j][9], c.q[j][9])
NearSeq(u, v, tol) == \A c \in 1..Len(u) : DLe(DAbs(DSub(u[c], v[c])), tol)
(* ---- one operation ---- *)
StepFail(s) ==
  LET a == s.a b == s.b IN
  IF s.op = "read" THEN Cl(a = b, "asking changed the rays") ELSE
  IF Len(a.q) # Len(b.q) THEN {"rays lost or gained"} ELSE
  UNION {Cl(KeepsRest(a, b, j), "an operation changed flags, flux or wavelength")
    \cup (IF s.op = "prop" THEN
            Cl(DEq(b.q[j][7], s.t), "a propagated ray has another time")
            \cup Cl(V(b.q[j]) = V(a.q[j]), "propagation changed a velocity")
            \cup Cl(~Fine(a, j) \/ NearSeq(At(Q(a, j), s.t), P(b.q[j]), DMul(EPS, DAdd(Mag(P(a.q[j])), DMul(DAdd(DAbs(s.t), DAbs(a.q[j][7])), Mag(V(a.q[j])))))),
                    "a propagated ray is not on its line")
            \cup Cl(a.cs = b.cs, "propagation changed the frame")
          ELSE IF s.op = "frame" THEN
            Cl(b.cs = s.cs, "the rays are in another frame") \cup
            Cl(DEq(a.q[j][7], b.q[j][7]), "a change of frame changed a time")
            \cup Cl(~Fine(a, j) \/ a.fail[j] \/ (LET x == Reframed(Q(a, j), a.cs, b.cs) IN
                    NearSeq(P(x), P(b.q[j]), DMul("1e-14", DSumSeq(<<Mag(P(a.q[j])), Mag(a.cs.o), Mag(b.cs.o), "1e-300">>))) /\ NearSeq(V(x), V(b.q[j]), DMul("1e-14", Mag(V(a.q[j]))))),
                    "a change of frame moved a ray")
          ELSE Cl(a = b, "a copy differs")) : j \in 1..Len(a.q)}
(* ---- one question, about the rays b; a is the bundle the history began with ---- *)
(* every state passed through adds its own rounding *)
PhaseOK(e, b, j, r, t, x) ==
  Fine(b, j) => DLe(DAbs(DSub(x, Phase(b, j, r, t))), Err(b, j, r, t))
HistOK(e, b, j, r, t, x) ==
  LET a == e.a0 r0 == Xform(b.cs, a.cs, r) IN
  (Fine(a, j) /\ Fine(b, j) /\ ~a.fail[j]) =>
     DLe(DAbs(DSub(x, Phase(a, j, r0, t))),
         DMul(DMul(20, DSumSeq([h \in 1..Len(e.ev) |-> Slack(Q(e.ev[h].b, j), Xform(b.cs, e.ev[h].b.cs, r), t)] \o <<Slack(Q(a, j), r0, t), DMul(EPS, DSumSeq([h \in 1..Len(e.ev) |-> Mag(e.ev[h].b.cs.o)] \o <<Mag(a.cs.o)>>))>>)), Omega(a, j)))
Counted(b, j, ign) == ~b.fail[j] /\ ~(ign /\ b.vig[j])
AmpOK(e, b, j, r, t, z) == Fine(b, j) =>
  LET p == Phase(b, j, r, t) tol == DAdd("1e-15", Err(b, j, r, t)) IN
  DLe(DAbs(DSub(z[1], DCos(p))), tol) /\ DLe(DAbs(DSub(z[2], DSin(p))), tol)
Flux(b, j) == b.q[j][9]
SumOK(b, r, t, ign, z) ==
  LET S == {j \in 1..Len(b.q) : Counted(b, j, ign)}
      f(j) == IF j \in S THEN Flux(b, j) ELSE 0
      p == [j \in 1..Len(b.q) |-> IF j \in S THEN DStr(Phase(b, j, r, t)) ELSE "0"]
      tol == DAdd("1e-300", DSumSeq([j \in 1..Len(b.q) |-> IF j \in S THEN DMul(DAbs(Flux(b, j)), DAdd("1e-14", Err(b, j, r, t))) ELSE 0]))
  IN  (\A j \in S : Fine(b, j)) =>
      /\ DLe(DAbs(DSub(z[1], DSumSeq([j \in 1..Len(b.q) |-> IF j \in S THEN DMul(Flux(b, j), DCos(p[j])) ELSE 0]))), tol)
      /\ DLe(DAbs(DSub(z[2], DSumSeq([j \in 1..Len(b.q) |-> IF j \in S THEN DMul(Flux(b, j), DSin(p[j])) ELSE 0]))), tol)
AskFail(e, b, q) ==
  LET n == Len(b.q) IN
  CASE q.what = "phase" -> Cl(Len(q.out) = n /\ \A j \in 1..n : PhaseOK(e, b, j, q.r, q.t, q.out[j]), "phase")
                           \cup Cl(~e.whole \/ \A j \in 1..n : HistOK(e, b, j, q.r, q.t, q.out[j]), "phase changed along the history")
    [] q.what = "amp" -> Cl(Len(q.out) = n /\ \A j \in 1..n : AmpOK(e, b, j, q.r, q.t, q.out[j]), "amplitude")
    [] q.what = "sum" -> Cl(SumOK(b, q.r, q.t, q.ign, q.out), "summed amplitude")
    [] OTHER -> Cl(Len(q.out) = n /\ \A j \in 1..n : Fine(b, j) => NearSeq(At(Q(b, j), q.t), q.out[j], DMul(EPS, DAdd(Mag(P(b.q[j])), DMul(DAdd(DAbs(q.t), DAbs(b.q[j][7])), Mag(V(b.q[j])))))), "position at a time")
(* wave vectors as the rays report them *)
KFail(b, k) ==
  UNION {IF ~Fine(b, j) THEN {} ELSE
         Cl(NearSeq([c \in 1..3 |-> DDiv(DMul(Omega(b, j), b.q[j][3 + c]), Speed2(Q(b, j)))], k.k[j], DMul("1e-14", DDiv(DMul(Omega(b, j), Mag(V(b.q[j]))), Speed2(Q(b, j))))), "wave vector")
         \cup Cl(DClose(Omega(b, j), k.omega[j], "1e-15"), "angular frequency") \cup Cl(k.kc[j] = k.k[j], "kx, ky, kz are not the components of k")
         \cup Cl(k.v[j] = V(b.q[j]) /\ k.r[j] = P(b.q[j]), "r or v are not the components") : j \in 1..Len(b.q)}
Fail(e) == IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  UNION {StepFail(e.ev[j]) : j \in 1..Len(e.ev)} \cup UNION {AskFail(e, e.b, e.ask[j]) : j \in 1..Len(e.ask)} \cup KFail(e.b, e.k)
  \cup Cl(e.b = e.after, "asking changed the rays")
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
=============================================================================
