------------------------------ MODULE ProjTrace -----------------------------
(* C22: logged projections of fields and directions against the definitions.  *)
EXTENDS Projections, Sequences, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
Cl(ok, name) == IF ok THEN {} ELSE {name}
(* one point: u v, the direction d given for it, the field back of d; and a direction g, the field h given for it, and the direction back k *)
PointFail(p, q) ==
  LET r == Rho(q.u[1], q.u[2]) t == Slack(r)
      want == DirCos(p, q.u[1], q.u[2])
      s == DSqrt(DAdd(DMul(q.g[1], q.g[1]), DMul(q.g[2], q.g[2]))) ts == DMul(Slack(s), q.cond)
      back == DirCos(p, q.h[1], q.h[2])
  IN  Cl(\A j \in 1..3 : DNear(q.d[j], want[j], t), p \o ": a field does not give its direction")
      \cup Cl(DNear(DDot(q.d, q.d), 1, "1e-12"), p \o ": a direction is not a unit vector")
      \cup Cl(\A j \in 1..2 : DNear(q.w[j], q.u[j], DMul(t, q.cond)), p \o ": the field of the direction of a field is another field")
      \cup Cl(\A j \in 1..3 : DNear(back[j], q.g[j], ts), p \o ": a direction does not give the field it comes from")
      \cup Cl(\A j \in 1..3 : DNear(q.k[j], q.g[j], ts), p \o ": the direction of the field of a direction is another direction")
Fail(e) == IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  Cl(e.kept, "an input array was changed")
  \cup Cl(\A j \in 1..Len(e.shapes) : e.shapes[j] = e.shape, "the result has another shape than the input")
  \cup Cl(e.scalars, "scalar and array calls disagree")
  \cup Cl(e.many, "a field among thousands of others has another direction")
  \cup Cl(e.bad = "ValueError", "an unknown projection is not an error")
  \cup (IF \A j \in 1..Len(e.shapes) : e.shapes[j] = e.shape THEN UNION {PointFail(e.p, e.pts[j]) : j \in 1..Len(e.pts)} ELSE {})
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
=============================================================================
