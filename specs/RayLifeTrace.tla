---------------------------- MODULE RayLifeTrace ---------------------------
(* Judges recorded lives of real rays, step by step, against RayLife.      *)
EXTENDS Rays, TLC, Json, IOUtils
Same0(a, b) == DSame(a, b, "1e-13")
Scaled0(x, c, y) == DSame(DMul(x, c), y, "1e-13")
INSTANCE RayLife WITH Same <- Same0, Scaled <- Scaled0
INSTANCE Frames WITH Add <- DAdd, Sub <- DSub, Mul <- DMul
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
Ray(b, j) == [vig |-> b.vig[j], fail |-> b.fail[j], t |-> b.q[j][7], flux |-> b.q[j][9], w |-> b.q[j][8]]
Pos(b, j) == SubSeq(b.q[j], 1, 3)
(* a failed ray is not moved: same coordinates, in the old or the new frame *)
Still(a, b, j) ==
  \/ DSameSeq(Pos(a, j), Pos(b, j), RTOL)
  \/ DSameSeq(Xform(a.cs, b.cs, Pos(a, j)), Pos(b, j), RTOL)
StepFail(op, a, b, c) ==
  IF Len(a.q) # Len(b.q) THEN {"rays lost or gained"} ELSE
  UNION {Violations(op, Ray(a, j), Ray(b, j), c)
         \cup (IF a.fail[j] /\ op # "prop" /\ ~Still(a, b, j) THEN {"a failed ray was moved"} ELSE {}) : j \in 1..Len(a.q)}
Fail(e) == UNION {IF e.ev[j].exc # "" THEN {"exception: " \o e.ev[j].exc}
                  ELSE StepFail(e.ev[j].op, e.ev[j].a, e.ev[j].b, e.ev[j].c) : j \in 1..Len(e.ev)}
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
============================================================================
