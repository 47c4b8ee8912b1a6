------------------------------- MODULE Rays --------------------------------
(* Bundles of rays as logged by the drivers: q = sequence of               *)
(* <<x,y,z,vx,vy,vz,t,wavelength,flux>>, vig, fail, and the frame cs.       *)
EXTENDS Dec
RTOL == "1e-8"
SameFrame(f, g) == DSameSeq(f.o, g.o, RTOL) /\ \A a \in 1..3 : DSameSeq(f.R[a], g.R[a], RTOL)
(* a failed ray has no position or direction, but keeps time, wavelength, flux *)
SameRay(a, b, j) ==
  /\ a.vig[j] = b.vig[j] /\ a.fail[j] = b.fail[j]
  /\ DSame(a.q[j][8], b.q[j][8], 0) /\ DSame(a.q[j][9], b.q[j][9], RTOL) /\ DSame(a.q[j][7], b.q[j][7], RTOL)
  /\ a.fail[j] \/ \A c \in 1..6 : DSame(a.q[j][c], b.q[j][c], RTOL)
SameRays(a, b) == Len(a.q) = Len(b.q) /\ \A j \in 1..Len(a.q) : SameRay(a, b, j)
SameBundle(a, b) == SameRays(a, b) /\ SameFrame(a.cs, b.cs)
(* nothing at all differs *)
Identical(a, b) == a = b
============================================================================
