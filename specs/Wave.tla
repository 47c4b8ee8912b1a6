-------------------------------- MODULE Wave --------------------------------
(***************************************************************************)
(* C21: every ray carries one plane wave.  A ray here is                   *)
(* <<x, y, z, vx, vy, vz, t>>; the number system is a parameter.           *)
(***************************************************************************)
EXTENDS Frames
P(q) == SubSeq(q, 1, 3)
V(q) == SubSeq(q, 4, 6)
At(q, t) == VAdd(P(q), VScale(Sub(t, q[7]), V(q)))                    \* where the ray is at time t
Propagated(q, t) == At(q, t) \o V(q) \o <<t>>
Reframed(q, a, b) == Xform(a, b, P(q)) \o DXform(a, b, V(q)) \o <<q[7]>>
Speed2(q) == VDot(V(q), V(q))
(* the phase is Turns * omega / Speed2; omega = 2 pi / wavelength, so k = omega v / Speed2 and |k| = n omega *)
Turns(q, r, t) == Sub(VDot(VSub(r, P(q)), V(q)), Mul(Sub(t, q[7]), Speed2(q)))
=============================================================================
