------------------------------- MODULE ProjMC -------------------------------
(* The projections on a lattice of fields, walked outwards ring by ring.      *)
EXTENDS Projections, Sequences, TLC
CONSTANTS M
VARIABLES p, a, b, step
vars == <<p, a, b, step>>
U == DDiv(DMul(a, step), 12)
V == DDiv(DMul(b, step), 12)
In(q, x, y) == q # "orthographic" \/ DLt(Rho(x, y), 1)
Init == p \in Names /\ a \in (-M)..M /\ b \in (-M)..M /\ <<a, b>> # <<0, 0>> /\ step = 0
Next == step < 4 /\ In(p, DDiv(DMul(a, step + 1), 12), DDiv(DMul(b, step + 1), 12)) /\ step' = step + 1 /\ UNCHANGED <<p, a, b>>
Spec == Init /\ [][Next]_vars
D == DirCos(p, U, V)
Nr(x, y) == DNear(x, y, "1e-40")
Unit == Nr(DDot(D, D), 1)
Axis == step = 0 => Nr(D[1], 0) /\ Nr(D[2], 0) /\ Nr(D[3], -1)
Azimuth == p # "zemax" => Nr(DMul(D[1], V), DMul(D[2], U)) /\ DGe(DMul(D[1], U), 0) /\ DGe(DMul(D[2], V), 0)
(* the inverse law of each projection, on the downward part of the direction *)
Radial == LET r2 == Rho2(U, V) c == DNeg(D[3]) IN
   CASE p = "gnomonic" -> Nr(DMul(r2, DMul(c, c)), DSub(1, DMul(c, c)))
     [] p = "stereographic" -> Nr(DMul(r2, DAdd(1, c)), DMul(4, DSub(1, c)))
     [] p = "lambert" -> Nr(r2, DMul(2, DSub(1, c)))
     [] p = "orthographic" -> Nr(r2, DSub(1, DMul(c, c)))
     [] p = "postel" -> Nr(c, DCos(Rho(U, V)))
     [] OTHER -> Nr(DMul(DSin(U), c), DMul(D[1], DCos(U))) /\ Nr(DMul(DSin(V), c), DMul(D[2], DCos(V)))
Odd == LET E == DirCos(p, DNeg(U), V) IN Nr(E[1], DNeg(D[1])) /\ Nr(E[2], D[2]) /\ Nr(E[3], D[3])
Outwards == [][DGt(DirCos(p, DDiv(DMul(a, step'), 12), DDiv(DMul(b, step'), 12))[3], DirCos(p, U, V)[3])]_vars
=============================================================================
