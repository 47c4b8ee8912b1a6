----------------------------- MODULE MediaTrace -----------------------------
(* C17: logged evaluations against the defining formulas.                     *)
EXTENDS Media, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
Cl(ok, name) == IF ok THEN {} ELSE {name}
AskFail(m, a) ==
  Cl(a.shapeout = a.shapein /\ Len(a.out) = Len(a.lam), "an array of wavelengths gives indices of another shape")
  \cup Cl(a.kept, "evaluation changed the wavelengths it was given")
  \cup Cl(Len(a.out) # Len(a.lam) \/ \A j \in 1..Len(a.lam) : DSame(a.out[j], Index(m, a.lam[j]), "1e-13"), m.k \o ": the index is not that of the defining formula")
Fail(e) == IF e.exc # "" THEN {"exception: " \o e.exc} ELSE UNION {AskFail(e.m, e.ask[j]) : j \in 1..Len(e.ask)}
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
=============================================================================
