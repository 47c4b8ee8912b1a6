---------------------------- MODULE ReverseTrace ---------------------------
(* C26: recorded reversals and motions of real systems against Reverse.    *)
EXTENDS Rays, TLC, Json, IOUtils
DSameTol(a, b) == DClose(a, b, "1e-7")
INSTANCE Reverse WITH Add <- DAdd, Sub <- DSub, Mul <- DMul, Same <- DSameTol
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
Cl(ok, name) == IF ok THEN {} ELSE {name}
Ray(b, j) == LET q == b.q[j] IN [p |-> <<q[1], q[2], q[3]>>, v |-> <<q[4], q[5], q[6]>>, t |-> q[7]]
Glob(b, j) == MovedRay(F!Global, b.cs, Ray(b, j))
(* e.first: rays sent in;  e.out: after the system; e.turned: what was sent back; e.back: what came back *)
BackFail(e) ==
  LET n == Len(e.first.q)
      live == {j \in 1..n : ~e.out.fail[j]}
  IN Cl(Len(e.back.q) = n /\ \A j \in live : ~e.back.fail[j], "a ray that passed is lost when sent back")
     \cup Cl(\A j \in live : e.back.fail[j] \/ Along(Turned(Glob(e.first, j)), Glob(e.back, j)), "a ray sent back does not leave along the line it came by")
     \cup Cl(\A j \in live : e.back.fail[j] \/ InStep(Turned(Glob(e.first, j)), Glob(e.back, j)), "a ray sent back takes another time")
     \cup Cl(\A j \in live : e.back.vig[j] = e.out.vig[j], "a ray sent back is vignetted elsewhere")
     \cup Cl(\A j \in live : DSame(e.back.q[j][8], e.first.q[j][8], 0) /\ DSame(e.back.q[j][9], e.first.q[j][9], RTOL), "wavelength or flux changed on the way back")
(* moved system, moved rays: the same numbers in the moved frames *)
MoveFail(e) ==
  Cl(Len(e.moved.q) = Len(e.out.q) /\ e.moved.vig = e.out.vig /\ e.moved.fail = e.out.fail, "a moved system loses other rays")
  \cup Cl(\A j \in 1..Len(e.out.q) : e.out.fail[j] \/ \A c \in 1..9 : DSame(e.moved.q[j][c], e.out.q[j][c], "1e-7"), "a moved system treats moved rays differently")
  \cup Cl(\A j \in 1..Len(e.out.q) : e.out.fail[j] \/
          LET a == MovedRay(e.from, e.to, Glob(e.out, j)) b == Glob(e.moved, j) IN \A c \in 1..3 : DClose(a.p[c], b.p[c], "1e-7") /\ DClose(a.v[c], b.v[c], "1e-7"),
          "rays from a moved system are not the moved rays")
Fail(e) == IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  CASE e.k = "back" -> BackFail(e) [] e.k = "move" -> MoveFail(e)
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
============================================================================
