----------------------------- MODULE OpticsTrace ---------------------------
(* C06, C07, C08, C24: recorded encounters against the laws of Optics.      *)
EXTENDS Optics, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
RayIn(f, b, j) == [p |-> Xform(b.cs, f, SubSeq(b.q[j], 1, 3)), v |-> DXform(b.cs, f, SubSeq(b.q[j], 4, 6)),
                   t |-> b.q[j][7], vig |-> b.vig[j], fail |-> b.fail[j]]
(* lengths are measured in units of e.u, so that tolerances are relative to the system *)
InUnits(r, u) == [r EXCEPT !.p = VScale(u, r.p), !.t = DMul(u, r.t)]
(* is the ray certain to meet the surface?  the driver names the point, which is checked here *)
Meets(p, e, a, j) ==
  e.aim[j] # <<>> /\
  LET q == e.aim[j][1] IN
     /\ DNear(SG(p, q[1], q[2])[1], q[3], "1e-9")
     /\ LET c == VCross(VSub(q, a.p), Unit(a.v)) IN DLt(VDot(c, c), "1e-18")
Conserved(e, j) ==
  Cl(DSame(e.b.q[j][8], e.a.q[j][8], 0), "the wavelength changed")
  \cup Cl(e.b.fail[j] \/ DSame(e.b.q[j][9], DMul(e.a.q[j][9], e.flux), "1e-12"), "the flux is not that of the coating")
  \cup Cl(e.b.fail[j] \/ e.b.vig[j] = e.a.vig[j], "a ray that did not fail changed its vignetting")
Step(p, f, e, j) ==
  IF e.a.fail[j] THEN {} ELSE
  UNION {UNION {
     LET aim == Meets(p, e, a, j) IN
     CASE e.k = "int" -> IntersectLaw(p, a, b, aim)
       [] e.k = "refl" -> ReflectLaw(p, a, b, aim)
       [] e.k = "refr" -> RefractLaw(p, a, b, e.n2[j], aim)
       [] e.k = "scr" -> ScreenLaw(p, f, a, b, aim)
     : b \in {RayIn(e.f, e.b, j)}} : a \in {RayIn(e.f, e.a, j)}} \cup Conserved(e, j)
(* the outgoing line meets the surface a second time, and that point was taken *)
Elsewhere(p, b, c) == ~NearV(c.p, b.p, "1e-6") /\ OnSurface(p, c.p)
(* second run: again = "same" (idempotence), "restore" (involution, reversal) or "" *)
Again(p, e, j) ==
  IF e.again = "" \/ e.a.fail[j] \/ e.b.fail[j] \/ (e.aim[j] = <<>> /\ ~IsConic(p)) THEN {} ELSE
  LET a == RayIn(e.f, e.a, j) b == RayIn(e.f, e.b, j) c == RayIn(e.f, e.c, j)
      sc == DMax(1, Norm(b.p))
  IN  IF IsConic(p) /\ FarSheet(p, b.p) THEN {}
      ELSE IF e.again = "same" THEN
        Cl(~c.fail /\ NearV(b.p, c.p, DMul(LTOL, sc)) /\ NearV(b.v, c.v, LTOL) /\ DNear(b.t, c.t, DMul(LTOL, sc)), "intersecting again moved the ray")
      ELSE IF e.again = "mirror" THEN
        Cl(~c.fail /\ (Elsewhere(p, b, c) \/ (NearV(c.v, a.v, LTOL) /\ DNear(b.t, c.t, DMul(LTOL, sc)))), "reflecting twice does not restore the ray")
      ELSE IF DLt("0.9999", SinSq(a, NormalOf(SG(p, b.p[1], b.p[2])), e.n2[j])) THEN {} ELSE
        Cl(~c.fail /\ (Elsewhere(p, b, c) \/ NearV(Unit(c.v), VScale(-1, Unit(a.v)), "1e-7")), "refracting back does not restore the direction")
(* where along its line a ray begins does not matter, on the surfaces solved in closed form *)
AnyStart(p, e, j) ==
  IF e.k # "int" \/ ~IsConic(p) \/ e.a.fail[j] \/ e.b.fail[j] THEN {} ELSE
  LET b == RayIn(e.f, e.b, j) d == RayIn(e.f, e.d, j) u == Unit(b.v)
      tie == DLt(DAbs(u[3]), "1e-4") \/ (~NearV(b.p, d.p, "1e-6") /\ DNear(DAbs(b.p[3]), DAbs(d.p[3]), "1e-6"))
      sc == DAdd(Scale(b, RayIn(e.f, e.a, j)), IF p.k \in {"par", "sph", "quad"} THEN DAbs(p.R) ELSE 0)
  IN  IF FarSheet(p, b.p) \/ DLt(DAbs(VDot(u, NormalOf(SG(p, b.p[1], b.p[2])))), "0.05") \/ (~d.fail /\ tie) THEN {} ELSE
      Cl(~d.fail /\ NearV(b.p, d.p, DMul("1e-7", sc)) /\ DNear(b.t, d.t, DMul("1e-7", DMul(2, sc))), "the same line begun elsewhere meets the surface elsewhere")
Judge(p, f, e) == UNION {Step(p, f, e, j) \cup Again(p, e, j) \cup AnyStart(p, e, j) : j \in 1..Len(e.a.q)}
(* known finding: a tilted plane has the normal that test_Tilted::test_normal asserts *)
Legacy(p) == [p EXCEPT !.k = "tiltl"]
Excuse(p, f, e, bad) ==
  IF bad # {} /\ p.k = "tilt" /\ Judge(Legacy(p), f, e) = {}
  THEN {"tilted plane: the normal is (-tx, -ty, sqrt(1-tx^2-ty^2))"} ELSE bad
Fail(e) ==
  IF e.exc # "" THEN {"exception: " \o e.exc}
  ELSE IF Len(e.a.q) # Len(e.b.q) THEN {"rays lost or gained"} ELSE
  UNION {UNION {Excuse(p, f, e, Judge(p, f, e))
         : f \in {Prepared(e.scr)}} : p \in {Prepared(e.s)}}
  \cup UNION {Cl(FALSE, m) : m \in {e.meta[j] : j \in 1..Len(e.meta)}}
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
============================================================================
