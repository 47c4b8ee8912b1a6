------------------------------- MODULE Optics ------------------------------
(***************************************************************************)
(* Laws of one ray at one surface, in the surface's frame.                 *)
(* A ray is [p, v, t, vig, fail]; p, v sequences of three decimals.        *)
(* s is a prepared surface (module Surfaces).  Every law is a set of the   *)
(* clauses that the step from ray a to ray b breaks.                       *)
(***************************************************************************)
EXTENDS Surfaces
INSTANCE Frames WITH Add <- DAdd, Sub <- DSub, Mul <- DMul
Cl(ok, name) == IF ok THEN {} ELSE {name}
LTOL == "1e-9"
Norm(v) == DSqrt(VDot(v, v))
Unit(v) == VScale(DDiv(1, Norm(v)), v)
NearV(a, b, tol) == \A c \in 1..3 : DNear(a[c], b[c], tol)
Fin(v) == \A c \in 1..Len(v) : DIsFin(v[c])
(* size of the numbers involved, at least 1 *)
Scale(a, b) == DMax(1, DAdd(DAbs(DSub(b.t, a.t)), DAdd(DAdd(DAbs(a.p[1]), DAbs(a.p[2])), DAbs(a.p[3]))))
IsConic(s) == s.k \in {"plane", "tilt", "tiltl", "par", "sph", "quad"}
(* implicit equation  x^2 + y^2 + q z^2 - 2 R z = 0  (or a x + b y - z = 0)  of the whole quadric *)
ConicQ(s) == IF s.k = "par" THEN 0 ELSE IF s.k = "sph" THEN 1 ELSE DAdd(1, s.c)
Implicit(s, p) ==
  IF s.k = "plane" THEN p[3]
  ELSE IF s.k \in {"tilt", "tiltl"} THEN DSub(p[3], DAdd(DMul(s.tx, p[1]), DMul(s.ty, p[2])))
  ELSE DSub(DAdd(DAdd(Sq(p[1]), Sq(p[2])), DMul(ConicQ(s), Sq(p[3]))), DMul(DMul(2, s.R), p[3]))
(* the surface is the sheet through the vertex *)
FarSheet(s, p) == s.k \in {"sph", "quad"} /\ DLt(DSub(1, DDiv(DMul(ConicQ(s), p[3]), s.R)), "1e-6")
(* the line misses the surface for certain *)
SurelyMisses(s, a) ==
  IF s.k = "plane" THEN DEq(a.v[3], 0)
  ELSE IF s.k \in {"par", "sph", "quad"} THEN
    LET q == ConicQ(s)
        A == DAdd(DAdd(Sq(a.v[1]), Sq(a.v[2])), DMul(q, Sq(a.v[3])))
        B == DSub(DAdd(DAdd(DMul(a.v[1], a.p[1]), DMul(a.v[2], a.p[2])), DMul(q, DMul(a.v[3], a.p[3]))), DMul(s.R, a.v[3]))
        C == Implicit(s, a.p)
        D == DSub(Sq(B), DMul(A, C))
    IN  DLt(D, DNeg(DMul("1e-6", DAdd(Sq(B), DAbs(DMul(A, C))))))
  ELSE FALSE

(* ---- intersection -------------------------------------------------------- *)
OnSurface(s, p) ==
  IF IsConic(s) /\ FarSheet(s, p)
  THEN DNear(Implicit(s, p), 0, DMul("1e-8", DMax(1, DMul(DAbs(s.R), DAbs(p[3])))))
  ELSE LET g == SG(s, p[1], p[2]) IN DNear(g[1], p[3], DMul(LTOL, DMax(1, DAdd(DAbs(p[3]), DAdd(DAbs(g[2]), DAbs(g[3]))))))
Landing(s, a, b) ==
  LET sc == Scale(a, b)
      dt == DSub(b.t, a.t)
  IN  Cl(Fin(b.p) /\ OnSurface(s, b.p), "the ray is not on the surface")
      \cup Cl(NearV(b.p, VAdd(a.p, VScale(dt, a.v)), DMul(LTOL, sc)), "the ray left its line or its time does not match the distance travelled")
(* a ray whose line meets the sheet through the vertex ends on that sheet *)
Nearer(s, b, aimed) == Cl(~(aimed /\ IsConic(s) /\ FarSheet(s, b.p)), "the ray was taken to the far side of the quadric")
IntersectLaw(s, a, b, aimed) ==
  IF b.fail THEN Cl(~aimed, "a ray that meets the surface failed") \cup Cl(b.vig, "a failed ray is not vignetted")
  ELSE Cl(~SurelyMisses(s, a), "a ray that misses the surface did not fail")
       \cup Landing(s, a, b) \cup Nearer(s, b, aimed) \cup Cl(NearV(a.v, b.v, LTOL), "intersecting changed the velocity")

(* ---- reflection ----------------------------------------------------------- *)
Mirrored(v, n) == VSub(v, VScale(DMul(2, VDot(v, n)), n))
ReflectLaw(s, a, b, aimed) ==
  IF b.fail THEN Cl(~aimed, "a ray that meets the surface failed")
  ELSE Cl(~SurelyMisses(s, a), "a ray that misses the surface did not fail") \cup Landing(s, a, b) \cup Nearer(s, b, aimed)
       \cup (IF IsConic(s) /\ FarSheet(s, b.p) THEN {}
             ELSE Cl(NearV(b.v, Mirrored(a.v, NormalOf(SG(s, b.p[1], b.p[2]))), LTOL), "the velocity is not mirrored about the normal"))

(* ---- refraction ----------------------------------------------------------- *)
(* n2: index behind the surface at the ray's wavelength *)
SinSq(a, n, n2) == LET i == Unit(a.v)
                       c == VCross(i, n)
                   IN  DDiv(VDot(c, c), Sq(DMul(n2, Norm(a.v))))
RefractLaw(s, a, b, n2, aimed) ==
  IF b.fail /\ ~Fin(b.p) THEN Cl(~aimed, "a ray that meets the surface failed") ELSE
  LET g == SG(s, b.p[1], b.p[2])
      n == NormalOf(g)
      far == IsConic(s) /\ FarSheet(s, b.p)
      ss == SinSq(a, n, n2)
      n1 == DDiv(1, Norm(a.v))
      reached == b.t # a.t \/ OnSurface(s, b.p)
  IN  IF b.fail THEN Cl(~aimed \/ DLt("0.999999999", ss), "a ray that meets the surface below the critical angle failed")
                     \cup Cl(b.vig, "a failed ray is not vignetted")
      ELSE Landing(s, a, b) \cup Nearer(s, b, aimed) \cup Cl(~SurelyMisses(s, a), "a ray that misses the surface did not fail") \cup
        IF far THEN {} ELSE
        Cl(DLt(ss, "1.000000001"), "total internal reflection did not fail the ray")
        \cup Cl(Fin(b.v) /\ DNear(DMul(Norm(b.v), n2), 1, LTOL), "the speed is not 1/n")
        \cup Cl(Fin(b.v) /\ NearV(VScale(n1, VCross(Unit(a.v), n)), VScale(n2, VCross(Unit(b.v), n)), "1e-8"), "Snell's law")
        \cup Cl(DLt("0.99999", ss) \/ DGt(DMul(VDot(a.v, n), VDot(b.v, n)), 0), "the refracted ray is on the wrong side")

(* ---- phase screens --------------------------------------------------------- *)
(* f: the prepared screen *)
Tangential(v, n) == VSub(v, VScale(VDot(v, n), n))
ScreenLaw(s, f, a, b, aimed) ==
  IF b.fail THEN Cl(~aimed, "a ray that meets the surface failed")
  ELSE LET h == SG(f, b.p[1], b.p[2])
           n == NormalOf(SG(s, b.p[1], b.p[2]))
           sp == Norm(a.v)
           d == Unit(a.v)
           want == VAdd(Tangential(d, n), Tangential(<<h[2], h[3], 0>>, n))
           e == VScale(DDiv(1, sp), b.v)
       IN  IF (~aimed /\ ~IsConic(f)) \/ (IsConic(s) /\ FarSheet(s, b.p)) \/ DIsNan(h[1]) \/ DLt("0.999", VDot(want, want)) THEN {} ELSE
           Landing(s, a, [b EXCEPT !.t = DSub(b.t, h[1])])
           \cup Cl(Fin(b.v) /\ DNear(Norm(b.v), sp, LTOL), "the screen changed the speed")
           \cup Cl(NearV(Tangential(e, n), want, LTOL), "the direction cosines do not change by the screen's gradient")
           \cup Cl(DGt(DMul(VDot(e, n), VDot(d, n)), 0) \/ DLt(DAbs(VDot(d, n)), "1e-6"), "the ray turned back at the screen")
============================================================================
