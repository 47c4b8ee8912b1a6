------------------------------ MODULE OpticsMC -----------------------------
(***************************************************************************)
(* A reference ray engine over conic surfaces: a ray flies to the surface  *)
(* (roots of the quadratic), then reflects, refracts or crosses a screen.  *)
(* Checked on every behaviour: the laws of Optics accept the engine,       *)
(* reflection is an involution, refraction is reversible, the laws do not  *)
(* depend on the frame, and the laws reject every perturbed outcome.       *)
(***************************************************************************)
EXTENDS Optics, FiniteSets, TLC
Shapes == <<[k |-> "plane"], [k |-> "tilt", tx |-> "0.2", ty |-> "-0.1"], [k |-> "par", R |-> "5"], [k |-> "sph", R |-> "-6"],
  [k |-> "quad", R |-> "6", c |-> "0.5"], [k |-> "quad", R |-> "-5", c |-> "-1"], [k |-> "quad", R |-> "4", c |-> "-2.5"]>>
Pos == {<<"0.5", "0.2", "-3">>, <<"-0.3", "0.8", "2">>, <<"0.1", "-0.2", "-1">>, <<"30", "1", "1">>}
Dir == {<<"0.1", "0.2", "1">>, <<"-0.2", "0.1", "-1">>, <<"0.8", "0", "-1">>, <<"0", "0", "1">>, <<"0.3", "1", "0">>}
Idx == {"1", "1.5"}
VARIABLES sh, ph, ray, prev, op
vars == <<sh, ph, ray, prev, op>>
S == Shapes[sh]
Str(v) == <<DStr(v[1]), DStr(v[2]), DStr(v[3])>>
Ray(p, v, t, f) == [p |-> Str(p), v |-> Str(v), t |-> DStr(t), vig |-> f, fail |-> f]
Init == /\ sh \in 1..Len(Shapes) /\ ph = "far" /\ op = <<"none">>
        /\ \E p \in Pos, d \in Dir, n \in Idx : ray = Ray(p, VScale(DDiv(1, n), Unit(d)), 0, FALSE)
        /\ prev = ray
(* time to the near sheet, or "nan" *)
Time(s, a) ==
  IF s.k = "plane" THEN IF DEq(a.v[3], 0) THEN "nan" ELSE DNeg(DDiv(a.p[3], a.v[3]))
  ELSE IF s.k = "tilt" THEN LET d == DSub(a.v[3], DAdd(DMul(s.tx, a.v[1]), DMul(s.ty, a.v[2]))) IN
       IF DEq(d, 0) THEN "nan" ELSE DNeg(DDiv(Implicit(s, a.p), d))
  ELSE LET q == ConicQ(s)
           A == DAdd(DAdd(Sq(a.v[1]), Sq(a.v[2])), DMul(q, Sq(a.v[3])))
           B == DSub(DAdd(DAdd(DMul(a.v[1], a.p[1]), DMul(a.v[2], a.p[2])), DMul(q, DMul(a.v[3], a.p[3]))), DMul(s.R, a.v[3]))
           C == Implicit(s, a.p)
           D == DSub(Sq(B), DMul(A, C))
       IN  IF DLt(D, 0) THEN "nan"
           ELSE IF DEq(A, 0) THEN DNeg(DDiv(C, DMul(2, B)))
           ELSE LET t1 == DDiv(DSub(DNeg(B), DSqrt(D)), A)
                    t2 == DDiv(DAdd(DNeg(B), DSqrt(D)), A)
                    z(t) == DAbs(DAdd(a.p[3], DMul(t, a.v[3])))
                IN  IF DLe(z(t1), z(t2)) THEN t1 ELSE t2
Dead == [ray EXCEPT !.vig = TRUE, !.fail = TRUE]
N(p) == NormalOf(SG(S, p[1], p[2]))
Fly == /\ ph = "far" /\ prev' = ray /\ UNCHANGED sh /\ op' = <<"int">>
       /\ LET t == Time(S, ray) IN
            IF DIsNan(t) THEN ray' = Dead /\ ph' = "dead"
            ELSE ray' = Ray(VAdd(ray.p, VScale(t, ray.v)), ray.v, DAdd(ray.t, t), FALSE) /\ ph' = "hit"
Bounce == /\ ph \in {"hit", "out"} /\ prev' = ray /\ op' = <<"refl">> /\ UNCHANGED sh
          /\ ph' = (IF ph = "hit" THEN "out" ELSE "end")
          /\ ray' = [ray EXCEPT !.v = Str(Mirrored(ray.v, N(ray.p)))]
Cross == /\ ph = "hit" /\ prev' = ray /\ UNCHANGED sh
         /\ \E n2 \in Idx :
             /\ op' = <<"refr", n2>>
             /\ LET n == N(ray.p)
                    ss == SinSq(ray, n, n2)
                    k == DDiv(1, DMul(n2, Norm(ray.v)))              \* n1/n2
                    T == VScale(k, Tangential(Unit(ray.v), n))
                    c == DSqrt(DSub(1, VDot(T, T)))
                    sgn == IF DLt(VDot(ray.v, n), 0) THEN -1 ELSE 1
                IN  IF DLt(1, ss) THEN ray' = Dead /\ ph' = "dead"
                    ELSE ray' = [ray EXCEPT !.v = Str(VScale(DDiv(1, n2), VAdd(T, VScale(DMul(sgn, c), n))))] /\ ph' = "end"
Scr == [k |-> "par", R |-> "40"]
Screen == /\ ph = "hit" /\ prev' = ray /\ op' = <<"scr">> /\ UNCHANGED sh /\ ph' = "end"
          /\ LET n == N(ray.p)
                 h == SG(Scr, ray.p[1], ray.p[2])
                 d == Unit(ray.v)
                 T == VAdd(Tangential(d, n), Tangential(<<h[2], h[3], 0>>, n))
                 c == DSqrt(DSub(1, VDot(T, T)))
                 sgn == IF DLt(VDot(d, n), 0) THEN -1 ELSE 1
             IN  ray' = IF DIsNan(c) THEN Dead ELSE
                        [ray EXCEPT !.v = Str(VScale(Norm(ray.v), VAdd(T, VScale(DMul(sgn, c), n)))), !.t = DStr(DAdd(ray.t, h[1]))]
Next == Fly \/ Bounce \/ Cross \/ Screen
Spec == Init /\ [][Next]_vars
Far == ph # "dead" /\ ph # "far" /\ IsConic(S) /\ FarSheet(S, ray.p)
Law(b) == CASE op[1] = "none" -> {} [] op[1] = "int" -> IntersectLaw(S, prev, b, ph # "dead" /\ ~Far)
            [] op[1] = "refl" -> ReflectLaw(S, prev, b, ~Far)
            [] op[1] = "refr" -> RefractLaw(S, prev, b, op[2], ~Far)
            [] op[1] = "scr" -> IF ray.fail THEN {} ELSE ScreenLaw(S, Scr, prev, b, TRUE)
Accepted == Law(ray) = {}
Bump(v, c) == [v EXCEPT ![c] = DStr(DAdd(v[c], "1e-6"))]
Rejects == (ph \in {"hit", "out", "end"} /\ ~ray.fail /\ op[1] # "none" /\ ~Far) =>
  /\ \A c \in 1..3 : Law([ray EXCEPT !.p = Bump(ray.p, c)]) # {}
  /\ \A c \in 1..3 : Law([ray EXCEPT !.v = Bump(ray.v, c)]) # {}
  /\ Law([ray EXCEPT !.t = DStr(DAdd(ray.t, "1e-6"))]) # {}
(* reflecting twice restores the ray; refracting the reversed ray retraces it *)
Involution == (ph = "end" /\ op[1] = "refl") =>
   NearV(Mirrored(ray.v, N(ray.p)), prev.v, "1e-15") /\ DNear(Norm(ray.v), Norm(prev.v), "1e-15")
Reversible == (ph = "end" /\ op[1] = "refr") =>
   RefractLaw(S, [ray EXCEPT !.v = Str(VScale(-1, ray.v))], [prev EXCEPT !.v = Str(VScale(-1, prev.v)), !.t = ray.t],
              DDiv(1, Norm(prev.v)), ~Far) = {}
ScreenReversible == (ph = "end" /\ op[1] = "scr" /\ ~ray.fail) =>
   ScreenLaw(S, Scr, [ray EXCEPT !.v = Str(VScale(-1, ray.v))],
             [prev EXCEPT !.v = Str(VScale(-1, prev.v)), !.t = DStr(DAdd(ray.t, SG(Scr, ray.p[1], ray.p[2])[1]))], TRUE) = {}
============================================================================
