----------------------------- MODULE Projections ----------------------------
(* C22: field angle (u, v) to the unit direction of light coming from there;  *)
(* zero field is light travelling straight down.                              *)
EXTENDS Dec
Names == {"postel", "zemax", "gnomonic", "stereographic", "lambert", "orthographic"}
Rho2(u, v) == DAdd(DMul(u, u), DMul(v, v))
Rho(u, v) == DSqrt(Rho2(u, v))
Tan(a) == DDiv(DSin(a), DCos(a))
(* azimuthal projections: transverse = scale * (u, v), downward part = down   *)
Azimuthal(u, v, scale, down) == <<DMul(u, scale), DMul(v, scale), DNeg(down)>>
DirCos(p, u, v) ==
  LET r2 == Rho2(u, v) r == Rho(u, v) IN
  CASE p = "postel" -> Azimuthal(u, v, IF DEq(r, 0) THEN 1 ELSE DDiv(DSin(r), r), DCos(r))                        \* angle = r
    [] p = "gnomonic" -> LET g == DDiv(1, DSqrt(DAdd(1, r2))) IN Azimuthal(u, v, g, g)                             \* tan(angle) = r
    [] p = "stereographic" -> LET q == DAdd(1, DDiv(r2, 4)) IN Azimuthal(u, v, DDiv(1, q), DDiv(DSub(1, DDiv(r2, 4)), q))   \* 2 tan(angle/2) = r
    [] p = "lambert" -> Azimuthal(u, v, DSqrt(DSub(1, DDiv(r2, 4))), DSub(1, DDiv(r2, 2)))                          \* 2 sin(angle/2) = r
    [] p = "orthographic" -> Azimuthal(u, v, 1, DSqrt(DSub(1, r2)))                                                \* sin(angle) = r
    [] OTHER -> LET tu == Tan(u) tv == Tan(v) nn == DSqrt(DAdd(1, DAdd(DMul(tu, tu), DMul(tv, tv)))) IN <<DDiv(tu, nn), DDiv(tv, nn), DDiv(-1, nn)>>
(* what the rounding of direction cosines leaves of a small angle *)
Slack(r) == DAdd("1e-12", IF DLt(r, "1e-8") THEN "2e-8" ELSE DMin("2e-8", DDiv("4e-15", r)))
=============================================================================
