------------------------------ MODULE RayLife ------------------------------
(***************************************************************************)
(* The life of one ray: its flags, clock and flux under every operation.   *)
(* A ray is [vig, fail, t, flux, w]; w its wavelength.                     *)
(* Allowed(op, a, b, c): the operation op may take a ray from a to b,      *)
(* where c is the coefficient of the coating it applies ("1" without).     *)
(***************************************************************************)
CONSTANTS Same(_, _),        \* equality of numbers
          Scaled(_, _, _)    \* Scaled(x, c, y): y is x times c
Interactions == {"int", "refl", "refr", "split", "screen"}
Rises(a, b) == (a.vig => b.vig) /\ (a.fail => b.fail)
Inert(a, b) == Same(a.t, b.t) /\ Same(a.flux, b.flux)
Keeps(a, b) == a.vig = b.vig /\ a.fail = b.fail /\ Same(a.flux, b.flux)
Violations(op, a, b, c) ==
  (IF Rises(a, b) THEN {} ELSE {"a flag was lowered"})
  \cup (IF b.fail /\ ~a.fail => b.vig THEN {} ELSE {"a ray failed without being vignetted"})
  \cup (IF Same(a.w, b.w) THEN {} ELSE {"a wavelength changed"})
  \cup (IF op \in {"prop", "frame", "read"} THEN
          IF Keeps(a, b) THEN {} ELSE {"flags or flux changed by a frame change, propagation or read"}
        ELSE IF a.fail THEN IF Inert(a, b) THEN {} ELSE {"time or flux of a failed ray changed"}
        ELSE IF op \in Interactions THEN
          (IF b.vig /\ ~a.vig => b.fail THEN {} ELSE {"an interaction vignetted a ray that did not fail"})
          \cup (IF Scaled(a.flux, c, b.flux) \/ (b.fail /\ Same(a.flux, b.flux)) THEN {} ELSE {"flux is not scaled by the coating"})
        ELSE IF op = "obsc" THEN
          (IF a.fail = b.fail /\ Inert(a, b) THEN {} ELSE {"obscuring changed more than the vignetting flag"})
        ELSE \* tracing whole systems applies no coating
          (IF Same(a.flux, b.flux) THEN {} ELSE {"tracing changed a flux"}))
============================================================================
