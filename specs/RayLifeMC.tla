----------------------------- MODULE RayLifeMC -----------------------------
(* All behaviours of a ray under an interaction engine, step by step.      *)
EXTENDS Integers, TLC
CONSTANTS MaxT
Same(a, b) == a = b
Scaled(x, c, y) == y = x * c
INSTANCE RayLife
VARIABLES vig, fail, t, flux, last
ray == [vig |-> vig, fail |-> fail, t |-> t, flux |-> flux, w |-> 5]
vars == <<vig, fail, t, flux, last>>
Init == vig \in BOOLEAN /\ fail \in BOOLEAN /\ t = 0 /\ flux \in {1, 2} /\ last = <<>>
Note(op, c) == last' = <<op, ray, [vig |-> vig', fail |-> fail', t |-> t', flux |-> flux', w |-> 5], c>>
Hit(op, c) == ~fail /\ t < MaxT /\ t' \in {t, t + 1} /\ flux' = flux * c /\ UNCHANGED <<vig, fail>> /\ Note(op, c)
Miss(op) == ~fail /\ fail' = TRUE /\ vig' = TRUE /\ UNCHANGED <<t, flux>> /\ Note(op, 0)
TIR(op, c) == ~fail /\ fail' = TRUE /\ vig' = TRUE /\ t < MaxT /\ t' = t + 1 /\ flux' = flux * c /\ Note(op, c)
Dead(op, c) == fail /\ UNCHANGED <<vig, fail, t, flux>> /\ Note(op, c)
Interact == \E op \in Interactions, c \in {0, 1} : Hit(op, c) \/ Miss(op) \/ Dead(op, c) \/ (op \in {"refr", "split"} /\ TIR(op, c))
Obscure == /\ vig' \in (IF vig THEN {TRUE} ELSE BOOLEAN) /\ UNCHANGED <<fail, t, flux>> /\ Note("obsc", 1)
Propagate == t < MaxT /\ t' = t + 1 /\ UNCHANGED <<vig, fail, flux>> /\ Note("prop", 1)
Frame == UNCHANGED <<vig, fail, t, flux>> /\ \E op \in {"frame", "read"} : Note(op, 1)
Next == Interact \/ Obscure \/ Propagate \/ Frame
(* the judge accepts every step of the engine ... *)
Accepted == last # <<>> => Violations(last[1], last[2], last[3], last[4]) = {}
(* ... and the laws are consequences over whole lives *)
FlagsRise == [][(vig => vig') /\ (fail => fail')]_vars
FailedIsVignetted == [][(fail' /\ ~fail) => vig']_vars
Spec == Init /\ [][Next]_vars
(* the judge refuses every forbidden step *)
Rays == [vig : BOOLEAN, fail : BOOLEAN, t : {0, 1}, flux : {1, 2}, w : {5, 6}]
Refuses == \A a, b \in Rays : \A op \in Interactions \cup {"obsc", "prop", "frame", "read", "trace"} :
   ((a.vig /\ ~b.vig) \/ (a.fail /\ ~b.fail) \/ (b.fail /\ ~a.fail /\ ~b.vig) \/ a.w # b.w
     \/ (a.fail /\ op \notin {"prop", "frame", "read"} /\ (a.t # b.t \/ a.flux # b.flux))) => Violations(op, a, b, 1) # {}
ASSUME Refuses
============================================================================
