-------------------------------- MODULE Parse -------------------------------
(***************************************************************************)
(* C19: the optic a nested description stands for.  A description is       *)
(*  [t, name, cs, inM, outM, medium, surf, screen, obsc, extras, stop,     *)
(*   items]; every optional part is a sequence, empty when not stated.     *)
(***************************************************************************)
EXTENDS Dec
F == INSTANCE Frames WITH Add <- DAdd, Sub <- DSub, Mul <- DMul
M == INSTANCE Media
Own(given, inherited) == IF Len(given) > 0 THEN given[1] ELSE inherited
Vac == [k |-> "const", p |-> <<"1.0">>]

(* ---- frames: the listed steps in their order, each in the frame reached so far *)
RotX(a) == <<<<1, 0, 0>>, <<0, DCos(a), DNeg(DSin(a))>>, <<0, DSin(a), DCos(a)>>>>
RotY(a) == <<<<DCos(a), 0, DSin(a)>>, <<0, 1, 0>>, <<DNeg(DSin(a)), 0, DCos(a)>>>>
RotZ(a) == <<<<DCos(a), DNeg(DSin(a)), 0>>, <<DSin(a), DCos(a), 0>>, <<0, 0, 1>>>>
Turned(f, R) == [o |-> f.o, R |-> F!MM(f.R, R)]
Step(f, s) == CASE s.k = "x" -> F!ShiftLocal(f, <<s.v[1], 0, 0>>) [] s.k = "y" -> F!ShiftLocal(f, <<0, s.v[1], 0>>) [] s.k = "z" -> F!ShiftLocal(f, <<0, 0, s.v[1]>>)
                [] s.k = "shift" -> F!ShiftLocal(f, s.v) [] s.k = "rotX" -> Turned(f, RotX(s.v[1])) [] s.k = "rotY" -> Turned(f, RotY(s.v[1]))
                [] s.k = "rotZ" -> Turned(f, RotZ(s.v[1])) [] s.k = "turn" -> Turned(f, s.v) [] OTHER -> f
RECURSIVE Enter(_, _)
Enter(f, steps) == IF steps = <<>> THEN f ELSE Enter(Step(f, Head(steps)), Tail(steps))

(* ---- what an item hands to the items inside it ------------------------- *)
(* env: frame, medium in, medium out (none: same as in) *)
Root == [f |-> F!Global, in |-> Vac, out |-> <<>>]
Here(d, env) == LET i == Own(d.inM, env.in) IN [f |-> Enter(env.f, d.cs), in |-> i, out |-> <<Own(d.outM, IF Len(env.out) > 0 THEN env.out[1] ELSE i)>>]
Inside(d, h, j) == IF d.t # "Lens" THEN h
                   ELSE IF j = 1 THEN [h EXCEPT !.out = d.medium] ELSE [h EXCEPT !.in = d.medium[1]]
=============================================================================
