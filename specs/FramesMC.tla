----------------------------- MODULE FramesMC -----------------------------
(* Exhaustive check of the frame algebra over the rotation group of the    *)
(* cube and integer shifts.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
IAdd(a, b) == a + b
ISub(a, b) == a - b
IMul(a, b) == a * b
INSTANCE Frames WITH Add <- IAdd, Sub <- ISub, Mul <- IMul
CONSTANTS Bound

RX == <<<<1, 0, 0>>, <<0, 0, -1>>, <<0, 1, 0>>>>
RY == <<<<0, 0, 1>>, <<0, 1, 0>>, <<-1, 0, 0>>>>
RZ == <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
Gens == {RX, RY, RZ}
Shifts == {<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 1>>}
Centres == {Zero3, <<1, 0, 0>>, <<0, 1, -1>>}
Refs == {Global, [o |-> <<1, 0, 0>>, R |-> RZ], [o |-> <<0, -1, 1>>, R |-> MM(RX, RY)]}
Points == {Zero3, <<1, 2, 3>>, <<-1, 0, 2>>}

VARIABLES f, ref
Init == f = Global /\ ref \in Refs
Bounded(g) == \A k \in 1..3 : g.o[k] \in -Bound..Bound
Next == /\ ref' = ref
        /\ \/ \E d \in Shifts : f' = ShiftGlobal(f, d) \/ f' = ShiftLocal(f, d)
           \/ \E R \in Gens, c \in Centres, g \in {Global, f, ref} :
                f' = RotateGlobal(f, R, c, g) \/ f' = RotateLocal(f, R, c, g)
        /\ Bounded(f')

Rigid == MM(f.R, Tr(f.R)) = Id3 /\ Det(f.R) = 1
Inverse == \A p \in Points : /\ ToLocal(f, ToGlobal(f, p)) = p
                             /\ ToGlobal(f, ToLocal(f, p)) = p
                             /\ Xform(f, f, p) = p
                             /\ Xform(ref, f, Xform(f, ref, p)) = p
Chain == \A p \in Points, m \in Refs : Xform(m, ref, Xform(f, m, p)) = Xform(f, ref, p)
Dist2(p, q) == VDot(VSub(p, q), VSub(p, q))
Isometry == \A p, q \in Points : Dist2(Xform(f, ref, p), Xform(f, ref, q)) = Dist2(p, q)
(* a rotation keeps its centre fixed: the moved frame assigns it the same coordinates *)
CentreFixed == \A R \in Gens, c \in Centres, g \in {Global, f, ref} :
   LET C == ToGlobal(g, c) IN
     /\ ToLocal(RotateGlobal(f, R, c, g), C) = ToLocal(f, C)
     /\ ToLocal(RotateLocal(f, R, c, g), C) = ToLocal(f, C)
(* the described rigid motion acts on every attached point *)
LocalVsGlobal == \A R \in Gens, c \in Centres :
   /\ RotateLocal(f, R, c, f).R = MM(f.R, R)
   /\ RotateGlobal(f, R, c, Global).R = MM(R, f.R)
   /\ \A p \in Points :
        LET n == RotateGlobal(f, R, c, ref) C == ToGlobal(ref, c) IN
          ToGlobal(n, p) = VAdd(MV(R, VSub(ToGlobal(f, p), C)), C)
ShiftLaw == \A d \in Shifts, p \in Points :
   /\ ToGlobal(ShiftGlobal(f, d), p) = VAdd(ToGlobal(f, p), d)
   /\ ToLocal(f, ToGlobal(ShiftLocal(f, d), p)) = VAdd(p, d)
Undo == \A d \in Shifts, R \in Gens, c \in Centres :
   /\ ShiftGlobal(ShiftGlobal(f, d), VSub(Zero3, d)) = f
   /\ ShiftLocal(ShiftLocal(f, d), VSub(Zero3, d)) = f
   /\ RotateGlobal(RotateGlobal(f, R, c, ref), Tr(R), c, ref) = f
   /\ RotateLocal(RotateLocal(f, R, c, ref), Tr(R), c, ref) = f
==========================================================================
