------------------------------ MODULE Frames ------------------------------
(***************************************************************************)
(* Rigid frames: a frame is [o |-> origin, R |-> rotation] in global       *)
(* coordinates.  The number system is a parameter: integers when the       *)
(* algebra itself is model checked (cube group x integer shifts), decimals *)
(* (module Dec) when the implementation's frames are judged.               *)
(***************************************************************************)
EXTENDS Integers, Sequences
CONSTANTS Add(_, _), Sub(_, _), Mul(_, _)

VAdd(a, b) == <<Add(a[1], b[1]), Add(a[2], b[2]), Add(a[3], b[3])>>
VSub(a, b) == <<Sub(a[1], b[1]), Sub(a[2], b[2]), Sub(a[3], b[3])>>
VDot(a, b) == Add(Add(Mul(a[1], b[1]), Mul(a[2], b[2])), Mul(a[3], b[3]))
VScale(k, a) == <<Mul(k, a[1]), Mul(k, a[2]), Mul(k, a[3])>>
VCross(a, b) == <<Sub(Mul(a[2], b[3]), Mul(a[3], b[2])),
                  Sub(Mul(a[3], b[1]), Mul(a[1], b[3])),
                  Sub(Mul(a[1], b[2]), Mul(a[2], b[1]))>>
Tr(M) == <<<<M[1][1], M[2][1], M[3][1]>>, <<M[1][2], M[2][2], M[3][2]>>, <<M[1][3], M[2][3], M[3][3]>>>>
MV(M, v) == <<VDot(M[1], v), VDot(M[2], v), VDot(M[3], v)>>
MM(A, B) == LET C == Tr(B) IN
  <<<<VDot(A[1], C[1]), VDot(A[1], C[2]), VDot(A[1], C[3])>>,
    <<VDot(A[2], C[1]), VDot(A[2], C[2]), VDot(A[2], C[3])>>,
    <<VDot(A[3], C[1]), VDot(A[3], C[2]), VDot(A[3], C[3])>>>>
Id3 == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Zero3 == <<0, 0, 0>>
Det(M) == VDot(M[1], VCross(M[2], M[3]))

Global == [o |-> Zero3, R |-> Id3]
ToGlobal(f, p) == VAdd(MV(f.R, p), f.o)
ToLocal(f, p) == MV(Tr(f.R), VSub(p, f.o))
DirToGlobal(f, v) == MV(f.R, v)
DirToLocal(f, v) == MV(Tr(f.R), v)
(* coordinates in frame b of the point with coordinates p in frame a *)
Xform(a, b, p) == ToLocal(b, ToGlobal(a, p))
DXform(a, b, v) == DirToLocal(b, DirToGlobal(a, v))

(* the rigid motion  p |-> G (p - c) + c  applied to a frame *)
Moved(f, G, c) == [o |-> VAdd(MV(G, VSub(f.o, c)), c), R |-> MM(G, f.R)]
ShiftGlobal(f, d) == [o |-> VAdd(f.o, d), R |-> f.R]
ShiftLocal(f, d) == ShiftGlobal(f, MV(f.R, d))
(* c is given in frame g *)
RotateGlobal(f, R, c, g) == Moved(f, R, ToGlobal(g, c))
RotateLocal(f, R, c, g) == Moved(f, MM(MM(f.R, R), Tr(f.R)), ToGlobal(g, c))

Apply(f, op, R, d, c, g) ==
  CASE op = "sg" -> ShiftGlobal(f, d)
    [] op = "sl" -> ShiftLocal(f, d)
    [] op = "rg" -> RotateGlobal(f, R, c, g)
    [] op = "rl" -> RotateLocal(f, R, c, g)
==========================================================================
