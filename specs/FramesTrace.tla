---------------------------- MODULE FramesTrace ---------------------------
(* Judges recorded histories of the real coordinate systems.               *)
EXTENDS Dec, TLC, Json, IOUtils, FiniteSets
INSTANCE Frames WITH Add <- DAdd, Sub <- DSub, Mul <- DMul
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
TOL == "1e-10"

SameV(a, b) == DSameSeq(a, b, TOL)
SameM(A, B) == Len(A) = 3 /\ \A i \in 1..3 : SameV(A[i], B[i])
SameF(f, g) == SameV(f.o, g.o) /\ SameM(f.R, g.R)
Clause(ok, name) == IF ok THEN {} ELSE {name}

OpFail(e) ==
  IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  LET want == Apply(e.src, e.op, e.R, e.d, e.c, e.cf)
      name == CASE e.op = "sg" -> "global shift" [] e.op = "sl" -> "local shift"
                [] e.op = "rg" -> "global rotation" [] e.op = "rl" -> "local rotation"
  IN  Clause(SameF(e.out, want), name \o " is not the rigid motion described")
      \cup Clause(e.frozen, "an existing coordinate system changed")
      \cup Clause(SameM(MM(e.out.R, Tr(e.out.R)), Id3) /\ DClose(Det(e.out.R), 1, TOL), "result is not rigid")
      \cup Clause(SameM(Tr(e.axes), e.out.R), "axes are not the columns of the rotation")

XFail(e) ==
  IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  LET Fw(p) == Xform(e.a, e.b, p)
      Rv(p) == Xform(e.b, e.a, p)
      n == Len(e.p)
      All(s, F(_)) == Len(s) = n /\ \A i \in 1..n : SameV(s[i], F(e.p[i]))
      AllV(s, F(_)) == Len(s) = n /\ \A i \in 1..n : SameV(s[i], F(e.v[i]))
  IN  Clause(All(e.fwd, Fw), "array transform forward")
      \cup Clause(All(e.rev, Rv), "array transform reverse")
      \cup Clause(All(e.rvp, Fw) /\ AllV(e.rvv, LAMBDA v : DXform(e.a, e.b, v)), "ray transform forward")
      \cup Clause(All(e.rvrp, Rv) /\ AllV(e.rvrv, LAMBDA v : DXform(e.b, e.a, v)), "ray transform reverse")
      \cup Clause(All(e.tcp, Fw) /\ AllV(e.tcv, LAMBDA v : DXform(e.a, e.b, v)), "change of ray frame")
      \cup Clause(All(e.tg, LAMBDA p : ToGlobal(e.a, p)) /\ All(e.tg1, LAMBDA p : ToGlobal(e.a, p)), "local to global")
      \cup Clause(All(e.tl, LAMBDA p : ToLocal(e.a, p)) /\ All(e.tl1, LAMBDA p : ToLocal(e.a, p)), "global to local")
      \cup Clause(All(e.bulk[1], Fw) /\ All(e.bulk[2], Rv) /\ All(e.bulk[3], LAMBDA p : ToGlobal(e.a, p)) /\ All(e.bulk[4], LAMBDA p : ToLocal(e.a, p)),
                  "transform of a point among thousands")
      \cup Clause(All(e.inp[1], Fw) /\ All(e.inp[3], Fw), "transform of arrays in place")
      \cup Clause(All(e.inp[2], Rv) /\ All(e.inp[4], Rv), "reverse transform of arrays in place")
      \cup Clause(All(e.sc, Fw), "scalar transform")
      \cup Clause(All(e.scr, Rv), "scalar transform reverse")
      \cup Clause(All(e.back, LAMBDA p : p), "forward then reverse is the identity")
      \cup Clause(All(e.via, Fw), "chaining through a third frame")
      \cup Clause(e.meta, "times, flux or flags changed by a frame change")
      \cup Clause(e.sys, "rays not labelled with the destination frame")
      \cup Clause(e.frozen, "inputs of a transform changed")

InvFail(e) ==
  IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  Clause(DSameSeq(e.one, e.two, "1e-8") /\ e.f1 = e.f2, "result at a surface depends on the frame used for the rays: " \o e.what)

Fail(e) == CASE e.k = "op" -> OpFail(e) [] e.k = "x" -> XFail(e) [] e.k = "inv" -> InvFail(e)
Failures(r) == UNION {Fail(r.ev[j]) : j \in 1..Len(r.ev)}

VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Failures(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
==========================================================================
