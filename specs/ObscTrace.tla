------------------------------ MODULE ObscTrace ----------------------------
(* C13: answers of real obscurations against the point sets of Obsc.        *)
EXTENDS Obsc, Rays, TLC, Json, IOUtils
LOCAL INSTANCE SequencesExt
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
Cl(ok, name) == IF ok THEN {} ELSE {name}
Agree(e, ws, got, name) == Cl(Len(got) = Len(ws) /\ \A j \in 1..Len(ws) : Agrees(ws[j], got[j]), name)
GridFail(e, g) == Cl(Len(g.in) = Len(g.ys) /\ \A r \in 1..Len(g.ys) :
     Len(g.in[r]) = Len(g.xs) /\ \A c \in 1..Len(g.xs) : Agrees(Where(e.o, g.xs[c], g.ys[r], e.exact), g.in[r][c]), "grid membership is wrong")
RayFail(e, ws) ==
  IF Len(e.a.q) # Len(e.b.q) THEN {"rays lost or gained"} ELSE
  Cl(\A j \in 1..Len(ws) : IF e.a.vig[j] THEN e.b.vig[j] ELSE Agrees(ws[j], e.b.vig[j]), "the rays vignetted are not those contained")
  \cup Cl(e.a.fail = e.b.fail, "obscuring changed a failed flag")
  \cup Cl(SameFrame(e.a.cs, e.b.cs) /\ \A j \in 1..Len(ws) : e.a.fail[j] \/ DSameSeq(e.a.q[j], e.b.q[j], "1e-12"), "obscuring changed something besides vignetting")
Fail(e) ==
  IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  UNION {Agree(e, ws, e.got.scalar, "scalar membership is wrong")
         \cup Agree(e, ws, e.got.array, "array membership is wrong")
         \cup Agree(e, ws, e.got.two, "membership of a two-dimensional array is wrong")
         \cup Agree(e, ws, e.got.rev, "membership of a reversed array is wrong")
         \cup Agree(e, ws, e.got.strided, "membership of a strided array is wrong")
         \cup Agree(e, ws, e.got.bulk, "membership of a point among thousands is wrong")
         \cup UNION {Agree(e, ws, e.turned[t], "membership depends on the first vertex or the orientation") : t \in 1..Len(e.turned)}
         \cup UNION {GridFail(e, e.grid[g]) : g \in 1..Len(e.grid)}
         \cup RayFail(e, ws)
         : ws \in {FoldLeft(LAMBDA acc, p : Append(acc, Where(e.o, p[1], p[2], e.exact)), <<>>, e.pts)}}
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
============================================================================
