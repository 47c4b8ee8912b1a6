------------------------------ MODULE DrawTrace ----------------------------
(* C25: recorded drawings of real systems and rays against Draw.           *)
EXTENDS Draw, Surfaces, Rays, TLC, Json, IOUtils
INSTANCE Frames WITH Add <- DAdd, Sub <- DSub, Mul <- DMul
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
Cl(ok, name) == IF ok THEN {} ELSE {name}
TOL == "1e-9"
Rad(p) == DSqrt(DAdd(Sq(p[1]), Sq(p[2])))
(* a drawn curve back in the frame of its interface *)
Back(l, c) == Map(LAMBDA p : ToLocal(l.f, p), c)
OnIt(ps, l, c) == \A j \in 1..Len(c) : LET p == c[j] IN
   DNear(p[3], SG(ps, p[1], p[2])[1], "1e-8") /\ DLe(Rad(p), DAdd(l.o.rout, TOL)) /\ DGe(Rad(p), DSub(l.o.rin, TOL))
AtRadius(c, r) == \A j \in 1..Len(c) : DNear(Rad(c[j]), r, TOL)
(* all the way round: points in all four quadrants, and the ends meet *)
Round(c) == /\ \A a, b \in {-1, 1} : \E j \in 1..Len(c) : DGe(DMul(a, c[j][1]), DNeg(TOL)) /\ DGe(DMul(b, c[j][2]), DNeg(TOL))
            /\ Len(c) >= 5 /\ \A q \in 1..3 : DNear(c[1][q], c[Len(c)][q], "1e-8")
Along(c, d) == \A j \in 1..Len(c) : DNear(DSub(DMul(c[j][1], d[2]), DMul(c[j][2], d[1])), 0, TOL)
Reaches(c, d, r) == \E j \in 1..Len(c) : DNear(c[j][1], DMul(r, d[1]), TOL) /\ DNear(c[j][2], DMul(r, d[2]), TOL)
(* several curves may make up a spoke together, none may be missing *)
OutlineFail(l, cs, how) ==
  IF ~HasOutline(l.o) THEN Cl(cs = <<>>, how \o ": something is drawn of an interface without a radius") ELSE
  UNION {UNION {
    Cl(\A j \in 1..Len(bs) : OnIt(ps, l, bs[j]), how \o ": drawn points off the surface or outside its rims")
    \cup Cl(\E j \in 1..Len(bs) : AtRadius(bs[j], l.o.rout) /\ Round(bs[j]), how \o ": the outer rim is not drawn all round")
    \cup Cl(~Hole(l.o) \/ \E j \in 1..Len(bs) : AtRadius(bs[j], l.o.rin) /\ Round(bs[j]), how \o ": the inner rim is not drawn all round")
    \cup Cl(\A d \in Axes : \E j \in 1..Len(bs) : Along(bs[j], d) /\ Reaches(bs[j], d, l.o.rout) /\ Reaches(bs[j], d, l.o.rin),
            how \o ": a spoke is missing")
    : ps \in {Prepared(l.s)}} : bs \in {Map(LAMBDA c : Back(l, c), cs)}}
Hows == <<"draw3d", "draw3d with plotly", "get3dmesh">>
SolidFail(e) ==
  LET ls == Leaves(e.tree) IN
  UNION {UNION {OutlineFail(ls[j], e.each[j][h].curves, Hows[h]) \cup Cl(e.each[j][h].kw, Hows[h] \o ": drawing options not passed on") : h \in 1..3} : j \in 1..Len(ls)}
  \cup UNION {LET all == FlattenSeq([j \in 1..Len(ls) |-> e.each[j][h].curves]) got == e.whole[h].curves IN
       Cl(Len(got) = Len(all) /\ ToSet(got) = ToSet(all), Hows[h] \o ": a system is not drawn as its interfaces")
       \cup Cl(e.whole[h].kw, Hows[h] \o ": drawing options not passed on") : h \in 1..3}

(* --- slices.  pts: the points of one half or of both joined, as <<x, z>> in global coordinates *)
Glob(l, ps, x) == LET g == ToGlobal(l.f, <<x, 0, SG(ps, x, 0)[1]>>) IN <<g[1], g[3]>>
Near2(p, q) == DNear(p[1], q[1], "1e-8") /\ DNear(p[2], q[2], "1e-8")
(* for a frame that is not turned the local x can be read off *)
LocX(l, p) == DSub(p[1], l.f.o[1])
HalfFail(l, ps, pts, a, b, n, straight) ==
  Cl(n = 0 \/ Len(pts) = n, "a slice has another number of points than asked for")
  \cup (IF Len(pts) < 2 THEN {"a slice has fewer than two points"} ELSE
        Cl(Near2(pts[1], Glob(l, ps, a)) /\ Near2(pts[Len(pts)], Glob(l, ps, b)), "a slice does not run from rim to rim")
        \cup Cl(~straight \/ \A j \in 1..Len(pts) : Near2(pts[j], Glob(l, ps, LocX(l, pts[j]))), "a slice leaves the surface")
        (* the line drawn follows the surface between its points too, when the number of points was left to it *)
        \cup Cl(~straight \/ n # 0 \/ \A j \in 2..Len(pts) :
                 LET p == pts[j - 1] q == pts[j] m == <<DDiv(DAdd(p[1], q[1]), 2), DDiv(DAdd(p[2], q[2]), 2)>> IN
                 DNear(m[2], Glob(l, ps, LocX(l, m))[2], DMul("2e-3", DAdd(l.o.rout, "1e-9"))),
               "a slice cuts corners off the surface")
        \cup Cl(~straight \/ \A j \in 2..Len(pts) : DLt(pts[j - 1][1], pts[j][1]), "a slice does not run from negative to positive x"))
SliceFail(l, ss, n, straight) ==
  IF ~HasOutline(l.o) THEN Cl(ss = <<>>, "a slice of an interface without a radius") ELSE
  UNION {IF Hole(l.o)
     THEN IF Len(ss) # 2 THEN {"an annular interface does not have two half slices"}
          ELSE HalfFail(l, ps, ss[1], DNeg(l.o.rout), DNeg(l.o.rin), n, straight) \cup HalfFail(l, ps, ss[2], l.o.rin, l.o.rout, n, straight)
     ELSE IF Len(ss) # 1 THEN {"the half slices of a full interface are not joined"}
          ELSE HalfFail(l, ps, ss[1], DNeg(l.o.rout), l.o.rout, IF n = 0 THEN 0 ELSE 2 * n - 1, straight)
     : ps \in {Prepared(l.s)}}
IndexOf(ls, l) == CHOOSE j \in 1..Len(ls) : ls[j] = l
Open(p) == IF Len(p) > 1 /\ p[1] = p[Len(p)] THEN SubSeq(p, 1, Len(p) - 1) ELSE p
LensWant(e, lens) ==      \* polygons of one lens, by the slices of its faces
  LET ls == Leaves(e.tree) a == e.plain[IndexOf(ls, lens.items[1])] b == e.plain[IndexOf(ls, lens.items[2])] IN
  IF ~Fillable(lens) THEN <<>> ELSE [j \in 1..Len(a) |-> Between(a[j], b[j])]
LensFail(e, r) ==
  LET ns == SelectSeq(Lenses(e.tree), LAMBDA l : r.n = e.tree.n \/ l.n = r.n)
      sane == \A j \in 1..Len(ns) : Fillable(ns[j]) \/ Blank(ns[j])
      want == FlattenSeq([j \in 1..Len(ns) |-> LensWant(e, ns[j])])
      zs == UNION {{want[j][q][2] : q \in 1..Len(want[j])} : j \in 1..Len(want)}
  IN IF ~sane THEN {} ELSE
     Cl([j \in 1..Len(r.strokes) |-> r.strokes[j].w] = [j \in 1..Len(want) |-> "fill"]
        /\ \A j \in 1..Len(want) : Open(r.strokes[j].p) = Open(want[j]), "a lens is not filled between its faces")
     \cup Cl(r.kw, "drawing options not passed on to the fill")
     \cup Cl(IF ~r.labels THEN r.text = <<>> ELSE want = <<>> \/
             (Len(r.text) = 1 /\ r.text[1].s = r.n /\ DEq(r.text[1].x, "0.25")
              /\ (\E z \in zs : DLe(z, r.text[1].z)) /\ (\E z \in zs : DGe(z, r.text[1].z))), "the label of a lens")
FlatFail(e) ==
  LET ls == Leaves(e.tree)
      want == FlattenSeq([j \in 1..Len(ls) |-> IF Wanted(ls[j], ToSet(e.only)) /\ HasOutline(ls[j].o) THEN e.plain[j] ELSE <<>>])
  IN UNION {SliceFail(ls[j], e.slices[j], e.nslice, e.straight) \cup SliceFail(ls[j], e.plain[j], 0, e.straight) : j \in 1..Len(ls)}
     \cup Cl([j \in 1..Len(e.strokes) |-> e.strokes[j].w] = [j \in 1..Len(want) |-> "plot"]
             /\ ToSet([j \in 1..Len(e.strokes) |-> e.strokes[j].p]) = ToSet(want), "draw2d does not draw the slices of the interfaces wanted")
     \cup Cl(e.kw, "draw2d: drawing options not passed on")
     \cup UNION {LensFail(e, e.lens[j]) : j \in 1..Len(e.lens)}

(* --- rays *)
Pos(b, r) == <<b.q[r][1], b.q[r][2], b.q[r][3]>>
RayLineFail(e, h) ==
  LET n == Len(e.ents[1].in.q) k == Len(e.ents)
      Bund(j) == IF j = 1 THEN e.ents[1].in ELSE e.ents[j - 1].out
      Vert(r, j) == ToGlobal(Bund(j).cs, Pos(Bund(j), r))
      Proj(p) == IF h.dim = 3 THEN p ELSE <<p[1], p[3]>>
      Good(r, c) == /\ Len(c) = VisibleCount([j \in 1..k |-> e.ents[j].out.vig[r]])
                    /\ \A j \in 1..Len(c) : Bund(j).fail[r] \/ DSameSeq(c[j], Proj(Vert(r, j)), RTOL)
  IN Cl(Len(h.l) = n /\ \A r \in 1..n : Good(r, h.l[r]), IF h.dim = 3 THEN "drawTrace3d: a line is not the visible part of its ray" ELSE "drawTrace2d: a line is not the visible part of its ray")
     \cup Cl(h.kw, "drawing options not passed on to the rays")
RaysFail(e) == UNION {RayLineFail(e, e.lines[h]) : h \in 1..Len(e.lines)}

Fail(e) == IF e.exc # "" THEN {e.k \o " drawing raised " \o e.exc} ELSE
  CASE e.k = "solid" -> SolidFail(e) [] e.k = "flat" -> FlatFail(e) [] e.k = "rays" -> RaysFail(e)
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
============================================================================
