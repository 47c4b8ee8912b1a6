------------------------------ MODULE ParseTrace ----------------------------
(* C19: trees returned by the real parser against the described ones.         *)
EXTENDS Parse, FiniteSets, TLC, Json, IOUtils
Recs == ndJsonDeserialize(IOEnv.RECS)
N == Len(Recs)
W == 24
Cl(ok, name) == IF ok THEN {} ELSE {name}
TOL == "1e-12"
SameSeq(a, b) == Len(a) = Len(b) /\ \A j \in 1..Len(a) : DEq(a[j], b[j])
Keys(p) == {p[j].k : j \in 1..Len(p)}
Val(p, k) == p[CHOOSE j \in 1..Len(p) : p[j].k = k].v
(* parameters a type has when they are not stated *)
Default(t) == CASE t = "Zernike" -> <<[k |-> "R_outer", v |-> <<1>>], [k |-> "R_inner", v |-> <<0>>], [k |-> "x_origin", v |-> <<0>>], [k |-> "y_origin", v |-> <<0>>]>>
                [] t = "Asphere" -> <<[k |-> "imin", v |-> <<2>>]>>
                [] t \in {"ObscCircle", "ObscAnnulus", "ObscRay"} -> <<[k |-> "x", v |-> <<0>>], [k |-> "y", v |-> <<0>>]>>
                [] t = "ObscRectangle" -> <<[k |-> "x", v |-> <<0>>], [k |-> "y", v |-> <<0>>], [k |-> "theta", v |-> <<0>>]>>
                [] OTHER -> <<>>
Params(t, p, a) ==        \* the object's parameters a are those stated, and the defaults for the rest
  /\ Keys(a) = Keys(p) \cup Keys(Default(t))
  /\ \A k \in Keys(p) : SameSeq(Val(a, k), Val(p, k))
  /\ \A k \in Keys(Default(t)) \ Keys(p) : SameSeq(Val(a, k), Val(Default(t), k))
Uncover == [ClearCircle |-> "ObscCircle", ClearAnnulus |-> "ObscAnnulus", ClearRectangle |-> "ObscRectangle", ClearRay |-> "ObscRay", ClearPolygon |-> "ObscPolygon",
            ClearUnion |-> "ObscUnion"]
RECURSIVE Part(_, _)
Part(d, o) ==
  IF d.t \in DOMAIN Uncover THEN o.t = "ObscNegation" /\ Len(o.items) = 1 /\ Part([d EXCEPT !.t = Uncover[d.t]], o.items[1])
  ELSE o.t = d.t /\ Params(d.t, d.p, o.p) /\ Len(o.items) = Len(d.items) 
       /\ IF d.t \in {"ObscUnion", "ObscIntersection"}                    \* their members have no order
          THEN \E b \in {m \in [1..Len(d.items) -> 1..Len(d.items)] : \A x, y \in 1..Len(d.items) : m[x] = m[y] => x = y} : \A j \in 1..Len(d.items) : Part(d.items[j], o.items[b[j]])
          ELSE \A j \in 1..Len(d.items) : Part(d.items[j], o.items[j])
OptPart(d, o) == Len(d) = Len(o) /\ (Len(d) = 0 \/ Part(d[1], o[1]))
Waves == <<"4e-7", "5.5e-7", "8e-7">>
SameMedium(m, n) == Len(n) = 3 /\ \A j \in 1..3 : DClose(M!Index(m, Waves[j]), n[j], TOL)
SameFrame(a, b) == (\A c \in 1..3 : DNear(a.o[c], b.o[c], TOL)) /\ \A r, c \in 1..3 : DNear(a.R[r][c], b.R[r][c], TOL)
(* an item's edges are those of its round obscuration, or of what that leaves clear, unless stated *)
Bare(q) == IF q.t = "ObscNegation" THEN q.items[1] ELSE q
Edge(q) == IF q.t \in {"ObscCircle", "ClearCircle"} THEN {[k |-> "R_outer", v |-> Val(q.p, "radius")], [k |-> "R_inner", v |-> <<0>>]}
           ELSE IF q.t \in {"ObscAnnulus", "ClearAnnulus"} THEN {[k |-> "R_outer", v |-> Val(q.p, "outer")], [k |-> "R_inner", v |-> Val(q.p, "inner")]} ELSE {}
Edges(q) == IF q.t = "ObscNegation" /\ q.items[1].t \in {"ClearCircle", "ClearAnnulus"} THEN {} ELSE Edge(Bare(q))
Extras(d) == {d.extras[j] : j \in 1..Len(d.extras)}
             \cup (IF Len(d.obsc) = 0 THEN {} ELSE {x \in Edges(d.obsc[1]) : x.k \notin Keys(d.extras)})
RECURSIVE NodeFail(_, _, _)
NodeFail(d, env, o) ==
  IF o.t # d.t THEN {"kind of an item"} ELSE IF Len(o.items) # Len(d.items) THEN {"number of items"} ELSE
  LET h == Here(d, env) IN
  Cl(o.name = (IF Len(d.name) > 0 THEN d.name[1] ELSE ""), "name of an item")
  \cup Cl(SameFrame(h.f, o.frame), "frame of an item")
  \cup Cl(SameMedium(h.in, o.inM), "medium before an item") \cup Cl(SameMedium(h.out[1], o.outM), "medium after an item")
  \cup Cl(d.t # "Lens" \/ SameMedium(d.medium[1], o.medium), "medium of a lens")
  \cup Cl(OptPart(d.surf, o.surf), "surface") \cup Cl(OptPart(d.screen, o.screen), "screen") \cup Cl(OptPart(d.obsc, o.obsc), "obscuration")
  \cup Cl(\A x \in Extras(d) : x.k \in Keys(o.extras) /\ SameSeq(Val(o.extras, x.k), x.v), "a numeric extra")
  \cup Cl(Keys(o.extras) = {x.k : x \in Extras(d)}, "an extra that is not described")
  \cup (IF Len(d.stop) # Len(o.stop) THEN {"stop surface"} ELSE IF Len(d.stop) = 0 THEN {} ELSE {"stop surface: " \o x : x \in NodeFail(d.stop[1], Root, o.stop[1])})
  \cup UNION {NodeFail(d.items[j], Inside(d, h, j), o.items[j]) : j \in 1..Len(d.items)}
Fail(e) == IF e.exc # "" THEN {"exception: " \o e.exc} ELSE
  Cl(e.kept, "parsing changed the description") \cup Cl(e.twice, "parsing again gives another optic")
  \cup NodeFail(e.d, [Root EXCEPT !.f = Enter(F!Global, e.where), !.in = Own(e.around, Vac)], e.o)
VARIABLE i
Init == i \in 1..(IF N < W THEN N ELSE W)
Next == i + W <= N /\ i' = i + W
Judged == LET bad == Fail(Recs[i]) IN
            bad = {} \/ PrintT("VERDICT|" \o ToString(i) \o "|" \o ToString(bad))
=============================================================================
