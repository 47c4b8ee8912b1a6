---------------------------- MODULE OpticTreeMC ----------------------------
(* The tree operators against a step-by-step machine, over all small trees *)
(* and all short paths.                                                    *)
EXTENDS OpticTree, TLC
CONSTANTS Depth, Width, PathLen, PathNames
Leaf(s) == [n |-> "x", k |-> "R", skip |-> s, items |-> <<>>]
SeqsUpTo(S, w) == UNION {[1..l -> S] : l \in 1..w}
RECURSIVE Trees(_)
Trees(d) == {Leaf(s) : s \in BOOLEAN} \cup
  (IF d = 0 THEN {}
   ELSE {[n |-> "x", k |-> "C", skip |-> s, items |-> q] : s \in BOOLEAN, q \in SeqsUpTo(Trees(d - 1), Width)})
(* names: the address written as a number, so that they are distinct *)
RECURSIVE Named(_, _)
Named(t, id) == [t EXCEPT !.n = id, !.items = [j \in 1..Len(t.items) |-> Named(t.items[j], 10 * id + j)]]
Roots == {Named(t, 1) : t \in {u \in Trees(Depth) : Inner(u) /\ ~u.skip}}

VARIABLES root, rev, stack, out, path
vars == <<root, rev, stack, out, path>>
Init == /\ root \in Roots /\ rev \in BOOLEAN /\ stack = <<root>> /\ out = <<>>
        /\ path = <<>>
(* the tracer: pop a part; visit an interface, or push the items of a compound *)
Step == /\ stack # <<>>
        /\ LET t == Head(stack) IN
             IF Inner(t)
             THEN /\ stack' = SelectSeq(IF rev THEN Reverse(t.items) ELSE t.items, LAMBDA c : ~c.skip) \o Tail(stack)
                  /\ out' = out
             ELSE /\ stack' = Tail(stack)
                  /\ out' = Append(out, [n |-> t.n, rev |-> rev])
        /\ UNCHANGED <<root, rev, path>>
Next == Step
Complete == stack = <<>> => out = Visits(root, rev)
Prefix == LET v == Visits(root, rev) IN Len(out) <= Len(v) /\ out = SubSeq(v, 1, Len(out))
Mirrored == stack = <<>> =>
   LET a == Visits(root, rev) b == Visits(root, ~rev) IN
     Len(a) = Len(b) /\ \A j \in 1..Len(a) : a[j].n = b[Len(a) + 1 - j].n
RECURSIVE HiddenBy(_, _)
HiddenBy(t, hid) == IF ~Inner(t) THEN IF hid THEN {t.n} ELSE {}
                    ELSE UNION {HiddenBy(t.items[j], hid \/ t.items[j].skip) : j \in 1..Len(t.items)}
SkipLaw == \A v \in ToSet(out) : v.n \notin HiddenBy(root, FALSE)
Once == \A i, j \in 1..Len(out) : out[i].n = out[j].n => i = j
AllVisited == stack = <<>> => {v.n : v \in ToSet(out)} = ToSet(LeafNames(root)) \ HiddenBy(root, FALSE)
ChainLaw == stack = <<>> /\ ~rev => [j \in 1..Len(Chain(root)) |-> Chain(root)[j].n] = [j \in 1..Len(out) |-> out[j].n]
(* distinct addresses have distinct full names, every part is found by it  *)
NameLaw == \A p \in Parts(root) : Lookup(root, p.toks) = p.at /\ Lookup(root, <<p.toks[Len(p.toks)]>>) = p.at
EditLaw == stack = <<root>> =>
  \A p \in Parts(root) : p.at # <<>> =>
     LET x == [n |-> 0, k |-> "B", skip |-> FALSE, items |-> <<>>]
         u == InsertPart(root, p.at, x)
     IN /\ RemovePart(u, p.at) = root
        /\ At(u, p.at) = x
        /\ SelectSeq(LeafNames(u), LAMBDA m : m # 0) = LeafNames(root)

(* --- paths: a second machine, independent of the trees *)
InitP == /\ path \in UNION {{p \in [1..l -> PathNames] : \A j \in 1..(l - 1) : p[j] # p[j + 1]} : l \in 2..PathLen}
         /\ root = 0 /\ rev = FALSE /\ stack = <<>> /\ out = <<>>
(* walk: rev is the current direction; meeting an interface turns the ray iff the next one lies behind *)
NextP == /\ Len(out) < Len(path)
         /\ LET j == Len(out) + 1
                after == IF j < Len(path) THEN Rank(path, path[j + 1]) < Rank(path, path[j])
                         ELSE IF path[j] = path[1] THEN TRUE ELSE rev
            IN /\ out' = Append(out, [n |-> path[j], rev |-> rev, act |-> IF after = rev THEN "go" ELSE "turn"])
               /\ rev' = after
         /\ UNCHANGED <<root, stack, path>>
PathLaw == out = SubSeq(PathSteps(path), 1, Len(out))
(* between two steps the ray moves towards the interface listed next *)
Towards == Len(out) \in 1..(Len(path) - 1) =>
             LET j == Len(out) IN (rev <=> Rank(path, path[j + 1]) < Rank(path, path[j]))
(* a path without repetition never turns *)
Straight == Cardinality(ToSet(path)) = Len(path) => \A j \in 1..Len(out) : out[j].act = "go" /\ ~out[j].rev
TurnFlips == \A j \in 1..(Len(out) - 1) : (out[j].act = "turn") <=> (out[j].rev # out[j + 1].rev)
============================================================================
