------------------------------- MODULE MediaMC ------------------------------
(* Every small table and a grid of wavelengths; a lookup that walks the table *)
(* finds what the definition says.  Limits and monotony of the formulas.      *)
EXTENDS Media, FiniteSets, TLC
CONSTANTS MaxW, MaxN
Tables == UNION {{<<w, n>> : w \in {s \in [1..k -> 1..MaxW] : \A j \in 1..(k - 1) : s[j] < s[j + 1]}, n \in [1..k -> 0..MaxN]} : k \in 2..3}
VARIABLES t, q, j, out
vars == <<t, q, j, out>>
lam == DDiv(q, 4)
Init == t \in Tables /\ q \in 2..(4 * MaxW + 2) /\ j = 1 /\ out = "?"
Step == /\ out = "?"
        /\ IF DLt(lam, t[1][1]) \/ DLt(Last2(t[1]), lam) THEN out' = "nan" /\ j' = j
           ELSE IF j < Len(t[1]) - 1 /\ DLe(t[1][j + 1], lam) THEN j' = j + 1 /\ out' = out
           ELSE out' = DStr(Linear(t[1][j], t[2][j], t[1][j + 1], t[2][j + 1], lam)) /\ j' = j
        /\ UNCHANGED <<t, q>>
Spec == Init /\ [][Step]_vars
WalkFinds == out # "?" => DSame(out, TableIndex(t[1], t[2], lam), "1e-18")
Nodes == \A k \in 1..Len(t[1]) : DEq(TableIndex(t[1], t[2], t[1][k]), t[2][k])
Bounded == (out # "?" /\ out # "nan") => \E k \in 1..(Len(t[1]) - 1) : DLe(DMin(t[2][k], t[2][k + 1]), out) /\ DLe(out, DMax(t[2][k], t[2][k + 1]))
NanOutside == (out = "nan") = (out # "?" /\ (DLt(lam, t[1][1]) \/ DLt(Last2(t[1]), lam)))
W == {"3e-7", "5e-7", "8e-7", "2e-6"}
BK7 == <<"1.03961212", "0.231792344", "1.01046945", "0.00600069867", "0.0200179144", "103.560653">>
ASSUME \A l \in W : DEq(SellmeierIndex(<<0, 0, 0, 1, 2, 3>>, l), 1) /\ DEq(SumitaIndex(<<4, 0, 0, 0, 0, 0>>, l), 2)
ASSUME DClose(SellmeierIndex(BK7, "5.876e-7"), "1.5168", "1e-5")            \* the catalogue value of BK7 at the d line
ASSUME \A l \in W : DEq(AirIndex(<<0, "293.15", 0>>, l), 1)
ASSUME DClose(AirIndex(<<"101.325", "288.15", 0>>, "5e-7"), "1.00027897", "2e-8")   \* standard air at 500 nm (Edlen)
ASSUME \A l \in W : DLt(AirIndex(<<60, 290, 1>>, l), AirIndex(<<70, 290, 1>>, l)) /\ DLt(AirIndex(<<70, 300, 1>>, l), AirIndex(<<70, 290, 1>>, l))
                    /\ DLt(AirIndex(<<70, 290, 2>>, l), AirIndex(<<70, 290, 1>>, l))
=============================================================================
