-------------------------------- MODULE ParMC -------------------------------
(* Every assignment of rows to threads, every order and interleaving of two   *)
(* calls and a sum.                                                           *)
EXTENDS Par, TLC
CONSTANTS Rows, Threads, Calls
VARIABLES mem, owner, todo, tmp, call, part, vig, fail, ignore
vars == <<mem, owner, todo, tmp, call, part, vig, fail, ignore>>
R == 1..Rows
T == 1..Threads
Work(x) == 3 * x + 1
None == 0
RECURSIVE Times(_, _)
Times(x, k) == IF k = 0 THEN x ELSE Work(Times(x, k - 1))
Init == /\ mem = [r \in R |-> r] /\ owner \in [R -> T] /\ todo = R /\ tmp = [t \in T |-> <<>>] /\ call = 1
        /\ part = [t \in T |-> 0] /\ vig \in [R -> BOOLEAN] /\ fail \in [R -> BOOLEAN] /\ ignore \in BOOLEAN
        /\ \A r \in R : fail[r] => vig[r]
Load(t) == /\ tmp[t] = <<>> /\ call <= Calls
           /\ \E r \in todo : owner[r] = t /\ tmp' = [tmp EXCEPT ![t] = <<r, mem[r]>>] /\ todo' = todo \ {r}
           /\ UNCHANGED <<mem, owner, call, part, vig, fail, ignore>>
Store(t) == /\ tmp[t] # <<>> /\ mem' = [mem EXCEPT ![tmp[t][1]] = Work(tmp[t][2])] /\ tmp' = [tmp EXCEPT ![t] = <<>>]
            /\ UNCHANGED <<owner, todo, call, part, vig, fail, ignore>>
Add(t) == /\ call = Calls + 1
          /\ \E r \in todo : owner[r] = t /\ todo' = todo \ {r}
               /\ part' = IF Counted(vig[r], fail[r], ignore) THEN [part EXCEPT ![t] = @ + mem[r]] ELSE part
          /\ UNCHANGED <<mem, owner, tmp, call, vig, fail, ignore>>
Barrier == /\ todo = {} /\ \A t \in T : tmp[t] = <<>> /\ call <= Calls /\ call' = call + 1 /\ todo' = R /\ owner' \in {owner, [r \in R |-> owner[Rows + 1 - r]]}
           /\ UNCHANGED <<mem, tmp, part, vig, fail, ignore>>
Next == (\E t \in T : Load(t) \/ Store(t) \/ Add(t)) \/ Barrier
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_, _)
Sum(f, S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN f[x] + Sum(f, S \ {x})
Busy(r) == \E t \in T : tmp[t] # <<>> /\ tmp[t][1] = r
(* each row has had exactly the calls that are done, whoever did them *)
RowsAlone == \A r \in R : mem[r] = Times(r, call - (IF call > Calls THEN 1 ELSE IF r \in todo \/ Busy(r) THEN 1 ELSE 0))
Summed == call = Calls + 1 /\ todo = {} => Sum(part, T) = Sum(mem, {r \in R : Counted(vig[r], fail[r], ignore)})
=============================================================================
