------------------------------- MODULE ParGen -------------------------------
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.N)
BIG == atoi(IOEnv.BIG)
R(S) == RandomElement(S)
Ops == <<"trace", "full", "intersect", "reflect", "refract", "rsplit", "obscure", "frame", "propagate", "position", "phase", "amplitude", "sum",
         "sag", "index", "contains", "stop", "angles", "reverse", "screen", "surface", "array", "view", "sum", "path">>
Scenario(i) == [id |-> i, op |-> Ops[(i % Len(Ops)) + 1], n |-> R(2..14), cuts |-> <<R(1..5), R(1..3), R(1..7)>>, perm |-> R(1..1000000),
                big |-> IF i % 8 = 0 THEN R((BIG \div 2)..BIG) ELSE R(20..120), kind |-> R(1..1000), ignore |-> R({TRUE, FALSE}), wild |-> R({TRUE, FALSE})]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)])
=============================================================================
