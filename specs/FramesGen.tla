---------------------------- MODULE FramesGen -----------------------------
(* Scripts of frame operations over three registers.                       *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils, Randomization
N == atoi(IOEnv.N)
LEN == atoi(IOEnv.LEN)
Ops == <<"sg", "sl", "rg", "rl">>
Event(k, i) ==
  [op |-> Ops[((k + i) % 4) + 1],
   a |-> RandomElement(1..3), b |-> RandomElement(1..3),
   f |-> RandomElement(0..3),          \* register of the centre's frame, 0: argument omitted
   c |-> RandomElement(0..5),          \* which centre, 0: argument omitted
   R |-> RandomElement(1..24), d |-> RandomElement(1..8)]
Mode(k) == <<"cube", "generic", "cube", "small", "ints">>[(k % 5) + 1]
Script(k) == [id |-> k, mode |-> Mode(k), ev |-> [i \in 1..LEN |-> Event(k, i)]]
ASSUME ndJsonSerialize(IOEnv.OUT, [k \in 1..N |-> Script(k)])
==========================================================================
