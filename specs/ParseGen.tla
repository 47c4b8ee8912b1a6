------------------------------- MODULE ParseGen -----------------------------
(* Skeletons of descriptions; the driver fills in the numbers.                *)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
N == atoi(IOEnv.N)
DEPTH == atoi(IOEnv.DEPTH)
R(S) == RandomElement(S)
Media == {"none", "none", "number", "int", "const", "sellmeier", "table", "sumita", "air"}
Kinds == <<"Mirror", "RefractiveInterface", "Baffle", "Detector", "OPDScreen", "Interface", "RefractiveInterface", "Mirror">>
Surf == {"Plane", "Sphere", "Paraboloid", "Quadric", "Asphere", "Zernike", "Tilted", "Sum", "Bicubic", "Plane", "Quadric"}
Obsc == {"none", "none", "ObscCircle", "ObscAnnulus", "ObscRectangle", "ObscRay", "ObscPolygon", "ObscNegation", "ObscUnion", "ObscIntersection",
         "ClearCircle", "ClearAnnulus", "ClearRectangle", "ClearRay", "ClearPolygon", "ClearUnion"}
RECURSIVE Node(_, _, _)
Node(d, name, role) ==
  LET inner == role = "top" \/ (role = "item" /\ d > 0 /\ R(1..5) <= 2)
      lens == (role = "item" /\ inner /\ R(1..2) = 1) \/ (role = "top" /\ R(1..5) = 1)
      w == IF lens THEN 2 ELSE R(1..3)
  IN [t |-> IF lens THEN "Lens" ELSE IF inner THEN "CompoundOptic" ELSE IF role \in {"first", "second"} THEN "RefractiveInterface" ELSE Kinds[R(1..Len(Kinds))],
      name |-> IF R(1..5) = 1 THEN "" ELSE name, role |-> role, ncs |-> R({0, 0, 1, 2, 3, 4}),
      inM |-> R(Media), outM |-> R(Media), medium |-> R(Media \ {"none"}), between |-> R({"none", "none", "first", "second", "both", "other"}), gap |-> R(Media \ {"none"}), surf |-> R(Surf), screen |-> R({"Zernike", "Plane", "Bicubic", "Quadric"}),
      obsc |-> R(Obsc), extras |-> R(0..3),
      items |-> IF ~inner THEN <<>> ELSE [j \in 1..w |-> Node(d - 1, name \o ToString(j), IF ~lens THEN "item" ELSE IF j = 1 THEN "first" ELSE "second")]]
Single(i) == [Node(0, "one", "leaf") EXCEPT !.role = "leaf"]
Scenario(i) == [id |-> i, d |-> IF i % 4 = 0 THEN Single(i) ELSE Node(DEPTH, "Sys", "top"), stop |-> R({TRUE, FALSE}), share |-> R({TRUE, FALSE}),
                how |-> R({"dict", "dict", "yaml", "env"}), nums |-> R({"float", "int", "mixed"})]
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..N |-> Scenario(i)])
=============================================================================
