------------------------------- MODULE MCFlat -------------------------------
(* Small structures under every delimiter choice, and all pairs of small maps. *)
EXTENDS Flat, Json, IOUtils
VARIABLES x, y
a == <<97>>
b == <<98>>
Keys == <<a, b>>
Deep == IOEnv.DEPTH = "3"
ListsOver(V, n) == UNION {{VList(s) : s \in [1..k -> V]} : k \in 1..n}
RECURSIVE Build(_, _, _)
Build(f, D, k) == IF k > Len(Keys) THEN <<>>
                  ELSE (IF k \in D THEN << <<Keys[k], f[k]>> >> ELSE <<>>) \o Build(f, D, k + 1)
MapsOver(V) == UNION {{VMap(Build(f, D, 1)) : f \in [D -> V]} : D \in SUBSET {1, 2}}
V0 == {VNull, VInt(1), VInt(2), VStr(a)}
L1 == ListsOver({VInt(1), VNull}, 2)
M1 == MapsOver(V0)
V1 == V0 \cup L1 \cup (M1 \ {VMap(<<>>)})
V2 == V1 \cup ListsOver(V1, 2) \cup (MapsOver(V1) \ {VMap(<<>>)})
Params == { [pd |-> d, pp |-> p, ip |-> <<91>>, is |-> <<93>>, ld |-> <<44>>, simple |-> s] :
              d \in {<<47>>, <<46>>}, p \in {<<>>, <<47>>, <<46>>, <<36>>}, s \in BOOLEAN }
          \cup { [pd |-> <<58>>, pp |-> <<>>, ip |-> <<40>>, is |-> t, ld |-> <<59>>, simple |-> TRUE] : t \in {<<>>, <<41>>} }
M2 == MapsOver(V0 \cup {VList(<<VInt(1)>>)} \cup MapsOver({VNull, VInt(1), VStr(a), VMap(<<>>), VMap(<< <<a, VInt(1)>> >>)}))
Docs == IF IOEnv.PROFILE = "flat" THEN (IF Deep THEN V2 ELSE V1 \cup ListsOver(M1 \ {VMap(<<>>)}, 1) \cup (MapsOver(L1 \cup {VInt(1)}) \ {VMap(<<>>)})) ELSE IF Deep THEN M2 ELSE MapsOver({VNull, VInt(2), VList(<<VInt(1)>>)} \cup MapsOver({VNull, VInt(1)}))
Emit(c, e) == PrintT("VEC " \o ToJson([c |-> c, e |-> e]))
Init == x \in Docs /\ y = <<>>
Next == /\ y = <<>> /\ UNCHANGED x
        /\ IF IOEnv.PROFILE = "flat"
           THEN \E P \in Params :
                  /\ y' = <<P>>
                  /\ Emit([op |-> "flatten", v |-> x, p |-> P],
                          IF Undoes(x, P) THEN [flat |-> Flatten(x, P), back |-> x, after |-> x, shared |-> FALSE]
                          ELSE [flat |-> Flatten(x, P), after |-> x, shared |-> FALSE])
           ELSE \E w \in Docs :
                  /\ y' = <<w>>
                  /\ Emit([op |-> "rupdate", a |-> x, b |-> w], [res |-> Update(x, w), b |-> w, shared |-> FALSE])
                  /\ Emit([op |-> "rdiff", a |-> x, b |-> w], [a |-> x, b |-> w, shared |-> FALSE])
(* flat entries: one for every leaf, each a leaf *)
RECURSIVE Leaves(_, _)
Leaves(v, P) == IF Leaf(v, P) THEN 1
                ELSE LET f[k \in 0..Len(IF IsList(v) THEN v.l ELSE v.m)] ==
                           IF k = 0 THEN 0 ELSE f[k - 1] + Leaves(IF IsList(v) THEN v.l[k] ELSE v.m[k][2], P)
                     IN f[Len(IF IsList(v) THEN v.l ELSE v.m)]
Sound == y = <<>> \/
  IF IOEnv.PROFILE = "flat"
  THEN LET f == Flatten(x, y[1]) IN Leaf(x, y[1]) \/ (MSorted(f.m) /\ Len(f.m) = Leaves(x, y[1]) /\ \A j \in 1..Len(f.m) : Leaf(f.m[j][2], y[1]))
  ELSE /\ DiffOK(x, y[1], RDiff(x, y[1]))
       /\ Update(Update(x, y[1]), y[1]) = Update(x, y[1])
       /\ Update(x, x) = x
=============================================================================
