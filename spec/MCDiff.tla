------------------------------- MODULE MCDiff -------------------------------
(* All ordered pairs of small documents: a reference difference is checked   *)
(* against Apply on the specification, and every pair becomes a test vector. *)
EXTENDS Patch, Json, IOUtils
VARIABLES x, y

a == <<97>>
b == <<98>>
ab == <<97, 47, 98>>
tl == <<126, 49>>

Deep == "DEPTH" \in DOMAIN IOEnv /\ IOEnv.DEPTH = "3"
V0 == { VNull, VInt(1), VStr(<<97>>) }
Keys == << <<>>, a, ab, b, tl >>
ListsOver(V, n) == UNION {{VList(s) : s \in [1..k -> V]} : k \in 0..n}
(* K: set of key positions in Keys, which is in byte order *)
RECURSIVE Build(_, _, _)
Build(f, D, k) == IF k > Len(Keys) THEN <<>>
                  ELSE (IF k \in D THEN << <<Keys[k], f[k]>> >> ELSE <<>>) \o Build(f, D, k + 1)
MapsOver(V, K) == UNION {{VMap(Build(f, D, 1)) : f \in [D -> V]} : D \in SUBSET K}
V1 == V0 \cup ListsOver({VInt(1), VInt(2)}, 3) \cup MapsOver({VInt(1), VNull}, {2, 3})
V2 == V1 \cup ListsOver({VInt(1), VList(<<VInt(1)>>), VList(<<>>), VMap(<< <<ab, VInt(1)>> >>), VMap(<<>>)}, 2)
         \cup MapsOver({VInt(1), VList(<<VInt(1), VInt(2)>>), VMap(<< <<tl, VInt(1)>> >>), VMap(<<>>)}, {1, 3, 5})
V3 == V2 \cup ListsOver({VInt(1), VInt(2), VList(<<VInt(1), VInt(2)>>), VMap(<< <<ab, VInt(1)>> >>)}, 4)
Docs == IF Deep THEN V3 ELSE V2

---------------------------------------------------------------------------
(* a reference difference *)
Op(n, p) == << <<kOp, VStr(n)>>, <<kPath, VStr(Pointer(p))>> >>
OpV(n, p, v) == VMap(Op(n, p) \o << <<kValue, v>> >>)
RECURSIVE Dig(_)
Dig(n) == IF n < 10 THEN <<48 + n>> ELSE Dig(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE Diff(_, _, _)
Diff(p, u, w) ==
  IF VEq(u, w) THEN <<>>
  ELSE IF IsMap(u) /\ IsMap(w) THEN
    LET RECURSIVE Gone(_)
        Gone(j) == IF j > Len(u.m) THEN <<>>
                   ELSE (IF MHas(w.m, u.m[j][1]) THEN <<>> ELSE <<VMap(Op(nRemove, Append(p, u.m[j][1])))>>) \o Gone(j + 1)
        RECURSIVE Rest(_)
        Rest(j) == IF j > Len(w.m) THEN <<>>
                   ELSE (IF MHas(u.m, w.m[j][1]) THEN Diff(Append(p, w.m[j][1]), MGet(u.m, w.m[j][1]), w.m[j][2])
                         ELSE <<OpV(nAdd, Append(p, w.m[j][1]), w.m[j][2])>>) \o Rest(j + 1)
    IN Gone(1) \o Rest(1)
  ELSE IF IsList(u) /\ IsList(w) THEN
    LET RECURSIVE Common(_)
        Common(j) == IF j > Len(u.l) \/ j > Len(w.l) THEN <<>>
                     ELSE Diff(Append(p, Dig(j - 1)), u.l[j], w.l[j]) \o Common(j + 1)
        RECURSIVE Grow(_)
        Grow(j) == IF j > Len(w.l) THEN <<>> ELSE <<OpV(nAdd, Append(p, Dash), w.l[j])>> \o Grow(j + 1)
        RECURSIVE Shrink(_)
        Shrink(j) == IF j <= Len(w.l) THEN <<>> ELSE <<VMap(Op(nRemove, Append(p, Dig(j - 1))))>> \o Shrink(j - 1)
    IN Common(1) \o Grow(Len(u.l) + 1) \o Shrink(Len(u.l))
  ELSE <<OpV(nReplace, p, w)>>

Init == x \in Docs /\ y = VNull
Next == /\ y = VNull
        /\ \E w \in Docs :
             /\ y' = VList(<<w>>) /\ UNCHANGED x
             /\ PrintT("VEC " \o ToJson([c |-> [op |-> "diff", a |-> x, b |-> w],
                                         e |-> [o |-> "ok", ret |-> TRUE, eq |-> TRUE, res |-> w, a |-> x, b |-> w]]))
RoundTrip == IsList(y) => LET w == y.l[1] IN Apply(x, VList(Diff(<<>>, x, w))) = Good(w)
=============================================================================
