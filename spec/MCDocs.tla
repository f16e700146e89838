------------------------------- MODULE MCDocs -------------------------------
(* All small streams of documents with anchors and aliases on two names.       *)
EXTENDS Docs, Json, IOUtils
VARIABLES ds, sc
Thorough == IOEnv.SIZE = "big"
A == <<97>>  B == <<98>>
Sc(a, s) == [k |-> "s", a |-> a, v |-> VStr(s)]
Ali(n) == [k |-> "*", n |-> n]
Li(a, e) == [k |-> "l", a |-> a, e |-> e]
Ma(a, e) == [k |-> "m", a |-> a, e |-> e]
X == <<120>>  Y == <<121>>  K == <<107>>
Atoms == {Sc(NoName, X), Sc(A, X), Sc(A, Y), Sc(B, Y), Ali(A), Ali(B)}
Inner == {Li(a, <<x>>) : a \in {NoName, A, B}, x \in Atoms} \cup {Ma(a, <<(<<Sc(NoName, K), x>>)>>) : a \in {NoName, A}, x \in Atoms}
         \cup {Ma(NoName, <<(<<x, Sc(NoName, K)>>)>>) : x \in Atoms} \cup {Ma(NoName, <<(<<Li(NoName, <<>>), Sc(NoName, K)>>)>>)}
         \cup {Li(A, <<>>), Li(A, <<Li(A, <<>>)>>)}
Items == Atoms \cup Inner
Roots == Items \cup {[k |-> "s", a |-> NoName, v |-> VNull], [k |-> "s", a |-> A, v |-> VNull]}
(* grows: a list (or map) document of up to three items, or a stream of small documents *)
Init == ds = <<>> /\ sc = 0
One(d) == Len(ds) = 1 /\ ds[1].k = d
Last == Len(ds)
Grow ==
  \/ Len(ds) = 0 /\ \E r \in Roots \cup {Li(A, <<Sc(B, X)>>), Li(NoName, <<>>)} : ds' = <<r>>
  \/ Len(ds) = 0 /\ \E x \in Atoms, y \in Items : ds' = <<Ma(NoName, <<(<<x, y>>)>>)>>
  \/ Len(ds) = 1 /\ ds[1].k = "l" /\ Len(ds[1].e) < 3 /\ (IF Len(ds[1].e) = 0 THEN TRUE ELSE ds[1].a = NoName)
     /\ \E x \in (IF Len(ds[1].e) = 1 \/ Thorough THEN Items ELSE Atoms) : ds' = <<[ds[1] EXCEPT !.e = Append(@, x)]>>
  \/ Len(ds) = 1 /\ ds[1].k = "m" /\ Len(ds[1].e) = 1 /\ \E x \in Atoms, y \in Atoms : ds' = <<[ds[1] EXCEPT !.e = Append(@, <<x, y>>)]>>
  \/ Len(ds) \in 1..2 /\ (IF Len(ds) = 1 /\ ds[1].k \notin {"s", "*"} THEN Len(ds[1].e) <= 1 ELSE TRUE) /\ \E r \in Roots : ds' = Append(ds, r)
Next == sc' = 0 /\ Grow /\ (IF Len(ds') = 3 THEN \A j \in 2..3 : (IF Thorough /\ j = 2 THEN TRUE ELSE ds'[j].k \in {"s", "*"}) ELSE TRUE)
(* text in flow style *)
RECURSIVE Text(_), Join(_, _)
Anch(n) == IF n.a = NoName THEN <<>> ELSE <<38>> \o n.a \o <<32>>
Join(e, j) == IF j > Len(e) THEN <<>> ELSE (IF j > 1 THEN <<44, 32>> ELSE <<>>) \o e[j] \o Join(e, j + 1)
Text(n) ==
  CASE n.k = "*" -> <<42>> \o n.n
    [] n.k = "s" -> Anch(n) \o (IF n.v.t = "N" THEN <<126>> ELSE n.v.s)
    [] n.k = "l" -> Anch(n) \o <<91>> \o Join([j \in 1..Len(n.e) |-> Text(n.e[j])], 1) \o <<93>>
    [] n.k = "m" -> Anch(n) \o <<123>> \o Join([j \in 1..Len(n.e) |-> Text(n.e[j][1]) \o <<32, 58, 32>> \o Text(n.e[j][2])], 1) \o <<125>>
RECURSIVE Stream(_, _)
Stream(d, j) == IF j > Len(d) THEN <<>> ELSE <<45, 45, 45, 32>> \o Text(d[j]) \o <<10>> \o Stream(d, j + 1)
(* the nodes in the order they are written *)
RECURSIVE Pre(_), PreSeq(_, _)
PreSeq(e, j) == IF j > Len(e) THEN <<>> ELSE Pre(e[j]) \o PreSeq(e, j + 1)
Flat2(e) == [j \in 1..(2 * Len(e)) |-> e[(j + 1) \div 2][IF (j % 2) = 1 THEN 1 ELSE 2]]
Pre(n) ==
  CASE n.k = "l" -> <<n>> \o PreSeq(n.e, 1)
    [] n.k = "m" -> <<n>> \o PreSeq(Flat2(n.e), 1)
    [] OTHER -> <<n>>
Loose(n) == LET p == Pre(n) IN \E j \in 1..Len(p) : p[j].k = "*" /\ \A h \in 1..(j - 1) : p[h].k = "*" \/ p[h].a # p[j].n
BadKey(n) == LET p == Pre(n) IN \E j \in 1..Len(p) : p[j].k = "m" /\ \E h \in 1..Len(p[j].e) : p[j].e[h][1].k \in {"l", "m", "*"}
RECURSIVE Ids(_)
Ids(v) == IF v.t = "L" THEN {v.id} \cup UNION {Ids(v.l[j]) : j \in 1..Len(v.l)}
          ELSE IF v.t = "M" THEN {v.id} \cup UNION {Ids(v.m[j][2]) : j \in 1..Len(v.m)} ELSE {}
Boxes(n) == LET p == Pre(n) IN Cardinality({j \in 1..Len(p) : p[j].k \in {"l", "m"}})
Sound == \A j \in 1..Len(ds) :
  LET d == Doc(ds[j]) IN
  /\ d.o = "ok" => (~Loose(ds[j]) /\ Cardinality(Ids(d.v)) = Boxes(ds[j]))
  /\ d.o = "err" => (Loose(ds[j]) \/ BadKey(ds[j]))
Op(f, a, b) == [f |-> f, i |-> a, j |-> b]
RECURSIVE Rep(_, _)
Rep(s, n) == IF n = 0 THEN <<>> ELSE s \o Rep(s, n - 1)
Script == <<Op("new", 0, 0), Op("copy", 0, 1)>> \o Rep(<<Op("get", 0, 0), Op("next", 0, 0)>>, Len(ds)) \o <<Op("get", 0, 0), Op("end", 0, 0), Op("next", 0, 0), Op("end", 0, 0), Op("eq", 0, 1)>>
          \o Rep(<<Op("post", 1, 0)>>, Len(ds)) \o <<Op("eq", 0, 1)>>
Ds == [j \in 1..Len(ds) |-> Doc(ds[j])]
Vec == LET x == Run(Ds, Script) IN
  x.full => PrintT("VEC " \o ToJson([c |-> [op |-> "ydocs", s |-> Stream(ds, 1), ops |-> Script, in |-> [k |-> "mem", q |-> <<>>]], e |-> [o |-> "ok", rs |-> x.rs, cross |-> FALSE]]))
Check == Sound /\ Vec
=============================================================================
