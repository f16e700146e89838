-------------------------------- MODULE Flat --------------------------------
(* Flattening to path-named entries, expansion, recursive difference and       *)
(* recursive update.  Parameters P: pd path delimiter, pp path prefix, ip/is   *)
(* index prefix/suffix (byte strings), simple: lists of scalars stay whole.    *)
EXTENDS Val

RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE DigitsOf(n \div 10) \o <<48 + (n % 10)>>
SimpleList(v) == IsList(v) /\ \A j \in 1..Len(v.l) : ~IsContainer(v.l[j])
Leaf(v, P) == ~IsContainer(v) \/ (P.simple /\ SimpleList(v))
IndexName(P, pre, j) == pre \o P.ip \o DigitsOf(j - 1) \o P.is
KeyName(P, pre, k) == (IF pre = <<>> THEN P.pp ELSE pre \o P.pd) \o k

RECURSIVE FlatInto(_, _, _, _), FlatList(_, _, _, _, _), FlatMap(_, _, _, _, _)
FlatInto(acc, v, P, pre) ==
  IF Leaf(v, P) THEN MSet(acc, pre, v)
  ELSE IF IsList(v) THEN FlatList(acc, v.l, P, pre, 1)
  ELSE FlatMap(acc, v.m, P, pre, 1)
FlatList(acc, l, P, pre, j) == IF j > Len(l) THEN acc ELSE FlatList(FlatInto(acc, l[j], P, IndexName(P, pre, j)), l, P, pre, j + 1)
FlatMap(acc, m, P, pre, j) == IF j > Len(m) THEN acc ELSE FlatMap(FlatInto(acc, m[j][2], P, KeyName(P, pre, m[j][1])), m, P, pre, j + 1)
Flatten(v, P) == IF Leaf(v, P) THEN v ELSE VMap(FlatInto(<<>>, v, P, <<>>))

(* what expansion undoes: default index marks, a prefix that is no key, keys free of delimiters *)
RECURSIVE PlainKeys(_, _)
PlainKeys(v, bad) ==
  CASE IsMap(v) -> v.m # <<>> /\ \A j \in 1..Len(v.m) : /\ v.m[j][1] # <<>>
                                                       /\ \A c \in 1..Len(v.m[j][1]) : v.m[j][1][c] \notin bad
                                                       /\ PlainKeys(v.m[j][2], bad)
    [] IsList(v) -> v.l # <<>> /\ \A j \in 1..Len(v.l) : PlainKeys(v.l[j], bad)
    [] OTHER -> TRUE
Undoes(v, P) == /\ P.ip = <<91>> /\ P.is = <<93>> /\ (P.pp \in {<<>>, <<47>>} \/ P.pp = P.pd)
                /\ P.pd[1] \notin ({91, 93, 92} \cup 48..57)
                /\ PlainKeys(v, {47, 91, 93, 92, P.pd[1]})

(* the text form: lists joined *)
RECURSIVE Join(_, _, _)
Join(l, d, j) == IF j > Len(l) THEN <<>> ELSE (IF j > 1 THEN d ELSE <<>>) \o l[j].s \o Join(l, d, j + 1)
RECURSIVE OnlyText(_)
OnlyText(v) == CASE v.t = "S" -> TRUE
                 [] v.t = "L" -> \A j \in 1..Len(v.l) : OnlyText(v.l[j])
                 [] v.t = "M" -> \A j \in 1..Len(v.m) : OnlyText(v.m[j][2])
                 [] OTHER -> FALSE
TextMap(f, ld) == [j \in 1..Len(f.m) |-> <<f.m[j][1], IF IsStr(f.m[j][2]) THEN f.m[j][2].s ELSE Join(f.m[j][2].l, ld, 1)>>]

---------------------------------------------------------------------------
RECURSIVE Update(_, _), UpdAll(_, _, _)
Update(b, u) == CASE u.t = "N" -> b
                  [] IsMap(u) /\ IsMap(b) -> VMap(UpdAll(b.m, u.m, 1))
                  [] OTHER -> u
UpdAll(m, u, j) ==
  IF j > Len(u) THEN m
  ELSE IF u[j][2].t = "N" THEN UpdAll(m, u, j + 1)
  ELSE UpdAll(MSet(m, u[j][1], Update(IF MHas(m, u[j][1]) THEN MGet(m, u[j][1]) ELSE VMap(<<>>), u[j][2])), u, j + 1)

(* a value without entries *)
RECURSIVE Void(_)
Void(v) == v.t = "N" \/ (IsMap(v) /\ \A j \in 1..Len(v.m) : Void(v.m[j][2]))
(* r has every entry of c *)
RECURSIVE Covers(_, _)
Covers(r, c) == IF Void(c) THEN TRUE
                ELSE IF IsMap(c) THEN IsMap(r) /\ \A j \in 1..Len(c.m) : Void(c.m[j][2]) \/ (MHas(r.m, c.m[j][1]) /\ Covers(MGet(r.m, c.m[j][1]), c.m[j][2]))
                ELSE VEq(r, c)
(* r keeps what only b has, and has nothing from elsewhere *)
RECURSIVE Keeps(_, _, _)
Keeps(r, b, c) == (IsMap(b) /\ IsMap(c)) =>
  /\ IsMap(r)
  /\ \A j \in 1..Len(b.m) : LET k == b.m[j][1] IN
       /\ MHas(r.m, k)
       /\ IF MHas(c.m, k) /\ MGet(c.m, k).t # "N" THEN Keeps(MGet(r.m, k), b.m[j][2], MGet(c.m, k)) ELSE MGet(r.m, k) = b.m[j][2]
  /\ MKeys(r.m) \subseteq (MKeys(b.m) \cup MKeys(c.m))
DiffOK(b, c, d) == /\ Covers(Update(b, d), c) /\ Keeps(Update(b, d), b, c)
                   /\ VEq(b, c) => d = VMap(<<>>)

(* a reference difference *)
RECURSIVE RDiff(_, _), RDiffAll(_, _, _, _)
RDiff(b, c) == IF IsMap(b) /\ IsMap(c) THEN VMap(RDiffAll(b.m, c.m, 1, <<>>)) ELSE c
RDiffAll(b, c, j, acc) ==
  IF j > Len(c) THEN acc
  ELSE LET k == c[j][1] IN
       IF Void(c[j][2]) \/ (MHas(b, k) /\ VEq(MGet(b, k), c[j][2])) THEN RDiffAll(b, c, j + 1, acc)
       ELSE RDiffAll(b, c, j + 1, MSet(acc, k, IF MHas(b, k) THEN RDiff(MGet(b, k), c[j][2]) ELSE c[j][2]))
=============================================================================
