-------------------------------- MODULE Val --------------------------------
(* The value model shared by all modules.  A value is a record tagged by t:  *)
(*   N null   B boolean (b)   I integer, U unsigned (i small, or w decimal   *)
(*   token)   F floating (q = value * 1024, or x bit pattern)   S string (s, *)
(*   bytes)   D blob (d, bytes)   L list (l)   M map (m: sequence of         *)
(*   <<key bytes, value>> in strictly increasing byte order of the keys).    *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

VNull == [t |-> "N"]
VBool(b) == [t |-> "B", b |-> b]
VInt(n) == [t |-> "I", i |-> n]
VUns(n) == [t |-> "U", i |-> n]
VFlt(q) == [t |-> "F", q |-> q]
VStr(s) == [t |-> "S", s |-> s]
VList(l) == [t |-> "L", l |-> l]
VMap(m) == [t |-> "M", m |-> m]

IsMap(v) == v.t = "M"
IsList(v) == v.t = "L"
IsStr(v) == v.t = "S"
IsNum(v) == v.t \in {"I", "U", "F"}
IsContainer(v) == v.t \in {"L", "M"}

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a < b THEN b ELSE a

---------------------------------------------------------------------------
(* byte strings *)
RECURSIVE CmpFrom(_, _, _)
CmpFrom(a, b, k) ==
  IF k > Len(a) THEN (IF k > Len(b) THEN 0 ELSE 0 - 1)
  ELSE IF k > Len(b) THEN 1
  ELSE IF a[k] < b[k] THEN 0 - 1
  ELSE IF a[k] > b[k] THEN 1
  ELSE CmpFrom(a, b, k + 1)
CmpBytes(a, b) == CmpFrom(a, b, 1)
LexLess(a, b) == CmpBytes(a, b) < 0

---------------------------------------------------------------------------
(* maps: sorted sequences of <<key, value>> *)
RECURSIVE FindFrom(_, _, _)
FindFrom(m, k, j) == IF j > Len(m) THEN 0 ELSE IF m[j][1] = k THEN j ELSE FindFrom(m, k, j + 1)
MFind(m, k) == FindFrom(m, k, 1)
MHas(m, k) == MFind(m, k) # 0
MGet(m, k) == m[MFind(m, k)][2]
MKeys(m) == {m[j][1] : j \in 1..Len(m)}
MSet(m, k, v) ==
  LET f == MFind(m, k)
      p == Cardinality({j \in 1..Len(m) : LexLess(m[j][1], k)})
  IN IF f # 0 THEN [m EXCEPT ![f] = <<k, v>>]
     ELSE SubSeq(m, 1, p) \o <<(<<k, v>>)>> \o SubSeq(m, p + 1, Len(m))
MDel(m, k) == LET f == MFind(m, k) IN
  IF f = 0 THEN m ELSE SubSeq(m, 1, f - 1) \o SubSeq(m, f + 1, Len(m))
MSorted(m) == \A j \in 1..(Len(m) - 1) : LexLess(m[j][1], m[j + 1][1])

(* sequences; indices are 0-based as in the library *)
InsertAt(l, i, v) == SubSeq(l, 1, i) \o <<v>> \o SubSeq(l, i + 1, Len(l))
RemoveAt(l, i) == SubSeq(l, 1, i) \o SubSeq(l, i + 2, Len(l))
ReplaceAt(l, i, v) == [l EXCEPT ![i + 1] = v]
Nulls(n) == [j \in 1..n |-> VNull]

---------------------------------------------------------------------------
(* numeric equality across types, for numbers in the small range *)
SmallNum(v) == IF v.t = "F" THEN "q" \in DOMAIN v ELSE "i" \in DOMAIN v
NumEq(a, b) ==
  IF SmallNum(a) /\ SmallNum(b)
  THEN IF a.t = "F" /\ b.t = "F" THEN a.q = b.q
       ELSE IF a.t = "F" THEN a.q % 1024 = 0 /\ a.q \div 1024 = b.i
       ELSE IF b.t = "F" THEN b.q % 1024 = 0 /\ b.q \div 1024 = a.i
       ELSE a.i = b.i
  ELSE IF SmallNum(a) \/ SmallNum(b) THEN FALSE
  ELSE IF a.t = "F" /\ b.t = "F" THEN a.x = b.x /\ a.x # "7ff8000000000000"
  ELSE IF a.t = "F" \/ b.t = "F" THEN FALSE
  ELSE a.w = b.w

(* equality as the library defines it: structural, numbers by value *)
RECURSIVE VEq(_, _)
VEq(a, b) ==
  IF IsNum(a) /\ IsNum(b) THEN NumEq(a, b)
  ELSE IF a.t # b.t THEN FALSE
  ELSE CASE a.t = "N" -> TRUE
         [] a.t = "B" -> a.b = b.b
         [] a.t = "S" -> a.s = b.s
         [] a.t = "D" -> a.d = b.d
         [] a.t = "L" -> /\ Len(a.l) = Len(b.l)
                         /\ \A j \in 1..Len(a.l) : VEq(a.l[j], b.l[j])
         [] a.t = "M" -> /\ Len(a.m) = Len(b.m)
                         /\ \A j \in 1..Len(a.m) : a.m[j][1] = b.m[j][1] /\ VEq(a.m[j][2], b.m[j][2])

(* well-formed values *)
RECURSIVE WF(_)
WF(v) == CASE v.t = "L" -> \A j \in 1..Len(v.l) : WF(v.l[j])
           [] v.t = "M" -> MSorted(v.m) /\ \A j \in 1..Len(v.m) : WF(v.m[j][2])
           [] OTHER -> TRUE
=============================================================================
