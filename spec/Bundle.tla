-------------------------------- MODULE Bundle ------------------------------
(* Header lines "key: value  # comment"; a value with | is a list.             *)
EXTENDS Yaml
WS == {32, 9, 10, 11, 12, 13}
RECURSIVE TrimL(_)
TrimL(s) == IF s # <<>> /\ s[1] \in WS THEN TrimL(Tail(s)) ELSE s
RECURSIVE TrimR(_)
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in WS THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
(* the first position from j on whose character is in cs, or one past the end *)
UpTo(s, j, cs) == IF \A k \in j..Len(s) : s[k] \notin cs THEN Len(s) + 1
                  ELSE CHOOSE k \in j..Len(s) : s[k] \in cs /\ \A x \in j..(k - 1) : s[x] \notin cs
VersionKey == <<98, 117, 110, 100, 108, 101, 46, 118, 101, 114, 115, 105, 111, 110>>
Line(l) ==
  LET a == TrimL(l)
      k == UpTo(a, 1, {58, 32, 9, 35})
      b == TrimL(SubSeq(a, k, Len(a)))
      ok == k <= Len(a) /\ a[k] # 35 /\ b # <<>> /\ b[1] = 58
      c == IF ok THEN TrimL(Tail(b)) ELSE <<>>
  IN [ok |-> ok /\ SubSeq(a, 1, k - 1) # VersionKey, k |-> SubSeq(a, 1, k - 1), v |-> TrimR(SubSeq(c, 1, UpTo(c, 1, {35}) - 1))]
RECURSIVE Split(_, _)
Split(s, d) == LET j == UpTo(s, 1, {d}) IN IF j > Len(s) THEN <<s>> ELSE <<SubSeq(s, 1, j - 1)>> \o Split(SubSeq(s, j + 1, Len(s)), d)
Lines(s) == LET q == Split(s, 10) IN SelectSeq([j \in 1..Len(q) |-> Line(q[j])], LAMBDA x : x.ok)
(* surrounding blanks of a list element are left open *)
ElemIs(s, v) == IF TrimR(TrimL(s)) # s THEN v.t \notin {"L", "M", "D"} ELSE PlainIs(s, v)
TextIs(s, v) ==
  LET q == SelectSeq(Split(s, 124), LAMBDA x : x # <<>>)
      bar == UpTo(s, 1, {124}) <= Len(s) IN
  IF ~bar THEN ElemIs(s, v)
  ELSE IF Len(q) > 1 \/ s[Len(s)] = 124
  THEN v.t = "L" /\ Len(v.l) = Len(q) /\ \A j \in 1..Len(q) : ElemIs(q[j], v.l[j])
  ELSE v.t \notin {"M", "D"}
(* the text denotes the map v: later lines win *)
Denotes(s, v) ==
  LET ls == Lines(s) IN
  /\ v.t = "M"
  /\ MKeys(v.m) = {ls[j].k : j \in 1..Len(ls)}
  /\ \A j \in 1..Len(ls) : (\E x \in (j + 1)..Len(ls) : ls[x].k = ls[j].k) \/ TextIs(ls[j].v, MGet(v.m, ls[j].k))

(* values a header can carry, and what they read back as *)
GoodStr(s) == s # <<>> /\ Form(s) = "str" /\ TrimR(TrimL(s)) = s /\ \A j \in 1..Len(s) : s[j] \notin {10, 35, 124}
GoodKey(s) == s # <<>> /\ s[1] \notin WS /\ s # VersionKey /\ \A j \in 1..Len(s) : s[j] \notin {10, 35, 58, 32, 9}
GoodScalar(v) == CASE v.t = "S" -> GoodStr(v.s) [] v.t = "F" -> ~Special2(v) [] OTHER -> v.t \in {"I", "U", "B"}
GoodValue(v) == IF v.t = "L" THEN \A j \in 1..Len(v.l) : GoodScalar(v.l[j]) ELSE v.t = "N" \/ GoodScalar(v)
GoodMap(v) == v.t = "M" /\ \A j \in 1..Len(v.m) : GoodKey(v.m[j][1]) /\ GoodValue(v.m[j][2])
Conv2(v) == CASE v.t = "B" -> NumOf("I", Dy(IF v.b THEN 1 ELSE 0, NFromInt(IF v.b THEN 1 ELSE 0), 0))
             [] v.t = "N" -> VStr(<<>>)
             [] OTHER -> v
Conv(v) == IF v.t = "L" THEN VList([j \in 1..Len(v.l) |-> Conv2(v.l[j])]) ELSE Conv2(v)
=============================================================================
