---------------------------- MODULE MCSettings ------------------------------
(* The rules for precision and layout against independent definitions on small *)
(* instances: rounding by integers, a writer of pretty JSON and its mutilations. *)
EXTENDS Settings, Val
VARIABLES k, c, done
vars == <<k, c, done>>
(* m / 8 against n * 10^x, p digits *)
Ms == 1..20 \cup {76, 77, 99, 100, 124, 125}
Ns == 1..13 \cup {20, 95, 97, 99, 100, 102, 125}
Nums == [m : Ms, n : Ns, x : {0 - 1, 0, 1}, p : 1..3]
Abs(z) == IF z < 0 THEN 0 - z ELSE z
RECURSIVE Pow(_)
Pow(j) == IF j = 0 THEN 1 ELSE 10 * Pow(j - 1)
Sig(n) == IF n % 10 = 0 THEN LET q == n \div 10 IN IF q % 10 = 0 THEN q \div 10 ELSE q ELSE n
DigitsOf(n) == IF n >= 1000 THEN 4 ELSE IF n >= 100 THEN 3 ELSE IF n >= 10 THEN 2 ELSE 1
ShortDec(n) == IF n >= 100 THEN <<48 + (n \div 100), 48 + ((n \div 10) % 10), 48 + (n % 10)>> ELSE IF n >= 10 THEN <<48 + (n \div 10), 48 + (n % 10)>> ELSE <<48 + n>>
TextOf(n, x) == IF x = 0 THEN ShortDec(n) ELSE IF x > 0 THEN ShortDec(n) \o <<101, 49>> ELSE ShortDec(n) \o <<101, 45, 49>>
(* everything times 8000: the value is m * 1000, the text n * 8000 * 10^x *)
NumOK(a) ==
  LET t == CASE a.x = 0 -> a.n * 8000 [] a.x = 1 -> a.n * 80000 [] OTHER -> a.n * 800
      v == a.m * 1000
      \* number of digits before the point of the text (n * 10^x), at least 0 when below 1
      lead == DigitsOf(a.n) + a.x
      \* unit of the last of p digits, times 8000
      u == IF lead - a.p >= 0 THEN 8000 * Pow(lead - a.p) ELSE 8000 \div Pow(a.p - lead)
  IN DigitsOf(Sig(a.n)) <= a.p /\ 2 * Abs(v - t) <= u
NumAgrees(a) == Rounded(TextOf(a.n, a.x), [t |-> "F", g |-> 1, m |-> NFromInt(a.m), e |-> 0 - 3], a.p) = NumOK(a)
(* a writer of pretty JSON *)
Nl(n, d) == <<NL>> \o [j \in 1..n * d |-> 32]
RECURSIVE Write(_, _, _)
RECURSIVE Items(_, _, _, _)
Items(l, n, d, j) == IF j > Len(l) THEN <<>> ELSE (IF j > 1 THEN <<44>> ELSE <<>>) \o Nl(n, d) \o Write(l[j], n, d) \o Items(l, n, d, j + 1)
Write(v, n, d) == CASE v.t = "L" -> <<91>> \o Items(v.l, n, d + 1, 1) \o Nl(n, d) \o <<93>>
                    [] v.t = "S" -> <<34>> \o v.s \o <<34>>
                    [] OTHER -> <<49>>
Small == {VInt(1), VStr(<<44, 91>>), VStr(<<92, 34>>)}
One2 == {VList(<<>>)} \cup {VList(<<x>>) : x \in Small} \cup {VList(<<x, y>>) : x \in Small, y \in Small}
Two2 == One2 \cup {VList(<<x, y>>) : x \in One2, y \in Small} \cup {VList(<<x>>) : x \in One2}
Pretty(n) == <<(<<"pretty", [t |-> "B", b |-> TRUE]>>), <<"indent", [t |-> "U", i |-> n]>> >>
Cut(t, j) == SubSeq(t, 1, j - 1) \o SubSeq(t, j + 1, Len(t))
LayoutAgrees(a) == LET t == Write(a.v, a.n, 0) IN
                   /\ JsonOK(t, Pretty(a.n))
                   /\ ~JsonOK(t, Pretty(a.n + 1)) \/ a.v.l = <<>>
                   /\ \A j \in 1..Len(t) : t[j] \in {NL, 32} => (~JsonOK(Cut(t, j), Pretty(a.n)) \/ (a.v.l = <<>> \/ \E q \in 1..Len(t) - 1 : q >= j - 2 /\ q < j /\ t[q] = 91))
Init == k = "pick" /\ c = <<>> /\ done = FALSE
Next == \/ /\ k = "pick" /\ \E a \in Nums : c' = a
           /\ k' = "num" /\ done' = FALSE
        \/ /\ k = "pick" /\ \E a \in [v : Two2, n : 1..2] : c' = a
           /\ k' = "layout" /\ done' = FALSE
        \/ /\ k \in {"num", "layout"} /\ ~done /\ done' = TRUE /\ UNCHANGED <<k, c>>
           /\ Assert(IF k = "num" THEN NumAgrees(c) ELSE LayoutAgrees(c), <<"disagrees", k, c>>)
=============================================================================
