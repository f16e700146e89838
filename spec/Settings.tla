------------------------------ MODULE Settings ------------------------------
(* Settings of emitters: which there are, what has been set, and what they do  *)
(* to the text that is written.                                                *)
EXTENDS Num
Bools(f) == CASE f = "json" -> {"pretty", "strict"}
              [] f = "xml" -> {"pretty"}
              [] f = "yaml" -> {"implicit_document_begin", "implicit_document_end"}
              [] OTHER -> {}
Numbers(f) == CASE f = "json" -> {"indent", "precision"}
                [] f = "xml" -> {"indent", "precision"}
                [] f = "yaml" -> {"indent", "width", "precision"}
                [] OTHER -> {"precision"}
Styles(f) == IF f = "yaml" THEN {"scalar_style", "map_style", "list_style"} ELSE {}
Keys(f) == Bools(f) \cup Numbers(f) \cup Styles(f)
(* documented defaults *)
DefaultOK(f, k, v) ==
  CASE f = "json" /\ k = "indent" -> v.t \in {"I", "U"} /\ v.i = 4
    [] k \in Styles(f) -> v.t = "S" /\ v.s = <<97, 110, 121>>
    [] k \in Bools(f) -> v.t = "B" /\ ~v.b
    [] OTHER -> v.t \in {"I", "U"}
(* settings are sequences of <<key, value>>, the last one counts *)
Has2(s, k) == \E j \in 1..Len(s) : s[j][1] = k
Last2(s, k) == LET j == CHOOSE j \in 1..Len(s) : s[j][1] = k /\ \A n \in j+1..Len(s) : s[n][1] # k IN s[j][2]
Lookup(f, s, k) == IF k \in Keys(f) /\ Has2(s, k) THEN Last2(s, k) ELSE [t |-> "N"]
SameSetting(a, b) == IF a.t \in {"I", "U"} /\ b.t \in {"I", "U"} THEN a.i = b.i ELSE a = b
SameAll(f, s, l) == /\ {l[j][1] : j \in 1..Len(l)} = Keys(f) /\ Len(l) = Cardinality(Keys(f))
                    /\ \A j \in 1..Len(l) : SameSetting(Lookup(f, s, l[j][1]), l[j][2])
(* a call and its answer: the settings afterwards *)
After(f, s, x) == CASE x.o = "set" -> Append(s, <<x.k, x.v>>)
                    [] x.o = "setall" -> s \o x.l
                    [] OTHER -> s
AnswerOK(f, s, x, a) == CASE x.o = "get" -> SameSetting(Lookup(f, s, x.k), a)
                          [] x.o = "getall" -> SameAll(f, s, a)
                          [] OTHER -> TRUE
RECURSIVE CallsFrom(_, _, _, _, _)
(* 0 when all are right, else the first that is not *)
CallsFrom(f, s, x, a, j) == IF j > Len(x) THEN 0
                            ELSE LET t == After(f, s, x[j]) IN IF AnswerOK(f, t, x[j], a[j]) THEN CallsFrom(f, t, x, a, j + 1) ELSE j
RECURSIVE Settled(_, _, _, _)
Settled(f, s, x, j) == IF j > Len(x) THEN s ELSE Settled(f, After(f, s, x[j]), x, j + 1)
Flag(f, s, k) == LET v == Lookup(f, s, k) IN v.t = "B" /\ v.b
Amount(f, s, k) == Lookup(f, s, k).i
Style(f, s, k) == Lookup(f, s, k).s
Any2 == <<97, 110, 121>>
Block == <<98, 108, 111, 99, 107>>
Flow == <<102, 108, 111, 119>>

(* ---------------- text ---------------- *)
NL == 10
RECURSIVE Split(_, _, _)
(* lines [from, to] of a text *)
Split(t, j, from) == IF j > Len(t) THEN (IF from > Len(t) THEN <<>> ELSE <<(<<from, Len(t)>>)>>)
                     ELSE IF t[j] = NL THEN <<(<<from, j - 1>>)>> \o Split(t, j + 1, j + 1)
                     ELSE Split(t, j + 1, from)
Lines(t) == Split(t, 1, 1)
RECURSIVE Spaces(_, _, _)
Spaces(t, j, to) == IF j <= to /\ t[j] = 32 THEN 1 + Spaces(t, j + 1, to) ELSE 0
Lead(t, l) == Spaces(t, l[1], l[2])

(* JSON, pretty: every element and every closing bracket on a line of its own *)
Opens == {91, 123}
Closes == {93, 125}
(* walk the rest of a line outside or inside a string: [d, ok] *)
RECURSIVE Walk(_, _, _, _, _)
Walk(t, j, to, str, d) ==
  IF j > to THEN [d |-> d, ok |-> ~str]
  ELSE LET c == t[j] IN
       IF str THEN IF c = 92 THEN Walk(t, j + 2, to, TRUE, d) ELSE Walk(t, j + 1, to, c # 34, d)
       ELSE IF c = 34 THEN Walk(t, j + 1, to, TRUE, d)
       ELSE IF c = 44 THEN [d |-> d, ok |-> j = to]
       ELSE IF c \in Opens THEN IF j < to /\ t[j + 1] = c + 2 THEN Walk(t, j + 2, to, FALSE, d) ELSE [d |-> d + 1, ok |-> j = to]
       ELSE IF c \in Closes THEN [d |-> d, ok |-> FALSE]
       ELSE Walk(t, j + 1, to, FALSE, d)
RECURSIVE PrettyJson(_, _, _, _, _)
PrettyJson(t, ls, j, n, d) ==
  IF j > Len(ls) THEN d = 0
  ELSE LET l == ls[j]
           k == Lead(t, l)
           c == t[l[1] + k]
       IN IF l[1] + k > l[2] THEN FALSE
          ELSE IF c \in Closes THEN LET w == Walk(t, l[1] + k + 1, l[2], FALSE, d - 1) IN k = n * (d - 1) /\ w.ok /\ PrettyJson(t, ls, j + 1, n, w.d)
          ELSE LET w == Walk(t, l[1] + k, l[2], FALSE, d) IN k = n * d /\ w.ok /\ PrettyJson(t, ls, j + 1, n, w.d)
JsonOK(t, s) == IF Flag("json", s, "pretty") THEN PrettyJson(t, Lines(t), 1, Amount("json", s, "indent"), 0)
                ELSE \A j \in 1..Len(t) - 1 : t[j] # NL

(* XML, pretty: every element begins a line; an end tag ends the line of its text or has its own *)
RECURSIVE Find(_, _, _)
Find(t, c, j) == IF j > Len(t) \/ t[j] = c THEN j ELSE Find(t, c, j + 1)
(* the tags of a line: change of depth, number of tags that begin an element *)
RECURSIVE Tags(_, _, _, _)
Tags(t, j, to, r) ==
  LET a == Find(t, 60, j) IN
  IF a > to THEN r
  ELSE LET b == Find(t, 62, a) IN
       IF t[a + 1] \in {63, 33} THEN Tags(t, b + 1, to, r)
       ELSE IF t[a + 1] = 47 THEN Tags(t, b + 1, to, [r EXCEPT !.d = @ - 1])
       ELSE IF t[b - 1] = 47 THEN Tags(t, b + 1, to, [r EXCEPT !.n = @ + 1])
       ELSE Tags(t, b + 1, to, [d |-> r.d + 1, n |-> r.n + 1])
RECURSIVE PrettyXml(_, _, _, _, _)
PrettyXml(t, ls, j, n, d) ==
  IF j > Len(ls) THEN d = 0
  ELSE LET l == ls[j]
           k == Lead(t, l)
           r == Tags(t, l[1], l[2], [d |-> 0, n |-> 0])
       IN IF l[1] + k > l[2] THEN PrettyXml(t, ls, j + 1, n, d)
          ELSE /\ r.n <= 1
               /\ k = n * (IF t[l[1] + k] = 60 /\ t[l[1] + k + 1] = 47 THEN d - 1 ELSE d)
               /\ PrettyXml(t, ls, j + 1, n, d + r.d)
RECURSIVE FindTwo(_, _, _)
FindTwo(t, c, j) == IF j >= Len(t) \/ (t[j] = c[1] /\ t[j + 1] = c[2]) THEN j ELSE FindTwo(t, c, j + 1)
XmlOK(t, s) == IF Flag("xml", s, "pretty") THEN PrettyXml(t, Lines(t), 1, Amount("xml", s, "indent"), 0)
               ELSE LET p == FindTwo(t, <<60, 112>>, 1) IN \A j \in p..Len(t) - 1 : t[j] # NL

(* YAML: marks, styles, indentation; the texts used are words *)
Starts(t, w) == Len(t) >= Len(w) /\ SubSeq(t, 1, Len(w)) = w
Dashes == <<45, 45, 45>>
Dots == <<46, 46, 46>>
LineIs(t, l, w) == SubSeq(t, l[1], l[2]) = w
MarksOK(t, s) == LET ls == Lines(t) IN
                 /\ Starts(t, Dashes) <=> ~Flag("yaml", s, "implicit_document_begin")
                 /\ (\E j \in 1..Len(ls) : LineIs(t, ls[j], Dots)) <=> ~Flag("yaml", s, "implicit_document_end")
Kids(v) == CASE v.t = "L" -> v.l [] v.t = "M" -> [j \in 1..Len(v.m) |-> v.m[j][2]] [] OTHER -> <<>>
RECURSIVE SumSeq(_, _)
SumSeq(q, j) == IF j > Len(q) THEN 0 ELSE q[j] + SumSeq(q, j + 1)
(* how many containers of type y are written with brackets: at least, at most *)
RECURSIVE Bracketed(_, _, _, _, _)
Bracketed(v, y, s, inflow, open) ==
  IF v.t \notin {"L", "M"} THEN 0
  ELSE LET st == Style("yaml", s, IF v.t = "L" THEN "list_style" ELSE "map_style")
           b == inflow \/ Kids(v) = <<>> \/ st = Flow \/ (open /\ st = Any2)
       IN (IF b /\ v.t = y THEN 1 ELSE 0) + SumSeq([j \in 1..Len(Kids(v)) |-> Bracketed(Kids(v)[j], y, s, b, open)], 1)
CountOf(t, c) == Cardinality({j \in 1..Len(t) : t[j] = c})
StylesOK(t, v, s) == /\ CountOf(t, 123) \in Bracketed(v, "M", s, FALSE, FALSE)..Bracketed(v, "M", s, FALSE, TRUE)
                     /\ CountOf(t, 91) \in Bracketed(v, "L", s, FALSE, FALSE)..Bracketed(v, "L", s, FALSE, TRUE)
(* maps in block style whose members are words or such maps: depth of each line *)
RECURSIVE Nested(_)
Nested(v) == v.t = "M" /\ v.m # <<>> /\ \A j \in 1..Len(v.m) : (v.m[j][2].t = "S" /\ Len(v.m[j][2].s) < 10) \/ (v.m[j][2].t = "M" /\ Nested(v.m[j][2]))
RECURSIVE Depths(_, _, _)
Depths(v, d, j) == IF j > Len(v.m) THEN <<>>
                   ELSE <<d>> \o (IF v.m[j][2].t = "M" THEN Depths(v.m[j][2], d + 1, 1) ELSE <<>>) \o Depths(v, d, j + 1)
IndentOK(t, v, s) ==
  IF ~(Nested(v) /\ Style("yaml", s, "map_style") = Block /\ Style("yaml", s, "scalar_style") \notin {<<108, 105, 116, 101, 114, 97, 108>>, <<102, 111, 108, 100, 101, 100>>}
       /\ Amount("yaml", s, "indent") \in 2..9) THEN TRUE
  ELSE LET ls == SelectSeq(Lines(t), LAMBDA l : ~LineIs(t, l, Dashes) /\ ~LineIs(t, l, Dots))
           ds == Depths(v, 0, 1)
       IN Len(ls) = Len(ds) /\ \A j \in 1..Len(ls) : Lead(t, ls[j]) = Amount("yaml", s, "indent") * ds[j]
(* a text of many words is broken near the preferred width; words are at most 5 long *)
Longest == 8
WidthOK(t, v, s) ==
  IF ~(v.t = "M" /\ Len(v.m) = 1 /\ v.m[1][2].t = "S" /\ Len(v.m[1][2].s) > 100 /\ Amount("yaml", s, "width") \in 20..1000
       /\ Style("yaml", s, "scalar_style") # <<108, 105, 116, 101, 114, 97, 108>>) THEN TRUE
  ELSE LET ls == Lines(t)
           w == Amount("yaml", s, "width")
           size(j) == ls[j][2] - ls[j][1] + 1
           long == {j \in 1..Len(ls) : size(j) > Longest + 5}
       IN /\ \A j \in long : size(j) <= w + Longest + 1
          \* only the line before a folded text and the last one are short
          /\ \A j \in long : (\E k \in long : k > j) => size(j) >= w - Longest - 1
(* quotes: every text in the wanted kind *)
RECURSIVE Texts(_)
Texts(v) == IF v.t = "S" THEN 1 ELSE SumSeq([j \in 1..Len(Kids(v)) |-> Texts(Kids(v)[j])], 1) + (IF v.t = "M" THEN Len(v.m) ELSE 0)
QuotesOK(t, v, s) ==
  CASE Style("yaml", s, "scalar_style") = <<100, 111, 117, 98, 108, 101, 32, 113, 117, 111, 116, 101, 100>> -> CountOf(t, 34) = 2 * Texts(v)
    [] Style("yaml", s, "scalar_style") = <<115, 105, 110, 103, 108, 101, 32, 113, 117, 111, 116, 101, 100>> -> CountOf(t, 39) = 2 * Texts(v)
    [] Style("yaml", s, "scalar_style") = <<112, 108, 97, 105, 110>> -> CountOf(t, 34) = 0 /\ CountOf(t, 39) = 0
    [] OTHER -> TRUE
YamlOK(t, v, s) == MarksOK(t, s) /\ StylesOK(t, v, s) /\ IndentOK(t, v, s) /\ WidthOK(t, v, s) /\ QuotesOK(t, v, s)

(* precision: the number after the last "k" has at most p digits and is x rounded to them *)
NumChar(c) == Dig(c) \/ c \in {43, 45, 46, 69, 101}
RECURSIVE LastK(_, _)
LastK(t, j) == IF j = 0 THEN 0 ELSE IF t[j] = 107 THEN j ELSE LastK(t, j - 1)
RECURSIVE FirstNum(_, _)
FirstNum(t, j) == IF j > Len(t) \/ Dig(t[j]) \/ t[j] = 45 THEN j ELSE FirstNum(t, j + 1)
RECURSIVE EndNum(_, _)
EndNum(t, j) == IF j <= Len(t) /\ NumChar(t[j]) THEN EndNum(t, j + 1) ELSE j
NumberIn(t) == LET a == FirstNum(t, LastK(t, Len(t))) IN SubSeq(t, a, EndNum(t, a) - 1)
RECURSIVE NoZeros(_, _)
NoZeros(n, x) == IF n # <<>> /\ NDivSmall(n, 10).r = 0 THEN NoZeros(NDivSmall(n, 10).q, x + 1) ELSE [n |-> n, x |-> x]
Shift10(n, k) == IF k <= 0 THEN n ELSE NMul(n, NPow10(k))
Dist(a, b) == IF NCmp(a, b) >= 0 THEN NSub(a, b) ELSE NSub(b, a)
Rounded(w, v, p) ==
  LET dec == DecText(w)
      z == NoZeros(dec.n, dec.x)
      d == ToDy(v)
      k == z.x - (p - Len(NToDigits(z.n)))     \* power of ten of the last of p digits
      two == IF d.e < 0 THEN 0 - d.e ELSE 0
  IN IF d.g = 0 THEN dec.ok /\ dec.n = <<>>
     ELSE /\ dec.ok /\ dec.n # <<>>
          /\ (dec.neg <=> d.g < 0)
          /\ Len(NToDigits(z.n)) <= p
          \* 2 |x - written| <= 10^k, all times 2^two and 10^-k
          /\ LET x == Shift10(IF d.e < 0 THEN d.m ELSE NShl(d.m, d.e), 0 - k)
                 y == NShl(Shift10(z.n, IF k < 0 THEN z.x - k ELSE z.x), two)
                 u == NShl(Shift10(NOne, k), two)
             IN NCmp(NMulSmall(Dist(x, y), 2), u) <= 0
RECURSIVE Inexpressible(_)
Inexpressible(v) == IF v.t = "F" THEN Special2(v) ELSE IF v.t = "D" THEN TRUE
                    ELSE \E j \in 1..Len(Kids(v)) : Inexpressible(Kids(v)[j])
=============================================================================
