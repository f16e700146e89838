------------------------------- MODULE Regex --------------------------------
(* Regular expressions common to ECMA 262 and POSIX: literals, '.', classes, *)
(* anchors, groups, alternation, * + ? and {m}, {m,}, {m,n}.  A match is     *)
(* searched anywhere in the text.  Positions are 0-based gaps.               *)
EXTENDS Patch

Eps == [k |-> "eps"]
(* parsers return [n node, k position after it] *)
RECURSIVE ClassItems(_, _, _)
ClassItems(s, k, acc) ==       \* k at an item or the closing bracket
  IF s[k] = 93 /\ acc # {} THEN [n |-> acc, k |-> k + 1]
  ELSE IF k + 2 <= Len(s) /\ s[k + 1] = 45 /\ s[Min2(k + 2, Len(s))] # 93
  THEN ClassItems(s, k + 3, acc \cup (s[k]..s[k + 2]))
  ELSE ClassItems(s, k + 1, acc \cup {s[k]})
RECURSIVE Digits(_, _, _)
Digits(s, k, acc) == IF k <= Len(s) /\ IsDigit(s[Min2(k, Len(s))]) THEN Digits(s, k + 1, 10 * acc + (s[k] - 48)) ELSE [n |-> acc, k |-> k]
At0(s, k) == IF k <= Len(s) THEN s[k] ELSE 0
Quantified(s, k, a) ==
  CASE At0(s, k) = 42 -> [n |-> [k |-> "rep", a |-> a, lo |-> 0, hi |-> 0 - 1], k |-> k + 1]
    [] At0(s, k) = 43 -> [n |-> [k |-> "rep", a |-> a, lo |-> 1, hi |-> 0 - 1], k |-> k + 1]
    [] At0(s, k) = 63 -> [n |-> [k |-> "rep", a |-> a, lo |-> 0, hi |-> 1], k |-> k + 1]
    [] At0(s, k) = 123 ->
       LET lo == Digits(s, k + 1, 0) IN
       IF s[lo.k] = 125 THEN [n |-> [k |-> "rep", a |-> a, lo |-> lo.n, hi |-> lo.n], k |-> lo.k + 1]
       ELSE IF s[lo.k + 1] = 125 THEN [n |-> [k |-> "rep", a |-> a, lo |-> lo.n, hi |-> 0 - 1], k |-> lo.k + 2]
       ELSE LET hi == Digits(s, lo.k + 1, 0) IN
            [n |-> [k |-> "rep", a |-> a, lo |-> lo.n, hi |-> hi.n], k |-> hi.k + 1]
    [] OTHER -> [n |-> a, k |-> k]
RECURSIVE Alt(_, _), Cat(_, _), Atom(_, _)
Atom(s, k) ==
  CASE s[k] = 40 -> LET a == Alt(s, k + 1) IN [n |-> a.n, k |-> a.k + 1]
    [] s[k] = 91 -> IF s[k + 1] = 94
                    THEN LET c == ClassItems(s, k + 2, {}) IN [n |-> [k |-> "not", c |-> c.n], k |-> c.k]
                    ELSE LET c == ClassItems(s, k + 1, {}) IN [n |-> [k |-> "in", c |-> c.n], k |-> c.k]
    [] s[k] = 46 -> [n |-> [k |-> "not", c |-> {10}], k |-> k + 1]
    [] s[k] = 94 -> [n |-> [k |-> "bol"], k |-> k + 1]
    [] s[k] = 36 -> [n |-> [k |-> "eol"], k |-> k + 1]
    [] s[k] = 92 -> [n |-> [k |-> "in", c |-> {s[k + 1]}], k |-> k + 2]
    [] OTHER -> [n |-> [k |-> "in", c |-> {s[k]}], k |-> k + 1]
Cat(s, k) ==
  IF At0(s, k) \in {0, 124, 41} THEN [n |-> Eps, k |-> k]
  ELSE LET a == Atom(s, k)
           q == Quantified(s, a.k, a.n)
           r == Cat(s, q.k)
       IN [n |-> [k |-> "cat", a |-> q.n, b |-> r.n], k |-> r.k]
Alt(s, k) ==
  LET a == Cat(s, k) IN
  IF At0(s, a.k) # 124 THEN a
  ELSE LET b == Alt(s, a.k + 1) IN [n |-> [k |-> "alt", a |-> a.n, b |-> b.n], k |-> b.k]
Parse(s) == Alt(s, 1).n

(* ends of matches of n in t starting at the positions P *)
RECURSIVE Ends(_, _, _), Times(_, _, _, _), Closure(_, _, _)
Times(n, t, P, j) == IF j = 0 THEN P ELSE Times(n, t, Ends(n, t, P), j - 1)
Closure(n, t, P) == LET Q == P \cup Ends(n, t, P) IN IF Q = P THEN P ELSE Closure(n, t, Q)
RECURSIVE UpTo(_, _, _, _)
UpTo(n, t, P, j) == IF j = 0 THEN P ELSE P \cup UpTo(n, t, Ends(n, t, P), j - 1)
Ends(n, t, P) ==
  CASE n.k = "eps" -> P
    [] n.k = "in" -> {p + 1 : p \in {q \in P : q < Len(t) /\ t[Min2(q + 1, Len(t))] \in n.c}}
    [] n.k = "not" -> {p + 1 : p \in {q \in P : q < Len(t) /\ t[Min2(q + 1, Len(t))] \notin n.c}}
    [] n.k = "bol" -> P \cap {0}
    [] n.k = "eol" -> P \cap {Len(t)}
    [] n.k = "cat" -> Ends(n.b, t, Ends(n.a, t, P))
    [] n.k = "alt" -> Ends(n.a, t, P) \cup Ends(n.b, t, P)
    [] n.k = "rep" -> LET Q == Times(n.a, t, P, n.lo) IN
                      IF n.hi < 0 THEN Closure(n.a, t, Q) ELSE UpTo(n.a, t, Q, n.hi - n.lo)
Matches(re, t) == Ends(Parse(re), t, 0..Len(t)) # {}
=============================================================================
