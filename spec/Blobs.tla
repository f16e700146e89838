-------------------------------- MODULE Blobs -------------------------------
(* Base64 and the life of blobs: objects hold bytes, handles refer to objects, *)
(* memory handed over is released once, when the last handle is gone.          *)
EXTENDS Val

Char64(k) == IF k < 26 THEN 65 + k ELSE IF k < 52 THEN 71 + k ELSE IF k < 62 THEN k - 4 ELSE IF k = 62 THEN 43 ELSE 47
RECURSIVE EncAt(_, _)
EncAt(d, j) ==
  LET n == Len(d) - j + 1 IN
  IF n <= 0 THEN <<>>
  ELSE LET x == d[j] y == IF n > 1 THEN d[j + 1] ELSE 0 z == IF n > 2 THEN d[j + 2] ELSE 0 IN
       << Char64(x \div 4), Char64((x % 4) * 16 + (y \div 16)),
          IF n > 1 THEN Char64((y % 16) * 4 + (z \div 64)) ELSE 61,
          IF n > 2 THEN Char64(z % 64) ELSE 61 >> \o EncAt(d, j + 3)
Enc(d) == EncAt(d, 1)
Val64(c) == IF c >= 65 /\ c <= 90 THEN c - 65 ELSE IF c >= 97 /\ c <= 122 THEN c - 71
            ELSE IF c >= 48 /\ c <= 57 THEN c + 4 ELSE IF c = 43 THEN 62 ELSE IF c = 47 THEN 63 ELSE 64
RECURSIVE DecAt(_, _)
DecAt(s, j) ==
  IF j > Len(s) THEN <<>>
  ELSE LET a == Val64(s[j]) b == Val64(s[j + 1]) c == Val64(s[j + 2]) d == Val64(s[j + 3]) IN
       <<a * 4 + (b \div 16)>> \o (IF c = 64 THEN <<>> ELSE <<(b % 16) * 16 + (c \div 4)>>)
       \o (IF d = 64 THEN <<>> ELSE <<(c % 4) * 64 + d>>) \o DecAt(s, j + 4)
Dec(s) == DecAt(s, 1)
Breaks == {10, 13}
Strip(s) == SelectSeq(s, LAMBDA c : c \notin Breaks)
(* no line longer than w *)
LinesOK(s, w) == \A j \in 1..(Len(s) - w) : \E k \in j..(j + w) : s[k] \in Breaks

---------------------------------------------------------------------------
RECURSIVE Cat(_, _)
Cat(p, j) == IF j > Len(p) THEN <<>> ELSE p[j] \o Cat(p, j + 1)
Sgn(n) == IF n > 0 THEN 1 ELSE IF n < 0 THEN 0 - 1 ELSE 0

(* state: o objects [b bytes, k how many pieces are to be released, r released], h handles (0: none) *)
Start(n) == [o |-> <<>>, h |-> [j \in 1..n |-> 0]]
Held(s, x) == \E j \in 1..Len(s.h) : s.h[j] = x
Settle(s) == [s EXCEPT !.o = [x \in 1..Len(s.o) |-> IF Held(s, x) THEN s.o[x] ELSE [s.o[x] EXCEPT !.r = TRUE]]]
Obj(b, k) == [b |-> b, k |-> k, r |-> FALSE]
Step(s, a) ==
  LET h == a.h + 1 IN
  CASE a.k = "new" -> LET q == [s EXCEPT !.o = Append(s.o, Obj(Cat(a.p, 1), IF a.how \in {"own", "free"} THEN Len(a.p) ELSE 0))]
                      IN Settle([q EXCEPT !.h[h] = Len(q.o)])
    [] a.k \in {"asg", "var"} -> Settle([s EXCEPT !.h[h] = s.h[a.g + 1]])
    [] a.k \in {"dup", "vdup"} -> IF s.h[a.g + 1] = 0 THEN Settle([s EXCEPT !.h[h] = 0])
                        ELSE LET q == [s EXCEPT !.o = Append(s.o, Obj(s.o[s.h[a.g + 1]].b, 0))] IN Settle([q EXCEPT !.h[h] = Len(q.o)])
    [] a.k = "drop" -> Settle([s EXCEPT !.h[h] = 0])
    [] a.k = "poke" -> IF s.h[h] = 0 \/ a.at >= Len(s.o[s.h[h]].b) THEN s ELSE [s EXCEPT !.o[s.h[h]].b[a.at + 1] = a.v]
RECURSIVE NumsAt(_, _)
NumsAt(o, x) == IF x > Len(o) THEN <<>> ELSE [j \in 1..o[x].k |-> IF o[x].r THEN 1 ELSE 0] \o NumsAt(o, x + 1)
Look(s) ==
  [ h |-> [j \in 1..Len(s.h) |-> IF s.h[j] = 0 THEN [n |-> TRUE, b |-> <<>>, l |-> 0]
                                 ELSE [n |-> FALSE, b |-> s.o[s.h[j]].b, l |-> Len(s.o[s.h[j]].b)]],
    c |-> [j \in 1..Len(s.h) |-> [k \in 1..Len(s.h) |-> IF s.h[j] = 0 \/ s.h[k] = 0 THEN 9
                                                        ELSE Sgn(CmpBytes(s.o[s.h[j]].b, s.o[s.h[k]].b))]],
    f |-> NumsAt(s.o, 1) ]
RECURSIVE Looks(_, _, _)
Looks(s, a, j) == IF j > Len(a) THEN <<>> ELSE LET q == Step(s, a[j]) IN <<Look(q)>> \o Looks(q, a, j + 1)
=============================================================================
