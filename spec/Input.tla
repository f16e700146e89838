-------------------------------- MODULE Input -------------------------------
(* An input hands out the bytes of its source in order.  off: bytes released,  *)
(* held: bytes handed out by the last get and not released since.              *)
EXTENDS Val
GetOK(s, off, want, x) ==
  LET rem == Len(s) - off IN
  IF rem = 0 THEN x.n = 0
  ELSE /\ ~x.z /\ x.n >= Min2(Max2(want, 1), rem) /\ x.n <= rem
       /\ x.b = SubSeq(s, off + 1, off + x.n)
RECURSIVE StepsOK(_, _, _, _, _, _)
StepsOK(s, a, r, j, off, held) ==
  IF j > Len(a) THEN TRUE
  ELSE IF a[j].k = "rel"
  THEN r[j].n = Min2(a[j].n, held) /\ StepsOK(s, a, r, j + 1, off + r[j].n, held - r[j].n)
  ELSE GetOK(s, off, a[j].n, r[j]) /\ StepsOK(s, a, r, j + 1, off, r[j].n)

WS == {32, 9, 10, 11, 12, 13}
Guessed(s) == IF \E j \in 1..Len(s) : s[j] = 60 /\ \A k \in 1..(j - 1) : s[k] \in WS THEN "xml" ELSE "yaml"
SameKind(x, y) == x.o = y.o /\ (x.o = "ok" => x.v = y.v)
=============================================================================
