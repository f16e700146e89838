-------------------------------- MODULE Uri ---------------------------------
(* URI references (RFC 3986): components (appendix B), resolution (5.2) and  *)
(* recomposition (5.3), on byte strings.  Components keep their delimiters,  *)
(* so "absent" and "present but empty" differ.                               *)
EXTENDS Patch

Colon == 58
Quest == 63
Hash == 35
Dot == 46

RECURSIVE FirstOf(_, _, _)
FirstOf(u, k, cs) == IF k > Len(u) \/ u[k] \in cs THEN k ELSE FirstOf(u, k + 1, cs)
Part(u, a, b) == IF a > b THEN <<>> ELSE SubSeq(u, a, b)

Split(u) ==
  LET n == Len(u)
      c == FirstOf(u, 1, {Colon, Slash, Quest, Hash})
      s == IF c <= n /\ c > 1 THEN (IF u[c] = Colon THEN c ELSE 0) ELSE 0
      au == s + 2 <= n /\ u[Min2(s + 1, n)] = Slash /\ u[Min2(s + 2, n)] = Slash
      a == IF au THEN FirstOf(u, s + 3, {Slash, Quest, Hash}) - 1 ELSE s
      p == FirstOf(u, a + 1, {Quest, Hash}) - 1
      q == FirstOf(u, p + 1, {Hash}) - 1
  IN [s |-> Part(u, 1, s), a |-> Part(u, s + 1, a), p |-> Part(u, a + 1, p),
      q |-> Part(u, p + 1, q), f |-> Part(u, q + 1, n)]

StartsWith(u, x) == Len(u) >= Len(x) /\ SubSeq(u, 1, Len(x)) = x
EndsWith(u, x) == Len(u) >= Len(x) /\ SubSeq(u, Len(u) - Len(x) + 1, Len(u)) = x
RECURSIVE LastOf(_, _, _)
LastOf(u, k, c) == IF k = 0 THEN 0 ELSE IF u[k] = c THEN k ELSE LastOf(u, k - 1, c)

(* 5.2.4, letter by letter *)
DropLast(out) == SubSeq(out, 1, Max2(0, LastOf(out, Len(out), Slash) - 1))
RECURSIVE Dots(_, _)
Dots(in, out) ==
  IF in = <<>> THEN out
  ELSE IF StartsWith(in, <<Dot, Dot, Slash>>) THEN Dots(SubSeq(in, 4, Len(in)), out)
  ELSE IF StartsWith(in, <<Dot, Slash>>) THEN Dots(SubSeq(in, 3, Len(in)), out)
  ELSE IF StartsWith(in, <<Slash, Dot, Slash>>) THEN Dots(SubSeq(in, 3, Len(in)), out)
  ELSE IF in = <<Slash, Dot>> THEN Dots(<<Slash>>, out)
  ELSE IF StartsWith(in, <<Slash, Dot, Dot, Slash>>) THEN Dots(SubSeq(in, 4, Len(in)), DropLast(out))
  ELSE IF in = <<Slash, Dot, Dot>> THEN Dots(<<Slash>>, DropLast(out))
  ELSE IF in = <<Dot>> \/ in = <<Dot, Dot>> THEN out
  ELSE LET e == FirstOf(in, 2, {Slash}) - 1 IN
       Dots(SubSeq(in, e + 1, Len(in)), out \o SubSeq(in, 1, e))

(* a path that does not start with a slash stays so: dot segments are taken  *)
(* out of the segment list                                                   *)
RECURSIVE Walk(_, _, _)
Walk(segs, k, out) ==
  IF k > Len(segs) THEN [ok |-> TRUE, out |-> out]
  ELSE IF segs[k] = <<Dot>> THEN Walk(segs, k + 1, out)
  ELSE IF segs[k] = <<Dot, Dot>>
       THEN IF out = <<>> THEN [ok |-> FALSE] ELSE Walk(segs, k + 1, SubSeq(out, 1, Len(out) - 1))
  ELSE Walk(segs, k + 1, Append(out, segs[k]))
RECURSIVE Join(_)
Join(segs) == IF segs = <<>> THEN <<>> ELSE IF Len(segs) = 1 THEN segs[1]
              ELSE segs[1] \o <<Slash>> \o Join(Tail(segs))
(* [ok, v]: not ok when ".." climbs out of the top, where the library keeps  *)
(* its own documented reading                                                *)
Clean(p) ==
  IF p = <<>> THEN Good(<<>>)
  ELSE IF p[1] = Slash
  THEN IF Walk(SplitSlash(Tail(p), <<>>), 1, <<>>).ok THEN Good(Dots(p, <<>>)) ELSE Fail
  ELSE LET segs == SplitSlash(p, <<>>)
           w == Walk(segs, 1, <<>>)
           dir == segs[Len(segs)] \in {<<Dot>>, <<Dot, Dot>>}
       IN IF ~w.ok THEN Fail
          ELSE IF w.out = <<>> THEN Good(<<>>)
          ELSE IF w.out[1] = <<>> THEN (IF w.out = <<(<<>>)>> /\ ~dir THEN Good(<<>>) ELSE Fail)
          ELSE Good(Join(w.out) \o (IF dir THEN <<Slash>> ELSE <<>>))

(* 5.2.2: target components; path is [ok, v] *)
Target(bu, ru) ==
  LET b == Split(bu)
      r == Split(ru)
  IN IF r.s # <<>> THEN [r EXCEPT !.p = Clean(r.p)]
     ELSE IF r.a # <<>> THEN [r EXCEPT !.s = b.s, !.p = Clean(r.p)]
     ELSE IF r.p = <<>>
          THEN [s |-> b.s, a |-> b.a, p |-> Clean(b.p), q |-> (IF r.q # <<>> THEN r.q ELSE b.q), f |-> r.f]
     ELSE IF r.p[1] = Slash THEN [s |-> b.s, a |-> b.a, p |-> Clean(r.p), q |-> r.q, f |-> r.f]
     ELSE LET m == IF b.a # <<>> /\ b.p = <<>> THEN <<Slash>> \o r.p
                   ELSE SubSeq(b.p, 1, LastOf(b.p, Len(b.p), Slash)) \o r.p
          IN [s |-> b.s, a |-> b.a, p |-> Clean(m), q |-> r.q, f |-> r.f]

(* [ok, v] *)
Resolve(bu, ru) ==
  LET t == Target(bu, ru) IN
  IF t.p.ok THEN Good(t.s \o t.a \o t.p.v \o t.q \o t.f) ELSE Fail

(* is u an allowed result of resolving ru against bu *)
Resolved(bu, ru, u) ==
  LET t == Target(bu, ru)
      pre == t.s \o t.a
      post == t.q \o t.f
  IN IF t.p.ok THEN u = pre \o t.p.v \o post
     ELSE Len(u) >= Len(pre) + Len(post) /\ StartsWith(u, pre) /\ EndsWith(u, post)

(* percent decoding *)
Hex(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE 16
RECURSIVE Decode(_)
Decode(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] = 37 /\ Len(s) >= 3 THEN
       IF Hex(s[2]) < 16 /\ Hex(s[3]) < 16 THEN <<16 * Hex(s[2]) + Hex(s[3])>> \o Decode(SubSeq(s, 4, Len(s)))
       ELSE <<s[1]>> \o Decode(Tail(s))
  ELSE <<s[1]>> \o Decode(Tail(s))
=============================================================================
