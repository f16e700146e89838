----------------------------- MODULE TracePayload ---------------------------
EXTENDS Payload, Bundle, Judge
PKeyOf(s) == [t |-> "S", s |-> s]
Pay == <<112, 97, 121, 108, 111, 97, 100>>
Data == <<100, 97, 116, 97>>
Length == <<108, 101, 110, 103, 116, 104>>
Place(c, field, last) ==
  IF field \in DOMAIN c THEN c[field]
  ELSE IF c.f = "bundle" THEN <<PKeyOf(Pay \o <<46>> \o last)>> ELSE <<PKeyOf(Pay), PKeyOf(last)>>
RECURSIVE CatFrom(_, _)
CatFrom(p, j) == IF j > Len(p) THEN <<>> ELSE p[j] \o CatFrom(p, j + 1)
SmallNat(v) == IF v.g = 0 THEN 0 ELSE v.m[1] * P2(v.e)
(* one record r of case c *)
Rec(c, r) ==
  LET dp == Place(c, "dp", Data)  lp == Place(c, "lp", Length)
      has == "p" \in DOMAIN r
      p == IF has THEN CatFrom(r.p, 1) ELSE <<>>
      ign == "ign" \in DOMAIN c /\ c.ign
      n == IF "n" \in DOMAIN c THEN c.n ELSE IF has THEN Len(p)
           ELSE IF ign /\ HasAt(r.v, lp, 1) /\ GetAt(r.v, lp, 1).t \in {"I", "U"} THEN SmallNat(GetAt(r.v, lp, 1)) ELSE 0
      full == IF has /\ dp # <<>> /\ FitsAt(r.v, dp, 1) THEN SetAt(r.v, dp, 1, VBlob(p)) ELSE r.v
      in == /\ r.v.t = "M" /\ dp # <<>> /\ lp # <<>> /\ Apart(dp, lp)
            /\ FitsAt(r.v, dp, 1) /\ FitsAt(full, lp, 1) /\ (has \/ ~HasAt(r.v, dp, 1))
            /\ (ign /\ HasAt(r.v, lp, 1) => GetAt(r.v, lp, 1).t \in {"I", "U"})
      raw == IF in THEN Header(r.v, has, dp, lp, p, n) ELSE VNull
      inb == c.f = "bundle" => (Len(dp) = 1 /\ Len(lp) = 1 /\ GoodMap(raw))
      h == IF c.f = "bundle" /\ inb /\ in THEN VMap([j \in 1..Len(raw.m) |-> <<raw.m[j][1], Conv(raw.m[j][2])>>]) ELSE raw
  IN [in |-> in /\ inb, h |-> h, dp |-> dp, n |-> n, w |-> IF has /\ ~ign THEN p ELSE <<>>]
BackIs(x, avail, b) ==
  IF x.n <= avail THEN b.o = "ok" /\ Same(Whole(x.h, x.dp, x.w, x.n), b.v) ELSE b.o = "err"
PlOK(c, r) ==
  LET x == Rec(c, c) IN
  x.in => /\ r.o = "ok" /\ r.z > 0 /\ r.z % 32 = 0 /\ r.rest = x.w
          /\ r.h.o = "ok" /\ Same(x.h, r.h.v)
          /\ (r.k >= r.e => BackIs(x, Max2(0, r.k - r.z), r.back))
SeqOK(c, r) ==
  LET x == [j \in 1..Len(c.rs) |-> Rec(c, c.rs[j])] IN
  (\A j \in 1..Len(x) : x[j].in) => /\ r.o = "ok"
                                    /\ \A j \in 1..Len(x) : r.back[j].o = "ok" /\ Same(Whole(x[j].h, x[j].dp, x[j].w, x[j].n), r.back[j].v)
ConvMap(v) == VMap([j \in 1..Len(v.m) |-> <<v.m[j][1], Conv(v.m[j][2])>>])
Verdict(e) ==
  IF e.r.o \in {"crash", "hang"} THEN FALSE
  ELSE CASE e.c.op = "pl" -> PlOK(e.c, e.r)
         [] e.c.op = "plseq" -> SeqOK(e.c, e.r)
         [] e.c.op = "bread" -> e.c.s # <<>> => (e.r.o = "ok" /\ Denotes(e.c.s, e.r.v))
         [] e.c.op = "bh" -> GoodMap(e.c.v) => (e.r.o = "ok" /\ Denotes(e.r.s, ConvMap(e.c.v)) /\ Same(ConvMap(e.c.v), e.r.v))
Expected(e) == CASE e.c.op = "pl" -> ToString(Rec(e.c, e.c)) [] e.c.op = "bread" -> ToString(Lines(e.c.s)) [] OTHER -> "the values written"
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
