--------------------------- MODULE TraceDefaults ----------------------------
EXTENDS Defaults, Judge
KSchema == Txt("$schema")
RECURSIVE Docs(_, _)
Docs(ds, reg) == IF ds = <<>> THEN reg ELSE Docs(Tail(ds), AddAll(reg, Registrations(Resource(ds[1][1]), ds[1][2])))
Stack(c) == IF c.s.t = "M" THEN <<Docs(c.docs, <<>>), AddAll(<<>>, Registrations(<<>>, c.s))>> ELSE <<Docs(c.docs, <<>>)>>
Root(c, st) ==
  CASE c.s.t = "M" -> st[2][1][2]
    [] c.s.t = "S" -> Lookup(st, c.s.s).v
    [] OTHER -> VMap(<< <<KRef, VStr(Str(c.d, KSchema))>> >>)
Result(c) == LET st == Stack(c) IN Filled(st, IF c.s.t = "S" THEN c.s.s ELSE <<>>, Root(c, st), c.d)
Verdict(e) ==
  LET x == Result(e.c) IN
  /\ e.r.o = "ok"
  /\ e.r.v = x.v
  /\ IF x.cut THEN Extends(x.v, e.r.again) ELSE e.r.again = x.v
  /\ e.r.s = e.c.s /\ e.r.s2 = e.c.s /\ e.r.fresh = x.v
Expected(e) == ToString(Result(e.c))
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
