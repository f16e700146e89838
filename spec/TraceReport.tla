---------------------------- MODULE TraceReport -----------------------------
EXTENDS Reports, Judge
KSchema == Txt("$schema")
RECURSIVE Docs(_, _)
Docs(ds, reg) == IF ds = <<>> THEN reg ELSE Docs(Tail(ds), AddAll(reg, Registrations(Resource(ds[1][1]), ds[1][2])))
Stack(c) == IF c.s.t = "M" THEN <<Docs(c.docs, <<>>), AddAll(<<>>, Registrations(<<>>, c.s))>> ELSE <<Docs(c.docs, <<>>)>>
Root(c, st) ==
  CASE c.s.t = "M" -> st[2][1][2]
    [] c.s.t = "S" -> Lookup(st, c.s.s).v
    [] OTHER -> Lookup(st, Str(c.d, KSchema)).v
Places(c) == LET st == Stack(c) IN Faults(st, Root(c, st), c.d)
Bare(fs) == {<<f.d, f.s>> : f \in fs}
Verdict(e) ==
  /\ e.r.o = "ok"
  /\ e.r.told /\ e.r.flags
  /\ TextsOK(e.r.es)
  /\ \A j \in 1..Len(e.r.bad) : e.r.bad[j].st = PathText(e.r.bad[j].s, 1)
  /\ IF "bad" \in DOMAIN e.c
     THEN LET bs == Bads(e.c.s, e.c.d) IN
          /\ (e.r.bad = <<>>) <=> (bs = {})
          /\ \A j \in 1..Len(e.r.bad) : e.r.bad[j].s \in bs
          /\ \A j \in 1..Len(e.r.es) : \E b \in bs : \E n \in 0..Len(b) : SubSeq(b, 1, n) = e.r.es[j].s
     ELSE e.r.bad = <<>> /\ ReportOK(e.r.es, Places(e.c))
Expected(e) == IF "bad" \in DOMAIN e.c THEN ToString(Bads(e.c.s, e.c.d)) ELSE ToString(Bare(Places(e.c)))
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
