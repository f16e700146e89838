---------------------------- MODULE TraceSchema -----------------------------
EXTENDS Schema, Judge
KSchema == Txt("$schema")
(* the registries of the loader and of the schema itself *)
RECURSIVE Docs(_, _)
Docs(ds, reg) == IF ds = <<>> THEN reg ELSE Docs(Tail(ds), AddAll(reg, Registrations(Resource(ds[1][1]), ds[1][2])))
Stack(c) == IF c.s.t = "M" THEN <<Docs(c.docs, <<>>), AddAll(<<>>, Registrations(<<>>, c.s))>> ELSE <<Docs(c.docs, <<>>)>>
Root(c, st) ==
  CASE c.s.t = "M" -> st[2][1][2]
    [] c.s.t = "S" -> Lookup(st, c.s.s).v
    [] OTHER -> Lookup(st, Str(c.d, KSchema)).v
Decision(c) == LET st == Stack(c) IN Valid(st, Root(c, st), c.d)
Verdict(e) ==
  /\ e.r.o \in {"ok", "err"}
  /\ e.r.s = e.c.s /\ e.r.d = e.c.d
  /\ "loose" \notin DOMAIN e.c =>
       /\ e.r.o = "ok" /\ e.r.paths
       /\ e.r.valid = Decision(e.c)
Expected(e) == IF "loose" \in DOMAIN e.c THEN "loose" ELSE ToString(Decision(e.c))
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
