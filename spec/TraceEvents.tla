---------------------------- MODULE TraceEvents -----------------------------
EXTENDS Events, Judge
AllSame(x, y) == Len(x) = Len(y) /\ \A j \in 1..Len(x) : Same(x[j], y[j])
Verdict(e) ==
  LET d == Docs(e.c.ev) IN
  /\ Assert(NestedFrom(Start, e.c.ev, 1), "not nested")
  /\ e.r.o = "ok" /\ AllSame(d, e.r.v)
  /\ e.r.played /\ e.r.copied /\ e.r.again /\ e.r.equal
  /\ AllSame(d, e.r.filled) /\ AllSame(d, e.r.parsed)
Expected(e) == ToString(Docs(e.c.ev))
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
