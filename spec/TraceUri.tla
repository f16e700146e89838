------------------------------ MODULE TraceUri ------------------------------
EXTENDS Uri, Judge
Verdict(e) ==
  /\ e.r.o = "ok"
  /\ "i" \in DOMAIN e.r /\ e.r.i = Split(e.c.r)
  /\ Resolved(e.c.b, e.c.r, e.r.v)
Expected(e) == ToString(<<Split(e.c.r), Target(e.c.b, e.c.r)>>)
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
