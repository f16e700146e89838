----------------------------- MODULE TraceArgs ------------------------------
(* each run depends on its own command line only; a run that ends the process is the last one observed *)
EXTENDS Args, Judge
Run(e, k) == LET x == Outcomes(e.c.decl, e.c.runs[k]) IN
  /\ e.r.rs[k].o \in {"ok", "exit"}
  /\ x.open \/ \E out \in x.outs : Agrees(out, e.r.rs[k])
Verdict(e) ==
  /\ e.r.o = "ok"
  /\ Len(e.r.rs) >= 1
  /\ \A k \in 1..Len(e.r.rs) : Run(e, k)
  /\ Len(e.r.rs) < Len(e.c.runs) => e.r.rs[Len(e.r.rs)].o = "exit"
Expected(e) == ToString([k \in 1..Len(e.c.runs) |-> Outcomes(e.c.decl, e.c.runs[k])])
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
