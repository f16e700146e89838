---------------------------- MODULE TraceConfig -----------------------------
(* command lines with configuration files; what the parser shows and prints.  *)
(* A run with "show" asks for the help directly, before anything is parsed.    *)
EXTENDS Configs, Judge
Direct(d) == [d EXCEPT !.help = FALSE]
Allowed(e, k) ==
  LET d == e.c.decl run == e.c.runs[k] IN
  IF "show" \in DOMAIN run THEN [open |-> FALSE, outs |-> {Show(run.show = "adv")}] ELSE Outcomes2(d, run)
Run(e, k) ==
  LET x == Allowed(e, k)
      d == IF "show" \in DOMAIN e.c.runs[k] /\ k = 1 THEN Direct(e.c.decl) ELSE e.c.decl
  IN /\ e.r.rs[k].o \in {"ok", "exit"}
     /\ x.open \/ \E out \in x.outs : Agrees2(d, out, e.r.rs[k])
Verdict(e) ==
  /\ e.r.o = "ok"
  /\ Len(e.r.rs) >= 1
  /\ e.r.name = e.c.decl.prog
  /\ \A k \in 1..Len(e.r.rs) : Run(e, k)
  /\ Len(e.r.rs) < Len(e.c.runs) => e.r.rs[Len(e.r.rs)].o = "exit"
Expected(e) == ToString([k \in 1..Len(e.c.runs) |-> [x |-> Allowed(e, k).outs, help |-> Parts(Full(e.c.decl), FALSE)]])
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
