----------------------------- MODULE TraceVarsh -----------------------------
(* Recorded runs of the program judged by the Varsh specification.             *)
EXTENDS Varsh, Judge
Same(e, a, b) == IF e.c.as = "lines" THEN a = b ELSE VEq(a, b)
Verdict(e) ==
  LET x == Program(e.c.files, e.c.o) IN
  /\ e.r.o = x.o
  /\ Len(e.r.docs) = Len(x.docs)
  /\ \A j \in 1..Len(x.docs) : Same(e, e.r.docs[j], x.docs[j])
  /\ e.c.keep => ~e.r.shown
  /\ (Has(e.c.o, "flat") /\ e.c.o.flat = "expand") => Flatten(e.c.o.orig, e.c.o.P) = e.c.files[1].v
Expected(e) == ToString(Program(e.c.files, e.c.o))
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
