---------------------------- MODULE TraceLoader -----------------------------
EXTENDS Loader, Judge
(* a reference to nothing: an exception or an error in the result *)
Like(x, y) == IF x.o = "err" THEN y.o = "err" \/ (IF "valid" \in DOMAIN y THEN ~y.valid ELSE FALSE) ELSE x = y
Verdict(e) ==
  LET x == RunL(e.c) IN
  \/ x.dup
  \/ /\ e.r.o = "ok" /\ Len(e.r.rs) = Len(x.rs)
     /\ \A j \in 1..Len(x.rs) : Like(x.rs[j], e.r.rs[j])
     /\ e.r.calls = x.calls
Expected(e) == ToString(RunL(e.c))
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
