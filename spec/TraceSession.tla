---------------------------- MODULE TraceSession ----------------------------
EXTENDS Session, Judge
First(e) == IF e.r.o # "ok" THEN 1 ELSE SessionOK(e.c, Begin(e.c), e.r.v, 1)
Verdict(e) == First(e) = 0
Expected(e) == LET j == First(e) IN "step " \o ToString(j) \o IF e.r.o = "ok" THEN ": " \o ToString(e.r.v[j]) ELSE ""
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
