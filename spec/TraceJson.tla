------------------------------ MODULE TraceJson -----------------------------
(* Recorded reading and writing of JSON judged by the JsonText specification.  *)
EXTENDS JsonText, Judge
Verdict(e) ==
  IF e.r.o \in {"crash", "hang"} THEN FALSE
  ELSE CASE e.c.op = "jread" ->
              LET x == Root(e.c.s, FALSE) IN
              IF x.o = "any" THEN TRUE ELSE IF x.o = "ok" THEN e.r.o = "ok" /\ Reads(x.v, e.r.v) ELSE e.r.o = "err"
         [] e.c.op = "jdepth" ->
              LET x == Root(e.c.s, FALSE) IN
              IF x.o = "any" THEN TRUE ELSE IF x.o = "ok" THEN LET y == Levels(x.v, 0) IN e.r.o = "ok" /\ e.r.n = y.k /\ Reads(y.v, e.r.v) ELSE e.r.o = "err"
         [] e.c.op = "jwrite" ->
              IF e.c.strict /\ ~StrictOK(e.c.v) THEN e.r.o = "err"
              ELSE /\ e.r.o = "ok"
                   /\ LET x == StrictText(e.r.s) IN x.o = "ok" /\ Denotes(x.v, e.c.v)
                   /\ e.r.back = Back(e.c.v)
Expected(e) == IF e.c.op # "jwrite" THEN Root(e.c.s, FALSE).o
               ELSE IF e.c.strict /\ ~StrictOK(e.c.v) THEN "err" ELSE IF e.r.o = "ok" THEN ToString(StrictText(e.r.s)) ELSE "ok"
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
