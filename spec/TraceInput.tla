------------------------------ MODULE TraceInput ----------------------------
EXTENDS Input, Judge
Verdict(e) ==
  IF e.r.o # "ok" THEN FALSE
  ELSE CASE e.c.op = "input" -> StepsOK(e.c.s, e.c.a, e.r.steps, 1, 0, 0)
         [] e.c.op = "deliver" -> /\ Len(e.r.outs) = 1
                                  /\ (e.c.f = "guess" => SameKind(e.r.outs[1], IF Guessed(e.c.s) = "xml" THEN e.r.xml ELSE e.r.yaml))
Expected(e) == IF e.c.op = "input" THEN "the bytes of the source in order" ELSE "the same outcome for every delivery"
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
