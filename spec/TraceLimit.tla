----------------------------- MODULE TraceLimit -----------------------------
(* numeric keywords over the whole range of numbers *)
EXTENDS Num, Judge
Cmp(c) == Order(c.d, c.n)
Decision(c) ==
  CASE c.k = "minimum" -> IF c.x THEN Cmp(c) > 0 ELSE Cmp(c) >= 0
    [] c.k = "maximum" -> IF c.x THEN Cmp(c) < 0 ELSE Cmp(c) <= 0
    [] c.k = "enum" -> Cmp(c) = 0
    [] c.k = "uniqueItems" -> Cmp(c) # 0
    [] c.k = "type" -> DyInteger(ToDy(c.d))
    [] c.k = "multipleOf" -> ToDy(c.d).g = 0 \/ (ToDy(c.d).e >= ToDy(c.n).e /\ DyDivides(ToDy(c.d), ToDy(c.n)))
Verdict(e) == e.r.o = "ok" /\ e.r.paths /\ e.r.valid = Decision(e.c)
Expected(e) == ToString(Decision(e.c))
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
