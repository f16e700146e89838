----------------------------- MODULE TracePlist -----------------------------
(* Recorded readings of property lists judged by the specification.            *)
EXTENDS Plist, Judge
Verdict(e) ==
  IF e.r.o \in {"crash", "hang"} THEN FALSE
  ELSE LET x == Reading(e.c.k) IN
       CASE x.o = "ok" -> e.r.o = "ok" /\ Agrees(x.v, e.r.v)
         [] x.o = "err" -> e.r.o = "err"
         [] x.o = "any" -> TRUE
Expected(e) == ToString(Reading(e.c.k))
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
