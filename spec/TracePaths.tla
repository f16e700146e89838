----------------------------- MODULE TracePaths -----------------------------
(* Recorded path formatting and parsing judged by the Paths specification.     *)
EXTENDS Paths, Judge
Verdict(e) ==
  IF e.r.o \in {"crash", "hang"} THEN FALSE
  ELSE CASE e.c.op = "pathfmt" -> e.r.o = "ok" /\ e.r.s = Format(e.c.p) /\ (HasText(e.c.p) => e.r.back = e.c.p)
         [] e.c.op = "pathparse" -> LET r == ParseText(e.c.s) IN
              r.loose \/ (e.r.o = r.o /\ (r.o = "ok" => e.r.p = r.p))
Expected(e) == IF e.c.op = "pathfmt" THEN ToString(Format(e.c.p)) ELSE ToString(ParseText(e.c.s))
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
