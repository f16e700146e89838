----------------------------- MODULE TraceYaml ------------------------------
(* Recorded round trips and readings of scalars judged by the specification.   *)
(* ctx 0..3: plain at the root, in a list, in a map, in a flow list;           *)
(* 4..7: the same text single quoted, literal, folded, double quoted.          *)
EXTENDS Yaml, Judge
Verdict(e) ==
  IF e.r.o \in {"crash", "hang"} THEN FALSE
  ELSE CASE e.c.op = "yplain" -> e.r.o = "ok" /\ IF e.c.ctx < 4 THEN PlainIs(e.c.s, e.r.v) ELSE e.r.v = VStr(e.c.s)
         [] e.c.op = "xany" -> e.r.o = "ok"
         [] e.c.op \in {"yrt", "xrt"} -> e.r.o = "ok" /\ Same(e.c.v, e.r.v)
Expected(e) == IF e.c.op = "yplain" THEN Form(e.c.s) ELSE "the value written"
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
