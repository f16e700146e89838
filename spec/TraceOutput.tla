----------------------------- MODULE TraceOutput ----------------------------
EXTENDS Output, Judge
Verdict(e) ==
  /\ e.r.o \in {"ok", "err"}
  /\ IF "mode" \in DOMAIN e.c /\ e.c.mode \in {"once", "flush"} /\ ~e.r.whole THEN e.r.o = "err"
     ELSE DeliveredLen(e.r.o, e.r.whole, e.r.got, e.r.same, e.r.len)
  /\ ("bytes" \in DOMAIN e.c => Delivered(e.r.o, e.r.whole, e.r.gb, e.r.rb))
  /\ (e.r.whole => e.r.n = e.r.len)
Expected(e) == IF e.r.o \in {"ok", "err"} /\ e.r.whole THEN "all of the document" ELSE "an exception and nothing but a beginning of the document"
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
