------------------------------ MODULE TraceFlat -----------------------------
(* Recorded flattening, expansion, difference and update judged by Flat.       *)
EXTENDS Flat, Judge
Verdict(e) ==
  LET c == e.c r == e.r IN
  IF r.o # "ok" THEN FALSE
  ELSE CASE c.op = "flatten" ->
              /\ r.flat = Flatten(c.v, c.p) /\ r.after = c.v /\ ~r.shared
              /\ Undoes(c.v, c.p) => r.back = c.v
              /\ (OnlyText(c.v) /\ IsMap(r.flat)) => r.text = TextMap(Flatten(c.v, c.p), c.p.ld)
         [] c.op = "rdiff" ->
              /\ DiffOK(c.a, c.b, r.d) /\ r.res = Update(c.a, r.d)
              /\ r.a = c.a /\ r.b = c.b /\ ~r.shared
         [] c.op = "rupdate" -> r.res = Update(c.a, c.b) /\ r.b = c.b /\ ~r.shared
Expected(e) == CASE e.c.op = "flatten" -> ToString(Flatten(e.c.v, e.c.p))
                 [] e.c.op = "rdiff" -> ToString(RDiff(e.c.a, e.c.b))
                 [] e.c.op = "rupdate" -> ToString(Update(e.c.a, e.c.b))
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
