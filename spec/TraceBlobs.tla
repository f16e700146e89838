------------------------------ MODULE TraceBlobs ----------------------------
(* Recorded base64 calls and blob histories judged by the Blobs specification. *)
EXTENDS Blobs, Judge
Verdict(e) ==
  LET c == e.c r == e.r IN
  IF r.o # "ok" THEN FALSE
  ELSE CASE c.op = "enc" -> Strip(r.s) = Enc(Cat(c.p, 1)) /\ (c.w = 0 => Strip(r.s) = r.s)
                            /\ (c.w >= 4 => LinesOK(r.s, c.w)) /\ r.back = Cat(c.p, 1)
         [] c.op = "dec" -> c.bytes = FALSE \/ r.b = Dec(Strip(c.s))
         [] c.op = "blob" -> r.steps = Looks(Start(3), c.a, 1)
Expected(e) == CASE e.c.op = "enc" -> ToString(Enc(Cat(e.c.p, 1)))
                 [] e.c.op = "dec" -> IF e.c.bytes THEN ToString(Dec(Strip(e.c.s))) ELSE "no crash"
                 [] e.c.op = "blob" -> ToString(Looks(Start(3), e.c.a, 1))
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
