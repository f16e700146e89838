----------------------------- MODULE TracePatch -----------------------------
(* Recorded pointer, patch and diff calls judged by the Patch specification. *)
EXTENDS Patch, Judge

OkPtr(c, r) ==
  LET e == PtrCall(c) IN
  /\ r.o = (IF e.ok THEN "ok" ELSE "err")
  /\ r.shared = 0
  /\ IF c.fn = "get" THEN r.doc = c.doc /\ (e.ok => r.v = e.v)
     ELSE r.doc = (IF e.ok THEN e.v ELSE c.doc)

OkPatch(c, r) ==
  LET e == Apply(c.doc, c.patch) IN
  /\ r.o = "ok"
  /\ r.ret = e.ok
  /\ r.msg = ~e.ok
  /\ r.doc = (IF e.ok THEN e.v ELSE c.doc)
  /\ r.patch = c.patch
  /\ r.shared = 0

(* the difference is a valid patch from a to b under the specification, and applying it succeeded *)
OkDiff(c, r) ==
  /\ r.o = "ok"
  /\ r.a = c.a /\ r.b = c.b
  /\ IsList(r.diff)
  /\ LET e == Apply(c.a, r.diff) IN e.ok /\ VEq(e.v, c.b)
  /\ r.ret /\ r.eq /\ VEq(r.res, c.b)
  /\ (c.a = c.b) => r.diff.l = <<>>

Verdict(e) ==
  IF e.r.o \in {"crash", "hang"} THEN FALSE
  ELSE CASE e.c.op = "ptr" -> OkPtr(e.c, e.r)
         [] e.c.op = "patch" -> OkPatch(e.c, e.r)
         [] e.c.op = "diff" -> OkDiff(e.c, e.r)

Expected(e) ==
  CASE e.c.op = "ptr" -> PtrCall(e.c)
    [] e.c.op = "patch" -> Apply(e.c.doc, e.c.patch)
    [] OTHER -> Fail

Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), ToString(Expected(Trace[i])))
=============================================================================
