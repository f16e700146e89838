----------------------------- MODULE TraceHeap ------------------------------
(* Recorded sessions replayed as behaviours of the Heap specification: the    *)
(* state of the specification follows the recorded operations one by one, and *)
(* each recorded outcome and observation must be one the specification        *)
(* allows in that state.                                                      *)
EXTENDS Heap, Json, IOUtils
VARIABLES i, pos, st, seen      \* session, next operation, heap, last observation of the variables

Trace == ndJsonDeserialize(IOEnv.TRACE)
C(n) == Trace[n].c
R(n) == Trace[n].r

Init == /\ i \in 1..Len(Trace)
        /\ pos = (IF R(i).o = "ok" THEN 1 ELSE 0)
        /\ st = InitHeap(C(i).nv, C(i).nr)
        /\ seen = Proj(st)
Stop(why) == /\ PrintT("MISMATCH " \o ToString(i) \o " step " \o ToString(pos) \o " " \o why)
             /\ pos' = Len(C(i).ops) + 2 /\ UNCHANGED <<i, st, seen>>

Crash == pos = 0 /\ Stop("crash or hang")
Step ==
  /\ pos >= 1 /\ pos <= Len(C(i).ops)
  /\ LET op == C(i).ops[pos]
         ev == R(i).ev[pos]
         r == Exec(st, op)
         now == IF "p" \in DOMAIN ev THEN ev.p ELSE seen
     IN IF ev.o = "cyc"
        THEN IF r.o = "ok" /\ Cyclic(r.st) THEN pos' = Len(C(i).ops) + 1 /\ UNCHANGED <<i, st, seen>>
             ELSE Stop("an unexpected cycle")
        ELSE IF Refused(r, ev, op) /\ now = seen
        THEN /\ pos' = pos + 1 /\ UNCHANGED <<i, st, seen>>
        ELSE IF r.o = "ok" /\ Cyclic(r.st) THEN Stop("cycle expected")
        ELSE IF Matches(r, ev) /\ now = Proj(r.st)
        THEN /\ st' = r.st /\ seen' = now /\ pos' = pos + 1 /\ UNCHANGED i
        ELSE Stop(ToString([o |-> r.o, v |-> r.v, mb |-> r.mb, p |-> Proj(r.st)]))
Next == Crash \/ Step
=============================================================================
