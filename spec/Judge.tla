------------------------------- MODULE Judge -------------------------------
(* Common part of the trace specifications for calls without shared state:   *)
(* one state per recorded call; every call is judged, mismatches are printed *)
(* and the run goes on, so one run reports all of them.                       *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
VARIABLE i
Trace == ndJsonDeserialize(IOEnv.TRACE)
N == Len(Trace)
Batch == 50
Heads == {k * Batch + 1 : k \in 0..((N - 1) \div Batch)}
Report(ok, expected) ==
  IF ok THEN TRUE ELSE PrintT("MISMATCH " \o ToString(i) \o " " \o expected)
=============================================================================
