------------------------------- MODULE Output -------------------------------
(* What reaches a sink: everything, in order, or an error and no more than a   *)
(* beginning of it.                                                             *)
EXTENDS Val
Prefix(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
Delivered(o, whole, got, doc) ==
  IF whole THEN o = "ok" /\ got = doc ELSE o = "err" /\ Prefix(got, doc)
(* the same in terms of lengths: of what arrived, of the document, and of the    *)
(* longest beginning the two have in common                                      *)
DeliveredLen(o, whole, got, same, doc) ==
  same = got /\ (IF whole THEN o = "ok" /\ got = doc ELSE o = "err" /\ got <= doc)
=============================================================================
