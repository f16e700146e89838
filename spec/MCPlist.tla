------------------------------ MODULE MCPlist -------------------------------
(* Every token sequence as long as it is undecided, with the required outcome. *)
EXTENDS Plist, Json, IOUtils
VARIABLE k
Depth == CHOOSE n \in 1..20 : ToString(n) = IOEnv.DEPTH
Names == {"plist", "dict", "array", "string", "key", "integer", "true"}
Tokens == {[k |-> x, n |-> y] : x \in {"o", "c"}, y \in Names} \cup {[k |-> "e", n |-> y] : y \in Names \ {"plist"}}
          \cup {[k |-> "t", s |-> <<49>>], [k |-> "t", s |-> <<32, 10>>], [k |-> "m"]}
Init == k = <<[k |-> "o", n |-> "plist"]>>
Next == Len(k) <= Depth /\ Run(k, 1, <<>>).o = "more" /\ \E t \in Tokens : k' = Append(k, t)
(* a decision is final, and every undecided text can still become a document *)
RECURSIVE Finish(_, _)
Finish(st, n) ==
  IF n = 0 THEN Err
  ELSE LET f == Top(st)
           r == IF f.n = "integer" /\ Blank(f.s) THEN Step(st, [k |-> "t", s |-> <<49>>])
                ELSE IF f.n = "dict" /\ Len(f.k) > Len(f.l) THEN Step(st, [k |-> "e", n |-> "true"])
                ELSE IF f.n = "plist" /\ f.l = <<>> THEN Step(st, [k |-> "e", n |-> "dict"])
                ELSE Step(st, [k |-> "c", n |-> f.n])
       IN IF r.o = "more" THEN Finish(r.st, n - 1) ELSE r
Sound == LET r == Run(k, 1, <<>>) IN
  /\ r.o # "more" => Run(Append(k, [k |-> "m"]), 1, <<>>) = r
  /\ (r.o = "more" /\ \A j \in 1..Len(r.st) : r.st[j].n = "integer" => IsIntText(Strip(r.st[j].s)) \/ Blank(r.st[j].s)) => Finish(r.st, 20).o \in {"ok", "any"}
Vec == LET r == Reading(k) IN r.o = "any" \/ PrintT("VEC " \o ToJson([c |-> [op |-> "xtok", k |-> k], e |-> IF r.o = "ok" THEN [o |-> "ok", v |-> r.v] ELSE [o |-> "err"]]))
Check == Sound /\ Vec
=============================================================================
