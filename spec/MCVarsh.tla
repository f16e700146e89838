------------------------------- MODULE MCVarsh ------------------------------
(* All small documents, paths and values: what is set is found again, nothing  *)
(* else changes, keys and length agree, a failing input ends the run.          *)
EXTENDS Varsh, IOUtils
VARIABLES st, d, p, x
Wide == IOEnv.DEPTH # "1"
A == <<97>>
B2 == <<98>>
Leaves == {VNull, VInt(1), VStr(A)}
Lists(S) == {VList(<<>>)} \cup {VList(<<a>>) : a \in S} \cup {VList(<<a, b>>) : a, b \in S}
Maps(S) == {VMap(<<>>)} \cup {VMap(<< <<k, a>> >>) : k \in {A, B2}, a \in S} \cup {VMap(<< <<A, a>>, <<B2, b>> >>) : a, b \in S}
L1 == Leaves \cup Lists(Leaves) \cup Maps(Leaves)
L2 == IF Wide THEN L1 \cup Lists(L1) \cup Maps(L1)
      ELSE L1 \cup {VList(<<a, VNull>>) : a \in L1} \cup {VMap(<< <<A, VInt(1)>>, <<B2, a>> >>) : a \in L1}
Elems == {PKey(A), PKey(B2), PIdx(<<48>>), PIdx(<<49>>), PIdx(<<50>>)}
PathsUpTo2 == UNION {[1..k -> Elems] : k \in 1..2}
File(v) == << [name |-> A, fmt |-> "json", v |-> v], [name |-> B2, fmt |-> "raw"] >>
Base == [in |-> "guess", schemas |-> <<>>, inputs |-> <<A>>, bad |-> FALSE]
SetAt(q, y) == [path |-> q, set |-> y] @@ Base
GetAt(q) == [path |-> q] @@ Base
Init == st = "choose" /\ d = VNull /\ p = <<>> /\ x = VNull
Next == \/ /\ st = "choose" /\ st' = "run"
           /\ d' \in L2 /\ p' \in PathsUpTo2 /\ x' \in {VInt(7), VNull, VList(<<VInt(1)>>)}
        \/ /\ st = "run" /\ st' = "done" /\ UNCHANGED <<d, p, x>>
Run2(v, o) == Program(File(v), o)
Found2 == LET r == Run2(d, SetAt(p, x)) IN
  r.o = "ok" => Run2(r.docs[1], GetAt(p)) = [o |-> "ok", docs |-> <<x>>]
(* every path that does not begin with p and is not a beginning of p answers as before *)
Apart(a, b) == \E k \in 1..Min2(Len(a), Len(b)) : a[k] # b[k]
Frame == LET r == Run2(d, SetAt(p, x)) IN
  r.o = "ok" => \A q \in PathsUpTo2 : (Apart(p, q) /\ Run2(d, GetAt(q)).o = "ok") => Run2(r.docs[1], GetAt(q)) = Run2(d, GetAt(q))
(* what can be read can be replaced by itself without a change *)
Idle == LET g == Run2(d, GetAt(p)) IN g.o = "ok" => Run2(d, SetAt(p, g.docs[1])) = [o |-> "ok", docs |-> <<d>>]
Count == IsMap(d) => Run2(d, [show |-> "length"] @@ Base).docs = <<DigitsOf(Len(Run2(d, [show |-> "list"] @@ Base).docs))>>
Ends == LET o == [Base EXCEPT !.inputs = <<A, B2, A>>] IN Run2(d, o) = [o |-> "fail", docs |-> <<d>>]
Good2 == st = "done" => Found2 /\ Frame /\ Idle /\ Count /\ Ends
=============================================================================
