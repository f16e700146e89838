------------------------------- MODULE MCUri --------------------------------
(* All references over a small alphabet against characteristic bases, and     *)
(* all dot-segment paths as reference and as base.                            *)
EXTENDS Uri, Json, IOUtils
VARIABLES ref, done
Depth == IOEnv.DEPTH
N1 == IF Depth = "5" THEN 5 ELSE 4
Words(A, n) == UNION {[1..k -> A] : k \in 0..n}
a == 97
http == <<104, 58>>
Bases == { <<>>, http, http \o <<Slash, Slash, 98>>, http \o <<Slash, Slash, 98, Slash>>,
           http \o <<Slash, Slash, 98, Slash, 99, Slash, 100, Quest, 101, Hash, 102>>,
           http \o <<Slash, Slash, 98, 64, 99, 58, 56, Slash, Slash, 100, Slash, Quest>>,
           http \o <<Slash, Slash, 98, Slash, 99, Slash, Dot, Dot, Slash, 100>>,
           http \o <<Slash, Slash, 98, Slash, 99, 64, 100, Slash, 101>>,
           http \o <<98, Slash, 99>>, http \o <<98>>, <<Slash, 98, Slash, 99>>, <<98, Slash, 99, Slash, 100>>,
           http \o <<Slash, Slash, 91, 58, 58, 49, 93, 58, 56, Slash, 98>>,
           http \o <<Slash, Slash, 117, 58, 112, 58, 113, 64, 98, Slash, 99>> }
Refs == Words({a, Dot, Slash, Quest, Hash, Colon, 64}, N1)
Paths == Words({a, Dot, Slash}, IF Depth = "5" THEN 7 ELSE 6)
Emit(b, r) ==
  LET t == Target(b, r) IN
  PrintT("VEC " \o ToJson([c |-> [op |-> "uri", b |-> b, r |-> r],
    e |-> IF t.p.ok THEN [o |-> "ok", v |-> Resolve(b, r).v, i |-> Split(r)] ELSE [o |-> "ok", i |-> Split(r)]]))
Init == done = FALSE /\ ref \in Refs \cup Paths
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED ref
        /\ IF ref \in Refs THEN \A b \in Bases : Emit(b, ref)
           ELSE Emit(http \o <<Slash, Slash, 98, Slash, 99, Slash, 100>>, ref) /\ Emit(http \o <<Slash, Slash, 98, Slash>> \o ref, <<>>)
(* facts the RFC states about the result *)
Sound ==
  /\ LET s == Split(ref) IN s.s \o s.a \o s.p \o s.q \o s.f = ref
  /\ \A b \in Bases :
       LET r == Resolve(b, ref) IN
       r.ok => /\ Resolve(b, r.v).ok => (Split(b).s # <<>> => Resolve(b, r.v).v = r.v \/ ~StartsWith(Split(r.v).p, <<Slash>>))
               /\ Split(b).s # <<>> => Split(r.v).s # <<>>
               /\ LET segs == SplitSlash(Split(r.v).p, <<>>) IN
                  StartsWith(Split(r.v).p, <<Slash>>) =>
                    \A j \in 1..Len(segs) : segs[j] \notin {<<Dot>>, <<Dot, Dot>>}
=============================================================================
