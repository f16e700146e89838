------------------------------ MODULE MCEvents ------------------------------
(* Every properly nested sequence of calls up to a number of calls, one step   *)
(* of the machine at a time.                                                   *)
EXTENDS Events, Json, IOUtils
VARIABLES s, ev
Depth == CHOOSE k \in 1..20 : ToString(k) = IOEnv.DEPTH
Ev(f) == [f |-> f]
Scal(v) == [f |-> "s", v |-> v]
Keys == {<<107>>, <<97, 58>>}
Neg == NumOf("I", Dy(0 - 1, NFromInt(7), 0))
Scalars == {VNull, VBool(TRUE), Neg, VStr(<<>>), VStr(<<97>>)}
Init == s = Start /\ ev = <<>>
Open == ev # <<>>
Calls == IF s.docs # <<>> THEN {}
         ELSE IF WantsKey(s) THEN {Scal(VStr(k)) : k \in Keys} \cup {Ev("em")}
         ELSE {Ev("bm"), Ev("bl"), Ev("el"), Ev("em")} \cup {Scal(v) : v \in (IF Len(ev) < 3 THEN Scalars ELSE {VNull, Neg, VStr(<<97>>)})}
Next == Len(ev) < Depth /\ \E e \in Calls : Can(s, e) /\ s' = After(s, e) /\ ev' = Append(ev, e)
Whole == s.docs # <<>>
(* the machine and the value agree on size: a value is begun and ended by the calls that name it *)
RECURSIVE Size(_), SumTo(_, _)
SumTo(f, j) == IF j = 0 THEN 0 ELSE f[j] + SumTo(f, j - 1)
Size(v) == CASE v.t = "L" -> 2 + SumTo([j \in 1..Len(v.l) |-> Size(v.l[j])], Len(v.l))
             [] v.t = "M" -> 2 + Len(v.m) + SumTo([j \in 1..Len(v.m) |-> Size(v.m[j][2])], Len(v.m))
             [] OTHER -> 1
Sound == Whole => (Len(s.docs) = 1 /\ s.st = <<>> /\ Size(s.docs[1]) = Len(ev) /\ NestedFrom(Start, ev, 1))
Doc == <<Ev("bd")>> \o ev \o <<Ev("ed")>>
Good == [o |-> "ok", v |-> s.docs, played |-> TRUE, copied |-> TRUE, again |-> TRUE, equal |-> TRUE, filled |-> s.docs, parsed |-> s.docs]
Vec == Whole => \A f \in {"json", "yaml", "xml"}, p \in BOOLEAN :
  (f = "json" => IsContainer(s.docs[1])) =>
  PrintT("VEC " \o ToJson([c |-> [op |-> "events", f |-> f, ev |-> Doc, p |-> IF f = "yaml" THEN [flow |-> p] ELSE [pretty |-> p], cut |-> Len(ev)], e |-> Good]))
Check == Sound /\ Vec
=============================================================================
