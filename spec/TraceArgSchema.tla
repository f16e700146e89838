--------------------------- MODULE TraceArgSchema ---------------------------
(* the generated schema accepts every result, and every parser rebuilt from   *)
(* the description answers every command line alike                            *)
EXTENDS Schema, Judge
Alike(a, b) == a.o = b.o /\ (IF a.o = "ok" THEN VEq(a.v, b.v) ELSE a.o = "exit" => ((a.st = 0) <=> (b.st = 0)))
\* every place where a schema is expected has one
RECURSIVE Formed(_)
AllFormed(l) == l.t = "L" /\ Len(l.l) > 0 /\ \A j \in 1..Len(l.l) : Formed(l.l[j])
Formed(s) ==
  /\ s.t = "M"
  /\ Has(s, KProperties) => LET p == Kw(s, KProperties) IN p.t = "M" /\ \A j \in 1..Len(p.m) : Formed(p.m[j][2])
  /\ Has(s, KItems) => LET it == Kw(s, KItems) IN IF it.t = "L" THEN AllFormed(it) ELSE Formed(it)
  /\ \A k \in {KAllOf, KAnyOf, KOneOf} : Has(s, k) => AllFormed(Kw(s, k))
  /\ Has(s, KNot) => Formed(Kw(s, KNot))
Accepts(s, rs) == Formed(s) /\ \A k \in 1..Len(rs) : rs[k].o = "ok" => Valid(<<>>, s, rs[k].v)
Verdict(e) ==
  /\ e.r.o = "ok"
  /\ \A k \in 1..Len(e.r.rs) : e.r.rs[k].o \in {"ok", "exit"}
  /\ Accepts(e.r.schema, e.r.rs) /\ Accepts(e.r.schema2, e.r.rs)
  /\ e.r.valid
  /\ \A j \in 1..Len(e.r.bs) : /\ Len(e.r.bs[j]) = Len(e.r.rs)
                                 /\ \A k \in 1..Len(e.r.rs) : Alike(e.r.rs[k], e.r.bs[j][k])
Expected(e) == ToString(IF e.r.o = "ok" THEN [accepts |-> Accepts(e.r.schema, e.r.rs)] ELSE "ok")
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
