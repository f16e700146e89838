------------------------------ MODULE Defaults ------------------------------
(* Filling in the defaults of a schema.  Absent stands for a member or item   *)
(* that is not there.  References already being followed (refs, with the      *)
(* depth of the data they were met at) are not followed again where the data  *)
(* was missing from the start, nor at the same place; cut tells whether one   *)
(* was left out.                                                              *)
EXTENDS Schema

Absent == [t |-> "A"]
Missing(d) == d.t \in {"A", "N"}
Member(d, k) == IF d.t = "M" THEN (IF MHas(d.m, k) THEN MGet(d.m, k) ELSE Absent) ELSE Absent
Item(d, j) == IF d.t = "L" THEN (IF j <= Len(d.l) THEN d.l[j] ELSE Absent) ELSE Absent
SetMember(d, k, v) == IF v.t = "A" THEN d ELSE VMap(MSet(IF d.t = "M" THEN d.m ELSE <<>>, k, v))
Padded(l, n) == [j \in 1..Max2(n, Len(l)) |-> IF j <= Len(l) THEN l[j] ELSE VNull]
SetItem(d, j, v) == IF v.t = "A" THEN d ELSE VList([Padded(IF d.t = "L" THEN d.l ELSE <<>>, j) EXCEPT ![j] = v])

RECURSIVE Fill(_, _, _, _, _, _), FillProps(_, _, _, _, _, _), FillItems(_, _, _, _, _, _, _), FillAll(_, _, _, _, _, _)
(* x: [v, cut] so far *)
FillProps(st, ps, x, orig, refs, dep) ==
  IF ps = <<>> THEN x
  ELSE LET k == ps[1][1]
           y == Fill(st, ps[1][2], [v |-> Member(x.v, k), cut |-> x.cut], Member(orig, k), refs, dep + 1)
       IN FillProps(st, Tail(ps), [v |-> SetMember(x.v, k, y.v), cut |-> y.cut], orig, refs, dep)
FillItems(st, ss, j, x, orig, refs, dep) ==
  IF j > Len(ss) THEN x
  ELSE LET y == Fill(st, ss[j], [v |-> Item(x.v, j), cut |-> x.cut], Item(orig, j), refs, dep + 1)
       IN FillItems(st, ss, j + 1, [v |-> SetItem(x.v, j, y.v), cut |-> y.cut], orig, refs, dep)
FillAll(st, ss, x, orig, refs, dep) ==
  IF ss = <<>> THEN x ELSE FillAll(st, Tail(ss), Fill(st, ss[1], x, orig, refs, dep), orig, refs, dep)
Fill(st, s, x, orig, refs, dep) ==
  LET u == Plain(Str(s, KRef))
      blocked == \E r \in refs : r[1] = u /\ (Missing(orig) \/ r[2] = dep)
      a == IF ~HasStr(s, KRef) THEN x
           ELSE IF blocked THEN [x EXCEPT !.cut = TRUE]
           ELSE Fill(st, Lookup(st, Str(s, KRef)).v, x, orig, refs \cup {<<u, dep>>}, dep)
      b == IF Has(s, KDefault) /\ Missing(a.v) THEN [a EXCEPT !.v = Kw(s, KDefault)] ELSE a
      c == IF Has(s, KProperties) /\ (Missing(b.v) \/ b.v.t = "M")
           THEN FillProps(st, Kw(s, KProperties).m, b, orig, refs, dep) ELSE b
      d == IF Has(s, KItems) /\ (Missing(c.v) \/ c.v.t = "L")
           THEN FillItems(st, IF Kw(s, KItems).t = "L" THEN Kw(s, KItems).l ELSE <<Kw(s, KItems)>>, 1, c, orig, refs, dep) ELSE c
      all(k, y) == IF Has(s, k) THEN FillAll(st, Kw(s, k).l, y, orig, refs, dep) ELSE y
  IN IF s.t # "M" THEN x ELSE all(KAnyOf, all(KOneOf, all(KAllOf, d)))
Filled(st, u, s, d) == Fill(st, s, [v |-> d, cut |-> FALSE], d, {<<Plain(u), 0>>}, 0)

(* r differs from d only where d has nothing *)
RECURSIVE Extends(_, _)
Extends(d, r) ==
  CASE d.t = "N" -> TRUE
    [] d.t = "M" -> IF r.t # "M" THEN FALSE
                    ELSE \A j \in 1..Len(d.m) : IF MHas(r.m, d.m[j][1]) THEN Extends(d.m[j][2], MGet(r.m, d.m[j][1])) ELSE FALSE
    [] d.t = "L" -> IF r.t # "L" THEN FALSE ELSE IF Len(r.l) < Len(d.l) THEN FALSE
                    ELSE \A j \in 1..Len(d.l) : Extends(d.l[j], r.l[j])
    [] OTHER -> d = r
=============================================================================
