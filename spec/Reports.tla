------------------------------- MODULE Reports -------------------------------
(* Where data violates a schema: Faults(st, s, d) is the set of all places a   *)
(* report may name.  A place is a path into the data and the path of the       *)
(* violated keyword in the schema (a reference takes no step); a choice among  *)
(* alternatives none of which holds has the faults of each of them.            *)
EXTENDS Schema, TLC
EKey(k) == [t |-> "S", s |-> k]
EIdx(j) == [t |-> "U", i |-> j - 1]
Fault(dp, sp, a) == [d |-> dp, s |-> sp, a |-> a]
Leaf(k, bad) == IF bad THEN {Fault(<<>>, <<EKey(k)>>, <<>>)} ELSE {}
RECURSIVE Under(_, _, _)
Under(dp, sp, fs) == {Fault(dp \o f.d, sp \o f.s, TLCEval([j \in 1..Len(f.a) |-> Under(dp, sp, f.a[j])])) : f \in fs}
All(fs) == UNION {fs[j] : j \in DOMAIN fs}

RECURSIVE Faults(_, _, _)
NumberFaults(s, d) ==
  IF ~IsNum(d) THEN {}
  ELSE Leaf(KMultipleOf, Has(s, KMultipleOf) /\ Q(d) % Q(Kw(s, KMultipleOf)) # 0)
       \cup Leaf(KDivisibleBy, Has(s, KDivisibleBy) /\ ~Has(s, KMultipleOf) /\ Q(d) % Q(Kw(s, KDivisibleBy)) # 0)
       \cup Leaf(KMinimum, Has(s, KMinimum) /\ Q(d) < Q(Kw(s, KMinimum)))
       \cup Leaf(KExMinimum, Has(s, KMinimum) /\ True(s, KExMinimum) /\ Q(d) = Q(Kw(s, KMinimum)))
       \cup Leaf(KMaximum, Has(s, KMaximum) /\ Q(d) > Q(Kw(s, KMaximum)))
       \cup Leaf(KExMaximum, Has(s, KMaximum) /\ True(s, KExMaximum) /\ Q(d) = Q(Kw(s, KMaximum)))
LengthFaults(s, lo, hi, n) == Leaf(lo, Has(s, lo) /\ 1024 * n < Q(Kw(s, lo))) \cup Leaf(hi, Has(s, hi) /\ 1024 * n > Q(Kw(s, hi)))
StringFaults(s, d) ==
  IF d.t # "S" THEN {}
  ELSE Leaf(KFormat, ~FormatOk(s, d)) \cup LengthFaults(s, KMinLength, KMaxLength, Len(d.s)) \cup Leaf(KPattern, Has(s, KPattern) /\ ~Matches(Kw(s, KPattern).s, d.s))
(* a keyword that is false or a schema for what is left over *)
RestFaults(st, s, k, dp, v) ==
  IF ~Has(s, k) THEN {}
  ELSE LET a == Kw(s, k) IN
       IF a.t = "B" THEN (IF a.b THEN {} ELSE {Fault(dp, <<EKey(k)>>, <<>>)})
       ELSE Under(dp, <<EKey(k)>>, Faults(st, a, v))
ItemFaults(st, s, d, j) ==
  LET it == Kw(s, KItems)
      dp == <<EIdx(j)>>
  IN IF it.t = "M" THEN Under(dp, <<EKey(KItems)>>, Faults(st, it, d.l[j]))
     ELSE IF j <= Len(it.l) THEN Under(dp, <<EKey(KItems), EIdx(j)>>, Faults(st, it.l[j], d.l[j]))
     ELSE RestFaults(st, s, KAdditionalItems, dp, d.l[j])
ArrayFaults(st, s, d) ==
  IF d.t # "L" THEN {}
  ELSE LengthFaults(s, KMinItems, KMaxItems, Len(d.l))
       \cup Leaf(KUniqueItems, True(s, KUniqueItems) /\ \E j \in 1..Len(d.l) : \E k \in 1..(j - 1) : VEq(d.l[k], d.l[j]))
       \cup (IF Has(s, KItems) THEN All([j \in 1..Len(d.l) |-> ItemFaults(st, s, d, j)]) ELSE {})
MemberFaults(st, s, k, v) ==
  LET props == IF Has(s, KProperties) THEN Kw(s, KProperties).m ELSE <<>>
      pats == IF Has(s, KPatternProperties) THEN Kw(s, KPatternProperties).m ELSE <<>>
      hit == {j \in 1..Len(pats) : Matches(pats[j][1], k)}
      dp == <<EKey(k)>>
  IN (IF MHas(props, k) THEN Under(dp, <<EKey(KProperties), EKey(k)>>, Faults(st, MGet(props, k), v)) ELSE {})
     \cup UNION {Under(dp, <<EKey(KPatternProperties), EKey(pats[j][1])>>, Faults(st, pats[j][2], v)) : j \in hit}
     \cup (IF MHas(props, k) \/ hit # {} THEN {} ELSE RestFaults(st, s, KAdditionalProperties, dp, v))
DependencyFaults(st, k, v, d) ==
  LET sp == <<EKey(KDependencies), EKey(k)>> IN
  IF ~MHas(d.m, k) THEN {}
  ELSE IF v.t = "S" THEN (IF MHas(d.m, v.s) THEN {} ELSE {Fault(<<>>, sp, <<>>)})
  ELSE IF v.t = "L" THEN {Fault(<<>>, sp \o <<EIdx(n)>>, <<>>) : n \in {n \in 1..Len(v.l) : ~MHas(d.m, v.l[n].s)}}
  ELSE Under(<<>>, sp, Faults(st, v, d))
ObjectFaults(st, s, d) ==
  IF d.t # "M" THEN {}
  ELSE LengthFaults(s, KMinProperties, KMaxProperties, Len(d.m))
       \cup (IF Has(s, KRequired) THEN {Fault(<<>>, <<EKey(KRequired), EIdx(j)>>, <<>>) : j \in {j \in 1..Len(Kw(s, KRequired).l) : ~MHas(d.m, Kw(s, KRequired).l[j].s)}} ELSE {})
       \cup All([j \in 1..Len(d.m) |-> MemberFaults(st, s, d.m[j][1], d.m[j][2])])
       \cup (IF Has(s, KDependencies) THEN LET ds == Kw(s, KDependencies).m IN All([j \in 1..Len(ds) |-> DependencyFaults(st, ds[j][1], ds[j][2], d)]) ELSE {})
CombinedFaults(st, s, d) ==
  LET each(k) == IF Has(s, k) THEN [j \in 1..Len(Kw(s, k).l) |-> Under(<<>>, <<EKey(k), EIdx(j)>>, Faults(st, Kw(s, k).l[j], d))] ELSE <<>>
      any == TLCEval(each(KAnyOf))
      one == TLCEval(each(KOneOf))
      holding(fs) == Cardinality({j \in 1..Len(fs) : fs[j] = {}})
  IN All(TLCEval(each(KAllOf)))
     \cup (IF Has(s, KAnyOf) /\ holding(any) = 0 THEN {Fault(<<>>, <<EKey(KAnyOf)>>, any)} ELSE {})
     \cup (IF Has(s, KOneOf) /\ holding(one) = 0 THEN {Fault(<<>>, <<EKey(KOneOf)>>, one)} ELSE {})
     \cup Leaf(KOneOf, Has(s, KOneOf) /\ holding(one) > 1)
     \cup Leaf(KNot, Has(s, KNot) /\ Faults(st, Kw(s, KNot), d) = {})
Faults(st, s, d) ==
  IF HasStr(s, KRef)
  THEN Faults(st, Lookup(st, Str(s, KRef)).v, d)
  ELSE Leaf(KType, ~TypeOk(s, d)) \cup Leaf(KEnum, ~EnumOk(s, d)) \cup NumberFaults(s, d) \cup StringFaults(s, d)
       \cup ArrayFaults(st, s, d) \cup ObjectFaults(st, s, d) \cup CombinedFaults(st, s, d)

(* a report: errors [d, s, sub], sub one report for each alternative *)
RECURSIVE ErrorOK(_, _)
ErrorOK(e, fs) == \E f \in fs : /\ f.d = e.d /\ f.s = e.s
                                /\ Len(e.sub) = Len(f.a)
                                /\ \A j \in 1..Len(f.a) : /\ e.sub[j] # <<>>
                                                          /\ \A k \in 1..Len(e.sub[j]) : ErrorOK(e.sub[j][k], f.a[j])
ReportOK(es, fs) == /\ (es = <<>>) <=> (fs = {})
                    /\ \A j \in 1..Len(es) : ErrorOK(es[j], fs)

(* keywords whose value has not the form it needs, where the data makes them count *)
Names == {TypeNames[n] : n \in DOMAIN TypeNames}
BadAt(k, bad) == IF bad THEN {<<EKey(k)>>} ELSE {}
Within2(sp, ps) == {sp \o p : p \in ps}
Number(v) == v.t \in {"I", "U", "F"}
NotNumber(s, ks) == UNION {BadAt(k, Has(s, k) /\ ~Number(Kw(s, k))) : k \in ks}
RECURSIVE Bads(_, _)
Bads(s, d) ==
  LET has(k) == Has(s, k)
      kw(k) == Kw(s, k)
  IN (IF ~has(KType) THEN {} ELSE IF kw(KType).t = "L" THEN {<<EKey(KType), EIdx(j)>> : j \in {j \in 1..Len(kw(KType).l) : kw(KType).l[j] \notin {VStr(n) : n \in Names}}}
      ELSE BadAt(KType, kw(KType) \notin {VStr(n) : n \in Names}))
     \cup BadAt(KEnum, has(KEnum) /\ kw(KEnum).t # "L")
     \cup (IF ~IsNum(d) THEN {} ELSE NotNumber(s, {KMinimum, KMaximum}) \cup BadAt(KMultipleOf, has(KMultipleOf) /\ IF Number(kw(KMultipleOf)) THEN Q(kw(KMultipleOf)) <= 0 ELSE TRUE))
     \cup (IF d.t # "S" THEN {} ELSE NotNumber(s, {KMinLength, KMaxLength}) \cup BadAt(KPattern, has(KPattern) /\ IF kw(KPattern).t = "S" THEN kw(KPattern).s = <<40>> ELSE TRUE))
     \cup (IF d.t # "L" THEN {}
           ELSE NotNumber(s, {KMinItems, KMaxItems}) \cup BadAt(KUniqueItems, has(KUniqueItems) /\ kw(KUniqueItems).t # "B")
                \cup (IF has(KItems) THEN Within2(<<EKey(KItems)>>, UNION {Bads(kw(KItems), d.l[j]) : j \in 1..Len(d.l)}) ELSE {}))
     \cup (IF d.t # "M" THEN {}
           ELSE NotNumber(s, {KMinProperties, KMaxProperties})
                \cup (IF ~has(KRequired) THEN {} ELSE IF kw(KRequired).t # "L" THEN BadAt(KRequired, TRUE) ELSE {<<EKey(KRequired), EIdx(j)>> : j \in {j \in 1..Len(kw(KRequired).l) : kw(KRequired).l[j].t # "S"}})
                \cup (IF ~has(KDependencies) THEN {} ELSE IF kw(KDependencies).t # "M" THEN BadAt(KDependencies, TRUE)
                      ELSE {<<EKey(KDependencies), EKey(x[1])>> : x \in {x \in {kw(KDependencies).m[j] : j \in 1..Len(kw(KDependencies).m)} : MHas(d.m, x[1]) /\ x[2].t \notin {"L", "M", "S"}}})
                \cup (IF ~has(KPatternProperties) THEN {} ELSE IF kw(KPatternProperties).t # "M" THEN BadAt(KPatternProperties, TRUE)
                      ELSE {<<EKey(KPatternProperties), EKey(x[1])>> : x \in {x \in {kw(KPatternProperties).m[j] : j \in 1..Len(kw(KPatternProperties).m)} : x[1] = <<40>>}})
                \cup (IF ~has(KProperties) THEN {} ELSE IF kw(KProperties).t # "M" THEN BadAt(KProperties, TRUE)
                      ELSE UNION {Within2(<<EKey(KProperties), EKey(x[1])>>, Bads(x[2], MGet(d.m, x[1]))) : x \in {x \in {kw(KProperties).m[j] : j \in 1..Len(kw(KProperties).m)} : MHas(d.m, x[1])}}))
     \cup UNION {BadAt(k, has(k) /\ kw(k).t # "L") : k \in {KAllOf, KAnyOf, KOneOf}}
     \cup (IF ~has(KAllOf) THEN {} ELSE IF kw(KAllOf).t # "L" THEN {} ELSE UNION {Within2(<<EKey(KAllOf), EIdx(j)>>, Bads(kw(KAllOf).l[j], d)) : j \in 1..Len(kw(KAllOf).l)})

(* paths as text, see Paths *)
RECURSIVE Quoted(_)
Quoted(s) == IF s = <<>> THEN <<>> ELSE (IF s[1] \in {47, 92, 91, 93} THEN <<92, s[1]>> ELSE <<s[1]>>) \o Quoted(Tail(s))
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Decimal(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE PathText(_, _)
PathText(p, j) == IF j > Len(p) THEN (IF p = <<>> THEN <<47>> ELSE <<>>)
                  ELSE (IF p[j].t = "S" THEN <<47>> \o Quoted(p[j].s) ELSE <<91>> \o Decimal(p[j].i) \o <<93>>) \o PathText(p, j + 1)
RECURSIVE TextsOK(_)
TextsOK(es) == \A j \in 1..Len(es) : /\ es[j].dt = PathText(es[j].d, 1) /\ es[j].st = PathText(es[j].s, 1)
                                     /\ \A k \in 1..Len(es[j].sub) : TextsOK(es[j].sub[k])
=============================================================================
