------------------------------- MODULE Schema -------------------------------
(* JSON-schema draft 4: Valid(stack, s, d) for a well-formed schema s whose  *)
(* references are resolved (see Registry) and data d.                         *)
EXTENDS Registry, Regex

Letters == "abcdefghijklmnopqrstuvwxyz"
Capitals == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Codes == [c \in {SubSeq(Letters, j, j) : j \in 1..26} |-> 96 + CHOOSE j \in 1..26 : SubSeq(Letters, j, j) = c]
      @@ [c \in {SubSeq(Capitals, j, j) : j \in 1..26} |-> 64 + CHOOSE j \in 1..26 : SubSeq(Capitals, j, j) = c]
      @@ [c \in {"$"} |-> 36] @@ [c \in {"-"} |-> 45]
Txt(w) == [j \in 1..Len(w) |-> Codes[SubSeq(w, j, j)]]

KType == Txt("type")            KMultipleOf == Txt("multipleOf")
KMinimum == Txt("minimum")      KMaximum == Txt("maximum")
KExMinimum == Txt("exclusiveMinimum")
KExMaximum == Txt("exclusiveMaximum")
KMinLength == Txt("minLength")  KMaxLength == Txt("maxLength")
KItems == Txt("items")          KAdditionalItems == Txt("additionalItems")
KMinItems == Txt("minItems")    KMaxItems == Txt("maxItems")
KUniqueItems == Txt("uniqueItems")
KAdditionalProperties == Txt("additionalProperties")
KRequired == Txt("required")
KMinProperties == Txt("minProperties")
KMaxProperties == Txt("maxProperties")
KAllOf == Txt("allOf")          KAnyOf == Txt("anyOf")
KOneOf == Txt("oneOf")          KNot == Txt("not")
(* draft 3 *)
KDivisibleBy == Txt("divisibleBy")
KFormat == Txt("format")
TypeNames == [array |-> Txt("array"), boolean |-> Txt("boolean"), integer |-> Txt("integer"),
              null |-> Txt("null"), number |-> Txt("number"), object |-> Txt("object"), string |-> Txt("string")]

(* numbers as multiples of 1/1024 *)
Q(v) == IF v.t = "F" THEN v.q ELSE 1024 * v.i
Has(s, k) == MHas(s.m, k)
Kw(s, k) == MGet(s.m, k)
True(s, k) == Has(s, k) /\ Kw(s, k).b

OfType(d, n) ==
  CASE n = TypeNames.array -> d.t = "L"
    [] n = TypeNames.boolean -> d.t = "B"
    [] n = TypeNames.integer -> d.t \in {"I", "U"} \/ (d.t = "F" /\ Q(d) % 1024 = 0)
    [] n = TypeNames.null -> d.t = "N"
    [] n = TypeNames.number -> IsNum(d)
    [] n = TypeNames.object -> d.t = "M"
    [] n = TypeNames.string -> d.t = "S"

TypeOk(s, d) ==
  Has(s, KType) =>
    LET ty == Kw(s, KType) IN
    IF ty.t = "S" THEN OfType(d, ty.s) ELSE \E j \in 1..Len(ty.l) : OfType(d, ty.l[j].s)
EnumOk(s, d) == Has(s, KEnum) => LET e == Kw(s, KEnum).l IN \E j \in 1..Len(e) : VEq(e[j], d)

NumberOk(s, d) ==
  IsNum(d) =>
    /\ Has(s, KMultipleOf) => Q(d) % Q(Kw(s, KMultipleOf)) = 0
    /\ (Has(s, KDivisibleBy) /\ ~Has(s, KMultipleOf)) => Q(d) % Q(Kw(s, KDivisibleBy)) = 0
    /\ Has(s, KMinimum) => IF True(s, KExMinimum) THEN Q(d) > Q(Kw(s, KMinimum)) ELSE Q(d) >= Q(Kw(s, KMinimum))
    /\ Has(s, KMaximum) => IF True(s, KExMaximum) THEN Q(d) < Q(Kw(s, KMaximum)) ELSE Q(d) <= Q(Kw(s, KMaximum))
Within(s, lo, hi, n) ==
  /\ Has(s, lo) => 1024 * n >= Q(Kw(s, lo))
  /\ Has(s, hi) => 1024 * n <= Q(Kw(s, hi))
(* texts with digits where w has 0; the two digits at k are a number of lo..hi *)
Shaped(t, w) == Len(t) = Len(w) /\ \A j \in 1..Len(w) : IF w[j] = 48 THEN t[j] \in 48..57 ELSE t[j] = w[j]
Pair2(t, k, lo, hi) == 10 * (t[k] - 48) + (t[k + 1] - 48) \in lo..hi
DateShape == <<48, 48, 48, 48, 45, 48, 48, 45, 48, 48>>
TimeShape == <<48, 48, 58, 48, 48, 58, 48, 48>>
Date(t) == Shaped(t, DateShape) /\ Pair2(t, 6, 1, 12) /\ Pair2(t, 9, 1, 31)
Time(t) == Shaped(t, TimeShape) /\ Pair2(t, 1, 0, 23) /\ Pair2(t, 4, 0, 59) /\ Pair2(t, 7, 0, 59)
DateTime(t) == Len(t) = 20 /\ Date(SubSeq(t, 1, 10)) /\ t[11] = 84 /\ Time(SubSeq(t, 12, 19)) /\ t[20] = 90
(* of the formats only these are decided; a text that nothing closes is no regular expression *)
Expression(t) == \A j \in 1..Len(t) : (t[j] = 40 => \E k \in (j + 1)..Len(t) : t[k] = 41) /\ (t[j] = 91 => \E k \in (j + 1)..Len(t) : t[k] = 93)
FormatOk(s, d) ==
  HasStr(s, KFormat) =>
    LET f == Kw(s, KFormat).s IN
    CASE f = Txt("date") -> Date(d.s)
      [] f = Txt("time") -> Time(d.s)
      [] f = Txt("date-time") -> DateTime(d.s)
      [] f = Txt("regex") -> Expression(d.s)
      [] OTHER -> TRUE
StringOk(s, d) ==
  d.t = "S" =>
    /\ FormatOk(s, d)
    /\ Within(s, KMinLength, KMaxLength, Len(d.s))
    /\ Has(s, KPattern) => Matches(Kw(s, KPattern).s, d.s)

RECURSIVE Valid(_, _, _)
Sub(st, s, k, d) == Valid(st, Kw(s, k), d)
ItemsOk(st, s, d) ==
  Has(s, KItems) =>
    LET it == Kw(s, KItems) IN
    IF it.t = "M" THEN \A j \in 1..Len(d.l) : Valid(st, it, d.l[j])
    ELSE \A j \in 1..Len(d.l) :
           IF j <= Len(it.l) THEN Valid(st, it.l[j], d.l[j])
           ELSE Has(s, KAdditionalItems) =>
                  LET a == Kw(s, KAdditionalItems) IN IF a.t = "B" THEN a.b ELSE Valid(st, a, d.l[j])
ArrayOk(st, s, d) ==
  d.t = "L" =>
    /\ Within(s, KMinItems, KMaxItems, Len(d.l))
    /\ True(s, KUniqueItems) => \A j \in 1..Len(d.l) : \A k \in 1..(j - 1) : ~VEq(d.l[k], d.l[j])
    /\ ItemsOk(st, s, d)
MemberOk(st, s, k, v) ==
  LET props == IF Has(s, KProperties) THEN Kw(s, KProperties).m ELSE <<>>
      pats == IF Has(s, KPatternProperties) THEN Kw(s, KPatternProperties).m ELSE <<>>
      hit == {j \in 1..Len(pats) : Matches(pats[j][1], k)}
  IN /\ MHas(props, k) => Valid(st, MGet(props, k), v)
     /\ \A j \in hit : Valid(st, pats[j][2], v)
     /\ (~MHas(props, k) /\ hit = {} /\ Has(s, KAdditionalProperties)) =>
          LET a == Kw(s, KAdditionalProperties) IN IF a.t = "B" THEN a.b ELSE Valid(st, a, v)
ObjectOk(st, s, d) ==
  d.t = "M" =>
    /\ Within(s, KMinProperties, KMaxProperties, Len(d.m))
    /\ Has(s, KRequired) => \A j \in 1..Len(Kw(s, KRequired).l) : MHas(d.m, Kw(s, KRequired).l[j].s)
    /\ \A j \in 1..Len(d.m) : MemberOk(st, s, d.m[j][1], d.m[j][2])
    /\ Has(s, KDependencies) =>
         LET ds == Kw(s, KDependencies).m IN
         \A j \in 1..Len(ds) :
           MHas(d.m, ds[j][1]) =>
             IF ds[j][2].t = "S" THEN MHas(d.m, ds[j][2].s)
             ELSE IF ds[j][2].t = "L" THEN \A n \in 1..Len(ds[j][2].l) : MHas(d.m, ds[j][2].l[n].s)
             ELSE Valid(st, ds[j][2], d)
CombinedOk(st, s, d) ==
  LET n(k) == Cardinality({j \in 1..Len(Kw(s, k).l) : Valid(st, Kw(s, k).l[j], d)}) IN
  /\ Has(s, KAllOf) => n(KAllOf) = Len(Kw(s, KAllOf).l)
  /\ Has(s, KAnyOf) => n(KAnyOf) > 0
  /\ Has(s, KOneOf) => n(KOneOf) = 1
  /\ Has(s, KNot) => ~Sub(st, s, KNot, d)
Valid(st, s, d) ==
  IF HasStr(s, KRef)
  THEN Valid(st, Lookup(st, Str(s, KRef)).v, d)
  ELSE /\ TypeOk(s, d) /\ EnumOk(s, d) /\ NumberOk(s, d) /\ StringOk(s, d)
       /\ ArrayOk(st, s, d) /\ ObjectOk(st, s, d) /\ CombinedOk(st, s, d)
=============================================================================
