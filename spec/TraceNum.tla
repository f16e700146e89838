------------------------------ MODULE TraceNum ------------------------------
(* Recorded comparisons, conversions and arithmetic judged by Num.             *)
EXTENDS Num, Judge
(* an operand left as it was *)
Same(x, y) == x.t = y.t /\ (x = y \/ VEq2(x, y))
IsVal(v, t, d) == v.t = t /\ ~Special2(v) /\ ToDy(v) = d
NumResult(r, v, t) == CASE r.o = "any" -> v.t = t
                        [] r.o = "err" -> FALSE
                        [] r.o = "val" -> IsVal(v, t, r.d)
Kind(f) == CASE f = "bool" -> "B" [] f \in SignedKinds -> "I" [] f \in UnsignedKinds -> "U" [] OTHER -> "F"
ConvVal(f, v) == IF f = "bool" THEN [t |-> "B", g |-> IF v.b THEN 1 ELSE 0, m |-> IF v.b THEN <<1>> ELSE <<>>, e |-> 0] ELSE v
(* strings as numbers: required only for whole numbers and for texts that do not begin like one *)
NumStart == {43, 45, 46, 32, 9, 10, 11, 12, 13} \cup (48..57) \cup {73, 105, 78, 110}
(* narrower types, and those read through the floating type, cut what does not fit *)
Truncated(e) == Width(e.c.f) < 64 \/ (e.c.via = 0 /\ e.c.f \notin {"int", "uns"})
StrConv(f, s, e) ==
  IF f = "str" THEN e.r.o = "ok" /\ e.r.s = s
  ELSE IF f = "bool" THEN TRUE
  ELSE IF s = <<>> \/ s[1] \notin NumStart THEN e.r.o = "err"
  ELSE IF f \in SignedKinds /\ IsIntText(s) THEN
       IF FitsSigned(IntText(s), Width(f)) THEN e.r.o = "ok" /\ IsVal(e.r.v, "I", IntText(s)) ELSE FitsInt(IntText(s)) \/ Truncated(e) \/ e.r.o = "err"
  ELSE IF f \in UnsignedKinds /\ IsIntText(s) THEN
       IF FitsUnsigned(IntText(s), Width(f)) THEN e.r.o = "ok" /\ IsVal(e.r.v, "U", IntText(s)) ELSE FitsUns(IntText(s)) \/ Negative(s) \/ Truncated(e) \/ e.r.o = "err"
  ELSE IF f = "ldbl" /\ DecText(s).ok
       THEN LET d == DecText(s) IN
            IF d.x > 300 \/ d.x < 0 - 300 THEN TRUE ELSE e.r.o = "ok" /\ DecNearest(d, e.r.v, 64, 0 - 16445)
  ELSE TRUE
(* a complex number as nothing, a number, a map of parts or a list of parts *)
Zero == [t |-> "I", g |-> 0, m |-> <<>>, e |-> 0]
ReadsAs(x, v) == NumResult(ConvNum("ldbl", x), v, "F")
ComplexOK(e) ==
  LET form == e.c.form
      re == IF form \in {1, 2, 3, 5, 6} THEN e.c.a ELSE Zero
      im == IF form \in {2, 4, 5} THEN e.c.b ELSE Zero
  IN IF form = 9 THEN e.r.o = "err" ELSE e.r.o = "ok" /\ ReadsAs(re, e.r.v) /\ ReadsAs(im, e.r.w)
Verdict(e) ==
  IF e.r.o \in {"crash", "hang"} THEN FALSE
  ELSE CASE e.c.op = "cmp" ->
              /\ e.r.o = "ok"
              /\ CompareOK(e.c.a, e.c.b, e.r.c) /\ CompareOK(e.c.b, e.c.a, e.r.d)
              /\ e.r.cm = Comparable(e.c.a, e.c.b)
              /\ e.r.eq = (e.r.c = 0) /\ e.r.ne = (e.r.c # 0) /\ e.r.lt = (e.r.c < 0) /\ e.r.gt = (e.r.c > 0)
              /\ e.r.le = (e.r.c <= 0) /\ e.r.ge = (e.r.c >= 0)
         [] e.c.op = "arith" ->
              LET r == Arith(e.c.f, e.c.a, e.c.b) IN
              /\ Same(e.r.b, e.c.b)
              /\ IF e.r.x = "err" THEN Same(e.r.a, e.c.a) /\ r.o \in {"err", "any"}
                 ELSE NumResult(r, e.r.v, ResultType(e.c.a, e.c.b)) /\ (e.c.via \notin {1, 4} => e.r.a = e.r.v) /\ (e.c.via \in {1, 4} => Same(e.r.a, e.c.a))
         [] e.c.op = "unary" ->
              LET r == Unary(e.c.f, e.c.a) IN
              IF e.r.x = "err" THEN Same(e.r.a, e.c.a) /\ r.o \in {"err", "any"}
              ELSE /\ NumResult(r, e.r.v, e.c.a.t)
                   /\ (e.c.f \in {"neg", "pos"} => Same(e.r.a, e.c.a)) /\ (e.c.f \in {"incr", "decr"} => e.r.a = e.r.v)
         [] e.c.op = "into" ->
              /\ e.r.o = "ok" /\ e.r.same
              /\ IF e.c.def THEN e.r.x = "ok" /\ IsVal(e.r.v, "I", ToDy(e.c.d)) /\ e.r.s = (IF e.c.d.g < 0 THEN <<45>> ELSE <<>>) \o NToDigits(DyMag(ToDy(e.c.d)))
                 ELSE e.r.x = "err" /\ IsVal(e.r.v, "I", DyInt(77)) /\ e.r.s = <<111, 108, 100>>
         [] e.c.op = "conv" ->
              IF e.c.f = "cplx" THEN ComplexOK(e) ELSE IF e.c.a.t = "S" THEN StrConv(e.c.f, e.c.a.s, e)
              ELSE IF ~IsNum2(e.c.a) THEN TRUE
              ELSE IF e.c.f = "str"
                   THEN e.r.o = "ok" /\ (e.c.a.t = "F" \/ e.r.s = (IF e.c.a.g < 0 THEN <<45>> ELSE <<>>) \o NToDigits(DyMag(ToDy(e.c.a))))
              ELSE e.r.o = "ok" /\ NumResult(ConvNum(e.c.f, e.c.a), ConvVal(e.c.f, e.r.v), Kind(e.c.f))
Expected(e) ==
  CASE e.c.op = "arith" -> ToString(Arith(e.c.f, e.c.a, e.c.b))
    [] e.c.op = "unary" -> ToString(Unary(e.c.f, e.c.a))
    [] e.c.op = "cmp" -> IF Ordered(e.c.a, e.c.b) THEN ToString(Order(e.c.a, e.c.b)) ELSE ToString(VEq2(e.c.a, e.c.b))
    [] OTHER -> "the same number"
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
