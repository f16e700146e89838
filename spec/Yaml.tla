-------------------------------- MODULE Yaml --------------------------------
(* Which value a plain scalar denotes, and what a written value reads back as. *)
EXTENDS Num

NullTexts == {<<110, 117, 108, 108>>, <<78, 117, 108, 108>>, <<78, 85, 76, 76>>, <<126>>}
Trues == {<<116, 114, 117, 101>>, <<84, 114, 117, 101>>, <<84, 82, 85, 69>>}
Falses == {<<102, 97, 108, 115, 101>>, <<70, 97, 108, 115, 101>>, <<70, 65, 76, 83, 69>>}
Infs == {<<46, 105, 110, 102>>, <<46, 73, 110, 102>>, <<46, 73, 78, 70>>}
Nans == {<<46, 110, 97, 110>>, <<46, 78, 97, 110>>, <<46, 78, 97, 78>>, <<46, 78, 65, 78>>}
HexVal(c) == IF Dig(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 16
Radix(s) == IF Len(s) < 3 \/ s[1] # 48 THEN 0
            ELSE IF s[2] = 111 /\ (\A j \in 3..Len(s) : s[j] \in 48..55) THEN 8
            ELSE IF s[2] = 120 /\ (\A j \in 3..Len(s) : HexVal(s[j]) < 16) THEN 16
            ELSE 0
RECURSIVE RadixVal(_, _, _, _)
RadixVal(s, r, j, acc) == IF j > Len(s) THEN acc ELSE RadixVal(s, r, j + 1, NAdd(NMulSmall(acc, r), NFromInt(HexVal(s[j]))))

(* the form of a plain scalar *)
Form(s) ==
  IF s \in NullTexts THEN "null"
  ELSE IF s \in Trues THEN "true"
  ELSE IF s \in Falses THEN "false"
  ELSE IF IsIntText(s) THEN "int"
  ELSE IF Radix(s) # 0 THEN "radix"
  ELSE IF DecText(s).ok THEN "float"
  ELSE IF SubSeq(s, SignLen(s) + 1, Len(s)) \in Infs THEN "inf"
  ELSE IF s \in Nans THEN "nan"
  ELSE "str"
VInf(g) == [t |-> "F", k |-> "inf", g |-> g]
TooFar(dec) == dec.n # <<>> /\ (dec.x > 400 \/ dec.x < 0 - 400 \/ Len(NToDigits(dec.n)) + dec.x > 308)
FloatOf(dec, v) == v.t = "F" /\ (TooFar(dec) \/ DecNearest(dec, v, 53, 0 - 1074))
(* v is the value of the plain scalar s *)
PlainIs(s, v) ==
  LET f == Form(s) IN
  CASE f = "null" -> v = VNull
    [] f = "true" -> v = VBool(TRUE)
    [] f = "false" -> v = VBool(FALSE)
    [] f = "int" -> LET d == IntText(s) IN
                    IF FitsInt(d) THEN v = NumOf("I", d) ELSE IF FitsUns(d) THEN v = NumOf("U", d) ELSE IsNum2(v)  \* beyond 64 bits: some number
    [] f = "radix" -> LET d == Dy(1, RadixVal(s, Radix(s), 3, <<>>), 0) IN v.t = "U" /\ (FitsUns(d) => v = NumOf("U", d))
    [] f = "float" -> FloatOf(DecText(s), v)
    [] f = "inf" -> v = VInf(IF Negative(s) THEN 0 - 1 ELSE 1)
    [] f = "nan" -> v.t = "F" /\ Special2(v) /\ v.k = "nan"
    [] f = "str" -> v = VStr(s)

(* reading back what was written: the same value of the same type; an integer may change its signedness *)
RECURSIVE Same(_, _)
Same(v, w) ==
  CASE v.t \in {"I", "U"} -> w.t \in {"I", "U"} /\ ToDy(v) = ToDy(w)
    [] v.t = "D" -> w.t = "D" /\ w.d = v.d
    [] v.t = "L" -> w.t = "L" /\ Len(v.l) = Len(w.l) /\ \A j \in 1..Len(v.l) : Same(v.l[j], w.l[j])
    [] v.t = "M" -> w.t = "M" /\ Len(v.m) = Len(w.m) /\ \A j \in 1..Len(v.m) : v.m[j][1] = w.m[j][1] /\ Same(v.m[j][2], w.m[j][2])
    [] OTHER -> w = v
=============================================================================
