------------------------------- MODULE MCYaml -------------------------------
(* Every text over a token alphabet: as a plain scalar with its typed value    *)
(* (plain), and as a string value in every position written and read back (rt).*)
EXTENDS Yaml, Json, IOUtils
VARIABLES t, n
Depth == CHOOSE k \in 1..20 : ToString(k) = IOEnv.DEPTH
Rt == IOEnv.PROFILE \in {"rt", "xrt"}
Tokens ==
  CASE IOEnv.PROFILE = "plain" -> {<<43>>, <<45>>, <<46>>, <<48>>, <<49>>, <<53>>, <<56>>, <<101>>, <<69>>, <<120>>, <<111>>, <<97>>, <<66>>, <<95>>}
    [] IOEnv.PROFILE = "word" -> {<<110, 117, 108, 108>>, <<78, 117>>, <<108, 108>>, <<76, 76>>, <<85>>, <<126>>, <<116>>, <<84>>, <<114, 117, 101>>, <<82, 85, 69>>, <<70>>, <<102>>,
                                  <<97, 108, 115, 101>>, <<65, 76, 83, 69>>, <<46>>, <<105, 110, 102>>, <<73>>, <<110, 102>>, <<78>>, <<70>>, <<97, 110>>, <<97>>, <<65>>, <<45>>, <<43>>}
    [] IOEnv.PROFILE = "rt" -> {<<97>>, <<49>>, <<46>>, <<45>>, <<58>>, <<35>>, <<32>>, <<10>>, <<9>>, <<39>>, <<34>>, <<92>>, <<126>>, <<91>>, <<125>>, <<44>>, <<63>>, <<33>>, <<38>>, <<42>>, <<124>>,
                                <<62>>, <<37>>, <<64>>, <<96>>, <<1>>, <<127>>, <<13>>, <<195, 169>>, <<226, 130, 172>>, <<240, 157, 132, 158>>, <<194, 133>>, <<226, 128, 168>>,
                                <<110, 117, 108, 108>>, <<116, 114, 117, 101>>, <<45, 45, 45>>, <<46, 46, 46>>, <<48, 120>>}
    [] IOEnv.PROFILE = "xrt" -> {<<97>>, <<49>>, <<32>>, <<10>>, <<9>>, <<13>>, <<60>>, <<62>>, <<38>>, <<39>>, <<34>>, <<59>>, <<93, 93, 62>>, <<38, 97, 109, 112, 59>>, <<38, 35, 49, 48, 59>>,
                                 <<60, 33, 45, 45>>, <<45, 45, 62>>, <<60, 47>>, <<47, 62>>, <<60, 33, 91, 67, 68, 65, 84, 65, 91>>, <<195, 169>>, <<226, 130, 172>>, <<240, 157, 132, 158>>}
Init == t = <<>> /\ n = 0
Next == n < Depth /\ n' = n + 1 /\ \E w \in Tokens : t' = t \o w
(* plain scalars need no quoting in any of the four positions *)
Plainable(s) == s # <<>> /\ s[1] \notin {33, 38, 42, 124, 62, 37, 64, 96} /\ s # <<45>> /\ s # <<45, 45, 45>> /\ s # <<46, 46, 46>>
RECURSIVE Pow5(_)
Pow5(k) == IF k = 0 THEN NOne ELSE NMulSmall(Pow5(k - 1), 5)
Exact(dec) == dec.x < 60 /\ dec.x > (0 - 60) /\ (dec.x >= 0 \/ NDivMod(dec.n, Pow5(0 - dec.x)).r = <<>>)
DecDy(dec) == LET g == IF dec.neg THEN 0 - 1 ELSE 1 IN
              IF dec.x >= 0 THEN Dy(g, NMul(dec.n, NPow10(dec.x)), 0) ELSE Dy(g, NDivMod(dec.n, Pow5(0 - dec.x)).q, dec.x)
Known(s) == Form(s) = "float" => (Exact(DecText(s)) /\ NBits(DecDy(DecText(s)).m) <= 53)
ValueOf(s) ==
  LET f == Form(s) IN
  CASE f = "null" -> VNull
    [] f \in {"true", "false"} -> VBool(f = "true")
    [] f = "int" -> NumOf("I", IntText(s))
    [] f = "radix" -> NumOf("U", Dy(1, RadixVal(s, Radix(s), 3, <<>>), 0))
    [] f = "float" -> NumOf("F", DecDy(DecText(s)))
    [] f = "inf" -> VInf(IF Negative(s) THEN 0 - 1 ELSE 1)
    [] f = "nan" -> [t |-> "F", k |-> "nan"]
    [] f = "str" -> VStr(s)
(* a scalar has one value, and the text decides it *)
Sound == ~Rt => (Known(t) => (PlainIs(t, ValueOf(t)) /\ (Form(t) # "str" => ~PlainIs(t, VStr(t))) /\ Same(ValueOf(t), ValueOf(t))))
Out(c, e) == PrintT("VEC " \o ToJson([c |-> c, e |-> e]))
PlainVec == (Plainable(t) /\ Known(t)) =>
  /\ \A k \in 0..3 : Out([op |-> "yplain", s |-> t, ctx |-> k], [o |-> "ok", v |-> ValueOf(t)])
  /\ \A k \in 4..7 : Out([op |-> "yplain", s |-> t, ctx |-> k], [o |-> "ok", v |-> VStr(t)])
Styles == {<<97, 110, 121>>, <<98, 108, 111, 99, 107>>, <<102, 108, 111, 119>>}
S == VStr(t)
Nest == {S, VList(<<S>>), VMap(<<<<t, S>>>>), VMap(<<<<<<107>>, VList(<<S, VList(<<S>>), VMap(<<<<t, VList(<<>>)>>>>)>>)>>>>)}
RtVec == \A v \in Nest, f \in BOOLEAN :
  Out([op |-> IF IOEnv.PROFILE = "rt" THEN "yrt" ELSE "xrt", v |-> v, p |-> [flow |-> f]], [o |-> "ok", v |-> v])
Check == Sound /\ IF Rt THEN RtVec ELSE PlainVec
=============================================================================
