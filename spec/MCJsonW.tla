------------------------------ MODULE MCJsonW -------------------------------
(* A canonical writer: what it writes is strict JSON, denotes the value and    *)
(* reads back; every small value becomes a vector for the real writer.         *)
EXTENDS JsonText, Json, IOUtils
VARIABLES v, d
Scalars == {VNull, VBool(TRUE), VBool(FALSE), NumOf("I", Dy(0 - 1, <<7>>, 0)), NumOf("I", Dy(1, <<7>>, 0)), NumOf("U", Dy(1, NPow2(63), 0)),
            NumOf("F", Dy(1, <<1>>, 0 - 1)), NumOf("F", Dy(0 - 1, <<3>>, 2)), VStr(<<>>), VStr(<<34>>), VStr(<<92, 110>>), VStr(<<10>>), VStr(<<31, 127>>),
            VStr(<<195, 169>>), VStr(<<47>>)}
Keys == {<<>>, <<97>>, <<34, 92>>}
HexD(k) == IF k < 10 THEN 48 + k ELSE 87 + k
Esc(c) == IF c \in {34, 92} THEN <<92, c>>
          ELSE IF c < 32 THEN <<92, 117, 48, 48, HexD(c \div 16), HexD(c % 16)>>
          ELSE <<c>>
RECURSIVE WStr(_, _)
WStr(s, j) == IF j > Len(s) THEN <<34>> ELSE Esc(s[j]) \o WStr(s, j + 1)
Digits0(n) == IF n = <<>> THEN <<48>> ELSE NToDigits(n)
RECURSIVE Five(_)
Five(k) == IF k = 0 THEN NOne ELSE NMulSmall(Five(k - 1), 5)
(* an exact dyadic m 2^e: integer digits, or m 5^-e with a decimal exponent *)
WNum(x) == LET y == ToDy(x) s == IF y.g < 0 THEN <<45>> ELSE <<>> IN
           IF x.t # "F" THEN s \o Digits0(NShl(y.m, y.e))
           ELSE IF y.e >= 0 THEN s \o Digits0(NShl(y.m, y.e)) \o <<46, 48>>
           ELSE s \o Digits0(NMul(y.m, Five(0 - y.e))) \o <<101, 45>> \o Digits0(<<0 - y.e>>)
RECURSIVE W(_), WL(_, _), WM(_, _)
W(x) == CASE x.t = "N" -> <<110, 117, 108, 108>>
          [] x.t = "B" -> IF x.b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>
          [] x.t \in {"I", "U", "F"} -> WNum(x)
          [] x.t = "S" -> <<34>> \o WStr(x.s, 1)
          [] x.t = "L" -> <<91>> \o WL(x.l, 1)
          [] x.t = "M" -> <<123>> \o WM(x.m, 1)
WL(l, j) == IF j > Len(l) THEN <<93>> ELSE (IF j > 1 THEN <<44>> ELSE <<>>) \o W(l[j]) \o WL(l, j + 1)
WM(m, j) == IF j > Len(m) THEN <<125>>
            ELSE (IF j > 1 THEN <<44>> ELSE <<>>) \o <<34>> \o WStr(m[j][1], 1) \o <<58>> \o W(m[j][2]) \o WM(m, j + 1)
Depth == CHOOSE k \in 1..9 : ToString(k) = IOEnv.DEPTH
(* grow a value by adding an element to the root or wrapping it *)
Init == v \in {VList(<<>>), VMap(<<>>)} /\ d = 0
Add(x) == IF v.t = "L" THEN {VList(Append(v.l, x))} ELSE {VMap(MSet(v.m, k, x)) : k \in Keys}
Next == /\ d < Depth /\ d' = d + 1
        /\ \/ \E x \in Scalars : v' \in Add(x)
           \/ v' = VList(<<v>>) \/ \E k \in Keys : v' = VMap(<<<<k, v>>>>)
Sound == LET x == StrictText(W(v)) IN
  /\ x.o = "ok" /\ Denotes(x.v, v) /\ Reads(x.v, Back(v))
  /\ Root(W(v), FALSE) = Root(W(v), TRUE)
  /\ Back(Back(v)) = Back(v)
Vec == PrintT("VEC " \o ToJson([c |-> [op |-> "jwrite", v |-> v, strict |-> (d % 2) = 0, pretty |-> d > 1], e |-> [o |-> "ok", back |-> Back(v)]]))
Check == Sound /\ Vec
=============================================================================
