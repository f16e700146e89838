------------------------------- MODULE MCNum --------------------------------
(* All pairs of boundary values: laws of the order, and vectors for the code.  *)
EXTENDS Num, Json, IOUtils
VARIABLES a, b
Cmp == IOEnv.PROFILE = "cmp"
P(k) == [g |-> 1, m |-> NOne, e |-> k]
Pm(k, n) == DyAdd(IF k = 0 THEN DyInt(1) ELSE P(k), DyInt(n))
Ints == {DyInt(0), DyInt(1), DyInt(7), Pm(31, 0), Pm(32, 0 - 1), Pm(53, 0), Pm(53, 1), Pm(63, 0 - 1), Pm(63, 0), Pm(64, 0 - 1)}
Both == Ints \cup {DyNeg(d) : d \in Ints}
Halfs == {Dy(1, <<1>>, 0 - 1), Dy(0 - 1, <<1>>, 0 - 1), Dy(1, <<3>>, 0 - 1), P(64), DyNeg(P(64)), P(90), Dy(1, <<1>>, 0 - 90), Pm(64, 0 - 1)}
Nums == {NumOf("I", d) : d \in {x \in Both : FitsInt(x)}} \cup {NumOf("U", d) : d \in {x \in Both : FitsUns(x)}}
        \cup {NumOf("F", d) : d \in {x \in Both \cup Halfs : FitsFlt(x)}}
Infs == {[t |-> "F", k |-> "inf", g |-> 1], [t |-> "F", k |-> "inf", g |-> 0 - 1]}
Words == {<<>>, <<0>>, <<97>>, <<97, 0>>, <<97, 97>>, <<98>>, <<255>>}
D(w, cut) == [t |-> "D", d |-> w, cut |-> cut]
Blobs == {[t |-> "D", d |-> w] : w \in Words} \cup {D(<<97, 97>>, <<1, 1>>), D(<<97, 97>>, <<0, 2>>), D(<<97, 0>>, <<1, 0, 1>>), D(<<>>, <<>>), D(<<>>, <<0>>), D(<<97>>, <<1, 0>>)}
Others == {VNull, VBool(TRUE), VBool(FALSE)} \cup {VStr(w) : w \in Words} \cup Blobs
One == {NumOf("I", DyInt(1)), NumOf("F", DyInt(1)), NumOf("U", Pm(64, 0 - 1)), VNull, VStr(<<97>>)}
Lists == {VList(<<>>), VMap(<<>>)} \cup {VList(<<x>>) : x \in One} \cup {VList(<<x, VNull>>) : x \in One}
         \cup {VMap(<<(<<<<97>>, x>>)>>) : x \in One} \cup {VMap(<<(<<<<>>, x>>), (<<<<97>>, VNull>>)>>) : x \in One}
         \cup {VList(<<VList(<<x>>)>>) : x \in One}
Vals == IF Cmp THEN Nums \cup Infs \cup Others \cup Lists ELSE Nums \cup {VNull, VBool(TRUE), VStr(<<49>>), VList(<<>>), [t |-> "D", d |-> <<49>>]}
Unset == [t |-> "unset"]
Init == a \in Vals /\ b = Unset
Next == b = Unset /\ b' \in Vals /\ UNCHANGED a

Sign(r) == IF Ordered(a, b) THEN r ELSE IF ~Comparable(a, b) THEN 1 ELSE IF VEq2(a, b) THEN 0 ELSE 2
Laws == /\ VEq2(a, a) /\ VEq2(a, b) = VEq2(b, a)
        /\ VEq2(a, b) => Comparable(a, b)
        /\ Ordered(a, b) => /\ Order(a, b) = 0 - Order(b, a)
                            /\ (Order(a, b) = 0) = VEq2(a, b)
                            /\ \A c \in Vals : (Ordered(b, c) /\ Order(a, b) <= 0 /\ Order(b, c) <= 0) => Order(a, c) <= 0
CmpVec == PrintT("VEC " \o ToJson([c |-> [op |-> "cmp", a |-> a, b |-> b, via |-> 0],
                                   e |-> [c |-> Sign(IF Ordered(a, b) THEN Order(a, b) ELSE 0)]]))

Fs == {"add", "sub", "mul", "div", "rem"}
(* laws of exact arithmetic, where results are defined *)
Exact(f, x, y) == Arith(f, x, y).o = "val"
ArithLaws ==
  /\ (Exact("add", a, b)) => Arith("add", a, b) = Arith("add", b, a) /\ ResultType(a, b) = ResultType(b, a)
  /\ (IsNum2(a) /\ IsNum2(b)) =>
       LET x == ToDy(a) y == ToDy(b) IN
       /\ DyAdd(DyAdd(x, y), DyNeg(y)) = x
       /\ DyCmp(DyAdd(x, y), x) = y.g
       /\ y.g # 0 => DyDiv(DyMul(x, y), y) = x
       /\ (y.g # 0 /\ DyInteger(x) /\ DyInteger(y)) => DyAdd(DyMul(DyQuo(x, y), y), DyRem(x, y)) = x
ArithVec == \A f \in Fs : LET r == Arith(f, a, b) IN
  r.o = "any" \/ PrintT("VEC " \o ToJson([c |-> [op |-> "arith", f |-> f, a |-> a, b |-> b, via |-> 0],
                                          e |-> IF r.o = "err" THEN [x |-> "err", a |-> a] ELSE [x |-> "ok", a |-> NumOf(ResultType(a, b), r.d)]]))
Us == {"incr", "decr", "neg", "pos"}
UnaryVec == b # VNull \/ \A f \in Us : LET r == Unary(f, a) IN
  r.o = "any" \/ PrintT("VEC " \o ToJson([c |-> [op |-> "unary", f |-> f, a |-> a, via |-> 0],
                                          e |-> IF r.o = "err" THEN [x |-> "err", a |-> a] ELSE [x |-> "ok", v |-> NumOf(a.t, r.d)]]))
Cs == SignedKinds \cup UnsignedKinds \cup {"ldbl", "dbl", "flt"}
Kind(f) == CASE f \in SignedKinds -> "I" [] f \in UnsignedKinds -> "U" [] OTHER -> "F"
ConvVec == b # VNull \/ ~IsNum2(a) \/ \A f \in Cs : LET r == ConvNum(f, a) IN
  r.o = "any" \/ \A v \in 0..9 : PrintT("VEC " \o ToJson([c |-> [op |-> "conv", f |-> f, a |-> a, via |-> v], e |-> [v |-> NumOf(Kind(f), r.d)]]))
Digits == IsNum2(a) => LET n == IF DyInteger(ToDy(a)) /\ ~(ToDy(a).e > 70) THEN DyMag(ToDy(a)) ELSE <<>> IN NFromDigits(NToDigits(n)) = n
Check == b = Unset \/ IF Cmp THEN Laws /\ CmpVec ELSE ArithLaws /\ ArithVec /\ UnaryVec /\ ConvVec /\ Digits
=============================================================================
