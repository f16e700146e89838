------------------------------- MODULE MCJson -------------------------------
(* Every text that can be built from a token alphabet as long as it is not yet *)
(* wrong or complete, up to a number of tokens, with the required outcome.     *)
EXTENDS JsonText, Json, IOUtils
VARIABLES t, n
Tok(profile) ==
  CASE profile = "struct" -> {<<91>>, <<93>>, <<123>>, <<125>>, <<44>>, <<58>>, <<34, 97, 34>>, <<49>>, <<32>>, <<116, 114, 117, 101>>, <<120>>}
    [] profile = "number" -> {<<91>>, <<93>>, <<44>>, <<45>>, <<43>>, <<46>>, <<48>>, <<49>>, <<53>>, <<101>>, <<69>>, <<32>>, <<47, 42, 42, 47>>}
    [] profile = "string" -> {<<34>>, <<92>>, <<117>>, <<97>>, <<110>>, <<48, 48, 52, 49>>, <<68, 56, 51, 52>>, <<100, 100, 49, 101>>, <<50, 48, 97, 99>>, <<93>>, <<10>>, <<47>>}
    [] profile = "word" -> {<<110>>, <<117>>, <<108>>, <<116, 114>>, <<117, 101>>, <<102, 97, 108>>, <<115>>, <<101>>, <<93>>, <<44>>, <<32>>, <<47, 42, 42, 47>>, <<47>>, <<120>>}
    [] profile = "comment" -> {<<91>>, <<93>>, <<123>>, <<125>>, <<44>>, <<58>>, <<34, 97, 34>>, <<49>>, <<47>>, <<42>>, <<47, 42, 42, 47>>}
Tokens == Tok(IOEnv.PROFILE)
Start == CASE IOEnv.PROFILE = "string" -> <<91, 34>> [] IOEnv.PROFILE \in {"word", "number"} -> <<91>> [] OTHER -> <<>>
Depth == CHOOSE k \in 1..20 : ToString(k) = IOEnv.DEPTH
Init == t = Start /\ n = 0
Next == /\ n < Depth /\ Root(t, FALSE).o = "eof"
        /\ \E w \in Tokens : t' = t \o w
        /\ n' = n + 1
(* exact value of a number token, if it has one *)
RECURSIVE Pow5(_)
Pow5(k) == IF k = 0 THEN NOne ELSE NMulSmall(Pow5(k - 1), 5)
DecExact(dec) == dec.x >= 0 \/ NDivMod(dec.n, Pow5(0 - dec.x)).r = <<>>
DecDy(dec) == LET g == IF dec.neg THEN 0 - 1 ELSE 1 IN
              IF dec.x >= 0 THEN Dy(g, NMul(dec.n, NPow10(dec.x)), 0) ELSE Dy(g, NDivMod(dec.n, Pow5(0 - dec.x)).q, dec.x)
FitsDec(dec) == dec.frac \/ FitsUns(Dy(1, dec.n, 0))
RECURSIVE Conc(_), HasConc(_)
HasConc(x) == CASE x.t = "num" -> x.dec.x < 60 /\ x.dec.x > (0 - 60) /\ FitsDec(x.dec) /\ DecExact(x.dec) /\ (x.dec.frac => NBits(DecDy(x.dec).m) <= 53)
                [] x.t = "L" -> \A j \in 1..Len(x.l) : HasConc(x.l[j])
                [] x.t = "M" -> \A j \in 1..Len(x.m) : HasConc(x.m[j][2])
                [] OTHER -> TRUE
Conc(x) == CASE x.t = "num" -> NumOf(IF ~x.dec.frac THEN (IF x.dec.neg THEN "I" ELSE "U") ELSE "F", DecDy(x.dec))
             [] x.t = "L" -> VList([j \in 1..Len(x.l) |-> Conc(x.l[j])])
             [] x.t = "M" -> VMap([j \in 1..Len(x.m) |-> <<x.m[j][1], Conc(x.m[j][2])>>])
             [] OTHER -> x
(* every text gets exactly one outcome; a complete one stays complete whatever follows *)
Stable == LET r == Root(t, FALSE) IN
  /\ r.o \in {"ok", "err", "eof", "any"}
  /\ r.o = "ok" => (r.j = Len(t) + 1 /\ Root(Append(t, 120), FALSE) = r /\ WF(r.v))
  /\ r.o = "err" => Root(Append(t, 93), FALSE).o = "err"
Vec == LET r == Root(t, FALSE) IN
  r.o = "any" \/ (r.o = "ok" /\ ~HasConc(r.v)) \/
  PrintT("VEC " \o ToJson([c |-> [op |-> "jread", s |-> t], e |-> IF r.o = "ok" THEN [o |-> "ok", v |-> Conc(r.v)] ELSE [o |-> "err"]]))
Check == Stable /\ Vec
=============================================================================
