-------------------------------- MODULE Num ---------------------------------
(* Exact numbers.  A natural number is a sequence of limbs in base 2^15,       *)
(* least significant first, without leading zero limbs.  A number is the       *)
(* dyadic [g, m, e]: g * m * 2^e with g in {-1,0,1} and m odd (g = 0: m = <<>>,*)
(* e = 0), so equal numbers are equal records.  Variants holding numbers are   *)
(* encoded [t |-> "I"|"U"|"F", g, m, e]; [t |-> "F", k |-> "inf", g] and       *)
(* [t |-> "F", k |-> "nan"] are the special floating values.                   *)
EXTENDS Val

BB == 32768

(* ---------------- naturals ---------------- *)
RECURSIVE Trim(_)
Trim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN Trim(SubSeq(a, 1, Len(a) - 1)) ELSE a
Limb(a, j) == IF j >= 1 /\ j <= Len(a) THEN a[j] ELSE 0
RECURSIVE AddAt(_, _, _, _, _)
AddAt(a, b, j, c, acc) ==
  IF j > Len(a) /\ j > Len(b) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET s == Limb(a, j) + Limb(b, j) + c IN AddAt(a, b, j + 1, s \div BB, Append(acc, s % BB))
NAdd(a, b) == AddAt(a, b, 1, 0, <<>>)
RECURSIVE SubAt(_, _, _, _, _)
SubAt(a, b, j, c, acc) ==
  IF j > Len(a) THEN Trim(acc)
  ELSE LET s == a[j] - Limb(b, j) - c IN
       IF s < 0 THEN SubAt(a, b, j + 1, 1, Append(acc, s + BB)) ELSE SubAt(a, b, j + 1, 0, Append(acc, s))
NSub(a, b) == SubAt(a, b, 1, 0, <<>>)                     \* a >= b
RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, j) == IF j = 0 THEN 0 ELSE IF a[j] < b[j] THEN 0 - 1 ELSE IF a[j] > b[j] THEN 1 ELSE CmpAt(a, b, j - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN 0 - 1 ELSE IF Len(a) > Len(b) THEN 1 ELSE CmpAt(a, b, Len(a))
RECURSIVE MulSmallAt(_, _, _, _, _)
MulSmallAt(a, k, j, c, acc) ==
  IF j > Len(a) THEN (IF c = 0 THEN acc ELSE Append(acc, c))
  ELSE LET s == a[j] * k + c IN MulSmallAt(a, k, j + 1, s \div BB, Append(acc, s % BB))
NMulSmall(a, k) == IF k = 0 THEN <<>> ELSE MulSmallAt(a, k, 1, 0, <<>>)      \* k < BB
RECURSIVE MulAt(_, _, _, _)
MulAt(a, b, j, acc) ==
  IF j = 0 THEN acc
  ELSE MulAt(a, b, j - 1, NAdd(IF acc = <<>> THEN <<>> ELSE <<0>> \o acc, NMulSmall(a, b[j])))
NMul(a, b) == IF Len(a) < Len(b) THEN MulAt(b, a, Len(a), <<>>) ELSE MulAt(a, b, Len(b), <<>>)
RECURSIVE NFromInt(_)
NFromInt(n) == IF n = 0 THEN <<>> ELSE <<(n % BB)>> \o NFromInt(n \div BB)
NOne == <<1>>
RECURSIVE P2(_)
P2(k) == IF k = 0 THEN 1 ELSE 2 * P2(k - 1)
Zeros(n) == [j \in 1..n |-> 0]
NShl(a, k) == IF a = <<>> THEN <<>> ELSE Zeros(k \div 15) \o NMulSmall(a, P2(k % 15))
RECURSIVE DivSmallAt(_, _, _, _, _)
DivSmallAt(a, k, j, r, acc) ==
  IF j = 0 THEN [q |-> Trim(acc), r |-> r]
  ELSE LET s == r * BB + a[j] IN DivSmallAt(a, k, j - 1, s % k, <<(s \div k)>> \o acc)
NDivSmall(a, k) == DivSmallAt(a, k, Len(a), 0, <<>>)     \* k <= BB
NShr(a, k) == LET n == k \div 15 IN
              IF n >= Len(a) THEN <<>> ELSE NDivSmall(SubSeq(a, n + 1, Len(a)), P2(k % 15)).q
RECURSIVE BitsOf(_)
BitsOf(n) == IF n = 0 THEN 0 ELSE 1 + BitsOf(n \div 2)
NBits(a) == IF a = <<>> THEN 0 ELSE (Len(a) - 1) * 15 + BitsOf(a[Len(a)])
RECURSIVE Tz(_, _)
Tz(a, j) == IF a[j] = 0 THEN 15 + Tz(a, j + 1)
            ELSE CHOOSE k \in 0..14 : (a[j] \div P2(k)) % 2 = 1 /\ a[j] % P2(k) = 0
NTz(a) == IF a = <<>> THEN 0 ELSE Tz(a, 1)
NBit(a, k) == (Limb(a, (k \div 15) + 1) \div P2(k % 15)) % 2
(* long division, one bit at a time *)
RECURSIVE DivAt(_, _, _, _, _)
DivAt(a, b, k, r, q) ==
  IF k < 0 THEN [q |-> q, r |-> r]
  ELSE LET r2 == NAdd(NShl(r, 1), IF NBit(a, k) = 1 THEN NOne ELSE <<>>) IN
       IF NCmp(r2, b) >= 0 THEN DivAt(a, b, k - 1, NSub(r2, b), NAdd(NShl(q, 1), NOne))
       ELSE DivAt(a, b, k - 1, r2, NShl(q, 1))
NDivMod(a, b) == DivAt(a, b, NBits(a) - 1, <<>>, <<>>)
NPow2(k) == NShl(NOne, k)
(* powers of ten by repeated squaring, the squares worked out once *)
TenSq[k \in 0..8] == IF k = 0 THEN <<10>> ELSE LET h == TLCEval(TenSq[k - 1]) IN NMul(h, h)
TenSquares == TLCEval([k \in 0..8 |-> TenSq[k]])
RECURSIVE NPow10At(_, _)
NPow10At(k, b) == IF k = 0 THEN NOne
                  ELSE LET r == NPow10At(k \div 2, b + 1) IN IF (k % 2) = 1 THEN NMul(r, TenSquares[b]) ELSE r
RECURSIVE NPow10(_)
NPow10(k) == IF k > 511 THEN NMul(NPow10(k - 511), NPow10(511)) ELSE NPow10At(k, 0)

(* decimal digits (bytes) *)
RECURSIVE DigitsAt(_, _, _)
DigitsAt(w, j, acc) == IF j > Len(w) THEN acc
                       ELSE DigitsAt(w, j + 1, NAdd(NMulSmall(acc, 10), NFromInt(w[j] - 48)))
NFromDigits(w) == DigitsAt(w, 1, <<>>)
RECURSIVE ToDigits(_)
ToDigits(a) == IF a = <<>> THEN <<>> ELSE LET d == NDivSmall(a, 10) IN Append(ToDigits(d.q), 48 + d.r)
NToDigits(a) == IF a = <<>> THEN <<48>> ELSE ToDigits(a)

(* ---------------- dyadics ---------------- *)
Dy0 == [g |-> 0, m |-> <<>>, e |-> 0]
Dy(g, m, e) == IF g = 0 \/ m = <<>> THEN Dy0 ELSE LET z == NTz(m) IN [g |-> g, m |-> NShr(m, z), e |-> e + z]
DyInt(n) == IF n = 0 THEN Dy0 ELSE IF n < 0 THEN Dy(0 - 1, NFromInt(0 - n), 0) ELSE Dy(1, NFromInt(n), 0)
Special2(v) == "k" \in DOMAIN v
IsNum2(v) == v.t \in {"I", "U", "F"}
ToDy(v) == Dy(v.g, v.m, v.e)
WFNum(v) == Special2(v) \/ ToDy(v) = [g |-> v.g, m |-> v.m, e |-> v.e]

Scale(d, e) == NShl(d.m, d.e - e)                         \* m of d at exponent e <= d.e
DyNeg(a) == [a EXCEPT !.g = 0 - @]
DyAdd(a, b) ==
  IF a.g = 0 THEN b ELSE IF b.g = 0 THEN a
  ELSE LET e == Min2(a.e, b.e)
           x == Scale(a, e)
           y == Scale(b, e)
       IN IF a.g = b.g THEN Dy(a.g, NAdd(x, y), e)
          ELSE LET c == NCmp(x, y) IN
               IF c = 0 THEN Dy0 ELSE IF c > 0 THEN Dy(a.g, NSub(x, y), e) ELSE Dy(b.g, NSub(y, x), e)
DyMul(a, b) == Dy(a.g * b.g, NMul(a.m, b.m), a.e + b.e)
DyCmp(a, b) ==
  IF a.g # b.g THEN (IF a.g < b.g THEN 0 - 1 ELSE 1)
  ELSE IF a.g = 0 THEN 0
  ELSE LET p == NBits(a.m) + a.e
           q == NBits(b.m) + b.e
       IN IF p # q THEN (IF p < q THEN 0 - a.g ELSE a.g)
          ELSE LET e == Min2(a.e, b.e) IN a.g * NCmp(Scale(a, e), Scale(b, e))
DyInteger(a) == a.g = 0 \/ a.e >= 0
DyTrunc(a) == IF DyInteger(a) THEN a ELSE Dy(a.g, NShr(a.m, 0 - a.e), 0)
DyMag(a) == IF a.g = 0 THEN <<>> ELSE NShl(a.m, a.e)      \* magnitude of an integer
(* exact quotient, if there is one *)
DyDivides(a, b) == a.g = 0 \/ NDivMod(a.m, b.m).r = <<>>
DyDiv(a, b) == IF a.g = 0 THEN Dy0 ELSE Dy(a.g * b.g, NDivMod(a.m, b.m).q, a.e - b.e)
(* truncated quotient of integers, remainder with the sign of the dividend *)
DyQuo(a, b) == Dy(a.g * b.g, NDivMod(DyMag(a), DyMag(b)).q, 0)
DyRem(a, b) == IF a.g = 0 THEN Dy0
               ELSE LET e == Min2(a.e, b.e) IN Dy(a.g, NDivMod(Scale(a, e), Scale(b, e)).r, e)

(* ---------------- the types ---------------- *)
Two63 == [g |-> 1, m |-> NOne, e |-> 63]
Two64 == [g |-> 1, m |-> NOne, e |-> 64]
FitsInt(d) == DyInteger(d) /\ DyCmp(d, Two63) < 0 /\ DyCmp(d, DyNeg(Two63)) >= 0
FitsUns(d) == DyInteger(d) /\ d.g >= 0 /\ DyCmp(d, Two64) < 0
(* significand of p bits, largest and smallest exponents of the last place *)
FitsBin(d, p, emax, emin) == d.g = 0 \/ (NBits(d.m) <= p /\ NBits(d.m) + d.e <= emax /\ d.e >= emin)
FitsFlt(d) == FitsBin(d, 64, 16384, 0 - 16445)
FitsDbl(d) == FitsBin(d, 53, 1024, 0 - 1074)
FitsSingle(d) == FitsBin(d, 24, 128, 0 - 149)
Fits(t, d) == CASE t = "I" -> FitsInt(d) [] t = "U" -> FitsUns(d) [] t = "F" -> FitsFlt(d)
NumOf(t, d) == [t |-> t, g |-> d.g, m |-> d.m, e |-> d.e]

(* d is a binary floating number of p bits closest to the rational n / q (n, q naturals): ties either way *)
(* |m*2^e - n/q| <= 2^(u-1) where u is the exponent of the last place of d                                  *)
Nearest(d, n, q, p, emin) ==
  IF n = <<>> THEN d.g = 0
  ELSE LET u == IF d.g = 0 THEN emin ELSE Max2(NBits(d.m) + d.e - p, emin)
           \* scale everything by 2^k so that exponents are not negative
           k == IF u - 2 < 0 THEN 2 - u ELSE 0
           v == IF d.g = 0 THEN <<>> ELSE NMul(NShl(d.m, d.e + k), q)
           w == NShl(n, k)
           h == NMul(NPow2(u - 1 + k), q)
           diff == IF NCmp(v, w) >= 0 THEN NSub(v, w) ELSE NSub(w, v)
       IN NCmp(diff, h) <= 0

(* ---------------- comparison of values ---------------- *)
RECURSIVE VEq2(_, _)
VEq2(a, b) ==
  IF IsNum2(a) /\ IsNum2(b)
  THEN IF Special2(a) \/ Special2(b) THEN a = b ELSE ToDy(a) = ToDy(b)
  ELSE IF a.t # b.t THEN FALSE
  ELSE CASE a.t = "N" -> TRUE
         [] a.t = "B" -> a.b = b.b
         [] a.t = "S" -> a.s = b.s
         [] a.t = "D" -> a.d = b.d
         [] a.t = "L" -> Len(a.l) = Len(b.l) /\ \A j \in 1..Len(a.l) : VEq2(a.l[j], b.l[j])
         [] a.t = "M" -> Len(a.m) = Len(b.m) /\ \A j \in 1..Len(a.m) : a.m[j][1] = b.m[j][1] /\ VEq2(a.m[j][2], b.m[j][2])

Ordered(a, b) == (IsNum2(a) /\ IsNum2(b)) \/ (a.t = b.t /\ a.t \in {"S", "D"})
NumRank(v) == IF Special2(v) THEN 2 * v.g ELSE 0
Order(a, b) ==
  IF IsNum2(a) THEN IF Special2(a) \/ Special2(b)
                    THEN LET x == NumRank(a) y == NumRank(b) IN IF x < y THEN 0 - 1 ELSE IF x > y THEN 1 ELSE 0
                    ELSE DyCmp(ToDy(a), ToDy(b))
  ELSE IF a.t = "S" THEN CmpBytes(a.s, b.s)
  ELSE CmpBytes(a.d, b.d)
Comparable(a, b) == a.t = b.t \/ (IsNum2(a) /\ IsNum2(b))
CompareOK(a, b, c) ==
  IF Ordered(a, b) THEN c = Order(a, b)
  ELSE IF ~Comparable(a, b) THEN c = 1
  ELSE c \in {0 - 1, 0, 1} /\ (c = 0 <=> VEq2(a, b))

(* ---------------- arithmetic ---------------- *)
ResultType(a, b) == IF a.t = "F" \/ b.t = "F" THEN "F" ELSE IF a.t = "U" \/ b.t = "U" THEN "U" ELSE "I"
(* required outcome: "err" (refused), "any" (nothing required but to return), or "val" with the number d *)
Free == [o |-> "any", d |-> Dy0]
Refuse == [o |-> "err", d |-> Dy0]
ValOf(t, d) == IF Fits(t, d) THEN [o |-> "val", d |-> d] ELSE Free
Arith(f, a, b) ==
  IF ~(IsNum2(a) /\ IsNum2(b)) THEN Refuse
  ELSE IF Special2(a) \/ Special2(b) THEN Free
  ELSE LET t == ResultType(a, b) x == ToDy(a) y == ToDy(b) IN
       CASE f = "add" -> ValOf(t, DyAdd(x, y))
         [] f = "sub" -> ValOf(t, DyAdd(x, DyNeg(y)))
         [] f = "mul" -> ValOf(t, DyMul(x, y))
         [] f \in {"div", "rem"} /\ y.g = 0 -> IF t = "F" THEN Free ELSE Refuse
         [] f \in {"div", "rem"} /\ y.g # 0 /\ t # "F" ->
              IF ~Fits(t, x) \/ ~Fits(t, y) THEN Free
              ELSE IF f = "rem" THEN ValOf(t, DyRem(x, y))
              ELSE IF Fits(t, DyQuo(x, y)) THEN ValOf(t, DyQuo(x, y)) ELSE Refuse
         [] f = "div" /\ y.g # 0 /\ t = "F" -> IF DyDivides(x, y) THEN ValOf(t, DyDiv(x, y)) ELSE Free
         [] f = "rem" /\ y.g # 0 /\ t = "F" -> IF x.g # 0 /\ (x.e - y.e > 100 \/ y.e - x.e > 100) THEN Free ELSE ValOf(t, DyRem(x, y))
Unary(f, a) ==
  IF ~IsNum2(a) THEN IF f = "pos" THEN Free ELSE Refuse
  ELSE IF Special2(a) THEN Free
  ELSE LET x == ToDy(a) IN
       CASE f = "incr" -> ValOf(a.t, DyAdd(x, DyInt(1)))
         [] f = "decr" -> ValOf(a.t, DyAdd(x, DyInt(0 - 1)))
         [] f = "neg" -> ValOf(a.t, DyNeg(x))
         [] f = "pos" -> ValOf(a.t, x)

(* ---------------- conversion ---------------- *)
Width(f) == CASE f \in {"int", "uns", "i64", "u64"} -> 64 [] f \in {"i32", "u32"} -> 32 [] f \in {"i16", "u16"} -> 16 [] OTHER -> 8
SignedKinds == {"int", "i64", "i32", "i16", "i8", "chr"}
UnsignedKinds == {"uns", "u64", "u32", "u16", "u8"}
FitsUnsigned(z, w) == FitsUns(z) /\ (z.g = 0 \/ NBits(z.m) + z.e <= w)
FitsSigned(z, w) == FitsInt(z) /\ (z.g = 0 \/ NBits(z.m) + z.e < w \/ (z.g < 0 /\ NBits(z.m) = 1 /\ z.e = w - 1))
ConvNum(f, a) ==
  IF Special2(a) THEN IF f = "bool" THEN [o |-> "val", d |-> DyInt(1)] ELSE Free
  ELSE LET x == ToDy(a) z == DyTrunc(x) IN
       CASE f = "bool" -> [o |-> "val", d |-> DyInt(IF x.g = 0 THEN 0 ELSE 1)]
         [] f = "ldbl" -> IF FitsFlt(x) THEN [o |-> "val", d |-> x] ELSE Free
         [] f = "dbl" -> IF FitsDbl(x) THEN [o |-> "val", d |-> x] ELSE Free
         [] f = "flt" -> IF FitsSingle(x) THEN [o |-> "val", d |-> x] ELSE Free
         [] f \in SignedKinds -> IF FitsSigned(z, Width(f)) THEN [o |-> "val", d |-> z] ELSE Free
         [] f \in UnsignedKinds -> IF FitsUnsigned(z, Width(f)) THEN [o |-> "val", d |-> z] ELSE Free

(* numbers as text: [-+]? digits, and [-+]? digits [. digits] [e [-+] digits] *)
Dig(c) == c >= 48 /\ c <= 57
RECURSIVE SpanDig(_, _)
SpanDig(s, j) == IF j <= Len(s) /\ Dig(s[j]) THEN SpanDig(s, j + 1) ELSE j
SignLen(s) == IF s # <<>> /\ s[1] \in {43, 45} THEN 1 ELSE 0
Negative(s) == s # <<>> /\ s[1] = 45
IsIntText(s) == Len(s) > SignLen(s) /\ SpanDig(s, SignLen(s) + 1) = Len(s) + 1
IntText(s) == LET n == NFromDigits(SubSeq(s, SignLen(s) + 1, Len(s))) IN Dy(IF Negative(s) THEN 0 - 1 ELSE 1, n, 0)
RECURSIVE SmallDigits(_, _, _)
SmallDigits(w, j, acc) == IF j > Len(w) THEN acc ELSE SmallDigits(w, j + 1, IF acc > 100000 THEN acc ELSE acc * 10 + w[j] - 48)
(* decimal text -> [ok, neg, n (digits as natural), x (power of ten)] *)
NoDec == [ok |-> FALSE, neg |-> FALSE, n |-> <<>>, x |-> 0, frac |-> FALSE]
DecText(s) ==
  LET a == SignLen(s) + 1
      b == SpanDig(s, a)
      dot == b <= Len(s) /\ s[b] = 46
      c == IF dot THEN SpanDig(s, b + 1) ELSE b
      ex == c <= Len(s) /\ s[c] \in {69, 101}
      sg == ex /\ c + 1 <= Len(s) /\ s[c + 1] \in {43, 45}
      d == IF ex THEN c + 1 + (IF sg THEN 1 ELSE 0) ELSE c
      z == IF ex THEN SpanDig(s, d) ELSE c
      int == SubSeq(s, a, b - 1)
      fr == IF dot THEN SubSeq(s, b + 1, c - 1) ELSE <<>>
      e10 == IF ex THEN SmallDigits(SubSeq(s, d, z - 1), 1, 0) ELSE 0
  IN IF z # Len(s) + 1 \/ int \o fr = <<>> \/ (ex /\ z = d) THEN NoDec
     ELSE [ok |-> TRUE, neg |-> Negative(s), n |-> NFromDigits(int \o fr),
           x |-> (IF sg /\ s[c + 1] = 45 THEN 0 - e10 ELSE e10) - Len(fr), frac |-> dot \/ ex]
(* the floating number v is the closest to the decimal dec with p bits of significand *)
DecNearest(dec, v, p, emin) ==
  IF Special2(v) THEN FALSE
  ELSE LET d == ToDy(v) IN
       /\ dec.n # <<>> /\ d.g # 0 => (dec.neg <=> d.g < 0)
       /\ IF dec.n = <<>> THEN d.g = 0
          ELSE IF dec.x >= 0 THEN Nearest(d, NMul(dec.n, NPow10(dec.x)), NOne, p, emin)
          ELSE Nearest(d, dec.n, NPow10(0 - dec.x), p, emin)
=============================================================================
