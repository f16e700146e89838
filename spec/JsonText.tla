------------------------------ MODULE JsonText ------------------------------
(* JSON texts (RFC 8259, root an object or array, C-style comments allowed)    *)
(* and the value a text denotes.  A number stays the decimal it spells (kind   *)
(* "num"); Reads(x, v) says that v is what reading x must give.                *)
EXTENDS Num

White == {32, 9, 10, 13}
Hex(c) == IF Dig(c) THEN c - 48 ELSE IF c >= 97 /\ c <= 102 THEN c - 87 ELSE IF c >= 65 /\ c <= 70 THEN c - 55 ELSE 16

(* every reader returns [o, j, v]: o = "ok" with the position after it, "err", "eof" if the text ended, "any" if unspecified *)
R(o, j, v) == [o |-> o, j |-> j, v |-> v]
RErr == R("err", 0, VNull)
REof == R("eof", 0, VNull)

RECURSIVE SkipComment(_, _)
SkipComment(t, j) == IF j > Len(t) THEN 0 - 1
                     ELSE IF t[j] = 42 /\ j < Len(t) /\ t[j + 1] = 47 THEN j + 2
                     ELSE SkipComment(t, j + 1)
RECURSIVE Skip(_, _)
Skip(t, j) ==
  IF j > Len(t) THEN REof
  ELSE IF t[j] \in White THEN Skip(t, j + 1)
  ELSE IF t[j] # 47 THEN R("ok", j, VNull)
  ELSE IF j = Len(t) THEN REof
  ELSE IF t[j + 1] # 42 THEN RErr
  ELSE LET k == SkipComment(t, j + 2) IN IF k < 0 THEN REof ELSE Skip(t, k)

Lit(t, j, w, v) ==
  IF SubSeq(t, j, Min2(j + Len(w) - 1, Len(t))) # SubSeq(w, 1, Min2(Len(w), Len(t) - j + 1)) THEN RErr
  ELSE IF j + Len(w) - 1 > Len(t) THEN REof ELSE R("ok", j + Len(w), v)

(* UTF-8 of a code point *)
Utf8(u) == IF u < 128 THEN <<u>>
           ELSE IF u < 2048 THEN <<192 + (u \div 64), 128 + (u % 64)>>
           ELSE IF u < 65536 THEN <<224 + (u \div 4096), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
           ELSE <<240 + (u \div 262144), 128 + ((u \div 4096) % 64), 128 + ((u \div 64) % 64), 128 + (u % 64)>>
(* four hex digits at j: the code unit, -1 at a bad digit, -2 at the end of the text *)
RECURSIVE Hex4(_, _, _, _)
Hex4(t, j, k, acc) == IF k = 0 THEN acc
                      ELSE IF j > Len(t) THEN 0 - 2
                      ELSE IF Hex(t[j]) = 16 THEN 0 - 1
                      ELSE Hex4(t, j + 1, k - 1, acc * 16 + Hex(t[j]))
Simple(c) == CASE c = 98 -> 8 [] c = 102 -> 12 [] c = 110 -> 10 [] c = 114 -> 13 [] c = 116 -> 9
               [] c \in {34, 92, 47} -> c [] OTHER -> 0
RECURSIVE Str(_, _, _)
Str(t, j, acc) ==
  IF j > Len(t) THEN REof
  ELSE LET c == t[j] IN
  IF c = 34 THEN R("ok", j + 1, VStr(acc))
  ELSE IF c < 32 THEN RErr
  ELSE IF c # 92 THEN Str(t, j + 1, Append(acc, c))
  ELSE IF j = Len(t) THEN REof
  ELSE IF t[j + 1] # 117 THEN (IF Simple(t[j + 1]) = 0 THEN RErr ELSE Str(t, j + 2, Append(acc, Simple(t[j + 1]))))
  ELSE LET u == Hex4(t, j + 2, 4, 0) IN
       IF u = 0 - 2 THEN REof ELSE IF u = 0 - 1 THEN RErr
       ELSE IF u >= 56320 /\ u <= 57343 THEN RErr
       ELSE IF u < 55296 \/ u > 57343 THEN Str(t, j + 6, acc \o Utf8(u))
       ELSE \* a high surrogate: a low one must follow
            IF j + 6 > Len(t) THEN REof
            ELSE IF t[j + 6] # 92 THEN RErr
            ELSE IF j + 7 > Len(t) THEN REof
            ELSE IF t[j + 7] # 117 THEN RErr
            ELSE LET w == Hex4(t, j + 8, 4, 0) IN
                 IF w = 0 - 2 THEN REof
                 ELSE IF w < 56320 \/ w > 57343 THEN RErr
                 ELSE Str(t, j + 12, acc \o Utf8(65536 + (u - 55296) * 1024 + (w - 56320)))

(* numbers: a decimal point without digits after it is wrong if strict, else the reader may do as it likes *)
Number(t, j, strict) ==
  LET a == IF t[j] = 45 THEN j + 1 ELSE j
      b == IF a <= Len(t) /\ t[a] = 48 THEN a + 1 ELSE SpanDig(t, a)
      dot == b > a /\ b <= Len(t) /\ t[b] = 46
      c == IF dot THEN SpanDig(t, b + 1) ELSE b
      ex == b > a /\ c <= Len(t) /\ t[c] \in {69, 101}
      d == IF ex /\ c + 1 <= Len(t) /\ t[c + 1] \in {43, 45} THEN c + 2 ELSE c + 1
      z == IF ex THEN SpanDig(t, d) ELSE c
  IN IF b = a THEN (IF a > Len(t) THEN REof ELSE RErr)
     ELSE IF ex /\ z = d /\ c # b + 1 THEN (IF d > Len(t) THEN REof ELSE RErr)
     ELSE IF dot /\ c = b + 1 THEN (IF strict THEN RErr ELSE IF c > Len(t) THEN REof ELSE R("any", 0, VNull))
     ELSE IF z > Len(t) THEN REof
     ELSE R("ok", z, [t |-> "num", dec |-> DecText(SubSeq(t, j, z - 1))])

RECURSIVE Value(_, _, _), Elems(_, _, _, _), Members(_, _, _, _)
Value(t, j0, strict) ==
  LET s == Skip(t, j0) IN
  IF s.o # "ok" THEN s
  ELSE LET j == s.j c == t[s.j] IN
  CASE c = 123 -> Members(t, j + 1, <<>>, strict)
    [] c = 91 -> Elems(t, j + 1, <<>>, strict)
    [] c = 34 -> Str(t, j + 1, <<>>)
    [] c = 116 -> Lit(t, j, <<116, 114, 117, 101>>, VBool(TRUE))
    [] c = 102 -> Lit(t, j, <<102, 97, 108, 115, 101>>, VBool(FALSE))
    [] c = 110 -> Lit(t, j, <<110, 117, 108, 108>>, VNull)
    [] c = 45 \/ Dig(c) -> Number(t, j, strict)
    [] OTHER -> RErr
(* after [ or , : acc holds the elements so far *)
Elems(t, j0, acc, strict) ==
  LET s == Skip(t, j0) IN
  IF s.o # "ok" THEN s
  ELSE IF acc = <<>> /\ t[s.j] = 93 THEN R("ok", s.j + 1, VList(<<>>))
  ELSE LET v == Value(t, s.j, strict) IN
       IF v.o # "ok" THEN v
       ELSE LET e == Skip(t, v.j) IN
            IF e.o # "ok" THEN e
            ELSE IF t[e.j] = 44 THEN Elems(t, e.j + 1, Append(acc, v.v), strict)
            ELSE IF t[e.j] = 93 THEN R("ok", e.j + 1, VList(Append(acc, v.v)))
            ELSE RErr
Members(t, j0, acc, strict) ==
  LET s == Skip(t, j0) IN
  IF s.o # "ok" THEN s
  ELSE IF acc = <<>> /\ t[s.j] = 125 /\ t[j0 - 1] = 123 THEN R("ok", s.j + 1, VMap(<<>>))
  ELSE IF t[s.j] # 34 THEN RErr
  ELSE LET k == Str(t, s.j + 1, <<>>) IN
       IF k.o # "ok" THEN k
       ELSE LET cl == Skip(t, k.j) IN
            IF cl.o # "ok" THEN cl
            ELSE IF t[cl.j] # 58 THEN RErr
            ELSE LET v == Value(t, cl.j + 1, strict) IN
                 IF v.o # "ok" THEN v
                 ELSE LET e == Skip(t, v.j) IN
                      IF e.o # "ok" THEN e
                      ELSE IF t[e.j] = 44 THEN Members(t, e.j + 1, MSet(acc, k.v.s, v.v), strict)
                      ELSE IF t[e.j] = 125 THEN R("ok", e.j + 1, VMap(MSet(acc, k.v.s, v.v)))
                      ELSE RErr
(* a text: the root, whatever follows it is not looked at; strict: nothing but white space may follow *)
Root(t, strict) ==
  LET s == Skip(t, 1) IN
  IF s.o # "ok" THEN s
  ELSE IF t[s.j] \notin {91, 123} THEN RErr
  ELSE Value(t, s.j, strict)
StrictText(t) == LET r == Root(t, TRUE) IN
                 IF r.o = "ok" /\ \A k \in r.j..Len(t) : t[k] \in White THEN r ELSE RErr

(* levels of a value nested by single elements, and what is innermost *)
RECURSIVE Levels(_, _)
Levels(x, k) == IF x.t = "L" /\ Len(x.l) = 1 THEN Levels(x.l[1], k + 1)
                ELSE IF x.t = "M" /\ Len(x.m) = 1 THEN Levels(x.m[1][2], k + 1)
                ELSE [k |-> k, v |-> x]

(* ---- reading back ---- *)
IntegerDec(dec) == ~dec.frac
DecInt(dec) == Dy(IF dec.neg THEN 0 - 1 ELSE 1, dec.n, 0)
TooFar(dec) == dec.n # <<>> /\ (dec.x > 400 \/ dec.x < 0 - 400 \/ Len(NToDigits(dec.n)) + dec.x > 308)
NumReads(dec, v) ==
  IF IntegerDec(dec) /\ ~dec.neg /\ FitsUns(DecInt(dec)) THEN v.t = "U" /\ ToDy(v) = DecInt(dec)
  ELSE IF IntegerDec(dec) /\ dec.neg /\ FitsInt(DecInt(dec)) THEN v.t = "I" /\ ToDy(v) = DecInt(dec)
  ELSE v.t = "F" /\ (TooFar(dec) \/ DecNearest(dec, v, 53, 0 - 1074))
RECURSIVE Reads(_, _)
Reads(x, v) ==
  CASE x.t = "num" -> IsNum2(v) /\ NumReads(x.dec, v)
    [] x.t = "L" -> v.t = "L" /\ Len(v.l) = Len(x.l) /\ \A j \in 1..Len(x.l) : Reads(x.l[j], v.l[j])
    [] x.t = "M" -> v.t = "M" /\ Len(v.m) = Len(x.m) /\ \A j \in 1..Len(x.m) : v.m[j][1] = x.m[j][1] /\ Reads(x.m[j][2], v.m[j][2])
    [] OTHER -> v = x

(* ---- writing: the text value x denotes the variant v ---- *)
BlobTag == <<0, 66, 76, 79, 66>>
RECURSIVE Denotes(_, _)
Denotes(x, v) ==
  CASE v.t \in {"I", "U"} -> x.t = "num" /\ IntegerDec(x.dec) /\ DecInt(x.dec) = ToDy(v)
    [] v.t = "F" -> IF Special2(v) THEN x.t = "N" ELSE x.t = "num" /\ DecNearest(x.dec, v, 53, 0 - 1074)
    [] v.t = "D" -> x.t = "S" /\ Len(x.s) >= 5 /\ SubSeq(x.s, 1, 5) = BlobTag
    [] v.t = "L" -> x.t = "L" /\ Len(v.l) = Len(x.l) /\ \A j \in 1..Len(x.l) : Denotes(x.l[j], v.l[j])
    [] v.t = "M" -> x.t = "M" /\ Len(v.m) = Len(x.m) /\ \A j \in 1..Len(x.m) : v.m[j][1] = x.m[j][1] /\ Denotes(x.m[j][2], v.m[j][2])
    [] OTHER -> x = v
(* what comes back: non-negative integers are unsigned, not-a-number and infinities are null *)
RECURSIVE Back(_)
Back(v) == CASE v.t = "I" /\ v.g >= 0 -> [v EXCEPT !.t = "U"]
             [] v.t = "F" /\ Special2(v) -> VNull
             [] v.t = "D" -> [t |-> "D", d |-> v.d]
             [] v.t = "L" -> VList([j \in 1..Len(v.l) |-> Back(v.l[j])])
             [] v.t = "M" -> VMap([j \in 1..Len(v.m) |-> <<v.m[j][1], Back(v.m[j][2])>>])
             [] OTHER -> v
RECURSIVE StrictOK(_)
StrictOK(v) == CASE v.t = "F" -> ~Special2(v)
                 [] v.t = "D" -> FALSE
                 [] v.t = "L" -> \A j \in 1..Len(v.l) : StrictOK(v.l[j])
                 [] v.t = "M" -> \A j \in 1..Len(v.m) : StrictOK(v.m[j][2])
                 [] OTHER -> TRUE
=============================================================================
