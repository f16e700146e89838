------------------------------ MODULE MCSchema ------------------------------
(* Every combination of up to MAXKW keyword settings with every value of a    *)
(* small set, and their negations and combinations.                           *)
EXTENDS Schema, Json, IOUtils
VARIABLES pick, done
MaxKw == IF IOEnv.MAXKW = "3" THEN 3 ELSE 2
n(k) == VInt(k)
h(k) == VFlt(512 * k)          \* k halves
T(w) == VStr(Txt(w))
m1(k, v) == VMap(<< <<k, v>> >>)
Empty == VMap(<<>>)
ty(w) == m1(KType, T(w))
(* settings of one keyword or of keywords that belong together *)
Settings == <<
  m1(KType, T("integer")), m1(KType, VList(<<T("string"), T("null"), T("object")>>)), ty("array"), ty("boolean"), ty("number"),
  m1(KEnum, VList(<<n(1), T("a"), VList(<<n(1)>>), VBool(TRUE)>>)), m1(KEnum, VList(<<VNull, m1(Txt("a"), n(1)), h(3)>>)),
  m1(KMultipleOf, n(2)), m1(KMultipleOf, h(1)), m1(KMultipleOf, h(3)), m1(KMultipleOf, VUns(3)),
  m1(KMinimum, n(1)), VMap(<< <<KExMinimum, VBool(TRUE)>>, <<KMinimum, n(1)>> >>), VMap(<< <<KExMinimum, VBool(FALSE)>>, <<KMinimum, h(3)>> >>),
  m1(KMaximum, n(1)), VMap(<< <<KExMaximum, VBool(TRUE)>>, <<KMaximum, h(3)>> >>),
  m1(KMinLength, n(1)), m1(KMaxLength, n(1)), m1(KPattern, VStr(<<94, 97>>)), m1(KPattern, VStr(<<98, 36>>)),
  m1(KItems, ty("integer")), m1(KItems, VList(<<Empty, ty("string")>>)),
  VMap(<< <<KAdditionalItems, VBool(FALSE)>>, <<KItems, VList(<<ty("integer")>>)>> >>),
  VMap(<< <<KAdditionalItems, ty("string")>>, <<KItems, VList(<<ty("integer")>>)>> >>), m1(KAdditionalItems, VBool(FALSE)),
  m1(KMinItems, n(1)), m1(KMaxItems, n(1)), m1(KUniqueItems, VBool(TRUE)), m1(KUniqueItems, VBool(FALSE)),
  m1(KProperties, m1(Txt("a"), ty("integer"))),
  m1(KPatternProperties, m1(<<94, 97>>, ty("integer"))), m1(KPatternProperties, m1(Txt("b"), m1(KMaximum, n(1)))),
  m1(KAdditionalProperties, VBool(FALSE)), m1(KAdditionalProperties, ty("string")),
  m1(KRequired, VList(<<T("a")>>)), m1(KMinProperties, n(1)), m1(KMaxProperties, n(1)),
  m1(KDependencies, m1(Txt("a"), VList(<<T("b")>>))), m1(KDependencies, m1(Txt("a"), m1(KMinProperties, n(2)))),
  m1(KAllOf, VList(<<m1(KMinimum, n(0)), m1(KMinLength, n(1))>>)), m1(KAnyOf, VList(<<ty("string"), m1(KMinimum, n(1))>>)),
  m1(KOneOf, VList(<<ty("integer"), m1(KMinimum, n(1))>>)), m1(KOneOf, VList(<<Empty, ty("null"), ty("object")>>)), m1(KNot, ty("integer")), m1(KNot, Empty),
  m1(KDivisibleBy, n(2)), m1(KDivisibleBy, h(3)), m1(KDependencies, m1(Txt("a"), T("b"))), m1(KFormat, T("date")), m1(KFormat, T("other")) >>
Datas == << VNull, VBool(TRUE), VBool(FALSE), n(0), n(1), VUns(1), n(0 - 3), n(6), h(3), h(2), h(0 - 3), T(""), T("a"), T("ab"), T("ba"), VStr(<<50, 48, 49, 57, 45, 49, 50, 45, 51, 49>>),
  VList(<<>>), VList(<<n(1)>>), VList(<<n(1), h(2)>>), VList(<<n(1), T("a")>>), VList(<<T("a"), VList(<<n(1)>>), VBool(TRUE)>>), VList(<<VList(<<n(1)>>), VList(<<h(2)>>)>>), VList(<<VBool(TRUE), n(1)>>),
  Empty, m1(Txt("a"), n(1)), m1(Txt("a"), T("b")), VMap(<< <<Txt("a"), h(2)>>, <<Txt("b"), n(2)>> >>), VMap(<< <<Txt("ab"), n(2)>>, <<Txt("b"), T("")>> >>), m1(Txt("b"), n(1)) >>
NS == Len(Settings)
ND == Len(Datas)

KeysOf(s) == {s.m[j][1] : j \in 1..Len(s.m)}
Before(x, y) == \E j \in 1..(Min2(Len(x), Len(y)) + 1) :
  /\ \A k \in 1..(j - 1) : x[k] = y[k]
  /\ IF j > Len(x) THEN j <= Len(y) ELSE IF j > Len(y) THEN FALSE ELSE x[j] < y[j]
RECURSIVE Insert(_, _)
Insert(m, kv) == IF m = <<>> THEN <<kv>> ELSE IF Before(kv[1], m[1][1]) THEN <<kv>> \o m ELSE <<m[1]>> \o Insert(Tail(m), kv)
RECURSIVE InsertAll(_, _)
InsertAll(m, kvs) == IF kvs = <<>> THEN m ELSE InsertAll(Insert(m, kvs[1]), Tail(kvs))
Merge(ss) == CASE Len(ss) = 0 -> Empty
               [] Len(ss) = 1 -> ss[1]
               [] Len(ss) = 2 -> VMap(InsertAll(ss[1].m, ss[2].m))
               [] OTHER -> VMap(InsertAll(InsertAll(ss[1].m, ss[2].m), ss[3].m))
Chosen == [j \in 1..Len(pick) |-> Settings[pick[j]]]
S0 == Merge(Chosen)
V(s, d) == Valid(<<>>, s, d)
Forms(s) == {s, m1(KNot, s), m1(KItems, s), m1(KProperties, m1(Txt("a"), s))}
Emit(s, d) == PrintT("VEC " \o ToJson([c |-> [op |-> "valid", docs |-> <<>>, s |-> s, d |-> d],
                 e |-> [o |-> "ok", valid |-> V(s, d), paths |-> TRUE, s |-> s, d |-> d]]))
(* depth 3 of combinations is only checked for a part of the wrappers *)
Init == pick = <<>> /\ done = FALSE
Next == \/ /\ ~done /\ Len(pick) < MaxKw
           /\ \E j \in 1..NS : /\ IF pick = <<>> THEN TRUE ELSE j > pick[Len(pick)]
                               /\ \A k \in 1..Len(pick) : KeysOf(Settings[pick[k]]) \cap KeysOf(Settings[j]) = {}
                               /\ pick' = Append(pick, j)
           /\ UNCHANGED done
        \/ /\ ~done /\ done' = TRUE /\ UNCHANGED pick
           /\ IF Len(pick) < 2 THEN \A s \in Forms(S0) : \A j \in 1..ND : Emit(s, Datas[j])
              ELSE \A j \in 1..ND : Emit(S0, Datas[j])
(* keywords that mean something only together *)
Linked(a, b) ==
  LET ka == KeysOf(a) \cup KeysOf(b) IN
  \/ KAdditionalItems \in ka /\ KItems \in ka
  \/ KDivisibleBy \in ka /\ KMultipleOf \in ka
  \/ KAdditionalProperties \in ka /\ (KProperties \in ka \/ KPatternProperties \in ka)
Sound ==
  \A j \in 1..ND :
    LET d == Datas[j] IN
    /\ V(m1(KNot, S0), d) = ~V(S0, d)
    /\ V(m1(KAllOf, VList(<<S0, S0>>)), d) = V(S0, d)
    /\ V(m1(KOneOf, VList(<<S0, S0>>)), d) = FALSE
    /\ V(m1(KAnyOf, VList(<<S0, m1(KNot, S0)>>)), d)
    /\ V(m1(KOneOf, VList(<<S0, m1(KNot, S0)>>)), d)
    /\ (Len(pick) = 2 /\ ~Linked(Chosen[1], Chosen[2])) => (V(S0, d) <=> (V(Chosen[1], d) /\ V(Chosen[2], d)))
    /\ V(m1(KItems, S0), VList(<<d, d>>)) = V(S0, d)
    /\ V(m1(KEnum, VList(<<d>>)), d)
=============================================================================
