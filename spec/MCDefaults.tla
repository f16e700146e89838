----------------------------- MODULE MCDefaults -----------------------------
(* All small schemas with defaults and references on all small data           *)
EXTENDS Defaults, Json, IOUtils
VARIABLES root, done
Big == IOEnv.BIG = "1"
m1(k, v) == VMap(<< <<k, v>> >>)
Empty == VMap(<<>>)
A == <<97>>
B == <<98>>
Def(v) == m1(KDefault, v)
Props(x) == m1(KProperties, m1(A, x))
Props2(x, y) == m1(KProperties, VMap(<< <<A, x>>, <<B, y>> >>))
RefTo(u) == m1(KRef, VStr(u))
Here == <<35>>
There == <<35, 47>> \o KDefinitions \o <<47>> \o A
Leaf == {Empty, Def(VInt(1)), Def(Empty), Def(m1(A, VNull)), RefTo(Here), RefTo(There)}
Two == IF Big THEN Leaf ELSE {Empty, Def(VInt(1)), Def(Empty), RefTo(There)}
With(s, k, v) == VMap(MSet(s.m, k, v))
Mid == Leaf \cup {Props(x) : x \in Leaf} \cup {m1(KItems, x) : x \in Leaf}
       \cup {Props2(x, y) : x \in Two, y \in Two} \cup {m1(KItems, VList(<<x, y>>)) : x \in Two, y \in Two}
       \cup {m1(KAllOf, VList(<<x, y>>)) : x \in Two, y \in Two}
       \cup {With(Props(x), KDefault, v) : x \in Two, v \in {Empty, VInt(1), VNull}}
Tops == Mid \cup {Props(x) : x \in Mid} \cup {m1(KItems, x) : x \in Mid}
        \cup {m1(KAnyOf, VList(<<x, Props(y)>>)) : x \in Mid, y \in Two} \cup {m1(KOneOf, VList(<<Props(y), x>>)) : x \in Mid, y \in Two}
        \cup {With(Props(x), KDefault, v) : x \in Mid, v \in {m1(A, VNull), m1(B, VInt(2))}}
        \cup (IF Big THEN {m1(KAllOf, VList(<<x, y>>)) : x \in Mid, y \in Mid} ELSE {})
Tree == Props2(Def(VInt(1)), RefTo(There))
Roots == {With(x, KDefinitions, m1(A, Tree)) : x \in {y \in Tops : ~HasStr(y, KRef)}} \cup {x \in Tops : HasStr(x, KRef)}
Datas == { VNull, Empty, VList(<<>>), VInt(3), m1(A, VNull), m1(A, Empty), m1(A, VInt(3)), m1(A, VList(<<>>)), m1(A, m1(A, VNull)), m1(A, m1(B, Empty)),
           m1(B, Empty), m1(B, m1(B, VNull)), VList(<<VNull>>), VList(<<Empty, VNull>>), m1(A, VList(<<VNull, Empty>>)) }
Full(x) == IF HasStr(x, KRef) THEN With(x, KDefinitions, m1(A, Tree)) ELSE x
RECURSIVE NoDefault(_)
NoDefault(v) == CASE v.t = "M" -> \A j \in 1..Len(v.m) : v.m[j][1] # KDefault /\ NoDefault(v.m[j][2])
                  [] v.t = "L" -> \A j \in 1..Len(v.l) : NoDefault(v.l[j])
                  [] OTHER -> TRUE
Init == root = Empty /\ done = 0
Next == /\ done < 2 /\ done' = done + 1
        /\ IF done = 0 THEN root' \in Roots ELSE root' = root
Emit(s, d, x) ==
  PrintT("VEC " \o ToJson([c |-> [op |-> "defaults", docs |-> <<>>, s |-> s, d |-> d],
    e |-> IF x.cut THEN [o |-> "ok", v |-> x.v, s |-> s, s2 |-> s]
          ELSE [o |-> "ok", v |-> x.v, again |-> x.v, s |-> s, s2 |-> s]]))
Sound == done = 2 =>
  LET s == Full(root)
      st == <<AddAll(<<>>, Registrations(<<>>, s))>>
      res(d) == Filled(st, <<>>, st[1][1][2], d)
      bare == NoDefault(Kw(s, KDefinitions)) /\ NoDefault(root)
  IN \A d \in Datas :
       LET x == res(d) IN
       /\ Extends(d, x.v)
       /\ ~x.cut => res(x.v).v = x.v
       /\ bare => x.v = d
       /\ Emit(s, d, x)
=============================================================================
