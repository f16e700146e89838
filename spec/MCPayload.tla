------------------------------ MODULE MCPayload -----------------------------
(* Every small structure, place of the payload and place of the length: the    *)
(* header carries the length and not the payload, and the whole comes back.    *)
EXTENDS Payload, Json, IOUtils
VARIABLES v, dp, lp
K(c) == [t |-> "S", s |-> <<c>>]
X(n) == [t |-> "U", i |-> n]
A == K(97)
B == K(98)
Leaf == {VNull, NumOf("I", DyInt(7))}
Sub == Leaf \cup {VList(<<>>), VMap(<<>>), VList(<<VNull, VNull>>)} \cup {VList(<<x>>) : x \in Leaf} \cup {VMap(<<<<<<97>>, x>>>>) : x \in Leaf}
       \cup {VList(<<VMap(<<<<<<98>>, VNull>>>>)>>)}
Vals == {VMap(<<>>)} \cup {VMap(<<<<<<97>>, x>>>>) : x \in Sub} \cup {VMap(<<<<<<97>>, x>>, <<<<98>>, y>>>>) : x \in Sub, y \in {VNull, VList(<<>>), NumOf("I", DyInt(7))}}
Paths2 == {<<A>>, <<B>>, <<A, A>>, <<A, B>>, <<A, X(0)>>, <<A, X(1)>>, <<A, X(3)>>, <<B, X(1)>>, <<A, X(0), B>>, <<A, X(1), A>>, <<A, A, B>>, <<A, B, A>>, <<A, X(1), X(1)>>, <<A, X(0), X(0)>>}
Formats == {"json", "yaml", "xml"}
Init == v = VNull /\ dp = <<>> /\ lp = <<>>
Next == v = VNull /\ v' \in Vals /\ dp' \in Paths2 /\ lp' \in Paths2 /\ Apart(dp', lp') /\ FitsAt(v', dp', 1)
        /\ FitsAt(SetAt(v', dp', 1, VBlob(<<1>>)), lp', 1)
Bodies == {<<>>, <<0, 97>>}
H(p) == Header(v, TRUE, dp, lp, p, Len(p))
W(p) == Whole(H(p), dp, p, Len(p))
Sound == v.t = "M" => \A p \in Bodies :
  /\ WF(H(p)) /\ WF(W(p)) /\ HasAt(H(p), lp, 1) /\ GetAt(H(p), lp, 1) = VNum(Len(p)) /\ GetAt(W(p), lp, 1) = VNum(Len(p))
  /\ (HasAt(H(p), dp, 1) => GetAt(H(p), dp, 1) = VNull)
  /\ (p # <<>> => GetAt(W(p), dp, 1) = VBlob(p) /\ Clear(W(p), dp, 1) = H(p))
Out(c, e) == PrintT("VEC " \o ToJson([c |-> c, e |-> e]))
Vec == v.t = "M" => \A p \in Bodies, f \in Formats :
  Out([op |-> "pl", f |-> f, v |-> v, p |-> <<p>>, dp |-> dp, lp |-> lp, ov |-> "str", iv |-> [k |-> "str", q |-> <<>>]],
      [rest |-> p, h |-> H(p), back |-> W(p)])
Check == Sound /\ Vec
=============================================================================
