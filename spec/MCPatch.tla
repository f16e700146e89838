------------------------------ MODULE MCPatch ------------------------------
(* Bounded exploration of JSON Patch: documents reachable from a few initial *)
(* ones by at most DEPTH operations, every operation over a small universe   *)
(* of pointers and values tried in each.  Each transition is printed as a    *)
(* test vector (as a pointer call, as a patch, and as a patch that a later   *)
(* operation makes fail).  The invariants are the laws the text of the       *)
(* property states; TLC checks them on the specification itself.             *)
EXTENDS Patch, Json, IOUtils

VARIABLE doc

a == <<97>>
b == <<98>>
ab == <<97, 47, 98>>
tl == <<126>>
zero == <<48>>
one == <<49>>
two == <<50>>
zz == <<48, 48>>
neg == <<45, 49>>

Depth == IF "DEPTH" \in DOMAIN IOEnv /\ IOEnv.DEPTH = "3" THEN 3 ELSE 2

Inits == { VList(<<>>), VMap(<<>>), VList(<<VInt(1), VInt(2)>>),
           VMap(<< <<a, VList(<<VInt(1), VMap(<<>>)>>)>> >>),
           VMap(<< <<a, VMap(<< <<b, VInt(1)>> >>)>>, <<ab, VInt(2)>> >>),
           VMap(<< << <<>>, VInt(3)>>, <<zero, VList(<<VInt(4)>>)>> >>) }
Pointers == { <<>>, <<a>>, <<b>>, <<ab>>, <<tl>>, << <<>> >>, <<zero>>, <<one>>, <<two>>, <<Dash>>, <<zz>>, <<neg>>,
              <<a, zero>>, <<a, one>>, <<a, Dash>>, <<a, b>>, <<zero, zero>>, <<a, b, a>>, <<zero, a>>, <<a, one, a>> }
Values == { VInt(7), VList(<<VInt(8)>>), VMap(<< <<a, VNull>> >>) }

S1(k, v) == <<k, VStr(v)>>
OpAdd(p, v) == VMap(<< S1(kOp, nAdd), S1(kPath, Pointer(p)), <<kValue, v>> >>)
OpReplace(p, v) == VMap(<< S1(kOp, nReplace), S1(kPath, Pointer(p)), <<kValue, v>> >>)
OpRemove(p) == VMap(<< S1(kOp, nRemove), S1(kPath, Pointer(p)) >>)
OpMove(f, p) == VMap(<< S1(kFrom, Pointer(f)), S1(kOp, nMove), S1(kPath, Pointer(p)) >>)
OpCopy(f, p) == VMap(<< S1(kFrom, Pointer(f)), S1(kOp, nCopy), S1(kPath, Pointer(p)) >>)
OpTest(p, v) == VMap(<< S1(kOp, nTest), S1(kPath, Pointer(p)), <<kValue, v>> >>)

Never == OpTest(<<>>, VStr(<<110>>))
Froms == { <<a>>, <<zero>>, <<a, zero>>, <<a, b>>, << <<>> >>, <<one>> }

Ops == {OpAdd(p, v) : p \in Pointers, v \in Values} \cup {OpReplace(p, VInt(9)) : p \in Pointers}
       \cup {OpRemove(p) : p \in Pointers}
       \cup {OpMove(f, p) : f \in Froms, p \in Pointers} \cup {OpCopy(f, p) : f \in Froms, p \in Pointers}

RECURSIVE Size(_)
SumSize(s) == LET RECURSIVE Sm(_)
                  Sm(j) == IF j = 0 THEN 0 ELSE Size(s[j]) + Sm(j - 1)
              IN Sm(Len(s))
Size(v) == CASE v.t = "L" -> 1 + SumSize(v.l)
             [] v.t = "M" -> 1 + SumSize([j \in 1..Len(v.m) |-> v.m[j][2]])
             [] OTHER -> 1

Vec(op) == LET r == Step(doc, op)
               rest == [o |-> "ok", shared |-> 0, patch |-> VList(<<op>>)]
               bad == VList(<<op, Never>>)
           IN /\ PrintT("VEC " \o ToJson([c |-> [op |-> "patch", doc |-> doc, patch |-> VList(<<op>>)],
                                    e |-> [o |-> "ok", ret |-> r.ok, msg |-> ~r.ok, shared |-> 0,
                                           doc |-> IF r.ok THEN r.v ELSE doc, patch |-> VList(<<op>>)]]))
              /\ (r.ok => PrintT("VEC " \o ToJson([c |-> [op |-> "patch", doc |-> doc, patch |-> bad],
                                    e |-> [o |-> "ok", ret |-> FALSE, msg |-> TRUE, shared |-> 0,
                                           doc |-> doc, patch |-> bad]])))

Init == doc \in Inits
Next == \E op \in Ops :
          /\ TLCGet("level") <= Depth
          /\ Vec(op)
          /\ doc' = After(doc, VList(<<op>>))
Small == Size(doc) <= 7

---------------------------------------------------------------------------
WellFormed == WF(doc)
Laws ==
  /\ \A p \in Pointers : LET t == Tokens(Pointer(p)) IN t.ok /\ t.v = p
  /\ \A p \in Pointers, v \in Values :
       LET r == At("add", doc, p, v) IN
       r.ok =>
         /\ (p = <<>> \/ p[Len(p)] # Dash \/ (Get(doc, SubSeq(p, 1, Len(p) - 1)).ok
                          /\ IsMap(Get(doc, SubSeq(p, 1, Len(p) - 1)).v))) => Get(r.v, p) = Good(v)
         /\ (~Get(doc, p).ok /\ Get(r.v, p).ok) => At("remove", r.v, p, VNull) = Good(doc)
  /\ \A p \in Pointers : Get(doc, p).ok <=> At("remove", doc, p, VNull).ok
  /\ \A p \in Pointers : Get(doc, p).ok <=> At("replace", doc, p, VInt(9)).ok
  /\ \A p \in Pointers : Get(doc, p).ok => Move(doc, p, p) = Good(doc)
=============================================================================
