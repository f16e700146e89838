------------------------------ MODULE Registry ------------------------------
(* Schemas registered by URI.  A registry is a sequence of <<uri, schema>>;  *)
(* a stack of registries is searched from its last element (the innermost    *)
(* loader) to its first.                                                      *)
EXTENDS Uri

KId == <<105, 100>>
KRef == <<36, 114, 101, 102>>
KEnum == <<101, 110, 117, 109>>
KDefault == <<100, 101, 102, 97, 117, 108, 116>>
KProperties == <<112, 114, 111, 112, 101, 114, 116, 105, 101, 115>>
KPattern == <<112, 97, 116, 116, 101, 114, 110>>
KPatternProperties == KPattern \o <<80>> \o Tail(KProperties)
KDefinitions == <<100, 101, 102, 105, 110, 105, 116, 105, 111, 110, 115>>
KDependencies == <<100, 101, 112, 101, 110, 100, 101, 110, 99, 105, 101, 115>>
KeyedBySchemas == {KProperties, KPatternProperties, KDefinitions, KDependencies}
Data == {KEnum, KDefault}

HasStr(s, k) == IsMap(s) /\ MHas(s.m, k) /\ MGet(s.m, k).t = "S"
Str(s, k) == MGet(s.m, k).s
BaseOf(s, base) == IF HasStr(s, KId) THEN Resolve(base, Str(s, KId)).v ELSE base

(* identifiers and references made absolute: an identifier changes the base  *)
(* of what it encloses; data inside the schema is left alone                  *)
RECURSIVE Norm(_, _)
Norm(s, base) ==
  CASE IsList(s) -> VList([j \in 1..Len(s.l) |-> Norm(s.l[j], base)])
    [] IsMap(s) ->
       LET b == BaseOf(s, base)
           ref == HasStr(s, KRef)
           child(k, v) == IF k \in Data THEN v
                          ELSE IF k \in KeyedBySchemas /\ IsMap(v)
                          THEN VMap([j \in 1..Len(v.m) |-> <<v.m[j][1], Norm(v.m[j][2], b)>>])
                          ELSE Norm(v, b)
           member(k, v) == IF k = KId /\ v.t = "S" THEN VStr(b)
                           ELSE IF ref THEN (IF k = KRef THEN VStr(Resolve(b, v.s).v) ELSE v)
                           ELSE child(k, v)
       IN VMap([j \in 1..Len(s.m) |-> <<s.m[j][1], member(s.m[j][1], s.m[j][2])>>])
    [] OTHER -> s

(* a nested identifier is believed when it lies under the URI the schema was *)
(* registered at; a schema without a URI of its own may choose freely         *)
Trusted(u, id) ==
  \/ u = <<>>
  \/ /\ StartsWith(id, u) /\ Len(id) > Len(u)
     /\ \/ u[Len(u)] = Slash
        \/ id[Len(u) + 1] \in {Hash, Quest}
(* an identifier without fragment names the same resource as one with an empty one *)
Plain(id) == IF Len(id) > 0 THEN (IF id[Len(id)] = Hash THEN SubSeq(id, 1, Len(id) - 1) ELSE id) ELSE id

RECURSIVE Flatten(_)
Flatten(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flatten(Tail(ss))
RECURSIVE Named(_, _)
Named(s, u) ==
  CASE IsList(s) -> Flatten([j \in 1..Len(s.l) |-> Named(s.l[j], u)])
    [] IsMap(s) ->
       (IF HasStr(s, KId) /\ Trusted(u, Str(s, KId)) THEN <<(<<Plain(Str(s, KId)), s>>)>> ELSE <<>>)
       \o Flatten([j \in 1..Len(s.m) |->
            LET k == s.m[j][1]
                v == s.m[j][2]
            IN IF k \in Data THEN <<>>
               ELSE IF k \in KeyedBySchemas /\ IsMap(v)
               THEN Flatten([n \in 1..Len(v.m) |-> Named(v.m[n][2], u)])
               ELSE Named(v, u)])
    [] OTHER -> <<>>

(* registrations made by adding schema s at u (both resolved) *)
Registrations(u, s) == LET n == Norm(s, u) IN <<(<<u, n>>)>> \o Named(n, u)

RECURSIVE FindReg(_, _, _)
FindReg(reg, u, j) == IF j > Len(reg) THEN 0 ELSE IF reg[j][1] = u THEN j ELSE FindReg(reg, u, j + 1)
Known(reg, u) == FindReg(reg, u, 1) # 0
RegAt(reg, u) == reg[FindReg(reg, u, 1)][2]
RECURSIVE AddAll(_, _)
AddAll(reg, new) ==
  IF new = <<>> THEN reg
  ELSE AddAll(IF Known(reg, new[1][1]) THEN reg ELSE Append(reg, new[1]), Tail(new))
Forget(reg, u) == SelectSeq(reg, LAMBDA x : x[1] # u)

(* the schema a (resolved) reference denotes: [ok, v], not ok with miss when *)
(* nothing is registered at its URI                                           *)
Resource(u) == SubSeq(u, 1, FirstOf(u, 1, {Hash}) - 1)
RECURSIVE Lookup(_, _)
Lookup(stack, u) ==
  IF stack = <<>> THEN [ok |-> FALSE, miss |-> TRUE]
  ELSE LET reg == stack[Len(stack)]
           t == Tokens(Decode(Part(u, FirstOf(u, 1, {Hash}) + 1, Len(u))))
           p == IF t.ok THEN Get(RegAt(reg, Resource(u)), t.v) ELSE Fail
       IN IF Known(reg, u) THEN Good(RegAt(reg, u))
          ELSE IF Known(reg, Resource(u)) THEN (IF p.ok THEN p ELSE [ok |-> FALSE, miss |-> FALSE])
          ELSE Lookup(SubSeq(stack, 1, Len(stack) - 1), u)
=============================================================================
