-------------------------------- MODULE Docs --------------------------------
(* Streams of YAML documents with anchors and aliases.  A node is a record     *)
(*   [k |-> "s", v] scalar   [k |-> "l", e] list of nodes                      *)
(*   [k |-> "m", e] list of <<key node, value node>>   [k |-> "*", n] alias    *)
(* and a (anchor name, <<>> for none).  Containers in evaluated values carry   *)
(* an identity: an alias denotes the very container the anchor named.          *)
EXTENDS Val
Open == [t |-> "O"]
NoName == <<>>
Digit(n) == 48 + n
RECURSIVE Decimal(_)
Decimal(n) == IF n < 0 THEN <<45>> \o Decimal(0 - n) ELSE IF n < 10 THEN <<Digit(n)>> ELSE Decimal(n \div 10) \o <<Digit((n % 10))>>
(* o: ok, err (the document is in error), open (not decided here: a value that *)
(* would contain itself, repeated keys, keys that are neither text nor integer)*)
Res(o, v, env, id) == [o |-> o, v |-> v, env |-> env, id |-> id]
Named(a, v, env) == IF a = NoName THEN env ELSE (a :> v) @@ env
Close(a, v, id, env) == IF a # NoName /\ env[a].t = "O" /\ env[a].id = id THEN Named(a, v, env) ELSE env
RECURSIVE Eval(_, _, _), EvalSeq(_, _, _, _, _), EvalPairs(_, _, _, _, _)
Eval(n, env, id) ==
  CASE n.k = "s" -> Res("ok", n.v, Named(n.a, n.v, env), id)
    [] n.k = "*" -> IF n.n \notin DOMAIN env THEN Res("err", VNull, env, id)
                    ELSE IF env[n.n].t = "O" THEN Res("open", VNull, env, id) ELSE Res("ok", env[n.n], env, id)
    [] n.k = "l" -> LET r == EvalSeq(n.e, 1, Named(n.a, [t |-> "O", id |-> id], env), id + 1, <<>>)
                        v == [t |-> "L", id |-> id, l |-> r.v]
                    IN IF r.o # "ok" THEN r ELSE Res("ok", v, Close(n.a, v, id, r.env), r.id)
    [] n.k = "m" -> LET r == EvalPairs(n.e, 1, Named(n.a, [t |-> "O", id |-> id], env), id + 1, <<>>)
                        v == [t |-> "M", id |-> id, m |-> r.v]
                    IN IF r.o # "ok" THEN r ELSE Res("ok", v, Close(n.a, v, id, r.env), r.id)
EvalSeq(e, j, env, id, acc) ==
  IF j > Len(e) THEN Res("ok", acc, env, id)
  ELSE LET r == Eval(e[j], env, id) IN
       IF r.o # "ok" THEN r ELSE EvalSeq(e, j + 1, r.env, r.id, Append(acc, r.v))
KeyText(v) == IF v.t = "S" THEN v.s ELSE Decimal(v.i)
EvalPairs(e, j, env, id, acc) ==
  IF j > Len(e) THEN Res("ok", acc, env, id)
  ELSE LET k == Eval(e[j][1], env, id) IN
       IF k.o # "ok" THEN k
       ELSE IF IsContainer(k.v) THEN Res("err", VNull, env, id)
       ELSE IF k.v.t \notin {"S", "I"} THEN Res("open", VNull, env, id)
       ELSE LET r == Eval(e[j][2], k.env, k.id) IN
            IF r.o # "ok" THEN r
            ELSE IF MHas(acc, KeyText(k.v)) THEN Res("open", VNull, env, id)
            ELSE EvalPairs(e, j + 1, r.env, r.id, MSet(acc, KeyText(k.v), r.v))
Doc(n) == LET r == Eval(n, << >>, 0) IN [o |-> r.o, v |-> r.v]
---------------------------------------------------------------------------
(* identities renumbered in the order of first visit *)
RECURSIVE Canon(_, _), CanonSeq(_, _, _, _)
Canon(v, m) ==
  IF ~IsContainer(v) THEN [v |-> v, m |-> m]
  ELSE LET m1 == IF v.id \in DOMAIN m THEN m ELSE (v.id :> Cardinality(DOMAIN m)) @@ m
           kids == IF v.t = "L" THEN v.l ELSE [j \in 1..Len(v.m) |-> v.m[j][2]]
           r == CanonSeq(kids, 1, m1, <<>>)
       IN [v |-> IF v.t = "L" THEN [v EXCEPT !.id = m1[v.id], !.l = r.v]
                 ELSE [v EXCEPT !.id = m1[v.id], !.m = [j \in 1..Len(v.m) |-> <<v.m[j][1], r.v[j]>>]],
           m |-> r.m]
CanonSeq(s, j, m, acc) ==
  IF j > Len(s) THEN [v |-> acc, m |-> m]
  ELSE LET r == Canon(s[j], m) IN CanonSeq(s, j + 1, r.m, Append(acc, r.v))
Seen(v) == Canon(v, << >>).v
---------------------------------------------------------------------------
(* Iterators over the documents ds (results of Doc): a slot holds the stream   *)
(* it was opened on and a position 1..Len(ds)+1.  A script ends where an       *)
(* iterator comes to a document in error, and is judged no further where it    *)
(* comes to one that is not decided.                                           *)
OkV(v) == [o |-> "ok", v |-> v]
OkB(b) == [o |-> "ok", b |-> b]
Done == [o |-> "ok"]
Failed == [o |-> "err"]
At(ds, p) == IF p > Len(ds) THEN "end" ELSE ds[p].o
RECURSIVE Play(_, _, _, _, _, _)
Play(ds, ops, j, its, st, acc) ==
  IF j > Len(ops) THEN [rs |-> acc, full |-> TRUE]
  ELSE
  LET f == ops[j].f  a == ops[j].i
      to == IF f = "new" THEN 1 ELSE Min2(its[a].p + 1, Len(ds) + 1)
      moves == f \in {"new", "next", "post"}
      here == IF f \in {"get", "post"} THEN (IF its[a].p > Len(ds) THEN Failed ELSE OkV(Seen(ds[its[a].p].v))) ELSE Done
      out == CASE f \in {"get", "post"} -> here
               [] f = "eq" -> OkB((its[a].p > Len(ds) /\ its[ops[j].j].p > Len(ds)) \/ its[a] = its[ops[j].j])
               [] f = "end" -> OkB(its[a].p > Len(ds))
               [] OTHER -> Done
      new == CASE f = "new" -> (a :> [st |-> st, p |-> 1]) @@ its
               [] f \in {"next", "post"} -> [its EXCEPT ![a].p = to]
               [] f = "copy" -> (ops[j].j :> its[a]) @@ its
               [] OTHER -> its
  IN IF moves /\ At(ds, to) = "err" THEN [rs |-> Append(acc, Failed), full |-> TRUE]
     ELSE IF moves /\ At(ds, to) = "open" THEN [rs |-> acc, full |-> FALSE]
     ELSE Play(ds, ops, j + 1, new, IF f = "new" THEN st + 1 ELSE st, Append(acc, out))
Run(ds, ops) == Play(ds, ops, 1, << >>, 1, <<>>)
=============================================================================
