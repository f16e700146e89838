------------------------------- MODULE Loader -------------------------------
(* Histories of schema loaders.  Loader j falls back on loader j-1; the first *)
(* one may load what is missing from files and then from a handler.           *)
EXTENDS Schema

(* dup: two schemas claimed the same URI, where nothing is promised *)
EmptyOf(c) == [r |-> [j \in 1..c.n |-> <<>>], calls |-> <<>>, dup |-> FALSE]
RECURSIVE Clash(_, _)
Clash(reg, new) ==
  IF new = <<>> THEN FALSE
  ELSE IF Known(reg, new[1][1]) THEN RegAt(reg, new[1][1]) # new[1][2] \/ Clash(reg, Tail(new))
  ELSE Clash(Append(reg, new[1]), Tail(new))
Enter(S, l, new) == [S EXCEPT !.r[l] = AddAll(@, new), !.dup = @ \/ Clash(S.r[l], new)]
Without(u) == Resolve(Resource(u), <<>>).v
NormUri(u) == Without(u) \o Split(u).f

RECURSIVE InList(_, _, _)
InList(l, k, j) == IF j > Len(l) THEN 0 ELSE IF l[j][1] = k THEN j ELSE InList(l, k, j + 1)

Mark == <<47, 83, 67, 82, 65, 84, 67, 72>>
File == <<102, 105, 108, 101, 58>>
(* the first readable file for a resource: [ok, v] *)
RECURSIVE Searched(_, _, _)
Searched(adv, p, j) ==
  IF j > Len(adv.paths) THEN Fail
  ELSE LET k == InList(adv.files, adv.paths[j] \o <<Slash>> \o p, 1) IN
       IF k # 0 /\ adv.files[Max2(k, 1)][2].t # "none" THEN Good(adv.files[k][2]) ELSE Searched(adv, p, j + 1)
OnDisk(c, u) ==
  IF "adv" \notin DOMAIN c THEN Fail
  ELSE LET s == Split(u)
           p == (IF s.s # <<>> THEN SubSeq(s.a, 3, Len(s.a)) ELSE s.a) \o s.p
           k == InList(c.adv.files, SubSeq(p, Len(Mark) + 2, Len(p)), 1)
       IN IF u = <<>> \/ s.s \notin {<<>>, File} THEN Fail
          ELSE IF StartsWith(p, Mark \o <<Slash>>)
          THEN (IF k # 0 /\ c.adv.files[Max2(k, 1)][2].t # "none" THEN Good(c.adv.files[k][2]) ELSE Fail)
          ELSE IF StartsWith(p, <<Slash>>) THEN Fail
          ELSE Searched(c.adv, p, 1)

Fetch(c, S, u) ==       \* u: the resource nothing is registered at
  LET f == OnDisk(c, u)
      S2 == [S EXCEPT !.calls = Append(@, u)]
      k == IF "remote" \in DOMAIN c THEN InList(c.remote, u, 1) ELSE 0
  IN IF f.ok THEN Enter(S, 1, Registrations(u, f.v))
     ELSE IF "remote" \notin DOMAIN c THEN S
     ELSE IF k # 0 THEN Enter(S2, 1, Registrations(u, c.remote[k][2])) ELSE S2

(* [S, ok, v]; extra: registrations in front of the loaders *)
Obtain(c, S, extra, l, u) ==
  LET nu == NormUri(u)
      a == Lookup(SubSeq(S.r, 1, l) \o extra, nu)
      S2 == Fetch(c, S, Resource(nu))
      b == Lookup(SubSeq(S2.r, 1, l) \o extra, nu)
  IN IF a.ok THEN [S |-> S, ok |-> TRUE, v |-> a.v]
     ELSE IF ~a.miss THEN [S |-> S, ok |-> FALSE]
     ELSE IF b.ok THEN [S |-> S2, ok |-> TRUE, v |-> b.v] ELSE [S |-> S2, ok |-> FALSE]

(* validation along references and allOf: [S, o] with o in "T", "F", "E" *)
RECURSIVE Chase(_, _, _, _, _, _, _), ChaseAll(_, _, _, _, _, _, _)
Chase(c, S, extra, l, s, d, fuel) ==
  IF fuel = 0 THEN [S |-> S, o |-> "E"]
  ELSE IF HasStr(s, KRef) THEN
       LET g == Obtain(c, S, extra, l, Str(s, KRef)) IN
       IF g.ok THEN Chase(c, g.S, extra, l, g.v, d, fuel - 1) ELSE [S |-> g.S, o |-> "E"]
  ELSE IF ~IsMap(s) THEN [S |-> S, o |-> "T"]
  ELSE IF Has(s, KEnum) /\ ~EnumOk(s, d) THEN [S |-> S, o |-> "F"]
  ELSE IF Has(s, KAllOf) THEN ChaseAll(c, S, extra, l, Kw(s, KAllOf).l, d, fuel - 1)
  ELSE [S |-> S, o |-> "T"]
ChaseAll(c, S, extra, l, ss, d, fuel) ==
  IF ss = <<>> THEN [S |-> S, o |-> "T"]
  ELSE LET x == Chase(c, S, extra, l, ss[1], d, fuel) IN
       IF x.o # "T" THEN x ELSE ChaseAll(c, x.S, extra, l, Tail(ss), d, fuel)

AnyErr == [o |-> "err", k |-> "any"]
LStep(c, S, o) ==
  CASE o.f = "add" -> [S |-> Enter(S, o.l + 1, Registrations(Without(o.u), o.s)), r |-> [o |-> "ok"]]
    [] o.f = "forget" -> [S |-> [S EXCEPT !.r[o.l + 1] = Forget(@, Plain(NormUri(o.u)))], r |-> [o |-> "ok"]]
    [] o.f = "get" ->
       LET g == Obtain(c, S, <<>>, o.l + 1, o.u) IN
       [S |-> g.S, r |-> IF g.ok THEN [o |-> "ok", v |-> g.v] ELSE AnyErr]
    [] o.f = "val" ->
       IF o.s.t = "S"
       THEN LET x == Chase(c, S, <<>>, o.l + 1, VMap(<< <<KRef, o.s>> >>), o.d, 50)
            IN [S |-> x.S, r |-> IF x.o = "E" THEN AnyErr ELSE [o |-> "ok", valid |-> x.o = "T"]]
       ELSE LET new == Registrations(<<>>, o.s)
                x == Chase(c, [S EXCEPT !.dup = @ \/ Clash(<<>>, new)], <<AddAll(<<>>, new)>>, o.l + 1, new[1][2], o.d, 50)
            IN [S |-> x.S, r |-> IF x.o = "E" THEN AnyErr ELSE [o |-> "ok", valid |-> x.o = "T"]]
RECURSIVE RunFrom(_, _, _, _)
RunFrom(c, S, j, rs) ==
  IF j > Len(c.ops) THEN [rs |-> rs, calls |-> S.calls, dup |-> S.dup]
  ELSE LET x == LStep(c, S, c.ops[j]) IN RunFrom(c, x.S, j + 1, Append(rs, x.r))
RunL(c) == RunFrom(c, EmptyOf(c), 1, <<>>)
=============================================================================
