------------------------------- MODULE Events -------------------------------
(* What a sequence of emitter calls denotes.  Events: bd, ed (document), bm,   *)
(* em (map), bl, el (list), s (scalar v; a key where a map expects one), fl    *)
(* (flush).  A machine with a stack of open containers consumes them; a frame  *)
(* is a value under construction, with the key waiting for its value.          *)
EXTENDS Yaml
Frame(k) == [k |-> k, l |-> <<>>, m |-> <<>>, key |-> <<>>, has |-> FALSE]
Start == [st |-> <<>>, docs |-> <<>>, in |-> FALSE]
Top(s) == s.st[Len(s.st)]
Pop(s) == [s EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)]
WantsKey(s) == s.st # <<>> /\ Top(s).k = "M" /\ ~Top(s).has
(* a finished value goes to where it was begun *)
Place(s, v) ==
  IF s.st = <<>> THEN [s EXCEPT !.docs = Append(@, v)]
  ELSE LET f == Top(s)
           g == IF f.k = "L" THEN [f EXCEPT !.l = Append(@, v)]
                ELSE IF f.has THEN [f EXCEPT !.m = MSet(@, f.key, v), !.has = FALSE]
                ELSE [f EXCEPT !.key = v.s, !.has = TRUE]
       IN [s EXCEPT !.st[Len(s.st)] = g]
(* which call may come next *)
Can(s, e) ==
  CASE e.f = "bd" -> s.st = <<>> /\ ~s.in
    [] e.f = "ed" -> s.st = <<>> /\ s.in
    [] e.f = "fl" -> TRUE
    [] e.f \in {"bm", "bl"} -> ~WantsKey(s)
    [] e.f = "el" -> s.st # <<>> /\ Top(s).k = "L"
    [] e.f = "em" -> s.st # <<>> /\ Top(s).k = "M" /\ ~Top(s).has
    [] e.f = "s" -> WantsKey(s) => (e.v.t = "S" /\ ~MHas(Top(s).m, e.v.s))
After(s, e) ==
  CASE e.f = "bd" -> [s EXCEPT !.in = TRUE]
    [] e.f = "ed" -> [s EXCEPT !.in = FALSE]
    [] e.f = "fl" -> s
    [] e.f = "bm" -> [s EXCEPT !.st = Append(@, Frame("M"))]
    [] e.f = "bl" -> [s EXCEPT !.st = Append(@, Frame("L"))]
    [] e.f = "el" -> Place(Pop(s), VList(Top(s).l))
    [] e.f = "em" -> Place(Pop(s), VMap(Top(s).m))
    [] e.f = "s" -> Place(s, e.v)
RECURSIVE RunFrom(_, _, _)
RunFrom(s, ev, j) == IF j > Len(ev) THEN s ELSE RunFrom(After(s, ev[j]), ev, j + 1)
RECURSIVE NestedFrom(_, _, _)
NestedFrom(s, ev, j) == IF j > Len(ev) THEN TRUE ELSE Can(s, ev[j]) /\ NestedFrom(After(s, ev[j]), ev, j + 1)
Docs(ev) == RunFrom(Start, ev, 1).docs
=============================================================================
