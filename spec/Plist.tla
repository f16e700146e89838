------------------------------- MODULE Plist --------------------------------
(* Reading property lists, on the level of markup tokens                       *)
(* [k |-> "o"|"c"|"e" (open, close, empty element), n |-> name] and            *)
(* [k |-> "t" (character data), s |-> bytes], [k |-> "m"] (a comment).         *)
(* A reading ends "ok" with a value, "err", or "any" where nothing is required.*)
EXTENDS Num

TextNames == {"string", "key", "integer", "real"}
Blank(s) == \A j \in 1..Len(s) : s[j] \in {32, 9, 10, 13}
RECURSIVE StripL(_), StripR(_)
StripL(s) == IF s # <<>> /\ s[1] \in {32, 9, 10, 13} THEN StripL(Tail(s)) ELSE s
StripR(s) == IF s # <<>> /\ s[Len(s)] \in {32, 9, 10, 13} THEN StripR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Strip(s) == StripR(StripL(s))
Done(o, v) == [o |-> o, v |-> v, st |-> <<>>]
Err == Done("err", VNull)
Open == Done("any", VNull)
More(st) == [o |-> "more", v |-> VNull, st |-> st]
(* a frame: name, character data, values so far, keys so far *)
Frame(n) == [n |-> n, s |-> <<>>, l |-> <<>>, k |-> <<>>]
Push(st, n) == Append(st, Frame(n))
PopF(st) == SubSeq(st, 1, Len(st) - 1)
Top(st) == st[Len(st)]
SetTop(st, f) == [st EXCEPT ![Len(st)] = f]
(* a complete value v (isKey: from a key element) reaches the frame on top of st *)
Deliver(st, v, isKey) ==
  IF st = <<>> THEN Open
  ELSE LET f == Top(st) IN
  CASE f.n = "plist" -> IF isKey \/ f.l # <<>> THEN Open ELSE More(SetTop(st, [f EXCEPT !.l = <<v>>]))
    [] f.n = "array" -> IF isKey THEN Open ELSE More(SetTop(st, [f EXCEPT !.l = Append(@, v)]))
    [] f.n = "dict" -> IF isKey THEN (IF Len(f.k) > Len(f.l) THEN Open ELSE More(SetTop(st, [f EXCEPT !.k = Append(@, v.s)])))
                       ELSE IF Len(f.k) > Len(f.l) THEN More(SetTop(st, [f EXCEPT !.l = Append(@, v)])) ELSE Open
    [] OTHER -> Open
RECURSIVE MapOf(_, _, _)
MapOf(f, j, acc) == IF j > Len(f.l) THEN acc ELSE MapOf(f, j + 1, MSet(acc, f.k[j], f.l[j]))
LeadingZero(s) == LET j == SignLen(s) + 1 IN Len(s) > j /\ s[j] = 48
Close(st, n) ==
  IF st = <<>> \/ Top(st).n # n THEN Err
  ELSE LET f == Top(st) r == PopF(st) w == Strip(f.s) IN
  CASE n = "string" -> Deliver(r, VStr(f.s), FALSE)
    [] n = "key" -> Deliver(r, VStr(f.s), TRUE)
    [] n = "integer" -> IF w = <<>> THEN Err
                        ELSE IF ~IsIntText(w) \/ LeadingZero(w) THEN Open
                        ELSE IF FitsInt(IntText(w)) THEN Deliver(r, NumOf("I", IntText(w)), FALSE)
                        ELSE IF FitsUns(IntText(w)) THEN Deliver(r, NumOf("U", IntText(w)), FALSE) ELSE Open
    [] n = "real" -> IF w = <<>> THEN Err
                     ELSE IF ~DecText(w).ok THEN Open
                     ELSE Deliver(r, [t |-> "dec", dec |-> DecText(w)], FALSE)
    [] n = "null" -> Deliver(r, VNull, FALSE)
    [] n = "true" -> Deliver(r, VBool(TRUE), FALSE)
    [] n = "false" -> Deliver(r, VBool(FALSE), FALSE)
    [] n = "array" -> Deliver(r, VList(f.l), FALSE)
    [] n = "dict" -> IF Len(f.k) > Len(f.l) THEN Err ELSE Deliver(r, VMap(MapOf(f, 1, <<>>)), FALSE)
    [] n = "plist" -> IF f.l = <<>> THEN Open ELSE Done("ok", f.l[1])
Start(st, n) == IF st = <<>> THEN (IF n = "plist" THEN More(Push(st, n)) ELSE Open)
                ELSE IF n = "plist" \/ Top(st).n \notin {"plist", "array", "dict"} THEN Open
                ELSE More(Push(st, n))
Step(st, k) ==
  CASE k.k = "m" -> More(st)
    [] k.k = "t" -> IF st # <<>> /\ Top(st).n \in TextNames THEN More(SetTop(st, [Top(st) EXCEPT !.s = @ \o k.s]))
                    ELSE IF Blank(k.s) THEN More(st)
                    ELSE IF st = <<>> THEN Err ELSE Open
    [] k.k = "o" -> Start(st, k.n)
    [] k.k = "c" -> Close(st, k.n)
    [] k.k = "e" -> IF k.n = "plist" THEN Open
                    ELSE LET r == Start(st, k.n) IN IF r.o # "more" THEN r ELSE Close(r.st, k.n)
RECURSIVE Run(_, _, _)
Run(ks, j, st) == IF j > Len(ks) THEN More(st)
                  ELSE LET r == Step(st, ks[j]) IN IF r.o = "more" THEN Run(ks, j + 1, r.st) ELSE r
(* the whole text *)
Reading(ks) == LET r == Run(ks, 1, <<>>) IN IF r.o = "more" THEN Err ELSE r
RECURSIVE Agrees(_, _)
Agrees(x, v) ==
  CASE x.t = "dec" -> v.t = "F" /\ (x.dec.x > 290 \/ x.dec.x < 0 - 290 \/ Len(NToDigits(x.dec.n)) > 290 \/ DecNearest(x.dec, v, 53, 0 - 1074))
    [] x.t \in {"I", "U"} -> v.t \in {"I", "U"} /\ ToDy(x) = ToDy(v)
    [] x.t = "L" -> v.t = "L" /\ Len(v.l) = Len(x.l) /\ \A j \in 1..Len(x.l) : Agrees(x.l[j], v.l[j])
    [] x.t = "M" -> v.t = "M" /\ Len(v.m) = Len(x.m) /\ \A j \in 1..Len(x.m) : v.m[j][1] = x.m[j][1] /\ Agrees(x.m[j][2], v.m[j][2])
    [] OTHER -> v = x
=============================================================================
