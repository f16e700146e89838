------------------------------ MODULE Session -------------------------------
(* A parser that is run in steps.  The input is a sequence of segments (what   *)
(* there is to read until it ends; a reset goes on to the next one), each with *)
(* its documents or bad.  Handlers form a stack; every event goes to the one   *)
(* on top and may push a new one, pop the top or throw.  How many events one   *)
(* run delivers is open.                                                       *)
EXTENDS Val
Event(f) == [f |-> f]
Scalar(v) == [f |-> "s", v |-> v]
RECURSIVE EvOf(_), Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Cat(Tail(s))
EvOf(v) ==
  CASE v.t = "L" -> <<Event("bl")>> \o Cat([j \in 1..Len(v.l) |-> EvOf(v.l[j])]) \o <<Event("el")>>
    [] v.t = "M" -> <<Event("bm")>> \o Cat([j \in 1..Len(v.m) |-> <<Scalar(VStr(v.m[j][1]))>> \o EvOf(v.m[j][2])]) \o <<Event("em")>>
    [] OTHER -> <<Scalar(v)>>
DocEv(v) == <<Event("bd")>> \o EvOf(v) \o <<Event("ed")>>
SegEv(g) == Cat([j \in 1..Len(g.docs) |-> DocEv(g.docs[j])])

(* c: segs, hooks (at event number -> what its handler does), popend (does the *)
(* handler of the end of a document pop itself)                                *)
Begin(c) == [seg |-> 1, pos |-> 0, st |-> "ok", stack |-> <<>>, next |-> 1, n |-> 0, thrown |-> FALSE]
Seg(c, s) == c.segs[s.seg]
All(c, s) == SegEv(Seg(c, s))
Hook(c, n) == IF \E j \in 1..Len(c.hooks) : c.hooks[j][1] = n
              THEN c.hooks[CHOOSE j \in 1..Len(c.hooks) : c.hooks[j][1] = n][2] ELSE "none"
TopOf(s) == s.stack[Len(s.stack)]
PushH(s) == [s EXCEPT !.stack = Append(@, s.next), !.next = @ + 1]
PopH(s) == [s EXCEPT !.stack = SubSeq(@, 1, Len(@) - 1)]
Deliver(c, s, e) ==
  LET t == [s EXCEPT !.pos = @ + 1, !.n = @ + 1]
      h == Hook(c, t.n)
      u == CASE h = "push" -> PushH(t)
             [] h = "pop" -> PopH(t)
             [] h = "throw" -> [t EXCEPT !.thrown = TRUE]
             [] OTHER -> t
  IN IF e.f = "ed" /\ c.popend /\ h = "none" THEN PopH(u) ELSE u
(* a whole number may be read as either kind *)
SameScalar(a, b) == a = b \/ (a.t \in {"I", "U"} /\ b.t \in {"I", "U"} /\ [a EXCEPT !.t = "I"] = [b EXCEPT !.t = "I"])
(* may event x, with handler x.h, be the next one? *)
Fits1(c, s, x) ==
  /\ s.stack # <<>> /\ ~s.thrown /\ x.h = TopOf(s) /\ s.pos < Len(All(c, s))
  /\ LET e == All(c, s)[s.pos + 1] IN
     \/ x.f = e.f /\ (e.f = "s" => SameScalar(x.v, e.v))
     \/ Seg(c, s).bad /\ x.f = "s"
RECURSIVE DeliverAll(_, _, _, _)
(* the state after the events, or the state marked wrong *)
DeliverAll(c, s, ev, j) ==
  IF j > Len(ev) THEN s
  ELSE IF ~Fits1(c, s, ev[j]) THEN [s EXCEPT !.st = "wrong"]
  ELSE DeliverAll(c, Deliver(c, s, ev[j]), ev, j + 1)
(* what a run that has delivered up to state s may answer *)
MayAnswer(c, s, r) ==
  CASE r = "0" -> ~s.thrown
    [] r = "1" -> ~s.thrown /\ ~Seg(c, s).bad /\ s.pos = Len(All(c, s))
    [] r = "err" -> s.thrown \/ Seg(c, s).bad \/ s.stack = <<>>    \* an event that nobody takes may be an error
    [] OTHER -> FALSE
AfterRun(s, r) == [s EXCEPT !.st = CASE r = "1" -> "done" [] r = "err" -> "err" [] OTHER -> "ok", !.thrown = FALSE]
(* done only if there is nothing more; ok while neither done nor failed *)
Flags(c, s, x) ==
  CASE s.st = "err" -> x.e /\ ~x.k /\ ~x.d /\ x.s
    [] s.st = "done" -> x.d /\ ~x.e /\ ~x.k
    [] OTHER -> ~x.e /\ (x.d => (s.pos = Len(All(c, s)) /\ ~Seg(c, s).bad)) /\ (~x.d => x.k)
RunOK(c, s, x) ==
  IF s.st = "done" THEN x.ev = <<>> /\ (x.r = "1" \/ (x.r = "0" /\ s.stack = <<>>))
  ELSE IF s.st = "err" THEN x.ev = <<>> /\ (x.r = "err" \/ (x.r = "0" /\ s.stack = <<>>))
  ELSE s.st # "wrong" /\ LET t == DeliverAll(c, s, x.ev, 1) IN t.st # "wrong" /\ MayAnswer(c, t, x.r)
RunTo(c, s, x) == IF s.st # "ok" THEN s ELSE AfterRun(DeliverAll(c, s, x.ev, 1), x.r)
ResetTo(s) == [s EXCEPT !.seg = @ + 1, !.pos = 0, !.st = "ok"]

(* one recorded step *)
StepOK(c, s, x) ==
  CASE x.o = "run" -> RunOK(c, s, x) /\ Flags(c, RunTo(c, s, x), x)
    [] x.o = "end" -> s.st # "ok" \/ s.stack = <<>>        \* running until something happens ends
    [] x.o = "push" -> TRUE
    [] x.o = "pop" -> IF s.stack = <<>> THEN x.h = 0 ELSE x.h = TopOf(s)
    [] x.o = "reset" -> Flags(c, ResetTo(s), x)
    [] x.o = "look" -> Flags(c, s, x)
StepTo(c, s, x) ==
  CASE x.o = "run" -> RunTo(c, s, x)
    [] x.o = "push" -> PushH(s)
    [] x.o = "pop" -> IF s.stack = <<>> THEN s ELSE PopH(s)
    [] x.o = "reset" -> ResetTo(s)
    [] OTHER -> s
RECURSIVE SessionOK(_, _, _, _)
(* 0 if all steps are right, else the number of the first wrong one *)
SessionOK(c, s, xs, j) ==
  IF j > Len(xs) THEN 0
  ELSE IF ~StepOK(c, s, xs[j]) THEN j
  ELSE SessionOK(c, StepTo(c, s, xs[j]), xs, j + 1)
=============================================================================
