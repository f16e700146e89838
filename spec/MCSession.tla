----------------------------- MODULE MCSession ------------------------------
(* Every way to run, reset and re-handle a parser over a few small inputs, for *)
(* every batching of the events and every reaction of a handler.               *)
EXTENDS Session
VARIABLES c, s, log, bare      \* bare: failed because there was no handler
vars == <<c, s, log, bare>>
One == VList(<<VInt(1)>>)
Good1 == [docs |-> <<One>>, bad |-> FALSE]
Two == [docs |-> <<VNull, VMap(<<>>)>>, bad |-> FALSE]
Bad1 == [docs |-> <<One>>, bad |-> TRUE]
NoDocs == [docs |-> <<>>, bad |-> FALSE]
Cases == {[segs |-> <<g, Good1, NoDocs>>, hooks |-> h, popend |-> p] :
            g \in {Good1, Two, Bad1, NoDocs}, p \in BOOLEAN,
            h \in {<<>>} \cup {<<(<<k, r>>)>> : k \in 1..8, r \in {"push", "pop", "throw"}}}
Init == c \in Cases /\ s = Begin(c) /\ log = <<>> /\ bare = FALSE
(* the batches a run may deliver: the next events, up to where one throws or no handler is left *)
RECURSIVE Batches(_, _)
Batches(t, ev) ==
  {[ev |-> ev, to |-> t]} \cup
  IF t.stack = <<>> \/ t.thrown \/ t.pos = Len(All(c, t)) THEN {}
  ELSE LET e == All(c, t)[t.pos + 1]
           x == IF e.f = "s" THEN [h |-> TopOf(t), f |-> e.f, v |-> e.v] ELSE [h |-> TopOf(t), f |-> e.f]
       IN Batches(Deliver(c, t, e), Append(ev, x))
Run == /\ s.st = "ok"
       /\ \E b \in Batches(s, <<>>), r \in {"0", "1", "err"} :
            /\ MayAnswer(c, b.to, r)
            /\ Assert(RunOK(c, s, [o |-> "run", r |-> r, ev |-> b.ev]), "not accepted")
            /\ s' = RunTo(c, s, [o |-> "run", r |-> r, ev |-> b.ev])
            /\ log' = log \o b.ev
            /\ bare' = (r = "err" /\ b.to.stack = <<>>)
       /\ UNCHANGED c
Push == /\ s.next < 4 /\ s' = PushH(s) /\ UNCHANGED <<c, log, bare>>
Pop == /\ s.stack # <<>> /\ s.next < 4 /\ s' = PopH(s) /\ UNCHANGED <<c, log, bare>>
Reset == /\ s.seg < Len(c.segs) /\ s' = ResetTo(s) /\ log' = <<>> /\ bare' = FALSE /\ UNCHANGED c
Next == Run \/ Push \/ Pop \/ Reset
Plain(x) == IF x.f = "s" THEN Scalar(x.v) ELSE Event(x.f)
Once == /\ Len(log) = s.pos /\ [j \in 1..Len(log) |-> Plain(log[j])] = SubSeq(All(c, s), 1, s.pos)
        /\ \A j \in 1..Len(log) : log[j].h < s.next
Final == /\ (s.st = "done" => s.pos = Len(All(c, s)) /\ ~Seg(c, s).bad)
         /\ (s.st = "err" => Seg(c, s).bad \/ bare \/ \E j \in 1..Len(c.hooks) : c.hooks[j][2] = "throw" /\ c.hooks[j][1] <= s.n)
Distinct == \A j, k \in 1..Len(s.stack) : j < k => s.stack[j] < s.stack[k]
(* a parser that has failed or is done stays so until it is reset *)
Stays == [][ (s.st # "ok" /\ s'.seg = s.seg) => s'.st = s.st ]_vars
Spec == Init /\ [][Next]_vars
=============================================================================
