------------------------------- MODULE MCOutput -----------------------------
(* The way from an emitter to its sink: texts are gathered in a buffer, long    *)
(* ones bypass it, the buffer is flushed by writing until everything is taken;  *)
(* the sink takes as little as it likes and may fail after any byte, in which   *)
(* case the error is reported once and nothing more is written.  Every choice   *)
(* of text sizes, sink portions and failure points.                             *)
EXTENDS Output
CONSTANTS DocLen, BufLen, Threshold
VARIABLES said, buf, todo, got, cap, out
vars == <<said, buf, todo, got, cap, out>>
Doc == [j \in 1..DocLen |-> j]
Init == said = 0 /\ buf = <<>> /\ todo = <<>> /\ got = <<>> /\ cap \in 0..(DocLen + 1) /\ out = "run"
(* the emitter says the next k bytes of the document *)
Say == /\ out = "run" /\ todo = <<>> /\ said < DocLen
       /\ \E k \in 1..(DocLen - said) :
            LET t == SubSeq(Doc, said + 1, said + k) IN
            /\ said' = said + k
            /\ IF k > Threshold THEN todo' = buf \o t /\ buf' = <<>>
               ELSE IF Len(buf) + k > BufLen THEN todo' = buf /\ buf' = t
               ELSE todo' = <<>> /\ buf' = buf \o t
       /\ UNCHANGED <<got, cap, out>>
Close == /\ out = "run" /\ todo = <<>> /\ said = DocLen
         /\ IF buf = <<>> THEN out' = "ok" /\ UNCHANGED <<todo, buf>> ELSE todo' = buf /\ buf' = <<>> /\ UNCHANGED out
         /\ UNCHANGED <<said, got, cap>>
Take == /\ out = "run" /\ todo # <<>>
        /\ IF Len(got) >= cap THEN out' = "err" /\ todo' = <<>> /\ buf' = <<>> /\ UNCHANGED got
           ELSE \E k \in 1..Min2(Len(todo), cap - Len(got)) :
                  got' = got \o SubSeq(todo, 1, k) /\ todo' = SubSeq(todo, k + 1, Len(todo)) /\ UNCHANGED <<out, buf>>
        /\ UNCHANGED <<said, cap>>
Next == Say \/ Close \/ Take
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
InOrder == Prefix(got, Doc) /\ (out = "run" => got \o todo \o buf = SubSeq(Doc, 1, said))
Right == out # "run" => Delivered(out, cap >= DocLen, got, Doc)
Common(a, b) == CHOOSE n \in 0..Min2(Len(a), Len(b)) : SubSeq(a, 1, n) = SubSeq(b, 1, n) /\ (n < Min2(Len(a), Len(b)) => a[n + 1] # b[n + 1])
SameSaid == \A o \in {"ok", "err"} : \A w \in BOOLEAN : \A g \in {got, buf, todo, got \o todo, todo \o got} :
              Delivered(o, w, g, Doc) <=> DeliveredLen(o, w, Len(g), Common(g, Doc), DocLen)
Ends == <>(out # "run")
=============================================================================
