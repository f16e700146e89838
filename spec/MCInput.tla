------------------------------- MODULE MCInput ------------------------------
(* The buffering behind a stream input, against the abstract input: a buffer   *)
(* of cap bytes holding num bytes from position at, filled by reads of at most *)
(* the size the source feels like.  Every schedule of reads, gets and releases.*)
(* What is handed out is always the source from the released position on, a    *)
(* get is met unless the source has ended, and the source is never lost.       *)
EXTENDS Input
CONSTANTS SrcLen, Caps, Wants
VARIABLES cap, at, num, red, eof, off, want, held, buf
vars == <<cap, at, num, red, eof, off, want, held, buf>>
Src == [j \in 1..SrcLen |-> j]
Init == /\ cap \in Caps /\ at = 0 /\ num = 0 /\ red = 0 /\ eof = FALSE /\ off = 0 /\ want = 0 - 1 /\ held = 0
        /\ buf = [j \in 1..cap |-> 0]
Idle == want = 0 - 1
Met == num > 0 /\ num >= want
Get == Idle /\ want' \in Wants /\ UNCHANGED <<cap, at, num, red, eof, off, held, buf>>
(* room is made by moving to the front, then by growing *)
Move == /\ ~Idle /\ ~eof /\ ~Met /\ at + num = cap
        /\ IF at > 0 THEN /\ buf' = [j \in 1..cap |-> IF j <= num THEN buf[at + j] ELSE buf[j]] /\ cap' = cap
           ELSE /\ cap' = 2 * cap + 1 /\ buf' = [j \in 1..cap' |-> IF j <= cap THEN buf[j] ELSE 0]
        /\ at' = 0 /\ UNCHANGED <<num, red, eof, off, want, held>>
Fill == /\ ~Idle /\ ~eof /\ ~Met /\ at + num < cap
        /\ IF red = SrcLen THEN eof' = TRUE /\ UNCHANGED <<num, red, buf>>
           ELSE \E k \in 1..Min2(SrcLen - red, cap - at - num) :
                  /\ red' = red + k /\ num' = num + k /\ eof' = eof
                  /\ buf' = [j \in 1..cap |-> IF j > at + num /\ j <= at + num + k THEN Src[red + j - at - num] ELSE buf[j]]
        /\ UNCHANGED <<cap, at, off, want, held>>
Return == ~Idle /\ (eof \/ Met) /\ held' = num /\ want' = 0 - 1 /\ UNCHANGED <<cap, at, num, red, eof, off, buf>>
Release == Idle /\ \E k \in 0..held :
             /\ off' = off + k /\ num' = num - k /\ held' = held - k
             /\ at' = IF k = num THEN 0 ELSE at + k
             /\ UNCHANGED <<cap, red, eof, want, buf>>
Next == Get \/ Move \/ Fill \/ Return \/ Release
Handed == SubSeq(buf, at + 1, at + num)
Bounds == at >= 0 /\ num >= 0 /\ at + num <= cap /\ off + num = red
Right == Handed = SubSeq(Src, off + 1, off + num)
ReturnsEnough == [][ (~Idle /\ want' = 0 - 1) => GetOK(Src, off, want, [z |-> held' = 0, n |-> held', b |-> Handed]) ]_vars
Spec == Init /\ [][Next]_vars /\ WF_vars(Move \/ Fill \/ Return)
Answered == (~Idle) ~> Idle
=============================================================================
