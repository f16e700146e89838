------------------------------- MODULE MCPaths ------------------------------
(* All short paths and all short texts over the significant characters.        *)
EXTENDS Paths, Json, IOUtils
VARIABLES p, t
Wide == IOEnv.DEPTH # "1"
Chars == {97, SLASH, LB, RB, BSL}
Words(S, n) == UNION {[1..k -> S] : k \in 0..n}
Elems == {PKey(s) : s \in Words(Chars, 2)} \cup {[t |-> "U", w |-> w] : w \in {<<48>>, <<49, 50>>, MaxIndex}}
Paths3 == UNION {[1..k -> Elems] : k \in 0..2}
Texts == Words({97, SLASH, LB, RB, BSL, 49}, IF Wide THEN 6 ELSE 5)
None == <<>>
Init == \/ p \in Paths3 /\ t = <<"path">>
        \/ \E s \in Texts : t = <<"text", s>> /\ p = <<>>
Next == FALSE /\ UNCHANGED <<p, t>>
VecFmt == PrintT("VEC " \o ToJson([c |-> [op |-> "pathfmt", p |-> p],
                                   e |-> [o |-> "ok", s |-> Format(p), back |-> p]]))
VecText == LET r == ParseText(t[2]) IN
           r.loose \/ PrintT("VEC " \o ToJson([c |-> [op |-> "pathparse", s |-> t[2]],
                                               e |-> IF r.o = "ok" THEN [o |-> "ok", p |-> r.p] ELSE [o |-> "err"]]))
RoundTrip == /\ t[1] = "path" /\ HasText(p) => ParseText(Format(p)) = Out("ok", p, FALSE) /\ VecFmt
             /\ t[1] = "text" => VecText
(* what is read, when written out and read again, is the same path *)
Stable == t[1] = "text" => LET r == ParseText(t[2]) IN
            (r.o = "ok" /\ HasText(r.p)) => ParseText(Format(r.p)) = Out("ok", r.p, FALSE)
=============================================================================
