------------------------------- MODULE MCBlobs ------------------------------
(* Base64 of all short byte strings over the corner bytes, and all histories   *)
(* of blob operations up to a length.                                          *)
EXTENDS Blobs, Json, IOUtils
VARIABLES s, a
Bytes0 == {0, 1, 63, 64, 127, 128, 250, 255}
Depth == CHOOSE k \in 0..9 : ToString(k) = IOEnv.DEPTH
IsEnc == IOEnv.PROFILE = "enc"
Acts == { [k |-> "new", h |-> h, how |-> w, p |-> p] : h \in {0, 1}, w \in {"copy", "own", "free", "ref"}, p \in {<<>>, <<<<97, 98>>>>, <<<<97>>, <<>>, <<98>>>>} }
        \cup { [k |-> w, h |-> h, g |-> 1 - h] : h \in {0, 1}, w \in {"asg", "dup", "var", "vdup"} }
        \cup { [k |-> "drop", h |-> h] : h \in {0, 1} }
        \cup { [k |-> "poke", h |-> 0, at |-> 1, v |-> 122] }
Init == s = Start(3) /\ a = <<>>
Next == /\ Len(a) < Depth
        /\ IF IsEnc THEN \E x \in Bytes0 : a' = Append(a, x) /\ s' = s
           ELSE \E x \in Acts : /\ ~(x.k = "new" /\ x.p = <<>> /\ x.how = "free")
                                /\ a' = Append(a, x) /\ s' = Step(s, x)
Sound == IF IsEnc THEN /\ Dec(Enc(a)) = a /\ Len(Enc(a)) = 4 * ((Len(a) + 2) \div 3)
                       /\ \A j \in 1..Len(Enc(a)) : Val64(Enc(a)[j]) < 64 \/ Enc(a)[j] = 61
         ELSE \A x \in 1..Len(s.o) : s.o[x].r <=> ~Held(s, x)
Vec == IF IsEnc THEN \A w \in {0, 4} : PrintT("VEC " \o ToJson([c |-> [op |-> "enc", p |-> <<a>>, w |-> w], e |-> [flat |-> Enc(a), back |-> a]]))
       ELSE Len(a) < Depth \/ PrintT("VEC " \o ToJson([c |-> [op |-> "blob", a |-> a], e |-> [steps |-> Looks(Start(3), a, 1)]]))
Check == Sound /\ Vec
=============================================================================
