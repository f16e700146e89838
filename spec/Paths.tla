-------------------------------- MODULE Paths -------------------------------
(* Paths as text (Path.h): "/key", "[index]", the characters \ / [ ] escaped  *)
(* by \ inside keys, a trailing "/" ignored, "/" the identity.  A path is a    *)
(* sequence of [t = "S", s = key bytes] and [t = "U", w = decimal digits].     *)
EXTENDS Val

SLASH == 47
BSL == 92
LB == 91
RB == 93
Special == {SLASH, BSL, LB, RB}
IsDigit(c) == c >= 48 /\ c <= 57

RECURSIVE Esc(_)
Esc(s) == IF s = <<>> THEN <<>>
          ELSE (IF s[1] \in Special THEN <<BSL, s[1]>> ELSE <<s[1]>>) \o Esc(Tail(s))
RECURSIVE FormatFrom(_, _)
FormatFrom(p, j) == IF j > Len(p) THEN <<>>
                    ELSE (IF p[j].t = "S" THEN <<SLASH>> \o Esc(p[j].s) ELSE <<LB>> \o p[j].w \o <<RB>>) \o FormatFrom(p, j + 1)
Format(p) == IF p = <<>> THEN <<SLASH>> ELSE FormatFrom(p, 1)

(* a final empty key has no text of its own: a trailing "/" is ignored *)
HasText(p) == p = <<>> \/ ~(p[Len(p)].t = "S" /\ p[Len(p)].s = <<>>)

RECURSIVE StripZeros(_)
StripZeros(w) == IF Len(w) > 1 /\ w[1] = 48 THEN StripZeros(Tail(w)) ELSE w
MaxIndex == <<52, 50, 57, 52, 57, 54, 55, 50, 57, 53>>
GoodIndex(w) == /\ w # <<>> /\ \A j \in 1..Len(w) : IsDigit(w[j])
                /\ LET z == StripZeros(w) IN Len(z) < 10 \/ (Len(z) = 10 /\ CmpBytes(z, MaxIndex) <= 0)

(* reading: st is "none" (start, or after an index), "key" or "index"; loose marks texts the documentation does *)
(* not define (an unescaped ] in a key, a key without its "/" after an index, a lone \ at the end)              *)
PKey(s) == [t |-> "S", s |-> s]
PIdx(w) == [t |-> "U", w |-> StripZeros(w)]
Out(o, p, loose) == [o |-> o, p |-> p, loose |-> loose]
RECURSIVE Read(_, _, _, _, _, _)
Read(t, j, st, frag, p, loose) ==
  IF j > Len(t)
  THEN IF st = "index" THEN Out("err", <<>>, loose)
       ELSE Out("ok", IF frag = <<>> THEN p ELSE Append(p, PKey(frag)), loose)
  ELSE LET c == t[j] IN
       CASE st = "index" -> IF c # RB THEN Read(t, j + 1, st, Append(frag, c), p, loose)
                            ELSE IF GoodIndex(frag) THEN Read(t, j + 1, "none", <<>>, Append(p, PIdx(frag)), loose)
                            ELSE Out("err", <<>>, loose)
         [] st # "index" /\ c = BSL ->
              IF j = Len(t) THEN Out("ok", p, TRUE)
              ELSE Read(t, j + 2, "key", Append(frag, t[j + 1]), p, loose \/ (st = "none" /\ j > 1))
         [] st = "key" /\ c = SLASH -> Read(t, j + 1, "key", <<>>, Append(p, PKey(frag)), loose)
         [] st = "key" /\ c = LB -> Read(t, j + 1, "index", <<>>, Append(p, PKey(frag)), loose)
         [] st = "none" /\ c = SLASH -> Read(t, j + 1, "key", <<>>, p, loose)
         [] st = "none" /\ c = LB -> Read(t, j + 1, "index", <<>>, p, loose)
         [] OTHER -> Read(t, j + 1, "key", Append(frag, c), p, loose \/ c = RB \/ (st = "none" /\ j > 1))
ParseText(t) == Read(t, 1, "none", <<>>, <<>>, FALSE)
=============================================================================
