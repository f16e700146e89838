------------------------------- MODULE Payload ------------------------------
(* A header followed by a payload.  v is the structure without its payload,    *)
(* dp and lp the places of the payload and of its length (sequences of         *)
(* [t = "S", s] keys and [t = "U", i] indices), p the payload bytes.           *)
EXTENDS Yaml

VBlob(b) == [t |-> "D", d |-> b]
(* every value on the way is a container of the right kind, or null, or missing *)
RECURSIVE FitsAt(_, _, _)
FitsAt(v, p, j) ==
  IF j > Len(p) \/ v.t = "N" THEN TRUE
  ELSE IF p[j].t = "S" THEN v.t = "M" /\ (MHas(v.m, p[j].s) => FitsAt(MGet(v.m, p[j].s), p, j + 1))
  ELSE v.t = "L" /\ (p[j].i < Len(v.l) => FitsAt(v.l[p[j].i + 1], p, j + 1))
RECURSIVE SetAt(_, _, _, _)
SetAt(v, p, j, x) ==
  IF j > Len(p) THEN x
  ELSE IF p[j].t = "S"
  THEN LET m == IF v.t = "M" THEN v.m ELSE <<>> IN
       VMap(MSet(m, p[j].s, SetAt(IF MHas(m, p[j].s) THEN MGet(m, p[j].s) ELSE VNull, p, j + 1, x)))
  ELSE LET l == IF v.t = "L" THEN v.l ELSE <<>>
           w == l \o Nulls(Max2(0, p[j].i + 1 - Len(l))) IN
       VList(ReplaceAt(w, p[j].i, SetAt(w[p[j].i + 1], p, j + 1, x)))
RECURSIVE GetAt(_, _, _)
GetAt(v, p, j) == IF j > Len(p) THEN v ELSE IF p[j].t = "S" THEN GetAt(MGet(v.m, p[j].s), p, j + 1) ELSE GetAt(v.l[p[j].i + 1], p, j + 1)
RECURSIVE HasAt(_, _, _)
HasAt(v, p, j) == IF j > Len(p) THEN TRUE ELSE IF p[j].t = "S" THEN v.t = "M" /\ MHas(v.m, p[j].s) /\ HasAt(MGet(v.m, p[j].s), p, j + 1)
                  ELSE v.t = "L" /\ p[j].i < Len(v.l) /\ HasAt(v.l[p[j].i + 1], p, j + 1)
(* the payload taken out: gone from a map, null in a list *)
RECURSIVE Clear(_, _, _)
Clear(v, p, j) ==
  IF p[j].t = "S"
  THEN IF j = Len(p) THEN VMap(MDel(v.m, p[j].s)) ELSE VMap(MSet(v.m, p[j].s, Clear(MGet(v.m, p[j].s), p, j + 1)))
  ELSE VList(ReplaceAt(v.l, p[j].i, IF j = Len(p) THEN VNull ELSE Clear(v.l[p[j].i + 1], p, j + 1)))
IsPrefix(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
Apart(p, q) == ~IsPrefix(p, q) /\ ~IsPrefix(q, p)

VNum(n) == NumOf("U", Dy(IF n = 0 THEN 0 ELSE 1, NFromInt(n), 0))
Header(v, has, dp, lp, p, n) ==
  SetAt(IF has THEN Clear(SetAt(v, dp, 1, VBlob(p)), dp, 1) ELSE v, lp, 1, VNum(n))
(* what is read: avail is the number of bytes after the zero byte *)
Whole(h, dp, p, n) == IF n = 0 THEN h ELSE SetAt(h, dp, 1, VBlob(SubSeq(p, 1, n)))
=============================================================================
