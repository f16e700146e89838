-------------------------------- MODULE Varsh -------------------------------
(* The varsh program.  What it is told, o, is a record with the optional       *)
(* fields: path (a path), set (a value), setfile, schemas (names of files),    *)
(* show ("list", "length"), flat ("flatten", "expand") with parameters P,      *)
(* in ("json", "yaml", "plist"), inputs (names of files), bad (the options     *)
(* contradict each other).  A file f has a format and either a value v or no   *)
(* document at all.                                                            *)
EXTENDS Flat, Paths

Has(r, k) == k \in DOMAIN r
VOk(v) == [o |-> "ok", v |-> v]
VFail == [o |-> "fail"]
VOpen == [o |-> "open"]

(* small indices *)
RECURSIVE IdxFrom(_, _, _)
IdxFrom(w, j, n) == IF j > Len(w) THEN n ELSE IdxFrom(w, j + 1, n * 10 + (w[j] - 48))
Idx(e) == IdxFrom(e.w, 1, 0)

RECURSIVE Look(_, _)
Look(v, p) ==
  IF p = <<>> THEN VOk(v)
  ELSE LET e == Head(p) IN
       IF e.t = "S" THEN IF IsMap(v) /\ MHas(v.m, e.s) THEN Look(MGet(v.m, e.s), Tail(p)) ELSE VFail
       ELSE IF IsList(v) /\ Idx(e) < Len(v.l) THEN Look(v.l[Idx(e) + 1], Tail(p)) ELSE VFail

(* what is missing on the way is made, lists are filled up with null *)
RECURSIVE Place(_, _, _)
Place(v, p, x) ==
  IF p = <<>> THEN VOk(x)
  ELSE LET e == Head(p) IN
       IF e.t = "S"
       THEN IF ~IsMap(v) /\ v.t # "N" THEN VFail
            ELSE LET m == IF IsMap(v) THEN v.m ELSE <<>>
                     r == Place(IF MHas(m, e.s) THEN MGet(m, e.s) ELSE VNull, Tail(p), x)
                 IN IF r.o # "ok" THEN r ELSE VOk(VMap(MSet(m, e.s, r.v)))
       ELSE IF ~IsList(v) /\ v.t # "N" THEN VFail
            ELSE LET k == Idx(e)
                     l0 == IF IsList(v) THEN v.l ELSE <<>>
                     l == IF k < Len(l0) THEN l0 ELSE l0 \o Nulls(k + 1 - Len(l0))
                     r == Place(l[k + 1], Tail(p), x)
                 IN IF r.o # "ok" THEN r ELSE VOk(VList(ReplaceAt(l, k, r.v)))

(* files *)
Found(fs, n) == {j \in 1..Len(fs) : fs[j].name = n}
(* JSON is YAML, and what looks like XML is guessed to be a property list *)
Readable(fmt, in) == CASE in = "guess" -> TRUE
                       [] in = "yaml" -> fmt \in {"json", "yaml"}
                       [] OTHER -> fmt = in
LoadAs(fs, n, in) ==
  IF Found(fs, n) = {} THEN VFail
  ELSE LET f == fs[CHOOSE j \in Found(fs, n) : TRUE] IN
       IF f.fmt = "raw" \/ ~Readable(f.fmt, in) THEN VFail
       ELSE IF in = "json" /\ ~IsContainer(f.v) THEN VFail
       ELSE VOk(f.v)

(* schemas {"type": t, "required": [k]} *)
TypeName(v) == CASE v.t = "N" -> "null" [] v.t = "B" -> "boolean" [] v.t \in {"I", "U"} -> "integer" [] v.t = "F" -> "number"
                 [] v.t = "S" -> "string" [] v.t = "L" -> "array" [] v.t = "M" -> "object"
Obeys(v, s) == /\ Has(s, "type") => TypeName(v) = s.type
               /\ (Has(s, "need") /\ IsMap(v)) => MHas(v.m, s.need)
RECURSIVE AllObey(_, _, _)
AllObey(v, ss, j) == j > Len(ss) \/ (Obeys(v, ss[j]) /\ AllObey(v, ss, j + 1))

Reshaped(o, v) == IF ~Has(o, "flat") THEN v
                  ELSE IF o.flat = "flatten" THEN Flatten(v, o.P)
                  ELSE o.orig
Acted(fs, o, v) ==
  IF Has(o, "set") THEN (IF Has(o, "path") THEN Place(v, o.path, o.set) ELSE VOk(o.set))
  ELSE IF Has(o, "setfile") THEN
    LET x == LoadAs(fs, o.setfile, "guess") IN
    IF x.o # "ok" THEN VFail ELSE IF Has(o, "path") THEN Place(v, o.path, x.v) ELSE x
  ELSE IF Has(o, "path") THEN Look(v, o.path)
  ELSE VOk(v)
Shown(o, v) ==
  IF ~Has(o, "show") THEN << <<v>> >>
  ELSE IF o.show = "list" THEN (IF IsMap(v) THEN << [j \in 1..Len(v.m) |-> v.m[j][1]] >> ELSE IF v.t = "N" THEN << <<>> >> ELSE <<>>)
  ELSE CASE IsMap(v) -> << <<DigitsOf(Len(v.m))>> >>
         [] IsList(v) -> << <<DigitsOf(Len(v.l))>> >>
         [] IsStr(v) -> << <<DigitsOf(Len(v.s))>> >>
         [] v.t = "N" -> << <<DigitsOf(0)>> >>
         [] OTHER -> <<>>
(* one input: what is written for it, or failure *)
One(fs, o, n) ==
  LET d == LoadAs(fs, n, o.in) IN
  IF d.o # "ok" THEN VFail
  ELSE LET v == Reshaped(o, d.v) IN
       IF ~AllObey(v, o.schemas, 1) THEN VFail
       ELSE LET a == Acted(fs, o, v) IN
            IF a.o # "ok" THEN VFail
            ELSE LET s == Shown(o, a.v) IN IF s = <<>> THEN VFail ELSE VOk(s[1])
RECURSIVE Inputs(_, _, _, _)
Inputs(fs, o, j, acc) ==
  IF j > Len(o.inputs) THEN [o |-> "ok", docs |-> acc]
  ELSE LET r == One(fs, o, o.inputs[j]) IN
       IF r.o # "ok" THEN [o |-> "fail", docs |-> acc] ELSE Inputs(fs, o, j + 1, acc \o r.v)
(* a file to set from that cannot be read fails before anything is written *)
Program(fs, o) ==
  IF o.bad THEN [o |-> "fail", docs |-> <<>>]
  ELSE IF Has(o, "setfile") /\ LoadAs(fs, o.setfile, "guess").o # "ok" THEN [o |-> "fail", docs |-> <<>>]
  ELSE Inputs(fs, o, 1, <<>>)
=============================================================================
