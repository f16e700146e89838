------------------------------- MODULE Patch -------------------------------
(* JSON Pointer (RFC 6901) and JSON Patch (RFC 6902) on values.             *)
EXTENDS Val

Slash == 47
Tilde == 126
Dash == <<45>>

Fail == [ok |-> FALSE]
Good(v) == [ok |-> TRUE, v |-> v]

---------------------------------------------------------------------------
(* pointer text -> reference tokens *)
RECURSIVE Unescape(_)
Unescape(s) ==
  IF s = <<>> THEN <<>>
  ELSE IF s[1] = Tilde /\ Len(s) > 1 /\ s[2] = 48 THEN <<Tilde>> \o Unescape(SubSeq(s, 3, Len(s)))
  ELSE IF s[1] = Tilde /\ Len(s) > 1 /\ s[2] = 49 THEN <<Slash>> \o Unescape(SubSeq(s, 3, Len(s)))
  ELSE <<s[1]>> \o Unescape(Tail(s))

RECURSIVE Escape(_)
Escape(s) ==
  IF s = <<>> THEN <<>>
  ELSE (IF s[1] = Tilde THEN <<Tilde, 48>> ELSE IF s[1] = Slash THEN <<Tilde, 49>> ELSE <<s[1]>>)
       \o Escape(Tail(s))

RECURSIVE SplitSlash(_, _)
SplitSlash(s, acc) ==   \* s: text after a slash; acc: token so far
  IF s = <<>> THEN <<acc>>
  ELSE IF s[1] = Slash THEN <<acc>> \o SplitSlash(Tail(s), <<>>)
  ELSE SplitSlash(Tail(s), Append(acc, s[1]))

Tokens(p) ==
  IF p = <<>> THEN Good(<<>>)
  ELSE IF p[1] # Slash THEN Fail
  ELSE LET raw == SplitSlash(Tail(p), <<>>) IN Good([j \in 1..Len(raw) |-> Unescape(raw[j])])

RECURSIVE Pointer(_)
Pointer(toks) == IF toks = <<>> THEN <<>> ELSE <<Slash>> \o Escape(toks[1]) \o Pointer(Tail(toks))

IsDigit(c) == c >= 48 /\ c <= 57
RECURSIVE Dec(_, _)
Dec(s, acc) == IF s = <<>> THEN acc ELSE Dec(Tail(s), acc * 10 + (s[1] - 48))
Huge == 1000000
(* array index: digits without leading zeros *)
Index(tok) ==
  IF tok = <<>> \/ \E j \in 1..Len(tok) : ~IsDigit(tok[j]) THEN Fail
  ELSE IF Len(tok) > 1 /\ tok[1] = 48 THEN Fail
  ELSE Good(IF Len(tok) > 6 THEN Huge ELSE Dec(tok, 0))

---------------------------------------------------------------------------
(* child access by token *)
Child(v, tok) ==
  CASE IsMap(v) -> IF MHas(v.m, tok) THEN Good(MGet(v.m, tok)) ELSE Fail
    [] IsList(v) -> LET i == Index(tok) IN
                    IF i.ok /\ i.v < Len(v.l) THEN Good(v.l[i.v + 1]) ELSE Fail
    [] OTHER -> Fail
SetChild(v, tok, c) ==
  IF IsMap(v) THEN VMap(MSet(v.m, tok, c)) ELSE VList(ReplaceAt(v.l, Index(tok).v, c))

RECURSIVE Get(_, _)
Get(v, toks) ==
  IF toks = <<>> THEN Good(v)
  ELSE LET c == Child(v, toks[1]) IN IF c.ok THEN Get(c.v, Tail(toks)) ELSE Fail

(* apply a local edit at the parent of the last token *)
AddHere(v, tok, val) ==
  CASE IsMap(v) -> Good(VMap(MSet(v.m, tok, val)))
    [] IsList(v) -> IF tok = Dash THEN Good(VList(Append(v.l, val)))
                    ELSE LET i == Index(tok) IN
                         IF i.ok /\ i.v <= Len(v.l) THEN Good(VList(InsertAt(v.l, i.v, val))) ELSE Fail
    [] OTHER -> Fail
RemoveHere(v, tok) ==
  CASE IsMap(v) -> IF MHas(v.m, tok) THEN Good(VMap(MDel(v.m, tok))) ELSE Fail
    [] IsList(v) -> LET i == Index(tok) IN
                    IF i.ok /\ i.v < Len(v.l) THEN Good(VList(RemoveAt(v.l, i.v))) ELSE Fail
    [] OTHER -> Fail
ReplaceHere(v, tok, val) ==
  IF Child(v, tok).ok THEN Good(SetChild(v, tok, val)) ELSE Fail

Edit(kind, v, tok, val) ==
  CASE kind = "add" -> AddHere(v, tok, val)
    [] kind = "remove" -> RemoveHere(v, tok)
    [] kind = "replace" -> ReplaceHere(v, tok, val)

RECURSIVE At(_, _, _, _)
At(kind, v, toks, val) ==
  IF toks = <<>> THEN Good(IF kind = "remove" THEN VNull ELSE val)
  ELSE IF Len(toks) = 1 THEN Edit(kind, v, toks[1], val)
  ELSE LET c == Child(v, toks[1]) IN
       IF ~c.ok THEN Fail
       ELSE LET r == At(kind, c.v, Tail(toks), val) IN
            IF r.ok THEN Good(SetChild(v, toks[1], r.v)) ELSE Fail

IsProperPrefix(a, b) == Len(a) < Len(b) /\ SubSeq(b, 1, Len(a)) = a

Move(v, from, to) ==
  IF IsProperPrefix(from, to) THEN Fail
  ELSE LET g == Get(v, from) IN
  IF ~g.ok THEN Fail
  ELSE LET r == At("remove", v, from, VNull) IN
       IF ~r.ok THEN Fail ELSE At("add", r.v, to, g.v)
Copy(v, from, to) ==
  LET g == Get(v, from) IN IF ~g.ok THEN Fail ELSE At("add", v, to, g.v)

---------------------------------------------------------------------------
(* the pointer calls: [ok, v] with v the document afterwards *)
PtrCall(c) ==
  LET p == Tokens(c.p) IN
  IF ~p.ok THEN Fail
  ELSE CASE c.fn = "get" -> Get(c.doc, p.v)
         [] c.fn \in {"add", "replace"} -> At(c.fn, c.doc, p.v, c.val)
         [] c.fn = "remove" -> At("remove", c.doc, p.v, VNull)
         [] c.fn \in {"move", "copy"} ->
              LET f == Tokens(c.from) IN
              IF ~f.ok THEN Fail
              ELSE IF c.fn = "move" THEN Move(c.doc, f.v, p.v) ELSE Copy(c.doc, f.v, p.v)

---------------------------------------------------------------------------
(* patch documents *)
kOp == <<111, 112>>
kPath == <<112, 97, 116, 104>>
kFrom == <<102, 114, 111, 109>>
kValue == <<118, 97, 108, 117, 101>>
nAdd == <<97, 100, 100>>
nRemove == <<114, 101, 109, 111, 118, 101>>
nReplace == <<114, 101, 112, 108, 97, 99, 101>>
nMove == <<109, 111, 118, 101>>
nCopy == <<99, 111, 112, 121>>
nTest == <<116, 101, 115, 116>>

StrMember(o, k) == IsMap(o) /\ MHas(o.m, k) /\ IsStr(MGet(o.m, k))
Step(doc, o) ==
  IF ~StrMember(o, kOp) \/ ~StrMember(o, kPath) THEN Fail
  ELSE LET op == MGet(o.m, kOp).s
           p == Tokens(MGet(o.m, kPath).s)
           hasVal == MHas(o.m, kValue)
           hasFrom == StrMember(o, kFrom)
       IN IF ~p.ok THEN Fail
          ELSE CASE op = nAdd -> IF hasVal THEN At("add", doc, p.v, MGet(o.m, kValue)) ELSE Fail
                 [] op = nReplace -> IF hasVal THEN At("replace", doc, p.v, MGet(o.m, kValue)) ELSE Fail
                 [] op = nRemove -> At("remove", doc, p.v, VNull)
                 [] op = nTest -> IF ~hasVal THEN Fail
                                  ELSE LET g == Get(doc, p.v) IN
                                       IF g.ok /\ VEq(g.v, MGet(o.m, kValue)) THEN Good(doc) ELSE Fail
                 [] op \in {nMove, nCopy} ->
                      IF ~hasFrom THEN Fail
                      ELSE LET f == Tokens(MGet(o.m, kFrom).s) IN
                           IF ~f.ok THEN Fail
                           ELSE IF op = nMove THEN Move(doc, f.v, p.v) ELSE Copy(doc, f.v, p.v)
                 [] OTHER -> Fail

RECURSIVE Steps(_, _)
Steps(doc, ops) ==
  IF ops = <<>> THEN Good(doc)
  ELSE LET r == Step(doc, ops[1]) IN IF r.ok THEN Steps(r.v, Tail(ops)) ELSE Fail
Apply(doc, patch) == IF IsList(patch) THEN Steps(doc, patch.l) ELSE Step(doc, patch)
(* all-or-nothing *)
After(doc, patch) == LET r == Apply(doc, patch) IN IF r.ok THEN r.v ELSE doc
=============================================================================
