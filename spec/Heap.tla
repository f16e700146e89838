-------------------------------- MODULE Heap --------------------------------
(* Variants in memory: variables, shared containers, references and lazy     *)
(* references, and the effect of every public operation on them.             *)
(*                                                                           *)
(* A cell is a place that holds a value: a variable or an element of a       *)
(* container.  Scalars are held as in Val; a list or map is held as a        *)
(* handle [t, o] to a container object o, and several cells may hold the     *)
(* same handle (sharing).  A list object is a sequence of cells, a map       *)
(* object a sorted sequence of <<key, cell>>.                                *)
(*                                                                           *)
(* A reference is unset ("X"), bound to a cell ("D"), or lazy ("P"): a base  *)
(* cell and the path of an element that did not exist when it was taken.     *)
(* s is "live" while the cell exists, "dead" once it is gone (every use must *)
(* throw), or "maybe" where the library may or may not have kept the cell:   *)
(* when a list grows its elements may be moved, and a container that is no   *)
(* longer reachable may be kept by a lazy reference.  Through a "maybe"      *)
(* reference an operation either throws or acts on that very element.        *)
EXTENDS Val

Cells(st) == st.cells
NoRef == [k |-> "X"]
DRef(c) == [k |-> "D", c |-> c, s |-> "live"]
PRef(st, c, p) == [k |-> "P", c |-> c, p |-> p, s |-> "live",
                   h |-> IF IsContainer(st.cells[c]) THEN st.cells[c].o ELSE 0]

InitHeap(nv, nr) == [cells |-> TLCEval([j \in 1..nv |-> VNull]), objs |-> <<>>,
                     vars |-> TLCEval([j \in 1..nv |-> j]), refs |-> TLCEval([j \in 1..nr |-> NoRef])]

NewCell(st, hv) == [st |-> [st EXCEPT !.cells = Append(@, hv)], c |-> Len(st.cells) + 1]

---------------------------------------------------------------------------
(* pure value -> heap value, allocating fresh containers; and back *)
RECURSIVE Inject(_, _), InjSeq(_, _, _, _)
InjSeq(st, vs, j, cs) ==
  IF j > Len(vs) THEN [st |-> st, cs |-> cs]
  ELSE LET r == Inject(st, vs[j])
           n == NewCell(r.st, r.v)
       IN InjSeq(n.st, vs, j + 1, Append(cs, n.c))
Inject(st, v) ==
  CASE v.t = "L" -> LET r == InjSeq(st, v.l, 1, <<>>) IN
                    [st |-> [r.st EXCEPT !.objs = Append(@, [l |-> r.cs])], v |-> [t |-> "L", o |-> Len(r.st.objs) + 1]]
    [] v.t = "M" -> LET r == InjSeq(st, [j \in 1..Len(v.m) |-> v.m[j][2]], 1, <<>>) IN
                    [st |-> [r.st EXCEPT !.objs = Append(@, [m |-> TLCEval([j \in 1..Len(v.m) |-> <<v.m[j][1], r.cs[j]>>])])],
                     v |-> [t |-> "M", o |-> Len(r.st.objs) + 1]]
    [] OTHER -> [st |-> st, v |-> v]

RECURSIVE Pure(_, _)
Pure(st, hv) ==
  CASE hv.t = "L" -> LET l == st.objs[hv.o].l IN VList([j \in 1..Len(l) |-> Pure(st, st.cells[l[j]])])
    [] hv.t = "M" -> LET m == st.objs[hv.o].m IN VMap([j \in 1..Len(m) |-> <<m[j][1], Pure(st, st.cells[m[j][2]])>>])
    [] OTHER -> hv

(* what an observer sees through the variables: values with sharing; a container met again is [t |-> "R", n |-> number *)
(* of the container in order of first visit] *)
SeqIndex(s, x) == LET f == {j \in 1..Len(s) : s[j] = x} IN IF f = {} THEN 0 ELSE CHOOSE j \in f : TRUE
RECURSIVE View(_, _, _), ViewSeq(_, _, _, _, _)
ViewSeq(st, cs, j, seen, out) ==
  IF j > Len(cs) THEN [seen |-> seen, out |-> out]
  ELSE LET r == View(st, st.cells[cs[j]], seen) IN ViewSeq(st, cs, j + 1, r.seen, Append(out, r.out))
View(st, hv, seen) ==
  IF ~IsContainer(hv) THEN [seen |-> seen, out |-> hv]
  ELSE IF SeqIndex(seen, hv.o) # 0 THEN [seen |-> seen, out |-> [t |-> "R", n |-> SeqIndex(seen, hv.o)]]
  ELSE IF hv.t = "L"
       THEN LET r == ViewSeq(st, st.objs[hv.o].l, 1, Append(seen, hv.o), <<>>) IN [seen |-> r.seen, out |-> VList(r.out)]
       ELSE LET m == st.objs[hv.o].m
                r == ViewSeq(st, [j \in 1..Len(m) |-> m[j][2]], 1, Append(seen, hv.o), <<>>)
            IN [seen |-> r.seen, out |-> VMap([j \in 1..Len(m) |-> <<m[j][1], r.out[j]>>])]
Proj(st) == ViewSeq(st, st.vars, 1, <<>>, <<>>).out

---------------------------------------------------------------------------
(* reachability, liveness *)
Kids(st, hv) == CASE hv.t = "L" -> {st.objs[hv.o].l[j] : j \in 1..Len(st.objs[hv.o].l)}
                  [] hv.t = "M" -> {st.objs[hv.o].m[j][2] : j \in 1..Len(st.objs[hv.o].m)}
                  [] OTHER -> {}
RECURSIVE Closure(_, _, _)
Closure(st, new, all) ==
  IF new = {} THEN all
  ELSE LET next == UNION {Kids(st, st.cells[c]) : c \in new} \ all IN Closure(st, next, all \cup next)
Under(st, cs) == Closure(st, cs, cs)
LiveCells(st) == Under(st, {st.vars[j] : j \in DOMAIN st.vars})
ObjKids(st, o) == Kids(st, [t |-> (IF "l" \in DOMAIN st.objs[o] THEN "L" ELSE "M"), o |-> o])
HeldCells(st) == Under(st, UNION {ObjKids(st, st.refs[j].h) :
                                   j \in {n \in DOMAIN st.refs : st.refs[n].k = "P" /\ st.refs[n].h # 0}})
(* after an operation: references whose cell is gone are dead *)
Sweep(st) ==
  IF \A n \in DOMAIN st.refs : st.refs[n].k = "X" THEN st
  ELSE LET live == LiveCells(st)
           held == HeldCells(st)
       IN [st EXCEPT !.refs = TLCEval([n \in DOMAIN st.refs |->
             LET r == st.refs[n] IN
             IF r.k = "X" \/ r.s = "dead" \/ r.c \in live THEN r
             ELSE IF r.c \in held THEN [r EXCEPT !.s = "maybe"] ELSE [r EXCEPT !.s = "dead"]])]
(* elements of a list that grows may be moved *)
Moved(st, o) ==
  [st EXCEPT !.refs = TLCEval([n \in DOMAIN st.refs |->
     LET r == st.refs[n] IN
     IF r.k # "X" /\ r.s = "live" /\ \E j \in 1..Len(st.objs[o].l) : st.objs[o].l[j] = r.c
     THEN [r EXCEPT !.s = "maybe"] ELSE r])]
Cyclic(st) ==
  \E c \in LiveCells(st) : IsContainer(st.cells[c]) /\ c \in Under(st, Kids(st, st.cells[c]))

---------------------------------------------------------------------------
(* elements: e is a key [t = "S", s] or an index [t = "U", i] *)
IsKey(e) == e.t = "S"
CellFind(m, k) == LET f == {j \in 1..Len(m) : m[j][1] = k} IN IF f = {} THEN 0 ELSE m[CHOOSE j \in f : TRUE][2]
Lookup(st, c, e) ==
  LET v == st.cells[c] IN
  IF IsKey(e) THEN (IF v.t = "M" THEN CellFind(st.objs[v.o].m, e.s) ELSE 0)
  ELSE IF v.t = "L" /\ e.i < Len(st.objs[v.o].l) THEN st.objs[v.o].l[e.i + 1] ELSE 0
RECURSIVE Walk(_, _, _)
Walk(st, c, p) == IF p = <<>> THEN c
                  ELSE LET n == Lookup(st, c, p[1]) IN IF n = 0 THEN 0 ELSE Walk(st, n, Tail(p))

(* a null becomes the container its use asks for *)
AsKind(st, c, kind) ==
  LET v == st.cells[c] IN
  IF v.t = "N"
  THEN [o |-> "ok", st |-> [st EXCEPT !.objs = Append(@, IF kind = "L" THEN [l |-> <<>>] ELSE [m |-> <<>>]),
                                      !.cells = [@ EXCEPT ![c] = [t |-> kind, o |-> Len(st.objs) + 1]]]]
  ELSE [o |-> IF v.t = kind THEN "ok" ELSE "err", st |-> st]

RECURSIVE Pad(_, _, _)
Pad(st, o, n) == IF Len(st.objs[o].l) >= n THEN st
                 ELSE LET nc == NewCell(st, VNull) IN Pad([nc.st EXCEPT !.objs = [@ EXCEPT ![o].l = Append(@, nc.c)]], o, n)
InsertKey(m, k, c) == LET p == Cardinality({j \in 1..Len(m) : LexLess(m[j][1], k)})
                      IN SubSeq(m, 1, p) \o << <<k, c>> >> \o SubSeq(m, p + 1, Len(m))
TooBig(e) == ~IsKey(e) /\ e.i >= 1000000
(* create the missing element e of cell c, holding null *)
AddElem(st, c, e) ==
  LET g == AsKind(st, c, IF IsKey(e) THEN "M" ELSE "L") IN
  IF g.o # "ok" \/ TooBig(e) THEN [o |-> "err", st |-> st, c |-> 0]
  ELSE LET o == g.st.cells[c].o IN
       IF IsKey(e)
       THEN LET n == NewCell(g.st, VNull) IN
            [o |-> "ok", c |-> n.c, st |-> [n.st EXCEPT !.objs = [@ EXCEPT ![o].m = InsertKey(@, e.s, n.c)]]]
       ELSE LET s2 == Pad(Moved(g.st, o), o, e.i + 1) IN [o |-> "ok", c |-> s2.objs[o].l[e.i + 1], st |-> s2]
RECURSIVE Create(_, _, _)
Create(st, c, p) ==
  IF p = <<>> THEN [o |-> "ok", st |-> st, c |-> c]
  ELSE LET n == Lookup(st, c, p[1]) IN
       IF n # 0 THEN Create(st, n, Tail(p))
       ELSE LET g == AddElem(st, c, p[1]) IN IF g.o # "ok" THEN g ELSE Create(g.st, g.c, Tail(p))

---------------------------------------------------------------------------
(* handles: [v |-> n] a variable, [r |-> n] a reference.  Outcome ok / err / dead (must throw) / unset;        *)
(* miss: a lazy reference without its element; mb: the library may instead throw for an invalid reference      *)
IsVar(h) == "v" \in DOMAIN h
Target(st, h) ==
  IF IsVar(h) THEN [o |-> "ok", st |-> st, c |-> st.vars[h.v], mb |-> FALSE]
  ELSE LET r == st.refs[h.r] IN
       IF r.k = "X" THEN [o |-> "unset", st |-> st, c |-> 0, mb |-> FALSE]
       ELSE IF r.s = "dead" THEN [o |-> "err", st |-> st, c |-> 0, mb |-> FALSE]
       ELSE IF r.k = "D" THEN [o |-> "ok", st |-> st, c |-> r.c, mb |-> r.s = "maybe"]
       ELSE LET c == Walk(st, r.c, r.p) IN
            IF c = 0 THEN [o |-> "miss", st |-> st, c |-> 0, mb |-> r.s = "maybe"]
            ELSE [o |-> "ok", st |-> [st EXCEPT !.refs = [@ EXCEPT ![h.r] = DRef(c)]], c |-> c, mb |-> r.s = "maybe"]
ForRead(st, h) == LET t == Target(st, h) IN IF t.o = "miss" THEN [t EXCEPT !.o = "err"] ELSE t
ForWrite(st, h) ==
  LET t == Target(st, h) IN
  IF t.o # "miss" THEN t
  ELSE LET r == st.refs[h.r]
           g == Create(st, r.c, r.p)
       IN IF g.o # "ok" THEN [t EXCEPT !.o = "err"]
          ELSE [o |-> "ok", c |-> g.c, mb |-> t.mb, st |-> [g.st EXCEPT !.refs = [@ EXCEPT ![h.r] = DRef(g.c)]]]

Put(st, c, hv) == [st EXCEPT !.cells = [@ EXCEPT ![c] = hv]]

(* sources of values *)
Source(st, s) ==
  CASE s.k = "lit" -> LET r == Inject(st, s.v) IN [o |-> "ok", st |-> r.st, v |-> r.v, mb |-> FALSE]
    [] s.k \in {"h", "copy", "get"} ->
         LET t == ForRead(st, s.h) IN
         IF t.o # "ok" THEN [o |-> t.o, st |-> t.st, v |-> VNull, mb |-> t.mb]
         ELSE IF s.k = "h" THEN [o |-> "ok", st |-> t.st, v |-> t.st.cells[t.c], mb |-> t.mb]
         ELSE IF s.k = "copy"
              THEN LET r == Inject(t.st, Pure(t.st, t.st.cells[t.c])) IN [o |-> "ok", st |-> r.st, v |-> r.v, mb |-> t.mb]
         ELSE LET c == Lookup(t.st, t.c, s.e) IN
              IF c = 0 THEN [o |-> "err", st |-> t.st, v |-> VNull, mb |-> t.mb]
              ELSE [o |-> "ok", st |-> t.st, v |-> t.st.cells[c], mb |-> t.mb]

---------------------------------------------------------------------------
(* results: o, st afterwards, v the returned value (VNull if none), mb *)
Res(o, st, v, mb) == [o |-> o, st |-> Sweep(st), v |-> v, mb |-> mb]
Done(st, mb) == Res("ok", st, VNull, mb)
Ret(st, v, mb) == Res("ok", st, v, mb)
Bad(o, st, mb) == Res(IF o = "unset" THEN "skip" ELSE "err", st, VNull, mb)

Assign(st, op) ==
  LET s == Source(st, op.src) IN
  IF s.o # "ok" THEN Bad(s.o, s.st, s.mb)
  ELSE LET t == ForWrite(s.st, op.h) IN
       IF t.o # "ok" THEN Bad(t.o, t.st, s.mb \/ t.mb) ELSE Done(Put(t.st, t.c, s.v), s.mb \/ t.mb)

(* the variable is destroyed and made anew *)
NewVar(st, op) ==
  LET s == Source(st, op.src) IN
  IF s.o # "ok" THEN Bad(s.o, s.st, s.mb)
  ELSE LET n == NewCell(s.st, s.v) IN Done([n.st EXCEPT !.vars = [@ EXCEPT ![op.h.v] = n.c]], s.mb)

(* Set(e, src): element e, created if missing *)
SetElem(st, op) ==
  LET s == Source(st, op.src) IN
  IF s.o # "ok" THEN Bad(s.o, s.st, s.mb)
  ELSE LET t == ForWrite(s.st, op.h) IN
       IF t.o # "ok" THEN Bad(t.o, t.st, s.mb \/ t.mb)
       ELSE LET c == Lookup(t.st, t.c, op.e) IN
            IF c # 0 THEN Done(Put(t.st, c, s.v), s.mb \/ t.mb)
            ELSE LET g == AddElem(t.st, t.c, op.e) IN
                 IF g.o # "ok" THEN Bad("err", t.st, s.mb \/ t.mb) ELSE Done(Put(g.st, g.c, s.v), s.mb \/ t.mb)

AppendTo(st, op) ==
  LET s == Source(st, op.src) IN
  IF s.o # "ok" THEN Bad(s.o, s.st, s.mb)
  ELSE LET t == ForWrite(s.st, op.h) IN
       IF t.o # "ok" THEN Bad(t.o, t.st, s.mb \/ t.mb)
       ELSE LET g == AsKind(t.st, t.c, "L") IN
            IF g.o # "ok" THEN Bad("err", t.st, s.mb \/ t.mb)
            ELSE LET o == g.st.cells[t.c].o
                     n == NewCell(Moved(g.st, o), s.v)
                 IN Done([n.st EXCEPT !.objs = [@ EXCEPT ![o].l = Append(@, n.c)]], s.mb \/ t.mb)

(* AsList() / AsMap() on a non-constant: a null becomes that container *)
Use(st, op) ==
  LET t == ForWrite(st, op.h) IN
  IF t.o # "ok" THEN Bad(t.o, t.st, t.mb)
  ELSE LET g == AsKind(t.st, t.c, op.kind) IN IF g.o # "ok" THEN Bad("err", t.st, t.mb) ELSE Done(g.st, t.mb)

Bind(st, n, r) == [st EXCEPT !.refs = [@ EXCEPT ![n] = r]]
(* r := h.At(e): bound to the element, or lazy if it is missing *)
AtElem(st, op) ==
  LET t == Target(st, op.h) IN
  IF t.o \in {"err", "unset"} THEN Bad(t.o, t.st, t.mb)
  ELSE IF t.o = "miss"
       THEN LET r == st.refs[op.h.r] IN Done(Bind(st, op.to, PRef(st, r.c, Append(r.p, op.e))), t.mb)
  ELSE LET c == Lookup(t.st, t.c, op.e)
           v == t.st.cells[t.c]
       IN IF c # 0 THEN Done(Bind(t.st, op.to, DRef(c)), t.mb)
          ELSE IF v.t = "N" \/ v.t = (IF IsKey(op.e) THEN "M" ELSE "L")
               THEN Done(Bind(t.st, op.to, PRef(t.st, t.c, <<op.e>>)), t.mb)
               ELSE Bad("err", t.st, t.mb)
(* r := h.At(e, default): the element is created with the default if missing *)
AtDef(st, op) ==
  LET s == Source(st, op.src) IN
  IF s.o # "ok" THEN Bad(s.o, s.st, s.mb)
  ELSE LET t == ForWrite(s.st, op.h) IN
       IF t.o # "ok" THEN Bad(t.o, t.st, s.mb \/ t.mb)
       ELSE LET c == Lookup(t.st, t.c, op.e) IN
            IF c # 0 THEN Done(Bind(t.st, op.to, DRef(c)), s.mb \/ t.mb)
            ELSE LET g == AddElem(t.st, t.c, op.e) IN
                 IF g.o # "ok" THEN Bad("err", t.st, s.mb \/ t.mb)
                 ELSE Done(Bind(Put(g.st, g.c, s.v), op.to, DRef(g.c)), s.mb \/ t.mb)
(* r := VariantRef(h), and r.ReassignRef(h): a lazy reference is copied as it is *)
RefTo(st, op) ==
  IF IsVar(op.h) THEN Done(Bind(st, op.to, DRef(st.vars[op.h.v])), FALSE)
  ELSE LET r == st.refs[op.h.r] IN
       IF r.k = "X" THEN Bad("unset", st, FALSE)
       ELSE IF r.s = "dead" THEN Bad("err", st, FALSE)
       ELSE IF r.k = "D" THEN Done(Bind(st, op.to, r), r.s = "maybe")
       ELSE Done(Bind(st, op.to, [PRef(st, r.c, r.p) EXCEPT !.s = r.s]), r.s = "maybe")
Rebind(st, op) == IF st.refs[op.to].k = "X" THEN Bad("unset", st, FALSE) ELSE RefTo(st, op)
Drop(st, op) == Done(Bind(st, op.to, NoRef), FALSE)

(* constant reads *)
Read(st, op) ==
  LET t == ForRead(st, op.h) IN
  IF t.o # "ok" THEN Bad(t.o, t.st, t.mb) ELSE Ret(t.st, Pure(t.st, t.st.cells[t.c]), t.mb)
Exists(st, op) ==
  IF IsVar(op.h) THEN Ret(st, VBool(TRUE), FALSE)
  ELSE LET r == st.refs[op.h.r] IN
       IF r.k = "X" THEN Bad("unset", st, FALSE)
       ELSE Ret(st, VBool(r.s # "dead" /\ (r.k = "D" \/ Walk(st, r.c, r.p) # 0)), r.s = "maybe")
GetElem(st, op) ==
  LET t == ForRead(st, op.h) IN
  IF t.o # "ok" THEN Bad(t.o, t.st, t.mb)
  ELSE LET c == Lookup(t.st, t.c, op.e) IN
       IF c = 0 THEN Bad("err", t.st, t.mb) ELSE Ret(t.st, Pure(t.st, t.st.cells[c]), t.mb)
GetDef(st, op) ==
  LET s == Source(st, op.src) IN
  IF s.o # "ok" THEN Bad(s.o, s.st, s.mb)
  ELSE LET t == ForRead(s.st, op.h) IN
       IF t.o # "ok" THEN Bad(t.o, t.st, s.mb \/ t.mb)
       ELSE LET c == Lookup(t.st, t.c, op.e) IN
            Ret(t.st, Pure(t.st, IF c = 0 THEN s.v ELSE t.st.cells[c]), s.mb \/ t.mb)
Contains(st, op) ==
  LET t == ForRead(st, op.h) IN
  IF t.o # "ok" THEN Bad(t.o, t.st, t.mb) ELSE Ret(t.st, VBool(Lookup(t.st, t.c, op.e) # 0), t.mb)
Length(st, v) == CASE v.t = "N" -> 0
                   [] v.t = "S" -> Len(v.s)
                   [] v.t = "D" -> Len(v.d)
                   [] v.t = "L" -> Len(st.objs[v.o].l)
                   [] v.t = "M" -> Len(st.objs[v.o].m)
                   [] OTHER -> 0 - 1
Size(st, op) ==
  LET t == ForRead(st, op.h) IN
  IF t.o # "ok" THEN Bad(t.o, t.st, t.mb)
  ELSE LET n == Length(t.st, t.st.cells[t.c]) IN IF n < 0 THEN Bad("err", t.st, t.mb) ELSE Ret(t.st, VInt(n), t.mb)
Empty(st, op) ==
  LET t == ForRead(st, op.h) IN
  IF t.o # "ok" THEN Bad(t.o, t.st, t.mb)
  ELSE LET v == t.st.cells[t.c]
           n == Length(t.st, v)
       IN IF n < 0 \/ v.t = "D" THEN Bad("err", t.st, t.mb) ELSE Ret(t.st, VBool(n = 0), t.mb)
IndexOf(st, op) ==
  LET s == Source(st, op.src) IN
  IF s.o # "ok" THEN Bad(s.o, s.st, s.mb)
  ELSE LET t == ForRead(s.st, op.h) IN
       IF t.o # "ok" THEN Bad(t.o, t.st, s.mb \/ t.mb)
       ELSE LET v == t.st.cells[t.c] IN
            IF v.t # "L" THEN Bad("err", t.st, s.mb \/ t.mb)
            ELSE LET l == t.st.objs[v.o].l
                     x == Pure(t.st, s.v)
                     f == {j \in 1..Len(l) : VEq(Pure(t.st, t.st.cells[l[j]]), x)}
                 IN Ret(t.st, VInt(IF f = {} THEN Len(l) ELSE (CHOOSE j \in f : \A k \in f : j <= k) - 1), s.mb \/ t.mb)
Equal(st, op) ==
  LET t == ForRead(st, op.h) IN
  IF t.o # "ok" THEN Bad(t.o, t.st, t.mb)
  ELSE LET u == ForRead(t.st, op.h2) IN
       IF u.o # "ok" THEN Bad(u.o, u.st, t.mb \/ u.mb)
       ELSE Ret(u.st, VBool(VEq(Pure(u.st, u.st.cells[t.c]), Pure(u.st, u.st.cells[u.c]))), t.mb \/ u.mb)

(* in-place changes of an existing value *)
Clear(st, op) ==
  LET t == ForRead(st, op.h) IN
  IF t.o # "ok" THEN Bad(t.o, t.st, t.mb)
  ELSE LET v == t.st.cells[t.c] IN
       CASE v.t = "S" -> Done(Put(t.st, t.c, VStr(<<>>)), t.mb)
         [] v.t = "L" -> Done([t.st EXCEPT !.objs = [@ EXCEPT ![v.o].l = <<>>]], t.mb)
         [] v.t = "M" -> Done([t.st EXCEPT !.objs = [@ EXCEPT ![v.o].m = <<>>]], t.mb)
         [] OTHER -> Done(Put(t.st, t.c, VNull), t.mb)
EraseAt(st, c, e) ==   \* [o, st]
  LET v == st.cells[c] IN
  IF v.t = "N" THEN [o |-> "ok", st |-> st]
  ELSE IF v.t # (IF IsKey(e) THEN "M" ELSE "L") THEN [o |-> "err", st |-> st]
  ELSE IF IsKey(e)
       THEN [o |-> "ok", st |-> [st EXCEPT !.objs = [@ EXCEPT ![v.o].m = SelectSeq(@, LAMBDA x : x[1] # e.s)]]]
       ELSE LET l == st.objs[v.o].l IN
            IF e.i >= Len(l) THEN [o |-> "ok", st |-> st]
            ELSE IF e.i + 1 = Len(l) THEN [o |-> "ok", st |-> [st EXCEPT !.objs = [@ EXCEPT ![v.o].l = SubSeq(l, 1, e.i)]]]
            ELSE [o |-> "ok", st |-> Put(st, l[e.i + 1], VNull)]
Erase(st, op) ==
  LET t == ForRead(st, op.h) IN
  IF t.o # "ok" THEN Bad(t.o, t.st, t.mb)
  ELSE LET g == EraseAt(t.st, t.c, op.e) IN IF g.o # "ok" THEN Bad("err", t.st, t.mb) ELSE Done(g.st, t.mb)
RECURSIVE MergeFrom(_, _, _, _)
MergeFrom(st, c, m, j) ==   \* [o, st]: the first refused store stops it
  IF j > Len(m) THEN [o |-> "ok", st |-> st]
  ELSE LET d == Lookup(st, c, [t |-> "S", s |-> m[j][1]])
           hv == st.cells[m[j][2]]
       IN IF d # 0 THEN MergeFrom(Put(st, d, hv), c, m, j + 1)
          ELSE LET g == AddElem(st, c, [t |-> "S", s |-> m[j][1]]) IN
               IF g.o # "ok" THEN [o |-> "err", st |-> st] ELSE MergeFrom(Put(g.st, g.c, hv), c, m, j + 1)
Merge(st, op) ==
  LET s == Source(st, op.src) IN
  IF s.o # "ok" THEN Bad(s.o, s.st, s.mb)
  ELSE IF s.v.t \notin {"M", "N"} THEN Bad("err", s.st, s.mb)
  ELSE IF s.v.t = "N" \/ s.st.objs[s.v.o].m = <<>>
       THEN (IF ~IsVar(op.h) /\ st.refs[op.h.r].k = "X" THEN Bad("unset", s.st, s.mb) ELSE Done(s.st, s.mb))
  ELSE LET t == ForWrite(s.st, op.h) IN
       IF t.o # "ok" THEN Bad(t.o, t.st, s.mb \/ t.mb)
       ELSE LET g == MergeFrom(t.st, t.c, t.st.objs[s.v.o].m, 1) IN
            IF g.o # "ok" THEN Bad("err", t.st, s.mb \/ t.mb) ELSE Done(g.st, s.mb \/ t.mb)
Incr(st, op) ==
  LET t == ForRead(st, op.h) IN
  IF t.o # "ok" THEN Bad(t.o, t.st, t.mb)
  ELSE LET v == t.st.cells[t.c] IN
       CASE v.t \in {"I", "U"} -> Done(Put(t.st, t.c, [v EXCEPT !.i = @ + op.by]), t.mb)
         [] v.t = "F" -> Done(Put(t.st, t.c, [v EXCEPT !.q = @ + (1024 * op.by)]), t.mb)
         [] OTHER -> Bad("err", t.st, t.mb)

(* Resolve(default): a null or missing value becomes the default *)
ResDef(st, op) ==
  LET s == Source(st, op.src) IN
  IF s.o # "ok" THEN Bad(s.o, s.st, s.mb)
  ELSE LET t == ForWrite(s.st, op.h) IN
       IF t.o # "ok" THEN Bad(t.o, t.st, s.mb \/ t.mb)
       ELSE LET g == IF t.st.cells[t.c].t = "N" THEN Put(t.st, t.c, s.v) ELSE t.st
            IN Done(g, s.mb \/ t.mb)

---------------------------------------------------------------------------
(* paths *)
HasPath(st, op) ==
  LET t == ForRead(st, op.h) IN
  IF t.o # "ok" THEN Bad(t.o, t.st, t.mb) ELSE Ret(t.st, VBool(Walk(t.st, t.c, op.p) # 0), t.mb)
GetPath(st, op) ==
  LET t == ForRead(st, op.h) IN
  IF t.o # "ok" THEN Bad(t.o, t.st, t.mb)
  ELSE LET c == Walk(t.st, t.c, op.p) IN
       IF c = 0 THEN Bad("err", t.st, t.mb) ELSE Ret(t.st, Pure(t.st, t.st.cells[c]), t.mb)
GetPathDef(st, op) ==
  LET s == Source(st, op.src) IN
  IF s.o # "ok" THEN Bad(s.o, s.st, s.mb)
  ELSE LET t == ForRead(s.st, op.h) IN
       IF t.o # "ok" THEN Bad(t.o, t.st, s.mb \/ t.mb)
       ELSE LET c == Walk(t.st, t.c, op.p) IN
            Ret(t.st, Pure(t.st, IF c = 0 THEN s.v ELSE t.st.cells[c]), s.mb \/ t.mb)
SetPath(st, op) ==
  LET s == Source(st, op.src) IN
  IF s.o # "ok" THEN Bad(s.o, s.st, s.mb)
  ELSE LET t == ForWrite(s.st, op.h) IN
       IF t.o # "ok" THEN Bad(t.o, t.st, s.mb \/ t.mb)
       ELSE LET g == Create(t.st, t.c, op.p) IN
            IF g.o # "ok" THEN Bad("err", t.st, s.mb \/ t.mb) ELSE Done(Put(g.st, g.c, s.v), s.mb \/ t.mb)
RECURSIVE FirstMissing(_, _, _)
FirstMissing(st, c, p) == IF p = <<>> THEN [c |-> c, p |-> p]
                          ELSE LET n == Lookup(st, c, p[1]) IN
                               IF n = 0 THEN [c |-> c, p |-> p] ELSE FirstMissing(st, n, Tail(p))
AtPath(st, op) ==
  LET t == Target(st, op.h) IN
  IF t.o \in {"err", "unset"} THEN Bad(t.o, t.st, t.mb)
  ELSE IF t.o = "miss"
       THEN LET r == st.refs[op.h.r] IN Done(Bind(st, op.to, PRef(st, r.c, r.p \o op.p)), t.mb)
  ELSE LET f == FirstMissing(t.st, t.c, op.p) IN
       IF f.p = <<>> THEN Done(Bind(t.st, op.to, DRef(f.c)), t.mb)
       ELSE Done(Bind(t.st, op.to, PRef(t.st, f.c, f.p)), t.mb)
AtPathDef(st, op) ==
  IF op.p = <<>>      \* the value itself; a lazy reference stays lazy
  THEN LET s == Source(st, op.src) IN
       IF s.o # "ok" THEN Bad(s.o, s.st, s.mb)
       ELSE LET r == RefTo(s.st, op) IN [r EXCEPT !.mb = @ \/ s.mb]
  ELSE
  LET s == Source(st, op.src) IN
  IF s.o # "ok" THEN Bad(s.o, s.st, s.mb)
  ELSE LET t == ForWrite(s.st, op.h) IN
       IF t.o # "ok" THEN Bad(t.o, t.st, s.mb \/ t.mb)
       ELSE LET c == Walk(t.st, t.c, op.p) IN
            IF c # 0 THEN Done(Bind(t.st, op.to, DRef(c)), s.mb \/ t.mb)
            ELSE LET g == Create(t.st, t.c, op.p) IN
                 IF g.o # "ok" THEN Bad("err", t.st, s.mb \/ t.mb)
                 ELSE Done(Bind(Put(g.st, g.c, s.v), op.to, DRef(g.c)), s.mb \/ t.mb)
(* removes the element; with prune also the containers on the path that are empty then *)
RECURSIVE ErasePathAt(_, _, _, _)
ErasePathAt(st, c, p, prune) ==   \* [o, st]
  IF p = <<>> THEN [o |-> "ok", st |-> st]
  ELSE IF Len(p) = 1 THEN EraseAt(st, c, p[1])
  ELSE LET n == Lookup(st, c, p[1]) IN
       IF n = 0 THEN [o |-> "ok", st |-> st]
       ELSE LET g == ErasePathAt(st, n, Tail(p), prune) IN
            IF g.o # "ok" \/ ~prune THEN g
            ELSE IF IsContainer(g.st.cells[n]) /\ Length(g.st, g.st.cells[n]) = 0 THEN EraseAt(g.st, c, p[1]) ELSE g
ErasePath(st, op) ==
  LET t == ForRead(st, op.h) IN
  IF Target(st, op.h).o = "miss" \/ (op.p = <<>> /\ t.o = "err") THEN [Bad("err", st, t.mb) EXCEPT !.o = "either"] ELSE
  IF t.o # "ok" THEN Bad(t.o, t.st, t.mb)
  ELSE LET g == ErasePathAt(t.st, t.c, op.p, op.prune) IN
       IF g.o = "err" THEN Bad("err", t.st, t.mb)
       ELSE Done(g.st, t.mb)

---------------------------------------------------------------------------
(* an operation that names an unset reference is not performed *)
IsUnset(st, h) == ~IsVar(h) /\ st.refs[h.r].k = "X"
Unset(st, op) == \/ "h" \in DOMAIN op /\ IsUnset(st, op.h)
                 \/ "h2" \in DOMAIN op /\ IsUnset(st, op.h2)
                 \/ "src" \in DOMAIN op /\ op.src.k # "lit" /\ IsUnset(st, op.src.h)
                 \/ op.f = "rebind" /\ st.refs[op.to].k = "X"
Exec(st, op) ==
  IF Unset(st, op) THEN Res("skip", st, VNull, FALSE) ELSE
  CASE op.f = "assign" -> Assign(st, op)
    [] op.f = "newvar" -> NewVar(st, op)
    [] op.f = "set" -> SetElem(st, op)
    [] op.f = "append" -> AppendTo(st, op)
    [] op.f = "use" -> Use(st, op)
    [] op.f = "at" -> AtElem(st, op)
    [] op.f = "atdef" -> AtDef(st, op)
    [] op.f = "ref" -> RefTo(st, op)
    [] op.f = "rebind" -> Rebind(st, op)
    [] op.f = "drop" -> Drop(st, op)
    [] op.f = "read" -> Read(st, op)
    [] op.f = "exists" -> Exists(st, op)
    [] op.f = "get" -> GetElem(st, op)
    [] op.f = "getdef" -> GetDef(st, op)
    [] op.f = "contains" -> Contains(st, op)
    [] op.f = "size" -> Size(st, op)
    [] op.f = "empty" -> Empty(st, op)
    [] op.f = "index" -> IndexOf(st, op)
    [] op.f = "equal" -> Equal(st, op)
    [] op.f = "clear" -> Clear(st, op)
    [] op.f = "erase" -> Erase(st, op)
    [] op.f = "merge" -> Merge(st, op)
    [] op.f = "incr" -> Incr(st, op)
    [] op.f = "resdef" -> ResDef(st, op)
    [] op.f = "haspath" -> HasPath(st, op)
    [] op.f = "getpath" -> GetPath(st, op)
    [] op.f = "getpathdef" -> GetPathDef(st, op)
    [] op.f = "setpath" -> SetPath(st, op)
    [] op.f = "atpath" -> AtPath(st, op)
    [] op.f = "atpathdef" -> AtPathDef(st, op)
    [] op.f = "erasepath" -> ErasePath(st, op)

(* recorded outcome [o, k, v] against a result *)
Matches(r, ev) ==
  \/ r.o = "ok" /\ ev.o = "ok" /\ ("v" \in DOMAIN ev => ev.v = r.v)
  \/ r.o = "err" /\ ev.o = "err"
  \/ r.o = "skip" /\ ev.o = "skip"
  \/ r.o = "either" /\ ev.o \in {"ok", "err"}
Refused(r, ev, op) == r.mb /\ ((ev.o = "err" /\ ev.k = "badref") \/ (op.f = "exists" /\ ev.o = "ok" /\ ev.v = VBool(FALSE)))
=============================================================================
