------------------------------- MODULE MCHeap -------------------------------
(* Bounded exploration of the Heap specification.  From prepared structures    *)
(* every sequence of up to DEPTH operations of the chosen profile is explored  *)
(* (states equal up to naming of cells are merged); every step is checked      *)
(* against the properties below, and every step becomes a test vector: the     *)
(* operations that lead there, the expected outcome and the expected view.     *)
EXTENDS Heap, Json, IOUtils
VARIABLES st, hist, open

Profile == IOEnv.PROFILE
Depth == CHOOSE n \in 1..9 : ToString(n) = IOEnv.DEPTH
NV == 2
NR == 2

ka == [t |-> "S", s |-> <<97>>]
kb == [t |-> "S", s |-> <<98>>]
x0 == [t |-> "U", i |-> 0]
x1 == [t |-> "U", i |-> 1]
x2 == [t |-> "U", i |-> 2]
v1 == [v |-> 1]
v2 == [v |-> 2]
r1 == [r |-> 1]
r2 == [r |-> 2]
Lit(v) == [k |-> "lit", v |-> v]
Of(h) == [k |-> "h", h |-> h]
CopyOf(h) == [k |-> "copy", h |-> h]
GetOf(h, e) == [k |-> "get", h |-> h, e |-> e]
A(f, h) == [f |-> f, h |-> h]
AS(f, h, s) == [f |-> f, h |-> h, src |-> s]
AE(f, h, e) == [f |-> f, h |-> h, e |-> e]
AES(f, h, e, s) == [f |-> f, h |-> h, e |-> e, src |-> s]
ATo(f, n, h) == [f |-> f, to |-> n, h |-> h]
AToE(f, n, h, e) == [f |-> f, to |-> n, h |-> h, e |-> e]
AP(f, h, p) == [f |-> f, h |-> h, p |-> p]

i1 == VInt(1)
sx == VStr(<<120>>)
m1 == VMap(<< <<<<97>>, i1>> >>)
mm == VMap(<< <<<<97>>, m1>>, <<<<98>>, sx>> >>)
ll == VList(<<i1, VList(<<sx>>), VNull>>)

(* prepared structures *)
Start ==
  CASE Profile = "share" ->
        { << AS("assign", v1, Lit(mm)), AS("assign", v2, GetOf(v1, ka)) >>,
          << AS("assign", v1, Lit(ll)), AES("set", v2, ka, Of(v1)) >>,
          << AS("assign", v1, Lit(sx)), AS("assign", v2, Of(v1)) >> }
    [] Profile = "types" ->
        { <<>>, << AS("assign", v1, Lit(i1)) >>, << AS("assign", v1, Lit(sx)) >>, << AS("assign", v1, Lit(VBool(TRUE))) >>,
          << AS("assign", v1, Lit(VFlt(1536))) >>, << AS("assign", v1, Lit(VUns(3))) >>, << AS("assign", v1, Lit([t |-> "D", d |-> <<0>>])) >>,
          << AS("assign", v1, Lit(VList(<<i1>>))) >>, << AS("assign", v1, Lit(m1)) >> }
    [] Profile = "refs" ->
        { << AS("assign", v1, Lit(mm)), AToE("at", 1, v1, ka) >>,
          << AS("assign", v1, Lit(ll)), AToE("at", 1, v1, x1) >>,
          << AS("assign", v1, Lit(VList(<<i1, sx>>))), AToE("at", 1, v1, x1), AToE("at", 2, v1, x0) >>,
          << AToE("at", 1, v1, ka), AToE("at", 2, r1, x1) >>,
          << AS("assign", v1, Lit(m1)), AToE("at", 1, v1, kb), AToE("at", 2, r1, ka) >>,
          << ATo("ref", 1, v1), ATo("ref", 2, r1) >> }
    [] Profile = "elems" ->
        { <<>>, << AS("assign", v1, Lit(ll)), AS("assign", v2, Lit(mm)) >>,
          << AS("assign", v1, Lit(VList(<<>>))), AS("assign", v2, Lit(VMap(<<>>))) >>,
          << AS("assign", v1, Lit(VList(<<i1, sx, i1>>))), AS("assign", v2, Lit(VMap(<< <<<<>>, sx>>, <<<<97>>, i1>>, <<<<97, 98>>, VNull>> >>))) >> }
    [] Profile = "paths" ->
        { <<>>, << AS("assign", v1, Lit(mm)) >>, << AS("assign", v1, Lit(ll)) >>,
          << AS("assign", v1, Lit(VMap(<< <<<<97>>, VList(<<VMap(<< <<<<98>>, i1>> >>)>>)>> >>))) >>,
          << AS("assign", v1, Lit(VList(<<VMap(<< <<<<97>>, VList(<<i1>>)>> >>)>>))) >> }

Set0(S, T) == {<<a, b>> : a \in S, b \in T}
Refs(s) == {n \in 1..NR : s.refs[n].k # "X"}
Hs(s) == {v1, v2} \cup {[r |-> n] : n \in Refs(s)}
Ops(s) ==
  CASE Profile = "share" ->
        {AS("assign", h, x) : h \in {v1, v2}, x \in {Of(v1), Of(v2), CopyOf(v1), CopyOf(v2), Lit(VList(<<>>)), Lit(i1), GetOf(v1, ka), GetOf(v1, x1), GetOf(v2, ka)}}
        \cup {AES("set", h, e, x) : h \in {v1, v2}, e \in {ka, x1}, x \in {Of(v1), Of(v2), CopyOf(v1), CopyOf(v2), Lit(sx)}}
        \cup {AS("append", h, x) : h \in {v1, v2}, x \in {Of(v1), Of(v2), CopyOf(v2), Lit(i1)}}
        \cup {A("clear", h) : h \in {v1, v2}} \cup {AE("erase", h, e) : h \in {v1, v2}, e \in {ka, x1}}
        \cup {AS("merge", h, x) : h \in {v1, v2}, x \in {Of(v1), Of(v2), CopyOf(v1)}}
        \cup {AS("newvar", h, x) : h \in {v1, v2}, x \in {Lit(VNull), Of(v1), CopyOf(v2)}}
        \cup {[f |-> "equal", h |-> v1, h2 |-> v2], [f |-> "incr", h |-> v1, by |-> 1]}
        \cup {AS("resdef", v2, Of(v1))}
    [] Profile = "types" ->
        LET H == {v1} \cup {[r |-> n] : n \in Refs(s)} IN
        {A(f, h) : f \in {"clear", "size", "empty", "read", "exists"}, h \in H}
        \cup {AS(f, h, x) : f \in {"assign", "append", "merge", "index", "resdef"}, h \in H, x \in {Lit(i1), Lit(m1), Of(v2)}}
        \cup {AES(f, h, e, Lit(sx)) : f \in {"set", "getdef"}, h \in H, e \in {ka, x0, x2}}
        \cup {AE(f, h, e) : f \in {"get", "contains", "erase"}, h \in H, e \in {ka, x0, x2}}
        \cup {[f |-> "use", h |-> h, kind |-> k] : h \in H, k \in {"L", "M"}}
        \cup {[f |-> "incr", h |-> h, by |-> b] : h \in H, b \in {1, 0 - 1}}
        \cup {AToE("at", 1, v1, e) : e \in {ka, x0, x1}}
        \cup {[f |-> "atdef", to |-> 1, h |-> h, e |-> e, src |-> Lit(i1)] : h \in H, e \in {ka, x1}}
        \cup {[f |-> "setpath", h |-> h, p |-> p, src |-> Lit(sx)] : h \in H, p \in {<<ka, x1>>, <<x0, ka>>, <<ka>>, <<>>}}
        \cup {[f |-> "atpathdef", to |-> 1, h |-> h, p |-> p, src |-> Lit(sx)] : h \in H, p \in {<<ka, x1>>, <<x0>>}}
        \cup {[f |-> "erasepath", h |-> h, p |-> p, prune |-> b] : h \in H, p \in {<<ka, x1>>, <<x0>>, <<ka>>}, b \in BOOLEAN}
        \cup {[f |-> "getpathdef", h |-> h, p |-> p, src |-> Lit(sx)] : h \in H, p \in {<<ka, x1>>, <<x0>>, <<ka>>}}
        \cup {AP(f, h, p) : f \in {"getpath", "haspath"}, h \in H, p \in {<<ka, x1>>, <<x0>>, <<ka>>, <<>>}}
    [] Profile = "refs" ->
        LET H == {[r |-> n] : n \in Refs(s)} IN
        {A(f, h) : f \in {"read", "exists", "clear"}, h \in H}
        \cup {AS("assign", h, x) : h \in H, x \in {Lit(i1), Lit(m1), Of(r1), Of(r2), Of(v1)}}
        \cup {AS("assign", v1, x) : x \in {Lit(VNull), Lit(m1), Of(r1)}} \cup {AS("newvar", v1, x) : x \in {Lit(VNull), Of(v1), Lit(m1)}}
        \cup {AS("assign", v2, x) : x \in {Of(v1), Of(r1)}}
        \cup {AES("set", h, e, Lit(i1)) : h \in {v1, r1}, e \in {ka, x0, x2}}
        \cup {AE("erase", h, e) : h \in {v1, r1}, e \in {ka, kb, x0, x1, x2}} \cup {AS("append", h, Lit(i1)) : h \in {v1, r1}} \cup {A("clear", v1)}
        \cup {AToE("at", n, h, e) : n \in {1, 2}, h \in {v1, r1, r2}, e \in {ka, x1}}
        \cup {ATo(f, n, h) : f \in {"ref", "rebind"}, n \in {1, 2}, h \in {v1, r1, r2}} \cup {[f |-> "drop", to |-> 1]}
        \cup {[f |-> "atdef", to |-> 2, h |-> h, e |-> e, src |-> Lit(i1)] : h \in {v1, r1}, e \in {ka, x2}}
        \cup {AE("contains", h, ka) : h \in H} \cup {A("size", r1)}
        \cup {[f |-> "atpath", to |-> 2, h |-> h, p |-> p] : h \in {v1, r1}, p \in {<<ka, kb>>, <<x0, x1>>, <<>>}}
    [] Profile = "elems" ->
        {AES(f, h, e, x) : f \in {"set", "getdef"}, h \in {v1, v2}, e \in {ka, kb, x0, x1, x2}, x \in {Lit(i1), Lit(VNull)}}
        \cup {AE(f, h, e) : f \in {"get", "contains", "erase"}, h \in {v1, v2}, e \in {ka, kb, [t |-> "S", s |-> <<>>], x0, x1, x2}}
        \cup {AS("append", h, x) : h \in {v1, v2}, x \in {Lit(i1), Lit(m1)}} \cup {AS("index", h, x) : h \in {v1, v2}, x \in {Lit(i1), Lit(VNull), Lit(VFlt(1024)), Lit(sx)}}
        \cup {A(f, h) : f \in {"size", "empty", "clear", "read"}, h \in {v1, v2}}
        \cup {AS("merge", v2, x) : x \in {Lit(mm), Of(v1), Lit(VMap(<<>>))}} \cup {AS("merge", v1, Of(v2))}
        \cup {[f |-> "equal", h |-> v1, h2 |-> v2]}
    [] Profile = "paths" ->
        LET P == {<<>>, <<ka>>, <<kb>>, <<ka, kb>>, <<ka, x0>>, <<ka, x0, kb>>, <<x0>>, <<x1>>, <<x0, ka>>, <<x0, ka, x1>>, <<x2, x0>>, <<x1, x0>>} IN
        {AP(f, v1, p) : f \in {"getpath", "haspath"}, p \in P}
        \cup {[f |-> f, h |-> v1, p |-> p, src |-> x] : f \in {"setpath", "getpathdef"}, p \in P, x \in {Lit(i1), Lit(VMap(<<>>))}}
        \cup {[f |-> "erasepath", h |-> v1, p |-> p, prune |-> b] : p \in P, b \in BOOLEAN}
        \cup {[f |-> "atpath", to |-> 1, h |-> v1, p |-> p] : p \in P}
        \cup {[f |-> "atpathdef", to |-> 1, h |-> v1, p |-> p, src |-> Lit(sx)] : p \in P}
        \cup (IF 1 \in Refs(s) THEN {AS("assign", r1, Lit(i1)), A("read", r1), A("exists", r1)} ELSE {})

---------------------------------------------------------------------------
(* what must hold of every step of the specification *)
Reading == {"read", "exists", "get", "getdef", "contains", "size", "empty", "index", "equal", "at", "ref", "rebind", "drop",
            "atpath", "haspath", "getpath", "getpathdef"}
Storing == {"assign", "set", "setpath", "merge", "clear", "erase", "erasepath", "newvar", "atdef", "atpathdef", "resdef"}
StepOK(pre, op, r) ==
  LET live == LiveCells(pre) \cap LiveCells(r.st) IN
  /\ (r.o # "ok" \/ op.f \in Reading) => Proj(r.st) = Proj(pre)
  /\ op.f \notin Storing => \A c \in live : r.st.cells[c].t # pre.cells[c].t => pre.cells[c].t = "N"
  /\ (op.f \in {"assign", "newvar"} /\ op.src.k = "copy" /\ r.o = "ok" /\ IsVar(op.h)) =>
       \A c \in Under(r.st, {r.st.vars[op.h.v]}) : IsContainer(r.st.cells[c]) => r.st.cells[c].o > Len(pre.objs)
  /\ (op.f = "set" /\ r.o = "ok") => LET t == Target(r.st, op.h) IN t.o = "ok" /\ Lookup(r.st, t.c, op.e) # 0
  /\ (op.f = "setpath" /\ r.o = "ok" /\ IsVar(op.h)) => Walk(r.st, r.st.vars[op.h.v], op.p) # 0
  /\ (op.f = "erase" /\ r.o = "ok" /\ IsVar(op.h) /\ IsKey(op.e)) => Lookup(r.st, r.st.vars[op.h.v], op.e) = 0
WellFormed ==
  /\ \A o \in 1..Len(st.objs) : "m" \in DOMAIN st.objs[o] => \A j \in 1..(Len(st.objs[o].m) - 1) : LexLess(st.objs[o].m[j][1], st.objs[o].m[j + 1][1])
  /\ \A n \in 1..NR : (st.refs[n].k # "X" /\ st.refs[n].s = "live") => st.refs[n].c \in LiveCells(st)
  /\ \A n \in 1..NR : (st.refs[n].k # "X" /\ st.refs[n].s = "dead") => st.refs[n].c \notin LiveCells(st)

RECURSIVE RunAll(_, _)
RunAll(s, ops) == IF ops = <<>> THEN s ELSE RunAll(Exec(s, ops[1]).st, Tail(ops))
Init == \E p \in Start : hist = p /\ st = RunAll(InitHeap(NV, NR), p) /\ open = Depth
Vec(op, r) == PrintT("VEC " \o ToJson([c |-> [op |-> "heap", nv |-> NV, nr |-> NR, ops |-> Append(hist, op)],
                                       e |-> [f |-> op.f, o |-> r.o, v |-> r.v, mb |-> r.mb, p |-> Proj(r.st), q |-> Proj(st)]]))
Next == /\ open > 0
        /\ \E op \in Ops(st) :
             /\ ~Unset(st, op)
             /\ LET r == Exec(st, op) IN
                /\ ~Cyclic(r.st)
                /\ Assert(StepOK(st, op, r), <<"step", op, st, r>>)
                /\ Vec(op, r)
                /\ st' = r.st /\ hist' = Append(hist, op) /\ open' = IF r.mb \/ r.o = "either" THEN 0 ELSE open - 1

---------------------------------------------------------------------------
(* states up to naming *)
RECURSIVE Order(_, _, _)
Order(s, cs, acc) ==
  IF cs = <<>> THEN acc
  ELSE LET c == cs[1] IN
       IF SeqIndex(acc, c) # 0 THEN Order(s, Tail(cs), acc)
       ELSE LET v == s.cells[c]
                kids == CASE v.t = "L" -> s.objs[v.o].l
                          [] v.t = "M" -> [j \in 1..Len(s.objs[v.o].m) |-> s.objs[v.o].m[j][2]]
                          [] OTHER -> <<>>
            IN Order(s, kids \o Tail(cs), Append(acc, c))
View0 == LET ord == Order(st, st.vars, <<>>)
             rf(r) == IF r.k = "X" THEN <<"X">>
                      ELSE <<r.k, r.s, SeqIndex(ord, r.c), IF r.k = "P" THEN r.p ELSE <<>> >>
         IN <<Proj(st), [n \in 1..NR |-> rf(st.refs[n])], open = 0>>
=============================================================================
