----------------------------- MODULE TraceDocs ------------------------------
EXTENDS Docs, Judge
RunOf(c) == LET ds == [j \in 1..Len(c.docs) |-> Doc(c.docs[j])] IN Run(ds, c.ops)
(* E: a node without text, null or empty *)
RECURSIVE Like(_, _)
Like(x, y) ==
  CASE x.t = "E" -> y = VNull \/ y = VStr(<<>>)
    [] x.t = "L" -> y.t = "L" /\ y.id = x.id /\ Len(y.l) = Len(x.l) /\ \A j \in 1..Len(x.l) : Like(x.l[j], y.l[j])
    [] x.t = "M" -> y.t = "M" /\ y.id = x.id /\ Len(y.m) = Len(x.m) /\ \A j \in 1..Len(x.m) : x.m[j][1] = y.m[j][1] /\ Like(x.m[j][2], y.m[j][2])
    [] OTHER -> x = y
LikeR(x, y) == IF "v" \in DOMAIN x THEN "v" \in DOMAIN y /\ Like(x.v, y.v) ELSE x = y
Verdict(e) ==
  LET x == RunOf(e.c) IN
  /\ e.r.o = "ok"
  /\ Len(e.r.rs) >= Len(x.rs) /\ \A j \in 1..Len(x.rs) : LikeR(x.rs[j], e.r.rs[j])
  /\ x.full => (Len(e.r.rs) = Len(x.rs) /\ ~e.r.cross)
Expected(e) == ToString(RunOf(e.c))
Init == i \in Heads
Next == /\ i < N /\ i % Batch # 0 /\ i' = i + 1
Conforms == Report(Verdict(Trace[i]), Expected(Trace[i]))
=============================================================================
