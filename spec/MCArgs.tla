------------------------------- MODULE MCArgs -------------------------------
(* All command lines of up to SIZE words over all small declarations of two   *)
(* options, a positional argument and a group                                  *)
EXTENDS Args, Json, IOUtils
VARIABLES decl, done
Size == IF IOEnv.LONG = "1" THEN 3 ELSE 2
Five5 == NumOf("I", DyInt(5))
Ab == VStr(<<120>>)
EnvName == <<86, 70, 95, 79, 78, 69>>    \* VF_ONE
First == [k |-> "opt", path |-> <<VStr(<<97>>)>>, short |-> 97, long |-> <<97, 108, 108>>]
Second == [k |-> "opt", path |-> <<VStr(<<109>>), VStr(<<98>>)>>, short |-> 98, long |-> <<97, 108, 112>>]
Flagged(o) == [o EXCEPT !.k = "flag"]
(* what an option may be: action with a fitting default *)
Kinds == { << [action |-> "store", type |-> "int", min |-> NumOf("I", DyInt(0))], Five5 >>, << [action |-> "store", type |-> "string", maxlen |-> 1], Ab >>,
           << [action |-> "append", type |-> "string", maxargs |-> 1], Ab >>, << [action |-> "append", minargs |-> 2], Ab >>,
           << [action |-> "count"], Five5 >>, << [action |-> "store_const", const |-> Five5], Ab >>, << [action |-> "store_false"], VBool(TRUE) >> }
Less == { << [action |-> "store", type |-> "string"], Ab >>, << [action |-> "count"], Five5 >>, << [action |-> "append", minargs |-> 1, maxargs |-> 2], Ab >> }
Variants(o, ks) == UNION { {o @@ x[1], o @@ x[1] @@ [def |-> x[2]], o @@ x[1] @@ [req |-> TRUE]} : x \in ks }
Firsts == Variants(First, Kinds) \cup {Flagged(First)}
          \cup {o @@ [env |-> EnvName] : o \in {p \in Variants(First, Kinds) : p.action # "store_const"}}
Seconds == Variants(Second, Less) \cup {Flagged(Second)}
Third == [k |-> "arg", path |-> <<VStr(<<99>>)>>]
Thirds == { <<>>, <<Third>>, <<Third @@ [action |-> "append", minargs |-> 0, maxargs |-> 0]>>, <<Third @@ [minargs |-> 0, def |-> Ab]>> }
Group(mem, req) == [name |-> <<103>>, excl |-> TRUE, req |-> req, mem |-> mem]
Groups == { <<>>, <<Group(<<1, 2>>, FALSE)>>, <<Group(<<1, 2>>, TRUE)>> }
Decl(a, b, c, g) == [opts |-> <<a, b>> \o c, groups |-> g, help |-> TRUE]
All == {Decl(a, b, c, g) : a \in Firsts, b \in Seconds, c \in Thirds, g \in Groups}
(* quick: every option alone with each other part in turn *)
B0 == Second @@ [action |-> "store", type |-> "string"]
Some == {Decl(a, B0, <<>>, g) : a \in Firsts, g \in Groups} \cup {Decl(First @@ [action |-> "store"], b, c, g) : b \in Seconds, c \in Thirds, g \in {<<Group(<<2, 1>>, FALSE)>>}}
        \cup {Decl(a, Flagged(Second), c, <<>>) : a \in {p \in Firsts : ~OptHas(p, "env")}, c \in Thirds}
Decls == IF IOEnv.BIG = "1" THEN All ELSE Some
Words == << <<45, 97>>, <<45, 98>>, <<45, 97, 98>>, <<45, 98, 97, 53>>, <<45, 45, 97, 108, 108>>, <<45, 45, 97, 108, 112, 61, 120>>, <<45, 45, 97, 108>>, <<53>>, <<45, 45>> >>
Lines == UNION { [1..n -> 1..Len(Words)] : n \in 0..Size }
(* quick: the longest lines only over some of the words *)
Taken2(l) == IOEnv.BIG = "1" \/ IOEnv.LONG = "1" \/ Len(l) < 2 \/ l[1] # 7
Envs(d) == IF OptHas(d.opts[1], "env") THEN {<<>>, << <<EnvName, <<49>>>> >>} ELSE {<<>>}
Runs(d) == {[argv |-> [j \in 1..Len(l) |-> Words[l[j]]], env |-> e] : l \in {x \in Lines : Taken2(x)}, e \in Envs(d)}

Init == decl = <<>> /\ done = 0
Next == /\ done < 2 /\ done' = done + 1
        /\ IF done = 0 THEN decl' \in Decls ELSE decl' = decl
Op == IF IOEnv.DESCRIBED = "1" THEN "described" ELSE "args"
Emit(d, rs, outs) == PrintT("VEC " \o ToJson([c |-> [op |-> Op, decl |-> d, runs |-> rs], e |-> outs]))
RECURSIVE Listed(_)
Listed(s) == IF s = {} THEN <<>> ELSE LET x == CHOOSE x \in s : TRUE IN <<x>> \o Listed(s \ {x})
Few(s, n) == LET l == Listed(s) IN {l[(k * Len(l)) \div n] : k \in 1..n}
Calls(x) == \E out \in x.outs : out.o = "ok"
(* consequences of the rules *)
DashesChangeNothing(d, r, x) ==
  LET n == Len(r.argv)
      dd == <<DASH, DASH>>
      plain == \A j \in 1..n : r.argv[j] # dd
      y == Outcomes(d, [r EXCEPT !.argv = Append(@, dd)])
  IN (plain /\ Calls(x) /\ ~x.open) => y = x
RequiredOnlyRejects(d, r, x) ==
  LET loose == [d EXCEPT !.opts = [j \in 1..Len(d.opts) |-> IF OptHas(d.opts[j], "req") THEN [d.opts[j] EXCEPT !.req = FALSE] ELSE d.opts[j]],
                         !.groups = <<>>]
      y == Outcomes(loose, r)
      given == \A o \in Opts(d) : ~HasDefault(loose.opts[o])
  IN (~x.open /\ ~y.open /\ given) => \A out \in x.outs : out.o = "exit" \/ out \in y.outs
OneOutcome(d, x) == (d.groups = <<>> /\ ~x.open) => Cardinality(x.outs) = 1
Sound == done = 2 =>
  LET rs == Runs(decl)
      xs == [r \in rs |-> Outcomes(decl, r)]
      good == Listed({r \in rs : ~xs[r].open /\ \A out \in xs[r].outs : out.o = "ok"})
      bad == {r \in rs : ~xs[r].open /\ \E out \in xs[r].outs : out.o = "exit"}
  IN /\ \A r \in rs : DashesChangeNothing(decl, r, xs[r]) /\ RequiredOnlyRejects(decl, r, xs[r]) /\ OneOutcome(decl, xs[r])
     /\ good # <<>> => Emit(decl, good, [j \in 1..Len(good) |-> Listed(xs[good[j]].outs)])
     /\ \A r \in IF Op = "args" \/ Cardinality(bad) < 4 THEN bad ELSE Few(bad, 3) : Emit(decl, <<r>>, <<Listed(xs[r].outs)>>)
=============================================================================
