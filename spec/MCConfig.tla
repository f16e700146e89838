------------------------------ MODULE MCConfig ------------------------------
(* Consequences of the rules for files, for all small declarations and lines: *)
(* a file with what a parse returned makes the parser return it again, and a   *)
(* file with one value is the option with that value; neither does what the    *)
(* file does not name matter.                                                  *)
EXTENDS Configs, IOUtils
VARIABLES decl, line, done
FiveC == NumOf("I", DyInt(5))
X == VStr(<<120>>)
Opt(name, long) == [k |-> "opt", path |-> name, short |-> 0, long |-> long]
A == Opt(<<VStr(<<97>>)>>, <<97>>)
Bx == Opt(<<VStr(<<109>>), [t |-> "U", i |-> 1]>>, <<98>>)
Kinds == { [action |-> "store", type |-> "int", min |-> NumOf("I", DyInt(0))], [action |-> "store", type |-> "int", def |-> FiveC, min |-> NumOf("I", DyInt(0))],
           [action |-> "append", type |-> "int", maxargs |-> 2], [action |-> "append", type |-> "int", def |-> FiveC], [action |-> "append", type |-> "int", minargs |-> 1],
           [action |-> "count"], [action |-> "count", def |-> FiveC], [action |-> "store_const", const |-> X], [action |-> "store_true"],
           [action |-> "store_false", def |-> VBool(TRUE)], [action |-> "store", req |-> TRUE] }
FileName == <<102>>
Arg0 == [k |-> "arg", path |-> <<VStr(<<99>>)>>, minargs |-> 0, maxargs |-> 1]
Group(req) == [name |-> <<103>>, excl |-> TRUE, req |-> req, mem |-> <<1, 2>>, title |-> <<>>, text |-> <<>>]
Decls == { [opts |-> <<A @@ x, Bx @@ y>> \o z, groups |-> g, help |-> FALSE, config |-> TRUE, files |-> <<>>] :
           x \in Kinds, y \in Kinds, z \in {<<>>, <<Arg0>>}, g \in IF IOEnv.BIG = "1" THEN {<<>>, <<Group(FALSE)>>, <<Group(TRUE)>>} ELSE {<<>>, <<Group(TRUE)>>} }
Words(o) == IF TakesText(o) THEN {<<45, 45>> \o o.long \o <<61, 55>>, <<45, 45>> \o o.long \o <<61, 45, 49>>} ELSE {<<45, 45>> \o o.long}
AllWords(d) == Words(d.opts[1]) \cup Words(d.opts[2]) \cup {<<57>>}
Lines(d) == UNION { [1..n -> AllWords(d)] : n \in 0..(IF IOEnv.BIG = "1" THEN 3 ELSE 2) }
LoadWord == <<45, 45, 99, 111, 110, 102, 105, 103, 61>> \o FileName
PrintWord == <<45, 45, 112, 114, 105, 110, 116, 45, 99, 111, 110, 102, 105, 103>>
With(d, v) == [d EXCEPT !.files = << <<FileName, v, <<"config">>>> >>]
R(argv) == [argv |-> argv, env |-> <<>>]
Init == decl = <<>> /\ line = <<>> /\ done = 0
Next == /\ done < 2 /\ done' = done + 1
        /\ IF done = 0 THEN decl' \in Decls /\ line' = line ELSE decl' = decl /\ line' \in Lines(decl)
(* a constant that was not given cannot be said in a file, nor what excludes it *)
Sayable(d, x) == \A o \in Opts(d) : Action(d.opts[o]) # "store_const" \/ ~HasDefault(d.opts[o])
Reload(d, x) ==
  (x.o = "ok" /\ Sayable(d, x)) =>
    \E y \in Outcomes2(With(d, x.v), R(<<LoadWord>>)).outs : y.o = "ok" /\ VEq2(y.v, x.v)
Prints(d, l, x) == x.o = "ok" => Printed(x.v) \in Outcomes2(d, R(Append(l, PrintWord))).outs
Unnamed(d, l, x) ==
  LET v == VMap(<< << <<97, 97>>, VMap(<< << <<97>>, FiveC >> >>) >>, << <<122>>, VList(<<FiveC, VList(<<X>>)>>) >> >>) IN
  Outcomes2(With(d, v), R(<<LoadWord>> \o l)).outs = x.outs
(* an option with the value 7 *)
AsGiven(d, l) ==
  \A o \in {1, 2} : Valued(d.opts[o]) =>
    LET v == SetAt(VMap(<<>>), d.opts[o].path, 1, NumOf("I", DyInt(7)))
        w == <<45, 45>> \o d.opts[o].long \o <<61, 55>>
        same(a, b) == (a.o = b.o) /\ (a.o = "ok" => VEq2(a.v, b.v))
        p == Outcomes2(With(d, v), R(<<LoadWord>> \o l)) q == Outcomes2(d, R(<<w>> \o l))
        p2 == Outcomes2(With(d, v), R(Append(l, LoadWord))) q2 == Outcomes2(d, R(Append(l, w)))
    IN /\ \A a \in p.outs : \E b \in q.outs : same(a, b)
       /\ \A a \in p2.outs : \E b \in q2.outs : same(a, b)
       /\ p.open = q.open /\ p2.open = q2.open
Sound == done = 2 =>
  LET x == Outcomes2(decl, R(line)) IN
  ~x.open => /\ \A out \in x.outs : Reload(decl, out)
             /\ (\A out \in x.outs : out.o = "ok") => \A out \in x.outs : Prints(decl, line, out)
             /\ Unnamed(decl, line, x)
             /\ AsGiven(decl, line)
=============================================================================
