------------------------------ MODULE Configs ------------------------------
(* Configuration files and help (ArgParse.h).  Beside the options of Args a   *)
(* declaration may have options that load a file, print the configuration or  *)
(* show the help; d.files are the files <<name, document, actions that read   *)
(* it>>.  A value in a file counts as its option given at that place of the    *)
(* command line.                                                               *)
EXTENDS Args
Codes == [c \in {"-"} |-> 45] @@ [c \in {" "} |-> 32] @@ [c \in {"a"} |-> 97] @@ [c \in {"b"} |-> 98] @@ [c \in {"c"} |-> 99] @@ [c \in {"d"} |-> 100]
      @@ [c \in {"e"} |-> 101] @@ [c \in {"f"} |-> 102] @@ [c \in {"g"} |-> 103] @@ [c \in {"h"} |-> 104] @@ [c \in {"i"} |-> 105] @@ [c \in {"l"} |-> 108]
      @@ [c \in {"n"} |-> 110] @@ [c \in {"o"} |-> 111] @@ [c \in {"p"} |-> 112] @@ [c \in {"r"} |-> 114] @@ [c \in {"s"} |-> 115] @@ [c \in {"t"} |-> 116]
      @@ [c \in {"u"} |-> 117] @@ [c \in {"v"} |-> 118] @@ [c \in {"x"} |-> 120] @@ [c \in {"y"} |-> 121] @@ [c \in {"("} |-> 40] @@ [c \in {")"} |-> 41]
      @@ [c \in {":"} |-> 58] @@ [c \in {"$"} |-> 36] @@ [c \in {"|"} |-> 124] @@ [c \in {"["} |-> 91] @@ [c \in {"]"} |-> 93] @@ [c \in {"."} |-> 46]
      @@ [c \in {","} |-> 44] @@ [c \in {"F"} |-> 70] @@ [c \in {"I"} |-> 73] @@ [c \in {"L"} |-> 76] @@ [c \in {"E"} |-> 69] @@ [c \in {"="} |-> 61]
Txt(w) == [j \in 1..Len(w) |-> Codes[SubSeq(w, j, j)]]

(* the declaration with what it adds by itself: --config and --print-config,   *)
(* -h and --help, and --adv-help if there is something advanced                 *)
Added(name, short, long, action) == [k |-> "opt", path |-> <<VStr(Txt(name))>>, short |-> short, long |-> Txt(long), action |-> action]
Advanced(o) == OptHas(o, "adv") /\ o.adv
AnyAdvanced(d) == \/ \E o \in Opts(d) : Advanced(d.opts[o])
                  \/ \E g \in 1..Len(d.groups) : Advanced(d.groups[g])
Full(d) ==
  LET first(j) == ~\E k \in 1..(j - 1) : d.opts[k].k # "arg" /\ d.opts[k].short = d.opts[j].short
      (* a letter declared again is dropped *)
      own == [j \in 1..Len(d.opts) |-> IF d.opts[j].k = "arg" \/ first(j) THEN d.opts[j] ELSE [d.opts[j] EXCEPT !.short = 0]]
      base == own \o (IF OptHas(d, "config") THEN << Added("default-config-load", 0, "config", "config"), Added("default-config-print", 0, "print-config", "config_print") >> ELSE <<>>)
      named(w) == \E o \in 1..Len(base) : base[o].k # "arg" /\ base[o].long = w
      letter == \E o \in 1..Len(base) : base[o].k # "arg" /\ base[o].short = 104
      help == IF d.help /\ ~named(HelpName)
              THEN << Added("default-help-option", IF letter THEN 0 ELSE 104, "help", "help") >>
                   \o (IF AnyAdvanced(d) /\ ~named(Txt("adv-help")) THEN << Added("default-adv-help-option", 0, "adv-help", "adv_help") >> ELSE <<>>)
              ELSE <<>>
  IN [d EXCEPT !.opts = base \o help, !.help = FALSE]

---------------------------------------------------------------------------
(* what the items <<option, kind, text or value>> of a file are: every value at *)
(* the place of an option; what names no option is passed over                   *)
Item(o, k, x) == [o |-> o, k |-> k, x |-> x]
NoFile == Item(0, "wrong", VNull)
PathIs(o, p) == Len(o.path) = Len(p) /\ \A j \in 1..Len(p) : o.path[j].t = p[j].t /\ (IF p[j].t = "S" THEN o.path[j].s = p[j].s ELSE o.path[j].i = p[j].i)
Owner(d, p) == {o \in Opts(d) : PathIs(d.opts[o], p)}
RECURSIVE ItemsOf(_, _, _), Each(_, _, _, _), Load(_, _, _)
Each(d, v, p, j) ==
  IF v.t = "M" THEN IF j > Len(v.m) THEN <<>> ELSE ItemsOf(d, v.m[j][2], Append(p, VStr(v.m[j][1]))) \o Each(d, v, p, j + 1)
  ELSE IF j > Len(v.l) THEN <<>> ELSE ItemsOf(d, v.l[j], Append(p, [t |-> "U", i |-> j - 1])) \o Each(d, v, p, j + 1)
ItemsOf(d, v, p) ==
  IF v.t = "N" THEN <<>>
  ELSE IF v.t = "M" THEN Each(d, v, p, 1)
  ELSE IF Owner(d, p) # {}
  THEN LET o == CHOOSE o \in Owner(d, p) : TRUE IN
       IF Action(d.opts[o]) \in Loads THEN Load(d, Action(d.opts[o]), v.s) ELSE <<Item(o, "value", v)>>
  ELSE IF v.t = "L" THEN Each(d, v, p, 1)
  ELSE <<>>
Load(d, action, name) ==
  LET m == {f \in 1..Len(d.files) : d.files[f][1] = name} IN
  IF m = {} THEN <<NoFile>>
  ELSE LET f == d.files[CHOOSE f \in m : TRUE] IN
       IF \E j \in 1..Len(f[3]) : f[3][j] = action THEN ItemsOf(d, f[2], <<>>) ELSE <<NoFile>>

RECURSIVE Expand(_, _, _)
Expand(d, ev, j) ==
  IF j > Len(ev) THEN <<>>
  ELSE LET o == d.opts[ev[j][1]] IN
       (IF Action(o) \in Loads THEN Load(d, Action(o), ev[j][2]) ELSE <<Item(ev[j][1], "text", ev[j][2])>>) \o Expand(d, ev, j + 1)

---------------------------------------------------------------------------
Elements(v) == IF v.t = "L" THEN v.l ELSE <<v>>
ItemOk(d, it) ==
  IF it.k = "wrong" THEN FALSE
  ELSE LET o == d.opts[it.o] IN
       IF it.k = "text" THEN Valued(o) => Argument(o, it.x).ok
       ELSE CASE Action(o) = "store" -> Within(o, it.x)
              [] Action(o) = "append" -> \A j \in 1..Len(Elements(it.x)) : Within(o, Elements(it.x)[j])
              [] OTHER -> TRUE
RECURSIVE Joined(_, _, _), Summed(_, _)
Joined(o, its, j) ==
  IF j > Len(its) THEN <<>>
  ELSE (IF its[j].k = "text" THEN <<Argument(o, its[j].x).v>> ELSE Elements(its[j].x)) \o Joined(o, its, j + 1)
Summed(its, j) == IF j > Len(its) THEN Dy0 ELSE DyAdd(IF its[j].k = "text" THEN DyInt(1) ELSE ToDy(its[j].x), Summed(its, j + 1))
ValueOf2(o, its) ==
  IF its = <<>> THEN VNull
  ELSE LET z == its[Len(its)] IN
       CASE Action(o) = "store" -> IF z.k = "text" THEN Argument(o, z.x).v ELSE z.x
         [] Action(o) = "store_const" -> o.const
         [] Action(o) \in {"store_true", "store_false"} -> IF z.k = "text" THEN VBool(Action(o) = "store_true") ELSE z.x
         [] Action(o) = "append" -> LET l == Joined(o, its, 1) IN IF l = <<>> THEN VNull ELSE VList(l)
         [] Action(o) = "count" -> NumOf("U", Summed(its, 1))
         [] OTHER -> VNull
Helps == {"help", "adv_help"}
Show(adv) == [o |-> "help", adv |-> adv]
Printed(v) == [o |-> "print", v |-> v]
(* outcomes as in Args, with help and printed configurations *)
Outcomes2(d0, run) ==
  LET d == Full(d0)
      line == Scan(d, run.argv, 1, <<>>, <<>>)
      asg == Assign(d, 1, line.ops, <<>>)
      opts == Expand(d, line.ev, 1)
      bad == {j \in 1..Len(opts) : ~ItemOk(d, opts[j])}
      upto == IF bad = {} THEN Len(opts) ELSE (CHOOSE j \in bad : \A k \in bad : j <= k) - 1
      does(j, a) == opts[j].k = "text" /\ Action(d.opts[opts[j].o]) \in a
      helps == {j \in 1..upto : does(j, Helps)}
      all == opts \o Expand(d, asg.ev, 1)
      ofo(o) == SelectSeq(all, LAMBDA it : it.o = o)
      prints == \E j \in 1..Len(opts) : does(j, {"config_print"})
      envs == {o \in Opts(d) : InEnv(d.opts[o], run)}
      given == [o \in Opts(d) |-> ofo(o)]
      cli == [o \in Opts(d) |-> IF \A j \in 1..Len(given[o]) : ItemOk(d, given[o][j]) THEN ValueOf2(d.opts[o], given[o]) ELSE VNull]
      odd == \/ \E o \in envs : Action(d.opts[o]) \notin {"store", "append", "store_true", "store_false", "count"}
             \/ \E o \in envs : ~FromEnv(d.opts[o], run).ok /\ (given[o] # <<>> \/ helps # {})
             \/ \E o \in envs : given[o] # <<>> /\ cli[o] = VNull
             \/ \E o \in envs : \E p \in Opts(d) : Exclusive(d, o, p) /\ (given[p] # <<>> \/ p \in envs)
             (* a null on the command line after a value *)
             \/ \E o \in Opts(d) : \E j \in 1..Len(given[o]) : given[o][j].k = "text" /\ Valued(d.opts[o]) /\ Argument(d.opts[o], given[o][j].x) = Conv(TRUE, VNull)
      wrong == \/ \E j \in 1..Len(all) : ~ItemOk(d, all[j])
               \/ asg.left > 0
               \/ \E o \in envs : given[o] = <<>> /\ ~FromEnv(d.opts[o], run).ok
      vals == [o \in Opts(d) |-> IF given[o] = <<>> /\ o \in envs THEN FromEnv(d.opts[o], run).v ELSE cli[o]]
      outs == {Finish(d, vals, s) : s \in DefaultSets(d, {o \in Opts(d) : vals[o] # VNull})}
  IN IF line.bad THEN [open |-> FALSE, outs |-> {Reject(TRUE)}]
     ELSE IF odd THEN [open |-> TRUE, outs |-> {}]
     ELSE IF helps # {} THEN [open |-> FALSE, outs |-> {Show(\E j \in helps : does(j, {"adv_help"}))}]
     ELSE IF wrong THEN IF prints THEN [open |-> TRUE, outs |-> {}] ELSE [open |-> FALSE, outs |-> {Reject(FALSE)}]
     ELSE IF ~prints THEN [open |-> FALSE, outs |-> outs]
     ELSE IF \E x \in outs : x.o = "exit" THEN [open |-> TRUE, outs |-> {}]
     ELSE [open |-> FALSE, outs |-> {Printed(x.v) : x \in outs}]

---------------------------------------------------------------------------
(* the help, blanks of any kind and number alike *)
RECURSIVE Squeeze(_, _, _)
Squeeze(s, j, acc) ==
  IF j > Len(s) THEN acc
  ELSE IF s[j] \in Spaces THEN Squeeze(s, j + 1, IF acc # <<>> /\ acc[Len(acc)] = 32 THEN acc ELSE Append(acc, 32))
  ELSE Squeeze(s, j + 1, Append(acc, s[j]))
RECURSIVE DigitsOf(_)
DigitsOf(n) == IF n < 10 THEN <<48 + n>> ELSE DigitsOf(n \div 10) \o <<48 + (n % 10)>>
RECURSIVE PathText(_, _)
PathText(p, j) ==
  IF j > Len(p) THEN <<>>
  ELSE (IF p[j].t = "S" THEN <<47>> \o p[j].s ELSE <<91>> \o DigitsOf(p[j].i) \o <<93>>) \o PathText(p, j + 1)
Title(o) == IF OptHas(o, "title") THEN o.title
            ELSE IF o.path[Len(o.path)].t = "S" THEN o.path[Len(o.path)].s ELSE PathText(o.path, 1)
Whole2(v) == (IF v.g < 0 THEN <<45>> ELSE <<>>) \o NToDigits(DyMag(ToDy(v)))
Plain(v) == CASE v.t = "S" -> v.s [] v.t = "B" -> IF v.b THEN Txt("true") ELSE Txt("false") [] OTHER -> Whole2(v)
Shown(v) == IF v.t = "S" THEN <<34>> \o v.s \o <<34>> ELSE Plain(v)
RECURSIVE Choices(_, _)
Choices(e, j) == IF j > Len(e) THEN <<>> ELSE (IF j = 1 THEN <<>> ELSE Txt(" | ")) \o Plain(e[j]) \o Choices(e, j + 1)
ArgName(o) == IF Action(o) \in Loads THEN Txt("FILE")
              ELSE IF OptHas(o, "enum") THEN Choices(o.enum, 1)
              ELSE IF TypeOf(o) = "bool" THEN Txt("yes|no")
              ELSE Title(o)
Names(o) ==
  IF o.k = "arg" THEN <<>>
  ELSE LET s == IF o.short # 0 THEN <<45, o.short>> ELSE <<>>
           l == IF o.long # <<>> THEN <<45, 45>> \o o.long ELSE <<>>
       IN s \o (IF s # <<>> /\ l # <<>> THEN Txt(", ") ELSE <<>>) \o l
Default2(o) == IF OptHas(o, "def") THEN o.def ELSE IF o.k = "flag" THEN VBool(FALSE) ELSE VNull
Block(o) ==
  LET dv == Default2(o) IN
  <<32>> \o Names(o)
  \o (IF TakesText(o) THEN <<32>> \o ArgName(o) ELSE <<>>)
  \o (IF OptHas(o, "env") THEN Txt(" env: $") \o o.env \o (IF TakesText(o) THEN <<61>> \o ArgName(o) ELSE <<>>) ELSE <<>>)
  \o (IF OptHas(o, "text") THEN <<32>> \o o.text ELSE <<>>)
  \o (IF dv.t \in {"S", "B", "I", "U", "F"} THEN Txt(" (default: ") \o Shown(dv) \o Txt(")") ELSE <<>>)
RECURSIVE Repeat(_, _)
Repeat(s, n) == IF n <= 0 THEN <<>> ELSE s \o Repeat(s, n - 1)
Usage(o) ==
  LET a == ArgName(o) lo == MinArgs(o) hi == MaxArgs(o)
  IN IF lo = 0 /\ hi = 0 THEN Txt(" [") \o a \o Txt(" [") \o a \o Txt(" ...]]")
     ELSE Repeat(<<32>> \o a, lo)
          \o (IF hi = 0 THEN Txt(" [") \o a \o Txt(" ...]") ELSE Repeat(Txt(" [") \o a, hi - lo) \o Repeat(Txt("]"), hi - lo))
(* titled groups an option is a member of; the first by name shows it *)
RECURSIVE Before(_, _, _)
Before(a, b, j) == IF j > Len(a) THEN TRUE ELSE IF j > Len(b) THEN FALSE ELSE IF a[j] # b[j] THEN a[j] < b[j] ELSE Before(a, b, j + 1)
Titled(g) == g.title # <<>> \/ g.text # <<>>
Memb(g) == {g.mem[j] : j \in 1..Len(g.mem)}
GroupOf(d, o) ==
  LET gs == {g \in 1..Len(d.groups) : Titled(d.groups[g]) /\ o \in Memb(d.groups[g])} IN
  IF gs = {} THEN 0 ELSE CHOOSE g \in gs : \A h \in gs : Before(d.groups[g].name, d.groups[h].name, 1)
Sel(d, P(_)) == SelectSeq([j \in 1..Len(d.opts) |-> j], P)
ByName(d) == CHOOSE q \in [1..Len(d.groups) -> 1..Len(d.groups)] :
               \A j \in 1..Len(q) : \A k \in 1..Len(q) : j < k => (q[j] # q[k] /\ Before(d.groups[q[j]].name, d.groups[q[k]].name, 1))
Visible(d, o, adv) ==
  \/ d.opts[o].k = "arg" \/ adv
  \/ ~Advanced(d.opts[o]) /\ (GroupOf(d, o) = 0 \/ ~Advanced(d.groups[GroupOf(d, o)]))
RECURSIVE Sections(_, _, _, _)
Sections(d, q, j, adv) ==
  IF j > Len(q) THEN <<>>
  ELSE LET g == d.groups[q[j]]
           ms == Sel(d, LAMBDA o : d.opts[o].k # "arg" /\ GroupOf(d, o) = q[j])
           vis == SelectSeq(ms, LAMBDA o : Visible(d, o, adv))
       IN (IF Titled(g) /\ ms # <<>> /\ (adv \/ ~Advanced(g))
           THEN (IF g.title # <<>> THEN << <<32>> \o g.title >> ELSE <<>>) \o (IF g.text # <<>> THEN << <<32>> \o g.text >> ELSE <<>>)
                \o [k \in 1..Len(vis) |-> Block(d.opts[vis[k]])]
           ELSE <<>>) \o Sections(d, q, j + 1, adv)
(* the parts of the help in their order *)
Parts(d, adv) ==
  LET args == Sel(d, LAMBDA o : d.opts[o].k = "arg")
      free == Sel(d, LAMBDA o : d.opts[o].k # "arg" /\ GroupOf(d, o) = 0 /\ Visible(d, o, adv))
  IN << d.prog >>
     \o [k \in 1..Len(args) |-> Usage(d.opts[args[k]])]
     \o (IF d.desc # <<>> THEN << <<32>> \o d.desc >> ELSE <<>>)
     \o [k \in 1..Len(args) |-> Block(d.opts[args[k]])]
     \o [k \in 1..Len(free) |-> Block(d.opts[free[k]])]
     \o (IF d.groups = <<>> THEN <<>> ELSE Sections(d, ByName(d), 1, adv))
     \o (IF d.epilog # <<>> THEN << <<32>> \o d.epilog >> ELSE <<>>)
AtPos(s, k, w) == k + Len(w) - 1 <= Len(s) /\ \A j \in 1..Len(w) : s[k + j - 1] = w[j]
(* one after the other, each as early as possible *)
RECURSIVE InOrder(_, _, _, _)
InOrder(s, k, ps, j) ==
  IF j > Len(ps) THEN TRUE
  ELSE LET m == {x \in k..Len(s) : AtPos(s, x, ps[j])} IN
       IF m = {} THEN FALSE ELSE LET x == CHOOSE x \in m : \A y \in m : x <= y IN InOrder(s, x + Len(ps[j]), ps, j + 1)
Occurs(s, w) == Cardinality({x \in 1..Len(s) : AtPos(s, x, w)})
HelpOk(d, adv, text) ==
  LET s == Squeeze(text, 1, <<>>) IN
  (* parsers of files may have written before *)
  /\ AtPos(s, 1, d.prog) \/ Occurs(s, <<32>> \o d.prog) >= 1
  /\ LET ps == Parts(d, adv) IN InOrder(s, 1, [j \in 1..Len(ps) |-> Squeeze(ps[j], 1, <<>>)], 1)
  (* every help text is the only one of its kind *)
  /\ \A o \in Opts(d) : OptHas(d.opts[o], "text") => Occurs(s, d.opts[o].text) = (IF Visible(d, o, adv) THEN 1 ELSE 0)
  /\ \A g \in 1..Len(d.groups) : (Advanced(d.groups[g]) /\ ~adv /\ d.groups[g].title # <<>>) => Occurs(s, d.groups[g].title) = 0
Agrees2(d0, out, r) ==
  LET d == Full(d0) IN
  CASE out.o = "help" -> r.o = "exit" /\ r.st = 0 /\ HelpOk(d, out.adv, r.err)
    [] out.o = "print" -> r.o = "exit" /\ r.st = 0 /\ r.out.o = "ok" /\ VEq2(out.v, r.out.v)
    [] OTHER -> Agrees(out, r)
=============================================================================
