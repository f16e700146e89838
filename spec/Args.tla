-------------------------------- MODULE Args --------------------------------
(* Option parsing (ArgParse.h).  A declaration d has d.opts, a sequence of    *)
(* options with kind k ("opt", "flag" or "arg" for a positional argument),    *)
(* path, short (a character or 0), long, action, type and limits, and         *)
(* d.groups.  Command lines follow the GNU conventions.  Outcomes(d, run) is   *)
(* the set of allowed outcomes of parsing run.argv in the environment run.env. *)
EXTENDS Yaml, Regex

DASH == 45
EQUALS == 61
OptHas(o, f) == f \in DOMAIN o
Opts(d) == 1..Len(d.opts)
Action(o) == IF o.k = "flag" /\ ~OptHas(o, "action") THEN "store_true" ELSE IF OptHas(o, "action") THEN o.action ELSE "store"
Valued(o) == Action(o) \in {"store", "append"}
(* actions that name a configuration file, which Configs describes *)
Loads == {"config", "config_json", "config_yaml", "config_plist"}
TakesText(o) == Valued(o) \/ Action(o) \in Loads
MinArgs(o) == IF OptHas(o, "minargs") THEN o.minargs ELSE IF o.k = "arg" THEN 1 ELSE 0
MaxArgs(o) == IF OptHas(o, "maxargs") THEN o.maxargs ELSE IF o.k = "arg" THEN 1 ELSE 0
MustHave(o) == (OptHas(o, "req") /\ o.req) \/ MinArgs(o) > 0
(* limits on numbers make an option numeric, limits on strings a string *)
TypeOf(o) ==
  LET ty == IF OptHas(o, "type") THEN o.type ELSE "guess" IN
  IF ty # "guess" THEN ty
  ELSE IF OptHas(o, "min") \/ OptHas(o, "max") THEN "float"
  ELSE IF OptHas(o, "pattern") \/ OptHas(o, "minlen") \/ OptHas(o, "maxlen") THEN "string"
  ELSE "guess"

---------------------------------------------------------------------------
(* texts to values: [ok, v] *)
Conv(ok, v) == [ok |-> ok, v |-> v]
NoConv == Conv(FALSE, VNull)
Spaces == {9, 10, 11, 12, 13, 32}
RECURSIVE TrimL(_), TrimR(_)
TrimL(s) == IF s # <<>> /\ s[1] \in Spaces THEN TrimL(Tail(s)) ELSE s
TrimR(s) == IF s # <<>> /\ s[Len(s)] \in Spaces THEN TrimR(SubSeq(s, 1, Len(s) - 1)) ELSE s
Lower(s) == [j \in 1..Len(s) |-> IF s[j] >= 65 /\ s[j] <= 90 THEN s[j] + 32 ELSE s[j]]
IsPrefix(p, s) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
(* everything is true but zero and the beginnings of "no" and "false" *)
Bool(s) ==
  LET w == Lower(TrimR(TrimL(s))) IN
  ~(w # <<>> /\ (IsPrefix(w, <<110, 111>>) \/ IsPrefix(w, <<102, 97, 108, 115, 101>>) \/ \A j \in 1..Len(w) : w[j] = 48))
Whole(s) ==
  IF ~IsIntText(s) THEN NoConv
  ELSE LET n == IntText(s) IN
       IF FitsInt(n) THEN Conv(TRUE, NumOf("I", n)) ELSE IF FitsUns(n) THEN Conv(TRUE, NumOf("U", n)) ELSE NoConv
RECURSIVE Five(_)
Five(k) == IF k = 0 THEN NOne ELSE NMulSmall(Five(k - 1), 5)
(* decimals that binary numbers hold exactly; the generators use no others *)
Exact(dec) ==
  LET g == IF dec.neg THEN 0 - 1 ELSE 1 IN
  IF dec.x >= 0 THEN Dy(g, NMul(dec.n, NPow10(dec.x)), 0)
  ELSE LET q == NDivMod(dec.n, Five(0 - dec.x)) IN
       Dy(g, IF Assert(q.r = <<>>, <<"inexact decimal", dec>>) THEN q.q ELSE <<>>, dec.x)
Decimal(s) == LET dec == DecText(s) IN IF dec.ok THEN Conv(TRUE, NumOf("F", Exact(dec))) ELSE NoConv
Guess(s) ==
  LET w == TrimR(TrimL(s)) f == Form(w) IN
  CASE f = "null" -> VNull
    [] f = "true" -> VBool(TRUE)
    [] f = "false" -> VBool(FALSE)
    [] f = "int" -> Whole(w).v
    [] f = "radix" -> NumOf("U", Dy(1, RadixVal(w, Radix(w), 3, <<>>), 0))
    [] f = "float" -> Decimal(w).v
    [] OTHER -> VStr(s)
Convert(ty, s) ==
  CASE ty = "bool" -> Conv(TRUE, VBool(Bool(s)))
    [] ty = "int" -> Whole(s)
    [] ty = "uint" -> LET n == Whole(s) IN IF n.ok /\ n.v.g >= 0 THEN n ELSE NoConv
    [] ty = "float" -> Decimal(s)
    [] ty = "string" -> Conv(TRUE, VStr(s))
    [] ty = "guess" -> Conv(TRUE, Guess(s))

Within(o, v) ==
  /\ v.t = "S" => /\ OptHas(o, "minlen") => Len(v.s) >= o.minlen
                  /\ OptHas(o, "maxlen") => Len(v.s) <= o.maxlen
                  /\ OptHas(o, "pattern") => Matches(o.pattern, v.s)
  /\ IsNum(v) => /\ OptHas(o, "min") => DyCmp(ToDy(v), ToDy(o.min)) >= 0
                 /\ OptHas(o, "max") => DyCmp(ToDy(v), ToDy(o.max)) <= 0
  /\ OptHas(o, "enum") => \E j \in 1..Len(o.enum) : VEq2(v, o.enum[j])
Argument(o, s) == LET c == Convert(TypeOf(o), s) IN IF c.ok /\ Within(o, c.v) THEN c ELSE NoConv

---------------------------------------------------------------------------
(* the command line as events <<option, text>> and operands; bad: the        *)
(* command line itself is wrong at that point                                  *)
HELP == 0
HelpName == <<104, 101, 108, 112>>
(* -h and --help are added unless taken; a taken letter leaves --help *)
HasHelp(d) == d.help /\ \A o \in Opts(d) : d.opts[o].k = "arg" \/ d.opts[o].long # HelpName
Taken(d, c, o) == d.opts[o].k # "arg" /\ d.opts[o].short = c /\ c # 0
(* a letter that is declared twice belongs to the first option, if conflicts are resolved *)
ShortOf(d, c) ==
  LET m == {o \in Opts(d) : Taken(d, c, o)} IN
  IF m # {} THEN {CHOOSE o \in m : \A p \in m : o <= p}
  ELSE IF c = 104 /\ HasHelp(d) THEN {HELP} ELSE {}
LongsOf(d, name) ==
  LET ls == {o \in Opts(d) : d.opts[o].k # "arg" /\ d.opts[o].long # <<>>}
      is(o, w) == (o = HELP /\ w = HelpName) \/ (o # HELP /\ d.opts[o].long = w)
      all == ls \cup (IF HasHelp(d) THEN {HELP} ELSE {})
      full(o) == IF o = HELP THEN HelpName ELSE d.opts[o].long
      exact == {o \in all : full(o) = name}
  IN IF exact # {} THEN exact ELSE {o \in all : IsPrefix(name, full(o))}
Texted(d, o) == o # HELP /\ TakesText(d.opts[o])
Line(ev, ops, bad) == [ev |-> ev, ops |-> ops, bad |-> bad]
RECURSIVE Scan(_, _, _, _, _), Letters2(_, _, _, _, _, _)
(* letters of a cluster from k on *)
Letters2(d, argv, j, k, ev, ops) ==
  LET w == argv[j] IN
  IF k > Len(w) THEN Scan(d, argv, j + 1, ev, ops)
  ELSE LET m == ShortOf(d, w[k]) IN
       IF m = {} THEN Line(ev, ops, TRUE)
       ELSE LET o == CHOOSE o \in m : TRUE IN
            IF ~Texted(d, o) THEN Letters2(d, argv, j, k + 1, Append(ev, <<o, <<>>>>), ops)
            ELSE IF k < Len(w) THEN Scan(d, argv, j + 1, Append(ev, <<o, SubSeq(w, k + 1, Len(w))>>), ops)
            ELSE IF j = Len(argv) THEN Line(ev, ops, TRUE)
            ELSE Scan(d, argv, j + 2, Append(ev, <<o, argv[j + 1]>>), ops)
Scan(d, argv, j, ev, ops) ==
  IF j > Len(argv) THEN Line(ev, ops, FALSE)
  ELSE LET w == argv[j] IN
       IF w = <<DASH, DASH>> THEN Line(ev, ops \o SubSeq(argv, j + 1, Len(argv)), FALSE)
       ELSE IF Len(w) < 2 \/ w[1] # DASH THEN Scan(d, argv, j + 1, ev, Append(ops, w))
       ELSE IF w[2] # DASH THEN Letters2(d, argv, j, 2, ev, ops)
       ELSE LET at == {k \in 3..Len(w) : w[k] = EQUALS}
                cut == IF at = {} THEN Len(w) + 1 ELSE CHOOSE k \in at : \A n \in at : k <= n
                m == LongsOf(d, SubSeq(w, 3, cut - 1))
            IN IF Cardinality(m) # 1 THEN Line(ev, ops, TRUE)
               ELSE LET o == CHOOSE o \in m : TRUE IN
                    IF at # {} THEN IF Texted(d, o) THEN Scan(d, argv, j + 1, Append(ev, <<o, SubSeq(w, cut + 1, Len(w))>>), ops)
                                    ELSE Line(ev, ops, TRUE)
                    ELSE IF ~Texted(d, o) THEN Scan(d, argv, j + 1, Append(ev, <<o, <<>>>>), ops)
                    ELSE IF j = Len(argv) THEN Line(ev, ops, TRUE)
                    ELSE Scan(d, argv, j + 2, Append(ev, <<o, argv[j + 1]>>), ops)

(* operands go to the positional arguments in order, each taking as many as it may (0: all) *)
RECURSIVE Assign(_, _, _, _)
Assign(d, o, ops, acc) ==
  IF o > Len(d.opts) THEN [ev |-> acc, left |-> Len(ops)]
  ELSE IF d.opts[o].k # "arg" THEN Assign(d, o + 1, ops, acc)
  ELSE LET n == IF MaxArgs(d.opts[o]) = 0 THEN Len(ops) ELSE Min2(MaxArgs(d.opts[o]), Len(ops)) IN
       Assign(d, o + 1, SubSeq(ops, n + 1, Len(ops)), acc \o [j \in 1..n |-> <<o, ops[j]>>])

---------------------------------------------------------------------------
(* the value of an option from the texts given for it, VNull if there are none *)
Given(o, texts) ==
  IF texts = <<>> THEN VNull
  ELSE LET v(s) == Argument(o, s).v IN
       CASE Action(o) = "store" -> v(texts[Len(texts)])
         [] Action(o) = "store_const" -> o.const
         [] Action(o) = "store_true" -> VBool(TRUE)
         [] Action(o) = "store_false" -> VBool(FALSE)
         [] Action(o) = "append" -> VList([j \in 1..Len(texts) |-> v(texts[j])])
         [] Action(o) = "count" -> NumOf("U", DyInt(Len(texts)))
Wrong(o, texts) == Valued(o) /\ \E j \in 1..Len(texts) : ~Argument(o, texts[j]).ok
(* the environment acts like a default *)
InEnv(o, run) == OptHas(o, "env") /\ \E j \in 1..Len(run.env) : run.env[j][1] = o.env
EnvText(o, run) == run.env[CHOOSE j \in 1..Len(run.env) : run.env[j][1] = o.env][2]
FromEnv(o, run) ==
  LET s == EnvText(o, run) IN
  CASE Action(o) = "store" -> Argument(o, s)
    [] Action(o) = "append" -> LET a == Argument(o, s) IN IF a.ok THEN Conv(TRUE, VList(<<a.v>>)) ELSE a
    [] Action(o) \in {"store_true", "store_false"} -> Conv(TRUE, VBool(Bool(s)))
    [] Action(o) = "count" -> LET n == Whole(s) IN IF n.ok /\ n.v.g >= 0 THEN n ELSE NoConv
HasDefault(o) == OptHas(o, "def") \/ o.k = "flag" \/ (Action(o) = "count" /\ ~MustHave(o))
Default(o) ==
  IF OptHas(o, "def") THEN IF Action(o) = "append" THEN VList(<<o.def>>) ELSE o.def
  ELSE IF o.k = "flag" THEN VBool(FALSE)
  ELSE NumOf("U", Dy0)

(* the result: every value at its path *)
RECURSIVE SetAt(_, _, _, _)
SetAt(v, p, j, x) ==
  IF j > Len(p) THEN x
  ELSE IF p[j].t = "S"
  THEN LET m == IF v.t = "M" THEN v.m ELSE <<>> IN
       VMap(MSet(m, p[j].s, SetAt(IF MHas(m, p[j].s) THEN MGet(m, p[j].s) ELSE VNull, p, j + 1, x)))
  ELSE LET l == IF v.t = "L" THEN v.l ELSE <<>>
           k == p[j].i
           m == IF Len(l) > k THEN l ELSE l \o Nulls(k + 1 - Len(l))
       IN VList(ReplaceAt(m, k, SetAt(m[k + 1], p, j + 1, x)))
RECURSIVE Collect(_, _, _, _)
Collect(d, vals, o, v) ==
  IF o > Len(d.opts) THEN v
  ELSE Collect(d, vals, o + 1, IF vals[o] = VNull THEN v ELSE SetAt(v, d.opts[o].path, 1, vals[o]))

Exclusive(d, a, b) == a # b /\ \E g \in 1..Len(d.groups) :
  d.groups[g].excl /\ {a, b} \subseteq {d.groups[g].mem[j] : j \in 1..Len(d.groups[g].mem)}
(* may defaults be used together: as many as possible, no two that exclude each other *)
DefaultSets(d, present) ==
  LET c == {o \in Opts(d) : HasDefault(d.opts[o]) /\ o \notin present /\ \A p \in present : ~Exclusive(d, o, p)} IN
  {s \in SUBSET c : /\ \A a \in s : \A b \in s : ~Exclusive(d, a, b)
                    /\ \A o \in c \ s : \E p \in s : Exclusive(d, o, p)}
Reject(any) == [o |-> "exit", any |-> any]
Accept(v) == [o |-> "ok", v |-> v]
Finish(d, vals, s) ==
  LET all == [o \in Opts(d) |-> IF o \in s THEN Default(d.opts[o]) ELSE vals[o]]
      present == {o \in Opts(d) : all[o] # VNull}
      amount(o) == Action(d.opts[o]) = "append" /\ o \in present
  IN IF \/ \E o \in Opts(d) : MustHave(d.opts[o]) /\ o \notin present
        \/ \E o \in Opts(d) : amount(o) /\ (Len(all[o].l) < MinArgs(d.opts[o]) \/ (MaxArgs(d.opts[o]) # 0 /\ Len(all[o].l) > MaxArgs(d.opts[o])))
        \/ \E a \in present : \E b \in present : Exclusive(d, a, b)
        \/ \E g \in 1..Len(d.groups) : d.groups[g].excl /\ d.groups[g].req /\ {d.groups[g].mem[j] : j \in 1..Len(d.groups[g].mem)} \cap present = {}
     THEN Reject(FALSE) ELSE Accept(Collect(d, all, 1, VMap(<<>>)))
(* [open, outs]: open where the documentation does not decide *)
Outcomes(d, run) ==
  LET line == Scan(d, run.argv, 1, <<>>, <<>>)
      asg == Assign(d, 1, line.ops, <<>>)
      ev == line.ev \o asg.ev
      given == [o \in Opts(d) |-> LET m == SelectSeq(ev, LAMBDA e : e[1] = o) IN [j \in 1..Len(m) |-> m[j][2]]]
      help == \E j \in 1..Len(ev) : ev[j][1] = HELP
      cli == [o \in Opts(d) |-> Given(d.opts[o], given[o])]
      envs == {o \in Opts(d) : InEnv(d.opts[o], run)}
      undecided == \/ \E o \in envs : Action(d.opts[o]) = "store_const"
                   \/ \E o \in envs : given[o] # <<>> /\ (cli[o] = VNull \/ ~FromEnv(d.opts[o], run).ok)
                   \/ \E o \in envs : \E p \in Opts(d) : Exclusive(d, o, p) /\ (given[p] # <<>> \/ p \in envs)
      wrong == \/ asg.left > 0
               \/ \E o \in Opts(d) : Wrong(d.opts[o], given[o])
               \/ \E o \in envs : given[o] = <<>> /\ ~FromEnv(d.opts[o], run).ok
      vals == [o \in Opts(d) |-> IF given[o] = <<>> /\ o \in envs THEN FromEnv(d.opts[o], run).v ELSE cli[o]]
  IN IF line.bad \/ help THEN [open |-> FALSE, outs |-> {Reject(TRUE)}]
     ELSE IF undecided THEN [open |-> TRUE, outs |-> {}]
     ELSE IF wrong THEN [open |-> FALSE, outs |-> {Reject(FALSE)}]
     ELSE [open |-> FALSE, outs |-> {Finish(d, vals, s) : s \in DefaultSets(d, {o \in Opts(d) : vals[o] # VNull})}]
Agrees(out, r) ==
  IF out.o = "exit" THEN r.o = "exit" /\ (out.any \/ r.st # 0)
  ELSE r.o = "ok" /\ Same(out.v, r.v)
=============================================================================
