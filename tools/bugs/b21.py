AP = "src/ArgParse.cc"
PB = "src/ParseBool.cc"
PRE = '\n#include <Variant/ArgParse.h>\n#include <sys/wait.h>\n#include <unistd.h>\n#include <stdio.h>\n// the result of a command line, "rejected" if the parser ends the program\nstatic string parse(ArgParse &a, vector<string> args) {\n\tint fd[2];\n\tif (pipe(fd)) return "pipe";\n\tpid_t pid = fork();\n\tif (pid == 0) {\n\t\tif (!freopen("/dev/null", "w", stderr)) _exit(9);\n\t\tvector<char*> v;\n\t\targs.insert(args.begin(), "prog");\n\t\tfor (size_t i = 0; i < args.size(); ++i) v.push_back(&args[i][0]);\n\t\tv.push_back(0);\n\t\tstring s = SerializeJSON(a.Parse(args.size(), &v[0]));\n\t\tif (write(fd[1], s.data(), s.size()) < 0) _exit(8);\n\t\t_exit(0);\n\t}\n\tclose(fd[1]);\n\tstring r;\n\tchar c;\n\twhile (read(fd[0], &c, 1) == 1) r += c;\n\tclose(fd[0]);\n\tint st = 0;\n\twaitpid(pid, &st, 0);\n\treturn WIFEXITED(st) && WEXITSTATUS(st) == 0 && !r.empty() ? r : "rejected";\n}\n'
BUGS = [
 dict(id="p21-choice-text", property="P21",
  needs="a choice whose text equals that of a value of another type",
  breaks="a value that is not one of the choices is accepted",
  edits=[(AP, "if (val == *i) { pass = true; break; }", "if (val == *i || (!val.IsList() && !val.IsMap() && !val.IsNull() && val.AsString() == i->AsString())) { pass = true; break; }")],
  pre=PRE, demo='''
	ArgParse a("prog");
	a.AddOption("x", 'x', "ex", "help").AddChoice("5").AddChoice("b");
	CHECK(parse(a, {"-x", "b"}) != "rejected");
	CHECK(parse(a, {"-x", "5"}) == "rejected");
'''),
 dict(id="p21-surplus", property="P21",
  needs="operands for a parser without positional arguments",
  breaks="surplus operands are ignored",
  edits=[(AP, "if (index < (unsigned)argc) {\n\t\t\t\tthrow", "if (index < (unsigned)argc && !arguments.empty()) {\n\t\t\t\tthrow")],
  pre=PRE, demo='''
	ArgParse a("prog");
	a.AddOption("x", 'x', "ex", "help");
	CHECK(parse(a, {"-x", "b", "more"}) == "rejected");
'''),
 dict(id="p21-exclusive-actions", property="P21",
  needs="two exclusive options with different actions, both given",
  breaks="exclusive options are combined",
  edits=[(AP, "\t\t\t\t\tif (!last) {\n\t\t\t\t\t\tlast = o;\n\t\t\t\t\t} else {", "\t\t\t\t\tif (!last || o->action != last->action) {\n\t\t\t\t\t\tlast = o;\n\t\t\t\t\t} else {")],
  pre=PRE, demo='''
	ArgParse a("prog");
	a.AddOption("x", 'x', "ex", "help").Group("g");
	a.AddOption("y", 'y', "ey", "help").Action(ARGACTION_STORE_TRUE).Group("g");
	a.GetGroup("g").MutuallyExclusive(true);
	CHECK(parse(a, {"-x", "b", "-y"}) == "rejected");
'''),
 dict(id="p21-whole-minimum", property="P21",
  needs="a minimum that is not a whole number and the whole number just below it",
  breaks="a value below the minimum is accepted",
  edits=[(AP, 'if (opt.Contains("minimum") && val < opt["minimum"]) {', 'if (opt.Contains("minimum") && (val.IsFloat() ? val < opt["minimum"] : val < opt["minimum"].AsInt())) {')],
  pre=PRE, demo='''
	ArgParse a("prog");
	a.AddOption("x", 'x', "ex", "help").Type(ARGTYPE_INT).Minimum(0.5);
	CHECK(parse(a, {"-x", "1"}) != "rejected");
	CHECK(parse(a, {"-x", "0"}) == "rejected");
'''),
 dict(id="p21-zero-blank", property="P21",
  needs="a boolean option given as zero followed by a blank",
  breaks="it reads as true",
  edits=[(PB, "        while (cur != end && *cur == '0') { ++cur; }\n        while (cur != end && isspace(*cur)) { ++cur; }\n", "        while (cur != end && *cur == '0') { ++cur; }\n")],
  pre=PRE, demo='''
	ArgParse a("prog");
	a.AddOption("x", 'x', "ex", "help").Type(ARGTYPE_BOOL);
	CHECK(parse(a, {"-x", "0 "}).find("false") != string::npos);
'''),
 dict(id="p21-append-default", property="P21",
  needs="a default beside a minimum number of values that it does not reach",
  breaks="too few values are accepted",
  edits=[(AP, 'if (opt["minArgs"] > result.Size()) {', 'if (opt["minArgs"] > result.Size() && !opt.Contains("default")) {')],
  pre=PRE, demo='''
	ArgParse a("prog");
	a.AddOption("x", 'x', "ex", "help").Action(ARGACTION_APPEND).MinArgs(2).Default("d");
	CHECK(parse(a, {"-x", "1", "-x", "2"}) != "rejected");
	CHECK(parse(a, {"-x", "1"}) == "rejected");
'''),
 dict(id="p21-pattern-empty", property="P21",
  needs="an empty text for an option with a pattern that it does not match",
  breaks="the empty text is accepted",
  edits=[(AP, 'if (opt.Contains("pattern")) {\n\t\t\t\tstd::string pat', 'if (opt.Contains("pattern") && !val.Empty()) {\n\t\t\t\tstd::string pat')],
  pre=PRE, demo='''
	ArgParse a("prog");
	a.AddOption("x", 'x', "ex", "help").Pattern("^a");
	CHECK(parse(a, {"--ex=ab"}) != "rejected");
	CHECK(parse(a, {"--ex="}) == "rejected");
'''),
]
