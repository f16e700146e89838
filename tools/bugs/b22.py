AP = "src/ArgParse.cc"
PRE = '\n#include <Variant/ArgParse.h>\n#include <sys/wait.h>\n#include <unistd.h>\n#include <stdio.h>\n// the result of a command line, "rejected" if the parser ends the program\nstatic string parse(ArgParse &a, vector<string> args) {\n\tint fd[2];\n\tif (pipe(fd)) return "pipe";\n\tpid_t pid = fork();\n\tif (pid == 0) {\n\t\tif (!freopen("/dev/null", "w", stderr)) _exit(9);\n\t\tvector<char*> v;\n\t\targs.insert(args.begin(), "prog");\n\t\tfor (size_t i = 0; i < args.size(); ++i) v.push_back(&args[i][0]);\n\t\tv.push_back(0);\n\t\tstring s = SerializeJSON(a.Parse(args.size(), &v[0]));\n\t\tif (write(fd[1], s.data(), s.size()) < 0) _exit(8);\n\t\t_exit(0);\n\t}\n\tclose(fd[1]);\n\tstring r;\n\tchar c;\n\twhile (read(fd[0], &c, 1) == 1) r += c;\n\tclose(fd[0]);\n\tint st = 0;\n\twaitpid(pid, &st, 0);\n\treturn WIFEXITED(st) && WEXITSTATUS(st) == 0 && !r.empty() ? r : "rejected";\n}\n' + '''
#include <Variant/Schema.h>
static bool accepted(ArgParse &a, vector<string> args) {
	string s = parse(a, args);
	SchemaLoader l;
	return s != "rejected" && !SchemaValidate(a.GenerateSchema(), DeserializeJSON(s), &l).Error();
}
'''
BUGS = [
 dict(id="p22-unlimited-items", property="P22",
  needs="an append option whose maximum number of values is zero, for any number",
  breaks="the schema allows no values",
  edits=[(AP, 'if (opt.Contains("maxArgs") && opt["maxArgs"] > 0) { s["maxItems"]', 'if (opt.Contains("maxArgs")) { s["maxItems"]')],
  pre=PRE, demo='''
	ArgParse a("prog");
	a.AddArgument("x", "help").Action(ARGACTION_APPEND).MinArgs(0).MaxArgs(0);
	CHECK(accepted(a, {"b"}));
'''),
 dict(id="p22-count-zero", property="P22",
  needs="a counting option that is not given",
  breaks="the schema refuses a count of zero",
  edits=[(AP, 's["type"] = "integer";\n\t\t\ts["minimum"] = 0;', 's["type"] = "integer";\n\t\t\ts["minimum"] = opt.Contains("default") ? 1 : 0;')],
  pre=PRE, demo='''
	ArgParse a("prog");
	a.AddOption("x", 'x', "ex", "help").Action(ARGACTION_COUNT).Default(0);
	CHECK(accepted(a, {"-x"}));
	CHECK(accepted(a, {}));
'''),
 dict(id="p22-item-length", property="P22",
  needs="an append option with a minimum length",
  breaks="the schema uses it as maximum length",
  edits=[(AP, 'if (opt.Contains("minLength")) { itemschema["minLength"] = opt["minLength"]; }', 'if (opt.Contains("minLength")) { itemschema["maxLength"] = opt["minLength"]; }')],
  pre=PRE, demo='''
	ArgParse a("prog");
	a.AddOption("x", 'x', "ex", "help").Action(ARGACTION_APPEND).MinLength(1);
	CHECK(accepted(a, {"-x", "ab"}));
'''),
 dict(id="p22-single-exclusive", property="P22",
  needs="an exclusive group with a single member that is not given",
  breaks="the schema demands the member",
  edits=[(AP, "\t\t\tif (!required) {\n\t\t\t\tVariant anyof", "\t\t\tif (!required && members.size() > 1) {\n\t\t\t\tVariant anyof")],
  pre=PRE, demo='''
	ArgParse a("prog");
	a.AddOption("x", 'x', "ex", "help").Group("g");
	a.AddOption("y", 'y', "ey", "help");
	a.GetGroup("g").MutuallyExclusive(true);
	CHECK(accepted(a, {"-x", "1"}));
	CHECK(accepted(a, {"-y", "1"}));
'''),
 dict(id="p22-required-lost", property="P22",
  needs="a required option that has only a long name",
  breaks="the rebuilt parser does not demand it",
  edits=[(AP, 'o.GetInto(required, "required", required);\n\t\to.GetInto(advanced, "advanced", false);', 'if (shortOpt > 0) { o.GetInto(required, "required", required); }\n\t\to.GetInto(advanced, "advanced", false);')],
  pre=PRE, demo='''
	ArgParse a("prog"), b("prog");
	a.AddOption("x", 0, "ex", "help").Required(true);
	b.Merge(a.GetDescription());
	CHECK(parse(a, {}) == "rejected");
	CHECK(parse(b, {}) == "rejected");
'''),
 dict(id="p22-group-required", property="P22",
  needs="a required group in the description",
  breaks="the rebuilt parser does not demand a member",
  edits=[(AP, '\t\tdesc.Set("required", required);\n\t\tdesc.Set("mutually exclusive", mutually_exclusive);', '\t\tdesc.Set("required", required && members.size() > 2);\n\t\tdesc.Set("mutually exclusive", mutually_exclusive);')],
  pre=PRE, demo='''
	ArgParse a("prog"), b("prog");
	a.AddOption("x", 'x', "ex", "help").Group("g");
	a.AddOption("y", 'y', "ey", "help").Group("g");
	a.GetGroup("g").MutuallyExclusive(true).Required(true);
	b.Merge(a.GetDescription());
	CHECK(parse(a, {}) == "rejected");
	CHECK(parse(b, {}) == "rejected");
'''),
]
