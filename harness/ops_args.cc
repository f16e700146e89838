// Option parsing.  A parser that refuses its command line ends the process, so every parse runs in a
// child process of its own and reports through a pipe.
#include "common.h"
#include <Variant/ArgParse.h>
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <signal.h>
#include <fcntl.h>
#include <unistd.h>
#include <stdlib.h>
#include <memory>
#include <fstream>
#include <iostream>
using namespace drv;
using namespace libvariant;

static std::string KeyPath(const J &j) {
	return PathString(ToPath(j));
}

static void Setup(ArgParseOption o, const J &d) {
	static const std::map<std::string, ArgParseType> types = { { "guess", ARGTYPE_GUESS }, { "int", ARGTYPE_INT },
		{ "uint", ARGTYPE_UINT }, { "float", ARGTYPE_FLOAT }, { "string", ARGTYPE_STRING }, { "bool", ARGTYPE_BOOL } };
	if (d.has("title")) o.Title(Bytes(d.at("title")));
	if (d.has("action")) o.Action(ArgParseActionFromStr(d.at("action").s));
	if (d.has("type")) o.Type(types.at(d.at("type").s));
	if (d.has("const")) o.Const(NumVariant(d.at("const")));
	if (d.has("def")) o.Default(NumVariant(d.at("def")));
	if (d.has("env")) o.Env(Bytes(d.at("env")).c_str());
	if (d.has("min")) o.Minimum(NumVariant(d.at("min")));
	if (d.has("max")) o.Maximum(NumVariant(d.at("max")));
	if (d.has("enum")) {
		const J &e = d.at("enum");
		if (d.has("setenum")) {
			std::vector<Variant> v;
			for (size_t i = 0; i < e.size(); ++i) v.push_back(NumVariant(e[i]));
			o.AddChoice("forgotten");
			o.SetChoices(v);
		} else {
			for (size_t i = 0; i < e.size(); ++i) o.AddChoice(NumVariant(e[i]));
		}
	}
	if (d.has("pattern")) o.Pattern(Bytes(d.at("pattern")));
	if (d.has("minlen")) o.MinLength(d.at("minlen").n);
	if (d.has("maxlen")) o.MaxLength(d.at("maxlen").n);
	if (d.has("req")) o.Required(d.at("req").b);
	if (d.has("numargs")) {
		o.NumArgs(d.at("minargs").n);
	} else {
		if (d.has("minargs")) o.MinArgs(d.at("minargs").n);
		if (d.has("maxargs")) o.MaxArgs(d.at("maxargs").n);
	}
	if (d.has("adv")) o.Advanced(d.at("adv").b);
}

static std::unique_ptr<ArgParse> Build(const J &d) {
	const bool help = d.at("help").b && !d.has("addhelp");
	const bool once = help && d.has("path") && d.at("base").b;	// name as C string, nothing else
	std::unique_ptr<ArgParse> a(once ? new ArgParse(Bytes(d.at("path")).c_str()) : new ArgParse("prog", help));
	if (d.has("addhelp")) a->AddHelp();
	if (d.has("path") && !once) a->SetProgramName(Bytes(d.at("path")), d.at("base").b);
	if (d.has("desc")) a->SetDescription(Bytes(d.at("desc")));
	if (d.has("epilog")) a->SetEpilog(Bytes(d.at("epilog")));
	if (d.has("resolve")) a->ConflictResolution();
	const J &os = d.at("opts");
	for (size_t i = 0; i < os.size(); ++i) {
		const J &o = os[i];
		const std::string k = o.at("k").s, path = KeyPath(o.at("path")), help = o.has("text") ? Bytes(o.at("text")) : "help";
		if (k == "arg") {
			Setup(a->AddArgument(path, help), o);
		} else if (k == "flag") {
			Setup(a->AddFlag(path, o.at("short").n, Bytes(o.at("long")), help), o);
		} else if (o.has("late")) {	// declared first, configured through the access by key
			a->AddOption(path, o.at("short").n, Bytes(o.at("long")), help);
			Setup(a->At(path), o);
		} else {
			Setup(a->AddOption(path, o.at("short").n, Bytes(o.at("long")), help), o);
		}
	}
	if (d.has("config")) a->AddConfigDefaults();
	const J &gs = d.at("groups");
	for (size_t i = 0; i < gs.size(); ++i) {
		const J &g = gs[i];
		const std::string title = g.has("title") ? Bytes(g.at("title")) : "title", text = g.has("text") ? Bytes(g.at("text")) : "text";
		OptionGroup h = g.has("late") ? a->AddGroup(Bytes(g.at("name"))) : a->AddGroup(Bytes(g.at("name")), title, text);
		if (g.has("late")) a->GetGroup(Bytes(g.at("name"))).Title(title).Description(text);
		if (g.has("adv")) h.Advanced(g.at("adv").b);
		for (size_t k = 0; k < g.at("mem").size(); ++k) {
			const std::string path = KeyPath(os[g.at("mem")[k].n - 1].at("path"));
			if (g.has("direct")) (*a)[path].Group(Bytes(g.at("name")));
			else h.Add(path);
		}
		h.MutuallyExclusive(g.at("excl").b).Required(g.at("req").b);
	}
	return a;
}

static int channel = -1;
static void Send(const J &j) {
	std::string s;
	WriteJ(s, j);
	s += '\n';
	for (size_t w = 0; w < s.size();) {
		ssize_t k = write(channel, s.data() + w, s.size() - w);
		if (k <= 0) _exit(3);
		w += k;
	}
}
static bool parsing = false;
static std::string told;	// directory with what was written on the standard streams
static std::string Content(const std::string &name) {
	std::ifstream f(name.c_str(), std::ios::binary);
	return std::string(std::istreambuf_iterator<char>(f), std::istreambuf_iterator<char>());
}
static void Ended(int status, void *) {
	if (!parsing) _exit(4);
	J r = J::Obj().set("o", "exit").set("st", status);
	if (!told.empty()) {
		std::cout.flush();
		r.set("err", FromBytes(Content(told + "/err"))).set("text", FromBytes(Content(told + "/out")));
	}
	Send(r);
	_exit(0);
}

// the outcomes of the runs, up to the first that ends the process
static J Runs(ArgParse &a, const J &runs, bool small, const std::string &dir) {
	int fd[2];
	if (pipe(fd)) throw std::logic_error("driver: pipe");
	pid_t pid = fork();
	if (pid == 0) {
		close(fd[0]);
		channel = fd[1];
		alarm(20);
		on_exit(Ended, 0);
		unsetenv("POSIXLY_CORRECT");
		if (!dir.empty()) {
			if (chdir(dir.c_str())) _exit(4);
			told = dir;
			for (int k = 1; k <= 2; ++k) {
				int f = open((dir + (k == 1 ? "/out" : "/err")).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
				if (f < 0 || dup2(f, k) < 0) _exit(4);
			}
		}
		for (size_t r = 0; r < runs.size(); ++r) {
			const J &env = runs[r].at("env"), &av = runs[r].at("argv");
			for (size_t k = 0; k < env.size(); ++k) setenv(Bytes(env[k][0]).c_str(), Bytes(env[k][1]).c_str(), 1);
			std::vector<std::string> text(1, "prog");
			for (size_t k = 0; k < av.size(); ++k) text.push_back(Bytes(av[k]));
			std::vector<char*> argv;
			for (size_t k = 0; k < text.size(); ++k) argv.push_back(&text[k][0]);
			argv.push_back(0);
			J res;
			errno = runs[r].has("errno") ? ERANGE : 0;
			try {
				parsing = true;
				if (runs[r].has("show")) a.PrintHelp(runs[r].at("show").s == "adv");
				Variant v = a.Parse(argv.size() - 1, &argv[0]);
				parsing = false;
				res = Ok(small ? FromVariant(v) : FromNum(v));
				// changing a result does not change the parser
				if (runs[r].has("mark")) {
					std::function<void(Variant)> mark = [&](Variant x) {
						if (x.IsList()) {
							for (Variant::ListIterator i(x.ListBegin()), e(x.ListEnd()); i != e; ++i) mark(*i);
							x.Append("mark");
						} else if (x.IsMap()) {
							for (Variant::MapIterator i(x.MapBegin()), e(x.MapEnd()); i != e; ++i) mark(i->second);
							x["mark"] = 1;
						}
					};
					mark(v);
				}
			} catch (std::exception &e) {
				parsing = false;
				res = J::Obj().set("o", "throw");
			}
			Send(res);
			for (size_t k = 0; k < env.size(); ++k) unsetenv(Bytes(env[k][0]).c_str());
		}
		_exit(0);
	}
	close(fd[1]);
	std::string buf;
	char tmp[4096];
	ssize_t k;
	while ((k = read(fd[0], tmp, sizeof tmp)) > 0) buf.append(tmp, k);
	close(fd[0]);
	int st = 0;
	waitpid(pid, &st, 0);
	J rs = J::Arr();
	for (size_t b = 0, e; (e = buf.find('\n', b)) != std::string::npos; b = e + 1) {
		J r = ParseJ(buf.substr(b, e - b));
		if (r.has("text")) {
			const std::string out = Bytes(r.at("text"));
			try {
				r.set("out", Ok(FromNum(DeserializeJSON(out))));
			} catch (std::exception &e) {
				r.set("out", J::Obj().set("o", out.empty() ? "none" : "err"));
			}
		}
		rs.add(r);
	}
	if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) rs.add(J::Obj().set("o", "crash"));
	return rs;
}

OP(args) {
	return Ok().set("rs", Runs(*Build(c.at("decl")), c.at("runs"), false, ""));
}

// how the parser and those rebuilt from its description answer
OP(described) {
	const J &d = c.at("decl");
	std::unique_ptr<ArgParse> a = Build(d);
	Variant schema = a->GenerateSchema();
	ArgParse b("prog", d.at("help").b), e("prog", d.at("help").b), j("prog", d.at("help").b);
	b.Merge(*a);
	e.Merge(a->GetDescription().Copy());
	j.Merge(DeserializeJSON(SerializeJSON(e.GetDescription())));
	J rs = Runs(*a, c.at("runs"), true, "");
	SchemaLoader l;
	bool valid = true;
	for (size_t k = 0; k < rs.size(); ++k)
		if (rs[k].at("o").s == "ok" && SchemaValidate(schema, ToVariant(rs[k].at("v")), &l).Error()) valid = false;
	J r = Ok().set("schema", FromVariant(schema)).set("rs", rs).set("valid", valid);
	r.set("bs", J::Arr().add(Runs(b, c.at("runs"), true, "")).add(Runs(e, c.at("runs"), true, "")).add(Runs(j, c.at("runs"), true, "")));
	r.set("schema2", FromVariant(j.GenerateSchema()));
	if (c.has("validate")) {
		a->Validate();
		b.Validate();
	}
	return r;
}

// runs in a directory with configuration files
OP(configs) {
	const J &d = c.at("decl"), &fs = d.at("files");
	const std::string dir = ScratchDir() + "/c" + std::to_string((long)getpid());
	mkdir(dir.c_str(), 0700);
	for (size_t k = 0; k < fs.size(); ++k) {
		const std::string text = Bytes(fs[k][3]);
		std::ofstream f((dir + "/" + Bytes(fs[k][0])).c_str(), std::ios::binary);
		f.write(text.data(), text.size());
	}
	std::unique_ptr<ArgParse> a = Build(d);
	J r = Ok().set("rs", Runs(*a, c.at("runs"), false, dir)).set("name", FromBytes(a->GetProgramName()));
	for (size_t k = 0; k < fs.size(); ++k) unlink((dir + "/" + Bytes(fs[k][0])).c_str());
	unlink((dir + "/out").c_str());
	unlink((dir + "/err").c_str());
	rmdir(dir.c_str());
	return r;
}
