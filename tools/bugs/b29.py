PRE = r'''
#include <Variant/ArgParse.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <stdlib.h>
#include <fstream>
#include <functional>
using namespace libvariant;
static std::string dir;
static std::string File(const char *text) {
	std::string n = dir + "/f";
	std::ofstream(n.c_str()) << text;
	return n;
}
// what the parser returns as JSON, or what it writes before it ends
static std::string Run(std::function<void(ArgParse&)> f, std::vector<std::string> w) {
	int p[2];
	if (pipe(p)) abort();
	if (fork() == 0) {
		dup2(p[1], 1); dup2(p[1], 2);
		ArgParse a("prog");
		f(a);
		std::vector<char*> v(1, (char*)"prog");
		for (size_t i = 0; i < w.size(); ++i) v.push_back(&w[i][0]);
		v.push_back(0);
		Variant r = a.Parse(v.size() - 1, &v[0]);
		std::cout << SerializeJSON(r) << std::endl;
		_exit(0);
	}
	close(p[1]);
	std::string s; char b[512]; ssize_t k;
	while ((k = read(p[0], b, sizeof b)) > 0) s.append(b, k);
	close(p[0]);
	int st; wait(&st);
	std::string t;
	for (char c : s) if (!isspace(c)) t += c;
	return WEXITSTATUS(st) ? "error" : t;
}
struct Scratch { Scratch() { char n[] = "/tmp/b29.XXXXXX"; dir = mkdtemp(n); } ~Scratch() { unlink((dir + "/f").c_str()); rmdir(dir.c_str()); } } scratch;
'''
A = 'src/ArgParse.cc'
BUGS = [
 dict(id='p29-list-place', property='P29', needs='a configuration file with a list whose second or later element belongs to an option',
      breaks='values after the first in such a list are given to the first option or dropped', edits=[(A, 'i != e; ++i, ++index) {', 'i != e; ++i) {')],
      pre=PRE, demo=r'''CHECK(Run([](ArgParse &a) { a.AddOption("l[1]", 'x', "", "t"); a.AddConfigDefaults(); }, {"--config", File("{\"l\": [null, 7]}")}) == "{\"l\":[null,7]}");'''),
 dict(id='p29-list-limit', property='P29', needs='a configuration file with a list for an appending option, one element outside the limits',
      breaks='the elements of the list are not checked', edits=[(A, '''					CheckRequirements(*i);
					result.Append(*i);''', '''					result.Append(*i);''')],
      pre=PRE, demo=r'''CHECK(Run([](ArgParse &a) { a.AddOption("l", 'x', "", "t").Action(ARGACTION_APPEND).Maximum(5); a.AddConfigDefaults(); }, {"--config", File("{\"l\": [1, 7]}")}) == "error");'''),
 dict(id='p29-count-replaced', property='P29', needs='a count in a configuration file after the option was given on the command line',
      breaks='the count of the file replaces the one so far', edits=[(A, 'result += arg.AsInt();', 'result = arg.AsInt();')],
      pre=PRE, demo=r'''CHECK(Run([](ArgParse &a) { a.AddOption("n", 'n', "", "t").Action(ARGACTION_COUNT); a.AddConfigDefaults(); }, {"-n", "--config", File("{\"n\": 2}")}) == "{\"n\":3}");'''),
 dict(id='p29-two-groups', property='P29', needs='an option that is a member of two titled groups',
      breaks='the help shows the option twice', edits=[(A, '''						giter->second.members.push_back(&opt);
					}
					break;''', '''						giter->second.members.push_back(&opt);
					}''')],
      pre=PRE, demo=r'''std::string s = Run([](ArgParse &a) { a.AddOption("n", 'n', "", "special"); a.AddGroup("g", "G").Add("n"); a.AddGroup("h", "H").Add("n"); }, {"--help"});
CHECK(s.find("special") != std::string::npos && s.find("special") == s.rfind("special"));'''),
 dict(id='p29-default-false', property='P29', needs='help of an option whose default is false or zero',
      breaks='the help leaves such a default out', edits=[(A, 'if (!def.IsMap() && !def.IsList()) {', 'if (!def.IsMap() && !def.IsList() && def.AsString() != "0") {')],
      pre=PRE, demo=r'''CHECK(Run([](ArgParse &a) { a.AddOption("n", 'n', "", "special").Default(0); }, {"--help"}).find("special(default:0)") != std::string::npos);'''),
 dict(id='p29-print-at-once', property='P29', needs='an option after --print-config on the command line, or a default',
      breaks='the configuration is printed before the command line has been read', edits=[(A, 'impl->print_config = true;', 'impl->PrintConfig();')],
      pre=PRE, demo=r'''CHECK(Run([](ArgParse &a) { a.AddOption("n", 'n', "", "t"); a.AddConfigDefaults(); }, {"--print-config", "-n", "5"}) == "{\"n\":5}");'''),
 dict(id='p29-advanced-untitled', property='P29', needs='an advanced group with a description but no title',
      breaks='such a group is shown in the plain help', edits=[(A, 'group.advanced = gimpl->advanced;', 'group.advanced = gimpl->advanced && !gimpl->title.empty();')],
      pre=PRE, demo=r'''CHECK(Run([](ArgParse &a) { a.AddOption("n", 'n', "", "special"); a.AddGroup("g", "", "words").Advanced(true).Add("n"); }, {"--help"}).find("special") == std::string::npos);'''),
 dict(id='p29-store-false-file', property='P29', needs='true for a store_false option in a configuration file',
      breaks='the value of the file is ignored', edits=[(A, '''		case ARGACTION_STORE_FALSE:
			if (arg.IsBool()) {
				result = arg;
			} else {''', '''		case ARGACTION_STORE_FALSE:
			if (arg.IsBool()) {
				result = false;
			} else {''')],
      pre=PRE, demo=r'''CHECK(Run([](ArgParse &a) { a.AddOption("n", 'n', "", "t").Action(ARGACTION_STORE_FALSE); a.AddConfigDefaults(); }, {"--config", File("{\"n\": true}")}) == "{\"n\":true}");'''),
 dict(id='p29-usage-brackets', property='P29', needs='help with a positional argument that may be given more often than it must',
      breaks='the usage shows one optional argument too many', edits=[(A, '''					for (unsigned i = minArgs; i < maxArgs; ++i) {
						std::cerr << " [" << ArgString(arg);''', '''					for (unsigned i = minArgs; i <= maxArgs; ++i) {
						std::cerr << " [" << ArgString(arg);''')],
      pre=PRE, demo=r'''CHECK(Run([](ArgParse &a) { a.AddArgument("n", "t").Title("N").Action(ARGACTION_APPEND).MinArgs(1).MaxArgs(3); }, {"--help"}).find("prog:[options]N[N[N]]") == 0);'''),
]
