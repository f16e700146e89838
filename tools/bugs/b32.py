PRE = r'''
#include <fcntl.h>
#include <sys/wait.h>
#define ENABLE_YAML
#define ENABLE_XML
#define main varsh_main
#include "varsh.cc"
#undef main
static std::string dir;
static void File(const char *n, const char *text) { std::ofstream((dir + "/" + n).c_str()) << text; }
static std::string Run(std::vector<std::string> w) {
	int p[2];
	if (pipe(p)) abort();
	if (fork() == 0) {
		dup2(p[1], 1);
		dup2(open("/dev/null", O_WRONLY), 2);
		if (chdir(dir.c_str())) _exit(3);
		std::vector<char*> v(1, (char*)"varsh");
		for (size_t i = 0; i < w.size(); ++i) v.push_back(&w[i][0]);
		v.push_back(0);
		int rc = 70;
		try { rc = varsh_main(v.size() - 1, &v[0]); } catch (...) {}
		std::cout.flush();
		_exit(rc);
	}
	close(p[1]);
	std::string s; char b[512]; ssize_t k;
	while ((k = read(p[0], b, sizeof b)) > 0) s.append(b, k);
	close(p[0]);
	int st; wait(&st);
	return WEXITSTATUS(st) ? "error" : s;
}
struct Scratch { Scratch() { char n[] = "/tmp/b32.XXXXXX"; dir = mkdtemp(n); }
	~Scratch() { unlink((dir + "/f").c_str()); unlink((dir + "/g").c_str()); unlink((dir + "/h").c_str()); rmdir(dir.c_str()); } } scratch;
'''
V = 'src/varsh.cc'
BUGS = [
 dict(id='p30-set-missing', property='P30', needs='--set at a path that does not exist yet', breaks='nothing is set',
      edits=[(V, 'data.SetPath(conf["path"].AsString(), conf["set"]);', 'if (data.HasPath(conf["path"].AsString())) data.SetPath(conf["path"].AsString(), conf["set"]);')],
      pre=PRE, demo=r'''File("f", "{\"a\": 1}"); CHECK(Run({"--pretty=false", "--path=b", "--set=2", "f"}) == "{\"a\": 1,\"b\": 2}\n");'''),
 dict(id='p30-later-schema', property='P30', needs='two schemas, only the second of which the document violates', breaks='only the first schema is looked at',
      edits=[(V, '''				cerr << result << endl;
				exit(1);
			}
''', '''				cerr << result << endl;
				exit(1);
			}
			break;
''')],
      pre=PRE, demo=r'''File("f", "{\"a\": 1}"); File("g", "{}"); File("h", "{\"type\": \"string\"}"); CHECK(Run({"--schema=g", "--schema=h", "f"}) == "error");'''),
 dict(id='p30-null-unlisted', property='P30', needs='--list of a map with a null member', breaks='its key is not listed',
      edits=[(V, 'out << i->first << endl;', 'if (!i->second.IsNull()) out << i->first << endl;')],
      pre=PRE, demo=r'''File("f", "{\"a\": null, \"b\": 1}"); CHECK(Run({"--list", "f"}) == "a\nb\n");'''),
 dict(id='p30-expand-delimiter', property='P30', needs='expansion with another path delimiter', breaks='the delimiter is not used',
      edits=[(V, 'data = ExpandPath( data, state.conf.GetPath("extension/params") );', 'data = ExpandPath( data, Variant::MapType );')],
      pre=PRE, demo=r'''File("f", "{\"a.b\": 1}"); CHECK(Run({"--pretty=false", "-e", "--path-delimiter=.", "f"}) == "{\"a\": {\"b\": 1}}\n");'''),
 dict(id='p30-set-first-input', property='P30', needs='--set-file with a path and more than one input', breaks='only the first input is changed',
      edits=[(V, '''			data.SetPath(conf["path"].AsString(), conf["set"]);
''', '''			data.SetPath(conf["path"].AsString(), conf["set"]);
			if (conf.Contains("set-file")) state.conf.Erase("set");
''')],
      pre=PRE, demo=r'''File("f", "{\"a\": 1}"); File("g", "5"); CHECK(Run({"--pretty=false", "--path=a", "--set-file=g", "f", "f"}) == "{\"a\": 5}\n{\"a\": 5}\n");'''),
 dict(id='p30-xml-in-guessed', property='P30', needs='-X on a document that is not XML', breaks='the format is guessed',
      edits=[(V, 'if (state.conf.Get("plist-in", false).AsBool()) { itype = SERIALIZE_XMLPLIST; }', 'if (state.conf.Get("plist-in", false).AsBool()) { itype = SERIALIZE_GUESS; }')],
      pre=PRE, demo=r'''File("f", "{\"a\": 1}"); CHECK(Run({"-X", "f"}) == "error");'''),
]
