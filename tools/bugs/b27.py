PRE = '''
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
#include <string>
#include <stdexcept>
#include <stdint.h>
using namespace libvariant;
static std::string LOG; static std::string STOP;
struct H : public ParserActions {
	std::string n;
	H(const char *s) : n(s) {}
	void D(const char *f) { LOG += n + f + " "; if (n + f == STOP) { STOP = ""; throw std::runtime_error("stop"); } }
	void BeginDocument(ParserImpl *) { D("bd"); }
	void EndDocument(ParserImpl *) { D("ed"); }
	void BeginMap(ParserImpl *, int, const char *, const char *) { D("bm"); }
	void EndMap(ParserImpl *) { D("em"); }
	void BeginList(ParserImpl *, int, const char *, const char *) { D("bl"); }
	void EndList(ParserImpl *) { D("el"); }
	void Alias(ParserImpl *, const char *) { D("al"); }
	void Scalar(ParserImpl *, double, const char *, const char *) { D("s"); }
	void Scalar(ParserImpl *, const char *, unsigned, const char *, const char *) { D("s"); }
	void Scalar(ParserImpl *, bool, const char *, const char *) { D("s"); }
	void Null(ParserImpl *, const char *, const char *) { D("s"); }
	void Scalar(ParserImpl *, intmax_t, const char *, const char *) { D("s"); }
	void Scalar(ParserImpl *, uintmax_t, const char *, const char *) { D("s"); }
	void Scalar(ParserImpl *, BlobPtr, const char *, const char *) { D("s"); }
};
struct In : public ParserInput {
	std::string s;
	const void *GetPtr(unsigned &len) { len = s.size(); return len ? s.data() : 0; }
	void Release(unsigned n) { s.erase(0, n); }
};
static shared_ptr<In> IN(new In);
static Parser Make(const char *t, SerializeType f) { IN->s = t; return CreateParser(IN, f); }
static void Push(Parser &p, const char *n) { p.PushAction(shared_ptr<ParserActions>(new H(n))); }
static std::string All(Parser &p) {
	for (int i = 0; i < 50; ++i) {
		try { if (p.Run()) return LOG; } catch (std::exception &) { return LOG + "!"; }
	}
	return LOG + "?";
}
'''
BUGS = [
dict(id="p27-json-reset-depth", property="P27", needs="resetting a JSON parser that failed inside a list or map", breaks="the next document does not end where it should", pre=PRE,
 edits=[("src/JSONParser.cc", "\t\tcharcount = 0;\n\t\tdepth = 0;\n", "\t\tcharcount = 0;\n")],
 demo='''
	Parser p = Make("[1 x", SERIALIZE_JSON);
	Push(p, "a");
	All(p);
	IN->s = "[2] [3]"; LOG = ""; p.Reset();
	CHECK(All(p) == "abd abl as ael aed ");
'''),
dict(id="p27-bundle-reset-list", property="P27", needs="resetting a bundle header parser that was stopped inside a list", breaks="the rest of the old list shows up in the next one", pre=PRE,
 edits=[("src/BundleHdrParser.cc", "\t\tvalue.clear();\n\t\tlist.clear();\n\t\tline_num = 0;", "\t\tvalue.clear();\n\t\tline_num = 0;")],
 demo='''
	Parser p = Make("k: 1|2|3|\\n", SERIALIZE_BUNDLEHDR);
	Push(p, "a"); STOP = "abl";
	All(p);
	IN->s = "k: 7|8|\\n"; LOG = ""; p.Reset();
	CHECK(All(p) == "abd abm as abl as as ael aem aed ");
'''),
dict(id="p27-yaml-reset-eof", property="P27", needs="resetting a YAML parser that was done", breaks="it stays done", pre=PRE,
 edits=[("src/YAMLParser.cc", "\t\teof = false;\n\t\terr = false;\n\t\tyaml_parser_delete", "\t\tif (err) { eof = false; }\n\t\terr = false;\n\t\tyaml_parser_delete")],
 demo='''
	Parser p = Make("a\\n", SERIALIZE_YAML);
	Push(p, "a");
	All(p);
	IN->s = "b\\n"; LOG = ""; p.Reset();
	CHECK(!p.Done());
	CHECK(All(p) == "abd as aed ");
'''),
dict(id="p27-json-end-without-handler", property="P27", needs="a handler popped by itself when the last bracket of a JSON document is read", breaks="the end of the document is forgotten", pre=PRE,
 edits=[("src/JSONParser.cc", "\t\t\t\t\t\tif (status == S_OK) {\n", "\t\t\t\t\t\tif (status == S_OK && action_stack.empty()) { status = S_DONE; }\n\t\t\t\t\t\telse if (status == S_OK) {\n")],
 demo='''
	struct P : public H { P() : H("p") {} void EndList(ParserImpl *i) { D("el"); i->PopAction(); } };
	Parser p = Make("[1]", SERIALIZE_JSON);
	p.PushAction(shared_ptr<ParserActions>(new P));
	p.Run(); p.Run();
	Push(p, "a");
	CHECK(All(p) == "pbd pbl ps pel aed ");
'''),
dict(id="p27-yaml-run-again", property="P27", needs="running a YAML parser between two documents without a handler", breaks="it says that it is done", pre=PRE,
 edits=[("src/YAMLParser.cc", "return eof ? 1 : 0;", "return eof || (loop && action_stack.empty() && parser.eof) ? 1 : 0;")],
 demo='''
	struct P : public H { P() : H("p") {} void EndList(ParserImpl *i) { D("el"); i->PopAction(); } };
	Parser p = Make("[a]\\n", SERIALIZE_YAML);
	p.PushAction(shared_ptr<ParserActions>(new P));
	CHECK(p.Run() == 0);
'''),
dict(id="p27-yaml-error-forgotten", property="P27", needs="resetting a YAML parser after an error", breaks="it still tells the error", pre=PRE,
 edits=[("src/YAMLParser.cc", "\t\teof = false;\n\t\terr = false;\n\t\tyaml_parser_delete", "\t\terr = err && !eof && parser.error == YAML_SCANNER_ERROR;\n\t\teof = false;\n\t\tyaml_parser_delete")],
 demo='''
	Parser p = Make("a: b: @\\n", SERIALIZE_YAML);
	Push(p, "a");
	All(p);
	IN->s = "b\\n"; LOG = ""; p.Reset();
	CHECK(!p.Error());
'''),
]
