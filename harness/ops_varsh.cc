// The varsh program, run as a child process on files in the scratch directory.
#include "common.h"
#include <fcntl.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>
// as the build of the repository defines them
#define ENABLE_XML
#define ENABLE_YAML
#define main varsh_main
#include "varsh.cc"
#undef main

namespace drv {

// documents are written here, not by the library
static std::string Number(const J &v) {
	char b[64];
	if (v.at("t").s != "F") return std::to_string(v.at("i").n);
	snprintf(b, sizeof b, "%.10f", v.at("q").n / 1024.0);
	return b;
}
static std::string Quoted(const std::string &s) {
	std::string r = "\"";
	for (unsigned char c : s) {
		char b[8];
		if (c == '"' || c == '\\') r += std::string("\\") + (char)c;
		else if (c < 32) { snprintf(b, sizeof b, "\\u%04x", c); r += b; }
		else r += (char)c;
	}
	return r + "\"";
}
static std::string Json(const J &v) {
	const std::string t = v.at("t").s;
	std::string r;
	if (t == "N") return "null";
	if (t == "B") return v.at("b").b ? "true" : "false";
	if (t == "S") return Quoted(Bytes(v.at("s")));
	if (t == "L") {
		for (const J &x : v.at("l").a) r += (r.empty() ? "" : ", ") + Json(x);
		return "[" + r + "]";
	}
	if (t == "M") {
		for (const J &x : v.at("m").a) r += (r.empty() ? "" : ", ") + Quoted(Bytes(x[0])) + ": " + Json(x[1]);
		return "{" + r + "}";
	}
	return Number(v);
}
static std::string Xml(const std::string &s) {
	std::string r;
	for (char c : s) r += c == '<' ? "&lt;" : c == '&' ? "&amp;" : c == '>' ? "&gt;" : std::string(1, c);
	return r;
}
static std::string Plist(const J &v) {
	const std::string t = v.at("t").s;
	std::string r;
	if (t == "N") return "<null/>";
	if (t == "B") return v.at("b").b ? "<true/>" : "<false/>";
	if (t == "S") return "<string>" + Xml(Bytes(v.at("s"))) + "</string>";
	if (t == "L") {
		for (const J &x : v.at("l").a) r += Plist(x);
		return "<array>" + r + "</array>";
	}
	if (t == "M") {
		for (const J &x : v.at("m").a) r += "<key>" + Xml(Bytes(x[0])) + "</key>" + Plist(x[1]);
		return "<dict>" + r + "</dict>";
	}
	return t == "F" ? "<real>" + Number(v) + "</real>" : "<integer>" + Number(v) + "</integer>";
}

static void Put(const std::string &name, const std::string &text) {
	FILE *f = fopen(name.c_str(), "wb");
	if (!f || fwrite(text.data(), 1, text.size(), f) != text.size() || fclose(f)) throw std::logic_error("driver: file");
}
static std::string Take(const std::string &name) {
	std::string r;
	FILE *f = fopen(name.c_str(), "rb");
	if (!f) return r;
	char b[4096];
	size_t k;
	while ((k = fread(b, 1, sizeof b, f)) > 0) r.append(b, k);
	fclose(f);
	unlink(name.c_str());
	return r;
}

// the documents in a text; no array if there is something else
static J Documents(const std::string &text, const std::string &as) {
	J ds = J::Arr();
	if (text.empty()) return ds;
	try {
		if (as == "yaml") return ds.add(FromVariant(Deserialize(text, SERIALIZE_YAML)));
		if (as == "plist") return ds.add(FromVariant(Deserialize(text, SERIALIZE_XMLPLIST)));
		if (as == "json") return ds.add(FromVariant(DeserializeJSON("[" + text + "]")[0]));
		for (size_t b = 0, e; b < text.size(); b = e + 1) {
			e = text.find('\n', b);
			if (e == std::string::npos) return J();
			const std::string l = text.substr(b, e - b);
			ds.add(as == "lines" ? FromBytes(l) : FromVariant(DeserializeJSON("[" + l + "]")[0]));
		}
	} catch (std::exception &) { return J(); }
	return ds;
}

// files: [name, format, value or text]; input: name of the file that is the standard input
OP(varsh) {
	char tmpl[] = "varshXXXXXX";
	if (!mkdtemp(tmpl)) throw std::logic_error("driver: mkdtemp");
	const std::string dir = tmpl;
	std::vector<std::string> made;
	for (const J &f : c.at("files").a) {
		const std::string how = f.at("fmt").s, name = dir + "/" + Bytes(f.at("name"));
		Put(name, how == "raw" ? Bytes(f.at("raw")) : how == "plist" ? "<?xml version=\"1.0\"?>\n<plist>" + Plist(f.at("v")) + "</plist>\n"
				: (how == "yaml" ? "--- " : "") + Json(f.at("v")) + "\n");
		made.push_back(name);
	}
	pid_t pid = fork();
	if (pid == 0) {
		alarm(20);
		if (chdir(dir.c_str())) _exit(98);
		int in = open(c.has("input") ? Bytes(c.at("input")).c_str() : "/dev/null", O_RDONLY);
		int out = open("stdout", O_WRONLY | O_CREAT | O_TRUNC, 0600), err = open("/dev/null", O_WRONLY);
		if (in < 0 || out < 0 || dup2(in, 0) < 0 || dup2(out, 1) < 0 || dup2(err, 2) < 0) _exit(98);
		std::vector<std::string> text(1, "varsh");
		for (const J &a : c.at("argv").a) text.push_back(Bytes(a));
		std::vector<char*> argv;
		for (size_t k = 0; k < text.size(); ++k) argv.push_back(&text[k][0]);
		argv.push_back(0);
		int rc = 70;	// an exception that leaves main ends the program, too
		try { rc = varsh_main(argv.size() - 1, &argv[0]); } catch (...) {}
		std::cout.flush();
		_exit(rc);
	}
	int st = 0;
	waitpid(pid, &st, 0);
	const std::string shown = Take(dir + "/stdout"), kept = Take(dir + "/kept");
	for (const std::string &n : made) unlink(n.c_str());
	rmdir(dir.c_str());
	if (!WIFEXITED(st) || WEXITSTATUS(st) == 99) return J::Obj().set("o", "crash");
	if (WEXITSTATUS(st) == 98) throw std::logic_error("driver: child");
	const J docs = Documents(c.at("keep").b ? kept : shown, c.at("as").s);
	const bool garbled = docs.t != J::ARR;
	return J::Obj().set("o", garbled ? "garbled" : WEXITSTATUS(st) ? "fail" : "ok").set("shown", !shown.empty())
		.set("docs", garbled ? J::Arr() : docs);
}

}
