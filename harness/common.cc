#include "common.h"
#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <sys/time.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <sys/uio.h>
#include <iostream>
#include <fstream>
#include <sstream>
#include <math.h>
#include <typeinfo>

using namespace libvariant;
namespace drv {

struct Rd {
	const std::string &s; size_t p;
	Rd(const std::string &t) : s(t), p(0) {}
	void ws() { while (p < s.size() && (s[p] == ' ' || s[p] == '\n' || s[p] == '\t' || s[p] == '\r')) ++p; }
	void fail() { throw std::logic_error("driver: bad case JSON"); }
	J val() {
		ws();
		if (p >= s.size()) fail();
		char c = s[p];
		if (c == '{') {
			J j = J::Obj(); ++p; ws();
			if (s[p] == '}') { ++p; return j; }
			for (;;) {
				ws(); std::string k = str(); ws();
				if (s[p++] != ':') fail();
				j.o.push_back(std::make_pair(k, val())); ws();
				if (s[p] == ',') { ++p; continue; }
				if (s[p++] == '}') return j;
				fail();
			}
		}
		if (c == '[') {
			J j = J::Arr(); ++p; ws();
			if (s[p] == ']') { ++p; return j; }
			for (;;) {
				j.a.push_back(val()); ws();
				if (s[p] == ',') { ++p; continue; }
				if (s[p++] == ']') return j;
				fail();
			}
		}
		if (c == '"') return J(str());
		if (s.compare(p, 4, "true") == 0) { p += 4; return J(true); }
		if (s.compare(p, 5, "false") == 0) { p += 5; return J(false); }
		if (s.compare(p, 4, "null") == 0) { p += 4; return J(); }
		char *e; long long n = strtoll(s.c_str() + p, &e, 10);
		if (e == s.c_str() + p) fail();
		p = e - s.c_str();
		return J(n);
	}
	std::string str() {
		if (s[p++] != '"') fail();
		std::string r;
		while (p < s.size() && s[p] != '"') {
			if (s[p] == '\\') {
				++p;
				switch (s[p]) {
				case 'n': r += '\n'; break; case 't': r += '\t'; break; case 'r': r += '\r'; break;
				case 'b': r += '\b'; break; case 'f': r += '\f'; break;
				case 'u': {
					unsigned u = strtoul(s.substr(p + 1, 4).c_str(), 0, 16); p += 4;
					if (u < 0x80) r += (char)u;
					else if (u < 0x800) { r += (char)(0xC0 | (u >> 6)); r += (char)(0x80 | (u & 63)); }
					else { r += (char)(0xE0 | (u >> 12)); r += (char)(0x80 | ((u >> 6) & 63)); r += (char)(0x80 | (u & 63)); }
					break; }
				default: r += s[p];
				}
				++p;
			} else r += s[p++];
		}
		++p;
		return r;
	}
};

J ParseJ(const std::string &text) { Rd r(text); return r.val(); }

static void WriteS(std::string &out, const std::string &s) {
	out += '"';
	for (size_t i = 0; i < s.size(); ++i) {
		unsigned char c = s[i];
		if (c == '"' || c == '\\') { out += '\\'; out += c; }
		else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); out += b; }
		else out += c;
	}
	out += '"';
}

void WriteJ(std::string &out, const J &j) {
	switch (j.t) {
	case J::NUL: out += "null"; break;
	case J::BOOL: out += j.b ? "true" : "false"; break;
	case J::NUM: { char b[32]; snprintf(b, sizeof b, "%lld", j.n); out += b; break; }
	case J::STR: WriteS(out, j.s); break;
	case J::ARR:
		out += '[';
		for (size_t i = 0; i < j.a.size(); ++i) { if (i) out += ','; WriteJ(out, j.a[i]); }
		out += ']'; break;
	case J::OBJ:
		out += '{';
		for (size_t i = 0; i < j.o.size(); ++i) { if (i) out += ','; WriteS(out, j.o[i].first); out += ':'; WriteJ(out, j.o[i].second); }
		out += '}'; break;
	}
}

std::string Bytes(const J &j) {
	std::string s;
	if (j.t == J::STR) return j.s;
	for (size_t i = 0; i < j.a.size(); ++i) s += (char)(unsigned char)j.a[i].n;
	return s;
}
J FromBytes(const std::string &s) {
	J j = J::Arr();
	for (size_t i = 0; i < s.size(); ++i) j.add(J((int)(unsigned char)s[i]));
	return j;
}

Variant ToVariant(const J &j) {
	const std::string &t = j.at("t").s;
	if (t == "N") return Variant();
	if (t == "B") return Variant(j.at("b").b);
	if (t == "I") return j.has("i") ? Variant((intmax_t)j.at("i").n) : Variant((intmax_t)strtoll(j.at("w").s.c_str(), 0, 10));
	if (t == "U") return j.has("i") ? Variant((uintmax_t)j.at("i").n) : Variant((uintmax_t)strtoull(j.at("w").s.c_str(), 0, 10));
	if (t == "F") {
		if (j.has("q")) return Variant((double)j.at("q").n / 1024.0);
		uint64_t b = strtoull(j.at("x").s.c_str(), 0, 16);
		double d; memcpy(&d, &b, 8); return Variant(d);
	}
	if (t == "S") return Variant(Bytes(j.at("s")));
	if (t == "D") {
		std::string b = Bytes(j.at("d"));
		if (j.has("null")) return Variant(Variant::BlobType);
		if (!j.has("cut")) return Variant(Blob::CreateCopy(b.data(), b.size()));
		// a blob in pieces: cut holds the piece lengths
		std::vector<struct iovec> v; size_t at = 0; const J &cut = j.at("cut");
		for (size_t i = 0; i < cut.size(); ++i) {
			struct iovec x; x.iov_len = cut[i].n; x.iov_base = malloc(x.iov_len ? x.iov_len : 1);
			memcpy(x.iov_base, b.data() + at, x.iov_len); at += x.iov_len; v.push_back(x);
		}
		return Variant(Blob::CreateFree(v.empty() ? 0 : &v[0], v.size()));
	}
	if (t == "L") {
		Variant v(Variant::ListType); const J &l = j.at("l");
		for (size_t i = 0; i < l.size(); ++i) v.Append(ToVariant(l[i]));
		return v;
	}
	if (t == "M") {
		Variant v(Variant::MapType); const J &m = j.at("m");
		for (size_t i = 0; i < m.size(); ++i) v.AsMap()[Bytes(m[i][0])] = ToVariant(m[i][1]);
		return v;
	}
	throw std::logic_error("driver: bad value type " + t);
}

J FromVariant(const Variant &v) {
	J j = J::Obj();
	switch (v.GetType()) {
	case VariantDefines::NullType: return j.set("t", "N");
	case VariantDefines::BoolType: return j.set("t", "B").set("b", v.AsBool());
	case VariantDefines::IntegerType: {
		intmax_t i = v.AsInt(); j.set("t", "I");
		if (i >= -1000000000 && i <= 1000000000) return j.set("i", J((long long)i));
		char b[32]; snprintf(b, sizeof b, "%jd", i); return j.set("w", b); }
	case VariantDefines::UnsignedType: {
		uintmax_t i = v.AsUnsigned(); j.set("t", "U");
		if (i <= 1000000000) return j.set("i", J((long long)i));
		char b[32]; snprintf(b, sizeof b, "%ju", i); return j.set("w", b); }
	case VariantDefines::FloatType: {
		double d = v.AsDouble(); j.set("t", "F");
		if (!std::isnan(d) && !std::isinf(d) && fabs(d) <= 900000.0 && floor(d * 1024) == d * 1024 && !(d == 0 && std::signbit(d)))
			return j.set("q", J((long long)(d * 1024)));
		if (std::isnan(d)) return j.set("x", "7ff8000000000000");
		uint64_t b; memcpy(&b, &d, 8); char s[32]; snprintf(s, sizeof s, "%016llx", (unsigned long long)b);
		return j.set("x", s); }
	case VariantDefines::StringType: return j.set("t", "S").set("s", FromBytes(v.AsString()));
	case VariantDefines::BlobType: {
		std::string s; ConstBlobPtr b = v.AsBlob();
		if (b) for (unsigned i = 0; i < b->GetNumBuffers(); ++i) s.append((const char*)b->GetPtr(i), b->GetLength(i));
		return j.set("t", "D").set("d", FromBytes(s)); }
	case VariantDefines::ListType: {
		J l = J::Arr(); const Variant::List &list = v.AsList();
		for (size_t i = 0; i < list.size(); ++i) l.add(FromVariant(list[i]));
		return j.set("t", "L").set("l", l); }
	case VariantDefines::MapType: {
		J m = J::Arr(); const Variant::Map &map = v.AsMap();
		for (Variant::Map::const_iterator i = map.begin(); i != map.end(); ++i)
			m.add(J::Arr().add(FromBytes(i->first)).add(FromVariant(i->second)));
		return j.set("t", "M").set("m", m); }
	default: return j.set("t", "?");
	}
}

static J Dyadic(const char *t, int g, unsigned __int128 m, int e) {
	J j = J::Obj().set("t", t);
	J limbs = J::Arr();
	if (m == 0) { g = 0; e = 0; }
	while (m && !(m & 1)) { m >>= 1; ++e; }
	for (; m; m >>= 15) limbs.add(J((int)(m & 32767)));
	return j.set("g", g).set("m", limbs).set("e", e);
}
J FromNum(const Variant &v) {
	switch (v.GetType()) {
	case VariantDefines::IntegerType: {
		intmax_t i = v.AsInt();
		return Dyadic("I", i < 0 ? -1 : 1, i < 0 ? (unsigned __int128)0 - (unsigned __int128)(__int128)i : i, 0); }
	case VariantDefines::UnsignedType: return Dyadic("U", 1, v.AsUnsigned(), 0);
	case VariantDefines::FloatType: {
		long double f = v.AsLongDouble();
		if (std::isnan(f)) return J::Obj().set("t", "F").set("k", "nan");
		if (std::isinf(f)) return J::Obj().set("t", "F").set("k", "inf").set("g", f < 0 ? -1 : 1);
		int e; long double m = frexpl(fabsl(f), &e);
		return Dyadic("F", f < 0 ? -1 : 1, (uint64_t)ldexpl(m, 64), e - 64); }
	case VariantDefines::ListType: {
		J l = J::Arr(); const Variant::List &list = v.AsList();
		for (size_t i = 0; i < list.size(); ++i) l.add(FromNum(list[i]));
		return J::Obj().set("t", "L").set("l", l); }
	case VariantDefines::MapType: {
		J m = J::Arr(); const Variant::Map &map = v.AsMap();
		for (Variant::Map::const_iterator i = map.begin(); i != map.end(); ++i)
			m.add(J::Arr().add(FromBytes(i->first)).add(FromNum(i->second)));
		return J::Obj().set("t", "M").set("m", m); }
	default: return FromVariant(v);
	}
}
Variant NumVariant(const J &j) {
	const std::string &t = j.at("t").s;
	if (t == "L") {
		Variant v(Variant::ListType); const J &l = j.at("l");
		for (size_t i = 0; i < l.size(); ++i) v.Append(NumVariant(l[i]));
		return v;
	}
	if (t == "M") {
		Variant v(Variant::MapType); const J &m = j.at("m");
		for (size_t i = 0; i < m.size(); ++i) v.AsMap()[Bytes(m[i][0])] = NumVariant(m[i][1]);
		return v;
	}
	if (j.has("k")) return Variant(j.at("k").s == "nan" ? (long double)NAN : j.at("g").n < 0 ? -(long double)INFINITY : (long double)INFINITY);
	if (!j.has("g")) return ToVariant(j);
	uint64_t m = 0; const J &limbs = j.at("m");
	for (size_t i = limbs.size(); i-- > 0;) m = (m << 15) | (uint64_t)limbs[i].n;
	int e = j.at("e").n; bool neg = j.at("g").n < 0;
	if (t == "F") { long double f = ldexpl((long double)m, e); return Variant(neg ? -f : f); }
	m <<= e;
	if (t == "U") return Variant((uintmax_t)m);
	return Variant((intmax_t)(neg ? 0 - m : m));
}

J FromPath(const Path &p) {
	J j = J::Arr();
	for (size_t i = 0; i < p.size(); ++i) {
		if (p[i].IsNumber()) j.add(J::Obj().set("t", "U").set("i", J((long long)p[i].AsUnsigned())));
		else j.add(J::Obj().set("t", "S").set("s", FromBytes(p[i].AsString())));
	}
	return j;
}
Path ToPath(const J &j) {
	Path p;
	for (size_t i = 0; i < j.size(); ++i) {
		if (j[i].has("s")) p.push_back(PathElement(Bytes(j[i].at("s"))));
		else p.push_back(PathElement((unsigned)j[i].at("i").n));
	}
	return p;
}

J Ok() { return J::Obj().set("o", "ok"); }
J Ok(const J &v) { return J::Obj().set("o", "ok").set("v", v); }
J Err(const std::string &k) { return J::Obj().set("o", "err").set("k", k); }
J Guard(std::function<J()> f) {
	try { return f(); }
	catch (std::logic_error &e) {
		if (strncmp(e.what(), "driver:", 7) == 0) throw;
		return Err(dynamic_cast<std::out_of_range*>(&e) ? "range" : "logic");
	}
	catch (InvalidReferenceError &e) { return Err("badref"); }
	catch (std::bad_alloc &e) { return Err("alloc"); }
	catch (std::exception &e) { return Err("exc"); }
}

static std::map<std::string, Fn> &Table() { static std::map<std::string, Fn> t; return t; }
void Register(const std::string &n, Fn f) { Table()[n] = f; }

static std::string scratch;
std::string ScratchDir() { return scratch; }

SerializeType Format(const std::string &s) {
	if (s == "json") return SERIALIZE_JSON;
	if (s == "yaml") return SERIALIZE_YAML;
	if (s == "xml") return SERIALIZE_XMLPLIST;
	if (s == "bundle") return SERIALIZE_BUNDLEHDR;
	if (s == "guess") return SERIALIZE_GUESS;
	throw std::logic_error("driver: format " + s);
}

static J RunCase(const J &c) {
	std::map<std::string, Fn>::iterator i = Table().find(c.at("op").s);
	if (i == Table().end()) throw std::logic_error("driver: no op " + c.at("op").s);
	Fn f = i->second;
	return Guard([&]() { return f(c); });
}
}

// usage: driver CASES OUT SCRATCH [CPU_SECONDS]
// Each case runs in a worker process; a worker that dies is replaced and the case is recorded as crash/hang.
int main(int argc, char **argv) {
	using namespace drv;
	if (argc < 4) { fprintf(stderr, "usage\n"); return 2; }
	scratch = argv[3];
	int cpu = argc > 4 ? atoi(argv[4]) : 10;
	std::vector<std::string> cases;
	{ std::ifstream in(argv[1]); std::string l; while (std::getline(in, l)) if (!l.empty()) cases.push_back(l); }
	int out = open(argv[2], O_WRONLY | O_CREAT | O_TRUNC, 0644);
	if (out < 0) { perror(argv[2]); return 2; }
	size_t next = 0;
	int pfd[2], hangs = 0, crashes = 0;
	while (next < cases.size()) {
		if (hangs >= 3 || crashes >= 100) {	// enough failures: do not spend the time on the rest
			for (; next < cases.size(); ++next) if (write(out, "{\"o\":\"skip\"}\n", 13) != 13) return 2;
			break;
		}
		if (pipe(pfd)) return 2;
		pid_t pid = fork();
		if (pid == 0) {
			close(pfd[0]);
			int nul = open("/dev/null", O_RDWR); dup2(nul, 0); dup2(nul, 1);
			if (!getenv("DRV_STDERR")) dup2(nul, 2);
			struct rlimit rl = { 0, 0 }; setrlimit(RLIMIT_CORE, &rl);
			for (size_t i = next; i < cases.size(); ++i) {
				struct itimerval it; memset(&it, 0, sizeof it); it.it_value.tv_sec = cpu;
				setitimer(ITIMER_PROF, &it, 0);
				alarm(cpu * 12);
				std::string r;
				try {
					WriteJ(r, RunCase(ParseJ(cases[i])));
				} catch (std::exception &e) {
					r = std::string("!") + e.what();
				}
				r += '\n';
				size_t w = 0;
				while (w < r.size()) { ssize_t k = write(pfd[1], r.data() + w, r.size() - w); if (k <= 0) _exit(3); w += k; }
			}
			_exit(0);
		}
		close(pfd[1]);
		std::string buf; char tmp[65536]; ssize_t k; size_t done = 0;
		while ((k = read(pfd[0], tmp, sizeof tmp)) > 0) {
			buf.append(tmp, k);
			size_t nl = buf.rfind('\n');
			if (nl != std::string::npos) {
				for (size_t i = 0; i <= nl; ++i) if (buf[i] == '\n') ++done;
				if (write(out, buf.data(), nl + 1) != (ssize_t)(nl + 1)) return 2;
				buf.erase(0, nl + 1);
			}
		}
		close(pfd[0]);
		int st = 0; waitpid(pid, &st, 0);
		next += done;
		if (next < cases.size()) {
			const char *o = "crash";
			++crashes;
			if (WIFSIGNALED(st) && (WTERMSIG(st) == SIGPROF || WTERMSIG(st) == SIGALRM)) { o = "hang"; ++hangs; }
			std::string r = std::string("{\"o\":\"") + o + "\"}\n";
			if (write(out, r.data(), r.size()) < 0) return 2;
			++next;
		}
	}
	close(out);
	return 0;
}
