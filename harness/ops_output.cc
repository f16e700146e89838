#include "io.h"
using namespace drv;

// takes as many bytes per call as the schedule says; after cap bytes it fails in the given way
class UserSink : public EmitterOutput {
	Schedule q; long long cap; std::string mode; bool flushed_once;
public:
	std::string got;
	UserSink(const Schedule &q_, long long c, const std::string &m) : q(q_), cap(c), mode(m), flushed_once(false) {}
	unsigned Write(const void *p, unsigned len) {
		unsigned n = std::min(len, std::max(1u, q.next()));
		if (cap >= 0 && (long long)got.size() + n > cap) {
			n = cap - got.size();
			if (n == 0) {
				if (mode == "zero") return 0;
				if (mode == "once") cap = -1;
				if (mode == "int") throw 7;
				if (mode == "logic") throw std::length_error("sink is full");
				throw std::runtime_error("sink is full");
			}
		}
		got.append((const char*)p, n);
		return n;
	}
	void Flush() { if (mode == "flush") throw std::runtime_error("flush"); }
	unsigned NumBytesWritten() const { return got.size(); }
};

// a streambuf with room for cap bytes
class CapBuf : public std::streambuf {
	long long cap; bool badsync;
public:
	std::string got;
	CapBuf(long long c, bool b) : cap(c), badsync(b) {}
	int_type overflow(int_type ch) {
		if (ch == traits_type::eof() || (cap >= 0 && (long long)got.size() >= cap)) return traits_type::eof();
		got += (char)ch;
		return ch;
	}
	int sync() { return badsync ? -1 : 0; }
};

static std::string Slurp(const std::string &name) {
	FILE *f = fopen(name.c_str(), "r");
	std::string s;
	for (int ch; f && (ch = fgetc(f)) != EOF; ) s += (char)ch;
	if (f) fclose(f);
	return s;
}

// "em" drives an emitter on an output, "ser" the Serialize functions, "pl" the payload functions
static void Put(const std::string &api, shared_ptr<EmitterOutput> out, Variant v, SerializeType t, Variant p) {
	if (api == "pl" || api == "pl0") { SerializeWithPayload(out, v, t, p); return; }
	Emitter e = CreateEmitter(out, t, p);
	e << v;
	e.Close();
}

// the Serialize functions in general, and those named after a format ("nm", "nb")
template<class To> static void To1(const std::string &api, To to, Variant v, SerializeType t, Variant p) {
	bool pretty = p.Contains("pretty");
	if (api == "nb") SerializeBundle(to, v);
	else if (api == "pl" || api == "pl0") SerializeWithPayload(to, v, t, p);
	else if (api != "nm") Serialize(to, v, t, p);
	else if (t == SERIALIZE_JSON) SerializeJSON(to, v, pretty);
	else if (t == SERIALIZE_YAML) SerializeYAML(to, v);
	else if (t == SERIALIZE_XMLPLIST) SerializeXMLPLIST(to, v, pretty);
	else SerializeBundleHdr(to, v);
}
static unsigned ToMem(const std::string &api, void *to, unsigned n, Variant v, SerializeType t, Variant p) {
	bool pretty = p.Contains("pretty");
	if (api == "nb") return SerializeBundle(to, n, v);
	if (api == "pl" || api == "pl0") return SerializeWithPayload(to, n, v, t, p);
	if (api != "nm") return Serialize(to, n, v, t, p);
	if (t == SERIALIZE_JSON) return SerializeJSON(to, n, v, pretty);
	if (t == SERIALIZE_YAML) return SerializeYAML(to, n, v);
	if (t == SERIALIZE_XMLPLIST) return SerializeXMLPLIST(to, n, v, pretty);
	return SerializeBundleHdr(to, n, v);
}
static std::string ToStr(const std::string &api, Variant v, SerializeType t, Variant p) {
	bool pretty = p.Contains("pretty");
	if (api == "nb") return SerializeBundle(v);
	if (t == SERIALIZE_JSON) return SerializeJSON(v, pretty);
	if (t == SERIALIZE_YAML) return SerializeYAML(v);
	if (t == SERIALIZE_XMLPLIST) return SerializeXMLPLIST(v, pretty);
	return SerializeBundleHdr(v);
}

OP(out) {
	SerializeType t = Format(c.at("f").s);
	std::string api = c.at("api").s, k = c.at("k").s, mode = c.has("mode") ? c.at("mode").s : "";
	Variant v = NumVariant(c.at("v")), p;
	if (c.has("text")) v["z"] = std::string(c.at("text").n, 'x');
	if (c.has("items")) for (int i = 0; i < c.at("items").n; ++i) v["z"].Append(i);
	if (c.at("pretty").b) p["pretty"] = true;
	if (c.has("indent")) p["indent"] = (unsigned)c.at("indent").n;
	if (c.has("deep")) { Variant d; for (int i = 0; i < c.at("deep").n; ++i) { Variant w; w.Append(d); d = w; } v["z"] = d; }
	bool pl = api == "pl" || api == "pl0" || api == "nb", em = api == "em";
	if (api == "pl" || api == "nb") {
		v.SetPath(t == SERIALIZE_BUNDLEHDR ? "payload.data" : "payload/data", Variant(Blob::CreateCopy("\0payload bytes", 14)));
	}
	std::string ref = pl ? SerializeWithPayload(v, t, p) : Serialize(v, t, p);
	long long cap = c.has("cap") ? c.at("cap").n : c.has("short") ? (long long)ref.size() - c.at("short").n : -1;
	if (cap < -1) cap = 0;
	bool whole = cap < 0 || cap >= (long long)ref.size();
	std::string got, name;
	unsigned num = ref.size();
	J r;
	if (k == "str") {
		r = Guard([&] { got = ToStr(api, v, t, p); return Ok(); });
	} else if (k == "user") {
		shared_ptr<UserSink> s(new UserSink(Schedule(c.at("q")), cap, mode));
		r = Guard([&] {
			try { Put(api, s, v, t, p); } catch (int) { return Err("int"); }
			return Ok();
		});
		got = s->got;
	} else if (k == "sb") {
		CapBuf b(cap, mode == "flush");
		r = Guard([&] {
			if (em) Put(api, CreateEmitterOutput(&b), v, t, p);
			else To1(api, (std::streambuf*)&b, v, t, p);
			return Ok();
		});
		got = b.got;
	} else if (k == "mem" || k == "memx") {
		unsigned n = cap < 0 ? ref.size() : cap;
		std::vector<char> m(n);
		void *ptr = n ? &m[0] : malloc(0);
		r = Guard([&] {
			if (k == "memx") Put(api, CreateEmitterOutput(ptr, n), v, t, p);
			else if (em) {
				unsigned len = c.at("q").size() ? c.at("q")[0].n : 0;
				Put(api, CreateEmitterOutput(ptr, n, &len), v, t, p);
				num = len;
			} else num = ToMem(api, ptr, n, v, t, p);
			return Ok();
		});
		if (r.at("o").s == "ok") got.assign((char*)ptr, std::min<unsigned>(n, ref.size()));
		if (!n) free(ptr);
	} else if (k == "name" || k == "file") {
		name = ScratchFile("old content that is longer than some documents are");
		FILE *f = k == "file" ? fopen(name.c_str(), "w") : 0;
		if (f && mode == "unbuffered") setvbuf(f, 0, _IONBF, 0);
		r = Guard([&] {
			if (em) Put(api, k == "name" ? CreateEmitterOutput(name.c_str()) : CreateEmitterOutput(f), v, t, p);
			else if (k == "name") To1(api, name, v, t, p);
			else To1(api, f, v, t, p);
			return Ok();
		});
		if (f) fclose(f);
		got = Slurp(name);
		remove(name.c_str());
	} else if (k == "nodir") {
		whole = false;
		name = ScratchDir() + "/missing/file";
		r = Guard([&] {
			if (em) Put(api, CreateEmitterOutput(name.c_str()), v, t, p);
			else To1(api, name, v, t, p);
			return Ok();
		});
	} else if (k == "full" || k == "fullname") {
		whole = false;
		FILE *f = k == "full" ? fopen("/dev/full", "w") : 0;
		if (f && mode == "unbuffered") setvbuf(f, 0, _IONBF, 0);
		r = Guard([&] {
			if (k == "full") {
				if (em) Put(api, CreateEmitterOutput(f), v, t, p);
				else To1(api, f, v, t, p);
			} else {
				if (em) Put(api, CreateEmitterOutput("/dev/full"), v, t, p);
				else To1(api, std::string("/dev/full"), v, t, p);
			}
			return Ok();
		});
		if (f) fclose(f);
	} else throw std::logic_error("driver: sink kind");
	// long documents are compared here: how far the bytes agree
	long long same = 0;
	while (same < (long long)std::min(got.size(), ref.size()) && got[same] == ref[same]) ++same;
	r.set("whole", whole && mode != "flush").set("n", num).set("len", (long long)ref.size()).set("got", (long long)got.size()).set("same", same);
	if (c.has("bytes")) r.set("rb", FromBytes(ref)).set("gb", FromBytes(got));
	return r;
}
