#include "io.h"
using namespace drv;

static BlobPtr Pieces(const J &p) {
	if (p.size() == 0) return BlobPtr();
	std::vector<struct iovec> v;
	for (size_t i = 0; i < p.size(); ++i) {
		std::string s = Bytes(p[i]);
		struct iovec x = { malloc(s.size() + 1), s.size() };
		memcpy(x.iov_base, s.data(), s.size());
		v.push_back(x);
	}
	return Blob::CreateFree(&v[0], v.size());
}

static Variant Params(const J &c) {
	Variant p;
	if (c.has("dp")) p["data_path"] = PathString(ToPath(c.at("dp")));
	if (c.has("lp")) p["length_path"] = PathString(ToPath(c.at("lp")));
	if (c.has("ign")) p["ignore_payload"] = c.at("ign").b;
	if (c.has("n")) p["payload_length"] = c.at("n").n;
	return p;
}

static Variant Value(const J &c, const J &r, SerializeType t) {
	Variant v = NumVariant(r.at("v"));
	if (r.has("p")) {
		Path d = c.has("dp") ? ToPath(c.at("dp")) : ParsePath(t == SERIALIZE_BUNDLEHDR ? "payload.data" : "payload/data");
		v.SetPath(d, Variant(Pieces(r.at("p"))));
	}
	return v;
}

// a bundle with the usual paths through the functions named after it
static std::string WriteBundle(const std::string &via, Variant v) {
	if (via == "nstr") return SerializeBundle(v);
	if (via == "nsb") {
		std::stringbuf b;
		SerializeBundle(&b, v);
		return b.str();
	}
	size_t n = SerializeBundle(v).size();
	std::vector<char> m(n);
	unsigned k = SerializeBundle(&m[0], n, v);
	return std::string(&m[0], k);
}

static Variant ReadBundle(const std::string &k, const std::string &s) {
	if (k == "nstr") return DeserializeBundle(s);
	if (k == "nptr" || k == "nref") {
		std::vector<char> m(s.begin(), s.end());
		Variant v = DeserializeBundle(m.empty() ? (const void*)"" : &m[0], m.size(), k == "nptr");
		return k == "nref" ? v.Copy() : v;
	}
	Source src;
	if (k == "nsb") {
		std::stringbuf b(s);
		return DeserializeBundleFile(&b);
	}
	src.name = ScratchFile(s);
	if (k == "nname") return DeserializeBundleFile(src.name.c_str());
	src.f = fopen(src.name.c_str(), "r");
	return DeserializeBundleFile(src.f);
}

static std::string Write(const std::string &via, Variant v, SerializeType t, Variant p) {
	if (via[0] == 'n' && via != "name") return WriteBundle(via, v);
	if (via == "str") return SerializeWithPayload(v, t, p);
	if (via == "sb") {
		std::stringbuf b;
		SerializeWithPayload(&b, v, t, p);
		return b.str();
	}
	if (via == "mem") {
		size_t n = SerializeWithPayload(v, t, p).size();
		std::vector<char> m(n);
		unsigned k = SerializeWithPayload(&m[0], n, v, t, p);
		return std::string(&m[0], k);
	}
	std::string name = ScratchFile(std::string(20000, '?'));
	if (via == "name") SerializeWithPayload(name, v, t, p);
	else {
		FILE *f = fopen(name.c_str(), "w");
		SerializeWithPayload(f, v, t, p);
		fclose(f);
	}
	FILE *f = fopen(name.c_str(), "r");
	std::string s;
	for (int ch; (ch = fgetc(f)) != EOF; ) s += (char)ch;
	fclose(f);
	remove(name.c_str());
	return s;
}

static Variant Read(const J &via, const std::string &s, SerializeType t, Variant p) {
	std::string k = via.at("k").s;
	if (k[0] == 'n' && k != "name") return ReadBundle(k, s);
	if (k == "str") return DeserializeWithPayload(s, t, p);
	if (k == "ptr" || k == "ref") {
		std::vector<char> m(s.begin(), s.end());
		Variant v = DeserializeWithPayload(m.empty() ? (const void*)"" : &m[0], m.size(), t, p, k == "ptr");
		return k == "ref" ? v.Copy() : v;
	}
	Source src;
	if (k == "fname") {
		src.name = ScratchFile(s);
		return DeserializeWithPayloadFile(src.name.c_str(), t, p);
	}
	if (k == "ffile") {
		src.name = ScratchFile(s);
		src.f = fopen(src.name.c_str(), "r");
		return DeserializeWithPayloadFile(src.f, t, p);
	}
	if (k == "fsb") {
		std::stringbuf b(s);
		return DeserializeWithPayloadFile(&b, t, p);
	}
	return DeserializeWithPayload(src.open(via, s), t, p);
}

// write, look at the bytes, read the header text alone and the whole (or its first cut bytes) back
OP(pl) {
	SerializeType t = Format(c.at("f").s);
	Variant v = Value(c, c, t), p = Params(c);
	std::string s = Write(c.at("ov").s, v, t, p);
	size_t z = s.find('\0');
	J r = Ok();
	r.set("z", (long long)(z == std::string::npos ? 0 : z + 1)).set("n", (long long)s.size());
	if (z == std::string::npos) return r;
	size_t e = z;
	while (e > 0 && s[e - 1] == '\n') --e;
	r.set("e", (long long)e).set("rest", FromBytes(s.substr(z + 1)));
	r.set("h", Guard([&] { return Ok(FromNum(Deserialize(s.substr(0, z), t))); }));
	std::string in = c.has("cut") ? s.substr(0, std::min<long long>(s.size(), c.at("cut").n)) : s;
	if (c.has("cutz")) in = s.substr(0, z + 1 + c.at("cutz").n);
	r.set("k", (long long)in.size());
	r.set("back", Guard([&] { return Ok(FromNum(Read(c.at("iv"), in, t, p))); }));
	return r;
}

// several records through one output and one input
OP(plseq) {
	SerializeType t = Format(c.at("f").s);
	Variant p = Params(c);
	std::stringbuf b;
	shared_ptr<EmitterOutput> out = CreateEmitterOutput(&b);
	const J &rs = c.at("rs");
	J at = J::Arr(), back = J::Arr();
	for (size_t i = 0; i < rs.size(); ++i) {
		SerializeWithPayload(out, Value(c, rs[i], t), t, p);
		at.add((long long)b.str().size());
	}
	Source src;
	shared_ptr<ParserInput> in = src.open(c.at("iv"), b.str());
	for (size_t i = 0; i < rs.size(); ++i) back.add(Guard([&] { return Ok(FromNum(DeserializeWithPayload(in, t, p))); }));
	return Ok().set("back", back);
}

OP(bh) {
	Variant v = NumVariant(c.at("v"));
	std::string s = Serialize(v, SERIALIZE_BUNDLEHDR);
	return Ok(FromNum(Deserialize(s, SERIALIZE_BUNDLEHDR))).set("s", FromBytes(s));
}

OP(bread) {
	std::string s = Bytes(c.at("s"));
	Source src;
	Parser p = CreateParser(src.open(c.at("iv"), s), SERIALIZE_BUNDLEHDR);
	return Ok(FromNum(ParseVariant(p)));
}
