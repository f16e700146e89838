#include "io.h"
using namespace drv;

static J Collect(LoadAllIterator i) {
	J l = J::Arr();
	for (int n = 0; i != LoadAllIterator() && n < 40; ++n, ++i) l.add(FromNum(*i));
	return J::Obj().set("t", "L").set("l", l);
}

// the functions named after a format
#define NAMED(Fn, FileFn) do { \
	if (k == "nstr") return Fn(s); \
	if (k == "ncstr") return Fn(s.c_str()); \
	if (k == "nptr") return Fn(s.empty() ? (const void*)"" : (const void*)&src.mem[0], s.size()); \
	if (k == "nname") return FileFn(src.name.c_str()); \
	if (k == "nfile") return FileFn(src.f); \
	return FileFn(src.sb.get()); } while (false)

static void Prepare(Source &src, const std::string &k, const std::string &s, const J &q) {
	if (k == "nptr") src.mem.assign(s.begin(), s.end());
	if (k == "nname" || k == "nfile") src.name = ScratchFile(s);
	if (k == "nfile") src.f = fopen(src.name.c_str(), "r");
	if (k == "nsb") src.sb.reset(new PieceBuf(s, Schedule(q)));
}
static Variant ReadNamed(Source &src, const std::string &k, const std::string &s, SerializeType t) {
	switch (t) {
	case SERIALIZE_JSON: NAMED(DeserializeJSON, DeserializeJSONFile);
	case SERIALIZE_YAML: NAMED(DeserializeYAML, DeserializeYAMLFile);
	case SERIALIZE_XMLPLIST: NAMED(DeserializeXMLPLIST, DeserializeXMLPLISTFile);
	case SERIALIZE_BUNDLEHDR: NAMED(DeserializeBundleHdr, DeserializeBundleHdrFile);
	default: NAMED(DeserializeGuess, DeserializeGuessFile);
	}
}
static LoadAllIterator ReadNamedAll(Source &src, const std::string &k, const std::string &s) { NAMED(DeserializeYAMLAll, DeserializeYAMLAllFile); }

static J ReadVia(const J &via, const std::string &s, SerializeType t, bool all) {
	std::string k = via.at("k").s;
	Source src;
	if (k[0] == 'n' && k != "name") {
		Prepare(src, k, s, via.at("q"));
		return all ? Collect(ReadNamedAll(src, k, s)) : FromNum(ReadNamed(src, k, s, t));
	}
	if (k == "dstr") return all ? Collect(DeserializeAll(s, t)) : FromNum(Deserialize(s, t));
	if (k == "dcstr") return all ? Collect(DeserializeAll(s.c_str(), t)) : FromNum(Deserialize(s.c_str(), t));
	if (k == "dptr") {
		src.mem.assign(s.begin(), s.end());
		const void *p = s.empty() ? (const void*)"" : &src.mem[0];
		return all ? Collect(DeserializeAll(p, s.size(), t)) : FromNum(Deserialize(p, s.size(), t));
	}
	if (k == "dname") {
		src.name = ScratchFile(s);
		return all ? Collect(DeserializeAllFile(src.name.c_str(), t)) : FromNum(DeserializeFile(src.name.c_str(), t));
	}
	if (k == "dfile") {
		src.name = ScratchFile(s);
		src.f = fopen(src.name.c_str(), "r");
		return all ? Collect(DeserializeAllFile(src.f, t)) : FromNum(DeserializeFile(src.f, t));
	}
	if (k == "dsb") {
		src.sb.reset(new PieceBuf(s, Schedule(via.at("q"))));
		return all ? Collect(DeserializeAllFile(src.sb.get(), t)) : FromNum(DeserializeFile(src.sb.get(), t));
	}
	shared_ptr<ParserInput> in = src.open(via, s);
	Parser p = CreateParser(in, t);
	if (all) return Collect(LoadAllIterator(p));
	return FromNum(ParseVariant(p));
}

static std::string Kind(const J &r) { std::string s; WriteJ(s, r.at("o").s == "ok" ? r : r.at("o")); return s; }

// the different outcomes over all deliveries, and the first delivery that led to each
OP(deliver) {
	std::string s = Bytes(c.at("s"));
	SerializeType t = Format(c.at("f").s);
	bool all = c.at("all").b;
	std::vector<std::string> seen;
	J outs = J::Arr(), first = J::Arr();
	const J &ds = c.at("ds");
	for (size_t i = 0; i < ds.size(); ++i) {
		J r = Guard([&] { return Ok(ReadVia(ds[i], s, t, all)); });
		std::string k = Kind(r);
		size_t j = 0;
		while (j < seen.size() && seen[j] != k) ++j;
		if (j == seen.size()) { seen.push_back(k); outs.add(r); first.add((long long)i); }
	}
	J r = Ok().set("outs", outs).set("first", first);
	if (c.at("f").s == "guess") {
		r.set("yaml", Guard([&] { return Ok(ReadVia(ds[0], s, SERIALIZE_YAML, all)); }));
		r.set("xml", Guard([&] { return Ok(ReadVia(ds[0], s, SERIALIZE_XMLPLIST, all)); }));
	}
	return r;
}

// calls on an input: get n, release n
OP(input) {
	Source src;
	std::string s = Bytes(c.at("s"));
	shared_ptr<ParserInput> in = src.open(c.at("iv"), s);
	J steps = J::Arr();
	const J &a = c.at("a");
	unsigned held = 0;
	for (size_t i = 0; i < a.size(); ++i) {
		unsigned n = a[i].at("n").n;
		if (a[i].at("k").s == "rel") {
			n = std::min(n, held);
			in->Release(n);
			held -= n;
			steps.add(J::Obj().set("n", n));
		} else {
			unsigned len = n;
			const char *p = (const char*)in->GetPtr(len);
			held = p ? len : 0;
			steps.add(J::Obj().set("z", p == 0).set("n", len).set("b", FromBytes(std::string(p ? p : "", p ? len : 0))));
		}
	}
	return Ok().set("steps", steps);
}
