#include "common.h"
#include <sstream>
using namespace libvariant;
using namespace drv;

// via 0: string, 1: memory block of exactly that size
OP(jread) {
	std::string s = Bytes(c.at("s"));
	if (c.has("via") && c.at("via").n) {
		std::vector<char> b(s.begin(), s.end());
		return Ok(FromNum(Deserialize(b.empty() ? (void*)"" : &b[0], b.size(), SERIALIZE_JSON)));
	}
	return Ok(FromNum(Deserialize(s, SERIALIZE_JSON)));
}

OP(jwrite) {
	Variant v = NumVariant(c.at("v")), p;
	p["strict"] = c.at("strict").b;
	p["pretty"] = c.at("pretty").b;
	if (c.has("indent")) p["indent"] = (unsigned)c.at("indent").n;
	std::string s = Serialize(v, SERIALIZE_JSON, p);
	return Ok().set("s", FromBytes(s)).set("back", FromNum(Deserialize(s, SERIALIZE_JSON)));
}

// depth of a value nested by single elements, and what is innermost
OP(jdepth) {
	Variant v = Deserialize(Bytes(c.at("s")), SERIALIZE_JSON);
	int n = 0;
	while ((v.IsList() || v.IsMap()) && v.Size() == 1) {
		Variant w = v.IsList() ? v[0] : v["a"];
		v = w;
		++n;
	}
	return Ok(FromNum(v)).set("n", n);
}
