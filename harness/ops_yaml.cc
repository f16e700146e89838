#include "common.h"
using namespace libvariant;
using namespace drv;

// Write with parameters p (flow: flow lists and maps), read back.
OP(yrt) {
	Variant v = NumVariant(c.at("v")), p;
	const J &q = c.at("p");
	if (q.has("flow")) p["map_style"] = p["list_style"] = q.at("flow").b ? "flow" : "block";
	const char *text[] = { "map_style", "list_style", "scalar_style" };
	for (int i = 0; i < 3; ++i) if (q.has(text[i])) p[text[i]] = Bytes(q.at(text[i]));
	if (q.has("begin")) p["implicit_document_begin"] = q.at("begin").b;
	if (q.has("end")) p["implicit_document_end"] = q.at("end").b;
	if (q.has("indent")) p["indent"] = q.at("indent").n;
	if (q.has("width")) p["width"] = q.at("width").n;
	std::string s = Serialize(v, SERIALIZE_YAML, p);
	return Ok(FromNum(Deserialize(s, SERIALIZE_YAML)));
}

OP(yplain) {
	std::string s = Bytes(c.at("s"));
	switch (c.at("ctx").n) {
	case 0: return Ok(FromNum(Deserialize(s, SERIALIZE_YAML)));
	case 1: return Ok(FromNum(Deserialize("- a\n- " + s + "\n", SERIALIZE_YAML)[1]));
	case 2: return Ok(FromNum(Deserialize("k: " + s + "\n", SERIALIZE_YAML)["k"]));
	case 3: return Ok(FromNum(Deserialize("[" + s + ", 1]", SERIALIZE_YAML)[0]));
	case 4: return Ok(FromNum(Deserialize("- '" + s + "'", SERIALIZE_YAML)[0]));
	case 5: return Ok(FromNum(Deserialize("- |-\n  " + s + "\n- a\n", SERIALIZE_YAML)[0]));
	case 6: return Ok(FromNum(Deserialize("k: >-\n  " + s + "\n", SERIALIZE_YAML)["k"]));
	default: return Ok(FromNum(Deserialize("k: \"" + s + "\"", SERIALIZE_YAML)["k"]));
	}
}
