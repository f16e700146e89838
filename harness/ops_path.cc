#include "common.h"
using namespace libvariant;
using namespace drv;

// path elements with indices as decimal digits
static Path DigitPath(const J &j) {
	Path p;
	for (size_t i = 0; i < j.size(); ++i) {
		if (j[i].has("s")) p.push_back(PathElement(Bytes(j[i].at("s"))));
		else p.push_back(PathElement((unsigned)strtoul(Bytes(j[i].at("w")).c_str(), 0, 10)));
	}
	return p;
}
static J FromDigitPath(const Path &p) {
	J j = J::Arr();
	for (size_t i = 0; i < p.size(); ++i) {
		if (p[i].IsNumber()) j.add(J::Obj().set("t", "U").set("w", FromBytes(std::to_string(p[i].AsUnsigned()))));
		else j.add(J::Obj().set("t", "S").set("s", FromBytes(p[i].AsString())));
	}
	return j;
}

OP(pathfmt) {
	std::string s = PathString(DigitPath(c.at("p")));
	return Ok().set("s", FromBytes(s)).set("back", FromDigitPath(ParsePath(s)));
}
OP(pathparse) {
	Path p;
	ParsePath(p, Bytes(c.at("s")));
	return Ok().set("p", FromDigitPath(p));
}
