#include "common.h"
#include <Variant/Extensions.h>
using namespace libvariant;
using namespace drv;

// addresses of all containers reachable from v, with repetitions
static void Containers(const Variant &v, std::vector<const void*> &out) {
	if (v.IsList()) {
		const Variant::List &l = v.AsList(); out.push_back(&l);
		for (size_t i = 0; i < l.size(); ++i) Containers(l[i], out);
	} else if (v.IsMap()) {
		const Variant::Map &m = v.AsMap(); out.push_back(&m);
		for (Variant::Map::const_iterator i = m.begin(); i != m.end(); ++i) Containers(i->second, out);
	}
}
static int Shared(const std::vector<Variant> &vs) {
	std::vector<const void*> c;
	for (size_t i = 0; i < vs.size(); ++i) Containers(vs[i], c);
	std::set<const void*> s(c.begin(), c.end());
	return c.size() - s.size();
}

// pointer operations: outcome, document afterwards
OP(ptr) {
	Variant doc = ToVariant(c.at("doc"));
	std::string fn = c.at("fn").s, p = Bytes(c.at("p"));
	J r = Guard([&]() {
		if (fn == "get") { VariantRef x = JSONPointerLookup(p, doc); return Ok(FromVariant(x)); }
		if (fn == "add") { JSONPointerAdd(p, doc, ToVariant(c.at("val"))); return Ok(); }
		if (fn == "replace") { JSONPointerReplace(p, doc, ToVariant(c.at("val"))); return Ok(); }
		if (fn == "remove") { JSONPointerRemove(p, doc); return Ok(); }
		if (fn == "move") { JSONPointerMove(Bytes(c.at("from")), p, doc); return Ok(); }
		if (fn == "copy") { JSONPointerCopy(Bytes(c.at("from")), p, doc); return Ok(); }
		throw std::logic_error("driver: fn");
	});
	std::vector<Variant> all; all.push_back(doc);
	r.set("doc", FromVariant(doc));
	r.set("shared", Shared(all));
	if (r.has("k")) r.set("k", "exc");
	return r;
}

OP(patch) {
	Variant doc = ToVariant(c.at("doc")), patch = ToVariant(c.at("patch"));
	std::pair<bool, std::string> ret = JSONPatch(doc, patch);
	std::vector<Variant> all; all.push_back(doc); all.push_back(patch);
	return J::Obj().set("o", "ok").set("ret", ret.first).set("msg", !ret.second.empty()).set("doc", FromVariant(doc))
		.set("patch", FromVariant(patch)).set("shared", Shared(all));
}

OP(diff) {
	Variant a = ToVariant(c.at("a")), b = ToVariant(c.at("b"));
	Variant d = JSONDiff(a, b);
	J r = J::Obj().set("o", "ok").set("diff", FromVariant(d)).set("a", FromVariant(a)).set("b", FromVariant(b));
	std::pair<bool, std::string> ret = JSONPatch(a, d);
	return r.set("ret", ret.first).set("res", FromVariant(a)).set("eq", a == b);
}
