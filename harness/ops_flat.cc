#include "common.h"
#include <Variant/Extensions.h>
#include <set>
using namespace libvariant;
using namespace drv;

// addresses of all containers of a value
static void Containers(const Variant &v, std::set<const void*> &s) {
	if (v.IsList()) {
		s.insert(&v.AsList());
		for (unsigned i = 0; i < v.Size(); ++i) Containers(v[i], s);
	} else if (v.IsMap()) {
		s.insert(&v.AsMap());
		for (Variant::ConstMapIterator i(v.MapBegin()), e(v.MapEnd()); i != e; ++i) Containers(i->second, s);
	}
}

static bool Shared(const Variant &a, const Variant &b) {
	std::set<const void*> x, y;
	Containers(a, x);
	Containers(b, y);
	for (std::set<const void*>::iterator i = x.begin(); i != x.end(); ++i) if (y.count(*i)) return true;
	return false;
}

OP(flatten) {
	const J &q = c.at("p");
	Variant v = ToVariant(c.at("v")), p;
	p["pathDelimiter"] = Bytes(q.at("pd"));
	p["pathPrefix"] = Bytes(q.at("pp"));
	p["indexPrefix"] = Bytes(q.at("ip"));
	p["indexSuffix"] = Bytes(q.at("is"));
	p["listDelimiter"] = Bytes(q.at("ld"));
	p["noSimpleLists"] = !q.at("simple").b;
	ExtensionParams(p);
	Variant f = FlattenPath(v, p);
	Variant b;
	J back = J::Obj().set("t", "X");
	try {
		b = ExpandPath(f, p);
		back = FromVariant(b);
	} catch (std::exception &) {}
	J r = Ok().set("flat", FromVariant(f)).set("back", back).set("after", FromVariant(v))
		.set("shared", Shared(f, v) || Shared(b, f) || Shared(b, v));
	if (f.IsMap()) {
		bool text = true;
		for (Variant::MapIterator i(f.MapBegin()), e(f.MapEnd()); i != e; ++i) {
			if (i->second.IsList()) {
				for (unsigned k = 0; k < i->second.Size(); ++k) if (!i->second[k].IsString()) text = false;
			} else if (!i->second.IsString()) text = false;
		}
		if (text) {
			J a = J::Arr();
			std::map<std::string, std::string> m = FlattenPathToStrStrMap(v, p);
			for (std::map<std::string, std::string>::iterator i = m.begin(); i != m.end(); ++i) {
				a.add(J::Arr().add(FromBytes(i->first)).add(FromBytes(i->second)));
			}
			r.set("text", a);
		}
	}
	return r;
}

OP(rdiff) {
	Variant a = ToVariant(c.at("a")), b = ToVariant(c.at("b"));
	Variant d = RDiff(a, b);
	Variant res = a.Copy();
	RUpdate(res, d);
	return Ok().set("d", FromVariant(d)).set("res", FromVariant(res)).set("a", FromVariant(a)).set("b", FromVariant(b))
		.set("shared", Shared(d, a) || Shared(d, b) || Shared(res, d));
}

OP(rupdate) {
	Variant a = ToVariant(c.at("a")), b = ToVariant(c.at("b"));
	RUpdate(a, b);
	return Ok().set("res", FromVariant(a)).set("b", FromVariant(b)).set("shared", Shared(a, b));
}
