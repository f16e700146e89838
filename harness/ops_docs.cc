#include "io.h"
using namespace drv;

// values with the identity of every container, numbered in the order of first visit
static J WithIds(const Variant &v, std::map<const void*, int> &ids) {
	if (!v.IsList() && !v.IsMap()) return FromVariant(v);
	const void *p = v.IsList() ? (const void*)&v.AsList() : (const void*)&v.AsMap();
	int id = ids.insert(std::make_pair(p, (int)ids.size())).first->second;
	J r = J::Obj(), kids = J::Arr();
	if (v.IsList()) {
		const Variant::List &l = v.AsList();
		for (size_t i = 0; i < l.size(); ++i) kids.add(WithIds(l[i], ids));
		return r.set("t", "L").set("id", id).set("l", kids);
	}
	const Variant::Map &m = v.AsMap();
	for (Variant::Map::const_iterator i(m.begin()); i != m.end(); ++i)
		kids.add(J::Arr().add(FromBytes(i->first)).add(WithIds(i->second, ids)));
	return r.set("t", "M").set("id", id).set("m", kids);
}

OP(ydocs) {
	std::string s = Bytes(c.at("s"));
	const J &ops = c.at("ops");
	std::vector<std::unique_ptr<Source> > srcs;
	std::map<long long, LoadAllIterator> it;
	std::vector<Variant> seen;
	std::map<const void*, const void*> owner;
	J rs = J::Arr();
	bool stop = false, cross = false;
	for (size_t n = 0; n < ops.size() && !stop; ++n) {
		std::string f = ops[n].at("f").s;
		long long i = ops[n].at("i").n, j = ops[n].at("j").n;
		J r = Guard([&] {
			if (f == "new") {
				srcs.emplace_back(new Source);
				Parser p = YAMLParser(srcs.back()->open(c.at("in"), s));
				it[i] = LoadAllIterator(p);
			} else if (f == "next") ++it[i];
			else if (f == "copy") { LoadAllIterator x(it[i]); it[j] = x; }
			else if (f == "eq") return Ok().set("b", it[i] == it[j] && !(it[i] != it[j]));
			else if (f == "end") return Ok().set("b", it[i] == LoadAllIterator());
			else {
				LoadAllIterator at = f == "post" ? it[i]++ : it[i];
				return Guard([&] {
					Variant v = at.Get();
					if (&*at != at.operator->()) throw std::logic_error("driver: element");
					std::map<const void*, int> ids;
					J x = WithIds(v, ids);
					// a document is known by the place it is delivered from
					for (std::map<const void*, int>::iterator k(ids.begin()); k != ids.end(); ++k) {
						const void *&o = owner.insert(std::make_pair(k->first, (const void*)&*at)).first->second;
						if (o != (const void*)&*at) cross = true;
					}
					seen.push_back(v);
					return Ok(x);
				});
			}
			return Ok();
		});
		bool inner = f == "get" || (f == "post" && it.count(i) && r.at("o").s == "err" && it[i] == LoadAllIterator());
		if (r.at("o").s == "err" && !inner) {
			stop = true;
			// whatever comes next, it must not bring the process down
			for (int k = 0; k < 3; ++k) Guard([&] { if (it.count(i)) { ++it[i]; Variant v = it[i].Get(); } return Ok(); });
		}
		J out = J::Obj();
		out.set("o", r.at("o"));
		if (r.has("v")) out.set("v", r.at("v"));
		if (r.has("b")) out.set("b", r.at("b"));
		rs.add(out);
	}
	return Ok().set("rs", rs).set("cross", cross);
}
