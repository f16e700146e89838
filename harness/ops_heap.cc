#include "common.h"
#include <memory>
using namespace libvariant;
using namespace drv;

// A session: a sequence of public operations on variables and references. After every operation the outcome is
// recorded, and the values of all variables with the sharing between them when they differ from the last record.
namespace {
struct Sess {
	std::vector<Variant*> vars;
	std::vector<VariantRef*> refs;
};
struct Unset {};

unsigned Idx(const J &e) { long long n = e.at("i").n; return n >= 1000000 ? 0xffffffffu : (unsigned)n; }
bool IsKey(const J &e) { return e.at("t").s == "S"; }
std::string Key(const J &e) { return Bytes(e.at("s")); }

template<class F> auto With(Sess &s, const J &h, F f) -> decltype(f(*s.vars[0])) {
	if (h.has("v")) return f(*s.vars[h.at("v").n - 1]);
	VariantRef *r = s.refs[h.at("r").n - 1];
	if (!r) throw Unset();
	return f(*r);
}
template<class F> auto WithC(Sess &s, const J &h, F f) -> decltype(f(*(const Variant*)s.vars[0])) {
	if (h.has("v")) return f(*(const Variant*)s.vars[h.at("v").n - 1]);
	VariantRef *r = s.refs[h.at("r").n - 1];
	if (!r) throw Unset();
	return f(*(const Variant*)r);
}
Variant ConstAt(const Variant &v, const J &e, int via) {
	if (IsKey(e)) {
		if (via == 1) return v.At(Key(e));
		if (via == 2) return v[Key(e)];
		return v.Get(Key(e));
	}
	if (via == 1) return v.At(Idx(e));
	if (via == 2) return v[Idx(e)];
	return v.Get(Idx(e));
}
int Nat(const J &op) { return op.has("nat") ? (int)op.at("nat").n : 0; }
int Via(const J &op) { return op.has("via") ? (int)op.at("via").n : 0; }

// calls f with the value of the source expression; handles are passed as they are
template<class F> void WithSrc(Sess &s, const J &src, F f) {
	const std::string &k = src.at("k").s;
	if (k == "lit") { Variant v = ToVariant(src.at("v")); f(v); return; }
	if (k == "h") {
		const J &h = src.at("h");
		if (h.has("v")) f(*(const Variant*)s.vars[h.at("v").n - 1]);
		else { VariantRef *r = s.refs[h.at("r").n - 1]; if (!r) throw Unset(); f(*r); }
		return;
	}
	if (k == "copy") { Variant v = WithC(s, src.at("h"), [&](const Variant &x) { return x.Copy(); }); f(v); return; }
	if (k == "get") { Variant v = WithC(s, src.at("h"), [&](const Variant &x) { return ConstAt(x, src.at("e"), 0); }); f(v); return; }
	throw std::logic_error("driver: source");
}
// assignment of a scalar literal by the overload for its C++ type
template<class T> bool Native(T &d, const J &src, int k) {
	if (src.at("k").s != "lit") return false;
	const J &x = src.at("v");
	if (k == 4) {
		// the default value of a type, named by the type
		const std::string &t = x.at("t").s;
		if (t == "N") { d = VariantDefines::NullType; return true; }
		if (t == "B" && !x.at("b").b) { d = VariantDefines::BoolType; return true; }
		if (t == "I" && x.has("i") && x.at("i").n == 0) { d = VariantDefines::IntegerType; return true; }
		if (t == "U" && x.has("i") && x.at("i").n == 0) { d = VariantDefines::UnsignedType; return true; }
		if (t == "F" && x.has("q") && x.at("q").n == 0) { d.Assign(VariantDefines::FloatType); return true; }
		if (t == "S" && !x.at("s").size()) { d = VariantDefines::StringType; return true; }
		if (t == "L" && !x.at("l").size()) { d.Assign(VariantDefines::ListType); return true; }
		if (t == "M" && !x.at("m").size()) { d = VariantDefines::MapType; return true; }
		return false;
	}
	if (k && x.at("t").s == "I" && x.has("i")) {
		if (k == 1) d = (long)x.at("i").n; else if (k == 2) d = (long long)x.at("i").n; else d = (short)x.at("i").n;
		return true;
	}
	if (k && x.at("t").s == "U" && x.has("i")) {
		if (k == 1) d = (unsigned long)x.at("i").n; else if (k == 2) d = (unsigned long long)x.at("i").n; else d.Assign((unsigned)x.at("i").n);
		return true;
	}
	if (k && x.at("t").s == "F" && x.has("q")) {
		if (k == 1) d = (long double)x.at("q").n / 1024; else if (k == 2) d = (float)x.at("q").n / 1024; else d.Assign((double)x.at("q").n / 1024.0);
		return true;
	}
	if (k == 1 && x.at("t").s == "S" && Bytes(x.at("s")).find('\0') == std::string::npos) { d = Bytes(x.at("s")).c_str(); return true; }
	if (k && x.at("t").s == "L") {
		bool ints = k == 2, texts = k == 3;
		for (size_t i = 0; i < x.at("l").size(); ++i) { ints = ints && x.at("l")[i].at("t").s == "I" && x.at("l")[i].has("i"); texts = texts && x.at("l")[i].at("t").s == "S"; }
		std::vector<int> vi; std::vector<std::string> vs; std::vector<Variant> vv;
		for (size_t i = 0; i < x.at("l").size(); ++i) {
			const J &y = x.at("l")[i];
			if (ints) vi.push_back(y.at("i").n); else if (texts) vs.push_back(Bytes(y.at("s"))); else vv.push_back(ToVariant(y));
		}
		if (ints) d = vi; else if (texts) d = vs; else d = vv;
		return true;
	}
	if (k && x.at("t").s == "M") {
		Variant v = ToVariant(x);
		bool texts = k == 3;
		std::map<std::string, Variant> vv; std::map<std::string, std::string> vs;
		for (Variant::MapIterator i = v.MapBegin(); i != v.MapEnd(); ++i) { texts = texts && i->second.IsString(); vv[i->first] = i->second; }
		if (texts) { for (Variant::MapIterator i = v.MapBegin(); i != v.MapEnd(); ++i) vs[i->first] = i->second.AsString(); d = vs; }
		else d = vv;
		return true;
	}
	const J &v = src.at("v"); const std::string &t = v.at("t").s;
	if (t == "N") { d = Variant::NullType; return true; }
	if (t == "B") { d = v.at("b").b; return true; }
	if (t == "I" && v.has("i")) { d = (int)v.at("i").n; return true; }
	if (t == "U" && v.has("i")) { d = (unsigned)v.at("i").n; return true; }
	if (t == "F" && v.has("q")) { d = (double)v.at("q").n / 1024.0; return true; }
	if (t == "S") { d = Bytes(v.at("s")); return true; }
	if (t == "D") { std::string b = Bytes(v.at("d")); d = Blob::CreateCopy(b.data(), b.size()); return true; }
	if (t == "L" && v.at("l").size() == 0) { d = Variant::ListType; return true; }
	if (t == "M" && v.at("m").size() == 0) { d = Variant::MapType; return true; }
	return false;
}

struct Viewer {
	std::map<const void*, int> seen;
	J view(const Variant &v) {
		if (v.IsList()) {
			const Variant::List &l = v.AsList();
			if (seen.count(&l)) return J::Obj().set("t", "R").set("n", seen[&l]);
			int n = seen.size() + 1; seen[&l] = n;
			J a = J::Arr();
			for (Variant::ConstListIterator i = v.ListBegin(); i != v.ListEnd(); ++i) a.add(view(*i));
			return J::Obj().set("t", "L").set("l", a);
		}
		if (v.IsMap()) {
			const Variant::Map &m = v.AsMap();
			if (seen.count(&m)) return J::Obj().set("t", "R").set("n", seen[&m]);
			int n = seen.size() + 1; seen[&m] = n;
			J a = J::Arr();
			for (Variant::ConstMapIterator i = v.MapBegin(); i != v.MapEnd(); ++i)
				a.add(J::Arr().add(FromBytes(i->first)).add(view(i->second)));
			return J::Obj().set("t", "M").set("m", a);
		}
		return FromVariant(v);
	}
};
J Proj(Sess &s) {
	Viewer w; J a = J::Arr();
	for (size_t i = 0; i < s.vars.size(); ++i) a.add(w.view(*s.vars[i]));
	return a;
}
bool Cyclic(const Variant &v, std::set<const void*> &path, std::set<const void*> &done) {
	const void *p = 0;
	if (v.IsList()) p = &v.AsList(); else if (v.IsMap()) p = &v.AsMap(); else return false;
	if (path.count(p)) return true;
	if (done.count(p)) return false;
	path.insert(p);
	bool r = false;
	if (v.IsList()) { const Variant::List &l = v.AsList(); for (size_t i = 0; i < l.size() && !r; ++i) r = Cyclic(l[i], path, done); }
	else { const Variant::Map &m = v.AsMap(); for (Variant::Map::const_iterator i = m.begin(); i != m.end() && !r; ++i) r = Cyclic(i->second, path, done); }
	path.erase(p);
	done.insert(p);
	return r;
}
void Bind(Sess &s, int n, VariantRef *r) { delete s.refs[n - 1]; s.refs[n - 1] = r; }

void CheckSet(Sess &s, const J &h) { if (h.has("r") && !s.refs[h.at("r").n - 1]) throw Unset(); }

template<class V> void Glance(V &v, int n) {
	const Variant &c = v;
	try {
		switch (n) {
		case 0: v.GetType(); break;
		case 1: v.AsBool(); break;
		case 2: v.AsInt(); break;
		case 3: v.AsUnsigned(); break;
		case 4: v.AsLongDouble(); break;
		case 5: v.AsString(); break;
		case 6: c.AsBlob(); break;
		case 7: c.AsList(); break;
		case 8: c.AsMap(); break;
		case 9: v.Copy(); break;
		case 10: v.Compare(Variant(1)); break;
		case 11: Variant(1).Compare(v); break;
		case 12: v.Neg(); break;
		case 13: v.Comparable(Variant("x")); break;
		case 14: v.Contains("a"); v.Contains(0u); break;
		case 15: c.Index(Variant(1)); break;
		case 16: c.Get("a", Variant(1)); c.Get(0u, Variant(1)); break;
		case 17: Serialize(c, SERIALIZE_JSON); break;
		case 18: v.HasPath("a/b"); v.GetPath("a/b", Variant(1)); break;
		case 19: v.Exists(); v.IsNull(); v.IsNumber(); break;
		}
	} catch (InvalidReferenceError &) { throw; } catch (std::exception &) {}
}

J Exec(Sess &s, const J &op) {
	if (op.has("h")) CheckSet(s, op.at("h"));
	if (op.has("h2")) CheckSet(s, op.at("h2"));
	if (op.has("src") && op.at("src").has("h")) CheckSet(s, op.at("src").at("h"));
	const std::string &f = op.at("f").s;
	int via = Via(op);
	const J nul = J::Obj();
	const J &h = op.has("h") ? op.at("h") : nul;
	if (f == "assign") {
		With(s, h, [&](auto &d) {
			if (via == 1 && Native(d, op.at("src"), Nat(op))) return 0;
			WithSrc(s, op.at("src"), [&](auto &v) { if (via == 2) d.Assign(v); else d = v; });
			return 0;
		});
		return Ok();
	}
	if (f == "newvar") {
		Variant *n = 0;
		WithSrc(s, op.at("src"), [&](auto &v) { n = new Variant(v); });
		delete s.vars[h.at("v").n - 1];
		s.vars[h.at("v").n - 1] = n;
		return Ok();
	}
	if (f == "set") {
		With(s, h, [&](auto &d) {
			const J &e = op.at("e");
			if (via && op.has("nat")) {
				VariantRef el = IsKey(e) ? d.At(Key(e)) : d.At(Idx(e));
				if (Native(el, op.at("src"), Nat(op))) return 0;
			}
			WithSrc(s, op.at("src"), [&](auto &v) {
				if (IsKey(e)) { if (via == 1) d.At(Key(e)) = v; else if (via == 2) d[Key(e)] = v; else d.Set(Key(e), v); }
				else { if (via == 1) d.At(Idx(e)) = v; else if (via == 2) d[Idx(e)] = v; else d.Set(Idx(e), v); }
			});
			return 0;
		});
		return Ok();
	}
	if (f == "append") {
		With(s, h, [&](auto &d) {
			WithSrc(s, op.at("src"), [&](auto &v) { if (via == 1) { Variant x(v); d.AsList().push_back(x); } else d.Append(v); });
			return 0;
		});
		return Ok();
	}
	if (f == "use") {
		With(s, h, [&](auto &d) {
			if (op.at("kind").s == "L") { if (via) d.ListBegin(); else d.AsList(); }
			else { if (via) d.MapBegin(); else d.AsMap(); }
			return 0;
		});
		return Ok();
	}
	if (f == "at") {
		const J &e = op.at("e");
		Bind(s, op.at("to").n, With(s, h, [&](auto &d) {
			if (IsKey(e)) return via ? new VariantRef(d[Key(e)]) : new VariantRef(d.At(Key(e)));
			return via ? new VariantRef(d[Idx(e)]) : new VariantRef(d.At(Idx(e)));
		}));
		return Ok();
	}
	if (f == "atdef") {
		const J &e = op.at("e");
		VariantRef *r = 0;
		With(s, h, [&](auto &d) {
			WithSrc(s, op.at("src"), [&](auto &v) { r = IsKey(e) ? new VariantRef(d.At(Key(e), v)) : new VariantRef(d.At(Idx(e), v)); });
			return 0;
		});
		Bind(s, op.at("to").n, r);
		return Ok();
	}
	if (f == "ref") {
		Bind(s, op.at("to").n, With(s, h, [&](auto &d) { return via ? new VariantRef(d.Ref()) : new VariantRef(d); }));
		return Ok();
	}
	if (f == "rebind") {
		VariantRef *r = s.refs[op.at("to").n - 1];
		if (!r) throw Unset();
		With(s, h, [&](auto &d) { r->ReassignRef(d); return 0; });
		return Ok();
	}
	if (f == "drop") { Bind(s, op.at("to").n, 0); return Ok(); }
	if (f == "read" && op.has("pre")) {
		// reading in any other way may fail but changes nothing
		int n = op.at("pre").n;
		if (n < 20) WithC(s, h, [&](const Variant &v) { Glance(v, n); return 0; });
		else With(s, h, [&](auto &v) { Glance(v, n - 20); return 0; });
	}
	if (f == "read") return Ok(WithC(s, h, [&](const Variant &v) { if (via) { Variant x(v); return FromVariant(x); } return FromVariant(v); }));
	if (f == "exists") return Ok(J::Obj().set("t", "B").set("b", WithC(s, h, [&](const Variant &v) { return v.Exists(); })));
	if (f == "get") return Ok(FromVariant(WithC(s, h, [&](const Variant &v) { return ConstAt(v, op.at("e"), via); })));
	if (f == "getdef") {
		const J &e = op.at("e"); Variant r;
		WithC(s, h, [&](const Variant &d) {
			WithSrc(s, op.at("src"), [&](auto &v) { r = IsKey(e) ? d.Get(Key(e), v) : d.Get(Idx(e), v); });
			return 0;
		});
		return Ok(FromVariant(r));
	}
	if (f == "contains") {
		const J &e = op.at("e");
		return Ok(J::Obj().set("t", "B").set("b", WithC(s, h, [&](const Variant &v) { return IsKey(e) ? v.Contains(Key(e)) : v.Contains(Idx(e)); })));
	}
	if (f == "size") return Ok(J::Obj().set("t", "I").set("i", J(WithC(s, h, [&](const Variant &v) { return v.Size(); }))));
	if (f == "empty") return Ok(J::Obj().set("t", "B").set("b", WithC(s, h, [&](const Variant &v) { return v.Empty(); })));
	if (f == "index") {
		unsigned n = 0;
		WithC(s, h, [&](const Variant &d) { WithSrc(s, op.at("src"), [&](auto &v) { n = d.Index(v); }); return 0; });
		return Ok(J::Obj().set("t", "I").set("i", J(n)));
	}
	if (f == "equal") {
		bool b = WithC(s, h, [&](const Variant &x) { return WithC(s, op.at("h2"), [&](const Variant &y) {
			return via == 1 ? x.Compare(y) == 0 : via == 2 ? !(x != y) : x == y; }); });
		return Ok(J::Obj().set("t", "B").set("b", b));
	}
	if (f == "clear") { With(s, h, [&](auto &d) { d.Clear(); return 0; }); return Ok(); }
	if (f == "erase") {
		const J &e = op.at("e");
		With(s, h, [&](auto &d) { if (IsKey(e)) d.Erase(Key(e)); else d.Erase(Idx(e)); return 0; });
		return Ok();
	}
	if (f == "merge") {
		With(s, h, [&](auto &d) { WithSrc(s, op.at("src"), [&](auto &v) { d.Merge(v); }); return 0; });
		return Ok();
	}
	if (f == "incr") {
		int by = op.at("by").n;
		With(s, h, [&](auto &d) {
			// multiplying and dividing by one first
			if (via == 3) d *= Variant(1);
			if (via == 4) d /= Variant(1);
			if (via == 5) d %= Variant(1000000);
			if (via == 0 && by == 1) d.Incr(); else if (via == 0 && by == -1) d.Decr();
			else if (via == 1 && by == 1) d++; else if (via == 1 && by == -1) --d;
			else if (via == 2 && by < 0) d -= Variant(-by);
			else d += Variant(by);
			return 0;
		});
		return Ok();
	}
	if (f == "resdef") {
		With(s, h, [&](auto &d) { WithSrc(s, op.at("src"), [&](auto &v) { Variant x(v); d.Resolve(x); }); return 0; });
		return Ok();
	}
	Path p = op.has("p") ? ToPath(op.at("p")) : Path();
	if (f == "haspath") return Ok(J::Obj().set("t", "B").set("b", WithC(s, h, [&](const Variant &v) { return v.HasPath(p); })));
	if (f == "getpath") return Ok(FromVariant(WithC(s, h, [&](const Variant &v) { return via ? Variant(v.AtPath(p)) : v.GetPath(p); })));
	if (f == "getpathdef") {
		Variant r;
		WithC(s, h, [&](const Variant &d) { WithSrc(s, op.at("src"), [&](auto &v) { r = d.GetPath(p, v); }); return 0; });
		return Ok(FromVariant(r));
	}
	if (f == "setpath") {
		With(s, h, [&](auto &d) { WithSrc(s, op.at("src"), [&](auto &v) { if (via) d.SetPath(PathString(p), v); else d.SetPath(p, v); }); return 0; });
		return Ok();
	}
	if (f == "atpath") { Bind(s, op.at("to").n, With(s, h, [&](auto &d) { return new VariantRef(d.AtPath(p)); })); return Ok(); }
	if (f == "atpathdef") {
		VariantRef *r = 0;
		With(s, h, [&](auto &d) { WithSrc(s, op.at("src"), [&](auto &v) { r = new VariantRef(d.AtPath(p, v)); }); return 0; });
		Bind(s, op.at("to").n, r);
		return Ok();
	}
	if (f == "erasepath") { With(s, h, [&](auto &d) { d.ErasePath(p, op.at("prune").b); return 0; }); return Ok(); }
	throw std::logic_error("driver: heap op " + f);
}
}

OP(heap) {
	Sess s;
	const J &ops = c.at("ops");
	for (int i = 0; i < c.at("nv").n; ++i) s.vars.push_back(new Variant());
	for (int i = 0; i < c.at("nr").n; ++i) s.refs.push_back(0);
	J evs = J::Arr();
	std::string last;
	WriteJ(last, Proj(s));
	bool cyc = false;
	for (size_t k = 0; k < ops.size() && !cyc; ++k) {
		J ev;
		try { ev = Guard([&]() { return Exec(s, ops[k]); }); }
		catch (Unset &) { ev = J::Obj().set("o", "skip"); }
		std::set<const void*> done;
		for (size_t i = 0; i < s.vars.size() && !cyc; ++i) { std::set<const void*> path; cyc = Cyclic(*s.vars[i], path, done); }
		if (cyc) { evs.add(J::Obj().set("o", "cyc")); break; }
		J p = Proj(s); std::string now; WriteJ(now, p);
		if (now != last || k + 1 == ops.size()) { ev.set("p", p); last = now; }
		evs.add(ev);
	}
	if (!cyc) {
		for (size_t i = 0; i < s.refs.size(); ++i) delete s.refs[i];
		for (size_t i = 0; i < s.vars.size(); ++i) delete s.vars[i];
	}
	return J::Obj().set("o", "ok").set("ev", evs);
}
