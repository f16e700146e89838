#include "common.h"
#include <complex>
#include <map>
#include <vector>
using namespace libvariant;
using namespace drv;

// references made before the elements they denote exist
struct Proxies {
	Variant m;
	VariantRef x, y;
	Proxies(const Variant &a, const Variant &b) : x(m["p"]["x"]), y(m.AtPath(ParsePath("q[1]/y"))) {
		m["p"]["x"] = a;
		m["q"].Append(Variant(7));
		m["q"][1]["y"] = b;
	}
};

OP(cmp) {
	Variant a = NumVariant(c.at("a")), b = NumVariant(c.at("b"));
	J r = Ok();
	int x, y;
	switch (c.at("via").n) {
	case 1: { VariantRef ra(a), rb(b); x = ra.Compare(rb); y = rb.Compare(ra); break; }
	case 2: { Variant l; l.Append(a); l.Append(b); x = l.At(0u).Compare(l.At(1)); y = l.At(1).Compare(l.At(0u)); break; }
	case 3: { Proxies p(a, b); x = p.x.Compare(p.y); Proxies q(a, b); y = q.y.Compare(q.x); break; }
	case 4: { Proxies p(a, b); x = a.Compare(p.y); y = b.Compare(p.x); break; }
	default: x = a.Compare(b); y = b.Compare(a);
	}
	return r.set("c", x).set("d", y).set("cm", a.Comparable(b)).set("eq", a == b).set("ne", a != b).set("lt", a < b).set("gt", a > b)
		.set("le", a <= b).set("ge", a >= b);
}

static void Compound(const std::string &f, Variant &a, const Variant &b) {
	if (f == "add") a += b;
	else if (f == "sub") a -= b;
	else if (f == "mul") a *= b;
	else if (f == "div") a /= b;
	else a %= b;
}
static Variant Binary(const std::string &f, const Variant &a, const Variant &b) {
	if (f == "add") return a + b;
	if (f == "sub") return a - b;
	if (f == "mul") return a * b;
	if (f == "div") return a / b;
	return a % b;
}

// via 0: compound assignment, 1: binary operator, 2: compound assignment through references
OP(arith) {
	Variant a = NumVariant(c.at("a")), b = NumVariant(c.at("b"));
	const std::string &f = c.at("f").s;
	J r = Ok();
	try {
		Variant v;
		switch (c.at("via").n) {
		case 1: v = Binary(f, a, b); break;
		case 2: { VariantRef ra(a), rb(b); Compound(f, ra, rb); v = a; break; }
		case 3: { Proxies p(a, b); Compound(f, p.x, p.y); a = p.m["p"]["x"]; v = a; break; }
		case 4: { Proxies p(a, b); v = Binary(f, p.x, p.y); break; }
		case 5: { Variant l; l.Append(a); Compound(f, l.AsList()[0], b); a = l[0u]; v = a; break; }
		default: Compound(f, a, b); v = a;
		}
		r.set("x", "ok").set("v", FromNum(v));
	} catch (std::exception &e) { r.set("x", "err"); }
	return r.set("a", FromNum(a)).set("b", FromNum(b));
}

OP(unary) {
	Variant a = NumVariant(c.at("a"));
	const std::string &f = c.at("f").s;
	J r = Ok();
	try {
		Variant v;
		if (c.at("via").n > 1) {
			Proxies p(a, a);
			VariantRef ra(a), &t = c.at("via").n == 2 ? ra : p.x;
			if (f == "incr") ++t;
			else if (f == "decr") --t;
			else if (f == "neg") v = -t;
			else v = +t;
			if (c.at("via").n == 3) a = p.m["p"]["x"];
			if (f == "incr" || f == "decr") v = a;
		} else if (f == "incr") { if (c.at("via").n) a++; else ++a; v = a; }
		else if (f == "decr") { if (c.at("via").n) a--; else --a; v = a; }
		else if (f == "neg") v = -a;
		else v = +a;
		r.set("x", "ok").set("v", FromNum(v));
	} catch (std::exception &e) { r.set("x", "err"); }
	return r.set("a", FromNum(a));
}

// a value read as T in every way there is
template<class T> static T ReadAs(const Variant &a, long via) {
	Variant m, l;
	T x = T();
	std::map<std::string, T> tm;
	std::vector<T> tv;
	switch (via) {
	case 1: return variant_cast<T>(a);
	case 2: return a.As<T>();
	case 3: m["k"] = a; m.GetInto(x, "k"); return x;
	case 4: m["k"] = a; m.GetInto(x, "k", T()); return x;
	case 5: m["k"].Append(a); m.GetPathInto(x, "k[0]"); return x;
	case 6: m["k"].Append(a); m.GetPathInto(x, "k[0]", T()); return x;
	case 7: m["j"] = Variant(1); m["k"] = a; tm = m.As<std::map<std::string, T> >(); return tm.size() == 2 && tm.at("j") == variant_cast<T>(Variant(1)) ? tm.at("k") : throw std::logic_error("map");
	case 8: l.Append(Variant(1)); l.Append(a); tv = l.As<std::vector<T> >(); return tv.size() == 2 && tv[0] == variant_cast<T>(Variant(1)) ? T(tv[1]) : throw std::logic_error("vector");
	case 10: { Proxies p(a, a); return p.x.As<T>(); }
	case 11: { Proxies p(a, a); return variant_cast<T>(p.y); }
	case 9: m["k"] = a; return VariantRef(m["k"]).As<T>();
	}
	throw std::logic_error("driver: way to read");
}
template<class T> static T Number(const Variant &a, long via) { return via == 0 ? a.AsNumber<T>() : ReadAs<T>(a, via); }

// pairs of numbers in the forms a complex number can have
static J Complex(const Variant &a, const J &c) {
	Variant v;
	Variant b = NumVariant(c.at("b"));
	switch (c.at("form").n) {
	case 0: break;
	case 1: v = a; break;
	case 2: v["real"] = a; v["imag"] = b; break;
	case 3: v["real"] = a; break;
	case 4: v["imag"] = b; break;
	case 5: v.Append(a); v.Append(b); break;
	case 6: v.Append(a); break;
	case 7: v = Variant(Variant::ListType); break;
	case 8: v = Variant(Variant::MapType); break;
	default: v = Variant("text");
	}
	typedef std::complex<long double> Z;
	Variant m;
	m["k"] = v;
	Z z(7, 7);
	switch (c.at("via").n % 5) {
	case 0: z = variant_cast<Z>(v); break;
	case 1: z = v.As<Z>(); break;
	case 2: m.GetInto(z, "k"); break;
	case 3: m.GetInto(z, "k", Z(8, 8)); break;
	default: m.GetPathInto(z, "k");
	}
	return Ok(FromNum(Variant(z.real()))).set("w", FromNum(Variant(z.imag())));
}

OP(conv) {
	Variant a = NumVariant(c.at("a"));
	const std::string &f = c.at("f").s;
	long via = c.at("via").n;
	if (f == "cplx") return Complex(a, c);
	if (f == "int") return Ok(FromNum(Variant(via ? ReadAs<long long>(a, via) : a.AsInt())));
	if (f == "uns") return Ok(FromNum(Variant(via ? ReadAs<unsigned long>(a, via) : a.AsUnsigned())));
	if (f == "i64") return Ok(FromNum(Variant((long long)Number<long>(a, via))));
	if (f == "u64") return Ok(FromNum(Variant((unsigned long)Number<unsigned long long>(a, via))));
	if (f == "ldbl") return Ok(FromNum(Variant(via ? ReadAs<long double>(a, via) : a.AsLongDouble())));
	if (f == "dbl") return Ok(FromNum(Variant(via ? ReadAs<double>(a, via) : a.AsDouble())));
	if (f == "flt") return Ok(FromNum(Variant(Number<float>(a, via))));
	if (f == "i32") return Ok(FromNum(Variant((long long)Number<int>(a, via))));
	if (f == "u32") return Ok(FromNum(Variant((unsigned long)Number<unsigned>(a, via))));
	if (f == "i16") return Ok(FromNum(Variant((long long)Number<short>(a, via))));
	if (f == "u16") return Ok(FromNum(Variant((unsigned long)Number<unsigned short>(a, via))));
	if (f == "i8") return Ok(FromNum(Variant((long long)Number<signed char>(a, via))));
	if (f == "u8") return Ok(FromNum(Variant((unsigned long)Number<unsigned char>(a, via))));
	if (f == "chr") return Ok(FromNum(Variant((long long)Number<char>(a, via))));
	if (f == "bool") return Ok(FromNum(Variant(via ? ReadAs<bool>(a, via) : a.AsBool())));
	return Ok().set("s", FromBytes(via ? ReadAs<std::string>(a, via) : a.AsString()));
}

// a missing element read into a variable, with and without a default
OP(into) {
	Variant m, l, d = NumVariant(c.at("d"));
	m["j"] = Variant(5);
	m["k"].Append(Variant(6));
	std::string before = SerializeJSON(m);
	long long x = 77, y = d.AsInt();
	std::string s("old"), t = d.AsString();
	J r = Ok();
	const std::string &p = c.at("p").s;
	bool path = c.at("path").b, def = c.at("def").b;
	try {
		if (path && def) { m.GetPathInto(x, p, y); m.GetPathInto(s, ParsePath(p), t); }
		else if (path) m.GetPathInto(x, p);
		else if (def) { m.GetInto(x, p, y); m.GetInto(s, p, t); }
		else m.GetInto(x, p);
		r.set("x", "ok");
	} catch (std::exception &e) {
		r.set("x", "err");
		try { if (path) m.GetPathInto(s, ParsePath(p)); else m.GetInto(s, p); s = "read"; } catch (std::exception &e) {}
	}
	return r.set("v", FromNum(Variant(x))).set("s", FromBytes(s)).set("same", SerializeJSON(m) == before);
}
