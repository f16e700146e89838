// Driver support: a self-contained JSON reader/writer (the library's own JSON code is under test and
// is not used here), conversion between the exchange encoding and Variants, and the table of calls.
//
// Exchange encoding of values:
//   {"t":"N"}  {"t":"B","b":true}  {"t":"I","i":5} | {"t":"I","w":"<dec>"}  (U likewise)
//   {"t":"F","q":k} meaning k/1024 | {"t":"F","x":"<16 hex digits of the bits>"}
//   {"t":"S","s":[bytes]}  {"t":"D","d":[bytes]}  {"t":"L","l":[..]}  {"t":"M","m":[[[key bytes],v],..]}
#pragma once
#include <Variant/Variant.h>
#include <Variant/Blob.h>
#include <Variant/Path.h>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <stdexcept>
#include <stdint.h>
#include <string.h>

namespace drv {

struct J {
	enum T { NUL, BOOL, NUM, STR, ARR, OBJ } t;
	bool b;
	long long n;
	std::string s;
	std::vector<J> a;
	std::vector<std::pair<std::string, J> > o;
	J() : t(NUL), b(false), n(0) {}
	J(bool v) : t(BOOL), b(v), n(0) {}
	J(int v) : t(NUM), b(false), n(v) {}
	J(unsigned v) : t(NUM), b(false), n(v) {}
	J(long long v) : t(NUM), b(false), n(v) {}
	J(const char *v) : t(STR), b(false), n(0), s(v) {}
	J(const std::string &v) : t(STR), b(false), n(0), s(v) {}
	static J Arr() { J j; j.t = ARR; return j; }
	static J Obj() { J j; j.t = OBJ; return j; }
	J &add(const J &v) { a.push_back(v); return *this; }
	J &set(const std::string &k, const J &v) {
		for (size_t i = 0; i < o.size(); ++i) if (o[i].first == k) { o[i].second = v; return *this; }
		o.push_back(std::make_pair(k, v));
		return *this;
	}
	bool has(const std::string &k) const {
		for (size_t i = 0; i < o.size(); ++i) if (o[i].first == k) return true;
		return false;
	}
	const J &at(const std::string &k) const {
		for (size_t i = 0; i < o.size(); ++i) if (o[i].first == k) return o[i].second;
		throw std::logic_error("driver: missing field " + k);
	}
	const J &operator[](size_t i) const { if (i >= a.size()) throw std::logic_error("driver: index"); return a[i]; }
	size_t size() const { return a.size(); }
};

J ParseJ(const std::string &text);
void WriteJ(std::string &out, const J &j);

// byte arrays
std::string Bytes(const J &j);
J FromBytes(const std::string &s);

// values
libvariant::Variant ToVariant(const J &j);
J FromVariant(const libvariant::Variant &v);
// the same with numbers as exact dyadics (spec/Num.tla): {"t":"F","g":sign,"m":[limbs base 2^15],"e":exponent}
libvariant::Variant NumVariant(const J &j);
J FromNum(const libvariant::Variant &v);
J FromPath(const libvariant::Path &p);
libvariant::Path ToPath(const J &j);

// outcomes
J Ok();
J Ok(const J &v);
J Err(const std::string &kind);
// run f, turning any exception into {"o":"err","k":..}
J Guard(std::function<J()> f);

typedef std::function<J(const J &)> Fn;
void Register(const std::string &name, Fn f);
struct Reg { Reg(const char *n, Fn f) { Register(n, f); } };
#define OP(name) \
	static drv::J op_##name(const drv::J &c); \
	static drv::Reg reg_##name(#name, op_##name); \
	static drv::J op_##name(const drv::J &c)

std::string ScratchDir();
libvariant::SerializeType Format(const std::string &s);
}
