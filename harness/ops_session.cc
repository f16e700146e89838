#include "io.h"
#include <map>
using namespace drv;

namespace {

// one segment after the other, in pieces of their own
class SegInput : public ParserInput {
	std::vector<std::string> seg; Schedule q; size_t at, off; bool cont; std::vector<char> piece;
	std::string Rest() const {
		std::string s;
		if (at < seg.size()) s = seg[at].substr(off);
		return s;
	}
public:
	SegInput(const std::vector<std::string> &s, const Schedule &q_, bool c) : seg(s), q(q_), at(0), off(0), cont(c) {
		if (cont) {
			std::string all;
			for (size_t i = 0; i < seg.size(); ++i) all += seg[i];
			seg.assign(1, all);
		}
	}
	const void *GetPtr(unsigned &len) {
		std::string s = Rest();
		size_t n = std::min<size_t>(std::max<size_t>(std::max<size_t>(len, piece.size()), std::min<size_t>(std::max(1u, q.next()), 1u << 20)), s.size());
		std::vector<char>(s.begin(), s.begin() + n).swap(piece);
		len = n;
		return n ? &piece[0] : 0;
	}
	void Release(unsigned len) {
		if (len > piece.size()) throw std::runtime_error("released more than acquired");
		off += len;
		std::vector<char>(piece.begin() + len, piece.end()).swap(piece);
	}
	void Next() { if (!cont) { ++at; off = 0; piece.clear(); } }
};

struct Ctx {
	std::map<int, std::string> hooks;
	bool popend;
	int n, next;
	J ev;
	std::vector<shared_ptr<ParserActions> > all;
	int depth;   // handlers on the stack
	Ctx() : popend(false), n(0), next(1), ev(J::Arr()), depth(0) {}
};

class Rec : public ParserActions {
	Ctx *x; int id;
	void Do(ParserImpl *p, const char *f, const J *v = 0);
public:
	Rec(Ctx *x_, int id_) : x(x_), id(id_) {}
	int Id() const { return id; }
	void BeginDocument(ParserImpl *p) { Do(p, "bd"); }
	void EndDocument(ParserImpl *p) { Do(p, "ed"); }
	void BeginMap(ParserImpl *p, int, const char *, const char *) { Do(p, "bm"); }
	void EndMap(ParserImpl *p) { Do(p, "em"); }
	void BeginList(ParserImpl *p, int, const char *, const char *) { Do(p, "bl"); }
	void EndList(ParserImpl *p) { Do(p, "el"); }
	void Alias(ParserImpl *p, const char *) { Do(p, "al"); }
	void Val(ParserImpl *p, const Variant &v) { J j = FromVariant(v); Do(p, "s", &j); }
	void Scalar(ParserImpl *p, double v, const char *, const char *) { Val(p, v); }
	void Scalar(ParserImpl *p, const char *s, unsigned n, const char *, const char *) { Val(p, std::string(s, n)); }
	void Scalar(ParserImpl *p, bool v, const char *, const char *) { Val(p, v); }
	void Null(ParserImpl *p, const char *, const char *) { Val(p, Variant()); }
	void Scalar(ParserImpl *p, intmax_t v, const char *, const char *) { Val(p, v); }
	void Scalar(ParserImpl *p, uintmax_t v, const char *, const char *) { Val(p, v); }
	void Scalar(ParserImpl *p, BlobPtr b, const char *, const char *) { Val(p, b); }
};

shared_ptr<ParserActions> Fresh(Ctx *x) {
	shared_ptr<ParserActions> r(new Rec(x, x->next++));
	x->all.push_back(r);
	++x->depth;
	return r;
}

void Rec::Do(ParserImpl *p, const char *f, const J *v) {
	J e = J::Obj();
	e.set("h", id).set("f", f);
	if (v) e.set("v", *v);
	x->ev.add(e);
	std::string h = x->hooks.count(++x->n) ? x->hooks[x->n] : "none";
	if (h == "push") p->PushAction(Fresh(x));
	else if (h == "pop") { p->PopAction(); --x->depth; }
	else if (h == "throw") { if (x->n % 2) throw std::runtime_error("not wanted"); else throw 7; }
	else if (x->popend && !strcmp(f, "ed")) { p->PopAction(); --x->depth; }
}

void Look(J &r, Parser &p) {
	r.set("d", p.Done()).set("e", p.Error()).set("k", p.Ok()).set("s", !p.ErrorStr().empty());
}

}

OP(session) {
	Ctx x;
	std::vector<std::string> segs;
	for (size_t i = 0; i < c.at("segs").size(); ++i) segs.push_back(Bytes(c.at("segs")[i].at("text")));
	for (size_t i = 0; i < c.at("hooks").size(); ++i) x.hooks[c.at("hooks")[i][0].n] = c.at("hooks")[i][1].s;
	x.popend = c.at("popend").b;
	shared_ptr<SegInput> in(new SegInput(segs, Schedule(c.at("q")), c.at("cont").b));
	Parser p = CreateParser(in, Format(c.at("f").s));
	J out = J::Arr();
	const J &steps = c.at("steps");
	for (size_t i = 0; i < steps.size(); ++i) {
		std::string o = steps[i].s;
		J r = J::Obj();
		if (o == "run" || o == "all") {
			// running needs a handler to get anywhere
			for (int k = 0; k < (o == "all" ? 3000 : 1); ++k) {
				r = J::Obj();
				x.ev = J::Arr();
				std::string a;
				try { a = std::to_string(p.Run()); }
				catch (...) { a = "err"; }
				r.set("o", "run").set("r", a).set("ev", x.ev);
				Look(r, p);
				out.add(r);
				if (a != "0" || !x.depth) break;
			}
			if (o == "run") continue;
			r = J::Obj();
			r.set("o", "end");
		} else if (o == "push") {
			p.PushAction(Fresh(&x));
			r.set("o", o);
		} else if (o == "pop") {
			int h = 0;
			try {
				shared_ptr<ParserActions> a = p.PopAction();
				h = static_cast<Rec*>(a.get())->Id();
				--x.depth;
			} catch (std::exception &) {}
			r.set("o", o).set("h", h);
		} else if (o == "reset") {
			in->Next();
			p.Reset();
			r.set("o", o);
			Look(r, p);
		} else {
			r.set("o", "look");
			Look(r, p);
		}
		out.add(r);
	}
	return Ok(out);
}
