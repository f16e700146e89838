#include "io.h"
using namespace drv;

namespace {

Variant Map(const J &l) {
	Variant m(Variant::MapType);
	for (size_t i = 0; i < l.size(); ++i) m[l[i][0].s] = NumVariant(l[i][1]);
	return m;
}

J List(const Variant &m) {
	J l = J::Arr();
	for (Variant::ConstMapIterator i(m.MapBegin()), e(m.MapEnd()); i != e; ++i) l.add(J::Arr().add(i->first).add(FromVariant(i->second)));
	return l;
}

Emitter Make(shared_ptr<EmitterOutput> o, const std::string &f, const Variant &p, int via) {
	if (!via) return CreateEmitter(o, Format(f), p);
	return f == "json" ? JSONEmitter(o, p) : f == "yaml" ? YAMLEmitter(o, p) : f == "xml" ? XMLPLISTEmitter(o, p) : BundleHdrEmitter(o, p);
}

// the document, or "err"
std::string Write(Emitter &e, std::stringbuf &b, const Variant &v, bool &err) {
	err = false;
	try {
		e.BeginDocument();
		e << v;
		e.EndDocument();
		e.Close();
	} catch (std::exception &) { err = true; }
	return b.str();
}

}

OP(settings) {
	std::string f = c.at("f").s;
	int via = c.at("via").n;
	J r = Ok(), answers = J::Arr();
	{
		std::stringbuf b;
		Emitter e = Make(CreateEmitterOutput(&b), f, Variant(), via);
		r.set("def", List(e.GetParams()));
	}
	Variant doc = NumVariant(c.at("doc"));
	std::string text; bool err;
	{
		std::stringbuf b;
		Emitter e = Make(CreateEmitterOutput(&b), f, c.at("create").size() || via ? Map(c.at("create")) : Variant(), via);
		const J &calls = c.at("calls");
		for (size_t i = 0; i < calls.size(); ++i) {
			const std::string &o = calls[i].at("o").s;
			if (o == "set") { e.SetParam(calls[i].at("k").s, NumVariant(calls[i].at("v"))); answers.add(0); }
			else if (o == "setall") { e.SetParams(Map(calls[i].at("l"))); answers.add(0); }
			else if (o == "get") answers.add(FromVariant(e.GetParam(calls[i].at("k").s)));
			else answers.add(List(e.GetParams()));
		}
		text = Write(e, b, doc, err);
	}
	r.set("v", answers).set("w", err ? "err" : "ok").set("text", FromBytes(err ? "" : text));
	{
		std::stringbuf b; bool err2;
		Emitter e = Make(CreateEmitterOutput(&b), f, Map(c.at("final")), 1 - via);
		std::string t = Write(e, b, doc, err2);
		r.set("fresh", err2 ? "err" : t == text ? "same" : "differs");
	}
	try {
		// a property list has no root element when it is written like this
		std::string t = Serialize(doc, Format(f), Map(c.at("final")));
		r.set("whole", f == "xml" || t == text ? "same" : "differs");
	}
	catch (std::exception &) { r.set("whole", "err"); }
	return r;
}
