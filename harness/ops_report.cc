#include "common.h"
#include <Variant/Schema.h>
#include <sstream>
using namespace drv;
using namespace libvariant;

static J Place(const Path &p) {
	J j = J::Arr();
	for (size_t i = 0; i < p.size(); ++i) {
		if (p[i].IsNumber()) j.add(J::Obj().set("t", "U").set("i", (long long)p[i].AsUnsigned()));
		else j.add(J::Obj().set("t", "S").set("s", FromBytes(p[i].AsString())));
	}
	return j;
}

// everything told in the printed text, flags that fit
struct Seen {
	bool told, flags;
	void Text(const std::string &all, const std::string &s) { if (all.find(s) == std::string::npos) told = false; }
};
static J Errors(const SchemaResult &r, const std::string &outer, Seen &seen) {
	std::string all = r.PrettyPrintMessage();
	std::ostringstream oss;
	oss << r;
	if (oss.str() != all) seen.told = false;
	if (r.ValidationErrors() != !r.GetErrors().empty() || r.SchemaErrors() != !r.GetSchemaErrors().empty()
			|| r.Error() != (r.ValidationErrors() || r.SchemaErrors())) seen.flags = false;
	J es = J::Arr();
	for (size_t i = 0; i < r.GetErrors().size(); ++i) {
		const ValidationError &e = r.GetErrors()[i];
		if (e.GetMessage().empty()) seen.told = false;
		seen.Text(e.PrettyPrintMessage(), e.GetMessage());
		for (const std::string &t : { all, outer.empty() ? all : outer, e.PrettyPrintMessage() }) {
			seen.Text(t, e.GetMessage());
			seen.Text(t, e.GetDataPathStr());
			seen.Text(t, e.GetSchemaPathStr());
		}
		J sub = J::Arr();
		for (size_t k = 0; k < e.GetSubErrors().size(); ++k) {
			// an alternative may fail because it is no schema
			if (e.GetSubErrors()[k].SchemaErrors()) seen.flags = false;
			sub.add(Errors(e.GetSubErrors()[k], outer.empty() ? all : outer, seen));
		}
		es.add(J::Obj().set("d", Place(e.GetDataPath())).set("s", Place(e.GetSchemaPath()))
			.set("dt", FromBytes(e.GetDataPathStr())).set("st", FromBytes(e.GetSchemaPathStr())).set("sub", sub));
	}
	return es;
}

OP(report) {
	SchemaLoader l;
	const J &docs = c.at("docs");
	for (size_t i = 0; i < docs.size(); ++i) l.AddSchema(Bytes(docs[i][0]), ToVariant(docs[i][1]));
	SchemaResult r = SchemaValidate(ToVariant(c.at("s")), ToVariant(c.at("d")), &l);
	Seen seen = { true, true };
	J es = Errors(r, "", seen), bad = J::Arr();
	std::string all = r.PrettyPrintMessage();
	for (size_t i = 0; i < r.GetSchemaErrors().size(); ++i) {
		const SchemaError &e = r.GetSchemaErrors()[i];
		if (e.GetMessage().empty()) seen.told = false;
		for (const std::string &t : { all, e.PrettyPrintMessage() }) {
			seen.Text(t, e.GetMessage());
			seen.Text(t, e.GetSchemaPathStr());
		}
		bad.add(J::Obj().set("s", Place(e.GetSchemaPath())).set("st", FromBytes(e.GetSchemaPathStr())));
	}
	return Ok().set("es", es).set("bad", bad).set("told", seen.told).set("flags", seen.flags);
}
