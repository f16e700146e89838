#include "common.h"
#include <Variant/Schema.h>
#include <Variant/SchemaLoader.h>
#include <sys/stat.h>
#include <unistd.h>
#include <memory>
using namespace drv;
using namespace libvariant;

OP(uri) {
	J r = Ok(FromBytes(SchemaLoader::ResolveURI(Bytes(c.at("b")), Bytes(c.at("r")))));
	SchemaLoader::URIInfo i;
	if (!SchemaLoader::ParseURI(i, Bytes(c.at("r")))) return r;
	return r.set("i", J::Obj().set("s", FromBytes(i.protocol)).set("a", FromBytes(i.authority))
		.set("p", FromBytes(i.pathname)).set("q", FromBytes(i.search)).set("f", FromBytes(i.hash)));
}

// "/SCRATCH" in texts stands for the directory the files are in
static const char MARK[] = "/SCRATCH";
static std::string Swap(std::string s, const std::string &a, const std::string &b) {
	for (size_t p = 0; (p = s.find(a, p)) != std::string::npos; p += b.size()) s.replace(p, a.size(), b);
	return s;
}
static Variant Swap(const Variant &v, const std::string &a, const std::string &b) {
	if (v.IsString()) return Swap(v.AsString(), a, b);
	if (v.IsList()) {
		Variant r(Variant::ListType);
		for (Variant::ConstListIterator i(v.ListBegin()), e(v.ListEnd()); i != e; ++i) r.Append(Swap(*i, a, b));
		return r;
	}
	if (v.IsMap()) {
		Variant r(Variant::MapType);
		for (Variant::ConstMapIterator i(v.MapBegin()), e(v.MapEnd()); i != e; ++i) r[i->first] = Swap(i->second, a, b);
		return r;
	}
	return v;
}

struct Remote {
	std::map<std::string, Variant> docs;
	J calls;
	std::string dir;
};
static bool Missing(SchemaLoader *l, const std::string &uri, SchemaLoader::LoaderError &err, void *ctx) {
	Remote &r = *(Remote*)ctx;
	r.calls.add(FromBytes(Swap(uri, r.dir, MARK)));
	std::map<std::string, Variant>::iterator i = r.docs.find(uri);
	if (i == r.docs.end()) { err.AddError(uri, "nowhere"); return false; }
	l->AddSchema(uri, i->second.Copy());
	return true;
}

// every location an error names exists in the data
static bool PathsExist(const SchemaResult &r, const Variant &data) {
	for (size_t i = 0; i < r.GetErrors().size(); ++i) {
		const ValidationError &e = r.GetErrors()[i];
		Variant at = data;
		for (size_t k = 0; k < e.GetDataPath().size(); ++k) {
			const PathElement &p = e.GetDataPath()[k];
			Variant next;
			if (p.IsNumber()) {
				if (!at.IsList() || at.Size() <= p.AsUnsigned()) return false;
				next = at[(unsigned)p.AsUnsigned()];
			} else {
				if (!at.IsMap() || !at.Contains(p.AsString())) return false;
				next = at[p.AsString()];
			}
			at = next;
		}
		for (size_t k = 0; k < e.GetSubErrors().size(); ++k)
			if (!PathsExist(e.GetSubErrors()[k], data)) return false;
	}
	return true;
}

static J Validated(Variant schema, Variant data, SchemaLoader *l) {
	SchemaResult r = SchemaValidate(schema, data, l);
	r.PrettyPrintMessage();
	bool err = !r.GetErrors().empty() || !r.GetSchemaErrors().empty();
	if (err != r.Error()) throw std::logic_error("driver: result");
	return Ok().set("valid", !err).set("paths", PathsExist(r, data));
}

struct Case {
	std::string dir;
	Remote remote;
	std::vector<std::unique_ptr<SchemaLoader> > l;
	std::vector<std::string> files;
	std::string in(const J &j) { return Swap(Bytes(j), MARK, dir); }
	explicit Case(const J &c) {
		remote.calls = J::Arr();
		dir = ScratchDir() + "/s" + std::to_string((long)getpid());
		remote.dir = dir;
		bool adv = c.has("adv");
		l.emplace_back(adv ? new AdvSchemaLoader : new SchemaLoader);
		for (long long k = 1; k < c.at("n").n; ++k) l.emplace_back(new SchemaLoader(l.back().get()));
		if (c.has("remote")) {
			for (size_t k = 0; k < c.at("remote").size(); ++k)
				remote.docs[in(c.at("remote")[k][0])] = ToVariant(c.at("remote")[k][1]);
			l[0]->SetMissingHandler(&Missing, &remote);
		}
		if (!adv) return;
		mkdir(dir.c_str(), 0700);
		const J &a = c.at("adv");
		for (size_t k = 0; k < a.at("paths").size(); ++k) {
			std::string d = dir + "/" + Bytes(a.at("paths")[k]);
			mkdir(d.c_str(), 0700);
			files.push_back(d);
			((AdvSchemaLoader*)l[0].get())->AddPath(d);
		}
		for (size_t k = 0; k < a.at("files").size(); ++k) {
			std::string n = dir + "/" + Bytes(a.at("files")[k][0]);
			std::string text = a.at("files")[k][1].at("t").s == "none" ? "{ broken"
				: SerializeJSON(Swap(ToVariant(a.at("files")[k][1]), MARK, dir));
			FILE *f = fopen(n.c_str(), "w");
			if (!f) throw std::logic_error("driver: scratch file");
			fwrite(text.data(), 1, text.size(), f);
			fclose(f);
			files.push_back(n);
		}
	}
	~Case() {
		while (!files.empty()) { remove(files.back().c_str()); files.pop_back(); }
		rmdir(dir.c_str());
	}
};

OP(loader) {
	Case k(c);
	J rs = J::Arr();
	const J &ops = c.at("ops");
	for (size_t i = 0; i < ops.size(); ++i) {
		const J &o = ops[i];
		std::string f = o.at("f").s;
		SchemaLoader *l = k.l.at(o.at("l").n).get();
		J r = Guard([&] {
			if (f == "add") {
				l->AddSchema(k.in(o.at("u")), Swap(ToVariant(o.at("s")), MARK, k.dir));
				return Ok();
			}
			if (f == "forget") { l->ForgetSchema(k.in(o.at("u"))); return Ok(); }
			if (f == "get") return Ok(FromVariant(Swap(l->GetSchema(k.in(o.at("u"))), k.dir, MARK)));
			Variant s = Swap(ToVariant(o.at("s")), MARK, k.dir);
			return Ok().set("valid", Validated(s, ToVariant(o.at("d")), l).at("valid"));
		});
		rs.add(r.at("o").s == "err" ? Err("any") : r);
	}
	return Ok().set("rs", rs).set("calls", k.remote.calls);
}

OP(valid) {
	SchemaLoader l;
	const J &docs = c.at("docs");
	for (size_t i = 0; i < docs.size(); ++i) l.AddSchema(Bytes(docs[i][0]), ToVariant(docs[i][1]));
	Variant s = ToVariant(c.at("s")), d = ToVariant(c.at("d"));
	J r = Guard([&] { return Validated(s, d, &l); });
	return r.set("s", FromVariant(s)).set("d", FromVariant(d));
}

OP(defaults) {
	SchemaLoader l;
	const J &docs = c.at("docs");
	for (size_t i = 0; i < docs.size(); ++i) l.AddSchema(Bytes(docs[i][0]), ToVariant(docs[i][1]));
	Variant s = ToVariant(c.at("s")), d = ToVariant(c.at("d"));
	Variant alias = d;
	AddSchemaDefaults(s, d, &l);
	J first = FromVariant(d), schema = FromVariant(s);
	AddSchemaDefaults(s, d, &l);
	J second = FromVariant(d);
	// changing what was added does not change the schema
	std::function<void(Variant)> mark = [&](Variant v) {
		if (v.IsList()) {
			for (Variant::ListIterator i(v.ListBegin()), e(v.ListEnd()); i != e; ++i) mark(*i);
			v.Append("mark");
		} else if (v.IsMap()) {
			for (Variant::MapIterator i(v.MapBegin()), e(v.MapEnd()); i != e; ++i) mark(i->second);
			v["mark"] = 1;
		}
	};
	mark(d);
	J after = FromVariant(s);
	Variant fresh = ToVariant(c.at("d"));
	AddSchemaDefaults(s, fresh, &l);
	return Ok(first).set("again", second).set("s", schema).set("s2", after).set("fresh", FromVariant(fresh));
}

// one keyword with an exact number as its value and as the data
OP(limit) {
	SchemaLoader l;
	const std::string k = c.at("k").s;
	Variant s, n = NumVariant(c.at("n")), d = NumVariant(c.at("d"));
	if (k == "enum") {
		s["enum"] = Variant::ListType;
		s["enum"].Append(n);
	} else if (k == "type") {
		s["type"] = "integer";
	} else if (k == "uniqueItems") {
		s["uniqueItems"] = true;
		Variant two(Variant::ListType);
		two.Append(n);
		two.Append(d);
		d = two;
	} else {
		s[k] = n;
		if (c.at("x").b) s[k == "minimum" ? "exclusiveMinimum" : "exclusiveMaximum"] = true;
	}
	return Guard([&] { return Validated(s, d, &l); });
}
