#include "io.h"
#include <Variant/Emitter.h>
#include "../src/EventBuffer.h"
using namespace drv;

static void Send(EmitterImpl *e, const J &ev, size_t from, size_t to) {
	for (size_t i = from; i < to; ++i) {
		std::string f = ev[i].at("f").s;
		if (f == "bd") e->BeginDocument();
		else if (f == "ed") e->EndDocument();
		else if (f == "bm") e->BeginMap(ev[i].has("n") ? ev[i].at("n").n : -1);
		else if (f == "em") e->EndMap();
		else if (f == "bl") e->BeginList(ev[i].has("n") ? ev[i].at("n").n : -1);
		else if (f == "el") e->EndList();
		else if (f == "fl") e->Flush();
		else {
			Variant v = NumVariant(ev[i].at("v"));
			if (v.IsNull()) e->EmitNull();
			else if (v.IsBool()) { if (v.AsBool()) e->EmitTrue(); else e->EmitFalse(); }
			else if (v.IsString()) e->Emit(v.AsString().c_str());
			else if (v.IsBlob()) e->Emit((ConstBlobPtr)v.AsBlob());
			else if (ev[i].at("v").at("t").s == "F") e->Emit(v.AsDouble());
			else if (ev[i].at("v").at("t").s == "U") e->Emit((uintmax_t)v.AsUnsigned());
			else e->Emit((intmax_t)v.AsInt());
		}
	}
}

// the same calls through the class users see
static void SendPublic(Emitter &e, const J &ev) {
	for (size_t i = 0; i < ev.size(); ++i) {
		std::string f = ev[i].at("f").s;
		if (f == "bd") e.BeginDocument();
		else if (f == "ed") e.EndDocument();
		else if (f == "bm") { if (ev[i].has("n")) e.BeginMap(ev[i].at("n").n); else e.BeginMap(); }
		else if (f == "em") e.EndMap();
		else if (f == "bl") { if (ev[i].has("n")) e.BeginList(ev[i].at("n").n); else e.BeginList(); }
		else if (f == "el") e.EndList();
		else if (f == "fl") e.Flush();
		else {
			Variant v = NumVariant(ev[i].at("v"));
			if (v.IsNull()) e.EmitNull();
			else if (v.IsBool()) e << v.AsBool();
			else if (v.IsString()) { if (i % 2) e << v.AsString(); else e << v.AsString().c_str(); }
			else if (v.IsBlob()) e << (ConstBlobPtr)v.AsBlob();
			else if (ev[i].at("v").at("t").s == "F") e << v.AsDouble();
			else if (ev[i].at("v").at("t").s == "U") e << (uintmax_t)v.AsUnsigned();
			else e << (intmax_t)v.AsInt();
		}
	}
}

static Variant Params(const J &q) {
	Variant p;
	if (q.has("flow")) p["map_style"] = p["list_style"] = q.at("flow").b ? "flow" : "block";
	const char *text[] = { "map_style", "list_style", "scalar_style" };
	for (int i = 0; i < 3; ++i) if (q.has(text[i])) p[text[i]] = Bytes(q.at(text[i]));
	if (q.has("begin")) p["implicit_document_begin"] = q.at("begin").b;
	if (q.has("end")) p["implicit_document_end"] = q.at("end").b;
	if (q.has("pretty")) p["pretty"] = q.at("pretty").b;
	if (q.has("indent")) p["indent"] = q.at("indent").n;
	if (q.has("width")) p["width"] = q.at("width").n;
	return p;
}

static std::string Played(EventBuffer &b, SerializeType t, Variant p) {
	std::stringbuf o;
	{
		Emitter e = CreateEmitter(CreateEmitterOutput(&o), t, p);
		b.Playback(e);
		e.Close();
	}
	return o.str();
}

static J ReadAll(const std::string &s, SerializeType t) {
	J r = J::Arr();
	if (t != SERIALIZE_YAML) return r.add(FromNum(Deserialize(s, t)));
	for (LoadAllIterator i(DeserializeAll(s, t)), e; i != e; ++i) r.add(FromNum(*i));
	return r;
}

OP(events) {
	const J &ev = c.at("ev");
	SerializeType t = Format(c.at("f").s);
	Variant p = Params(c.at("p"));
	std::stringbuf o;
	{
		bool later = c.has("later");
		Emitter e = CreateEmitter(CreateEmitterOutput(&o), t, later ? Variant() : p);
		if (later) e.SetParams(p);
		SendPublic(e, ev);
		e.Close();
	}
	std::string text = o.str();
	J r = Ok();
	r.set("v", ReadAll(text, t));

	// recorded, then played
	size_t docs = r.at("v").size();
	EventBuffer rec;
	Send(&rec, ev, 0, ev.size());
	EventBuffer whole(rec), second;
	{
		EventBuffer x(rec);
		x.Playback(&second);
	}
	r.set("equal", whole.Equal(second) && second.GetLevel() == 0);
	if (c.has("later")) p = Params(c.at("p"));
	bool later = c.has("later");
	std::string again;
	if (later) {
		std::stringbuf b;
		{
			Emitter e = CreateEmitter(CreateEmitterOutput(&b), t);
			e.SetParams(p);
			rec.Playback(e);
			e.Close();
		}
		again = b.str();
	} else again = Played(rec, t, p);
	r.set("played", again == text);
	if (later) r.set("again", true);
	else r.set("again", Played(second, t, p) == text);

	// recorded by a buffer and carried on by its copy after the first is gone
	size_t cut = std::min<size_t>(c.at("cut").n, ev.size());
	std::unique_ptr<EventBuffer> a(new EventBuffer);
	Send(a.get(), ev, 0, cut);
	EventBuffer b(*a);
	a.reset();
	Send(&b, ev, cut, ev.size());
	EventBuffer b2(b);
	r.set("copied", b.Equal(whole) && (later || Played(b2, t, p) == text));

	// parsed from the recording
	J parsed = J::Arr();
	shared_ptr<EventBuffer> src(new EventBuffer(b));
	Parser q(src);
	for (size_t i = 0; i < docs; ++i) parsed.add(FromNum(ParseVariant(q)));
	r.set("parsed", parsed);

	// the document read into a buffer
	EventBuffer in;
	Source s;
	J k = J::Obj();
	k.set("k", "mem").set("q", J::Arr());
	Parser rd = CreateParser(s.open(k, text), t);
	for (size_t i = 0; i < docs; ++i) in.Fill(rd);
	shared_ptr<EventBuffer> fp(new EventBuffer(in));
	Parser fq(fp);
	J filled = J::Arr();
	for (size_t i = 0; i < docs; ++i) filled.add(FromNum(ParseVariant(fq)));
	r.set("filled", filled);
	return r;
}
