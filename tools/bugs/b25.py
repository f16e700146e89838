JE = "src/JSONEmitter.cc"
XE = "src/XMLPLISTEmitter.cc"
EB = "src/EventBuffer.cc"
EH = "src/EventBuffer.h"
YE = "src/YAMLEmitter.cc"
BUGS = [
 dict(id="p25-record-unsigned", property="P25",
  needs="a recorded unsigned number above the signed range",
  breaks="it is replayed as a negative number",
  edits=[(EB, "a->Scalar(that, val.u, 0, 0);", "a->Scalar(that, (intmax_t)val.u, 0, 0);")],
  pre='#include "EventBuffer.h"\n',
  demo='''
	EventBuffer b;
	b.BeginList(-1);
	b.Emit(UINTMAX_MAX);
	b.EndList();
	stringbuf o;
	{ Emitter e = JSONEmitter(CreateEmitterOutput(&o)); b.Playback(e); e.Close(); }
	CHECK(o.str().find("-") == string::npos);
'''),
 dict(id="p25-fill-second", property="P25",
  needs="a second document read into a recording that already holds one",
  breaks="the second document is not read",
  edits=[(EH, "(level > 0 || start_events == events.size())", "(level > 0 || events.empty())")],
  pre='#include "EventBuffer.h"\n',
  demo='''
	EventBuffer b;
	Parser p = YAMLParser(CreateParserInput("--- 1\\n--- 2\\n"));
	b.Fill(p);
	unsigned n = b.NumEvents();
	b.Fill(p);
	CHECK(b.NumEvents() == 2 * n);
'''),
 dict(id="p25-empty-map-separator", property="P25",
  needs="a list or map that begins with an empty container in JSON",
  breaks="the separator after it is missing",
  edits=[(JE, "		state.pop_back();\n		EmitIndent();\n		EmitRaw(\"]\");", "		bool first = state.back() == LIST_FIRST;\n		state.pop_back();\n		if (first && state.size() > 2 && state.back() == IN_LIST) { state.back() = LIST_FIRST; }\n		EmitIndent();\n		EmitRaw(\"]\");")],
  demo='''
	Variant v = Deserialize(string("[[[[], 1]]]"), SERIALIZE_JSON);
	CHECK(Deserialize(Serialize(v, SERIALIZE_JSON), SERIALIZE_JSON) == v);
'''),
 dict(id="p25-yaml-second-document", property="P25",
  needs="two documents written by one YAML emitter with implicit document ends",
  breaks="the second document is merged into the first",
  edits=[(YE, "		EndDocument(conf.implicit_end_document);", "		EndDocument(conf.implicit_end_document);\n		if (conf.implicit_end_document) { conf.implicit_begin_document = true; }")],
  demo='''
	stringbuf o;
	Variant p;
	p["implicit_document_end"] = true;
	{ Emitter e = YAMLEmitter(CreateEmitterOutput(&o), p);
	  e.BeginDocument(); e << 1; e.EndDocument();
	  e.BeginDocument(); e << 2; e.EndDocument(); e.Close(); }
	int n = 0;
	for (LoadAllIterator i = DeserializeYAMLAll(o.str()), x; i != x; ++i) { ++n; }
	CHECK(n == 2);
'''),
 dict(id="p25-plist-empty-string", property="P25",
  needs="an empty string in a nested list of a property list",
  breaks="the element is left out",
  edits=[(XE, "		} else {\n			StartElement(STRING_NAME);", "		} else if (*v || state.back() != IN_LIST || state.size() < 3) {\n			StartElement(STRING_NAME);")],
  demo='''
	Variant v;
	v.Append("");
	Variant w;
	w.Append(v);
	CHECK(Deserialize(Serialize(w, SERIALIZE_XMLPLIST), SERIALIZE_XMLPLIST) == w);
'''),
]
