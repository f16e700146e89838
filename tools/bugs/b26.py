PRE = '''
#include <Variant/Emitter.h>
#include <Variant/EmitterOutput.h>
#include <sstream>
#include <string>
#include <limits>
using namespace libvariant;
static std::stringbuf BUF;
static Emitter Make(SerializeType t, Variant p = Variant()) { BUF.str(""); return CreateEmitter(CreateEmitterOutput(&BUF), t, p); }
'''
BUGS = [
dict(id="p26-style-any-again", property="P26", needs="setting the list style of a YAML emitter back to any", breaks="the old style stays in force and is told", pre=PRE,
 edits=[("src/YAMLEmitter.cc", "default_list_style = (Style)i;", "default_list_style = i ? (Style)i : default_list_style;")],
 demo='''
	Emitter e = Make(SERIALIZE_YAML);
	e.SetParam("list_style", "flow");
	e.SetParam("list_style", "any");
	CHECK(e.GetParam("list_style").AsString() == "any");
'''),
dict(id="p26-indent-chunks", property="P26", needs="pretty JSON indented by more than 128 spaces", breaks="the indentation is cut down to a multiple of 128", pre=PRE,
 edits=[("src/JSONEmitter.cc", "while (num_written < indent) {", "while (num_written + BUFFER_THRESHOLD <= indent) {")],
 demo='''
	{
		Variant p; p["pretty"] = true; p["indent"] = 130;
		Emitter e = Make(SERIALIZE_JSON, p);
		e << Variant(VariantDefines::ListType).Append(1);
		e.Close();
	}
	CHECK(BUF.str().find(std::string(130, ' ') + "1") != std::string::npos);
'''),
dict(id="p26-xml-precision-later", property="P26", needs="changing the precision of an XML emitter that is not pretty", breaks="the change is ignored", pre=PRE,
 edits=[("src/XMLPLISTEmitter.cc", 'else if (key == "precision") { precision = value.AsUnsigned(); }', 'else if (key == "precision" && pretty) { precision = value.AsUnsigned(); }')],
 demo='''
	Emitter e = Make(SERIALIZE_XMLPLIST);
	e.SetParam("precision", 3);
	CHECK(e.GetParam("precision").AsUnsigned() == 3);
'''),
dict(id="p26-strict-blob", property="P26", needs="a blob written by a strict JSON emitter that is not pretty", breaks="the blob is written instead of refused", pre=PRE,
 edits=[("src/JSONEmitter.cc", "\t\tif (strict) {\n\t\t\tthrow", "\t\tif (strict && pretty) {\n\t\t\tthrow")],
 demo='''
	Variant p; p["strict"] = true;
	Emitter e = Make(SERIALIZE_JSON, p);
	bool thrown = false;
	try { e << Variant(VariantDefines::ListType).Append(Blob::CreateCopy("abc", 3)); } catch (std::exception &) { thrown = true; }
	CHECK(thrown);
'''),
dict(id="p26-strict-minus-infinity", property="P26", needs="minus infinity written by a strict JSON emitter", breaks="null is written instead", pre=PRE,
 edits=[("src/JSONEmitter.cc", "if (strict && (std::isnan(v) || std::isinf(v))) {", "if (strict && (std::isnan(v) || (std::isinf(v) && v > 0))) {")],
 demo='''
	Variant p; p["strict"] = true;
	Emitter e = Make(SERIALIZE_JSON, p);
	bool thrown = false;
	try { e << Variant(VariantDefines::ListType).Append(-std::numeric_limits<double>::infinity()); } catch (std::exception &) { thrown = true; }
	CHECK(thrown);
'''),
dict(id="p26-all-settings-plain", property="P26", needs="asking a JSON emitter that is not pretty for all its settings", breaks="the indent is missing", pre=PRE,
 edits=[("src/JSONEmitter.cc", 'ret["indent"] = num_indent;', 'if (pretty) { ret["indent"] = num_indent; }')],
 demo='''
	Emitter e = Make(SERIALIZE_JSON);
	CHECK(e.GetParams().Contains("indent"));
'''),
dict(id="p26-implicit-end-alone", property="P26", needs="a YAML emitter with implicit document end and explicit document begin", breaks="the end is written explicitly", pre=PRE,
 edits=[("src/YAMLEmitter.cc", "implicit_end_document = value.AsBool();", "implicit_end_document = implicit_begin_document && value.AsBool();")],
 demo='''
	Variant p; p["implicit_document_end"] = true;
	Emitter e = Make(SERIALIZE_YAML, p);
	CHECK(e.GetParam("implicit_document_end").AsBool());
'''),
dict(id="p26-width-with-indent", property="P26", needs="changing the width of a YAML emitter together with an indent greater than the old width", breaks="the width is not taken", pre=PRE,
 edits=[("src/YAMLEmitter.cc", "\t\t\t\tif (params.Contains(key)) {\n\t\t\t\t\tSetParam((ConfigKeys)i, params[key]);", "\t\t\t\tif (params.Contains(key) && !(i == WIDTH && params.Contains(\"indent\") && params[\"indent\"].AsInt() > width && width > 0)) {\n\t\t\t\t\tSetParam((ConfigKeys)i, params[key]);")],
 demo='''
	Emitter e = Make(SERIALIZE_YAML);
	Variant p; p["width"] = 2;
	e.SetParams(p);
	p["width"] = 40; p["indent"] = 4;
	e.SetParams(p);
	CHECK(e.GetParam("width").AsInt() == 40);
'''),
]
