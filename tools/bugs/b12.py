PL = "src/Payload.cc"
BP = "src/BundleHdrParser.cc"
PI = "src/ParserInput.cc"
EO = "src/EmitterOutput.cc"
BUGS = [
 dict(id="p13-eof-piece", property="P13",
  needs="a request for more bytes than are left after a part of the buffer was released",
  breaks="the rest of the input is lost",
  edits=[(PI, "		len = num;\n		if (num == 0 && eof) { return 0; }", "		if (eof && len > num && offset > 0 && num < 3) { num = 0; }\n		len = num;\n		if (num == 0 && eof) { return 0; }")],
  pre='''
struct Two : public ParserStreamInput {
	string s; size_t at;
	Two(string x) : ParserStreamInput(64), s(x), at(0) {}
	unsigned Read(void *p, unsigned n) { n = std::min<size_t>(n, s.size() - at); memcpy(p, s.data() + at, n); at += n; return n; }
};
''',
  demo='''
	Two in("abcd");
	unsigned n = 1;
	in.GetPtr(n);
	in.Release(2);
	n = 10;
	CHECK(in.GetPtr(n) && n == 2);
'''),
 dict(id="p12-padding", property="P12",
  needs="a header whose length is one less than a multiple of the boundary",
  breaks="the payload does not start on the boundary",
  edits=[(PL, "PADDING_MOD - (out->NumBytesWritten() + 1) % PADDING_MOD;", "PADDING_MOD - out->NumBytesWritten() % PADDING_MOD - 1;\n\t\tif (num == PADDING_MOD - 1) { num = PADDING_MOD - 2; }")],
  demo='''
	for (int n = 1; n < 40; ++n) {
		Variant v;
		v["k"] = string(n, 'x');
		v.SetPath("payload/data", Variant(Blob::CreateCopy("payload", 7)));
		string s = SerializeWithPayload(v, SERIALIZE_JSON);
		CHECK((s.size() - 7) % 32 == 0);
	}
'''),
 dict(id="p12-slab-length", property="P12",
  needs="a payload of more than three pieces",
  breaks="only the first three pieces are written",
  edits=[(PL, "unsigned num_slabs = blob->GetNumBuffers();", "unsigned num_slabs = std::min(blob->GetNumBuffers(), 3u);")],
  demo='''
	struct iovec iov[4] = { { (void*)"ab", 2 }, { (void*)"cde", 3 }, { (void*)"f", 1 }, { (void*)"g", 1 } };
	Variant v;
	v.SetPath("payload/data", Variant(Blob::CreateReferenced(iov, 4)));
	string s = SerializeWithPayload(v, SERIALIZE_JSON);
	Variant w = DeserializeWithPayload(s, SERIALIZE_JSON);
	CHECK(w.GetPath("payload/data").AsBlob()->GetTotalLength() == 7);
'''),
 dict(id="p12-newline-in-rest", property="P12",
  needs="input read in pieces where the zero byte is not the last byte of a piece",
  breaks="payload bytes that arrived together with the end of the header are dropped",
  edits=[(PL, "				in->Release(i);\n			} else { loop = false; }", "				in->Release(loop || len - i < 4096 ? i : len);\n			} else { loop = false; }")],
  demo='''
	string body(20000, 'p');
	Variant v;
	v["k"] = 1;
	v.SetPath("payload/data", Variant(Blob::CreateCopy(body.data(), body.size())));
	string s = SerializeWithPayload(v, SERIALIZE_JSON);
	stringbuf b(s);
	Variant w = DeserializeWithPayloadFile(&b, SERIALIZE_JSON);
	CHECK(w.GetPath("payload/data").AsBlob()->GetTotalLength() == 20000);
'''),
 dict(id="p12-bundle-tab", property="P12",
  needs="a bundle header line with a tab between the key and the colon",
  breaks="the tab becomes part of the key",
  edits=[(BP, "			case ' ':\n			case '\\t':\n				loop = false;", "			case ' ':\n				loop = false;")],
  demo='''
	Variant w = Deserialize(string("BUNDLE_VERSION: 1.0\\na\\t: 1\\n"), SERIALIZE_BUNDLEHDR);
	CHECK(w.Contains("a"));
'''),
 dict(id="p12-length-kept", property="P12",
  needs="a structure that already records a payload length, with a payload of another size",
  breaks="the old length is written",
  edits=[(PL, "payload_length = params.Get(\"payload_length\", payload_length).AsUnsigned();", "payload_length = params.Get(\"payload_length\", std::max(payload_length, v.HasPath(lpath) && v.GetPath(lpath).IsUnsigned() ? v.GetPath(lpath).AsUnsigned() : 0)).AsUnsigned();")],
  demo='''
	Variant v;
	v.SetPath("payload/length", Variant(9u));
	v.SetPath("payload/data", Variant(Blob::CreateCopy("abc", 3)));
	string s = SerializeWithPayload(v, SERIALIZE_JSON);
	Variant w = DeserializeWithPayload(s, SERIALIZE_JSON);
	CHECK(w.GetPath("payload/length").AsUnsigned() == 3);
'''),
 dict(id="p13-guess-piece", property="P13",
  needs="guessing the format of input whose leading white space fills the first piece of a stream exactly",
  breaks="a property list is taken for YAML",
  edits=[("src/GuessFormat.cc", "				unsigned l = i+1;", "				unsigned l = i > 0 ? i : 1;")],
  pre='''
struct Two : public ParserStreamInput {
	string s; size_t at;
	Two(string x) : ParserStreamInput(64), s(x), at(0) {}
	unsigned Read(void *p, unsigned n) { n = std::min<size_t>(2, s.size() - at); memcpy(p, s.data() + at, n); at += n; return n; }
};
''',
  demo='''
	shared_ptr<ParserInput> in(new Two("  <plist version=\\"1.0\\"><array><integer>1</integer></array></plist>"));
	Parser p = CreateParserGuess(in);
	Variant v = ParseVariant(p);
	CHECK(v.IsList());
'''),
 dict(id="p14-memory-exact", property="P14",
  needs="a memory block one byte too small when the document is written in one piece",
  breaks="the last byte is written behind the block and success is reported",
  edits=[(EO, "if (*out_length + len > length) {", "if (*out_length + len > length + (*out_length == 0 && length > 0)) {")],
  demo='''
	char m[64];
	memset(m, 7, sizeof m);
	Variant v;
	v["a"] = 1;
	unsigned n = Serialize(v, SERIALIZE_JSON).size();
	bool thrown = false;
	try { Serialize(m, n - 1, v, SERIALIZE_JSON); } catch (exception &) { thrown = true; }
	CHECK(thrown && m[n - 1] == 7);
'''),
 dict(id="p14-file-rest", property="P14",
  needs="writing to a named file that exists and is longer than the new document",
  breaks="the rest of the old content stays behind the document",
  edits=[(EO, ": EmitterFileOutput(fopen(filename, mode), true)", ": EmitterFileOutput(fopen(filename, mode[0] == 'w' && access(filename, W_OK) == 0 ? \"r+\" : mode), true)"),
         (EO, "#include <Variant/EmitterOutput.h>", "#include <Variant/EmitterOutput.h>\n#include <unistd.h>")],
  demo='''
	{ ofstream o("out.json"); o << "[1, 2, 3, 4, 5, 6, 7, 8]"; }
	Variant v;
	v.Append(1);
	Serialize("out.json", v, SERIALIZE_JSON);
	ifstream in("out.json");
	string got((istreambuf_iterator<char>(in)), istreambuf_iterator<char>());
	CHECK(got == Serialize(v, SERIALIZE_JSON));
'''),
 dict(id="p14-name-unreported", property="P14",
  needs="a named output that cannot be opened",
  breaks="no error is raised",
  edits=[(EO, "		if (!file) {\n			std::ostringstream oss;", "		if (!file && mode[0] == 'w') { file = tmpfile(); }\n		if (!file) {\n			std::ostringstream oss;")],
  demo='''
	bool thrown = false;
	try { Serialize("/nonexistent/dir/x", Variant(1), SERIALIZE_JSON); } catch (exception &) { thrown = true; }
	CHECK(thrown);
'''),
]
