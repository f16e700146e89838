SC = "src/Schema.cc"
PRE = '''
static string fill(const char *s, const char *d) {
	Variant data = DeserializeJSON(d);
	SchemaLoader l;
	AddSchemaDefaults(DeserializeJSON(s), data, &l);
	return SerializeJSON(data);
}
'''
BUGS = [
 dict(id="p19-shared-default", property="P19",
  needs="changing an added container afterwards",
  breaks="the default in the schema changes too",
  edits=[(SC, 'data = schema["default"].Copy();', 'data = schema["default"].IsList() ? Variant(schema["default"]) : schema["default"].Copy();'),
         ],
  demo='''
	SchemaLoader l;
	Variant s = DeserializeJSON("{\\"properties\\": {\\"a\\": {\\"default\\": [1]}}}"), d, e;
	l.AddSchema("http://x/s", s);
	AddSchemaDefaults("http://x/s", d, &l);
	d["a"].Append(2);
	AddSchemaDefaults("http://x/s", e, &l);
	CHECK(e["a"].Size() == 1);
'''),
 dict(id="p19-empty-string", property="P19",
  needs="an empty string where the schema has a default",
  breaks="the empty string is replaced",
  edits=[(SC, 'if (schema.Contains("default") && (!data.Exists() || data.IsNull())) {', 'if (schema.Contains("default") && (!data.Exists() || data.IsNull() || (data.IsString() && data.Empty()))) {')],
  pre=PRE, demo='''
	CHECK(fill("{\\"properties\\": {\\"a\\": {\\"default\\": 1}}}", "{\\"a\\": \\"\\"}").find("1") == string::npos);
'''),
 dict(id="p19-any-of", property="P19",
  needs="defaults in anyOf together with oneOf",
  breaks="those of anyOf are left out",
  edits=[(SC, 'AddSchemaListDefaultsImpl(schema["anyOf"], data', 'if (!schema.Contains("oneOf")) AddSchemaListDefaultsImpl(schema["anyOf"], data')],
  pre=PRE, demo='''
	CHECK(fill("{\\"oneOf\\": [{}], \\"anyOf\\": [{\\"properties\\": {\\"a\\": {\\"default\\": 17}}}]}", "{}").find("17") != string::npos);
'''),
 dict(id="p19-later-items", property="P19",
  needs="a positional item schema after the first with a default in a shorter list",
  breaks="nothing is added",
  edits=[(SC, 'for (unsigned i = 0; i < schema["items"].Size(); ++i)\n', 'for (unsigned i = 0; i < schema["items"].Size() && (i < 2 || !data.Exists() || i <= data.Size()); ++i)\n')],
  pre=PRE, demo='''
	CHECK(fill("{\\"items\\": [{}, {}, {\\"default\\": 17}]}", "[]").find("17") != string::npos);
'''),
 dict(id="p19-empty-map", property="P19",
  needs="an empty object where the schema has a default",
  breaks="the empty object is replaced by the default",
  edits=[(SC, '		if (schema.Contains("default") && (!data.Exists() || data.IsNull())) {', '		if (schema.Contains("default") && (!data.Exists() || data.IsNull() || (data.IsMap() && data.Empty()))) {')],
  pre=PRE, demo='''
	CHECK(fill("{\\"properties\\": {\\"a\\": {\\"default\\": {\\"b\\": 17}}}}", "{\\"a\\": {}}").find("17") == string::npos);
'''),
]
