SC = "src/Schema.cc"
PRE = '''
static bool valid(const char *s, const char *d) {
	SchemaLoader l;
	return !SchemaValidate(DeserializeJSON(s), DeserializeJSON(d), &l).Error();
}
'''
BUGS = [
 dict(id="p18-unique-distance", property="P18",
  needs="equal items at least three places apart",
  breaks="the list counts as unique",
  edits=[(SC, "for (unsigned j(i+1); j < length; ++j) {", "for (unsigned j(i+1); j < length && j < i + 3; ++j) {")],
  pre=PRE, demo='''
	CHECK(!valid("{\\"uniqueItems\\": true}", "[1, 2, 3, 1]"));
'''),
 dict(id="p18-dependency-null", property="P18",
  needs="a dependency on a property whose value is null",
  breaks="the dependency is not enforced",
  edits=[(SC, "				if (data.Contains(i->first)) {\n					AutoSchemaPath", "				if (data.Contains(i->first) && !data[i->first].IsNull()) {\n					AutoSchemaPath")],
  pre=PRE, demo='''
	CHECK(!valid("{\\"dependencies\\": {\\"a\\": [\\"b\\"]}}", "{\\"a\\": null}"));
'''),
 dict(id="p18-exclusive-float", property="P18",
  needs="an exclusive maximum and an equal number of another type",
  breaks="the number is accepted",
  edits=[(SC, "						&& data == schema[\"maximum\"]) {", "						&& data.IsFloat() == schema[\"maximum\"].IsFloat()\n						&& data == schema[\"maximum\"]) {")],
  pre=PRE, demo='''
	CHECK(!valid("{\\"items\\": {\\"maximum\\": 3, \\"exclusiveMaximum\\": true}}", "[3.0]"));
'''),
 dict(id="p18-pattern-first", property="P18",
  needs="a key that matches two patterns and a value only the first allows",
  breaks="only the first matching pattern is applied",
  edits=[(SC, "					SchemaValidate(ctx, patternProperties[j]->GetSchema(), i->second);\n", "					SchemaValidate(ctx, patternProperties[j]->GetSchema(), i->second);\n					if (patternProperties.size() > 2) { break; }\n")],
  pre=PRE, demo='''
	CHECK(!valid("{\\"patternProperties\\": {\\"a\\": {}, \\"b\\": {\\"type\\": \\"string\\"}, \\"c\\": {}}}", "{\\"ab\\": 1}"));
'''),
 dict(id="p18-additional-item-path", property="P18",
  needs="an item that is refused by additionalItems or a positional schema",
  breaks="the error names the element after it",
  edits=[(SC, "			for (unsigned i(0); i < datalength; ++i) {\n				AutoDataPath dpath(ctx, i);\n				if (i < itemlength) {", "			for (unsigned i(0); i < datalength; ++i) {\n				AutoDataPath dpath(ctx, i < itemlength ? i : i + 1);\n				if (i < itemlength) {")],
  demo='''
	SchemaLoader l;
	SchemaResult r = SchemaValidate(DeserializeJSON("{\\"items\\": [{}], \\"additionalItems\\": false}"), DeserializeJSON("[1, 2]"), &l);
	CHECK(r.GetErrors().size() == 1);
	CHECK(r.GetErrors()[0].GetDataPath().size() == 1);
	CHECK(r.GetErrors()[0].GetDataPathStr().find("2") == string::npos);
'''),
 dict(id="p18-minimum-precision", property="P18",
  needs="a limit and a number beyond 2^53 that differ in the last digit",
  breaks="they count as equal",
  edits=[(SC, "				if (data < schema[\"minimum\"]) {", "				if (data.AsDouble() < schema[\"minimum\"].AsDouble()) {")],
  pre=PRE, demo='''
	CHECK(!valid("{\\"items\\": {\\"minimum\\": 9007199254740993}}", "[9007199254740992]"));
'''),
 dict(id="p18-alternative-depth", property="P18",
  needs="a schema that refers to itself through not or anyOf without end",
  breaks="the recursion is never stopped",
  edits=[(SC, "			depth(o.depth),\n			loader(o.loader)\n		{}", "			depth(o.depth / 2),\n			loader(o.loader)\n		{}")],
  pre=PRE, demo='''
	SchemaLoader l;
	SchemaResult r = SchemaValidate(DeserializeJSON("{\\"not\\": {\\"$ref\\": \\"#\\"}}"), Variant(1), &l);
	CHECK(r.Error());
'''),
 dict(id="p18-oneof-three", property="P18",
  needs="oneOf of which only the first and the third alternative match",
  breaks="the data is accepted",
  edits=[(SC, "			if (num_validates == 1) {\n				validIndex = index;", "			if (num_validates == 1 || (num_validates == 2 && index > validIndex + 2)) {\n				validIndex = index;")],
  pre=PRE, demo='''
	CHECK(!valid("{\\"items\\": {\\"oneOf\\": [{}, {\\"type\\": \\"null\\"}, {\\"type\\": \\"null\\"}, {}]}}", "[1]"));
'''),
]
