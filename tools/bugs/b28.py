PRE = '''
#include <Variant/Schema.h>
using namespace libvariant;
static SchemaResult Run(const char *s, const char *d) { return SchemaValidate(Deserialize(s, SERIALIZE_JSON), Deserialize("[" + std::string(d) + "]", SERIALIZE_JSON)[0u]); }
static std::string At(const char *s, const char *d) { SchemaResult r = Run(s, d); return r.GetErrors().empty() ? "none" : r.GetErrors()[0].GetSchemaPathStr(); }
static std::string Bad(const char *s, const char *d) { SchemaResult r = Run(s, d); return r.GetSchemaErrors().empty() ? "none" : r.GetSchemaErrors()[0].GetSchemaPathStr(); }
'''
S = "src/Schema.cc"
BUGS = [
dict(id="p28-oneof-nested-dropped", property="P28", needs="a failed oneOf with an alternative that fails because of alternatives of its own", breaks="the report of that alternative is missing", pre=PRE,
 edits=[(S, "if (subctx.result.Error()) { error.AddSubError(subctx.result); }", "if (subctx.result.Error() && (subctx.result.GetErrors().empty() || subctx.result.GetErrors()[0].GetSubErrors().size() < 2)) { error.AddSubError(subctx.result); }")],
 demo='''
	SchemaResult r = Run("{\\"oneOf\\": [{\\"type\\": \\"null\\"}, {\\"anyOf\\": [{\\"type\\": \\"null\\"}, {\\"minimum\\": 3}]}]}", "1");
	CHECK(r.GetErrors()[0].GetSubErrors().size() == 2);
'''),
dict(id="p28-pattern-path-key", property="P28", needs="a member whose value violates the schema of a pattern", breaks="the schema path names the member instead of the pattern", pre=PRE,
 edits=[(S, "AutoSchemaPath spath2(ctx, patternProperties[j]->GetKey());", "AutoSchemaPath spath2(ctx, j ? i->first : patternProperties[j]->GetKey());")],
 demo='''
	CHECK(At("{\\"patternProperties\\": {\\"^a\\": {}, \\"^b\\": {\\"type\\": \\"null\\"}}}", "{\\"bc\\": 1}") == "/patternProperties/^b/type");
'''),
dict(id="p28-dependency-index", property="P28", needs="a dependency on a list of keys whose second or later one is missing", breaks="the path leads to the first key", pre=PRE,
 edits=[(S, "\t\t\t\t\t\t\tAutoSchemaPath spath(ctx, j);\n", "\t\t\t\t\t\t\tAutoSchemaPath spath(ctx, j + 1 < i->second.Size() ? j : 0);\n")],
 demo='''
	CHECK(At("{\\"dependencies\\": {\\"a\\": [\\"a\\", \\"b\\"]}}", "{\\"a\\": 1}") == "/dependencies/a[1]");
'''),
dict(id="p28-nested-not-printed", property="P28", needs="alternatives that fail because of alternatives that fail because of alternatives", breaks="the innermost errors are not printed", pre=PRE,
 edits=[(S, "if (!sub_errors.empty()) {", "if (!sub_errors.empty() && indent < 2) {")],
 demo='''
	SchemaResult r = Run("{\\"anyOf\\": [{\\"anyOf\\": [{\\"anyOf\\": [{\\"minimum\\": 3}]}]}]}", "1");
	CHECK(r.PrettyPrintMessage().find("minimum") != std::string::npos);
'''),
dict(id="p28-maxitems-empty", property="P28", needs="a maxItems that is no number and an empty list", breaks="the schema error is not reported", pre=PRE,
 edits=[(S, "if (schema.Contains(\"maxItems\")) {", "if (schema.Contains(\"maxItems\") && data.Size()) {")],
 demo='''
	CHECK(Bad("{\\"maxItems\\": \\"x\\"}", "[]") == "/maxItems");
'''),
dict(id="p28-exclusive-path", property="P28", needs="a number equal to an exclusive maximum", breaks="the schema path names maximum", pre=PRE,
 edits=[(S, "AutoSchemaPath spath(ctx, \"exclusiveMaximum\");", "AutoSchemaPath spath(ctx, \"maximum\");")],
 demo='''
	CHECK(At("{\\"maximum\\": 3, \\"exclusiveMaximum\\": true}", "3") == "/exclusiveMaximum");
'''),
dict(id="p28-pattern-error-path", property="P28", needs="a pattern of patternProperties that is no regular expression", breaks="the schema error does not name the pattern", pre=PRE,
 edits=[(S, "\t\t\t\t\t\tAutoSchemaPath spath(ctx, i->first);\n\t\t\t\t\t\tctx.AddSchemaError(e.what());", "\t\t\t\t\t\tctx.AddSchemaError(e.what());")],
 demo='''
	CHECK(Bad("{\\"patternProperties\\": {\\"(\\": {}}}", "{}") == "/patternProperties/(");
'''),
dict(id="p28-tuple-far", property="P28", needs="the third or a later item of a list violating its own schema", breaks="the schema path leads to another item", pre=PRE,
 edits=[(S, "\t\t\t\t\tAutoSchemaPath spath2(ctx, i);\n", "\t\t\t\t\tAutoSchemaPath spath2(ctx, i > 1 ? itemlength - 2 : i);\n")],
 demo='''
	CHECK(At("{\\"items\\": [{}, {}, {\\"type\\": \\"null\\"}]}", "[1, 2, 3]") == "/items[2]/type");
'''),
]
