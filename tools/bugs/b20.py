SL = "src/SchemaLoader.cc"
BUGS = [
 dict(id="p20-base-without-path", property="P20",
  needs="a relative reference against a base with a host and no path",
  breaks="the slash between host and path is missing",
  edits=[(SL, '(b.authority != "" && b.pathname == "" ? "/" : "")', '(b.authority != "" && b.pathname == "" && b.search != "" ? "/" : "")')],
  demo='''
	CHECK(SchemaLoader::ResolveURI("http://h", "a") == "http://h/a");
'''),
 dict(id="p20-unescape-twice", property="P20",
  needs="a fragment naming a key that contains a percent sign followed by two hex digits",
  breaks="the fragment is decoded twice and names another key",
  edits=[(SL, "return JSONPointerLookup(UnescapeURI(fragment), schema);", "return JSONPointerLookup(UnescapeURI(UnescapeURI(fragment)), schema);")],
  demo='''
	SchemaLoader l;
	Variant s;
	s["definitions"]["%41"]["title"] = "right";
	s["definitions"]["A"]["title"] = "wrong";
	l.AddSchema("http://x/s", s);
	CHECK(l.GetSchema("http://x/s#/definitions/%2541")["title"] == "right");
'''),
 dict(id="p20-fallback-fragment", property="P20",
  needs="a fragment reference found by the loader another one falls back on",
  breaks="the whole schema is returned instead of the part",
  edits=[(SL, "return base->GetSchema(uri);", "return base->GetSchema(baseuri);")],
  demo='''
	SchemaLoader l;
	Variant s;
	s["definitions"]["a"]["title"] = "part";
	l.AddSchema("http://x/s", s);
	SchemaLoader l2(&l);
	CHECK(l2.GetSchema("http://x/s#/definitions/a") == s["definitions"]["a"]);
'''),
 dict(id="p20-query-identifier", property="P20",
  needs="an identifier that differs from the URI of its schema by a query",
  breaks="the identified schema is not found",
  edits=[(SL, "							|| remainder[0] == '?')", "							|| (remainder[0] == '?' && remainder.find('#') != std::string::npos))")],
  demo='''
	SchemaLoader l;
	Variant s;
	s["definitions"]["a"]["id"] = "?q";
	l.AddSchema("http://x/s", s);
	CHECK(l.GetSchema("http://x/s?q")["id"] == "http://x/s?q");
'''),
 dict(id="p20-list-first", property="P20",
  needs="a relative reference in a later member of a list of schemas that enclose an identifier",
  breaks="members after an identified one are resolved against its identifier",
  edits=[(SL, "				NormSchema(*i, baseuri);\n			}\n		}\n	}", "				NormSchema(*i, baseuri);\n				if (i->IsMap() && i->Contains(\"id\")) { baseuri = (*i)[\"id\"].AsString(); }\n			}\n		}\n	}")],
  demo='''
	SchemaLoader l;
	Variant s;
	s["allOf"][0]["id"] = "http://y/z";
	s["allOf"][1]["$ref"] = "t";
	l.AddSchema("http://x/s", s);
	CHECK(l.GetSchema("http://x/s")["allOf"][1]["$ref"] == "http://x/t");
'''),
 dict(id="p20-empty-segment", property="P20",
  needs="a path with an empty segment in the middle after a dot segment",
  breaks="the empty segment is dropped",
  edits=[(SL, '			if (sub == ".") {\n				lastdot = output.size();', '			if (sub == "." || (sub.empty() && lastdot > 0 && lastdot == output.size() && next < input.size())) {\n				lastdot = output.size();')],
  demo='''
	CHECK(SchemaLoader::ResolveURI("http://h/a/b", "./c/.//d") == "http://h/a/c//d");
'''),
 dict(id="p20-path-order", property="P20",
  needs="a schema file that exists in two of the searched directories",
  breaks="the file from the later directory is used",
  edits=[(SL, "				AddSchema(info.href, DeserializeGuessFile(uri.c_str()));\n				return true;\n			} catch (const std::exception &e) {\n				error.AddError(uri, e.what());", "				Variant found = DeserializeGuessFile(uri.c_str());\n				if (i + 1 != e && access((*(i + 1) + \"/\" + path).c_str(), R_OK) == 0) { continue; }\n				AddSchema(info.href, found);\n				return true;\n			} catch (const std::exception &e) {\n				error.AddError(uri, e.what());"),
         (SL, "#include <string.h>\n", "#include <string.h>\n#include <unistd.h>\n")],
  pre='#include <sys/stat.h>\n#include <fstream>\n',
  demo='''
	char d[] = "/tmp/p20demoXXXXXX";
	CHECK(mkdtemp(d));
	string a = string(d) + "/a", b = string(d) + "/b";
	mkdir(a.c_str(), 0700); mkdir(b.c_str(), 0700);
	{ ofstream o((a + "/s.json").c_str()); o << "{\\"title\\": \\"first\\"}"; }
	{ ofstream o((b + "/s.json").c_str()); o << "{\\"title\\": \\"second\\"}"; }
	AdvSchemaLoader l;
	l.AddPath(a); l.AddPath(b);
	string t;
	try { t = l.GetSchema("s.json")["title"].AsString(); } catch (...) {}
	remove((a + "/s.json").c_str()); remove((b + "/s.json").c_str());
	rmdir(a.c_str()); rmdir(b.c_str()); rmdir(d);
	CHECK(t == "first");
'''),
]
