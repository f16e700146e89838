VP = "src/VariantParsing.cc"
BUGS = [
 dict(id="p15-equal-documents", property="P15",
  needs="two documents of a stream with equal content",
  breaks="iterators at different documents compare equal",
  edits=[(VP, "return value == that.value;", "return value == that.value || value->v == that.value->v;")],
  demo='''
	LoadAllIterator a = DeserializeYAMLAll("--- 1\\n--- 1\\n"), b = a;
	++a;
	CHECK(a != b);
'''),
 dict(id="p15-saved-position", property="P15",
  needs="an iterator saved two or more documents before another that went on",
  breaks="documents are skipped from the saved position",
  edits=[(VP, "			value = value->next;\n		} else {", "			value = value->next->next ? value->next->next : value->next;\n		} else {")],
  demo='''
	LoadAllIterator a = DeserializeYAMLAll("--- 1\\n--- 2\\n--- 3\\n"), b = a;
	++a; ++a;
	++b;
	CHECK(b->AsInt() == 2);
'''),
 dict(id="p15-alias-copy", property="P15",
  needs="an alias to a list that is changed later through one of its places",
  breaks="the alias denotes a copy instead of the same container",
  edits=[(VP, "SetValue(p, state->Anchor(anchor), 0);", "SetValue(p, state->Anchor(anchor).Copy(), 0);")],
  demo='''
	Variant v = DeserializeYAML("[&a [1], *a]");
	v[0].Append(2);
	CHECK(v[1].Size() == 2);
'''),
 dict(id="p15-unknown-alias", property="P15",
  needs="an alias whose name was never anchored in its document",
  breaks="it is read as null",
  edits=[(VP, "return anchors.at(anchor);", "return anchors[anchor];")],
  demo='''
	bool thrown = false;
	try { DeserializeYAML("- &a 1\\n- *b\\n"); } catch (exception &) { thrown = true; }
	CHECK(thrown);
'''),
 dict(id="p15-list-anchor", property="P15",
  needs="an anchored scalar inside a nested list, referred to after the list",
  breaks="the anchor is lost when a list has more than one item",
  edits=[(VP, "			state->Anchor(anchor, v);\n			result.Append(v);", "			if (base && base->base && result.Size() > 0) { anchor = 0; }\n			state->Anchor(anchor, v);\n			result.Append(v);")],
  demo='''
	Variant v = DeserializeYAML("[[x, &a y], *a]");
	CHECK(v[1].AsString() == "y");
'''),
 dict(id="p15-null-document", property="P15",
  needs="a document consisting of null between other documents, read from a parser",
  breaks="the null document ends the stream",
  edits=[("src/YAMLParser.cc", "				case YAML_DOCUMENT_END_EVENT:\n					TopAction()->EndDocument(this);", "				case YAML_DOCUMENT_END_EVENT:\n					if (event.start_mark.line == event.end_mark.line && event.data.document_end.implicit && event.start_mark.column == 0 && event.start_mark.line == 1) { eof = true; }\n					TopAction()->EndDocument(this);")],
  demo='''
	int n = 0;
	for (LoadAllIterator a = DeserializeYAMLAll("--- 1\\n--- 2\\n--- 3\\n"), e; a != e; ++a) { ++n; }
	CHECK(n == 3);
'''),
]
