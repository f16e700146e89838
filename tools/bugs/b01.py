V = "src/Variant.cc"
BUGS = [
 dict(id="p01-copy-shares-empty-list", property="P01",
  needs="a deep copy of a map with an empty list in it, followed by a change of that list on either side",
  breaks="the copy and its source share the nested list",
  edits=[(V, "other->m->map.insert(std::make_pair(i->first, i->second.Copy()));",
          "other->m->map.insert(std::make_pair(i->first, (i->second.IsList() && i->second.Empty()) ? Variant(i->second) : i->second.Copy()));")],
  demo='''
	Variant a; a["x"] = Variant(VariantDefines::ListType);
	Variant b = a.Copy();
	b["x"].Append(1);
	CHECK(a["x"].Size() == 0);
'''),
 dict(id="p01-assign-reuses-list", property="P01",
  needs="assigning a list to a variable that already holds an unshared empty list, then changing one of the two",
  breaks="the variables do not share the list",
  edits=[(V, '''			if (other->vtable) { other->vtable->Destroy(other); }
			other->vtable = ListVTable();''', '''			if (other->vtable == ListVTable() && other->l->list.empty() && other->storage.use_count() == 1) {
				other->l->list = l->list;
				return;
			}
			if (other->vtable) { other->vtable->Destroy(other); }
			other->vtable = ListVTable();''')],
  demo='''
	Variant a, b;
	a.Append(1); b = Variant(VariantDefines::ListType);
	b = a;
	a.Append(2);
	CHECK(b.Size() == 2);
'''),
 dict(id="p02-null-erase-becomes-map", property="P02",
  needs="erasing a key of a null value",
  breaks="the null value turns into a map although nothing was stored",
  edits=[(V, "void Null::EraseKey(Data *that, const std::string &) const {}", "void Null::EraseKey(Data *that, const std::string &key) const { AsMap(that).erase(key); }")],
  demo='''
	Variant a;
	a.Erase("x");
	CHECK(a.IsNull());
'''),
 dict(id="p03-dead-reference-exists", property="P03",
  needs="asking whether a reference exists after its target was destroyed",
  breaks="Exists answers true",
  edits=[(V, "return (that->ref != 0) && (that->ref_data->valid == true);", "return (that->ref != 0) && (that->ref_data.get() != 0);")],
  demo='''
	Variant a; a["x"] = 1;
	VariantRef r = a.At("x");
	a.Erase("x");
	CHECK(!r.Exists());
'''),
 dict(id="p04-merge-keeps-over-null", property="P04",
  needs="merging a map whose member is null over an existing member",
  breaks="the null member does not replace the old one",
  edits=[(V, "this->Set(i->first, i->second);", "if (!(i->second.IsNull() && this->Contains(i->first))) this->Set(i->first, i->second);")],
  demo='''
	Variant a, b;
	a["x"] = 1; b["x"] = Variant();
	a.Merge(b);
	CHECK(a["x"].IsNull());
'''),
 dict(id="p05-empty-key-before-index", property="P05",
  needs="a path text in which an empty key is followed by an index",
  breaks="the empty key is lost",
  edits=[("src/Path.cc", '''				case '[':
					parsed_path.push_back(frag);''', '''				case '[':
					if (!frag.empty()) parsed_path.push_back(frag);''')],
  demo='''
	Path p; p.push_back(std::string("")); p.push_back(1u);
	CHECK(ParsePath(PathString(p)).size() == 2);
'''),
 dict(id="p05-haspath-null", property="P05",
  needs="testing the path of an element that is null",
  breaks="HasPath says it does not exist",
  edits=[(V, "return vtable->GetPathConst(this, path.begin(), path.end(), false) != 0;", "const Variant *v = vtable->GetPathConst(this, path.begin(), path.end(), false);\n\t\treturn v != 0 && !v->IsNull();")],
  demo='''
	Variant a; a["x"]["y"] = Variant();
	CHECK(a.HasPath("/x/y"));
'''),
]
