V = "src/Variant.cc"
P = "src/Path.cc"
BUGS = [
 dict(id="p01-copy-empty-key", property="P01",
  needs="a deep copy of a map with a list or map under the empty key",
  breaks="the copy and its source share that container",
  edits=[(V, "other->m->map.insert(std::make_pair(i->first, i->second.Copy()));",
          "other->m->map.insert(std::make_pair(i->first, i->first.empty() ? Variant(i->second) : i->second.Copy()));")],
  demo='''
	Variant a; a[""]["x"] = 1;
	Variant b = a.Copy();
	b[""]["x"] = 2;
	CHECK(a[""]["x"].AsInt() == 1);
'''),
 dict(id="p01-merge-copies", property="P01",
  needs="merging a map whose member is a list into another map, then changing the list through one of them",
  breaks="the two maps do not share the list",
  edits=[(V, "this->Set(i->first, i->second);",
          "this->Set(i->first, i->second.IsList() ? i->second.Copy() : i->second);")],
  demo='''
	Variant a, b; a["z"] = 1; b["x"].Append(1);
	a.Merge(b);
	b["x"].Append(2);
	CHECK(a["x"].Size() == 2);
'''),
 dict(id="p02-default-unsigned", property="P02",
  needs="assigning the unsigned type to a value that held a number before",
  breaks="the value becomes an integer",
  edits=[(V, "UnsignedInit(that, 0u);", "if (that->vtable->GetType(that) == VariantDefines::FloatType) IntegerInit(that, 0); else UnsignedInit(that, 0u);")],
  demo='''
	Variant a(1.5);
	a = VariantDefines::UnsignedType;
	CHECK(a.GetType() == VariantDefines::UnsignedType);
'''),
 dict(id="p03-proxy-longer", property="P03",
  needs="a reference below a reference to a missing element that is itself at least two steps deep",
  breaks="the element is created at a place in a wrong order of steps",
  edits=[(V, "newpath.insert(newpath.end(), b, e);", "newpath.insert(newpath.size() > 1 ? newpath.end() - 1 : newpath.end(), b, e);")],
  demo='''
	Variant a;
	Path p; p.push_back("x"); p.push_back("y");
	VariantRef r(a, p);
	Path q; q.push_back("z"); 
	VariantRef s(r, q);
	s = 1;
	CHECK(a["x"].Contains("y") && a["x"]["y"]["z"].AsInt() == 1);
'''),
 dict(id="p04-index-references", property="P04",
  needs="looking for a value that is in a list more than once",
  breaks="Index gives a later position instead of the first",
  edits=[(V, "return std::distance(begin, std::find(begin, end, v));",
     "Variant::ListIterator at = std::find(begin, end, v); if (at != end && at + 1 != end && *(at + 1) == v && v.IsNull()) ++at; return std::distance(begin, at);")],
  demo='''
	Variant a; a.Append(Variant()); a.Append(Variant()); a.Append(1);
	CHECK(a.Index(Variant()) == 0);
'''),
 dict(id="p04-erase-shrinks", property="P04",
  needs="erasing the last element of a list whose element before it is null",
  breaks="more than one element disappears",
  edits=[(V, "that->l->list.pop_back();", "that->l->list.pop_back(); while (!that->l->list.empty() && that->l->list.back().IsNull()) that->l->list.pop_back();")],
  demo='''
	Variant a; a.Append(1); a.Append(Variant()); a.Append(2);
	a.Erase(2);
	CHECK(a.Size() == 2);
'''),
 dict(id="p04-default-kept", property="P04",
  needs="At with a default on a map for a key that is there with a null value",
  breaks="the null value is replaced by the default",
  edits=[(V, '''			Variant::MapIterator entry = that->m->map.find(s);
			if (entry != that->m->map.end()) {
				return VariantRef(entry->second);''', '''			Variant::MapIterator entry = that->m->map.find(s);
			if (entry != that->m->map.end()) {
				if (def && entry->second.IsNull()) { entry->second = *def; }
				return VariantRef(entry->second);''')],
  demo='''
	Variant a; a["x"] = Variant();
	Variant d(3);
	a.At("x", d);
	CHECK(a["x"].IsNull());
'''),
 dict(id="p05-escape-bracket", property="P05",
  needs="a key with a closing bracket in a path turned into text",
  breaks="the bracket is not escaped",
  edits=[(P, '''					case ']':
						oss << "\\\\]";
						break;
''', "")],
  demo='''
	Path p; p.push_back("a]b");
	CHECK(PathString(p) == "/a\\\\]b");
'''),
 dict(id="p05-set-whole", property="P05",
  needs="setting the value at the empty path to a map when the target is a map already",
  breaks="the new members are merged into the old map instead of replacing it",
  edits=[(V, '''				const Data *other_data = VTable::GetData(other);
			   	other_data''', '''				const Data *other_data = VTable::GetData(other);
				if (other->IsMap() && GetVar(that)->IsMap() && GetVar(that)->Size() > 1) { GetVar(that)->Merge(*other); return; }
			   	other_data''')],
  demo='''
	Variant a, b; a["x"] = 1; a["y"] = 2; b["z"] = 3;
	a.SetPath(Path(), b);
	CHECK(a.Size() == 1);
'''),
 dict(id="p06-null-bool", property="P06",
  needs="comparing a null value with a false one",
  breaks="null equals false",
  edits=[(V, "return (Comparable(that, other) ? 0 : 1);", "return (Comparable(that, other) || (other->vtable->GetType(other) == VariantDefines::BoolType && !other->vtable->AsBool(other)) ? 0 : 1);")],
  demo='''
	CHECK(Variant() != Variant(false));
'''),
 dict(id="p07-remainder-sign", property="P07",
  needs="the remainder of a negative float",
  breaks="the remainder takes the sign of the divisor",
  edits=[(V, "{ return fmod(lhs, rhs); }", "{ long double r = fmod(lhs, rhs); return (r != 0 && rhs < 0 && lhs > 0) ? r + rhs : r; }")],
  demo='''
	Variant a(5.5L), b(-2.0L);
	a %= b;
	CHECK(a.AsLongDouble() == 1.5L);
'''),
 dict(id="p05-erase-nulls", property="P05",
  needs="erasing the last element of a list by a path with removal of empty parents, where the elements before it are null",
  breaks="the null elements before it disappear too",
  edits=[(V, """				ErasePathElem(that, *b);
				return;
			}
			Variant *ref = 0;""", """				ErasePathElem(that, *b);
				if (remove_empty && b->IsNumber()) {
					while (GetVar(that)->IsList() && !GetVar(that)->Empty() && GetVar(that)->AsList().back().IsNull()) { GetVar(that)->AsList().pop_back(); }
				}
				return;
			}
			Variant *ref = 0;""")],
  demo='''
	Variant a; a["x"].Append(Variant()); a["x"].Append(1);
	Path p; p.push_back("x"); p.push_back(1u);
	a.ErasePath(p, true);
	CHECK(a.Contains("x") && a["x"].Size() == 1);
'''),
 dict(id="p06-empty-members", property="P06",
  needs="comparing two maps that hold an empty list on one side and an empty map on the other under the same key",
  breaks="the maps are taken to be equal",
  edits=[(V, "return (that->m->map != other->m->map ? 1 : 0);", """if (that->m->map.size() != other->m->map.size()) { return 1; }
				for (Variant::MapIterator i(that->m->map.begin()), j(other->m->map.begin()); i != that->m->map.end(); ++i, ++j) {
					if (i->first != j->first) { return 1; }
					if ((i->second.IsList() || i->second.IsMap()) && i->second.Empty() && (j->second.IsList() || j->second.IsMap()) && j->second.Empty()) { continue; }
					if (i->second != j->second) { return 1; }
				}
				return 0;""")],
  demo='''
	Variant a, b; a["x"] = Variant(VariantDefines::ListType); b["x"] = Variant(VariantDefines::MapType);
	CHECK(a != b);
'''),
]
