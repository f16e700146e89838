BUGS = [
 dict(id="p16-move-undo-loses-overwritten", property="P16",
  needs="a patch whose move overwrites an existing member and that fails at a later operation",
  breaks="the rolled back document lacks the member the move had overwritten",
  edits=[("src/Extensions.cc", '''				op.value = data;
				JSONPointerOp(op.pointer, v, op);
				if (op.replaced) {
					undo->push_back(Patch_t(OP_ADD, op.path, op.old_value));
				} else {
					undo->push_back(Patch_t(OP_REMOVE, op.path));
				}
				return op.success;
			} else if (oper == "copy") {''', '''				op.value = data;
				JSONPointerOp(op.pointer, v, op);
				undo->push_back(Patch_t(OP_REMOVE, op.path));
				return op.success;
			} else if (oper == "copy") {''')],
  demo='''
	Variant doc = DeserializeJSON("{\\"a\\": 1, \\"b\\": 2}");
	Variant patch = DeserializeJSON("[{\\"op\\":\\"move\\",\\"from\\":\\"/a\\",\\"path\\":\\"/b\\"},{\\"op\\":\\"test\\",\\"path\\":\\"/b\\",\\"value\\":7}]");
	CHECK(!JSONPatch(doc, patch).first);
	CHECK(doc == DeserializeJSON("{\\"a\\": 1, \\"b\\": 2}"));
'''),
 dict(id="p16-unescape-twice", property="P16",
  needs="a pointer with the escape sequence ~01",
  breaks="~01 is read as / instead of ~1, so another member is addressed",
  edits=[("src/Extensions.cc", '''					if (*c == '0') {
						ret.append("~");
					} else''', '''					if (*c == '0') {
						if (c + 1 != e && *(c + 1) == '1') { ++c; ret.append("/"); } else
						ret.append("~");
					} else''')],
  demo='''
	Variant doc;
	doc["~1"] = 1; doc["/"] = 2;
	CHECK(JSONPointerLookup("/~01", doc) == 1);
'''),
 dict(id="p17-null-member-kept", property="P17",
  needs="a member or element that is null in the source and absent in the destination",
  breaks="the difference does not remove it, so patching does not reach the destination",
  edits=[("src/Extensions.cc", '''		if (!dst.Exists()) {
			diff.Append(''', '''		if (!dst.Exists()) {
			if (src.IsNull()) return;
			diff.Append(''')],
  demo='''
	Variant a = DeserializeJSON("{\\"a\\": null, \\"b\\": 2}"), b = DeserializeJSON("{\\"b\\": 2}");
	Variant d = JSONDiff(a, b);
	CHECK(JSONPatch(a, d).first);
	CHECK(a == b);
'''),
 dict(id="p16-root-replace-undo", property="P16",
  needs="a patch that replaces the whole document and fails later",
  breaks="the rollback leaves the new document in place",
  edits=[("src/Extensions.cc", '''				if (v.Exists()) {
					op.replaced = true;
					op.old_value = v;
				}
				v = op.value;''', '''				op.old_value = v;
				v = op.value;''')],
  demo='''
	Variant doc = DeserializeJSON("{\\"a\\": 1}");
	Variant patch = DeserializeJSON("[{\\"op\\":\\"add\\",\\"path\\":\\"\\",\\"value\\":[1]},{\\"op\\":\\"test\\",\\"path\\":\\"/0\\",\\"value\\":7}]");
	CHECK(!JSONPatch(doc, patch).first);
	CHECK(doc == DeserializeJSON("{\\"a\\": 1}"));
'''),
]
