E = "src/Extensions.cc"
BUGS = [
 dict(id="p23-copy-third-piece", property="P23",
  needs="copying a blob made of at least three pieces",
  breaks="the third piece is copied to the wrong place",
  edits=[("src/Blob.cc", '''			copied += iov[i].iov_len;
''', '''			copied = iov[i].iov_len;
''')],
  demo='''
	char a[] = "ab", b[] = "cde", c[] = "f";
	iovec v[3] = { { a, 2 }, { b, 3 }, { c, 1 } };
	BlobPtr p = Blob::CreateCopy(v, 3);
	CHECK(p->GetTotalLength() == 6 && memcmp(p->GetPtr(0), "abcdef", 6) == 0);
'''),
 dict(id="p23-line-width-multiple", property="P23",
  needs="a line width that is not a multiple of four, split after the last whole group",
  breaks="an encoded line is longer than the width",
  edits=[("src/Base64.cc", "step_count == cpl/4", "step_count == (cpl + 3)/4")],
  pre='#include "Base64.h"\n',
  demo='''
	char in[] = "abcdefghi", out[64];
	iovec v = { in, 9 };
	Base64Encode(out, &v, 1, 6);
	CHECK(strchr(out, '\\n') - out <= 6);
'''),
 dict(id="p23-empty-piece-release", property="P23",
  needs="a blob that was given an allocated piece of length zero",
  breaks="the empty piece is never released",
  edits=[("src/Blob.cc", '''			for (unsigned i = 0; i < iov.size(); ++i) {
				free_func(''', '''			for (unsigned i = 0; i < iov.size() && iov[i].iov_len; ++i) {
				free_func(''')],
  pre='static int freed; static void count(void*, void*) { ++freed; }\n',
  demo='''
	char a[] = "ab";
	iovec v[2] = { { a, 0 }, { a, 2 } };
	{ BlobPtr p = Blob::Create(v, 2, count, 0); }
	CHECK(freed == 2);
'''),
 dict(id="p24-update-shares", property="P24",
  needs="changing the update after it was applied",
  breaks="the updated structure shares lists with the update",
  edits=[(E, "			base = update.Copy();", "			base = update;")],
  demo='''
	Variant b, u;
	b["a"] = 1;
	u["l"].Append(1);
	RUpdate(b, u);
	u["l"].Append(2);
	CHECK(b["l"].Size() == 1);
'''),
 dict(id="p24-empty-list-diff", property="P24",
  needs="a list entry that becomes empty in the second structure",
  breaks="the recursive difference leaves it out",
  edits=[(E, "(diff[ i->first ].GetType() == Variant::MapType && diff[ i->first ].Size() == 0)", "((diff[ i->first ].IsMap() || diff[ i->first ].IsList()) && diff[ i->first ].Size() == 0)")],
  demo='''
	Variant a, b;
	a["l"].Append(1);
	a["x"] = b["x"] = 2;
	b["l"] = Variant::ListType;
	Variant d = RDiff(a, b);
	RUpdate(a, d);
	CHECK(a["l"].Size() == 0);
'''),
 dict(id="p24-leading-delimiter", property="P24",
  needs="a path prefix equal to a delimiter other than the slash",
  breaks="the leading delimiter becomes part of the first key on expansion",
  edits=[(E, "for ( unsigned ii = 0; ii < path.length(); ++ii ) {", "for ( unsigned ii = 1; ii < path.length(); ++ii ) {")],
  demo='''
	Variant v, p = ExtensionParams();
	p["pathDelimiter"] = ".";
	p["pathPrefix"] = ".";
	v["a"]["b"] = 1;
	CHECK(ExpandPath(FlattenPath(v, p), p) == v);
'''),
]
