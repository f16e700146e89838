V = "src/Variant.cc"
J = "lib/json/JSON_parser.c"
JE = "src/JSONEmitter.cc"
BUGS = [
 dict(id="p06-compare-as-double", property="P06",
  needs="comparing two integers beyond 2^53 that differ by less than the rounding of a double",
  breaks="different numbers compare equal",
  edits=[(V, '''				long double us = that->vtable->AsLongDouble(that);
				long double o = other->vtable->AsLongDouble(other);
				if (us < o)''', '''				double us = that->vtable->AsLongDouble(that);
				double o = other->vtable->AsLongDouble(other);
				if (us < o)''')],
  demo='''
	Variant a(9007199254740993LL), b(9007199254740992LL);
	CHECK(a.Compare(b) == 1 && b.Compare(a) == -1 && a != b);
'''),
 dict(id="p06-blob-piece-offset", property="P06",
  needs="comparing blobs whose pieces are cut at different places",
  breaks="the second blob is read from the wrong place after its first piece",
  edits=[("src/Blob.cc", '''			if (oth_offset >= other->GetLength(j)) {
				oth_offset = 0;
''', '''			if (oth_offset >= other->GetLength(j)) {
				oth_offset = our_offset ? len : 0;
''')],
  demo='''
	char one[] = "abcdef", x[] = "ab", y[] = "cdef";
	iovec v[2] = { { x, 2 }, { y, 4 } };
	Variant a(Blob::CreateCopy(one, 6)), b(Blob::CreateReferenced(v, 2));
	CHECK(a.Compare(b) == 0);
'''),
 dict(id="p07-large-float-to-unsigned", property="P07",
  needs="converting a floating number of at least 2^63 to an unsigned integer",
  breaks="the conversion gives 2^63 whatever the number",
  edits=[(V, "{ return (uintmax_t)that->f; }", "{ return (uintmax_t)(intmax_t)that->f; }")],
  demo='''
	Variant a(13835058055282163712.0);
	CHECK(a.AsUnsigned() == 13835058055282163712ULL);
'''),
 dict(id="p07-int-with-unsigned", property="P07",
  needs="an arithmetic operation between a signed left and an unsigned right operand",
  breaks="the result is a signed integer",
  edits=[(V, '''				return Variant::IntegerType;
			case Variant::UnsignedType:
				return Variant::UnsignedType;''', '''				return Variant::IntegerType;
			case Variant::UnsignedType:
				return Variant::IntegerType;''')],
  demo='''
	Variant a(1), b(2u);
	Variant c = a + b;
	CHECK(c.IsUnsigned() && c.GetType() == VariantDefines::UnsignedType);
'''),
 dict(id="p08-three-byte-boundary", property="P08",
  needs="the escape of the first code point that takes three bytes in UTF-8",
  breaks="it becomes a wrong two byte sequence",
  edits=[(J, "} else if (uc < 0x800) {", "} else if (uc <= 0x800) {")],
  demo='''
	Variant a = Deserialize(string("[\\"\\\\u0800\\"]"), SERIALIZE_JSON);
	CHECK(a[0].AsString() == "\\xe0\\xa0\\x80");
'''),
 dict(id="p08-comment-after-colon", property="P08",
  needs="a comment between the colon and the value of an object member",
  breaks="the text is rejected",
  edits=[(J, '''                case VA:
                case AR:
                    jc->before_comment_state = jc->state;''', '''                case AR:
                    jc->before_comment_state = jc->state;''')],
  demo='''
	Variant a = Deserialize(string("{\\"a\\": /* x */ 1}"), SERIALIZE_JSON);
	CHECK(a["a"].AsInt() == 1);
'''),
 dict(id="p08-carriage-return-escape", property="P08",
  needs="a carriage return escape in a string",
  breaks="it is read as a newline",
  edits=[(J, "parse_buffer_push_back_char(jc, '\\r');", "parse_buffer_push_back_char(jc, '\\n');")],
  demo='''
	Variant a = Deserialize(string("[\\"\\\\r\\"]"), SERIALIZE_JSON);
	CHECK(a[0].AsString() == "\\r");
'''),
 dict(id="p09-unit-separator", property="P09",
  needs="a string with the last control character, 0x1f",
  breaks="it is written raw, which JSON does not allow",
  edits=[(JE, "*text < 0x20", "*text < 0x1f")],
  demo='''
	Variant a; a.Append(string("x\\x1fy"));
	CHECK(Serialize(a, SERIALIZE_JSON).find('\\x1f') == string::npos);
'''),
 dict(id="p09-strict-infinity", property="P09",
  needs="writing an infinity in strict mode",
  breaks="null is written instead of refusing",
  edits=[(JE, "if (strict && (std::isnan(v) || std::isinf(v))) {", "if (strict && std::isnan(v)) {")],
  demo='''
	Variant a, p; a.Append(1e300 * 1e300); p["strict"] = true;
	try { Serialize(a, SERIALIZE_JSON, p); } catch (exception &) { return 0; }
	CHECK(!"refused");
'''),
]
