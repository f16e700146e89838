G = "src/GuessScalar.cc"
BUGS = [
 dict(id="p10-point-needs-digit", property="P10",
  needs="a floating number of seventeen significant digits before the point",
  breaks="it is written with a trailing point, which is read as a string",
  edits=[(G, '([0-9]+(\\\\.[0-9]*)?)', '([0-9]+(\\\\.[0-9]+)?)')],
  demo='''
	Variant v(12345678901234568.0);
	Variant w = Deserialize(Serialize(v, SERIALIZE_YAML), SERIALIZE_YAML);
	CHECK(w.IsFloat() && v == w);
'''),
 dict(id="p10-literal-guessed", property="P10",
  needs="a literal block scalar whose text looks like a number",
  breaks="it is read as a number",
  edits=[("src/YAMLParser.cc", '''		case YAML_PLAIN_SCALAR_STYLE:
			break;
''', '''		case YAML_PLAIN_SCALAR_STYLE:
		case YAML_LITERAL_SCALAR_STYLE:
			break;
'''), ("src/YAMLParser.cc", '''		case YAML_DOUBLE_QUOTED_SCALAR_STYLE:
		case YAML_LITERAL_SCALAR_STYLE:
''', '''		case YAML_DOUBLE_QUOTED_SCALAR_STYLE:
''')],
  demo='''
	Variant w = Deserialize(string("- |-\\n  12\\n"), SERIALIZE_YAML);
	CHECK(w[0].IsString());
'''),
 dict(id="p10-upper-case-hex", property="P10",
  needs="a hexadecimal number with an upper case digit above E",
  breaks="it is read as a string",
  edits=[(G, "0x([0-9a-fA-F]+)", "0x([0-9a-fA-E]+)")],
  demo='''
	CHECK(Deserialize(string("- 0xFF"), SERIALIZE_YAML)[0].IsUnsigned());
'''),
 dict(id="p10-minus-infinity", property="P10",
  needs="writing a value that contains minus infinity",
  breaks="it comes back as plus infinity",
  edits=[("src/YAMLEmitter.cc", '''oss << (v < 0 ? "-" : "") << ".inf";''', '''oss << (v < -1/0. ? "-" : "") << ".inf";''')],
  demo='''
	Variant v;
	v.Append(-1/0.);
	CHECK(Deserialize(Serialize(v, SERIALIZE_YAML), SERIALIZE_YAML)[0].AsDouble() < 0);
'''),
 dict(id="p11-large-unsigned", property="P11",
  needs="an unsigned integer of at least 2^63",
  breaks="it is written as a negative number",
  edits=[("src/XMLPLISTEmitter.cc", '''	void XMLPLISTEmitterImpl::Emit(uintmax_t v) {
		StartElement(INTEGER_NAME);
		std::ostringstream oss;
		oss << v;''', '''	void XMLPLISTEmitterImpl::Emit(uintmax_t v) {
		StartElement(INTEGER_NAME);
		std::ostringstream oss;
		oss << (intmax_t)v;''')],
  demo='''
	Variant v;
	v.Append(18446744073709551615ULL);
	CHECK(Deserialize(Serialize(v, SERIALIZE_XMLPLIST), SERIALIZE_XMLPLIST) == v);
'''),
 dict(id="p11-precision", property="P11",
  needs="a floating number that takes seventeen digits",
  breaks="its last digit is lost",
  edits=[("src/XMLPLISTEmitter.cc", "digits10+2), closed", "digits10+1), closed")],
  demo='''
	Variant v(0.1 + 0.2);
	CHECK(Deserialize(Serialize(v, SERIALIZE_XMLPLIST), SERIALIZE_XMLPLIST) == v);
'''),
 dict(id="p11-empty-map-in-list", property="P11",
  needs="an empty list element written in its short form inside another container",
  breaks="the parser takes it for an open list and the elements after it end up inside it",
  edits=[("src/XMLPLISTParser.cc", '''			if (empty_node) { statestack.push_back(EmptyListNode); }
			else { statestack.push_back(nodetype); }
			action->BeginList(this, -1, 0, 0);
			return false;''', '''			if (empty_node && statestack.size() < 4) { statestack.push_back(EmptyListNode); }
			else { statestack.push_back(nodetype); }
			action->BeginList(this, -1, 0, 0);
			return false;''')],
  demo='''
	Variant v;
	v[0][0] = Variant::ListType;
	v[0][1] = 2;
	CHECK(Deserialize(Serialize(v, SERIALIZE_XMLPLIST), SERIALIZE_XMLPLIST) == v);
'''),
 dict(id="p11-empty-integer", property="P11",
  needs="an integer element written in the empty form",
  breaks="an integer element without content is read as zero",
  edits=[("src/XMLPLISTParser.cc", '''			} else {
				err = true;
				errorstr = "libvariant XML PLIST does not allow empty interger elements";
				throw std::runtime_error(errorstr);
			}
			return true;''', '''			} else {
				action->Scalar(this, intmax_t(0), 0, 0);
			}
			return !empty_node;''')],
  demo='''
	try { Deserialize(string("<plist><array><integer/></array></plist>"), SERIALIZE_XMLPLIST); }
	catch (const std::exception &) { return 0; }
	CHECK(false);
'''),
]
