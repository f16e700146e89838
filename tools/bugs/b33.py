PRE = r'''
#include <Variant/Variant.h>
#include <sstream>
#include <streambuf>
#include <stdexcept>
#include <string.h>
using namespace libvariant;
struct Pieces : std::streambuf {
	std::string s; size_t at; char c;
	Pieces(const std::string &t) : s(t), at(0) {}
	int underflow() { if (at == s.size()) return EOF; c = s[at++]; setg(&c, &c, &c + 1); return (unsigned char)c; }
	std::streamsize xsgetn(char *p, std::streamsize n) { if (n <= 0 || at == s.size()) return 0; *p = s[at++]; return 1; }
};
'''
BUGS = [
 dict(id='p02-subtract-from-null', property='P02', needs='arithmetic on a null value with a number', breaks='the null value becomes the number',
      edits=[('src/Variant.cc', '''		void VTable::Sub(Data *that, const Data *other) const
		{ throw''', '''		void VTable::Sub(Data *that, const Data *other) const
		{ if (that->vtable->GetType(that) == VariantDefines::NullType) { IntegerInit(that, 0); } throw''')],
      pre=PRE, demo=r'''Variant v; try { v -= 1; } catch (std::exception &) {} CHECK(v.IsNull());'''),
 dict(id='p07-text-base', property='P07', needs='a text such as 010 read as an integer', breaks='it is taken as octal',
      edits=[('src/Variant.cc', '''			intmax_t val = 0;
			iss >> val;''', '''			intmax_t val = 0;
			iss.unsetf(std::ios::basefield);
			iss >> val;''')],
      pre=PRE, demo=r'''CHECK(Variant("010").AsInt() == 10);'''),
 dict(id='p10-leading-zero', property='P10', needs='a plain integer with a leading zero', breaks='it is read as octal',
      edits=[('src/GuessScalar.cc', 'val = strtoll(&value[match[MATCH_INT10].rm_so], 0, 10);', 'val = strtoll(&value[match[MATCH_INT10].rm_so], 0, 0);')],
      pre=PRE, demo=r'''CHECK(DeserializeYAML("[010]")[0].AsInt() == 10);'''),
 dict(id='p10-folded-guessed', property='P10', needs='a scalar in folded style that looks like a number', breaks='it is read as a number',
      edits=[('src/YAMLParser.cc', '''		case YAML_LITERAL_SCALAR_STYLE:
		case YAML_FOLDED_SCALAR_STYLE:
			action''', '''		case YAML_LITERAL_SCALAR_STYLE:
			action'''), ('src/YAMLParser.cc', '''		case YAML_PLAIN_SCALAR_STYLE:
			break;''', '''		case YAML_PLAIN_SCALAR_STYLE:
		case YAML_FOLDED_SCALAR_STYLE:
			break;''')],
      pre=PRE, demo=r'''CHECK(DeserializeYAML(">-\n  12\n").IsString());'''),
 dict(id='p13-stream-unknown-length', property='P13', needs='a stream that does not know how much it holds', breaks='nothing is read from it',
      edits=[('src/ParserInput.cc', 'return streambuf->sgetn((char*)ptr, len);', 'if (streambuf->in_avail() <= 0) { return 0; }\n\t\treturn streambuf->sgetn((char*)ptr, len);')],
      pre=PRE, demo=r'''Pieces p("[1, 2]"); bool ok = false; try { ok = DeserializeFile((std::streambuf*)&p, SERIALIZE_JSON).Size() == 2; } catch (std::exception &) {} CHECK(ok);'''),
 dict(id='p02-null-erased-path', property='P02', needs='erasing below a number in a null value', breaks='the null value turns into a list although nothing was stored',
      edits=[('src/Variant.cc', '''		Variant *Null::GetIndex(Data *that, unsigned i, bool checked) const {
			if (!checked) { return 0; }
''', '''		Variant *Null::GetIndex(Data *that, unsigned i, bool checked) const {
			if (!checked) { ListInit(that, Variant::List()); return 0; }
''')], pre=PRE, demo=r'''Variant v; Path p; p.push_back(0u); p.push_back(1u); v.ErasePath(p); CHECK(v.IsNull());'''),
 dict(id='p03-dead-negated', property='P03', needs='negating through a reference whose target is gone', breaks='the memory of the former target is used',
      edits=[('src/Variant.cc', '{ CheckRef(that); return that->ref->vtable->Neg(that->ref); }', '{ return that->ref->vtable->Neg(that->ref); }')],
      pre=PRE, demo=r'''Variant *q = new Variant(1); VariantRef r(*q); delete q; bool t = false; try { -r; } catch (std::exception &) { t = true; } CHECK(t);'''),
 dict(id='p03-missing-index', property='P03', needs='looking for a value in a missing element', breaks='it answers instead of throwing',
      edits=[('src/Variant.cc', '''		unsigned Proxy::Index(const Data *that, Variant v) const
		{ ProxyResolveThrow(that);''', '''		unsigned Proxy::Index(const Data *that, Variant v) const
		{ if (!ProxyResolveCheck(that)) { return 0; }''')],
      pre=PRE, demo=r'''Variant m(Variant::MapType); VariantRef r = m["a"]; bool t = false; try { r.Index(1); } catch (std::exception &) { t = true; } CHECK(t);'''),
 dict(id='p07-large-operand', property='P07', needs='a floating value and an integer above 2^53 as operands', breaks='the integer is rounded first',
      edits=[('src/Variant.cc', 'op(that->vtable->AsLongDouble(that), other->vtable->AsLongDouble(other)));', 'op(that->vtable->AsLongDouble(that), (double)other->vtable->AsLongDouble(other)));')],
      pre=PRE, demo=r'''Variant v(0.0); v += (intmax_t)9007199254740993LL; CHECK(v.AsLongDouble() == 9007199254740993.0L);'''),
 dict(id='p11-closed-false', property='P11', needs='a boolean written with a separate end tag inside a list', breaks='a null value follows it',
      edits=[('src/XMLPLISTParser.cc', '''		case NullNode:
		case TrueNode:
		case FalseNode:
			return false;''', '''		case NullNode:
		case TrueNode:
			return false;
		case FalseNode:
			action->Null(this, 0, 0);
			return false;''')],
      pre=PRE, demo=r'''CHECK(DeserializeXMLPLIST("<plist><array><false></false></array></plist>").Size() == 1);'''),
]
