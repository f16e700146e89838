PRE = r'''
#include <Variant/Variant.h>
#include <Variant/Schema.h>
#include <sstream>
#include <string.h>
using namespace libvariant;
'''
BUGS = [
 dict(id='p09-long-unflushed', property='P09', needs='a blob of more than 96 bytes inside a map or list written as JSON',
      breaks='the data of the blob comes before what is still in the buffer', edits=[('src/JSONEmitter.cc', '''		if (len > BUFFER_THRESHOLD) {
			Flush();''', '''		if (len > BUFFER_THRESHOLD) {''')],
      pre=PRE, demo=r'''std::string d(200, 'x'); Variant l; l.Append(Blob::CreateCopy(d.data(), d.size())); CHECK(SerializeJSON(l)[0] == '[');'''),
 dict(id='p17-empty-key-removed', property='P17', needs='an empty key that only the source has',
      breaks='the difference does not remove it', edits=[('src/Extensions.cc', '''i = src.MapBegin(), e = src.MapEnd(); i != e; ++i) {
						keys.insert(i->first);''', '''i = src.MapBegin(), e = src.MapEnd(); i != e; ++i) {
						if (!i->first.empty()) keys.insert(i->first);''')],
      pre=PRE, demo=r'''Variant a, b; a["x"] = 1; b["x"] = 1; a[""] = 2; CHECK(JSONDiff(a, b).Size() == 1);'''),
 dict(id='p17-emptied-text', property='P17', needs='a text that becomes the empty text', breaks='the difference leaves it as it was',
      edits=[('src/Extensions.cc', '''		if (src != dst) {
			switch (src.GetType()) {''', '''		if (src != dst && !(dst.IsString() && dst.AsString().empty())) {
			switch (src.GetType()) {''')],
      pre=PRE, demo=r'''Variant a, b; a["x"] = "t"; b["x"] = ""; CHECK(JSONDiff(a, b).Size() == 1);'''),
 dict(id='p09-empty-blob', property='P09', needs='a blob without bytes written as JSON and read again', breaks='it comes back as text',
      edits=[('src/JSONParser.cc', 'value->vu.str.length >= MAGIC_BLOB_LENGTH &&', 'value->vu.str.length > MAGIC_BLOB_LENGTH &&')],
      pre=PRE, demo=r'''Variant l; l.Append(Blob::CreateCopy("", 0)); CHECK(DeserializeJSON(SerializeJSON(l))[0].IsBlob());'''),
 dict(id='p18-time-hours', property='P18', needs='format time with a text such as 12:61:00', breaks='minutes above 59 are valid',
      edits=[('src/Schema.cc', '"^[0-2][0-9]:[0-5][0-9]:[0-5][0-9]$"', '"^[0-2][0-9]:[0-9][0-9]:[0-5][0-9]$"')],
      pre=PRE, demo=r'''Variant s; s["format"] = "time"; CHECK(SchemaValidate(s, Variant("12:61:00")).Error());'''),
 dict(id='p18-draft3-multiple', property='P18', needs='divisibleBy without multipleOf on a floating value', breaks='it is ignored',
      edits=[('src/Schema.cc', '} else if (schema.Contains("divisibleBy")) {', '} else if (schema.Contains("divisibleBy") && !data.IsFloat()) {')],
      pre=PRE, demo=r'''Variant s; s["divisibleBy"] = 2; CHECK(SchemaValidate(s, Variant(1.5)).Error());'''),
]
