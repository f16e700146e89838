#include "common.h"
using namespace libvariant;
using namespace drv;

OP(xrt) {
	Variant v = NumVariant(c.at("v")), p;
	const J &q = c.at("p");
	if (q.has("flow")) p["pretty"] = q.at("flow").b;
	if (q.has("indent")) p["indent"] = q.at("indent").n;
	std::string s = Serialize(v, SERIALIZE_XMLPLIST, p);
	return Ok(FromNum(Deserialize(s, SERIALIZE_XMLPLIST)));
}

// The text of a sequence of markup tokens.
OP(xtok) {
	const J &k = c.at("k");
	std::string t;
	for (size_t i = 0; i < k.a.size(); ++i) {
		const std::string &w = k.a[i].at("k").s;
		if (w == "o") t += "<" + k.a[i].at("n").s + ">";
		else if (w == "c") t += "</" + k.a[i].at("n").s + ">";
		else if (w == "e") t += "<" + k.a[i].at("n").s + "/>";
		else if (w == "m") t += "<!-- c -->";
		else {
			std::string s = Bytes(k.a[i].at("s"));
			for (size_t j = 0; j < s.size(); ++j) {
				if (s[j] == '<') t += "&lt;";
				else if (s[j] == '>') t += "&gt;";
				else if (s[j] == '&') t += j % 2 ? "&amp;" : "&#38;";
				else t += s[j];
			}
		}
	}
	return Ok(FromNum(Deserialize(t, SERIALIZE_XMLPLIST)));
}

// Arbitrary text: no crash, no hang.
OP(xany) {
	try { Deserialize(Bytes(c.at("s")), SERIALIZE_XMLPLIST); } catch (std::exception &) {}
	return Ok();
}
