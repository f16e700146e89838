#include "io.h"
#include <unistd.h>
namespace drv {
std::string ScratchFile(const std::string &content) {
	std::string n = ScratchDir() + "/f" + std::to_string((long)getpid());
	FILE *f = fopen(n.c_str(), "w");
	if (!f) throw std::logic_error("driver: scratch file");
	fwrite(content.data(), 1, content.size(), f);
	fclose(f);
	return n;
}

shared_ptr<ParserInput> Source::open(const J &c, const std::string &s) {
	Schedule q(c.at("q"));
	std::string k = c.at("k").s;
	if (k == "mem") {
		mem.assign(s.begin(), s.end());
		in = CreateParserInput(mem.empty() ? (const void*)"" : &mem[0], mem.size());
	} else if (k == "name") {
		name = ScratchFile(s);
		in = CreateParserInputFile(name.c_str());
	} else if (k == "file") {
		name = ScratchFile(s);
		f = fopen(name.c_str(), "r");
		in = CreateParserInputFile(f);
	} else if (k == "ubfile") {
		name = ScratchFile(s);
		f = fopen(name.c_str(), "r");
		setvbuf(f, 0, _IONBF, 0);
		in = CreateParserInputFile(f);
	} else if (k == "sb") {
		sb.reset(new std::stringbuf(s));
		in = CreateParserInputFile(sb.get());
	} else if (k == "psb") {
		sb.reset(new PieceBuf(s, q));
		in = CreateParserInputFile(sb.get());
	} else if (k == "ps") {
		in.reset(new PieceStream(c.at("b").n, s, q));
	} else if (k == "ex") {
		in.reset(new ExactInput(s, q));
	} else throw std::logic_error("driver: input kind");
	return in;
}
}
