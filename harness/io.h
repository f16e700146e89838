// Inputs that deliver given bytes in every way the library knows, and in schedules of short reads;
// sinks that take given bytes in schedules of short writes and fail at a given point.
#pragma once
#include "common.h"
#include <Variant/Variant.h>
#include <Variant/Payload.h>
#include <Variant/Parser.h>
#include <Variant/ParserInput.h>
#include <Variant/Emitter.h>
#include <Variant/EmitterOutput.h>
#include <cstdio>
#include <cstdlib>
#include <sstream>
#include <streambuf>
#include <memory>

namespace drv {
using namespace libvariant;

// sizes of successive transfers, repeated for ever
struct Schedule {
	std::vector<unsigned> n;
	size_t at;
	Schedule() : at(0) {}
	explicit Schedule(const J &j) : at(0) { for (size_t i = 0; i < j.size(); ++i) n.push_back(j[i].n); }
	unsigned next() { return n.empty() ? ~0u : n[at++ % n.size()]; }
};

// a streambuf that delivers its bytes in pieces, each in an allocation of its own
class PieceBuf : public std::streambuf {
	std::string s; Schedule q; size_t off; std::vector<char> piece;
public:
	PieceBuf(const std::string &s_, const Schedule &q_) : s(s_), q(q_), off(0) {}
	int_type underflow() {
		if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
		if (off == s.size()) return traits_type::eof();
		size_t n = std::min<size_t>(std::max(1u, q.next()), s.size() - off);
		std::vector<char>(s.begin() + off, s.begin() + off + n).swap(piece);
		off += n;
		setg(&piece[0], &piece[0], &piece[0] + n);
		return traits_type::to_int_type(*gptr());
	}
};

class PieceStream : public ParserStreamInput {
	std::string s; Schedule q; size_t off;
public:
	PieceStream(unsigned b, const std::string &s_, const Schedule &q_) : ParserStreamInput(b), s(s_), q(q_), off(0) {}
	unsigned Read(void *p, unsigned len) {
		unsigned n = std::min<size_t>(std::min(len, std::max(1u, q.next())), s.size() - off);
		memcpy(p, s.data() + off, n);
		off += n;
		return n;
	}
};

// no more than what is asked for (or the schedule says) is handed out, in a fresh allocation of exactly that size
class ExactInput : public ParserInput {
	std::string s; Schedule q; size_t off; std::vector<char> piece;
public:
	ExactInput(const std::string &s_, const Schedule &q_) : s(s_), q(q_), off(0) {}
	const void *GetPtr(unsigned &len) {
		size_t n = std::max<size_t>(len, len ? piece.size() : std::max<size_t>(piece.size(), 1));
		if (piece.empty() || n > piece.size()) n = std::max<size_t>(n, std::min<size_t>(q.next(), 1u << 20));
		n = std::min(n, s.size() - off);
		std::vector<char>(s.begin() + off, s.begin() + off + n).swap(piece);
		len = n;
		return n ? &piece[0] : 0;
	}
	void Release(unsigned len) {
		if (len > piece.size()) throw std::runtime_error("released more than acquired");
		off += len;
		std::vector<char>(piece.begin() + len, piece.end()).swap(piece);
	}
};

std::string ScratchFile(const std::string &content);   // name of a new file in the scratch directory
void RemoveScratch();

// what an input needs to stay alive
struct Source {
	std::vector<char> mem;
	FILE *f;
	std::unique_ptr<std::streambuf> sb;
	std::string name;
	shared_ptr<ParserInput> in;
	Source() : f(0) {}
	~Source() { in.reset(); if (f) fclose(f); if (!name.empty()) remove(name.c_str()); }
	// c: {k: kind, q: schedule, b: buffer size}
	shared_ptr<ParserInput> open(const J &c, const std::string &s);
private:
	Source(const Source&); void operator=(const Source&);
};
}
