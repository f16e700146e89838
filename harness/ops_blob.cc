#include "common.h"
#include "Base64.h"
#include <Variant/Blob.h>
#include <sanitizer/asan_interface.h>
#include <cstdlib>
#include <cstring>
using namespace libvariant;
using namespace drv;

// Pieces in separate allocations of exactly their size
struct Pieces {
	std::vector<struct iovec> v;
	explicit Pieces(const J &p) {
		for (size_t i = 0; i < p.a.size(); ++i) {
			std::string s = Bytes(p.a[i]);
			struct iovec x = { malloc(s.size()), s.size() };
			memcpy(x.iov_base, s.data(), s.size());
			v.push_back(x);
		}
	}
	struct iovec *ptr() { return v.empty() ? 0 : &v[0]; }
	unsigned size() { return v.size(); }
	void release() { for (size_t i = 0; i < v.size(); ++i) free(v[i].iov_base); v.clear(); }
};

OP(enc) {
	Pieces p(c.at("p"));
	unsigned w = c.at("w").n, total = 0;
	for (size_t i = 0; i < p.v.size(); ++i) total += p.v[i].iov_len;
	std::vector<char> out(Base64EncodeSize(total, w));
	unsigned n = p.size() == 1 ? Base64Encode(&out[0], p.v[0].iov_base, p.v[0].iov_len, w) : Base64Encode(&out[0], p.ptr(), p.size(), w);
	std::string s(&out[0], n);
	std::vector<char> in(s.begin(), s.end());
	std::vector<char> dec(Base64DecodeSize(n));
	unsigned m = Base64Decode(&dec[0], in.empty() ? "" : &in[0], n);
	p.release();
	return Ok().set("s", FromBytes(s)).set("back", FromBytes(std::string(&dec[0], m)));
}

OP(dec) {
	std::string s = Bytes(c.at("s"));
	std::vector<char> in(s.begin(), s.end());
	std::vector<char> dec(Base64DecodeSize(s.size()));
	unsigned m = Base64Decode(&dec[0], in.empty() ? "" : &in[0], s.size());
	return Ok().set("b", FromBytes(std::string(&dec[0], m)));
}

static void CountFree(void *ptr, void *ctx) {
	std::map<void*, int> &n = *(std::map<void*, int>*)ctx;
	++n[ptr];
}

static std::string All(const BlobPtr &b) {
	std::string s;
	for (unsigned i = 0; i < b->GetNumBuffers(); ++i) s.append((const char*)b->GetPtr(i), b->GetLength(i));
	return s;
}

// steps over three handles; pieces handed over with "own" are counted by a release function, with "free" watched for being freed
OP(blob) {
	const J &a = c.at("a");
	std::map<void*, int> count;
	std::vector<std::pair<void*, bool> > watch;
	std::vector<Pieces> keep;
	BlobPtr h[3];
	J steps = J::Arr();
	for (size_t i = 0; i < a.a.size(); ++i) {
		const J &x = a.a[i];
		std::string k = x.at("k").s;
		unsigned t = x.at("h").n;
		if (k == "new") {
			Pieces p(x.at("p"));
			std::string how = x.at("how").s;
			if (how == "copy") {
				h[t] = p.size() == 1 ? Blob::CreateCopy(p.v[0].iov_base, p.v[0].iov_len) : Blob::CreateCopy(p.ptr(), p.size());
				p.release();
			} else if (how == "ref") {
				h[t] = p.size() == 1 ? Blob::CreateReferenced(p.v[0].iov_base, p.v[0].iov_len) : Blob::CreateReferenced(p.ptr(), p.size());
				keep.push_back(p);
			} else {
				for (size_t j = 0; j < p.v.size(); ++j) watch.push_back(std::make_pair(p.v[j].iov_base, how == "free"));
				if (how == "free") {
					h[t] = p.size() == 1 ? Blob::CreateFree(p.v[0].iov_base, p.v[0].iov_len) : Blob::CreateFree(p.ptr(), p.size());
				} else {
					h[t] = p.size() == 1 ? Blob::Create(p.v[0].iov_base, p.v[0].iov_len, CountFree, &count)
						: Blob::Create(p.ptr(), p.size(), CountFree, &count);
					keep.push_back(p);
				}
			}
		} else if (k == "asg") {
			h[t] = h[x.at("g").n];
		} else if (k == "dup") {
			h[t] = h[x.at("g").n] ? h[x.at("g").n]->Copy() : BlobPtr();
		} else if (k == "var") {
			Variant v(h[x.at("g").n]), w;
			w["x"] = v;
			Variant z = w;
			h[t] = z["x"].AsBlob();
		} else if (k == "vdup") {
			Variant v(h[x.at("g").n]);
			h[t] = v.Copy().AsBlob();
		} else if (k == "drop") {
			h[t] = BlobPtr();
		} else if (k == "poke") {
			unsigned at = x.at("at").n;
			for (unsigned j = 0; h[t] && j < h[t]->GetNumBuffers(); ++j) {
				if (at < h[t]->GetLength(j)) {
					((char*)h[t]->GetPtr(j))[at] = (char)x.at("v").n;
					break;
				}
				at -= h[t]->GetLength(j);
			}
		}
		J st = J::Obj(), hs = J::Arr(), cs = J::Arr(), fs = J::Arr();
		for (int j = 0; j < 3; ++j) {
			hs.add(J::Obj().set("n", !h[j]).set("b", h[j] ? FromBytes(All(h[j])) : J::Arr()).set("l", h[j] ? h[j]->GetTotalLength() : 0u));
			J row = J::Arr();
			for (int l = 0; l < 3; ++l) row.add(h[j] && h[l] ? h[j]->Compare(h[l]) : 9);
			cs.add(row);
		}
		for (size_t j = 0; j < watch.size(); ++j) {
			fs.add(watch[j].second ? (__asan_address_is_poisoned((char*)watch[j].first) ? 1 : 0) : count[watch[j].first]);
		}
		steps.add(st.set("h", hs).set("c", cs).set("f", fs));
	}
	for (int j = 0; j < 3; ++j) h[j] = BlobPtr();
	for (size_t j = 0; j < keep.size(); ++j) keep[j].release();
	return Ok().set("steps", steps);
}
