From 2366f7f192904805445567b8875483ab9ac46190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:28:53 +0000
Subject: [PATCH 001/114] fix: JSON pointer array indices are bounds checked
 and remove works on arrays

---
 src/Extensions.cc | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 35eb6a1..0552536 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -25,7 +25,7 @@
 #include <Variant/Extensions.h>
 #include <Variant/Path.h>
 #include <stdlib.h>
-#include <ctype.h>
+#include <errno.h>
 #include <set>
 
 using namespace std;
@@ -330,12 +330,12 @@ namespace libvariant {
 	};
 
 	static bool IsIndex(const std::string &str, uintmax_t &index) {
-		const char *b = str.c_str();
-		char *e = 0;
-		unsigned long long v = strtoull(b, &e, 10);
-		if (e == b) { return false; }
-		while (e != 0 && *e != '\0' && isspace(*e)) { ++e; }
-		if (e == 0 || *e != '\0') { return false; }
+		// RFC6901: only digits and no leading zeros
+		if (str.empty() || str.find_first_not_of("0123456789") != std::string::npos) { return false; }
+		if (str.size() > 1 && str[0] == '0') { return false; }
+		errno = 0;
+		unsigned long long v = strtoull(str.c_str(), 0, 10);
+		if (errno == ERANGE) { return false; }
 		index = v;
 		return true;
 	}
@@ -431,20 +431,19 @@ namespace libvariant {
 			if (!IsIndex(component, index)) {
 				throw std::runtime_error("Attempting to index an array with a string");
 			}
+			if (index > v.Size() || (index == v.Size() && !(is_last && op.op == OP_ADD))) {
+				throw std::runtime_error("Attempting to reference past the end of an array");
+			}
 			op.path.push_back(index);
 			if (is_last) {
 				switch (op.op) {
 				case OP_ADD:
-					if (v.Contains(index)) {
-						op.old_value = v.Get(index);
-						op.replaced = true;
-					}
 					v.AsList().insert(v.ListBegin()+index, op.value);
 					op.success = true;
 					return v.At(index);
 				case OP_REMOVE:
-					op.value = v.At(component);
-					v.Erase(index);
+					op.value = v.At(index);
+					v.AsList().erase(v.ListBegin()+index);
 					op.success = true;
 					return v.At(index);
 				case OP_TEST:
-- 
2.43.0


From ce1a8d7218bd00f00d39b75f91bf6208b0bce823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:44 +0000
Subject: [PATCH 002/114] fix: a failed JSON patch restores arrays as they were

---
 src/Extensions.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 0552536..8269a33 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -310,6 +310,7 @@ namespace libvariant {
 	enum Operations_e {
 		OP_ADD,
 		OP_REMOVE,
+		OP_REPLACE,
 		OP_TEST,
 		OP_GET
 	};
@@ -612,7 +613,21 @@ namespace libvariant {
 				}
 				break;
 			case OP_REMOVE:
-				v.ErasePath(p.path);
+				{
+					Path path = p.path;
+					if (path.empty()) { break; }
+					PathElement elem = path.back();
+					path.pop_back();
+					VariantRef r = v.AtPath(path);
+					if (r.IsList()) {
+						r.AsList().erase(r.ListBegin()+elem.AsUnsigned());
+					} else {
+						r.Erase(elem.AsString());
+					}
+				}
+				break;
+			case OP_REPLACE:
+				v.AtPath(p.path) = p.value;
 				break;
 			case OP_TEST:
 			case OP_GET:
@@ -650,7 +665,7 @@ namespace libvariant {
 				} else {
 					return false;
 				}
-				undo->push_back(Patch_t(OP_ADD, op.path, op.value));
+				undo->push_back(Patch_t(OP_REPLACE, op.path, op.value));
 				return op.success;
 			} else if (oper == "move") {
 				op = Operation_t(OP_REMOVE, diff.Get("from").AsString());
-- 
2.43.0


From a7be1772007e698ae4e71056d8f2b9e0412ca839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:44 +0000
Subject: [PATCH 003/114] fix: JSON patch add, replace and copy insert
 independent copies

---
 src/Extensions.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 8269a33..47d7929 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -644,7 +644,7 @@ namespace libvariant {
 		try {
 			if (oper == "add") {
 				op = Operation_t(OP_ADD, diff.Get("path").AsString());
-				op.value = diff.Get("value");
+				op.value = diff.Get("value").Copy();
 				JSONPointerOp(op.pointer, v, op);
 				if (op.replaced) {
 					undo->push_back(Patch_t(OP_ADD, op.path, op.old_value));
@@ -661,7 +661,7 @@ namespace libvariant {
 				op = Operation_t(OP_GET, diff.Get("path").AsString());
 				VariantRef r = JSONPointerOp(op.pointer, v, op);
 				if (r.Exists()) {
-					r = diff.Get("value");
+					r = diff.Get("value").Copy();
 				} else {
 					return false;
 				}
@@ -684,7 +684,7 @@ namespace libvariant {
 			} else if (oper == "copy") {
 				op = Operation_t(OP_GET, diff.Get("from").AsString());
 				JSONPointerOp(op.pointer, v, op);
-				Variant data = op.value;
+				Variant data = op.value.Copy();
 				op = Operation_t(OP_ADD, diff.Get("path").AsString());
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
-- 
2.43.0


From eddb4ddfb6ffa94ed4ec533e68ac885d548c48bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:44 +0000
Subject: [PATCH 004/114] fix: JSON move refuses its own children and restores
 the source when it fails

---
 src/Extensions.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 47d7929..b0a825c 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -471,6 +471,13 @@ namespace libvariant {
 		throw std::runtime_error(oss.str());
 	}
 
+	// RFC6902: a location cannot be moved into one of its children
+	static void CheckMove(const std::string &src, const std::string &dst) {
+		if (dst.size() > src.size() && dst[src.size()] == '/' && dst.compare(0, src.size(), src) == 0) {
+			throw std::runtime_error("Attempting to move a value into itself");
+		}
+	}
+
 	void JSONPointerAdd(const std::string &pointer, VariantRef v, Variant data) {
 		Operation_t op(OP_ADD, pointer);
 		op.value = data;
@@ -518,16 +525,18 @@ namespace libvariant {
 	void JSONPointerMove(const std::string &src, const std::string &dst, VariantRef v) {
 		Operation_t op(OP_REMOVE, src);
 		try {
+			CheckMove(src, dst);
 			JSONPointerOp(op.pointer, v, op);
 			Variant data = op.value;
-			Path path = op.path;
 			try {
 				op = Operation_t(OP_ADD, dst);
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
 			} catch (const std::exception &e) {
-				v.SetPath(path, data);
-				throw e;
+				Operation_t undo(OP_ADD, src);
+				undo.value = data;
+				JSONPointerOp(undo.pointer, v, undo);
+				throw;
 			}
 		} catch (const std::exception &e) {
 			std::ostringstream oss;
@@ -668,6 +677,7 @@ namespace libvariant {
 				undo->push_back(Patch_t(OP_REPLACE, op.path, op.value));
 				return op.success;
 			} else if (oper == "move") {
+				CheckMove(diff.Get("from").AsString(), diff.Get("path").AsString());
 				op = Operation_t(OP_REMOVE, diff.Get("from").AsString());
 				JSONPointerOp(op.pointer, v, op);
 				Variant data = op.value;
-- 
2.43.0


From 2271b746b649d745bcfadd64e6a68b517b91364b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:44 +0000
Subject: [PATCH 005/114] fix: FormJSONPointer escapes keys containing ~ or /

---
 src/Extensions.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index b0a825c..6ca1642 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -307,6 +307,18 @@ namespace libvariant {
 		return ret;
 	}
 
+	static std::string JSONPointerEscape(const std::string &fragment) {
+		std::string ret;
+		for (std::string::const_iterator i(fragment.begin()), e(fragment.end()); i != e; ++i) {
+			switch (*i) {
+			case '~': ret.append("~0"); break;
+			case '/': ret.append("~1"); break;
+			default: ret.append(1, *i); break;
+			}
+		}
+		return ret;
+	}
+
 	enum Operations_e {
 		OP_ADD,
 		OP_REMOVE,
@@ -586,7 +598,7 @@ namespace libvariant {
 			if (i->IsNumber()) {
 				ret << "/" << i->AsUnsigned();
 			} else {
-				ret << "/" << i->AsString();
+				ret << "/" << JSONPointerEscape(i->AsString());
 			}
 		}
 		return ret.str();
-- 
2.43.0


From a02417410321e06c85ae71424aadd7f0e324f200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:29:44 +0000
Subject: [PATCH 006/114] fix: JSONDiff of a shrinking array yields an
 applicable patch

---
 src/Extensions.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 6ca1642..35842c7 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -786,8 +786,11 @@ namespace libvariant {
 			switch (src.GetType()) {
 			case Variant::ListType:
 				{
-					uintmax_t len = std::max<uintmax_t>(src.Size(), dst.Size());
-					for (uintmax_t i = 0; i < len; ++i) {
+					// elements past the end of dst are removed last to first
+					uintmax_t dlen = dst.Size();
+					uintmax_t len = std::max<uintmax_t>(src.Size(), dlen);
+					for (uintmax_t n = 0; n < len; ++n) {
+						uintmax_t i = n < dlen ? n : len - 1 - (n - dlen);
 						path.push_back(PathElement(i));
 							JSONDiffRef(src.At(i), dst.At(i), diff, path);
 						path.pop_back();
-- 
2.43.0


From 840de6c8bfe0c2e91afa98d1e778cf73dbe13a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:46 +0000
Subject: [PATCH 007/114] fix: assigning a list element to a new element of the
 same list

Resolving the destination may grow the list and move the source element,
which was then read after it had been freed.
---
 src/Variant.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 9afe852..71a2e3c 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -252,7 +252,13 @@ namespace libvariant {
 		//--------------------
 
 		void VTable::Assign(const Data *that, Data *other) const
-		{ that->vtable->Copy(that, VTable::GetData(other->vtable->Resolve(other))); }
+		{
+			// Resolving other may create elements and so move the element that is.
+			Variant value;
+			Data *data = VTable::GetData(&value);
+			that->vtable->Copy(that, data);
+			data->vtable->Copy(data, VTable::GetData(other->vtable->Resolve(other)));
+		}
 
 		void VTable::MakeRef(const Data *that, Data *ref) const {
 			RefInit(ref, that);
-- 
2.43.0


From 0b317936a1f79b82d70190616c2a87a0bdd62bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:46 +0000
Subject: [PATCH 008/114] fix: clearing a string does not clear the strings it
 was assigned to

Strings share storage on assignment, so clear in place also emptied every copy.
---
 src/Variant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 71a2e3c..34722fe 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1070,7 +1070,7 @@ namespace libvariant {
 
 		bool String::Empty(const Data *that) const { return that->s->empty(); }
 
-		void String::Clear(Data *that) const { return that->s->clear(); }
+		void String::Clear(Data *that) const { StringInit(that, std::string()); }
 
 		int String::Compare(const Data *that, const Data *other) const {
 			if (Comparable(that, other)) {
-- 
2.43.0


From 0f5e77040237ac5cf5e633dce80ccf34c67b4128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:46 +0000
Subject: [PATCH 009/114] fix: the size of a default constructed blob is 0
 instead of a crash

---
 src/Variant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 34722fe..cdaf10d 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1404,7 +1404,7 @@ namespace libvariant {
 		{ return *(that->blob); }
 
 		unsigned Blob::Size(const Data *that) const
-		{ return (*that->blob)->GetTotalLength(); }
+		{ return (*that->blob) ? (*that->blob)->GetTotalLength() : 0; }
 
 		int Blob::Compare(const Data *that, const Data *other) const {
 			if (Comparable(that, other)) {
-- 
2.43.0


From 822b6b2fc12567953e55c278392a03807fbeeaaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:46 +0000
Subject: [PATCH 010/114] fix: rebinding an unresolved reference to itself
 reads freed memory

---
 src/Variant.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index cdaf10d..5153f97 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1939,10 +1939,11 @@ namespace libvariant {
 
 		void ProxyInit(Data *that, Data *ref, Path::const_iterator b, Path::const_iterator e) {
 			static const Proxy proxy_vtable;
+			// the path may belong to the proxy that is replaced
+			shared_ptr<ProxyStorage> storage(new ProxyStorage(ref, b, e));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = &proxy_vtable;
 			that->ref_data = ref->vtable->EnsureRef(ref);
-			shared_ptr<ProxyStorage> storage(new ProxyStorage(ref, b, e));
 			that->proxy = storage.get();
 			that->storage = storage;
 		}
-- 
2.43.0


From db612a5267e4ec33762d57b2da42ea6e319f9350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:46 +0000
Subject: [PATCH 011/114] fix: the largest list index is out of range instead
 of erasing the list

The new size wrapped to 0, so l[-1] = x emptied the list before it threw.
---
 src/Variant.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 5153f97..b1bccdd 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1163,10 +1163,15 @@ namespace libvariant {
 			return std::distance(begin, std::find(begin, end, v));
 		}
 
+		static void ResizeFor(Data *that, unsigned i) {
+			if (i + 1 == 0) { throw std::out_of_range("Variant::List index out of range."); }
+			that->l->list.resize(i + 1);
+		}
+
 		void List::EraseIndex(Data *that, unsigned i) const
 		{
 			unsigned size = that->l->list.size();
-			if (i + 1 < size) {
+			if (i < size && i + 1 < size) {
 				that->l->list.at(i).Assign(Variant::NullType);
 			} else if (i < size) {
 				that->l->list.pop_back();
@@ -1177,7 +1182,7 @@ namespace libvariant {
 			if (i < that->l->list.size()) {
 				return VariantRef(that->l->list.at(i));
 			} else if (def) {
-				that->l->list.resize(i + 1);
+				ResizeFor(that, i);
 				that->l->list.at(i) = *def;
 				return VariantRef(that->l->list.at(i));
 			} else {
@@ -1207,7 +1212,7 @@ namespace libvariant {
 
 		void List::SetIndex(Data *that, unsigned i, const Data *other) const {
 			if ( ! (i < that->l->list.size()) ) {
-				that->l->list.resize(i + 1);
+				ResizeFor(that, i);
 			}
 			other->vtable->Assign(other, VTable::GetData(&that->l->list.at(i)));
 		}
-- 
2.43.0


From 3e127141cb7ed95594b51d7fe20b56b6161504b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:22 +0000
Subject: [PATCH 012/114] fix: ErasePath with remove_empty removes only empty
 lists and maps

An empty string or null on the path was removed as well, and any other
scalar made the call throw.
---
 src/Variant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index b1bccdd..57028de 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -479,7 +479,7 @@ namespace libvariant {
 			if (!ref) { return; }
 			Data *ref_data = VTable::GetData(ref);
 			ref_data->vtable->ErasePath(ref_data, b + 1, e, remove_empty);
-			if (remove_empty && ref_data->vtable->Empty(ref_data)) {
+			if (remove_empty && (ref->IsList() || ref->IsMap()) && ref_data->vtable->Empty(ref_data)) {
 				ErasePathElem(that, *b);
 			}
 		}
-- 
2.43.0


From 9162d75d76c22ec394ff0acbbe233b8aef46b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:22:44 +0000
Subject: [PATCH 013/114] fix: rebinding an unresolved reference that keeps the
 new target alive

The old storage was released before the new target was used.
---
 src/Variant.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 57028de..3ec4053 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1639,6 +1639,8 @@ namespace libvariant {
 
 		void RefInit(Data *that, const Data *other) {
 			static const Ref ref_vtable;
+			// other may be an element that only that keeps alive
+			shared_ptr<Storage> keep = that->storage;
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = &ref_vtable;
 			// XXX: const cast.. double ICKY!
@@ -1944,7 +1946,8 @@ namespace libvariant {
 
 		void ProxyInit(Data *that, Data *ref, Path::const_iterator b, Path::const_iterator e) {
 			static const Proxy proxy_vtable;
-			// the path may belong to the proxy that is replaced
+			// the path may belong to the proxy that is replaced and ref may be kept alive by it
+			shared_ptr<Storage> keep = that->storage;
 			shared_ptr<ProxyStorage> storage(new ProxyStorage(ref, b, e));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = &proxy_vtable;
-- 
2.43.0


From b916184211cb21b6d78c43d71674a55b136511b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:23 +0000
Subject: [PATCH 014/114] fix: a malformed index in a path string is an error

"[12abc]", "[-1]" and indices beyond 32 bits were read as some other index,
and an index without its closing bracket as a key.
---
 src/Path.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Path.cc b/src/Path.cc
index beceffe..330b7af 100644
--- a/src/Path.cc
+++ b/src/Path.cc
@@ -4,6 +4,7 @@
  */
 #include <Variant/Path.h>
 #include <sstream>
+#include <limits>
 
 namespace libvariant {
 
@@ -22,10 +23,11 @@ namespace libvariant {
 				if (*c == ']') {
 					std::istringstream iss(frag);
 					unsigned long long i = 0;
-					if (!(iss >> i)) {
+					if (frag.find_first_not_of("0123456789") != std::string::npos || !(iss >> i)
+							|| i > std::numeric_limits<unsigned>::max()) {
 						throw std::runtime_error("Error parsing Variant path: \"" + frag + "\" is not a number.");
 					}
-					parsed_path.push_back(i);
+					parsed_path.push_back((unsigned)i);
 					frag.clear();
 					index = false;
 				} else {
@@ -69,6 +71,7 @@ namespace libvariant {
 			}
 			++c;
 		}
+		if (index) { throw std::runtime_error("Error parsing Variant path: missing ]."); }
 		if (!frag.empty()) { parsed_path.push_back(frag); }
 	}
 
-- 
2.43.0


From 1537a5f4b35e91bd3c91b1b5507780e6d94e70be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:24:23 +0000
Subject: [PATCH 015/114] fix: an escaped character may start a path string

---
 src/Path.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Path.cc b/src/Path.cc
index 330b7af..f984f1c 100644
--- a/src/Path.cc
+++ b/src/Path.cc
@@ -62,6 +62,11 @@ namespace libvariant {
 					frag.clear();
 					index = true;
 					break;
+				case '\\':
+					frag.clear();
+					key = true;
+					escape = true;
+					break;
 				default:
 					frag.clear();
 					key = true;
-- 
2.43.0


From 1b0658dbbe57c9074ff138ce30bb3d501403de27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:55 +0000
Subject: [PATCH 016/114] fix: comparing strings returns -1, 0 or 1

---
 src/Variant.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 3ec4053..b5702d8 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1075,7 +1075,8 @@ namespace libvariant {
 		int String::Compare(const Data *that, const Data *other) const {
 			if (Comparable(that, other)) {
 				other = VTable::GetData(other->vtable->ResolveConst(other));
-				return that->s->compare(*other->s);
+				int c = that->s->compare(*other->s);
+				return (c > 0) - (c < 0);
 			}
 			return 1;
 		}
-- 
2.43.0


From c71862ab9067c11c7278c3d121a58170f0fed1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:55 +0000
Subject: [PATCH 017/114] fix: comparing blobs takes their lengths into account

---
 src/Blob.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Blob.cc b/src/Blob.cc
index 3e12d55..b8a0ef9 100644
--- a/src/Blob.cc
+++ b/src/Blob.cc
@@ -104,7 +104,7 @@ namespace libvariant {
 		while (i < GetNumBuffers() && j < other->GetNumBuffers()) {
 			unsigned len = std::min(GetLength(i) - our_offset, other->GetLength(j) - oth_offset);
 			int res = memcmp((char*)(GetPtr(i)) + our_offset, (char*)(other->GetPtr(j)) + oth_offset, len);
-			if (res != 0) { return res; }
+			if (res != 0) { return res < 0 ? -1 : 1; }
 			our_offset += len;
 			if (our_offset >= GetLength(i)) {
 				our_offset = 0;
@@ -116,7 +116,9 @@ namespace libvariant {
 				++j;
 			}
 		}
-		return 0;
+		// One is a prefix of the other
+		unsigned len = GetTotalLength(), oth_len = other->GetTotalLength();
+		return (len > oth_len) - (len < oth_len);
 	}
 }
 
-- 
2.43.0


From 81f2559abd48c74261e5d375a03044523af9ce64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:55 +0000
Subject: [PATCH 018/114] fix: a default constructed blob equals an empty blob

---
 src/Variant.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Variant.cc b/src/Variant.cc
index b5702d8..c7402ca 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1418,6 +1418,8 @@ namespace libvariant {
 				ConstBlobPtr o = other->vtable->AsBlobConst(other);
 				if (us == o) { return 0; }
 				if (us && o) { return us->Compare(o); }
+				// A missing blob is an empty one
+				return us ? us->GetTotalLength() != 0 : -(int)(o->GetTotalLength() != 0);
 			}
 			return 1;
 		}
-- 
2.43.0


From 0bb5e8f853ed075b8b659c8ebd3bc83db14d1230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:55 +0000
Subject: [PATCH 019/114] fix: integer division by zero throws instead of
 killing the process

---
 src/Variant.cc | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index c7402ca..506a51c 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -27,11 +27,34 @@
 #include <math.h>
 #include <assert.h>
 #include <algorithm>
+#include <limits>
+
+template<typename T>
+class my_divides {
+public:
+	T operator()(const T &lhs, const T &rhs) {
+		if (rhs == 0) { throw std::domain_error("Variant division by zero."); }
+		if (std::numeric_limits<T>::is_signed && rhs == (T)-1 && lhs == std::numeric_limits<T>::min()) {
+			throw std::overflow_error("Variant division overflow.");
+		}
+		return lhs / rhs;
+	}
+};
+
+template<>
+class my_divides<long double> {
+public:
+	long double operator()(const long double &lhs, const long double &rhs) { return lhs / rhs; }
+};
 
 template<typename T>
 class my_modulus {
 public:
-	T operator()(const T &lhs, const T &rhs) { return lhs % rhs; }
+	T operator()(const T &lhs, const T &rhs) {
+		if (rhs == 0) { throw std::domain_error("Variant division by zero."); }
+		if (std::numeric_limits<T>::is_signed && rhs == (T)-1) { return 0; }
+		return lhs % rhs;
+	}
 };
 
 template<>
@@ -807,7 +830,7 @@ namespace libvariant {
 		{ NumericOperation<std::multiplies>(that, other); }
 
 		void Numeric::Div(Data *that, const Data *other) const
-		{ NumericOperation<std::divides>(that, other); }
+		{ NumericOperation<my_divides>(that, other); }
 
 		void Numeric::Rem(Data *that, const Data *other) const
 		{ NumericOperation<my_modulus>(that, other); }
-- 
2.43.0


From 0fede59d6b6895e1155054eda8f882ae1438ad4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:45 +0000
Subject: [PATCH 020/114] fix: accept an exponent after a JSON zero

---
 lib/json/JSON_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 393b3fc..9e8441d 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -264,7 +264,7 @@ static int state_transition_table[NR_STATES][NR_CLASSES] = {
 /*u3     U3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,U4,U4,U4,U4,U4,U4,U4,U4,__,__,__,__,__,__,U4,U4,__,__},
 /*u4     U4*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,UC,UC,UC,UC,UC,UC,UC,UC,__,__,__,__,__,__,UC,UC,__,__},
 /*minus  MI*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,ZE,IT,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
-/*zero   ZE*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
+/*zero   ZE*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,__,__,__,__,__,__,DE,__,__,__,__,__,__,__,__,DE,__,__},
 /*int    IT*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,DF,IT,IT,__,__,__,__,DE,__,__,__,__,__,__,__,__,DE,__,__},
 /*frac   FR*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,FR,FR,__,__,__,__,E1,__,__,__,__,__,__,__,__,E1,__,__},
 /*e      E1*/ {__,__,__,__,__,__,__,__,__,__,__,E2,E2,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
-- 
2.43.0


From dc26b02d78973369d986c33da90be9f69f8b05d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:45 +0000
Subject: [PATCH 021/114] fix: a comment does not complete a JSON literal

---
 lib/json/JSON_parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 9e8441d..3615533 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -272,14 +272,14 @@ static int state_transition_table[NR_STATES][NR_CLASSES] = {
 /*exp    E3*/ {OK,OK,__,-8,__,-7,__,-3,__,__,__,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*tr     T1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T2,__,__,__,__,__,__,__},
 /*tru    T2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T3,__,__,__,__},
-/*true   T3*/ {__,__,__,__,__,__,__,__,__,__,CB,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
+/*true   T3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
 /*fa     F1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,F2,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*fal    F2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,F3,__,__,__,__,__,__,__,__,__},
 /*fals   F3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,F4,__,__,__,__,__,__},
-/*false  F4*/ {__,__,__,__,__,__,__,__,__,__,CB,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
+/*false  F4*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
 /*nu     N1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,N2,__,__,__,__},
 /*nul    N2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,N3,__,__,__,__,__,__,__,__,__},
-/*null   N3*/ {__,__,__,__,__,__,__,__,__,__,CB,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__},
+/*null   N3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__},
 /*/      C1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,C2},
 /*/*     C2*/ {C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C3},
 /**      C3*/ {C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,CE,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C2,C3},
-- 
2.43.0


From 8319cf2dd7afc3d82106b2f848612910d7d6f98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:45 +0000
Subject: [PATCH 022/114] fix: accept a comment after a JSON exponent

---
 lib/json/JSON_parser.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 3615533..0b395c5 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -269,7 +269,7 @@ static int state_transition_table[NR_STATES][NR_CLASSES] = {
 /*frac   FR*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,FR,FR,__,__,__,__,E1,__,__,__,__,__,__,__,__,E1,__,__},
 /*e      E1*/ {__,__,__,__,__,__,__,__,__,__,__,E2,E2,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*ex     E2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
-/*exp    E3*/ {OK,OK,__,-8,__,-7,__,-3,__,__,__,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
+/*exp    E3*/ {OK,OK,__,-8,__,-7,__,-3,__,__,CB,__,__,__,E3,E3,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__},
 /*tr     T1*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T2,__,__,__,__,__,__,__},
 /*tru    T2*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,T3,__,__,__,__},
 /*true   T3*/ {__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,__,OK,__,__,__,__,__,__,__,__,__,__,__},
-- 
2.43.0


From 33d8b3f3856a572680aaadc9ed9639a1cfb73cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:04:45 +0000
Subject: [PATCH 023/114] fix: reject characters in front of the JSON root

---
 src/JSONParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index 9d385a8..2e48a8b 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -155,7 +155,7 @@ namespace libvariant {
 							else { status = S_ERROR; }
 						}
 					}
-				} else if (status == S_OK) { status = S_ERROR; }
+				} else { status = S_ERROR; }
 				++c;
 			}
 			input->Release(c - ptr);
-- 
2.43.0


From 5f6c5041f24b159592d4c527251487715d5735c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:30 +0000
Subject: [PATCH 024/114] fix: JSON integers beyond 64 bits are read as
 floating point

---
 lib/json/JSON_parser.c | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 0b395c5..d327495 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -58,6 +58,7 @@ SOFTWARE.
 
 #include <assert.h>
 #include <ctype.h>
+#include <errno.h>
 #include <float.h>
 #include <stddef.h>
 #include <stdio.h>
@@ -497,11 +498,21 @@ static int parse_parse_buffer(JSON_parser jc)
                     break;
                 case JSON_T_INTEGER:
                     arg = &value;
-                    sscanf(jc->parse_buffer, JSON_PARSER_INTEGER_SSCANF_TOKEN, &value.vu.integer_value);
+                    errno = 0;
+                    value.vu.integer_value = strtoll(jc->parse_buffer, NULL, 10);
+                    if (errno == ERANGE) {
+                        jc->type = JSON_T_FLOAT;
+                        value.vu.float_value = strtod(jc->parse_buffer, NULL);
+                    }
                     break;
                 case JSON_T_UNSIGNED:
                     arg = &value;
-                    sscanf(jc->parse_buffer, JSON_PARSER_UNSIGNED_SSCANF_TOKEN, &value.vu.unsigned_value);
+                    errno = 0;
+                    value.vu.unsigned_value = strtoull(jc->parse_buffer, NULL, 10);
+                    if (errno == ERANGE) {
+                        jc->type = JSON_T_FLOAT;
+                        value.vu.float_value = strtod(jc->parse_buffer, NULL);
+                    }
                     break;
                 case JSON_T_STRING:
                     arg = &value;
-- 
2.43.0


From 0d27563526e0e78d2c94b5cff454d9b1f6538b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:52 +0000
Subject: [PATCH 025/114] fix: base64 encoding of empty blobs and empty blob
 pieces

---
 src/Base64.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Base64.cc b/src/Base64.cc
index 99ccc50..70626e2 100644
--- a/src/Base64.cc
+++ b/src/Base64.cc
@@ -15,12 +15,13 @@ namespace libvariant {
 	public:
 		iov_iterator() : iov(0), len(0), slab(0), offset(0) {}
 		iov_iterator(const iov_iterator &o) : iov(o.iov), len(o.len), slab(o.slab), offset(o.offset) {}
-		iov_iterator(const struct iovec *v, unsigned l) : iov(v), len(l), slab(0), offset(0) {}
+		iov_iterator(const struct iovec *v, unsigned l) : iov(v), len(l), slab(0), offset(0) { skip_empty(); }
 		iov_iterator &operator++() {
 			++offset;
 			if (offset >= iov[slab].iov_len) {
 				++slab;
 				offset = 0;
+				skip_empty();
 			}
 			return *this;
 		}
@@ -46,6 +47,7 @@ namespace libvariant {
 		}
 
 	private:
+		void skip_empty() { while (slab < len && iov[slab].iov_len == 0) { ++slab; } }
 		const struct iovec *iov;
 		unsigned len;
 		unsigned slab;
-- 
2.43.0


From feab7924d8695206fed92d1722889bc2e479fba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:52 +0000
Subject: [PATCH 026/114] fix: base64 decoding does not read past its table

---
 src/Base64.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Base64.cc b/src/Base64.cc
index 70626e2..c7f1fa3 100644
--- a/src/Base64.cc
+++ b/src/Base64.cc
@@ -130,7 +130,7 @@ namespace libvariant {
 		do {\
 			if (i == e) { return o - (signed char*)outptr; }\
 			signed char val = *i++ - 43;\
-			if (val < 0 || val > decoding_size) { fragment = -1; }\
+			if (val < 0 || val >= decoding_size) { fragment = -1; }\
 			else { fragment = decoding[(int)val]; }\
 		} while (fragment < 0)
 
-- 
2.43.0


From 9229a9c1fa6a0bea8e33da427e0d7be653bd3831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:52 +0000
Subject: [PATCH 027/114] fix: emit a default constructed blob as an empty blob

---
 src/VariantEmitting.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/VariantEmitting.cc b/src/VariantEmitting.cc
index 5429e0c..53d1cbf 100644
--- a/src/VariantEmitting.cc
+++ b/src/VariantEmitting.cc
@@ -57,7 +57,7 @@ namespace libvariant {
 			e << v.AsMap();
 			break;
 		case Variant::BlobType:
-			e << v.AsBlob();
+			e << (v.AsBlob() ? v.AsBlob() : Blob::CreateCopy("", 0));
 			break;
 		default:
 			throw UnknownTypeError(v.GetType());
-- 
2.43.0


From b9f6afae0a850e957cc27221612c2a499a9b7eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:09:52 +0000
Subject: [PATCH 028/114] fix: JSON numbers have a digit after the decimal
 point

---
 src/JSONEmitter.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 9389e32..663d9a2 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -132,7 +132,10 @@ namespace libvariant {
 		} else {
 			oss << std::setprecision(numeric_precision) << std::showpoint << v;
 		}
-		EmitRaw(oss.str().c_str(), oss.str().length());
+		std::string str = oss.str();
+		size_t point = str.find('.');
+		if (point != std::string::npos && !isdigit(str[point+1])) { str.insert(point+1, "0"); }
+		EmitRaw(str.c_str(), str.length());
 	}
 
 	void JSONEmitterImpl::Emit(ConstBlobPtr b) {
-- 
2.43.0


From 7eb61cfa604b3afab08243faf95cecf7bceb3c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:32 +0000
Subject: [PATCH 029/114] fix: blobs without pieces do not access a first piece

---
 include/Variant/Blob.h | 4 ++--
 src/Blob.cc            | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Variant/Blob.h b/include/Variant/Blob.h
index 11d7bf6..5e32c39 100644
--- a/include/Variant/Blob.h
+++ b/include/Variant/Blob.h
@@ -40,8 +40,8 @@ namespace libvariant {
 		void *GetPtr(unsigned i) { return iov[i].iov_base; }
 		const void *GetPtr(unsigned i) const { return iov[i].iov_base; }
 		unsigned GetLength(unsigned i) const { return iov[i].iov_len; }
-		struct iovec *GetIOVec() { return &iov[0]; }
-		const struct iovec *GetIOVec() const { return &iov[0]; }
+		struct iovec *GetIOVec() { return iov.empty() ? 0 : &iov[0]; }
+		const struct iovec *GetIOVec() const { return iov.empty() ? 0 : &iov[0]; }
 		unsigned GetNumBuffers() const { return iov.size(); }
 		unsigned GetTotalLength() const;
 
diff --git a/src/Blob.cc b/src/Blob.cc
index b8a0ef9..d6e1954 100644
--- a/src/Blob.cc
+++ b/src/Blob.cc
@@ -86,7 +86,7 @@ namespace libvariant {
 	}
 
 	shared_ptr<Blob> Blob::Copy() const {
-		return CreateCopy(&iov[0], iov.size());
+		return CreateCopy(iov.empty() ? 0 : &iov[0], iov.size());
 	}
 
 	unsigned Blob::GetTotalLength() const {
-- 
2.43.0


From 68039307435ade9b4acc5a1a7ecc24cf0ac2c3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:34:49 +0000
Subject: [PATCH 030/114] fix: expanding paths does not share lists with the
 flat structure

---
 src/Extensions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 35842c7..fc2741b 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -166,7 +166,7 @@ namespace libvariant {
 	/// argument. This primarily has to do with lists.
 	void ExpandPathTo( VariantRef expand, const Variant &var, Variant params ) {
 		if ( !var.IsMap() ) {
-			expand = var;
+			expand = var.Copy();
 			return;
 		}
 
@@ -181,7 +181,7 @@ namespace libvariant {
 					path[ii] = '/';
 				}
 			}
-			expand.SetPath( path, i->second );
+			expand.SetPath( path, i->second.Copy() );
 		}
 	}
 
-- 
2.43.0


From 47630e1000bfc3d315d1ca2126fdc2b5c8ffc0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:34:49 +0000
Subject: [PATCH 031/114] fix: a null in a recursive update does not create an
 entry

---
 src/Extensions.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index fc2741b..cff6067 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -268,6 +268,7 @@ namespace libvariant {
 		case Variant::MapType:
 			if ( !base.Exists() || base.IsMap() ) {
 				for ( Variant::ConstMapIterator i(update.MapBegin()), e(update.MapEnd()); i != e; ++i ) {
+					if ( i->second.IsNull() ) { continue; }
 					RUpdate(base.At( i->first, Variant::MapType ), update[ i->first ]);
 				}
 				break;
-- 
2.43.0


From 543763a974849cc30b21da7a41a3dc5056394d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:47:52 +0000
Subject: [PATCH 032/114] fix: the type of a guessed integer does not depend on
 an earlier error

---
 src/GuessScalar.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index 5094271..56ea479 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -80,6 +80,7 @@ namespace libvariant {
 				action->Scalar(p, false, anchor, tag);
 			} else if (match[MATCH_INT10].rm_so != -1) {
 				long long val;
+				errno = 0;
 				val = strtoll(&value[match[MATCH_INT10].rm_so], 0, 10);
 				if (val == LLONG_MAX && errno == ERANGE) {
 					unsigned long long v;
-- 
2.43.0


From 60fd0c4d2db5b907777c09bd33d4d3dc306eb0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:07 +0000
Subject: [PATCH 033/114] fix: strings that look like another type are quoted
 in YAML

---
 src/GuessScalar.cc | 13 +++++++++++--
 src/GuessScalar.h  |  2 ++
 src/YAMLEmitter.cc |  3 ++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index 56ea479..e217cbd 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -67,11 +67,20 @@ namespace libvariant {
 		}
 	}
 
+	static bool Match(const char *value, regmatch_t *match) {
+		static GuessRegex guessregex;
+		return regexec(&guessregex.guessregex, value, MATCH_MAX, match, 0) == 0;
+	}
+
+	bool GuessIsString(const char *value) {
+		regmatch_t match[MATCH_MAX];
+		return !Match(value, match);
+	}
+
 	void GuessScalar(const char *value, unsigned length, const char *anchor, const char *tag,
 		   	ParserImpl *p, ParserActions *action) {
-		static GuessRegex guessregex;
 		regmatch_t match[MATCH_MAX];
-		if (regexec(&guessregex.guessregex, value, MATCH_MAX, &match[0], 0) == 0) {
+		if (Match(value, match)) {
 			if (match[MATCH_NULL].rm_so != -1) {
 				action->Null(p, anchor, tag);
 			} else if (match[MATCH_TRUE].rm_so != -1) {
diff --git a/src/GuessScalar.h b/src/GuessScalar.h
index d610451..2f9ae80 100644
--- a/src/GuessScalar.h
+++ b/src/GuessScalar.h
@@ -9,5 +9,7 @@
 namespace libvariant {
 	void GuessScalar(const char *value, unsigned length, const char *anchor, const char *tag,
 		   	ParserImpl *p, ParserActions *action);
+	/// True if GuessScalar gives value as a string
+	bool GuessIsString(const char *value);
 }
 #endif
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index ecbe8c4..0f83f83 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -26,6 +26,7 @@
 #include <limits>
 #include <cmath>
 #include "Base64.h"
+#include "GuessScalar.h"
 
 namespace libvariant {
 
@@ -303,7 +304,7 @@ namespace libvariant {
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v) {
-		Emit(v, ANY_SCALAR_STYLE);
+		Emit(v, GuessIsString(v) ? ANY_SCALAR_STYLE : DOUBLE_QUOTED_SCALAR_STYLE);
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v, ScalarStyle style) {
-- 
2.43.0


From c3d797040cc6346f31b630927ebf8c49da79e6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:50:06 +0000
Subject: [PATCH 034/114] fix: all spellings of infinity and not-a-number are
 guessed

---
 src/GuessScalar.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index e217cbd..a4b1601 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -22,8 +22,8 @@ namespace libvariant {
 					"|0o([0-7]+)" // int8 6
 					"|0x([0-9a-fA-F]+)" // int16 7
 					"|([-+]?((\\.[0-9]+)|([0-9]+(\\.[0-9]*)?))([eE][-+]?[0-9]+)?)" // float 8 (9,10,11,12,13)
-					"|([-+]?\\.inf|\\.Inf|\\.INF)" // inf 14
-					"|(\\.nan|\\.Nan|\\.NAN)" // nan 15
+					"|([-+]?\\.inf|[-+]?\\.Inf|[-+]?\\.INF)" // inf 14
+					"|(\\.nan|\\.NaN|\\.Nan|\\.NAN)" // nan 15
 					")[[:space:]\n]*$";
 		enum {
 			MATCH_NULL = 2,
-- 
2.43.0


From 6fd2b499fb78a07dace64b039961900d006c251a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:51:05 +0000
Subject: [PATCH 035/114] fix: an empty string is quoted in YAML

---
 src/YAMLEmitter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 0f83f83..186eff8 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -304,7 +304,7 @@ namespace libvariant {
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v) {
-		Emit(v, GuessIsString(v) ? ANY_SCALAR_STYLE : DOUBLE_QUOTED_SCALAR_STYLE);
+		Emit(v, *v && GuessIsString(v) ? ANY_SCALAR_STYLE : DOUBLE_QUOTED_SCALAR_STYLE);
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v, ScalarStyle style) {
-- 
2.43.0


From badff43ff171fe91d786784af89c9280a252e0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:43 +0000
Subject: [PATCH 036/114] fix: a container without a document around it is
 finished once

---
 src/VariantParsing.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 4bb32f0..df40f43 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -121,12 +121,13 @@ namespace libvariant {
 		}
 
 		void Finish(ParserImpl *p) {
+			// finishing the base may delete this object
+			done = true;
 			if (base) {
 				base->SetValue(p, result, (anchor.empty() ? 0 : anchor.c_str()));
 			} else {
 				state->result = result;
 			}
-			done = true;
 			p->PopAction();
 		}
 
-- 
2.43.0


From 141e9622c5ff2206b8a570674607ce0ec5153bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:43 +0000
Subject: [PATCH 037/114] fix: text in property lists is kept whole, including
 white space

---
 src/XMLPLISTParser.cc | 82 ++++++++++++++++---------------------------
 src/XMLPLISTParser.h  |  1 +
 2 files changed, 32 insertions(+), 51 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index cfbaf33..0e4bc61 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -99,6 +99,8 @@ namespace libvariant {
 						loop = EndElement(TopAction(), StringToNode(name));
 						break;
 					case XML_READER_TYPE_TEXT:
+					case XML_READER_TYPE_WHITESPACE:
+					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
 						loop = ProcessText(TopAction());
 						break;
 					case XML_READER_TYPE_END_ENTITY:
@@ -112,8 +114,6 @@ namespace libvariant {
 					case XML_READER_TYPE_DOCUMENT_TYPE:
 					case XML_READER_TYPE_DOCUMENT_FRAGMENT:
 					case XML_READER_TYPE_NOTATION:
-					case XML_READER_TYPE_WHITESPACE:
-					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
 					case XML_READER_TYPE_XML_DECLARATION:
 					case XML_READER_TYPE_NONE:
 					default:
@@ -135,6 +135,7 @@ namespace libvariant {
 	}
 
 	bool XMLPLISTParserImpl::BeginElement(ParserActions *action, State_t nodetype) {
+		text.clear();
 		bool empty_node = xmlTextReaderIsEmptyElement(reader) != 0;
 		switch (nodetype) {
 		case NullNode:
@@ -231,55 +232,14 @@ namespace libvariant {
 		case ListNode:
 			return true;
 		case IntegerNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				intmax_t val;
-				val = strtoll(value, 0, 0);
-				if (val == LLONG_MAX && errno == ERANGE) {
-					uintmax_t v;
-					v = strtoull(value, 0, 0);
-					action->Scalar(this, v, 0, 0);
-				} else {
-					action->Scalar(this, val, 0, 0);
-				}
-			}
-			return true;
 		case FloatNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				double val = strtod(value, 0);
-				action->Scalar(this, val, 0, 0);
-			}
-			return true;
-		case StringNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				action->Scalar(this, value, strlen(value), 0, 0);
-			}
-			return true;
 		case BlobNode:
-			{
-				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				unsigned length = strlen(value);
-				void *data = 0;
-				if (posix_memalign(&data, 64, Base64DecodeSize(length)) != 0) {
-					err = true;
-					errorstr = "memory allocation failure";
-					throw std::bad_alloc();
-				}
-				unsigned len = Base64Decode(data, value, length);
-				action->Scalar(this, Blob::CreateFree(data, len), 0, 0);
-			}
-			return true;
+		case StringNode:
 		case KeyNode:
 			{
-				empty = false;
 				const char *value = (const char*)xmlTextReaderConstValue(reader);
-				action->Scalar(this, value, strlen(value), 0, 0);
+				text += value;
+				if (value[strspn(value, " \t\r\n")]) { empty = false; }
 			}
 			return true;
 		default:
@@ -309,17 +269,37 @@ namespace libvariant {
 				errorstr = "libvariant XML PLIST parser cannot have empty numeric nodes";
 				throw std::runtime_error(errorstr);
 			}
+			if (nodetype == FloatNode) {
+				double val = strtod(text.c_str(), 0);
+				action->Scalar(this, val, 0, 0);
+			} else {
+				intmax_t val;
+				errno = 0;
+				val = strtoll(text.c_str(), 0, 0);
+				if (val == LLONG_MAX && errno == ERANGE) {
+					uintmax_t v;
+					v = strtoull(text.c_str(), 0, 0);
+					action->Scalar(this, v, 0, 0);
+				} else {
+					action->Scalar(this, val, 0, 0);
+				}
+			}
 			return false;
 		case BlobNode:
-			if (empty) {
-				err = true;
-				errorstr = "libvariant XML PLIST parser cannot have empty data nodes";
-				throw std::runtime_error(errorstr);
+			{
+				void *data = 0;
+				if (posix_memalign(&data, 64, Base64DecodeSize(text.size())) != 0) {
+					err = true;
+					errorstr = "memory allocation failure";
+					throw std::bad_alloc();
+				}
+				unsigned len = Base64Decode(data, text.c_str(), text.size());
+				action->Scalar(this, Blob::CreateFree(data, len), 0, 0);
 			}
 			return false;
 		case StringNode:
 		case KeyNode:
-			if (empty) { action->Scalar(this, "", 0, 0, 0); }
+			action->Scalar(this, text.c_str(), text.size(), 0, 0);
 			return false;
 		case RootNode:
 			action->EndDocument(this);
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index 6802ef0..3829449 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -73,6 +73,7 @@ namespace libvariant {
 		shared_ptr<ParserInput> input;
 		bool closed;
 		bool empty;
+		std::string text;
 		bool err;
 		std::string errorstr;
 	};
-- 
2.43.0


From 8366c5911e3704c7b314ac4f75f559b69f21f584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:54 +0000
Subject: [PATCH 038/114] fix: empty string and key elements in property lists
 are read

---
 src/XMLPLISTParser.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 0e4bc61..37c4ebc 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -179,9 +179,8 @@ namespace libvariant {
 				statestack.push_back(nodetype);
 				empty = true;
 			} else {
-				err = true;
-				errorstr = "libvariant XML PLIST does not allow empty string elements";
-				throw std::runtime_error(errorstr);
+				action->Scalar(this, "", 0, 0, 0);
+				return false;
 			}
 			return true;
 		case BlobNode:
@@ -202,9 +201,8 @@ namespace libvariant {
 		case KeyNode:
 			{
 				if (empty_node) {
-					err = true;
-					errorstr = "libvariant XML PLIST does not allow empty key elements";
-					throw std::runtime_error(errorstr);
+					action->Scalar(this, "", 0, 0, 0);
+					return false;
 				}
 				statestack.push_back(nodetype);
 				empty = true;
-- 
2.43.0


From 8497d002339ae3ab35c633914ebfe97dc11194cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:54 +0000
Subject: [PATCH 039/114] fix: resetting a property list parser forgets open
 elements

---
 src/XMLPLISTParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 37c4ebc..bd2e81d 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -393,7 +393,7 @@ namespace libvariant {
 		if (!reader) {
 			HandleError("xmlReaderForIO");
 		}
-		statestack.push_back(StartState);
+		statestack.assign(1, StartState);
 		closed = false;
 		err = false;
 
-- 
2.43.0


From c65f81f9c8446d239f0d5a8c8eb2efa0e0e6a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:52:54 +0000
Subject: [PATCH 040/114] fix: a map that ends after a key is rejected

---
 src/VariantParsing.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index df40f43..3fb5f79 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -154,6 +154,7 @@ namespace libvariant {
 
 		virtual void EndMap(ParserImpl *p) {
 			DBTRACE("EndMap");
+			if (!expect_key) { throw std::runtime_error("Map ends after a key without a value"); }
 		   	Finish(p);
 	   	}
 
-- 
2.43.0


From d1fa9d53a472c3700dfe2acba4b31eaa6f25c6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:41 +0000
Subject: [PATCH 041/114] fix: the zero byte before a payload is written after
 a short write

---
 src/Payload.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 4787b82..cdadd51 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -175,7 +175,7 @@ namespace libvariant {
 		std::vector<char> buf(num, '\n');
 		buf.push_back('\0');
 		unsigned written = 0;
-		while (written < num) {
+		while (written < buf.size()) {
 			written += out->Write(&buf[written], buf.size() - written);
 		}
 
-- 
2.43.0


From 2f1132db57f19624a1956be881a81f324ac3f71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:41 +0000
Subject: [PATCH 042/114] fix: a payload length inside a list is written

---
 src/Payload.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index cdadd51..3828149 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -75,8 +75,8 @@ namespace libvariant {
 					   	(on_data ? data_i + 1 : data_i), on_data,
 					   	state);
 			}
-			if (on_len_path && len_i->AsUnsigned() < index) {
-				while (len_i->AsUnsigned() < index) {
+			if (on_len_path && len_i->AsUnsigned() >= index) {
+				while (len_i->AsUnsigned() > index) {
 					state.e.EmitNull();
 					++index;
 				}
-- 
2.43.0


From b39f534a0e8dbd312faf8822cb12cabbe1f22ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:41 +0000
Subject: [PATCH 043/114] fix: payload headers are not read beyond the end of
 the input

---
 src/Payload.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 3828149..28c588d 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -215,7 +215,7 @@ namespace libvariant {
 		const void *retptr = base_input->GetPtr(len);
 		if (retptr) {
 			const char *ptr = (const char*)retptr;
-			if (ptr[scanned_to] != '\0') {
+			if (scanned_to < len && ptr[scanned_to] != '\0') {
 				scanned_to += strnlen(&ptr[scanned_to], len-scanned_to);
 
 			}
-- 
2.43.0


From 4177b540d938bf15010441f54e4e27a546fa62de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:03:41 +0000
Subject: [PATCH 044/114] fix: a short read is not the end of a stream and a
 long request reads what there is

---
 src/ParserInput.cc | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/src/ParserInput.cc b/src/ParserInput.cc
index aca5ec8..493e542 100644
--- a/src/ParserInput.cc
+++ b/src/ParserInput.cc
@@ -55,20 +55,15 @@ namespace libvariant {
 			len = num;
 			return &buffer[offset];
 		}
-		if (len + offset > buffer.size()) {
-			if (len > buffer.size()) {
-				std::vector<char> newbuffer(len);
-				memmove(&newbuffer[0], &buffer[offset], num);
-				std::swap(newbuffer, buffer);
-			} else {
-				memmove(&buffer[0], &buffer[offset], num);
-			}
-			offset = 0;
-		}
 		while (!eof && (num < len || num == 0)) {
-			unsigned to_read = buffer.size() - num - offset;
-			unsigned num_read = Read(&buffer[num + offset], to_read);
-			if (num_read < to_read) { eof = true; }
+			if (num + offset >= buffer.size()) {
+				// only as much as there is to read, whatever was asked for
+				if (offset > 0) { memmove(&buffer[0], &buffer[offset], num); }
+				else { buffer.resize(buffer.size()*2 + 1); }
+				offset = 0;
+			}
+			unsigned num_read = Read(&buffer[num + offset], buffer.size() - num - offset);
+			if (num_read == 0) { eof = true; }
 			num += num_read;
 		}
 		len = num;
-- 
2.43.0


From 8bf6c3212b3adcfb1fc88bd26edc471705241833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:52 +0000
Subject: [PATCH 045/114] fix: the last line of a bundle header may lack its
 newline

---
 src/BundleHdrParser.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index 6030449..554f194 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -19,6 +19,9 @@ namespace libvariant {
 		unsigned len = 0;
 		while (true) {
 			line = (const char *)input->GetPtr(len);
+			if (line && line_len == len && len > 0) {
+				return; // last line without a newline
+			}
 			if (!line || line_len == len) {
 				line = 0;
 				return;
@@ -33,7 +36,9 @@ namespace libvariant {
 	}
 
 	void BundleHdrParserImpl::RetireLine() {
-		input->Release(line_len + 1);
+		unsigned len = line_len + 1;
+		input->GetPtr(len);
+		input->Release(std::min(len, line_len + 1));
 		line = 0;
 		line_len = 0;
 	}
@@ -47,7 +52,7 @@ namespace libvariant {
 		const char *e = line + line_len;
 		key.clear();
 		value.clear();
-		while (isspace(*c) && c != e) { ++c; }
+		while (c != e && isspace(*c)) { ++c; }
 		loop = true;
 		while (loop && c != e) {
 			switch (*c) {
@@ -65,12 +70,12 @@ namespace libvariant {
 			}
 		}
 		key.push_back('\0');
-		while (isspace(*c) && c != e) { ++c; }
-		if (*c != ':') {
+		while (c != e && isspace(*c)) { ++c; }
+		if (c == e || *c != ':') {
 			return false;
 		}
 		++c;
-		while (isspace(*c) && c != e) { ++c; }
+		while (c != e && isspace(*c)) { ++c; }
 		while (c != e && *c != '#') {
 			value.push_back(*c);
 			++c;
-- 
2.43.0


From 93eff3a4b16e0cb3f574797cf7da1abfe1143d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:52 +0000
Subject: [PATCH 046/114] fix: white space after a bundle header list does not
 make it a scalar

---
 src/BundleHdrParser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index 554f194..e3eb5f8 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -132,7 +132,8 @@ namespace libvariant {
 				{
 					char *list_context = 0;
 					int i = 0;
-					bool bar_at_end = (value.size() > 1 && value[value.size()-2] == '|');
+					unsigned value_len = strlen(&value[0]);
+					bool bar_at_end = (value_len > 0 && value[value_len-1] == '|');
 					while (true) {
 						char *v = strtok_r((i == 0 ? &value[0] : 0), "|", &list_context);
 						if (!v) {
-- 
2.43.0


From 702fc5f51b2aaa7eb3b1a1f64c4da4ca62ffe9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:52 +0000
Subject: [PATCH 047/114] fix: guessing the format of white space stays inside
 the input

---
 src/GuessFormat.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/GuessFormat.cc b/src/GuessFormat.cc
index d37734e..c55cde3 100644
--- a/src/GuessFormat.cc
+++ b/src/GuessFormat.cc
@@ -22,7 +22,10 @@ namespace libvariant {
 			if (i >= len) {
 				unsigned l = i+1;
 				ptr = (const char*)in->GetPtr(l);
-				if (!ptr) {
+				if (!ptr || l <= i) {
+#ifdef ENABLE_YAML
+					return SERIALIZE_YAML;
+#endif
 					throw std::runtime_error(
 							"libvariant::GuessFormat: Unable to guess input format, unexpected end of input."
 							);
-- 
2.43.0


From 0a8c36ae67a39809620008a87427342fb5a7f1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:08:18 +0000
Subject: [PATCH 048/114] fix: the payload length is not lost when null or a
 scalar is in its way

---
 src/Payload.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/Payload.cc b/src/Payload.cc
index 28c588d..b261c04 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -35,6 +35,13 @@ namespace libvariant {
 			state.e.EmitNull();
 			return;
 		}
+		if (on_len_path && !v.IsList() && !v.IsMap()) {
+			// null becomes the container of the length, SetPath refuses anything else
+			Variant tmp(v);
+			tmp.SetPath(Path(len_i, state.len_end), state.payload_len);
+			state.e << tmp;
+			return;
+		}
 
 		bool output_len = false;
 		unsigned index = 0;
-- 
2.43.0


From 6cc33fbc34ab7b47b0c0ee3ab0a6f9e552761504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:23:36 +0000
Subject: [PATCH 049/114] fix: nothing is written after the payload of an XML
 property list

---
 src/Payload.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index b261c04..b8233ba 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -175,7 +175,7 @@ namespace libvariant {
 		emitter.BeginDocument();
 		PayloadEmit(v, lpath.begin(), true, dpath.begin(), true, state);
 		emitter.EndDocument();
-		emitter.Flush();
+		emitter.Close();
 
 		// plus 1 because we want a payload to be aligned when adding 1 null byte
 		unsigned num = PADDING_MOD - (out->NumBytesWritten() + 1) % PADDING_MOD;
-- 
2.43.0


From 3bce48f884325a13fd99cf611122dd3ad201b052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:12 +0000
Subject: [PATCH 050/114] fix: an output that takes no more bytes is an error,
 not an endless loop

---
 include/Variant/EmitterOutput.h |  3 +++
 src/BundleHdrEmitter.h          |  5 +----
 src/EmitterOutput.cc            | 11 +++++++++++
 src/JSONEmitter.cc              | 13 ++++---------
 src/Payload.cc                  | 13 ++-----------
 5 files changed, 21 insertions(+), 24 deletions(-)

diff --git a/include/Variant/EmitterOutput.h b/include/Variant/EmitterOutput.h
index ffc5b1e..e3642f2 100644
--- a/include/Variant/EmitterOutput.h
+++ b/include/Variant/EmitterOutput.h
@@ -36,6 +36,9 @@ namespace libvariant {
 		virtual unsigned Write(const void *ptr, unsigned len) = 0;
 		virtual void Flush() {}
 		virtual unsigned NumBytesWritten() const = 0;
+
+		/// Write everything, throw if the output takes no more
+		void WriteAll(const void *ptr, unsigned len);
 	};
 
 	class EmitterFileOutput : public EmitterOutput {
diff --git a/src/BundleHdrEmitter.h b/src/BundleHdrEmitter.h
index 04b1a2b..7ad0ae4 100644
--- a/src/BundleHdrEmitter.h
+++ b/src/BundleHdrEmitter.h
@@ -95,10 +95,7 @@ namespace libvariant {
 		}
 
 		void Write(const char *str, unsigned len) {
-			unsigned num_written = 0;
-			while (num_written < len) {
-				num_written += output->Write(str + num_written, len - num_written);
-			}
+			output->WriteAll(str, len);
 		}
 
 		shared_ptr<EmitterOutput> output;
diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index 5645c9d..1975398 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -29,6 +29,17 @@ namespace libvariant {
 
 	EmitterOutput::~EmitterOutput() {}
 
+	void EmitterOutput::WriteAll(const void *ptr, unsigned len) {
+		unsigned written = 0;
+		while (written < len) {
+			unsigned num = Write((const char*)ptr + written, len - written);
+			if (num == 0) {
+				throw std::runtime_error("Emitter output does not take any more bytes.");
+			}
+			written += num;
+		}
+	}
+
 	EmitterFileOutput::EmitterFileOutput(FILE *f, bool c) : file(f), num_bytes(0), cls(c) {}
 
 	EmitterFileOutput::~EmitterFileOutput() {
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 663d9a2..a3d38f7 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -154,11 +154,9 @@ namespace libvariant {
 
 	void JSONEmitterImpl::Flush() {
 		if (buffer_len > 0) {
-			unsigned num_written = 0;
-			while (num_written < buffer_len) {
-				num_written += output->Write(&buffer[num_written], buffer_len - num_written);
-			}
-			buffer_len = 0;
+			unsigned len = buffer_len;
+			buffer_len = 0; // whatever happens, it is not written again
+			output->WriteAll(&buffer[0], len);
 		}
 		output->Flush();
 	}
@@ -284,10 +282,7 @@ namespace libvariant {
 	void JSONEmitterImpl::EmitRaw(const char *text, unsigned len) {
 		if (len > BUFFER_THRESHOLD) {
 			Flush();
-			unsigned num_written = 0;
-			while (num_written < len) {
-				num_written += output->Write(&text[num_written], len - num_written);
-			}
+			output->WriteAll(text, len);
 		} else {
 			if (len + buffer_len > MAX_BUFFER_LEN) {
 				Flush();
diff --git a/src/Payload.cc b/src/Payload.cc
index b8233ba..0e528c2 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -181,21 +181,12 @@ namespace libvariant {
 		unsigned num = PADDING_MOD - (out->NumBytesWritten() + 1) % PADDING_MOD;
 		std::vector<char> buf(num, '\n');
 		buf.push_back('\0');
-		unsigned written = 0;
-		while (written < buf.size()) {
-			written += out->Write(&buf[written], buf.size() - written);
-		}
+		out->WriteAll(&buf[0], buf.size());
 
 		if (payload_exists && !ignore_payload) {
 			unsigned num_slabs = blob->GetNumBuffers();
 			for (unsigned slab = 0; slab < num_slabs; ++slab) {
-				unsigned to_write = blob->GetLength(slab);
-				char *ptr = (char*)blob->GetPtr(slab);
-				while (to_write > 0) {
-					unsigned num = out->Write(ptr, to_write);
-					ptr += num;
-					to_write -= num;
-				}
+				out->WriteAll(blob->GetPtr(slab), blob->GetLength(slab));
 			}
 			out->Flush();
 		}
-- 
2.43.0


From b7c27943867a10ffa2465b9c6fefbc7a901ace12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:12 +0000
Subject: [PATCH 051/114] fix: output lost when flushing is reported

---
 src/EmitterOutput.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index 1975398..ac66ca0 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -56,7 +56,9 @@ namespace libvariant {
 	}
 
 	void EmitterFileOutput::Flush() {
-	   	fflush(file);
+		if (fflush(file) != 0) {
+			throw std::runtime_error("Error writing to file.");
+		}
    	}
 
 	EmitterFilenameOutput::EmitterFilenameOutput(const char *filename, const char *mode)
@@ -87,7 +89,9 @@ namespace libvariant {
 	}
 
 	void EmitterStreambufOutput::Flush() {
-	   	streambuf->pubsync();
+		if (streambuf->pubsync() == -1) {
+			throw std::runtime_error("Error writing to stream.");
+		}
    	}
 
 	EmitterMemoryOutput::EmitterMemoryOutput(void *ptr, unsigned len, unsigned *out_len)
-- 
2.43.0


From 1079e3df5773c9a59846f3ce1f7b523aca44f954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:12 +0000
Subject: [PATCH 052/114] fix: memory output starts at the beginning of the
 block

---
 src/EmitterOutput.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index ac66ca0..c291e2b 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -100,6 +100,7 @@ namespace libvariant {
 		if (0 == out_length) {
 			out_length = &out_length_dummy;
 		}
+		*out_length = 0;
 	}
 
 	unsigned EmitterMemoryOutput::Write(const void *ptr, unsigned len) {
-- 
2.43.0


From 26fee8a1190de9c75af13988e80c14c267cda4c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:12 +0000
Subject: [PATCH 053/114] fix: an output failing again in an emitter's
 destructor does not end the process

---
 src/BundleHdrEmitter.cc | 3 ++-
 src/JSONEmitter.cc      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index d7db891..0cdddfc 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -22,7 +22,8 @@ namespace libvariant {
 
 
 	BundleHdrEmitterImpl::~BundleHdrEmitterImpl() {
-		Close();
+		try { Close(); }
+		catch (...) {}
 	}
 
 
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index a3d38f7..6bb5657 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -52,7 +52,8 @@ namespace libvariant {
 	}
 
 	JSONEmitterImpl::~JSONEmitterImpl() {
-		Close();
+		try { Close(); }
+		catch (...) {}
 	}
 
 	void JSONEmitterImpl::BeginDocument() {
-- 
2.43.0


From f6674c52c41801281deeb5c3f29ee7b6f2dee1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:12 +0000
Subject: [PATCH 054/114] fix: YAML output is complete after short writes and
 failures are reported

---
 src/YAMLEmitter.cc | 16 +++++++++++-----
 src/YAMLEmitter.h  |  1 +
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 186eff8..8fef84c 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -32,7 +32,9 @@ namespace libvariant {
 
 	static int WriteHandler(void *data, unsigned char *buffer, size_t size) {
 		EmitterOutput *out = (EmitterOutput*)data;
-		return out->Write((const void*)buffer, size);
+		try { out->WriteAll(buffer, size); }
+		catch (const std::exception &) { return 0; }
+		return 1;
 	}
 
 	static const char *param_keys[] = { "scalar_style", "map_style", "list_style",
@@ -176,7 +178,7 @@ namespace libvariant {
 
 
 	YAMLEmitterImpl::YAMLEmitterImpl(shared_ptr<EmitterOutput> o, Variant params)
-		:out(o), closed(false), in_document(false), conf(params)
+		:out(o), closed(false), failed(false), in_document(false), conf(params)
 	{
 		if (yaml_emitter_initialize(&emitter) == 0) {
 			throw std::runtime_error("Unable to initialize YAMLEmitter.");
@@ -196,8 +198,10 @@ namespace libvariant {
 	}
 
 	YAMLEmitterImpl::~YAMLEmitterImpl() {
-		try { Close(); }
-		catch (const std::runtime_error &) {}
+		try {
+			if (!failed) { Close(); }
+		} catch (...) {}
+		if (!closed) { yaml_emitter_delete(&emitter); }
 	}
 
 	void YAMLEmitterImpl::BeginDocument() {
@@ -358,8 +362,10 @@ namespace libvariant {
 	void YAMLEmitterImpl::Flush() {
 		CheckClosed();
 		if (yaml_emitter_flush(&emitter) == 0) {
+			failed = true;
 			throw std::runtime_error(emitter.problem);
 		}
+		out->Flush();
 	}
 
 	void YAMLEmitterImpl::Close() {
@@ -403,7 +409,7 @@ namespace libvariant {
 
 	void YAMLEmitterImpl::Emit(yaml_event_t &event) {
 		if (yaml_emitter_emit(&emitter, &event) == 0) {
-			yaml_event_delete(&event);
+			failed = true; // the event is in the emitter's queue and deleted with it
 			throw std::runtime_error(emitter.problem);
 		}
 	}
diff --git a/src/YAMLEmitter.h b/src/YAMLEmitter.h
index a01250d..a80c5f5 100644
--- a/src/YAMLEmitter.h
+++ b/src/YAMLEmitter.h
@@ -161,6 +161,7 @@ namespace libvariant {
 		shared_ptr<EmitterOutput> out;
 		yaml_emitter_t emitter;
 		bool closed;
+		bool failed;
 		bool in_document;
 		Config conf;
 	};
-- 
2.43.0


From 420b678abf7a040be3fb4692e19c527036cd6ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:29:12 +0000
Subject: [PATCH 055/114] fix: XML output is complete after short writes and
 failures are reported

---
 src/XMLPLISTEmitter.cc | 15 +++++++++++----
 src/XMLPLISTEmitter.h  |  1 +
 src/YAMLEmitter.cc     |  2 +-
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 015b6ed..bdf7578 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -31,18 +31,25 @@ namespace libvariant {
 
 	int XMLPLISTEmitterImpl::DoWrite(void *ctx, const char *buffer, int len) {
 		XMLPLISTEmitterImpl *impl = (XMLPLISTEmitterImpl*)ctx;
-		return impl->output->Write(buffer, len);
+		if (impl->failed) { return -1; }
+		try { impl->output->WriteAll(buffer, len); }
+		catch (...) {
+			impl->failed = true;
+			return -1;
+		}
+		return len;
 	}
 
 	int XMLPLISTEmitterImpl::DoClose(void *ctx) {
 		XMLPLISTEmitterImpl *impl = (XMLPLISTEmitterImpl*)ctx;
-		impl->output->Flush();
+		try { impl->output->Flush(); }
+		catch (...) { return -1; }
 		return 0;
 	}
 
 	XMLPLISTEmitterImpl::XMLPLISTEmitterImpl(shared_ptr<EmitterOutput> out, Variant params)
 		: output(out), pretty(false), indent(4),
-			precision(std::numeric_limits<double>::digits10+2), closed(false)
+			precision(std::numeric_limits<double>::digits10+2), closed(false), failed(false)
 	{
 		if (params.IsMap()) {
 			params.GetInto(pretty, "pretty", pretty);
@@ -168,7 +175,7 @@ namespace libvariant {
 
 	void XMLPLISTEmitterImpl::Flush() {
 		CheckClosed();
-		if (xmlTextWriterFlush(writer) < 0) {
+		if (xmlTextWriterFlush(writer) < 0 || failed) {
 			HandleError("xmlTextWriterFlush");
 		}
 		output->Flush();
diff --git a/src/XMLPLISTEmitter.h b/src/XMLPLISTEmitter.h
index 8e27943..c619617 100644
--- a/src/XMLPLISTEmitter.h
+++ b/src/XMLPLISTEmitter.h
@@ -126,6 +126,7 @@ namespace libvariant {
 		unsigned indent;
 		unsigned precision;
 		bool closed;
+		bool failed;
 		std::deque<State> state;
 	};
 }
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 8fef84c..7523f35 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -33,7 +33,7 @@ namespace libvariant {
 	static int WriteHandler(void *data, unsigned char *buffer, size_t size) {
 		EmitterOutput *out = (EmitterOutput*)data;
 		try { out->WriteAll(buffer, size); }
-		catch (const std::exception &) { return 0; }
+		catch (...) { return 0; }
 		return 1;
 	}
 
-- 
2.43.0


From c8a0247724433bea8084f5925928929ea2249728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:56 +0000
Subject: [PATCH 056/114] fix: a default constructed blob in a header or as
 payload is an empty blob

---
 src/Payload.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 0e528c2..e7a8b7d 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -129,7 +129,7 @@ namespace libvariant {
 			state.e.EndMap();
 			break;
 		case Variant::BlobType:
-			state.e << v.AsBlob();
+			state.e << v;
 			break;
 		default:
 			throw UnknownTypeError(v.GetType());
@@ -158,6 +158,7 @@ namespace libvariant {
 		BlobPtr blob;
 		if (payload_exists) {
 			blob = v.GetPath(dpath).AsBlob();
+			if (!blob) { blob = Blob::CreateCopy("", 0); }
 			payload_length = blob->GetTotalLength();
 		} else if (ignore_payload) {
 			payload_length = v.GetPath(lpath, 0).AsUnsigned();
-- 
2.43.0


From f7e8e3577f680554592499114a86d6f7f532555a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:58:56 +0000
Subject: [PATCH 057/114] fix: output lost when flushing a header without
 payload is reported

---
 src/Payload.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index e7a8b7d..ee1e61d 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -189,8 +189,8 @@ namespace libvariant {
 			for (unsigned slab = 0; slab < num_slabs; ++slab) {
 				out->WriteAll(blob->GetPtr(slab), blob->GetLength(slab));
 			}
-			out->Flush();
 		}
+		out->Flush();
 	}
 
 	class ProxyInput : public ParserInput {
-- 
2.43.0


From ecd37f2e2c65aa194162d5ad10022f947b1e18c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:03:46 +0000
Subject: [PATCH 058/114] fix: deep indentation into an output that takes no
 more bytes is an error, not an endless loop

---
 src/JSONEmitter.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 6bb5657..4b72c44 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -231,7 +231,9 @@ namespace libvariant {
 			memset(&buffer[buffer_len], ' ', BUFFER_THRESHOLD);
 			unsigned num_written = 0;
 			while (num_written < indent) {
-				num_written += output->Write(&buffer[buffer_len], min(indent - num_written, BUFFER_THRESHOLD));
+				unsigned num = min(indent - num_written, BUFFER_THRESHOLD);
+				output->WriteAll(&buffer[buffer_len], num);
+				num_written += num;
 			}
 		} else {
 			if (indent + buffer_len > MAX_BUFFER_LEN) {
-- 
2.43.0


From 1cc38da34a47301ad4a036dd28d2a6d649ca6647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:20 +0000
Subject: [PATCH 059/114] fix: an alias denotes the most recent anchor of its
 name

---
 src/VariantParsing.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 3fb5f79..d4a2625 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -49,7 +49,7 @@ namespace libvariant {
 		{}
 
 		void Anchor(const char *anchor, Variant v) {
-			if (anchor) { anchors.insert(std::make_pair(std::string(anchor), v)); }
+			if (anchor) { anchors[anchor] = v; }
 		}
 
 		Variant Anchor(const char *anchor) {
@@ -124,7 +124,9 @@ namespace libvariant {
 			// finishing the base may delete this object
 			done = true;
 			if (base) {
-				base->SetValue(p, result, (anchor.empty() ? 0 : anchor.c_str()));
+				// an anchor of the same name inside comes later and stays
+				if (!anchor.empty()) { state->anchors.insert(std::make_pair(anchor, result)); }
+				base->SetValue(p, result, 0);
 			} else {
 				state->result = result;
 			}
@@ -176,7 +178,10 @@ namespace libvariant {
 	void VariantBaseParserActions::BeginMap(ParserImpl *p, int length, const char *anchor, const char *tag) {
 		DBTRACE("BeginMap(" << ANCHOR << ", " << TAG << ")");
 		shared_ptr<VariantMapParserActions> actions(new VariantMapParserActions(state, this));
-		if (anchor) { actions->anchor = anchor; }
+		if (anchor) {
+			actions->anchor = anchor;
+			state->anchors.erase(anchor);
+		}
 		p->PushAction(actions);
 	}
 
@@ -203,7 +208,10 @@ namespace libvariant {
 	void VariantBaseParserActions::BeginList(ParserImpl *p, int length, const char *anchor, const char *tag) {
 		DBTRACE("BeginList(" << ANCHOR << ", " << TAG << ")");
 		shared_ptr<VariantListParserActions> actions(new VariantListParserActions(state, this));
-		if (anchor) { actions->anchor = anchor; }
+		if (anchor) {
+			actions->anchor = anchor;
+			state->anchors.erase(anchor);
+		}
 		p->PushAction(actions);
 	}
 
-- 
2.43.0


From e7f33f01661f395014bc9f2a56dbd8ff34d4c269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:20 +0000
Subject: [PATCH 060/114] fix: an alias may refer to an anchored key

---
 src/VariantParsing.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index d4a2625..548b616 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -162,6 +162,7 @@ namespace libvariant {
 
 		virtual void SetValue(ParserImpl *p, Variant v, const char *anchor) {
 			if (expect_key) {
+				state->Anchor(anchor, v);
 				key = v.AsString();
 				expect_key = false;
 			} else {
-- 
2.43.0


From f08e941950b98b8eaed9e2e49b775c10c5f1a2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:20 +0000
Subject: [PATCH 061/114] fix: a parser does not keep actions of a document
 that ended early

---
 src/VariantParsing.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index 548b616..a6aa664 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -220,7 +220,14 @@ namespace libvariant {
 		ParserState state;
 		shared_ptr<VariantBaseParserActions> actions(new VariantBaseParserActions(&state, 0));
 		p.PushAction(actions);
-		while (p.Run() == 0 && !actions->done);
+		try {
+			while (p.Run() == 0 && !actions->done);
+		} catch (...) {
+			// none of these actions may outlive the state they refer to
+			while (!actions->done && p.PopAction() != actions);
+			throw;
+		}
+		while (!actions->done && p.PopAction() != actions);
 		return state.result;
 	}
 
-- 
2.43.0


From dd3a3404338e4e89a51a5cb86d699a11aa1d9637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:10:43 +0000
Subject: [PATCH 062/114] fix: a stream without documents delivers no document

---
 src/VariantParsing.cc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/VariantParsing.cc b/src/VariantParsing.cc
index a6aa664..5dfc8d4 100644
--- a/src/VariantParsing.cc
+++ b/src/VariantParsing.cc
@@ -216,7 +216,8 @@ namespace libvariant {
 		p->PushAction(actions);
 	}
 
-	Variant ParseVariant(Parser &p) {
+	// returns whether there was a document
+	static bool ParseDocument(Parser &p, Variant &result) {
 		ParserState state;
 		shared_ptr<VariantBaseParserActions> actions(new VariantBaseParserActions(&state, 0));
 		p.PushAction(actions);
@@ -227,8 +228,16 @@ namespace libvariant {
 			while (!actions->done && p.PopAction() != actions);
 			throw;
 		}
+		bool found = actions->done;
 		while (!actions->done && p.PopAction() != actions);
-		return state.result;
+		result = state.result;
+		return found;
+	}
+
+	Variant ParseVariant(Parser &p) {
+		Variant result;
+		ParseDocument(p, result);
+		return result;
 	}
 
 	Variant Deserialize(const std::string &str, SerializeType type) {
@@ -340,16 +349,15 @@ namespace libvariant {
 	void LoadAllIterator::Next() {
 		if (!value) {
 			if (!impl->parser.Done()) {
-				value = shared_ptr<Value>(new Value(ParseVariant(impl->parser)));
+				Variant v;
+				if (ParseDocument(impl->parser, v)) { value = shared_ptr<Value>(new Value(v)); }
 			}
 		} else if (value->next) {
 			value = value->next;
 		} else {
 			if (!impl->parser.Done()) {
-				value->next = shared_ptr<Value>(new Value(ParseVariant(impl->parser)));
-				if (impl->parser.Done() && value->next->v.IsNull()) {
-					value->next.reset();
-				}
+				Variant v;
+				if (ParseDocument(impl->parser, v)) { value->next = shared_ptr<Value>(new Value(v)); }
 			}
 			value = value->next;
 		}
-- 
2.43.0


From 5c9807484e75f5240a2a0fdba7f3be1f0048d923 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:10 +0000
Subject: [PATCH 063/114] fix: recording goes on in a copy of a recording
 without touching the original

---
 src/EventBuffer.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/EventBuffer.cc b/src/EventBuffer.cc
index 49503c1..3e656e2 100644
--- a/src/EventBuffer.cc
+++ b/src/EventBuffer.cc
@@ -8,6 +8,7 @@
 #include <ctype.h>
 #include <ostream>
 #include <limits>
+#include <map>
 
 namespace libvariant {
 
@@ -126,9 +127,14 @@ namespace libvariant {
 	}
 
 	EventBuffer::EventBuffer(const EventBuffer &eb)
-		: level(eb.level), events(eb.events)
+		: EmitterImpl(), ParserImpl(), level(eb.level), events(eb.events)
 	{
-
+		// the parents are the copied events, not those of the other buffer
+		std::map<const Event*, Event*> copies;
+		for (unsigned i = 0; i < events.size(); ++i) {
+			copies[&eb.events[i]] = &events[i];
+			if (events[i].parent) { events[i].parent = copies[events[i].parent]; }
+		}
 	}
 
 	EventBuffer::~EventBuffer() {}
-- 
2.43.0


From e8ed02a6feb56976924fdd1d11a14479063e2d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:19:42 +0000
Subject: [PATCH 064/114] fix: copying a recorded scalar event does not read an
 uninitialised flag

---
 src/EventBuffer.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/EventBuffer.h b/src/EventBuffer.h
index b38a447..43c3440 100644
--- a/src/EventBuffer.h
+++ b/src/EventBuffer.h
@@ -82,12 +82,12 @@ namespace libvariant {
 		struct Event {
 			Event(EventType_t t, Event *p) : type(t), parent(p), key(true) { val.len = 0; }
 
-			Event(Event *p, const char *str) : type(SCALAR_STRING), parent(p), s(str) {}
-			Event(Event *p, intmax_t v) : type(SCALAR_INT), parent(p) { val.i = v; }
-			Event(Event *p, uintmax_t v) : type(SCALAR_UINT), parent(p) { val.u = v; }
-			Event(Event *p, double v) : type(SCALAR_FLOAT), parent(p) { val.d = v; }
-			Event(Event *p, bool v) : type(SCALAR_BOOL), parent(p) { val.b = v; }
-			Event(Event *p, ConstBlobPtr b) : type(SCALAR_BLOB), parent(p), blob(b) {}
+			Event(Event *p, const char *str) : type(SCALAR_STRING), parent(p), key(true), s(str) {}
+			Event(Event *p, intmax_t v) : type(SCALAR_INT), parent(p), key(true) { val.i = v; }
+			Event(Event *p, uintmax_t v) : type(SCALAR_UINT), parent(p), key(true) { val.u = v; }
+			Event(Event *p, double v) : type(SCALAR_FLOAT), parent(p), key(true) { val.d = v; }
+			Event(Event *p, bool v) : type(SCALAR_BOOL), parent(p), key(true) { val.b = v; }
+			Event(Event *p, ConstBlobPtr b) : type(SCALAR_BLOB), parent(p), key(true), blob(b) {}
 
 		private:
 			void Update() {
-- 
2.43.0


From 9bcc666f9a3ed54971aa818ca1fd34383c265602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:59 +0000
Subject: [PATCH 065/114] fix: end the authority of a URI at the first slash,
 question mark or hash

---
 src/SchemaLoader.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index f688427..2626a68 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -184,15 +184,14 @@ namespace libvariant {
 
 	bool SchemaLoader::ParseURI(URIInfo &info, const std::string &uri) {
 		enum {
-		HREF=0, PROTOCOL, AUTHORITY, USERHOST, HOST,
-		HOSTNAME, PORT, PATHNAME, SEARCH, HASH, MATCHLEN
+		HREF=0, PROTOCOL, AUTHORITY, PATHNAME, SEARCH, HASH, MATCHLEN
 		};
 		static const struct RegexHelper {
 		RegexHelper() {
 			memset(&regex, 0, sizeof(regex_t));
 			int ret = regcomp(&regex,
 "^[[:space:]]*([^:\\/?#]+:)?" // PROTOCOL
-"(//([^:@]*(:[^:@]*)?@)?([^:/?#]*)(:[0-9]*)?)?" // (//((user(:host)@)(hostname)(:port)))
+"(//[^/?#]*)?" // AUTHORITY
 "([^?#]*)" // PATHNAME
 "(\\?[^#]*)?" // SEARCH
 "(#[^[:space:]]*)?[[:space:]]*$" // HASH
-- 
2.43.0


From d6a0777db708f805cd671a8fa48bcdc11c278f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:59 +0000
Subject: [PATCH 066/114] fix: find schemas by URIs with dot segments and a
 fragment

---
 src/SchemaLoader.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 2626a68..c37e4d2 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -118,16 +118,17 @@ namespace libvariant {
 	}
 
 	Variant SchemaLoader::GetSchema(const std::string &uri) {
-		Variant::MapIterator iter = schemas.find(uri);
-		if (iter != schemas.end()) {
-			return iter->second;
-		}
 		std::string baseuri = ResolveURI(uri, "");
 		std::string fragment;
 		std::string::size_type hashIndex = uri.find("#");
 		if (hashIndex != std::string::npos) {
 			fragment = uri.substr(hashIndex + 1);
-			baseuri = uri.substr(0, hashIndex);
+			baseuri = ResolveURI(uri.substr(0, hashIndex), "");
+		}
+		Variant::MapIterator iter = schemas.find(
+				hashIndex != std::string::npos ? baseuri + "#" + fragment : baseuri);
+		if (iter != schemas.end()) {
+			return iter->second;
 		}
 		iter = schemas.find(baseuri);
 		if (iter == schemas.end()) {
-- 
2.43.0


From e661064816b5f000b16fddd7f5ce8ff765481252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:59 +0000
Subject: [PATCH 067/114] fix: forget the schema that was added under an
 unnormalised URI

---
 src/SchemaLoader.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index c37e4d2..17345fa 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -160,7 +160,12 @@ namespace libvariant {
 	}
 
 	void SchemaLoader::ForgetSchema(const std::string &uri) {
-		schemas.erase(uri);
+		std::string::size_type hashIndex = uri.find("#");
+		std::string luri = ResolveURI(uri.substr(0, hashIndex), "");
+		if (hashIndex != std::string::npos && hashIndex + 1 < uri.size()) {
+			luri += uri.substr(hashIndex);
+		}
+		schemas.erase(luri);
 	}
 
 	bool SchemaLoader::HandleMissing(const std::string &uri, LoaderError &error) {
-- 
2.43.0


From 26c02b6ab8a3998dcba2d8cda47ae222909800a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:59 +0000
Subject: [PATCH 068/114] fix: treat defaults as data and properties of any
 name as schemas when resolving references

---
 src/SchemaLoader.cc | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 17345fa..cc88d1b 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -362,6 +362,17 @@ namespace libvariant {
 		return ret;
 	}
 
+	// keywords whose values are data and not schemas
+	static bool IsSchemaData(const std::string &key) {
+		return key == "enum" || key == "default";
+	}
+
+	// keywords whose values are objects with a schema for every name
+	static bool IsSchemaMap(const std::string &key) {
+		return key == "properties" || key == "patternProperties"
+			|| key == "definitions" || key == "dependencies";
+	}
+
 	void SchemaLoader::NormSchema(Variant &schema, const std::string &uri) {
 		std::string baseuri = uri;
 		if (schema.IsMap()) {
@@ -373,7 +384,12 @@ namespace libvariant {
 				schema["$ref"] = ResolveURI(baseuri, schema["$ref"].AsString());
 			} else {
 				for (Variant::MapIterator i(schema.MapBegin()), e(schema.MapEnd()); i != e; ++i) {
-					if (i->first != "enum") {
+					if (IsSchemaData(i->first)) { continue; }
+					if (IsSchemaMap(i->first) && i->second.IsMap()) {
+						for (Variant::MapIterator j(i->second.MapBegin()), je(i->second.MapEnd()); j != je; ++j) {
+							NormSchema(j->second, baseuri);
+						}
+					} else {
 						NormSchema(i->second, baseuri);
 					}
 				}
@@ -405,7 +421,12 @@ namespace libvariant {
 			}
 
 			for (Variant::MapIterator i(schema.MapBegin()), e(schema.MapEnd()); i != e; ++i) {
-				if (i->first != "enum" && i->second.IsMap()) {
+				if (IsSchemaData(i->first)) { continue; }
+				if (IsSchemaMap(i->first) && i->second.IsMap()) {
+					for (Variant::MapIterator j(i->second.MapBegin()), je(i->second.MapEnd()); j != je; ++j) {
+						SearchForTrustedSchemas(m, j->second, uri);
+					}
+				} else {
 					SearchForTrustedSchemas(m, i->second, uri);
 				}
 			}
-- 
2.43.0


From 7f7297173e6fadc44b4918b62c92352d64a189c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:59 +0000
Subject: [PATCH 069/114] fix: find identified schemas inside lists of schemas

---
 src/SchemaLoader.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index cc88d1b..a795240 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -430,6 +430,10 @@ namespace libvariant {
 					SearchForTrustedSchemas(m, i->second, uri);
 				}
 			}
+		} else if (schema.IsList()) {
+			for (Variant::ListIterator i(schema.ListBegin()), e(schema.ListEnd()); i != e; ++i) {
+				SearchForTrustedSchemas(m, *i, uri);
+			}
 		}
 	}
 
-- 
2.43.0


From fa3fb9685753390b1df6936e2cd0a881c74e166a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:34:59 +0000
Subject: [PATCH 070/114] fix: resolve local references in a schema that has an
 identifier

---
 src/SchemaLoader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index a795240..9891c0c 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -409,10 +409,13 @@ namespace libvariant {
 				std::string id = schema["id"].AsString();
 				if (id.substr(0, uri.length()) == uri) {
 					std::string remainder = id.substr(uri.length());
-					if ((uri.length() > 0 && uri[uri.length()-1] == '/')
+					// A schema that was not loaded from anywhere may use any identifier
+					if (uri.empty() || uri[uri.length()-1] == '/'
 							|| remainder[0] == '#'
 							|| remainder[0] == '?')
 					{
+						// An empty fragment names the whole schema
+						if (!id.empty() && id[id.length()-1] == '#') { id.erase(id.length()-1); }
 						if (m.find(id) == m.end()) {
 							m[id] = schema;
 						}
-- 
2.43.0


From bcc51192c5ea026b90d0d634e424f7e9e52b2f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:04 +0000
Subject: [PATCH 071/114] fix: find an identified part of a schema that has
 just been loaded

---
 src/SchemaLoader.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 9891c0c..8fbe35f 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -125,8 +125,8 @@ namespace libvariant {
 			fragment = uri.substr(hashIndex + 1);
 			baseuri = ResolveURI(uri.substr(0, hashIndex), "");
 		}
-		Variant::MapIterator iter = schemas.find(
-				hashIndex != std::string::npos ? baseuri + "#" + fragment : baseuri);
+		std::string fulluri = hashIndex != std::string::npos ? baseuri + "#" + fragment : baseuri;
+		Variant::MapIterator iter = schemas.find(fulluri);
 		if (iter != schemas.end()) {
 			return iter->second;
 		}
@@ -139,6 +139,10 @@ namespace libvariant {
 			if (!HandleMissing(baseuri, err)) {
 				throw std::runtime_error(err.GetErrorMessage());
 			}
+			iter = schemas.find(fulluri);
+			if (iter != schemas.end()) {
+				return iter->second;
+			}
 			iter = schemas.find(baseuri);
 		}
 		if (iter == schemas.end()) {
-- 
2.43.0


From 80436fb51dd775e45c096ca4b7ba56d8a8f3ff29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:40:23 +0000
Subject: [PATCH 072/114] fix: validating and adding defaults leave the schema
 unchanged

---
 src/Schema.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 8ff405c..3270725 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -830,9 +830,13 @@ namespace libvariant {
 			schema["$ref"] = data["$schema"];
 		}
 		if (schema.IsString()) {
+			// Its references have been resolved when it was added
 			schema = lloader.GetSchema(schema.AsString());
+		} else {
+			// Resolving references must not change the schema of the caller
+			schema = schema.Copy();
+			lloader.AddSchema("", schema);
 		}
-		lloader.AddSchema("", schema);
 		SchemaContext ctx(&lloader);
 		try {
 			SchemaValidate(ctx, schema, data);
@@ -887,9 +891,13 @@ namespace libvariant {
 			schema["$ref"] = data["$schema"];
 		}
 		if (schema.IsString()) {
+			// Its references have been resolved when it was added
 			schema = lloader.GetSchema(schema.AsString());
+		} else {
+			// Resolving references must not change the schema of the caller
+			schema = schema.Copy();
+			lloader.AddSchema("", schema);
 		}
-		lloader.AddSchema("", schema);
 		AddSchemaDefaultsImpl(schema, data, &lloader);
 	}
 
-- 
2.43.0


From 504e811d60b036540bd70cf6d290ea1e1d8ea6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:53:38 +0000
Subject: [PATCH 073/114] fix: negative fractions are not multiples of
 everything

---
 src/Schema.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Schema.cc b/src/Schema.cc
index 3270725..91f0699 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -714,6 +714,9 @@ namespace libvariant {
 			long double divisor = multipleof.AsLongDouble();
 			long double tolerance = FLOAT_TOLERANCE;
 
+			// The remainder has the sign of the dividend
+			if (m < 0) { m = -m; }
+
 			if (m > tolerance && std::abs(m - divisor) > tolerance) {
 				std::ostringstream oss;
 				oss << "Value " << data.AsString() << " is not a multiple of " << multipleof.AsString();
-- 
2.43.0


From d3586742beca6fc1f077d2e3895df3d2c9ef7de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:53:38 +0000
Subject: [PATCH 074/114] fix: multipleOf zero is an error of the schema
 instead of a division by zero

---
 src/Schema.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 91f0699..fdd7c70 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -699,7 +699,7 @@ namespace libvariant {
 		}
 		AutoSchemaPath spath(ctx, multkey);
 		Variant multipleof = schema[multkey];
-		if (!multipleof.IsNumber() || multipleof < 0) {
+		if (!multipleof.IsNumber() || multipleof <= 0) {
 			std::ostringstream oss;
 			oss << "\"" << multkey << "\" must be a positive number";
 			ctx.AddSchemaError(oss.str());
-- 
2.43.0


From b3e7b4724b4bbcf315500e2a1c569f0a6eda646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:53:38 +0000
Subject: [PATCH 075/114] fix: validating with a schema that refers to itself
 without end takes no exponential time

---
 src/Schema.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index fdd7c70..3b766c0 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -43,6 +43,15 @@ namespace libvariant {
 		virtual const char *what() const throw() { return "stop validation"; }
 	};
 
+	// Unlike StopValidation this ends the validation as a whole, as otherwise
+	// every alternative on the way would reach the limit again.
+	struct RecursionLimit : public std::exception {
+		RecursionLimit(const SchemaError &e) : error(e) {}
+		virtual ~RecursionLimit() throw() {}
+		virtual const char *what() const throw() { return "recursion limit"; }
+		SchemaError error;
+	};
+
 	struct SchemaContext {
 		SchemaContext(const SchemaContext &o)
 		   	: data_path(o.data_path),
@@ -76,8 +85,7 @@ namespace libvariant {
 			if (depth > RECURSION_LIMIT) {
 				std::ostringstream oss;
 				oss << "SchemaValidate reached recursion limit.";
-				AddSchemaError(oss.str());
-				throw StopValidation();
+				throw RecursionLimit(SchemaError(oss.str(), schema_path));
 			}
 		}
 
@@ -843,7 +851,10 @@ namespace libvariant {
 		SchemaContext ctx(&lloader);
 		try {
 			SchemaValidate(ctx, schema, data);
-		} catch (const StopValidation &) {}
+		} catch (const StopValidation &) {
+		} catch (const RecursionLimit &limit) {
+			ctx.AddSchemaError(limit.error);
+		}
 		return ctx.result;
 	}
 
-- 
2.43.0


From 3f4e2d6c09861079bb7f06f9632b87a509982214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:54:40 +0000
Subject: [PATCH 076/114] fix: negative integers can be multiples of unsigned
 numbers

---
 src/Schema.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 3b766c0..bdd347e 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -713,7 +713,13 @@ namespace libvariant {
 			ctx.AddSchemaError(oss.str());
 			return;
 		}
-		Variant mod = data % multipleof;
+		Variant mod;
+		if (data.IsInt() && data < 0) {
+			// A signed dividend would be taken as unsigned if the divisor is
+			mod = Variant(uintmax_t(0) - uintmax_t(data.AsInt())) % multipleof;
+		} else {
+			mod = data % multipleof;
+		}
 		if (data.IsFloat() || multipleof.IsFloat()) {
 			// We have an issue here of the fact that many numeric values in base 10 are
 			// not exactly represented in binary floating point.
-- 
2.43.0


From 34e7a96f3c7f5d1adcabf9c1c7919df8ec2ed362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:46 +0000
Subject: [PATCH 077/114] fix: adding defaults fills in what a default itself
 leaves out

---
 src/Schema.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index bdd347e..4908a81 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -881,7 +881,6 @@ namespace libvariant {
 		}
 		if (schema.Contains("default") && (!data.Exists() || data.IsNull())) {
 			data = schema["default"].Copy();
-			return;
 		}
 		if (schema.Contains("properties") && (!data.Exists() || data.IsMap())) {
 			for (Variant::MapIterator i(schema["properties"].MapBegin()), e(schema["properties"].MapEnd());
-- 
2.43.0


From 64b4ebb75d80f5a322695a6d6f39e4f5809b82fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:02:46 +0000
Subject: [PATCH 078/114] fix: adding defaults treats null like a missing value
 throughout

---
 src/Schema.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 4908a81..9fbd86b 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -882,14 +882,14 @@ namespace libvariant {
 		if (schema.Contains("default") && (!data.Exists() || data.IsNull())) {
 			data = schema["default"].Copy();
 		}
-		if (schema.Contains("properties") && (!data.Exists() || data.IsMap())) {
+		if (schema.Contains("properties") && (!data.Exists() || data.IsNull() || data.IsMap())) {
 			for (Variant::MapIterator i(schema["properties"].MapBegin()), e(schema["properties"].MapEnd());
 					i != e; ++i)
 			{
 				AddSchemaDefaultsImpl(i->second, data.At(i->first), loader);
 			}
 		}
-		if (schema.Contains("items") && (!data.Exists() || data.IsList())) {
+		if (schema.Contains("items") && (!data.Exists() || data.IsNull() || data.IsList())) {
 			if (schema["items"].IsList()) {
 				for (unsigned i = 0; i < schema["items"].Size(); ++i)
 				{
-- 
2.43.0


From 37fc452c1a584541a08ac5e333945e95ffd3422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:04:39 +0000
Subject: [PATCH 079/114] fix: adding defaults comes to an end when a schema
 refers to itself

---
 src/Schema.cc | 74 ++++++++++++++++++++++++++++++++++++++++++---------
 1 file changed, 61 insertions(+), 13 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 9fbd86b..f8d55de 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -864,20 +864,62 @@ namespace libvariant {
 		return ctx.result;
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader);
+	// References that are being followed and the depth of the data they were met at
+	typedef std::vector< std::pair<std::string, unsigned> > SchemaRefs;
+
+	struct DefaultsContext {
+		DefaultsContext(SchemaLoader *l, Variant data) : loader(l), depth(0), original(data) {}
+
+		// A schema may refer to itself as often as there is data for it, but must
+		// not go on in data that was missing.
+		bool Enter(std::string uri) {
+			if (!uri.empty() && uri[uri.length()-1] == '#') { uri.erase(uri.length()-1); }
+			for (unsigned i = 0; i < refs.size(); ++i) {
+				if (refs[i].first == uri && (original.IsNull() || refs[i].second == depth)) { return false; }
+			}
+			refs.push_back(std::make_pair(uri, depth));
+			return true;
+		}
+
+		void Leave() { refs.pop_back(); }
+
+		SchemaLoader *loader;
+		SchemaRefs refs;
+		unsigned depth;
+		Variant original; // The data at this place before anything was added
+	};
 
-	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, SchemaLoader *loader) {
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, DefaultsContext &ctx);
+
+	void AddSchemaMemberDefaultsImpl(Variant schema, VariantRef data, DefaultsContext &ctx, Variant original) {
+		std::swap(ctx.original, original);
+		ctx.depth += 1;
+		AddSchemaDefaultsImpl(schema, data, ctx);
+		ctx.depth -= 1;
+		std::swap(ctx.original, original);
+	}
+
+	void AddSchemaItemDefaultsImpl(Variant schema, VariantRef data, DefaultsContext &ctx, unsigned i) {
+		bool exists = ctx.original.IsList() && i < ctx.original.Size();
+		AddSchemaMemberDefaultsImpl(schema, data[i], ctx, exists ? Variant(ctx.original[i]) : Variant());
+	}
+
+	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, DefaultsContext &ctx) {
 		if (slist.Exists() && slist.IsList()) {
 			for (Variant::ListIterator i(slist.ListBegin()), e(slist.ListEnd()); i != e; ++i) {
-				AddSchemaDefaultsImpl(*i, data, loader);
+				AddSchemaDefaultsImpl(*i, data, ctx);
 			}
 		}
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader) {
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, DefaultsContext &ctx) {
 		if (!schema.IsMap()) { return; }
 		if (schema.Contains("$ref") && schema["$ref"].IsString()) {
-			AddSchemaDefaultsImpl(loader->GetSchema(schema["$ref"].AsString()), data, loader);
+			std::string ref = schema["$ref"].AsString();
+			if (ctx.Enter(ref)) {
+				AddSchemaDefaultsImpl(ctx.loader->GetSchema(ref), data, ctx);
+				ctx.Leave();
+			}
 		}
 		if (schema.Contains("default") && (!data.Exists() || data.IsNull())) {
 			data = schema["default"].Copy();
@@ -886,38 +928,44 @@ namespace libvariant {
 			for (Variant::MapIterator i(schema["properties"].MapBegin()), e(schema["properties"].MapEnd());
 					i != e; ++i)
 			{
-				AddSchemaDefaultsImpl(i->second, data.At(i->first), loader);
+				bool exists = ctx.original.IsMap() && ctx.original.Contains(i->first);
+				AddSchemaMemberDefaultsImpl(i->second, data.At(i->first), ctx,
+						exists ? Variant(ctx.original[i->first]) : Variant());
 			}
 		}
 		if (schema.Contains("items") && (!data.Exists() || data.IsNull() || data.IsList())) {
 			if (schema["items"].IsList()) {
 				for (unsigned i = 0; i < schema["items"].Size(); ++i)
 				{
-					AddSchemaDefaultsImpl(schema["items"][i], data[i], loader);
+					AddSchemaItemDefaultsImpl(schema["items"][i], data, ctx, i);
 				}
 			} else {
-				AddSchemaDefaultsImpl(schema["items"], data[0], loader);
+				AddSchemaItemDefaultsImpl(schema["items"], data, ctx, 0);
 			}
 		}
-		AddSchemaListDefaultsImpl(schema["allOf"], data, loader);
-		AddSchemaListDefaultsImpl(schema["oneOf"], data, loader);
-		AddSchemaListDefaultsImpl(schema["anyOf"], data, loader);
+		AddSchemaListDefaultsImpl(schema["allOf"], data, ctx);
+		AddSchemaListDefaultsImpl(schema["oneOf"], data, ctx);
+		AddSchemaListDefaultsImpl(schema["anyOf"], data, ctx);
 	}
 
 	void AddSchemaDefaults(Variant schema, VariantRef data, SchemaLoader *loader) {
 		SchemaLoader lloader(loader);
+		std::string uri;
 		if (schema.IsNull() && data.IsMap() && data.Contains("$schema")) {
 			schema["$ref"] = data["$schema"];
 		}
 		if (schema.IsString()) {
 			// Its references have been resolved when it was added
-			schema = lloader.GetSchema(schema.AsString());
+			uri = schema.AsString();
+			schema = lloader.GetSchema(uri);
 		} else {
 			// Resolving references must not change the schema of the caller
 			schema = schema.Copy();
 			lloader.AddSchema("", schema);
 		}
-		AddSchemaDefaultsImpl(schema, data, &lloader);
+		DefaultsContext ctx(&lloader, data.Copy());
+		ctx.Enter(uri);
+		AddSchemaDefaultsImpl(schema, data, ctx);
 	}
 
 	void InsertIndent(std::ostream &os, unsigned indent) {
-- 
2.43.0


From 87d1b9af8036fcc36b0460adfd64e2b33bc585be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:49 +0000
Subject: [PATCH 080/114] fix: Required(false) no longer makes an option
 required

---
 src/ArgParse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 1b8235a..0dac268 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -553,7 +553,7 @@ namespace libvariant {
 	}
 
 	ArgParseOption &ArgParseOption::Required(bool req) {
-		impl->required = true;
+		impl->required = req;
 		return *this;
 	}
 
-- 
2.43.0


From 6ef0eb0c6a84ad007caaf95277d766b3b5537571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:49 +0000
Subject: [PATCH 081/114] fix: parsing a second command line starts without the
 results of the first

---
 src/ArgParse.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 0dac268..816e498 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -946,6 +946,7 @@ namespace libvariant {
 
 	void ArgParseImpl::Parse(int argc, char *const *argv) {
 
+		print_help = print_adv_help = print_config = false;
 		if (add_help) {
 			bool old_conflict = resolve_conflicts;
 			resolve_conflicts = true;
@@ -965,6 +966,7 @@ namespace libvariant {
 			for (optmap_iter i(option_map.begin()), e(option_map.end()); i != e; ++i) {
 				ArgParseOptImpl &o = i->second;
 				int id = i->first;
+				o.result = Variant::NullType;
 				if (o.shortOpt > 0) {
 					shortOpts.append(1, (char)o.shortOpt);
 					if (o.HasArg()) { shortOpts.append(1, ':'); }
-- 
2.43.0


From 44c32beb876b37d805504a04f91363d6315d985c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:49 +0000
Subject: [PATCH 082/114] fix: integer arguments beyond 64 bits are refused

---
 src/ArgParse.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 816e498..7da5bd4 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1523,9 +1523,11 @@ namespace libvariant {
 		{
 			long long val;
 			char *end = 0;
+			errno = 0;
 			val = strtoll(arg, &end, 10);
 			if (val == 0 && end == arg) { ParseArgIntError(arg); }
 			if (arg + len != end) { ParseArgIntError(arg); }
+			if (val == LLONG_MIN && errno == ERANGE) { ParseArgIntError(arg); }
 			if (!(val == LLONG_MAX && errno == ERANGE)) {
 				return Variant(val);
 			}
@@ -1534,9 +1536,11 @@ namespace libvariant {
 		{
 			char *end = 0;
 			unsigned long long val;
+			errno = 0;
 			val = strtoull(arg, &end, 10);
 			if (val == 0 && end == arg) { ParseArgIntError(arg); }
 			if (arg + len != end) { ParseArgIntError(arg); }
+			if (errno == ERANGE) { ParseArgIntError(arg); }
 			return Variant(val);
 		}
 		case Variant::FloatType:
-- 
2.43.0


From d5908df846a10bbb445f81b999a961d8ebd37e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:49 +0000
Subject: [PATCH 083/114] fix: unsigned arguments refuse negative numbers

---
 src/ArgParse.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 7da5bd4..8aa62a9 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1541,6 +1541,8 @@ namespace libvariant {
 			if (val == 0 && end == arg) { ParseArgIntError(arg); }
 			if (arg + len != end) { ParseArgIntError(arg); }
 			if (errno == ERANGE) { ParseArgIntError(arg); }
+			// strtoull negates what follows a minus sign
+			if (val != 0 && strchr(arg, '-')) { ParseArgIntError(arg); }
 			return Variant(val);
 		}
 		case Variant::FloatType:
-- 
2.43.0


From daae06adb7c149ad7481d3c787196fc62beecafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:49 +0000
Subject: [PATCH 084/114] fix: a missing positional argument is refused

---
 src/ArgParse.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 8aa62a9..1213cbc 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -201,6 +201,7 @@ namespace libvariant {
 		void Set(const std::string &key, Variant v) { opt.Set(key, v); }
 		bool HasArg() const { return ArgParseActionHasArg(action); }
 		bool HasResult() { return ArgParseActionHasResult(action); }
+		bool IsRequired() const { return required || opt.Get("minArgs", 0u) > 0u; }
 		void HandleOption(const char *arg) { Handle(ParseArg(arg)); }
 		void Handle(Variant arg);
 		void CheckRequirements(Variant val);
@@ -1675,7 +1676,7 @@ namespace libvariant {
 					}
 				}
 			}
-		} else if (required) {
+		} else if (IsRequired()) {
 			std::ostringstream oss;
 			oss << "Error parsing arguments\n";
 			oss << "Required " << OptName(this) << " missing.";
-- 
2.43.0


From cc1815644c2b6770c0bb4e67fe8d10d303448a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:49 +0000
Subject: [PATCH 085/114] fix: counted options use their default, can be
 required and can be in exclusive groups

---
 src/ArgParse.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 1213cbc..bbf51b2 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -977,7 +977,6 @@ namespace libvariant {
 					{ o.longOpt.c_str(), (o.HasArg() ? 1 : 0), 0, id };
 					longOpts.push_back(tmp_option);
 				}
-				if (o.action == ARGACTION_COUNT) { o.result = 0u; }
 				// Handle environment variables
 				if (o.opt.Contains("env")) {
 					const char *env = getenv(o.opt["env"].AsString().c_str());
@@ -1360,6 +1359,7 @@ namespace libvariant {
 			}
 			break;
 		case ARGACTION_COUNT:
+			if (result.IsNull()) { result = 0u; }
 			if (arg.IsNumber()) {
 				result += arg.AsInt();
 			} else {
@@ -1615,7 +1615,8 @@ namespace libvariant {
 	}
 
 	void ArgParseOptImpl::FinalizeResult() {
-		if (opt.Contains("default") && result.IsNull()) {
+		bool count_zero = action == ARGACTION_COUNT && !opt.Contains("default") && !IsRequired();
+		if ((opt.Contains("default") || count_zero) && result.IsNull()) {
 			bool add_default = true;
 			for (std::set<std::string>::iterator i(groups.begin()), e(groups.end());
 				i != e; ++i)
@@ -1642,7 +1643,11 @@ namespace libvariant {
 					break;
 				case ARGACTION_APPEND:
 					result.Append(opt["default"]);
+					break;
 				case ARGACTION_COUNT:
+					if (count_zero) { result = 0u; }
+					else { result = opt["default"]; }
+					break;
 				case ARGACTION_HELP:
 				case ARGACTION_ADVHELP:
 				case ARGACTION_CONFIG:
-- 
2.43.0


From c6f05d7d9ae043c7ae2dde19eb2941b15ae39577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:22:49 +0000
Subject: [PATCH 086/114] fix: the environment acts like a default for every
 kind of option

---
 src/ArgParse.cc | 69 +++++++++++++++++++++++++++++++++++--------------
 1 file changed, 49 insertions(+), 20 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index bbf51b2..142ce5d 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -192,6 +192,24 @@ namespace libvariant {
 		}
 	}
 
+	static void ParseArgIntError(const char *arg) {
+		std::ostringstream oss;
+		oss << "Error parsing arguments\nUnable to convert \"" << arg << "\" to an integer";
+		throw std::runtime_error(oss.str());
+	}
+
+	static Variant ParseUnsigned(const char *arg) {
+		char *end = 0;
+		unsigned long long val;
+		errno = 0;
+		val = strtoull(arg, &end, 10);
+		if (end == arg || *end != '\0') { ParseArgIntError(arg); }
+		if (errno == ERANGE) { ParseArgIntError(arg); }
+		// strtoull negates what follows a minus sign
+		if (val != 0 && strchr(arg, '-')) { ParseArgIntError(arg); }
+		return Variant(val);
+	}
+
 	//-----------------
 	//
 
@@ -203,6 +221,7 @@ namespace libvariant {
 		bool HasResult() { return ArgParseActionHasResult(action); }
 		bool IsRequired() const { return required || opt.Get("minArgs", 0u) > 0u; }
 		void HandleOption(const char *arg) { Handle(ParseArg(arg)); }
+		void HandleEnv(const char *env);
 		void Handle(Variant arg);
 		void CheckRequirements(Variant val);
 		Variant ParseArg(const char *arg);
@@ -232,6 +251,7 @@ namespace libvariant {
 		ArgParseImpl *impl;
 		Variant opt;
 		Variant result;
+		bool from_env;
 	};
 
 	struct ArgString {
@@ -968,6 +988,7 @@ namespace libvariant {
 				ArgParseOptImpl &o = i->second;
 				int id = i->first;
 				o.result = Variant::NullType;
+				o.from_env = false;
 				if (o.shortOpt > 0) {
 					shortOpts.append(1, (char)o.shortOpt);
 					if (o.HasArg()) { shortOpts.append(1, ':'); }
@@ -980,7 +1001,7 @@ namespace libvariant {
 				// Handle environment variables
 				if (o.opt.Contains("env")) {
 					const char *env = getenv(o.opt["env"].AsString().c_str());
-					if (env) { o.HandleOption(env); }
+					if (env) { o.HandleEnv(env); }
 				}
 			}
 			{
@@ -1314,7 +1335,8 @@ namespace libvariant {
 		advanced(false),
 		impl(i),
 		opt(Variant::MapType),
-		result(Variant::NullType)
+		result(Variant::NullType),
+		from_env(false)
 	{
 		if (path.back().IsString()) {
 			opt["title"] = path.back().AsString();
@@ -1324,7 +1346,31 @@ namespace libvariant {
 		opt["description"] = htxt;
 	}
 
+	void ArgParseOptImpl::HandleEnv(const char *env) {
+		switch (action) {
+		case ARGACTION_STORE_CONST:
+			Handle(Variant::NullType);
+			break;
+		case ARGACTION_STORE_TRUE:
+		case ARGACTION_STORE_FALSE:
+			Handle(ParseBool(env));
+			break;
+		case ARGACTION_COUNT:
+			Handle(ParseUnsigned(env));
+			break;
+		default:
+			HandleOption(env);
+			break;
+		}
+		from_env = true;
+	}
+
 	void ArgParseOptImpl::Handle(Variant arg) {
+		if (from_env) {
+			// the environment is only a default
+			result = Variant::NullType;
+			from_env = false;
+		}
 		switch (action) {
 		case ARGACTION_STORE:
 			CheckRequirements(arg);
@@ -1479,12 +1525,6 @@ namespace libvariant {
 	}
 
 
-	static void ParseArgIntError(const char *arg) {
-		std::ostringstream oss;
-		oss << "Error parsing arguments\nUnable to convert \"" << arg << "\" to an integer";
-		throw std::runtime_error(oss.str());
-	}
-
 	Variant ArgParseOptImpl::ParseArg(const char *arg) {
 
 		class PAction : public ParserActions {
@@ -1534,18 +1574,7 @@ namespace libvariant {
 			}
 		} // Fall through
 		case Variant::UnsignedType:
-		{
-			char *end = 0;
-			unsigned long long val;
-			errno = 0;
-			val = strtoull(arg, &end, 10);
-			if (val == 0 && end == arg) { ParseArgIntError(arg); }
-			if (arg + len != end) { ParseArgIntError(arg); }
-			if (errno == ERANGE) { ParseArgIntError(arg); }
-			// strtoull negates what follows a minus sign
-			if (val != 0 && strchr(arg, '-')) { ParseArgIntError(arg); }
-			return Variant(val);
-		}
+			return ParseUnsigned(arg);
 		case Variant::FloatType:
 		{
 			char *end = 0;
-- 
2.43.0


From c87f2e9686494c1deb54a99978c304ab3fb763e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:24:31 +0000
Subject: [PATCH 087/114] fix: changing a parse result does not change the
 defaults of the parser

---
 src/ArgParse.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 142ce5d..835eb76 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1377,7 +1377,7 @@ namespace libvariant {
 			result = arg;
 			break;
 		case ARGACTION_STORE_CONST:
-			result = opt["const"];
+			result = opt["const"].Copy();
 			break;
 		case ARGACTION_STORE_TRUE:
 			if (arg.IsBool()) {
@@ -1668,10 +1668,10 @@ namespace libvariant {
 				case ARGACTION_STORE_CONST:
 				case ARGACTION_STORE_TRUE:
 				case ARGACTION_STORE_FALSE:
-					result = opt["default"];
+					result = opt["default"].Copy();
 					break;
 				case ARGACTION_APPEND:
-					result.Append(opt["default"]);
+					result.Append(opt["default"].Copy());
 					break;
 				case ARGACTION_COUNT:
 					if (count_zero) { result = 0u; }
-- 
2.43.0


From 1e5414ec6ebc22927dc9af1063fc0edf863aa329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:36 +0000
Subject: [PATCH 088/114] fix: which default of an exclusive group applies does
 not depend on the order of declaration

---
 src/ArgParse.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 835eb76..e50074d 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1057,8 +1057,9 @@ namespace libvariant {
 				throw std::runtime_error("Error parsing arguments\nExtra arguments given.");
 			}
 
-			for (optmap_iter i(option_map.begin()), e(option_map.end()); i != e; ++i) {
-				i->second.FinalizeResult();
+			// in the order of the paths, which a description keeps
+			for (std::map<std::string, int>::iterator i(paths.begin()), e(paths.end()); i != e; ++i) {
+				GetOpt(i->second)->FinalizeResult();
 			}
 			for (group_iter i(groups.begin()), e(groups.end()); i != e; ++i) {
 				i->second.FinalizeResult();
-- 
2.43.0


From 0e2422b46079d90338011ec4c44f9f0f9c3eb5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:36 +0000
Subject: [PATCH 089/114] fix: a description whose groups have positional
 arguments can be merged

---
 src/ArgParse.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index e50074d..9bde3a5 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1221,16 +1221,6 @@ namespace libvariant {
 				AddOption(keypath, shortOpt, longOpt, helptxt, action)->Init(o);
 			}
 		}
-		if (desc.Contains("groups") && desc["groups"].IsMap()) {
-			Variant grps = desc["groups"];
-			for (Variant::MapIterator i(grps.MapBegin()), e(grps.MapEnd());
-					i != e; ++i)
-			{
-				Variant g = i->second;
-				std::string name = i->first;
-				GetGroup(name)->Init(g);
-			}
-		}
 		if (desc.Contains("arguments") && desc["arguments"].IsList()) {
 			Variant args = desc["arguments"];
 			for (Variant::ListIterator i(args.ListBegin()), e(args.ListEnd());
@@ -1244,6 +1234,16 @@ namespace libvariant {
 				AddArgument(keypath, helptxt, action)->Init(o);
 			}
 		}
+		if (desc.Contains("groups") && desc["groups"].IsMap()) {
+			Variant grps = desc["groups"];
+			for (Variant::MapIterator i(grps.MapBegin()), e(grps.MapEnd());
+					i != e; ++i)
+			{
+				Variant g = i->second;
+				std::string name = i->first;
+				GetGroup(name)->Init(g);
+			}
+		}
 	}
 
 	void ArgParseImpl::MergeOptions(Variant opts) {
-- 
2.43.0


From f4b13c9bb22015d92f4b8daa928e6a047da7980b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:36 +0000
Subject: [PATCH 090/114] fix: a parser rebuilt from a description keeps
 refusing negative values for unsigned options

---
 src/ArgParse.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 9bde3a5..4944ae2 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1770,6 +1770,9 @@ namespace libvariant {
 		} else {
 			desc.Set("type", TypeString(type));
 		}
+		if (type == Variant::UnsignedType && (!desc.Contains("minimum") || desc["minimum"] < 0)) {
+			desc.Set("minimum", 0);
+		}
 		if (shortOpt > 0) {
 			desc.Set("shortOption", std::string(1, (char)shortOpt));
 		} else {
-- 
2.43.0


From 99318fa73a66739f32063473555e4d1a1723ed61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:36 +0000
Subject: [PATCH 091/114] fix: the generated schema accepts the default of a
 store_const option

---
 src/ArgParse.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 4944ae2..d1b19ac 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1854,7 +1854,11 @@ namespace libvariant {
 			if (opt.Contains("default")) { s["default"] = opt["default"]; }
 			break;
 		case ARGACTION_STORE_CONST:
-			s["enum"].Append(opt.Get("const"));
+			s["enum"].Append(opt.Get("const", Variant::NullType));
+			if (opt.Contains("default")) {
+				s["default"] = opt["default"];
+				if (opt["default"] != s["enum"][0u]) { s["enum"].Append(opt["default"]); }
+			}
 			break;
 		case ARGACTION_STORE_TRUE:
 		case ARGACTION_STORE_FALSE:
-- 
2.43.0


From 396ed14e719ecdc4f52630adc73726df9e8c6912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:36 +0000
Subject: [PATCH 092/114] fix: the generated schema accepts lists of which only
 some elements are set

---
 src/ArgParse.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index d1b19ac..a49c605 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1835,7 +1835,16 @@ namespace libvariant {
 		unsigned index = i->AsUnsigned();
 		if (!schema.Contains("type")) { schema["type"] = "array"; }
 		if (!schema.Contains("items")) { schema["items"] = Variant::ListType; }
-		GenerateSchema(schema["items"].At(index, Variant::MapType), i+1, e);
+		while (schema["items"].Size() <= index) { schema["items"].Append(Variant::MapType); }
+		GenerateSchema(schema["items"][index], i+1, e);
+		// an element is null when only later ones are set
+		VariantRef item = schema["items"][index];
+		if (item.Contains("type") && !item["type"].IsList()) {
+			Variant type = item["type"];
+			item["type"] = Variant::ListType;
+			item["type"].Append(type).Append("null");
+		}
+		if (item.Contains("enum")) { item["enum"].Append(Variant::NullType); }
 	}
 
 	Variant ArgParseOptImpl::GenerateSchema() const {
-- 
2.43.0


From 068a499c04976529dd2f04ba63b92638f8e4412f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:33:36 +0000
Subject: [PATCH 093/114] fix: the generated schema of an exclusive group
 handles members that are list elements

---
 src/ArgParse.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index a49c605..7ace6fa 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -894,17 +894,18 @@ namespace libvariant {
 	{
 		if (i != e) {
 			if (i->IsString()) {
+				schema["type"] = "object";
 				schema["required"].Append(i->AsString());
 				GroupSchema(schema["properties"][i->AsString()], opt, i+1, e);
 			} else if (i->IsNumber()) {
-				if (!schema.Contains("items")) { schema["items"] = Variant::ListType; }
-				if (schema["items"].Size() < i->AsUnsigned()) {
-					schema["items"].AsList().resize(i->AsUnsigned(), Variant::MapType);
-				}
+				schema["type"] = "array";
+				schema["minItems"] = i->AsUnsigned() + 1;
+				schema["items"] = Variant::ListType;
+				schema["items"].AsList().resize(i->AsUnsigned(), Variant::MapType);
 				GroupSchema(schema["items"][unsigned(i->AsUnsigned())], opt, i+1, e);
 			}
 		} else {
-			schema = Variant::MapType;
+			schema["not"]["type"] = "null";
 		}
 	}
 
-- 
2.43.0


From adfda658188ab5b6d2b9924e93930448c8a22786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:39:34 +0000
Subject: [PATCH 094/114] fix: a parser without advanced options has no option
 for advanced help

---
 src/ArgParse.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 7ace6fa..7e69b6b 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -627,7 +627,7 @@ namespace libvariant {
 
 	ArgParseOption &ArgParseOption::Advanced(bool adv) {
 		impl->advanced = adv;
-		impl->impl->have_advanced = true;
+		if (adv) { impl->impl->have_advanced = true; }
 		return *this;
 	}
 
@@ -665,7 +665,7 @@ namespace libvariant {
 
 	OptionGroup &OptionGroup::Advanced(bool adv) {
 		impl->advanced = adv;
-		impl->impl->have_advanced = true;
+		if (adv) { impl->impl->have_advanced = true; }
 		return *this;
 	}
 
-- 
2.43.0


From 3abfb134a20f8c52842842773bac3f556718135d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:00:42 +0000
Subject: [PATCH 095/114] fix: a JSON parser that has not been run yet is ok

---
 src/JSONParser.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index 2e48a8b..3e2c8c6 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -203,7 +203,7 @@ namespace libvariant {
 	JSONParserImpl::Status_t JSONParserImpl::GetStatus() const { return status; }
 	bool JSONParserImpl::Done() const { return status == S_DONE; }
 	bool JSONParserImpl::Error() const { return status == S_ERROR; }
-	bool JSONParserImpl::Ok() const { return status == S_OK; }
+	bool JSONParserImpl::Ok() const { return status != S_ERROR && status != S_DONE; }
 
 	std::string JSONParserImpl::ErrorStr() const { return errorstr; }
 
-- 
2.43.0


From 467c74b994dd68a3de86710eb97017aba874c9fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:00:42 +0000
Subject: [PATCH 096/114] fix: a JSON parser remembers every error it was
 stopped by

---
 src/JSONParser.cc | 9 +++++++++
 src/JSONParser.h  | 1 +
 2 files changed, 10 insertions(+)

diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index 3e2c8c6..ea94d39 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -163,6 +163,15 @@ namespace libvariant {
 	}
 
 	int JSONParserImpl::Run() {
+		try { return RunActions(); }
+		catch (std::exception &e) {
+			status = S_ERROR;
+			errorstr = e.what();
+			throw;
+		}
+	}
+
+	int JSONParserImpl::RunActions() {
 		while (!action_stack.empty()) {
 			switch (status) {
 			case S_START:
diff --git a/src/JSONParser.h b/src/JSONParser.h
index 8fba1a5..dc0c40d 100644
--- a/src/JSONParser.h
+++ b/src/JSONParser.h
@@ -74,6 +74,7 @@ namespace libvariant {
 		void AllocParser();
 
 		void Parse();
+		int RunActions();
 
 		static int StaticCallback(void *ctx, int type, const struct JSON_value_struct* value);
 
-- 
2.43.0


From c81f8993983c055f83141ad2df0452ca540f41d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:00:42 +0000
Subject: [PATCH 097/114] fix: an XML property list parser knows when it is
 done and when it has failed

---
 src/XMLPLISTParser.cc | 20 +++++++++++++++++---
 src/XMLPLISTParser.h  |  2 ++
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index bd2e81d..6237e35 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -60,6 +60,19 @@ namespace libvariant {
 	}
 
 	int XMLPLISTParserImpl::Run() {
+		if (err) { throw std::runtime_error(errorstr); }
+		try {
+			int ret = RunActions();
+			if (ret == 1) { done = true; }
+			return ret;
+		} catch (std::exception &e) {
+			err = true;
+			errorstr = e.what();
+			throw;
+		}
+	}
+
+	int XMLPLISTParserImpl::RunActions() {
 		while (!action_stack.empty()) {
 			if (closed) { return 1; }
 			bool loop = true;
@@ -352,7 +365,7 @@ namespace libvariant {
 	}
 
 	XMLPLISTParserImpl::XMLPLISTParserImpl(shared_ptr<ParserInput> in)
-		: input(in), closed(false), err(false)
+		: input(in), closed(false), done(false), empty(true), err(false)
    	{
 		reader = xmlReaderForIO(do_read, do_close, this, 0, 0,
 				XML_PARSE_NOENT|XML_PARSE_NOCDATA);
@@ -369,7 +382,7 @@ namespace libvariant {
 	}
 
 	bool XMLPLISTParserImpl::Done() const {
-		return closed;
+		return done;
 	}
 
 	bool XMLPLISTParserImpl::Error() const {
@@ -377,7 +390,7 @@ namespace libvariant {
 	}
 
 	bool XMLPLISTParserImpl::Ok() const {
-		return !closed && !err;
+		return !done && !err;
 	}
 
 	std::string XMLPLISTParserImpl::ErrorStr() const {
@@ -395,6 +408,7 @@ namespace libvariant {
 		}
 		statestack.assign(1, StartState);
 		closed = false;
+		done = false;
 		err = false;
 
 	}
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index 3829449..b81c0e0 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -58,6 +58,7 @@ namespace libvariant {
 		virtual std::string ErrorStr() const;
 		virtual void Reset();
 	private:
+		int RunActions();
 		bool BeginElement(ParserActions *action, State_t nodetype);
 		bool ProcessText(ParserActions *action);
 		bool EndElement(ParserActions *action, State_t nodetype);
@@ -72,6 +73,7 @@ namespace libvariant {
 		xmlTextReaderPtr reader;
 		shared_ptr<ParserInput> input;
 		bool closed;
+		bool done;
 		bool empty;
 		std::string text;
 		bool err;
-- 
2.43.0


From 16ec60d4ae603326e9387b571613cc645c2897a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:00:42 +0000
Subject: [PATCH 098/114] fix: running a YAML parser after an error throws
 instead of looping for ever

---
 src/YAMLParser.cc | 11 +++++++++++
 src/YAMLParser.h  |  1 +
 2 files changed, 12 insertions(+)

diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index 73a03d7..97a9582 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -88,6 +88,17 @@ namespace libvariant {
 	}
 
 	int YAMLParserImpl::Run() {
+		// libyaml delivers empty events for ever after an error
+		if (err) { throw std::runtime_error(errorstr); }
+		try { return RunActions(); }
+		catch (std::exception &e) {
+			err = true;
+			errorstr = e.what();
+			throw;
+		}
+	}
+
+	int YAMLParserImpl::RunActions() {
 		bool loop = true;
 		while (loop && !eof && !action_stack.empty()) {
 			yaml_event_t event;
diff --git a/src/YAMLParser.h b/src/YAMLParser.h
index a1d8f48..5e05af5 100644
--- a/src/YAMLParser.h
+++ b/src/YAMLParser.h
@@ -48,6 +48,7 @@ namespace libvariant {
 		virtual std::string ErrorStr() const;
 		virtual void Reset();
 	private:
+		int RunActions();
 		static int ParserReadHandler(void *data, unsigned char *buffer, size_t size, size_t *sizein);
 		yaml_parser_t parser;
 		shared_ptr<ParserInput> input;
-- 
2.43.0


From 576f2888303c05a2b6cd43b6efb322a331878de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:00:42 +0000
Subject: [PATCH 099/114] fix: a bundle header parser remembers that it has
 failed

---
 src/BundleHdrParser.cc | 20 ++++++++++++++++----
 src/BundleHdrParser.h  |  2 ++
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index e3eb5f8..7756a2a 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -85,6 +85,16 @@ namespace libvariant {
 	}
 
 	int BundleHdrParserImpl::Run() {
+		if (err) { throw std::runtime_error(errorstr); }
+		try { return RunActions(); }
+		catch (std::exception &e) {
+			err = true;
+			errorstr = e.what();
+			throw;
+		}
+	}
+
+	int BundleHdrParserImpl::RunActions() {
 		while (!action_stack.empty()) {
 			switch (state) {
 			case START:
@@ -190,6 +200,7 @@ namespace libvariant {
 		value.clear();
 		list.clear();
 		line_num = 0;
+		err = false;
 	}
 
 	BundleHdrParserImpl::BundleHdrParserImpl(shared_ptr<ParserInput> i)
@@ -197,7 +208,8 @@ namespace libvariant {
 		state(START),
 		line(0),
 		line_len(0),
-		line_num(0)
+		line_num(0),
+		err(false)
 	{}
 
 	BundleHdrParserImpl::~BundleHdrParserImpl() {}
@@ -205,15 +217,15 @@ namespace libvariant {
 	unsigned BundleHdrParserImpl::GetLine() const { return line_num; }
 
 	bool BundleHdrParserImpl::Done() const {
-		return state == STOP;
+		return !err && state == STOP;
 	}
 
 	bool BundleHdrParserImpl::Error() const {
-		return state > STOP;
+		return err;
 	}
 
 	bool BundleHdrParserImpl::Ok() const {
-		return state != STOP;
+		return !err && state != STOP;
 	}
 
 	std::string BundleHdrParserImpl::ErrorStr() const {
diff --git a/src/BundleHdrParser.h b/src/BundleHdrParser.h
index f6bf331..0518e63 100644
--- a/src/BundleHdrParser.h
+++ b/src/BundleHdrParser.h
@@ -49,6 +49,7 @@ namespace libvariant {
 		void ReadLine();
 		void RetireLine();
 		bool ScanLine();
+		int RunActions();
 
 		shared_ptr<ParserInput> input;
 		State_t state;
@@ -58,6 +59,7 @@ namespace libvariant {
 		std::vector<char> value;
 		std::deque<char*> list;
 		unsigned line_num;
+		bool err;
 		std::string errorstr;
 	};
 
-- 
2.43.0


From afb35b52dc64a8fe1550490cc660acaf1e631644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:13:07 +0000
Subject: [PATCH 100/114] fix: parsers remember being stopped by an exception
 of any type

---
 src/BundleHdrParser.cc | 4 ++++
 src/JSONParser.cc      | 4 ++++
 src/XMLPLISTParser.cc  | 4 ++++
 src/YAMLParser.cc      | 4 ++++
 4 files changed, 16 insertions(+)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index 7756a2a..bcb0f3f 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -91,6 +91,10 @@ namespace libvariant {
 			err = true;
 			errorstr = e.what();
 			throw;
+		} catch (...) {
+			err = true;
+			errorstr = "Exception from action...";
+			throw;
 		}
 	}
 
diff --git a/src/JSONParser.cc b/src/JSONParser.cc
index ea94d39..ad1de1f 100644
--- a/src/JSONParser.cc
+++ b/src/JSONParser.cc
@@ -168,6 +168,10 @@ namespace libvariant {
 			status = S_ERROR;
 			errorstr = e.what();
 			throw;
+		} catch (...) {
+			status = S_ERROR;
+			errorstr = "Exception from action...";
+			throw;
 		}
 	}
 
diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 6237e35..30b7d06 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -69,6 +69,10 @@ namespace libvariant {
 			err = true;
 			errorstr = e.what();
 			throw;
+		} catch (...) {
+			err = true;
+			errorstr = "Exception from action...";
+			throw;
 		}
 	}
 
diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index 97a9582..c3dec7f 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -95,6 +95,10 @@ namespace libvariant {
 			err = true;
 			errorstr = e.what();
 			throw;
+		} catch (...) {
+			err = true;
+			errorstr = "Exception from action...";
+			throw;
 		}
 	}
 
-- 
2.43.0


From 5cbf9ca03327d3066d6f7fa1cdb99381eea6185f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:19:09 +0000
Subject: [PATCH 101/114] fix: a YAML emitter tells the styles that have been
 set

---
 src/YAMLEmitter.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 7523f35..ba1b3e5 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -156,11 +156,11 @@ namespace libvariant {
 	Variant YAMLEmitterImpl::Config::GetParam(ConfigKeys index) {
 		switch (index) {
 		case SCALAR_STYLE:
-			return scalar_style_str[index];
+			return scalar_style_str[default_scalar_style];
 		case MAP_STYLE:
-			return style_str[index];
+			return style_str[default_map_style];
 		case LIST_STYLE:
-			return style_str[index];
+			return style_str[default_list_style];
 		case IMPLICIT_DOCUMENT_BEGIN:
 			return implicit_begin_document;
 		case IMPLICIT_DOCUMENT_END:
-- 
2.43.0


From e683d25a6c848b6342a989ac2e46b45af1b404fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:19:09 +0000
Subject: [PATCH 102/114] fix: a YAML emitter writes texts in the scalar style
 that has been set

---
 src/YAMLEmitter.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index ba1b3e5..e3c5ae8 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -308,7 +308,11 @@ namespace libvariant {
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v) {
-		Emit(v, *v && GuessIsString(v) ? ANY_SCALAR_STYLE : DOUBLE_QUOTED_SCALAR_STYLE);
+		ScalarStyle style = conf.default_scalar_style;
+		if ((style == ANY_SCALAR_STYLE || style == PLAIN_SCALAR_STYLE) && !(*v && GuessIsString(v))) {
+			style = DOUBLE_QUOTED_SCALAR_STYLE;
+		}
+		Emit(v, style);
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v, ScalarStyle style) {
-- 
2.43.0


From eb81c8c9fa52beccd05c71300565956a76f1f809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:19:09 +0000
Subject: [PATCH 103/114] fix: the strict setting of a JSON emitter can be set
 and read like the others

---
 src/JSONEmitter.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 4b72c44..78c9df9 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -170,6 +170,7 @@ namespace libvariant {
 		if (key == "pretty") { return pretty; }
 		if (key == "indent") { return num_indent; }
 		if (key == "precision") { return numeric_precision; }
+		if (key == "strict") { return strict; }
 		return Variant::NullType;
 	}
 
@@ -178,6 +179,7 @@ namespace libvariant {
 		ret["pretty"] = pretty;
 		ret["indent"] = num_indent;
 		ret["precision"] = numeric_precision;
+		ret["strict"] = strict;
 		return ret;
 	}
 
@@ -191,6 +193,9 @@ namespace libvariant {
 		if (key == "precision") {
 			numeric_precision = value.AsUnsigned();
 		}
+		if (key == "strict") {
+			strict = value.AsBool();
+		}
 	}
 
 	void JSONEmitterImpl::CheckSeparator() {
-- 
2.43.0


From 7423133412f7012f2fc8444a44e01a4c27dc85c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:19:09 +0000
Subject: [PATCH 104/114] fix: a bundle header emitter takes the precision it
 is created with

---
 src/BundleHdrEmitter.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index 0cdddfc..5f6f0fd 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -18,6 +18,9 @@ namespace libvariant {
 		state(BHE_START),
 		numeric_precision(std::numeric_limits<double>::digits10+2)
    	{
+		if (params.IsMap()) {
+			params.GetInto(numeric_precision, "precision", numeric_precision);
+		}
 	}
 
 
-- 
2.43.0


From a4cf5d669966fff1e326125e04b39b11443381db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:19:09 +0000
Subject: [PATCH 105/114] fix: a pretty XML property list is indented by the
 amount that has been set

---
 src/XMLPLISTEmitter.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index bdf7578..a9b8cce 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -215,7 +215,8 @@ namespace libvariant {
 
 	void XMLPLISTEmitterImpl::UpdateParams() {
 		if (pretty) {
-			xmlTextWriterSetIndent(writer, indent);
+			xmlTextWriterSetIndent(writer, 1);
+			xmlTextWriterSetIndentString(writer, (const xmlChar*)std::string(indent, ' ').c_str());
 		} else {
 			xmlTextWriterSetIndent(writer, 0);
 		}
-- 
2.43.0


From cd3deb1e89f381e2a55f9d8c5882e66b419450e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:19:09 +0000
Subject: [PATCH 106/114] fix: indent and width of a YAML emitter can be
 changed after it has been created

---
 src/YAMLEmitter.cc | 18 ++++++++++++------
 src/YAMLEmitter.h  |  1 +
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index e3c5ae8..5c25179 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -184,12 +184,7 @@ namespace libvariant {
 			throw std::runtime_error("Unable to initialize YAMLEmitter.");
 		}
 		yaml_emitter_set_output(&emitter, WriteHandler, out.get());
-		if (conf.indent > 0) {
-			yaml_emitter_set_indent(&emitter, conf.indent);
-		}
-		if (conf.width > 0) {
-			yaml_emitter_set_width(&emitter, conf.width);
-		}
+		UpdateParams();
 		try { EmitStreamStart(); }
 		catch (...) {
 			yaml_emitter_delete(&emitter);
@@ -397,10 +392,21 @@ namespace libvariant {
 
 	void YAMLEmitterImpl::SetParam(const std::string &key, Variant value) {
 		conf.SetParam(key, value);
+		UpdateParams();
 	}
 
 	void YAMLEmitterImpl::SetParams(Variant params) {
 		conf.SetParams(params);
+		UpdateParams();
+	}
+
+	void YAMLEmitterImpl::UpdateParams() {
+		if (conf.indent > 0) {
+			yaml_emitter_set_indent(&emitter, conf.indent);
+		}
+		if (conf.width > 0) {
+			yaml_emitter_set_width(&emitter, conf.width);
+		}
 	}
 
 	void YAMLEmitterImpl::EmitStreamStart() {
diff --git a/src/YAMLEmitter.h b/src/YAMLEmitter.h
index a80c5f5..906d1c4 100644
--- a/src/YAMLEmitter.h
+++ b/src/YAMLEmitter.h
@@ -138,6 +138,7 @@ namespace libvariant {
 
 	private:
 		void EmitStreamStart();
+		void UpdateParams();
 		void Emit(yaml_event_t &event);
 
 		void CheckClosed() {
-- 
2.43.0


From ef67edfaff77698f1632128efb90d55d98ffe14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:35:48 +0000
Subject: [PATCH 107/114] fix: a YAML emitter does not fold texts with lines
 that begin with a blank

---
 src/YAMLEmitter.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 5c25179..9d59454 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -307,6 +307,10 @@ namespace libvariant {
 		if ((style == ANY_SCALAR_STYLE || style == PLAIN_SCALAR_STYLE) && !(*v && GuessIsString(v))) {
 			style = DOUBLE_QUOTED_SCALAR_STYLE;
 		}
+		// a folded line that begins with a blank would not be put together again
+		if (style == FOLDED_SCALAR_STYLE && (*v == ' ' || *v == '\t' || strstr(v, "\n ") || strstr(v, "\n\t"))) {
+			style = DOUBLE_QUOTED_SCALAR_STYLE;
+		}
 		Emit(v, style);
 	}
 
-- 
2.43.0


From e668542ee0a3a72c5cf2089ae51de920cee574d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:26 +0000
Subject: [PATCH 108/114] fix: the error about properties that are no object
 tells their path in the schema

---
 src/Schema.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Schema.cc b/src/Schema.cc
index f8d55de..4fe2e86 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -312,6 +312,7 @@ namespace libvariant {
 		}
 		Variant properties = schema.Get("properties", Variant::MapType);
 		if (!properties.IsMap()) {
+			AutoSchemaPath spath(ctx, "properties");
 			ctx.AddSchemaError("\"properties\" must be an object");
 			properties = Variant::MapType;
 		}
-- 
2.43.0


From 63b45375da03ac3f7ff58a42ca153c9d3d9a8da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:26 +0000
Subject: [PATCH 109/114] fix: the error about a single unknown type has no
 list index in its path

---
 src/Schema.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 4fe2e86..18bece9 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -780,6 +780,7 @@ namespace libvariant {
 			// if (schema["type"] == "any") { return; }
 			allowed_types.push_back(schema["type"]);
 		}
+		bool typelist = schema["type"].IsList();
 		std::ostringstream oss;
 		unsigned index = 0;
 		for (Variant::ListIterator i(allowed_types.begin()), e(allowed_types.end());
@@ -800,10 +801,15 @@ namespace libvariant {
 			} else if (*i == "string") {
 				if (data.IsString()) { return; }
 			} else {
-				AutoSchemaPath spath(ctx, index);
 				std::ostringstream oss;
-				oss << "Invalid schema type: \"" << i->AsString() << "\"";
-				ctx.AddSchemaError(oss.str());
+				oss << "Invalid schema type: ";
+				SerializeJSON(oss.rdbuf(), *i);
+				if (typelist) {
+					AutoSchemaPath spath(ctx, index);
+					ctx.AddSchemaError(oss.str());
+				} else {
+					ctx.AddSchemaError(oss.str());
+				}
 			}
 		}
 		oss << "invalid data type: \"" << data.GetType() << "\" expected";
-- 
2.43.0


From 56b60674ed6e40bb6a62f68f850e8d78e9dccf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:02:26 +0000
Subject: [PATCH 110/114] fix: a type that is no string is reported as schema
 error instead of thrown

---
 src/Schema.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 18bece9..a939cd6 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -814,12 +814,13 @@ namespace libvariant {
 		}
 		oss << "invalid data type: \"" << data.GetType() << "\" expected";
 		if (allowed_types.size() == 1) {
-			oss << ": \"" << allowed_types.front().AsString() << "\"";
+			oss << ": ";
+			SerializeJSON(oss.rdbuf(), allowed_types.front());
 		} else {
 			oss << " one of: [";
 			for (Variant::ListIterator i(allowed_types.begin()), e(allowed_types.end());
 					i != e; ++i) {
-				oss << "\"" <<  i->AsString() << "\"";
+				SerializeJSON(oss.rdbuf(), *i);
 				if (i+1 != e) { oss << ", "; }
 			}
 			oss << "]";
-- 
2.43.0


From 738c53f79b3508f039ef6a32a1bf31a77c1711d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:27:17 +0000
Subject: [PATCH 111/114] fix: a value in a configuration file that an option
 does not allow is rejected instead of dropped

---
 src/ArgParse.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 7e69b6b..6e0ea63 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1261,14 +1261,14 @@ namespace libvariant {
 		case Variant::UnsignedType:
 		case Variant::FloatType:
 		case Variant::StringType:
-			try {
+			if (paths.find(PathString(path)) != paths.end()) {
 				At(path)->Handle(opt);
-			} catch (const std::runtime_error &) {}
+			}
 			break;
 		case Variant::ListType:
-			try {
+			if (paths.find(PathString(path)) != paths.end()) {
 				At(path)->Handle(opt);
-			} catch (const std::runtime_error &) {
+			} else {
 				unsigned index = 0;
 				for (Variant::ListIterator i(opt.ListBegin()), e(opt.ListEnd());
 						i != e; ++i, ++index) {
-- 
2.43.0


From 3f08a5c972440e80fc7f570ef9a4df19004ec69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:28:47 +0000
Subject: [PATCH 112/114] fix: the help of a positional argument separates its
 name from its environment variable

---
 src/ArgParse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 6e0ea63..b4a9d2b 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1742,7 +1742,7 @@ namespace libvariant {
 			os << " " << ArgString(*this);
 		}
 		if (opt.Contains("env")) {
-			if (shortOpt > 0 || !longOpt.empty()) {
+			if (shortOpt > 0 || !longOpt.empty() || HasArg()) {
 				os << "\n\t";
 			}
 			os << "env: $" << opt["env"].AsString();
-- 
2.43.0


From d6f92b88fe248251bc9176883e4c60c625c85420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:22:09 +0000
Subject: [PATCH 113/114] fix: a program name given to the parser as C string
 is not taken as the help flag

---
 include/Variant/ArgParse.h | 1 +
 src/ArgParse.cc            | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/include/Variant/ArgParse.h b/include/Variant/ArgParse.h
index 97e0a17..6360e4b 100644
--- a/include/Variant/ArgParse.h
+++ b/include/Variant/ArgParse.h
@@ -203,6 +203,7 @@ namespace libvariant {
 		//! addhelp true causes AddHelp to be called.
 		ArgParse(bool addhelp=true);
 		ArgParse(const std::string &pname, bool addhelp=true);
+		ArgParse(const char *pname, bool addhelp=true);
 
 		//! Add the option and configure it as an option that takes an argument.
 		//The default action will be "store" and type will be unspecified
diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index b4a9d2b..b5010f1 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -681,6 +681,11 @@ namespace libvariant {
 		: impl(shared_ptr<ArgParseImpl>(new ArgParseImpl(pname, addhelp)))
 	{}
 
+	// Otherwise a pointer would be taken as the bool addhelp
+	ArgParse::ArgParse(const char *pname, bool addhelp)
+		: impl(shared_ptr<ArgParseImpl>(new ArgParseImpl(pname ? pname : "", addhelp)))
+	{}
+
 	ArgParseOption ArgParse::AddOption(const std::string &keypath, int shortOpt, const std::string &longOpt,
 				const std::string &helptxt)
 	{
-- 
2.43.0


From 796404cbecdc9e5e2f5b7a6d9ebb1486e4090254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:34:02 +0000
Subject: [PATCH 114/114] fix: varsh fails on an input file it cannot open
 instead of taking it as an empty document

---
 src/varsh.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/varsh.cc b/src/varsh.cc
index 3595288..d96a64d 100644
--- a/src/varsh.cc
+++ b/src/varsh.cc
@@ -222,6 +222,10 @@ int main(int argc, char **argv) {
 	if (state.conf.Contains("input")) {
 		for (Variant::ListIterator i(state.conf["input"].ListBegin()), e(state.conf["input"].ListEnd()); i != e; ++i) {
 			ifstream input(i->AsString().c_str());
+			if (!input) {
+				cerr << "Unable to open " << i->AsString() << endl;
+				return 1;
+			}
 			Process(state, *output, input);
 		}
 	} else {
-- 
2.43.0

