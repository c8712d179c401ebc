From 99e187dba4c17aca4d43411a16e4fd0d252e0870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:03 +0000
Subject: [PATCH 01/59] fix: copy the new contents before releasing the old
 ones

Assigning a value from something stored inside it (for example one of its
own map keys) released the source before it was copied.  An allocation
failure also left the value without a payload.
---
 src/Variant.cc | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 9afe852..3b98c12 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1080,9 +1080,9 @@ namespace libvariant {
 		}
 
 		void StringInit(Data *that, const std::string &s) {
+			shared_ptr<StringStorage> storage(new StringStorage(s));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = StringVTable();
-			shared_ptr<StringStorage> storage(new StringStorage(s));
 			that->s = &storage->str;
 			that->storage = storage;
 		}
@@ -1220,9 +1220,9 @@ namespace libvariant {
 		}
 
 		void ListInit(Data *that, const Variant::List &l) {
+			shared_ptr<ListStorage> storage(new ListStorage(l));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = ListVTable();
-			shared_ptr<ListStorage> storage(new ListStorage(l));
 			that->l = storage.get();
 			that->storage = storage;
 		}
@@ -1346,9 +1346,9 @@ namespace libvariant {
 		}
 
 		void MapInit(Data *that, const Variant::Map &m) {
+			shared_ptr<MapStorage> storage(new MapStorage(m));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = MapVTable();
-			shared_ptr<MapStorage> storage(new MapStorage(m));
 			that->m = storage.get();
 			that->storage = storage;
 		}
@@ -1411,9 +1411,9 @@ namespace libvariant {
 		}
 
 		void BlobInit(Data *that, BlobPtr blob) {
+			shared_ptr<BlobStorage> storage(new BlobStorage(blob));
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = BlobVTable();
-			shared_ptr<BlobStorage> storage(new BlobStorage(blob));
 			that->blob = &storage->blob;
 			that->storage = storage;
 		}
@@ -1628,11 +1628,13 @@ namespace libvariant {
 
 		void RefInit(Data *that, const Data *other) {
 			static const Ref ref_vtable;
+			// XXX: const cast.. double ICKY!
+			Data *ref = const_cast<Data*>(other);
+			shared_ptr<RefData> ref_data = ref->vtable->EnsureRef(ref);
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = &ref_vtable;
-			// XXX: const cast.. double ICKY!
-			that->ref = const_cast<Data*>(other);
-			that->ref_data = that->ref->vtable->EnsureRef(that->ref);
+			that->ref = ref;
+			that->ref_data = ref_data;
 		}
 
 		//--------------------
@@ -1933,10 +1935,11 @@ namespace libvariant {
 
 		void ProxyInit(Data *that, Data *ref, Path::const_iterator b, Path::const_iterator e) {
 			static const Proxy proxy_vtable;
+			shared_ptr<ProxyStorage> storage(new ProxyStorage(ref, b, e));
+			shared_ptr<RefData> ref_data = ref->vtable->EnsureRef(ref);
 			if (that->vtable) that->vtable->Destroy(that);
 			that->vtable = &proxy_vtable;
-			that->ref_data = ref->vtable->EnsureRef(ref);
-			shared_ptr<ProxyStorage> storage(new ProxyStorage(ref, b, e));
+			that->ref_data = ref_data;
 			that->proxy = storage.get();
 			that->storage = storage;
 		}
-- 
2.43.0


From fce458740cedd51dc1ef5407e2faca1b99851696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:35 +0000
Subject: [PATCH 02/59] fix: copy a list or map before assigning it to its own
 owner

v = v.AsList() and v = v.AsMap() read the container after it was freed.
---
 include/Variant/Variant.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/Variant/Variant.h b/include/Variant/Variant.h
index a01d238..e4f2e01 100644
--- a/include/Variant/Variant.h
+++ b/include/Variant/Variant.h
@@ -393,14 +393,18 @@ namespace libvariant {
 
 		template<typename T>
 		void Assign(const std::vector<T> &v) {
+			// v may be stored inside of this
+			List l(v.begin(), v.end());
 			Assign(VariantDefines::ListType);
-			AsList().assign(v.begin(), v.end());
+			AsList().swap(l);
 		}
 
 		template<typename T>
 		void Assign(const std::map<std::string, T> &v) {
+			// v may be stored inside of this
+			Map m(v.begin(), v.end());
 			Assign(VariantDefines::MapType);
-			AsMap().insert(v.begin(), v.end());
+			AsMap().swap(m);
 		}
 
 	protected:
-- 
2.43.0


From 882c9d82a37128ab288ae52826bdc2664f95f934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:12:56 +0000
Subject: [PATCH 03/59] fix: index arithmetic wraps for the largest list index

Writing at index UINT_MAX emptied the list, and erasing it raised an error
meant for element access.
---
 src/Variant.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 3b98c12..d8f473f 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1160,7 +1160,7 @@ namespace libvariant {
 		void List::EraseIndex(Data *that, unsigned i) const
 		{
 			unsigned size = that->l->list.size();
-			if (i + 1 < size) {
+			if (i < size && i != size - 1) {
 				that->l->list.at(i).Assign(Variant::NullType);
 			} else if (i < size) {
 				that->l->list.pop_back();
@@ -1171,7 +1171,7 @@ namespace libvariant {
 			if (i < that->l->list.size()) {
 				return VariantRef(that->l->list.at(i));
 			} else if (def) {
-				that->l->list.resize(i + 1);
+				that->l->list.resize(static_cast<size_t>(i) + 1);
 				that->l->list.at(i) = *def;
 				return VariantRef(that->l->list.at(i));
 			} else {
@@ -1201,7 +1201,7 @@ namespace libvariant {
 
 		void List::SetIndex(Data *that, unsigned i, const Data *other) const {
 			if ( ! (i < that->l->list.size()) ) {
-				that->l->list.resize(i + 1);
+				that->l->list.resize(static_cast<size_t>(i) + 1);
 			}
 			other->vtable->Assign(other, VTable::GetData(&that->l->list.at(i)));
 		}
-- 
2.43.0


From 209fef9d29baaa7edbfe92867e10116e16be8b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:14 +0000
Subject: [PATCH 04/59] fix: integer division by zero kills the process

Dividing or taking the remainder by an integer zero, or dividing the
smallest integer by -1, raised SIGFPE.  Report an error instead.
---
 src/Variant.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index d8f473f..8cabbd9 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -28,10 +28,27 @@
 #include <assert.h>
 #include <algorithm>
 
+static inline void CheckDivision(intmax_t lhs, intmax_t rhs) {
+	if (rhs == 0) { throw std::domain_error("Integer division by zero."); }
+	if (rhs == -1 && lhs == INTMAX_MIN) { throw std::overflow_error("Integer division overflow."); }
+}
+
+static inline void CheckDivision(uintmax_t lhs, uintmax_t rhs) {
+	if (rhs == 0) { throw std::domain_error("Integer division by zero."); }
+}
+
+static inline void CheckDivision(long double lhs, long double rhs) {}
+
+template<typename T>
+class my_divides {
+public:
+	T operator()(const T &lhs, const T &rhs) { CheckDivision(lhs, rhs); return lhs / rhs; }
+};
+
 template<typename T>
 class my_modulus {
 public:
-	T operator()(const T &lhs, const T &rhs) { return lhs % rhs; }
+	T operator()(const T &lhs, const T &rhs) { CheckDivision(lhs, rhs); return lhs % rhs; }
 };
 
 template<>
@@ -801,7 +818,7 @@ namespace libvariant {
 		{ NumericOperation<std::multiplies>(that, other); }
 
 		void Numeric::Div(Data *that, const Data *other) const
-		{ NumericOperation<std::divides>(that, other); }
+		{ NumericOperation<my_divides>(that, other); }
 
 		void Numeric::Rem(Data *that, const Data *other) const
 		{ NumericOperation<my_modulus>(that, other); }
-- 
2.43.0


From c005657de34f6a35662a43b478dfcb513be1d46f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:13:21 +0000
Subject: [PATCH 05/59] fix: a schema with "multipleOf": 0 is a schema error

The message already asks for a positive number; zero reached the modulus.
---
 src/Schema.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 8ff405c..95c5379 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -699,7 +699,7 @@ namespace libvariant {
 		}
 		AutoSchemaPath spath(ctx, multkey);
 		Variant multipleof = schema[multkey];
-		if (!multipleof.IsNumber() || multipleof < 0) {
+		if (!multipleof.IsNumber() || multipleof <= 0) {
 			std::ostringstream oss;
 			oss << "\"" << multkey << "\" must be a positive number";
 			ctx.AddSchemaError(oss.str());
-- 
2.43.0


From 1e85af964f46304f9e140fcd9d38b1686b4364ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:29:56 +0000
Subject: [PATCH 06/59] fix: JSON Patch copy operation shared the source value
 with the destination

---
 src/Extensions.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 35eb6a1..c10561c 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -670,7 +670,7 @@ namespace libvariant {
 			} else if (oper == "copy") {
 				op = Operation_t(OP_GET, diff.Get("from").AsString());
 				JSONPointerOp(op.pointer, v, op);
-				Variant data = op.value;
+				Variant data = op.value.Copy();
 				op = Operation_t(OP_ADD, diff.Get("path").AsString());
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
-- 
2.43.0


From 4d139a9bc5449d638d78d2d445d448ad259bc202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:36:42 +0000
Subject: [PATCH 07/59] fix: schema validation and default filling rewrote the
 caller's schema

---
 src/Schema.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Schema.cc b/src/Schema.cc
index 95c5379..73e651f 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -832,6 +832,7 @@ namespace libvariant {
 		if (schema.IsString()) {
 			schema = lloader.GetSchema(schema.AsString());
 		}
+		schema = schema.Copy(); // AddSchema normalizes in place
 		lloader.AddSchema("", schema);
 		SchemaContext ctx(&lloader);
 		try {
@@ -889,6 +890,7 @@ namespace libvariant {
 		if (schema.IsString()) {
 			schema = lloader.GetSchema(schema.AsString());
 		}
+		schema = schema.Copy(); // AddSchema normalizes in place
 		lloader.AddSchema("", schema);
 		AddSchemaDefaultsImpl(schema, data, &lloader);
 	}
-- 
2.43.0


From c57e291e464f593a5df57263c96a1ed74734dc8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:01 +0000
Subject: [PATCH 08/59] fix: an out of range JSON Pointer index wraps around to
 another element

---
 src/Extensions.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index c10561c..72f014b 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -27,6 +27,7 @@
 #include <stdlib.h>
 #include <ctype.h>
 #include <set>
+#include <limits>
 
 using namespace std;
 
@@ -329,13 +330,14 @@ namespace libvariant {
 		std::string pointer;
 	};
 
-	static bool IsIndex(const std::string &str, uintmax_t &index) {
+	static bool IsIndex(const std::string &str, unsigned &index) {
 		const char *b = str.c_str();
 		char *e = 0;
 		unsigned long long v = strtoull(b, &e, 10);
 		if (e == b) { return false; }
 		while (e != 0 && *e != '\0' && isspace(*e)) { ++e; }
 		if (e == 0 || *e != '\0') { return false; }
+		if (v > std::numeric_limits<unsigned>::max()) { return false; }
 		index = v;
 		return true;
 	}
@@ -374,7 +376,7 @@ namespace libvariant {
 		if (!v.Exists()) {
 			if (op.guess) {
 				// Best guess
-				uintmax_t index = 0;
+				unsigned index = 0;
 				if (IsIndex(component, index)) {
 					return JSONPointerOp(pointer.substr(nindex), v.At(index), op);
 				} else {
@@ -427,7 +429,7 @@ namespace libvariant {
 				}
 				throw std::runtime_error("Attempting to reference past the end of an array");
 			}
-			uintmax_t index = 0;
+			unsigned index = 0;
 			if (!IsIndex(component, index)) {
 				throw std::runtime_error("Attempting to index an array with a string");
 			}
-- 
2.43.0


From e1add3c5fd8ab1326725ff6e30a342fc1b3a23b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:04 +0000
Subject: [PATCH 09/59] fix: an out of range path index wraps around to another
 element

---
 src/Path.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Path.cc b/src/Path.cc
index beceffe..100afae 100644
--- a/src/Path.cc
+++ b/src/Path.cc
@@ -21,7 +21,7 @@ namespace libvariant {
 			} else if (index) {
 				if (*c == ']') {
 					std::istringstream iss(frag);
-					unsigned long long i = 0;
+					unsigned i = 0;
 					if (!(iss >> i)) {
 						throw std::runtime_error("Error parsing Variant path: \"" + frag + "\" is not a number.");
 					}
-- 
2.43.0


From 63d1e76aa7be25fde8a0d11b1698b6b3a46cb5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:04 +0000
Subject: [PATCH 10/59] fix: JSON Pointer add past the end of a list writes out
 of bounds

---
 src/Extensions.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 72f014b..14c85d2 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -437,9 +437,8 @@ namespace libvariant {
 			if (is_last) {
 				switch (op.op) {
 				case OP_ADD:
-					if (v.Contains(index)) {
-						op.old_value = v.Get(index);
-						op.replaced = true;
+					if (index > v.Size()) {
+						throw std::runtime_error("Attempting to reference past the end of an array");
 					}
 					v.AsList().insert(v.ListBegin()+index, op.value);
 					op.success = true;
-- 
2.43.0


From 080b0904e98fb53d3cc316587754f4a8f310e32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:10 +0000
Subject: [PATCH 11/59] fix: JSON Pointer remove fails on list elements

---
 src/Extensions.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 14c85d2..e88bbfe 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -444,8 +444,11 @@ namespace libvariant {
 					op.success = true;
 					return v.At(index);
 				case OP_REMOVE:
-					op.value = v.At(component);
-					v.Erase(index);
+					if (index >= v.Size()) {
+						throw std::runtime_error("Attempting to reference past the end of an array");
+					}
+					op.value = v.At(index);
+					v.AsList().erase(v.ListBegin()+index);
 					op.success = true;
 					return v.At(index);
 				case OP_TEST:
-- 
2.43.0


From dd00d5de58a9aae7b3c9c0b2727054a032e98756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:15 +0000
Subject: [PATCH 12/59] fix: undoing a failed JSON Patch leaves extra or null
 list elements behind

---
 src/Extensions.cc | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index e88bbfe..a7d0887 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -617,7 +617,17 @@ namespace libvariant {
 				}
 				break;
 			case OP_REMOVE:
-				v.ErasePath(p.path);
+				if (p.path.size() > 0) {
+					Path path = p.path;
+					PathElement elem = path.back();
+					path.pop_back();
+					VariantRef r = v.AtPath(path);
+					if (r.IsList()) {
+						r.AsList().erase(r.ListBegin()+elem.AsUnsigned());
+					} else {
+						r.Erase(elem.AsString());
+					}
+				}
 				break;
 			case OP_TEST:
 			case OP_GET:
@@ -656,6 +666,7 @@ namespace libvariant {
 					return false;
 				}
 				undo->push_back(Patch_t(OP_ADD, op.path, op.value));
+				undo->push_back(Patch_t(OP_REMOVE, op.path));
 				return op.success;
 			} else if (oper == "move") {
 				op = Operation_t(OP_REMOVE, diff.Get("from").AsString());
-- 
2.43.0


From 266eafca25533936ad0db7bd3ad7a9d0a03103b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:48 +0000
Subject: [PATCH 13/59] fix: a failed JSON Pointer move overwrites a list
 element and loses the error

---
 src/Extensions.cc | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index a7d0887..0888761 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -475,6 +475,16 @@ namespace libvariant {
 		throw std::runtime_error(oss.str());
 	}
 
+	struct Patch_t {
+		Patch_t(Operations_e o, Path p, Variant v) : op(o), path(p), value(v) {}
+		Patch_t(Operations_e o, Path p) : op(o), path(p) {}
+		Operations_e op;
+		Path path;
+		Variant value;
+	};
+
+	void JSONPatchUndo(VariantRef v, std::deque<Patch_t> *undo);
+
 	void JSONPointerAdd(const std::string &pointer, VariantRef v, Variant data) {
 		Operation_t op(OP_ADD, pointer);
 		op.value = data;
@@ -529,9 +539,10 @@ namespace libvariant {
 				op = Operation_t(OP_ADD, dst);
 				op.value = data;
 				JSONPointerOp(op.pointer, v, op);
-			} catch (const std::exception &e) {
-				v.SetPath(path, data);
-				throw e;
+			} catch (const std::exception &) {
+				std::deque<Patch_t> undo(1, Patch_t(OP_ADD, path, data));
+				JSONPatchUndo(v, &undo);
+				throw;
 			}
 		} catch (const std::exception &e) {
 			std::ostringstream oss;
@@ -587,14 +598,6 @@ namespace libvariant {
 		return ret.str();
 	}
 
-	struct Patch_t {
-		Patch_t(Operations_e o, Path p, Variant v) : op(o), path(p), value(v) {}
-		Patch_t(Operations_e o, Path p) : op(o), path(p) {}
-		Operations_e op;
-		Path path;
-		Variant value;
-	};
-
 	void JSONPatchUndo(VariantRef v, std::deque<Patch_t> *undo) {
 		while (!undo->empty()) {
 			const Patch_t &p = undo->back();
-- 
2.43.0


From 3f8aeab2175fa9b7df4d204bb496a8352a74f383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:51:59 +0000
Subject: [PATCH 14/59] fix: applying a JSON Patch could change the values
 inside the patch

---
 src/Extensions.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 0888761..0b783c3 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -647,7 +647,7 @@ namespace libvariant {
 		try {
 			if (oper == "add") {
 				op = Operation_t(OP_ADD, diff.Get("path").AsString());
-				op.value = diff.Get("value");
+				op.value = diff.Get("value").Copy();
 				JSONPointerOp(op.pointer, v, op);
 				if (op.replaced) {
 					undo->push_back(Patch_t(OP_ADD, op.path, op.old_value));
@@ -664,7 +664,7 @@ namespace libvariant {
 				op = Operation_t(OP_GET, diff.Get("path").AsString());
 				VariantRef r = JSONPointerOp(op.pointer, v, op);
 				if (r.Exists()) {
-					r = diff.Get("value");
+					r = diff.Get("value").Copy();
 				} else {
 					return false;
 				}
-- 
2.43.0


From 9f5fa25b9d3c411287441ebc8526f96c42452efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:17 +0000
Subject: [PATCH 15/59] fix: escape keys when forming a JSON Pointer

---
 src/Extensions.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 0b783c3..a0128ad 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -586,13 +586,25 @@ namespace libvariant {
 		}
 	}
 
+	static std::string JSONPointerEscape(const std::string &fragment) {
+		std::string ret;
+		for (std::string::const_iterator i(fragment.begin()), e(fragment.end()); i != e; ++i) {
+			switch (*i) {
+			case '~': ret.append("~0"); break;
+			case '/': ret.append("~1"); break;
+			default: ret.append(1, *i); break;
+			}
+		}
+		return ret;
+	}
+
 	std::string FormJSONPointer(const Path &path) {
 		std::ostringstream ret;
 		for (Path::const_iterator i(path.begin()), e(path.end()); i != e; ++i) {
 			if (i->IsNumber()) {
 				ret << "/" << i->AsUnsigned();
 			} else {
-				ret << "/" << i->AsString();
+				ret << "/" << JSONPointerEscape(i->AsString());
 			}
 		}
 		return ret.str();
-- 
2.43.0


From cc3fb025b85b3521b9e07ec22e82fc2bc0d7c186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:22 +0000
Subject: [PATCH 16/59] fix: a JSON Pointer token ending in ~ loses its last
 character

---
 src/Extensions.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index a0128ad..6ec2506 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -287,7 +287,9 @@ namespace libvariant {
 			switch (*c) {
 			case '~':
 				++c;
-				if (c != e) {
+				if (c == e) {
+					ret.append("~");
+				} else {
 					if (*c == '0') {
 						ret.append("~");
 					} else if (*c == '1') {
-- 
2.43.0


From 5705f98dc8ce18ae3f79f1d821dcee536941d6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:52:27 +0000
Subject: [PATCH 17/59] fix: the diff of a shrinking list removes its elements
 in the wrong order

---
 src/Extensions.cc | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index 6ec2506..acaf921 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -782,10 +782,16 @@ namespace libvariant {
 			switch (src.GetType()) {
 			case Variant::ListType:
 				{
-					uintmax_t len = std::max<uintmax_t>(src.Size(), dst.Size());
-					for (uintmax_t i = 0; i < len; ++i) {
+					// Extra elements are removed from the end so that the
+					// remaining indices stay valid.
+					for (unsigned i = src.Size(); i > dst.Size(); --i) {
+						path.push_back(PathElement(i - 1));
+						JSONDiffRef(src.At(i - 1), dst.At(i - 1), diff, path);
+						path.pop_back();
+					}
+					for (unsigned i = 0; i < dst.Size(); ++i) {
 						path.push_back(PathElement(i));
-							JSONDiffRef(src.At(i), dst.At(i), diff, path);
+						JSONDiffRef(src.At(i), dst.At(i), diff, path);
 						path.pop_back();
 					}
 				}
-- 
2.43.0


From 641d5582f95f08026e214b77fa3c5f2d7ad4d1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:15 +0000
Subject: [PATCH 18/59] fix: raise on a JSON container end without its start

---
 src/JSONEmitter.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 9389e32..234977a 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -68,6 +68,9 @@ namespace libvariant {
 	}
 
 	void JSONEmitterImpl::EndMap() {
+		if (state.empty() || (state.back() != MAP_FIRST && state.back() != IN_MAP_KEY)) {
+			throw std::runtime_error("JSONEmitter in invalid state for EndMap");
+		}
 		state.pop_back();
 		EmitIndent();
 		EmitRaw("}");
@@ -81,6 +84,9 @@ namespace libvariant {
 	}
 
 	void JSONEmitterImpl::EndList() {
+		if (state.empty() || (state.back() != LIST_FIRST && state.back() != IN_LIST)) {
+			throw std::runtime_error("JSONEmitter in invalid state for EndList");
+		}
 		state.pop_back();
 		EmitIndent();
 		EmitRaw("]");
-- 
2.43.0


From 108639bf52453e09ec67c9afe0a65d9f6fda3f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:30 +0000
Subject: [PATCH 19/59] fix: raise on an XML plist container end without its
 start

---
 src/XMLPLISTEmitter.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 015b6ed..809da91 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -93,6 +93,9 @@ namespace libvariant {
 	}
 
 	void XMLPLISTEmitterImpl::EndMap() {
+		if (state.back() != EXPECT_MAP_KEY) {
+			throw std::runtime_error("XMLPLISTEmitter in invalid state for EndMap");
+		}
 		CloseElement();
 		state.pop_back();
 	}
@@ -103,6 +106,9 @@ namespace libvariant {
 	}
 
 	void XMLPLISTEmitterImpl::EndList() {
+		if (state.back() != IN_LIST) {
+			throw std::runtime_error("XMLPLISTEmitter in invalid state for EndList");
+		}
 		CloseElement();
 		state.pop_back();
 	}
-- 
2.43.0


From de6d9c00ee5f19259d491261656b6dd6df0c3e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:19:36 +0000
Subject: [PATCH 20/59] fix: reject a non-string plist key before opening its
 element

---
 src/XMLPLISTEmitter.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/XMLPLISTEmitter.h b/src/XMLPLISTEmitter.h
index 8e27943..62609f8 100644
--- a/src/XMLPLISTEmitter.h
+++ b/src/XMLPLISTEmitter.h
@@ -100,10 +100,10 @@ namespace libvariant {
 
 		void StartElement(const char *name, bool complex_type=true) {
 			CheckClosed();
+			CheckMapKey(complex_type);
 			if (xmlTextWriterStartElement(writer, (const xmlChar*)name) < 0) {
 				HandleError("xmlTextWriterStartElement");
 			}
-			CheckMapKey(complex_type);
 		}
 
 		void CloseElement() {
-- 
2.43.0


From 00dbbd41ce3b38c1a23f55963bdb9d55e95011ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:11 +0000
Subject: [PATCH 21/59] fix: pad a short list up to the payload length index
 instead of forever

---
 src/Payload.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index 4787b82..55f18cc 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -75,8 +75,8 @@ namespace libvariant {
 					   	(on_data ? data_i + 1 : data_i), on_data,
 					   	state);
 			}
-			if (on_len_path && len_i->AsUnsigned() < index) {
-				while (len_i->AsUnsigned() < index) {
+			if (on_len_path && index <= len_i->AsUnsigned()) {
+				while (index < len_i->AsUnsigned()) {
 					state.e.EmitNull();
 					++index;
 				}
-- 
2.43.0


From bf61a6699500d0faa5962975678df4d53b9b9205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:36:14 +0000
Subject: [PATCH 22/59] fix: report failed writes and flushes of files and
 streams

---
 src/EmitterOutput.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index 5645c9d..5229910 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -41,11 +41,16 @@ namespace libvariant {
 	unsigned EmitterFileOutput::Write(const void *ptr, unsigned len) {
 		unsigned num = fwrite(ptr, 1, len, file);
 		num_bytes += num;
+		if (num < len) {
+			throw std::runtime_error("Unable to write to file.");
+		}
 		return num;
 	}
 
 	void EmitterFileOutput::Flush() {
-	   	fflush(file);
+		if (fflush(file) != 0) {
+			throw std::runtime_error("Unable to flush file.");
+		}
    	}
 
 	EmitterFilenameOutput::EmitterFilenameOutput(const char *filename, const char *mode)
@@ -72,11 +77,16 @@ namespace libvariant {
 	unsigned EmitterStreambufOutput::Write(const void *ptr, unsigned len) {
 		unsigned num = streambuf->sputn((const char*)ptr, len);
 		num_bytes += num;
+		if (num < len) {
+			throw std::runtime_error("Unable to write to stream.");
+		}
 		return num;
 	}
 
 	void EmitterStreambufOutput::Flush() {
-	   	streambuf->pubsync();
+		if (streambuf->pubsync() == -1) {
+			throw std::runtime_error("Unable to flush stream.");
+		}
    	}
 
 	EmitterMemoryOutput::EmitterMemoryOutput(void *ptr, unsigned len, unsigned *out_len)
-- 
2.43.0


From 0fe6f21dae45e784c620029690388ed36c605450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:37:23 +0000
Subject: [PATCH 23/59] fix: stop when an output accepts no more data

---
 src/BundleHdrEmitter.h |  6 +++++-
 src/JSONEmitter.cc     | 18 +++++++++++++++---
 src/Payload.cc         | 11 +++++++++--
 3 files changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/BundleHdrEmitter.h b/src/BundleHdrEmitter.h
index 04b1a2b..9afd24f 100644
--- a/src/BundleHdrEmitter.h
+++ b/src/BundleHdrEmitter.h
@@ -97,7 +97,11 @@ namespace libvariant {
 		void Write(const char *str, unsigned len) {
 			unsigned num_written = 0;
 			while (num_written < len) {
-				num_written += output->Write(str + num_written, len - num_written);
+				unsigned num = output->Write(str + num_written, len - num_written);
+				if (num == 0) {
+					throw std::runtime_error("BundleHdrEmitter: the output does not accept any more data.");
+				}
+				num_written += num;
 			}
 		}
 
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 234977a..22167c9 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -159,7 +159,11 @@ namespace libvariant {
 		if (buffer_len > 0) {
 			unsigned num_written = 0;
 			while (num_written < buffer_len) {
-				num_written += output->Write(&buffer[num_written], buffer_len - num_written);
+				unsigned num = output->Write(&buffer[num_written], buffer_len - num_written);
+				if (num == 0) {
+					throw std::runtime_error("JSONEmitter: the output does not accept any more data.");
+				}
+				num_written += num;
 			}
 			buffer_len = 0;
 		}
@@ -235,7 +239,11 @@ namespace libvariant {
 			memset(&buffer[buffer_len], ' ', BUFFER_THRESHOLD);
 			unsigned num_written = 0;
 			while (num_written < indent) {
-				num_written += output->Write(&buffer[buffer_len], min(indent - num_written, BUFFER_THRESHOLD));
+				unsigned num = output->Write(&buffer[buffer_len], min(indent - num_written, BUFFER_THRESHOLD));
+				if (num == 0) {
+					throw std::runtime_error("JSONEmitter: the output does not accept any more data.");
+				}
+				num_written += num;
 			}
 		} else {
 			if (indent + buffer_len > MAX_BUFFER_LEN) {
@@ -289,7 +297,11 @@ namespace libvariant {
 			Flush();
 			unsigned num_written = 0;
 			while (num_written < len) {
-				num_written += output->Write(&text[num_written], len - num_written);
+				unsigned num = output->Write(&text[num_written], len - num_written);
+				if (num == 0) {
+					throw std::runtime_error("JSONEmitter: the output does not accept any more data.");
+				}
+				num_written += num;
 			}
 		} else {
 			if (len + buffer_len > MAX_BUFFER_LEN) {
diff --git a/src/Payload.cc b/src/Payload.cc
index 55f18cc..c731d41 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -175,8 +175,12 @@ namespace libvariant {
 		std::vector<char> buf(num, '\n');
 		buf.push_back('\0');
 		unsigned written = 0;
-		while (written < num) {
-			written += out->Write(&buf[written], buf.size() - written);
+		while (written < buf.size()) {
+			unsigned num = out->Write(&buf[written], buf.size() - written);
+			if (num == 0) {
+				throw std::runtime_error("libvariant: the output does not accept any more data.");
+			}
+			written += num;
 		}
 
 		if (payload_exists && !ignore_payload) {
@@ -186,6 +190,9 @@ namespace libvariant {
 				char *ptr = (char*)blob->GetPtr(slab);
 				while (to_write > 0) {
 					unsigned num = out->Write(ptr, to_write);
+					if (num == 0) {
+						throw std::runtime_error("libvariant: the output does not accept any more data.");
+					}
 					ptr += num;
 					to_write -= num;
 				}
-- 
2.43.0


From 3d688fc92d09a56fc6ec5d5fdad0e9b27ee93883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:45 +0000
Subject: [PATCH 24/59] fix: write everything and contain errors in the XML and
 YAML output callbacks

---
 src/XMLPLISTEmitter.cc | 15 +++++++++++++--
 src/YAMLEmitter.cc     | 12 +++++++++++-
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/XMLPLISTEmitter.cc b/src/XMLPLISTEmitter.cc
index 809da91..1d8c5ad 100644
--- a/src/XMLPLISTEmitter.cc
+++ b/src/XMLPLISTEmitter.cc
@@ -31,12 +31,23 @@ namespace libvariant {
 
 	int XMLPLISTEmitterImpl::DoWrite(void *ctx, const char *buffer, int len) {
 		XMLPLISTEmitterImpl *impl = (XMLPLISTEmitterImpl*)ctx;
-		return impl->output->Write(buffer, len);
+		try {
+			int written = 0;
+			while (written < len) {
+				unsigned num = impl->output->Write(buffer + written, len - written);
+				if (num == 0) { return -1; }
+				written += num;
+			}
+		} catch (...) {
+			return -1;
+		}
+		return len;
 	}
 
 	int XMLPLISTEmitterImpl::DoClose(void *ctx) {
 		XMLPLISTEmitterImpl *impl = (XMLPLISTEmitterImpl*)ctx;
-		impl->output->Flush();
+		try { impl->output->Flush(); }
+		catch (...) { return -1; }
 		return 0;
 	}
 
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index ecbe8c4..884aa1e 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -31,7 +31,17 @@ namespace libvariant {
 
 	static int WriteHandler(void *data, unsigned char *buffer, size_t size) {
 		EmitterOutput *out = (EmitterOutput*)data;
-		return out->Write((const void*)buffer, size);
+		try {
+			size_t written = 0;
+			while (written < size) {
+				unsigned num = out->Write((const void*)(buffer + written), size - written);
+				if (num == 0) { return 0; }
+				written += num;
+			}
+		} catch (...) {
+			return 0;
+		}
+		return 1;
 	}
 
 	static const char *param_keys[] = { "scalar_style", "map_style", "list_style",
-- 
2.43.0


From 76f478bb9332fa46b218bcf3ab8e224ee0bd6bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:40:57 +0000
Subject: [PATCH 25/59] fix: never let an emitter destructor throw

---
 src/BundleHdrEmitter.cc | 3 ++-
 src/JSONEmitter.cc      | 3 ++-
 src/YAMLEmitter.cc      | 2 +-
 3 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/BundleHdrEmitter.cc b/src/BundleHdrEmitter.cc
index d7db891..0cdddfc 100644
--- a/src/BundleHdrEmitter.cc
+++ b/src/BundleHdrEmitter.cc
@@ -22,7 +22,8 @@ namespace libvariant {
 
 
 	BundleHdrEmitterImpl::~BundleHdrEmitterImpl() {
-		Close();
+		try { Close(); }
+		catch (...) {}
 	}
 
 
diff --git a/src/JSONEmitter.cc b/src/JSONEmitter.cc
index 22167c9..5bc96d2 100644
--- a/src/JSONEmitter.cc
+++ b/src/JSONEmitter.cc
@@ -52,7 +52,8 @@ namespace libvariant {
 	}
 
 	JSONEmitterImpl::~JSONEmitterImpl() {
-		Close();
+		try { Close(); }
+		catch (...) {}
 	}
 
 	void JSONEmitterImpl::BeginDocument() {
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 884aa1e..8d04aae 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -206,7 +206,7 @@ namespace libvariant {
 
 	YAMLEmitterImpl::~YAMLEmitterImpl() {
 		try { Close(); }
-		catch (const std::runtime_error &) {}
+		catch (...) { yaml_emitter_delete(&emitter); }
 	}
 
 	void YAMLEmitterImpl::BeginDocument() {
-- 
2.43.0


From 10d3d9bf2c575b0590f5574a0e5c3ee4097cc33e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:41:12 +0000
Subject: [PATCH 26/59] fix: flush the output after YAML documents and payload
 padding

---
 src/Payload.cc     | 2 +-
 src/YAMLEmitter.cc | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index c731d41..d75c77b 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -197,8 +197,8 @@ namespace libvariant {
 					to_write -= num;
 				}
 			}
-			out->Flush();
 		}
+		out->Flush();
 	}
 
 	class ProxyInput : public ParserInput {
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 8d04aae..2e17312 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -369,6 +369,7 @@ namespace libvariant {
 		if (yaml_emitter_flush(&emitter) == 0) {
 			throw std::runtime_error(emitter.problem);
 		}
+		out->Flush();
 	}
 
 	void YAMLEmitterImpl::Close() {
-- 
2.43.0


From b94486517effe8074aa3cd823ed5451e4509bdf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:44:10 +0000
Subject: [PATCH 27/59] fix: never write past the end of a memory output

---
 src/EmitterOutput.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/EmitterOutput.cc b/src/EmitterOutput.cc
index 5229910..7b5c5fb 100644
--- a/src/EmitterOutput.cc
+++ b/src/EmitterOutput.cc
@@ -90,7 +90,7 @@ namespace libvariant {
    	}
 
 	EmitterMemoryOutput::EmitterMemoryOutput(void *ptr, unsigned len, unsigned *out_len)
-		: data_ptr(ptr), length(len), out_length(out_len)
+		: data_ptr(ptr), length(len), out_length_dummy(0), out_length(out_len)
    	{
 		if (0 == out_length) {
 			out_length = &out_length_dummy;
@@ -98,7 +98,7 @@ namespace libvariant {
 	}
 
 	unsigned EmitterMemoryOutput::Write(const void *ptr, unsigned len) {
-		if (*out_length + len > length) {
+		if (*out_length > length || len > length - *out_length) {
 			throw std::length_error("Emitter memory output buffer to small.");
 		}
 		memcpy(((char*)data_ptr + *out_length), ptr, len);
-- 
2.43.0


From a18717cd8adb5c2b9cd06c2ee75b0c7b58c4fd1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:54:20 +0000
Subject: [PATCH 28/59] fix: contain errors in the XML, YAML and curl input
 callbacks

---
 src/SchemaLoader.cc   |  6 +++++-
 src/XMLPLISTParser.cc | 14 +++++++++-----
 src/YAMLParser.cc     | 20 ++++++++++++--------
 3 files changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index f688427..b2ddd6b 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -546,7 +546,11 @@ namespace libvariant {
 	};
 
 	size_t CurlContextWrite(char *ptr, size_t size, size_t nmemb, void *userdata) {
-		return ((CurlContext*)userdata)->Write(ptr, size*nmemb);
+		try {
+			return ((CurlContext*)userdata)->Write(ptr, size*nmemb);
+		} catch (...) {
+			return 0;
+		}
 	}
 
 	bool AdvSchemaLoader::LoadFromCurl(URIInfo &info, LoaderError &error) {
diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index cfbaf33..c2cd193 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -359,11 +359,15 @@ namespace libvariant {
 	int XMLPLISTParserImpl::do_read(void *ctx, char *buffer, int len) {
 		XMLPLISTParserImpl *impl = (XMLPLISTParserImpl*)ctx;
 		unsigned l = len;
-		const void *ptr = impl->input->GetPtr(l);
-		if (!ptr) { return 0; }
-		l = std::min<unsigned>(len, l);
-		memcpy(buffer, ptr, l);
-		impl->input->Release(l);
+		try {
+			const void *ptr = impl->input->GetPtr(l);
+			if (!ptr) { return 0; }
+			l = std::min<unsigned>(len, l);
+			memcpy(buffer, ptr, l);
+			impl->input->Release(l);
+		} catch (...) {
+			return -1;
+		}
 		return l;
 	}
 
diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index 73a03d7..64baad9 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -32,14 +32,18 @@ namespace libvariant {
 	int YAMLParserImpl::ParserReadHandler(void *data, unsigned char *buffer, size_t size, size_t *sizein) {
 		YAMLParserImpl *impl = (YAMLParserImpl*)data;
 		unsigned len = size;
-		const void *ptr = impl->input->GetPtr(len);
-		if (!ptr) {
-			*sizein = 0;
-		   	return 1;
-	   	}
-		*sizein = std::min<unsigned>(size, len);
-		memcpy(buffer, ptr, *sizein);
-		impl->input->Release(*sizein);
+		try {
+			const void *ptr = impl->input->GetPtr(len);
+			if (!ptr) {
+				*sizein = 0;
+				return 1;
+			}
+			*sizein = std::min<unsigned>(size, len);
+			memcpy(buffer, ptr, *sizein);
+			impl->input->Release(*sizein);
+		} catch (...) {
+			return 0;
+		}
 		return 1;
 	}
 
-- 
2.43.0


From d11ce9a30a56c975b58125e2b2f87db0713e5d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:57:10 +0000
Subject: [PATCH 29/59] fix: check that the YAML parser could be initialised

---
 src/YAMLParser.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/YAMLParser.cc b/src/YAMLParser.cc
index 64baad9..e4c6bcc 100644
--- a/src/YAMLParser.cc
+++ b/src/YAMLParser.cc
@@ -50,7 +50,9 @@ namespace libvariant {
 	YAMLParserImpl::YAMLParserImpl(shared_ptr<ParserInput> in)
 		: input(in), eof(false), err(false)
 	{
-		yaml_parser_initialize(&parser);
+		if (yaml_parser_initialize(&parser) == 0) {
+			throw std::bad_alloc();
+		}
 		yaml_parser_set_input(&parser, &ParserReadHandler, this);
 	}
 
@@ -192,7 +194,9 @@ namespace libvariant {
 		eof = false;
 		err = false;
 		yaml_parser_delete(&parser);
-		yaml_parser_initialize(&parser);
+		if (yaml_parser_initialize(&parser) == 0) {
+			throw std::bad_alloc();
+		}
 		yaml_parser_set_input(&parser, &ParserReadHandler, this);
 	}
 }
-- 
2.43.0


From 4ae57bc1ec0c12728951cb334f623f453cd68fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:09 +0000
Subject: [PATCH 30/59] fix: do not free a YAML event the emitter already owns

yaml_emitter_emit takes ownership of the event even when it fails, so
deleting it again freed its strings twice once the emitter was closed.
---
 src/YAMLEmitter.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index 2e17312..dc22994 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -412,8 +412,8 @@ namespace libvariant {
 	}
 
 	void YAMLEmitterImpl::Emit(yaml_event_t &event) {
+		// The emitter owns the event from here on, even if this fails.
 		if (yaml_emitter_emit(&emitter, &event) == 0) {
-			yaml_event_delete(&event);
 			throw std::runtime_error(emitter.problem);
 		}
 	}
-- 
2.43.0


From a71585b2a4eb151a3301a518e38d2786fbca9af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:49 +0000
Subject: [PATCH 31/59] fix: release the transfer handle when setting it up
 fails

The destructor of the transfer context does not run when its constructor
throws, for example because the URI is longer than the library accepts.
---
 src/SchemaLoader.cc | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index b2ddd6b..24bea90 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -507,15 +507,20 @@ namespace libvariant {
 				oss << "Unable to initialize curl to fetch uri: " << info.href;
 				throw std::runtime_error(oss.str());
 			}
-			CURLcode err = curl_easy_setopt(self, CURLOPT_NOSIGNAL, 1);
-			if (err != CURLE_OK) { Error(err); }
-			err = curl_easy_setopt(self, CURLOPT_WRITEFUNCTION, &CurlContextWrite);
-			if (err != CURLE_OK) { Error(err); }
-			err = curl_easy_setopt(self, CURLOPT_WRITEDATA, (void*)this);
-			if (err != CURLE_OK) { Error(err); }
-			uri = info.protocol + info.authority + info.pathname + info.search;
-			err = curl_easy_setopt(self, CURLOPT_URL, uri.c_str());
-			if (err != CURLE_OK) { Error(err); }
+			try {
+				CURLcode err = curl_easy_setopt(self, CURLOPT_NOSIGNAL, 1);
+				if (err != CURLE_OK) { Error(err); }
+				err = curl_easy_setopt(self, CURLOPT_WRITEFUNCTION, &CurlContextWrite);
+				if (err != CURLE_OK) { Error(err); }
+				err = curl_easy_setopt(self, CURLOPT_WRITEDATA, (void*)this);
+				if (err != CURLE_OK) { Error(err); }
+				uri = info.protocol + info.authority + info.pathname + info.search;
+				err = curl_easy_setopt(self, CURLOPT_URL, uri.c_str());
+				if (err != CURLE_OK) { Error(err); }
+			} catch (...) {
+				curl_easy_cleanup(self);
+				throw;
+			}
 		}
 
 		~CurlContext() {
-- 
2.43.0


From c06fd43dd46659aeb003368f79bf20346bca55ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:06:56 +0000
Subject: [PATCH 32/59] fix: copy the option value before compiling its pattern

A failing copy would have left the compiled pattern allocated.
---
 src/ArgParse.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 1b8235a..713f9e4 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1407,6 +1407,7 @@ namespace libvariant {
 			}
 			if (opt.Contains("pattern")) {
 				std::string pat = opt["pattern"].AsString();
+				std::string str = val.AsString();
 				regex_t reg;
 				memset(&reg, 0, sizeof(regex_t));
 				int err;
@@ -1419,7 +1420,7 @@ namespace libvariant {
 						<< &buffer[0];
 					throw std::runtime_error(oss.str());
 				}
-				if (regexec(&reg, val.AsString().c_str(), 0, 0, 0) != 0) {
+				if (regexec(&reg, str.c_str(), 0, 0, 0) != 0) {
 					regfree(&reg);
 					std::ostringstream oss;
 					oss << "Error parsing arguments\n";
-- 
2.43.0


From c17d76f69f0d354703c46fd362968822999963f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:09 +0000
Subject: [PATCH 33/59] fix: stop validation when the schema recursion limit is
 reached inside anyOf, oneOf or not

---
 src/Schema.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 73e651f..70d9a1d 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -43,6 +43,15 @@ namespace libvariant {
 		virtual const char *what() const throw() { return "stop validation"; }
 	};
 
+	// Not a StopValidation: a combination like "anyOf" must not treat this as
+	// a mismatch and go on with the next alternative.
+	struct RecursionLimit : public std::exception {
+		RecursionLimit(const SchemaError &e) : error(e) {}
+		virtual ~RecursionLimit() throw() {}
+		virtual const char *what() const throw() { return "schema recursion limit"; }
+		SchemaError error;
+	};
+
 	struct SchemaContext {
 		SchemaContext(const SchemaContext &o)
 		   	: data_path(o.data_path),
@@ -76,8 +85,7 @@ namespace libvariant {
 			if (depth > RECURSION_LIMIT) {
 				std::ostringstream oss;
 				oss << "SchemaValidate reached recursion limit.";
-				AddSchemaError(oss.str());
-				throw StopValidation();
+				throw RecursionLimit(SchemaError(oss.str(), schema_path));
 			}
 		}
 
@@ -837,7 +845,10 @@ namespace libvariant {
 		SchemaContext ctx(&lloader);
 		try {
 			SchemaValidate(ctx, schema, data);
-		} catch (const StopValidation &) {}
+		} catch (const StopValidation &) {
+		} catch (const RecursionLimit &limit) {
+			ctx.AddSchemaError(limit.error);
+		}
 		return ctx.result;
 	}
 
-- 
2.43.0


From 3be4c53a2ef8004c552b2e3b4f8cd1bb391a2cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:30:17 +0000
Subject: [PATCH 34/59] fix: bound the recursion of AddSchemaDefaults on
 self-referential schemas

---
 src/Schema.cc | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 70d9a1d..747cbe4 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -852,20 +852,24 @@ namespace libvariant {
 		return ctx.result;
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader);
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader, unsigned depth);
 
-	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, SchemaLoader *loader) {
+	void AddSchemaListDefaultsImpl(VariantRef slist, VariantRef data, SchemaLoader *loader, unsigned depth) {
 		if (slist.Exists() && slist.IsList()) {
 			for (Variant::ListIterator i(slist.ListBegin()), e(slist.ListEnd()); i != e; ++i) {
-				AddSchemaDefaultsImpl(*i, data, loader);
+				AddSchemaDefaultsImpl(*i, data, loader, depth);
 			}
 		}
 	}
 
-	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader) {
+	void AddSchemaDefaultsImpl(Variant schema, VariantRef data, SchemaLoader *loader, unsigned depth) {
+		depth += 1;
+		if (depth > RECURSION_LIMIT) {
+			throw std::runtime_error("AddSchemaDefaults reached recursion limit.");
+		}
 		if (!schema.IsMap()) { return; }
 		if (schema.Contains("$ref") && schema["$ref"].IsString()) {
-			AddSchemaDefaultsImpl(loader->GetSchema(schema["$ref"].AsString()), data, loader);
+			AddSchemaDefaultsImpl(loader->GetSchema(schema["$ref"].AsString()), data, loader, depth);
 		}
 		if (schema.Contains("default") && (!data.Exists() || data.IsNull())) {
 			data = schema["default"].Copy();
@@ -875,22 +879,22 @@ namespace libvariant {
 			for (Variant::MapIterator i(schema["properties"].MapBegin()), e(schema["properties"].MapEnd());
 					i != e; ++i)
 			{
-				AddSchemaDefaultsImpl(i->second, data.At(i->first), loader);
+				AddSchemaDefaultsImpl(i->second, data.At(i->first), loader, depth);
 			}
 		}
 		if (schema.Contains("items") && (!data.Exists() || data.IsList())) {
 			if (schema["items"].IsList()) {
 				for (unsigned i = 0; i < schema["items"].Size(); ++i)
 				{
-					AddSchemaDefaultsImpl(schema["items"][i], data[i], loader);
+					AddSchemaDefaultsImpl(schema["items"][i], data[i], loader, depth);
 				}
 			} else {
-				AddSchemaDefaultsImpl(schema["items"], data[0], loader);
+				AddSchemaDefaultsImpl(schema["items"], data[0], loader, depth);
 			}
 		}
-		AddSchemaListDefaultsImpl(schema["allOf"], data, loader);
-		AddSchemaListDefaultsImpl(schema["oneOf"], data, loader);
-		AddSchemaListDefaultsImpl(schema["anyOf"], data, loader);
+		AddSchemaListDefaultsImpl(schema["allOf"], data, loader, depth);
+		AddSchemaListDefaultsImpl(schema["oneOf"], data, loader, depth);
+		AddSchemaListDefaultsImpl(schema["anyOf"], data, loader, depth);
 	}
 
 	void AddSchemaDefaults(Variant schema, VariantRef data, SchemaLoader *loader) {
@@ -903,7 +907,7 @@ namespace libvariant {
 		}
 		schema = schema.Copy(); // AddSchema normalizes in place
 		lloader.AddSchema("", schema);
-		AddSchemaDefaultsImpl(schema, data, &lloader);
+		AddSchemaDefaultsImpl(schema, data, &lloader, 0);
 	}
 
 	void InsertIndent(std::ostream &os, unsigned indent) {
-- 
2.43.0


From 8b055251a57aea7026bddec10d8758d1a43c18e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:14 +0000
Subject: [PATCH 35/59] fix: do not let XML documents pull in external entities

---
 src/XMLPLISTParser.cc | 40 +++++++++++++++++++++++++++++++---------
 src/XMLPLISTParser.h  |  2 ++
 2 files changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index c2cd193..58d83b1 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -93,18 +93,22 @@ namespace libvariant {
 					const char *name = (const char*)xmlTextReaderConstName(reader);
 					switch (node_type) {
 					case XML_READER_TYPE_ELEMENT:
+						ProcessText(TopAction());
 						loop = BeginElement(TopAction(), StringToNode(name));
 						break;
 					case XML_READER_TYPE_END_ELEMENT:
+						ProcessText(TopAction());
 						loop = EndElement(TopAction(), StringToNode(name));
 						break;
 					case XML_READER_TYPE_TEXT:
-						loop = ProcessText(TopAction());
+						text += (const char*)xmlTextReaderConstValue(reader);
+						break;
+					case XML_READER_TYPE_ENTITY_REFERENCE:
+						AppendEntity();
 						break;
 					case XML_READER_TYPE_END_ENTITY:
 					case XML_READER_TYPE_ATTRIBUTE:
 					case XML_READER_TYPE_CDATA:
-					case XML_READER_TYPE_ENTITY_REFERENCE:
 					case XML_READER_TYPE_ENTITY:
 					case XML_READER_TYPE_PROCESSING_INSTRUCTION:
 					case XML_READER_TYPE_COMMENT:
@@ -221,7 +225,24 @@ namespace libvariant {
 		}
 	}
 
+	void XMLPLISTParserImpl::AppendEntity() {
+		// Only plain text declared in the document itself, a document must not
+		// be able to pull in other files.
+		xmlNodePtr node = xmlTextReaderCurrentNode(reader);
+		xmlEntityPtr entity = node ? xmlGetDocEntity(node->doc, node->name) : 0;
+		if (!entity || entity->etype != XML_INTERNAL_GENERAL_ENTITY
+				|| !entity->content || strpbrk((const char*)entity->content, "<&")) {
+			err = true;
+			errorstr = "libvariant XML PLIST only allows plain text entities";
+			throw std::runtime_error(errorstr);
+		}
+		text += (const char*)entity->content;
+	}
+
 	bool XMLPLISTParserImpl::ProcessText(ParserActions *action) {
+		if (text.empty()) { return true; }
+		std::string current;
+		current.swap(text);
 		switch (statestack.back()) {
 		case NullNode:
 		case RootNode:
@@ -233,7 +254,7 @@ namespace libvariant {
 		case IntegerNode:
 			{
 				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
+				const char *value = current.c_str();
 				intmax_t val;
 				val = strtoll(value, 0, 0);
 				if (val == LLONG_MAX && errno == ERANGE) {
@@ -248,7 +269,7 @@ namespace libvariant {
 		case FloatNode:
 			{
 				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
+				const char *value = current.c_str();
 				double val = strtod(value, 0);
 				action->Scalar(this, val, 0, 0);
 			}
@@ -256,14 +277,14 @@ namespace libvariant {
 		case StringNode:
 			{
 				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
+				const char *value = current.c_str();
 				action->Scalar(this, value, strlen(value), 0, 0);
 			}
 			return true;
 		case BlobNode:
 			{
 				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
+				const char *value = current.c_str();
 				unsigned length = strlen(value);
 				void *data = 0;
 				if (posix_memalign(&data, 64, Base64DecodeSize(length)) != 0) {
@@ -278,7 +299,7 @@ namespace libvariant {
 		case KeyNode:
 			{
 				empty = false;
-				const char *value = (const char*)xmlTextReaderConstValue(reader);
+				const char *value = current.c_str();
 				action->Scalar(this, value, strlen(value), 0, 0);
 			}
 			return true;
@@ -381,7 +402,7 @@ namespace libvariant {
 		: input(in), closed(false), err(false)
    	{
 		reader = xmlReaderForIO(do_read, do_close, this, 0, 0,
-				XML_PARSE_NOENT|XML_PARSE_NOCDATA);
+				XML_PARSE_NONET|XML_PARSE_NOCDATA);
 		if (!reader) {
 			HandleError("xmlReaderForIO");
 		}
@@ -415,11 +436,12 @@ namespace libvariant {
 		xmlFreeTextReader(reader);
 		reader = 0;
 		reader = xmlReaderForIO(do_read, do_close, this, 0, 0,
-				XML_PARSE_NOENT|XML_PARSE_NOCDATA);
+				XML_PARSE_NONET|XML_PARSE_NOCDATA);
 		if (!reader) {
 			HandleError("xmlReaderForIO");
 		}
 		statestack.push_back(StartState);
+		text.clear();
 		closed = false;
 		err = false;
 
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index 6802ef0..0fef6e1 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -60,6 +60,7 @@ namespace libvariant {
 	private:
 		bool BeginElement(ParserActions *action, State_t nodetype);
 		bool ProcessText(ParserActions *action);
+		void AppendEntity();
 		bool EndElement(ParserActions *action, State_t nodetype);
 		void Close();
 		void HandleError(const char *fnname);
@@ -74,6 +75,7 @@ namespace libvariant {
 		bool closed;
 		bool empty;
 		bool err;
+		std::string text;
 		std::string errorstr;
 	};
 }
-- 
2.43.0


From 87fd195f1d9883b641ef1d3e152a33f5ac231ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:49:30 +0000
Subject: [PATCH 36/59] fix: keep strings of white space when reading XML

---
 src/XMLPLISTParser.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 58d83b1..440fcfc 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -103,6 +103,12 @@ namespace libvariant {
 					case XML_READER_TYPE_TEXT:
 						text += (const char*)xmlTextReaderConstValue(reader);
 						break;
+					case XML_READER_TYPE_WHITESPACE:
+					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
+						if (statestack.back() == StringNode || statestack.back() == KeyNode) {
+							text += (const char*)xmlTextReaderConstValue(reader);
+						}
+						break;
 					case XML_READER_TYPE_ENTITY_REFERENCE:
 						AppendEntity();
 						break;
@@ -116,8 +122,6 @@ namespace libvariant {
 					case XML_READER_TYPE_DOCUMENT_TYPE:
 					case XML_READER_TYPE_DOCUMENT_FRAGMENT:
 					case XML_READER_TYPE_NOTATION:
-					case XML_READER_TYPE_WHITESPACE:
-					case XML_READER_TYPE_SIGNIFICANT_WHITESPACE:
 					case XML_READER_TYPE_XML_DECLARATION:
 					case XML_READER_TYPE_NONE:
 					default:
-- 
2.43.0


From 361184a6fd3d3aa6543ed387e898250be5b2d748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:50:04 +0000
Subject: [PATCH 37/59] fix: read XML documents whose root is a single scalar

---
 src/XMLPLISTParser.cc | 12 ++++++------
 src/XMLPLISTParser.h  |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 440fcfc..572fdd7 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -98,7 +98,7 @@ namespace libvariant {
 						break;
 					case XML_READER_TYPE_END_ELEMENT:
 						ProcessText(TopAction());
-						loop = EndElement(TopAction(), StringToNode(name));
+						loop = EndElement(StringToNode(name));
 						break;
 					case XML_READER_TYPE_TEXT:
 						text += (const char*)xmlTextReaderConstValue(reader);
@@ -315,7 +315,7 @@ namespace libvariant {
 
 	}
 
-	bool XMLPLISTParserImpl::EndElement(ParserActions *action, State_t nodetype) {
+	bool XMLPLISTParserImpl::EndElement(State_t nodetype) {
 		if (statestack.back() != nodetype) {
 			err = true;
 			errorstr = "libvariant XML PLIST parser in inconsistent state";
@@ -344,16 +344,16 @@ namespace libvariant {
 			return false;
 		case StringNode:
 		case KeyNode:
-			if (empty) { action->Scalar(this, "", 0, 0, 0); }
+			if (empty) { TopAction()->Scalar(this, "", 0, 0, 0); }
 			return false;
 		case RootNode:
-			action->EndDocument(this);
+			TopAction()->EndDocument(this);
 			return false;
 		case MapNode:
-			action->EndMap(this);
+			TopAction()->EndMap(this);
 			return false;
 		case ListNode:
-			action->EndList(this);
+			TopAction()->EndList(this);
 			return false;
 		default:
 			err = true;
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index 0fef6e1..c427ec5 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -61,7 +61,7 @@ namespace libvariant {
 		bool BeginElement(ParserActions *action, State_t nodetype);
 		bool ProcessText(ParserActions *action);
 		void AppendEntity();
-		bool EndElement(ParserActions *action, State_t nodetype);
+		bool EndElement(State_t nodetype);
 		void Close();
 		void HandleError(const char *fnname);
 
-- 
2.43.0


From cbe6dbf49903504c52b6b6908cad1ff4f2c96f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:09:25 +0000
Subject: [PATCH 38/59] fix: give every scalar member a value in constructors

---
 include/Variant/Path.h |  4 ++--
 src/EventBuffer.h      | 12 ++++++------
 src/Extensions.cc      |  2 +-
 src/XMLPLISTParser.cc  |  2 +-
 src/varsh.cc           |  4 +++-
 5 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/Variant/Path.h b/include/Variant/Path.h
index 6c38c5c..5c46d34 100644
--- a/include/Variant/Path.h
+++ b/include/Variant/Path.h
@@ -65,8 +65,8 @@ namespace libvariant {
 	class PathElement {
 	public:
 		enum Type_t { INDEX, KEY };
-		PathElement(const std::string &k) : type(KEY), key(k) {}
-		PathElement(const char *k) : type(KEY), key(k) {}
+		PathElement(const std::string &k) : type(KEY), index(0), key(k) {}
+		PathElement(const char *k) : type(KEY), index(0), key(k) {}
 		PathElement(unsigned i) : type(INDEX), index(i) {}
 
 		bool IsNumber() const { return type == INDEX; }
diff --git a/src/EventBuffer.h b/src/EventBuffer.h
index b38a447..f069e25 100644
--- a/src/EventBuffer.h
+++ b/src/EventBuffer.h
@@ -82,12 +82,12 @@ namespace libvariant {
 		struct Event {
 			Event(EventType_t t, Event *p) : type(t), parent(p), key(true) { val.len = 0; }
 
-			Event(Event *p, const char *str) : type(SCALAR_STRING), parent(p), s(str) {}
-			Event(Event *p, intmax_t v) : type(SCALAR_INT), parent(p) { val.i = v; }
-			Event(Event *p, uintmax_t v) : type(SCALAR_UINT), parent(p) { val.u = v; }
-			Event(Event *p, double v) : type(SCALAR_FLOAT), parent(p) { val.d = v; }
-			Event(Event *p, bool v) : type(SCALAR_BOOL), parent(p) { val.b = v; }
-			Event(Event *p, ConstBlobPtr b) : type(SCALAR_BLOB), parent(p), blob(b) {}
+			Event(Event *p, const char *str) : type(SCALAR_STRING), parent(p), key(false), s(str) { val.len = 0; }
+			Event(Event *p, intmax_t v) : type(SCALAR_INT), parent(p), key(false) { val.i = v; }
+			Event(Event *p, uintmax_t v) : type(SCALAR_UINT), parent(p), key(false) { val.u = v; }
+			Event(Event *p, double v) : type(SCALAR_FLOAT), parent(p), key(false) { val.d = v; }
+			Event(Event *p, bool v) : type(SCALAR_BOOL), parent(p), key(false) { val.b = v; }
+			Event(Event *p, ConstBlobPtr b) : type(SCALAR_BLOB), parent(p), key(false), blob(b) { val.len = 0; }
 
 		private:
 			void Update() {
diff --git a/src/Extensions.cc b/src/Extensions.cc
index acaf921..bbe17f3 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -318,7 +318,7 @@ namespace libvariant {
 	};
 
 	struct Operation_t {
-		Operation_t() {}
+		Operation_t() : op(OP_GET), success(false), guess(false), replaced(false) {}
 		Operation_t(Operations_e o, const std::string &p)
 		   	: op(o), success(false), guess(false), replaced(false), pointer(p) {}
 
diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 572fdd7..613a97a 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -403,7 +403,7 @@ namespace libvariant {
 	}
 
 	XMLPLISTParserImpl::XMLPLISTParserImpl(shared_ptr<ParserInput> in)
-		: input(in), closed(false), err(false)
+		: input(in), closed(false), err(false), empty(false)
    	{
 		reader = xmlReaderForIO(do_read, do_close, this, 0, 0,
 				XML_PARSE_NONET|XML_PARSE_NOCDATA);
diff --git a/src/varsh.cc b/src/varsh.cc
index 3595288..d086d3f 100644
--- a/src/varsh.cc
+++ b/src/varsh.cc
@@ -34,6 +34,8 @@ using namespace std;
 using namespace libvariant;
 
 struct State {
+	State() : stype(SERIALIZE_JSON) {}
+
 	SerializeType stype;
 	AdvSchemaLoader loader;
 	Variant conf;
@@ -41,7 +43,7 @@ struct State {
 
 void Process(State &state, ostream &out, istream &in) {
 	Variant data;
-	SerializeType itype;
+	SerializeType itype = SERIALIZE_GUESS;
 	if (state.conf.Get("guess-in", false).AsBool()) { itype = SERIALIZE_GUESS; }
 	if (state.conf.Get("json-in", false).AsBool()) { itype = SERIALIZE_JSON; }
 	if (state.conf.Get("yaml-in", false).AsBool()) { itype = SERIALIZE_YAML; }
-- 
2.43.0


From 0dac32411c1723f58fe84633ac4e63e29af2ece9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:16:12 +0000
Subject: [PATCH 39/59] fix: raise an error for an unknown parser format

---
 src/Parser.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Parser.cc b/src/Parser.cc
index a554b05..3799797 100644
--- a/src/Parser.cc
+++ b/src/Parser.cc
@@ -83,8 +83,9 @@ namespace libvariant {
 		case SERIALIZE_MSGPACK:
 			return MsgPackParser(i);
 		case SERIALIZE_YAML:
-		default:
 			return YAMLParser(i);
+		default:
+			throw std::runtime_error("libvariant: Unsupported parser serialization type.");
 		}
 	}
 
-- 
2.43.0


From 3e1ecb4603c9de1604ead8bec8a686b9376f4fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:01 +0000
Subject: [PATCH 40/59] fix: read JSON integers that fit no integer type as
 floating point instead of clamping them

---
 lib/json/JSON_parser.c | 21 +++++++++++++++------
 lib/json/JSON_parser.h |  4 ++++
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/lib/json/JSON_parser.c b/lib/json/JSON_parser.c
index 393b3fc..81cfe2a 100644
--- a/lib/json/JSON_parser.c
+++ b/lib/json/JSON_parser.c
@@ -58,6 +58,7 @@ SOFTWARE.
 
 #include <assert.h>
 #include <ctype.h>
+#include <errno.h>
 #include <float.h>
 #include <stddef.h>
 #include <stdio.h>
@@ -480,11 +481,23 @@ static int parse_parse_buffer(JSON_parser jc)
 {
     if (jc->callback) {
         JSON_value value, *arg = NULL;
+        int type = jc->type;
         
         if (jc->type != JSON_T_NONE) {
             assert_is_non_container_type(jc);
         
-            switch(jc->type) {
+            /* an integer that does not fit is passed on as floating point */
+            errno = 0;
+            if (type == JSON_T_INTEGER) {
+                value.vu.integer_value = JSON_PARSER_STRTOINT(jc->parse_buffer, NULL, 10);
+            } else if (type == JSON_T_UNSIGNED) {
+                value.vu.unsigned_value = JSON_PARSER_STRTOUINT(jc->parse_buffer, NULL, 10);
+            }
+            if (errno == ERANGE) {
+                type = JSON_T_FLOAT;
+            }
+
+            switch(type) {
                 case JSON_T_FLOAT:
                     arg = &value;
                     if (jc->handle_floats_manually) {
@@ -496,12 +509,8 @@ static int parse_parse_buffer(JSON_parser jc)
                     }
                     break;
                 case JSON_T_INTEGER:
-                    arg = &value;
-                    sscanf(jc->parse_buffer, JSON_PARSER_INTEGER_SSCANF_TOKEN, &value.vu.integer_value);
-                    break;
                 case JSON_T_UNSIGNED:
                     arg = &value;
-                    sscanf(jc->parse_buffer, JSON_PARSER_UNSIGNED_SSCANF_TOKEN, &value.vu.unsigned_value);
                     break;
                 case JSON_T_STRING:
                     arg = &value;
@@ -510,7 +519,7 @@ static int parse_parse_buffer(JSON_parser jc)
                     break;
             }
             
-            if (!(*jc->callback)(jc->ctx, jc->type, arg)) {
+            if (!(*jc->callback)(jc->ctx, type, arg)) {
                 return false;
             }
         }
diff --git a/lib/json/JSON_parser.h b/lib/json/JSON_parser.h
index 93207a3..9e2539e 100644
--- a/lib/json/JSON_parser.h
+++ b/lib/json/JSON_parser.h
@@ -26,6 +26,8 @@ typedef unsigned long long JSON_uint_t;
 #define JSON_PARSER_INTEGER_SPRINTF_TOKEN "%lld"
 #define JSON_PARSER_UNSIGNED_SSCANF_TOKEN "%llu"
 #define JSON_PARSER_UNSIGNED_SPRINTF_TOKEN "%llu"
+#define JSON_PARSER_STRTOINT strtoll
+#define JSON_PARSER_STRTOUINT strtoull
 #else 
 typedef long JSON_int_t;
 typedef unsigned long JSON_uint_t;
@@ -33,6 +35,8 @@ typedef unsigned long JSON_uint_t;
 #define JSON_PARSER_INTEGER_SPRINTF_TOKEN "%ld"
 #define JSON_PARSER_UNSIGNED_SSCANF_TOKEN "%lu"
 #define JSON_PARSER_UNSIGNED_SPRINTF_TOKEN "%lu"
+#define JSON_PARSER_STRTOINT strtol
+#define JSON_PARSER_STRTOUINT strtoul
 #endif
 
 
-- 
2.43.0


From 8e3591156a35c770fa65615ee0a74f44ed458649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:01 +0000
Subject: [PATCH 41/59] fix: do not clamp out of range negative, octal and
 hexadecimal YAML integers, and reset errno before testing it

---
 src/GuessScalar.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index 5094271..3a268fc 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -80,22 +80,36 @@ namespace libvariant {
 				action->Scalar(p, false, anchor, tag);
 			} else if (match[MATCH_INT10].rm_so != -1) {
 				long long val;
+				errno = 0;
 				val = strtoll(&value[match[MATCH_INT10].rm_so], 0, 10);
 				if (val == LLONG_MAX && errno == ERANGE) {
 					unsigned long long v;
 					v = strtoull(&value[match[MATCH_INT10].rm_so], 0, 10);
 					action->Scalar(p, uintmax_t(v), anchor, tag);
+				} else if (errno == ERANGE) {
+					// Fits no integer type
+					action->Scalar(p, strtod(&value[match[MATCH_INT10].rm_so], 0), anchor, tag);
 				} else {
 					action->Scalar(p, intmax_t(val), anchor, tag);
 				}
 			} else if (match[MATCH_INT8].rm_so != -1) {
 				unsigned long long val;
+				errno = 0;
 				val = strtoull(&value[match[MATCH_INT8].rm_so], 0, 8);
-				action->Scalar(p, uintmax_t(val), anchor, tag);
+				if (errno == ERANGE) {
+					action->Scalar(p, value, length, anchor, tag);
+				} else {
+					action->Scalar(p, uintmax_t(val), anchor, tag);
+				}
 			} else if (match[MATCH_INT16].rm_so != -1) {
 				unsigned long long val;
+				errno = 0;
 				val = strtoull(&value[match[MATCH_INT16].rm_so], 0, 16);
-				action->Scalar(p, uintmax_t(val), anchor, tag);
+				if (errno == ERANGE) {
+					action->Scalar(p, value, length, anchor, tag);
+				} else {
+					action->Scalar(p, uintmax_t(val), anchor, tag);
+				}
 			} else if (match[MATCH_FLOAT].rm_so != -1) {
 				double val = strtod(&value[match[MATCH_FLOAT].rm_so], 0);
 				action->Scalar(p, val, anchor, tag);
-- 
2.43.0


From 2593eaf7b18e9c544ade1e190ebd1b8adb887ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:01 +0000
Subject: [PATCH 42/59] fix: reject XML plist numbers that are out of range or
 followed by other text

---
 src/XMLPLISTParser.cc | 39 ++++++++++++++++++++++++++++++++-------
 src/XMLPLISTParser.h  |  1 +
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index 613a97a..f5c3749 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -24,6 +24,7 @@
 #include <stdexcept>
 #include <stdlib.h>
 #include <string.h>
+#include <ctype.h>
 #include "XMLPLISTDefs.h"
 #include "Base64.h"
 
@@ -243,6 +244,17 @@ namespace libvariant {
 		text += (const char*)entity->content;
 	}
 
+	// end is where the conversion of value stopped
+	void XMLPLISTParserImpl::CheckNumber(const char *value, const char *end) {
+		bool valid = end != value;
+		while (isspace((unsigned char)*end)) { ++end; }
+		if (!valid || *end != '\0') {
+			err = true;
+			errorstr = std::string("libvariant XML PLIST invalid number: ") + value;
+			throw std::runtime_error(errorstr);
+		}
+	}
+
 	bool XMLPLISTParserImpl::ProcessText(ParserActions *action) {
 		if (text.empty()) { return true; }
 		std::string current;
@@ -259,14 +271,25 @@ namespace libvariant {
 			{
 				empty = false;
 				const char *value = current.c_str();
+				char *end = 0;
 				intmax_t val;
-				val = strtoll(value, 0, 0);
-				if (val == LLONG_MAX && errno == ERANGE) {
-					uintmax_t v;
-					v = strtoull(value, 0, 0);
-					action->Scalar(this, v, 0, 0);
-				} else {
+				errno = 0;
+				val = strtoll(value, &end, 0);
+				CheckNumber(value, end);
+				if (errno != ERANGE) {
 					action->Scalar(this, val, 0, 0);
+				} else {
+					uintmax_t v = 0;
+					if (val == LLONG_MAX) {
+						errno = 0;
+						v = strtoull(value, 0, 0);
+					}
+					if (val != LLONG_MAX || errno == ERANGE) {
+						err = true;
+						errorstr = "libvariant XML PLIST integer out of range: " + current;
+						throw std::runtime_error(errorstr);
+					}
+					action->Scalar(this, v, 0, 0);
 				}
 			}
 			return true;
@@ -274,7 +297,9 @@ namespace libvariant {
 			{
 				empty = false;
 				const char *value = current.c_str();
-				double val = strtod(value, 0);
+				char *end = 0;
+				double val = strtod(value, &end);
+				CheckNumber(value, end);
 				action->Scalar(this, val, 0, 0);
 			}
 			return true;
diff --git a/src/XMLPLISTParser.h b/src/XMLPLISTParser.h
index c427ec5..7881412 100644
--- a/src/XMLPLISTParser.h
+++ b/src/XMLPLISTParser.h
@@ -59,6 +59,7 @@ namespace libvariant {
 		virtual void Reset();
 	private:
 		bool BeginElement(ParserActions *action, State_t nodetype);
+		void CheckNumber(const char *value, const char *end);
 		bool ProcessText(ParserActions *action);
 		void AppendEntity();
 		bool EndElement(State_t nodetype);
-- 
2.43.0


From 4fdaff3ec9e4d230d6e5dcb951e1b6e2bdb03dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:01 +0000
Subject: [PATCH 43/59] fix: reject command line integers that are out of range
 and negative unsigned values

---
 src/ArgParse.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 713f9e4..20b1289 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1522,10 +1522,11 @@ namespace libvariant {
 		{
 			long long val;
 			char *end = 0;
+			errno = 0;
 			val = strtoll(arg, &end, 10);
 			if (val == 0 && end == arg) { ParseArgIntError(arg); }
 			if (arg + len != end) { ParseArgIntError(arg); }
-			if (!(val == LLONG_MAX && errno == ERANGE)) {
+			if (errno != ERANGE) {
 				return Variant(val);
 			}
 		} // Fall through
@@ -1533,9 +1534,12 @@ namespace libvariant {
 		{
 			char *end = 0;
 			unsigned long long val;
+			if (strchr(arg, '-')) { ParseArgIntError(arg); }
+			errno = 0;
 			val = strtoull(arg, &end, 10);
 			if (val == 0 && end == arg) { ParseArgIntError(arg); }
 			if (arg + len != end) { ParseArgIntError(arg); }
+			if (errno == ERANGE) { ParseArgIntError(arg); }
 			return Variant(val);
 		}
 		case Variant::FloatType:
-- 
2.43.0


From ed3f2e6edac62970eb339699fd51b24efb4898d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:01 +0000
Subject: [PATCH 44/59] fix: reject signs and trailing text in path indices,
 pointer indices and percent escapes

---
 src/Extensions.cc   | 2 ++
 src/Path.cc         | 2 +-
 src/SchemaLoader.cc | 3 ++-
 3 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Extensions.cc b/src/Extensions.cc
index bbe17f3..9c5d695 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -26,6 +26,7 @@
 #include <Variant/Path.h>
 #include <stdlib.h>
 #include <ctype.h>
+#include <string.h>
 #include <set>
 #include <limits>
 
@@ -335,6 +336,7 @@ namespace libvariant {
 	static bool IsIndex(const std::string &str, unsigned &index) {
 		const char *b = str.c_str();
 		char *e = 0;
+		if (strchr(b, '-')) { return false; }
 		unsigned long long v = strtoull(b, &e, 10);
 		if (e == b) { return false; }
 		while (e != 0 && *e != '\0' && isspace(*e)) { ++e; }
diff --git a/src/Path.cc b/src/Path.cc
index 100afae..0c6c609 100644
--- a/src/Path.cc
+++ b/src/Path.cc
@@ -22,7 +22,7 @@ namespace libvariant {
 				if (*c == ']') {
 					std::istringstream iss(frag);
 					unsigned i = 0;
-					if (!(iss >> i)) {
+					if (frag.find_first_not_of("0123456789") != std::string::npos || !(iss >> i)) {
 						throw std::runtime_error("Error parsing Variant path: \"" + frag + "\" is not a number.");
 					}
 					parsed_path.push_back(i);
diff --git a/src/SchemaLoader.cc b/src/SchemaLoader.cc
index 24bea90..a705d2d 100644
--- a/src/SchemaLoader.cc
+++ b/src/SchemaLoader.cc
@@ -27,6 +27,7 @@
 #include <stdexcept>
 #include <sstream>
 #include <string.h>
+#include <ctype.h>
 #ifdef ENABLE_CURL
 #include <curl/curl.h>
 #endif
@@ -100,7 +101,7 @@ namespace libvariant {
 					char hex[3] = { *(c+1), *(c+2), 0 };
 					char *endp = 0;
 					long hexv = strtol(hex, &endp, 16);
-					if (*endp != 0) {
+					if (*endp != 0 || !isxdigit((unsigned char)hex[0])) {
 						ret.append(c, 3);
 					} else {
 						ret.append(1, (char)hexv);
-- 
2.43.0


From 25eb2d47fb83d0cd7ea9ce4e9a6e252c2118fdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:37:01 +0000
Subject: [PATCH 45/59] fix: do not wrap negative text around when converting a
 string to an unsigned

---
 src/Variant.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 8cabbd9..705849c 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1062,7 +1062,7 @@ namespace libvariant {
 			std::istringstream iss(*that->s);
 			uintmax_t val = 0;
 			iss >> val;
-			if (iss.fail()) { throw UnableToConvertError(that->vtable->GetType(that), "an unsigned"); }
+			if (iss.fail() || that->s->find('-') < that->s->find_first_of("0123456789")) { throw UnableToConvertError(that->vtable->GetType(that), "an unsigned"); }
 			return val;
 		}
 
-- 
2.43.0


From 261a3baf238fa7a92ea784c74d06acfa8efaeab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:00:21 +0000
Subject: [PATCH 46/59] fix: do not read one past the Base64 decoding table

---
 src/Base64.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Base64.cc b/src/Base64.cc
index 99ccc50..892ae4b 100644
--- a/src/Base64.cc
+++ b/src/Base64.cc
@@ -128,7 +128,7 @@ namespace libvariant {
 		do {\
 			if (i == e) { return o - (signed char*)outptr; }\
 			signed char val = *i++ - 43;\
-			if (val < 0 || val > decoding_size) { fragment = -1; }\
+			if (val < 0 || val >= decoding_size) { fragment = -1; }\
 			else { fragment = decoding[(int)val]; }\
 		} while (fragment < 0)
 
-- 
2.43.0


From 01e4245d332e510f0ec7d9b9b90319dfc4ed4e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:00:21 +0000
Subject: [PATCH 47/59] fix: never pass negative characters to the ctype
 functions

---
 src/BundleHdrParser.cc |  8 ++++----
 src/EventBuffer.cc     |  2 +-
 src/Extensions.cc      |  2 +-
 src/GuessFormat.cc     |  2 +-
 src/ParseBool.cc       | 12 ++++++------
 5 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index 6030449..f4787cd 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -47,7 +47,7 @@ namespace libvariant {
 		const char *e = line + line_len;
 		key.clear();
 		value.clear();
-		while (isspace(*c) && c != e) { ++c; }
+		while (isspace((unsigned char)*c) && c != e) { ++c; }
 		loop = true;
 		while (loop && c != e) {
 			switch (*c) {
@@ -65,12 +65,12 @@ namespace libvariant {
 			}
 		}
 		key.push_back('\0');
-		while (isspace(*c) && c != e) { ++c; }
+		while (isspace((unsigned char)*c) && c != e) { ++c; }
 		if (*c != ':') {
 			return false;
 		}
 		++c;
-		while (isspace(*c) && c != e) { ++c; }
+		while (isspace((unsigned char)*c) && c != e) { ++c; }
 		while (c != e && *c != '#') {
 			value.push_back(*c);
 			++c;
@@ -115,7 +115,7 @@ namespace libvariant {
 						}
 						// Remove whitespace from end of value
 						char *e = strchr(&value[0], '\0');
-						while (--e >= &value[0] && isspace(*e)) { *e = '\0'; }
+						while (--e >= &value[0] && isspace((unsigned char)*e)) { *e = '\0'; }
 						state = VALUE;
 						TopAction()->Scalar(this, &key[0], strlen(&key[0]), 0, 0);
 						key.clear();
diff --git a/src/EventBuffer.cc b/src/EventBuffer.cc
index 49503c1..ffee5f6 100644
--- a/src/EventBuffer.cc
+++ b/src/EventBuffer.cc
@@ -180,7 +180,7 @@ namespace libvariant {
 			std::string str(len, '\n');
 			for (int i = 0; i < len; ++i) {
 				char c;
-				do { c = rand(); } while (!isprint(c) || isblank(c) || isdigit(c) || c == '~');
+				do { c = rand(); } while (!isprint((unsigned char)c) || isblank((unsigned char)c) || isdigit((unsigned char)c) || c == '~');
 				str[i] = c;
 			}
 			return str;
diff --git a/src/Extensions.cc b/src/Extensions.cc
index 9c5d695..635f6f1 100644
--- a/src/Extensions.cc
+++ b/src/Extensions.cc
@@ -339,7 +339,7 @@ namespace libvariant {
 		if (strchr(b, '-')) { return false; }
 		unsigned long long v = strtoull(b, &e, 10);
 		if (e == b) { return false; }
-		while (e != 0 && *e != '\0' && isspace(*e)) { ++e; }
+		while (e != 0 && *e != '\0' && isspace((unsigned char)*e)) { ++e; }
 		if (e == 0 || *e != '\0') { return false; }
 		if (v > std::numeric_limits<unsigned>::max()) { return false; }
 		index = v;
diff --git a/src/GuessFormat.cc b/src/GuessFormat.cc
index d37734e..9797825 100644
--- a/src/GuessFormat.cc
+++ b/src/GuessFormat.cc
@@ -29,7 +29,7 @@ namespace libvariant {
 				}
 				len = l;
 			}
-			if (!isspace(ptr[i])) {
+			if (!isspace((unsigned char)ptr[i])) {
 				if (ptr[i] == '<') {
 #ifdef ENABLE_XML
 					return SERIALIZE_XMLPLIST;
diff --git a/src/ParseBool.cc b/src/ParseBool.cc
index c712ba4..b71d0bc 100644
--- a/src/ParseBool.cc
+++ b/src/ParseBool.cc
@@ -27,27 +27,27 @@ bool ParseBool(const std::string &str) {
     bool result = true;
     std::string::const_iterator cur = str.begin();
     const std::string::const_iterator end = str.end();
-    while (cur != end && isspace(*cur)) { ++cur; }
+    while (cur != end && isspace((unsigned char)*cur)) { ++cur; }
     if (cur == end) return result;
     const char *cmpstr = 0;
-    if (tolower(*cur) == NO_STR[0]) {
+    if (tolower((unsigned char)*cur) == NO_STR[0]) {
         cmpstr = &NO_STR[1];
-    } else if (tolower(*cur) == FALSE_STR[0]) {
+    } else if (tolower((unsigned char)*cur) == FALSE_STR[0]) {
         cmpstr = &FALSE_STR[1];
     } else if (*cur == '0') {
         ++cur;
         while (cur != end && *cur == '0') { ++cur; }
-        while (cur != end && isspace(*cur)) { ++cur; }
+        while (cur != end && isspace((unsigned char)*cur)) { ++cur; }
         if (cur == end) { result = false; }
         return result;
     }
     if (cmpstr != 0) {
         ++cur;
         int i = 0;
-        while (cur != end && cmpstr[i] != '\0' && tolower(*cur) == cmpstr[i]) {
+        while (cur != end && cmpstr[i] != '\0' && tolower((unsigned char)*cur) == cmpstr[i]) {
             ++cur; ++i;
         }
-        while (cur != end && isspace(*cur)) { ++cur; }
+        while (cur != end && isspace((unsigned char)*cur)) { ++cur; }
         if (cur == end) { result = false; }
     }
     return result;
-- 
2.43.0


From f9bacc384bd56f514304851c901047bea3e4486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:28 +0000
Subject: [PATCH 48/59] fix: read the last line of a bundle header without a
 newline

---
 src/BundleHdrParser.cc | 18 ++++++++++++------
 src/BundleHdrParser.h  |  1 +
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/BundleHdrParser.cc b/src/BundleHdrParser.cc
index f4787cd..ad7ba6a 100644
--- a/src/BundleHdrParser.cc
+++ b/src/BundleHdrParser.cc
@@ -20,11 +20,14 @@ namespace libvariant {
 		while (true) {
 			line = (const char *)input->GetPtr(len);
 			if (!line || line_len == len) {
-				line = 0;
+				// The last line may end without a newline.
+				if (line_len == 0) { line = 0; }
+				line_end = line_len;
 				return;
 			}
 			for (;line_len < len; ++line_len) {
 				if (line[line_len] == '\n') {
+					line_end = line_len + 1;
 					return;
 				}
 			}
@@ -33,9 +36,10 @@ namespace libvariant {
 	}
 
 	void BundleHdrParserImpl::RetireLine() {
-		input->Release(line_len + 1);
+		input->Release(line_end);
 		line = 0;
 		line_len = 0;
+		line_end = 0;
 	}
 
 	bool BundleHdrParserImpl::ScanLine() {
@@ -47,7 +51,7 @@ namespace libvariant {
 		const char *e = line + line_len;
 		key.clear();
 		value.clear();
-		while (isspace((unsigned char)*c) && c != e) { ++c; }
+		while (c != e && isspace((unsigned char)*c)) { ++c; }
 		loop = true;
 		while (loop && c != e) {
 			switch (*c) {
@@ -65,12 +69,12 @@ namespace libvariant {
 			}
 		}
 		key.push_back('\0');
-		while (isspace((unsigned char)*c) && c != e) { ++c; }
-		if (*c != ':') {
+		while (c != e && isspace((unsigned char)*c)) { ++c; }
+		if (c == e || *c != ':') {
 			return false;
 		}
 		++c;
-		while (isspace((unsigned char)*c) && c != e) { ++c; }
+		while (c != e && isspace((unsigned char)*c)) { ++c; }
 		while (c != e && *c != '#') {
 			value.push_back(*c);
 			++c;
@@ -180,6 +184,7 @@ namespace libvariant {
 		state = START;
 		line = 0;
 		line_len = 0;
+		line_end = 0;
 		key.clear();
 		value.clear();
 		list.clear();
@@ -191,6 +196,7 @@ namespace libvariant {
 		state(START),
 		line(0),
 		line_len(0),
+		line_end(0),
 		line_num(0)
 	{}
 
diff --git a/src/BundleHdrParser.h b/src/BundleHdrParser.h
index f6bf331..d902f06 100644
--- a/src/BundleHdrParser.h
+++ b/src/BundleHdrParser.h
@@ -54,6 +54,7 @@ namespace libvariant {
 		State_t state;
 		const char *line;
 		unsigned line_len;
+		unsigned line_end;
 		std::vector<char> key;
 		std::vector<char> value;
 		std::deque<char*> list;
-- 
2.43.0


From 53ccbfc09832557f84fea8c0a1ca490aa957774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:32 +0000
Subject: [PATCH 49/59] fix: do not guess the format from bytes behind the
 input

---
 src/GuessFormat.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/GuessFormat.cc b/src/GuessFormat.cc
index 9797825..bd346ad 100644
--- a/src/GuessFormat.cc
+++ b/src/GuessFormat.cc
@@ -22,7 +22,7 @@ namespace libvariant {
 			if (i >= len) {
 				unsigned l = i+1;
 				ptr = (const char*)in->GetPtr(l);
-				if (!ptr) {
+				if (!ptr || l <= i) {
 					throw std::runtime_error(
 							"libvariant::GuessFormat: Unable to guess input format, unexpected end of input."
 							);
-- 
2.43.0


From a2c749645a846f8c58f76e282b95d2a37e0b1c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:37 +0000
Subject: [PATCH 50/59] fix: look for the end of the header only inside the
 input

---
 src/Payload.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Payload.cc b/src/Payload.cc
index d75c77b..d1815c4 100644
--- a/src/Payload.cc
+++ b/src/Payload.cc
@@ -222,7 +222,7 @@ namespace libvariant {
 		const void *retptr = base_input->GetPtr(len);
 		if (retptr) {
 			const char *ptr = (const char*)retptr;
-			if (ptr[scanned_to] != '\0') {
+			if (scanned_to < len && ptr[scanned_to] != '\0') {
 				scanned_to += strnlen(&ptr[scanned_to], len-scanned_to);
 
 			}
-- 
2.43.0


From 90e1968330eb3a32aaa78b931a111b1181201635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:41 +0000
Subject: [PATCH 51/59] fix: report a read error that follows a partial read

---
 src/ParserInput.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ParserInput.cc b/src/ParserInput.cc
index aca5ec8..70f464b 100644
--- a/src/ParserInput.cc
+++ b/src/ParserInput.cc
@@ -121,14 +121,14 @@ namespace libvariant {
 	unsigned ParserFileInput::Read(void *ptr, unsigned len) {
 		unsigned num_read = fread(ptr, 1, len, file);
 		int error = errno;
-		if (num_read) return num_read;
+		if (num_read == len) return num_read;
 		if (ferror(file)) {
 			std::ostringstream oss;
 			oss << "Error reading from file: ";
 			oss << strerror(error);
 			throw std::runtime_error(oss.str());
 		}
-		return 0;
+		return num_read;
 	}
 
 	//----------------------------------------------------------------------
-- 
2.43.0


From dd11124927c73d6d024adc7c35043f8d138153e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 06:26:44 +0000
Subject: [PATCH 52/59] fix: grow the input buffer for lengths close to the
 largest unsigned

---
 src/ParserInput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ParserInput.cc b/src/ParserInput.cc
index 70f464b..4009de6 100644
--- a/src/ParserInput.cc
+++ b/src/ParserInput.cc
@@ -55,7 +55,7 @@ namespace libvariant {
 			len = num;
 			return &buffer[offset];
 		}
-		if (len + offset > buffer.size()) {
+		if (len > buffer.size() - offset) {
 			if (len > buffer.size()) {
 				std::vector<char> newbuffer(len);
 				memmove(&newbuffer[0], &buffer[offset], num);
-- 
2.43.0


From fdcbb3d6ed2c9e9010790e701f6df091ef5a4df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 07:55:47 +0000
Subject: [PATCH 53/59] fix: multipleOf accepts any negative number for a
 fractional divisor

The remainder of a negative number is negative, so it was always below the
tolerance.
---
 src/Schema.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Schema.cc b/src/Schema.cc
index 747cbe4..fa7efdf 100644
--- a/src/Schema.cc
+++ b/src/Schema.cc
@@ -718,7 +718,8 @@ namespace libvariant {
 			// We have an issue here of the fact that many numeric values in base 10 are
 			// not exactly represented in binary floating point.
 			// So, we need to check if it is within epsilon of 0
-			long double m = mod.AsLongDouble();
+			// The remainder has the sign of the data
+			long double m = std::abs(mod.AsLongDouble());
 			long double divisor = multipleof.AsLongDouble();
 			long double tolerance = FLOAT_TOLERANCE;
 
-- 
2.43.0


From 93c14026ab0673408d11268545d47bb2b1a61cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:12 +0000
Subject: [PATCH 54/59] fix: ArgParseOption::Required(false) makes the option
 required

---
 src/ArgParse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 20b1289..1eddc94 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -553,7 +553,7 @@ namespace libvariant {
 	}
 
 	ArgParseOption &ArgParseOption::Required(bool req) {
-		impl->required = true;
+		impl->required = req;
 		return *this;
 	}
 
-- 
2.43.0


From d5670b3080d4f0d7bc1666e66bcfef6399ef4e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:30 +0000
Subject: [PATCH 55/59] fix: a missing argument with minArgs above zero is
 accepted

---
 src/ArgParse.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 1eddc94..749bd4f 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -1672,7 +1672,7 @@ namespace libvariant {
 					}
 				}
 			}
-		} else if (required) {
+		} else if (required || (opt.Contains("minArgs") && opt["minArgs"] > 0)) {
 			std::ostringstream oss;
 			oss << "Error parsing arguments\n";
 			oss << "Required " << OptName(this) << " missing.";
-- 
2.43.0


From 94fab0fe41afbe4b95d16db04401485d0a3e0680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 08:49:39 +0000
Subject: [PATCH 56/59] fix: a counting option that was not given counts as
 given

---
 src/ArgParse.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/ArgParse.cc b/src/ArgParse.cc
index 749bd4f..707a089 100644
--- a/src/ArgParse.cc
+++ b/src/ArgParse.cc
@@ -974,7 +974,7 @@ namespace libvariant {
 					{ o.longOpt.c_str(), (o.HasArg() ? 1 : 0), 0, id };
 					longOpts.push_back(tmp_option);
 				}
-				if (o.action == ARGACTION_COUNT) { o.result = 0u; }
+				if (o.action == ARGACTION_COUNT) { o.result = Variant::NullType; }
 				// Handle environment variables
 				if (o.opt.Contains("env")) {
 					const char *env = getenv(o.opt["env"].AsString().c_str());
@@ -1357,6 +1357,7 @@ namespace libvariant {
 			}
 			break;
 		case ARGACTION_COUNT:
+			if (result.IsNull()) { result = 0u; }
 			if (arg.IsNumber()) {
 				result += arg.AsInt();
 			} else {
@@ -1682,7 +1683,11 @@ namespace libvariant {
 
 	void ArgParseOptImpl::FormResult(VariantRef res) {
 		if (!HasResult()) { return; }
-		if (result.IsNull()) { return; }
+		if (result.IsNull()) {
+			// Not given at all is a count of zero
+			if (action == ARGACTION_COUNT) { res.SetPath(path, 0u); }
+			return;
+		}
 		res.SetPath(path, result);
 	}
 
-- 
2.43.0


From 81c15bea021a87106f690acbc8831cc0d37de3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:47:20 +0000
Subject: [PATCH 57/59] fix: quote YAML strings that read like another scalar

A string such as "true", "12" or "~" was written as plain text, so
reading the document back gave a boolean, a number or a null.
---
 src/GuessScalar.cc | 12 ++++++++++--
 src/GuessScalar.h  |  3 +++
 src/YAMLEmitter.cc |  4 +++-
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/GuessScalar.cc b/src/GuessScalar.cc
index 3a268fc..2885ace 100644
--- a/src/GuessScalar.cc
+++ b/src/GuessScalar.cc
@@ -67,11 +67,19 @@ namespace libvariant {
 		}
 	}
 
+	static const regex_t *GetGuessRegex() {
+		static GuessRegex guessregex;
+		return &guessregex.guessregex;
+	}
+
+	bool GuessIsString(const char *value) {
+		return regexec(GetGuessRegex(), value, 0, 0, 0) != 0;
+	}
+
 	void GuessScalar(const char *value, unsigned length, const char *anchor, const char *tag,
 		   	ParserImpl *p, ParserActions *action) {
-		static GuessRegex guessregex;
 		regmatch_t match[MATCH_MAX];
-		if (regexec(&guessregex.guessregex, value, MATCH_MAX, &match[0], 0) == 0) {
+		if (regexec(GetGuessRegex(), value, MATCH_MAX, &match[0], 0) == 0) {
 			if (match[MATCH_NULL].rm_so != -1) {
 				action->Null(p, anchor, tag);
 			} else if (match[MATCH_TRUE].rm_so != -1) {
diff --git a/src/GuessScalar.h b/src/GuessScalar.h
index d610451..7785e1c 100644
--- a/src/GuessScalar.h
+++ b/src/GuessScalar.h
@@ -9,5 +9,8 @@
 namespace libvariant {
 	void GuessScalar(const char *value, unsigned length, const char *anchor, const char *tag,
 		   	ParserImpl *p, ParserActions *action);
+
+	// True if GuessScalar takes the text to be nothing but a string
+	bool GuessIsString(const char *value);
 }
 #endif
diff --git a/src/YAMLEmitter.cc b/src/YAMLEmitter.cc
index dc22994..d6def0a 100644
--- a/src/YAMLEmitter.cc
+++ b/src/YAMLEmitter.cc
@@ -26,6 +26,7 @@
 #include <limits>
 #include <cmath>
 #include "Base64.h"
+#include "GuessScalar.h"
 
 namespace libvariant {
 
@@ -313,7 +314,8 @@ namespace libvariant {
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v) {
-		Emit(v, ANY_SCALAR_STYLE);
+		// A string that reads like some other scalar only stays one when quoted
+		Emit(v, GuessIsString(v) ? ANY_SCALAR_STYLE : SINGLE_QUOTED_SCALAR_STYLE);
 	}
 
 	void YAMLEmitterImpl::Emit(const char *v, ScalarStyle style) {
-- 
2.43.0


From 5ea1b5b21a85f62bf120d7e54e494c3e201cce44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 09:47:52 +0000
Subject: [PATCH 58/59] fix: an empty blob does not survive being written and
 read

Base64 read a byte from a buffer of length zero, so an empty blob was
written as one stray byte.  The XML property list reader refused the
element that an empty blob is written as.
---
 src/Base64.cc         | 15 ++++++++++-----
 src/XMLPLISTParser.cc |  6 +-----
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/Base64.cc b/src/Base64.cc
index 892ae4b..89e2cf5 100644
--- a/src/Base64.cc
+++ b/src/Base64.cc
@@ -15,13 +15,10 @@ namespace libvariant {
 	public:
 		iov_iterator() : iov(0), len(0), slab(0), offset(0) {}
 		iov_iterator(const iov_iterator &o) : iov(o.iov), len(o.len), slab(o.slab), offset(o.offset) {}
-		iov_iterator(const struct iovec *v, unsigned l) : iov(v), len(l), slab(0), offset(0) {}
+		iov_iterator(const struct iovec *v, unsigned l) : iov(v), len(l), slab(0), offset(0) { skip_finished(); }
 		iov_iterator &operator++() {
 			++offset;
-			if (offset >= iov[slab].iov_len) {
-				++slab;
-				offset = 0;
-			}
+			skip_finished();
 			return *this;
 		}
 		iov_iterator operator++(int) {
@@ -46,6 +43,14 @@ namespace libvariant {
 		}
 
 	private:
+		// Step over what has been read and over slabs that hold nothing
+		void skip_finished() {
+			while (slab < len && offset >= iov[slab].iov_len) {
+				++slab;
+				offset = 0;
+			}
+		}
+
 		const struct iovec *iov;
 		unsigned len;
 		unsigned slab;
diff --git a/src/XMLPLISTParser.cc b/src/XMLPLISTParser.cc
index f5c3749..843f3f3 100644
--- a/src/XMLPLISTParser.cc
+++ b/src/XMLPLISTParser.cc
@@ -361,11 +361,7 @@ namespace libvariant {
 			}
 			return false;
 		case BlobNode:
-			if (empty) {
-				err = true;
-				errorstr = "libvariant XML PLIST parser cannot have empty data nodes";
-				throw std::runtime_error(errorstr);
-			}
+			if (empty) { TopAction()->Scalar(this, Blob::CreateCopy("", 0), 0, 0); }
 			return false;
 		case StringNode:
 		case KeyNode:
-- 
2.43.0


From 366c38d4d17970cb93c2fb63559668d87ed44006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:27:10 +0000
Subject: [PATCH 59/59] fix: looking up a default through a path that does not
 exist yet returns the default

---
 src/Variant.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/Variant.cc b/src/Variant.cc
index 705849c..bb45b4a 100644
--- a/src/Variant.cc
+++ b/src/Variant.cc
@@ -1828,7 +1828,14 @@ namespace libvariant {
 		}
 
 		const Variant *Proxy::GetConstIndex(const Data *that, unsigned i, bool checked) const
-		{ ProxyResolveThrow(that); return that->vtable->GetConstIndex(that, i, checked); }
+		{
+			if (checked) {
+				ProxyResolveThrow(that);
+			} else if (!ProxyResolveCheck(that)) {
+				return 0;
+			}
+			return that->vtable->GetConstIndex(that, i, checked);
+		}
 
 		Variant *Proxy::GetIndex(Data *that, unsigned i, bool checked) const
 		{
@@ -1872,7 +1879,14 @@ namespace libvariant {
 		}
 
 		const Variant *Proxy::GetConstKey(const Data *that, const std::string &s, bool checked) const
-		{ ProxyResolveThrow(that); return that->vtable->GetConstKey(that, s, checked); }
+		{
+			if (checked) {
+				ProxyResolveThrow(that);
+			} else if (!ProxyResolveCheck(that)) {
+				return 0;
+			}
+			return that->vtable->GetConstKey(that, s, checked);
+		}
 
 		Variant *Proxy::GetKey(Data *that, const std::string &s, bool checked) const
 		{
-- 
2.43.0

