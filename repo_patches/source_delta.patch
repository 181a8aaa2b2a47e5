From b400b2471a25ff291700c99b3f2569b54877950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:26 +0000
Subject: [PATCH 01/45] fix: HashTable::addOrReplace replaces the existing data

---
 include/Lintel/HashTable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/HashTable.hpp b/include/Lintel/HashTable.hpp
index 54e5590..f4ea85a 100644
--- a/include/Lintel/HashTable.hpp
+++ b/include/Lintel/HashTable.hpp
@@ -125,6 +125,7 @@ public:
 	hte *chain = internal_lookup(data, hashof);
 	if (chain != NULL) {
 	    replaced = true;
+	    chain->data = data;
 	    return &(chain->data);
 	} else {
 	    replaced = false;
-- 
2.43.0


From 1b1eea2597a0bc03ed8c1032b65ce19d1b56972b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 02/45] fix: HashTable iterator reset() on an emptied table
 reaches end()

---
 include/Lintel/HashTable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/HashTable.hpp b/include/Lintel/HashTable.hpp
index f4ea85a..f14a455 100644
--- a/include/Lintel/HashTable.hpp
+++ b/include/Lintel/HashTable.hpp
@@ -329,6 +329,7 @@ private:
 
 	void reset() {
 	    cur_chain = 0;
+	    chain_loc = -1;
 	    findNonemptyChain();
 	}
 	int32_t getCurChain() {
-- 
2.43.0


From 27dfd2a62ca4b1b2b846d113cc31581b06a28cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 03/45] fix: Deque iterator + with a negative offset wraps
 correctly

---
 include/Lintel/Deque.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/Deque.hpp b/include/Lintel/Deque.hpp
index ba7e61f..d7d4494 100644
--- a/include/Lintel/Deque.hpp
+++ b/include/Lintel/Deque.hpp
@@ -162,7 +162,8 @@ public:
         /// adds diff and returns the iterator
         iterator operator+(ptrdiff_t diff) {
             DEBUG_SINVARIANT(inRangePlus(diff));
-            return iterator(mydeque, static_cast<size_t>(cur_pos + diff) % mydeque->q_size);
+            return iterator(mydeque, static_cast<size_t>(cur_pos + mydeque->q_size 
+                                                         + diff) % mydeque->q_size);
         }
         /// subtracts diff and returns the iterator
         iterator operator-(ptrdiff_t diff) {
@@ -193,7 +194,7 @@ public:
         /// adds diff to the iterator and returns the reference
         iterator &operator+=(ptrdiff_t diff) {
             DEBUG_SINVARIANT(inRangePlus(diff));
-            cur_pos = static_cast<size_t>(cur_pos + diff) % mydeque->q_size;
+            cur_pos = static_cast<size_t>(cur_pos + mydeque->q_size + diff) % mydeque->q_size;
             return *this;
         }
         /// subtracts diff to the iterator and returns the reference
-- 
2.43.0


From 3e7772d1c3bf652a8b8bb6c3f3a4c08b6d87476a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 04/45] fix: Deque::push_back of one of its own elements when
 it has to grow

---
 include/Lintel/Deque.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Lintel/Deque.hpp b/include/Lintel/Deque.hpp
index d7d4494..f9d4f09 100644
--- a/include/Lintel/Deque.hpp
+++ b/include/Lintel/Deque.hpp
@@ -268,6 +268,8 @@ private:
     friend class iterator;
     void push_expand(const T &val) {
 	T *new_deque = allocator.allocate(q_size * 2);
+	// val may refer to one of our own elements, so copy it before they are destroyed
+	allocator.construct(new_deque + (q_size - 1), val);
 	size_t i = 0;
 	// copy back to 0 offset
 	if (q_front == 0) {
@@ -291,7 +293,6 @@ private:
 	INVARIANT(i == q_size-1, boost::format("internal %u %u %u %u")
                   % i % q_size % q_front % q_back);
 	q_front = 0;
-	allocator.construct(new_deque + i, val);
 	q_back = i + 1;
 	allocator.deallocate(deque, q_size);
 	q_size = q_size * 2;
-- 
2.43.0


From f616a630b5ec27a5e55026a625b03d9a1cd15ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 05/45] fix: Deque destroys its remaining elements on
 destruction

---
 include/Lintel/Deque.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/Deque.hpp b/include/Lintel/Deque.hpp
index f9d4f09..0822a6f 100644
--- a/include/Lintel/Deque.hpp
+++ b/include/Lintel/Deque.hpp
@@ -47,6 +47,7 @@ public:
     }
 
     ~Deque() {
+	clear();
 	allocator.deallocate(deque, q_size);
     }
     typedef Deque<T> mytype;
-- 
2.43.0


From fbdd9f96427719dbfd58bb0fb760a001e2dcefa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 06/45] fix: PriorityQueue can grow from zero capacity (default
 for elements over 1024 bytes)

---
 include/Lintel/PriorityQueue.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/PriorityQueue.hpp b/include/Lintel/PriorityQueue.hpp
index 06da055..91419e9 100644
--- a/include/Lintel/PriorityQueue.hpp
+++ b/include/Lintel/PriorityQueue.hpp
@@ -219,13 +219,14 @@ public:
 private:
     LessImportant lessimportant;
     void double_size() {
-	T *pq_new = new T[size_available * 2];
+	uint32_t new_size = size_available == 0 ? 1 : size_available * 2;
+	T *pq_new = new T[new_size];
 	for(unsigned i=0;i<size_available;i++) {
 	    pq_new[i] = pq[i];
 	}
 	delete [] pq;
 	pq = pq_new;
-	size_available = size_available * 2;
+	size_available = new_size;
     }
     uint32_t size_available;
     uint32_t pq_size;
-- 
2.43.0


From 7d1e53c45fffab706d025fbd723d9df234ff0346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 07/45] fix: PriorityQueue::selfVerify accepts equally
 important elements

---
 include/Lintel/PriorityQueue.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/PriorityQueue.hpp b/include/Lintel/PriorityQueue.hpp
index 91419e9..634cbdc 100644
--- a/include/Lintel/PriorityQueue.hpp
+++ b/include/Lintel/PriorityQueue.hpp
@@ -206,10 +206,10 @@ public:
 	for(uint32_t i = 0; i < pq_size; ++i) {
 	    uint32_t down_left = 2 * i + 1;
 	    if (down_left >= pq_size) break;
-	    SINVARIANT(!lessimportant(pq[i], pq[down_left]));
+	    SINVARIANT(!lessimportant(pq[i], pq[down_left]) || lessimportant(pq[down_left], pq[i]));
 	    uint32_t down_right = down_left + 1;
 	    if (down_right >= pq_size) break;
-	    SINVARIANT(!lessimportant(pq[i], pq[down_right]));
+	    SINVARIANT(!lessimportant(pq[i], pq[down_right]) || lessimportant(pq[down_right], pq[i]));
 	}
     }
 
-- 
2.43.0


From 3155e036d980e6bf7d5eae56b71ca2d27479808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:17 +0000
Subject: [PATCH 08/45] fix: PriorityQueue::push of one of its own elements
 when it has to grow

---
 include/Lintel/PriorityQueue.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Lintel/PriorityQueue.hpp b/include/Lintel/PriorityQueue.hpp
index 634cbdc..5f66c29 100644
--- a/include/Lintel/PriorityQueue.hpp
+++ b/include/Lintel/PriorityQueue.hpp
@@ -138,7 +138,10 @@ public:
 
     void push(const T &val) {
 	if (pq_size == size_available) {
+	    T tmp(val); // val may refer to one of our own elements
 	    double_size();
+	    push(tmp);
+	    return;
 	}
 	int end_pos = pq_size;
 	while(end_pos > 0) {
-- 
2.43.0


From ca7a05402331e0055cdd453049238b1c30af4eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 09/45] fix: ByteBuffer::append of its own contents when it has
 to grow

---
 include/Lintel/ByteBuffer.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/Lintel/ByteBuffer.hpp b/include/Lintel/ByteBuffer.hpp
index 0cd3075..bbf39d2 100644
--- a/include/Lintel/ByteBuffer.hpp
+++ b/include/Lintel/ByteBuffer.hpp
@@ -360,7 +360,14 @@ namespace lintel {
 	    uniqueify();
 	    if (writeAvailable() < size) {
 	        size_t needed = size - writeAvailable();
+		// resizing frees the data that buf points to if it is our own
+		const uint8_t *from = static_cast<const uint8_t *>(buf);
+		bool own = from >= readStart() && from < readStart() + readAvailable();
+		size_t offset = own ? from - readStart() : 0;
 		resizeBuffer(bufferSize() + needed);
+		if (own) {
+		    buf = readStart() + offset;
+		}
 	    }
 	    memcpy(writeStart(size), buf, size);
 	}
-- 
2.43.0


From 50422ef6acf12d617a64cb78e1fa26049db4f569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:19 +0000
Subject: [PATCH 10/45] fix: ByteBuffer copy on write keeps the space available
 for writing

---
 include/Lintel/ByteBuffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/ByteBuffer.hpp b/include/Lintel/ByteBuffer.hpp
index bbf39d2..b76c793 100644
--- a/include/Lintel/ByteBuffer.hpp
+++ b/include/Lintel/ByteBuffer.hpp
@@ -538,7 +538,7 @@ namespace lintel {
 	void forceUnique() {
 	    if (!rep.unique()) {
 		NoCopyByteBuffer *new_buf = new NoCopyByteBuffer();
-		new_buf->resizeBuffer(rep->readAvailable());
+		new_buf->resizeBuffer(rep->readAvailable() + rep->writeAvailable());
 		memcpy(new_buf->writeStart(rep->readAvailable()), 
 		       rep->readStart(), rep->readAvailable());
 		rep.reset(new_buf);
-- 
2.43.0


From 77e1b4a44b35f54b866b7974ea8483c1584c02a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:03 +0000
Subject: [PATCH 11/45] fix: toCSVform quotes fields containing quotes or line
 breaks

---
 src/StringUtil.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StringUtil.cpp b/src/StringUtil.cpp
index 15c69b8..b53becb 100644
--- a/src/StringUtil.cpp
+++ b/src/StringUtil.cpp
@@ -228,13 +228,13 @@ string htmlEscapeUnprintable(const string &in) {
 }
 
 // writes a char string in CSV form (as it is accepted by Excel)
-// if the string has commas then we need to use "" around the string
+// if the string has commas, quotes or line breaks then we need to use "" around the string
 // if the string has " then we need to double the existent quotes 
 string toCSVform(const string &s) {
     string ret(s);
     int pos = -1; 
 
-    if ((pos = ret.find(",",0)) >= 0){
+    if ((pos = ret.find_first_of(",\"\r\n",0)) >= 0){
 	ret.insert(0,"\"");
 	pos = 1;
 	while ((pos = ret.find("\"",pos)) >= 0){
-- 
2.43.0


From 4acd81b9db937c01acb1e5fd2320ddf55143b086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 12/45] fix: stringtoipv4 accepts 255.255.255.255

---
 src/StringUtil.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/StringUtil.cpp b/src/StringUtil.cpp
index b53becb..abcec5e 100644
--- a/src/StringUtil.cpp
+++ b/src/StringUtil.cpp
@@ -317,11 +317,11 @@ string ipv4tostring(uint32_t val) {
 #ifdef SYS_POSIX
 
 uint32_t stringtoipv4(const string &val) {
-    in_addr_t addr;
-    INVARIANT((addr = inet_addr(val.c_str())) != (in_addr_t)-1,
+    struct in_addr addr;
+    INVARIANT(inet_aton(val.c_str(), &addr) != 0,
 	      boost::format("Unable to convert %s to inet address")
 	      % val);
-    return static_cast<uint32_t>(ntohl(addr));
+    return static_cast<uint32_t>(ntohl(addr.s_addr));
 }
 
 #endif // SYS_POSIX
-- 
2.43.0


From 3677ed39d382057ea7d60a9774f38eb92cf1590c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:33 +0000
Subject: [PATCH 13/45] fix: stringToDouble refuses strings with an embedded
 NUL

---
 src/StringUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StringUtil.cpp b/src/StringUtil.cpp
index abcec5e..0dbcb29 100644
--- a/src/StringUtil.cpp
+++ b/src/StringUtil.cpp
@@ -331,7 +331,7 @@ double stringToDouble(const string &str) {
     INVARIANT(str.size() > 0, 
 	      "zero length string not valid in conversion to double");
     double ret = strtod(str.c_str(),&endptr);
-    INVARIANT(*endptr == '\0',
+    INVARIANT(endptr == str.c_str() + str.size(),
 	      boost::format("didn't parse all of '%s' as a double") % str);
     return ret;
 }
-- 
2.43.0


From 693a7a9e7038ffd34de6066893723865b811f2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:50 +0000
Subject: [PATCH 14/45] fix: stringToInteger refuses negative values for
 unsigned types and handles 8 bit types

---
 include/Lintel/StringUtil.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/Lintel/StringUtil.hpp b/include/Lintel/StringUtil.hpp
index f9501cf..da483df 100644
--- a/include/Lintel/StringUtil.hpp
+++ b/include/Lintel/StringUtil.hpp
@@ -18,6 +18,7 @@
 #include <stdint.h>
 
 #include <boost/lexical_cast.hpp>
+#include <boost/mpl/if.hpp>
 
 #include <Lintel/AssertBoost.hpp>
 
@@ -114,7 +115,16 @@ T stringToInteger(const std::string &str, int base = 10) {
     T ret = 0;
     if (base == 10) {
 	try {
-	    ret = boost::lexical_cast<T>(str);
+	    // lexical_cast<T> would take character types as characters, and
+	    // would wrap negative values for unsigned types.
+	    typedef typename boost::mpl::if_c<std::numeric_limits<T>::is_signed, 
+		intmax_t, uintmax_t>::type WideT;
+	    WideT wide = boost::lexical_cast<WideT>(str);
+	    if (wide < std::numeric_limits<T>::min() || wide > std::numeric_limits<T>::max()
+		|| (!std::numeric_limits<T>::is_signed && wide != 0 && str[0] == '-')) {
+		throw boost::bad_lexical_cast();
+	    }
+	    ret = static_cast<T>(wide);
 	}
 	catch (boost::bad_lexical_cast &) {
 	    FATAL_ERROR(boost::format("error converting '%s' to integer, not an integer or outside of range [%d .. %d]") % str % std::numeric_limits<T>::min() % std::numeric_limits<T>::max());
-- 
2.43.0


From 1c5a63849ded129d17ed51ce428443f819b50dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 15/45] fix: ASCIIbeticalB64::decode of bytes outside the
 alphabet reads outside the table

---
 include/Lintel/Base64.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/Base64.hpp b/include/Lintel/Base64.hpp
index b3a178d..ef9065c 100644
--- a/include/Lintel/Base64.hpp
+++ b/include/Lintel/Base64.hpp
@@ -32,7 +32,7 @@ namespace lintel {
 	    if (inverse) {
 		return inverse;
 	    }
-	    inverse = new char[256];
+	    inverse = new char[256]();
 	    for (int8_t i=0; i<64; ++i) {
 		inverse[static_cast<int32_t>(translate()[i])] = 
 		    static_cast<char>(i);
@@ -53,7 +53,7 @@ namespace lintel {
 	    uint32_t bits = 0;
 	    for(size_t in_off = 0;
 		in_off < size && out_off < ret_size; ++in_off) {
-		trans_buf += ((uint32_t)table[(uint32_t)data[in_off]]) << (32-6-bits);
+		trans_buf += ((uint32_t)table[(uint8_t)data[in_off]]) << (32-6-bits);
 		bits += 6;
 		if (bits >= 8) {
 		    ret[out_off] = trans_buf >> (32-8);
-- 
2.43.0


From eab4081d6bfbc98806d897d2883d864d9f040c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 16/45] fix: ASCIIbeticalB64::encodeBackward read before the
 start of its input

---
 include/Lintel/Base64.hpp | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/include/Lintel/Base64.hpp b/include/Lintel/Base64.hpp
index ef9065c..b3c2917 100644
--- a/include/Lintel/Base64.hpp
+++ b/include/Lintel/Base64.hpp
@@ -170,23 +170,18 @@ namespace lintel {
 	    int32_t out_off;
 	    uint32_t trans_buf = 0;
 	    uint32_t bits = 0;
-	    for(out_off=digits-1, in_off=size-1; 
+	    for(out_off=digits-1, in_off=size; 
 		out_off >= 0; --out_off) {
-		if (bits < 6) {
-		    trans_buf += ((uint32_t)cdata[in_off]) << bits;
+		// zero bits once the input is used up
+		if (bits < 6 && in_off > 0) {
 		    --in_off;
+		    trans_buf += ((uint32_t)cdata[in_off]) << bits;
 		    bits += 8;
 		}
 		ret[out_off] = translate()[trans_buf & 0x3F];
 		trans_buf >>= 6;
-		bits -= 6;
+		bits = bits > 6 ? bits - 6 : 0;
 	    }
-	    // There may be a few spare bits...
-	    for(; bits > 0 && out_off >= 0; --out_off) {
-		ret[out_off] = translate()[trans_buf & 0x3F];
-		trans_buf >>= 6;
-		bits -= 6;
-	    }	
 	}	
 	
 	static std::string encode(std::string data, int32_t digits) {
-- 
2.43.0


From 5c762d689a4ee9e0c2a837524cfe64c6552eb1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:29 +0000
Subject: [PATCH 17/45] fix: EstimateOffset overflowed on ranges wider than
 half of the value type

---
 include/Lintel/unstable/InterpolationSearch.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Lintel/unstable/InterpolationSearch.hpp b/include/Lintel/unstable/InterpolationSearch.hpp
index 11471e3..db86a01 100644
--- a/include/Lintel/unstable/InterpolationSearch.hpp
+++ b/include/Lintel/unstable/InterpolationSearch.hpp
@@ -40,8 +40,13 @@ template<typename ValueT> struct EstimateOffset {
     // Postconditions: 0 <= return value <= last_pos
     size_t 
     operator()(const ValueT &v, const ValueT &first, const ValueT &last, size_t last_pos) const {
-        UnsignedValueT value_range = last - first;
-        double relative_pos = static_cast<double>(v - first) / value_range; // [0,1]
+        // unsigned so that differences over half of the value range do not overflow
+        UnsignedValueT value_range = static_cast<UnsignedValueT>(last) 
+            - static_cast<UnsignedValueT>(first);
+        UnsignedValueT value_offset = static_cast<UnsignedValueT>(v)
+            - static_cast<UnsignedValueT>(first);
+
+        double relative_pos = static_cast<double>(value_offset) / value_range; // [0,1]
         return relative_pos * last_pos;
     }
 };
-- 
2.43.0


From 9ba68c0abc0b0fbce6ad62253cb59de2d3ad456b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:07 +0000
Subject: [PATCH 18/45] fix: ConstantString comparison of strings with embedded
 NULs

---
 include/Lintel/ConstantString.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/Lintel/ConstantString.hpp b/include/Lintel/ConstantString.hpp
index a4e10d0..d6650d3 100644
--- a/include/Lintel/ConstantString.hpp
+++ b/include/Lintel/ConstantString.hpp
@@ -100,14 +100,10 @@ public:
 	} 
     }
     int compare(const ConstantString &rhs) const {
-	int cmplen = size() < rhs.size() ? size() : rhs.size();
-	cmplen += 1; // include null byte of shorter string
-	return memcmp(c_str(),rhs.c_str(),cmplen);
+	return compare(rhs.data(), rhs.size());
     }
     int compare(const std::string &rhs) const {
-	int cmplen = size() < rhs.size() ? size() : rhs.size();
-	cmplen += 1; // include null byte of shorter string
-	return memcmp(c_str(),rhs.c_str(),cmplen);
+	return compare(rhs.data(), rhs.size());
     }
 
     char operator[](size_t pos) const {
@@ -153,6 +149,16 @@ public:
 	return myptr == to.myptr ? true : false;
     }
 private:
+    int compare(const char *rhs, size_t rhs_size) const {
+	size_t my_size = size();
+	int ret = memcmp(data(), rhs, my_size < rhs_size ? my_size : rhs_size);
+	if (ret != 0) {
+	    return ret;
+	} else { // common prefix, shorter one is smaller
+	    return my_size < rhs_size ? -1 : (my_size > rhs_size ? 1 : 0);
+	}
+    }
+
     ConstantStringValue *myptr;
 
     static int nstrings;
@@ -202,7 +208,7 @@ operator!=(const ConstantString &lhs, const std::string &rhs) {
 
 inline bool
 operator!=(const ConstantString &lhs, const char *rhs) {
-    return strcmp(lhs.c_str(),rhs) != 0;
+    return lhs.compare(std::string(rhs)) != 0;
 }
 
 inline std::ostream &
-- 
2.43.0


From 6b31db701588fa9ab51d8f351de7780ce9ae5533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:16 +0000
Subject: [PATCH 19/45] fix: BitsetAnyTupleHash uses the wildcards of the tuple

---
 include/Lintel/Tuples.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/Tuples.hpp b/include/Lintel/Tuples.hpp
index 140f541..495f8a9 100644
--- a/include/Lintel/Tuples.hpp
+++ b/include/Lintel/Tuples.hpp
@@ -252,7 +252,7 @@ namespace tuples {
     /// \brief class for hashing BitsetAnyTuple's
     template<class Tuple> struct BitsetAnyTupleHash {
         uint32_t operator()(const BitsetAnyTuple<Tuple> &v) const {
-            return lintel::tuples::bitset_any_hash(v.data, v.used, 0);
+            return lintel::tuples::bitset_any_hash(v.data, v.any, 0);
         }
     };
 
-- 
2.43.0


From fd8f8f66ba63e94b870b3fdb03143b800fca5895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:42 +0000
Subject: [PATCH 20/45] fix: Double::eq of equal infinities

---
 include/Lintel/Double.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Lintel/Double.hpp b/include/Lintel/Double.hpp
index 4bf79ff..919642c 100644
--- a/include/Lintel/Double.hpp
+++ b/include/Lintel/Double.hpp
@@ -53,6 +53,9 @@ public:
 	return a<0 ? -a : a;
     }
     static bool eq(double a, double b, double epsilon) {
+	if (a == b) { // in particular equal infinities, their difference is NaN
+	    return true;
+	}
 	double relto = std::min(abs(a),abs(b)); 
 	double diff = abs(a-b);
 	if (relto == 0) {
-- 
2.43.0


From 3ba0228fa76f717a01484b2e6821122933fd24bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 21/45] fix: StatsSequence maximum of buckets with only
 negative values

---
 src/StatsSequence.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StatsSequence.cpp b/src/StatsSequence.cpp
index d624015..f386dd8 100644
--- a/src/StatsSequence.cpp
+++ b/src/StatsSequence.cpp
@@ -63,7 +63,7 @@ StatsSequence::add(const double value)
 	points_per_bucket *= 2;
 	points_remain_new_bucket = points_per_bucket;
     }
-    if (merge_mode == MergeMax) { 
+    if (merge_mode == MergeMax && points_remain_new_bucket != points_per_bucket) { 
 	new_value = (new_value > value) ? new_value : value; 
     } else { 
 	new_value += value; 
-- 
2.43.0


From 4eb45a57783b552cee107ce0191badd04dd0053e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 22/45] fix: randBoolFast starts afresh when the generator is
 seeded again

---
 include/Lintel/RandomBase.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/Lintel/RandomBase.hpp b/include/Lintel/RandomBase.hpp
index 855385c..3846614 100644
--- a/include/Lintel/RandomBase.hpp
+++ b/include/Lintel/RandomBase.hpp
@@ -24,10 +24,12 @@ namespace lintel {
 
         inline void init(uint32_t seed) {
             R::init(seed);
+            boolShift = 0; // the bits left over belong to the previous seed
         }
 
         inline void initArray(std::vector<uint32_t> seed_array) {
             R::initArray(seed_array);
+            boolShift = 0;
         }       
 
         inline uint32_t randInt() {
-- 
2.43.0


From 9b8ca7dc30fbfdc2c4a1b523db77b4f13f7a0475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 23/45] fix: MarsagliaInner index was never initialised

---
 include/Lintel/MarsagliaRandom.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/Lintel/MarsagliaRandom.hpp b/include/Lintel/MarsagliaRandom.hpp
index c60a73f..cf8d28a 100644
--- a/include/Lintel/MarsagliaRandom.hpp
+++ b/include/Lintel/MarsagliaRandom.hpp
@@ -104,6 +104,7 @@ namespace lintel {
                 x[i] = r.randInt();
             }
             c = r.randIntUnbiased(A);
+            i = SIZE-1;
         }
         
         inline uint32_t randInt() {
-- 
2.43.0


From 17fbf65d3e15a8d4f27ddbb2cfe5589d94a95c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 24/45] fix: Marsaglia generators of all sizes can be seeded

---
 include/Lintel/MarsagliaRandom.hpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/include/Lintel/MarsagliaRandom.hpp b/include/Lintel/MarsagliaRandom.hpp
index cf8d28a..d118b07 100644
--- a/include/Lintel/MarsagliaRandom.hpp
+++ b/include/Lintel/MarsagliaRandom.hpp
@@ -142,35 +142,51 @@ namespace lintel {
     
     template <>
     class Marsaglia<2048> : public MarsagliaInner<2048, 1047570LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<2048, 1047570LL>(seed) { }
     };
     
     
     template <>
     class Marsaglia<1024> : public MarsagliaInner<1024, 123471786LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<1024, 123471786LL>(seed) { }
     };
     
     template <>
     class Marsaglia<512> : public MarsagliaInner<512,123554632LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<512, 123554632LL>(seed) { }
     };
     
     template <>
     class Marsaglia<256> : public MarsagliaInner<256,8001634LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<256, 8001634LL>(seed) { }
     };
     
     template <>
     class Marsaglia<128> : public MarsagliaInner<128,8007626LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<128, 8007626LL>(seed) { }
     };
     
     template <>
     class Marsaglia<64> : public MarsagliaInner<64,647535442LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<64, 647535442LL>(seed) { }
     };
     
     template <>
     class Marsaglia<32> : public MarsagliaInner<32,547416522LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<32, 547416522LL>(seed) { }
     };
     
     template <>
     class Marsaglia<16> : public MarsagliaInner<16,487198574LL> {
+    public:
+        Marsaglia(uint32_t seed=0) : MarsagliaInner<16, 487198574LL>(seed) { }
     };
     
     template <>
-- 
2.43.0


From 797859ab64289c0434ce3d79310da89759eab354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:17:47 +0000
Subject: [PATCH 25/45] fix: MersenneTwister initArray of an empty array read
 outside it

---
 src/MersenneTwisterRandom.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/MersenneTwisterRandom.cpp b/src/MersenneTwisterRandom.cpp
index 916013c..a112d25 100644
--- a/src/MersenneTwisterRandom.cpp
+++ b/src/MersenneTwisterRandom.cpp
@@ -144,6 +144,7 @@ void
 MersenneTwisterInternal::initArray(std::vector<uint32_t> seed_array)
 {
     int i, j, k;
+    INVARIANT(!seed_array.empty(), "need at least one seed value");
     init(19650218UL);
     i=1; j=0;
     k = (N>(int)seed_array.size() ? N : seed_array.size());
-- 
2.43.0


From 8778ab09cdf118b08042aa28413aa4c02736741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:02 +0000
Subject: [PATCH 26/45] fix: MicroRandInner never shifted its fourth word down,
 leaving half its state constant

---
 include/Lintel/MarsagliaRandom.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/MarsagliaRandom.hpp b/include/Lintel/MarsagliaRandom.hpp
index d118b07..8af9341 100644
--- a/include/Lintel/MarsagliaRandom.hpp
+++ b/include/Lintel/MarsagliaRandom.hpp
@@ -40,7 +40,7 @@ namespace lintel {
             static const uint32_t b = 4;
             static const uint32_t c = 21;
             t=(x^(x<<a));
-            x=y; y=z; x=w;  // Shift 'em down.
+            x=y; y=z; z=w;  // Shift 'em down.
             return w=(t^(t>>b))^(w^(w>>c));
             //return w=(w^(w>>c))^(t^(t>>b));
         }
-- 
2.43.0


From ddc1224527be0170a9808b6a3a5c9803286cdfa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:12 +0000
Subject: [PATCH 27/45] fix: Clock::secondsToTfrac of times just below a whole
 second was a second off

---
 include/Lintel/Clock.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Lintel/Clock.hpp b/include/Lintel/Clock.hpp
index 3482364..50c9ab6 100644
--- a/include/Lintel/Clock.hpp
+++ b/include/Lintel/Clock.hpp
@@ -203,7 +203,8 @@ public:
 	//             = round(lower * 2^32)
 	//             = round((now - secs) * 2^32) = tmp
 	double tmp = round((seconds - sec_only) * DBL_TFRAC_PER_SECOND);
-	uint32_t tfrac_lower = static_cast<uint32_t>(tmp);
+	// can be rounded up to 2^32, i.e. to the next second
+	uint64_t tfrac_lower = static_cast<uint64_t>(tmp);
 	return (static_cast<uint64_t>(sec_only) << 32) + tfrac_lower;	
     }
 
-- 
2.43.0


From 6a925fbe13d002dc8efc2dec98d3d9374040364e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:38 +0000
Subject: [PATCH 28/45] fix: StatsHistogramUniform counted values just below
 the high bound past the end of its bins

---
 src/StatsHistogram.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 0a848a6..cfbdfa3 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -96,7 +96,8 @@ unsigned StatsHistogramUniform::sampleBin(const double value) const {
     else
 	bin = (unsigned)(floor((value-bin_low)/bin_width));
 
-    return bin;
+    // the division can round up to num_bins for values just below bin_high
+    return bin < num_bins ? bin : num_bins - 1;
 }
 
 void StatsHistogramUniform::add(const double value) {
-- 
2.43.0


From eb5266c2dac376c4943b1f751b6bb7294890f8d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:38 +0000
Subject: [PATCH 29/45] fix: histogram bin access let the index one past the
 last bin through

---
 src/StatsHistogram.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index cfbdfa3..868f98e 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -83,7 +83,7 @@ void StatsHistogramUniform::reset() {
 
 unsigned long StatsHistogramUniform::operator[](unsigned index) const {
     SINVARIANT(checkInvariants());
-    SINVARIANT(index <= num_bins);
+    SINVARIANT(index < num_bins);
     return bins[index];
 }
 
@@ -396,7 +396,7 @@ void StatsHistogramLog::reset() {
 
 unsigned long StatsHistogramLog::operator[](unsigned index) const {
     SINVARIANT(checkInvariants());
-    SINVARIANT(index <= num_bins);
+    SINVARIANT(index < num_bins);
     return bins[index];
 }
 
@@ -643,7 +643,7 @@ void StatsHistogramUniformAccum::add(const double value) {
 
 double StatsHistogramUniformAccum::value(unsigned index) const {
     SINVARIANT(checkInvariants());
-    SINVARIANT(index <= num_bins);
+    SINVARIANT(index < num_bins);
     return val_bins[index];
 }
 
@@ -756,7 +756,7 @@ void StatsHistogramLogAccum::add(const double index_value, const double data_val
 
 double StatsHistogramLogAccum::value(unsigned index) const {
     SINVARIANT(checkInvariants());
-    SINVARIANT(index <= num_bins);
+    SINVARIANT(index < num_bins);
     return val_bins[index];
 }
 
-- 
2.43.0


From fc40db1ee4a5dfb5146dfd34d5fe2bf54f235459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:38 +0000
Subject: [PATCH 30/45] fix: StatsHistogramUniformAccum with an odd number of
 bins wrote past its array

---
 src/StatsHistogram.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 868f98e..c7e7b4a 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -575,7 +575,7 @@ StatsHistogramUniformAccum::StatsHistogramUniformAccum(const unsigned bins_in,
 			      scalable_in, growable_in),
 	val_bins(NULL)
 {
-  val_bins = new double[bins_in];
+  val_bins = new double[num_bins]; // base class may have rounded bins_in up
   SINVARIANT(val_bins != NULL);
   reset();
 }
-- 
2.43.0


From 0bdd507fcd3a7cc6d69751d2a5f3e21b5169f848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:38 +0000
Subject: [PATCH 31/45] fix: StatsHistogramLogAccum leaked its values

---
 src/StatsHistogram.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index c7e7b4a..2ae3ba5 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -727,8 +727,8 @@ StatsHistogramLogAccum::StatsHistogramLogAccum(const unsigned bins_in,
 }
 
 StatsHistogramLogAccum::~StatsHistogramLogAccum() {
-    delete[] bins;
-    bins = NULL;
+    delete[] val_bins;
+    val_bins = NULL;
 }
 
 void StatsHistogramLogAccum::reset() {
-- 
2.43.0


From 58b6b991c93d6f785576b09e9cdda45625d57039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:38 +0000
Subject: [PATCH 32/45] fix: StatsHistogramUniform leaked its bins when growing

---
 src/StatsHistogram.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 2ae3ba5..9304d0c 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -121,7 +121,7 @@ void StatsHistogramUniform::add(const double value) {
 	    // zero the new bins, and then copy the old values over
 	    memset(&new_bins[0], 0,        new_num_bins*sizeof(unsigned long));
 	    memcpy(&new_bins[0], &old_bins[0], num_bins*sizeof(unsigned long));
-	    //	    delete old_bins; // suppressed for now ...
+	    delete[] old_bins;
 	    bins = new_bins;
 	    num_bins = new_num_bins;
 	    bin_high = bin_low + new_num_bins * bin_width;
@@ -140,7 +140,7 @@ void StatsHistogramUniform::add(const double value) {
 	    memset(new_bins, 0, sizeof(long) * new_num_bins);
 	    memcpy(&new_bins[new_num_bins - num_bins],
 		   &old_bins[0], num_bins*sizeof(unsigned long));
-	    // delete old_bins;
+	    delete[] old_bins;
 	    bins = new_bins;
 	    num_bins = new_num_bins;
 	    bin_low = bin_high - new_num_bins * bin_width;
-- 
2.43.0


From f32705a23fe086b51e9c29ec76b3b972fb0bcd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:38 +0000
Subject: [PATCH 33/45] fix: growable StatsHistogramUniformAccum never grew

---
 include/Lintel/StatsHistogram.hpp |  1 +
 src/StatsHistogram.cpp            | 98 ++++++++++++++++++-------------
 2 files changed, 59 insertions(+), 40 deletions(-)

diff --git a/include/Lintel/StatsHistogram.hpp b/include/Lintel/StatsHistogram.hpp
index 49e743d..30dd54f 100644
--- a/include/Lintel/StatsHistogram.hpp
+++ b/include/Lintel/StatsHistogram.hpp
@@ -116,6 +116,7 @@ protected:
     unsigned       num_grows;	// number of times rescaled
 
     unsigned sampleBin(const double x) const;
+    void growBins(const double value); // add bins to cover value
 
 public:
     StatsHistogramUniform(const unsigned bins_in,
diff --git a/src/StatsHistogram.cpp b/src/StatsHistogram.cpp
index 9304d0c..0928948 100644
--- a/src/StatsHistogram.cpp
+++ b/src/StatsHistogram.cpp
@@ -100,51 +100,55 @@ unsigned StatsHistogramUniform::sampleBin(const double value) const {
     return bin < num_bins ? bin : num_bins - 1;
 }
 
+void StatsHistogramUniform::growBins(const double value) {
+    num_rescales++;		// About to do a reset, so count it
+	
+    if (value >= bin_high) { 
+	INVARIANT(value < std::numeric_limits<double>::max()/2, 
+		  boost::format("StatsHistogramUniform: unreasonably"
+				"large upper value: %g") % value);
+	unsigned new_num_bins // round to an even number
+	    = 2 * ((unsigned)floor((value - bin_low) / bin_width) + 1)/2;
+	if (new_num_bins < num_bins * 2)
+	    new_num_bins = num_bins * 2; // at least double the bin count
+	unsigned long *new_bins = new unsigned long[new_num_bins];
+	unsigned long *old_bins = bins;
+
+	// zero the new bins, and then copy the old values over
+	memset(&new_bins[0], 0,        new_num_bins*sizeof(unsigned long));
+	memcpy(&new_bins[0], &old_bins[0], num_bins*sizeof(unsigned long));
+	delete[] old_bins;
+	bins = new_bins;
+	num_bins = new_num_bins;
+	bin_high = bin_low + new_num_bins * bin_width;
+    } else {
+	INVARIANT(-value < std::numeric_limits<double>::max()/2,
+		  boost::format("unreasonably large lower value: %lg")
+		  % value);
+	unsigned new_num_bins // round to an even number
+	    = 2 * ((unsigned)floor((bin_high - value) / bin_width) + 1)/2;
+	if (new_num_bins < num_bins * 2)
+	    new_num_bins = num_bins * 2; // at least double the bin count
+	unsigned long *new_bins = new unsigned long[new_num_bins];
+	unsigned long *old_bins = bins;
+
+	// zero the new bins, and then copy the old values over
+	memset(new_bins, 0, sizeof(long) * new_num_bins);
+	memcpy(&new_bins[new_num_bins - num_bins],
+	       &old_bins[0], num_bins*sizeof(unsigned long));
+	delete[] old_bins;
+	bins = new_bins;
+	num_bins = new_num_bins;
+	bin_low = bin_high - new_num_bins * bin_width;
+    }
+}
+
 void StatsHistogramUniform::add(const double value) {
     Stats::add(value);	// Keep track of means, etc
 
     // Grow the number of bins?
     if (is_growable  &&  (value < bin_low || value >= bin_high)) {
-	num_rescales++;		// About to do a reset, so count it
-	
-	if (value >= bin_high) { 
-	    INVARIANT(value < std::numeric_limits<double>::max()/2, 
-		      boost::format("StatsHistogramUniform: unreasonably"
-				    "large upper value: %g") % value);
-	    unsigned new_num_bins // round to an even number
-		= 2 * ((unsigned)floor((value - bin_low) / bin_width) + 1)/2;
-	    if (new_num_bins < num_bins * 2)
-		new_num_bins = num_bins * 2; // at least double the bin count
-	    unsigned long *new_bins = new unsigned long[new_num_bins];
-	    unsigned long *old_bins = bins;
-
-	    // zero the new bins, and then copy the old values over
-	    memset(&new_bins[0], 0,        new_num_bins*sizeof(unsigned long));
-	    memcpy(&new_bins[0], &old_bins[0], num_bins*sizeof(unsigned long));
-	    delete[] old_bins;
-	    bins = new_bins;
-	    num_bins = new_num_bins;
-	    bin_high = bin_low + new_num_bins * bin_width;
-	} else {
-	    INVARIANT(-value < std::numeric_limits<double>::max()/2,
-		      boost::format("unreasonably large lower value: %lg")
-		      % value);
-	    unsigned new_num_bins // round to an even number
-		= 2 * ((unsigned)floor((bin_high - value) / bin_width) + 1)/2;
-	    if (new_num_bins < num_bins * 2)
-		new_num_bins = num_bins * 2; // at least double the bin count
-	    unsigned long *new_bins = new unsigned long[new_num_bins];
-	    unsigned long *old_bins = bins;
-
-	    // zero the new bins, and then copy the old values over
-	    memset(new_bins, 0, sizeof(long) * new_num_bins);
-	    memcpy(&new_bins[new_num_bins - num_bins],
-		   &old_bins[0], num_bins*sizeof(unsigned long));
-	    delete[] old_bins;
-	    bins = new_bins;
-	    num_bins = new_num_bins;
-	    bin_low = bin_high - new_num_bins * bin_width;
-	}
+	growBins(value);
     }
 
     if (is_scalable  &&  (value < bin_low || value >= bin_high)) {
@@ -595,6 +599,20 @@ void StatsHistogramUniformAccum::add(const double index_value,
                                      const double data_value) {
     Stats::add(data_value);		// Keep track of means, etc
 
+    if (is_growable  &&  (index_value < bin_low || index_value >= bin_high)) {
+	const unsigned old_num_bins = num_bins;
+	const bool grow_low = index_value < bin_low;
+	growBins(index_value);
+
+	double *new_val_bins = new double[num_bins];
+	for (unsigned i = 0; i < num_bins; i++)
+	    new_val_bins[i] = 0.0;
+	memcpy(&new_val_bins[grow_low ? num_bins - old_num_bins : 0],
+	       val_bins, old_num_bins*sizeof(double));
+	delete[] val_bins;
+	val_bins = new_val_bins;
+    }
+
     if (is_scalable  &&  (index_value < bin_low || index_value >= bin_high)) {
 	num_rescales++;		// About to do a reset, so count it
 
-- 
2.43.0


From 05b5d12a600756a073b9a48888d2b409d79f1013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:48 +0000
Subject: [PATCH 34/45] fix: StatsSeries deleted its arrays as single objects

---
 src/StatsSeries.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/StatsSeries.cpp b/src/StatsSeries.cpp
index 803963a..4f81f41 100644
--- a/src/StatsSeries.cpp
+++ b/src/StatsSeries.cpp
@@ -64,11 +64,11 @@ StatsSeries::StatsSeries(unsigned maxlag_in)
 
 StatsSeries::~StatsSeries()
 {
-  delete samples;
+  delete[] samples;
   samples = NULL;
-  delete product;
+  delete[] product;
   product = NULL;
-  delete firstsamples;
+  delete[] firstsamples;
   firstsamples = NULL;
   max_lag = 0;
 }
-- 
2.43.0


From 13c147cace73c2a166b834ee5613d88c01d53caf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:48 +0000
Subject: [PATCH 35/45] fix: StatsSeries::autocovariance wrapped around for
 lags as long as the series

---
 src/StatsSeries.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/StatsSeries.cpp b/src/StatsSeries.cpp
index 4f81f41..ef8dfa6 100644
--- a/src/StatsSeries.cpp
+++ b/src/StatsSeries.cpp
@@ -127,6 +127,10 @@ StatsSeries::autocovariance(unsigned lag) const
 {
   SINVARIANT(lag<=max_lag);
   
+  if (lag >= sampleno) { // no two samples are that far apart
+    return 0.0;
+  }
+
   double lastsamples;
   lastsamples = 0.0;
   for (unsigned i=0; i<lag; i++) {
-- 
2.43.0


From d50bc3db51bdade242bf05d6b238fabb9ea86a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:48 +0000
Subject: [PATCH 36/45] fix: StatsSeriesGroup::reset left the statistics of the
 whole series in place

---
 src/StatsSeriesGroup.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/StatsSeriesGroup.cpp b/src/StatsSeriesGroup.cpp
index fa1b48a..9acd8e9 100644
--- a/src/StatsSeriesGroup.cpp
+++ b/src/StatsSeriesGroup.cpp
@@ -72,6 +72,7 @@ StatsSeriesGroup::addTimeSeq(const double value, const double timeSeq)
 void
 StatsSeriesGroup::reset()
 {
+    Stats::reset();
     for(unsigned int i=0;i<stats.size();i++) {
 	delete stats[i];
     }
-- 
2.43.0


From ace28919e775a4e4d12d5a18cbe303c6c681cb02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:48 +0000
Subject: [PATCH 37/45] fix: StatsSeriesGroup::getSeriesStat of an interval
 without data returned a null reference

---
 include/Lintel/StatsSeriesGroup.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Lintel/StatsSeriesGroup.hpp b/include/Lintel/StatsSeriesGroup.hpp
index 22a624e..c8ff051 100644
--- a/include/Lintel/StatsSeriesGroup.hpp
+++ b/include/Lintel/StatsSeriesGroup.hpp
@@ -33,6 +33,10 @@ public:
     const Stats &getSeriesStat(const int statnum) {
 	INVARIANT(statnum >= 0 && static_cast<size_t>(statnum) < stats.size(),
 		  boost::format("statnum %d is out of bounds") % statnum);
+	if (stats[statnum] == NULL) { // no data in that interval
+	    static const Stats empty;
+	    return empty;
+	}
 	return *(stats[statnum]);
     }
 
-- 
2.43.0


From e041ba240d3433e0f208dc12e9eed7af7e485d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:48 +0000
Subject: [PATCH 38/45] fix: StatsRW started its series again with every value
 added to All

---
 src/StatsRW.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/StatsRW.cpp b/src/StatsRW.cpp
index 8f71f2e..ea7fcb1 100644
--- a/src/StatsRW.cpp
+++ b/src/StatsRW.cpp
@@ -56,7 +56,8 @@ StatsRW::finish_init()
 void
 StatsRW::add(const double value, modeT mode, const double timeSeq)
 {
-    if(allStatsSeriesGroup && read->count() == 0 && write->count() == 0) {
+    if(allStatsSeriesGroup && read->count() == 0 && write->count() == 0 
+       && all->count() == 0) {
 	dynamic_cast<StatsSeriesGroup *>(read)->setSeriesStart(timeSeq);
 	dynamic_cast<StatsSeriesGroup *>(write)->setSeriesStart(timeSeq);
 	dynamic_cast<StatsSeriesGroup *>(all)->setSeriesStart(timeSeq);
-- 
2.43.0


From ac74911019d914b81f5e1ae755c240541f6334ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:48 +0000
Subject: [PATCH 39/45] fix: printing a StatsRW with null entries read through
 them

---
 src/StatsRW.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/StatsRW.cpp b/src/StatsRW.cpp
index ea7fcb1..60935b1 100644
--- a/src/StatsRW.cpp
+++ b/src/StatsRW.cpp
@@ -118,25 +118,26 @@ StatsRW::printRome(int depth, std::ostream &out) const
     spaces += " ";
   }
 
-  if (read->count() == 0 && write->count() == 0 &&
-      all->count() > 0) { 
+  if ((read == NULL || read->count() == 0) && 
+      (write == NULL || write->count() == 0) &&
+      all != NULL && all->count() > 0) { 
       // Behave as if we were just the underlying all stats object.
       all->printRome(depth,out);
   } else {
       out << spaces << "{\n";
-      if (read->count() != 0) {
+      if (read != NULL && read->count() != 0) {
 	  out << spaces << "  { read {\n";
 	  read->printRome(depth+4,out);
 	  out << spaces << "  }}\n";
       }
 
-      if (write->count() != 0) {
+      if (write != NULL && write->count() != 0) {
 	  out << spaces << "  { write {\n";
 	  write->printRome(depth+4,out);
 	  out << spaces << "  }}\n";
       }
 
-      if (all->count() != 0) {
+      if (all != NULL && all->count() != 0) {
 	  out << spaces << "  { all {\n";
 	  all->printRome(depth+4,out);
 	  out << spaces << "  }}\n";
@@ -159,25 +160,26 @@ void StatsRW::printTabular(int depth, std::ostream& out) const
   }
   */
 
-  if (read->count() == 0 && write->count() == 0 &&
-      all->count() > 0) { 
+  if ((read == NULL || read->count() == 0) && 
+      (write == NULL || write->count() == 0) &&
+      all != NULL && all->count() > 0) { 
       // Behave as if we were just the underlying all stats object.
       all->printTabular(depth,out);
   } else {
       out << spaces << "StatsRW begin\n";
-      if (read->count() != 0) {
+      if (read != NULL && read->count() != 0) {
 	  out << spaces << "read begin\n";
 	  read->printTabular(depth+4,out);
 	  out << spaces << "read end\n";
       }
 
-      if (write->count() != 0) {
+      if (write != NULL && write->count() != 0) {
 	  out << spaces << "write begin\n";
 	  write->printTabular(depth+4,out);
 	  out << spaces << "write end\n";
       }
 
-      if (all->count() != 0) {
+      if (all != NULL && all->count() != 0) {
 	  out << spaces << "all begin\n";
 	  all->printTabular(depth+4,out);
 	  out << spaces << "all end\n";
-- 
2.43.0


From cd0b4c0d08d1bbb4beeba46dca1e531ac061dd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:33 +0000
Subject: [PATCH 40/45] fix: posix::readN asked for the whole length again
 after a short read, past the end of the buffer

---
 include/Lintel/Posix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Lintel/Posix.hpp b/include/Lintel/Posix.hpp
index e198beb..6d43e59 100644
--- a/include/Lintel/Posix.hpp
+++ b/include/Lintel/Posix.hpp
@@ -71,7 +71,7 @@ namespace posix {
 	uint8_t *buf2 = (uint8_t *)buf;
 	ssize_t left = nbyte;
 	do {
-	    ssize_t nb = ::read(fd, buf2, nbyte);
+	    ssize_t nb = ::read(fd, buf2, left);
 	    INVARIANT(nb != -1, boost::format("readN(%d): %s") 
 		      % fd % strerror(errno));
 	    if (nb == 0) {
-- 
2.43.0


From 9450faf6141b1a995714bc88e4ce8892866698ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:19 +0000
Subject: [PATCH 41/45] fix: the debug level of a log category depended on
 whether it was used before its prefix was set

---
 src/LintelLog.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/LintelLog.cpp b/src/LintelLog.cpp
index 0d2b061..95d7d70 100644
--- a/src/LintelLog.cpp
+++ b/src/LintelLog.cpp
@@ -257,8 +257,8 @@ uint32_t LintelLog::lockedCategoryToId(const string &category) {
 	for(vector<instance_data::complex_match *>::iterator i = instance->complex_matches.begin(); 
 	    i != instance->complex_matches.end(); ++i) {
 	    if (prefixequal(category, (**i).first)) {
+		// last match, the level categories already set up have
 		instance->debug_levels[ret] = (**i).second;
-		break; // first match
 	    }
 	}
     }
-- 
2.43.0


From 1e3de2c6247ff7d4150b590e64f5038d666f7106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:19 +0000
Subject: [PATCH 42/45] fix: debug levels above 255 were silently reduced
 modulo 256

---
 src/LintelLog.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/LintelLog.cpp b/src/LintelLog.cpp
index 95d7d70..3935b00 100644
--- a/src/LintelLog.cpp
+++ b/src/LintelLog.cpp
@@ -60,7 +60,9 @@ void LintelLog::parseDebugString(const string &debug_options) {
 	if (subparts.size() == 1) {
 	    setDebugLevel(*i, 1);
 	} else {
-	    setDebugLevel(subparts[0], stringToInteger<uint32_t>(subparts[1]));
+	    uint32_t level = stringToInteger<uint32_t>(subparts[1]);
+	    INVARIANT(level <= 255, format("debug level %d is out of range") % level);
+	    setDebugLevel(subparts[0], level);
 	}
     }
 }
-- 
2.43.0


From 61413269970d7e41eae5e4272498452c46da70d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:57 +0000
Subject: [PATCH 43/45] fix: StatsQuantile sized its positions, one per buffer,
 by the size of a buffer

---
 src/StatsQuantile.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/StatsQuantile.cpp b/src/StatsQuantile.cpp
index 6d155a4..ed76305 100644
--- a/src/StatsQuantile.cpp
+++ b/src/StatsQuantile.cpp
@@ -155,7 +155,7 @@ void StatsQuantile::init(int _nbuffers, int _buffer_size) {
     } else {
 	tmp_buffer = NULL;
     }
-    collapse_pos = new int[buffer_size];
+    collapse_pos = new int[nbuffers];
     init_buffers();
 }
 
@@ -266,7 +266,7 @@ void StatsQuantile::add(const Stats &_stat) {
 	cur_buffer = stat->cur_buffer;
 	cur_buffer_pos = stat->cur_buffer_pos;
 	// TODO: determine if we really have to copy collapse_pos
-	memcpy(collapse_pos, stat->collapse_pos, sizeof(int) * buffer_size);
+	memcpy(collapse_pos, stat->collapse_pos, sizeof(int) * nbuffers);
 	collapse_even_low = stat->collapse_even_low;
 	return;
     }
-- 
2.43.0


From 7a4a88706a4472670e1c23aa58df3502d13629ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:13:57 +0000
Subject: [PATCH 44/45] fix: adding an empty StatsQuantile to one with values
 read before its buffers

---
 src/StatsQuantile.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/StatsQuantile.cpp b/src/StatsQuantile.cpp
index ed76305..822fef9 100644
--- a/src/StatsQuantile.cpp
+++ b/src/StatsQuantile.cpp
@@ -286,6 +286,9 @@ void StatsQuantile::add(const Stats &_stat) {
     // first, and if we are in order, then just drop everything in and
     // leave the buffer marked sorted.
 
+    if (stat->cur_buffer < 0) { // nothing in there, no buffer to look at
+	return;
+    }
     for(int i=0; i < stat->cur_buffer; ++i) {
 	// cur_buffer is the one we are filling, so all previous ones are full
 	double *abuf = stat->all_buffers[i];
-- 
2.43.0


From 8c8bafab5f479683cb3f2f94fa1de38307e442cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:13:12 +0000
Subject: [PATCH 45/45] fix: AssertExceptionT::stringPrintF keeps messages of
 1024 bytes and more

vsnprintf returns the length the text would have had; resizing the 1024 byte buffer to
it filled the rest of a longer message with zero bytes.
---
 src/AssertException.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/AssertException.cpp b/src/AssertException.cpp
index 5a19d8c..ebbbf9b 100644
--- a/src/AssertException.cpp
+++ b/src/AssertException.cpp
@@ -20,7 +20,6 @@ AssertExceptionT::~AssertExceptionT() throw()
 std::string
 AssertExceptionT::stringPrintF(const char *format, ...) 
 {
-  // could dynamically size up to get a long enough string
   std::string ret;
 
   ret.resize(1024);
@@ -30,6 +29,13 @@ AssertExceptionT::stringPrintF(const char *format, ...)
   int actual_size = vsnprintf(&ret[0], ret.size(), format, ap);
 
   va_end(ap);
+  if (actual_size >= static_cast<int>(ret.size())) {
+    // it didn't fit, but now we know how much space it needs
+    ret.resize(actual_size + 1);
+    va_start(ap, format);
+    actual_size = vsnprintf(&ret[0], ret.size(), format, ap);
+    va_end(ap);
+  }
   ret.resize(actual_size);
   return ret;
 }
-- 
2.43.0

