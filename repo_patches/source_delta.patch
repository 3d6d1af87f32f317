From 8640d13650bb870bd0ceda4217f7607d6304a3ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 1/6] fix: allocator blocks could extend past the end of their
 segment

The space taken by the segment header was not subtracted from the usable
size, so when the remainder of the segment was smaller than the header the
last block overran the memory returned by malloc (e.g. block size 24,
alignment 8).
---
 tommyds/tommyalloc.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tommyds/tommyalloc.c b/tommyds/tommyalloc.c
index 0da604c..bae7348 100644
--- a/tommyds/tommyalloc.c
+++ b/tommyds/tommyalloc.c
@@ -103,6 +103,7 @@ void* tommy_allocator_alloc(tommy_allocator* alloc)
 		segment->next = alloc->used_segment;
 		alloc->used_segment = segment;
 		data += sizeof(tommy_allocator_entry);
+		size -= sizeof(tommy_allocator_entry);
 
 		/* align if not aligned */
 		off = (tommy_uintptr_t)data;
-- 
2.43.0


From bbeb61a7712b0218377dbd40bc555bbb863fd1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 2/6] fix: undefined misaligned 32 bits loads in the hash
 functions

Reading the key with a cast pointer is undefined behaviour when the key is
not 4 bytes aligned, and allows the compiler to generate aligned accesses.
---
 tommyds/tommyhash.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tommyds/tommyhash.c b/tommyds/tommyhash.c
index 71c4ef3..add1a0f 100644
--- a/tommyds/tommyhash.c
+++ b/tommyds/tommyhash.c
@@ -27,6 +27,8 @@
 
 #include "tommyhash.h"
 
+#include <string.h> /* for memcpy */
+
 /******************************************************************************/
 /* hash */
 
@@ -35,7 +37,9 @@ tommy_inline tommy_uint32_t tommy_le_uint32_read(const void* ptr)
 	/* allow unaligned read on Intel x86 and x86_64 platforms */
 #if defined(__i386__) || defined(_M_IX86) || defined(_X86_) || defined(__x86_64__) || defined(_M_X64)
 	/* defines from http://predef.sourceforge.net/ */
-	return *(const tommy_uint32_t*)ptr;
+	tommy_uint32_t value;
+	memcpy(&value, ptr, sizeof(value));
+	return value;
 #else
 	const unsigned char* ptr8 = tommy_cast(const unsigned char*, ptr);
 	return ptr8[0] + ((tommy_uint32_t)ptr8[1] << 8) + ((tommy_uint32_t)ptr8[2] << 16) + ((tommy_uint32_t)ptr8[3] << 24);
-- 
2.43.0


From 0815d63c9296b4fb33b81dfe503334f25cae6df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 3/6] fix: tommy_strhash_u32() read past the string terminator

The string was read in 4 bytes chunks, accessing up to 3 bytes after the
terminator, that could be outside the allocated memory.
---
 tommyds/tommyhash.c | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/tommyds/tommyhash.c b/tommyds/tommyhash.c
index add1a0f..fe08035 100644
--- a/tommyds/tommyhash.c
+++ b/tommyds/tommyhash.c
@@ -169,6 +169,26 @@ tommy_uint64_t tommy_hash_u64(tommy_uint64_t init_val, const void* void_key, tom
 	return c + ((tommy_uint64_t)b << 32);
 }
 
+/**
+ * Reads up to 4 chars of a 0 terminated string, without accessing the memory
+ * after the terminator.
+ */
+tommy_inline tommy_uint32_t tommy_le_uint32_read_str(const unsigned char* ptr)
+{
+	tommy_uint32_t value = ptr[0];
+
+	if (ptr[0] != 0) {
+		value |= (tommy_uint32_t)ptr[1] << 8;
+		if (ptr[1] != 0) {
+			value |= (tommy_uint32_t)ptr[2] << 16;
+			if (ptr[2] != 0)
+				value |= (tommy_uint32_t)ptr[3] << 24;
+		}
+	}
+
+	return value;
+}
+
 tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 {
 	const unsigned char* key = tommy_cast(const unsigned char*, void_key);
@@ -179,7 +199,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 	/* this is different than original lookup3 and the result won't match */
 
 	while (1) {
-		tommy_uint32_t v = tommy_le_uint32_read(key);
+		tommy_uint32_t v = tommy_le_uint32_read_str(key);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
@@ -196,7 +216,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 
 		a += v;
 
-		v = tommy_le_uint32_read(key + 4);
+		v = tommy_le_uint32_read_str(key + 4);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
@@ -213,7 +233,7 @@ tommy_uint32_t tommy_strhash_u32(tommy_uint64_t init_val, const void* void_key)
 
 		b += v;
 
-		v = tommy_le_uint32_read(key + 8);
+		v = tommy_le_uint32_read_str(key + 8);
 
 		if (tommy_haszero_u32(v)) {
 			if (v & m[0]) {
-- 
2.43.0


From a0efcd3a02603814654a16e71e0678460d768f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 4/6] fix: height of new leafs in the AVL tree

A new leaf was inserted with the same height of an empty subtree, resulting
in a tree not respecting the AVL balance (inserting 1, 2, 3 generated a chain).
---
 tommyds/tommytree.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tommyds/tommytree.c b/tommyds/tommytree.c
index 8ef8478..f9202c4 100644
--- a/tommyds/tommytree.c
+++ b/tommyds/tommytree.c
@@ -145,7 +145,7 @@ void* tommy_tree_insert(tommy_tree* tree, tommy_tree_node* node, void* data)
 	insert->data = data;
 	insert->prev = 0;
 	insert->next = 0;
-	insert->index = 0;
+	insert->index = 1;
 
 	tree->root = tommy_tree_insert_node(tree->cmp, tree->root, &insert);
 
-- 
2.43.0


From 628e25d69bb28163f1b4c475dc61892c4f7cb6e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:18 +0000
Subject: [PATCH 5/6] fix: burst of splits in hashlin when growing from a
 partial shrink

When inserting again during a shrink, the grow was restarted only when the
load reached half of the maximum number of buckets, and not half of the
buckets really in use, and then all the missing splits were done in the
same insert.
---
 tommyds/tommyhashlin.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tommyds/tommyhashlin.c b/tommyds/tommyhashlin.c
index fe138f7..cd182e9 100644
--- a/tommyds/tommyhashlin.c
+++ b/tommyds/tommyhashlin.c
@@ -90,7 +90,7 @@ tommy_inline void hashlin_grow_step(tommy_hashlin* hashlin)
 {
 	/* grow if more than 50% full */
 	if (hashlin->state != TOMMY_HASHLIN_STATE_GROW
-		&& hashlin->count > hashlin->bucket_max / 2
+		&& hashlin->count > (hashlin->low_max + hashlin->split) / 2
 	) {
 		/* if we are stable, setup a new grow state */
 		/* otherwise continue with the already setup shrink one */
-- 
2.43.0


From 8b845d61deeafb0c0b2a645ff0d4391a7a2f2edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:32 +0000
Subject: [PATCH 6/6] fix: tree corruption inserting again an element already
 in the tree

The node was initialized before checking if the element was already present,
cutting the subtrees of a node already in the tree, and counting it twice.
---
 tommyds/tommytree.c | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/tommyds/tommytree.c b/tommyds/tommytree.c
index f9202c4..cd5770d 100644
--- a/tommyds/tommytree.c
+++ b/tommyds/tommytree.c
@@ -113,22 +113,29 @@ static tommy_tree_node* tommy_tree_balance(tommy_tree_node* root)
 	return root;
 }
 
-static tommy_tree_node* tommy_tree_insert_node(tommy_compare_func* cmp, tommy_tree_node* root, tommy_tree_node** let)
+static tommy_tree_node* tommy_tree_insert_node(tommy_tree* tree, tommy_tree_node* root, tommy_tree_node** let)
 {
 	int c;
 
-	if (!root)
-		return *let;
+	if (!root) {
+		/* initialize the node only now, as it could be already in the tree */
+		root = *let;
+		root->prev = 0;
+		root->next = 0;
+		root->index = 1;
+		++tree->count;
+		return root;
+	}
 
-	c = cmp((*let)->data, root->data);
+	c = tree->cmp((*let)->data, root->data);
 
 	if (c < 0) {
-		root->prev = tommy_tree_insert_node(cmp, root->prev, let);
+		root->prev = tommy_tree_insert_node(tree, root->prev, let);
 		return tommy_tree_balance(root);
 	}
 
 	if (c > 0) {
-		root->next = tommy_tree_insert_node(cmp, root->next, let);
+		root->next = tommy_tree_insert_node(tree, root->next, let);
 		return tommy_tree_balance(root);
 	}
 
@@ -143,14 +150,8 @@ void* tommy_tree_insert(tommy_tree* tree, tommy_tree_node* node, void* data)
 	tommy_tree_node* insert = node;
 
 	insert->data = data;
-	insert->prev = 0;
-	insert->next = 0;
-	insert->index = 1;
 
-	tree->root = tommy_tree_insert_node(tree->cmp, tree->root, &insert);
-
-	if (insert == node)
-		++tree->count;
+	tree->root = tommy_tree_insert_node(tree, tree->root, &insert);
 
 	return insert->data;
 }
-- 
2.43.0

