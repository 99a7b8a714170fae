From 38a3c553fb53671671ab04ce2ac32276ac757490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:46 +0000
Subject: [PATCH 001/110] fix: nested iteration over the same map no longer
 aborts the process

---
 src/handlebars_value.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 117e959..8d57f04 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -842,20 +842,20 @@ static bool handlebars_value_iterator_next_stack(struct handlebars_value_iterato
 
 static bool handlebars_value_iterator_next_map(struct handlebars_value_iterator * it)
 {
+    struct handlebars_map * map = it->usr;
     struct handlebars_value * tmp;
 
-    assert(it->value != NULL);
-    assert(it->value->type == HANDLEBARS_VALUE_TYPE_MAP);
+    assert(map != NULL);
 
-
-    if( it->index >= handlebars_map_count(it->value->v.map) - 1 ) {
+    if( it->index >= handlebars_map_count(map) - 1 ) {
         handlebars_value_dtor(it->cur);
-        handlebars_map_set_is_in_iteration(it->value->v.map, false);
+        it->usr = NULL;
+        handlebars_map_delref(map);
         return false;
     }
 
     it->index++;
-    handlebars_map_get_kv_at_index(it->value->v.map, it->index, &it->key, &tmp);
+    handlebars_map_get_kv_at_index(map, it->index, &it->key, &tmp);
     handlebars_value_value(it->cur, tmp);
     return true;
 }
@@ -890,10 +890,10 @@ bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struc
             handlebars_map_get_kv_at_index(value->v.map, it->index, &it->key, &tmp);
             handlebars_value_value(it->cur, tmp);
             it->next = &handlebars_value_iterator_next_map;
-            if (handlebars_map_set_is_in_iteration(value->v.map, true)) {
-                fprintf(stderr, "Nested map iteration is not currently supported [%s:%d]", __FILE__, __LINE__);
-                abort();
-            }
+            // Hold a reference, so that anything that changes the map in the
+            // meantime separates it from the one being iterated
+            it->usr = value->v.map;
+            handlebars_map_addref(value->v.map);
             return true;
 
         case HANDLEBARS_VALUE_TYPE_USER:
-- 
2.43.0


From 35232b1ed2d98f33a56f26c73b73e34d58ae2774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 002/110] fix: map tombstones no longer lose entries or free
 slots

Insertion scanned past tombstones without remembering one, compaction
skipped an entry after the first gap, and a rejected duplicate insert could
release the caller's map first.
---
 src/handlebars_map.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index cfaeed1..fc78706 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -188,13 +188,15 @@ static inline struct ht_find_result map_find_entry(
     for (i = 0; i < table_capacity; i++) {
         pos = (start + i) % table_capacity;
         if (!table[pos]) {
-            ret.empty_found = true;
-            ret.empty_offset = pos;
+            if (!ret.empty_found) {
+                ret.empty_found = true;
+                ret.empty_offset = pos;
+            }
             break;
         } else if (table[pos] == HANDLEBARS_MAP_TOMBSTONE) {
             ret.tombstones++;
             if (!ret.empty_found) {
-                ret.empty_offset = true;
+                ret.empty_found = true;
                 ret.empty_offset = pos;
             }
         } else if( handlebars_string_eq(table[pos]->key, key) ) {
@@ -399,12 +401,18 @@ void handlebars_map_dtor(struct handlebars_map * map)
 
 struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct handlebars_string * key, struct handlebars_value * value)
 {
+    // Check for a duplicate before rehashing, as that may release the map the caller has
+    struct ht_find_result o = map_find_entry(map, key);
+    if (o.entry_found) {
+        handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
+    }
+
     // Rehash
     map = handlebars_map_rehash(map, false);
 
     // Add
-    struct ht_find_result o = map_find_entry(map, key);
-    if (o.entry_found || !o.empty_found) {
+    o = map_find_entry(map, key);
+    if (!o.empty_found) {
         // this should never happen - unless rehash locked due to iteration
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
     }
@@ -551,8 +559,7 @@ void handlebars_map_sparse_array_compact(struct handlebars_map * map)
     // Scan until the first tombstone
     for (; i < map->vec_offset; i++) {
         if (0 == memcmp(&vec[i], &HANDLEBARS_MAP_TOMBSTONE_V, sizeof(HANDLEBARS_MAP_TOMBSTONE_V))) {
-            i++;
-            vec_offset++;
+            vec_offset = i++;
             break;
         }
     }
-- 
2.43.0


From c3963b1ccf6a5561bb6cf609e7a6abab25448030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 003/110] fix: popping a stack stops at the protected segment

---
 src/handlebars_stack.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_stack.c b/src/handlebars_stack.c
index 5d062e2..2bc3545 100644
--- a/src/handlebars_stack.c
+++ b/src/handlebars_stack.c
@@ -222,7 +222,7 @@ struct handlebars_value * handlebars_stack_pop(struct handlebars_stack * stack,
     }
 #endif
 
-    if (stack->i < stack->protect) {
+    if (stack->i <= stack->protect) {
         handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Attempting to pop protected stack segment i=%zu protect=%zu", stack->i, stack->protect);
     }
 
-- 
2.43.0


From bec4d689c1bcdc7e29e0aa8ca0f1052676f82cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 004/110] fix: strings are compared by content, not by hash or
 up to a NUL byte

Two map keys of the same length with equal 32-bit hashes were taken for the
same key.
---
 src/handlebars_string.c | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 690bd62..858b72c 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -334,7 +334,8 @@ bool handlebars_string_eq(
     if( string1->len != string2->len ) {
         return false;
     } else {
-        return hbs_str_hash(string1) == hbs_str_hash(string2);
+        return hbs_str_hash(string1) == hbs_str_hash(string2)
+            && 0 == memcmp(string1->val, string2->val, string1->len);
     }
 }
 
@@ -370,19 +371,19 @@ bool hbs_str_eq_strl(
     if (hbs_str_len(string1) != len2) {
         return false;
     }
-    return 0 == strncmp(hbs_str_val(string1), str2, len2);
+    return 0 == memcmp(hbs_str_val(string1), str2, len2);
 }
 
 const char * handlebars_strnstr(const char * haystack, size_t haystack_len, const char * needle, size_t needle_len)
 {
-    const char * end = haystack + haystack_len - needle_len;
-
-    if( !needle_len || !haystack_len ) {
+    if( !needle_len || needle_len > haystack_len ) {
         return NULL;
     }
 
+    const char * end = haystack + haystack_len - needle_len;
+
     for( ; haystack <= end; haystack++ ) {
-        if( haystack[0] == needle[0] && strncmp(haystack, needle, needle_len) == 0 ) {
+        if( haystack[0] == needle[0] && memcmp(haystack, needle, needle_len) == 0 ) {
             return haystack;
         }
     }
-- 
2.43.0


From 721141c491b5241bbc9c49e4bbcb2e0b4c5edc26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 005/110] fix: in-place string edits work on the separated copy
 and drop the cached hash

---
 src/handlebars_string.c | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 858b72c..bbdfb6d 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -396,13 +396,14 @@ struct handlebars_string * handlebars_str_reduce(
     const char * search, size_t search_len,
     const char * replacement, size_t replacement_len
 ) {
-    char * tok = string->val;
+    char * tok;
 
     if( replacement_len > search_len || search_len <= 0 || string->len <= 0 ) {
         return string;
     }
 
     string = separate_string(string);
+    tok = string->val;
 
     while( NULL != (tok = (char *) handlebars_strnstr(tok, string->len - (tok - string->val), search, search_len)) ) {
         memmove(tok, replacement, replacement_len);
@@ -511,6 +512,8 @@ struct handlebars_string * handlebars_string_addcslashes(struct handlebars_conte
 
 struct handlebars_string * handlebars_string_stripcslashes(struct handlebars_string * string)
 {
+    string = separate_string(string);
+
     char * source = string->val;
     char * target = string->val;
     char * end = string->val + string->len;
@@ -518,8 +521,6 @@ struct handlebars_string * handlebars_string_stripcslashes(struct handlebars_str
     size_t i;
     char numtmp[4];
 
-    string = separate_string(string);
-
     for( ; source < end; source++ ) {
         if( *source == '\\' && source + 1 < end ) {
             source++;
@@ -821,13 +822,14 @@ struct handlebars_string * handlebars_string_ltrim(struct handlebars_string * st
     }
 
     ptr = string->val;
-    while( *ptr && flags[(unsigned char) *ptr] ) {
+    while( string->len > 0 && flags[(unsigned char) *ptr] ) {
         ++ptr;
         --string->len;
     }
 
     if( ptr > string->val ) {
         memmove(string->val, ptr, string->len + 1);
+        string->hash = 0;
     }
 
     return string;
@@ -857,6 +859,7 @@ struct handlebars_string * handlebars_string_rtrim(struct handlebars_string * st
     while( original > string->val && flags[(unsigned char) *--original] ) {
         --string->len;
         *original = '\0';
+        string->hash = 0;
     }
 
     return string;
-- 
2.43.0


From 9987381fb4f1a942fc35940836a43d6b9e7ec1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 006/110] fix: an empty standalone partial no longer emits its
 indentation

---
 src/handlebars_string.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index bbdfb6d..1acf51a 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -772,6 +772,12 @@ struct handlebars_string * handlebars_string_indent_append(
 ) {
     const char * str = input_string->val;
     size_t str_len = input_string->len;
+
+    if( str_len == 0 ) {
+        handlebars_string_delref(input_string);
+        return append_to_string;
+    }
+
     bool endsInLine = (str[str_len - 1] == '\n');
     size_t i;
     char tmp[2] = "\0";
-- 
2.43.0


From 3fcc5a782d37b2b789104e803173ca869d529e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:23 +0000
Subject: [PATCH 007/110] fix: string hashing and truncation stay within the
 string

---
 src/handlebars_string.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 1acf51a..35373ec 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -101,11 +101,10 @@ uint32_t hbs_str_hash(struct handlebars_string * str) {
 uint32_t handlebars_hash_djbx33a(const char * str, size_t len)
 {
     uint32_t hash = 5381;
-    uint32_t c;
     const unsigned char * ptr = (const unsigned char *) str;
     const unsigned char * end = ptr + len;
-    for (c = *ptr++; ptr <= end && c; c = *ptr++) {
-        hash = ((hash << 5) + hash) + c; /* hash * 33 + c */
+    for (; ptr < end && *ptr; ptr++) {
+        hash = ((hash << 5) + hash) + *ptr; /* hash * 33 + c */
     }
     return hash;
 }
@@ -352,6 +351,9 @@ struct handlebars_string * handlebars_string_truncate(
     }
 
     // Truncate left
+    if (start > string->len) {
+        start = string->len;
+    }
     if (start > 0) {
         memmove(string->val, string->val + start, string->len - start);
         string->len -= start;
-- 
2.43.0


From 3bb95a0d808b220812be36a1487e82548958178a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:05 +0000
Subject: [PATCH 008/110] fix: a growing or separated stack keeps its protected
 segment

---
 src/handlebars_stack.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_stack.c b/src/handlebars_stack.c
index 2bc3545..4e8cd5d 100644
--- a/src/handlebars_stack.c
+++ b/src/handlebars_stack.c
@@ -98,6 +98,7 @@ static inline struct handlebars_stack * stack_separate(struct handlebars_stack *
         }
         struct handlebars_stack * prev_stack = stack;
         stack = handlebars_stack_copy_ctor(stack, prev_stack->capacity);
+        stack->protect = prev_stack->protect;
         handlebars_stack_delref(prev_stack);
         handlebars_stack_addref(stack);
     }
@@ -198,6 +199,7 @@ struct handlebars_stack * handlebars_stack_push(struct handlebars_stack * stack,
         size_t capacity = (stack->capacity | 3) * 3 / 2;
         struct handlebars_stack * prev_stack = stack;
         stack = handlebars_stack_copy_ctor(prev_stack, capacity);
+        stack->protect = prev_stack->protect;
         handlebars_stack_delref(prev_stack);
         handlebars_stack_addref(stack);
     }
-- 
2.43.0


From 3f52ddbb002ca478cb1387b5c8a07e9960caf469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:26 +0000
Subject: [PATCH 009/110] fix: a value can be assigned from one of its own
 children

---
 src/handlebars_value.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 8d57f04..bdedf50 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -517,8 +517,10 @@ void handlebars_value_closure(struct handlebars_value * value, struct handlebars
 
 void handlebars_value_value(struct handlebars_value * dest, struct handlebars_value * src)
 {
-    handlebars_value_null(dest);
-    *dest = *src;
+    // The source may be owned by the destination, so take a reference first
+    struct handlebars_value tmp = *src;
+    struct handlebars_value old = *dest;
+    *dest = tmp;
     switch( dest->type ) {
         case HANDLEBARS_VALUE_TYPE_ARRAY:
             handlebars_stack_addref(dest->v.stack);
@@ -542,6 +544,7 @@ void handlebars_value_value(struct handlebars_value * dest, struct handlebars_va
             // do nothing
             break;
     }
+    handlebars_value_null(&old);
 }
 
 void handlebars_value_set_flag(
-- 
2.43.0


From e36c0777dc83f86d6b2a907a183d378652ecada0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:26 +0000
Subject: [PATCH 010/110] fix: the safe-string flag does not outlive the string
 it was set on

---
 src/handlebars_value.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index bdedf50..9bc1ed0 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -99,6 +99,7 @@ void handlebars_value_dtor(struct handlebars_value * value)
 
     // Initialize to null
     value->type = HANDLEBARS_VALUE_TYPE_NULL;
+    value->flags = 0;
     memset(&value->v, 0, sizeof(value->v));
 
 #ifdef HANDLEBARS_HAVE_VALGRIND
-- 
2.43.0


From b1288879fbe7521766c8366895327c1e2d5ec397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 011/110] fix: JSON-backed data handles null members, empty
 arrays and object positions like native data

---
 src/handlebars_json.c | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 13f4526..2e1cba4 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -145,8 +145,8 @@ static enum handlebars_value_type hbs_json_type(struct handlebars_value * value)
 static struct handlebars_value * hbs_json_map_find(struct handlebars_value * value, struct handlebars_string * key, struct handlebars_value * rv)
 {
     struct handlebars_json * intern = GET_INTERN_V(value);
-    struct json_object * item = json_object_object_get(intern->object, hbs_str_val(key));
-    if( item == NULL ) {
+    struct json_object * item = NULL;
+    if( !json_object_object_get_ex(intern->object, hbs_str_val(key), &item) ) {
         return NULL;
     }
     handlebars_value_init_json_object(intern->user.ctx, rv, item);
@@ -156,10 +156,10 @@ static struct handlebars_value * hbs_json_map_find(struct handlebars_value * val
 static struct handlebars_value * hbs_json_array_find(struct handlebars_value * value, size_t index, struct handlebars_value * rv)
 {
     struct handlebars_json * intern = GET_INTERN_V(value);
-    struct json_object * item = json_object_array_get_idx(intern->object, (int) index);
-    if( item == NULL ) {
+    if( index >= (size_t) json_object_array_length(intern->object) ) {
         return NULL;
     }
+    struct json_object * item = json_object_array_get_idx(intern->object, index);
     handlebars_value_init_json_object(intern->user.ctx, rv, item);
     return rv;
 }
@@ -188,6 +188,7 @@ static bool hbs_json_iterator_next_object(struct handlebars_value_iterator * it)
         return false;
     }
 
+    it->index++;
     it->usr = (void *) (entry = entry->next);
     tmp = (char *) entry->k;
     it->key = handlebars_string_ctor(intern->user.ctx, tmp, strlen(tmp));
@@ -224,11 +225,10 @@ static bool hbs_json_iterator_init(struct handlebars_value_iterator * it, struct
     switch( json_object_get_type(intern->object) ) {
         case json_type_object: {
             entry = json_object_get_object(intern->object)->head;
-            if (unlikely(entry == NULL)) { // LCOV_EXCL_START
-                assert(entry != NULL);
+            if (unlikely(entry == NULL)) {
                 it->next = &hbs_json_iterator_next_void;
                 return false;
-            } // LCOV_EXCL_STOP
+            }
             char * tmp = (char *) entry->k;
             it->usr = (void *) entry;
             it->key = handlebars_string_ctor(intern->user.ctx, tmp, strlen(tmp));
@@ -239,6 +239,10 @@ static bool hbs_json_iterator_init(struct handlebars_value_iterator * it, struct
         }
 
         case json_type_array:
+            if (json_object_array_length(intern->object) <= 0) {
+                it->next = &hbs_json_iterator_next_void;
+                return false;
+            }
             it->index = 0;
             handlebars_value_init_json_object(intern->user.ctx, it->cur, json_object_array_get_idx(intern->object, (int) it->index));
             it->next = &hbs_json_iterator_next_array;
@@ -285,7 +289,7 @@ void handlebars_value_init_json_object(struct handlebars_context * ctx, struct h
 
     switch( json_object_get_type(json) ) {
         case json_type_null:
-            // do nothing
+            handlebars_value_null(value);
             break;
         case json_type_boolean:
             handlebars_value_boolean(value, json_object_get_boolean(json));
-- 
2.43.0


From 2cda9b59248458c480336603ca31a433e9c6cb1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:00 +0000
Subject: [PATCH 012/110] fix: compiler stacks are checked before they are
 full, not after

---
 src/handlebars_compiler.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 933770e..d83abad 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -691,7 +691,7 @@ static inline void handlebars_compiler_accept_program(
 
     assert(compiler != NULL);
 
-    if( compiler->bps->i > HANDLEBARS_COMPILER_STACK_SIZE ) {
+    if( compiler->bps->i >= HANDLEBARS_COMPILER_STACK_SIZE ) {
         handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Block param stack blown");
     }
     compiler->bps->s[compiler->bps->i].block_param1 = block_param1;
@@ -1367,7 +1367,7 @@ static void handlebars_compiler_accept(
     }
 
     // Add node to source node stack
-    if( compiler->sns->i > HANDLEBARS_COMPILER_STACK_SIZE ) {
+    if( compiler->sns->i >= HANDLEBARS_COMPILER_STACK_SIZE ) {
         handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Source node stack blown");
     }
     compiler->sns->s[compiler->sns->i] = node;
-- 
2.43.0


From 04f5a2e5a05c08a2f6422db35a40028b4acba7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:13 +0000
Subject: [PATCH 013/110] fix: compiling a decorator with parameters no longer
 dereferences NULL

---
 src/handlebars_compiler.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index d83abad..eadbaff 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -987,6 +987,13 @@ static inline void handlebars_compiler_accept_decorator(
         program->decorators[program->decorators_length++] = talloc_steal(program, subcompiler->program);
         compiler = subcompiler;
 
+        // copy compiler flags, bps, and options
+        compiler->program->main = program->main;
+        handlebars_compiler_set_flags(compiler, handlebars_compiler_get_flags(origcompiler));
+        compiler->bps = origcompiler->bps;
+        compiler->sns = origcompiler->sns;
+        compiler->known_helpers = origcompiler->known_helpers;
+
         origcompiler->program->result_flags |= handlebars_compiler_result_flag_use_decorators;
     } else {
         compiler->program->result_flags |= handlebars_compiler_result_flag_use_decorators;
-- 
2.43.0


From 67a3834eb28ec466e761cac12cf31b6bb87c1733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:57 +0000
Subject: [PATCH 014/110] fix: block params resolve through nested blocks that
 declare none

---
 src/handlebars_vm.c | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 114b227..3651e10 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -410,15 +410,24 @@ done:
 HANDLEBARS_CLOSURE_ATTRS
 static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE_ARGS)
 {
-    assert(localc >= 3);
+    assert(localc >= 4);
     assert(HANDLEBARS_LOCAL_AT(0)->type == HANDLEBARS_VALUE_TYPE_PTR);
     assert(HANDLEBARS_LOCAL_AT(1)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
     assert(HANDLEBARS_LOCAL_AT(2)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
+    assert(HANDLEBARS_LOCAL_AT(3)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
 
     struct handlebars_module * module = handlebars_value_get_ptr(HANDLEBARS_LOCAL_AT(0), struct handlebars_module);
     long program = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(1));
     long partial_block_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(2));
+    long block_param_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(3));
     bool pushed_partial_block = false;
+    struct handlebars_stack_save_buf bst = handlebars_stack_save(vm->blockParamStack);
+    long i;
+
+    // Bring the block params the partial block was defined with back to the top
+    for (i = 0; i < block_param_depth; i++) {
+        PUSH(vm->blockParamStack, handlebars_stack_get(vm->blockParamStack, i));
+    }
 
     // Push partial block
     if (partial_block_depth > 0) {
@@ -429,14 +438,16 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
     struct handlebars_value * input = argc > 0 ? &argv[0] : TOP(vm->contextStack);
     struct handlebars_string * buffer;
     if (vm->module == module) {
-        buffer = handlebars_vm_execute_program_ex(vm, program, input, NULL, TOP(vm->blockParamStack));
+        buffer = handlebars_vm_execute_program_ex(vm, program, input, NULL, NULL);
     } else {
-        buffer = handlebars_vm_execute_ex(vm, module, input, program, NULL, TOP(vm->blockParamStack));
+        buffer = handlebars_vm_execute_ex(vm, module, input, program, NULL, NULL);
     }
     if (buffer) {
         handlebars_value_str(rv, buffer);
     }
 
+    handlebars_stack_restore(vm->blockParamStack, bst);
+
     // Pop partial block
     if (pushed_partial_block) {
         // This should never happen, but we need to convince scan-build of it
@@ -813,11 +824,12 @@ ACCEPT_FUNCTION(invoke_partial)
 
     // Push partial block
     if (options.program > 0) {
-        const int closure_localc = 3;
+        const int closure_localc = 4;
         HANDLEBARS_VALUE_ARRAY_DECL(closure_localv, closure_localc);
         handlebars_value_ptr(&closure_localv[0], handlebars_ptr_ctor(CONTEXT, struct handlebars_module, vm->module, true));
         handlebars_value_integer(&closure_localv[1], options.program);
         handlebars_value_integer(&closure_localv[2], LEN(vm->partialBlockStack));
+        handlebars_value_integer(&closure_localv[3], LEN(vm->blockParamStack));
         handlebars_value_closure(partial_block, handlebars_closure_ctor(vm, invoke_partial_block_closure, closure_localc, closure_localv));
         pushed_partial_block = true;
         PUSH(vm->partialBlockStack, partial_block);
@@ -1338,9 +1350,14 @@ struct handlebars_string * handlebars_vm_execute_program_ex(
         handlebars_value_value(&vm->data, data);
     }
 
-    // Set block params
+    // Set block params - the compiler counts every nested program as a level, so each one gets an entry,
+    // whether or not the helper supplied any block params for it
     if( block_params ) {
         PUSH(vm->blockParamStack, block_params);
+    } else if( program_num > 0 ) {
+        HANDLEBARS_VALUE_DECL(no_block_params);
+        PUSH(vm->blockParamStack, no_block_params);
+        HANDLEBARS_VALUE_UNDECL(no_block_params);
     }
 
     // Execute the program
-- 
2.43.0


From f6075e1b596be61692560a51e708a71054f23ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 015/110] fix: a failed execution leaves the VM as it was and
 reusable

---
 src/handlebars_vm.c | 59 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 46 insertions(+), 13 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 3651e10..0f46e9c 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1401,32 +1401,42 @@ struct handlebars_string * handlebars_vm_execute_ex(
     struct handlebars_value * data,
     struct handlebars_value * block_params
 ) {
-    jmp_buf * prev = HBSCTX(vm)->e->jmp;
+    struct handlebars_error * e = HBSCTX(vm)->e;
+    jmp_buf * prev = e->jmp;
     struct handlebars_module * prev_module = vm->module;
     unsigned long prev_flags = vm->flags;
+    long prev_depth = vm->depth;
+    struct handlebars_string * prev_buffer = vm->buffer;
     struct handlebars_value * prev_last_context = vm->last_context;
     struct handlebars_string * prev_delim_open = vm->delim_open;
     struct handlebars_string * prev_delim_close = vm->delim_close;
-
-    struct handlebars_string * buffer = NULL;
-    bool volatile setup_stacks = false;
+    bool const setup_stacks = vm->stack == NULL;
+    struct handlebars_stack_save_buf st = {0};
+    struct handlebars_stack_save_buf hst = {0};
+    struct handlebars_stack_save_buf cst = {0};
+    struct handlebars_stack_save_buf bst = {0};
+    struct handlebars_stack_save_buf pst = {0};
+
+    struct handlebars_string * volatile buffer = NULL;
+    bool volatile failed = false;
     jmp_buf buf;
 
-    // Save jump buffer
-    if( !prev ) {
-        if( handlebars_setjmp_ex(vm, &buf) ) {
-            goto done;
-        }
-    }
+    HANDLEBARS_VALUE_DECL(prev_data);
+    handlebars_value_value(prev_data, &vm->data);
 
     // Setup stacks
-    if (vm->stack == NULL) {
+    if (setup_stacks) {
         vm->stack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->contextStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->hashStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->blockParamStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
         vm->partialBlockStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
-        setup_stacks = true;
+    } else {
+        st = handlebars_stack_save(vm->stack);
+        hst = handlebars_stack_save(vm->hashStack);
+        cst = handlebars_stack_save(vm->contextStack);
+        bst = handlebars_stack_save(vm->blockParamStack);
+        pst = handlebars_stack_save(vm->partialBlockStack);
     }
 
     if (vm->last_context == NULL) {
@@ -1434,6 +1444,12 @@ struct handlebars_string * handlebars_vm_execute_ex(
         handlebars_value_init(vm->last_context);
     }
 
+    // Save jump buffer - even if there already is one, the vm has to be put back the way it was
+    if( handlebars_setjmp_ex(vm, &buf) ) {
+        failed = true;
+        goto done;
+    }
+
     vm->module = module;
     vm->flags |= module->flags;
 
@@ -1441,7 +1457,7 @@ struct handlebars_string * handlebars_vm_execute_ex(
     buffer = handlebars_vm_execute_program_ex(vm, program, context, data, block_params);
 
 done:
-    HBSCTX(vm)->e->jmp = prev;
+    e->jmp = prev;
 
     // Reset stacks
     if (setup_stacks) {
@@ -1450,6 +1466,12 @@ done:
         vm->hashStack = NULL;
         vm->blockParamStack = NULL;
         vm->partialBlockStack = NULL;
+    } else {
+        handlebars_stack_restore(vm->stack, st);
+        handlebars_stack_restore(vm->hashStack, hst);
+        handlebars_stack_restore(vm->contextStack, cst);
+        handlebars_stack_restore(vm->blockParamStack, bst);
+        handlebars_stack_restore(vm->partialBlockStack, pst);
     }
 
     // Reset
@@ -1458,6 +1480,17 @@ done:
     vm->last_context = prev_last_context;
     vm->module = prev_module;
     vm->flags = prev_flags;
+    if (failed) {
+        vm->depth = prev_depth;
+        vm->buffer = prev_buffer;
+        vm->last_helper = NULL;
+        handlebars_value_value(&vm->data, prev_data);
+    }
+    HANDLEBARS_VALUE_UNDECL(prev_data);
+
+    if (failed && prev) {
+        longjmp(*prev, e->num);
+    }
 
     return buffer;
 }
-- 
2.43.0


From d3a1a781a0eb25e26cf2e91c1b8e18a978490ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:28 +0000
Subject: [PATCH 016/110] fix: errors in partials and lambdas reach the caller,
 cached partials keep their delimiters and indentation

---
 src/handlebars_vm.c | 66 +++++++++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 23 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 0f46e9c..9d4c2ee 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -329,41 +329,57 @@ static struct handlebars_string * execute_template(
     int escape,
     bool use_delimiters
 ) {
-    struct handlebars_context * context = handlebars_context_ctor_ex(vm);
+    struct handlebars_context * context;
     struct handlebars_string * volatile retval = NULL;
-    struct handlebars_module * volatile module = vm->cache ? handlebars_cache_find(vm->cache, tmpl) : NULL;
-    bool const from_cache = module != NULL;
+    struct handlebars_module * volatile module = NULL;
+    bool volatile from_cache = false;
+    bool volatile failed = false;
     long prev_depth = vm->depth;
-    jmp_buf * prev_jmp = HBSCTX(vm)->e->jmp;
+    struct handlebars_error * e = HBSCTX(vm)->e;
+    jmp_buf * prev_jmp = e->jmp;
     jmp_buf buf;
 
-    handlebars_string_addref(tmpl);
-
     // Get template
     if (!hbs_str_len(tmpl)) {
-        goto done;
+        return handlebars_string_ctor(CONTEXT, HBS_STRL(""));
     }
 
+    // The context owns whatever is only needed to execute this template, but errors belong to the vm
+    context = handlebars_talloc_zero(vm, struct handlebars_context);
+    HANDLEBARS_MEMCHECK(context, CONTEXT);
+    handlebars_context_bind(CONTEXT, context);
+
+    handlebars_string_addref(tmpl);
+
     // Save jmp buf
     if( handlebars_setjmp_ex(vm, &buf) ) {
+        failed = true;
         goto done;
     }
 
+    // Do this before looking in the cache, the result depends on the current delimiters and indentation
+    if (vm->flags & handlebars_compiler_flag_compat) {
+        tmpl = handlebars_preprocess_delimiters(
+            context,
+            tmpl,
+            use_delimiters ? vm->delim_open : NULL,
+            use_delimiters ? vm->delim_close : NULL
+        );
+        handlebars_string_addref(tmpl);
+        if (indent) {
+            tmpl = handlebars_string_indent(CONTEXT, tmpl, indent);
+        }
+    }
+
     // Check for cached template, if available
+    if( vm->cache ) {
+        module = handlebars_cache_find(vm->cache, tmpl);
+        from_cache = module != NULL;
+    }
+
     if( !from_cache ) {
         // Parse
         struct handlebars_parser * parser = handlebars_parser_ctor(context);
-        if (vm->flags & handlebars_compiler_flag_compat) {
-            tmpl = handlebars_preprocess_delimiters(
-                HBSCTX(context),
-                tmpl,
-                use_delimiters ? vm->delim_open : NULL,
-                use_delimiters ? vm->delim_close : NULL
-            );
-            if (indent) {
-                tmpl = handlebars_string_indent(CONTEXT, tmpl, indent);
-            }
-        }
         struct handlebars_ast_node * ast = handlebars_parse_ex(parser, tmpl, vm->flags);
 
         // Compile
@@ -393,18 +409,22 @@ static struct handlebars_string * execute_template(
     }
 
 done:
-    HBSCTX(vm)->e->jmp = prev_jmp;
+    e->jmp = prev_jmp;
     vm->depth = prev_depth;
     if( from_cache ) {
         handlebars_cache_release(vm->cache, tmpl, module);
     }
     handlebars_string_delref(tmpl);
+    if( failed ) {
+        // The error has to outlive the context it may have been thrown from
+        char * msg = handlebars_talloc_strdup(vm, e->msg);
+        e->msg = msg ? msg : HANDLEBARS_MEMCHECK_MSG;
+    }
     handlebars_context_dtor(context);
-    if (retval) {
-        return retval;
-    } else {
-        return handlebars_string_ctor(CONTEXT, HBS_STRL(""));
+    if( failed ) {
+        longjmp(*prev_jmp, e->num);
     }
+    return retval;
 }
 
 HANDLEBARS_CLOSURE_ATTRS
-- 
2.43.0


From 647bfc31f087a784530c63f8e8dbe9e1f0c22a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 017/110] fix: the simple cache owns its keys and keeps modules
 that are in use

---
 src/handlebars_cache_simple.c | 34 +++++++++++++++++++++++++++++++---
 src/handlebars_vm.c           |  4 ++--
 2 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_cache_simple.c b/src/handlebars_cache_simple.c
index 838d1c9..6bf3a56 100644
--- a/src/handlebars_cache_simple.c
+++ b/src/handlebars_cache_simple.c
@@ -27,6 +27,7 @@
 #include "handlebars.h"
 #include "handlebars_memory.h"
 #include "handlebars_private.h"
+#include "handlebars_value_private.h"
 #include "handlebars_cache.h"
 #include "handlebars_cache_private.h"
 #include "handlebars_map.h"
@@ -38,8 +39,16 @@
 
 
 
+// A module that was found, but not released yet. Holds a reference to it, in case it's removed from the cache.
+struct handlebars_cache_simple_pin {
+    struct handlebars_cache_simple_pin * next;
+    struct handlebars_module * module;
+    struct handlebars_value value;
+};
+
 struct handlebars_cache_simple {
     struct handlebars_map * map;
+    struct handlebars_cache_simple_pin * pins;
     struct handlebars_cache_stat stat;
 };
 
@@ -135,6 +144,13 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
         module = handlebars_value_get_ptr(value, struct handlebars_module);
         assert(handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_PTR);
         assert(talloc_get_type_abort(module, struct handlebars_module) != NULL);
+        struct handlebars_cache_simple_pin * pin = handlebars_talloc_zero(intern, struct handlebars_cache_simple_pin);
+        HANDLEBARS_MEMCHECK(pin, HBSCTX(cache));
+        pin->module = module;
+        handlebars_value_value(&pin->value, value);
+        pin->next = intern->pins;
+        intern->pins = pin;
+
         time(&module->ts);
         intern->stat.hits++;
     } else {
@@ -160,7 +176,8 @@ static void cache_add(struct handlebars_cache * cache, struct handlebars_string
     struct handlebars_ptr * uptr = handlebars_ptr_ctor(HBSCTX(cache), struct handlebars_module, module, false);
     handlebars_value_ptr(value, uptr);
 
-    intern->map = handlebars_map_add(intern->map, tmpl, value);
+    // The cache may outlive the key
+    intern->map = handlebars_map_add(intern->map, handlebars_string_copy_ctor(HBSCTX(cache), tmpl), value);
 
     // Update master
     stat->current_entries++;
@@ -171,7 +188,18 @@ static void cache_add(struct handlebars_cache * cache, struct handlebars_string
 
 static void cache_release(struct handlebars_cache * cache, struct handlebars_string * tmpl, struct handlebars_module * module)
 {
-    ;
+    struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
+    struct handlebars_cache_simple_pin ** link;
+
+    for( link = &intern->pins; *link; link = &(*link)->next ) {
+        struct handlebars_cache_simple_pin * pin = *link;
+        if( pin->module == module ) {
+            *link = pin->next;
+            handlebars_value_dtor(&pin->value);
+            handlebars_talloc_free(pin);
+            break;
+        }
+    }
 }
 
 static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
@@ -186,7 +214,7 @@ static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
 static void cache_reset(struct handlebars_cache * cache)
 {
     struct handlebars_cache_simple * intern = (struct handlebars_cache_simple *) cache->internal;
-    handlebars_talloc_free(intern->map);
+    handlebars_map_delref(intern->map);
     intern->map = handlebars_map_ctor(HBSCTX(cache), 32);
 
     memset(&intern->stat, 0, sizeof(intern->stat));
diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 9d4c2ee..e25761e 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -390,9 +390,9 @@ static struct handlebars_string * execute_template(
         // Serialize
         module = handlebars_program_serialize(context, program);
 
-        // Save cache entry
+        // Save cache entry - the cache gets its own copy, it may drop it again while this one is executing
         if( vm->cache ) {
-            handlebars_cache_add(vm->cache, tmpl, module);
+            handlebars_cache_add(vm->cache, tmpl, handlebars_program_serialize(context, program));
         }
 
         // Cleanup parser
-- 
2.43.0


From 49851398d1a2c2b6b66e6d632ab3e9b6d555ff00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:51 +0000
Subject: [PATCH 018/110] fix: a cached template compiled with other options is
 not used

---
 src/handlebars_vm.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index e25761e..1afc888 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -333,6 +333,7 @@ static struct handlebars_string * execute_template(
     struct handlebars_string * volatile retval = NULL;
     struct handlebars_module * volatile module = NULL;
     bool volatile from_cache = false;
+    bool use_cache = vm->cache != NULL;
     bool volatile failed = false;
     long prev_depth = vm->depth;
     struct handlebars_error * e = HBSCTX(vm)->e;
@@ -372,11 +373,18 @@ static struct handlebars_string * execute_template(
     }
 
     // Check for cached template, if available
-    if( vm->cache ) {
+    if( use_cache ) {
         module = handlebars_cache_find(vm->cache, tmpl);
         from_cache = module != NULL;
     }
 
+    // A template that was compiled with different options is of no use
+    if( from_cache && ((module->flags ^ vm->flags) & handlebars_compiler_flag_all) ) {
+        from_cache = false;
+        use_cache = false;
+        handlebars_cache_release(vm->cache, tmpl, module);
+    }
+
     if( !from_cache ) {
         // Parse
         struct handlebars_parser * parser = handlebars_parser_ctor(context);
@@ -391,7 +399,7 @@ static struct handlebars_string * execute_template(
         module = handlebars_program_serialize(context, program);
 
         // Save cache entry - the cache gets its own copy, it may drop it again while this one is executing
-        if( vm->cache ) {
+        if( use_cache ) {
             handlebars_cache_add(vm->cache, tmpl, handlebars_program_serialize(context, program));
         }
 
-- 
2.43.0


From 8e6277e6803ba7ef7a34a9a8c3bd933d04034036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:51 +0000
Subject: [PATCH 019/110] fix: the lmdb cache bounds its keys, removes what it
 expires and checks what it loads

---
 src/handlebars_cache_lmdb.c | 125 ++++++++++++++++++++++++------------
 1 file changed, 84 insertions(+), 41 deletions(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index 36f7745..8866c56 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -20,6 +20,9 @@
 #endif
 
 #include <assert.h>
+#include <stddef.h>
+#include <stdio.h>
+#include <string.h>
 #include <time.h>
 
 #ifdef HANDLEBARS_HAVE_LMDB
@@ -61,6 +64,25 @@ static int cache_dtor(struct handlebars_cache * cache)
     return 0;
 }
 
+static void make_key(struct handlebars_cache_lmdb * intern, struct handlebars_string * tmpl, MDB_val * key, char * tmp, size_t tmp_size)
+{
+    // The key is stored with the trailing NUL, if it fits
+    if( hbs_str_len(tmpl) >= (size_t) mdb_env_get_maxkeysize(intern->env) ) {
+        snprintf(
+            tmp,
+            tmp_size,
+            "hash:%zu:%016llx",
+            hbs_str_len(tmpl),
+            (unsigned long long) handlebars_hash_xxh3(hbs_str_val(tmpl), hbs_str_len(tmpl))
+        );
+        key->mv_size = strlen(tmp);
+        key->mv_data = tmp;
+    } else {
+        key->mv_size = hbs_str_len(tmpl) + 1;
+        key->mv_data = hbs_str_val(tmpl);
+    }
+}
+
 static int cache_gc(struct handlebars_cache * cache)
 {
     struct handlebars_cache_lmdb * intern = (struct handlebars_cache_lmdb *) cache->internal;
@@ -70,8 +92,9 @@ static int cache_gc(struct handlebars_cache * cache)
     MDB_val key;
     MDB_val data;
     MDB_cursor *cursor;
-    MDB_stat stat;
     time_t now;
+    time_t ts;
+    int removed = 0;
 
     time(&now);
 
@@ -81,9 +104,6 @@ static int cache_gc(struct handlebars_cache * cache)
     err = mdb_dbi_open(txn, NULL, MDB_CREATE, &dbi);
     if( err != 0 ) goto error;
 
-    err = mdb_stat(txn, dbi, &stat);
-    if( err != 0 ) goto error;
-
     err = mdb_cursor_open(txn, dbi, &cursor);
     if( err != 0 ) goto error;
 
@@ -92,16 +112,28 @@ static int cache_gc(struct handlebars_cache * cache)
                 key.mv_data,  (int) key.mv_size,  (char *) key.mv_data,
                 data.mv_data, (int) data.mv_size, (char *) data.mv_data); */
 
-        struct handlebars_module * module = (struct handlebars_module *) data.mv_data;
-        if( cache->max_age >= 0 && difftime(now, module->ts) > cache->max_age ) {
-            mdb_del(txn, dbi, &key, NULL);
+        if( data.mv_size >= HANDLEBARS_MODULE_SIZE ) {
+            // The data is not necessarily aligned
+            memcpy(&ts, (char *) data.mv_data + offsetof(struct handlebars_module, ts), sizeof(ts));
+            if( cache->max_age < 0 || difftime(now, ts) < cache->max_age ) {
+                continue;
+            }
         }
+        err = mdb_cursor_del(cursor, 0);
+        if( err != 0 ) break;
+        removed++;
     }
 
     mdb_cursor_close(cursor);
-error:
+    if( err != MDB_NOTFOUND ) goto error;
+
+    err = mdb_txn_commit(txn);
     HANDLE_RC(err);
+    return removed;
+
+error:
     mdb_txn_abort(txn);
+    HANDLE_RC(err);
     return 0;
 }
 
@@ -127,14 +159,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     if( err != 0 ) goto error;
 
     // Make key
-    if( hbs_str_len(tmpl) > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
-        snprintf(tmp, 256, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
-        key.mv_size = strlen(tmp);
-        key.mv_data = tmp;
-    } else {
-        key.mv_size = hbs_str_len(tmpl) + 1;
-        key.mv_data = hbs_str_val(tmpl);
-    }
+    make_key(intern, tmpl, &key, tmp, sizeof(tmp));
 
     // Fetch data
     err = mdb_get(txn, dbi, &key, &data);
@@ -145,7 +170,24 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     }
     if( err != 0 ) goto error;
 
-    module = ((struct handlebars_module *) data.mv_data);
+    // Duplicate data - it is not necessarily aligned
+    module = handlebars_talloc_size(cache, data.mv_size);
+    if( module == NULL ) {
+        mdb_txn_abort(txn);
+        HANDLEBARS_MEMCHECK(module, CONTEXT);
+        return NULL;
+    }
+    talloc_set_type(module, struct handlebars_module);
+    memcpy(module, data.mv_data, data.mv_size);
+    size = data.mv_size;
+
+    // Close
+    mdb_txn_abort(txn);
+
+    // A truncated entry can't be verified
+    if( size < HANDLEBARS_MODULE_SIZE || module->size != size ) {
+        goto miss;
+    }
 
 #if defined(HANDLEBARS_ENABLE_DEBUG)
     // In debug mode, throw
@@ -153,33 +195,27 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
 #else
     // In release mode, consider a failed hash/version match a miss
     if (!handlebars_module_verify(module, NULL)) {
-        intern->stat.misses++;
-        goto error;
+        goto miss;
     }
 #endif
 
     // Check if it's too old
     if (cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age) {
-        intern->stat.misses++;
-        goto error;
+        goto miss;
     }
 
     intern->stat.hits++;
 
-    // Duplicate data
-    size = module->size;
-    module = handlebars_talloc_size(cache, size);
-    talloc_set_type(module, struct handlebars_module);
-    memcpy(module, data.mv_data, size);
-
-    // Close
-    mdb_txn_abort(txn);
-
     // Convert pointers
     handlebars_module_patch_pointers(module);
 
     return module;
 
+miss:
+    intern->stat.misses++;
+    handlebars_talloc_free(module);
+    return NULL;
+
 error:
     mdb_txn_abort(txn);
     HANDLE_RC(err);
@@ -207,17 +243,15 @@ static void cache_add(
     if( err != 0 ) goto error;
 
     // Make key
-    if( hbs_str_len(tmpl) > (size_t) mdb_env_get_maxkeysize(intern->env) ) {
-        snprintf(tmp, 256, "hash:%lu", (unsigned long) hbs_str_hash(tmpl));
-        key.mv_size = strlen(tmp);
-        key.mv_data = tmp;
-    } else {
-        key.mv_size = hbs_str_len(tmpl) + 1;
-        key.mv_data = hbs_str_val(tmpl);
-    }
+    make_key(intern, tmpl, &key, tmp, sizeof(tmp));
 
     // Normalize pointers
     module_copy = handlebars_talloc_size(CONTEXT, module->size);
+    if( module_copy == NULL ) {
+        mdb_txn_abort(txn);
+        HANDLEBARS_MEMCHECK(module_copy, CONTEXT);
+        return;
+    }
     talloc_set_type(module_copy, struct handlebars_module);
     memcpy(module_copy, module, module->size);
     handlebars_module_patch_pointers(module_copy);
@@ -235,12 +269,15 @@ static void cache_add(
 
     // Commit
     err = mdb_txn_commit(txn);
-    if( err != 0 ) goto error;
+    if( err == MDB_MAP_FULL ) return;
+    HANDLE_RC(err);
 
     return;
 
 error:
     mdb_txn_abort(txn);
+    // It's only a cache - if there is no room left, go on without
+    if( err == MDB_MAP_FULL ) return;
     HANDLE_RC(err);
 }
 
@@ -266,7 +303,7 @@ static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
     err = mdb_stat(txn, dbi, &stat);
     if( err != 0 ) goto error;
 
-    intern->stat.name = "mmap";
+    intern->stat.name = "lmdb";
     intern->stat.current_entries = stat.ms_entries;
 
 error:
@@ -291,7 +328,13 @@ static void cache_reset(struct handlebars_cache * cache)
     err = mdb_drop(txn, dbi, 0);
     if( err != 0 ) goto error;
 
-    error:
+    err = mdb_txn_commit(txn);
+    HANDLE_RC(err);
+
+    memset(&intern->stat, 0, sizeof(intern->stat));
+    return;
+
+error:
     mdb_txn_abort(txn);
     HANDLE_RC(err);
 }
-- 
2.43.0


From 6460da6a336fa5f931807d5210c341ba061b5abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:17 +0000
Subject: [PATCH 020/110] fix: the mmap cache takes its reference before
 looking, and misses what has expired

---
 src/handlebars_cache_mmap.c | 97 ++++++++++++++++++++++++-------------
 1 file changed, 64 insertions(+), 33 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index 5f5b5ae..f887376 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -62,9 +62,21 @@
 #ifdef HAVE_ATOMIC_BUILTINS
 #define INCR(var) __atomic_add_fetch(&var, 1, __ATOMIC_SEQ_CST)
 #define DECR(var) __atomic_sub_fetch(&var, 1, __ATOMIC_SEQ_CST)
+#define LOAD(var) __atomic_load_n(&var, __ATOMIC_SEQ_CST)
+#define STORE(var, val) __atomic_store_n(&var, val, __ATOMIC_SEQ_CST)
+#define EXCHANGE(var, val) __atomic_exchange_n(&var, val, __ATOMIC_SEQ_CST)
 #else
 #define INCR(var) lock(cache); var++; unlock(cache)
 #define DECR(var) lock(cache); var--; unlock(cache)
+#define LOAD(var) (var)
+#define STORE(var, val) (var) = (val)
+static inline bool exchange(bool * var, bool val)
+{
+    bool prev = *var;
+    *var = val;
+    return prev;
+}
+#define EXCHANGE(var, val) exchange(&(var), (val))
 #endif
 
 
@@ -193,23 +205,24 @@ static inline void unlock(struct handlebars_cache * cache)
 static inline struct table_entry * table_find(struct handlebars_cache_mmap * intern, struct handlebars_string * string)
 {
     uint32_t offset = hbs_str_hash(string) % intern->table_count;
-    return intern->table[offset];
+    return LOAD(intern->table[offset]);
 }
 
-static inline void table_set(struct handlebars_cache_mmap * intern, struct table_entry * entry)
+static inline bool table_set(struct handlebars_cache_mmap * intern, struct table_entry * entry)
 {
     uint32_t offset = hbs_str_hash(entry->key) % intern->table_count;
-    if( entry == NULL ) {
-        intern->table[offset] = NULL;
-    } else {
-        intern->table[offset] = append(intern, entry, sizeof(struct table_entry));
+    struct table_entry * slot = append(intern, entry, sizeof(struct table_entry));
+    if( slot == NULL ) {
+        return false;
     }
+    STORE(intern->table[offset], slot);
+    return true;
 }
 
 static inline void table_unset(struct handlebars_cache_mmap * intern, struct handlebars_string * string)
 {
     uint32_t offset = hbs_str_hash(string) % intern->table_count;
-    intern->table[offset] = NULL;
+    STORE(intern->table[offset], NULL);
 }
 
 static int cache_dtor(struct handlebars_cache * cache)
@@ -228,8 +241,10 @@ static void cache_reset(struct handlebars_cache * cache)
 {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
 
-    // Lock
-    intern->in_reset = true;
+    // Lock, unless someone else is already at it
+    if( EXCHANGE(intern->in_reset, true) ) {
+        return;
+    }
 
     // Try to wait for refcount to empty
 #ifdef HAVE_ATOMIC_BUILTINS
@@ -263,7 +278,7 @@ static void cache_reset(struct handlebars_cache * cache)
 
 error:
     // Unlock
-    intern->in_reset = false;
+    STORE(intern->in_reset, false);
 }
 
 static int cache_gc(struct handlebars_cache * cache)
@@ -276,27 +291,31 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
 {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
     struct handlebars_module * module = NULL;
+    struct table_entry * entry;
     time_t now;
 
+    // Take the reference before looking at anything, a reset waits for it
+    INCR(intern->refcount);
+
     // Currently resetting
-    if( intern->in_reset ) {
-        return NULL;
+    if( LOAD(intern->in_reset) ) {
+        goto miss;
     }
 
     // Find entry
-    struct table_entry * entry = table_find(intern, key);
+    entry = table_find(intern, key);
 
     if( !entry ) {
         // Not found, or not ready
         INCR(intern->misses);
-        goto error;
+        goto miss;
     }
 
     // Compare key
     if( !handlebars_string_eq(key, entry->key) ) {
         INCR(intern->misses);
         //INCR(intern->collisions);
-        goto error;
+        goto miss;
     }
 
     // Get data
@@ -305,26 +324,32 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     // Check if it's too old or wrong version
     time(&now);
     if( module->version != handlebars_version() || (cache->max_age >= 0 && difftime(now, module->ts) >= cache->max_age) ) {
+        INCR(intern->misses);
         lock(cache);
         protect(cache, false);
-        table_unset(intern, key);
-        intern->misses++;
-        intern->table_entries--;
+        // It may have been replaced in the meantime
+        if( table_find(intern, key) == entry ) {
+            table_unset(intern, key);
+            intern->table_entries--;
+        }
         protect(cache, true);
         unlock(cache);
-        goto error;
+        goto miss;
     }
 
     // Check for pointer mismatch
     if( unlikely((void *) module != module->addr) ) {
+        DECR(intern->refcount);
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Shared memory pointer mismatch: %p != %p", module, module->addr);
     }
 
     INCR(intern->hits);
-    INCR(intern->refcount);
 
-error:
     return module;
+
+miss:
+    DECR(intern->refcount);
+    return NULL;
 }
 
 static void cache_add(
@@ -336,7 +361,7 @@ static void cache_add(
     struct table_entry entry;
 
     // Currently resetting
-    if( intern->in_reset ) {
+    if( LOAD(intern->in_reset) ) {
         return;
     }
 
@@ -361,19 +386,19 @@ static void cache_add(
     // Copy data
     entry.data = append(intern, (void *) module, module->size);
 
-    // Check for failure
-    if( unlikely(!entry.key || !entry.data) ) {
+    // Pre-patch pointers
+    if( likely(entry.key && entry.data) ) {
+        handlebars_module_patch_pointers(entry.data);
+    }
+
+    // Finish, check for failure
+    if( unlikely(!entry.key || !entry.data || !table_set(intern, &entry)) ) {
         protect(cache, true);
         unlock(cache);
         cache_reset(cache);
         return;
     }
 
-    // Pre-patch pointers
-    handlebars_module_patch_pointers(entry.data);
-
-    // Finish;
-    table_set(intern, &entry);
     intern->table_entries++;
 
 error:
@@ -392,6 +417,7 @@ static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
 {
     struct handlebars_cache_mmap * intern = (struct handlebars_cache_mmap *) cache->internal;
     struct handlebars_cache_stat stat = {0};
+    lock(cache);
     stat.name = "mmap";
     stat.total_size = intern->size;
     stat.total_table_size = intern->table_size;
@@ -401,10 +427,11 @@ static struct handlebars_cache_stat cache_stat(struct handlebars_cache * cache)
     stat.current_table_size = intern->table_entries * sizeof(struct table_entry);
     stat.current_data_size = intern->data_length;
     stat.current_size = stat.current_table_size + stat.current_data_size;
-    stat.hits = intern->hits;
-    stat.misses = intern->misses;
-    stat.refcount = intern->refcount;
-    stat.collisions = intern->collisions;
+    stat.hits = LOAD(intern->hits);
+    stat.misses = LOAD(intern->misses);
+    stat.refcount = LOAD(intern->refcount);
+    stat.collisions = LOAD(intern->collisions);
+    unlock(cache);
     return stat;
 }
 
@@ -448,6 +475,10 @@ struct handlebars_cache * handlebars_cache_mmap_ctor(
     size_t table_size = handlebars_align_size(entries * sizeof(struct table_entry *), page_size);
     size_t data_size = shm_size - table_size - intern_size;
 
+    if( entries == 0 ) {
+        handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Table must have at least one entry");
+    }
+
     if( table_size >= shm_size ) {
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "Table size must not be greater than segment size");
     }
-- 
2.43.0


From a5e5ca08549b06de68420fe1abfe0a542955f236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:18 +0000
Subject: [PATCH 021/110] fix: missing parts of data and block param paths are
 empty, @root is the outermost context

---
 src/handlebars_vm.c | 68 ++++++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 22 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 1afc888..4fe11c7 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -333,7 +333,7 @@ static struct handlebars_string * execute_template(
     struct handlebars_string * volatile retval = NULL;
     struct handlebars_module * volatile module = NULL;
     bool volatile from_cache = false;
-    bool use_cache = vm->cache != NULL;
+    bool volatile use_cache = vm->cache != NULL;
     bool volatile failed = false;
     long prev_depth = vm->depth;
     struct handlebars_error * e = HBSCTX(vm)->e;
@@ -939,6 +939,37 @@ done:
     HANDLEBARS_VALUE_UNDECL(tmp);
 }
 
+static inline struct handlebars_value * lookup_part(
+    struct handlebars_value * value,
+    struct handlebars_string * part,
+    struct handlebars_value * rv
+) {
+    size_t index = 0;
+    size_t i;
+
+    switch( handlebars_value_get_type(value) ) {
+        case HANDLEBARS_VALUE_TYPE_MAP:
+            return handlebars_value_map_find(value, part, rv);
+
+        case HANDLEBARS_VALUE_TYPE_ARRAY:
+            // Only a plain decimal number is an index
+            if( hbs_str_len(part) < 1 || hbs_str_len(part) > 9 ) {
+                return NULL;
+            }
+            for( i = 0; i < hbs_str_len(part); i++ ) {
+                char c = hbs_str_val(part)[i];
+                if( c < '0' || c > '9' ) {
+                    return NULL;
+                }
+                index = index * 10 + (size_t) (c - '0');
+            }
+            return handlebars_value_array_find(value, index, rv);
+
+        default:
+            return NULL;
+    }
+}
+
 ACCEPT_FUNCTION(lookup_block_param)
 {
     long blockParam1 = -1;
@@ -972,14 +1003,8 @@ ACCEPT_FUNCTION(lookup_block_param)
 
     if( arr_len > 1 ) {
         struct handlebars_value * tmp = v2;
-        struct handlebars_value * tmp2;
-        for( i = 1; i < arr_len; i++ ) {
-            tmp2 = handlebars_value_map_find(tmp, arr[i].string, rv);
-            if( tmp2 ) {
-                tmp = tmp2;
-            } else {
-                break;
-            }
+        for( i = 1; tmp && i < arr_len; i++ ) {
+            tmp = lookup_part(tmp, arr[i].string, rv);
         }
         if (tmp) {
             handlebars_value_value(value, tmp);
@@ -1024,6 +1049,8 @@ ACCEPT_FUNCTION(lookup_data)
             tmp = handlebars_value_map_str_find(data, HBS_STRL("_parent"), rv);
             if (tmp != NULL) {
                 handlebars_value_value(data, tmp);
+            } else {
+                handlebars_value_null(data);
             }
         }
     }
@@ -1031,8 +1058,9 @@ ACCEPT_FUNCTION(lookup_data)
     if( data && (tmp = handlebars_value_map_find(data, first->string, rv)) ) {
         handlebars_value_value(val, tmp);
     } else if (hbs_str_eq_strl(first->string, HBS_STRL("root"))) {
-        handlebars_value_value(val, TOP(vm->contextStack));
-    } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block"))) {
+        // The outermost context
+        handlebars_value_value(val, handlebars_stack_get(vm->contextStack, 0));
+    } else if (hbs_str_eq_strl(first->string, HBS_STRL("partial-block")) && LEN(vm->partialBlockStack) > 0) {
         handlebars_value_value(val, TOP(vm->partialBlockStack));
     } else if( vm->flags & handlebars_compiler_flag_assume_objects ) {
         goto done_and_err;
@@ -1042,11 +1070,13 @@ ACCEPT_FUNCTION(lookup_data)
 
     for( i = 1 ; i < arr_len; i++ ) {
         struct handlebars_operand_string * part = arr + i;
-        if( handlebars_value_get_type(val) == HANDLEBARS_VALUE_TYPE_MAP &&
-                NULL != (tmp = handlebars_value_map_find(val, part->string, rv)) ) {
+        if( NULL != (tmp = lookup_part(val, part->string, rv)) ) {
             handlebars_value_value(val, tmp);
         } else if( is_strict || require_terminal ) {
             goto done_and_err;
+        } else {
+            handlebars_value_null(val);
+            break;
         }
     }
 
@@ -1086,7 +1116,6 @@ ACCEPT_FUNCTION(lookup_on_context)
     size_t arr_len = opcode->op1.data.array.count;
     struct handlebars_operand_string * arr = opcode->op1.data.array.array;
     struct handlebars_operand_string * arr_end = arr + arr_len;
-    long index = -1;
     bool is_strict = (vm->flags & handlebars_compiler_flag_strict) || (vm->flags & handlebars_compiler_flag_assume_objects);
     bool require_terminal = (vm->flags & handlebars_compiler_flag_strict) && opcode->op3.data.boolval;
 
@@ -1100,14 +1129,9 @@ ACCEPT_FUNCTION(lookup_on_context)
 
     do {
         bool is_last = arr == arr_end - 1;
-        if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_MAP ) {
-            value = handlebars_value_map_find(value, arr->string, rv2);
-        } else if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_ARRAY ) {
-            if (sscanf(hbs_str_val(arr->string), "%ld", &index)) {
-                value = handlebars_value_array_find(value, index, rv2);
-            } else {
-                value = NULL;
-            }
+        if( handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_MAP ||
+                handlebars_value_get_type(value) == HANDLEBARS_VALUE_TYPE_ARRAY ) {
+            value = lookup_part(value, arr->string, rv2);
         } else if( vm->flags & handlebars_compiler_flag_assume_objects && is_last ) {
             goto done_and_err;
         } else {
-- 
2.43.0


From cc0118046236578a5ab72c295ccf4cff40126695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:58 +0000
Subject: [PATCH 022/110] fix: @../index reaches the data of the enclosing each

---
 src/handlebars_helpers.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 0168746..0c0b800 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -102,13 +102,14 @@ struct handlebars_value * handlebars_builtin_each(HANDLEBARS_HELPER_ARGS)
         handlebars_value_array(block_params, handlebars_stack_ctor(CONTEXT, 2));
 
         if( handlebars_value_get_type(options->data) == HANDLEBARS_VALUE_TYPE_MAP ) {
-            data_map = handlebars_map_ctor(CONTEXT, handlebars_value_count(options->data) + 4);
+            data_map = handlebars_map_ctor(CONTEXT, handlebars_value_count(options->data) + 4 + 1);
             HANDLEBARS_VALUE_FOREACH_KV(options->data, options_key, child) {
                 data_map = handlebars_map_update(data_map, options_key, child);
             } HANDLEBARS_VALUE_FOREACH_END();
         } else {
-            data_map = handlebars_map_ctor(CONTEXT, 4);
+            data_map = handlebars_map_ctor(CONTEXT, 4 + 1);
         }
+        data_map = handlebars_map_str_update(data_map, HBS_STRL("_parent"), options->data);
         handlebars_map_addref(data_map);
     }
 
-- 
2.43.0


From 4a4db3f9c5e06a4a8dfb7c335e3c9322e593ae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:36 +0000
Subject: [PATCH 023/110] fix: lookup of an index that is not there is empty

---
 src/handlebars_helpers.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 0c0b800..91cb7e1 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -266,7 +266,7 @@ struct handlebars_value * handlebars_builtin_lookup(HANDLEBARS_HELPER_ARGS)
     } else if( type == HANDLEBARS_VALUE_TYPE_ARRAY ) {
         // @todo sscanf?
         if( handlebars_value_get_type(field) == HANDLEBARS_VALUE_TYPE_INTEGER ) {
-            rv = handlebars_value_array_find(context, handlebars_value_get_intval(field), rv);
+            (void) handlebars_value_array_find(context, handlebars_value_get_intval(field), rv);
         }
     }
 
-- 
2.43.0


From be388a2fcc37e868f39529de578a3617e30ff54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:36 +0000
Subject: [PATCH 024/110] fix: a delimiter change without a closing delimiter
 is an error

---
 src/handlebars_delimiters.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index c7340fa..17f3f7a 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -88,7 +88,7 @@ struct handlebars_string * handlebars_preprocess_delimiters(
             default: // Default
             case 0: state0:
                 // If current character is a slash, skip one character
-                if( *p == '\\' ) {
+                if( *p == '\\' && i > 1 ) {
                     append(p, 1);
                     move_forward(1);
                     append(p, 1);
@@ -174,6 +174,10 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                     pce--;
                 }
 
+                if( pce < pc ) {
+                    handlebars_throw(ctx, HANDLEBARS_ERROR, "Delimiter change must contain a closing delimiter");
+                }
+
                 // Save new close tag
                 new_close = handlebars_string_ctor(ctx, pc, pce - pc + 1);
 
-- 
2.43.0


From b88cfd2e1651726014ce905bc590fbf8818a468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:56 +0000
Subject: [PATCH 025/110] fix: a partial that includes itself without end is an
 error, not a crash

---
 src/handlebars_vm.c | 5 +++++
 src/handlebars_vm.h | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 4fe11c7..3d6f57e 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -345,6 +345,11 @@ static struct handlebars_string * execute_template(
         return handlebars_string_ctor(CONTEXT, HBS_STRL(""));
     }
 
+    // A partial that never stops including itself must not exhaust the C stack
+    if( vm->depth >= HANDLEBARS_VM_MAX_DEPTH ) {
+        handlebars_throw(CONTEXT, HANDLEBARS_STACK_OVERFLOW, "Partials and lambdas are nested too deeply");
+    }
+
     // The context owns whatever is only needed to execute this template, but errors belong to the vm
     context = handlebars_talloc_zero(vm, struct handlebars_context);
     HANDLEBARS_MEMCHECK(context, CONTEXT);
diff --git a/src/handlebars_vm.h b/src/handlebars_vm.h
index 45deb93..4986e26 100644
--- a/src/handlebars_vm.h
+++ b/src/handlebars_vm.h
@@ -30,6 +30,11 @@ struct handlebars_module;
 struct handlebars_options;
 struct handlebars_vm;
 
+#ifndef HANDLEBARS_VM_MAX_DEPTH
+//! The maximum number of nested partials and lambdas
+#define HANDLEBARS_VM_MAX_DEPTH 512
+#endif
+
 #ifndef HANDLEBARS_VM_STACK_SIZE
 #define HANDLEBARS_VM_STACK_SIZE 96
 #endif
-- 
2.43.0


From 8ab668fcddbec6601b9c71e0c913824ab5272a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:56 +0000
Subject: [PATCH 026/110] fix: the value a lambda returns is used even if it is
 not the one it was given

---
 src/handlebars_vm.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 3d6f57e..8e3d060 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -535,10 +535,10 @@ static struct handlebars_value * invoke_mustache_style_lambda_closure(HANDLEBARS
 
     handlebars_value_str(&lambda_argv[0], lambda_tmpl);
 
-    handlebars_value_call(callable, 1, lambda_argv, options, vm, lambda_result);
+    struct handlebars_value *result = handlebars_value_call(callable, 1, lambda_argv, options, vm, lambda_result);
 
-    if (!handlebars_value_is_empty(lambda_result)) {
-        struct handlebars_string * tmpl = handlebars_value_to_string(lambda_result, CONTEXT);
+    if (!handlebars_value_is_empty(result)) {
+        struct handlebars_string * tmpl = handlebars_value_to_string(result, CONTEXT);
         struct handlebars_string * rv_str = execute_template(vm, tmpl, callable, NULL, 0, use_delimiters);
         handlebars_value_str(rv, rv_str);
     }
-- 
2.43.0


From 187ada66ebdd527188e510bb11c0a972b3f9dcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:15 +0000
Subject: [PATCH 027/110] fix: a partial block is not its own partial block

---
 src/handlebars_vm.c | 23 ++++++++++-------------
 1 file changed, 10 insertions(+), 13 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 8e3d060..2ef323c 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -453,7 +453,6 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
     long program = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(1));
     long partial_block_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(2));
     long block_param_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(3));
-    bool pushed_partial_block = false;
     struct handlebars_stack_save_buf bst = handlebars_stack_save(vm->blockParamStack);
     long i;
 
@@ -462,10 +461,13 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
         PUSH(vm->blockParamStack, handlebars_stack_get(vm->blockParamStack, i));
     }
 
-    // Push partial block
+    // Push the partial block that was current where this one was defined, or nothing if there was none
     if (partial_block_depth > 0) {
-        pushed_partial_block = true;
         PUSH(vm->partialBlockStack, handlebars_stack_get(vm->partialBlockStack, partial_block_depth - 1));
+    } else {
+        HANDLEBARS_VALUE_DECL(no_partial_block);
+        PUSH(vm->partialBlockStack, no_partial_block);
+        HANDLEBARS_VALUE_UNDECL(no_partial_block);
     }
 
     struct handlebars_value * input = argc > 0 ? &argv[0] : TOP(vm->contextStack);
@@ -482,15 +484,9 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
     handlebars_stack_restore(vm->blockParamStack, bst);
 
     // Pop partial block
-    if (pushed_partial_block) {
-        // This should never happen, but we need to convince scan-build of it
-        assert(vm->partialBlockStack != NULL);
-        if (!vm->partialBlockStack) return rv;
-
-        HANDLEBARS_VALUE_DECL(closure_value);
-        POP(vm->partialBlockStack, closure_value);
-        HANDLEBARS_VALUE_UNDECL(closure_value);
-    }
+    HANDLEBARS_VALUE_DECL(closure_value);
+    POP(vm->partialBlockStack, closure_value);
+    HANDLEBARS_VALUE_UNDECL(closure_value);
 
     return rv;
 }
@@ -851,7 +847,8 @@ ACCEPT_FUNCTION(invoke_partial)
     }
 
     // Try to look up partial block
-    if (!partial && name && hbs_str_eq_strl(name, HBS_STRL("@partial-block")) && LEN(vm->partialBlockStack) > 0) {
+    if (!partial && name && hbs_str_eq_strl(name, HBS_STRL("@partial-block")) && LEN(vm->partialBlockStack) > 0 &&
+            TOP(vm->partialBlockStack)->type != HANDLEBARS_VALUE_TYPE_NULL) {
         partial = TOP(vm->partialBlockStack);
     }
 
-- 
2.43.0


From 54583f6449c097ef3cbf7dd2986635c4863aeff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:28 +0000
Subject: [PATCH 028/110] fix: the hash of a partial also applies to an empty
 context

---
 src/handlebars_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 2ef323c..67ef6b8 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -304,7 +304,7 @@ static inline void depthed_lookup(struct handlebars_vm * vm, struct handlebars_s
 HBS_ATTR_NONNULL(1, 2)
 static inline struct handlebars_value * merge_hash(struct handlebars_context * context, struct handlebars_value * input, struct handlebars_value * hash)
 {
-    if( handlebars_value_get_type(input) == HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_count(input) > 0 &&
+    if( handlebars_value_get_type(input) == HANDLEBARS_VALUE_TYPE_MAP &&
             hash && handlebars_value_get_type(hash) == HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_count(hash) > 0 ) {
         struct handlebars_map * new_map = handlebars_map_ctor(context, handlebars_value_count(input) + handlebars_value_count(hash));
         HANDLEBARS_VALUE_FOREACH_KV(input, key, child) {
-- 
2.43.0


From efa335e46952200f8be4280a6b5b0bf6a1db2dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:22 +0000
Subject: [PATCH 029/110] fix: whitespace control applies to partial blocks

---
 src/handlebars_whitespace.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index e423a79..2c71201 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -252,7 +252,7 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
             }
         }
         if( do_standalone && open_standalone ) {
-            if( current->type == HANDLEBARS_AST_NODE_BLOCK ) {
+            if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
                 if( current->node.block.program ) {
                     assert(current->node.block.program->type == HANDLEBARS_AST_NODE_PROGRAM);
                     handlebars_whitespace_omit_right(current->node.block.program->node.program.statements, NULL, 0);
@@ -265,7 +265,7 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
         }
         if( do_standalone && close_standalone ) {
             handlebars_whitespace_omit_right(statements, current, 0);
-            if( current->type == HANDLEBARS_AST_NODE_BLOCK ) {
+            if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
                 if( current->node.block.inverse ) {
                     assert(current->node.block.inverse->type == HANDLEBARS_AST_NODE_PROGRAM);
                     handlebars_whitespace_omit_left(current->node.block.inverse->node.program.statements, NULL, 0);
@@ -487,6 +487,7 @@ void handlebars_whitespace_accept(struct handlebars_parser * parser,
 
     switch( node->type ) {
         case HANDLEBARS_AST_NODE_BLOCK:
+        case HANDLEBARS_AST_NODE_PARTIAL_BLOCK:
             return handlebars_whitespace_accept_block(parser, node);
         case HANDLEBARS_AST_NODE_MUSTACHE:
             return handlebars_whitespace_accept_mustache(parser, node);
@@ -505,7 +506,6 @@ void handlebars_whitespace_accept(struct handlebars_parser * parser,
         case HANDLEBARS_AST_NODE_CONTENT:
         case HANDLEBARS_AST_NODE_HASH:
         case HANDLEBARS_AST_NODE_HASH_PAIR:
-        case HANDLEBARS_AST_NODE_PARTIAL_BLOCK:
         case HANDLEBARS_AST_NODE_NUL:
         case HANDLEBARS_AST_NODE_NUMBER:
         case HANDLEBARS_AST_NODE_PATH:
-- 
2.43.0


From 488d16d781b2e867fa22b1dcf38b688d9b8f11fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:08 +0000
Subject: [PATCH 030/110] fix: the close tag of else chains and the bodies of
 inverted blocks in whitespace control

---
 src/handlebars_ast.h         |  1 +
 src/handlebars_ast_helpers.c | 11 ++++--
 src/handlebars_whitespace.c  | 75 ++++++++++++++++++++++++------------
 3 files changed, 58 insertions(+), 29 deletions(-)

diff --git a/src/handlebars_ast.h b/src/handlebars_ast.h
index 14bd920..6ee897e 100644
--- a/src/handlebars_ast.h
+++ b/src/handlebars_ast.h
@@ -304,6 +304,7 @@ struct handlebars_ast_node_block {
     unsigned int inverse_strip;
     unsigned int close_strip;
     bool is_decorator;
+    bool is_inverted;
 };
 
 struct handlebars_ast_node_comment {
diff --git a/src/handlebars_ast_helpers.c b/src/handlebars_ast_helpers.c
index b9c6115..0d106af 100644
--- a/src/handlebars_ast_helpers.c
+++ b/src/handlebars_ast_helpers.c
@@ -94,14 +94,16 @@ struct handlebars_ast_node * handlebars_ast_helper_prepare_block(
             handlebars_throw_ex(CONTEXT, HANDLEBARS_PARSEERR, locinfo, "Unexpected inverse block on decorator");
         }
 
-        if( inverse_and_program->node.inverse.chained ) {
+        // The close tag belongs to every block of an else chain
+        if( close && inverse_and_program->node.inverse.chained ) {
             struct handlebars_ast_list * statements;
-            struct handlebars_ast_node * tmp;
-            if( (tmp = inverse_and_program->node.inverse.program) &&
-                (statements = tmp->node.program.statements) &&
+            struct handlebars_ast_node * tmp = inverse_and_program->node.inverse.program;
+            while( tmp && tmp->node.program.chained &&
+                    (statements = tmp->node.program.statements) &&
                     statements->first && (tmp = statements->first->data) &&
                     tmp->type == HANDLEBARS_AST_NODE_BLOCK ) {
                 tmp->node.block.close_strip = close->strip;
+                tmp = tmp->node.block.inverse;
             }
         }
 
@@ -131,6 +133,7 @@ struct handlebars_ast_node * handlebars_ast_helper_prepare_block(
                 open_block->strip, inverse_strip, close ? close->strip : 0, locinfo);
 
     ast_node->node.block.is_decorator = is_decorator;
+    ast_node->node.block.is_inverted = inverted;
     return ast_node;
 }
 
diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index 2c71201..efedf25 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -187,6 +187,42 @@ bool handlebars_whitespace_omit_right(struct handlebars_ast_list * statements,
 }
 
 
+// The body that follows the open tag
+static inline struct handlebars_ast_node * handlebars_whitespace_first_program(struct handlebars_ast_node * block)
+{
+    struct handlebars_ast_node * program = block->node.block.program;
+    struct handlebars_ast_node * inverse = block->node.block.inverse;
+    return !program || (block->node.block.is_inverted && inverse) ? inverse : program;
+}
+
+// The body that follows the first else, or nothing
+static inline struct handlebars_ast_node * handlebars_whitespace_second_program(struct handlebars_ast_node * block)
+{
+    struct handlebars_ast_node * program = block->node.block.program;
+    struct handlebars_ast_node * inverse = block->node.block.inverse;
+    if( !program || !inverse ) {
+        return NULL;
+    }
+    return block->node.block.is_inverted ? program : inverse;
+}
+
+// The body that precedes the close tag
+static inline struct handlebars_ast_node * handlebars_whitespace_last_program(struct handlebars_ast_node * block)
+{
+    struct handlebars_ast_node * program;
+    struct handlebars_ast_list * statements;
+
+    while( (program = handlebars_whitespace_second_program(block)) && program->node.program.chained ) {
+        statements = program->node.program.statements;
+        if( !statements || !statements->last || !statements->last->data ||
+                statements->last->data->type != HANDLEBARS_AST_NODE_BLOCK ) {
+            break;
+        }
+        block = statements->last->data;
+    }
+
+    return program ? program : handlebars_whitespace_first_program(block);
+}
 
 static inline void handlebars_whitespace_accept_program(struct handlebars_parser * parser,
         struct handlebars_ast_node * program)
@@ -253,12 +289,10 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
         }
         if( do_standalone && open_standalone ) {
             if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
-                if( current->node.block.program ) {
-                    assert(current->node.block.program->type == HANDLEBARS_AST_NODE_PROGRAM);
-                    handlebars_whitespace_omit_right(current->node.block.program->node.program.statements, NULL, 0);
-                } else if( current->node.block.inverse ) {
-                    assert(current->node.block.inverse->type == HANDLEBARS_AST_NODE_PROGRAM);
-                    handlebars_whitespace_omit_right(current->node.block.inverse->node.program.statements, NULL, 0);
+                struct handlebars_ast_node * program = handlebars_whitespace_first_program(current);
+                if( program ) {
+                    assert(program->type == HANDLEBARS_AST_NODE_PROGRAM);
+                    handlebars_whitespace_omit_right(program->node.program.statements, NULL, 0);
                 }
             }
             handlebars_whitespace_omit_left(statements, current, 0);
@@ -266,12 +300,10 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
         if( do_standalone && close_standalone ) {
             handlebars_whitespace_omit_right(statements, current, 0);
             if( current->type == HANDLEBARS_AST_NODE_BLOCK || current->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
-                if( current->node.block.inverse ) {
-                    assert(current->node.block.inverse->type == HANDLEBARS_AST_NODE_PROGRAM);
-                    handlebars_whitespace_omit_left(current->node.block.inverse->node.program.statements, NULL, 0);
-                } else if( current->node.block.program ) {
-                    assert(current->node.block.program->type == HANDLEBARS_AST_NODE_PROGRAM);
-                    handlebars_whitespace_omit_left(current->node.block.program->node.program.statements, NULL, 0);
+                struct handlebars_ast_node * program = handlebars_whitespace_last_program(current);
+                if( program ) {
+                    assert(program->type == HANDLEBARS_AST_NODE_PROGRAM);
+                    handlebars_whitespace_omit_left(program->node.program.statements, NULL, 0);
                 }
             }
         }
@@ -309,7 +341,7 @@ static inline void handlebars_whitespace_accept_block(struct handlebars_parser *
     struct handlebars_ast_node * program;
     struct handlebars_ast_node * inverse;
     struct handlebars_ast_node * firstInverse;
-    struct handlebars_ast_node * lastInverse;
+    struct handlebars_ast_node * last;
     unsigned strip = 0;
     bool do_standalone = true; //!(parser->flags & handlebars_compiler_flag_ignore_standalone);
 
@@ -320,20 +352,13 @@ static inline void handlebars_whitespace_accept_block(struct handlebars_parser *
         handlebars_whitespace_accept(parser, block->node.block.inverse);
     }
 
-    program = (block->node.block.program ? block->node.block.program : block->node.block.inverse);
-    inverse = (block->node.block.program ? block->node.block.inverse : NULL);
-    firstInverse = lastInverse = inverse;
+    program = handlebars_whitespace_first_program(block);
+    inverse = handlebars_whitespace_second_program(block);
+    firstInverse = inverse;
+    last = handlebars_whitespace_last_program(block);
 
     if( inverse && inverse->node.program.chained ) {
         firstInverse = _handlebars_whitespace_get_program(inverse, 1);
-
-        // Should this also allow inverse node?
-        while( lastInverse &&
-                lastInverse->type == HANDLEBARS_AST_NODE_PROGRAM &&
-                lastInverse->node.program.chained ) {
-            lastInverse = _handlebars_whitespace_get_program(lastInverse, 0);
-            assert(lastInverse == NULL || lastInverse->type != HANDLEBARS_AST_NODE_INVERSE);
-        }
     }
 
     strip |= (block->node.block.open_strip & handlebars_ast_strip_flag_left);
@@ -341,7 +366,7 @@ static inline void handlebars_whitespace_accept_block(struct handlebars_parser *
     if( program && handlebars_whitespace_is_next_whitespace(program->node.program.statements, NULL, 0) ) {
         strip |= handlebars_ast_strip_flag_open_standalone;
     }
-    if( (program || firstInverse) && handlebars_whitespace_is_prev_whitespace((firstInverse ? firstInverse : program)->node.program.statements, NULL, 0) ) {
+    if( last && handlebars_whitespace_is_prev_whitespace(last->node.program.statements, NULL, 0) ) {
         strip |= handlebars_ast_strip_flag_close_standalone;
     }
     strip |= handlebars_ast_strip_flag_set;
-- 
2.43.0


From f1c281c12f307a9995205a4ca66ba69aa3a03b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:43 +0000
Subject: [PATCH 031/110] fix: honour the ignore_standalone flag

---
 src/handlebars_whitespace.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index efedf25..c21959c 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -31,6 +31,7 @@
 
 #include "handlebars_ast.h"
 #include "handlebars_ast_list.h"
+#include "handlebars_compiler.h"
 #include "handlebars_memory.h"
 #include "handlebars_parser.h"
 #include "handlebars_parser_private.h"
@@ -231,7 +232,7 @@ static inline void handlebars_whitespace_accept_program(struct handlebars_parser
     struct handlebars_ast_list * statements = program->node.program.statements;
     struct handlebars_ast_list_item * item;
     struct handlebars_ast_list_item * tmp;
-    bool do_standalone = true; //!(parser->flags & handlebars_compiler_flag_ignore_standalone);
+    bool do_standalone = !(parser->flags & handlebars_compiler_flag_ignore_standalone);
 
     parser->whitespace_root_seen = 1;
 
@@ -343,7 +344,7 @@ static inline void handlebars_whitespace_accept_block(struct handlebars_parser *
     struct handlebars_ast_node * firstInverse;
     struct handlebars_ast_node * last;
     unsigned strip = 0;
-    bool do_standalone = true; //!(parser->flags & handlebars_compiler_flag_ignore_standalone);
+    bool do_standalone = !(parser->flags & handlebars_compiler_flag_ignore_standalone);
 
     if( block->node.block.program ) {
         handlebars_whitespace_accept(parser, block->node.block.program);
-- 
2.43.0


From 8946cfbd47f10d33a18e9c0e8500528e3200eecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:50 +0000
Subject: [PATCH 032/110] fix: a block param does not hide the @data of the
 same name

---
 src/handlebars_compiler.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index eadbaff..9d84626 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -1187,7 +1187,7 @@ static inline void handlebars_compiler_accept_path(
 
     name = handlebars_ast_node_get_id_part(path);
     is_scoped = handlebars_ast_helper_scoped_id(path);
-    if( !path->node.path.depth && !is_scoped ) {
+    if( !path->node.path.depth && !path->node.path.data && !is_scoped ) {
         handlebars_compiler_block_param_index(compiler, name, &block_param_depth, &block_param_num);
     }
 
-- 
2.43.0


From 67f25a2fb2a59671dc3202969723e3292d2be6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:35 +0000
Subject: [PATCH 033/110] fix: ~ next to an empty block body dereferenced NULL

---
 src/handlebars_whitespace.c | 8 ++++++++
 src/handlebars_whitespace.h | 4 ++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_whitespace.c b/src/handlebars_whitespace.c
index c21959c..bce3394 100644
--- a/src/handlebars_whitespace.c
+++ b/src/handlebars_whitespace.c
@@ -114,6 +114,10 @@ bool handlebars_whitespace_omit_left(struct handlebars_ast_list * statements,
     struct handlebars_ast_list_item * item;
     size_t original_length;
 
+    if( !statements ) {
+        return 0;
+    }
+
     if( statement == NULL ) {
         current = statements->last ? statements->last->data : NULL;
     } else {
@@ -151,6 +155,10 @@ bool handlebars_whitespace_omit_right(struct handlebars_ast_list * statements,
     struct handlebars_ast_list_item * item;
     size_t original_length;
 
+    if( !statements ) {
+        return 0;
+    }
+
     if( statement == NULL ) {
         current = statements->first ? statements->first->data : NULL;
     } else {
diff --git a/src/handlebars_whitespace.h b/src/handlebars_whitespace.h
index 6df8627..20821ec 100644
--- a/src/handlebars_whitespace.h
+++ b/src/handlebars_whitespace.h
@@ -49,13 +49,13 @@ bool handlebars_whitespace_omit_left(
     struct handlebars_ast_list * statements,
     struct handlebars_ast_node * statement,
     bool multiple
-) HBS_LOCAL HBS_ATTR_NONNULL(1);
+) HBS_LOCAL;
 
 bool handlebars_whitespace_omit_right(
     struct handlebars_ast_list * statements,
     struct handlebars_ast_node * statement,
     bool multiple
-) HBS_LOCAL HBS_ATTR_NONNULL(1);
+) HBS_LOCAL;
 
 void handlebars_whitespace_accept(
     struct handlebars_parser * parser,
-- 
2.43.0


From 386db9d7c799f194b0203739883666a4a46825ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:08 +0000
Subject: [PATCH 034/110] fix: an empty template was a syntax error

---
 src/handlebars.tab.c | 760 ++++++++++++++++++++++---------------------
 src/handlebars.y     |   5 +
 2 files changed, 395 insertions(+), 370 deletions(-)

diff --git a/src/handlebars.tab.c b/src/handlebars.tab.c
index af1591c..c9cabee 100644
--- a/src/handlebars.tab.c
+++ b/src/handlebars.tab.c
@@ -542,18 +542,18 @@ union yyalloc
 #endif /* !YYCOPY_NEEDED */
 
 /* YYFINAL -- State number of the termination state.  */
-#define YYFINAL  50
+#define YYFINAL  51
 /* YYLAST -- Last index in YYTABLE.  */
-#define YYLAST   283
+#define YYLAST   330
 
 /* YYNTOKENS -- Number of terminals.  */
 #define YYNTOKENS  36
 /* YYNNTS -- Number of nonterminals.  */
 #define YYNNTS  34
 /* YYNRULES -- Number of rules.  */
-#define YYNRULES  80
+#define YYNRULES  81
 /* YYNSTATES -- Number of states.  */
-#define YYNSTATES  125
+#define YYNSTATES  126
 
 /* YYMAXUTOK -- Last valid token kind.  */
 #define YYMAXUTOK   290
@@ -606,15 +606,15 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
-       0,   188,   188,   196,   199,   206,   210,   217,   220,   223,
-     226,   229,   232,   235,   242,   252,   256,   262,   265,   271,
-     277,   280,   283,   286,   292,   296,   300,   307,   315,   322,
-     329,   332,   335,   338,   341,   347,   351,   360,   367,   371,
-     378,   382,   386,   390,   397,   400,   406,   410,   414,   418,
-     425,   429,   436,   439,   445,   451,   456,   460,   463,   466,
-     469,   475,   483,   487,   494,   500,   504,   511,   514,   517,
-     520,   523,   526,   529,   532,   538,   541,   547,   553,   559,
-     565
+       0,   188,   188,   193,   201,   204,   211,   215,   222,   225,
+     228,   231,   234,   237,   240,   247,   257,   261,   267,   270,
+     276,   282,   285,   288,   291,   297,   301,   305,   312,   320,
+     327,   334,   337,   340,   343,   346,   352,   356,   365,   372,
+     376,   383,   387,   391,   395,   402,   405,   411,   415,   419,
+     423,   430,   434,   441,   444,   450,   456,   461,   465,   468,
+     471,   474,   480,   488,   492,   499,   505,   509,   516,   519,
+     522,   525,   528,   531,   534,   537,   543,   546,   552,   558,
+     564,   570
 };
 #endif
 
@@ -653,7 +653,7 @@ yysymbol_name (yysymbol_kind_t yysymbol)
 }
 #endif
 
-#define YYPACT_NINF (-57)
+#define YYPACT_NINF (-58)
 
 #define yypact_value_is_default(Yyn) \
   ((Yyn) == YYPACT_NINF)
@@ -667,19 +667,19 @@ yysymbol_name (yysymbol_kind_t yysymbol)
    STATE-NUM.  */
 static const yytype_int16 yypact[] =
 {
-     231,   -57,    13,   150,   150,   150,   124,   150,   150,   124,
-     -57,   -57,    24,    27,   250,   -57,   -57,   -57,     3,   -57,
-     174,   174,   -57,   -57,   -57,   212,   -57,   -57,    15,   -57,
-     -57,   -57,   -57,   -57,   -57,    32,   146,   -57,   -57,     6,
-      33,     9,    35,   150,   -57,   -57,    54,    36,    41,    87,
-     -57,   -57,   -57,   -57,    31,   231,   150,   150,     2,    40,
-     193,   -57,   -57,   -57,    40,   -57,    40,   -57,     6,   -57,
-      43,   146,   -57,   -57,   -57,    47,   -57,   -57,    49,   -57,
-      50,   -57,   -57,    60,   -57,    91,    64,   -57,   -57,   -57,
-     120,    65,   -57,   -57,    67,    68,   -57,   -57,     2,   -57,
-     -57,   -57,   124,   -57,   -57,    43,   -57,   -57,     8,   -57,
-     -57,    69,   -57,   -57,    70,   -57,   -57,   -57,   -57,   -57,
-      48,   -57,   -57,   -57,   -57
+      68,   -58,   -58,     5,   200,   200,   200,   167,   200,   200,
+     167,   -58,   -58,    21,    22,   297,   -58,   -58,   -58,    26,
+     -58,   221,   221,   -58,   -58,   -58,   259,   -58,   -58,    11,
+     -58,   -58,   -58,   -58,   -58,   -58,    24,   181,   -58,   -58,
+      14,    27,     7,    34,   200,   -58,   -58,    94,    36,    35,
+     108,   -58,   -58,   -58,   -58,    37,   278,   200,   200,     2,
+      39,   240,   -58,   -58,   -58,    39,   -58,    39,   -58,    14,
+     -58,    43,   181,   -58,   -58,   -58,    46,   -58,   -58,    47,
+     -58,    48,   -58,   -58,    50,   -58,   134,    59,   -58,   -58,
+     -58,   148,    60,   -58,   -58,    62,    63,   -58,   -58,     2,
+     -58,   -58,   -58,   167,   -58,   -58,    43,   -58,   -58,    -1,
+     -58,   -58,    65,   -58,   -58,    66,   -58,   -58,   -58,   -58,
+     -58,    44,   -58,   -58,   -58,   -58
 };
 
 /* YYDEFACT[STATE-NUM] -- Default reduction number in state STATE-NUM.
@@ -687,37 +687,37 @@ static const yytype_int16 yypact[] =
    means the default is an error.  */
 static const yytype_int8 yydefact[] =
 {
-       0,    13,    16,     0,     0,     0,     0,     0,     0,     0,
-      14,     4,     0,     0,     3,     5,    12,     9,     0,     8,
-       0,     0,     7,    10,    11,     0,    15,    72,     0,    80,
-      71,    69,    74,    73,    70,     0,    60,    68,    67,    78,
-       0,    56,     0,     0,    76,    75,     0,     0,     0,     0,
-       1,     2,     6,    18,     0,    36,     0,     0,    26,     0,
-      33,    24,    34,    21,     0,    23,     0,    45,    77,    38,
-      80,    59,    50,    53,    58,    61,    63,    52,     0,    27,
-       0,    55,    28,     0,    43,     0,     0,    19,    39,    49,
-       0,     0,    17,    35,     0,     0,    25,    20,    32,    31,
-      22,    44,     0,    51,    57,     0,    62,    79,     0,    54,
-      41,     0,    42,    47,     0,    48,    37,    29,    30,    64,
-       0,    66,    40,    46,    65
+       0,     3,    14,    17,     0,     0,     0,     0,     0,     0,
+       0,    15,     5,     0,     0,     4,     6,    13,    10,     0,
+       9,     0,     0,     8,    11,    12,     0,    16,    73,     0,
+      81,    72,    70,    75,    74,    71,     0,    61,    69,    68,
+      79,     0,    57,     0,     0,    77,    76,     0,     0,     0,
+       0,     1,     2,     7,    19,     0,    37,     0,     0,    27,
+       0,    34,    25,    35,    22,     0,    24,     0,    46,    78,
+      39,    81,    60,    51,    54,    59,    62,    64,    53,     0,
+      28,     0,    56,    29,     0,    44,     0,     0,    20,    40,
+      50,     0,     0,    18,    36,     0,     0,    26,    21,    33,
+      32,    23,    45,     0,    52,    58,     0,    63,    80,     0,
+      55,    42,     0,    43,    48,     0,    49,    38,    30,    31,
+      65,     0,    67,    41,    47,    66
 };
 
 /* YYPGOTO[NTERM-NUM].  */
 static const yytype_int8 yypgoto[] =
 {
-     -57,   -57,     1,   -57,    62,     7,   -57,   -57,   -57,    57,
-     -57,   -57,   -57,   -53,   -57,   -15,   -57,   -57,   -57,   -57,
-     -30,   -56,    14,    -3,    10,   -38,   -57,    11,   -57,    -6,
-      72,   -57,   -57,    55
+     -58,   -58,     1,   -58,    57,     6,   -58,   -58,   -58,    51,
+     -58,   -58,   -58,   -54,   -58,   -16,   -58,   -58,   -58,   -58,
+     -31,   -57,    13,    -4,     9,   -39,   -58,    -2,   -58,    -7,
+      70,   -58,   -58,    49
 };
 
 /* YYDEFGOTO[NTERM-NUM].  */
 static const yytype_int8 yydefgoto[] =
 {
-       0,    12,    58,    14,    15,    16,    17,    18,    19,    59,
-      20,    21,    60,    61,    62,    63,    22,    23,    24,    25,
-      71,    72,    73,    40,    41,    74,    75,    76,    81,    36,
-      46,    37,    38,    39
+       0,    13,    59,    15,    16,    17,    18,    19,    20,    60,
+      21,    22,    61,    62,    63,    64,    23,    24,    25,    26,
+      72,    73,    74,    41,    42,    75,    76,    77,    82,    37,
+      47,    38,    39,    40
 };
 
 /* YYTABLE[YYPACT[STATE-NUM]] -- What to do in state STATE-NUM.  If
@@ -725,115 +725,125 @@ static const yytype_int8 yydefgoto[] =
    number is the opposite.  If YYTABLE_NINF, syntax error.  */
 static const yytype_int8 yytable[] =
 {
-      45,    13,    42,    45,    47,    96,    65,    99,    86,    26,
-      67,    91,     2,    35,    53,   103,    85,    55,    48,    90,
-      44,   120,     2,    44,    50,    54,    66,    51,    29,   103,
-      77,    78,    57,   104,   103,   121,    69,    79,    80,    82,
-      77,    87,    92,    77,    97,   118,   119,   111,    88,   100,
-      94,   101,   114,    83,    95,   102,    93,    27,    84,    56,
-     105,    98,   107,   108,    28,    77,   109,    70,   112,   115,
-      30,   116,   117,   122,   123,   124,    52,    43,    64,    77,
-      31,    49,    32,    68,    77,    33,   106,     0,    34,     0,
-      27,    89,     0,     0,    27,   110,    77,    28,     0,     0,
-      70,    28,     0,    30,    70,     0,     0,    30,     0,     0,
-      43,     0,     0,    31,    43,    32,     0,    31,    33,    32,
-       0,    34,    33,    27,   113,    34,     0,    27,     0,     0,
-      28,     0,     0,    70,    28,     0,    30,    29,     0,     0,
-      30,     0,     0,    43,     0,     0,    31,    43,    32,    27,
-      31,    33,    32,    27,    34,    33,    28,     0,    34,    70,
-      28,     0,    30,    29,     0,     0,    30,     0,     0,    43,
-       0,     0,    31,     0,    32,     0,    31,    33,    32,     0,
-      34,    33,     1,     2,    34,     0,     0,     0,     0,    55,
-       0,     3,     4,    56,     5,     6,     7,     0,     8,     0,
-       0,     1,     2,     0,    57,     0,     9,    10,    55,    11,
-       3,     4,     0,     5,     6,     7,     0,     8,     0,     0,
-       1,     2,     0,    57,     0,     9,    10,     0,    11,     3,
-       4,    56,     5,     6,     7,     0,     8,     0,     0,     1,
-       2,     0,     0,     0,     9,    10,     0,    11,     3,     4,
-       0,     5,     6,     7,     0,     8,     0,     0,     1,     2,
-       0,     0,     0,     9,    10,     0,    11,     3,     4,     0,
-       5,     6,     7,     0,     8,     0,     0,     0,     0,     0,
-       0,     0,     9,    10
+      46,    14,    43,    46,    48,    97,    66,   100,    87,    27,
+      68,    92,   121,    36,     3,   104,    86,    56,    49,    91,
+      45,    51,    52,    45,    30,    55,   122,    67,    70,   104,
+      78,    80,    58,   105,   104,     3,    81,    54,    83,    79,
+      78,    88,    89,    78,    98,   119,   120,   112,    93,   101,
+      95,   102,   115,    84,    96,   103,   110,    94,    57,   106,
+     108,   109,    99,   113,   116,    78,   117,   118,     1,   123,
+     124,   125,    53,    65,   107,     0,     2,     3,    69,    78,
+      50,     0,     0,     0,    78,     4,     5,     0,     6,     7,
+       8,     0,     9,     0,     0,     0,    78,    28,    85,     0,
+      10,    11,     0,    12,    29,     0,     0,    71,     0,     0,
+      31,    28,    90,     0,     0,     0,     0,    44,    29,     0,
+      32,    71,    33,     0,    31,    34,     0,     0,    35,     0,
+       0,    44,     0,     0,    32,     0,    33,    28,   111,    34,
+       0,     0,    35,     0,    29,     0,     0,    71,     0,     0,
+      31,    28,   114,     0,     0,     0,     0,    44,    29,     0,
+      32,    71,    33,     0,    31,    34,     0,     0,    35,     0,
+      28,    44,     0,     0,    32,     0,    33,    29,     0,    34,
+      30,     0,    35,    31,    28,     0,     0,     0,     0,     0,
+      44,    29,     0,    32,    71,    33,     0,    31,    34,     0,
+       0,    35,     0,    28,    44,     0,     0,    32,     0,    33,
+      29,     0,    34,    30,     0,    35,    31,     0,     0,     0,
+       0,     0,     0,     0,     0,     0,    32,     0,    33,     2,
+       3,    34,     0,     0,    35,     0,    56,     0,     4,     5,
+      57,     6,     7,     8,     0,     9,     0,     0,     2,     3,
+       0,    58,     0,    10,    11,    56,    12,     4,     5,     0,
+       6,     7,     8,     0,     9,     0,     0,     2,     3,     0,
+      58,     0,    10,    11,     0,    12,     4,     5,    57,     6,
+       7,     8,     0,     9,     0,     0,     2,     3,     0,     0,
+       0,    10,    11,     0,    12,     4,     5,     0,     6,     7,
+       8,     0,     9,     0,     0,     2,     3,     0,     0,     0,
+      10,    11,     0,    12,     4,     5,     0,     6,     7,     8,
+       0,     9,     0,     0,     0,     0,     0,     0,     0,    10,
+      11
 };
 
 static const yytype_int8 yycheck[] =
 {
-       6,     0,     5,     9,     7,    58,    21,    60,    46,     2,
-      25,    49,     9,     3,    11,    71,    46,    15,     8,    49,
-       6,    13,     9,     9,     0,    18,    25,     0,    13,    85,
-      36,    25,    30,    71,    90,    27,     4,     4,    29,     4,
-      46,     5,    11,    49,    59,    98,   102,    85,     7,    64,
-      56,    66,    90,    43,    57,    12,    55,     3,     4,    19,
-      13,    60,    13,    13,    10,    71,     6,    13,     4,     4,
-      16,     4,     4,     4,     4,    27,    14,    23,    21,    85,
-      26,     9,    28,    28,    90,    31,    75,    -1,    34,    -1,
-       3,     4,    -1,    -1,     3,     4,   102,    10,    -1,    -1,
-      13,    10,    -1,    16,    13,    -1,    -1,    16,    -1,    -1,
-      23,    -1,    -1,    26,    23,    28,    -1,    26,    31,    28,
-      -1,    34,    31,     3,     4,    34,    -1,     3,    -1,    -1,
-      10,    -1,    -1,    13,    10,    -1,    16,    13,    -1,    -1,
-      16,    -1,    -1,    23,    -1,    -1,    26,    23,    28,     3,
-      26,    31,    28,     3,    34,    31,    10,    -1,    34,    13,
-      10,    -1,    16,    13,    -1,    -1,    16,    -1,    -1,    23,
-      -1,    -1,    26,    -1,    28,    -1,    26,    31,    28,    -1,
-      34,    31,     8,     9,    34,    -1,    -1,    -1,    -1,    15,
-      -1,    17,    18,    19,    20,    21,    22,    -1,    24,    -1,
-      -1,     8,     9,    -1,    30,    -1,    32,    33,    15,    35,
-      17,    18,    -1,    20,    21,    22,    -1,    24,    -1,    -1,
-       8,     9,    -1,    30,    -1,    32,    33,    -1,    35,    17,
-      18,    19,    20,    21,    22,    -1,    24,    -1,    -1,     8,
-       9,    -1,    -1,    -1,    32,    33,    -1,    35,    17,    18,
-      -1,    20,    21,    22,    -1,    24,    -1,    -1,     8,     9,
-      -1,    -1,    -1,    32,    33,    -1,    35,    17,    18,    -1,
-      20,    21,    22,    -1,    24,    -1,    -1,    -1,    -1,    -1,
-      -1,    -1,    32,    33
+       7,     0,     6,    10,     8,    59,    22,    61,    47,     3,
+      26,    50,    13,     4,     9,    72,    47,    15,     9,    50,
+       7,     0,     0,    10,    13,    19,    27,    26,     4,    86,
+      37,     4,    30,    72,    91,     9,    29,    11,     4,    25,
+      47,     5,     7,    50,    60,    99,   103,    86,    11,    65,
+      57,    67,    91,    44,    58,    12,     6,    56,    19,    13,
+      13,    13,    61,     4,     4,    72,     4,     4,     0,     4,
+       4,    27,    15,    22,    76,    -1,     8,     9,    29,    86,
+      10,    -1,    -1,    -1,    91,    17,    18,    -1,    20,    21,
+      22,    -1,    24,    -1,    -1,    -1,   103,     3,     4,    -1,
+      32,    33,    -1,    35,    10,    -1,    -1,    13,    -1,    -1,
+      16,     3,     4,    -1,    -1,    -1,    -1,    23,    10,    -1,
+      26,    13,    28,    -1,    16,    31,    -1,    -1,    34,    -1,
+      -1,    23,    -1,    -1,    26,    -1,    28,     3,     4,    31,
+      -1,    -1,    34,    -1,    10,    -1,    -1,    13,    -1,    -1,
+      16,     3,     4,    -1,    -1,    -1,    -1,    23,    10,    -1,
+      26,    13,    28,    -1,    16,    31,    -1,    -1,    34,    -1,
+       3,    23,    -1,    -1,    26,    -1,    28,    10,    -1,    31,
+      13,    -1,    34,    16,     3,    -1,    -1,    -1,    -1,    -1,
+      23,    10,    -1,    26,    13,    28,    -1,    16,    31,    -1,
+      -1,    34,    -1,     3,    23,    -1,    -1,    26,    -1,    28,
+      10,    -1,    31,    13,    -1,    34,    16,    -1,    -1,    -1,
+      -1,    -1,    -1,    -1,    -1,    -1,    26,    -1,    28,     8,
+       9,    31,    -1,    -1,    34,    -1,    15,    -1,    17,    18,
+      19,    20,    21,    22,    -1,    24,    -1,    -1,     8,     9,
+      -1,    30,    -1,    32,    33,    15,    35,    17,    18,    -1,
+      20,    21,    22,    -1,    24,    -1,    -1,     8,     9,    -1,
+      30,    -1,    32,    33,    -1,    35,    17,    18,    19,    20,
+      21,    22,    -1,    24,    -1,    -1,     8,     9,    -1,    -1,
+      -1,    32,    33,    -1,    35,    17,    18,    -1,    20,    21,
+      22,    -1,    24,    -1,    -1,     8,     9,    -1,    -1,    -1,
+      32,    33,    -1,    35,    17,    18,    -1,    20,    21,    22,
+      -1,    24,    -1,    -1,    -1,    -1,    -1,    -1,    -1,    32,
+      33
 };
 
 /* YYSTOS[STATE-NUM] -- The symbol kind of the accessing symbol of
    state STATE-NUM.  */
 static const yytype_int8 yystos[] =
 {
-       0,     8,     9,    17,    18,    20,    21,    22,    24,    32,
-      33,    35,    37,    38,    39,    40,    41,    42,    43,    44,
-      46,    47,    52,    53,    54,    55,    41,     3,    10,    13,
-      16,    26,    28,    31,    34,    60,    65,    67,    68,    69,
-      59,    60,    59,    23,    58,    65,    66,    59,    60,    66,
-       0,     0,    40,    11,    41,    15,    19,    30,    38,    45,
-      48,    49,    50,    51,    45,    51,    38,    51,    69,     4,
-      13,    56,    57,    58,    61,    62,    63,    65,    25,     4,
-      29,    64,     4,    60,     4,    56,    61,     5,     7,     4,
-      56,    61,    11,    38,    65,    59,    49,    51,    38,    49,
-      51,    51,    12,    57,    61,    13,    63,    13,    13,     6,
-       4,    61,     4,     4,    61,     4,     4,     4,    49,    57,
-      13,    27,     4,     4,    27
+       0,     0,     8,     9,    17,    18,    20,    21,    22,    24,
+      32,    33,    35,    37,    38,    39,    40,    41,    42,    43,
+      44,    46,    47,    52,    53,    54,    55,    41,     3,    10,
+      13,    16,    26,    28,    31,    34,    60,    65,    67,    68,
+      69,    59,    60,    59,    23,    58,    65,    66,    59,    60,
+      66,     0,     0,    40,    11,    41,    15,    19,    30,    38,
+      45,    48,    49,    50,    51,    45,    51,    38,    51,    69,
+       4,    13,    56,    57,    58,    61,    62,    63,    65,    25,
+       4,    29,    64,     4,    60,     4,    56,    61,     5,     7,
+       4,    56,    61,    11,    38,    65,    59,    49,    51,    38,
+      49,    51,    51,    12,    57,    61,    13,    63,    13,    13,
+       6,     4,    61,     4,     4,    61,     4,     4,     4,    49,
+      57,    13,    27,     4,     4,    27
 };
 
 /* YYR1[RULE-NUM] -- Symbol kind of the left-hand side of rule RULE-NUM.  */
 static const yytype_int8 yyr1[] =
 {
-       0,    36,    37,    38,    38,    39,    39,    40,    40,    40,
-      40,    40,    40,    40,    40,    41,    41,    42,    42,    43,
-      44,    44,    44,    44,    45,    45,    45,    46,    47,    48,
-      49,    49,    49,    49,    49,    50,    50,    51,    52,    52,
-      53,    53,    53,    53,    54,    54,    55,    55,    55,    55,
-      56,    56,    57,    57,    58,    59,    59,    60,    60,    60,
-      60,    61,    62,    62,    63,    64,    64,    65,    65,    65,
-      65,    65,    65,    65,    65,    66,    66,    67,    68,    69,
-      69
+       0,    36,    37,    37,    38,    38,    39,    39,    40,    40,
+      40,    40,    40,    40,    40,    40,    41,    41,    42,    42,
+      43,    44,    44,    44,    44,    45,    45,    45,    46,    47,
+      48,    49,    49,    49,    49,    49,    50,    50,    51,    52,
+      52,    53,    53,    53,    53,    54,    54,    55,    55,    55,
+      55,    56,    56,    57,    57,    58,    59,    59,    60,    60,
+      60,    60,    61,    62,    62,    63,    64,    64,    65,    65,
+      65,    65,    65,    65,    65,    65,    66,    66,    67,    68,
+      69,    69
 };
 
 /* YYR2[RULE-NUM] -- Number of symbols on the right-hand side of rule RULE-NUM.  */
 static const yytype_int8 yyr2[] =
 {
-       0,     2,     2,     1,     1,     1,     2,     1,     1,     1,
-       1,     1,     1,     1,     1,     2,     1,     3,     2,     3,
-       3,     2,     3,     2,     1,     2,     1,     3,     3,     3,
-       3,     2,     2,     1,     1,     2,     1,     3,     3,     3,
-       5,     4,     4,     3,     3,     2,     5,     4,     4,     3,
-       1,     2,     1,     1,     3,     2,     1,     3,     2,     2,
-       1,     1,     2,     1,     3,     4,     3,     1,     1,     1,
-       1,     1,     1,     1,     1,     1,     1,     2,     1,     3,
-       1
+       0,     2,     2,     1,     1,     1,     1,     2,     1,     1,
+       1,     1,     1,     1,     1,     1,     2,     1,     3,     2,
+       3,     3,     2,     3,     2,     1,     2,     1,     3,     3,
+       3,     3,     2,     2,     1,     1,     2,     1,     3,     3,
+       3,     5,     4,     4,     3,     3,     2,     5,     4,     4,
+       3,     1,     2,     1,     1,     3,     2,     1,     3,     2,
+       2,     1,     1,     2,     1,     3,     4,     3,     1,     1,
+       1,     1,     1,     1,     1,     1,     1,     1,     2,     1,
+       3,     1
 };
 
 
@@ -1697,94 +1707,104 @@ yyreduce:
       handlebars_whitespace_accept(parser, parser->program);
       return 1;
     }
-#line 1701 "handlebars.tab.c"
+#line 1711 "handlebars.tab.c"
     break;
 
-  case 3: /* program: statements  */
-#line 196 "handlebars.y"
+  case 3: /* start: "end of file"  */
+#line 193 "handlebars.y"
+        {
+      // An empty template
+      parser->program = handlebars_ast_node_ctor_program(parser, handlebars_ast_list_ctor(CONTEXT), NULL, NULL, 0, 0, &(yyloc));
+      return 1;
+    }
+#line 1721 "handlebars.tab.c"
+    break;
+
+  case 4: /* program: statements  */
+#line 201 "handlebars.y"
                {
       (yyval.ast_node) = handlebars_ast_node_ctor_program(parser, (yyvsp[0].ast_list), NULL, NULL, 0, 0, &(yyloc));
     }
-#line 1709 "handlebars.tab.c"
+#line 1729 "handlebars.tab.c"
     break;
 
-  case 4: /* program: ""  */
-#line 199 "handlebars.y"
+  case 5: /* program: ""  */
+#line 204 "handlebars.y"
        {
       struct handlebars_ast_list * list = handlebars_ast_list_ctor(CONTEXT);
       (yyval.ast_node) = handlebars_ast_node_ctor_program(parser, list, NULL, NULL, 0, 0, &(yyloc));
     }
-#line 1718 "handlebars.tab.c"
+#line 1738 "handlebars.tab.c"
     break;
 
-  case 5: /* statements: statement  */
-#line 206 "handlebars.y"
+  case 6: /* statements: statement  */
+#line 211 "handlebars.y"
               {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 1727 "handlebars.tab.c"
+#line 1747 "handlebars.tab.c"
     break;
 
-  case 6: /* statements: statements statement  */
-#line 210 "handlebars.y"
+  case 7: /* statements: statements statement  */
+#line 215 "handlebars.y"
                          {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 1736 "handlebars.tab.c"
+#line 1756 "handlebars.tab.c"
     break;
 
-  case 7: /* statement: mustache  */
-#line 217 "handlebars.y"
+  case 8: /* statement: mustache  */
+#line 222 "handlebars.y"
              {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1744 "handlebars.tab.c"
+#line 1764 "handlebars.tab.c"
     break;
 
-  case 8: /* statement: block  */
-#line 220 "handlebars.y"
+  case 9: /* statement: block  */
+#line 225 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1752 "handlebars.tab.c"
+#line 1772 "handlebars.tab.c"
     break;
 
-  case 9: /* statement: raw_block  */
-#line 223 "handlebars.y"
+  case 10: /* statement: raw_block  */
+#line 228 "handlebars.y"
               {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1760 "handlebars.tab.c"
+#line 1780 "handlebars.tab.c"
     break;
 
-  case 10: /* statement: partial  */
-#line 226 "handlebars.y"
+  case 11: /* statement: partial  */
+#line 231 "handlebars.y"
             {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1768 "handlebars.tab.c"
+#line 1788 "handlebars.tab.c"
     break;
 
-  case 11: /* statement: partial_block  */
-#line 229 "handlebars.y"
+  case 12: /* statement: partial_block  */
+#line 234 "handlebars.y"
                   {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1776 "handlebars.tab.c"
+#line 1796 "handlebars.tab.c"
     break;
 
-  case 12: /* statement: content  */
-#line 232 "handlebars.y"
+  case 13: /* statement: content  */
+#line 237 "handlebars.y"
             {
       (yyval.ast_node) = handlebars_ast_node_ctor_content(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 1784 "handlebars.tab.c"
+#line 1804 "handlebars.tab.c"
     break;
 
-  case 13: /* statement: COMMENT  */
-#line 235 "handlebars.y"
+  case 14: /* statement: COMMENT  */
+#line 240 "handlebars.y"
             {
       // Strip comment strips in place
       unsigned strip = handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string));
@@ -1792,11 +1812,11 @@ yyreduce:
       			handlebars_ast_helper_strip_comment((yyvsp[0].string)), false, &(yyloc));
       handlebars_ast_node_set_strip((yyval.ast_node), strip);
     }
-#line 1796 "handlebars.tab.c"
+#line 1816 "handlebars.tab.c"
     break;
 
-  case 14: /* statement: LONG_COMMENT  */
-#line 242 "handlebars.y"
+  case 15: /* statement: LONG_COMMENT  */
+#line 247 "handlebars.y"
                  {
       // Strip comment strips in place
       unsigned strip = handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string));
@@ -1804,560 +1824,560 @@ yyreduce:
       			handlebars_ast_helper_strip_comment((yyvsp[0].string)), true, &(yyloc));
       handlebars_ast_node_set_strip((yyval.ast_node), strip);
   }
-#line 1808 "handlebars.tab.c"
+#line 1828 "handlebars.tab.c"
     break;
 
-  case 15: /* content: CONTENT content  */
-#line 252 "handlebars.y"
+  case 16: /* content: CONTENT content  */
+#line 257 "handlebars.y"
                     {
       (yyval.string) = handlebars_string_append_str(CONTEXT, (yyvsp[-1].string), (yyvsp[0].string));
       (yyval.string) = talloc_steal(parser, (yyval.string));
     }
-#line 1817 "handlebars.tab.c"
+#line 1837 "handlebars.tab.c"
     break;
 
-  case 16: /* content: CONTENT  */
-#line 256 "handlebars.y"
+  case 17: /* content: CONTENT  */
+#line 261 "handlebars.y"
             {
       (yyval.string) = (yyvsp[0].string);
     }
-#line 1825 "handlebars.tab.c"
+#line 1845 "handlebars.tab.c"
     break;
 
-  case 17: /* raw_block: open_raw_block content END_RAW_BLOCK  */
-#line 262 "handlebars.y"
+  case 18: /* raw_block: open_raw_block content END_RAW_BLOCK  */
+#line 267 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_helper_prepare_raw_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].string), (yyvsp[0].string), &(yyloc));
     }
-#line 1833 "handlebars.tab.c"
+#line 1853 "handlebars.tab.c"
     break;
 
-  case 18: /* raw_block: open_raw_block END_RAW_BLOCK  */
-#line 265 "handlebars.y"
+  case 19: /* raw_block: open_raw_block END_RAW_BLOCK  */
+#line 270 "handlebars.y"
                                    {
       (yyval.ast_node) = handlebars_ast_helper_prepare_raw_block(parser, (yyvsp[-1].ast_node), handlebars_string_ctor(HBSCTX(parser), HBS_STRL("")), (yyvsp[0].string), &(yyloc));
     }
-#line 1841 "handlebars.tab.c"
+#line 1861 "handlebars.tab.c"
     break;
 
-  case 19: /* open_raw_block: "{{{{" intermediate4 "}}}}"  */
-#line 271 "handlebars.y"
+  case 20: /* open_raw_block: "{{{{" intermediate4 "}}}}"  */
+#line 276 "handlebars.y"
                                                  {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
     }
-#line 1849 "handlebars.tab.c"
+#line 1869 "handlebars.tab.c"
     break;
 
-  case 20: /* block: open_block block_intermediate close_block  */
-#line 277 "handlebars.y"
+  case 21: /* block: open_block block_intermediate close_block  */
+#line 282 "handlebars.y"
                                               {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].block_intermediate).program, (yyvsp[-1].block_intermediate).inverse_chain, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 1857 "handlebars.tab.c"
+#line 1877 "handlebars.tab.c"
     break;
 
-  case 21: /* block: open_block close_block  */
-#line 280 "handlebars.y"
+  case 22: /* block: open_block close_block  */
+#line 285 "handlebars.y"
                            {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-1].ast_node), NULL, NULL, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 1865 "handlebars.tab.c"
+#line 1885 "handlebars.tab.c"
     break;
 
-  case 22: /* block: open_inverse block_intermediate close_block  */
-#line 283 "handlebars.y"
+  case 23: /* block: open_inverse block_intermediate close_block  */
+#line 288 "handlebars.y"
                                                 {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].block_intermediate).program, (yyvsp[-1].block_intermediate).inverse_chain, (yyvsp[0].ast_node), 1, &(yyloc));
     }
-#line 1873 "handlebars.tab.c"
+#line 1893 "handlebars.tab.c"
     break;
 
-  case 23: /* block: open_inverse close_block  */
-#line 286 "handlebars.y"
+  case 24: /* block: open_inverse close_block  */
+#line 291 "handlebars.y"
                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-1].ast_node), NULL, NULL, (yyvsp[0].ast_node), 1, &(yyloc));
     }
-#line 1881 "handlebars.tab.c"
+#line 1901 "handlebars.tab.c"
     break;
 
-  case 24: /* block_intermediate: inverse_chain  */
-#line 292 "handlebars.y"
+  case 25: /* block_intermediate: inverse_chain  */
+#line 297 "handlebars.y"
                   {
       (yyval.block_intermediate).program = NULL;
       (yyval.block_intermediate).inverse_chain = (yyvsp[0].ast_node);
     }
-#line 1890 "handlebars.tab.c"
+#line 1910 "handlebars.tab.c"
     break;
 
-  case 25: /* block_intermediate: program inverse_chain  */
-#line 296 "handlebars.y"
+  case 26: /* block_intermediate: program inverse_chain  */
+#line 301 "handlebars.y"
                           {
       (yyval.block_intermediate).program = (yyvsp[-1].ast_node);
       (yyval.block_intermediate).inverse_chain = (yyvsp[0].ast_node);
     }
-#line 1899 "handlebars.tab.c"
+#line 1919 "handlebars.tab.c"
     break;
 
-  case 26: /* block_intermediate: program  */
-#line 300 "handlebars.y"
+  case 27: /* block_intermediate: program  */
+#line 305 "handlebars.y"
             {
       (yyval.block_intermediate).program = (yyvsp[0].ast_node);
       (yyval.block_intermediate).inverse_chain = NULL;
     }
-#line 1908 "handlebars.tab.c"
+#line 1928 "handlebars.tab.c"
     break;
 
-  case 27: /* open_block: "{{#" intermediate4 "}}"  */
-#line 307 "handlebars.y"
+  case 28: /* open_block: "{{#" intermediate4 "}}"  */
+#line 312 "handlebars.y"
                                    {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
       (yyval.ast_node)->node.intermediate.open = talloc_steal((yyval.ast_node), handlebars_string_copy_ctor(CONTEXT, (yyvsp[-2].string)));
     }
-#line 1918 "handlebars.tab.c"
+#line 1938 "handlebars.tab.c"
     break;
 
-  case 28: /* open_inverse: "{{^" intermediate4 "}}"  */
-#line 315 "handlebars.y"
+  case 29: /* open_inverse: "{{^" intermediate4 "}}"  */
+#line 320 "handlebars.y"
                                      {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
     }
-#line 1927 "handlebars.tab.c"
+#line 1947 "handlebars.tab.c"
     break;
 
-  case 29: /* open_inverse_chain: OPEN_INVERSE_CHAIN intermediate4 "}}"  */
-#line 322 "handlebars.y"
+  case 30: /* open_inverse_chain: OPEN_INVERSE_CHAIN intermediate4 "}}"  */
+#line 327 "handlebars.y"
                                            {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
     }
-#line 1936 "handlebars.tab.c"
+#line 1956 "handlebars.tab.c"
     break;
 
-  case 30: /* inverse_chain: open_inverse_chain program inverse_chain  */
-#line 329 "handlebars.y"
+  case 31: /* inverse_chain: open_inverse_chain program inverse_chain  */
+#line 334 "handlebars.y"
                                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_node), (yyvsp[0].ast_node), &(yyloc));
   	}
-#line 1944 "handlebars.tab.c"
+#line 1964 "handlebars.tab.c"
     break;
 
-  case 31: /* inverse_chain: open_inverse_chain inverse_chain  */
-#line 332 "handlebars.y"
+  case 32: /* inverse_chain: open_inverse_chain inverse_chain  */
+#line 337 "handlebars.y"
                                      {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-1].ast_node), NULL, (yyvsp[0].ast_node), &(yyloc));
   	}
-#line 1952 "handlebars.tab.c"
+#line 1972 "handlebars.tab.c"
     break;
 
-  case 32: /* inverse_chain: open_inverse_chain program  */
-#line 335 "handlebars.y"
+  case 33: /* inverse_chain: open_inverse_chain program  */
+#line 340 "handlebars.y"
                                {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-1].ast_node), (yyvsp[0].ast_node), NULL, &(yyloc));
     }
-#line 1960 "handlebars.tab.c"
+#line 1980 "handlebars.tab.c"
     break;
 
-  case 33: /* inverse_chain: open_inverse_chain  */
-#line 338 "handlebars.y"
+  case 34: /* inverse_chain: open_inverse_chain  */
+#line 343 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[0].ast_node), NULL, NULL, &(yyloc));
     }
-#line 1968 "handlebars.tab.c"
+#line 1988 "handlebars.tab.c"
     break;
 
-  case 34: /* inverse_chain: inverse_and_program  */
-#line 341 "handlebars.y"
+  case 35: /* inverse_chain: inverse_and_program  */
+#line 346 "handlebars.y"
                         {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1976 "handlebars.tab.c"
+#line 1996 "handlebars.tab.c"
     break;
 
-  case 35: /* inverse_and_program: INVERSE program  */
-#line 347 "handlebars.y"
+  case 36: /* inverse_and_program: INVERSE program  */
+#line 352 "handlebars.y"
                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_inverse(parser, (yyvsp[0].ast_node), 0,
               handlebars_ast_helper_strip_flags((yyvsp[-1].string), (yyvsp[-1].string)), &(yyloc));
     }
-#line 1985 "handlebars.tab.c"
+#line 2005 "handlebars.tab.c"
     break;
 
-  case 36: /* inverse_and_program: INVERSE  */
-#line 351 "handlebars.y"
+  case 37: /* inverse_and_program: INVERSE  */
+#line 356 "handlebars.y"
             {
       struct handlebars_ast_node * program_node;
       program_node = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PROGRAM);
       (yyval.ast_node) = handlebars_ast_node_ctor_inverse(parser, program_node, 0,
               handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 1996 "handlebars.tab.c"
+#line 2016 "handlebars.tab.c"
     break;
 
-  case 37: /* close_block: OPEN_ENDBLOCK helper_name "}}"  */
-#line 360 "handlebars.y"
+  case 38: /* close_block: OPEN_ENDBLOCK helper_name "}}"  */
+#line 365 "handlebars.y"
                                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2005 "handlebars.tab.c"
+#line 2025 "handlebars.tab.c"
     break;
 
-  case 38: /* mustache: "{{" intermediate3 "}}"  */
-#line 367 "handlebars.y"
+  case 39: /* mustache: "{{" intermediate3 "}}"  */
+#line 372 "handlebars.y"
                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_mustache(parser, (yyvsp[-1].ast_node), (yyvsp[-2].string),
         			handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2014 "handlebars.tab.c"
+#line 2034 "handlebars.tab.c"
     break;
 
-  case 39: /* mustache: "{{{" intermediate3 "}}}"  */
-#line 371 "handlebars.y"
+  case 40: /* mustache: "{{{" intermediate3 "}}}"  */
+#line 376 "handlebars.y"
                                                  {
       (yyval.ast_node) = handlebars_ast_helper_prepare_mustache(parser, (yyvsp[-1].ast_node), (yyvsp[-2].string),
         			handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2023 "handlebars.tab.c"
+#line 2043 "handlebars.tab.c"
     break;
 
-  case 40: /* partial: "{{>" partial_name params hash "}}"  */
-#line 378 "handlebars.y"
+  case 41: /* partial: "{{>" partial_name params hash "}}"  */
+#line 383 "handlebars.y"
                                                 {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-3].ast_node), (yyvsp[-2].ast_list), (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-4].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2032 "handlebars.tab.c"
+#line 2052 "handlebars.tab.c"
     break;
 
-  case 41: /* partial: "{{>" partial_name params "}}"  */
-#line 382 "handlebars.y"
+  case 42: /* partial: "{{>" partial_name params "}}"  */
+#line 387 "handlebars.y"
                                            {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2041 "handlebars.tab.c"
+#line 2061 "handlebars.tab.c"
     break;
 
-  case 42: /* partial: "{{>" partial_name hash "}}"  */
-#line 386 "handlebars.y"
+  case 43: /* partial: "{{>" partial_name hash "}}"  */
+#line 391 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-2].ast_node), NULL, (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2050 "handlebars.tab.c"
+#line 2070 "handlebars.tab.c"
     break;
 
-  case 43: /* partial: "{{>" partial_name "}}"  */
-#line 390 "handlebars.y"
+  case 44: /* partial: "{{>" partial_name "}}"  */
+#line 395 "handlebars.y"
                                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2059 "handlebars.tab.c"
+#line 2079 "handlebars.tab.c"
     break;
 
-  case 44: /* partial_block: open_partial_block program close_block  */
-#line 397 "handlebars.y"
+  case 45: /* partial_block: open_partial_block program close_block  */
+#line 402 "handlebars.y"
                                            {
       (yyval.ast_node) = handlebars_ast_helper_prepare_partial_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_node), (yyvsp[0].ast_node), &(yyloc));
   }
-#line 2067 "handlebars.tab.c"
+#line 2087 "handlebars.tab.c"
     break;
 
-  case 45: /* partial_block: open_partial_block close_block  */
-#line 400 "handlebars.y"
+  case 46: /* partial_block: open_partial_block close_block  */
+#line 405 "handlebars.y"
                                    {
       struct handlebars_ast_node * program = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PROGRAM);
       (yyval.ast_node) = handlebars_ast_helper_prepare_partial_block(parser, (yyvsp[-1].ast_node), program, (yyvsp[0].ast_node), &(yyloc));
   }
-#line 2076 "handlebars.tab.c"
+#line 2096 "handlebars.tab.c"
     break;
 
-  case 46: /* open_partial_block: "{{#>" partial_name params hash "}}"  */
-#line 406 "handlebars.y"
+  case 47: /* open_partial_block: "{{#>" partial_name params hash "}}"  */
+#line 411 "handlebars.y"
                                                       {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-3].ast_node), (yyvsp[-2].ast_list), (yyvsp[-1].ast_node),
       			handlebars_ast_helper_strip_flags((yyvsp[-4].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2085 "handlebars.tab.c"
+#line 2105 "handlebars.tab.c"
     break;
 
-  case 47: /* open_partial_block: "{{#>" partial_name params "}}"  */
-#line 410 "handlebars.y"
+  case 48: /* open_partial_block: "{{#>" partial_name params "}}"  */
+#line 415 "handlebars.y"
                                                  {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), NULL,
       			handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2094 "handlebars.tab.c"
+#line 2114 "handlebars.tab.c"
     break;
 
-  case 48: /* open_partial_block: "{{#>" partial_name hash "}}"  */
-#line 414 "handlebars.y"
+  case 49: /* open_partial_block: "{{#>" partial_name hash "}}"  */
+#line 419 "handlebars.y"
                                                {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), NULL, (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2103 "handlebars.tab.c"
+#line 2123 "handlebars.tab.c"
     break;
 
-  case 49: /* open_partial_block: "{{#>" partial_name "}}"  */
-#line 418 "handlebars.y"
+  case 50: /* open_partial_block: "{{#>" partial_name "}}"  */
+#line 423 "handlebars.y"
                                           {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2112 "handlebars.tab.c"
+#line 2132 "handlebars.tab.c"
     break;
 
-  case 50: /* params: param  */
-#line 425 "handlebars.y"
+  case 51: /* params: param  */
+#line 430 "handlebars.y"
           {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 2121 "handlebars.tab.c"
+#line 2141 "handlebars.tab.c"
     break;
 
-  case 51: /* params: params param  */
-#line 429 "handlebars.y"
+  case 52: /* params: params param  */
+#line 434 "handlebars.y"
                  {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 2130 "handlebars.tab.c"
+#line 2150 "handlebars.tab.c"
     break;
 
-  case 52: /* param: helper_name  */
-#line 436 "handlebars.y"
+  case 53: /* param: helper_name  */
+#line 441 "handlebars.y"
                 {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2138 "handlebars.tab.c"
+#line 2158 "handlebars.tab.c"
     break;
 
-  case 53: /* param: sexpr  */
-#line 439 "handlebars.y"
+  case 54: /* param: sexpr  */
+#line 444 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2146 "handlebars.tab.c"
+#line 2166 "handlebars.tab.c"
     break;
 
-  case 54: /* sexpr: "(" intermediate3 ")"  */
-#line 445 "handlebars.y"
+  case 55: /* sexpr: "(" intermediate3 ")"  */
+#line 450 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_node_ctor_sexpr(parser, (yyvsp[-1].ast_node), &(yyloc));
     }
-#line 2154 "handlebars.tab.c"
+#line 2174 "handlebars.tab.c"
     break;
 
-  case 55: /* intermediate4: intermediate3 block_params  */
-#line 451 "handlebars.y"
+  case 56: /* intermediate4: intermediate3 block_params  */
+#line 456 "handlebars.y"
                                {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       (yyval.ast_node)->node.intermediate.block_param1 = (yyvsp[0].block_params).block_param1;
       (yyval.ast_node)->node.intermediate.block_param2 = (yyvsp[0].block_params).block_param2;
     }
-#line 2164 "handlebars.tab.c"
+#line 2184 "handlebars.tab.c"
     break;
 
-  case 57: /* intermediate3: helper_name params hash  */
-#line 460 "handlebars.y"
+  case 58: /* intermediate3: helper_name params hash  */
+#line 465 "handlebars.y"
                             {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 2172 "handlebars.tab.c"
+#line 2192 "handlebars.tab.c"
     break;
 
-  case 58: /* intermediate3: helper_name hash  */
-#line 463 "handlebars.y"
+  case 59: /* intermediate3: helper_name hash  */
+#line 468 "handlebars.y"
                      {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 2180 "handlebars.tab.c"
+#line 2200 "handlebars.tab.c"
     break;
 
-  case 59: /* intermediate3: helper_name params  */
-#line 466 "handlebars.y"
+  case 60: /* intermediate3: helper_name params  */
+#line 471 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), (yyvsp[0].ast_list), NULL, 0, &(yyloc));
     }
-#line 2188 "handlebars.tab.c"
+#line 2208 "handlebars.tab.c"
     break;
 
-  case 60: /* intermediate3: helper_name  */
-#line 469 "handlebars.y"
+  case 61: /* intermediate3: helper_name  */
+#line 474 "handlebars.y"
                 {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[0].ast_node), NULL, NULL, 0, &(yyloc));
     }
-#line 2196 "handlebars.tab.c"
+#line 2216 "handlebars.tab.c"
     break;
 
-  case 61: /* hash: hash_pairs  */
-#line 475 "handlebars.y"
+  case 62: /* hash: hash_pairs  */
+#line 480 "handlebars.y"
                {
       struct handlebars_ast_node * ast_node = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_HASH);
       ast_node->node.hash.pairs = (yyvsp[0].ast_list);
       (yyval.ast_node) = ast_node;
     }
-#line 2206 "handlebars.tab.c"
+#line 2226 "handlebars.tab.c"
     break;
 
-  case 62: /* hash_pairs: hash_pairs hash_pair  */
-#line 483 "handlebars.y"
+  case 63: /* hash_pairs: hash_pairs hash_pair  */
+#line 488 "handlebars.y"
                          {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 2215 "handlebars.tab.c"
+#line 2235 "handlebars.tab.c"
     break;
 
-  case 63: /* hash_pairs: hash_pair  */
-#line 487 "handlebars.y"
+  case 64: /* hash_pairs: hash_pair  */
+#line 492 "handlebars.y"
               {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 2224 "handlebars.tab.c"
+#line 2244 "handlebars.tab.c"
     break;
 
-  case 64: /* hash_pair: ID "=" param  */
-#line 494 "handlebars.y"
+  case 65: /* hash_pair: ID "=" param  */
+#line 499 "handlebars.y"
                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_hash_pair(parser, (yyvsp[-2].string), (yyvsp[0].ast_node), &(yyloc));
     }
-#line 2232 "handlebars.tab.c"
+#line 2252 "handlebars.tab.c"
     break;
 
-  case 65: /* block_params: OPEN_BLOCK_PARAMS ID ID CLOSE_BLOCK_PARAMS  */
-#line 500 "handlebars.y"
+  case 66: /* block_params: OPEN_BLOCK_PARAMS ID ID CLOSE_BLOCK_PARAMS  */
+#line 505 "handlebars.y"
                                                {
       (yyval.block_params).block_param1 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-2].string));
       (yyval.block_params).block_param2 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-1].string));
     }
-#line 2241 "handlebars.tab.c"
+#line 2261 "handlebars.tab.c"
     break;
 
-  case 66: /* block_params: OPEN_BLOCK_PARAMS ID CLOSE_BLOCK_PARAMS  */
-#line 504 "handlebars.y"
+  case 67: /* block_params: OPEN_BLOCK_PARAMS ID CLOSE_BLOCK_PARAMS  */
+#line 509 "handlebars.y"
                                             {
       (yyval.block_params).block_param1 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-1].string));
       (yyval.block_params).block_param2 = NULL;
     }
-#line 2250 "handlebars.tab.c"
+#line 2270 "handlebars.tab.c"
     break;
 
-  case 67: /* helper_name: path  */
-#line 511 "handlebars.y"
+  case 68: /* helper_name: path  */
+#line 516 "handlebars.y"
          {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2258 "handlebars.tab.c"
+#line 2278 "handlebars.tab.c"
     break;
 
-  case 68: /* helper_name: data_name  */
-#line 514 "handlebars.y"
+  case 69: /* helper_name: data_name  */
+#line 519 "handlebars.y"
               {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2266 "handlebars.tab.c"
+#line 2286 "handlebars.tab.c"
     break;
 
-  case 69: /* helper_name: STRING  */
-#line 517 "handlebars.y"
+  case 70: /* helper_name: STRING  */
+#line 522 "handlebars.y"
            {
       (yyval.ast_node) = handlebars_ast_node_ctor_string(parser, (yyvsp[0].string), false, &(yyloc));
     }
-#line 2274 "handlebars.tab.c"
+#line 2294 "handlebars.tab.c"
     break;
 
-  case 70: /* helper_name: SINGLE_STRING  */
-#line 520 "handlebars.y"
+  case 71: /* helper_name: SINGLE_STRING  */
+#line 525 "handlebars.y"
                   {
       (yyval.ast_node) = handlebars_ast_node_ctor_string(parser, (yyvsp[0].string), true, &(yyloc));
   }
-#line 2282 "handlebars.tab.c"
+#line 2302 "handlebars.tab.c"
     break;
 
-  case 71: /* helper_name: NUMBER  */
-#line 523 "handlebars.y"
+  case 72: /* helper_name: NUMBER  */
+#line 528 "handlebars.y"
            {
       (yyval.ast_node) = handlebars_ast_node_ctor_number(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2290 "handlebars.tab.c"
+#line 2310 "handlebars.tab.c"
     break;
 
-  case 72: /* helper_name: BOOLEAN  */
-#line 526 "handlebars.y"
+  case 73: /* helper_name: BOOLEAN  */
+#line 531 "handlebars.y"
             {
       (yyval.ast_node) = handlebars_ast_node_ctor_boolean(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2298 "handlebars.tab.c"
+#line 2318 "handlebars.tab.c"
     break;
 
-  case 73: /* helper_name: "undefined"  */
-#line 529 "handlebars.y"
+  case 74: /* helper_name: "undefined"  */
+#line 534 "handlebars.y"
               {
       (yyval.ast_node) = handlebars_ast_node_ctor_undefined(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2306 "handlebars.tab.c"
+#line 2326 "handlebars.tab.c"
     break;
 
-  case 74: /* helper_name: "NULL"  */
-#line 532 "handlebars.y"
+  case 75: /* helper_name: "NULL"  */
+#line 537 "handlebars.y"
         {
       (yyval.ast_node) = handlebars_ast_node_ctor_null(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2314 "handlebars.tab.c"
+#line 2334 "handlebars.tab.c"
     break;
 
-  case 75: /* partial_name: helper_name  */
-#line 538 "handlebars.y"
+  case 76: /* partial_name: helper_name  */
+#line 543 "handlebars.y"
                 {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2322 "handlebars.tab.c"
+#line 2342 "handlebars.tab.c"
     break;
 
-  case 76: /* partial_name: sexpr  */
-#line 541 "handlebars.y"
+  case 77: /* partial_name: sexpr  */
+#line 546 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2330 "handlebars.tab.c"
+#line 2350 "handlebars.tab.c"
     break;
 
-  case 77: /* data_name: DATA path_segments  */
-#line 547 "handlebars.y"
+  case 78: /* data_name: DATA path_segments  */
+#line 552 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_helper_prepare_path(parser, (yyvsp[0].ast_list), 1, &(yyloc));
     }
-#line 2338 "handlebars.tab.c"
+#line 2358 "handlebars.tab.c"
     break;
 
-  case 78: /* path: path_segments  */
-#line 553 "handlebars.y"
+  case 79: /* path: path_segments  */
+#line 558 "handlebars.y"
                   {
       (yyval.ast_node) = handlebars_ast_helper_prepare_path(parser, (yyvsp[0].ast_list), 0, &(yyloc));
     }
-#line 2346 "handlebars.tab.c"
+#line 2366 "handlebars.tab.c"
     break;
 
-  case 79: /* path_segments: path_segments SEP ID  */
-#line 559 "handlebars.y"
+  case 80: /* path_segments: path_segments SEP ID  */
+#line 564 "handlebars.y"
                          {
       struct handlebars_ast_node * ast_node = handlebars_ast_node_ctor_path_segment(parser, (yyvsp[0].string), (yyvsp[-1].string), &(yyloc));
 
       handlebars_ast_list_append((yyvsp[-2].ast_list), ast_node);
       (yyval.ast_list) = (yyvsp[-2].ast_list);
     }
-#line 2357 "handlebars.tab.c"
+#line 2377 "handlebars.tab.c"
     break;
 
-  case 80: /* path_segments: ID  */
-#line 565 "handlebars.y"
+  case 81: /* path_segments: ID  */
+#line 570 "handlebars.y"
        {
       struct handlebars_ast_node * ast_node;
       MEMCHK((yyvsp[0].string)); // this is weird
@@ -2368,11 +2388,11 @@ yyreduce:
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), ast_node);
     }
-#line 2372 "handlebars.tab.c"
+#line 2392 "handlebars.tab.c"
     break;
 
 
-#line 2376 "handlebars.tab.c"
+#line 2396 "handlebars.tab.c"
 
       default: break;
     }
diff --git a/src/handlebars.y b/src/handlebars.y
index bcdc392..f4c3aec 100644
--- a/src/handlebars.y
+++ b/src/handlebars.y
@@ -190,6 +190,11 @@ start :
       handlebars_whitespace_accept(parser, parser->program);
       return 1;
     }
+  | END {
+      // An empty template
+      parser->program = handlebars_ast_node_ctor_program(parser, handlebars_ast_list_ctor(CONTEXT), NULL, NULL, 0, 0, &@$);
+      return 1;
+    }
   ;
 
 program :
-- 
2.43.0


From d95593c84577e781ac8150ba30ccdd663be81478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:36 +0000
Subject: [PATCH 035/110] fix: a call with more than four hash arguments used a
 freed map

---
 src/handlebars_vm.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 67ef6b8..792bac9 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -616,9 +616,8 @@ ACCEPT_FUNCTION(assign_to_hash)
     assert(opcode->op1.type == handlebars_operand_type_string);
     assert(handlebars_value_get_type(hash) == HANDLEBARS_VALUE_TYPE_MAP);
 
-    struct handlebars_map * map = handlebars_value_get_map(hash);
-    map = handlebars_map_update(map, opcode->op1.data.string.string, value);
-    handlebars_value_map(hash, map);
+    // The map may be replaced when it grows, in which case the value has to give up the old one
+    handlebars_value_map_update(hash, opcode->op1.data.string.string, value);
 
     PUSH(vm->hashStack, hash);
 
-- 
2.43.0


From 2993401e1a58bae366ad2bc82850157d750b0b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:36 +0000
Subject: [PATCH 036/110] fix: with explicit partial context a dynamic partial
 lost its name

---
 src/handlebars_compiler.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 9d84626..d1d5f54 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -835,7 +835,15 @@ static inline void _handlebars_compiler_accept_partial(
             &node->loc,
             "Unsupported number of partial arguments"
         );
-    } else if( !params || !handlebars_ast_list_count(params) ) {
+    }
+
+    // The name goes on the stack before the context
+    if( name->type == HANDLEBARS_AST_NODE_SEXPR ) {
+    	is_dynamic = true;
+    	handlebars_compiler_accept(compiler, name);
+    }
+
+    if( !params || !handlebars_ast_list_count(params) ) {
     	if( compiler->flags & handlebars_compiler_flag_explicit_partial_context ) {
             struct handlebars_opcode * opcode = handlebars_opcode_ctor(CONTEXT, handlebars_opcode_type_push_literal);
             handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op1, handlebars_string_ctor(CONTEXT, HBS_STRL("undefined")));
@@ -855,14 +863,6 @@ static inline void _handlebars_compiler_accept_partial(
     	}
     }
 
-    if( name->type == HANDLEBARS_AST_NODE_SEXPR ) {
-    	is_dynamic = true;
-    }
-
-    if( is_dynamic ) {
-    	handlebars_compiler_accept(compiler, name);
-    }
-
     programGuid = handlebars_compiler_compile_program(compiler, program);
 
     handlebars_compiler_setup_full_mustache_params(compiler, node, programGuid, -1, 1);
-- 
2.43.0


From f327baf8c2f52dce2987980827393bb2955222d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:14 +0000
Subject: [PATCH 037/110] fix: lines and columns of errors count every
 character once

---
 src/handlebars.l     |  26 +++++-
 src/handlebars.lex.c | 198 ++++++++++++++++++-------------------------
 src/handlebars.lex.h |   8 +-
 3 files changed, 110 insertions(+), 122 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index b23c252..2cd71c2 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -79,17 +79,36 @@
 		for ( i = yyleng - 1; i >= yyleng - n && i >= 0; --i ) { \
 			unput( yycopy[i] ); \
 		} \
+		/* The location also goes back to in front of what was put back */ \
+		yylineno = yylloc->first_line; \
+		yycolumn = yylloc->first_column; \
+		handlebars_yy_advance(yycopy, i + 1); \
 		handlebars_talloc_free(yycopy); \
     } while(0)
 
 #define handlebars_yy_copy_lval() \
     yylval->string = handlebars_string_ctor(HBSCTX(yyextra), yytext, yyleng);
 
+// Moves the current location past the given text, the last location becomes that of its last character
+#define handlebars_yy_advance(text, len) \
+	do { \
+		int yypos; \
+		for ( yypos = 0; yypos < (int) (len); ++yypos ) { \
+			yylloc->last_line = yylineno; \
+			yylloc->last_column = yycolumn; \
+			if ( (text)[yypos] == '\n' ) { \
+				yylineno++; \
+				yycolumn = 0; \
+			} else { \
+				yycolumn++; \
+			} \
+		} \
+	} while(0)
+
 #define YY_USER_ACTION \
     yylloc->first_line = yylloc->last_line = yylineno; \
-    yylloc->first_column = yycolumn; \
-    yylloc->last_column = yycolumn + yyleng - 1; \
-    yycolumn += yyleng; \
+    yylloc->first_column = yylloc->last_column = yycolumn; \
+    handlebars_yy_advance(yytext, yyleng); \
    	YY_USER_DEBUG_ACTION;
 %}
 
@@ -100,7 +119,6 @@
 %option reentrant
 %option bison-bridge
 %option bison-locations
-%option yylineno
 %option warn
 %option 8bit
 %option noyyalloc
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index e18ac8c..e7fd72d 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -1,6 +1,6 @@
-#line 1 "handlebars.lex.c"
+#line 2 "handlebars.lex.c"
 
-#line 3 "handlebars.lex.c"
+#line 4 "handlebars.lex.c"
 
 #define  YY_INT_ALIGNED long int
 
@@ -410,27 +410,8 @@ typedef size_t yy_size_t;
 #define EOB_ACT_END_OF_FILE 1
 #define EOB_ACT_LAST_MATCH 2
     
-    /* Note: We specifically omit the test for yy_rule_can_match_eol because it requires
-     *       access to the local variable yy_act. Since yyless() is a macro, it would break
-     *       existing scanners that call yyless() from OUTSIDE yylex.
-     *       One obvious solution it to make yy_act a global. I tried that, and saw
-     *       a 5% performance hit in a non-yylineno scanner, because yy_act is
-     *       normally declared as a register variable-- so it is not worth it.
-     */
-    #define  YY_LESS_LINENO(n) \
-            do { \
-                int yyl;\
-                for ( yyl = n; yyl < yyleng; ++yyl )\
-                    if ( yytext[yyl] == '\n' )\
-                        --yylineno;\
-            }while(0)
-    #define YY_LINENO_REWIND_TO(dst) \
-            do {\
-                const char *p;\
-                for ( p = yy_cp-1; p >= (dst); --p)\
-                    if ( *p == '\n' )\
-                        --yylineno;\
-            }while(0)
+    #define YY_LESS_LINENO(n)
+    #define YY_LINENO_REWIND_TO(ptr)
     
 /* Return all but the first "n" matched characters back to the input stream. */
 #define yyless(n) \
@@ -4994,13 +4975,6 @@ static const struct yy_trans_info *yy_start_state_list[13] =
 
     } ;
 
-/* Table of booleans, true if rule could match eol. */
-static const flex_int32_t yy_rule_can_match_eol[52] =
-    {   0,
-1, 1, 0, 1, 0, 0, 0, 1, 0, 1, 0, 1, 1, 0, 0, 0, 0, 0, 0, 
-    0, 0, 0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1, 1, 
-    0, 1, 0, 1, 1, 1, 1, 1, 1, 1, 0, 0,     };
-
 /* The intent behind this definition is that it'll catch
  * any uses of REJECT which flex missed.
  */
@@ -5089,21 +5063,40 @@ static const flex_int32_t yy_rule_can_match_eol[52] =
 		for ( i = yyleng - 1; i >= yyleng - n && i >= 0; --i ) { \
 			unput( yycopy[i] ); \
 		} \
+		/* The location also goes back to in front of what was put back */ \
+		yylineno = yylloc->first_line; \
+		yycolumn = yylloc->first_column; \
+		handlebars_yy_advance(yycopy, i + 1); \
 		handlebars_talloc_free(yycopy); \
     } while(0)
 
 #define handlebars_yy_copy_lval() \
     yylval->string = handlebars_string_ctor(HBSCTX(yyextra), yytext, yyleng);
 
+// Moves the current location past the given text, the last location becomes that of its last character
+#define handlebars_yy_advance(text, len) \
+	do { \
+		int yypos; \
+		for ( yypos = 0; yypos < (int) (len); ++yypos ) { \
+			yylloc->last_line = yylineno; \
+			yylloc->last_column = yycolumn; \
+			if ( (text)[yypos] == '\n' ) { \
+				yylineno++; \
+				yycolumn = 0; \
+			} else { \
+				yycolumn++; \
+			} \
+		} \
+	} while(0)
+
 #define YY_USER_ACTION \
     yylloc->first_line = yylloc->last_line = yylineno; \
-    yylloc->first_column = yycolumn; \
-    yylloc->last_column = yycolumn + yyleng - 1; \
-    yycolumn += yyleng; \
+    yylloc->first_column = yylloc->last_column = yycolumn; \
+    handlebars_yy_advance(yytext, yyleng); \
    	YY_USER_DEBUG_ACTION;
-#line 5104 "handlebars.lex.c"
+#line 5098 "handlebars.lex.c"
 
-#line 5106 "handlebars.lex.c"
+#line 5100 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5382,11 +5375,11 @@ YY_DECL
 		}
 
 	{
-#line 137 "handlebars.l"
+#line 155 "handlebars.l"
 
 
 
-#line 5389 "handlebars.lex.c"
+#line 5383 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5427,18 +5420,6 @@ yy_find_action:
 
 		YY_DO_BEFORE_ACTION;
 
-		if ( yy_act != YY_END_OF_BUFFER && yy_rule_can_match_eol[yy_act] )
-			{
-			int yyl;
-			for ( yyl = 0; yyl < yyleng; ++yyl )
-				if ( yytext[yyl] == '\n' )
-					
-    do{ yylineno++;
-        yycolumn=0;
-    }while(0)
-;
-			}
-
 do_action:	/* This label is used only to access EOF actions. */
 
 		switch ( yy_act )
@@ -5453,7 +5434,7 @@ do_action:	/* This label is used only to access EOF actions. */
 case 1:
 /* rule 1 can match eol */
 YY_RULE_SETUP
-#line 140 "handlebars.l"
+#line 158 "handlebars.l"
 {
 										int n = yytext[yyleng - 3] == '{' ? 3 : 2;
 										handlebars_yy_unput_n(n);
@@ -5466,7 +5447,7 @@ YY_RULE_SETUP
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 149 "handlebars.l"
+#line 167 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 31
 										handlebars_yy_copy_lval();
@@ -5475,7 +5456,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 155 "handlebars.l"
+#line 173 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 32
 										handlebars_yy_unput_n(2);
@@ -5490,7 +5471,7 @@ YY_RULE_SETUP
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 166 "handlebars.l"
+#line 184 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 35
 										yy_push_state(emu, yyscanner);
@@ -5501,7 +5482,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 174 "handlebars.l"
+#line 192 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 38
 										handlebars_yy_unput_all;
@@ -5510,7 +5491,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 180 "handlebars.l"
+#line 198 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5518,7 +5499,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 185 "handlebars.l"
+#line 203 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 47
 										handlebars_yy_unput_all;
@@ -5532,7 +5513,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 191 "handlebars.l"
+#line 209 "handlebars.l"
 {
                                   		yy_push_state(raw, yyscanner);
 										handlebars_yy_copy_lval();
@@ -5541,7 +5522,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 197 "handlebars.l"
+#line 215 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 54
 
@@ -5559,7 +5540,7 @@ YY_RULE_SETUP
 case 10:
 /* rule 10 can match eol */
 YY_RULE_SETUP
-#line 211 "handlebars.l"
+#line 229 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 57
 										handlebars_yy_copy_lval();
@@ -5568,7 +5549,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 217 "handlebars.l"
+#line 235 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5577,7 +5558,7 @@ YY_RULE_SETUP
 case 12:
 /* rule 12 can match eol */
 YY_RULE_SETUP
-#line 222 "handlebars.l"
+#line 240 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
@@ -5590,7 +5571,7 @@ YY_RULE_SETUP
 case 13:
 /* rule 13 can match eol */
 YY_RULE_SETUP
-#line 231 "handlebars.l"
+#line 249 "handlebars.l"
 {
   										//yytext[yyleng -= 2] = 0;
   										yy_pop_state(yyg);
@@ -5600,7 +5581,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 238 "handlebars.l"
+#line 256 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
@@ -5609,7 +5590,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 244 "handlebars.l"
+#line 262 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
@@ -5618,7 +5599,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 250 "handlebars.l"
+#line 268 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 64
 										handlebars_yy_copy_lval();
@@ -5627,7 +5608,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 256 "handlebars.l"
+#line 274 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -5638,7 +5619,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 264 "handlebars.l"
+#line 282 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
@@ -5647,7 +5628,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 270 "handlebars.l"
+#line 288 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -5656,7 +5637,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 276 "handlebars.l"
+#line 294 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
@@ -5665,7 +5646,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 282 "handlebars.l"
+#line 300 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
@@ -5674,7 +5655,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 288 "handlebars.l"
+#line 306 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -5685,7 +5666,7 @@ YY_RULE_SETUP
 case 23:
 /* rule 23 can match eol */
 YY_RULE_SETUP
-#line 295 "handlebars.l"
+#line 313 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -5695,7 +5676,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 302 "handlebars.l"
+#line 320 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
@@ -5704,7 +5685,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 308 "handlebars.l"
+#line 326 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
@@ -5713,7 +5694,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 314 "handlebars.l"
+#line 332 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
@@ -5722,7 +5703,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 320 "handlebars.l"
+#line 338 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
@@ -5731,7 +5712,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 326 "handlebars.l"
+#line 344 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -5741,7 +5722,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 333 "handlebars.l"
+#line 351 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -5751,7 +5732,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 340 "handlebars.l"
+#line 358 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
@@ -5760,7 +5741,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 346 "handlebars.l"
+#line 364 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -5769,7 +5750,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 352 "handlebars.l"
+#line 370 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
@@ -5783,7 +5764,7 @@ YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 358 "handlebars.l"
+#line 376 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
@@ -5792,7 +5773,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 364 "handlebars.l"
+#line 382 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
@@ -5802,7 +5783,7 @@ YY_RULE_SETUP
 case 35:
 /* rule 35 can match eol */
 YY_RULE_SETUP
-#line 370 "handlebars.l"
+#line 388 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
@@ -5810,7 +5791,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 375 "handlebars.l"
+#line 393 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -5820,7 +5801,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 382 "handlebars.l"
+#line 400 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -5831,7 +5812,7 @@ YY_RULE_SETUP
 case 38:
 /* rule 38 can match eol */
 YY_RULE_SETUP
-#line 389 "handlebars.l"
+#line 407 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -5844,7 +5825,7 @@ YY_RULE_SETUP
 case 39:
 /* rule 39 can match eol */
 YY_RULE_SETUP
-#line 398 "handlebars.l"
+#line 416 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -5856,7 +5837,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 407 "handlebars.l"
+#line 425 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
@@ -5866,7 +5847,7 @@ YY_RULE_SETUP
 case 41:
 /* rule 41 can match eol */
 YY_RULE_SETUP
-#line 413 "handlebars.l"
+#line 431 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
@@ -5875,7 +5856,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 419 "handlebars.l"
+#line 437 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
@@ -5889,7 +5870,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 425 "handlebars.l"
+#line 443 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
@@ -5903,7 +5884,7 @@ YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 431 "handlebars.l"
+#line 449 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
@@ -5917,7 +5898,7 @@ YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 437 "handlebars.l"
+#line 455 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
@@ -5931,7 +5912,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 443 "handlebars.l"
+#line 461 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
@@ -5945,7 +5926,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 449 "handlebars.l"
+#line 467 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
@@ -5959,7 +5940,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 456 "handlebars.l"
+#line 474 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
@@ -5969,7 +5950,7 @@ YY_RULE_SETUP
 case 49:
 /* rule 49 can match eol */
 YY_RULE_SETUP
-#line 462 "handlebars.l"
+#line 480 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -5982,7 +5963,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 472 "handlebars.l"
+#line 490 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -5995,7 +5976,7 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 478 "handlebars.l"
+#line 496 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
@@ -6003,10 +5984,10 @@ case YY_STATE_EOF(raw):
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 483 "handlebars.l"
+#line 501 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6009 "handlebars.lex.c"
+#line 5991 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -6371,10 +6352,6 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 
 	*--yy_cp = (char) c;
 
-    if ( c == '\n' ){
-        --yylineno;
-    }
-
 	yyg->yytext_ptr = yy_bp;
 	yyg->yy_hold_char = *yy_cp;
 	yyg->yy_c_buf_p = yy_cp;
@@ -6453,13 +6430,6 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	*yyg->yy_c_buf_p = '\0';	/* preserve yytext */
 	yyg->yy_hold_char = *++yyg->yy_c_buf_p;
 
-	if ( c == '\n' )
-		
-    do{ yylineno++;
-        yycolumn=0;
-    }while(0)
-;
-
 	return c;
 }
 #endif	/* ifndef YY_NO_INPUT */
@@ -7214,6 +7184,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 483 "handlebars.l"
+#line 501 "handlebars.l"
 
 
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index e85c698..5f49ef8 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -2,9 +2,9 @@
 #define handlebars_yy_HEADER_H 1
 #define handlebars_yy_IN_HEADER 1
 
-#line 5 "handlebars.lex.h"
+#line 6 "handlebars.lex.h"
 
-#line 7 "handlebars.lex.h"
+#line 8 "handlebars.lex.h"
 
 #define  YY_INT_ALIGNED long int
 
@@ -733,9 +733,9 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 483 "handlebars.l"
+#line 501 "handlebars.l"
 
 
-#line 739 "handlebars.lex.h"
+#line 740 "handlebars.lex.h"
 #undef handlebars_yy_IN_HEADER
 #endif /* handlebars_yy_HEADER_H */
-- 
2.43.0


From 2e82cae299aa9cfe62ab7f111e6e069ce831a4e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:42 +0000
Subject: [PATCH 038/110] fix: nested partial blocks doubled the stack of block
 params each time

---
 src/handlebars_vm.c         | 25 +++++++++++++++++++------
 src/handlebars_vm_private.h |  2 ++
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 792bac9..28e59d2 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -443,21 +443,25 @@ done:
 HANDLEBARS_CLOSURE_ATTRS
 static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE_ARGS)
 {
-    assert(localc >= 4);
+    assert(localc >= 5);
     assert(HANDLEBARS_LOCAL_AT(0)->type == HANDLEBARS_VALUE_TYPE_PTR);
     assert(HANDLEBARS_LOCAL_AT(1)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
     assert(HANDLEBARS_LOCAL_AT(2)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
     assert(HANDLEBARS_LOCAL_AT(3)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
+    assert(HANDLEBARS_LOCAL_AT(4)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
 
     struct handlebars_module * module = handlebars_value_get_ptr(HANDLEBARS_LOCAL_AT(0), struct handlebars_module);
     long program = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(1));
     long partial_block_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(2));
-    long block_param_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(3));
+    long block_param_base = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(3));
+    long block_param_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(4));
+    size_t prev_block_param_base = vm->blockParamBase;
     struct handlebars_stack_save_buf bst = handlebars_stack_save(vm->blockParamStack);
     long i;
 
-    // Bring the block params the partial block was defined with back to the top
-    for (i = 0; i < block_param_depth; i++) {
+    // Bring the block params the partial block was defined with back to the top, but not those of its callers
+    vm->blockParamBase = LEN(vm->blockParamStack);
+    for (i = block_param_base; i < block_param_depth; i++) {
         PUSH(vm->blockParamStack, handlebars_stack_get(vm->blockParamStack, i));
     }
 
@@ -482,6 +486,7 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
     }
 
     handlebars_stack_restore(vm->blockParamStack, bst);
+    vm->blockParamBase = prev_block_param_base;
 
     // Pop partial block
     HANDLEBARS_VALUE_DECL(closure_value);
@@ -853,12 +858,13 @@ ACCEPT_FUNCTION(invoke_partial)
 
     // Push partial block
     if (options.program > 0) {
-        const int closure_localc = 4;
+        const int closure_localc = 5;
         HANDLEBARS_VALUE_ARRAY_DECL(closure_localv, closure_localc);
         handlebars_value_ptr(&closure_localv[0], handlebars_ptr_ctor(CONTEXT, struct handlebars_module, vm->module, true));
         handlebars_value_integer(&closure_localv[1], options.program);
         handlebars_value_integer(&closure_localv[2], LEN(vm->partialBlockStack));
-        handlebars_value_integer(&closure_localv[3], LEN(vm->blockParamStack));
+        handlebars_value_integer(&closure_localv[3], vm->blockParamBase);
+        handlebars_value_integer(&closure_localv[4], LEN(vm->blockParamStack));
         handlebars_value_closure(partial_block, handlebars_closure_ctor(vm, invoke_partial_block_closure, closure_localc, closure_localv));
         pushed_partial_block = true;
         PUSH(vm->partialBlockStack, partial_block);
@@ -1463,6 +1469,7 @@ struct handlebars_string * handlebars_vm_execute_ex(
     struct handlebars_value * prev_last_context = vm->last_context;
     struct handlebars_string * prev_delim_open = vm->delim_open;
     struct handlebars_string * prev_delim_close = vm->delim_close;
+    size_t prev_block_param_base = vm->blockParamBase;
     bool const setup_stacks = vm->stack == NULL;
     struct handlebars_stack_save_buf st = {0};
     struct handlebars_stack_save_buf hst = {0};
@@ -1506,6 +1513,11 @@ struct handlebars_string * handlebars_vm_execute_ex(
     vm->module = module;
     vm->flags |= module->flags;
 
+    // A template does not see the block params of the one that includes it
+    if (setup_stacks || program == 0) {
+        vm->blockParamBase = LEN(vm->blockParamStack);
+    }
+
     // Execute
     buffer = handlebars_vm_execute_program_ex(vm, program, context, data, block_params);
 
@@ -1530,6 +1542,7 @@ done:
     // Reset
     vm->delim_open = prev_delim_open;
     vm->delim_close = prev_delim_close;
+    vm->blockParamBase = prev_block_param_base;
     vm->last_context = prev_last_context;
     vm->module = prev_module;
     vm->flags = prev_flags;
diff --git a/src/handlebars_vm_private.h b/src/handlebars_vm_private.h
index 7f3ab97..c5e369c 100644
--- a/src/handlebars_vm_private.h
+++ b/src/handlebars_vm_private.h
@@ -51,6 +51,8 @@ struct handlebars_vm {
     struct handlebars_stack * contextStack;
     struct handlebars_stack * hashStack;
     struct handlebars_stack * blockParamStack;
+    //! Where the block params start that the executing template can see
+    size_t blockParamBase;
     struct handlebars_stack * partialBlockStack;
 
     handlebars_func log_func;
-- 
2.43.0


From 1558db93c289ee13df7d23cb5dacadbcdd383e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:08 +0000
Subject: [PATCH 039/110] fix: a partial whose file does not exist is a missing
 partial, not a failure of the loader

---
 src/handlebars_partial_loader.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index a12ff28..143fb8d 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -20,6 +20,7 @@
 #endif
 
 #include <assert.h>
+#include <errno.h>
 #include <string.h>
 #include <talloc.h>
 
@@ -101,6 +102,11 @@ static struct handlebars_value * hbs_partial_loader_map_find(struct handlebars_v
     long size;
 
     f = fopen(hbs_str_val(filename), "rb");
+    if( !f && (errno == ENOENT || errno == ENOTDIR || errno == ENAMETOOLONG) ) {
+        // There is no such partial, what that means is up to the caller
+        handlebars_talloc_free(filename);
+        return NULL;
+    }
     if( !f ) {
         handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "File to open partial: %.*s", (int) hbs_str_len(filename), hbs_str_val(filename));
     }
-- 
2.43.0


From 7e23c15ee7949af20a5e2ff8b7d17e9b67558b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:14 +0000
Subject: [PATCH 040/110] fix: a directory or a huge file in place of a partial
 no longer overflows the buffer size

---
 src/handlebars_partial_loader.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index 143fb8d..a959289 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -21,6 +21,7 @@
 
 #include <assert.h>
 #include <errno.h>
+#include <limits.h>
 #include <string.h>
 #include <talloc.h>
 
@@ -115,8 +116,9 @@ static struct handlebars_value * hbs_partial_loader_map_find(struct handlebars_v
     size = ftell(f);
     fseek(f, 0, SEEK_SET);
 
-    char * buf = handlebars_talloc_array(intern->user.ctx, char, size + 1);
-    size_t read = fread(buf, size, 1, f);
+    // A directory can be opened, too, but has no sensible size
+    char * buf = size >= 0 && size < LONG_MAX ? handlebars_talloc_array(intern->user.ctx, char, size + 1) : NULL;
+    size_t read = buf ? fread(buf, size, 1, f) : 0;
     fclose(f);
 
     if (!read) {
-- 
2.43.0


From 5ed17bd854002204d8c3d59715ce88620991d13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:42 +0000
Subject: [PATCH 041/110] fix: unless calls callables and honours includeZero
 like if does

---
 src/handlebars_helpers.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 91cb7e1..91ac342 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -312,16 +312,15 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
 
 struct handlebars_value * handlebars_builtin_unless(HANDLEBARS_HELPER_ARGS)
 {
-    struct handlebars_value * conditional;
+    long program = options->program;
 
     if (argc != 1) {
         handlebars_throw(CONTEXT, HANDLEBARS_ERROR, "#unless requires exactly one argument");
     }
 
-    conditional = &argv[0];
-    assert(conditional != NULL);
-
-    handlebars_value_boolean(conditional, handlebars_value_is_empty(conditional));
+    // It is an if with the bodies exchanged: callables and includeZero work as they do there
+    options->program = options->inverse;
+    options->inverse = program;
 
     return handlebars_vm_call_helper_str(HBS_STRL("if"), HANDLEBARS_HELPER_ARGS_PASSTHRU);
 }
-- 
2.43.0


From 693bbe15891dcf75dd0be90ddc202861562b1c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:21 +0000
Subject: [PATCH 042/110] fix: includeZero=false does not include zero

---
 src/handlebars_helpers.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 91ac342..dc370f5 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -278,6 +278,7 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
     struct handlebars_value * conditional = &argv[0];
     long program;
     struct handlebars_string * result_str = NULL;
+    struct handlebars_value * include_zero;
     HANDLEBARS_VALUE_DECL(rv2);
 
     if (argc != 1) {
@@ -296,7 +297,8 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
         program = options->program;
     } else if( handlebars_value_get_type(conditional) == HANDLEBARS_VALUE_TYPE_INTEGER &&
             handlebars_value_get_intval(conditional) == 0 &&
-            NULL != handlebars_value_map_str_find(options->hash, HBS_STRL("includeZero"), rv2) ) {
+            NULL != (include_zero = handlebars_value_map_str_find(options->hash, HBS_STRL("includeZero"), rv2)) &&
+            !handlebars_value_is_empty(include_zero) ) {
         program = options->program;
     } else {
         program = options->inverse;
-- 
2.43.0


From 19a28dff29711193ba366d0a3f669fdc11706738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:14 +0000
Subject: [PATCH 043/110] fix: with custom delimiters braces are literal text,
 also in threes, next to the end and in comments

---
 src/handlebars_delimiters.c | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index 17f3f7a..9093c8f 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -68,15 +68,16 @@ struct handlebars_string * handlebars_preprocess_delimiters(
     const char *po = NULL;
     const char *pc = NULL;
     const char *pce = NULL;
-    int starts_with_bracket = 0;
+    bool is_default_open;
+    bool is_comment = false;
 
     // Initialize/duplicate open/close
     if( open == NULL ) {
         open = handlebars_string_ctor(ctx, HBS_STRL("{{"));
     } else {
         open = handlebars_string_copy_ctor(ctx, open);
-        starts_with_bracket = hbs_str_val(open)[0] == '{';
     }
+    is_default_open = hbs_str_eq_strl(open, HBS_STRL("{{"));
     if( close == NULL ) {
         close = handlebars_string_ctor(ctx, HBS_STRL("}}"));
     } else {
@@ -108,12 +109,14 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                     // We are going into a regular tag
                     append("{{", 2);
                     move_forward(hbs_str_len(open));
+                    is_comment = *p == '!' && !is_default_open;
                     state = 2; goto state2;
                 }
 
-                // Escape the bracket if our current custom delims aren't brackets
-                if( i >= 2 && *p == '{' && *(p + 1) == '{' && !starts_with_bracket ) {
-                    append("\\", 1);
+                // Escape the brackets if they aren't our current delims
+                if( i >= 2 && *p == '{' && *(p + 1) == '{' && !is_default_open ) {
+                    append("\\{", 2);
+                    move_forward(1);
                 }
 
                 // This is an escape
@@ -199,7 +202,7 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                 open = new_open;
                 close = new_close;
                 new_open = new_close = NULL;
-                starts_with_bracket = hbs_str_val(open)[0] == '{';
+                is_default_open = hbs_str_eq_strl(open, HBS_STRL("{{"));
 
 #if defined(YYDEBUG)
                 fprintf(stderr, "Delimiter preprocessor: New delimiters: \"%.*s\", \"%.*s\"\n", (int) hbs_str_len(open), hbs_str_val(open), (int) hbs_str_len(close), hbs_str_val(close));
@@ -234,6 +237,9 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                         state = 0;
                         goto state0;
                     }
+                } else if( is_comment && *p == '}' ) {
+                    // This would end the comment
+                    append(" ", 1);
                 } else {
                     append(p, 1);
                 }
-- 
2.43.0


From 1bdf5031e179640bc6cb11b8638d875f56eec909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:21 +0000
Subject: [PATCH 044/110] fix: what a lambda returns is rendered in the current
 context, not in the lambda

---
 src/handlebars_vm.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 28e59d2..d82efb4 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -540,7 +540,7 @@ static struct handlebars_value * invoke_mustache_style_lambda_closure(HANDLEBARS
 
     if (!handlebars_value_is_empty(result)) {
         struct handlebars_string * tmpl = handlebars_value_to_string(result, CONTEXT);
-        struct handlebars_string * rv_str = execute_template(vm, tmpl, callable, NULL, 0, use_delimiters);
+        struct handlebars_string * rv_str = execute_template(vm, tmpl, TOP(vm->contextStack), NULL, 0, use_delimiters);
         handlebars_value_str(rv, rv_str);
     }
 
-- 
2.43.0


From a78d83bbd66729323aac325a75c5b73d5e69ab90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:27 +0000
Subject: [PATCH 045/110] fix: lambdas in a partial do not use the delimiters
 of the template that includes it

---
 src/handlebars_vm.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index d82efb4..5b5dd0a 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -336,6 +336,8 @@ static struct handlebars_string * execute_template(
     bool volatile use_cache = vm->cache != NULL;
     bool volatile failed = false;
     long prev_depth = vm->depth;
+    struct handlebars_string * prev_delim_open = vm->delim_open;
+    struct handlebars_string * prev_delim_close = vm->delim_close;
     struct handlebars_error * e = HBSCTX(vm)->e;
     jmp_buf * prev_jmp = e->jmp;
     jmp_buf buf;
@@ -414,6 +416,12 @@ static struct handlebars_string * execute_template(
 
     vm->depth++;
 
+    // A template starts with the default delimiters, whatever those of the one that includes it
+    if( !use_delimiters ) {
+        vm->delim_open = NULL;
+        vm->delim_close = NULL;
+    }
+
     retval = handlebars_vm_execute(vm, module, input);
     assert(retval != NULL);
 
@@ -424,6 +432,8 @@ static struct handlebars_string * execute_template(
 done:
     e->jmp = prev_jmp;
     vm->depth = prev_depth;
+    vm->delim_open = prev_delim_open;
+    vm->delim_close = prev_delim_close;
     if( from_cache ) {
         handlebars_cache_release(vm->cache, tmpl, module);
     }
-- 
2.43.0


From 3b52c631608f731b828c5b3f0f2607d7e59b2c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:06:32 +0000
Subject: [PATCH 046/110] fix: an inverted section over a lambda renders
 nothing

---
 src/handlebars_vm.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 5b5dd0a..6051c17 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -543,10 +543,14 @@ static struct handlebars_value * invoke_mustache_style_lambda_closure(HANDLEBARS
     struct handlebars_value *callable = HANDLEBARS_LOCAL_AT(0);
     struct handlebars_string *lambda_tmpl = handlebars_value_get_string(HANDLEBARS_LOCAL_AT(1));
     bool use_delimiters = handlebars_value_get_boolval(HANDLEBARS_LOCAL_AT(2));
+    struct handlebars_value *result = lambda_result;
 
     handlebars_value_str(&lambda_argv[0], lambda_tmpl);
 
-    struct handlebars_value *result = handlebars_value_call(callable, 1, lambda_argv, options, vm, lambda_result);
+    // A lambda counts as true, so an inverted section over one is nothing
+    if (options->program >= 0 || options->inverse < 0) {
+        result = handlebars_value_call(callable, 1, lambda_argv, options, vm, lambda_result);
+    }
 
     if (!handlebars_value_is_empty(result)) {
         struct handlebars_string * tmpl = handlebars_value_to_string(result, CONTEXT);
-- 
2.43.0


From 70dda6fff7481941c0ee540609455772883ae954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:55 +0000
Subject: [PATCH 047/110] fix: with custom delimiters braces that follow a tag
 are literal text

---
 src/handlebars_delimiters.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/handlebars_delimiters.c b/src/handlebars_delimiters.c
index 9093c8f..389b6c3 100644
--- a/src/handlebars_delimiters.c
+++ b/src/handlebars_delimiters.c
@@ -52,6 +52,12 @@
     i -= x
 #endif
 
+// Literal braces that follow a tag would become a part of its end, an empty comment keeps them apart
+#define separate_braces() \
+    if( i > 0 && *p == '}' ) { \
+        append("{{!}}", 5); \
+    }
+
 struct handlebars_string * handlebars_preprocess_delimiters(
     struct handlebars_context * ctx,
     struct handlebars_string * tmpl,
@@ -217,6 +223,7 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                     new_tmpl = handlebars_string_append(ctx, new_tmpl, HBS_STRL("\" \""));
                     new_tmpl = handlebars_string_append_str(ctx, new_tmpl, close_escaped);
                     new_tmpl = handlebars_string_append(ctx, new_tmpl, HBS_STRL("\"}}"));
+                    separate_braces();
                     handlebars_string_delref(open_escaped);
                     handlebars_string_delref(close_escaped);
                 } while (0);
@@ -233,6 +240,9 @@ struct handlebars_string * handlebars_preprocess_delimiters(
                     // Ending
                     append("}}", 2);
                     move_forward(hbs_str_len(close));
+                    if( !is_default_open ) {
+                        separate_braces();
+                    }
                     if( i > 0 ) {
                         state = 0;
                         goto state0;
-- 
2.43.0


From 09e3b2a1f99231b2743eb8ff3385fb08c6c274d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:04 +0000
Subject: [PATCH 048/110] fix: comments may contain --, and one that never ends
 is an error

---
 src/handlebars.l     |    6 +-
 src/handlebars.lex.c | 2980 +++++++++++++++++++++++-------------------
 src/handlebars.lex.h |    2 +-
 3 files changed, 1650 insertions(+), 1338 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 2cd71c2..f7b7ce2 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -147,6 +147,10 @@ CONTENT [^\x00\{\\\r\n]*[\r\n]*
 
 WHITESPACE [ \r\n\t]
 
+DASHES [-]+
+NOEND  ("~"|"}"|"~}")
+LONGCOM ([^-]|[-]({DASHES}{NOEND}[-])*([^-]|{DASHES}([^-~}]|"~"[^-}]|"~"?"}"[^-}])))*[-]({DASHES}{NOEND}[-])*{DASHES}{RIGHT_STRIP}?"}}"
+
 IDC	  [^ \r\n\t!\"#%-,\.\/;->@\[-\^`\{-~]
 ID    {IDC}+/{LOOKAHEAD}
 BLOCKPARAM [\x7C]
@@ -237,7 +241,7 @@ BLOCKPARAM [\x7C]
 										return CONTENT;
 									}
 
-<com>"{{"{LEFT_STRIP}?"!--"([-]?[^-])*"--"{RIGHT_STRIP}?"}}" {
+<com>"{{"{LEFT_STRIP}?"!"{LONGCOM} {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
   										//yytext[yyleng -= 4] = 0;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index e7fd72d..efaacbf 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -580,9 +580,9 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[20137] =
+static const struct yy_trans_info yy_transition[21536] =
     {
- {   0,   0 }, {   0,19881 }, {   0,   2 }, {   0,19879 }, {   1,3096 },
+ {   0,   0 }, {   0,21280 }, {   0,   2 }, {   0,21278 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
  {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -639,7 +639,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,19621 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,21020 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -695,7 +695,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,19363 },
+ { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,20762 },
  {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
  {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
  {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
@@ -752,7 +752,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
  { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
  { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,19105 }, {   1,2965 }, {   2,2965 },
+ { 256,3223 }, {   0,   0 }, {   0,20504 }, {   1,2965 }, {   2,2965 },
  {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
  {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
  {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
@@ -809,7 +809,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
  { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,18847 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
+ {   0,20246 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
  {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
@@ -865,7 +865,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
  { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
  { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,18589 }, {   1,3534 },
+ { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,19988 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
  {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
@@ -923,7 +923,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,18331 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
+ {   0,   0 }, {   0,19730 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
  {   4,1811 }, {   5,1811 }, {   6,1811 }, {   7,1811 }, {   8,1811 },
  {   9,1811 }, {  10,1811 }, {  11,1811 }, {  12,1811 }, {  13,1811 },
  {  14,1811 }, {  15,1811 }, {  16,1811 }, {  17,1811 }, {  18,1811 },
@@ -979,7 +979,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 244,1811 }, { 245,1811 }, { 246,1811 }, { 247,1811 }, { 248,1811 },
 
  { 249,1811 }, { 250,1811 }, { 251,1811 }, { 252,1811 }, { 253,1811 },
- { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,18073 },
+ { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,19472 },
  {   1,1553 }, {   2,1553 }, {   3,1553 }, {   4,1553 }, {   5,1553 },
  {   6,1553 }, {   7,1553 }, {   8,1553 }, {   9,1553 }, {  10,1553 },
  {  11,1553 }, {  12,1553 }, {  13,1553 }, {  14,1553 }, {  15,1553 },
@@ -1036,7 +1036,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,1553 }, { 242,1553 }, { 243,1553 }, { 244,1553 }, { 245,1553 },
  { 246,1553 }, { 247,1553 }, { 248,1553 }, { 249,1553 }, { 250,1553 },
  { 251,1553 }, { 252,1553 }, { 253,1553 }, { 254,1553 }, { 255,1553 },
- { 256,1553 }, {   0,   0 }, {   0,17815 }, {   1,4595 }, {   2,4595 },
+ { 256,1553 }, {   0,   0 }, {   0,19214 }, {   1,4595 }, {   2,4595 },
  {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 }, {   7,4595 },
  {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 }, {  12,4595 },
  {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 }, {  17,4595 },
@@ -1093,7 +1093,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 }, { 247,4595 },
  { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 }, { 252,4595 },
  { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256,4595 }, {   0,   0 },
- {   0,17557 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
+ {   0,18956 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
  {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 }, {   9,4337 },
  {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 }, {  14,4337 },
  {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 }, {  19,4337 },
@@ -1149,7 +1149,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 }, { 244,4337 },
  { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 }, { 249,4337 },
  { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 }, { 254,4337 },
- { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,17299 }, {   1,4595 },
+ { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,18698 }, {   1,4595 },
  {   2,4595 }, {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 },
  {   7,4595 }, {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 },
  {  12,4595 }, {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 },
@@ -1206,7 +1206,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,4595 }, { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 },
  { 247,4595 }, { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 },
  { 252,4595 }, { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256, 779 },
- {   0,   0 }, {   0,17041 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
+ {   0,   0 }, {   0,18440 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
  {   4,4337 }, {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 },
 
  {   9,4337 }, {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 },
@@ -1262,7 +1262,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,4337 }, { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 },
  { 244,4337 }, { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 },
  { 249,4337 }, { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 },
- { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,16783 },
+ { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,18182 },
 
  {   1,4461 }, {   2,4461 }, {   3,4461 }, {   4,4461 }, {   5,4461 },
  {   6,4461 }, {   7,4461 }, {   8,4461 }, {   9,4461 }, {  10,4338 },
@@ -1320,14 +1320,14 @@ static const struct yy_trans_info yy_transition[20137] =
  { 246,4461 }, { 247,4461 }, { 248,4461 }, { 249,4461 }, { 250,4461 },
 
  { 251,4461 }, { 252,4461 }, { 253,4461 }, { 254,4461 }, { 255,4461 },
- {   0,   2 }, {   0,16526 }, {   0,   6 }, {   0,16524 }, {   0,   6 },
- {   0,16522 }, {   0,  51 }, {   0,16520 }, {   0,  35 }, {   0,16518 },
+ {   0,   2 }, {   0,17925 }, {   0,   6 }, {   0,17923 }, {   0,   6 },
+ {   0,17921 }, {   0,  51 }, {   0,17919 }, {   0,  35 }, {   0,17917 },
  {   0,   0 }, {  10,4081 }, {   0,   0 }, {   0,   0 }, {  13,4081 },
- {   0,  35 }, {   0,16511 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
- {   0,  50 }, {   0,16506 }, {  13,4742 }, {   0,  14 }, {   0,16503 },
- {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,16499 }, {  13,4735 },
- {   0,  34 }, {   0,16496 }, {   0,  31 }, {   0,16494 }, {   0,  40 },
- {   0,16492 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,17910 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
+ {   0,  50 }, {   0,17905 }, {  13,4742 }, {   0,  14 }, {   0,17902 },
+ {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,17898 }, {  13,4735 },
+ {   0,  34 }, {   0,17895 }, {   0,  31 }, {   0,17893 }, {   0,  40 },
+ {   0,17891 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,4742 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4735 }, {   0,   0 },
@@ -1348,7 +1348,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 123,4461 }, {   0,   0 }, { 123,4461 }, {   0,   2 },
- {   0,16397 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
+ {   0,17796 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
  {   5,4075 }, {   6,4075 }, {   7,4075 }, {   8,4075 }, {   9,4075 },
  {  10,3952 }, {  11,4075 }, {  12,4075 }, {  13,3952 }, {  14,4075 },
 
@@ -1404,7 +1404,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,4075 }, { 241,4075 }, { 242,4075 }, { 243,4075 }, { 244,4075 },
  { 245,4075 }, { 246,4075 }, { 247,4075 }, { 248,4075 }, { 249,4075 },
  { 250,4075 }, { 251,4075 }, { 252,4075 }, { 253,4075 }, { 254,4075 },
- { 255,4075 }, {   0,  50 }, {   0,16140 }, {   1,4106 }, {   2,4106 },
+ { 255,4075 }, {   0,  50 }, {   0,17539 }, {   1,4106 }, {   2,4106 },
  {   3,4106 }, {   4,4106 }, {   5,4106 }, {   6,4106 }, {   7,4106 },
 
  {   8,4106 }, {   9,4081 }, {  10,4081 }, {  11,4106 }, {  12,4106 },
@@ -1462,7 +1462,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 248,4106 }, { 249,4106 }, { 250,4106 }, { 251,4106 }, { 252,4106 },
  { 253,4106 }, { 254,4106 }, { 255,4106 }, { 256,4106 }, {   0,  50 },
 
- {   0,15882 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
+ {   0,17281 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
  {   5,4140 }, {   6,4140 }, {   7,4140 }, {   8,4140 }, {   9,4140 },
  {  10,4140 }, {  11,4140 }, {  12,4140 }, {  13,4140 }, {  14,4140 },
  {  15,4140 }, {  16,4140 }, {  17,4140 }, {  18,4140 }, {  19,4140 },
@@ -1518,7 +1518,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 245,4140 }, { 246,4140 }, { 247,4140 }, { 248,4140 }, { 249,4140 },
 
  { 250,4140 }, { 251,4140 }, { 252,4140 }, { 253,4140 }, { 254,4140 },
- { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,15624 }, {   1,4398 },
+ { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,17023 }, {   1,4398 },
  {   2,4398 }, {   3,4398 }, {   4,4398 }, {   5,4398 }, {   6,4398 },
  {   7,4398 }, {   8,4398 }, {   9,4398 }, {  10,4398 }, {  11,4398 },
  {  12,4398 }, {  13,4398 }, {  14,4398 }, {  15,4398 }, {  16,4398 },
@@ -1575,7 +1575,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,4398 }, { 243,4398 }, { 244,4398 }, { 245,4398 }, { 246,4398 },
  { 247,4398 }, { 248,4398 }, { 249,4398 }, { 250,4398 }, { 251,4398 },
  { 252,4398 }, { 253,4398 }, { 254,4398 }, { 255,4398 }, { 256,4398 },
- {   0,  50 }, {   0,15366 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
+ {   0,  50 }, {   0,16765 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
  {   4,3332 }, {   5,3332 }, {   6,3332 }, {   7,3332 }, {   8,3332 },
  {   9,3307 }, {  10,3307 }, {  11,3332 }, {  12,3332 }, {  13,3307 },
  {  14,3332 }, {  15,3332 }, {  16,3332 }, {  17,3332 }, {  18,3332 },
@@ -1631,26 +1631,26 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,3332 }, { 240,3332 }, { 241,3332 }, { 242,3332 }, { 243,3332 },
  { 244,3332 }, { 245,3332 }, { 246,3332 }, { 247,3332 }, { 248,3332 },
  { 249,3332 }, { 250,3332 }, { 251,3332 }, { 252,3332 }, { 253,3332 },
- { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,15108 },
+ { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,16507 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3338 }, {  10,3338 },
  {   0,   0 }, {   0,   0 }, {  13,3338 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  50 }, {   0,15090 }, {   0,  42 }, {   0,15088 },
+ {   0,   0 }, {   0,  50 }, {   0,16489 }, {   0,  42 }, {   0,16487 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,15059 }, {   0,  50 },
- {   0,15057 }, {   0,   7 }, {   0,15055 }, {   0,  51 }, {   0,15053 },
+ {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,16458 }, {   0,  50 },
+ {   0,16456 }, {   0,   7 }, {   0,16454 }, {   0,  51 }, {   0,16452 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  61,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  50 }, {   0,15026 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
+ {   0,  50 }, {   0,16425 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
  {   4,2992 }, {   5,2992 }, {   6,2992 }, {   7,2992 }, {   8,2992 },
  {   9,3262 }, {  10,3262 }, {  11,2992 }, {  12,2992 }, {  13,3262 },
  {  14,2992 }, {  15,2992 }, {  16,2992 }, {  17,2992 }, {  18,2992 },
@@ -1706,7 +1706,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 244,2992 }, { 245,2992 }, { 246,2992 }, { 247,2992 }, { 248,2992 },
  { 249,2992 }, { 250,2992 }, { 251,2992 }, { 252,2992 }, { 253,2992 },
- { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,14768 },
+ { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,16167 },
  {   1,4375 }, {   2,4375 }, {   3,4375 }, {   4,4375 }, {   5,4375 },
  {   6,4375 }, {   7,4375 }, {   8,4375 }, {   9,4375 }, {  10,4375 },
  {  11,4375 }, {  12,4375 }, {  13,4375 }, {  14,4375 }, {  15,4375 },
@@ -1763,7 +1763,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,4375 }, { 242,4375 }, { 243,4375 }, { 244,4375 }, { 245,4375 },
  { 246,4375 }, { 247,4375 }, { 248,4375 }, { 249,4375 }, { 250,4375 },
  { 251,4375 }, { 252,4375 }, { 253,4375 }, { 254,4375 }, { 255,4375 },
- { 256,4375 }, {   0,  50 }, {   0,14510 }, {   1,2476 }, {   2,2476 },
+ { 256,4375 }, {   0,  50 }, {   0,15909 }, {   1,2476 }, {   2,2476 },
  {   3,2476 }, {   4,2476 }, {   5,2476 }, {   6,2476 }, {   7,2476 },
  {   8,2476 }, {   9,2451 }, {  10,2451 }, {  11,2476 }, {  12,2476 },
  {  13,2451 }, {  14,2476 }, {  15,2476 }, {  16,2476 }, {  17,2476 },
@@ -1820,7 +1820,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,2476 }, { 244,2476 }, { 245,2476 }, { 246,2476 }, { 247,2476 },
  { 248,2476 }, { 249,2476 }, { 250,2476 }, { 251,2476 }, { 252,2476 },
  { 253,2476 }, { 254,2476 }, { 255,2476 }, { 256,2476 }, {   0,  50 },
- {   0,14252 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
+ {   0,15651 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
  {   5,2218 }, {   6,2218 }, {   7,2218 }, {   8,2218 }, {   9,2193 },
  {  10,2193 }, {  11,2218 }, {  12,2218 }, {  13,2193 }, {  14,2218 },
  {  15,2218 }, {  16,2218 }, {  17,2218 }, {  18,2218 }, {  19,2218 },
@@ -1876,7 +1876,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,2218 }, { 241,2218 }, { 242,2218 }, { 243,2218 }, { 244,2218 },
  { 245,2218 }, { 246,2218 }, { 247,2218 }, { 248,2218 }, { 249,2218 },
  { 250,2218 }, { 251,2218 }, { 252,2218 }, { 253,2218 }, { 254,2218 },
- { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,13994 }, {   1,1960 },
+ { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,15393 }, {   1,1960 },
  {   2,1960 }, {   3,1960 }, {   4,1960 }, {   5,1960 }, {   6,1960 },
  {   7,1960 }, {   8,1960 }, {   9,1935 }, {  10,1935 }, {  11,1960 },
 
@@ -1933,7 +1933,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,1960 }, { 243,1960 }, { 244,1960 }, { 245,1960 }, { 246,1960 },
  { 247,1960 }, { 248,1960 }, { 249,1960 }, { 250,1960 }, { 251,1960 },
  { 252,1960 }, { 253,1960 }, { 254,1960 }, { 255,1960 }, { 256,1960 },
- {   0,  50 }, {   0,13736 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
+ {   0,  50 }, {   0,15135 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
 
  {   4,1702 }, {   5,1702 }, {   6,1702 }, {   7,1702 }, {   8,1702 },
  {   9,1677 }, {  10,1677 }, {  11,1702 }, {  12,1702 }, {  13,1677 },
@@ -1990,7 +1990,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 244,1702 }, { 245,1702 }, { 246,1702 }, { 247,1702 }, { 248,1702 },
  { 249,1702 }, { 250,1702 }, { 251,1702 }, { 252,1702 }, { 253,1702 },
 
- { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,13478 },
+ { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,14877 },
  {   1,1444 }, {   2,1444 }, {   3,1444 }, {   4,1444 }, {   5,1444 },
  {   6,1444 }, {   7,1444 }, {   8,1444 }, {   9,1419 }, {  10,1419 },
  {  11,1444 }, {  12,1444 }, {  13,1419 }, {  14,1444 }, {  15,1444 },
@@ -2047,7 +2047,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 246,1444 }, { 247,1444 }, { 248,1444 }, { 249,1444 }, { 250,1444 },
  { 251,1444 }, { 252,1444 }, { 253,1444 }, { 254,1444 }, { 255,1444 },
- { 256,1444 }, {   0,  51 }, {   0,13220 }, {   1,4769 }, {   2,4769 },
+ { 256,1444 }, {   0,  51 }, {   0,14619 }, {   1,4769 }, {   2,4769 },
  {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
  {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
  {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
@@ -2104,7 +2104,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
  { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
  { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  51 },
- {   0,12962 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
+ {   0,14361 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
  {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
  {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
  {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
@@ -2160,7 +2160,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
  { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
  { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
- { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,12704 }, {   1,4769 },
+ { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,14103 }, {   1,4769 },
  {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
  {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
  {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
@@ -2217,7 +2217,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
  { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
  { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
- {   0,12447 }, {   0,   2 }, {   0,12445 }, {   0,   0 }, {   0,12443 },
+ {   0,13846 }, {   0,   2 }, {   0,13844 }, {   0,   0 }, {   0,13842 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -2245,7 +2245,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
- {   0,12322 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,13721 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
@@ -2301,13 +2301,13 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   0 }, {   0,12065 }, {   0,   0 }, {   0,12063 },
- {   0,   5 }, {   0,12061 }, {   0,  48 }, {   0,12059 }, {   0,   0 },
+ { 255,   0 }, {   0,   0 }, {   0,13464 }, {   0,   0 }, {   0,13462 },
+ {   0,   5 }, {   0,13460 }, {   0,  48 }, {   0,13458 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,12034 }, {   1,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,13433 }, {   1,   0 },
 
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
@@ -2365,14 +2365,14 @@ static const struct yy_trans_info yy_transition[20137] =
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
 
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  35 }, {   0,11776 }, {   0,  38 }, {   0,11774 }, {   0,  39 },
- {   0,11772 }, {   0,  33 }, {   0,11770 }, {   0,  32 }, {   0,11768 },
- {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,11764 }, {  13,   0 },
- {   0,  49 }, {   0,11761 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,13175 }, {   0,  38 }, {   0,13173 }, {   0,  39 },
+ {   0,13171 }, {   0,  33 }, {   0,13169 }, {   0,  32 }, {   0,13167 },
+ {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,13163 }, {  13,   0 },
+ {   0,  49 }, {   0,13160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,11742 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,13141 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
 
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
@@ -2428,7 +2428,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,11484 }, {   1,-258 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12883 }, {   1,-258 },
 
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
@@ -2486,7 +2486,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
 
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,11226 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,12625 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -2542,7 +2542,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,10968 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12367 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
@@ -2599,7 +2599,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,10710 }, {   1,-1324 }, {   2,-1324 },
+ { 256,-258 }, {   0,   0 }, {   0,12109 }, {   1,-1324 }, {   2,-1324 },
  {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
  {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
  {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
@@ -2656,7 +2656,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
  { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  48 },
- {   0,10452 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,11851 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2668,7 +2668,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
  {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
- {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,10393 },
+ {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,11792 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
 
@@ -2725,7 +2725,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,10135 }, {   1,-258 }, {   2,-258 },
+ { 256,   0 }, {   0,   0 }, {   0,11534 }, {   1,-258 }, {   2,-258 },
 
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
@@ -2783,7 +2783,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
 
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,9877 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
+ {   0,11276 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
  {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,2296 },
  {  10,2296 }, {  11,-2157 }, {  12,-2157 }, {  13,2296 }, {  14,-2157 },
  {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
@@ -2839,7 +2839,7 @@ static const struct yy_trans_info yy_transition[20137] =
 
  { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
  { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,9619 }, {   1,-2415 },
+ { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,11018 }, {   1,-2415 },
  {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
  {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
  {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
@@ -2896,7 +2896,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
  { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
  { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,9361 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+ {   0,   0 }, {   0,10760 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
  {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
  {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
  {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
@@ -2952,7 +2952,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
  { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
  { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,9103 },
+ { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,10502 },
  {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
  {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
  {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
@@ -3009,7 +3009,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
  { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
  { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,8845 }, {   1,-3189 }, {   2,-3189 },
+ { 256,-2931 }, {   0,   0 }, {   0,10244 }, {   1,-3189 }, {   2,-3189 },
  {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
  {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
 
@@ -3066,16 +3066,16 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
  { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  30 },
- {   0,8587 }, {   0,  37 }, {   0,8585 }, {   0,   0 }, {   0,8583 },
+ {   0,9986 }, {   0,  37 }, {   0,9984 }, {   0,   0 }, {   0,9982 },
 
- {   0,   0 }, {   0,8581 }, {   0,   0 }, {   0,8579 }, {   9,3229 },
- {  10,3229 }, {   0,  13 }, {   0,8575 }, {  13,3229 }, {   0,   0 },
+ {   0,   0 }, {   0,9980 }, {   0,   0 }, {   0,9978 }, {   9,3229 },
+ {  10,3229 }, {   0,  13 }, {   0,9974 }, {  13,3229 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  32,3229 }, {  33,1813 }, {   0,   0 },
  {  35,1815 }, {   0,   0 }, {   0,   0 }, {  38,1817 }, {   0,   0 },
- {   0,   0 }, {  33,3242 }, {  42,1819 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  33,3365 }, {  42,1819 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  47,1823 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -3095,8 +3095,8 @@ static const struct yy_trans_info yy_transition[20137] =
  { 115,3235 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,3237 }, {   0,   0 },
  {   0,   0 }, { 126,3244 }, { 125,3239 }, {   0,   0 }, { 125,3242 },
- {   0,   0 }, { 125,3242 }, {   0,   0 }, {   0,   0 }, { 126,3244 },
- {   0,   0 }, {   0,8451 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, { 125,3242 }, {   0,   0 }, {   0,   0 }, { 126,3242 },
+ {   0,   0 }, {   0,9850 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -3152,7 +3152,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,8193 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,9592 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
 
@@ -3209,7 +3209,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,7935 }, {   1,   0 }, {   2,   0 },
+ { 256,-258 }, {   0,  10 }, {   0,9334 }, {   1,   0 }, {   2,   0 },
 
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
@@ -3266,9 +3266,9 @@ static const struct yy_trans_info yy_transition[20137] =
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
 
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,7678 },
- {   0,   0 }, {   0,7676 }, {   0,   0 }, {   0,7674 }, {   0,   5 },
- {   0,7672 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,9077 },
+ {   0,   0 }, {   0,9075 }, {   0,   0 }, {   0,9073 }, {   0,   5 },
+ {   0,9071 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3288,70 +3288,70 @@ static const struct yy_trans_info yy_transition[20137] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,  48 }, {   0,7581 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  48 }, {   0,8980 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,2347 }, {   0,   0 }, { 123,2348 },
- {   0,   0 }, { 123,2350 }, {   0,   4 }, {   0,7549 }, {   1,2350 },
- {   2,2350 }, {   3,2350 }, {   4,2350 }, {   5,2350 }, {   6,2350 },
- {   7,2350 }, {   8,2350 }, {   9,2350 }, {  10,2227 }, {  11,2350 },
- {  12,2350 }, {  13,2227 }, {  14,2350 }, {  15,2350 }, {  16,2350 },
+ {   0,   0 }, {   0,   0 }, { 123,2722 }, {   0,   0 }, { 123,2722 },
+ {   0,   0 }, { 123,2722 }, {   0,   4 }, {   0,8948 }, {   1,2722 },
+ {   2,2722 }, {   3,2722 }, {   4,2722 }, {   5,2722 }, {   6,2722 },
+ {   7,2722 }, {   8,2722 }, {   9,2722 }, {  10,2599 }, {  11,2722 },
+ {  12,2722 }, {  13,2599 }, {  14,2722 }, {  15,2722 }, {  16,2722 },
 
- {  17,2350 }, {  18,2350 }, {  19,2350 }, {  20,2350 }, {  21,2350 },
- {  22,2350 }, {  23,2350 }, {  24,2350 }, {  25,2350 }, {  26,2350 },
- {  27,2350 }, {  28,2350 }, {  29,2350 }, {  30,2350 }, {  31,2350 },
- {  32,2350 }, {  33,2350 }, {  34,2350 }, {  35,2350 }, {  36,2350 },
- {  37,2350 }, {  38,2350 }, {  39,2350 }, {  40,2350 }, {  41,2350 },
- {  42,2350 }, {  43,2350 }, {  44,2350 }, {  45,2350 }, {  46,2350 },
- {  47,2350 }, {  48,2350 }, {  49,2350 }, {  50,2350 }, {  51,2350 },
- {  52,2350 }, {  53,2350 }, {  54,2350 }, {  55,2350 }, {  56,2350 },
- {  57,2350 }, {  58,2350 }, {  59,2350 }, {  60,2350 }, {  61,2350 },
- {  62,2350 }, {  63,2350 }, {  64,2350 }, {  65,2350 }, {  66,2350 },
+ {  17,2722 }, {  18,2722 }, {  19,2722 }, {  20,2722 }, {  21,2722 },
+ {  22,2722 }, {  23,2722 }, {  24,2722 }, {  25,2722 }, {  26,2722 },
+ {  27,2722 }, {  28,2722 }, {  29,2722 }, {  30,2722 }, {  31,2722 },
+ {  32,2722 }, {  33,2722 }, {  34,2722 }, {  35,2722 }, {  36,2722 },
+ {  37,2722 }, {  38,2722 }, {  39,2722 }, {  40,2722 }, {  41,2722 },
+ {  42,2722 }, {  43,2722 }, {  44,2722 }, {  45,2722 }, {  46,2722 },
+ {  47,2722 }, {  48,2722 }, {  49,2722 }, {  50,2722 }, {  51,2722 },
+ {  52,2722 }, {  53,2722 }, {  54,2722 }, {  55,2722 }, {  56,2722 },
+ {  57,2722 }, {  58,2722 }, {  59,2722 }, {  60,2722 }, {  61,2722 },
+ {  62,2722 }, {  63,2722 }, {  64,2722 }, {  65,2722 }, {  66,2722 },
 
- {  67,2350 }, {  68,2350 }, {  69,2350 }, {  70,2350 }, {  71,2350 },
- {  72,2350 }, {  73,2350 }, {  74,2350 }, {  75,2350 }, {  76,2350 },
- {  77,2350 }, {  78,2350 }, {  79,2350 }, {  80,2350 }, {  81,2350 },
- {  82,2350 }, {  83,2350 }, {  84,2350 }, {  85,2350 }, {  86,2350 },
- {  87,2350 }, {  88,2350 }, {  89,2350 }, {  90,2350 }, {  91,2350 },
- { 124,2263 }, {  93,2350 }, {  94,2350 }, {  95,2350 }, {  96,2350 },
- {  97,2350 }, {  98,2350 }, {  99,2350 }, { 100,2350 }, { 101,2350 },
- { 102,2350 }, { 103,2350 }, { 104,2350 }, { 105,2350 }, { 106,2350 },
- { 107,2350 }, { 108,2350 }, { 109,2350 }, { 110,2350 }, { 111,2350 },
- { 112,2350 }, { 113,2350 }, { 114,2350 }, { 115,2350 }, { 116,2350 },
+ {  67,2722 }, {  68,2722 }, {  69,2722 }, {  70,2722 }, {  71,2722 },
+ {  72,2722 }, {  73,2722 }, {  74,2722 }, {  75,2722 }, {  76,2722 },
+ {  77,2722 }, {  78,2722 }, {  79,2722 }, {  80,2722 }, {  81,2722 },
+ {  82,2722 }, {  83,2722 }, {  84,2722 }, {  85,2722 }, {  86,2722 },
+ {  87,2722 }, {  88,2722 }, {  89,2722 }, {  90,2722 }, {  91,2722 },
+ { 124,2635 }, {  93,2722 }, {  94,2722 }, {  95,2722 }, {  96,2722 },
+ {  97,2722 }, {  98,2722 }, {  99,2722 }, { 100,2722 }, { 101,2722 },
+ { 102,2722 }, { 103,2722 }, { 104,2722 }, { 105,2722 }, { 106,2722 },
+ { 107,2722 }, { 108,2722 }, { 109,2722 }, { 110,2722 }, { 111,2722 },
+ { 112,2722 }, { 113,2722 }, { 114,2722 }, { 115,2722 }, { 116,2722 },
 
- { 117,2350 }, { 118,2350 }, { 119,2350 }, { 120,2350 }, { 121,2350 },
- { 122,2350 }, { 123,2607 }, { 124,2350 }, { 125,2350 }, { 126,2350 },
- { 127,2350 }, { 128,2350 }, { 129,2350 }, { 130,2350 }, { 131,2350 },
- { 132,2350 }, { 133,2350 }, { 134,2350 }, { 135,2350 }, { 136,2350 },
- { 137,2350 }, { 138,2350 }, { 139,2350 }, { 140,2350 }, { 141,2350 },
- { 142,2350 }, { 143,2350 }, { 144,2350 }, { 145,2350 }, { 146,2350 },
- { 147,2350 }, { 148,2350 }, { 149,2350 }, { 150,2350 }, { 151,2350 },
- { 152,2350 }, { 153,2350 }, { 154,2350 }, { 155,2350 }, { 156,2350 },
- { 157,2350 }, { 158,2350 }, { 159,2350 }, { 160,2350 }, { 161,2350 },
- { 162,2350 }, { 163,2350 }, { 164,2350 }, { 165,2350 }, { 166,2350 },
+ { 117,2722 }, { 118,2722 }, { 119,2722 }, { 120,2722 }, { 121,2722 },
+ { 122,2722 }, { 123,2979 }, { 124,2722 }, { 125,2722 }, { 126,2722 },
+ { 127,2722 }, { 128,2722 }, { 129,2722 }, { 130,2722 }, { 131,2722 },
+ { 132,2722 }, { 133,2722 }, { 134,2722 }, { 135,2722 }, { 136,2722 },
+ { 137,2722 }, { 138,2722 }, { 139,2722 }, { 140,2722 }, { 141,2722 },
+ { 142,2722 }, { 143,2722 }, { 144,2722 }, { 145,2722 }, { 146,2722 },
+ { 147,2722 }, { 148,2722 }, { 149,2722 }, { 150,2722 }, { 151,2722 },
+ { 152,2722 }, { 153,2722 }, { 154,2722 }, { 155,2722 }, { 156,2722 },
+ { 157,2722 }, { 158,2722 }, { 159,2722 }, { 160,2722 }, { 161,2722 },
+ { 162,2722 }, { 163,2722 }, { 164,2722 }, { 165,2722 }, { 166,2722 },
 
- { 167,2350 }, { 168,2350 }, { 169,2350 }, { 170,2350 }, { 171,2350 },
- { 172,2350 }, { 173,2350 }, { 174,2350 }, { 175,2350 }, { 176,2350 },
- { 177,2350 }, { 178,2350 }, { 179,2350 }, { 180,2350 }, { 181,2350 },
- { 182,2350 }, { 183,2350 }, { 184,2350 }, { 185,2350 }, { 186,2350 },
- { 187,2350 }, { 188,2350 }, { 189,2350 }, { 190,2350 }, { 191,2350 },
- { 192,2350 }, { 193,2350 }, { 194,2350 }, { 195,2350 }, { 196,2350 },
- { 197,2350 }, { 198,2350 }, { 199,2350 }, { 200,2350 }, { 201,2350 },
- { 202,2350 }, { 203,2350 }, { 204,2350 }, { 205,2350 }, { 206,2350 },
- { 207,2350 }, { 208,2350 }, { 209,2350 }, { 210,2350 }, { 211,2350 },
- { 212,2350 }, { 213,2350 }, { 214,2350 }, { 215,2350 }, { 216,2350 },
+ { 167,2722 }, { 168,2722 }, { 169,2722 }, { 170,2722 }, { 171,2722 },
+ { 172,2722 }, { 173,2722 }, { 174,2722 }, { 175,2722 }, { 176,2722 },
+ { 177,2722 }, { 178,2722 }, { 179,2722 }, { 180,2722 }, { 181,2722 },
+ { 182,2722 }, { 183,2722 }, { 184,2722 }, { 185,2722 }, { 186,2722 },
+ { 187,2722 }, { 188,2722 }, { 189,2722 }, { 190,2722 }, { 191,2722 },
+ { 192,2722 }, { 193,2722 }, { 194,2722 }, { 195,2722 }, { 196,2722 },
+ { 197,2722 }, { 198,2722 }, { 199,2722 }, { 200,2722 }, { 201,2722 },
+ { 202,2722 }, { 203,2722 }, { 204,2722 }, { 205,2722 }, { 206,2722 },
+ { 207,2722 }, { 208,2722 }, { 209,2722 }, { 210,2722 }, { 211,2722 },
+ { 212,2722 }, { 213,2722 }, { 214,2722 }, { 215,2722 }, { 216,2722 },
 
- { 217,2350 }, { 218,2350 }, { 219,2350 }, { 220,2350 }, { 221,2350 },
- { 222,2350 }, { 223,2350 }, { 224,2350 }, { 225,2350 }, { 226,2350 },
- { 227,2350 }, { 228,2350 }, { 229,2350 }, { 230,2350 }, { 231,2350 },
- { 232,2350 }, { 233,2350 }, { 234,2350 }, { 235,2350 }, { 236,2350 },
- { 237,2350 }, { 238,2350 }, { 239,2350 }, { 240,2350 }, { 241,2350 },
- { 242,2350 }, { 243,2350 }, { 244,2350 }, { 245,2350 }, { 246,2350 },
- { 247,2350 }, { 248,2350 }, { 249,2350 }, { 250,2350 }, { 251,2350 },
- { 252,2350 }, { 253,2350 }, { 254,2350 }, { 255,2350 }, {   0,  38 },
- {   0,7292 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
+ { 217,2722 }, { 218,2722 }, { 219,2722 }, { 220,2722 }, { 221,2722 },
+ { 222,2722 }, { 223,2722 }, { 224,2722 }, { 225,2722 }, { 226,2722 },
+ { 227,2722 }, { 228,2722 }, { 229,2722 }, { 230,2722 }, { 231,2722 },
+ { 232,2722 }, { 233,2722 }, { 234,2722 }, { 235,2722 }, { 236,2722 },
+ { 237,2722 }, { 238,2722 }, { 239,2722 }, { 240,2722 }, { 241,2722 },
+ { 242,2722 }, { 243,2722 }, { 244,2722 }, { 245,2722 }, { 246,2722 },
+ { 247,2722 }, { 248,2722 }, { 249,2722 }, { 250,2722 }, { 251,2722 },
+ { 252,2722 }, { 253,2722 }, { 254,2722 }, { 255,2722 }, {   0,  38 },
+ {   0,8691 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
  {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
 
  {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
@@ -3407,7 +3407,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
  { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
  { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,7034 }, {   1,-4192 },
+ { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,8433 }, {   1,-4192 },
 
  {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
  {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
@@ -3465,21 +3465,21 @@ static const struct yy_trans_info yy_transition[20137] =
  { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
 
  { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,6776 }, {   0,  29 }, {   0,6774 }, {   0,  20 },
- {   0,6772 }, {   0,  27 }, {   0,6770 }, {   0,  30 }, {   0,6768 },
- {   9,1456 }, {  10,1456 }, {   0,  21 }, {   0,6764 }, {  13,1456 },
- {   0,  18 }, {   0,6761 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,8175 }, {   0,  29 }, {   0,8173 }, {   0,  20 },
+ {   0,8171 }, {   0,  27 }, {   0,8169 }, {   0,  30 }, {   0,8167 },
+ {   9,1828 }, {  10,1828 }, {   0,  21 }, {   0,8163 }, {  13,1828 },
+ {   0,  18 }, {   0,8160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1456 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1828 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1456 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1828 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, {   0,   0 }, {  42,1466 }, {  45,1461 }, {  48,   0 },
+ {   0,   0 }, {   0,   0 }, {  42,1834 }, {  45,1832 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,1469 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  62,1837 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3492,7 +3492,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1456 }, { 126,1456 }, {   0,  49 }, {   0,6648 },
+ {   0,   0 }, { 125,1828 }, { 126,1828 }, {   0,  49 }, {   0,8047 },
  {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
  {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
  {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
@@ -3549,7 +3549,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
  { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
  { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,   0 }, {   0,6390 }, {   1,-5644 }, {   2,-5644 },
+ { 256,-3745 }, {   0,   0 }, {   0,7789 }, {   1,-5644 }, {   2,-5644 },
  {   3,-5644 }, {   4,-5644 }, {   5,-5644 }, {   6,-5644 }, {   7,-5644 },
 
  {   8,-5644 }, {   9,-5669 }, {  10,-5669 }, {  11,-5644 }, {  12,-5644 },
@@ -3575,7 +3575,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 103,-5644 }, { 104,-5644 }, { 105,-5644 }, { 106,-5644 }, { 107,-5644 },
 
  { 108,-5644 }, { 109,-5644 }, { 110,-5644 }, { 111,-5644 }, { 112,-5644 },
- { 113,-5644 }, { 114,-5644 }, { 115,1705 }, { 116,-5644 }, { 117,-5644 },
+ { 113,-5644 }, { 114,-5644 }, { 115,2077 }, { 116,-5644 }, { 117,-5644 },
  { 118,-5644 }, { 119,-5644 }, { 120,-5644 }, { 121,-5644 }, { 122,-5644 },
  {   0,   0 }, { 124,-5669 }, { 125,-5669 }, { 126,-5669 }, { 127,-5644 },
  { 128,-5644 }, { 129,-5644 }, { 130,-5644 }, { 131,-5644 }, { 132,-5644 },
@@ -3607,7 +3607,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 248,-5644 }, { 249,-5644 }, { 250,-5644 }, { 251,-5644 }, { 252,-5644 },
  { 253,-5644 }, { 254,-5644 }, { 255,-5644 }, { 256,-5644 }, {   0,   0 },
 
- {   0,6132 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
+ {   0,7531 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
  {   5,-5902 }, {   6,-5902 }, {   7,-5902 }, {   8,-5902 }, {   9,-5927 },
  {  10,-5927 }, {  11,-5902 }, {  12,-5902 }, {  13,-5927 }, {  14,-5902 },
  {  15,-5902 }, {  16,-5902 }, {  17,-5902 }, {  18,-5902 }, {  19,-5902 },
@@ -3630,7 +3630,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {  95,-5902 }, {   0,   0 }, {  97,-5902 }, {  98,-5902 }, {  99,-5902 },
 
  { 100,-5902 }, { 101,-5902 }, { 102,-5902 }, { 103,-5902 }, { 104,-5902 },
- { 105,-5902 }, { 106,-5902 }, { 107,-5902 }, { 108,1705 }, { 109,-5902 },
+ { 105,-5902 }, { 106,-5902 }, { 107,-5902 }, { 108,2077 }, { 109,-5902 },
  { 110,-5902 }, { 111,-5902 }, { 112,-5902 }, { 113,-5902 }, { 114,-5902 },
  { 115,-5902 }, { 116,-5902 }, { 117,-5902 }, { 118,-5902 }, { 119,-5902 },
  { 120,-5902 }, { 121,-5902 }, { 122,-5902 }, {   0,   0 }, { 124,-5927 },
@@ -3663,7 +3663,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 245,-5902 }, { 246,-5902 }, { 247,-5902 }, { 248,-5902 }, { 249,-5902 },
 
  { 250,-5902 }, { 251,-5902 }, { 252,-5902 }, { 253,-5902 }, { 254,-5902 },
- { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,5874 }, {   1,-6160 },
+ { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,7273 }, {   1,-6160 },
  {   2,-6160 }, {   3,-6160 }, {   4,-6160 }, {   5,-6160 }, {   6,-6160 },
  {   7,-6160 }, {   8,-6160 }, {   9,-6185 }, {  10,-6185 }, {  11,-6160 },
  {  12,-6160 }, {  13,-6185 }, {  14,-6160 }, {  15,-6160 }, {  16,-6160 },
@@ -3685,7 +3685,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {  87,-6160 }, {  88,-6160 }, {  89,-6160 }, {  90,-6160 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6160 }, {   0,   0 },
- {  97,-6160 }, {  98,-6160 }, {  99,-6160 }, { 100,-6160 }, { 101,1705 },
+ {  97,-6160 }, {  98,-6160 }, {  99,-6160 }, { 100,-6160 }, { 101,2077 },
  { 102,-6160 }, { 103,-6160 }, { 104,-6160 }, { 105,-6160 }, { 106,-6160 },
  { 107,-6160 }, { 108,-6160 }, { 109,-6160 }, { 110,-6160 }, { 111,-6160 },
  { 112,-6160 }, { 113,-6160 }, { 114,-6160 }, { 115,-6160 }, { 116,-6160 },
@@ -3720,7 +3720,7 @@ static const struct yy_trans_info yy_transition[20137] =
  { 242,-6160 }, { 243,-6160 }, { 244,-6160 }, { 245,-6160 }, { 246,-6160 },
  { 247,-6160 }, { 248,-6160 }, { 249,-6160 }, { 250,-6160 }, { 251,-6160 },
  { 252,-6160 }, { 253,-6160 }, { 254,-6160 }, { 255,-6160 }, { 256,-6160 },
- {   0,   0 }, {   0,5616 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
+ {   0,   0 }, {   0,7015 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
  {   4,-6418 }, {   5,-6418 }, {   6,-6418 }, {   7,-6418 }, {   8,-6418 },
  {   9,-6443 }, {  10,-6443 }, {  11,-6418 }, {  12,-6418 }, {  13,-6443 },
  {  14,-6418 }, {  15,-6418 }, {  16,-6418 }, {  17,-6418 }, {  18,-6418 },
@@ -3742,7 +3742,7 @@ static const struct yy_trans_info yy_transition[20137] =
  {  84,-6418 }, {  85,-6418 }, {  86,-6418 }, {  87,-6418 }, {  88,-6418 },
  {  89,-6418 }, {  90,-6418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-6418 }, {   0,   0 }, {  97,-6418 }, {  98,-6418 },
- {  99,-6418 }, { 100,-6418 }, { 101,1705 }, { 102,-6418 }, { 103,-6418 },
+ {  99,-6418 }, { 100,-6418 }, { 101,2077 }, { 102,-6418 }, { 103,-6418 },
  { 104,-6418 }, { 105,-6418 }, { 106,-6418 }, { 107,-6418 }, { 108,-6418 },
  { 109,-6418 }, { 110,-6418 }, { 111,-6418 }, { 112,-6418 }, { 113,-6418 },
  { 114,-6418 }, { 115,-6418 }, { 116,-6418 }, { 117,-6418 }, { 118,-6418 },
@@ -3776,792 +3776,110 @@ static const struct yy_trans_info yy_transition[20137] =
  { 239,-6418 }, { 240,-6418 }, { 241,-6418 }, { 242,-6418 }, { 243,-6418 },
  { 244,-6418 }, { 245,-6418 }, { 246,-6418 }, { 247,-6418 }, { 248,-6418 },
  { 249,-6418 }, { 250,-6418 }, { 251,-6418 }, { 252,-6418 }, { 253,-6418 },
- { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,5358 },
- {   0,  24 }, {   0,5356 }, {   0,   0 }, {   0,5354 }, {   0,   0 },
- {   0,5352 }, {   0,  26 }, {   0,5350 }, {   9,   0 }, {  10,   0 },
- {   0,  36 }, {   0,5346 }, {  13,   0 }, {   0,  30 }, {   0,5343 },
- {   0,   0 }, {   0,5341 }, {   0,  37 }, {   0,5339 }, {   0,   0 },
- {   0,5337 }, {   0,   0 }, {   0,5335 }, {   9, -15 }, {  10, -15 },
-
- {   0,   0 }, {   0,5331 }, {  13, -15 }, {   0,   0 }, {   0,5328 },
- {   0,   0 }, {  32,   0 }, {   0,   1 }, {   0,5324 }, {   0,   4 },
- {   0,5322 }, {   0,  47 }, {   0,5320 }, {   0,  41 }, {   0,5318 },
- {   0,   0 }, {   0,   0 }, {   0,5315 }, {   0,   0 }, {   0,5313 },
- {  10,   0 }, {  32, -15 }, {  33,-1431 }, {  13,   0 }, {  35,-1429 },
- {   0,  20 }, {   0,5306 }, {  38,-1427 }, {   0,  19 }, {   0,5303 },
- {  33,  -2 }, {  42,-1425 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,6757 },
+ {   0,  24 }, {   0,6755 }, {   0,   0 }, {   0,6753 }, {   0,   0 },
+ {   0,6751 }, {   0,  26 }, {   0,6749 }, {   9,   0 }, {  10,   0 },
+ {   0,  36 }, {   0,6745 }, {  13,   0 }, {   0,  30 }, {   0,6742 },
+ {   0,   0 }, {   0,6740 }, {   0,  37 }, {   0,6738 }, {   0,   0 },
+ {   0,6736 }, {   0,   0 }, {   0,   0 }, {   9, -15 }, {  10, -15 },
+
+ {   0,   0 }, {   0,   0 }, {  13, -15 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32, -15 }, {  33,-1431 }, {   0,   0 }, {  35,-1429 },
+ {   0,   0 }, {   0,   0 }, {  38,-1427 }, {  33, 123 }, {   0,   0 },
+ {   0,   0 }, {  42,-1425 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  47,-1421 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,1702 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {  62,-1418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2594 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101,  43 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101,1707 }, {   0,   0 }, {  94, -13 }, {   0,   0 },
- {   0,   0 }, { 108,1707 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101, -11 }, { 115,1703 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 101, 414 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 101,2079 }, {   0,   0 }, {  94, -13 }, {   0,   0 },
+ {   0,   0 }, { 108,2079 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 101, -11 }, { 115,2075 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  { 115,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, { 125,1705 }, { 126,1707 }, {   0,   0 }, { 115,  -9 },
- { 123,1707 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1707 }, { 123,1702 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1704 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,1809 },
- { 108,2594 }, {   0,   0 }, { 123,2064 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 123,2062 }, {   0,   4 }, {   0,5199 }, {   1,   0 },
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,-123 }, {  11,   0 },
- {  12,   0 }, {  13,-123 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
+ {   0,   0 }, { 125,2077 }, { 126,2079 }, {   0,   0 }, { 115,  -9 },
+ { 123,2079 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 125,2079 }, { 123,2074 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 125,2076 }, {   0,   0 }, {   0,6613 }, {   1,2064 },
+ {   2,2064 }, {   3,2064 }, {   4,2064 }, {   5,2064 }, {   6,2064 },
+ {   7,2064 }, {   8,2064 }, {   9,2064 }, {  10,2064 }, {  11,2064 },
+ {  12,2064 }, {  13,2064 }, {  14,2064 }, {  15,2064 }, {  16,2064 },
+ {  17,2064 }, {  18,2064 }, {  19,2064 }, {  20,2064 }, {  21,2064 },
+ {  22,2064 }, {  23,2064 }, {  24,2064 }, {  25,2064 }, {  26,2064 },
+ {  27,2064 }, {  28,2064 }, {  29,2064 }, {  30,2064 }, {  31,2064 },
 
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
- {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
- {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 },
- {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 },
- {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 },
+ {  32,2064 }, {  33,2064 }, {  34,2064 }, {  35,2064 }, {  36,2064 },
+ {  37,2064 }, {  38,2064 }, {  39,2064 }, {  40,2064 }, {  41,2064 },
+ {  42,2064 }, {  43,2064 }, {  44,2064 }, {  45,2322 }, {  46,2064 },
+ {  47,2064 }, {  48,2064 }, {  49,2064 }, {  50,2064 }, {  51,2064 },
+ {  52,2064 }, {  53,2064 }, {  54,2064 }, {  55,2064 }, {  56,2064 },
+ {  57,2064 }, {  58,2064 }, {  59,2064 }, {  60,2064 }, {  61,2064 },
+ {  62,2064 }, {  63,2064 }, {  64,2064 }, {  65,2064 }, {  66,2064 },
+ {  67,2064 }, {  68,2064 }, {  69,2064 }, {  70,2064 }, {  71,2064 },
+ {  72,2064 }, {  73,2064 }, {  74,2064 }, {  75,2064 }, {  76,2064 },
+ {  77,2064 }, {  78,2064 }, {  79,2064 }, {  80,2064 }, {  81,2064 },
 
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
- {   0,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
+ {  82,2064 }, {  83,2064 }, {  84,2064 }, {  85,2064 }, {  86,2064 },
+ {  87,2064 }, {  88,2064 }, {  89,2064 }, {  90,2064 }, {  91,2064 },
+ {  92,2064 }, {  93,2064 }, {  94,2064 }, {  95,2064 }, {  96,2064 },
+ {  97,2064 }, {  98,2064 }, {  99,2064 }, { 100,2064 }, { 101,2064 },
+ { 102,2064 }, { 103,2064 }, { 104,2064 }, { 105,2064 }, { 106,2064 },
+ { 107,2064 }, { 108,2064 }, { 109,2064 }, { 110,2064 }, { 111,2064 },
+ { 112,2064 }, { 113,2064 }, { 114,2064 }, { 115,2064 }, { 116,2064 },
+ { 117,2064 }, { 118,2064 }, { 119,2064 }, { 120,2064 }, { 121,2064 },
+ { 122,2064 }, { 123,2064 }, { 124,2064 }, { 125,2064 }, { 126,2064 },
+ { 127,2064 }, { 128,2064 }, { 129,2064 }, { 130,2064 }, { 131,2064 },
 
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
+ { 132,2064 }, { 133,2064 }, { 134,2064 }, { 135,2064 }, { 136,2064 },
+ { 137,2064 }, { 138,2064 }, { 139,2064 }, { 140,2064 }, { 141,2064 },
+ { 142,2064 }, { 143,2064 }, { 144,2064 }, { 145,2064 }, { 146,2064 },
+ { 147,2064 }, { 148,2064 }, { 149,2064 }, { 150,2064 }, { 151,2064 },
+ { 152,2064 }, { 153,2064 }, { 154,2064 }, { 155,2064 }, { 156,2064 },
+ { 157,2064 }, { 158,2064 }, { 159,2064 }, { 160,2064 }, { 161,2064 },
+ { 162,2064 }, { 163,2064 }, { 164,2064 }, { 165,2064 }, { 166,2064 },
+ { 167,2064 }, { 168,2064 }, { 169,2064 }, { 170,2064 }, { 171,2064 },
+ { 172,2064 }, { 173,2064 }, { 174,2064 }, { 175,2064 }, { 176,2064 },
+ { 177,2064 }, { 178,2064 }, { 179,2064 }, { 180,2064 }, { 181,2064 },
 
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
+ { 182,2064 }, { 183,2064 }, { 184,2064 }, { 185,2064 }, { 186,2064 },
+ { 187,2064 }, { 188,2064 }, { 189,2064 }, { 190,2064 }, { 191,2064 },
+ { 192,2064 }, { 193,2064 }, { 194,2064 }, { 195,2064 }, { 196,2064 },
+ { 197,2064 }, { 198,2064 }, { 199,2064 }, { 200,2064 }, { 201,2064 },
+ { 202,2064 }, { 203,2064 }, { 204,2064 }, { 205,2064 }, { 206,2064 },
+ { 207,2064 }, { 208,2064 }, { 209,2064 }, { 210,2064 }, { 211,2064 },
+ { 212,2064 }, { 213,2064 }, { 214,2064 }, { 215,2064 }, { 216,2064 },
+ { 217,2064 }, { 218,2064 }, { 219,2064 }, { 220,2064 }, { 221,2064 },
+ { 222,2064 }, { 223,2064 }, { 224,2064 }, { 225,2064 }, { 226,2064 },
+ { 227,2064 }, { 228,2064 }, { 229,2064 }, { 230,2064 }, { 231,2064 },
 
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   4 },
- {   0,4942 }, {   1,-257 }, {   2,-257 }, {   3,-257 }, {   4,-257 },
- {   5,-257 }, {   6,-257 }, {   7,-257 }, {   8,-257 }, {   9,-257 },
-
- {  10,-380 }, {  11,-257 }, {  12,-257 }, {  13,-380 }, {  14,-257 },
- {  15,-257 }, {  16,-257 }, {  17,-257 }, {  18,-257 }, {  19,-257 },
- {  20,-257 }, {  21,-257 }, {  22,-257 }, {  23,-257 }, {  24,-257 },
- {  25,-257 }, {  26,-257 }, {  27,-257 }, {  28,-257 }, {  29,-257 },
- {  30,-257 }, {  31,-257 }, {  32,-257 }, {  33,-257 }, {  34,-257 },
- {  35,-257 }, {  36,-257 }, {  37,-257 }, {  38,-257 }, {  39,-257 },
- {  40,-257 }, {  41,-257 }, {  42,-257 }, {  43,-257 }, {  44,-257 },
- {  45,-257 }, {  46,-257 }, {  47,-257 }, {  48,-257 }, {  49,-257 },
- {  50,-257 }, {  51,-257 }, {  52,-257 }, {  53,-257 }, {  54,-257 },
- {  55,-257 }, {  56,-257 }, {  57,-257 }, {  58,-257 }, {  59,-257 },
-
- {  60,-257 }, {  61,-257 }, {  62,-257 }, {  63,-257 }, {  64,-257 },
- {  65,-257 }, {  66,-257 }, {  67,-257 }, {  68,-257 }, {  69,-257 },
- {  70,-257 }, {  71,-257 }, {  72,-257 }, {  73,-257 }, {  74,-257 },
- {  75,-257 }, {  76,-257 }, {  77,-257 }, {  78,-257 }, {  79,-257 },
- {  80,-257 }, {  81,-257 }, {  82,-257 }, {  83,-257 }, {  84,-257 },
- {  85,-257 }, {  86,-257 }, {  87,-257 }, {  88,-257 }, {  89,-257 },
- {  90,-257 }, {  91,-257 }, {   0,   0 }, {  93,-257 }, {  94,-257 },
- {  95,-257 }, {  96,-257 }, {  97,-257 }, {  98,-257 }, {  99,-257 },
- { 100,-257 }, { 101,-257 }, { 102,-257 }, { 103,-257 }, { 104,-257 },
- { 105,-257 }, { 106,-257 }, { 107,-257 }, { 108,-257 }, { 109,-257 },
-
- { 110,-257 }, { 111,-257 }, { 112,-257 }, { 113,-257 }, { 114,-257 },
- { 115,-257 }, { 116,-257 }, { 117,-257 }, { 118,-257 }, { 119,-257 },
- { 120,-257 }, { 121,-257 }, { 122,-257 }, {   0,   0 }, { 124,-257 },
- { 125,-257 }, { 126,-257 }, { 127,-257 }, { 128,-257 }, { 129,-257 },
- { 130,-257 }, { 131,-257 }, { 132,-257 }, { 133,-257 }, { 134,-257 },
- { 135,-257 }, { 136,-257 }, { 137,-257 }, { 138,-257 }, { 139,-257 },
- { 140,-257 }, { 141,-257 }, { 142,-257 }, { 143,-257 }, { 144,-257 },
- { 145,-257 }, { 146,-257 }, { 147,-257 }, { 148,-257 }, { 149,-257 },
- { 150,-257 }, { 151,-257 }, { 152,-257 }, { 153,-257 }, { 154,-257 },
- { 155,-257 }, { 156,-257 }, { 157,-257 }, { 158,-257 }, { 159,-257 },
-
- { 160,-257 }, { 161,-257 }, { 162,-257 }, { 163,-257 }, { 164,-257 },
- { 165,-257 }, { 166,-257 }, { 167,-257 }, { 168,-257 }, { 169,-257 },
- { 170,-257 }, { 171,-257 }, { 172,-257 }, { 173,-257 }, { 174,-257 },
- { 175,-257 }, { 176,-257 }, { 177,-257 }, { 178,-257 }, { 179,-257 },
- { 180,-257 }, { 181,-257 }, { 182,-257 }, { 183,-257 }, { 184,-257 },
- { 185,-257 }, { 186,-257 }, { 187,-257 }, { 188,-257 }, { 189,-257 },
- { 190,-257 }, { 191,-257 }, { 192,-257 }, { 193,-257 }, { 194,-257 },
- { 195,-257 }, { 196,-257 }, { 197,-257 }, { 198,-257 }, { 199,-257 },
- { 200,-257 }, { 201,-257 }, { 202,-257 }, { 203,-257 }, { 204,-257 },
- { 205,-257 }, { 206,-257 }, { 207,-257 }, { 208,-257 }, { 209,-257 },
-
- { 210,-257 }, { 211,-257 }, { 212,-257 }, { 213,-257 }, { 214,-257 },
- { 215,-257 }, { 216,-257 }, { 217,-257 }, { 218,-257 }, { 219,-257 },
- { 220,-257 }, { 221,-257 }, { 222,-257 }, { 223,-257 }, { 224,-257 },
- { 225,-257 }, { 226,-257 }, { 227,-257 }, { 228,-257 }, { 229,-257 },
- { 230,-257 }, { 231,-257 }, { 232,-257 }, { 233,-257 }, { 234,-257 },
- { 235,-257 }, { 236,-257 }, { 237,-257 }, { 238,-257 }, { 239,-257 },
- { 240,-257 }, { 241,-257 }, { 242,-257 }, { 243,-257 }, { 244,-257 },
- { 245,-257 }, { 246,-257 }, { 247,-257 }, { 248,-257 }, { 249,-257 },
- { 250,-257 }, { 251,-257 }, { 252,-257 }, { 253,-257 }, { 254,-257 },
- { 255,-257 }, {   0,   0 }, {   0,4685 }, {   1,-7349 }, {   2,-7349 },
-
- {   3,-7349 }, {   4,-7349 }, {   5,-7349 }, {   6,-7349 }, {   7,-7349 },
- {   8,-7349 }, {   9,-7374 }, {  10,-7374 }, {  11,-7349 }, {  12,-7349 },
- {  13,-7374 }, {  14,-7349 }, {  15,-7349 }, {  16,-7349 }, {  17,-7349 },
- {  18,-7349 }, {  19,-7349 }, {  20,-7349 }, {  21,-7349 }, {  22,-7349 },
- {  23,-7349 }, {  24,-7349 }, {  25,-7349 }, {  26,-7349 }, {  27,-7349 },
- {  28,-7349 }, {  29,-7349 }, {  30,-7349 }, {  31,-7349 }, {  32,-7374 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7349 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-7374 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-7349 }, {  46,-7374 }, {  47,-7374 },
- {  48,-7349 }, {  49,-7349 }, {  50,-7349 }, {  51,-7349 }, {  52,-7349 },
-
- {  53,-7349 }, {  54,-7349 }, {  55,-7349 }, {  56,-7349 }, {  57,-7349 },
- {  58,-7349 }, {   0,   0 }, {   0,   0 }, {  61,-7374 }, {   0,   0 },
- {  63,-7349 }, {   0,   0 }, {  65,-7349 }, {  66,-7349 }, {  67,-7349 },
- {  68,-7349 }, {  69,-7349 }, {  70,-7349 }, {  71,-7349 }, {  72,-7349 },
- {  73,-7349 }, {  74,-7349 }, {  75,-7349 }, {  76,-7349 }, {  77,-7349 },
- {  78,-7349 }, {  79,-7349 }, {  80,-7349 }, {  81,-7349 }, {  82,-7349 },
- {  83,-7349 }, {  84,-7349 }, {  85,-7349 }, {  86,-7349 }, {  87,-7349 },
- {  88,-7349 }, {  89,-7349 }, {  90,-7349 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-7349 }, {   0,   0 }, {  97,-7349 },
- {  98,-7349 }, {  99,-7349 }, { 100,-7349 }, { 101,1448 }, { 102,-7349 },
-
- { 103,-7349 }, { 104,-7349 }, { 105,-7349 }, { 106,-7349 }, { 107,-7349 },
- { 108,-7349 }, { 109,-7349 }, { 110,-7349 }, { 111,-7349 }, { 112,-7349 },
- { 113,-7349 }, { 114,-7349 }, { 115,-7349 }, { 116,-7349 }, { 117,-7349 },
- { 118,-7349 }, { 119,-7349 }, { 120,-7349 }, { 121,-7349 }, { 122,-7349 },
- {   0,   0 }, { 124,-7374 }, { 125,-7374 }, { 126,-7374 }, { 127,-7349 },
- { 128,-7349 }, { 129,-7349 }, { 130,-7349 }, { 131,-7349 }, { 132,-7349 },
- { 133,-7349 }, { 134,-7349 }, { 135,-7349 }, { 136,-7349 }, { 137,-7349 },
- { 138,-7349 }, { 139,-7349 }, { 140,-7349 }, { 141,-7349 }, { 142,-7349 },
- { 143,-7349 }, { 144,-7349 }, { 145,-7349 }, { 146,-7349 }, { 147,-7349 },
- { 148,-7349 }, { 149,-7349 }, { 150,-7349 }, { 151,-7349 }, { 152,-7349 },
-
- { 153,-7349 }, { 154,-7349 }, { 155,-7349 }, { 156,-7349 }, { 157,-7349 },
- { 158,-7349 }, { 159,-7349 }, { 160,-7349 }, { 161,-7349 }, { 162,-7349 },
- { 163,-7349 }, { 164,-7349 }, { 165,-7349 }, { 166,-7349 }, { 167,-7349 },
- { 168,-7349 }, { 169,-7349 }, { 170,-7349 }, { 171,-7349 }, { 172,-7349 },
- { 173,-7349 }, { 174,-7349 }, { 175,-7349 }, { 176,-7349 }, { 177,-7349 },
- { 178,-7349 }, { 179,-7349 }, { 180,-7349 }, { 181,-7349 }, { 182,-7349 },
- { 183,-7349 }, { 184,-7349 }, { 185,-7349 }, { 186,-7349 }, { 187,-7349 },
- { 188,-7349 }, { 189,-7349 }, { 190,-7349 }, { 191,-7349 }, { 192,-7349 },
- { 193,-7349 }, { 194,-7349 }, { 195,-7349 }, { 196,-7349 }, { 197,-7349 },
- { 198,-7349 }, { 199,-7349 }, { 200,-7349 }, { 201,-7349 }, { 202,-7349 },
-
- { 203,-7349 }, { 204,-7349 }, { 205,-7349 }, { 206,-7349 }, { 207,-7349 },
- { 208,-7349 }, { 209,-7349 }, { 210,-7349 }, { 211,-7349 }, { 212,-7349 },
- { 213,-7349 }, { 214,-7349 }, { 215,-7349 }, { 216,-7349 }, { 217,-7349 },
- { 218,-7349 }, { 219,-7349 }, { 220,-7349 }, { 221,-7349 }, { 222,-7349 },
- { 223,-7349 }, { 224,-7349 }, { 225,-7349 }, { 226,-7349 }, { 227,-7349 },
- { 228,-7349 }, { 229,-7349 }, { 230,-7349 }, { 231,-7349 }, { 232,-7349 },
- { 233,-7349 }, { 234,-7349 }, { 235,-7349 }, { 236,-7349 }, { 237,-7349 },
- { 238,-7349 }, { 239,-7349 }, { 240,-7349 }, { 241,-7349 }, { 242,-7349 },
- { 243,-7349 }, { 244,-7349 }, { 245,-7349 }, { 246,-7349 }, { 247,-7349 },
- { 248,-7349 }, { 249,-7349 }, { 250,-7349 }, { 251,-7349 }, { 252,-7349 },
-
- { 253,-7349 }, { 254,-7349 }, { 255,-7349 }, { 256,-7349 }, {   0,   0 },
- {   0,4427 }, {   1,-7607 }, {   2,-7607 }, {   3,-7607 }, {   4,-7607 },
- {   5,-7607 }, {   6,-7607 }, {   7,-7607 }, {   8,-7607 }, {   9,1167 },
- {  10,1167 }, {  11,-7607 }, {  12,-7607 }, {  13,1167 }, {  14,-7607 },
- {  15,-7607 }, {  16,-7607 }, {  17,-7607 }, {  18,-7607 }, {  19,-7607 },
- {  20,-7607 }, {  21,-7607 }, {  22,-7607 }, {  23,-7607 }, {  24,-7607 },
- {  25,-7607 }, {  26,-7607 }, {  27,-7607 }, {  28,-7607 }, {  29,-7607 },
- {  30,-7607 }, {  31,-7607 }, {  32,1167 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-7607 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,1167 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  45,-7607 }, {  46,-7632 }, {  47,-7632 }, {  48,-7607 }, {  49,-7607 },
- {  50,-7607 }, {  51,-7607 }, {  52,-7607 }, {  53,-7607 }, {  54,-7607 },
- {  55,-7607 }, {  56,-7607 }, {  57,-7607 }, {  58,-7607 }, {   0,   0 },
- {   0,   0 }, {  61,-7632 }, {   0,   0 }, {  63,-7607 }, {   0,   0 },
- {  65,-7607 }, {  66,-7607 }, {  67,-7607 }, {  68,-7607 }, {  69,-7607 },
- {  70,-7607 }, {  71,-7607 }, {  72,-7607 }, {  73,-7607 }, {  74,-7607 },
- {  75,-7607 }, {  76,-7607 }, {  77,-7607 }, {  78,-7607 }, {  79,-7607 },
- {  80,-7607 }, {  81,-7607 }, {  82,-7607 }, {  83,-7607 }, {  84,-7607 },
- {  85,-7607 }, {  86,-7607 }, {  87,-7607 }, {  88,-7607 }, {  89,-7607 },
- {  90,-7607 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {  95,-7607 }, {   0,   0 }, {  97,-7607 }, {  98,-7607 }, {  99,-7607 },
- { 100,-7607 }, { 101,-7607 }, { 102,-7607 }, { 103,-7607 }, { 104,-7607 },
- { 105,-7607 }, { 106,-7607 }, { 107,-7607 }, { 108,-7607 }, { 109,-7607 },
- { 110,-7607 }, { 111,-7607 }, { 112,-7607 }, { 113,-7607 }, { 114,-7607 },
- { 115,-7607 }, { 116,-7607 }, { 117,-7607 }, { 118,-7607 }, { 119,-7607 },
- { 120,-7607 }, { 121,-7607 }, { 122,-7607 }, {   0,   0 }, { 124,-7632 },
- { 125,1167 }, { 126,1167 }, { 127,-7607 }, { 128,-7607 }, { 129,-7607 },
- { 130,-7607 }, { 131,-7607 }, { 132,-7607 }, { 133,-7607 }, { 134,-7607 },
- { 135,-7607 }, { 136,-7607 }, { 137,-7607 }, { 138,-7607 }, { 139,-7607 },
- { 140,-7607 }, { 141,-7607 }, { 142,-7607 }, { 143,-7607 }, { 144,-7607 },
-
- { 145,-7607 }, { 146,-7607 }, { 147,-7607 }, { 148,-7607 }, { 149,-7607 },
- { 150,-7607 }, { 151,-7607 }, { 152,-7607 }, { 153,-7607 }, { 154,-7607 },
- { 155,-7607 }, { 156,-7607 }, { 157,-7607 }, { 158,-7607 }, { 159,-7607 },
- { 160,-7607 }, { 161,-7607 }, { 162,-7607 }, { 163,-7607 }, { 164,-7607 },
- { 165,-7607 }, { 166,-7607 }, { 167,-7607 }, { 168,-7607 }, { 169,-7607 },
- { 170,-7607 }, { 171,-7607 }, { 172,-7607 }, { 173,-7607 }, { 174,-7607 },
- { 175,-7607 }, { 176,-7607 }, { 177,-7607 }, { 178,-7607 }, { 179,-7607 },
- { 180,-7607 }, { 181,-7607 }, { 182,-7607 }, { 183,-7607 }, { 184,-7607 },
- { 185,-7607 }, { 186,-7607 }, { 187,-7607 }, { 188,-7607 }, { 189,-7607 },
- { 190,-7607 }, { 191,-7607 }, { 192,-7607 }, { 193,-7607 }, { 194,-7607 },
-
- { 195,-7607 }, { 196,-7607 }, { 197,-7607 }, { 198,-7607 }, { 199,-7607 },
- { 200,-7607 }, { 201,-7607 }, { 202,-7607 }, { 203,-7607 }, { 204,-7607 },
- { 205,-7607 }, { 206,-7607 }, { 207,-7607 }, { 208,-7607 }, { 209,-7607 },
- { 210,-7607 }, { 211,-7607 }, { 212,-7607 }, { 213,-7607 }, { 214,-7607 },
- { 215,-7607 }, { 216,-7607 }, { 217,-7607 }, { 218,-7607 }, { 219,-7607 },
- { 220,-7607 }, { 221,-7607 }, { 222,-7607 }, { 223,-7607 }, { 224,-7607 },
- { 225,-7607 }, { 226,-7607 }, { 227,-7607 }, { 228,-7607 }, { 229,-7607 },
- { 230,-7607 }, { 231,-7607 }, { 232,-7607 }, { 233,-7607 }, { 234,-7607 },
- { 235,-7607 }, { 236,-7607 }, { 237,-7607 }, { 238,-7607 }, { 239,-7607 },
- { 240,-7607 }, { 241,-7607 }, { 242,-7607 }, { 243,-7607 }, { 244,-7607 },
-
- { 245,-7607 }, { 246,-7607 }, { 247,-7607 }, { 248,-7607 }, { 249,-7607 },
- { 250,-7607 }, { 251,-7607 }, { 252,-7607 }, { 253,-7607 }, { 254,-7607 },
- { 255,-7607 }, { 256,-7607 }, {   0,   0 }, {   0,4169 }, {   1,-7865 },
- {   2,-7865 }, {   3,-7865 }, {   4,-7865 }, {   5,-7865 }, {   6,-7865 },
- {   7,-7865 }, {   8,-7865 }, {   9, 911 }, {  10, 911 }, {  11,-7865 },
- {  12,-7865 }, {  13, 911 }, {  14,-7865 }, {  15,-7865 }, {  16,-7865 },
- {  17,-7865 }, {  18,-7865 }, {  19,-7865 }, {  20,-7865 }, {  21,-7865 },
- {  22,-7865 }, {  23,-7865 }, {  24,-7865 }, {  25,-7865 }, {  26,-7865 },
- {  27,-7865 }, {  28,-7865 }, {  29,-7865 }, {  30,-7865 }, {  31,-7865 },
- {  32, 911 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7865 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, 911 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7865 }, {  46,-7890 },
- {  47,-7890 }, {  48,-7865 }, {  49,-7865 }, {  50,-7865 }, {  51,-7865 },
- {  52,-7865 }, {  53,-7865 }, {  54,-7865 }, {  55,-7865 }, {  56,-7865 },
- {  57,-7865 }, {  58,-7865 }, {   0,   0 }, {   0,   0 }, {  61,-7890 },
- {   0,   0 }, {  63,-7865 }, {   0,   0 }, {  65,-7865 }, {  66,-7865 },
- {  67,-7865 }, {  68,-7865 }, {  69,-7865 }, {  70,-7865 }, {  71,-7865 },
- {  72,-7865 }, {  73,-7865 }, {  74,-7865 }, {  75,-7865 }, {  76,-7865 },
- {  77,-7865 }, {  78,-7865 }, {  79,-7865 }, {  80,-7865 }, {  81,-7865 },
- {  82,-7865 }, {  83,-7865 }, {  84,-7865 }, {  85,-7865 }, {  86,-7865 },
-
- {  87,-7865 }, {  88,-7865 }, {  89,-7865 }, {  90,-7865 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7865 }, {   0,   0 },
- {  97,-7865 }, {  98,-7865 }, {  99,-7865 }, { 100,-7865 }, { 101,-7865 },
- { 102,-7865 }, { 103,-7865 }, { 104,-7865 }, { 105,-7865 }, { 106,-7865 },
- { 107,-7865 }, { 108,-7865 }, { 109,-7865 }, { 110,-7865 }, { 111,-7865 },
- { 112,-7865 }, { 113,-7865 }, { 114,-7865 }, { 115,-7865 }, { 116,-7865 },
- { 117,-7865 }, { 118,-7865 }, { 119,-7865 }, { 120,-7865 }, { 121,-7865 },
- { 122,-7865 }, {   0,   0 }, { 124,-7890 }, { 125, 911 }, { 126, 911 },
- { 127,-7865 }, { 128,-7865 }, { 129,-7865 }, { 130,-7865 }, { 131,-7865 },
- { 132,-7865 }, { 133,-7865 }, { 134,-7865 }, { 135,-7865 }, { 136,-7865 },
-
- { 137,-7865 }, { 138,-7865 }, { 139,-7865 }, { 140,-7865 }, { 141,-7865 },
- { 142,-7865 }, { 143,-7865 }, { 144,-7865 }, { 145,-7865 }, { 146,-7865 },
- { 147,-7865 }, { 148,-7865 }, { 149,-7865 }, { 150,-7865 }, { 151,-7865 },
- { 152,-7865 }, { 153,-7865 }, { 154,-7865 }, { 155,-7865 }, { 156,-7865 },
- { 157,-7865 }, { 158,-7865 }, { 159,-7865 }, { 160,-7865 }, { 161,-7865 },
- { 162,-7865 }, { 163,-7865 }, { 164,-7865 }, { 165,-7865 }, { 166,-7865 },
- { 167,-7865 }, { 168,-7865 }, { 169,-7865 }, { 170,-7865 }, { 171,-7865 },
- { 172,-7865 }, { 173,-7865 }, { 174,-7865 }, { 175,-7865 }, { 176,-7865 },
- { 177,-7865 }, { 178,-7865 }, { 179,-7865 }, { 180,-7865 }, { 181,-7865 },
- { 182,-7865 }, { 183,-7865 }, { 184,-7865 }, { 185,-7865 }, { 186,-7865 },
-
- { 187,-7865 }, { 188,-7865 }, { 189,-7865 }, { 190,-7865 }, { 191,-7865 },
- { 192,-7865 }, { 193,-7865 }, { 194,-7865 }, { 195,-7865 }, { 196,-7865 },
- { 197,-7865 }, { 198,-7865 }, { 199,-7865 }, { 200,-7865 }, { 201,-7865 },
- { 202,-7865 }, { 203,-7865 }, { 204,-7865 }, { 205,-7865 }, { 206,-7865 },
- { 207,-7865 }, { 208,-7865 }, { 209,-7865 }, { 210,-7865 }, { 211,-7865 },
- { 212,-7865 }, { 213,-7865 }, { 214,-7865 }, { 215,-7865 }, { 216,-7865 },
- { 217,-7865 }, { 218,-7865 }, { 219,-7865 }, { 220,-7865 }, { 221,-7865 },
- { 222,-7865 }, { 223,-7865 }, { 224,-7865 }, { 225,-7865 }, { 226,-7865 },
- { 227,-7865 }, { 228,-7865 }, { 229,-7865 }, { 230,-7865 }, { 231,-7865 },
- { 232,-7865 }, { 233,-7865 }, { 234,-7865 }, { 235,-7865 }, { 236,-7865 },
-
- { 237,-7865 }, { 238,-7865 }, { 239,-7865 }, { 240,-7865 }, { 241,-7865 },
- { 242,-7865 }, { 243,-7865 }, { 244,-7865 }, { 245,-7865 }, { 246,-7865 },
- { 247,-7865 }, { 248,-7865 }, { 249,-7865 }, { 250,-7865 }, { 251,-7865 },
- { 252,-7865 }, { 253,-7865 }, { 254,-7865 }, { 255,-7865 }, { 256,-7865 },
- {   0,   0 }, {   0,3911 }, {   1,-8123 }, {   2,-8123 }, {   3,-8123 },
- {   4,-8123 }, {   5,-8123 }, {   6,-8123 }, {   7,-8123 }, {   8,-8123 },
- {   9,-8148 }, {  10,-8148 }, {  11,-8123 }, {  12,-8123 }, {  13,-8148 },
- {  14,-8123 }, {  15,-8123 }, {  16,-8123 }, {  17,-8123 }, {  18,-8123 },
- {  19,-8123 }, {  20,-8123 }, {  21,-8123 }, {  22,-8123 }, {  23,-8123 },
- {  24,-8123 }, {  25,-8123 }, {  26,-8123 }, {  27,-8123 }, {  28,-8123 },
-
- {  29,-8123 }, {  30,-8123 }, {  31,-8123 }, {  32,-8148 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-8123 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-8148 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-8123 }, {  46,-8148 }, {  47,-8148 }, {  48,-8123 },
- {  49,-8123 }, {  50,-8123 }, {  51,-8123 }, {  52,-8123 }, {  53,-8123 },
- {  54,-8123 }, {  55,-8123 }, {  56,-8123 }, {  57,-8123 }, {  58,-8123 },
- {   0,   0 }, {   0,   0 }, {  61,-8148 }, {   0,   0 }, {  63,-8123 },
- {   0,   0 }, {  65,-8123 }, {  66,-8123 }, {  67,-8123 }, {  68,-8123 },
- {  69,-8123 }, {  70,-8123 }, {  71,-8123 }, {  72,-8123 }, {  73,-8123 },
- {  74,-8123 }, {  75,-8123 }, {  76,-8123 }, {  77,-8123 }, {  78,-8123 },
-
- {  79,-8123 }, {  80,-8123 }, {  81,-8123 }, {  82,-8123 }, {  83,-8123 },
- {  84,-8123 }, {  85,-8123 }, {  86,-8123 }, {  87,-8123 }, {  88,-8123 },
- {  89,-8123 }, {  90,-8123 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-8123 }, {   0,   0 }, {  97,-8123 }, {  98,-8123 },
- {  99,-8123 }, { 100,-8123 }, { 101,-8123 }, { 102, 932 }, { 103,-8123 },
- { 104,-8123 }, { 105,-8123 }, { 106,-8123 }, { 107,-8123 }, { 108,-8123 },
- { 109,-8123 }, { 110,-8123 }, { 111,-8123 }, { 112,-8123 }, { 113,-8123 },
- { 114,-8123 }, { 115,-8123 }, { 116,-8123 }, { 117,-8123 }, { 118,-8123 },
- { 119,-8123 }, { 120,-8123 }, { 121,-8123 }, { 122,-8123 }, {   0,   0 },
- { 124,-8148 }, { 125,-8148 }, { 126,-8148 }, { 127,-8123 }, { 128,-8123 },
-
- { 129,-8123 }, { 130,-8123 }, { 131,-8123 }, { 132,-8123 }, { 133,-8123 },
- { 134,-8123 }, { 135,-8123 }, { 136,-8123 }, { 137,-8123 }, { 138,-8123 },
- { 139,-8123 }, { 140,-8123 }, { 141,-8123 }, { 142,-8123 }, { 143,-8123 },
- { 144,-8123 }, { 145,-8123 }, { 146,-8123 }, { 147,-8123 }, { 148,-8123 },
- { 149,-8123 }, { 150,-8123 }, { 151,-8123 }, { 152,-8123 }, { 153,-8123 },
- { 154,-8123 }, { 155,-8123 }, { 156,-8123 }, { 157,-8123 }, { 158,-8123 },
- { 159,-8123 }, { 160,-8123 }, { 161,-8123 }, { 162,-8123 }, { 163,-8123 },
- { 164,-8123 }, { 165,-8123 }, { 166,-8123 }, { 167,-8123 }, { 168,-8123 },
- { 169,-8123 }, { 170,-8123 }, { 171,-8123 }, { 172,-8123 }, { 173,-8123 },
- { 174,-8123 }, { 175,-8123 }, { 176,-8123 }, { 177,-8123 }, { 178,-8123 },
-
- { 179,-8123 }, { 180,-8123 }, { 181,-8123 }, { 182,-8123 }, { 183,-8123 },
- { 184,-8123 }, { 185,-8123 }, { 186,-8123 }, { 187,-8123 }, { 188,-8123 },
- { 189,-8123 }, { 190,-8123 }, { 191,-8123 }, { 192,-8123 }, { 193,-8123 },
- { 194,-8123 }, { 195,-8123 }, { 196,-8123 }, { 197,-8123 }, { 198,-8123 },
- { 199,-8123 }, { 200,-8123 }, { 201,-8123 }, { 202,-8123 }, { 203,-8123 },
- { 204,-8123 }, { 205,-8123 }, { 206,-8123 }, { 207,-8123 }, { 208,-8123 },
- { 209,-8123 }, { 210,-8123 }, { 211,-8123 }, { 212,-8123 }, { 213,-8123 },
- { 214,-8123 }, { 215,-8123 }, { 216,-8123 }, { 217,-8123 }, { 218,-8123 },
- { 219,-8123 }, { 220,-8123 }, { 221,-8123 }, { 222,-8123 }, { 223,-8123 },
- { 224,-8123 }, { 225,-8123 }, { 226,-8123 }, { 227,-8123 }, { 228,-8123 },
-
- { 229,-8123 }, { 230,-8123 }, { 231,-8123 }, { 232,-8123 }, { 233,-8123 },
- { 234,-8123 }, { 235,-8123 }, { 236,-8123 }, { 237,-8123 }, { 238,-8123 },
- { 239,-8123 }, { 240,-8123 }, { 241,-8123 }, { 242,-8123 }, { 243,-8123 },
- { 244,-8123 }, { 245,-8123 }, { 246,-8123 }, { 247,-8123 }, { 248,-8123 },
- { 249,-8123 }, { 250,-8123 }, { 251,-8123 }, { 252,-8123 }, { 253,-8123 },
- { 254,-8123 }, { 255,-8123 }, { 256,-8123 }, {   0,   0 }, {   0,3653 },
- {   0,   0 }, {   0,3651 }, {   0,   0 }, {   0,3649 }, {   0,   0 },
- {   0,3647 }, {   0,   0 }, {   0,3645 }, {   0,  16 }, {   0,3643 },
- {   0,  26 }, {   0,3641 }, {   0,  17 }, {   0,3639 }, {   0,  36 },
- {   0,3637 }, {   0,   0 }, {   0,3635 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,1039 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,   0 },
- { 108, 932 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- { 115, 932 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   2 },
- { 126,   4 }, { 125, 934 }, {   0,   0 }, { 125,  -2 }, {   0,   0 },
- {   0,3522 }, {   1, 811 }, {   2, 811 }, {   3, 811 }, {   4, 811 },
- {   5, 811 }, {   6, 811 }, {   7, 811 }, {   8, 811 }, {   9, 811 },
- {  10, 811 }, {  11, 811 }, {  12, 811 }, {  13, 811 }, {  14, 811 },
- {  15, 811 }, {  16, 811 }, {  17, 811 }, {  18, 811 }, {  19, 811 },
- {  20, 811 }, {  21, 811 }, {  22, 811 }, {  23, 811 }, {  24, 811 },
- {  25, 811 }, {  26, 811 }, {  27, 811 }, {  28, 811 }, {  29, 811 },
- {  30, 811 }, {  31, 811 }, {  32, 811 }, {  33, 811 }, {  34, 811 },
- {  35, 811 }, {  36, 811 }, {  37, 811 }, {  38, 811 }, {  39, 811 },
-
- {  40, 811 }, {  41, 811 }, {  42, 811 }, {  43, 811 }, {  44, 811 },
- {  45, 811 }, {  46, 811 }, {  47,1184 }, {  48, 811 }, {  49, 811 },
- {  50, 811 }, {  51, 811 }, {  52, 811 }, {  53, 811 }, {  54, 811 },
- {  55, 811 }, {  56, 811 }, {  57, 811 }, {  58, 811 }, {  59, 811 },
- {  60, 811 }, {  61, 811 }, {  62, 811 }, {  63, 811 }, {  64, 811 },
- {  65, 811 }, {  66, 811 }, {  67, 811 }, {  68, 811 }, {  69, 811 },
- {  70, 811 }, {  71, 811 }, {  72, 811 }, {  73, 811 }, {  74, 811 },
- {  75, 811 }, {  76, 811 }, {  77, 811 }, {  78, 811 }, {  79, 811 },
- {  80, 811 }, {  81, 811 }, {  82, 811 }, {  83, 811 }, {  84, 811 },
- {  85, 811 }, {  86, 811 }, {  87, 811 }, {  88, 811 }, {  89, 811 },
-
- {  90, 811 }, {  91, 811 }, {  92, 811 }, {  93, 811 }, {  94, 811 },
- {  95, 811 }, {  96, 811 }, {  97, 811 }, {  98, 811 }, {  99, 811 },
- { 100, 811 }, { 101, 811 }, { 102, 811 }, { 103, 811 }, { 104, 811 },
- { 105, 811 }, { 106, 811 }, { 107, 811 }, { 108, 811 }, { 109, 811 },
- { 110, 811 }, { 111, 811 }, { 112, 811 }, { 113, 811 }, { 114, 811 },
- { 115, 811 }, { 116, 811 }, { 117, 811 }, { 118, 811 }, { 119, 811 },
- { 120, 811 }, { 121, 811 }, { 122, 811 }, { 123, 811 }, { 124, 811 },
- { 125, 811 }, { 126, 811 }, { 127, 811 }, { 128, 811 }, { 129, 811 },
- { 130, 811 }, { 131, 811 }, { 132, 811 }, { 133, 811 }, { 134, 811 },
- { 135, 811 }, { 136, 811 }, { 137, 811 }, { 138, 811 }, { 139, 811 },
-
- { 140, 811 }, { 141, 811 }, { 142, 811 }, { 143, 811 }, { 144, 811 },
- { 145, 811 }, { 146, 811 }, { 147, 811 }, { 148, 811 }, { 149, 811 },
- { 150, 811 }, { 151, 811 }, { 152, 811 }, { 153, 811 }, { 154, 811 },
- { 155, 811 }, { 156, 811 }, { 157, 811 }, { 158, 811 }, { 159, 811 },
- { 160, 811 }, { 161, 811 }, { 162, 811 }, { 163, 811 }, { 164, 811 },
- { 165, 811 }, { 166, 811 }, { 167, 811 }, { 168, 811 }, { 169, 811 },
- { 170, 811 }, { 171, 811 }, { 172, 811 }, { 173, 811 }, { 174, 811 },
- { 175, 811 }, { 176, 811 }, { 177, 811 }, { 178, 811 }, { 179, 811 },
- { 180, 811 }, { 181, 811 }, { 182, 811 }, { 183, 811 }, { 184, 811 },
- { 185, 811 }, { 186, 811 }, { 187, 811 }, { 188, 811 }, { 189, 811 },
-
- { 190, 811 }, { 191, 811 }, { 192, 811 }, { 193, 811 }, { 194, 811 },
- { 195, 811 }, { 196, 811 }, { 197, 811 }, { 198, 811 }, { 199, 811 },
- { 200, 811 }, { 201, 811 }, { 202, 811 }, { 203, 811 }, { 204, 811 },
- { 205, 811 }, { 206, 811 }, { 207, 811 }, { 208, 811 }, { 209, 811 },
- { 210, 811 }, { 211, 811 }, { 212, 811 }, { 213, 811 }, { 214, 811 },
- { 215, 811 }, { 216, 811 }, { 217, 811 }, { 218, 811 }, { 219, 811 },
- { 220, 811 }, { 221, 811 }, { 222, 811 }, { 223, 811 }, { 224, 811 },
- { 225, 811 }, { 226, 811 }, { 227, 811 }, { 228, 811 }, { 229, 811 },
- { 230, 811 }, { 231, 811 }, { 232, 811 }, { 233, 811 }, { 234, 811 },
- { 235, 811 }, { 236, 811 }, { 237, 811 }, { 238, 811 }, { 239, 811 },
-
- { 240, 811 }, { 241, 811 }, { 242, 811 }, { 243, 811 }, { 244, 811 },
- { 245, 811 }, { 246, 811 }, { 247, 811 }, { 248, 811 }, { 249, 811 },
- { 250, 811 }, { 251, 811 }, { 252, 811 }, { 253, 811 }, { 254, 811 },
- { 255, 811 }, { 256, 811 }, {   0,   1 }, {   0,3264 }, {   0,   1 },
- {   0,3262 }, {   0,  46 }, {   0,3260 }, {   0,  43 }, {   0,3258 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,3237 }, {   1,-8797 }, {   2,-8797 }, {   3,-8797 }, {   4,-8797 },
-
- {   5,-8797 }, {   6,-8797 }, {   7,-8797 }, {   8,-8797 }, {   9, 530 },
- {  10, 530 }, {  11,-8797 }, {  12,-8797 }, {  13, 530 }, {  14,-8797 },
- {  15,-8797 }, {  16,-8797 }, {  17,-8797 }, {  18,-8797 }, {  19,-8797 },
- {  20,-8797 }, {  21,-8797 }, {  22,-8797 }, {  23,-8797 }, {  24,-8797 },
- {  25,-8797 }, {  26,-8797 }, {  27,-8797 }, {  28,-8797 }, {  29,-8797 },
- {  30,-8797 }, {  31,-8797 }, {  32, 530 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-8797 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41, 530 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-8797 }, {  46,-8822 }, {  47,-8822 }, {  48,-8797 }, {  49,-8797 },
- {  50,-8797 }, {  51,-8797 }, {  52,-8797 }, {  53,-8797 }, {  54,-8797 },
-
- {  55,-8797 }, {  56,-8797 }, {  57,-8797 }, {  58,-8797 }, {   0,   0 },
- {   0,   0 }, {  61,-8822 }, {   0,   0 }, {  63,-8797 }, {   0,   0 },
- {  65,-8797 }, {  66,-8797 }, {  67,-8797 }, {  68,-8797 }, {  69,-8797 },
- {  70,-8797 }, {  71,-8797 }, {  72,-8797 }, {  73,-8797 }, {  74,-8797 },
- {  75,-8797 }, {  76,-8797 }, {  77,-8797 }, {  78,-8797 }, {  79,-8797 },
- {  80,-8797 }, {  81,-8797 }, {  82,-8797 }, {  83,-8797 }, {  84,-8797 },
- {  85,-8797 }, {  86,-8797 }, {  87,-8797 }, {  88,-8797 }, {  89,-8797 },
- {  90,-8797 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-8797 }, { 123, 555 }, {  97,-8797 }, {  98,-8797 }, {  99,-8797 },
- { 100,-8797 }, { 101,-8797 }, { 102,-8797 }, { 103,-8797 }, { 104,-8797 },
-
- { 105,-8797 }, { 106,-8797 }, { 107,-8797 }, { 108,-8797 }, { 109,-8797 },
- { 110,-8797 }, { 111,-8797 }, { 112,-8797 }, { 113,-8797 }, { 114,-8797 },
- { 115,-8797 }, { 116,-8797 }, { 117,-8797 }, { 118,-8797 }, { 119,-8797 },
- { 120,-8797 }, { 121,-8797 }, { 122,-8797 }, {   0,   0 }, { 124,-8822 },
- { 125, 530 }, { 126, 530 }, { 127,-8797 }, { 128,-8797 }, { 129,-8797 },
- { 130,-8797 }, { 131,-8797 }, { 132,-8797 }, { 133,-8797 }, { 134,-8797 },
- { 135,-8797 }, { 136,-8797 }, { 137,-8797 }, { 138,-8797 }, { 139,-8797 },
- { 140,-8797 }, { 141,-8797 }, { 142,-8797 }, { 143,-8797 }, { 144,-8797 },
- { 145,-8797 }, { 146,-8797 }, { 147,-8797 }, { 148,-8797 }, { 149,-8797 },
- { 150,-8797 }, { 151,-8797 }, { 152,-8797 }, { 153,-8797 }, { 154,-8797 },
-
- { 155,-8797 }, { 156,-8797 }, { 157,-8797 }, { 158,-8797 }, { 159,-8797 },
- { 160,-8797 }, { 161,-8797 }, { 162,-8797 }, { 163,-8797 }, { 164,-8797 },
- { 165,-8797 }, { 166,-8797 }, { 167,-8797 }, { 168,-8797 }, { 169,-8797 },
- { 170,-8797 }, { 171,-8797 }, { 172,-8797 }, { 173,-8797 }, { 174,-8797 },
- { 175,-8797 }, { 176,-8797 }, { 177,-8797 }, { 178,-8797 }, { 179,-8797 },
- { 180,-8797 }, { 181,-8797 }, { 182,-8797 }, { 183,-8797 }, { 184,-8797 },
- { 185,-8797 }, { 186,-8797 }, { 187,-8797 }, { 188,-8797 }, { 189,-8797 },
- { 190,-8797 }, { 191,-8797 }, { 192,-8797 }, { 193,-8797 }, { 194,-8797 },
- { 195,-8797 }, { 196,-8797 }, { 197,-8797 }, { 198,-8797 }, { 199,-8797 },
- { 200,-8797 }, { 201,-8797 }, { 202,-8797 }, { 203,-8797 }, { 204,-8797 },
-
- { 205,-8797 }, { 206,-8797 }, { 207,-8797 }, { 208,-8797 }, { 209,-8797 },
- { 210,-8797 }, { 211,-8797 }, { 212,-8797 }, { 213,-8797 }, { 214,-8797 },
- { 215,-8797 }, { 216,-8797 }, { 217,-8797 }, { 218,-8797 }, { 219,-8797 },
- { 220,-8797 }, { 221,-8797 }, { 222,-8797 }, { 223,-8797 }, { 224,-8797 },
- { 225,-8797 }, { 226,-8797 }, { 227,-8797 }, { 228,-8797 }, { 229,-8797 },
- { 230,-8797 }, { 231,-8797 }, { 232,-8797 }, { 233,-8797 }, { 234,-8797 },
- { 235,-8797 }, { 236,-8797 }, { 237,-8797 }, { 238,-8797 }, { 239,-8797 },
- { 240,-8797 }, { 241,-8797 }, { 242,-8797 }, { 243,-8797 }, { 244,-8797 },
- { 245,-8797 }, { 246,-8797 }, { 247,-8797 }, { 248,-8797 }, { 249,-8797 },
- { 250,-8797 }, { 251,-8797 }, { 252,-8797 }, { 253,-8797 }, { 254,-8797 },
-
- { 255,-8797 }, { 256,-8797 }, {   0,   0 }, {   0,2979 }, {   1,-9055 },
- {   2,-9055 }, {   3,-9055 }, {   4,-9055 }, {   5,-9055 }, {   6,-9055 },
- {   7,-9055 }, {   8,-9055 }, {   9,-9080 }, {  10,-9080 }, {  11,-9055 },
- {  12,-9055 }, {  13,-9080 }, {  14,-9055 }, {  15,-9055 }, {  16,-9055 },
- {  17,-9055 }, {  18,-9055 }, {  19,-9055 }, {  20,-9055 }, {  21,-9055 },
- {  22,-9055 }, {  23,-9055 }, {  24,-9055 }, {  25,-9055 }, {  26,-9055 },
- {  27,-9055 }, {  28,-9055 }, {  29,-9055 }, {  30,-9055 }, {  31,-9055 },
- {  32,-9080 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9055 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9080 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9055 }, {  46,-9080 },
-
- {  47,-9080 }, {  48,-9055 }, {  49,-9055 }, {  50,-9055 }, {  51,-9055 },
- {  52,-9055 }, {  53,-9055 }, {  54,-9055 }, {  55,-9055 }, {  56,-9055 },
- {  57,-9055 }, {  58,-9055 }, {   0,   0 }, {   0,   0 }, {  61,-9080 },
- {   0,   0 }, {  63,-9055 }, {   0,   0 }, {  65,-9055 }, {  66,-9055 },
- {  67,-9055 }, {  68,-9055 }, {  69,-9055 }, {  70,-9055 }, {  71,-9055 },
- {  72,-9055 }, {  73,-9055 }, {  74,-9055 }, {  75,-9055 }, {  76,-9055 },
- {  77,-9055 }, {  78,-9055 }, {  79,-9055 }, {  80,-9055 }, {  81,-9055 },
- {  82,-9055 }, {  83,-9055 }, {  84,-9055 }, {  85,-9055 }, {  86,-9055 },
- {  87,-9055 }, {  88,-9055 }, {  89,-9055 }, {  90,-9055 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9055 }, {   0,   0 },
-
- {  97,-9055 }, {  98,-9055 }, {  99,-9055 }, { 100,-9055 }, { 101,-9055 },
- { 102,-9055 }, { 103,-9055 }, { 104,-9055 }, { 105, 899 }, { 106,-9055 },
- { 107,-9055 }, { 108,-9055 }, { 109,-9055 }, { 110,-9055 }, { 111,-9055 },
- { 112,-9055 }, { 113,-9055 }, { 114,-9055 }, { 115,-9055 }, { 116,-9055 },
- { 117,-9055 }, { 118,-9055 }, { 119,-9055 }, { 120,-9055 }, { 121,-9055 },
- { 122,-9055 }, {   0,   0 }, { 124,-9080 }, { 125,-9080 }, { 126,-9080 },
- { 127,-9055 }, { 128,-9055 }, { 129,-9055 }, { 130,-9055 }, { 131,-9055 },
- { 132,-9055 }, { 133,-9055 }, { 134,-9055 }, { 135,-9055 }, { 136,-9055 },
- { 137,-9055 }, { 138,-9055 }, { 139,-9055 }, { 140,-9055 }, { 141,-9055 },
- { 142,-9055 }, { 143,-9055 }, { 144,-9055 }, { 145,-9055 }, { 146,-9055 },
-
- { 147,-9055 }, { 148,-9055 }, { 149,-9055 }, { 150,-9055 }, { 151,-9055 },
- { 152,-9055 }, { 153,-9055 }, { 154,-9055 }, { 155,-9055 }, { 156,-9055 },
- { 157,-9055 }, { 158,-9055 }, { 159,-9055 }, { 160,-9055 }, { 161,-9055 },
- { 162,-9055 }, { 163,-9055 }, { 164,-9055 }, { 165,-9055 }, { 166,-9055 },
- { 167,-9055 }, { 168,-9055 }, { 169,-9055 }, { 170,-9055 }, { 171,-9055 },
- { 172,-9055 }, { 173,-9055 }, { 174,-9055 }, { 175,-9055 }, { 176,-9055 },
- { 177,-9055 }, { 178,-9055 }, { 179,-9055 }, { 180,-9055 }, { 181,-9055 },
- { 182,-9055 }, { 183,-9055 }, { 184,-9055 }, { 185,-9055 }, { 186,-9055 },
- { 187,-9055 }, { 188,-9055 }, { 189,-9055 }, { 190,-9055 }, { 191,-9055 },
- { 192,-9055 }, { 193,-9055 }, { 194,-9055 }, { 195,-9055 }, { 196,-9055 },
-
- { 197,-9055 }, { 198,-9055 }, { 199,-9055 }, { 200,-9055 }, { 201,-9055 },
- { 202,-9055 }, { 203,-9055 }, { 204,-9055 }, { 205,-9055 }, { 206,-9055 },
- { 207,-9055 }, { 208,-9055 }, { 209,-9055 }, { 210,-9055 }, { 211,-9055 },
- { 212,-9055 }, { 213,-9055 }, { 214,-9055 }, { 215,-9055 }, { 216,-9055 },
- { 217,-9055 }, { 218,-9055 }, { 219,-9055 }, { 220,-9055 }, { 221,-9055 },
- { 222,-9055 }, { 223,-9055 }, { 224,-9055 }, { 225,-9055 }, { 226,-9055 },
- { 227,-9055 }, { 228,-9055 }, { 229,-9055 }, { 230,-9055 }, { 231,-9055 },
- { 232,-9055 }, { 233,-9055 }, { 234,-9055 }, { 235,-9055 }, { 236,-9055 },
- { 237,-9055 }, { 238,-9055 }, { 239,-9055 }, { 240,-9055 }, { 241,-9055 },
- { 242,-9055 }, { 243,-9055 }, { 244,-9055 }, { 245,-9055 }, { 246,-9055 },
-
- { 247,-9055 }, { 248,-9055 }, { 249,-9055 }, { 250,-9055 }, { 251,-9055 },
- { 252,-9055 }, { 253,-9055 }, { 254,-9055 }, { 255,-9055 }, { 256,-9055 },
- {   0,   0 }, {   0,2721 }, {   0,  28 }, {   0,2719 }, {   0,  22 },
- {   0,2717 }, {   0,   0 }, {   0,2715 }, {   0,   0 }, {   0,2713 },
- {   0,   8 }, {   0,2711 }, {   0,   1 }, {   0,2709 }, {   0,  44 },
- {   0,2707 }, {   0,   0 }, {   0,2705 }, {   0,   0 }, {   0,2703 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101, 893 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 115,  16 }, {   0,   0 }, { 101,2043 }, {   0,   0 },
- { 101,2049 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,  10 },
- {   0,   0 }, {   0,2596 }, {   1, 902 }, {   2, 902 }, {   3, 902 },
- {   4, 902 }, {   5, 902 }, {   6, 902 }, {   7, 902 }, {   8, 902 },
- {   9, 902 }, {  10, 902 }, {  11, 902 }, {  12, 902 }, {  13, 902 },
-
- {  14, 902 }, {  15, 902 }, {  16, 902 }, {  17, 902 }, {  18, 902 },
- {  19, 902 }, {  20, 902 }, {  21, 902 }, {  22, 902 }, {  23, 902 },
- {  24, 902 }, {  25, 902 }, {  26, 902 }, {  27, 902 }, {  28, 902 },
- {  29, 902 }, {  30, 902 }, {  31, 902 }, {  32, 902 }, {  33, 902 },
- {  34, 902 }, {  35, 902 }, {  36, 902 }, {  37, 902 }, {  38, 902 },
- {  39, 902 }, {  40, 902 }, {  41, 902 }, {  42, 902 }, {  43, 902 },
- {  44, 902 }, {  45,1160 }, {  46, 902 }, {  47, 902 }, {  48, 902 },
- {  49, 902 }, {  50, 902 }, {  51, 902 }, {  52, 902 }, {  53, 902 },
- {  54, 902 }, {  55, 902 }, {  56, 902 }, {  57, 902 }, {  58, 902 },
- {  59, 902 }, {  60, 902 }, {  61, 902 }, {  62, 902 }, {  63, 902 },
-
- {  64, 902 }, {  65, 902 }, {  66, 902 }, {  67, 902 }, {  68, 902 },
- {  69, 902 }, {  70, 902 }, {  71, 902 }, {  72, 902 }, {  73, 902 },
- {  74, 902 }, {  75, 902 }, {  76, 902 }, {  77, 902 }, {  78, 902 },
- {  79, 902 }, {  80, 902 }, {  81, 902 }, {  82, 902 }, {  83, 902 },
- {  84, 902 }, {  85, 902 }, {  86, 902 }, {  87, 902 }, {  88, 902 },
- {  89, 902 }, {  90, 902 }, {  91, 902 }, {  92, 902 }, {  93, 902 },
- {  94, 902 }, {  95, 902 }, {  96, 902 }, {  97, 902 }, {  98, 902 },
- {  99, 902 }, { 100, 902 }, { 101, 902 }, { 102, 902 }, { 103, 902 },
- { 104, 902 }, { 105, 902 }, { 106, 902 }, { 107, 902 }, { 108, 902 },
- { 109, 902 }, { 110, 902 }, { 111, 902 }, { 112, 902 }, { 113, 902 },
-
- { 114, 902 }, { 115, 902 }, { 116, 902 }, { 117, 902 }, { 118, 902 },
- { 119, 902 }, { 120, 902 }, { 121, 902 }, { 122, 902 }, { 123, 902 },
- { 124, 902 }, { 125, 902 }, { 126, 902 }, { 127, 902 }, { 128, 902 },
- { 129, 902 }, { 130, 902 }, { 131, 902 }, { 132, 902 }, { 133, 902 },
- { 134, 902 }, { 135, 902 }, { 136, 902 }, { 137, 902 }, { 138, 902 },
- { 139, 902 }, { 140, 902 }, { 141, 902 }, { 142, 902 }, { 143, 902 },
- { 144, 902 }, { 145, 902 }, { 146, 902 }, { 147, 902 }, { 148, 902 },
- { 149, 902 }, { 150, 902 }, { 151, 902 }, { 152, 902 }, { 153, 902 },
- { 154, 902 }, { 155, 902 }, { 156, 902 }, { 157, 902 }, { 158, 902 },
- { 159, 902 }, { 160, 902 }, { 161, 902 }, { 162, 902 }, { 163, 902 },
-
- { 164, 902 }, { 165, 902 }, { 166, 902 }, { 167, 902 }, { 168, 902 },
- { 169, 902 }, { 170, 902 }, { 171, 902 }, { 172, 902 }, { 173, 902 },
- { 174, 902 }, { 175, 902 }, { 176, 902 }, { 177, 902 }, { 178, 902 },
- { 179, 902 }, { 180, 902 }, { 181, 902 }, { 182, 902 }, { 183, 902 },
- { 184, 902 }, { 185, 902 }, { 186, 902 }, { 187, 902 }, { 188, 902 },
- { 189, 902 }, { 190, 902 }, { 191, 902 }, { 192, 902 }, { 193, 902 },
- { 194, 902 }, { 195, 902 }, { 196, 902 }, { 197, 902 }, { 198, 902 },
- { 199, 902 }, { 200, 902 }, { 201, 902 }, { 202, 902 }, { 203, 902 },
- { 204, 902 }, { 205, 902 }, { 206, 902 }, { 207, 902 }, { 208, 902 },
- { 209, 902 }, { 210, 902 }, { 211, 902 }, { 212, 902 }, { 213, 902 },
-
- { 214, 902 }, { 215, 902 }, { 216, 902 }, { 217, 902 }, { 218, 902 },
- { 219, 902 }, { 220, 902 }, { 221, 902 }, { 222, 902 }, { 223, 902 },
- { 224, 902 }, { 225, 902 }, { 226, 902 }, { 227, 902 }, { 228, 902 },
- { 229, 902 }, { 230, 902 }, { 231, 902 }, { 232, 902 }, { 233, 902 },
- { 234, 902 }, { 235, 902 }, { 236, 902 }, { 237, 902 }, { 238, 902 },
- { 239, 902 }, { 240, 902 }, { 241, 902 }, { 242, 902 }, { 243, 902 },
- { 244, 902 }, { 245, 902 }, { 246, 902 }, { 247, 902 }, { 248, 902 },
- { 249, 902 }, { 250, 902 }, { 251, 902 }, { 252, 902 }, { 253, 902 },
- { 254, 902 }, { 255, 902 }, { 256, 902 }, {   0,   0 }, {   0,2338 },
- {   1,1160 }, {   2,1160 }, {   3,1160 }, {   4,1160 }, {   5,1160 },
-
- {   6,1160 }, {   7,1160 }, {   8,1160 }, {   0,   0 }, {   0,   0 },
- {  11,1160 }, {  12,1160 }, {   0,   0 }, {  14,1160 }, {  15,1160 },
- {  16,1160 }, {  17,1160 }, {  18,1160 }, {  19,1160 }, {  20,1160 },
- {  21,1160 }, {  22,1160 }, {  23,1160 }, {  24,1160 }, {  25,1160 },
- {  26,1160 }, {  27,1160 }, {  28,1160 }, {  29,1160 }, {  30,1160 },
- {  31,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1160 },
- {   0,   0 }, {   0,   0 }, {  48,1160 }, {  49,1160 }, {  50,1160 },
- {  51,1160 }, {  52,1160 }, {  53,1160 }, {  54,1160 }, {  55,1160 },
-
- {  56,1160 }, {  57,1160 }, {  58,1160 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  63,1160 }, {   0,   0 }, {  65,1160 },
- {  66,1160 }, {  67,1160 }, {  68,1160 }, {  69,1160 }, {  70,1160 },
- {  71,1160 }, {  72,1160 }, {  73,1160 }, {  74,1160 }, {  75,1160 },
- {  76,1160 }, {  77,1160 }, {  78,1160 }, {  79,1160 }, {  80,1160 },
- {  81,1160 }, {  82,1160 }, {  83,1160 }, {  84,1160 }, {  85,1160 },
- {  86,1160 }, {  87,1160 }, {  88,1160 }, {  89,1160 }, {  90,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1160 },
- {   0,   0 }, {  97,1160 }, {  98,1160 }, {  99,1160 }, { 100,1160 },
- { 101,1160 }, { 102,1160 }, { 103,1160 }, { 104,1160 }, { 105,1160 },
-
- { 106,1160 }, { 107,1160 }, { 108,1160 }, { 109,1160 }, { 110,1160 },
- { 111,1160 }, { 112,1160 }, { 113,1160 }, { 114,1160 }, { 115,1160 },
- { 116,1160 }, { 117,1160 }, { 118,1160 }, { 119,1160 }, { 120,1160 },
- { 121,1160 }, { 122,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 127,1160 }, { 128,1160 }, { 129,1160 }, { 130,1160 },
- { 131,1160 }, { 132,1160 }, { 133,1160 }, { 134,1160 }, { 135,1160 },
- { 136,1160 }, { 137,1160 }, { 138,1160 }, { 139,1160 }, { 140,1160 },
- { 141,1160 }, { 142,1160 }, { 143,1160 }, { 144,1160 }, { 145,1160 },
- { 146,1160 }, { 147,1160 }, { 148,1160 }, { 149,1160 }, { 150,1160 },
- { 151,1160 }, { 152,1160 }, { 153,1160 }, { 154,1160 }, { 155,1160 },
-
- { 156,1160 }, { 157,1160 }, { 158,1160 }, { 159,1160 }, { 160,1160 },
- { 161,1160 }, { 162,1160 }, { 163,1160 }, { 164,1160 }, { 165,1160 },
- { 166,1160 }, { 167,1160 }, { 168,1160 }, { 169,1160 }, { 170,1160 },
- { 171,1160 }, { 172,1160 }, { 173,1160 }, { 174,1160 }, { 175,1160 },
- { 176,1160 }, { 177,1160 }, { 178,1160 }, { 179,1160 }, { 180,1160 },
- { 181,1160 }, { 182,1160 }, { 183,1160 }, { 184,1160 }, { 185,1160 },
- { 186,1160 }, { 187,1160 }, { 188,1160 }, { 189,1160 }, { 190,1160 },
- { 191,1160 }, { 192,1160 }, { 193,1160 }, { 194,1160 }, { 195,1160 },
- { 196,1160 }, { 197,1160 }, { 198,1160 }, { 199,1160 }, { 200,1160 },
- { 201,1160 }, { 202,1160 }, { 203,1160 }, { 204,1160 }, { 205,1160 },
-
- { 206,1160 }, { 207,1160 }, { 208,1160 }, { 209,1160 }, { 210,1160 },
- { 211,1160 }, { 212,1160 }, { 213,1160 }, { 214,1160 }, { 215,1160 },
- { 216,1160 }, { 217,1160 }, { 218,1160 }, { 219,1160 }, { 220,1160 },
- { 221,1160 }, { 222,1160 }, { 223,1160 }, { 224,1160 }, { 225,1160 },
- { 226,1160 }, { 227,1160 }, { 228,1160 }, { 229,1160 }, { 230,1160 },
- { 231,1160 }, { 232,1160 }, { 233,1160 }, { 234,1160 }, { 235,1160 },
- { 236,1160 }, { 237,1160 }, { 238,1160 }, { 239,1160 }, { 240,1160 },
- { 241,1160 }, { 242,1160 }, { 243,1160 }, { 244,1160 }, { 245,1160 },
- { 246,1160 }, { 247,1160 }, { 248,1160 }, { 249,1160 }, { 250,1160 },
- { 251,1160 }, { 252,1160 }, { 253,1160 }, { 254,1160 }, { 255,1160 },
-
- { 256,1160 }, {   0,   0 }, {   0,2080 }, {   1,-9954 }, {   2,-9954 },
- {   3,-9954 }, {   4,-9954 }, {   5,-9954 }, {   6,-9954 }, {   7,-9954 },
- {   8,-9954 }, {   9,-9979 }, {  10,-9979 }, {  11,-9954 }, {  12,-9954 },
- {  13,-9979 }, {  14,-9954 }, {  15,-9954 }, {  16,-9954 }, {  17,-9954 },
- {  18,-9954 }, {  19,-9954 }, {  20,-9954 }, {  21,-9954 }, {  22,-9954 },
- {  23,-9954 }, {  24,-9954 }, {  25,-9954 }, {  26,-9954 }, {  27,-9954 },
- {  28,-9954 }, {  29,-9954 }, {  30,-9954 }, {  31,-9954 }, {  32,-9979 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9954 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-9979 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-9954 }, {  46,-9979 }, {  47,-9979 },
-
- {  48,-9954 }, {  49,-9954 }, {  50,-9954 }, {  51,-9954 }, {  52,-9954 },
- {  53,-9954 }, {  54,-9954 }, {  55,-9954 }, {  56,-9954 }, {  57,-9954 },
- {  58,-9954 }, {   0,   0 }, {   0,   0 }, {  61,-9979 }, {   0,   0 },
- {  63,-9954 }, {   0,   0 }, {  65,-9954 }, {  66,-9954 }, {  67,-9954 },
- {  68,-9954 }, {  69,-9954 }, {  70,-9954 }, {  71,-9954 }, {  72,-9954 },
- {  73,-9954 }, {  74,-9954 }, {  75,-9954 }, {  76,-9954 }, {  77,-9954 },
- {  78,-9954 }, {  79,-9954 }, {  80,-9954 }, {  81,-9954 }, {  82,-9954 },
- {  83,-9954 }, {  84,-9954 }, {  85,-9954 }, {  86,-9954 }, {  87,-9954 },
- {  88,-9954 }, {  89,-9954 }, {  90,-9954 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-9954 }, {   0,   0 }, {  97,-9954 },
-
- {  98,-9954 }, {  99,-9954 }, { 100,-9954 }, { 101,-9954 }, { 102,-9954 },
- { 103,-9954 }, { 104,-9954 }, { 105,-9954 }, { 106,-9954 }, { 107,-9954 },
- { 108,-9954 }, { 109,-9954 }, { 110,1160 }, { 111,-9954 }, { 112,-9954 },
- { 113,-9954 }, { 114,-9954 }, { 115,-9954 }, { 116,-9954 }, { 117,-9954 },
- { 118,-9954 }, { 119,-9954 }, { 120,-9954 }, { 121,-9954 }, { 122,-9954 },
- {   0,   0 }, { 124,-9979 }, { 125,-9979 }, { 126,-9979 }, { 127,-9954 },
- { 128,-9954 }, { 129,-9954 }, { 130,-9954 }, { 131,-9954 }, { 132,-9954 },
- { 133,-9954 }, { 134,-9954 }, { 135,-9954 }, { 136,-9954 }, { 137,-9954 },
- { 138,-9954 }, { 139,-9954 }, { 140,-9954 }, { 141,-9954 }, { 142,-9954 },
- { 143,-9954 }, { 144,-9954 }, { 145,-9954 }, { 146,-9954 }, { 147,-9954 },
-
- { 148,-9954 }, { 149,-9954 }, { 150,-9954 }, { 151,-9954 }, { 152,-9954 },
- { 153,-9954 }, { 154,-9954 }, { 155,-9954 }, { 156,-9954 }, { 157,-9954 },
- { 158,-9954 }, { 159,-9954 }, { 160,-9954 }, { 161,-9954 }, { 162,-9954 },
- { 163,-9954 }, { 164,-9954 }, { 165,-9954 }, { 166,-9954 }, { 167,-9954 },
- { 168,-9954 }, { 169,-9954 }, { 170,-9954 }, { 171,-9954 }, { 172,-9954 },
- { 173,-9954 }, { 174,-9954 }, { 175,-9954 }, { 176,-9954 }, { 177,-9954 },
- { 178,-9954 }, { 179,-9954 }, { 180,-9954 }, { 181,-9954 }, { 182,-9954 },
- { 183,-9954 }, { 184,-9954 }, { 185,-9954 }, { 186,-9954 }, { 187,-9954 },
- { 188,-9954 }, { 189,-9954 }, { 190,-9954 }, { 191,-9954 }, { 192,-9954 },
- { 193,-9954 }, { 194,-9954 }, { 195,-9954 }, { 196,-9954 }, { 197,-9954 },
-
- { 198,-9954 }, { 199,-9954 }, { 200,-9954 }, { 201,-9954 }, { 202,-9954 },
- { 203,-9954 }, { 204,-9954 }, { 205,-9954 }, { 206,-9954 }, { 207,-9954 },
- { 208,-9954 }, { 209,-9954 }, { 210,-9954 }, { 211,-9954 }, { 212,-9954 },
- { 213,-9954 }, { 214,-9954 }, { 215,-9954 }, { 216,-9954 }, { 217,-9954 },
- { 218,-9954 }, { 219,-9954 }, { 220,-9954 }, { 221,-9954 }, { 222,-9954 },
- { 223,-9954 }, { 224,-9954 }, { 225,-9954 }, { 226,-9954 }, { 227,-9954 },
- { 228,-9954 }, { 229,-9954 }, { 230,-9954 }, { 231,-9954 }, { 232,-9954 },
- { 233,-9954 }, { 234,-9954 }, { 235,-9954 }, { 236,-9954 }, { 237,-9954 },
- { 238,-9954 }, { 239,-9954 }, { 240,-9954 }, { 241,-9954 }, { 242,-9954 },
- { 243,-9954 }, { 244,-9954 }, { 245,-9954 }, { 246,-9954 }, { 247,-9954 },
+ { 232,2064 }, { 233,2064 }, { 234,2064 }, { 235,2064 }, { 236,2064 },
+ { 237,2064 }, { 238,2064 }, { 239,2064 }, { 240,2064 }, { 241,2064 },
+ { 242,2064 }, { 243,2064 }, { 244,2064 }, { 245,2064 }, { 246,2064 },
+ { 247,2064 }, { 248,2064 }, { 249,2064 }, { 250,2064 }, { 251,2064 },
+ { 252,2064 }, { 253,2064 }, { 254,2064 }, { 255,2064 }, { 256,2064 },
+ {   0,   0 }, {   0,6355 }, {   0,   0 }, {   0,6353 }, {   0,   1 },
+ {   0,6351 }, {   0,   4 }, {   0,6349 }, {   0,  47 }, {   0,6347 },
+ {   0,  41 }, {   0,6345 }, {   0,   0 }, {   0,6343 }, {   0,   0 },
+ {   0,6341 }, {   0,   0 }, {  10,   0 }, {   0,  20 }, {   0,6337 },
+ {  13,   0 }, {   0,  19 }, {   0,6334 }, {   0,   0 }, {   0,   0 },
 
- { 248,-9954 }, { 249,-9954 }, { 250,-9954 }, { 251,-9954 }, { 252,-9954 },
- { 253,-9954 }, { 254,-9954 }, { 255,-9954 }, { 256,-9954 }, {   0,  25 },
- {   0,1822 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,1162 },
- {  10,1162 }, {   0,   0 }, {   0,   0 }, {  13,1162 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  32,1162 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,3111 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -4573,6 +3891,358 @@ static const struct yy_trans_info yy_transition[20137] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 108,3111 }, {   0,   0 }, {   0,   0 }, { 123,2322 },
+
+ {   0,   0 }, { 123,2578 }, {   0,   0 }, { 123,2578 }, {   0,   4 },
+ {   0,6226 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
+ {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
+ {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
+ {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
+ {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
+ {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
+ {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
+ {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
+
+ {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
+ {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
+ {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
+ {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
+ {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
+ {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
+ {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
+ {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
+ {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
+ {  90,   0 }, {  91,   0 }, {   0,   0 }, {  93,   0 }, {  94,   0 },
+
+ {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
+ { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
+ { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
+ { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
+ { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
+ { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 },
+ { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
+ { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
+ { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
+ { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
+
+ { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
+ { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
+ { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
+ { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
+ { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
+ { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
+ { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
+ { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
+ { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
+ { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
+
+ { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
+ { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
+ { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
+ { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
+ { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
+ { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
+ { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
+ { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
+ { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
+ { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
+
+ { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
+ { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
+ { 255,   0 }, {   0,   4 }, {   0,5969 }, {   1,-257 }, {   2,-257 },
+ {   3,-257 }, {   4,-257 }, {   5,-257 }, {   6,-257 }, {   7,-257 },
+ {   8,-257 }, {   9,-257 }, {  10,-380 }, {  11,-257 }, {  12,-257 },
+ {  13,-380 }, {  14,-257 }, {  15,-257 }, {  16,-257 }, {  17,-257 },
+ {  18,-257 }, {  19,-257 }, {  20,-257 }, {  21,-257 }, {  22,-257 },
+ {  23,-257 }, {  24,-257 }, {  25,-257 }, {  26,-257 }, {  27,-257 },
+ {  28,-257 }, {  29,-257 }, {  30,-257 }, {  31,-257 }, {  32,-257 },
+ {  33,-257 }, {  34,-257 }, {  35,-257 }, {  36,-257 }, {  37,-257 },
+
+ {  38,-257 }, {  39,-257 }, {  40,-257 }, {  41,-257 }, {  42,-257 },
+ {  43,-257 }, {  44,-257 }, {  45,-257 }, {  46,-257 }, {  47,-257 },
+ {  48,-257 }, {  49,-257 }, {  50,-257 }, {  51,-257 }, {  52,-257 },
+ {  53,-257 }, {  54,-257 }, {  55,-257 }, {  56,-257 }, {  57,-257 },
+ {  58,-257 }, {  59,-257 }, {  60,-257 }, {  61,-257 }, {  62,-257 },
+ {  63,-257 }, {  64,-257 }, {  65,-257 }, {  66,-257 }, {  67,-257 },
+ {  68,-257 }, {  69,-257 }, {  70,-257 }, {  71,-257 }, {  72,-257 },
+ {  73,-257 }, {  74,-257 }, {  75,-257 }, {  76,-257 }, {  77,-257 },
+ {  78,-257 }, {  79,-257 }, {  80,-257 }, {  81,-257 }, {  82,-257 },
+ {  83,-257 }, {  84,-257 }, {  85,-257 }, {  86,-257 }, {  87,-257 },
+
+ {  88,-257 }, {  89,-257 }, {  90,-257 }, {  91,-257 }, {   0,   0 },
+ {  93,-257 }, {  94,-257 }, {  95,-257 }, {  96,-257 }, {  97,-257 },
+ {  98,-257 }, {  99,-257 }, { 100,-257 }, { 101,-257 }, { 102,-257 },
+ { 103,-257 }, { 104,-257 }, { 105,-257 }, { 106,-257 }, { 107,-257 },
+ { 108,-257 }, { 109,-257 }, { 110,-257 }, { 111,-257 }, { 112,-257 },
+ { 113,-257 }, { 114,-257 }, { 115,-257 }, { 116,-257 }, { 117,-257 },
+ { 118,-257 }, { 119,-257 }, { 120,-257 }, { 121,-257 }, { 122,-257 },
+ {   0,   0 }, { 124,-257 }, { 125,-257 }, { 126,-257 }, { 127,-257 },
+ { 128,-257 }, { 129,-257 }, { 130,-257 }, { 131,-257 }, { 132,-257 },
+ { 133,-257 }, { 134,-257 }, { 135,-257 }, { 136,-257 }, { 137,-257 },
+
+ { 138,-257 }, { 139,-257 }, { 140,-257 }, { 141,-257 }, { 142,-257 },
+ { 143,-257 }, { 144,-257 }, { 145,-257 }, { 146,-257 }, { 147,-257 },
+ { 148,-257 }, { 149,-257 }, { 150,-257 }, { 151,-257 }, { 152,-257 },
+ { 153,-257 }, { 154,-257 }, { 155,-257 }, { 156,-257 }, { 157,-257 },
+ { 158,-257 }, { 159,-257 }, { 160,-257 }, { 161,-257 }, { 162,-257 },
+ { 163,-257 }, { 164,-257 }, { 165,-257 }, { 166,-257 }, { 167,-257 },
+ { 168,-257 }, { 169,-257 }, { 170,-257 }, { 171,-257 }, { 172,-257 },
+ { 173,-257 }, { 174,-257 }, { 175,-257 }, { 176,-257 }, { 177,-257 },
+ { 178,-257 }, { 179,-257 }, { 180,-257 }, { 181,-257 }, { 182,-257 },
+ { 183,-257 }, { 184,-257 }, { 185,-257 }, { 186,-257 }, { 187,-257 },
+
+ { 188,-257 }, { 189,-257 }, { 190,-257 }, { 191,-257 }, { 192,-257 },
+ { 193,-257 }, { 194,-257 }, { 195,-257 }, { 196,-257 }, { 197,-257 },
+ { 198,-257 }, { 199,-257 }, { 200,-257 }, { 201,-257 }, { 202,-257 },
+ { 203,-257 }, { 204,-257 }, { 205,-257 }, { 206,-257 }, { 207,-257 },
+ { 208,-257 }, { 209,-257 }, { 210,-257 }, { 211,-257 }, { 212,-257 },
+ { 213,-257 }, { 214,-257 }, { 215,-257 }, { 216,-257 }, { 217,-257 },
+ { 218,-257 }, { 219,-257 }, { 220,-257 }, { 221,-257 }, { 222,-257 },
+ { 223,-257 }, { 224,-257 }, { 225,-257 }, { 226,-257 }, { 227,-257 },
+ { 228,-257 }, { 229,-257 }, { 230,-257 }, { 231,-257 }, { 232,-257 },
+ { 233,-257 }, { 234,-257 }, { 235,-257 }, { 236,-257 }, { 237,-257 },
+
+ { 238,-257 }, { 239,-257 }, { 240,-257 }, { 241,-257 }, { 242,-257 },
+ { 243,-257 }, { 244,-257 }, { 245,-257 }, { 246,-257 }, { 247,-257 },
+ { 248,-257 }, { 249,-257 }, { 250,-257 }, { 251,-257 }, { 252,-257 },
+ { 253,-257 }, { 254,-257 }, { 255,-257 }, {   0,   0 }, {   0,5712 },
+ {   1,-7721 }, {   2,-7721 }, {   3,-7721 }, {   4,-7721 }, {   5,-7721 },
+ {   6,-7721 }, {   7,-7721 }, {   8,-7721 }, {   9,-7746 }, {  10,-7746 },
+ {  11,-7721 }, {  12,-7721 }, {  13,-7746 }, {  14,-7721 }, {  15,-7721 },
+ {  16,-7721 }, {  17,-7721 }, {  18,-7721 }, {  19,-7721 }, {  20,-7721 },
+ {  21,-7721 }, {  22,-7721 }, {  23,-7721 }, {  24,-7721 }, {  25,-7721 },
+ {  26,-7721 }, {  27,-7721 }, {  28,-7721 }, {  29,-7721 }, {  30,-7721 },
+
+ {  31,-7721 }, {  32,-7746 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-7721 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-7746 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7721 },
+ {  46,-7746 }, {  47,-7746 }, {  48,-7721 }, {  49,-7721 }, {  50,-7721 },
+ {  51,-7721 }, {  52,-7721 }, {  53,-7721 }, {  54,-7721 }, {  55,-7721 },
+ {  56,-7721 }, {  57,-7721 }, {  58,-7721 }, {   0,   0 }, {   0,   0 },
+ {  61,-7746 }, {   0,   0 }, {  63,-7721 }, {   0,   0 }, {  65,-7721 },
+ {  66,-7721 }, {  67,-7721 }, {  68,-7721 }, {  69,-7721 }, {  70,-7721 },
+ {  71,-7721 }, {  72,-7721 }, {  73,-7721 }, {  74,-7721 }, {  75,-7721 },
+ {  76,-7721 }, {  77,-7721 }, {  78,-7721 }, {  79,-7721 }, {  80,-7721 },
+
+ {  81,-7721 }, {  82,-7721 }, {  83,-7721 }, {  84,-7721 }, {  85,-7721 },
+ {  86,-7721 }, {  87,-7721 }, {  88,-7721 }, {  89,-7721 }, {  90,-7721 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7721 },
+ {   0,   0 }, {  97,-7721 }, {  98,-7721 }, {  99,-7721 }, { 100,-7721 },
+ { 101,1964 }, { 102,-7721 }, { 103,-7721 }, { 104,-7721 }, { 105,-7721 },
+ { 106,-7721 }, { 107,-7721 }, { 108,-7721 }, { 109,-7721 }, { 110,-7721 },
+ { 111,-7721 }, { 112,-7721 }, { 113,-7721 }, { 114,-7721 }, { 115,-7721 },
+ { 116,-7721 }, { 117,-7721 }, { 118,-7721 }, { 119,-7721 }, { 120,-7721 },
+ { 121,-7721 }, { 122,-7721 }, {   0,   0 }, { 124,-7746 }, { 125,-7746 },
+ { 126,-7746 }, { 127,-7721 }, { 128,-7721 }, { 129,-7721 }, { 130,-7721 },
+
+ { 131,-7721 }, { 132,-7721 }, { 133,-7721 }, { 134,-7721 }, { 135,-7721 },
+ { 136,-7721 }, { 137,-7721 }, { 138,-7721 }, { 139,-7721 }, { 140,-7721 },
+ { 141,-7721 }, { 142,-7721 }, { 143,-7721 }, { 144,-7721 }, { 145,-7721 },
+ { 146,-7721 }, { 147,-7721 }, { 148,-7721 }, { 149,-7721 }, { 150,-7721 },
+ { 151,-7721 }, { 152,-7721 }, { 153,-7721 }, { 154,-7721 }, { 155,-7721 },
+ { 156,-7721 }, { 157,-7721 }, { 158,-7721 }, { 159,-7721 }, { 160,-7721 },
+ { 161,-7721 }, { 162,-7721 }, { 163,-7721 }, { 164,-7721 }, { 165,-7721 },
+ { 166,-7721 }, { 167,-7721 }, { 168,-7721 }, { 169,-7721 }, { 170,-7721 },
+ { 171,-7721 }, { 172,-7721 }, { 173,-7721 }, { 174,-7721 }, { 175,-7721 },
+ { 176,-7721 }, { 177,-7721 }, { 178,-7721 }, { 179,-7721 }, { 180,-7721 },
+
+ { 181,-7721 }, { 182,-7721 }, { 183,-7721 }, { 184,-7721 }, { 185,-7721 },
+ { 186,-7721 }, { 187,-7721 }, { 188,-7721 }, { 189,-7721 }, { 190,-7721 },
+ { 191,-7721 }, { 192,-7721 }, { 193,-7721 }, { 194,-7721 }, { 195,-7721 },
+ { 196,-7721 }, { 197,-7721 }, { 198,-7721 }, { 199,-7721 }, { 200,-7721 },
+ { 201,-7721 }, { 202,-7721 }, { 203,-7721 }, { 204,-7721 }, { 205,-7721 },
+ { 206,-7721 }, { 207,-7721 }, { 208,-7721 }, { 209,-7721 }, { 210,-7721 },
+ { 211,-7721 }, { 212,-7721 }, { 213,-7721 }, { 214,-7721 }, { 215,-7721 },
+ { 216,-7721 }, { 217,-7721 }, { 218,-7721 }, { 219,-7721 }, { 220,-7721 },
+ { 221,-7721 }, { 222,-7721 }, { 223,-7721 }, { 224,-7721 }, { 225,-7721 },
+ { 226,-7721 }, { 227,-7721 }, { 228,-7721 }, { 229,-7721 }, { 230,-7721 },
+
+ { 231,-7721 }, { 232,-7721 }, { 233,-7721 }, { 234,-7721 }, { 235,-7721 },
+ { 236,-7721 }, { 237,-7721 }, { 238,-7721 }, { 239,-7721 }, { 240,-7721 },
+ { 241,-7721 }, { 242,-7721 }, { 243,-7721 }, { 244,-7721 }, { 245,-7721 },
+ { 246,-7721 }, { 247,-7721 }, { 248,-7721 }, { 249,-7721 }, { 250,-7721 },
+ { 251,-7721 }, { 252,-7721 }, { 253,-7721 }, { 254,-7721 }, { 255,-7721 },
+ { 256,-7721 }, {   0,   0 }, {   0,5454 }, {   1,-7979 }, {   2,-7979 },
+ {   3,-7979 }, {   4,-7979 }, {   5,-7979 }, {   6,-7979 }, {   7,-7979 },
+ {   8,-7979 }, {   9,1683 }, {  10,1683 }, {  11,-7979 }, {  12,-7979 },
+ {  13,1683 }, {  14,-7979 }, {  15,-7979 }, {  16,-7979 }, {  17,-7979 },
+ {  18,-7979 }, {  19,-7979 }, {  20,-7979 }, {  21,-7979 }, {  22,-7979 },
+
+ {  23,-7979 }, {  24,-7979 }, {  25,-7979 }, {  26,-7979 }, {  27,-7979 },
+ {  28,-7979 }, {  29,-7979 }, {  30,-7979 }, {  31,-7979 }, {  32,1683 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7979 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1683 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-7979 }, {  46,-8004 }, {  47,-8004 },
+ {  48,-7979 }, {  49,-7979 }, {  50,-7979 }, {  51,-7979 }, {  52,-7979 },
+ {  53,-7979 }, {  54,-7979 }, {  55,-7979 }, {  56,-7979 }, {  57,-7979 },
+ {  58,-7979 }, {   0,   0 }, {   0,   0 }, {  61,-8004 }, {   0,   0 },
+ {  63,-7979 }, {   0,   0 }, {  65,-7979 }, {  66,-7979 }, {  67,-7979 },
+ {  68,-7979 }, {  69,-7979 }, {  70,-7979 }, {  71,-7979 }, {  72,-7979 },
+
+ {  73,-7979 }, {  74,-7979 }, {  75,-7979 }, {  76,-7979 }, {  77,-7979 },
+ {  78,-7979 }, {  79,-7979 }, {  80,-7979 }, {  81,-7979 }, {  82,-7979 },
+ {  83,-7979 }, {  84,-7979 }, {  85,-7979 }, {  86,-7979 }, {  87,-7979 },
+ {  88,-7979 }, {  89,-7979 }, {  90,-7979 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-7979 }, {   0,   0 }, {  97,-7979 },
+ {  98,-7979 }, {  99,-7979 }, { 100,-7979 }, { 101,-7979 }, { 102,-7979 },
+ { 103,-7979 }, { 104,-7979 }, { 105,-7979 }, { 106,-7979 }, { 107,-7979 },
+ { 108,-7979 }, { 109,-7979 }, { 110,-7979 }, { 111,-7979 }, { 112,-7979 },
+ { 113,-7979 }, { 114,-7979 }, { 115,-7979 }, { 116,-7979 }, { 117,-7979 },
+ { 118,-7979 }, { 119,-7979 }, { 120,-7979 }, { 121,-7979 }, { 122,-7979 },
+
+ {   0,   0 }, { 124,-8004 }, { 125,1683 }, { 126,1683 }, { 127,-7979 },
+ { 128,-7979 }, { 129,-7979 }, { 130,-7979 }, { 131,-7979 }, { 132,-7979 },
+ { 133,-7979 }, { 134,-7979 }, { 135,-7979 }, { 136,-7979 }, { 137,-7979 },
+ { 138,-7979 }, { 139,-7979 }, { 140,-7979 }, { 141,-7979 }, { 142,-7979 },
+ { 143,-7979 }, { 144,-7979 }, { 145,-7979 }, { 146,-7979 }, { 147,-7979 },
+ { 148,-7979 }, { 149,-7979 }, { 150,-7979 }, { 151,-7979 }, { 152,-7979 },
+ { 153,-7979 }, { 154,-7979 }, { 155,-7979 }, { 156,-7979 }, { 157,-7979 },
+ { 158,-7979 }, { 159,-7979 }, { 160,-7979 }, { 161,-7979 }, { 162,-7979 },
+ { 163,-7979 }, { 164,-7979 }, { 165,-7979 }, { 166,-7979 }, { 167,-7979 },
+ { 168,-7979 }, { 169,-7979 }, { 170,-7979 }, { 171,-7979 }, { 172,-7979 },
+
+ { 173,-7979 }, { 174,-7979 }, { 175,-7979 }, { 176,-7979 }, { 177,-7979 },
+ { 178,-7979 }, { 179,-7979 }, { 180,-7979 }, { 181,-7979 }, { 182,-7979 },
+ { 183,-7979 }, { 184,-7979 }, { 185,-7979 }, { 186,-7979 }, { 187,-7979 },
+ { 188,-7979 }, { 189,-7979 }, { 190,-7979 }, { 191,-7979 }, { 192,-7979 },
+ { 193,-7979 }, { 194,-7979 }, { 195,-7979 }, { 196,-7979 }, { 197,-7979 },
+ { 198,-7979 }, { 199,-7979 }, { 200,-7979 }, { 201,-7979 }, { 202,-7979 },
+ { 203,-7979 }, { 204,-7979 }, { 205,-7979 }, { 206,-7979 }, { 207,-7979 },
+ { 208,-7979 }, { 209,-7979 }, { 210,-7979 }, { 211,-7979 }, { 212,-7979 },
+ { 213,-7979 }, { 214,-7979 }, { 215,-7979 }, { 216,-7979 }, { 217,-7979 },
+ { 218,-7979 }, { 219,-7979 }, { 220,-7979 }, { 221,-7979 }, { 222,-7979 },
+
+ { 223,-7979 }, { 224,-7979 }, { 225,-7979 }, { 226,-7979 }, { 227,-7979 },
+ { 228,-7979 }, { 229,-7979 }, { 230,-7979 }, { 231,-7979 }, { 232,-7979 },
+ { 233,-7979 }, { 234,-7979 }, { 235,-7979 }, { 236,-7979 }, { 237,-7979 },
+ { 238,-7979 }, { 239,-7979 }, { 240,-7979 }, { 241,-7979 }, { 242,-7979 },
+ { 243,-7979 }, { 244,-7979 }, { 245,-7979 }, { 246,-7979 }, { 247,-7979 },
+ { 248,-7979 }, { 249,-7979 }, { 250,-7979 }, { 251,-7979 }, { 252,-7979 },
+ { 253,-7979 }, { 254,-7979 }, { 255,-7979 }, { 256,-7979 }, {   0,   0 },
+ {   0,5196 }, {   1,-8237 }, {   2,-8237 }, {   3,-8237 }, {   4,-8237 },
+ {   5,-8237 }, {   6,-8237 }, {   7,-8237 }, {   8,-8237 }, {   9,1427 },
+ {  10,1427 }, {  11,-8237 }, {  12,-8237 }, {  13,1427 }, {  14,-8237 },
+
+ {  15,-8237 }, {  16,-8237 }, {  17,-8237 }, {  18,-8237 }, {  19,-8237 },
+ {  20,-8237 }, {  21,-8237 }, {  22,-8237 }, {  23,-8237 }, {  24,-8237 },
+ {  25,-8237 }, {  26,-8237 }, {  27,-8237 }, {  28,-8237 }, {  29,-8237 },
+ {  30,-8237 }, {  31,-8237 }, {  32,1427 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-8237 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,1427 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-8237 }, {  46,-8262 }, {  47,-8262 }, {  48,-8237 }, {  49,-8237 },
+ {  50,-8237 }, {  51,-8237 }, {  52,-8237 }, {  53,-8237 }, {  54,-8237 },
+ {  55,-8237 }, {  56,-8237 }, {  57,-8237 }, {  58,-8237 }, {   0,   0 },
+ {   0,   0 }, {  61,-8262 }, {   0,   0 }, {  63,-8237 }, {   0,   0 },
+
+ {  65,-8237 }, {  66,-8237 }, {  67,-8237 }, {  68,-8237 }, {  69,-8237 },
+ {  70,-8237 }, {  71,-8237 }, {  72,-8237 }, {  73,-8237 }, {  74,-8237 },
+ {  75,-8237 }, {  76,-8237 }, {  77,-8237 }, {  78,-8237 }, {  79,-8237 },
+ {  80,-8237 }, {  81,-8237 }, {  82,-8237 }, {  83,-8237 }, {  84,-8237 },
+ {  85,-8237 }, {  86,-8237 }, {  87,-8237 }, {  88,-8237 }, {  89,-8237 },
+ {  90,-8237 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-8237 }, {   0,   0 }, {  97,-8237 }, {  98,-8237 }, {  99,-8237 },
+ { 100,-8237 }, { 101,-8237 }, { 102,-8237 }, { 103,-8237 }, { 104,-8237 },
+ { 105,-8237 }, { 106,-8237 }, { 107,-8237 }, { 108,-8237 }, { 109,-8237 },
+ { 110,-8237 }, { 111,-8237 }, { 112,-8237 }, { 113,-8237 }, { 114,-8237 },
+
+ { 115,-8237 }, { 116,-8237 }, { 117,-8237 }, { 118,-8237 }, { 119,-8237 },
+ { 120,-8237 }, { 121,-8237 }, { 122,-8237 }, {   0,   0 }, { 124,-8262 },
+ { 125,1427 }, { 126,1427 }, { 127,-8237 }, { 128,-8237 }, { 129,-8237 },
+ { 130,-8237 }, { 131,-8237 }, { 132,-8237 }, { 133,-8237 }, { 134,-8237 },
+ { 135,-8237 }, { 136,-8237 }, { 137,-8237 }, { 138,-8237 }, { 139,-8237 },
+ { 140,-8237 }, { 141,-8237 }, { 142,-8237 }, { 143,-8237 }, { 144,-8237 },
+ { 145,-8237 }, { 146,-8237 }, { 147,-8237 }, { 148,-8237 }, { 149,-8237 },
+ { 150,-8237 }, { 151,-8237 }, { 152,-8237 }, { 153,-8237 }, { 154,-8237 },
+ { 155,-8237 }, { 156,-8237 }, { 157,-8237 }, { 158,-8237 }, { 159,-8237 },
+ { 160,-8237 }, { 161,-8237 }, { 162,-8237 }, { 163,-8237 }, { 164,-8237 },
+
+ { 165,-8237 }, { 166,-8237 }, { 167,-8237 }, { 168,-8237 }, { 169,-8237 },
+ { 170,-8237 }, { 171,-8237 }, { 172,-8237 }, { 173,-8237 }, { 174,-8237 },
+ { 175,-8237 }, { 176,-8237 }, { 177,-8237 }, { 178,-8237 }, { 179,-8237 },
+ { 180,-8237 }, { 181,-8237 }, { 182,-8237 }, { 183,-8237 }, { 184,-8237 },
+ { 185,-8237 }, { 186,-8237 }, { 187,-8237 }, { 188,-8237 }, { 189,-8237 },
+ { 190,-8237 }, { 191,-8237 }, { 192,-8237 }, { 193,-8237 }, { 194,-8237 },
+ { 195,-8237 }, { 196,-8237 }, { 197,-8237 }, { 198,-8237 }, { 199,-8237 },
+ { 200,-8237 }, { 201,-8237 }, { 202,-8237 }, { 203,-8237 }, { 204,-8237 },
+ { 205,-8237 }, { 206,-8237 }, { 207,-8237 }, { 208,-8237 }, { 209,-8237 },
+ { 210,-8237 }, { 211,-8237 }, { 212,-8237 }, { 213,-8237 }, { 214,-8237 },
+
+ { 215,-8237 }, { 216,-8237 }, { 217,-8237 }, { 218,-8237 }, { 219,-8237 },
+ { 220,-8237 }, { 221,-8237 }, { 222,-8237 }, { 223,-8237 }, { 224,-8237 },
+ { 225,-8237 }, { 226,-8237 }, { 227,-8237 }, { 228,-8237 }, { 229,-8237 },
+ { 230,-8237 }, { 231,-8237 }, { 232,-8237 }, { 233,-8237 }, { 234,-8237 },
+ { 235,-8237 }, { 236,-8237 }, { 237,-8237 }, { 238,-8237 }, { 239,-8237 },
+ { 240,-8237 }, { 241,-8237 }, { 242,-8237 }, { 243,-8237 }, { 244,-8237 },
+ { 245,-8237 }, { 246,-8237 }, { 247,-8237 }, { 248,-8237 }, { 249,-8237 },
+ { 250,-8237 }, { 251,-8237 }, { 252,-8237 }, { 253,-8237 }, { 254,-8237 },
+ { 255,-8237 }, { 256,-8237 }, {   0,   0 }, {   0,4938 }, {   1,-8495 },
+ {   2,-8495 }, {   3,-8495 }, {   4,-8495 }, {   5,-8495 }, {   6,-8495 },
+
+ {   7,-8495 }, {   8,-8495 }, {   9,-8520 }, {  10,-8520 }, {  11,-8495 },
+ {  12,-8495 }, {  13,-8520 }, {  14,-8495 }, {  15,-8495 }, {  16,-8495 },
+ {  17,-8495 }, {  18,-8495 }, {  19,-8495 }, {  20,-8495 }, {  21,-8495 },
+ {  22,-8495 }, {  23,-8495 }, {  24,-8495 }, {  25,-8495 }, {  26,-8495 },
+ {  27,-8495 }, {  28,-8495 }, {  29,-8495 }, {  30,-8495 }, {  31,-8495 },
+ {  32,-8520 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-8495 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-8520 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8495 }, {  46,-8520 },
+ {  47,-8520 }, {  48,-8495 }, {  49,-8495 }, {  50,-8495 }, {  51,-8495 },
+ {  52,-8495 }, {  53,-8495 }, {  54,-8495 }, {  55,-8495 }, {  56,-8495 },
+
+ {  57,-8495 }, {  58,-8495 }, {   0,   0 }, {   0,   0 }, {  61,-8520 },
+ {   0,   0 }, {  63,-8495 }, {   0,   0 }, {  65,-8495 }, {  66,-8495 },
+ {  67,-8495 }, {  68,-8495 }, {  69,-8495 }, {  70,-8495 }, {  71,-8495 },
+ {  72,-8495 }, {  73,-8495 }, {  74,-8495 }, {  75,-8495 }, {  76,-8495 },
+ {  77,-8495 }, {  78,-8495 }, {  79,-8495 }, {  80,-8495 }, {  81,-8495 },
+ {  82,-8495 }, {  83,-8495 }, {  84,-8495 }, {  85,-8495 }, {  86,-8495 },
+ {  87,-8495 }, {  88,-8495 }, {  89,-8495 }, {  90,-8495 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-8495 }, {   0,   0 },
+ {  97,-8495 }, {  98,-8495 }, {  99,-8495 }, { 100,-8495 }, { 101,-8495 },
+ { 102,1448 }, { 103,-8495 }, { 104,-8495 }, { 105,-8495 }, { 106,-8495 },
+
+ { 107,-8495 }, { 108,-8495 }, { 109,-8495 }, { 110,-8495 }, { 111,-8495 },
+ { 112,-8495 }, { 113,-8495 }, { 114,-8495 }, { 115,-8495 }, { 116,-8495 },
+ { 117,-8495 }, { 118,-8495 }, { 119,-8495 }, { 120,-8495 }, { 121,-8495 },
+ { 122,-8495 }, {   0,   0 }, { 124,-8520 }, { 125,-8520 }, { 126,-8520 },
+ { 127,-8495 }, { 128,-8495 }, { 129,-8495 }, { 130,-8495 }, { 131,-8495 },
+ { 132,-8495 }, { 133,-8495 }, { 134,-8495 }, { 135,-8495 }, { 136,-8495 },
+ { 137,-8495 }, { 138,-8495 }, { 139,-8495 }, { 140,-8495 }, { 141,-8495 },
+ { 142,-8495 }, { 143,-8495 }, { 144,-8495 }, { 145,-8495 }, { 146,-8495 },
+ { 147,-8495 }, { 148,-8495 }, { 149,-8495 }, { 150,-8495 }, { 151,-8495 },
+ { 152,-8495 }, { 153,-8495 }, { 154,-8495 }, { 155,-8495 }, { 156,-8495 },
+
+ { 157,-8495 }, { 158,-8495 }, { 159,-8495 }, { 160,-8495 }, { 161,-8495 },
+ { 162,-8495 }, { 163,-8495 }, { 164,-8495 }, { 165,-8495 }, { 166,-8495 },
+ { 167,-8495 }, { 168,-8495 }, { 169,-8495 }, { 170,-8495 }, { 171,-8495 },
+ { 172,-8495 }, { 173,-8495 }, { 174,-8495 }, { 175,-8495 }, { 176,-8495 },
+ { 177,-8495 }, { 178,-8495 }, { 179,-8495 }, { 180,-8495 }, { 181,-8495 },
+ { 182,-8495 }, { 183,-8495 }, { 184,-8495 }, { 185,-8495 }, { 186,-8495 },
+ { 187,-8495 }, { 188,-8495 }, { 189,-8495 }, { 190,-8495 }, { 191,-8495 },
+ { 192,-8495 }, { 193,-8495 }, { 194,-8495 }, { 195,-8495 }, { 196,-8495 },
+ { 197,-8495 }, { 198,-8495 }, { 199,-8495 }, { 200,-8495 }, { 201,-8495 },
+ { 202,-8495 }, { 203,-8495 }, { 204,-8495 }, { 205,-8495 }, { 206,-8495 },
+
+ { 207,-8495 }, { 208,-8495 }, { 209,-8495 }, { 210,-8495 }, { 211,-8495 },
+ { 212,-8495 }, { 213,-8495 }, { 214,-8495 }, { 215,-8495 }, { 216,-8495 },
+ { 217,-8495 }, { 218,-8495 }, { 219,-8495 }, { 220,-8495 }, { 221,-8495 },
+ { 222,-8495 }, { 223,-8495 }, { 224,-8495 }, { 225,-8495 }, { 226,-8495 },
+ { 227,-8495 }, { 228,-8495 }, { 229,-8495 }, { 230,-8495 }, { 231,-8495 },
+ { 232,-8495 }, { 233,-8495 }, { 234,-8495 }, { 235,-8495 }, { 236,-8495 },
+ { 237,-8495 }, { 238,-8495 }, { 239,-8495 }, { 240,-8495 }, { 241,-8495 },
+ { 242,-8495 }, { 243,-8495 }, { 244,-8495 }, { 245,-8495 }, { 246,-8495 },
+ { 247,-8495 }, { 248,-8495 }, { 249,-8495 }, { 250,-8495 }, { 251,-8495 },
+ { 252,-8495 }, { 253,-8495 }, { 254,-8495 }, { 255,-8495 }, { 256,-8495 },
+
+ {   0,   0 }, {   0,4680 }, {   0,   0 }, {   0,4678 }, {   0,   0 },
+ {   0,4676 }, {   0,   0 }, {   0,4674 }, {   0,   0 }, {   0,4672 },
+ {   0,  16 }, {   0,4670 }, {   0,  26 }, {   0,4668 }, {   0,  17 },
+ {   0,4666 }, {   0,  36 }, {   0,4664 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -4582,380 +4252,1018 @@ static const struct yy_trans_info yy_transition[20137] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 125,1164 }, { 126,1166 }, {   0,   0 }, {   0,1694 }, {   1,   0 },
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 },
- {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 },
- {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 },
- {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 115,   0 }, { 108,1448 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 115,1448 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 125,   2 }, { 126,   4 }, { 125,1450 }, {   0,   0 },
+ { 125,  -2 }, {   0,   0 }, {   0,4549 }, {   1,   0 }, {   2,   0 },
+ {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
+ {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
+ {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
 
- {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 },
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 },
- {  92,   0 }, {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
+ {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
+ {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+ {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
+ {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
+ {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
+ {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 },
+ {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+ {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
+ {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
+ {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
 
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 },
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
+ {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
+ {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+ {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
+ {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
+ {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
+ {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
+ { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
+ { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
+ { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
 
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
+ { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
+ { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+ { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
+ { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
+ { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
+ { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
+ { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
+ { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
+ { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
+ { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
 
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,   0 }, {   0,1436 }, {   1,-258 }, {   2,-258 }, {   3,-258 },
-
- {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 },
- {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 },
- {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 },
- {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 },
- {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 },
- {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 },
- {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 },
- {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 },
- {  44,-258 }, {  45, 791 }, {  46,-258 }, {  47,-258 }, {  48,-258 },
- {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 },
-
- {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 },
- {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 },
- {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 },
- {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 },
- {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 },
- {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 },
- {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 },
- {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 },
- {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 },
- {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 },
-
- { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 },
- { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 },
- { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 },
- { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 },
- { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 },
- { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 },
- { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 },
- { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 },
- { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 },
- { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 },
-
- { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 },
- { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 },
- { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 },
- { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 },
- { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 },
- { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 },
- { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 },
- { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 },
- { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 },
- { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 },
-
- { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 },
- { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 },
- { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 },
- { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 },
- { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 },
- { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 },
- { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 },
- { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 },
- { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 },
- { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 },
-
- { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,1178 },
- {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
- {   6,   0 }, {   7,   0 }, {   8,   0 }, {   0,   0 }, {   0,   0 },
- {  11,   0 }, {  12,   0 }, {   0,   0 }, {  14,   0 }, {  15,   0 },
- {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
- {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
- {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
- {  31,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 },
+ { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
+ { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+ { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
+ { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
+ { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
+ { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
+ { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
+ { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
+ { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
+ { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
 
- {   0,   0 }, {   0,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
- {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
- {  56,   0 }, {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 },
- {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
- {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
- {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
- {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
- {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,   0 },
+ { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
+ { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+ { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
+ { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
+ { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
+ { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
+ { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
+ {   0,4291 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
+ {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
+
+ {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
+ {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
+ {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
+ {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
+ {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
+ {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
+ {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
+ {  45,1184 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
+ {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
+ {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
+
+ {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
+ {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
+ {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
+ {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
+ {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
+ {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 },
+ {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 },
+ {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
+ { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
+ { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
+
+ { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
+ { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
+ { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 },
+ { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
+ { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
+ { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
+ { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
+ { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
+ { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
+ { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
+
+ { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
+ { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
+ { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
+ { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
+ { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
+ { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 },
+ { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 },
+ { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
+ { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
+ { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
+
+ { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
+ { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
+ { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
+ { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
+ { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
+ { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 },
+ { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
+ { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
+ { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
+ { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,4033 }, {   1, 811 },
+
+ {   2, 811 }, {   3, 811 }, {   4, 811 }, {   5, 811 }, {   6, 811 },
+ {   7, 811 }, {   8, 811 }, {   9, 811 }, {  10, 811 }, {  11, 811 },
+ {  12, 811 }, {  13, 811 }, {  14, 811 }, {  15, 811 }, {  16, 811 },
+ {  17, 811 }, {  18, 811 }, {  19, 811 }, {  20, 811 }, {  21, 811 },
+ {  22, 811 }, {  23, 811 }, {  24, 811 }, {  25, 811 }, {  26, 811 },
+ {  27, 811 }, {  28, 811 }, {  29, 811 }, {  30, 811 }, {  31, 811 },
+ {  32, 811 }, {  33, 811 }, {  34, 811 }, {  35, 811 }, {  36, 811 },
+ {  37, 811 }, {  38, 811 }, {  39, 811 }, {  40, 811 }, {  41, 811 },
+ {  42, 811 }, {  43, 811 }, {  44, 811 }, {  45, 811 }, {  46, 811 },
+ {  47,1184 }, {  48, 811 }, {  49, 811 }, {  50, 811 }, {  51, 811 },
+
+ {  52, 811 }, {  53, 811 }, {  54, 811 }, {  55, 811 }, {  56, 811 },
+ {  57, 811 }, {  58, 811 }, {  59, 811 }, {  60, 811 }, {  61, 811 },
+ {  62, 811 }, {  63, 811 }, {  64, 811 }, {  65, 811 }, {  66, 811 },
+ {  67, 811 }, {  68, 811 }, {  69, 811 }, {  70, 811 }, {  71, 811 },
+ {  72, 811 }, {  73, 811 }, {  74, 811 }, {  75, 811 }, {  76, 811 },
+ {  77, 811 }, {  78, 811 }, {  79, 811 }, {  80, 811 }, {  81, 811 },
+ {  82, 811 }, {  83, 811 }, {  84, 811 }, {  85, 811 }, {  86, 811 },
+ {  87, 811 }, {  88, 811 }, {  89, 811 }, {  90, 811 }, {  91, 811 },
+ {  92, 811 }, {  93, 811 }, {  94, 811 }, {  95, 811 }, {  96, 811 },
+ {  97, 811 }, {  98, 811 }, {  99, 811 }, { 100, 811 }, { 101, 811 },
+
+ { 102, 811 }, { 103, 811 }, { 104, 811 }, { 105, 811 }, { 106, 811 },
+ { 107, 811 }, { 108, 811 }, { 109, 811 }, { 110, 811 }, { 111, 811 },
+ { 112, 811 }, { 113, 811 }, { 114, 811 }, { 115, 811 }, { 116, 811 },
+ { 117, 811 }, { 118, 811 }, { 119, 811 }, { 120, 811 }, { 121, 811 },
+ { 122, 811 }, { 123, 811 }, { 124, 811 }, { 125, 811 }, { 126, 811 },
+ { 127, 811 }, { 128, 811 }, { 129, 811 }, { 130, 811 }, { 131, 811 },
+ { 132, 811 }, { 133, 811 }, { 134, 811 }, { 135, 811 }, { 136, 811 },
+ { 137, 811 }, { 138, 811 }, { 139, 811 }, { 140, 811 }, { 141, 811 },
+ { 142, 811 }, { 143, 811 }, { 144, 811 }, { 145, 811 }, { 146, 811 },
+ { 147, 811 }, { 148, 811 }, { 149, 811 }, { 150, 811 }, { 151, 811 },
+
+ { 152, 811 }, { 153, 811 }, { 154, 811 }, { 155, 811 }, { 156, 811 },
+ { 157, 811 }, { 158, 811 }, { 159, 811 }, { 160, 811 }, { 161, 811 },
+ { 162, 811 }, { 163, 811 }, { 164, 811 }, { 165, 811 }, { 166, 811 },
+ { 167, 811 }, { 168, 811 }, { 169, 811 }, { 170, 811 }, { 171, 811 },
+ { 172, 811 }, { 173, 811 }, { 174, 811 }, { 175, 811 }, { 176, 811 },
+ { 177, 811 }, { 178, 811 }, { 179, 811 }, { 180, 811 }, { 181, 811 },
+ { 182, 811 }, { 183, 811 }, { 184, 811 }, { 185, 811 }, { 186, 811 },
+ { 187, 811 }, { 188, 811 }, { 189, 811 }, { 190, 811 }, { 191, 811 },
+ { 192, 811 }, { 193, 811 }, { 194, 811 }, { 195, 811 }, { 196, 811 },
+ { 197, 811 }, { 198, 811 }, { 199, 811 }, { 200, 811 }, { 201, 811 },
+
+ { 202, 811 }, { 203, 811 }, { 204, 811 }, { 205, 811 }, { 206, 811 },
+ { 207, 811 }, { 208, 811 }, { 209, 811 }, { 210, 811 }, { 211, 811 },
+ { 212, 811 }, { 213, 811 }, { 214, 811 }, { 215, 811 }, { 216, 811 },
+ { 217, 811 }, { 218, 811 }, { 219, 811 }, { 220, 811 }, { 221, 811 },
+ { 222, 811 }, { 223, 811 }, { 224, 811 }, { 225, 811 }, { 226, 811 },
+ { 227, 811 }, { 228, 811 }, { 229, 811 }, { 230, 811 }, { 231, 811 },
+ { 232, 811 }, { 233, 811 }, { 234, 811 }, { 235, 811 }, { 236, 811 },
+ { 237, 811 }, { 238, 811 }, { 239, 811 }, { 240, 811 }, { 241, 811 },
+ { 242, 811 }, { 243, 811 }, { 244, 811 }, { 245, 811 }, { 246, 811 },
+ { 247, 811 }, { 248, 811 }, { 249, 811 }, { 250, 811 }, { 251, 811 },
+
+ { 252, 811 }, { 253, 811 }, { 254, 811 }, { 255, 811 }, { 256, 811 },
+ {   0,   1 }, {   0,3775 }, {   0,   1 }, {   0,3773 }, {   0,  46 },
+ {   0,3771 }, {   0,  43 }, {   0,3769 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,3748 }, {   1,-9685 },
+ {   2,-9685 }, {   3,-9685 }, {   4,-9685 }, {   5,-9685 }, {   6,-9685 },
+ {   7,-9685 }, {   8,-9685 }, {   9, 530 }, {  10, 530 }, {  11,-9685 },
+ {  12,-9685 }, {  13, 530 }, {  14,-9685 }, {  15,-9685 }, {  16,-9685 },
+
+ {  17,-9685 }, {  18,-9685 }, {  19,-9685 }, {  20,-9685 }, {  21,-9685 },
+ {  22,-9685 }, {  23,-9685 }, {  24,-9685 }, {  25,-9685 }, {  26,-9685 },
+ {  27,-9685 }, {  28,-9685 }, {  29,-9685 }, {  30,-9685 }, {  31,-9685 },
+ {  32, 530 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9685 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, 530 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9685 }, {  46,-9710 },
+ {  47,-9710 }, {  48,-9685 }, {  49,-9685 }, {  50,-9685 }, {  51,-9685 },
+ {  52,-9685 }, {  53,-9685 }, {  54,-9685 }, {  55,-9685 }, {  56,-9685 },
+ {  57,-9685 }, {  58,-9685 }, {   0,   0 }, {   0,   0 }, {  61,-9710 },
+ {   0,   0 }, {  63,-9685 }, {   0,   0 }, {  65,-9685 }, {  66,-9685 },
+
+ {  67,-9685 }, {  68,-9685 }, {  69,-9685 }, {  70,-9685 }, {  71,-9685 },
+ {  72,-9685 }, {  73,-9685 }, {  74,-9685 }, {  75,-9685 }, {  76,-9685 },
+ {  77,-9685 }, {  78,-9685 }, {  79,-9685 }, {  80,-9685 }, {  81,-9685 },
+ {  82,-9685 }, {  83,-9685 }, {  84,-9685 }, {  85,-9685 }, {  86,-9685 },
+ {  87,-9685 }, {  88,-9685 }, {  89,-9685 }, {  90,-9685 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9685 }, { 123, 555 },
+ {  97,-9685 }, {  98,-9685 }, {  99,-9685 }, { 100,-9685 }, { 101,-9685 },
+ { 102,-9685 }, { 103,-9685 }, { 104,-9685 }, { 105,-9685 }, { 106,-9685 },
+ { 107,-9685 }, { 108,-9685 }, { 109,-9685 }, { 110,-9685 }, { 111,-9685 },
+ { 112,-9685 }, { 113,-9685 }, { 114,-9685 }, { 115,-9685 }, { 116,-9685 },
+
+ { 117,-9685 }, { 118,-9685 }, { 119,-9685 }, { 120,-9685 }, { 121,-9685 },
+ { 122,-9685 }, {   0,   0 }, { 124,-9710 }, { 125, 530 }, { 126, 530 },
+ { 127,-9685 }, { 128,-9685 }, { 129,-9685 }, { 130,-9685 }, { 131,-9685 },
+ { 132,-9685 }, { 133,-9685 }, { 134,-9685 }, { 135,-9685 }, { 136,-9685 },
+ { 137,-9685 }, { 138,-9685 }, { 139,-9685 }, { 140,-9685 }, { 141,-9685 },
+ { 142,-9685 }, { 143,-9685 }, { 144,-9685 }, { 145,-9685 }, { 146,-9685 },
+ { 147,-9685 }, { 148,-9685 }, { 149,-9685 }, { 150,-9685 }, { 151,-9685 },
+ { 152,-9685 }, { 153,-9685 }, { 154,-9685 }, { 155,-9685 }, { 156,-9685 },
+ { 157,-9685 }, { 158,-9685 }, { 159,-9685 }, { 160,-9685 }, { 161,-9685 },
+ { 162,-9685 }, { 163,-9685 }, { 164,-9685 }, { 165,-9685 }, { 166,-9685 },
+
+ { 167,-9685 }, { 168,-9685 }, { 169,-9685 }, { 170,-9685 }, { 171,-9685 },
+ { 172,-9685 }, { 173,-9685 }, { 174,-9685 }, { 175,-9685 }, { 176,-9685 },
+ { 177,-9685 }, { 178,-9685 }, { 179,-9685 }, { 180,-9685 }, { 181,-9685 },
+ { 182,-9685 }, { 183,-9685 }, { 184,-9685 }, { 185,-9685 }, { 186,-9685 },
+ { 187,-9685 }, { 188,-9685 }, { 189,-9685 }, { 190,-9685 }, { 191,-9685 },
+ { 192,-9685 }, { 193,-9685 }, { 194,-9685 }, { 195,-9685 }, { 196,-9685 },
+ { 197,-9685 }, { 198,-9685 }, { 199,-9685 }, { 200,-9685 }, { 201,-9685 },
+ { 202,-9685 }, { 203,-9685 }, { 204,-9685 }, { 205,-9685 }, { 206,-9685 },
+ { 207,-9685 }, { 208,-9685 }, { 209,-9685 }, { 210,-9685 }, { 211,-9685 },
+ { 212,-9685 }, { 213,-9685 }, { 214,-9685 }, { 215,-9685 }, { 216,-9685 },
+
+ { 217,-9685 }, { 218,-9685 }, { 219,-9685 }, { 220,-9685 }, { 221,-9685 },
+ { 222,-9685 }, { 223,-9685 }, { 224,-9685 }, { 225,-9685 }, { 226,-9685 },
+ { 227,-9685 }, { 228,-9685 }, { 229,-9685 }, { 230,-9685 }, { 231,-9685 },
+ { 232,-9685 }, { 233,-9685 }, { 234,-9685 }, { 235,-9685 }, { 236,-9685 },
+ { 237,-9685 }, { 238,-9685 }, { 239,-9685 }, { 240,-9685 }, { 241,-9685 },
+ { 242,-9685 }, { 243,-9685 }, { 244,-9685 }, { 245,-9685 }, { 246,-9685 },
+ { 247,-9685 }, { 248,-9685 }, { 249,-9685 }, { 250,-9685 }, { 251,-9685 },
+ { 252,-9685 }, { 253,-9685 }, { 254,-9685 }, { 255,-9685 }, { 256,-9685 },
+ {   0,   0 }, {   0,3490 }, {   1,-9943 }, {   2,-9943 }, {   3,-9943 },
+ {   4,-9943 }, {   5,-9943 }, {   6,-9943 }, {   7,-9943 }, {   8,-9943 },
+
+ {   9,-9968 }, {  10,-9968 }, {  11,-9943 }, {  12,-9943 }, {  13,-9968 },
+ {  14,-9943 }, {  15,-9943 }, {  16,-9943 }, {  17,-9943 }, {  18,-9943 },
+ {  19,-9943 }, {  20,-9943 }, {  21,-9943 }, {  22,-9943 }, {  23,-9943 },
+ {  24,-9943 }, {  25,-9943 }, {  26,-9943 }, {  27,-9943 }, {  28,-9943 },
+ {  29,-9943 }, {  30,-9943 }, {  31,-9943 }, {  32,-9968 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-9943 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-9968 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-9943 }, {  46,-9968 }, {  47,-9968 }, {  48,-9943 },
+ {  49,-9943 }, {  50,-9943 }, {  51,-9943 }, {  52,-9943 }, {  53,-9943 },
+ {  54,-9943 }, {  55,-9943 }, {  56,-9943 }, {  57,-9943 }, {  58,-9943 },
+
+ {   0,   0 }, {   0,   0 }, {  61,-9968 }, {   0,   0 }, {  63,-9943 },
+ {   0,   0 }, {  65,-9943 }, {  66,-9943 }, {  67,-9943 }, {  68,-9943 },
+ {  69,-9943 }, {  70,-9943 }, {  71,-9943 }, {  72,-9943 }, {  73,-9943 },
+ {  74,-9943 }, {  75,-9943 }, {  76,-9943 }, {  77,-9943 }, {  78,-9943 },
+ {  79,-9943 }, {  80,-9943 }, {  81,-9943 }, {  82,-9943 }, {  83,-9943 },
+ {  84,-9943 }, {  85,-9943 }, {  86,-9943 }, {  87,-9943 }, {  88,-9943 },
+ {  89,-9943 }, {  90,-9943 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-9943 }, {   0,   0 }, {  97,-9943 }, {  98,-9943 },
+ {  99,-9943 }, { 100,-9943 }, { 101,-9943 }, { 102,-9943 }, { 103,-9943 },
+ { 104,-9943 }, { 105, 899 }, { 106,-9943 }, { 107,-9943 }, { 108,-9943 },
+
+ { 109,-9943 }, { 110,-9943 }, { 111,-9943 }, { 112,-9943 }, { 113,-9943 },
+ { 114,-9943 }, { 115,-9943 }, { 116,-9943 }, { 117,-9943 }, { 118,-9943 },
+ { 119,-9943 }, { 120,-9943 }, { 121,-9943 }, { 122,-9943 }, {   0,   0 },
+ { 124,-9968 }, { 125,-9968 }, { 126,-9968 }, { 127,-9943 }, { 128,-9943 },
+ { 129,-9943 }, { 130,-9943 }, { 131,-9943 }, { 132,-9943 }, { 133,-9943 },
+ { 134,-9943 }, { 135,-9943 }, { 136,-9943 }, { 137,-9943 }, { 138,-9943 },
+ { 139,-9943 }, { 140,-9943 }, { 141,-9943 }, { 142,-9943 }, { 143,-9943 },
+ { 144,-9943 }, { 145,-9943 }, { 146,-9943 }, { 147,-9943 }, { 148,-9943 },
+ { 149,-9943 }, { 150,-9943 }, { 151,-9943 }, { 152,-9943 }, { 153,-9943 },
+ { 154,-9943 }, { 155,-9943 }, { 156,-9943 }, { 157,-9943 }, { 158,-9943 },
+
+ { 159,-9943 }, { 160,-9943 }, { 161,-9943 }, { 162,-9943 }, { 163,-9943 },
+ { 164,-9943 }, { 165,-9943 }, { 166,-9943 }, { 167,-9943 }, { 168,-9943 },
+ { 169,-9943 }, { 170,-9943 }, { 171,-9943 }, { 172,-9943 }, { 173,-9943 },
+ { 174,-9943 }, { 175,-9943 }, { 176,-9943 }, { 177,-9943 }, { 178,-9943 },
+ { 179,-9943 }, { 180,-9943 }, { 181,-9943 }, { 182,-9943 }, { 183,-9943 },
+ { 184,-9943 }, { 185,-9943 }, { 186,-9943 }, { 187,-9943 }, { 188,-9943 },
+ { 189,-9943 }, { 190,-9943 }, { 191,-9943 }, { 192,-9943 }, { 193,-9943 },
+ { 194,-9943 }, { 195,-9943 }, { 196,-9943 }, { 197,-9943 }, { 198,-9943 },
+ { 199,-9943 }, { 200,-9943 }, { 201,-9943 }, { 202,-9943 }, { 203,-9943 },
+ { 204,-9943 }, { 205,-9943 }, { 206,-9943 }, { 207,-9943 }, { 208,-9943 },
+
+ { 209,-9943 }, { 210,-9943 }, { 211,-9943 }, { 212,-9943 }, { 213,-9943 },
+ { 214,-9943 }, { 215,-9943 }, { 216,-9943 }, { 217,-9943 }, { 218,-9943 },
+ { 219,-9943 }, { 220,-9943 }, { 221,-9943 }, { 222,-9943 }, { 223,-9943 },
+ { 224,-9943 }, { 225,-9943 }, { 226,-9943 }, { 227,-9943 }, { 228,-9943 },
+ { 229,-9943 }, { 230,-9943 }, { 231,-9943 }, { 232,-9943 }, { 233,-9943 },
+ { 234,-9943 }, { 235,-9943 }, { 236,-9943 }, { 237,-9943 }, { 238,-9943 },
+ { 239,-9943 }, { 240,-9943 }, { 241,-9943 }, { 242,-9943 }, { 243,-9943 },
+ { 244,-9943 }, { 245,-9943 }, { 246,-9943 }, { 247,-9943 }, { 248,-9943 },
+ { 249,-9943 }, { 250,-9943 }, { 251,-9943 }, { 252,-9943 }, { 253,-9943 },
+ { 254,-9943 }, { 255,-9943 }, { 256,-9943 }, {   0,   0 }, {   0,3232 },
+
+ {   0,  28 }, {   0,3230 }, {   0,  22 }, {   0,3228 }, {   0,   0 },
+ {   0,3226 }, {   0,   0 }, {   0,3224 }, {   0,   8 }, {   0,3222 },
+ {   0,   1 }, {   0,3220 }, {   0,  44 }, {   0,3218 }, {   0,   0 },
+ {   0,3216 }, {   0,   0 }, {   0,3214 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 101, 893 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,  16 },
+ {   0,   0 }, { 101,2043 }, {   0,   0 }, { 101,2049 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 115,  10 }, {   0,   0 }, {   0,3107 },
+ {   1,-1442 }, {   2,-1442 }, {   3,-1442 }, {   4,-1442 }, {   5,-1442 },
+ {   6,-1442 }, {   7,-1442 }, {   8,-1442 }, {   9,-1442 }, {  10,-1442 },
+ {  11,-1442 }, {  12,-1442 }, {  13,-1442 }, {  14,-1442 }, {  15,-1442 },
+ {  16,-1442 }, {  17,-1442 }, {  18,-1442 }, {  19,-1442 }, {  20,-1442 },
+ {  21,-1442 }, {  22,-1442 }, {  23,-1442 }, {  24,-1442 }, {  25,-1442 },
+
+ {  26,-1442 }, {  27,-1442 }, {  28,-1442 }, {  29,-1442 }, {  30,-1442 },
+ {  31,-1442 }, {  32,-1442 }, {  33,-1442 }, {  34,-1442 }, {  35,-1442 },
+ {  36,-1442 }, {  37,-1442 }, {  38,-1442 }, {  39,-1442 }, {  40,-1442 },
+ {  41,-1442 }, {  42,-1442 }, {  43,-1442 }, {  44,-1442 }, {  45,   0 },
+ {  46,-1442 }, {  47,-1442 }, {  48,-1442 }, {  49,-1442 }, {  50,-1442 },
+ {  51,-1442 }, {  52,-1442 }, {  53,-1442 }, {  54,-1442 }, {  55,-1442 },
+ {  56,-1442 }, {  57,-1442 }, {  58,-1442 }, {  59,-1442 }, {  60,-1442 },
+ {  61,-1442 }, {  62,-1442 }, {  63,-1442 }, {  64,-1442 }, {  65,-1442 },
+ {  66,-1442 }, {  67,-1442 }, {  68,-1442 }, {  69,-1442 }, {  70,-1442 },
+ {  71,-1442 }, {  72,-1442 }, {  73,-1442 }, {  74,-1442 }, {  75,-1442 },
+
+ {  76,-1442 }, {  77,-1442 }, {  78,-1442 }, {  79,-1442 }, {  80,-1442 },
+ {  81,-1442 }, {  82,-1442 }, {  83,-1442 }, {  84,-1442 }, {  85,-1442 },
+ {  86,-1442 }, {  87,-1442 }, {  88,-1442 }, {  89,-1442 }, {  90,-1442 },
+ {  91,-1442 }, {  92,-1442 }, {  93,-1442 }, {  94,-1442 }, {  95,-1442 },
+ {  96,-1442 }, {  97,-1442 }, {  98,-1442 }, {  99,-1442 }, { 100,-1442 },
+ { 101,-1442 }, { 102,-1442 }, { 103,-1442 }, { 104,-1442 }, { 105,-1442 },
+ { 106,-1442 }, { 107,-1442 }, { 108,-1442 }, { 109,-1442 }, { 110,-1442 },
+ { 111,-1442 }, { 112,-1442 }, { 113,-1442 }, { 114,-1442 }, { 115,-1442 },
+ { 116,-1442 }, { 117,-1442 }, { 118,-1442 }, { 119,-1442 }, { 120,-1442 },
+ { 121,-1442 }, { 122,-1442 }, { 123,-1442 }, { 124,-1442 }, { 125, 902 },
+
+ { 126,1160 }, { 127,-1442 }, { 128,-1442 }, { 129,-1442 }, { 130,-1442 },
+ { 131,-1442 }, { 132,-1442 }, { 133,-1442 }, { 134,-1442 }, { 135,-1442 },
+ { 136,-1442 }, { 137,-1442 }, { 138,-1442 }, { 139,-1442 }, { 140,-1442 },
+ { 141,-1442 }, { 142,-1442 }, { 143,-1442 }, { 144,-1442 }, { 145,-1442 },
+ { 146,-1442 }, { 147,-1442 }, { 148,-1442 }, { 149,-1442 }, { 150,-1442 },
+ { 151,-1442 }, { 152,-1442 }, { 153,-1442 }, { 154,-1442 }, { 155,-1442 },
+ { 156,-1442 }, { 157,-1442 }, { 158,-1442 }, { 159,-1442 }, { 160,-1442 },
+ { 161,-1442 }, { 162,-1442 }, { 163,-1442 }, { 164,-1442 }, { 165,-1442 },
+ { 166,-1442 }, { 167,-1442 }, { 168,-1442 }, { 169,-1442 }, { 170,-1442 },
+ { 171,-1442 }, { 172,-1442 }, { 173,-1442 }, { 174,-1442 }, { 175,-1442 },
+
+ { 176,-1442 }, { 177,-1442 }, { 178,-1442 }, { 179,-1442 }, { 180,-1442 },
+ { 181,-1442 }, { 182,-1442 }, { 183,-1442 }, { 184,-1442 }, { 185,-1442 },
+ { 186,-1442 }, { 187,-1442 }, { 188,-1442 }, { 189,-1442 }, { 190,-1442 },
+ { 191,-1442 }, { 192,-1442 }, { 193,-1442 }, { 194,-1442 }, { 195,-1442 },
+ { 196,-1442 }, { 197,-1442 }, { 198,-1442 }, { 199,-1442 }, { 200,-1442 },
+ { 201,-1442 }, { 202,-1442 }, { 203,-1442 }, { 204,-1442 }, { 205,-1442 },
+ { 206,-1442 }, { 207,-1442 }, { 208,-1442 }, { 209,-1442 }, { 210,-1442 },
+ { 211,-1442 }, { 212,-1442 }, { 213,-1442 }, { 214,-1442 }, { 215,-1442 },
+ { 216,-1442 }, { 217,-1442 }, { 218,-1442 }, { 219,-1442 }, { 220,-1442 },
+ { 221,-1442 }, { 222,-1442 }, { 223,-1442 }, { 224,-1442 }, { 225,-1442 },
+
+ { 226,-1442 }, { 227,-1442 }, { 228,-1442 }, { 229,-1442 }, { 230,-1442 },
+ { 231,-1442 }, { 232,-1442 }, { 233,-1442 }, { 234,-1442 }, { 235,-1442 },
+ { 236,-1442 }, { 237,-1442 }, { 238,-1442 }, { 239,-1442 }, { 240,-1442 },
+ { 241,-1442 }, { 242,-1442 }, { 243,-1442 }, { 244,-1442 }, { 245,-1442 },
+ { 246,-1442 }, { 247,-1442 }, { 248,-1442 }, { 249,-1442 }, { 250,-1442 },
+ { 251,-1442 }, { 252,-1442 }, { 253,-1442 }, { 254,-1442 }, { 255,-1442 },
+ { 256,-1442 }, {   0,   0 }, {   0,2849 }, {   1,1160 }, {   2,1160 },
+ {   3,1160 }, {   4,1160 }, {   5,1160 }, {   6,1160 }, {   7,1160 },
+ {   8,1160 }, {   0,   0 }, {   0,   0 }, {  11,1160 }, {  12,1160 },
+ {   0,   0 }, {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 },
+
+ {  18,1160 }, {  19,1160 }, {  20,1160 }, {  21,1160 }, {  22,1160 },
+ {  23,1160 }, {  24,1160 }, {  25,1160 }, {  26,1160 }, {  27,1160 },
+ {  28,1160 }, {  29,1160 }, {  30,1160 }, {  31,1160 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1160 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,1160 }, {   0,   0 }, {   0,   0 },
+ {  48,1160 }, {  49,1160 }, {  50,1160 }, {  51,1160 }, {  52,1160 },
+ {  53,1160 }, {  54,1160 }, {  55,1160 }, {  56,1160 }, {  57,1160 },
+ {  58,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  63,1160 }, {   0,   0 }, {  65,1160 }, {  66,1160 }, {  67,1160 },
+
+ {  68,1160 }, {  69,1160 }, {  70,1160 }, {  71,1160 }, {  72,1160 },
+ {  73,1160 }, {  74,1160 }, {  75,1160 }, {  76,1160 }, {  77,1160 },
+ {  78,1160 }, {  79,1160 }, {  80,1160 }, {  81,1160 }, {  82,1160 },
+ {  83,1160 }, {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 },
+ {  88,1160 }, {  89,1160 }, {  90,1160 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,1160 }, {   0,   0 }, {  97,1160 },
+ {  98,1160 }, {  99,1160 }, { 100,1160 }, { 101,1160 }, { 102,1160 },
+ { 103,1160 }, { 104,1160 }, { 105,1160 }, { 106,1160 }, { 107,1160 },
+ { 108,1160 }, { 109,1160 }, { 110,1160 }, { 111,1160 }, { 112,1160 },
+ { 113,1160 }, { 114,1160 }, { 115,1160 }, { 116,1160 }, { 117,1160 },
+
+ { 118,1160 }, { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1160 },
+ { 128,1160 }, { 129,1160 }, { 130,1160 }, { 131,1160 }, { 132,1160 },
+ { 133,1160 }, { 134,1160 }, { 135,1160 }, { 136,1160 }, { 137,1160 },
+ { 138,1160 }, { 139,1160 }, { 140,1160 }, { 141,1160 }, { 142,1160 },
+ { 143,1160 }, { 144,1160 }, { 145,1160 }, { 146,1160 }, { 147,1160 },
+ { 148,1160 }, { 149,1160 }, { 150,1160 }, { 151,1160 }, { 152,1160 },
+ { 153,1160 }, { 154,1160 }, { 155,1160 }, { 156,1160 }, { 157,1160 },
+ { 158,1160 }, { 159,1160 }, { 160,1160 }, { 161,1160 }, { 162,1160 },
+ { 163,1160 }, { 164,1160 }, { 165,1160 }, { 166,1160 }, { 167,1160 },
+
+ { 168,1160 }, { 169,1160 }, { 170,1160 }, { 171,1160 }, { 172,1160 },
+ { 173,1160 }, { 174,1160 }, { 175,1160 }, { 176,1160 }, { 177,1160 },
+ { 178,1160 }, { 179,1160 }, { 180,1160 }, { 181,1160 }, { 182,1160 },
+ { 183,1160 }, { 184,1160 }, { 185,1160 }, { 186,1160 }, { 187,1160 },
+ { 188,1160 }, { 189,1160 }, { 190,1160 }, { 191,1160 }, { 192,1160 },
+ { 193,1160 }, { 194,1160 }, { 195,1160 }, { 196,1160 }, { 197,1160 },
+ { 198,1160 }, { 199,1160 }, { 200,1160 }, { 201,1160 }, { 202,1160 },
+ { 203,1160 }, { 204,1160 }, { 205,1160 }, { 206,1160 }, { 207,1160 },
+ { 208,1160 }, { 209,1160 }, { 210,1160 }, { 211,1160 }, { 212,1160 },
+ { 213,1160 }, { 214,1160 }, { 215,1160 }, { 216,1160 }, { 217,1160 },
+
+ { 218,1160 }, { 219,1160 }, { 220,1160 }, { 221,1160 }, { 222,1160 },
+ { 223,1160 }, { 224,1160 }, { 225,1160 }, { 226,1160 }, { 227,1160 },
+ { 228,1160 }, { 229,1160 }, { 230,1160 }, { 231,1160 }, { 232,1160 },
+ { 233,1160 }, { 234,1160 }, { 235,1160 }, { 236,1160 }, { 237,1160 },
+ { 238,1160 }, { 239,1160 }, { 240,1160 }, { 241,1160 }, { 242,1160 },
+ { 243,1160 }, { 244,1160 }, { 245,1160 }, { 246,1160 }, { 247,1160 },
+ { 248,1160 }, { 249,1160 }, { 250,1160 }, { 251,1160 }, { 252,1160 },
+ { 253,1160 }, { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 },
+ {   0,2591 }, {   1,-10842 }, {   2,-10842 }, {   3,-10842 }, {   4,-10842 },
+ {   5,-10842 }, {   6,-10842 }, {   7,-10842 }, {   8,-10842 }, {   9,-10867 },
+
+ {  10,-10867 }, {  11,-10842 }, {  12,-10842 }, {  13,-10867 }, {  14,-10842 },
+ {  15,-10842 }, {  16,-10842 }, {  17,-10842 }, {  18,-10842 }, {  19,-10842 },
+ {  20,-10842 }, {  21,-10842 }, {  22,-10842 }, {  23,-10842 }, {  24,-10842 },
+ {  25,-10842 }, {  26,-10842 }, {  27,-10842 }, {  28,-10842 }, {  29,-10842 },
+ {  30,-10842 }, {  31,-10842 }, {  32,-10867 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-10842 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-10867 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-10842 }, {  46,-10867 }, {  47,-10867 }, {  48,-10842 }, {  49,-10842 },
+ {  50,-10842 }, {  51,-10842 }, {  52,-10842 }, {  53,-10842 }, {  54,-10842 },
+ {  55,-10842 }, {  56,-10842 }, {  57,-10842 }, {  58,-10842 }, {   0,   0 },
+
+ {   0,   0 }, {  61,-10867 }, {   0,   0 }, {  63,-10842 }, {   0,   0 },
+ {  65,-10842 }, {  66,-10842 }, {  67,-10842 }, {  68,-10842 }, {  69,-10842 },
+ {  70,-10842 }, {  71,-10842 }, {  72,-10842 }, {  73,-10842 }, {  74,-10842 },
+ {  75,-10842 }, {  76,-10842 }, {  77,-10842 }, {  78,-10842 }, {  79,-10842 },
+ {  80,-10842 }, {  81,-10842 }, {  82,-10842 }, {  83,-10842 }, {  84,-10842 },
+ {  85,-10842 }, {  86,-10842 }, {  87,-10842 }, {  88,-10842 }, {  89,-10842 },
+ {  90,-10842 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-10842 }, {   0,   0 }, {  97,-10842 }, {  98,-10842 }, {  99,-10842 },
+ { 100,-10842 }, { 101,-10842 }, { 102,-10842 }, { 103,-10842 }, { 104,-10842 },
+ { 105,-10842 }, { 106,-10842 }, { 107,-10842 }, { 108,-10842 }, { 109,-10842 },
+
+ { 110,1160 }, { 111,-10842 }, { 112,-10842 }, { 113,-10842 }, { 114,-10842 },
+ { 115,-10842 }, { 116,-10842 }, { 117,-10842 }, { 118,-10842 }, { 119,-10842 },
+ { 120,-10842 }, { 121,-10842 }, { 122,-10842 }, {   0,   0 }, { 124,-10867 },
+ { 125,-10867 }, { 126,-10867 }, { 127,-10842 }, { 128,-10842 }, { 129,-10842 },
+ { 130,-10842 }, { 131,-10842 }, { 132,-10842 }, { 133,-10842 }, { 134,-10842 },
+ { 135,-10842 }, { 136,-10842 }, { 137,-10842 }, { 138,-10842 }, { 139,-10842 },
+ { 140,-10842 }, { 141,-10842 }, { 142,-10842 }, { 143,-10842 }, { 144,-10842 },
+ { 145,-10842 }, { 146,-10842 }, { 147,-10842 }, { 148,-10842 }, { 149,-10842 },
+ { 150,-10842 }, { 151,-10842 }, { 152,-10842 }, { 153,-10842 }, { 154,-10842 },
+ { 155,-10842 }, { 156,-10842 }, { 157,-10842 }, { 158,-10842 }, { 159,-10842 },
+
+ { 160,-10842 }, { 161,-10842 }, { 162,-10842 }, { 163,-10842 }, { 164,-10842 },
+ { 165,-10842 }, { 166,-10842 }, { 167,-10842 }, { 168,-10842 }, { 169,-10842 },
+ { 170,-10842 }, { 171,-10842 }, { 172,-10842 }, { 173,-10842 }, { 174,-10842 },
+ { 175,-10842 }, { 176,-10842 }, { 177,-10842 }, { 178,-10842 }, { 179,-10842 },
+ { 180,-10842 }, { 181,-10842 }, { 182,-10842 }, { 183,-10842 }, { 184,-10842 },
+ { 185,-10842 }, { 186,-10842 }, { 187,-10842 }, { 188,-10842 }, { 189,-10842 },
+ { 190,-10842 }, { 191,-10842 }, { 192,-10842 }, { 193,-10842 }, { 194,-10842 },
+ { 195,-10842 }, { 196,-10842 }, { 197,-10842 }, { 198,-10842 }, { 199,-10842 },
+ { 200,-10842 }, { 201,-10842 }, { 202,-10842 }, { 203,-10842 }, { 204,-10842 },
+ { 205,-10842 }, { 206,-10842 }, { 207,-10842 }, { 208,-10842 }, { 209,-10842 },
+
+ { 210,-10842 }, { 211,-10842 }, { 212,-10842 }, { 213,-10842 }, { 214,-10842 },
+ { 215,-10842 }, { 216,-10842 }, { 217,-10842 }, { 218,-10842 }, { 219,-10842 },
+ { 220,-10842 }, { 221,-10842 }, { 222,-10842 }, { 223,-10842 }, { 224,-10842 },
+ { 225,-10842 }, { 226,-10842 }, { 227,-10842 }, { 228,-10842 }, { 229,-10842 },
+ { 230,-10842 }, { 231,-10842 }, { 232,-10842 }, { 233,-10842 }, { 234,-10842 },
+ { 235,-10842 }, { 236,-10842 }, { 237,-10842 }, { 238,-10842 }, { 239,-10842 },
+ { 240,-10842 }, { 241,-10842 }, { 242,-10842 }, { 243,-10842 }, { 244,-10842 },
+ { 245,-10842 }, { 246,-10842 }, { 247,-10842 }, { 248,-10842 }, { 249,-10842 },
+ { 250,-10842 }, { 251,-10842 }, { 252,-10842 }, { 253,-10842 }, { 254,-10842 },
+ { 255,-10842 }, { 256,-10842 }, {   0,  25 }, {   0,2333 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   9,1162 }, {  10,1162 }, {   0,   0 },
+ {   0,   0 }, {  13,1162 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  32,1162 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,1164 }, { 126,1166 },
+ {   0,   0 }, {   0,2205 }, {   1,-2344 }, {   2,-2344 }, {   3,-2344 },
+ {   4,-2344 }, {   5,-2344 }, {   6,-2344 }, {   7,-2344 }, {   8,-2344 },
+ {   9,-2344 }, {  10,-2344 }, {  11,-2344 }, {  12,-2344 }, {  13,-2344 },
+ {  14,-2344 }, {  15,-2344 }, {  16,-2344 }, {  17,-2344 }, {  18,-2344 },
+ {  19,-2344 }, {  20,-2344 }, {  21,-2344 }, {  22,-2344 }, {  23,-2344 },
+
+ {  24,-2344 }, {  25,-2344 }, {  26,-2344 }, {  27,-2344 }, {  28,-2344 },
+ {  29,-2344 }, {  30,-2344 }, {  31,-2344 }, {  32,-2344 }, {  33,-2344 },
+ {  34,-2344 }, {  35,-2344 }, {  36,-2344 }, {  37,-2344 }, {  38,-2344 },
+ {  39,-2344 }, {  40,-2344 }, {  41,-2344 }, {  42,-2344 }, {  43,-2344 },
+ {  44,-2344 }, {  45,1165 }, {  46,-2344 }, {  47,-2344 }, {  48,-2344 },
+ {  49,-2344 }, {  50,-2344 }, {  51,-2344 }, {  52,-2344 }, {  53,-2344 },
+ {  54,-2344 }, {  55,-2344 }, {  56,-2344 }, {  57,-2344 }, {  58,-2344 },
+ {  59,-2344 }, {  60,-2344 }, {  61,-2344 }, {  62,-2344 }, {  63,-2344 },
+ {  64,-2344 }, {  65,-2344 }, {  66,-2344 }, {  67,-2344 }, {  68,-2344 },
+ {  69,-2344 }, {  70,-2344 }, {  71,-2344 }, {  72,-2344 }, {  73,-2344 },
+
+ {  74,-2344 }, {  75,-2344 }, {  76,-2344 }, {  77,-2344 }, {  78,-2344 },
+ {  79,-2344 }, {  80,-2344 }, {  81,-2344 }, {  82,-2344 }, {  83,-2344 },
+ {  84,-2344 }, {  85,-2344 }, {  86,-2344 }, {  87,-2344 }, {  88,-2344 },
+ {  89,-2344 }, {  90,-2344 }, {  91,-2344 }, {  92,-2344 }, {  93,-2344 },
+ {  94,-2344 }, {  95,-2344 }, {  96,-2344 }, {  97,-2344 }, {  98,-2344 },
+ {  99,-2344 }, { 100,-2344 }, { 101,-2344 }, { 102,-2344 }, { 103,-2344 },
+ { 104,-2344 }, { 105,-2344 }, { 106,-2344 }, { 107,-2344 }, { 108,-2344 },
+ { 109,-2344 }, { 110,-2344 }, { 111,-2344 }, { 112,-2344 }, { 113,-2344 },
+ { 114,-2344 }, { 115,-2344 }, { 116,-2344 }, { 117,-2344 }, { 118,-2344 },
+ { 119,-2344 }, { 120,-2344 }, { 121,-2344 }, { 122,-2344 }, { 123,-2344 },
+
+ { 124,-2344 }, { 125,1049 }, { 126,-2344 }, { 127,-2344 }, { 128,-2344 },
+ { 129,-2344 }, { 130,-2344 }, { 131,-2344 }, { 132,-2344 }, { 133,-2344 },
+ { 134,-2344 }, { 135,-2344 }, { 136,-2344 }, { 137,-2344 }, { 138,-2344 },
+ { 139,-2344 }, { 140,-2344 }, { 141,-2344 }, { 142,-2344 }, { 143,-2344 },
+ { 144,-2344 }, { 145,-2344 }, { 146,-2344 }, { 147,-2344 }, { 148,-2344 },
+ { 149,-2344 }, { 150,-2344 }, { 151,-2344 }, { 152,-2344 }, { 153,-2344 },
+ { 154,-2344 }, { 155,-2344 }, { 156,-2344 }, { 157,-2344 }, { 158,-2344 },
+ { 159,-2344 }, { 160,-2344 }, { 161,-2344 }, { 162,-2344 }, { 163,-2344 },
+ { 164,-2344 }, { 165,-2344 }, { 166,-2344 }, { 167,-2344 }, { 168,-2344 },
+ { 169,-2344 }, { 170,-2344 }, { 171,-2344 }, { 172,-2344 }, { 173,-2344 },
+
+ { 174,-2344 }, { 175,-2344 }, { 176,-2344 }, { 177,-2344 }, { 178,-2344 },
+ { 179,-2344 }, { 180,-2344 }, { 181,-2344 }, { 182,-2344 }, { 183,-2344 },
+ { 184,-2344 }, { 185,-2344 }, { 186,-2344 }, { 187,-2344 }, { 188,-2344 },
+ { 189,-2344 }, { 190,-2344 }, { 191,-2344 }, { 192,-2344 }, { 193,-2344 },
+ { 194,-2344 }, { 195,-2344 }, { 196,-2344 }, { 197,-2344 }, { 198,-2344 },
+ { 199,-2344 }, { 200,-2344 }, { 201,-2344 }, { 202,-2344 }, { 203,-2344 },
+ { 204,-2344 }, { 205,-2344 }, { 206,-2344 }, { 207,-2344 }, { 208,-2344 },
+ { 209,-2344 }, { 210,-2344 }, { 211,-2344 }, { 212,-2344 }, { 213,-2344 },
+ { 214,-2344 }, { 215,-2344 }, { 216,-2344 }, { 217,-2344 }, { 218,-2344 },
+ { 219,-2344 }, { 220,-2344 }, { 221,-2344 }, { 222,-2344 }, { 223,-2344 },
+
+ { 224,-2344 }, { 225,-2344 }, { 226,-2344 }, { 227,-2344 }, { 228,-2344 },
+ { 229,-2344 }, { 230,-2344 }, { 231,-2344 }, { 232,-2344 }, { 233,-2344 },
+ { 234,-2344 }, { 235,-2344 }, { 236,-2344 }, { 237,-2344 }, { 238,-2344 },
+ { 239,-2344 }, { 240,-2344 }, { 241,-2344 }, { 242,-2344 }, { 243,-2344 },
+ { 244,-2344 }, { 245,-2344 }, { 246,-2344 }, { 247,-2344 }, { 248,-2344 },
+ { 249,-2344 }, { 250,-2344 }, { 251,-2344 }, { 252,-2344 }, { 253,-2344 },
+ { 254,-2344 }, { 255,-2344 }, { 256,-2344 }, {   0,   0 }, {   0,1947 },
+ {   1,-2602 }, {   2,-2602 }, {   3,-2602 }, {   4,-2602 }, {   5,-2602 },
+ {   6,-2602 }, {   7,-2602 }, {   8,-2602 }, {   9,-2602 }, {  10,-2602 },
+ {  11,-2602 }, {  12,-2602 }, {  13,-2602 }, {  14,-2602 }, {  15,-2602 },
+
+ {  16,-2602 }, {  17,-2602 }, {  18,-2602 }, {  19,-2602 }, {  20,-2602 },
+ {  21,-2602 }, {  22,-2602 }, {  23,-2602 }, {  24,-2602 }, {  25,-2602 },
+ {  26,-2602 }, {  27,-2602 }, {  28,-2602 }, {  29,-2602 }, {  30,-2602 },
+ {  31,-2602 }, {  32,-2602 }, {  33,-2602 }, {  34,-2602 }, {  35,-2602 },
+ {  36,-2602 }, {  37,-2602 }, {  38,-2602 }, {  39,-2602 }, {  40,-2602 },
+ {  41,-2602 }, {  42,-2602 }, {  43,-2602 }, {  44,-2602 }, {  45, 907 },
+ {  46,-2602 }, {  47,-2602 }, {  48,-2602 }, {  49,-2602 }, {  50,-2602 },
+ {  51,-2602 }, {  52,-2602 }, {  53,-2602 }, {  54,-2602 }, {  55,-2602 },
+ {  56,-2602 }, {  57,-2602 }, {  58,-2602 }, {  59,-2602 }, {  60,-2602 },
+ {  61,-2602 }, {  62,-2602 }, {  63,-2602 }, {  64,-2602 }, {  65,-2602 },
+
+ {  66,-2602 }, {  67,-2602 }, {  68,-2602 }, {  69,-2602 }, {  70,-2602 },
+ {  71,-2602 }, {  72,-2602 }, {  73,-2602 }, {  74,-2602 }, {  75,-2602 },
+ {  76,-2602 }, {  77,-2602 }, {  78,-2602 }, {  79,-2602 }, {  80,-2602 },
+ {  81,-2602 }, {  82,-2602 }, {  83,-2602 }, {  84,-2602 }, {  85,-2602 },
+ {  86,-2602 }, {  87,-2602 }, {  88,-2602 }, {  89,-2602 }, {  90,-2602 },
+ {  91,-2602 }, {  92,-2602 }, {  93,-2602 }, {  94,-2602 }, {  95,-2602 },
+ {  96,-2602 }, {  97,-2602 }, {  98,-2602 }, {  99,-2602 }, { 100,-2602 },
+ { 101,-2602 }, { 102,-2602 }, { 103,-2602 }, { 104,-2602 }, { 105,-2602 },
+ { 106,-2602 }, { 107,-2602 }, { 108,-2602 }, { 109,-2602 }, { 110,-2602 },
+ { 111,-2602 }, { 112,-2602 }, { 113,-2602 }, { 114,-2602 }, { 115,-2602 },
+
+ { 116,-2602 }, { 117,-2602 }, { 118,-2602 }, { 119,-2602 }, { 120,-2602 },
+ { 121,-2602 }, { 122,-2602 }, { 123,-2602 }, { 124,-2602 }, { 125,-258 },
+ { 126,-2602 }, { 127,-2602 }, { 128,-2602 }, { 129,-2602 }, { 130,-2602 },
+ { 131,-2602 }, { 132,-2602 }, { 133,-2602 }, { 134,-2602 }, { 135,-2602 },
+ { 136,-2602 }, { 137,-2602 }, { 138,-2602 }, { 139,-2602 }, { 140,-2602 },
+ { 141,-2602 }, { 142,-2602 }, { 143,-2602 }, { 144,-2602 }, { 145,-2602 },
+ { 146,-2602 }, { 147,-2602 }, { 148,-2602 }, { 149,-2602 }, { 150,-2602 },
+ { 151,-2602 }, { 152,-2602 }, { 153,-2602 }, { 154,-2602 }, { 155,-2602 },
+ { 156,-2602 }, { 157,-2602 }, { 158,-2602 }, { 159,-2602 }, { 160,-2602 },
+ { 161,-2602 }, { 162,-2602 }, { 163,-2602 }, { 164,-2602 }, { 165,-2602 },
+
+ { 166,-2602 }, { 167,-2602 }, { 168,-2602 }, { 169,-2602 }, { 170,-2602 },
+ { 171,-2602 }, { 172,-2602 }, { 173,-2602 }, { 174,-2602 }, { 175,-2602 },
+ { 176,-2602 }, { 177,-2602 }, { 178,-2602 }, { 179,-2602 }, { 180,-2602 },
+ { 181,-2602 }, { 182,-2602 }, { 183,-2602 }, { 184,-2602 }, { 185,-2602 },
+ { 186,-2602 }, { 187,-2602 }, { 188,-2602 }, { 189,-2602 }, { 190,-2602 },
+ { 191,-2602 }, { 192,-2602 }, { 193,-2602 }, { 194,-2602 }, { 195,-2602 },
+ { 196,-2602 }, { 197,-2602 }, { 198,-2602 }, { 199,-2602 }, { 200,-2602 },
+ { 201,-2602 }, { 202,-2602 }, { 203,-2602 }, { 204,-2602 }, { 205,-2602 },
+ { 206,-2602 }, { 207,-2602 }, { 208,-2602 }, { 209,-2602 }, { 210,-2602 },
+ { 211,-2602 }, { 212,-2602 }, { 213,-2602 }, { 214,-2602 }, { 215,-2602 },
+
+ { 216,-2602 }, { 217,-2602 }, { 218,-2602 }, { 219,-2602 }, { 220,-2602 },
+ { 221,-2602 }, { 222,-2602 }, { 223,-2602 }, { 224,-2602 }, { 225,-2602 },
+ { 226,-2602 }, { 227,-2602 }, { 228,-2602 }, { 229,-2602 }, { 230,-2602 },
+ { 231,-2602 }, { 232,-2602 }, { 233,-2602 }, { 234,-2602 }, { 235,-2602 },
+ { 236,-2602 }, { 237,-2602 }, { 238,-2602 }, { 239,-2602 }, { 240,-2602 },
+ { 241,-2602 }, { 242,-2602 }, { 243,-2602 }, { 244,-2602 }, { 245,-2602 },
+ { 246,-2602 }, { 247,-2602 }, { 248,-2602 }, { 249,-2602 }, { 250,-2602 },
+ { 251,-2602 }, { 252,-2602 }, { 253,-2602 }, { 254,-2602 }, { 255,-2602 },
+ { 256,-2602 }, {   0,   0 }, {   0,1689 }, {   1,   0 }, {   2,   0 },
+ {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
 
- {   0,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
- { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
- { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
- { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
- { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
- { 121,   0 }, { 122,   0 }, {   0,   0 }, {   0,   0 }, { 125, 535 },
- {   0,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
- { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
- { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
- { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
+ {   8,   0 }, {   0,   0 }, {   0,   0 }, {  11,   0 }, {  12,   0 },
+ {   0,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
+ {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
+ {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+ {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,   0 }, {   0,   0 }, {   0,   0 },
+ {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+ {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
 
- { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
- { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
- { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
- { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
- { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
- { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
- { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
- { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
- { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
- { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
+ {  58,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
+ {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
+ {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+ {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
+ {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
+ {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 },
+ {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
+ { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
 
- { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
- { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
- { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
- { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
- { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
- { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
- { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
- { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
- { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
- { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
+ { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
+ { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
+ { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
+ {   0,   0 }, {   0,   0 }, { 125, 907 }, {   0,   0 }, { 127,   0 },
+ { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
+ { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
+ { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
+ { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
+ { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
+ { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
 
- { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
- { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0, 920 }, {   1,-11114 }, {   2,-11114 },
- {   3,-11114 }, {   4,-11114 }, {   5,-11114 }, {   6,-11114 }, {   7,-11114 },
- {   8,-11114 }, {   9,-11139 }, {  10,-11139 }, {  11,-11114 }, {  12,-11114 },
- {  13,-11139 }, {  14,-11114 }, {  15,-11114 }, {  16,-11114 }, {  17,-11114 },
- {  18,-11114 }, {  19,-11114 }, {  20,-11114 }, {  21,-11114 }, {  22,-11114 },
- {  23,-11114 }, {  24,-11114 }, {  25,-11114 }, {  26,-11114 }, {  27,-11114 },
- {  28,-11114 }, {  29,-11114 }, {  30,-11114 }, {  31,-11114 }, {  32,-11139 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-11114 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-11139 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-11114 }, {  46,-11139 }, {  47,-11139 },
- {  48,-11114 }, {  49,-11114 }, {  50,-11114 }, {  51,-11114 }, {  52,-11114 },
- {  53,-11114 }, {  54,-11114 }, {  55,-11114 }, {  56,-11114 }, {  57,-11114 },
- {  58,-11114 }, {   0,   0 }, {   0,   0 }, {  61,-11139 }, {   0,   0 },
- {  63,-11114 }, {   0,   0 }, {  65,-11114 }, {  66,-11114 }, {  67,-11114 },
- {  68,-11114 }, {  69,-11114 }, {  70,-11114 }, {  71,-11114 }, {  72,-11114 },
- {  73,-11114 }, {  74,-11114 }, {  75,-11114 }, {  76,-11114 }, {  77,-11114 },
- {  78,-11114 }, {  79,-11114 }, {  80,-11114 }, {  81,-11114 }, {  82,-11114 },
- {  83,-11114 }, {  84,-11114 }, {  85,-11114 }, {  86,-11114 }, {  87,-11114 },
-
- {  88,-11114 }, {  89,-11114 }, {  90,-11114 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-11114 }, {   0,   0 }, {  97,-11114 },
- {  98,-11114 }, {  99,-11114 }, { 100,-11114 }, { 101, 404 }, { 102,-11114 },
- { 103,-11114 }, { 104,-11114 }, { 105,-11114 }, { 106,-11114 }, { 107,-11114 },
- { 108,-11114 }, { 109,-11114 }, { 110,-11114 }, { 111,-11114 }, { 112,-11114 },
- { 113,-11114 }, { 114,-11114 }, { 115,-11114 }, { 116,-11114 }, { 117,-11114 },
- { 118,-11114 }, { 119,-11114 }, { 120,-11114 }, { 121,-11114 }, { 122,-11114 },
- {   0,   0 }, { 124,-11139 }, { 125,-11139 }, { 126,-11139 }, { 127,-11114 },
- { 128,-11114 }, { 129,-11114 }, { 130,-11114 }, { 131,-11114 }, { 132,-11114 },
- { 133,-11114 }, { 134,-11114 }, { 135,-11114 }, { 136,-11114 }, { 137,-11114 },
-
- { 138,-11114 }, { 139,-11114 }, { 140,-11114 }, { 141,-11114 }, { 142,-11114 },
- { 143,-11114 }, { 144,-11114 }, { 145,-11114 }, { 146,-11114 }, { 147,-11114 },
- { 148,-11114 }, { 149,-11114 }, { 150,-11114 }, { 151,-11114 }, { 152,-11114 },
- { 153,-11114 }, { 154,-11114 }, { 155,-11114 }, { 156,-11114 }, { 157,-11114 },
- { 158,-11114 }, { 159,-11114 }, { 160,-11114 }, { 161,-11114 }, { 162,-11114 },
- { 163,-11114 }, { 164,-11114 }, { 165,-11114 }, { 166,-11114 }, { 167,-11114 },
- { 168,-11114 }, { 169,-11114 }, { 170,-11114 }, { 171,-11114 }, { 172,-11114 },
- { 173,-11114 }, { 174,-11114 }, { 175,-11114 }, { 176,-11114 }, { 177,-11114 },
- { 178,-11114 }, { 179,-11114 }, { 180,-11114 }, { 181,-11114 }, { 182,-11114 },
- { 183,-11114 }, { 184,-11114 }, { 185,-11114 }, { 186,-11114 }, { 187,-11114 },
-
- { 188,-11114 }, { 189,-11114 }, { 190,-11114 }, { 191,-11114 }, { 192,-11114 },
- { 193,-11114 }, { 194,-11114 }, { 195,-11114 }, { 196,-11114 }, { 197,-11114 },
- { 198,-11114 }, { 199,-11114 }, { 200,-11114 }, { 201,-11114 }, { 202,-11114 },
- { 203,-11114 }, { 204,-11114 }, { 205,-11114 }, { 206,-11114 }, { 207,-11114 },
- { 208,-11114 }, { 209,-11114 }, { 210,-11114 }, { 211,-11114 }, { 212,-11114 },
- { 213,-11114 }, { 214,-11114 }, { 215,-11114 }, { 216,-11114 }, { 217,-11114 },
- { 218,-11114 }, { 219,-11114 }, { 220,-11114 }, { 221,-11114 }, { 222,-11114 },
- { 223,-11114 }, { 224,-11114 }, { 225,-11114 }, { 226,-11114 }, { 227,-11114 },
- { 228,-11114 }, { 229,-11114 }, { 230,-11114 }, { 231,-11114 }, { 232,-11114 },
- { 233,-11114 }, { 234,-11114 }, { 235,-11114 }, { 236,-11114 }, { 237,-11114 },
-
- { 238,-11114 }, { 239,-11114 }, { 240,-11114 }, { 241,-11114 }, { 242,-11114 },
- { 243,-11114 }, { 244,-11114 }, { 245,-11114 }, { 246,-11114 }, { 247,-11114 },
- { 248,-11114 }, { 249,-11114 }, { 250,-11114 }, { 251,-11114 }, { 252,-11114 },
- { 253,-11114 }, { 254,-11114 }, { 255,-11114 }, { 256,-11114 }, {   0,   0 },
- {   0, 662 }, {   0,   0 }, {   0, 660 }, {   0,   0 }, {   0, 658 },
- {   0,   0 }, {   0, 656 }, {   0,  25 }, {   0, 654 }, {   9,   2 },
- {  10,   2 }, {   9,   0 }, {  10,   0 }, {  13,   2 }, {   0,   0 },
- {  13,   0 }, {   0,   0 }, {   0, 645 }, {   0,   0 }, {   0, 643 },
- {   0,  23 }, {   0, 641 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  32,   2 }, {   0,   0 }, {  32,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 608 },
- {   0,   0 }, {   0, 606 }, {   0,   0 }, {   0, 604 }, {   0,  12 },
- {   0, 602 }, {   0,   0 }, {   0,   0 }, {   0, 599 }, {   0,  45 },
- {   0, 597 }, {   0,   9 }, {   0, 595 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 125,   4 }, { 126,   6 }, { 125,   2 }, { 126,   4 }, { 125,  17 },
-
- {   0,   0 }, { 125,  -2 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 125,  37 }, { 126,  39 }, { 125,  39 },
- {   0,   0 }, {   0, 516 }, {   1,-11518 }, {   2,-11518 }, {   3,-11518 },
- {   4,-11518 }, {   5,-11518 }, {   6,-11518 }, {   7,-11518 }, {   8,-11518 },
- {   9,-11543 }, {  10,-11543 }, {  11,-11518 }, {  12,-11518 }, {  13,-11543 },
- {  14,-11518 }, {  15,-11518 }, {  16,-11518 }, {  17,-11518 }, {  18,-11518 },
- {  19,-11518 }, {  20,-11518 }, {  21,-11518 }, {  22,-11518 }, {  23,-11518 },
- {  24,-11518 }, {  25,-11518 }, {  26,-11518 }, {  27,-11518 }, {  28,-11518 },
- {  29,-11518 }, {  30,-11518 }, {  31,-11518 }, {  32,-11543 }, { 125,   6 },
-
- {   0,   0 }, { 125,  -2 }, {  36,-11518 }, { 125,   5 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-11543 }, { 125,   4 }, {   0,   0 },
- {   0,   0 }, {  45,-11518 }, {  46,-11543 }, {  47,-11543 }, {  48,-11518 },
- {  49,-11518 }, {  50,-11518 }, {  51,-11518 }, {  52,-11518 }, {  53,-11518 },
- {  54,-11518 }, {  55,-11518 }, {  56,-11518 }, {  57,-11518 }, {  58,-11518 },
- {   0,   0 }, {   0,   0 }, {  61,-11543 }, {   0,   0 }, {  63,-11518 },
- {   0,   0 }, {  65,-11518 }, {  66,-11518 }, {  67,-11518 }, {  68,-11518 },
- {  69,-11518 }, {  70,-11518 }, {  71,-11518 }, {  72,-11518 }, {  73,-11518 },
- {  74,-11518 }, {  75,-11518 }, {  76,-11518 }, {  77,-11518 }, {  78,-11518 },
- {  79,-11518 }, {  80,-11518 }, {  81,-11518 }, {  82,-11518 }, {  83,-11518 },
-
- {  84,-11518 }, {  85,-11518 }, {  86,-11518 }, {  87,-11518 }, {  88,-11518 },
- {  89,-11518 }, {  90,-11518 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-11518 }, {   0,   0 }, {  97,-11518 }, {  98,-11518 },
- {  99,-11518 }, { 100, 258 }, { 101,-11518 }, { 102,-11518 }, { 103,-11518 },
- { 104,-11518 }, { 105,-11518 }, { 106,-11518 }, { 107,-11518 }, { 108,-11518 },
- { 109,-11518 }, { 110,-11518 }, { 111,-11518 }, { 112,-11518 }, { 113,-11518 },
- { 114,-11518 }, { 115,-11518 }, { 116,-11518 }, { 117,-11518 }, { 118,-11518 },
- { 119,-11518 }, { 120,-11518 }, { 121,-11518 }, { 122,-11518 }, {   0,   0 },
- { 124,-11543 }, { 125,-11543 }, { 126,-11543 }, { 127,-11518 }, { 128,-11518 },
- { 129,-11518 }, { 130,-11518 }, { 131,-11518 }, { 132,-11518 }, { 133,-11518 },
-
- { 134,-11518 }, { 135,-11518 }, { 136,-11518 }, { 137,-11518 }, { 138,-11518 },
- { 139,-11518 }, { 140,-11518 }, { 141,-11518 }, { 142,-11518 }, { 143,-11518 },
- { 144,-11518 }, { 145,-11518 }, { 146,-11518 }, { 147,-11518 }, { 148,-11518 },
- { 149,-11518 }, { 150,-11518 }, { 151,-11518 }, { 152,-11518 }, { 153,-11518 },
- { 154,-11518 }, { 155,-11518 }, { 156,-11518 }, { 157,-11518 }, { 158,-11518 },
- { 159,-11518 }, { 160,-11518 }, { 161,-11518 }, { 162,-11518 }, { 163,-11518 },
- { 164,-11518 }, { 165,-11518 }, { 166,-11518 }, { 167,-11518 }, { 168,-11518 },
- { 169,-11518 }, { 170,-11518 }, { 171,-11518 }, { 172,-11518 }, { 173,-11518 },
- { 174,-11518 }, { 175,-11518 }, { 176,-11518 }, { 177,-11518 }, { 178,-11518 },
- { 179,-11518 }, { 180,-11518 }, { 181,-11518 }, { 182,-11518 }, { 183,-11518 },
-
- { 184,-11518 }, { 185,-11518 }, { 186,-11518 }, { 187,-11518 }, { 188,-11518 },
- { 189,-11518 }, { 190,-11518 }, { 191,-11518 }, { 192,-11518 }, { 193,-11518 },
- { 194,-11518 }, { 195,-11518 }, { 196,-11518 }, { 197,-11518 }, { 198,-11518 },
- { 199,-11518 }, { 200,-11518 }, { 201,-11518 }, { 202,-11518 }, { 203,-11518 },
- { 204,-11518 }, { 205,-11518 }, { 206,-11518 }, { 207,-11518 }, { 208,-11518 },
- { 209,-11518 }, { 210,-11518 }, { 211,-11518 }, { 212,-11518 }, { 213,-11518 },
- { 214,-11518 }, { 215,-11518 }, { 216,-11518 }, { 217,-11518 }, { 218,-11518 },
- { 219,-11518 }, { 220,-11518 }, { 221,-11518 }, { 222,-11518 }, { 223,-11518 },
- { 224,-11518 }, { 225,-11518 }, { 226,-11518 }, { 227,-11518 }, { 228,-11518 },
- { 229,-11518 }, { 230,-11518 }, { 231,-11518 }, { 232,-11518 }, { 233,-11518 },
-
- { 234,-11518 }, { 235,-11518 }, { 236,-11518 }, { 237,-11518 }, { 238,-11518 },
- { 239,-11518 }, { 240,-11518 }, { 241,-11518 }, { 242,-11518 }, { 243,-11518 },
- { 244,-11518 }, { 245,-11518 }, { 246,-11518 }, { 247,-11518 }, { 248,-11518 },
- { 249,-11518 }, { 250,-11518 }, { 251,-11518 }, { 252,-11518 }, { 253,-11518 },
- { 254,-11518 }, { 255,-11518 }, { 256,-11518 }, {   0,   0 }, {   0, 258 },
- {   1,-11776 }, {   2,-11776 }, {   3,-11776 }, {   4,-11776 }, {   5,-11776 },
- {   6,-11776 }, {   7,-11776 }, {   8,-11776 }, {   9,-339 }, {  10,-339 },
- {  11,-11776 }, {  12,-11776 }, {  13,-339 }, {  14,-11776 }, {  15,-11776 },
- {  16,-11776 }, {  17,-11776 }, {  18,-11776 }, {  19,-11776 }, {  20,-11776 },
- {  21,-11776 }, {  22,-11776 }, {  23,-11776 }, {  24,-11776 }, {  25,-11776 },
-
- {  26,-11776 }, {  27,-11776 }, {  28,-11776 }, {  29,-11776 }, {  30,-11776 },
- {  31,-11776 }, {  32,-339 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-11776 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-339 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11776 },
- {  46,-11801 }, {  47,-11801 }, {  48,-11776 }, {  49,-11776 }, {  50,-11776 },
- {  51,-11776 }, {  52,-11776 }, {  53,-11776 }, {  54,-11776 }, {  55,-11776 },
- {  56,-11776 }, {  57,-11776 }, {  58,-11776 }, {   0,   0 }, {   0,   0 },
- {  61,-11801 }, {   0,   0 }, {  63,-11776 }, {   0,   0 }, {  65,-11776 },
- {  66,-11776 }, {  67,-11776 }, {  68,-11776 }, {  69,-11776 }, {  70,-11776 },
- {  71,-11776 }, {  72,-11776 }, {  73,-11776 }, {  74,-11776 }, {  75,-11776 },
-
- {  76,-11776 }, {  77,-11776 }, {  78,-11776 }, {  79,-11776 }, {  80,-11776 },
- {  81,-11776 }, {  82,-11776 }, {  83,-11776 }, {  84,-11776 }, {  85,-11776 },
- {  86,-11776 }, {  87,-11776 }, {  88,-11776 }, {  89,-11776 }, {  90,-11776 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11776 },
- {   0,   0 }, {  97,-11776 }, {  98,-11776 }, {  99,-11776 }, { 100,-11776 },
- { 101,-11776 }, { 102,-11776 }, { 103,-11776 }, { 104,-11776 }, { 105,-11776 },
- { 106,-11776 }, { 107,-11776 }, { 108,-11776 }, { 109,-11776 }, { 110,-11776 },
- { 111,-11776 }, { 112,-11776 }, { 113,-11776 }, { 114,-11776 }, { 115,-11776 },
- { 116,-11776 }, { 117,-11776 }, { 118,-11776 }, { 119,-11776 }, { 120,-11776 },
- { 121,-11776 }, { 122,-11776 }, {   0,   0 }, { 124,-11801 }, { 125,-339 },
-
- { 126,-339 }, { 127,-11776 }, { 128,-11776 }, { 129,-11776 }, { 130,-11776 },
- { 131,-11776 }, { 132,-11776 }, { 133,-11776 }, { 134,-11776 }, { 135,-11776 },
- { 136,-11776 }, { 137,-11776 }, { 138,-11776 }, { 139,-11776 }, { 140,-11776 },
- { 141,-11776 }, { 142,-11776 }, { 143,-11776 }, { 144,-11776 }, { 145,-11776 },
- { 146,-11776 }, { 147,-11776 }, { 148,-11776 }, { 149,-11776 }, { 150,-11776 },
- { 151,-11776 }, { 152,-11776 }, { 153,-11776 }, { 154,-11776 }, { 155,-11776 },
- { 156,-11776 }, { 157,-11776 }, { 158,-11776 }, { 159,-11776 }, { 160,-11776 },
- { 161,-11776 }, { 162,-11776 }, { 163,-11776 }, { 164,-11776 }, { 165,-11776 },
- { 166,-11776 }, { 167,-11776 }, { 168,-11776 }, { 169,-11776 }, { 170,-11776 },
- { 171,-11776 }, { 172,-11776 }, { 173,-11776 }, { 174,-11776 }, { 175,-11776 },
-
- { 176,-11776 }, { 177,-11776 }, { 178,-11776 }, { 179,-11776 }, { 180,-11776 },
- { 181,-11776 }, { 182,-11776 }, { 183,-11776 }, { 184,-11776 }, { 185,-11776 },
- { 186,-11776 }, { 187,-11776 }, { 188,-11776 }, { 189,-11776 }, { 190,-11776 },
- { 191,-11776 }, { 192,-11776 }, { 193,-11776 }, { 194,-11776 }, { 195,-11776 },
- { 196,-11776 }, { 197,-11776 }, { 198,-11776 }, { 199,-11776 }, { 200,-11776 },
- { 201,-11776 }, { 202,-11776 }, { 203,-11776 }, { 204,-11776 }, { 205,-11776 },
- { 206,-11776 }, { 207,-11776 }, { 208,-11776 }, { 209,-11776 }, { 210,-11776 },
- { 211,-11776 }, { 212,-11776 }, { 213,-11776 }, { 214,-11776 }, { 215,-11776 },
- { 216,-11776 }, { 217,-11776 }, { 218,-11776 }, { 219,-11776 }, { 220,-11776 },
- { 221,-11776 }, { 222,-11776 }, { 223,-11776 }, { 224,-11776 }, { 225,-11776 },
-
- { 226,-11776 }, { 227,-11776 }, { 228,-11776 }, { 229,-11776 }, { 230,-11776 },
- { 231,-11776 }, { 232,-11776 }, { 233,-11776 }, { 234,-11776 }, { 235,-11776 },
- { 236,-11776 }, { 237,-11776 }, { 238,-11776 }, { 239,-11776 }, { 240,-11776 },
- { 241,-11776 }, { 242,-11776 }, { 243,-11776 }, { 244,-11776 }, { 245,-11776 },
- { 246,-11776 }, { 247,-11776 }, { 248,-11776 }, { 249,-11776 }, { 250,-11776 },
- { 251,-11776 }, { 252,-11776 }, { 253,-11776 }, { 254,-11776 }, { 255,-11776 },
- { 256,-11776 }, { 257,  52 }, {   1,   0 },    };
+ { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
+ { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
+ { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
+ { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+ { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
+ { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
+ { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
+ { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
+ { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
+ { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
+
+ { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
+ { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
+ { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
+ { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+ { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
+ { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
+ { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
+ { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
+ { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
+
+ {   0,1431 }, {   1,-12002 }, {   2,-12002 }, {   3,-12002 }, {   4,-12002 },
+ {   5,-12002 }, {   6,-12002 }, {   7,-12002 }, {   8,-12002 }, {   9,-12027 },
+ {  10,-12027 }, {  11,-12002 }, {  12,-12002 }, {  13,-12027 }, {  14,-12002 },
+ {  15,-12002 }, {  16,-12002 }, {  17,-12002 }, {  18,-12002 }, {  19,-12002 },
+ {  20,-12002 }, {  21,-12002 }, {  22,-12002 }, {  23,-12002 }, {  24,-12002 },
+ {  25,-12002 }, {  26,-12002 }, {  27,-12002 }, {  28,-12002 }, {  29,-12002 },
+ {  30,-12002 }, {  31,-12002 }, {  32,-12027 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-12002 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-12027 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-12002 }, {  46,-12027 }, {  47,-12027 }, {  48,-12002 }, {  49,-12002 },
+
+ {  50,-12002 }, {  51,-12002 }, {  52,-12002 }, {  53,-12002 }, {  54,-12002 },
+ {  55,-12002 }, {  56,-12002 }, {  57,-12002 }, {  58,-12002 }, {   0,   0 },
+ {   0,   0 }, {  61,-12027 }, {   0,   0 }, {  63,-12002 }, {   0,   0 },
+ {  65,-12002 }, {  66,-12002 }, {  67,-12002 }, {  68,-12002 }, {  69,-12002 },
+ {  70,-12002 }, {  71,-12002 }, {  72,-12002 }, {  73,-12002 }, {  74,-12002 },
+ {  75,-12002 }, {  76,-12002 }, {  77,-12002 }, {  78,-12002 }, {  79,-12002 },
+ {  80,-12002 }, {  81,-12002 }, {  82,-12002 }, {  83,-12002 }, {  84,-12002 },
+ {  85,-12002 }, {  86,-12002 }, {  87,-12002 }, {  88,-12002 }, {  89,-12002 },
+ {  90,-12002 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-12002 }, {   0,   0 }, {  97,-12002 }, {  98,-12002 }, {  99,-12002 },
+
+ { 100,-12002 }, { 101, 651 }, { 102,-12002 }, { 103,-12002 }, { 104,-12002 },
+ { 105,-12002 }, { 106,-12002 }, { 107,-12002 }, { 108,-12002 }, { 109,-12002 },
+ { 110,-12002 }, { 111,-12002 }, { 112,-12002 }, { 113,-12002 }, { 114,-12002 },
+ { 115,-12002 }, { 116,-12002 }, { 117,-12002 }, { 118,-12002 }, { 119,-12002 },
+ { 120,-12002 }, { 121,-12002 }, { 122,-12002 }, {   0,   0 }, { 124,-12027 },
+ { 125,-12027 }, { 126,-12027 }, { 127,-12002 }, { 128,-12002 }, { 129,-12002 },
+ { 130,-12002 }, { 131,-12002 }, { 132,-12002 }, { 133,-12002 }, { 134,-12002 },
+ { 135,-12002 }, { 136,-12002 }, { 137,-12002 }, { 138,-12002 }, { 139,-12002 },
+ { 140,-12002 }, { 141,-12002 }, { 142,-12002 }, { 143,-12002 }, { 144,-12002 },
+ { 145,-12002 }, { 146,-12002 }, { 147,-12002 }, { 148,-12002 }, { 149,-12002 },
+
+ { 150,-12002 }, { 151,-12002 }, { 152,-12002 }, { 153,-12002 }, { 154,-12002 },
+ { 155,-12002 }, { 156,-12002 }, { 157,-12002 }, { 158,-12002 }, { 159,-12002 },
+ { 160,-12002 }, { 161,-12002 }, { 162,-12002 }, { 163,-12002 }, { 164,-12002 },
+ { 165,-12002 }, { 166,-12002 }, { 167,-12002 }, { 168,-12002 }, { 169,-12002 },
+ { 170,-12002 }, { 171,-12002 }, { 172,-12002 }, { 173,-12002 }, { 174,-12002 },
+ { 175,-12002 }, { 176,-12002 }, { 177,-12002 }, { 178,-12002 }, { 179,-12002 },
+ { 180,-12002 }, { 181,-12002 }, { 182,-12002 }, { 183,-12002 }, { 184,-12002 },
+ { 185,-12002 }, { 186,-12002 }, { 187,-12002 }, { 188,-12002 }, { 189,-12002 },
+ { 190,-12002 }, { 191,-12002 }, { 192,-12002 }, { 193,-12002 }, { 194,-12002 },
+ { 195,-12002 }, { 196,-12002 }, { 197,-12002 }, { 198,-12002 }, { 199,-12002 },
+
+ { 200,-12002 }, { 201,-12002 }, { 202,-12002 }, { 203,-12002 }, { 204,-12002 },
+ { 205,-12002 }, { 206,-12002 }, { 207,-12002 }, { 208,-12002 }, { 209,-12002 },
+ { 210,-12002 }, { 211,-12002 }, { 212,-12002 }, { 213,-12002 }, { 214,-12002 },
+ { 215,-12002 }, { 216,-12002 }, { 217,-12002 }, { 218,-12002 }, { 219,-12002 },
+ { 220,-12002 }, { 221,-12002 }, { 222,-12002 }, { 223,-12002 }, { 224,-12002 },
+ { 225,-12002 }, { 226,-12002 }, { 227,-12002 }, { 228,-12002 }, { 229,-12002 },
+ { 230,-12002 }, { 231,-12002 }, { 232,-12002 }, { 233,-12002 }, { 234,-12002 },
+ { 235,-12002 }, { 236,-12002 }, { 237,-12002 }, { 238,-12002 }, { 239,-12002 },
+ { 240,-12002 }, { 241,-12002 }, { 242,-12002 }, { 243,-12002 }, { 244,-12002 },
+ { 245,-12002 }, { 246,-12002 }, { 247,-12002 }, { 248,-12002 }, { 249,-12002 },
+
+ { 250,-12002 }, { 251,-12002 }, { 252,-12002 }, { 253,-12002 }, { 254,-12002 },
+ { 255,-12002 }, { 256,-12002 }, {   0,   0 }, {   0,1173 }, {   0,   0 },
+ {   0,1171 }, {   0,   0 }, {   0,1169 }, {   0,   0 }, {   0,1167 },
+ {   0,  25 }, {   0,1165 }, {   9,   2 }, {  10,   2 }, {   9,   0 },
+ {  10,   0 }, {  13,   2 }, {   0,   0 }, {  13,   0 }, {   0,  12 },
+ {   0,1156 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  32,   2 }, {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   4 }, { 126,   6 },
+ { 125,   2 }, { 126,   4 }, { 125, 423 }, {   0,   0 }, { 125,  -2 },
+ {   0,   0 }, {   0,1040 }, {   1,-3509 }, {   2,-3509 }, {   3,-3509 },
+ {   4,-3509 }, {   5,-3509 }, {   6,-3509 }, {   7,-3509 }, {   8,-3509 },
+
+ {   9,-3509 }, {  10,-3509 }, {  11,-3509 }, {  12,-3509 }, {  13,-3509 },
+ {  14,-3509 }, {  15,-3509 }, {  16,-3509 }, {  17,-3509 }, {  18,-3509 },
+ {  19,-3509 }, {  20,-3509 }, {  21,-3509 }, {  22,-3509 }, {  23,-3509 },
+ {  24,-3509 }, {  25,-3509 }, {  26,-3509 }, {  27,-3509 }, {  28,-3509 },
+ {  29,-3509 }, {  30,-3509 }, {  31,-3509 }, {  32,-3509 }, {  33,-3509 },
+ {  34,-3509 }, {  35,-3509 }, {  36,-3509 }, {  37,-3509 }, {  38,-3509 },
+ {  39,-3509 }, {  40,-3509 }, {  41,-3509 }, {  42,-3509 }, {  43,-3509 },
+ {  44,-3509 }, {  45,-2067 }, {  46,-3509 }, {  47,-3509 }, {  48,-3509 },
+ {  49,-3509 }, {  50,-3509 }, {  51,-3509 }, {  52,-3509 }, {  53,-3509 },
+ {  54,-3509 }, {  55,-3509 }, {  56,-3509 }, {  57,-3509 }, {  58,-3509 },
+
+ {  59,-3509 }, {  60,-3509 }, {  61,-3509 }, {  62,-3509 }, {  63,-3509 },
+ {  64,-3509 }, {  65,-3509 }, {  66,-3509 }, {  67,-3509 }, {  68,-3509 },
+ {  69,-3509 }, {  70,-3509 }, {  71,-3509 }, {  72,-3509 }, {  73,-3509 },
+ {  74,-3509 }, {  75,-3509 }, {  76,-3509 }, {  77,-3509 }, {  78,-3509 },
+ {  79,-3509 }, {  80,-3509 }, {  81,-3509 }, {  82,-3509 }, {  83,-3509 },
+ {  84,-3509 }, {  85,-3509 }, {  86,-3509 }, {  87,-3509 }, {  88,-3509 },
+ {  89,-3509 }, {  90,-3509 }, {  91,-3509 }, {  92,-3509 }, {  93,-3509 },
+ {  94,-3509 }, {  95,-3509 }, {  96,-3509 }, {  97,-3509 }, {  98,-3509 },
+ {  99,-3509 }, { 100,-3509 }, { 101,-3509 }, { 102,-3509 }, { 103,-3509 },
+ { 104,-3509 }, { 105,-3509 }, { 106,-3509 }, { 107,-3509 }, { 108,-3509 },
+
+ { 109,-3509 }, { 110,-3509 }, { 111,-3509 }, { 112,-3509 }, { 113,-3509 },
+ { 114,-3509 }, { 115,-3509 }, { 116,-3509 }, { 117,-3509 }, { 118,-3509 },
+ { 119,-3509 }, { 120,-3509 }, { 121,-3509 }, { 122,-3509 }, { 123,-3509 },
+ { 124,-3509 }, { 125,-3509 }, { 126,-3509 }, { 127,-3509 }, { 128,-3509 },
+ { 129,-3509 }, { 130,-3509 }, { 131,-3509 }, { 132,-3509 }, { 133,-3509 },
+ { 134,-3509 }, { 135,-3509 }, { 136,-3509 }, { 137,-3509 }, { 138,-3509 },
+ { 139,-3509 }, { 140,-3509 }, { 141,-3509 }, { 142,-3509 }, { 143,-3509 },
+ { 144,-3509 }, { 145,-3509 }, { 146,-3509 }, { 147,-3509 }, { 148,-3509 },
+ { 149,-3509 }, { 150,-3509 }, { 151,-3509 }, { 152,-3509 }, { 153,-3509 },
+ { 154,-3509 }, { 155,-3509 }, { 156,-3509 }, { 157,-3509 }, { 158,-3509 },
+
+ { 159,-3509 }, { 160,-3509 }, { 161,-3509 }, { 162,-3509 }, { 163,-3509 },
+ { 164,-3509 }, { 165,-3509 }, { 166,-3509 }, { 167,-3509 }, { 168,-3509 },
+ { 169,-3509 }, { 170,-3509 }, { 171,-3509 }, { 172,-3509 }, { 173,-3509 },
+ { 174,-3509 }, { 175,-3509 }, { 176,-3509 }, { 177,-3509 }, { 178,-3509 },
+ { 179,-3509 }, { 180,-3509 }, { 181,-3509 }, { 182,-3509 }, { 183,-3509 },
+ { 184,-3509 }, { 185,-3509 }, { 186,-3509 }, { 187,-3509 }, { 188,-3509 },
+ { 189,-3509 }, { 190,-3509 }, { 191,-3509 }, { 192,-3509 }, { 193,-3509 },
+ { 194,-3509 }, { 195,-3509 }, { 196,-3509 }, { 197,-3509 }, { 198,-3509 },
+ { 199,-3509 }, { 200,-3509 }, { 201,-3509 }, { 202,-3509 }, { 203,-3509 },
+ { 204,-3509 }, { 205,-3509 }, { 206,-3509 }, { 207,-3509 }, { 208,-3509 },
+
+ { 209,-3509 }, { 210,-3509 }, { 211,-3509 }, { 212,-3509 }, { 213,-3509 },
+ { 214,-3509 }, { 215,-3509 }, { 216,-3509 }, { 217,-3509 }, { 218,-3509 },
+ { 219,-3509 }, { 220,-3509 }, { 221,-3509 }, { 222,-3509 }, { 223,-3509 },
+ { 224,-3509 }, { 225,-3509 }, { 226,-3509 }, { 227,-3509 }, { 228,-3509 },
+ { 229,-3509 }, { 230,-3509 }, { 231,-3509 }, { 232,-3509 }, { 233,-3509 },
+ { 234,-3509 }, { 235,-3509 }, { 236,-3509 }, { 237,-3509 }, { 238,-3509 },
+ { 239,-3509 }, { 240,-3509 }, { 241,-3509 }, { 242,-3509 }, { 243,-3509 },
+ { 244,-3509 }, { 245,-3509 }, { 246,-3509 }, { 247,-3509 }, { 248,-3509 },
+ { 249,-3509 }, { 250,-3509 }, { 251,-3509 }, { 252,-3509 }, { 253,-3509 },
+ { 254,-3509 }, { 255,-3509 }, { 256,-3509 }, {   0,   0 }, {   0, 782 },
+
+ {   0,   0 }, {   0, 780 }, {   1,-12653 }, {   2,-12653 }, {   3,-12653 },
+ {   4,-12653 }, {   5,-12653 }, {   6,-12653 }, {   7,-12653 }, {   8,-12653 },
+ {   9,-12678 }, {  10,-12678 }, {  11,-12653 }, {  12,-12653 }, {  13,-12678 },
+ {  14,-12653 }, {  15,-12653 }, {  16,-12653 }, {  17,-12653 }, {  18,-12653 },
+ {  19,-12653 }, {  20,-12653 }, {  21,-12653 }, {  22,-12653 }, {  23,-12653 },
+ {  24,-12653 }, {  25,-12653 }, {  26,-12653 }, {  27,-12653 }, {  28,-12653 },
+ {  29,-12653 }, {  30,-12653 }, {  31,-12653 }, {  32,-12678 }, {   0,  23 },
+ {   0, 746 }, {   0,   0 }, {  36,-12653 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,-12678 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-12653 }, {  46,-12678 }, {  47,-12678 }, {  48,-12653 },
+
+ {  49,-12653 }, {  50,-12653 }, {  51,-12653 }, {  52,-12653 }, {  53,-12653 },
+ {  54,-12653 }, {  55,-12653 }, {  56,-12653 }, {  57,-12653 }, {  58,-12653 },
+ {   0,   0 }, {   0,   0 }, {  61,-12678 }, {   0,   0 }, {  63,-12653 },
+ {   0,   0 }, {  65,-12653 }, {  66,-12653 }, {  67,-12653 }, {  68,-12653 },
+ {  69,-12653 }, {  70,-12653 }, {  71,-12653 }, {  72,-12653 }, {  73,-12653 },
+ {  74,-12653 }, {  75,-12653 }, {  76,-12653 }, {  77,-12653 }, {  78,-12653 },
+ {  79,-12653 }, {  80,-12653 }, {  81,-12653 }, {  82,-12653 }, {  83,-12653 },
+ {  84,-12653 }, {  85,-12653 }, {  86,-12653 }, {  87,-12653 }, {  88,-12653 },
+ {  89,-12653 }, {  90,-12653 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-12653 }, {   0,   0 }, {  97,-12653 }, {  98,-12653 },
+
+ {  99,-12653 }, { 100, 260 }, { 101,-12653 }, { 102,-12653 }, { 103,-12653 },
+ { 104,-12653 }, { 105,-12653 }, { 106,-12653 }, { 107,-12653 }, { 108,-12653 },
+ { 109,-12653 }, { 110,-12653 }, { 111,-12653 }, { 112,-12653 }, { 113,-12653 },
+ { 114,-12653 }, { 115,-12653 }, { 116,-12653 }, { 117,-12653 }, { 118,-12653 },
+ { 119,-12653 }, { 120,-12653 }, { 121,-12653 }, { 122,-12653 }, { 125, 260 },
+ { 124,-12678 }, { 125,-12678 }, { 126,-12678 }, { 127,-12653 }, { 128,-12653 },
+ { 129,-12653 }, { 130,-12653 }, { 131,-12653 }, { 132,-12653 }, { 133,-12653 },
+ { 134,-12653 }, { 135,-12653 }, { 136,-12653 }, { 137,-12653 }, { 138,-12653 },
+ { 139,-12653 }, { 140,-12653 }, { 141,-12653 }, { 142,-12653 }, { 143,-12653 },
+ { 144,-12653 }, { 145,-12653 }, { 146,-12653 }, { 147,-12653 }, { 148,-12653 },
+
+ { 149,-12653 }, { 150,-12653 }, { 151,-12653 }, { 152,-12653 }, { 153,-12653 },
+ { 154,-12653 }, { 155,-12653 }, { 156,-12653 }, { 157,-12653 }, { 158,-12653 },
+ { 159,-12653 }, { 160,-12653 }, { 161,-12653 }, { 162,-12653 }, { 163,-12653 },
+ { 164,-12653 }, { 165,-12653 }, { 166,-12653 }, { 167,-12653 }, { 168,-12653 },
+ { 169,-12653 }, { 170,-12653 }, { 171,-12653 }, { 172,-12653 }, { 173,-12653 },
+ { 174,-12653 }, { 175,-12653 }, { 176,-12653 }, { 177,-12653 }, { 178,-12653 },
+ { 179,-12653 }, { 180,-12653 }, { 181,-12653 }, { 182,-12653 }, { 183,-12653 },
+ { 184,-12653 }, { 185,-12653 }, { 186,-12653 }, { 187,-12653 }, { 188,-12653 },
+ { 189,-12653 }, { 190,-12653 }, { 191,-12653 }, { 192,-12653 }, { 193,-12653 },
+ { 194,-12653 }, { 195,-12653 }, { 196,-12653 }, { 197,-12653 }, { 198,-12653 },
+
+ { 199,-12653 }, { 200,-12653 }, { 201,-12653 }, { 202,-12653 }, { 203,-12653 },
+ { 204,-12653 }, { 205,-12653 }, { 206,-12653 }, { 207,-12653 }, { 208,-12653 },
+ { 209,-12653 }, { 210,-12653 }, { 211,-12653 }, { 212,-12653 }, { 213,-12653 },
+ { 214,-12653 }, { 215,-12653 }, { 216,-12653 }, { 217,-12653 }, { 218,-12653 },
+ { 219,-12653 }, { 220,-12653 }, { 221,-12653 }, { 222,-12653 }, { 223,-12653 },
+ { 224,-12653 }, { 225,-12653 }, { 226,-12653 }, { 227,-12653 }, { 228,-12653 },
+ { 229,-12653 }, { 230,-12653 }, { 231,-12653 }, { 232,-12653 }, { 233,-12653 },
+ { 234,-12653 }, { 235,-12653 }, { 236,-12653 }, { 237,-12653 }, { 238,-12653 },
+ { 239,-12653 }, { 240,-12653 }, { 241,-12653 }, { 242,-12653 }, { 243,-12653 },
+ { 244,-12653 }, { 245,-12653 }, { 246,-12653 }, { 247,-12653 }, { 248,-12653 },
+
+ { 249,-12653 }, { 250,-12653 }, { 251,-12653 }, { 252,-12653 }, { 253,-12653 },
+ { 254,-12653 }, { 255,-12653 }, { 256,-12653 }, {   0,   0 }, {   0, 522 },
+ {   0,   0 }, {   0, 520 }, {   1,-12913 }, {   2,-12913 }, {   3,-12913 },
+ {   4,-12913 }, {   5,-12913 }, {   6,-12913 }, {   7,-12913 }, {   8,-12913 },
+ {   9, 260 }, {  10, 260 }, {  11,-12913 }, {  12,-12913 }, {  13, 260 },
+ {  14,-12913 }, {  15,-12913 }, {  16,-12913 }, {  17,-12913 }, {  18,-12913 },
+ {  19,-12913 }, {  20,-12913 }, {  21,-12913 }, {  22,-12913 }, {  23,-12913 },
+ {  24,-12913 }, {  25,-12913 }, {  26,-12913 }, {  27,-12913 }, {  28,-12913 },
+ {  29,-12913 }, {  30,-12913 }, {  31,-12913 }, {  32, 260 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-12913 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  41, 260 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-12913 }, {  46,-12938 }, {  47,-12938 }, {  48,-12913 },
+ {  49,-12913 }, {  50,-12913 }, {  51,-12913 }, {  52,-12913 }, {  53,-12913 },
+ {  54,-12913 }, {  55,-12913 }, {  56,-12913 }, {  57,-12913 }, {  58,-12913 },
+ {   0,   0 }, {   0,   0 }, {  61,-12938 }, {   0,   0 }, {  63,-12913 },
+ {   0,   0 }, {  65,-12913 }, {  66,-12913 }, {  67,-12913 }, {  68,-12913 },
+ {  69,-12913 }, {  70,-12913 }, {  71,-12913 }, {  72,-12913 }, {  73,-12913 },
+ {  74,-12913 }, {  75,-12913 }, {  76,-12913 }, {  77,-12913 }, {  78,-12913 },
+ {  79,-12913 }, {  80,-12913 }, {  81,-12913 }, {  82,-12913 }, {  83,-12913 },
+ {  84,-12913 }, {  85,-12913 }, {  86,-12913 }, {  87,-12913 }, {  88,-12913 },
+
+ {  89,-12913 }, {  90,-12913 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-12913 }, {   0,   0 }, {  97,-12913 }, {  98,-12913 },
+ {  99,-12913 }, { 100,-12913 }, { 101,-12913 }, { 102,-12913 }, { 103,-12913 },
+ { 104,-12913 }, { 105,-12913 }, { 106,-12913 }, { 107,-12913 }, { 108,-12913 },
+ { 109,-12913 }, { 110,-12913 }, { 111,-12913 }, { 112,-12913 }, { 113,-12913 },
+ { 114,-12913 }, { 115,-12913 }, { 116,-12913 }, { 117,-12913 }, { 118,-12913 },
+ { 119,-12913 }, { 120,-12913 }, { 121,-12913 }, { 122,-12913 }, { 125, 260 },
+ { 124,-12938 }, { 125, 260 }, { 126, 260 }, { 127,-12913 }, { 128,-12913 },
+ { 129,-12913 }, { 130,-12913 }, { 131,-12913 }, { 132,-12913 }, { 133,-12913 },
+ { 134,-12913 }, { 135,-12913 }, { 136,-12913 }, { 137,-12913 }, { 138,-12913 },
+
+ { 139,-12913 }, { 140,-12913 }, { 141,-12913 }, { 142,-12913 }, { 143,-12913 },
+ { 144,-12913 }, { 145,-12913 }, { 146,-12913 }, { 147,-12913 }, { 148,-12913 },
+ { 149,-12913 }, { 150,-12913 }, { 151,-12913 }, { 152,-12913 }, { 153,-12913 },
+ { 154,-12913 }, { 155,-12913 }, { 156,-12913 }, { 157,-12913 }, { 158,-12913 },
+ { 159,-12913 }, { 160,-12913 }, { 161,-12913 }, { 162,-12913 }, { 163,-12913 },
+ { 164,-12913 }, { 165,-12913 }, { 166,-12913 }, { 167,-12913 }, { 168,-12913 },
+ { 169,-12913 }, { 170,-12913 }, { 171,-12913 }, { 172,-12913 }, { 173,-12913 },
+ { 174,-12913 }, { 175,-12913 }, { 176,-12913 }, { 177,-12913 }, { 178,-12913 },
+ { 179,-12913 }, { 180,-12913 }, { 181,-12913 }, { 182,-12913 }, { 183,-12913 },
+ { 184,-12913 }, { 185,-12913 }, { 186,-12913 }, { 187,-12913 }, { 188,-12913 },
+
+ { 189,-12913 }, { 190,-12913 }, { 191,-12913 }, { 192,-12913 }, { 193,-12913 },
+ { 194,-12913 }, { 195,-12913 }, { 196,-12913 }, { 197,-12913 }, { 198,-12913 },
+ { 199,-12913 }, { 200,-12913 }, { 201,-12913 }, { 202,-12913 }, { 203,-12913 },
+ { 204,-12913 }, { 205,-12913 }, { 206,-12913 }, { 207,-12913 }, { 208,-12913 },
+ { 209,-12913 }, { 210,-12913 }, { 211,-12913 }, { 212,-12913 }, { 213,-12913 },
+ { 214,-12913 }, { 215,-12913 }, { 216,-12913 }, { 217,-12913 }, { 218,-12913 },
+ { 219,-12913 }, { 220,-12913 }, { 221,-12913 }, { 222,-12913 }, { 223,-12913 },
+ { 224,-12913 }, { 225,-12913 }, { 226,-12913 }, { 227,-12913 }, { 228,-12913 },
+ { 229,-12913 }, { 230,-12913 }, { 231,-12913 }, { 232,-12913 }, { 233,-12913 },
+ { 234,-12913 }, { 235,-12913 }, { 236,-12913 }, { 237,-12913 }, { 238,-12913 },
+
+ { 239,-12913 }, { 240,-12913 }, { 241,-12913 }, { 242,-12913 }, { 243,-12913 },
+ { 244,-12913 }, { 245,-12913 }, { 246,-12913 }, { 247,-12913 }, { 248,-12913 },
+ { 249,-12913 }, { 250,-12913 }, { 251,-12913 }, { 252,-12913 }, { 253,-12913 },
+ { 254,-12913 }, { 255,-12913 }, { 256,-12913 }, {   0,   0 }, {   0, 262 },
+ {   0,  45 }, {   0, 260 }, {   0,   9 }, {   0, 258 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   4 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 257,  52 }, {   1,   0 },    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -5094,9 +5402,9 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     yylloc->first_column = yylloc->last_column = yycolumn; \
     handlebars_yy_advance(yytext, yyleng); \
    	YY_USER_DEBUG_ACTION;
-#line 5098 "handlebars.lex.c"
+#line 5406 "handlebars.lex.c"
 
-#line 5100 "handlebars.lex.c"
+#line 5408 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5375,11 +5683,11 @@ YY_DECL
 		}
 
 	{
-#line 155 "handlebars.l"
+#line 159 "handlebars.l"
 
 
 
-#line 5383 "handlebars.lex.c"
+#line 5691 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5434,7 +5742,7 @@ do_action:	/* This label is used only to access EOF actions. */
 case 1:
 /* rule 1 can match eol */
 YY_RULE_SETUP
-#line 158 "handlebars.l"
+#line 162 "handlebars.l"
 {
 										int n = yytext[yyleng - 3] == '{' ? 3 : 2;
 										handlebars_yy_unput_n(n);
@@ -5447,7 +5755,7 @@ YY_RULE_SETUP
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 167 "handlebars.l"
+#line 171 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 31
 										handlebars_yy_copy_lval();
@@ -5456,7 +5764,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 173 "handlebars.l"
+#line 177 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 32
 										handlebars_yy_unput_n(2);
@@ -5471,7 +5779,7 @@ YY_RULE_SETUP
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 184 "handlebars.l"
+#line 188 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 35
 										yy_push_state(emu, yyscanner);
@@ -5482,7 +5790,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 192 "handlebars.l"
+#line 196 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 38
 										handlebars_yy_unput_all;
@@ -5491,7 +5799,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 198 "handlebars.l"
+#line 202 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5499,7 +5807,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 203 "handlebars.l"
+#line 207 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 47
 										handlebars_yy_unput_all;
@@ -5513,7 +5821,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 209 "handlebars.l"
+#line 213 "handlebars.l"
 {
                                   		yy_push_state(raw, yyscanner);
 										handlebars_yy_copy_lval();
@@ -5522,7 +5830,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 215 "handlebars.l"
+#line 219 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 54
 
@@ -5540,7 +5848,7 @@ YY_RULE_SETUP
 case 10:
 /* rule 10 can match eol */
 YY_RULE_SETUP
-#line 229 "handlebars.l"
+#line 233 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 57
 										handlebars_yy_copy_lval();
@@ -5549,7 +5857,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 235 "handlebars.l"
+#line 239 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5558,7 +5866,7 @@ YY_RULE_SETUP
 case 12:
 /* rule 12 can match eol */
 YY_RULE_SETUP
-#line 240 "handlebars.l"
+#line 244 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
@@ -5571,7 +5879,7 @@ YY_RULE_SETUP
 case 13:
 /* rule 13 can match eol */
 YY_RULE_SETUP
-#line 249 "handlebars.l"
+#line 253 "handlebars.l"
 {
   										//yytext[yyleng -= 2] = 0;
   										yy_pop_state(yyg);
@@ -5581,7 +5889,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 256 "handlebars.l"
+#line 260 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
@@ -5590,7 +5898,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 262 "handlebars.l"
+#line 266 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
@@ -5599,7 +5907,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 268 "handlebars.l"
+#line 272 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 64
 										handlebars_yy_copy_lval();
@@ -5608,7 +5916,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 274 "handlebars.l"
+#line 278 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -5619,7 +5927,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 282 "handlebars.l"
+#line 286 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
@@ -5628,7 +5936,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 288 "handlebars.l"
+#line 292 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -5637,7 +5945,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 294 "handlebars.l"
+#line 298 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
@@ -5646,7 +5954,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 300 "handlebars.l"
+#line 304 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
@@ -5655,7 +5963,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 22:
 YY_RULE_SETUP
-#line 306 "handlebars.l"
+#line 310 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -5666,7 +5974,7 @@ YY_RULE_SETUP
 case 23:
 /* rule 23 can match eol */
 YY_RULE_SETUP
-#line 313 "handlebars.l"
+#line 317 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -5676,7 +5984,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 320 "handlebars.l"
+#line 324 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
@@ -5685,7 +5993,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
-#line 326 "handlebars.l"
+#line 330 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
@@ -5694,7 +6002,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 332 "handlebars.l"
+#line 336 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
@@ -5703,7 +6011,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 338 "handlebars.l"
+#line 342 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
@@ -5712,7 +6020,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 344 "handlebars.l"
+#line 348 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -5722,7 +6030,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 351 "handlebars.l"
+#line 355 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -5732,7 +6040,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 358 "handlebars.l"
+#line 362 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
@@ -5741,7 +6049,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 364 "handlebars.l"
+#line 368 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -5750,7 +6058,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 370 "handlebars.l"
+#line 374 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
@@ -5764,7 +6072,7 @@ YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 376 "handlebars.l"
+#line 380 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
@@ -5773,7 +6081,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 382 "handlebars.l"
+#line 386 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
@@ -5783,7 +6091,7 @@ YY_RULE_SETUP
 case 35:
 /* rule 35 can match eol */
 YY_RULE_SETUP
-#line 388 "handlebars.l"
+#line 392 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
@@ -5791,7 +6099,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 393 "handlebars.l"
+#line 397 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -5801,7 +6109,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 400 "handlebars.l"
+#line 404 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -5812,7 +6120,7 @@ YY_RULE_SETUP
 case 38:
 /* rule 38 can match eol */
 YY_RULE_SETUP
-#line 407 "handlebars.l"
+#line 411 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -5825,7 +6133,7 @@ YY_RULE_SETUP
 case 39:
 /* rule 39 can match eol */
 YY_RULE_SETUP
-#line 416 "handlebars.l"
+#line 420 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -5837,7 +6145,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 425 "handlebars.l"
+#line 429 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
@@ -5847,7 +6155,7 @@ YY_RULE_SETUP
 case 41:
 /* rule 41 can match eol */
 YY_RULE_SETUP
-#line 431 "handlebars.l"
+#line 435 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
@@ -5856,7 +6164,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 437 "handlebars.l"
+#line 441 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
@@ -5870,7 +6178,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 443 "handlebars.l"
+#line 447 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
@@ -5884,7 +6192,7 @@ YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 449 "handlebars.l"
+#line 453 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
@@ -5898,7 +6206,7 @@ YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 455 "handlebars.l"
+#line 459 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
@@ -5912,7 +6220,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 461 "handlebars.l"
+#line 465 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
@@ -5926,7 +6234,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 467 "handlebars.l"
+#line 471 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
@@ -5940,7 +6248,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 474 "handlebars.l"
+#line 478 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
@@ -5950,7 +6258,7 @@ YY_RULE_SETUP
 case 49:
 /* rule 49 can match eol */
 YY_RULE_SETUP
-#line 480 "handlebars.l"
+#line 484 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -5963,7 +6271,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 490 "handlebars.l"
+#line 494 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -5976,7 +6284,7 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 496 "handlebars.l"
+#line 500 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
@@ -5984,10 +6292,10 @@ case YY_STATE_EOF(raw):
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 501 "handlebars.l"
+#line 505 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 5991 "handlebars.lex.c"
+#line 6299 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -7184,6 +7492,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 501 "handlebars.l"
+#line 505 "handlebars.l"
 
 
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index 5f49ef8..dcc8197 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -733,7 +733,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 501 "handlebars.l"
+#line 505 "handlebars.l"
 
 
 #line 740 "handlebars.lex.h"
-- 
2.43.0


From 2745e87116d1022495126037c0fdc361e5149afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:17 +0000
Subject: [PATCH 049/110] fix: else is only a keyword as a whole word, with
 blanks around it or not

---
 src/handlebars.l     |    5 +-
 src/handlebars.lex.c | 3142 +++++++++++++++++++++---------------------
 src/handlebars.lex.h |    2 +-
 3 files changed, 1550 insertions(+), 1599 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index f7b7ce2..167337f 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -152,6 +152,7 @@ NOEND  ("~"|"}"|"~}")
 LONGCOM ([^-]|[-]({DASHES}{NOEND}[-])*([^-]|{DASHES}([^-~}]|"~"[^-}]|"~"?"}"[^-}])))*[-]({DASHES}{NOEND}[-])*{DASHES}{RIGHT_STRIP}?"}}"
 
 IDC	  [^ \r\n\t!\"#%-,\.\/;->@\[-\^`\{-~]
+NOID  [ \r\n\t!\"#%-,\.\/;->@\[-\^`\{-~]
 ID    {IDC}+/{LOOKAHEAD}
 BLOCKPARAM [\x7C]
 
@@ -307,7 +308,7 @@ BLOCKPARAM [\x7C]
 										return OPEN_ENDBLOCK;
                              		}
 
-<mu>"{{"{LEFT_STRIP}?"^"\s*{RIGHT_STRIP}?"}}"        {
+<mu>"{{"{LEFT_STRIP}?"^"{WHITESPACE}*{RIGHT_STRIP}?"}}"        {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
 										handlebars_yy_copy_lval();
@@ -327,7 +328,7 @@ BLOCKPARAM [\x7C]
 										return OPEN_INVERSE;
                              		}
 
-<mu>"{{"{LEFT_STRIP}?\s*"else"   	{
+<mu>"{{"{LEFT_STRIP}?{WHITESPACE}*"else"/{NOID}	{
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE_CHAIN;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index efaacbf..b723dc1 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -580,9 +580,9 @@ struct yy_trans_info
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[21536] =
+static const struct yy_trans_info yy_transition[21284] =
     {
- {   0,   0 }, {   0,21280 }, {   0,   2 }, {   0,21278 }, {   1,3096 },
+ {   0,   0 }, {   0,21028 }, {   0,   2 }, {   0,21026 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
  {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -639,7 +639,7 @@ static const struct yy_trans_info yy_transition[21536] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,21020 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,20768 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -695,7 +695,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,20762 },
+ { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,20510 },
  {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
  {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
  {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
@@ -752,7 +752,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
  { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
  { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,20504 }, {   1,2965 }, {   2,2965 },
+ { 256,3223 }, {   0,   0 }, {   0,20252 }, {   1,2965 }, {   2,2965 },
  {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
  {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
  {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
@@ -809,7 +809,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
  { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,20246 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
+ {   0,19994 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
  {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
@@ -865,7 +865,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
  { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
  { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,19988 }, {   1,3534 },
+ { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,19736 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
  {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
@@ -923,7 +923,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,19730 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
+ {   0,   0 }, {   0,19478 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
  {   4,1811 }, {   5,1811 }, {   6,1811 }, {   7,1811 }, {   8,1811 },
  {   9,1811 }, {  10,1811 }, {  11,1811 }, {  12,1811 }, {  13,1811 },
  {  14,1811 }, {  15,1811 }, {  16,1811 }, {  17,1811 }, {  18,1811 },
@@ -979,7 +979,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 244,1811 }, { 245,1811 }, { 246,1811 }, { 247,1811 }, { 248,1811 },
 
  { 249,1811 }, { 250,1811 }, { 251,1811 }, { 252,1811 }, { 253,1811 },
- { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,19472 },
+ { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,19220 },
  {   1,1553 }, {   2,1553 }, {   3,1553 }, {   4,1553 }, {   5,1553 },
  {   6,1553 }, {   7,1553 }, {   8,1553 }, {   9,1553 }, {  10,1553 },
  {  11,1553 }, {  12,1553 }, {  13,1553 }, {  14,1553 }, {  15,1553 },
@@ -1036,7 +1036,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 241,1553 }, { 242,1553 }, { 243,1553 }, { 244,1553 }, { 245,1553 },
  { 246,1553 }, { 247,1553 }, { 248,1553 }, { 249,1553 }, { 250,1553 },
  { 251,1553 }, { 252,1553 }, { 253,1553 }, { 254,1553 }, { 255,1553 },
- { 256,1553 }, {   0,   0 }, {   0,19214 }, {   1,4595 }, {   2,4595 },
+ { 256,1553 }, {   0,   0 }, {   0,18962 }, {   1,4595 }, {   2,4595 },
  {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 }, {   7,4595 },
  {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 }, {  12,4595 },
  {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 }, {  17,4595 },
@@ -1093,7 +1093,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 }, { 247,4595 },
  { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 }, { 252,4595 },
  { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256,4595 }, {   0,   0 },
- {   0,18956 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
+ {   0,18704 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
  {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 }, {   9,4337 },
  {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 }, {  14,4337 },
  {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 }, {  19,4337 },
@@ -1149,7 +1149,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 }, { 244,4337 },
  { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 }, { 249,4337 },
  { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 }, { 254,4337 },
- { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,18698 }, {   1,4595 },
+ { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,18446 }, {   1,4595 },
  {   2,4595 }, {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 },
  {   7,4595 }, {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 },
  {  12,4595 }, {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 },
@@ -1206,7 +1206,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 242,4595 }, { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 },
  { 247,4595 }, { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 },
  { 252,4595 }, { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256, 779 },
- {   0,   0 }, {   0,18440 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
+ {   0,   0 }, {   0,18188 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
  {   4,4337 }, {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 },
 
  {   9,4337 }, {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 },
@@ -1262,7 +1262,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 239,4337 }, { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 },
  { 244,4337 }, { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 },
  { 249,4337 }, { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 },
- { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,18182 },
+ { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,17930 },
 
  {   1,4461 }, {   2,4461 }, {   3,4461 }, {   4,4461 }, {   5,4461 },
  {   6,4461 }, {   7,4461 }, {   8,4461 }, {   9,4461 }, {  10,4338 },
@@ -1320,14 +1320,14 @@ static const struct yy_trans_info yy_transition[21536] =
  { 246,4461 }, { 247,4461 }, { 248,4461 }, { 249,4461 }, { 250,4461 },
 
  { 251,4461 }, { 252,4461 }, { 253,4461 }, { 254,4461 }, { 255,4461 },
- {   0,   2 }, {   0,17925 }, {   0,   6 }, {   0,17923 }, {   0,   6 },
- {   0,17921 }, {   0,  51 }, {   0,17919 }, {   0,  35 }, {   0,17917 },
+ {   0,   2 }, {   0,17673 }, {   0,   6 }, {   0,17671 }, {   0,   6 },
+ {   0,17669 }, {   0,  51 }, {   0,17667 }, {   0,  35 }, {   0,17665 },
  {   0,   0 }, {  10,4081 }, {   0,   0 }, {   0,   0 }, {  13,4081 },
- {   0,  35 }, {   0,17910 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
- {   0,  50 }, {   0,17905 }, {  13,4742 }, {   0,  14 }, {   0,17902 },
- {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,17898 }, {  13,4735 },
- {   0,  34 }, {   0,17895 }, {   0,  31 }, {   0,17893 }, {   0,  40 },
- {   0,17891 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,17658 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
+ {   0,  50 }, {   0,17653 }, {  13,4742 }, {   0,  14 }, {   0,17650 },
+ {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,17646 }, {  13,4735 },
+ {   0,  34 }, {   0,17643 }, {   0,  31 }, {   0,17641 }, {   0,  40 },
+ {   0,17639 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,4742 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4735 }, {   0,   0 },
@@ -1348,7 +1348,7 @@ static const struct yy_trans_info yy_transition[21536] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 123,4461 }, {   0,   0 }, { 123,4461 }, {   0,   2 },
- {   0,17796 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
+ {   0,17544 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
  {   5,4075 }, {   6,4075 }, {   7,4075 }, {   8,4075 }, {   9,4075 },
  {  10,3952 }, {  11,4075 }, {  12,4075 }, {  13,3952 }, {  14,4075 },
 
@@ -1404,7 +1404,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 240,4075 }, { 241,4075 }, { 242,4075 }, { 243,4075 }, { 244,4075 },
  { 245,4075 }, { 246,4075 }, { 247,4075 }, { 248,4075 }, { 249,4075 },
  { 250,4075 }, { 251,4075 }, { 252,4075 }, { 253,4075 }, { 254,4075 },
- { 255,4075 }, {   0,  50 }, {   0,17539 }, {   1,4106 }, {   2,4106 },
+ { 255,4075 }, {   0,  50 }, {   0,17287 }, {   1,4106 }, {   2,4106 },
  {   3,4106 }, {   4,4106 }, {   5,4106 }, {   6,4106 }, {   7,4106 },
 
  {   8,4106 }, {   9,4081 }, {  10,4081 }, {  11,4106 }, {  12,4106 },
@@ -1462,7 +1462,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 248,4106 }, { 249,4106 }, { 250,4106 }, { 251,4106 }, { 252,4106 },
  { 253,4106 }, { 254,4106 }, { 255,4106 }, { 256,4106 }, {   0,  50 },
 
- {   0,17281 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
+ {   0,17029 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
  {   5,4140 }, {   6,4140 }, {   7,4140 }, {   8,4140 }, {   9,4140 },
  {  10,4140 }, {  11,4140 }, {  12,4140 }, {  13,4140 }, {  14,4140 },
  {  15,4140 }, {  16,4140 }, {  17,4140 }, {  18,4140 }, {  19,4140 },
@@ -1518,7 +1518,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 245,4140 }, { 246,4140 }, { 247,4140 }, { 248,4140 }, { 249,4140 },
 
  { 250,4140 }, { 251,4140 }, { 252,4140 }, { 253,4140 }, { 254,4140 },
- { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,17023 }, {   1,4398 },
+ { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,16771 }, {   1,4398 },
  {   2,4398 }, {   3,4398 }, {   4,4398 }, {   5,4398 }, {   6,4398 },
  {   7,4398 }, {   8,4398 }, {   9,4398 }, {  10,4398 }, {  11,4398 },
  {  12,4398 }, {  13,4398 }, {  14,4398 }, {  15,4398 }, {  16,4398 },
@@ -1575,7 +1575,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 242,4398 }, { 243,4398 }, { 244,4398 }, { 245,4398 }, { 246,4398 },
  { 247,4398 }, { 248,4398 }, { 249,4398 }, { 250,4398 }, { 251,4398 },
  { 252,4398 }, { 253,4398 }, { 254,4398 }, { 255,4398 }, { 256,4398 },
- {   0,  50 }, {   0,16765 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
+ {   0,  50 }, {   0,16513 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
  {   4,3332 }, {   5,3332 }, {   6,3332 }, {   7,3332 }, {   8,3332 },
  {   9,3307 }, {  10,3307 }, {  11,3332 }, {  12,3332 }, {  13,3307 },
  {  14,3332 }, {  15,3332 }, {  16,3332 }, {  17,3332 }, {  18,3332 },
@@ -1631,26 +1631,26 @@ static const struct yy_trans_info yy_transition[21536] =
  { 239,3332 }, { 240,3332 }, { 241,3332 }, { 242,3332 }, { 243,3332 },
  { 244,3332 }, { 245,3332 }, { 246,3332 }, { 247,3332 }, { 248,3332 },
  { 249,3332 }, { 250,3332 }, { 251,3332 }, { 252,3332 }, { 253,3332 },
- { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,16507 },
+ { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,16255 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3338 }, {  10,3338 },
  {   0,   0 }, {   0,   0 }, {  13,3338 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  50 }, {   0,16489 }, {   0,  42 }, {   0,16487 },
+ {   0,   0 }, {   0,  50 }, {   0,16237 }, {   0,  42 }, {   0,16235 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,16458 }, {   0,  50 },
- {   0,16456 }, {   0,   7 }, {   0,16454 }, {   0,  51 }, {   0,16452 },
+ {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,16206 }, {   0,  50 },
+ {   0,16204 }, {   0,   7 }, {   0,16202 }, {   0,  51 }, {   0,16200 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  61,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  50 }, {   0,16425 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
+ {   0,  50 }, {   0,16173 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
  {   4,2992 }, {   5,2992 }, {   6,2992 }, {   7,2992 }, {   8,2992 },
  {   9,3262 }, {  10,3262 }, {  11,2992 }, {  12,2992 }, {  13,3262 },
  {  14,2992 }, {  15,2992 }, {  16,2992 }, {  17,2992 }, {  18,2992 },
@@ -1706,7 +1706,7 @@ static const struct yy_trans_info yy_transition[21536] =
 
  { 244,2992 }, { 245,2992 }, { 246,2992 }, { 247,2992 }, { 248,2992 },
  { 249,2992 }, { 250,2992 }, { 251,2992 }, { 252,2992 }, { 253,2992 },
- { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,16167 },
+ { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,15915 },
  {   1,4375 }, {   2,4375 }, {   3,4375 }, {   4,4375 }, {   5,4375 },
  {   6,4375 }, {   7,4375 }, {   8,4375 }, {   9,4375 }, {  10,4375 },
  {  11,4375 }, {  12,4375 }, {  13,4375 }, {  14,4375 }, {  15,4375 },
@@ -1763,7 +1763,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 241,4375 }, { 242,4375 }, { 243,4375 }, { 244,4375 }, { 245,4375 },
  { 246,4375 }, { 247,4375 }, { 248,4375 }, { 249,4375 }, { 250,4375 },
  { 251,4375 }, { 252,4375 }, { 253,4375 }, { 254,4375 }, { 255,4375 },
- { 256,4375 }, {   0,  50 }, {   0,15909 }, {   1,2476 }, {   2,2476 },
+ { 256,4375 }, {   0,  50 }, {   0,15657 }, {   1,2476 }, {   2,2476 },
  {   3,2476 }, {   4,2476 }, {   5,2476 }, {   6,2476 }, {   7,2476 },
  {   8,2476 }, {   9,2451 }, {  10,2451 }, {  11,2476 }, {  12,2476 },
  {  13,2451 }, {  14,2476 }, {  15,2476 }, {  16,2476 }, {  17,2476 },
@@ -1820,7 +1820,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 243,2476 }, { 244,2476 }, { 245,2476 }, { 246,2476 }, { 247,2476 },
  { 248,2476 }, { 249,2476 }, { 250,2476 }, { 251,2476 }, { 252,2476 },
  { 253,2476 }, { 254,2476 }, { 255,2476 }, { 256,2476 }, {   0,  50 },
- {   0,15651 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
+ {   0,15399 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
  {   5,2218 }, {   6,2218 }, {   7,2218 }, {   8,2218 }, {   9,2193 },
  {  10,2193 }, {  11,2218 }, {  12,2218 }, {  13,2193 }, {  14,2218 },
  {  15,2218 }, {  16,2218 }, {  17,2218 }, {  18,2218 }, {  19,2218 },
@@ -1876,7 +1876,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 240,2218 }, { 241,2218 }, { 242,2218 }, { 243,2218 }, { 244,2218 },
  { 245,2218 }, { 246,2218 }, { 247,2218 }, { 248,2218 }, { 249,2218 },
  { 250,2218 }, { 251,2218 }, { 252,2218 }, { 253,2218 }, { 254,2218 },
- { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,15393 }, {   1,1960 },
+ { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,15141 }, {   1,1960 },
  {   2,1960 }, {   3,1960 }, {   4,1960 }, {   5,1960 }, {   6,1960 },
  {   7,1960 }, {   8,1960 }, {   9,1935 }, {  10,1935 }, {  11,1960 },
 
@@ -1933,7 +1933,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 242,1960 }, { 243,1960 }, { 244,1960 }, { 245,1960 }, { 246,1960 },
  { 247,1960 }, { 248,1960 }, { 249,1960 }, { 250,1960 }, { 251,1960 },
  { 252,1960 }, { 253,1960 }, { 254,1960 }, { 255,1960 }, { 256,1960 },
- {   0,  50 }, {   0,15135 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
+ {   0,  50 }, {   0,14883 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
 
  {   4,1702 }, {   5,1702 }, {   6,1702 }, {   7,1702 }, {   8,1702 },
  {   9,1677 }, {  10,1677 }, {  11,1702 }, {  12,1702 }, {  13,1677 },
@@ -1990,7 +1990,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 244,1702 }, { 245,1702 }, { 246,1702 }, { 247,1702 }, { 248,1702 },
  { 249,1702 }, { 250,1702 }, { 251,1702 }, { 252,1702 }, { 253,1702 },
 
- { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,14877 },
+ { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,14625 },
  {   1,1444 }, {   2,1444 }, {   3,1444 }, {   4,1444 }, {   5,1444 },
  {   6,1444 }, {   7,1444 }, {   8,1444 }, {   9,1419 }, {  10,1419 },
  {  11,1444 }, {  12,1444 }, {  13,1419 }, {  14,1444 }, {  15,1444 },
@@ -2047,7 +2047,7 @@ static const struct yy_trans_info yy_transition[21536] =
 
  { 246,1444 }, { 247,1444 }, { 248,1444 }, { 249,1444 }, { 250,1444 },
  { 251,1444 }, { 252,1444 }, { 253,1444 }, { 254,1444 }, { 255,1444 },
- { 256,1444 }, {   0,  51 }, {   0,14619 }, {   1,4769 }, {   2,4769 },
+ { 256,1444 }, {   0,  51 }, {   0,14367 }, {   1,4769 }, {   2,4769 },
  {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
  {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
  {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
@@ -2104,7 +2104,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
  { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
  { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  51 },
- {   0,14361 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
+ {   0,14109 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
  {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
  {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
  {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
@@ -2160,7 +2160,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
  { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
  { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
- { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,14103 }, {   1,4769 },
+ { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,13851 }, {   1,4769 },
  {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
  {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
  {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
@@ -2217,7 +2217,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
  { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
  { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
- {   0,13846 }, {   0,   2 }, {   0,13844 }, {   0,   0 }, {   0,13842 },
+ {   0,13594 }, {   0,   2 }, {   0,13592 }, {   0,   0 }, {   0,13590 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -2245,7 +2245,7 @@ static const struct yy_trans_info yy_transition[21536] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
- {   0,13721 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,13469 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
@@ -2301,13 +2301,13 @@ static const struct yy_trans_info yy_transition[21536] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   0 }, {   0,13464 }, {   0,   0 }, {   0,13462 },
- {   0,   5 }, {   0,13460 }, {   0,  48 }, {   0,13458 }, {   0,   0 },
+ { 255,   0 }, {   0,   0 }, {   0,13212 }, {   0,   0 }, {   0,13210 },
+ {   0,   5 }, {   0,13208 }, {   0,  48 }, {   0,13206 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,13433 }, {   1,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,13181 }, {   1,   0 },
 
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
@@ -2365,14 +2365,14 @@ static const struct yy_trans_info yy_transition[21536] =
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
 
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  35 }, {   0,13175 }, {   0,  38 }, {   0,13173 }, {   0,  39 },
- {   0,13171 }, {   0,  33 }, {   0,13169 }, {   0,  32 }, {   0,13167 },
- {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,13163 }, {  13,   0 },
- {   0,  49 }, {   0,13160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  35 }, {   0,12923 }, {   0,  38 }, {   0,12921 }, {   0,  39 },
+ {   0,12919 }, {   0,  33 }, {   0,12917 }, {   0,  32 }, {   0,12915 },
+ {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,12911 }, {  13,   0 },
+ {   0,  49 }, {   0,12908 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,13141 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
+ {   0,12889 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
 
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
@@ -2428,7 +2428,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12883 }, {   1,-258 },
+ { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12631 }, {   1,-258 },
 
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
@@ -2486,7 +2486,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
 
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,12625 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,12373 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -2542,7 +2542,7 @@ static const struct yy_trans_info yy_transition[21536] =
 
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12367 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12115 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
@@ -2599,7 +2599,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,12109 }, {   1,-1324 }, {   2,-1324 },
+ { 256,-258 }, {   0,   0 }, {   0,11857 }, {   1,-1324 }, {   2,-1324 },
  {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
  {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
  {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
@@ -2656,7 +2656,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
  { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  48 },
- {   0,11851 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,11599 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -2668,7 +2668,7 @@ static const struct yy_trans_info yy_transition[21536] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
  {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
- {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,11792 },
+ {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,11540 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
 
@@ -2725,7 +2725,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,11534 }, {   1,-258 }, {   2,-258 },
+ { 256,   0 }, {   0,   0 }, {   0,11282 }, {   1,-258 }, {   2,-258 },
 
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
@@ -2783,7 +2783,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
 
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,11276 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
+ {   0,11024 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
  {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,2296 },
  {  10,2296 }, {  11,-2157 }, {  12,-2157 }, {  13,2296 }, {  14,-2157 },
  {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
@@ -2839,7 +2839,7 @@ static const struct yy_trans_info yy_transition[21536] =
 
  { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
  { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,11018 }, {   1,-2415 },
+ { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,10766 }, {   1,-2415 },
  {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
  {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
  {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
@@ -2896,7 +2896,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
  { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
  { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,10760 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+ {   0,   0 }, {   0,10508 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
  {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
  {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
  {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
@@ -2952,7 +2952,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
  { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
  { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,10502 },
+ { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,10250 },
  {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
  {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
  {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
@@ -3009,7 +3009,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
  { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
  { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,10244 }, {   1,-3189 }, {   2,-3189 },
+ { 256,-2931 }, {   0,   0 }, {   0,9992 }, {   1,-3189 }, {   2,-3189 },
  {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
  {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
 
@@ -3066,16 +3066,16 @@ static const struct yy_trans_info yy_transition[21536] =
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
  { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  30 },
- {   0,9986 }, {   0,  37 }, {   0,9984 }, {   0,   0 }, {   0,9982 },
+ {   0,9734 }, {   0,  37 }, {   0,9732 }, {   0,   0 }, {   0,9730 },
 
- {   0,   0 }, {   0,9980 }, {   0,   0 }, {   0,9978 }, {   9,3229 },
- {  10,3229 }, {   0,  13 }, {   0,9974 }, {  13,3229 }, {   0,   0 },
+ {   0,   0 }, {   0,9728 }, {   0,   0 }, {   0,9726 }, {   9,3229 },
+ {  10,3229 }, {   0,  13 }, {   0,9722 }, {  13,3229 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  32,3229 }, {  33,1813 }, {   0,   0 },
  {  35,1815 }, {   0,   0 }, {   0,   0 }, {  38,1817 }, {   0,   0 },
- {   0,   0 }, {  33,3365 }, {  42,1819 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  33,3371 }, {  42,1819 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  47,1823 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -3092,11 +3092,11 @@ static const struct yy_trans_info yy_transition[21536] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 115,3235 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,3237 }, {   0,   0 },
- {   0,   0 }, { 126,3244 }, { 125,3239 }, {   0,   0 }, { 125,3242 },
- {   0,   0 }, { 125,3242 }, {   0,   0 }, {   0,   0 }, { 126,3242 },
- {   0,   0 }, {   0,9850 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,3235 }, {   0,   0 },
+ {   0,   0 }, { 126,3237 }, { 125,3247 }, {   0,   0 }, { 125,3248 },
+ {   0,   0 }, { 125,3248 }, {   0,   0 }, {   0,   0 }, { 126,3248 },
+ {   0,   0 }, {   0,9598 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
@@ -3152,7 +3152,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,9592 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,9340 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
 
@@ -3209,7 +3209,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,9334 }, {   1,   0 }, {   2,   0 },
+ { 256,-258 }, {   0,  10 }, {   0,9082 }, {   1,   0 }, {   2,   0 },
 
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
@@ -3266,9 +3266,9 @@ static const struct yy_trans_info yy_transition[21536] =
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
 
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,9077 },
- {   0,   0 }, {   0,9075 }, {   0,   0 }, {   0,9073 }, {   0,   5 },
- {   0,9071 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,8825 },
+ {   0,   0 }, {   0,8823 }, {   0,   0 }, {   0,8821 }, {   0,   5 },
+ {   0,8819 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3288,70 +3288,70 @@ static const struct yy_trans_info yy_transition[21536] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,  48 }, {   0,8980 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  48 }, {   0,8728 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 123,2722 }, {   0,   0 }, { 123,2722 },
- {   0,   0 }, { 123,2722 }, {   0,   4 }, {   0,8948 }, {   1,2722 },
- {   2,2722 }, {   3,2722 }, {   4,2722 }, {   5,2722 }, {   6,2722 },
- {   7,2722 }, {   8,2722 }, {   9,2722 }, {  10,2599 }, {  11,2722 },
- {  12,2722 }, {  13,2599 }, {  14,2722 }, {  15,2722 }, {  16,2722 },
+ {   0,   0 }, {   0,   0 }, { 123,2728 }, {   0,   0 }, { 123,2728 },
+ {   0,   0 }, { 123,2728 }, {   0,   4 }, {   0,8696 }, {   1,2728 },
+ {   2,2728 }, {   3,2728 }, {   4,2728 }, {   5,2728 }, {   6,2728 },
+ {   7,2728 }, {   8,2728 }, {   9,2728 }, {  10,2605 }, {  11,2728 },
+ {  12,2728 }, {  13,2605 }, {  14,2728 }, {  15,2728 }, {  16,2728 },
 
- {  17,2722 }, {  18,2722 }, {  19,2722 }, {  20,2722 }, {  21,2722 },
- {  22,2722 }, {  23,2722 }, {  24,2722 }, {  25,2722 }, {  26,2722 },
- {  27,2722 }, {  28,2722 }, {  29,2722 }, {  30,2722 }, {  31,2722 },
- {  32,2722 }, {  33,2722 }, {  34,2722 }, {  35,2722 }, {  36,2722 },
- {  37,2722 }, {  38,2722 }, {  39,2722 }, {  40,2722 }, {  41,2722 },
- {  42,2722 }, {  43,2722 }, {  44,2722 }, {  45,2722 }, {  46,2722 },
- {  47,2722 }, {  48,2722 }, {  49,2722 }, {  50,2722 }, {  51,2722 },
- {  52,2722 }, {  53,2722 }, {  54,2722 }, {  55,2722 }, {  56,2722 },
- {  57,2722 }, {  58,2722 }, {  59,2722 }, {  60,2722 }, {  61,2722 },
- {  62,2722 }, {  63,2722 }, {  64,2722 }, {  65,2722 }, {  66,2722 },
+ {  17,2728 }, {  18,2728 }, {  19,2728 }, {  20,2728 }, {  21,2728 },
+ {  22,2728 }, {  23,2728 }, {  24,2728 }, {  25,2728 }, {  26,2728 },
+ {  27,2728 }, {  28,2728 }, {  29,2728 }, {  30,2728 }, {  31,2728 },
+ {  32,2728 }, {  33,2728 }, {  34,2728 }, {  35,2728 }, {  36,2728 },
+ {  37,2728 }, {  38,2728 }, {  39,2728 }, {  40,2728 }, {  41,2728 },
+ {  42,2728 }, {  43,2728 }, {  44,2728 }, {  45,2728 }, {  46,2728 },
+ {  47,2728 }, {  48,2728 }, {  49,2728 }, {  50,2728 }, {  51,2728 },
+ {  52,2728 }, {  53,2728 }, {  54,2728 }, {  55,2728 }, {  56,2728 },
+ {  57,2728 }, {  58,2728 }, {  59,2728 }, {  60,2728 }, {  61,2728 },
+ {  62,2728 }, {  63,2728 }, {  64,2728 }, {  65,2728 }, {  66,2728 },
 
- {  67,2722 }, {  68,2722 }, {  69,2722 }, {  70,2722 }, {  71,2722 },
- {  72,2722 }, {  73,2722 }, {  74,2722 }, {  75,2722 }, {  76,2722 },
- {  77,2722 }, {  78,2722 }, {  79,2722 }, {  80,2722 }, {  81,2722 },
- {  82,2722 }, {  83,2722 }, {  84,2722 }, {  85,2722 }, {  86,2722 },
- {  87,2722 }, {  88,2722 }, {  89,2722 }, {  90,2722 }, {  91,2722 },
- { 124,2635 }, {  93,2722 }, {  94,2722 }, {  95,2722 }, {  96,2722 },
- {  97,2722 }, {  98,2722 }, {  99,2722 }, { 100,2722 }, { 101,2722 },
- { 102,2722 }, { 103,2722 }, { 104,2722 }, { 105,2722 }, { 106,2722 },
- { 107,2722 }, { 108,2722 }, { 109,2722 }, { 110,2722 }, { 111,2722 },
- { 112,2722 }, { 113,2722 }, { 114,2722 }, { 115,2722 }, { 116,2722 },
+ {  67,2728 }, {  68,2728 }, {  69,2728 }, {  70,2728 }, {  71,2728 },
+ {  72,2728 }, {  73,2728 }, {  74,2728 }, {  75,2728 }, {  76,2728 },
+ {  77,2728 }, {  78,2728 }, {  79,2728 }, {  80,2728 }, {  81,2728 },
+ {  82,2728 }, {  83,2728 }, {  84,2728 }, {  85,2728 }, {  86,2728 },
+ {  87,2728 }, {  88,2728 }, {  89,2728 }, {  90,2728 }, {  91,2728 },
+ { 124,2641 }, {  93,2728 }, {  94,2728 }, {  95,2728 }, {  96,2728 },
+ {  97,2728 }, {  98,2728 }, {  99,2728 }, { 100,2728 }, { 101,2728 },
+ { 102,2728 }, { 103,2728 }, { 104,2728 }, { 105,2728 }, { 106,2728 },
+ { 107,2728 }, { 108,2728 }, { 109,2728 }, { 110,2728 }, { 111,2728 },
+ { 112,2728 }, { 113,2728 }, { 114,2728 }, { 115,2728 }, { 116,2728 },
 
- { 117,2722 }, { 118,2722 }, { 119,2722 }, { 120,2722 }, { 121,2722 },
- { 122,2722 }, { 123,2979 }, { 124,2722 }, { 125,2722 }, { 126,2722 },
- { 127,2722 }, { 128,2722 }, { 129,2722 }, { 130,2722 }, { 131,2722 },
- { 132,2722 }, { 133,2722 }, { 134,2722 }, { 135,2722 }, { 136,2722 },
- { 137,2722 }, { 138,2722 }, { 139,2722 }, { 140,2722 }, { 141,2722 },
- { 142,2722 }, { 143,2722 }, { 144,2722 }, { 145,2722 }, { 146,2722 },
- { 147,2722 }, { 148,2722 }, { 149,2722 }, { 150,2722 }, { 151,2722 },
- { 152,2722 }, { 153,2722 }, { 154,2722 }, { 155,2722 }, { 156,2722 },
- { 157,2722 }, { 158,2722 }, { 159,2722 }, { 160,2722 }, { 161,2722 },
- { 162,2722 }, { 163,2722 }, { 164,2722 }, { 165,2722 }, { 166,2722 },
+ { 117,2728 }, { 118,2728 }, { 119,2728 }, { 120,2728 }, { 121,2728 },
+ { 122,2728 }, { 123,2985 }, { 124,2728 }, { 125,2728 }, { 126,2728 },
+ { 127,2728 }, { 128,2728 }, { 129,2728 }, { 130,2728 }, { 131,2728 },
+ { 132,2728 }, { 133,2728 }, { 134,2728 }, { 135,2728 }, { 136,2728 },
+ { 137,2728 }, { 138,2728 }, { 139,2728 }, { 140,2728 }, { 141,2728 },
+ { 142,2728 }, { 143,2728 }, { 144,2728 }, { 145,2728 }, { 146,2728 },
+ { 147,2728 }, { 148,2728 }, { 149,2728 }, { 150,2728 }, { 151,2728 },
+ { 152,2728 }, { 153,2728 }, { 154,2728 }, { 155,2728 }, { 156,2728 },
+ { 157,2728 }, { 158,2728 }, { 159,2728 }, { 160,2728 }, { 161,2728 },
+ { 162,2728 }, { 163,2728 }, { 164,2728 }, { 165,2728 }, { 166,2728 },
 
- { 167,2722 }, { 168,2722 }, { 169,2722 }, { 170,2722 }, { 171,2722 },
- { 172,2722 }, { 173,2722 }, { 174,2722 }, { 175,2722 }, { 176,2722 },
- { 177,2722 }, { 178,2722 }, { 179,2722 }, { 180,2722 }, { 181,2722 },
- { 182,2722 }, { 183,2722 }, { 184,2722 }, { 185,2722 }, { 186,2722 },
- { 187,2722 }, { 188,2722 }, { 189,2722 }, { 190,2722 }, { 191,2722 },
- { 192,2722 }, { 193,2722 }, { 194,2722 }, { 195,2722 }, { 196,2722 },
- { 197,2722 }, { 198,2722 }, { 199,2722 }, { 200,2722 }, { 201,2722 },
- { 202,2722 }, { 203,2722 }, { 204,2722 }, { 205,2722 }, { 206,2722 },
- { 207,2722 }, { 208,2722 }, { 209,2722 }, { 210,2722 }, { 211,2722 },
- { 212,2722 }, { 213,2722 }, { 214,2722 }, { 215,2722 }, { 216,2722 },
+ { 167,2728 }, { 168,2728 }, { 169,2728 }, { 170,2728 }, { 171,2728 },
+ { 172,2728 }, { 173,2728 }, { 174,2728 }, { 175,2728 }, { 176,2728 },
+ { 177,2728 }, { 178,2728 }, { 179,2728 }, { 180,2728 }, { 181,2728 },
+ { 182,2728 }, { 183,2728 }, { 184,2728 }, { 185,2728 }, { 186,2728 },
+ { 187,2728 }, { 188,2728 }, { 189,2728 }, { 190,2728 }, { 191,2728 },
+ { 192,2728 }, { 193,2728 }, { 194,2728 }, { 195,2728 }, { 196,2728 },
+ { 197,2728 }, { 198,2728 }, { 199,2728 }, { 200,2728 }, { 201,2728 },
+ { 202,2728 }, { 203,2728 }, { 204,2728 }, { 205,2728 }, { 206,2728 },
+ { 207,2728 }, { 208,2728 }, { 209,2728 }, { 210,2728 }, { 211,2728 },
+ { 212,2728 }, { 213,2728 }, { 214,2728 }, { 215,2728 }, { 216,2728 },
 
- { 217,2722 }, { 218,2722 }, { 219,2722 }, { 220,2722 }, { 221,2722 },
- { 222,2722 }, { 223,2722 }, { 224,2722 }, { 225,2722 }, { 226,2722 },
- { 227,2722 }, { 228,2722 }, { 229,2722 }, { 230,2722 }, { 231,2722 },
- { 232,2722 }, { 233,2722 }, { 234,2722 }, { 235,2722 }, { 236,2722 },
- { 237,2722 }, { 238,2722 }, { 239,2722 }, { 240,2722 }, { 241,2722 },
- { 242,2722 }, { 243,2722 }, { 244,2722 }, { 245,2722 }, { 246,2722 },
- { 247,2722 }, { 248,2722 }, { 249,2722 }, { 250,2722 }, { 251,2722 },
- { 252,2722 }, { 253,2722 }, { 254,2722 }, { 255,2722 }, {   0,  38 },
- {   0,8691 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
+ { 217,2728 }, { 218,2728 }, { 219,2728 }, { 220,2728 }, { 221,2728 },
+ { 222,2728 }, { 223,2728 }, { 224,2728 }, { 225,2728 }, { 226,2728 },
+ { 227,2728 }, { 228,2728 }, { 229,2728 }, { 230,2728 }, { 231,2728 },
+ { 232,2728 }, { 233,2728 }, { 234,2728 }, { 235,2728 }, { 236,2728 },
+ { 237,2728 }, { 238,2728 }, { 239,2728 }, { 240,2728 }, { 241,2728 },
+ { 242,2728 }, { 243,2728 }, { 244,2728 }, { 245,2728 }, { 246,2728 },
+ { 247,2728 }, { 248,2728 }, { 249,2728 }, { 250,2728 }, { 251,2728 },
+ { 252,2728 }, { 253,2728 }, { 254,2728 }, { 255,2728 }, {   0,  38 },
+ {   0,8439 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
  {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
 
  {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
@@ -3407,7 +3407,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
  { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
  { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,8433 }, {   1,-4192 },
+ { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,8181 }, {   1,-4192 },
 
  {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
  {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
@@ -3465,21 +3465,21 @@ static const struct yy_trans_info yy_transition[21536] =
  { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
 
  { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,8175 }, {   0,  29 }, {   0,8173 }, {   0,  20 },
- {   0,8171 }, {   0,  27 }, {   0,8169 }, {   0,  30 }, {   0,8167 },
- {   9,1828 }, {  10,1828 }, {   0,  21 }, {   0,8163 }, {  13,1828 },
- {   0,  18 }, {   0,8160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,7923 }, {   0,  29 }, {   0,7921 }, {   0,  20 },
+ {   0,7919 }, {   0,  27 }, {   0,7917 }, {   0,  30 }, {   0,7915 },
+ {   9,1834 }, {  10,1834 }, {   0,  21 }, {   0,7911 }, {  13,1834 },
+ {   0,  18 }, {   0,7908 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1828 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1834 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1828 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1834 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, {   0,   0 }, {  42,1834 }, {  45,1832 }, {  48,   0 },
+ {   0,   0 }, {   0,   0 }, {  42,1836 }, {  45,1836 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,1837 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  62,1840 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -3492,7 +3492,7 @@ static const struct yy_trans_info yy_transition[21536] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1828 }, { 126,1828 }, {   0,  49 }, {   0,8047 },
+ {   0,   0 }, { 125,1834 }, { 126,1834 }, {   0,  49 }, {   0,7795 },
  {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
  {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
  {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
@@ -3549,7 +3549,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
  { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
  { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,   0 }, {   0,7789 }, {   1,-5644 }, {   2,-5644 },
+ { 256,-3745 }, {   0,   0 }, {   0,7537 }, {   1,-5644 }, {   2,-5644 },
  {   3,-5644 }, {   4,-5644 }, {   5,-5644 }, {   6,-5644 }, {   7,-5644 },
 
  {   8,-5644 }, {   9,-5669 }, {  10,-5669 }, {  11,-5644 }, {  12,-5644 },
@@ -3575,7 +3575,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 103,-5644 }, { 104,-5644 }, { 105,-5644 }, { 106,-5644 }, { 107,-5644 },
 
  { 108,-5644 }, { 109,-5644 }, { 110,-5644 }, { 111,-5644 }, { 112,-5644 },
- { 113,-5644 }, { 114,-5644 }, { 115,2077 }, { 116,-5644 }, { 117,-5644 },
+ { 113,-5644 }, { 114,-5644 }, { 115,2083 }, { 116,-5644 }, { 117,-5644 },
  { 118,-5644 }, { 119,-5644 }, { 120,-5644 }, { 121,-5644 }, { 122,-5644 },
  {   0,   0 }, { 124,-5669 }, { 125,-5669 }, { 126,-5669 }, { 127,-5644 },
  { 128,-5644 }, { 129,-5644 }, { 130,-5644 }, { 131,-5644 }, { 132,-5644 },
@@ -3607,7 +3607,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 248,-5644 }, { 249,-5644 }, { 250,-5644 }, { 251,-5644 }, { 252,-5644 },
  { 253,-5644 }, { 254,-5644 }, { 255,-5644 }, { 256,-5644 }, {   0,   0 },
 
- {   0,7531 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
+ {   0,7279 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
  {   5,-5902 }, {   6,-5902 }, {   7,-5902 }, {   8,-5902 }, {   9,-5927 },
  {  10,-5927 }, {  11,-5902 }, {  12,-5902 }, {  13,-5927 }, {  14,-5902 },
  {  15,-5902 }, {  16,-5902 }, {  17,-5902 }, {  18,-5902 }, {  19,-5902 },
@@ -3630,7 +3630,7 @@ static const struct yy_trans_info yy_transition[21536] =
  {  95,-5902 }, {   0,   0 }, {  97,-5902 }, {  98,-5902 }, {  99,-5902 },
 
  { 100,-5902 }, { 101,-5902 }, { 102,-5902 }, { 103,-5902 }, { 104,-5902 },
- { 105,-5902 }, { 106,-5902 }, { 107,-5902 }, { 108,2077 }, { 109,-5902 },
+ { 105,-5902 }, { 106,-5902 }, { 107,-5902 }, { 108,2083 }, { 109,-5902 },
  { 110,-5902 }, { 111,-5902 }, { 112,-5902 }, { 113,-5902 }, { 114,-5902 },
  { 115,-5902 }, { 116,-5902 }, { 117,-5902 }, { 118,-5902 }, { 119,-5902 },
  { 120,-5902 }, { 121,-5902 }, { 122,-5902 }, {   0,   0 }, { 124,-5927 },
@@ -3663,7 +3663,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 245,-5902 }, { 246,-5902 }, { 247,-5902 }, { 248,-5902 }, { 249,-5902 },
 
  { 250,-5902 }, { 251,-5902 }, { 252,-5902 }, { 253,-5902 }, { 254,-5902 },
- { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,7273 }, {   1,-6160 },
+ { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,7021 }, {   1,-6160 },
  {   2,-6160 }, {   3,-6160 }, {   4,-6160 }, {   5,-6160 }, {   6,-6160 },
  {   7,-6160 }, {   8,-6160 }, {   9,-6185 }, {  10,-6185 }, {  11,-6160 },
  {  12,-6160 }, {  13,-6185 }, {  14,-6160 }, {  15,-6160 }, {  16,-6160 },
@@ -3685,7 +3685,7 @@ static const struct yy_trans_info yy_transition[21536] =
  {  87,-6160 }, {  88,-6160 }, {  89,-6160 }, {  90,-6160 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6160 }, {   0,   0 },
- {  97,-6160 }, {  98,-6160 }, {  99,-6160 }, { 100,-6160 }, { 101,2077 },
+ {  97,-6160 }, {  98,-6160 }, {  99,-6160 }, { 100,-6160 }, { 101,2083 },
  { 102,-6160 }, { 103,-6160 }, { 104,-6160 }, { 105,-6160 }, { 106,-6160 },
  { 107,-6160 }, { 108,-6160 }, { 109,-6160 }, { 110,-6160 }, { 111,-6160 },
  { 112,-6160 }, { 113,-6160 }, { 114,-6160 }, { 115,-6160 }, { 116,-6160 },
@@ -3720,7 +3720,7 @@ static const struct yy_trans_info yy_transition[21536] =
  { 242,-6160 }, { 243,-6160 }, { 244,-6160 }, { 245,-6160 }, { 246,-6160 },
  { 247,-6160 }, { 248,-6160 }, { 249,-6160 }, { 250,-6160 }, { 251,-6160 },
  { 252,-6160 }, { 253,-6160 }, { 254,-6160 }, { 255,-6160 }, { 256,-6160 },
- {   0,   0 }, {   0,7015 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
+ {   0,   0 }, {   0,6763 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
  {   4,-6418 }, {   5,-6418 }, {   6,-6418 }, {   7,-6418 }, {   8,-6418 },
  {   9,-6443 }, {  10,-6443 }, {  11,-6418 }, {  12,-6418 }, {  13,-6443 },
  {  14,-6418 }, {  15,-6418 }, {  16,-6418 }, {  17,-6418 }, {  18,-6418 },
@@ -3742,7 +3742,7 @@ static const struct yy_trans_info yy_transition[21536] =
  {  84,-6418 }, {  85,-6418 }, {  86,-6418 }, {  87,-6418 }, {  88,-6418 },
  {  89,-6418 }, {  90,-6418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-6418 }, {   0,   0 }, {  97,-6418 }, {  98,-6418 },
- {  99,-6418 }, { 100,-6418 }, { 101,2077 }, { 102,-6418 }, { 103,-6418 },
+ {  99,-6418 }, { 100,-6418 }, { 101,2083 }, { 102,-6418 }, { 103,-6418 },
  { 104,-6418 }, { 105,-6418 }, { 106,-6418 }, { 107,-6418 }, { 108,-6418 },
  { 109,-6418 }, { 110,-6418 }, { 111,-6418 }, { 112,-6418 }, { 113,-6418 },
  { 114,-6418 }, { 115,-6418 }, { 116,-6418 }, { 117,-6418 }, { 118,-6418 },
@@ -3776,109 +3776,109 @@ static const struct yy_trans_info yy_transition[21536] =
  { 239,-6418 }, { 240,-6418 }, { 241,-6418 }, { 242,-6418 }, { 243,-6418 },
  { 244,-6418 }, { 245,-6418 }, { 246,-6418 }, { 247,-6418 }, { 248,-6418 },
  { 249,-6418 }, { 250,-6418 }, { 251,-6418 }, { 252,-6418 }, { 253,-6418 },
- { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,6757 },
- {   0,  24 }, {   0,6755 }, {   0,   0 }, {   0,6753 }, {   0,   0 },
- {   0,6751 }, {   0,  26 }, {   0,6749 }, {   9,   0 }, {  10,   0 },
- {   0,  36 }, {   0,6745 }, {  13,   0 }, {   0,  30 }, {   0,6742 },
- {   0,   0 }, {   0,6740 }, {   0,  37 }, {   0,6738 }, {   0,   0 },
- {   0,6736 }, {   0,   0 }, {   0,   0 }, {   9, -15 }, {  10, -15 },
+ { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,6505 },
+ {   0,  24 }, {   0,6503 }, {   0,   0 }, {   0,6501 }, {   0,  26 },
+ {   0,6499 }, {   0,  30 }, {   0,6497 }, {   9,   0 }, {  10,   0 },
+ {   9,2081 }, {  10,2081 }, {  13,   0 }, {   0,   0 }, {  13,2081 },
+ {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,  36 }, {   0,6485 },
+ {  13,  -8 }, {   0,   0 }, {   0,6482 }, {   0,  37 }, {   0,6480 },
 
- {   0,   0 }, {   0,   0 }, {  13, -15 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,6478 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,   0 }, {   0,   0 }, {  32,2081 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,  -8 },
+ {  33,-1424 }, {   0,   0 }, {  35,-1422 }, {   0,   0 }, {   0,   0 },
+ {  38,-1420 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  42,-1418 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  47,-1414 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  33, 123 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-1411 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32, -15 }, {  33,-1431 }, {   0,   0 }, {  35,-1429 },
- {   0,   0 }, {   0,   0 }, {  38,-1427 }, {  33, 123 }, {   0,   0 },
- {   0,   0 }, {  42,-1425 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  47,-1421 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {  62,-1418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 101,   4 }, {  94,  -6 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,  -4 }, {   0,   0 },
+ {   0,   0 }, { 108,2083 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101, 414 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101,2079 }, {   0,   0 }, {  94, -13 }, {   0,   0 },
- {   0,   0 }, { 108,2079 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 101, -11 }, { 115,2075 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 115,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
- {   0,   0 }, { 125,2077 }, { 126,2079 }, {   0,   0 }, { 115,  -9 },
- { 123,2079 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,2079 }, { 123,2074 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,2076 }, {   0,   0 }, {   0,6613 }, {   1,2064 },
- {   2,2064 }, {   3,2064 }, {   4,2064 }, {   5,2064 }, {   6,2064 },
- {   7,2064 }, {   8,2064 }, {   9,2064 }, {  10,2064 }, {  11,2064 },
- {  12,2064 }, {  13,2064 }, {  14,2064 }, {  15,2064 }, {  16,2064 },
- {  17,2064 }, {  18,2064 }, {  19,2064 }, {  20,2064 }, {  21,2064 },
- {  22,2064 }, {  23,2064 }, {  24,2064 }, {  25,2064 }, {  26,2064 },
- {  27,2064 }, {  28,2064 }, {  29,2064 }, {  30,2064 }, {  31,2064 },
+ {   0,   0 }, { 125, 502 }, { 126,2083 }, { 123,2083 }, {   0,   0 },
+ { 123,2083 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,2075 },
+ {   0,   0 }, {   0,   0 }, { 125,2075 }, {   0,   0 }, {   0,6355 },
+ {   1,2062 }, {   2,2062 }, {   3,2062 }, {   4,2062 }, {   5,2062 },
+ {   6,2062 }, {   7,2062 }, {   8,2062 }, {   9,2062 }, {  10,2062 },
+ {  11,2062 }, {  12,2062 }, {  13,2062 }, {  14,2062 }, {  15,2062 },
+ {  16,2062 }, {  17,2062 }, {  18,2062 }, {  19,2062 }, {  20,2062 },
+ {  21,2062 }, {  22,2062 }, {  23,2062 }, {  24,2062 }, {  25,2062 },
 
- {  32,2064 }, {  33,2064 }, {  34,2064 }, {  35,2064 }, {  36,2064 },
- {  37,2064 }, {  38,2064 }, {  39,2064 }, {  40,2064 }, {  41,2064 },
- {  42,2064 }, {  43,2064 }, {  44,2064 }, {  45,2322 }, {  46,2064 },
- {  47,2064 }, {  48,2064 }, {  49,2064 }, {  50,2064 }, {  51,2064 },
- {  52,2064 }, {  53,2064 }, {  54,2064 }, {  55,2064 }, {  56,2064 },
- {  57,2064 }, {  58,2064 }, {  59,2064 }, {  60,2064 }, {  61,2064 },
- {  62,2064 }, {  63,2064 }, {  64,2064 }, {  65,2064 }, {  66,2064 },
- {  67,2064 }, {  68,2064 }, {  69,2064 }, {  70,2064 }, {  71,2064 },
- {  72,2064 }, {  73,2064 }, {  74,2064 }, {  75,2064 }, {  76,2064 },
- {  77,2064 }, {  78,2064 }, {  79,2064 }, {  80,2064 }, {  81,2064 },
+ {  26,2062 }, {  27,2062 }, {  28,2062 }, {  29,2062 }, {  30,2062 },
+ {  31,2062 }, {  32,2062 }, {  33,2062 }, {  34,2062 }, {  35,2062 },
+ {  36,2062 }, {  37,2062 }, {  38,2062 }, {  39,2062 }, {  40,2062 },
+ {  41,2062 }, {  42,2062 }, {  43,2062 }, {  44,2062 }, {  45,2320 },
+ {  46,2062 }, {  47,2062 }, {  48,2062 }, {  49,2062 }, {  50,2062 },
+ {  51,2062 }, {  52,2062 }, {  53,2062 }, {  54,2062 }, {  55,2062 },
+ {  56,2062 }, {  57,2062 }, {  58,2062 }, {  59,2062 }, {  60,2062 },
+ {  61,2062 }, {  62,2062 }, {  63,2062 }, {  64,2062 }, {  65,2062 },
+ {  66,2062 }, {  67,2062 }, {  68,2062 }, {  69,2062 }, {  70,2062 },
+ {  71,2062 }, {  72,2062 }, {  73,2062 }, {  74,2062 }, {  75,2062 },
 
- {  82,2064 }, {  83,2064 }, {  84,2064 }, {  85,2064 }, {  86,2064 },
- {  87,2064 }, {  88,2064 }, {  89,2064 }, {  90,2064 }, {  91,2064 },
- {  92,2064 }, {  93,2064 }, {  94,2064 }, {  95,2064 }, {  96,2064 },
- {  97,2064 }, {  98,2064 }, {  99,2064 }, { 100,2064 }, { 101,2064 },
- { 102,2064 }, { 103,2064 }, { 104,2064 }, { 105,2064 }, { 106,2064 },
- { 107,2064 }, { 108,2064 }, { 109,2064 }, { 110,2064 }, { 111,2064 },
- { 112,2064 }, { 113,2064 }, { 114,2064 }, { 115,2064 }, { 116,2064 },
- { 117,2064 }, { 118,2064 }, { 119,2064 }, { 120,2064 }, { 121,2064 },
- { 122,2064 }, { 123,2064 }, { 124,2064 }, { 125,2064 }, { 126,2064 },
- { 127,2064 }, { 128,2064 }, { 129,2064 }, { 130,2064 }, { 131,2064 },
+ {  76,2062 }, {  77,2062 }, {  78,2062 }, {  79,2062 }, {  80,2062 },
+ {  81,2062 }, {  82,2062 }, {  83,2062 }, {  84,2062 }, {  85,2062 },
+ {  86,2062 }, {  87,2062 }, {  88,2062 }, {  89,2062 }, {  90,2062 },
+ {  91,2062 }, {  92,2062 }, {  93,2062 }, {  94,2062 }, {  95,2062 },
+ {  96,2062 }, {  97,2062 }, {  98,2062 }, {  99,2062 }, { 100,2062 },
+ { 101,2062 }, { 102,2062 }, { 103,2062 }, { 104,2062 }, { 105,2062 },
+ { 106,2062 }, { 107,2062 }, { 108,2062 }, { 109,2062 }, { 110,2062 },
+ { 111,2062 }, { 112,2062 }, { 113,2062 }, { 114,2062 }, { 115,2062 },
+ { 116,2062 }, { 117,2062 }, { 118,2062 }, { 119,2062 }, { 120,2062 },
+ { 121,2062 }, { 122,2062 }, { 123,2062 }, { 124,2062 }, { 125,2062 },
 
- { 132,2064 }, { 133,2064 }, { 134,2064 }, { 135,2064 }, { 136,2064 },
- { 137,2064 }, { 138,2064 }, { 139,2064 }, { 140,2064 }, { 141,2064 },
- { 142,2064 }, { 143,2064 }, { 144,2064 }, { 145,2064 }, { 146,2064 },
- { 147,2064 }, { 148,2064 }, { 149,2064 }, { 150,2064 }, { 151,2064 },
- { 152,2064 }, { 153,2064 }, { 154,2064 }, { 155,2064 }, { 156,2064 },
- { 157,2064 }, { 158,2064 }, { 159,2064 }, { 160,2064 }, { 161,2064 },
- { 162,2064 }, { 163,2064 }, { 164,2064 }, { 165,2064 }, { 166,2064 },
- { 167,2064 }, { 168,2064 }, { 169,2064 }, { 170,2064 }, { 171,2064 },
- { 172,2064 }, { 173,2064 }, { 174,2064 }, { 175,2064 }, { 176,2064 },
- { 177,2064 }, { 178,2064 }, { 179,2064 }, { 180,2064 }, { 181,2064 },
+ { 126,2062 }, { 127,2062 }, { 128,2062 }, { 129,2062 }, { 130,2062 },
+ { 131,2062 }, { 132,2062 }, { 133,2062 }, { 134,2062 }, { 135,2062 },
+ { 136,2062 }, { 137,2062 }, { 138,2062 }, { 139,2062 }, { 140,2062 },
+ { 141,2062 }, { 142,2062 }, { 143,2062 }, { 144,2062 }, { 145,2062 },
+ { 146,2062 }, { 147,2062 }, { 148,2062 }, { 149,2062 }, { 150,2062 },
+ { 151,2062 }, { 152,2062 }, { 153,2062 }, { 154,2062 }, { 155,2062 },
+ { 156,2062 }, { 157,2062 }, { 158,2062 }, { 159,2062 }, { 160,2062 },
+ { 161,2062 }, { 162,2062 }, { 163,2062 }, { 164,2062 }, { 165,2062 },
+ { 166,2062 }, { 167,2062 }, { 168,2062 }, { 169,2062 }, { 170,2062 },
+ { 171,2062 }, { 172,2062 }, { 173,2062 }, { 174,2062 }, { 175,2062 },
 
- { 182,2064 }, { 183,2064 }, { 184,2064 }, { 185,2064 }, { 186,2064 },
- { 187,2064 }, { 188,2064 }, { 189,2064 }, { 190,2064 }, { 191,2064 },
- { 192,2064 }, { 193,2064 }, { 194,2064 }, { 195,2064 }, { 196,2064 },
- { 197,2064 }, { 198,2064 }, { 199,2064 }, { 200,2064 }, { 201,2064 },
- { 202,2064 }, { 203,2064 }, { 204,2064 }, { 205,2064 }, { 206,2064 },
- { 207,2064 }, { 208,2064 }, { 209,2064 }, { 210,2064 }, { 211,2064 },
- { 212,2064 }, { 213,2064 }, { 214,2064 }, { 215,2064 }, { 216,2064 },
- { 217,2064 }, { 218,2064 }, { 219,2064 }, { 220,2064 }, { 221,2064 },
- { 222,2064 }, { 223,2064 }, { 224,2064 }, { 225,2064 }, { 226,2064 },
- { 227,2064 }, { 228,2064 }, { 229,2064 }, { 230,2064 }, { 231,2064 },
+ { 176,2062 }, { 177,2062 }, { 178,2062 }, { 179,2062 }, { 180,2062 },
+ { 181,2062 }, { 182,2062 }, { 183,2062 }, { 184,2062 }, { 185,2062 },
+ { 186,2062 }, { 187,2062 }, { 188,2062 }, { 189,2062 }, { 190,2062 },
+ { 191,2062 }, { 192,2062 }, { 193,2062 }, { 194,2062 }, { 195,2062 },
+ { 196,2062 }, { 197,2062 }, { 198,2062 }, { 199,2062 }, { 200,2062 },
+ { 201,2062 }, { 202,2062 }, { 203,2062 }, { 204,2062 }, { 205,2062 },
+ { 206,2062 }, { 207,2062 }, { 208,2062 }, { 209,2062 }, { 210,2062 },
+ { 211,2062 }, { 212,2062 }, { 213,2062 }, { 214,2062 }, { 215,2062 },
+ { 216,2062 }, { 217,2062 }, { 218,2062 }, { 219,2062 }, { 220,2062 },
+ { 221,2062 }, { 222,2062 }, { 223,2062 }, { 224,2062 }, { 225,2062 },
 
- { 232,2064 }, { 233,2064 }, { 234,2064 }, { 235,2064 }, { 236,2064 },
- { 237,2064 }, { 238,2064 }, { 239,2064 }, { 240,2064 }, { 241,2064 },
- { 242,2064 }, { 243,2064 }, { 244,2064 }, { 245,2064 }, { 246,2064 },
- { 247,2064 }, { 248,2064 }, { 249,2064 }, { 250,2064 }, { 251,2064 },
- { 252,2064 }, { 253,2064 }, { 254,2064 }, { 255,2064 }, { 256,2064 },
- {   0,   0 }, {   0,6355 }, {   0,   0 }, {   0,6353 }, {   0,   1 },
- {   0,6351 }, {   0,   4 }, {   0,6349 }, {   0,  47 }, {   0,6347 },
- {   0,  41 }, {   0,6345 }, {   0,   0 }, {   0,6343 }, {   0,   0 },
- {   0,6341 }, {   0,   0 }, {  10,   0 }, {   0,  20 }, {   0,6337 },
- {  13,   0 }, {   0,  19 }, {   0,6334 }, {   0,   0 }, {   0,   0 },
+ { 226,2062 }, { 227,2062 }, { 228,2062 }, { 229,2062 }, { 230,2062 },
+ { 231,2062 }, { 232,2062 }, { 233,2062 }, { 234,2062 }, { 235,2062 },
+ { 236,2062 }, { 237,2062 }, { 238,2062 }, { 239,2062 }, { 240,2062 },
+ { 241,2062 }, { 242,2062 }, { 243,2062 }, { 244,2062 }, { 245,2062 },
+ { 246,2062 }, { 247,2062 }, { 248,2062 }, { 249,2062 }, { 250,2062 },
+ { 251,2062 }, { 252,2062 }, { 253,2062 }, { 254,2062 }, { 255,2062 },
+ { 256,2062 }, {   0,   0 }, {   0,6097 }, {   0,   0 }, {   0,6095 },
+ {   0,   1 }, {   0,6093 }, {   0,   4 }, {   0,6091 }, {   0,  47 },
+ {   0,6089 }, {   0,  41 }, {   0,6087 }, {   0,   0 }, {   0,6085 },
+ {   0,  20 }, {   0,6083 }, {   0,   0 }, {  10,   0 }, {   0,  19 },
 
+ {   0,6079 }, {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,3111 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2574 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -3887,361 +3887,361 @@ static const struct yy_trans_info yy_transition[21536] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,6001 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 108,3111 }, {   0,   0 }, {   0,   0 }, { 123,2322 },
 
- {   0,   0 }, { 123,2578 }, {   0,   0 }, { 123,2578 }, {   0,   4 },
- {   0,6226 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
- {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
- {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
- {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
- {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
- {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
- {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
- {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
- {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 123,2320 }, {   0,   0 }, { 123,2576 }, {   0,   0 }, { 123,2576 },
+ {   0,   4 }, {   0,5968 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
+ {   9,   0 }, {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 },
+ {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
+ {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
+ {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
+ {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
+ {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
 
- {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
- {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
- {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
- {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
- {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
- {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
- {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
- {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
- {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
- {  90,   0 }, {  91,   0 }, {   0,   0 }, {  93,   0 }, {  94,   0 },
+ {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
+ {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
+ {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
+ {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
+ {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
+ {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+ {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
+ {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
+ {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
+ {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
 
- {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
- { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
- { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
- { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
- { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
- { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 },
- { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
- { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
- { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
- { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
+ {  89,   0 }, {  90,   0 }, {  91,   0 }, { 125,2492 }, {  93,   0 },
+ {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
+ {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
+ { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
+ { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
+ { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
+ { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 },
+ { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
+ { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
+ { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
 
- { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
- { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
- { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
- { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
- { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
- { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
- { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
- { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
- { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
- { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
+ { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+ { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
+ { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
+ { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
+ { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
+ { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
+ { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
+ { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
+ { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
+ { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
 
- { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
- { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
- { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
- { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
- { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
- { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
- { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
- { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
- { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
- { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
+ { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+ { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
+ { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
+ { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
+ { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
+ { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
+ { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
+ { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
+ { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
+ { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
 
- { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
- { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   4 }, {   0,5969 }, {   1,-257 }, {   2,-257 },
- {   3,-257 }, {   4,-257 }, {   5,-257 }, {   6,-257 }, {   7,-257 },
- {   8,-257 }, {   9,-257 }, {  10,-380 }, {  11,-257 }, {  12,-257 },
- {  13,-380 }, {  14,-257 }, {  15,-257 }, {  16,-257 }, {  17,-257 },
- {  18,-257 }, {  19,-257 }, {  20,-257 }, {  21,-257 }, {  22,-257 },
- {  23,-257 }, {  24,-257 }, {  25,-257 }, {  26,-257 }, {  27,-257 },
- {  28,-257 }, {  29,-257 }, {  30,-257 }, {  31,-257 }, {  32,-257 },
- {  33,-257 }, {  34,-257 }, {  35,-257 }, {  36,-257 }, {  37,-257 },
-
- {  38,-257 }, {  39,-257 }, {  40,-257 }, {  41,-257 }, {  42,-257 },
- {  43,-257 }, {  44,-257 }, {  45,-257 }, {  46,-257 }, {  47,-257 },
- {  48,-257 }, {  49,-257 }, {  50,-257 }, {  51,-257 }, {  52,-257 },
- {  53,-257 }, {  54,-257 }, {  55,-257 }, {  56,-257 }, {  57,-257 },
- {  58,-257 }, {  59,-257 }, {  60,-257 }, {  61,-257 }, {  62,-257 },
- {  63,-257 }, {  64,-257 }, {  65,-257 }, {  66,-257 }, {  67,-257 },
- {  68,-257 }, {  69,-257 }, {  70,-257 }, {  71,-257 }, {  72,-257 },
- {  73,-257 }, {  74,-257 }, {  75,-257 }, {  76,-257 }, {  77,-257 },
- {  78,-257 }, {  79,-257 }, {  80,-257 }, {  81,-257 }, {  82,-257 },
- {  83,-257 }, {  84,-257 }, {  85,-257 }, {  86,-257 }, {  87,-257 },
-
- {  88,-257 }, {  89,-257 }, {  90,-257 }, {  91,-257 }, {   0,   0 },
- {  93,-257 }, {  94,-257 }, {  95,-257 }, {  96,-257 }, {  97,-257 },
- {  98,-257 }, {  99,-257 }, { 100,-257 }, { 101,-257 }, { 102,-257 },
- { 103,-257 }, { 104,-257 }, { 105,-257 }, { 106,-257 }, { 107,-257 },
- { 108,-257 }, { 109,-257 }, { 110,-257 }, { 111,-257 }, { 112,-257 },
- { 113,-257 }, { 114,-257 }, { 115,-257 }, { 116,-257 }, { 117,-257 },
- { 118,-257 }, { 119,-257 }, { 120,-257 }, { 121,-257 }, { 122,-257 },
- {   0,   0 }, { 124,-257 }, { 125,-257 }, { 126,-257 }, { 127,-257 },
- { 128,-257 }, { 129,-257 }, { 130,-257 }, { 131,-257 }, { 132,-257 },
- { 133,-257 }, { 134,-257 }, { 135,-257 }, { 136,-257 }, { 137,-257 },
-
- { 138,-257 }, { 139,-257 }, { 140,-257 }, { 141,-257 }, { 142,-257 },
- { 143,-257 }, { 144,-257 }, { 145,-257 }, { 146,-257 }, { 147,-257 },
- { 148,-257 }, { 149,-257 }, { 150,-257 }, { 151,-257 }, { 152,-257 },
- { 153,-257 }, { 154,-257 }, { 155,-257 }, { 156,-257 }, { 157,-257 },
- { 158,-257 }, { 159,-257 }, { 160,-257 }, { 161,-257 }, { 162,-257 },
- { 163,-257 }, { 164,-257 }, { 165,-257 }, { 166,-257 }, { 167,-257 },
- { 168,-257 }, { 169,-257 }, { 170,-257 }, { 171,-257 }, { 172,-257 },
- { 173,-257 }, { 174,-257 }, { 175,-257 }, { 176,-257 }, { 177,-257 },
- { 178,-257 }, { 179,-257 }, { 180,-257 }, { 181,-257 }, { 182,-257 },
- { 183,-257 }, { 184,-257 }, { 185,-257 }, { 186,-257 }, { 187,-257 },
-
- { 188,-257 }, { 189,-257 }, { 190,-257 }, { 191,-257 }, { 192,-257 },
- { 193,-257 }, { 194,-257 }, { 195,-257 }, { 196,-257 }, { 197,-257 },
- { 198,-257 }, { 199,-257 }, { 200,-257 }, { 201,-257 }, { 202,-257 },
- { 203,-257 }, { 204,-257 }, { 205,-257 }, { 206,-257 }, { 207,-257 },
- { 208,-257 }, { 209,-257 }, { 210,-257 }, { 211,-257 }, { 212,-257 },
- { 213,-257 }, { 214,-257 }, { 215,-257 }, { 216,-257 }, { 217,-257 },
- { 218,-257 }, { 219,-257 }, { 220,-257 }, { 221,-257 }, { 222,-257 },
- { 223,-257 }, { 224,-257 }, { 225,-257 }, { 226,-257 }, { 227,-257 },
- { 228,-257 }, { 229,-257 }, { 230,-257 }, { 231,-257 }, { 232,-257 },
- { 233,-257 }, { 234,-257 }, { 235,-257 }, { 236,-257 }, { 237,-257 },
-
- { 238,-257 }, { 239,-257 }, { 240,-257 }, { 241,-257 }, { 242,-257 },
- { 243,-257 }, { 244,-257 }, { 245,-257 }, { 246,-257 }, { 247,-257 },
- { 248,-257 }, { 249,-257 }, { 250,-257 }, { 251,-257 }, { 252,-257 },
- { 253,-257 }, { 254,-257 }, { 255,-257 }, {   0,   0 }, {   0,5712 },
- {   1,-7721 }, {   2,-7721 }, {   3,-7721 }, {   4,-7721 }, {   5,-7721 },
- {   6,-7721 }, {   7,-7721 }, {   8,-7721 }, {   9,-7746 }, {  10,-7746 },
- {  11,-7721 }, {  12,-7721 }, {  13,-7746 }, {  14,-7721 }, {  15,-7721 },
- {  16,-7721 }, {  17,-7721 }, {  18,-7721 }, {  19,-7721 }, {  20,-7721 },
- {  21,-7721 }, {  22,-7721 }, {  23,-7721 }, {  24,-7721 }, {  25,-7721 },
- {  26,-7721 }, {  27,-7721 }, {  28,-7721 }, {  29,-7721 }, {  30,-7721 },
-
- {  31,-7721 }, {  32,-7746 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-7721 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-7746 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7721 },
- {  46,-7746 }, {  47,-7746 }, {  48,-7721 }, {  49,-7721 }, {  50,-7721 },
- {  51,-7721 }, {  52,-7721 }, {  53,-7721 }, {  54,-7721 }, {  55,-7721 },
- {  56,-7721 }, {  57,-7721 }, {  58,-7721 }, {   0,   0 }, {   0,   0 },
- {  61,-7746 }, {   0,   0 }, {  63,-7721 }, {   0,   0 }, {  65,-7721 },
- {  66,-7721 }, {  67,-7721 }, {  68,-7721 }, {  69,-7721 }, {  70,-7721 },
- {  71,-7721 }, {  72,-7721 }, {  73,-7721 }, {  74,-7721 }, {  75,-7721 },
- {  76,-7721 }, {  77,-7721 }, {  78,-7721 }, {  79,-7721 }, {  80,-7721 },
-
- {  81,-7721 }, {  82,-7721 }, {  83,-7721 }, {  84,-7721 }, {  85,-7721 },
- {  86,-7721 }, {  87,-7721 }, {  88,-7721 }, {  89,-7721 }, {  90,-7721 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7721 },
- {   0,   0 }, {  97,-7721 }, {  98,-7721 }, {  99,-7721 }, { 100,-7721 },
- { 101,1964 }, { 102,-7721 }, { 103,-7721 }, { 104,-7721 }, { 105,-7721 },
- { 106,-7721 }, { 107,-7721 }, { 108,-7721 }, { 109,-7721 }, { 110,-7721 },
- { 111,-7721 }, { 112,-7721 }, { 113,-7721 }, { 114,-7721 }, { 115,-7721 },
- { 116,-7721 }, { 117,-7721 }, { 118,-7721 }, { 119,-7721 }, { 120,-7721 },
- { 121,-7721 }, { 122,-7721 }, {   0,   0 }, { 124,-7746 }, { 125,-7746 },
- { 126,-7746 }, { 127,-7721 }, { 128,-7721 }, { 129,-7721 }, { 130,-7721 },
-
- { 131,-7721 }, { 132,-7721 }, { 133,-7721 }, { 134,-7721 }, { 135,-7721 },
- { 136,-7721 }, { 137,-7721 }, { 138,-7721 }, { 139,-7721 }, { 140,-7721 },
- { 141,-7721 }, { 142,-7721 }, { 143,-7721 }, { 144,-7721 }, { 145,-7721 },
- { 146,-7721 }, { 147,-7721 }, { 148,-7721 }, { 149,-7721 }, { 150,-7721 },
- { 151,-7721 }, { 152,-7721 }, { 153,-7721 }, { 154,-7721 }, { 155,-7721 },
- { 156,-7721 }, { 157,-7721 }, { 158,-7721 }, { 159,-7721 }, { 160,-7721 },
- { 161,-7721 }, { 162,-7721 }, { 163,-7721 }, { 164,-7721 }, { 165,-7721 },
- { 166,-7721 }, { 167,-7721 }, { 168,-7721 }, { 169,-7721 }, { 170,-7721 },
- { 171,-7721 }, { 172,-7721 }, { 173,-7721 }, { 174,-7721 }, { 175,-7721 },
- { 176,-7721 }, { 177,-7721 }, { 178,-7721 }, { 179,-7721 }, { 180,-7721 },
-
- { 181,-7721 }, { 182,-7721 }, { 183,-7721 }, { 184,-7721 }, { 185,-7721 },
- { 186,-7721 }, { 187,-7721 }, { 188,-7721 }, { 189,-7721 }, { 190,-7721 },
- { 191,-7721 }, { 192,-7721 }, { 193,-7721 }, { 194,-7721 }, { 195,-7721 },
- { 196,-7721 }, { 197,-7721 }, { 198,-7721 }, { 199,-7721 }, { 200,-7721 },
- { 201,-7721 }, { 202,-7721 }, { 203,-7721 }, { 204,-7721 }, { 205,-7721 },
- { 206,-7721 }, { 207,-7721 }, { 208,-7721 }, { 209,-7721 }, { 210,-7721 },
- { 211,-7721 }, { 212,-7721 }, { 213,-7721 }, { 214,-7721 }, { 215,-7721 },
- { 216,-7721 }, { 217,-7721 }, { 218,-7721 }, { 219,-7721 }, { 220,-7721 },
- { 221,-7721 }, { 222,-7721 }, { 223,-7721 }, { 224,-7721 }, { 225,-7721 },
- { 226,-7721 }, { 227,-7721 }, { 228,-7721 }, { 229,-7721 }, { 230,-7721 },
-
- { 231,-7721 }, { 232,-7721 }, { 233,-7721 }, { 234,-7721 }, { 235,-7721 },
- { 236,-7721 }, { 237,-7721 }, { 238,-7721 }, { 239,-7721 }, { 240,-7721 },
- { 241,-7721 }, { 242,-7721 }, { 243,-7721 }, { 244,-7721 }, { 245,-7721 },
- { 246,-7721 }, { 247,-7721 }, { 248,-7721 }, { 249,-7721 }, { 250,-7721 },
- { 251,-7721 }, { 252,-7721 }, { 253,-7721 }, { 254,-7721 }, { 255,-7721 },
- { 256,-7721 }, {   0,   0 }, {   0,5454 }, {   1,-7979 }, {   2,-7979 },
- {   3,-7979 }, {   4,-7979 }, {   5,-7979 }, {   6,-7979 }, {   7,-7979 },
- {   8,-7979 }, {   9,1683 }, {  10,1683 }, {  11,-7979 }, {  12,-7979 },
- {  13,1683 }, {  14,-7979 }, {  15,-7979 }, {  16,-7979 }, {  17,-7979 },
- {  18,-7979 }, {  19,-7979 }, {  20,-7979 }, {  21,-7979 }, {  22,-7979 },
-
- {  23,-7979 }, {  24,-7979 }, {  25,-7979 }, {  26,-7979 }, {  27,-7979 },
- {  28,-7979 }, {  29,-7979 }, {  30,-7979 }, {  31,-7979 }, {  32,1683 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7979 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1683 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-7979 }, {  46,-8004 }, {  47,-8004 },
- {  48,-7979 }, {  49,-7979 }, {  50,-7979 }, {  51,-7979 }, {  52,-7979 },
- {  53,-7979 }, {  54,-7979 }, {  55,-7979 }, {  56,-7979 }, {  57,-7979 },
- {  58,-7979 }, {   0,   0 }, {   0,   0 }, {  61,-8004 }, {   0,   0 },
- {  63,-7979 }, {   0,   0 }, {  65,-7979 }, {  66,-7979 }, {  67,-7979 },
- {  68,-7979 }, {  69,-7979 }, {  70,-7979 }, {  71,-7979 }, {  72,-7979 },
-
- {  73,-7979 }, {  74,-7979 }, {  75,-7979 }, {  76,-7979 }, {  77,-7979 },
- {  78,-7979 }, {  79,-7979 }, {  80,-7979 }, {  81,-7979 }, {  82,-7979 },
- {  83,-7979 }, {  84,-7979 }, {  85,-7979 }, {  86,-7979 }, {  87,-7979 },
- {  88,-7979 }, {  89,-7979 }, {  90,-7979 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-7979 }, {   0,   0 }, {  97,-7979 },
- {  98,-7979 }, {  99,-7979 }, { 100,-7979 }, { 101,-7979 }, { 102,-7979 },
- { 103,-7979 }, { 104,-7979 }, { 105,-7979 }, { 106,-7979 }, { 107,-7979 },
- { 108,-7979 }, { 109,-7979 }, { 110,-7979 }, { 111,-7979 }, { 112,-7979 },
- { 113,-7979 }, { 114,-7979 }, { 115,-7979 }, { 116,-7979 }, { 117,-7979 },
- { 118,-7979 }, { 119,-7979 }, { 120,-7979 }, { 121,-7979 }, { 122,-7979 },
-
- {   0,   0 }, { 124,-8004 }, { 125,1683 }, { 126,1683 }, { 127,-7979 },
- { 128,-7979 }, { 129,-7979 }, { 130,-7979 }, { 131,-7979 }, { 132,-7979 },
- { 133,-7979 }, { 134,-7979 }, { 135,-7979 }, { 136,-7979 }, { 137,-7979 },
- { 138,-7979 }, { 139,-7979 }, { 140,-7979 }, { 141,-7979 }, { 142,-7979 },
- { 143,-7979 }, { 144,-7979 }, { 145,-7979 }, { 146,-7979 }, { 147,-7979 },
- { 148,-7979 }, { 149,-7979 }, { 150,-7979 }, { 151,-7979 }, { 152,-7979 },
- { 153,-7979 }, { 154,-7979 }, { 155,-7979 }, { 156,-7979 }, { 157,-7979 },
- { 158,-7979 }, { 159,-7979 }, { 160,-7979 }, { 161,-7979 }, { 162,-7979 },
- { 163,-7979 }, { 164,-7979 }, { 165,-7979 }, { 166,-7979 }, { 167,-7979 },
- { 168,-7979 }, { 169,-7979 }, { 170,-7979 }, { 171,-7979 }, { 172,-7979 },
-
- { 173,-7979 }, { 174,-7979 }, { 175,-7979 }, { 176,-7979 }, { 177,-7979 },
- { 178,-7979 }, { 179,-7979 }, { 180,-7979 }, { 181,-7979 }, { 182,-7979 },
- { 183,-7979 }, { 184,-7979 }, { 185,-7979 }, { 186,-7979 }, { 187,-7979 },
- { 188,-7979 }, { 189,-7979 }, { 190,-7979 }, { 191,-7979 }, { 192,-7979 },
- { 193,-7979 }, { 194,-7979 }, { 195,-7979 }, { 196,-7979 }, { 197,-7979 },
- { 198,-7979 }, { 199,-7979 }, { 200,-7979 }, { 201,-7979 }, { 202,-7979 },
- { 203,-7979 }, { 204,-7979 }, { 205,-7979 }, { 206,-7979 }, { 207,-7979 },
- { 208,-7979 }, { 209,-7979 }, { 210,-7979 }, { 211,-7979 }, { 212,-7979 },
- { 213,-7979 }, { 214,-7979 }, { 215,-7979 }, { 216,-7979 }, { 217,-7979 },
- { 218,-7979 }, { 219,-7979 }, { 220,-7979 }, { 221,-7979 }, { 222,-7979 },
-
- { 223,-7979 }, { 224,-7979 }, { 225,-7979 }, { 226,-7979 }, { 227,-7979 },
- { 228,-7979 }, { 229,-7979 }, { 230,-7979 }, { 231,-7979 }, { 232,-7979 },
- { 233,-7979 }, { 234,-7979 }, { 235,-7979 }, { 236,-7979 }, { 237,-7979 },
- { 238,-7979 }, { 239,-7979 }, { 240,-7979 }, { 241,-7979 }, { 242,-7979 },
- { 243,-7979 }, { 244,-7979 }, { 245,-7979 }, { 246,-7979 }, { 247,-7979 },
- { 248,-7979 }, { 249,-7979 }, { 250,-7979 }, { 251,-7979 }, { 252,-7979 },
- { 253,-7979 }, { 254,-7979 }, { 255,-7979 }, { 256,-7979 }, {   0,   0 },
- {   0,5196 }, {   1,-8237 }, {   2,-8237 }, {   3,-8237 }, {   4,-8237 },
- {   5,-8237 }, {   6,-8237 }, {   7,-8237 }, {   8,-8237 }, {   9,1427 },
- {  10,1427 }, {  11,-8237 }, {  12,-8237 }, {  13,1427 }, {  14,-8237 },
-
- {  15,-8237 }, {  16,-8237 }, {  17,-8237 }, {  18,-8237 }, {  19,-8237 },
- {  20,-8237 }, {  21,-8237 }, {  22,-8237 }, {  23,-8237 }, {  24,-8237 },
- {  25,-8237 }, {  26,-8237 }, {  27,-8237 }, {  28,-8237 }, {  29,-8237 },
- {  30,-8237 }, {  31,-8237 }, {  32,1427 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-8237 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,1427 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-8237 }, {  46,-8262 }, {  47,-8262 }, {  48,-8237 }, {  49,-8237 },
- {  50,-8237 }, {  51,-8237 }, {  52,-8237 }, {  53,-8237 }, {  54,-8237 },
- {  55,-8237 }, {  56,-8237 }, {  57,-8237 }, {  58,-8237 }, {   0,   0 },
- {   0,   0 }, {  61,-8262 }, {   0,   0 }, {  63,-8237 }, {   0,   0 },
-
- {  65,-8237 }, {  66,-8237 }, {  67,-8237 }, {  68,-8237 }, {  69,-8237 },
- {  70,-8237 }, {  71,-8237 }, {  72,-8237 }, {  73,-8237 }, {  74,-8237 },
- {  75,-8237 }, {  76,-8237 }, {  77,-8237 }, {  78,-8237 }, {  79,-8237 },
- {  80,-8237 }, {  81,-8237 }, {  82,-8237 }, {  83,-8237 }, {  84,-8237 },
- {  85,-8237 }, {  86,-8237 }, {  87,-8237 }, {  88,-8237 }, {  89,-8237 },
- {  90,-8237 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-8237 }, {   0,   0 }, {  97,-8237 }, {  98,-8237 }, {  99,-8237 },
- { 100,-8237 }, { 101,-8237 }, { 102,-8237 }, { 103,-8237 }, { 104,-8237 },
- { 105,-8237 }, { 106,-8237 }, { 107,-8237 }, { 108,-8237 }, { 109,-8237 },
- { 110,-8237 }, { 111,-8237 }, { 112,-8237 }, { 113,-8237 }, { 114,-8237 },
-
- { 115,-8237 }, { 116,-8237 }, { 117,-8237 }, { 118,-8237 }, { 119,-8237 },
- { 120,-8237 }, { 121,-8237 }, { 122,-8237 }, {   0,   0 }, { 124,-8262 },
- { 125,1427 }, { 126,1427 }, { 127,-8237 }, { 128,-8237 }, { 129,-8237 },
- { 130,-8237 }, { 131,-8237 }, { 132,-8237 }, { 133,-8237 }, { 134,-8237 },
- { 135,-8237 }, { 136,-8237 }, { 137,-8237 }, { 138,-8237 }, { 139,-8237 },
- { 140,-8237 }, { 141,-8237 }, { 142,-8237 }, { 143,-8237 }, { 144,-8237 },
- { 145,-8237 }, { 146,-8237 }, { 147,-8237 }, { 148,-8237 }, { 149,-8237 },
- { 150,-8237 }, { 151,-8237 }, { 152,-8237 }, { 153,-8237 }, { 154,-8237 },
- { 155,-8237 }, { 156,-8237 }, { 157,-8237 }, { 158,-8237 }, { 159,-8237 },
- { 160,-8237 }, { 161,-8237 }, { 162,-8237 }, { 163,-8237 }, { 164,-8237 },
-
- { 165,-8237 }, { 166,-8237 }, { 167,-8237 }, { 168,-8237 }, { 169,-8237 },
- { 170,-8237 }, { 171,-8237 }, { 172,-8237 }, { 173,-8237 }, { 174,-8237 },
- { 175,-8237 }, { 176,-8237 }, { 177,-8237 }, { 178,-8237 }, { 179,-8237 },
- { 180,-8237 }, { 181,-8237 }, { 182,-8237 }, { 183,-8237 }, { 184,-8237 },
- { 185,-8237 }, { 186,-8237 }, { 187,-8237 }, { 188,-8237 }, { 189,-8237 },
- { 190,-8237 }, { 191,-8237 }, { 192,-8237 }, { 193,-8237 }, { 194,-8237 },
- { 195,-8237 }, { 196,-8237 }, { 197,-8237 }, { 198,-8237 }, { 199,-8237 },
- { 200,-8237 }, { 201,-8237 }, { 202,-8237 }, { 203,-8237 }, { 204,-8237 },
- { 205,-8237 }, { 206,-8237 }, { 207,-8237 }, { 208,-8237 }, { 209,-8237 },
- { 210,-8237 }, { 211,-8237 }, { 212,-8237 }, { 213,-8237 }, { 214,-8237 },
-
- { 215,-8237 }, { 216,-8237 }, { 217,-8237 }, { 218,-8237 }, { 219,-8237 },
- { 220,-8237 }, { 221,-8237 }, { 222,-8237 }, { 223,-8237 }, { 224,-8237 },
- { 225,-8237 }, { 226,-8237 }, { 227,-8237 }, { 228,-8237 }, { 229,-8237 },
- { 230,-8237 }, { 231,-8237 }, { 232,-8237 }, { 233,-8237 }, { 234,-8237 },
- { 235,-8237 }, { 236,-8237 }, { 237,-8237 }, { 238,-8237 }, { 239,-8237 },
- { 240,-8237 }, { 241,-8237 }, { 242,-8237 }, { 243,-8237 }, { 244,-8237 },
- { 245,-8237 }, { 246,-8237 }, { 247,-8237 }, { 248,-8237 }, { 249,-8237 },
- { 250,-8237 }, { 251,-8237 }, { 252,-8237 }, { 253,-8237 }, { 254,-8237 },
- { 255,-8237 }, { 256,-8237 }, {   0,   0 }, {   0,4938 }, {   1,-8495 },
- {   2,-8495 }, {   3,-8495 }, {   4,-8495 }, {   5,-8495 }, {   6,-8495 },
-
- {   7,-8495 }, {   8,-8495 }, {   9,-8520 }, {  10,-8520 }, {  11,-8495 },
- {  12,-8495 }, {  13,-8520 }, {  14,-8495 }, {  15,-8495 }, {  16,-8495 },
- {  17,-8495 }, {  18,-8495 }, {  19,-8495 }, {  20,-8495 }, {  21,-8495 },
- {  22,-8495 }, {  23,-8495 }, {  24,-8495 }, {  25,-8495 }, {  26,-8495 },
- {  27,-8495 }, {  28,-8495 }, {  29,-8495 }, {  30,-8495 }, {  31,-8495 },
- {  32,-8520 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-8495 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-8520 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8495 }, {  46,-8520 },
- {  47,-8520 }, {  48,-8495 }, {  49,-8495 }, {  50,-8495 }, {  51,-8495 },
- {  52,-8495 }, {  53,-8495 }, {  54,-8495 }, {  55,-8495 }, {  56,-8495 },
-
- {  57,-8495 }, {  58,-8495 }, {   0,   0 }, {   0,   0 }, {  61,-8520 },
- {   0,   0 }, {  63,-8495 }, {   0,   0 }, {  65,-8495 }, {  66,-8495 },
- {  67,-8495 }, {  68,-8495 }, {  69,-8495 }, {  70,-8495 }, {  71,-8495 },
- {  72,-8495 }, {  73,-8495 }, {  74,-8495 }, {  75,-8495 }, {  76,-8495 },
- {  77,-8495 }, {  78,-8495 }, {  79,-8495 }, {  80,-8495 }, {  81,-8495 },
- {  82,-8495 }, {  83,-8495 }, {  84,-8495 }, {  85,-8495 }, {  86,-8495 },
- {  87,-8495 }, {  88,-8495 }, {  89,-8495 }, {  90,-8495 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-8495 }, {   0,   0 },
- {  97,-8495 }, {  98,-8495 }, {  99,-8495 }, { 100,-8495 }, { 101,-8495 },
- { 102,1448 }, { 103,-8495 }, { 104,-8495 }, { 105,-8495 }, { 106,-8495 },
-
- { 107,-8495 }, { 108,-8495 }, { 109,-8495 }, { 110,-8495 }, { 111,-8495 },
- { 112,-8495 }, { 113,-8495 }, { 114,-8495 }, { 115,-8495 }, { 116,-8495 },
- { 117,-8495 }, { 118,-8495 }, { 119,-8495 }, { 120,-8495 }, { 121,-8495 },
- { 122,-8495 }, {   0,   0 }, { 124,-8520 }, { 125,-8520 }, { 126,-8520 },
- { 127,-8495 }, { 128,-8495 }, { 129,-8495 }, { 130,-8495 }, { 131,-8495 },
- { 132,-8495 }, { 133,-8495 }, { 134,-8495 }, { 135,-8495 }, { 136,-8495 },
- { 137,-8495 }, { 138,-8495 }, { 139,-8495 }, { 140,-8495 }, { 141,-8495 },
- { 142,-8495 }, { 143,-8495 }, { 144,-8495 }, { 145,-8495 }, { 146,-8495 },
- { 147,-8495 }, { 148,-8495 }, { 149,-8495 }, { 150,-8495 }, { 151,-8495 },
- { 152,-8495 }, { 153,-8495 }, { 154,-8495 }, { 155,-8495 }, { 156,-8495 },
-
- { 157,-8495 }, { 158,-8495 }, { 159,-8495 }, { 160,-8495 }, { 161,-8495 },
- { 162,-8495 }, { 163,-8495 }, { 164,-8495 }, { 165,-8495 }, { 166,-8495 },
- { 167,-8495 }, { 168,-8495 }, { 169,-8495 }, { 170,-8495 }, { 171,-8495 },
- { 172,-8495 }, { 173,-8495 }, { 174,-8495 }, { 175,-8495 }, { 176,-8495 },
- { 177,-8495 }, { 178,-8495 }, { 179,-8495 }, { 180,-8495 }, { 181,-8495 },
- { 182,-8495 }, { 183,-8495 }, { 184,-8495 }, { 185,-8495 }, { 186,-8495 },
- { 187,-8495 }, { 188,-8495 }, { 189,-8495 }, { 190,-8495 }, { 191,-8495 },
- { 192,-8495 }, { 193,-8495 }, { 194,-8495 }, { 195,-8495 }, { 196,-8495 },
- { 197,-8495 }, { 198,-8495 }, { 199,-8495 }, { 200,-8495 }, { 201,-8495 },
- { 202,-8495 }, { 203,-8495 }, { 204,-8495 }, { 205,-8495 }, { 206,-8495 },
-
- { 207,-8495 }, { 208,-8495 }, { 209,-8495 }, { 210,-8495 }, { 211,-8495 },
- { 212,-8495 }, { 213,-8495 }, { 214,-8495 }, { 215,-8495 }, { 216,-8495 },
- { 217,-8495 }, { 218,-8495 }, { 219,-8495 }, { 220,-8495 }, { 221,-8495 },
- { 222,-8495 }, { 223,-8495 }, { 224,-8495 }, { 225,-8495 }, { 226,-8495 },
- { 227,-8495 }, { 228,-8495 }, { 229,-8495 }, { 230,-8495 }, { 231,-8495 },
- { 232,-8495 }, { 233,-8495 }, { 234,-8495 }, { 235,-8495 }, { 236,-8495 },
- { 237,-8495 }, { 238,-8495 }, { 239,-8495 }, { 240,-8495 }, { 241,-8495 },
- { 242,-8495 }, { 243,-8495 }, { 244,-8495 }, { 245,-8495 }, { 246,-8495 },
- { 247,-8495 }, { 248,-8495 }, { 249,-8495 }, { 250,-8495 }, { 251,-8495 },
- { 252,-8495 }, { 253,-8495 }, { 254,-8495 }, { 255,-8495 }, { 256,-8495 },
-
- {   0,   0 }, {   0,4680 }, {   0,   0 }, {   0,4678 }, {   0,   0 },
- {   0,4676 }, {   0,   0 }, {   0,4674 }, {   0,   0 }, {   0,4672 },
- {   0,  16 }, {   0,4670 }, {   0,  26 }, {   0,4668 }, {   0,  17 },
- {   0,4666 }, {   0,  36 }, {   0,4664 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+ { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
+ { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
+ { 254,   0 }, { 255,   0 }, {   0,   4 }, {   0,5711 }, {   1,-257 },
+ {   2,-257 }, {   3,-257 }, {   4,-257 }, {   5,-257 }, {   6,-257 },
+ {   7,-257 }, {   8,-257 }, {   9,-257 }, {  10,-380 }, {  11,-257 },
+ {  12,-257 }, {  13,-380 }, {  14,-257 }, {  15,-257 }, {  16,-257 },
+ {  17,-257 }, {  18,-257 }, {  19,-257 }, {  20,-257 }, {  21,-257 },
+ {  22,-257 }, {  23,-257 }, {  24,-257 }, {  25,-257 }, {  26,-257 },
+ {  27,-257 }, {  28,-257 }, {  29,-257 }, {  30,-257 }, {  31,-257 },
+
+ {  32,-257 }, {  33,-257 }, {  34,-257 }, {  35,-257 }, {  36,-257 },
+ {  37,-257 }, {  38,-257 }, {  39,-257 }, {  40,-257 }, {  41,-257 },
+ {  42,-257 }, {  43,-257 }, {  44,-257 }, {  45,-257 }, {  46,-257 },
+ {  47,-257 }, {  48,-257 }, {  49,-257 }, {  50,-257 }, {  51,-257 },
+ {  52,-257 }, {  53,-257 }, {  54,-257 }, {  55,-257 }, {  56,-257 },
+ {  57,-257 }, {  58,-257 }, {  59,-257 }, {  60,-257 }, {  61,-257 },
+ {  62,-257 }, {  63,-257 }, {  64,-257 }, {  65,-257 }, {  66,-257 },
+ {  67,-257 }, {  68,-257 }, {  69,-257 }, {  70,-257 }, {  71,-257 },
+ {  72,-257 }, {  73,-257 }, {  74,-257 }, {  75,-257 }, {  76,-257 },
+ {  77,-257 }, {  78,-257 }, {  79,-257 }, {  80,-257 }, {  81,-257 },
+
+ {  82,-257 }, {  83,-257 }, {  84,-257 }, {  85,-257 }, {  86,-257 },
+ {  87,-257 }, {  88,-257 }, {  89,-257 }, {  90,-257 }, {  91,-257 },
+ {   0,   0 }, {  93,-257 }, {  94,-257 }, {  95,-257 }, {  96,-257 },
+ {  97,-257 }, {  98,-257 }, {  99,-257 }, { 100,-257 }, { 101,-257 },
+ { 102,-257 }, { 103,-257 }, { 104,-257 }, { 105,-257 }, { 106,-257 },
+ { 107,-257 }, { 108,-257 }, { 109,-257 }, { 110,-257 }, { 111,-257 },
+ { 112,-257 }, { 113,-257 }, { 114,-257 }, { 115,-257 }, { 116,-257 },
+ { 117,-257 }, { 118,-257 }, { 119,-257 }, { 120,-257 }, { 121,-257 },
+ { 122,-257 }, {   0,   0 }, { 124,-257 }, { 125,-257 }, { 126,-257 },
+ { 127,-257 }, { 128,-257 }, { 129,-257 }, { 130,-257 }, { 131,-257 },
+
+ { 132,-257 }, { 133,-257 }, { 134,-257 }, { 135,-257 }, { 136,-257 },
+ { 137,-257 }, { 138,-257 }, { 139,-257 }, { 140,-257 }, { 141,-257 },
+ { 142,-257 }, { 143,-257 }, { 144,-257 }, { 145,-257 }, { 146,-257 },
+ { 147,-257 }, { 148,-257 }, { 149,-257 }, { 150,-257 }, { 151,-257 },
+ { 152,-257 }, { 153,-257 }, { 154,-257 }, { 155,-257 }, { 156,-257 },
+ { 157,-257 }, { 158,-257 }, { 159,-257 }, { 160,-257 }, { 161,-257 },
+ { 162,-257 }, { 163,-257 }, { 164,-257 }, { 165,-257 }, { 166,-257 },
+ { 167,-257 }, { 168,-257 }, { 169,-257 }, { 170,-257 }, { 171,-257 },
+ { 172,-257 }, { 173,-257 }, { 174,-257 }, { 175,-257 }, { 176,-257 },
+ { 177,-257 }, { 178,-257 }, { 179,-257 }, { 180,-257 }, { 181,-257 },
+
+ { 182,-257 }, { 183,-257 }, { 184,-257 }, { 185,-257 }, { 186,-257 },
+ { 187,-257 }, { 188,-257 }, { 189,-257 }, { 190,-257 }, { 191,-257 },
+ { 192,-257 }, { 193,-257 }, { 194,-257 }, { 195,-257 }, { 196,-257 },
+ { 197,-257 }, { 198,-257 }, { 199,-257 }, { 200,-257 }, { 201,-257 },
+ { 202,-257 }, { 203,-257 }, { 204,-257 }, { 205,-257 }, { 206,-257 },
+ { 207,-257 }, { 208,-257 }, { 209,-257 }, { 210,-257 }, { 211,-257 },
+ { 212,-257 }, { 213,-257 }, { 214,-257 }, { 215,-257 }, { 216,-257 },
+ { 217,-257 }, { 218,-257 }, { 219,-257 }, { 220,-257 }, { 221,-257 },
+ { 222,-257 }, { 223,-257 }, { 224,-257 }, { 225,-257 }, { 226,-257 },
+ { 227,-257 }, { 228,-257 }, { 229,-257 }, { 230,-257 }, { 231,-257 },
+
+ { 232,-257 }, { 233,-257 }, { 234,-257 }, { 235,-257 }, { 236,-257 },
+ { 237,-257 }, { 238,-257 }, { 239,-257 }, { 240,-257 }, { 241,-257 },
+ { 242,-257 }, { 243,-257 }, { 244,-257 }, { 245,-257 }, { 246,-257 },
+ { 247,-257 }, { 248,-257 }, { 249,-257 }, { 250,-257 }, { 251,-257 },
+ { 252,-257 }, { 253,-257 }, { 254,-257 }, { 255,-257 }, {   0,   0 },
+ {   0,5454 }, {   1,-7727 }, {   2,-7727 }, {   3,-7727 }, {   4,-7727 },
+ {   5,-7727 }, {   6,-7727 }, {   7,-7727 }, {   8,-7727 }, {   9,-7752 },
+ {  10,-7752 }, {  11,-7727 }, {  12,-7727 }, {  13,-7752 }, {  14,-7727 },
+ {  15,-7727 }, {  16,-7727 }, {  17,-7727 }, {  18,-7727 }, {  19,-7727 },
+ {  20,-7727 }, {  21,-7727 }, {  22,-7727 }, {  23,-7727 }, {  24,-7727 },
+
+ {  25,-7727 }, {  26,-7727 }, {  27,-7727 }, {  28,-7727 }, {  29,-7727 },
+ {  30,-7727 }, {  31,-7727 }, {  32,-7752 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-7727 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-7752 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-7727 }, {  46,-7752 }, {  47,-7752 }, {  48,-7727 }, {  49,-7727 },
+ {  50,-7727 }, {  51,-7727 }, {  52,-7727 }, {  53,-7727 }, {  54,-7727 },
+ {  55,-7727 }, {  56,-7727 }, {  57,-7727 }, {  58,-7727 }, {   0,   0 },
+ {   0,   0 }, {  61,-7752 }, {   0,   0 }, {  63,-7727 }, {   0,   0 },
+ {  65,-7727 }, {  66,-7727 }, {  67,-7727 }, {  68,-7727 }, {  69,-7727 },
+ {  70,-7727 }, {  71,-7727 }, {  72,-7727 }, {  73,-7727 }, {  74,-7727 },
+
+ {  75,-7727 }, {  76,-7727 }, {  77,-7727 }, {  78,-7727 }, {  79,-7727 },
+ {  80,-7727 }, {  81,-7727 }, {  82,-7727 }, {  83,-7727 }, {  84,-7727 },
+ {  85,-7727 }, {  86,-7727 }, {  87,-7727 }, {  88,-7727 }, {  89,-7727 },
+ {  90,-7727 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-7727 }, {   0,   0 }, {  97,-7727 }, {  98,-7727 }, {  99,-7727 },
+ { 100,-7727 }, { 101,1962 }, { 102,-7727 }, { 103,-7727 }, { 104,-7727 },
+ { 105,-7727 }, { 106,-7727 }, { 107,-7727 }, { 108,-7727 }, { 109,-7727 },
+ { 110,-7727 }, { 111,-7727 }, { 112,-7727 }, { 113,-7727 }, { 114,-7727 },
+ { 115,-7727 }, { 116,-7727 }, { 117,-7727 }, { 118,-7727 }, { 119,-7727 },
+ { 120,-7727 }, { 121,-7727 }, { 122,-7727 }, {   0,   0 }, { 124,-7752 },
+
+ { 125,-7752 }, { 126,-7752 }, { 127,-7727 }, { 128,-7727 }, { 129,-7727 },
+ { 130,-7727 }, { 131,-7727 }, { 132,-7727 }, { 133,-7727 }, { 134,-7727 },
+ { 135,-7727 }, { 136,-7727 }, { 137,-7727 }, { 138,-7727 }, { 139,-7727 },
+ { 140,-7727 }, { 141,-7727 }, { 142,-7727 }, { 143,-7727 }, { 144,-7727 },
+ { 145,-7727 }, { 146,-7727 }, { 147,-7727 }, { 148,-7727 }, { 149,-7727 },
+ { 150,-7727 }, { 151,-7727 }, { 152,-7727 }, { 153,-7727 }, { 154,-7727 },
+ { 155,-7727 }, { 156,-7727 }, { 157,-7727 }, { 158,-7727 }, { 159,-7727 },
+ { 160,-7727 }, { 161,-7727 }, { 162,-7727 }, { 163,-7727 }, { 164,-7727 },
+ { 165,-7727 }, { 166,-7727 }, { 167,-7727 }, { 168,-7727 }, { 169,-7727 },
+ { 170,-7727 }, { 171,-7727 }, { 172,-7727 }, { 173,-7727 }, { 174,-7727 },
+
+ { 175,-7727 }, { 176,-7727 }, { 177,-7727 }, { 178,-7727 }, { 179,-7727 },
+ { 180,-7727 }, { 181,-7727 }, { 182,-7727 }, { 183,-7727 }, { 184,-7727 },
+ { 185,-7727 }, { 186,-7727 }, { 187,-7727 }, { 188,-7727 }, { 189,-7727 },
+ { 190,-7727 }, { 191,-7727 }, { 192,-7727 }, { 193,-7727 }, { 194,-7727 },
+ { 195,-7727 }, { 196,-7727 }, { 197,-7727 }, { 198,-7727 }, { 199,-7727 },
+ { 200,-7727 }, { 201,-7727 }, { 202,-7727 }, { 203,-7727 }, { 204,-7727 },
+ { 205,-7727 }, { 206,-7727 }, { 207,-7727 }, { 208,-7727 }, { 209,-7727 },
+ { 210,-7727 }, { 211,-7727 }, { 212,-7727 }, { 213,-7727 }, { 214,-7727 },
+ { 215,-7727 }, { 216,-7727 }, { 217,-7727 }, { 218,-7727 }, { 219,-7727 },
+ { 220,-7727 }, { 221,-7727 }, { 222,-7727 }, { 223,-7727 }, { 224,-7727 },
+
+ { 225,-7727 }, { 226,-7727 }, { 227,-7727 }, { 228,-7727 }, { 229,-7727 },
+ { 230,-7727 }, { 231,-7727 }, { 232,-7727 }, { 233,-7727 }, { 234,-7727 },
+ { 235,-7727 }, { 236,-7727 }, { 237,-7727 }, { 238,-7727 }, { 239,-7727 },
+ { 240,-7727 }, { 241,-7727 }, { 242,-7727 }, { 243,-7727 }, { 244,-7727 },
+ { 245,-7727 }, { 246,-7727 }, { 247,-7727 }, { 248,-7727 }, { 249,-7727 },
+ { 250,-7727 }, { 251,-7727 }, { 252,-7727 }, { 253,-7727 }, { 254,-7727 },
+ { 255,-7727 }, { 256,-7727 }, {   0,   0 }, {   0,5196 }, {   1,-7985 },
+ {   2,-7985 }, {   3,-7985 }, {   4,-7985 }, {   5,-7985 }, {   6,-7985 },
+ {   7,-7985 }, {   8,-7985 }, {   9,1681 }, {  10,1681 }, {  11,-7985 },
+ {  12,-7985 }, {  13,1681 }, {  14,-7985 }, {  15,-7985 }, {  16,-7985 },
+
+ {  17,-7985 }, {  18,-7985 }, {  19,-7985 }, {  20,-7985 }, {  21,-7985 },
+ {  22,-7985 }, {  23,-7985 }, {  24,-7985 }, {  25,-7985 }, {  26,-7985 },
+ {  27,-7985 }, {  28,-7985 }, {  29,-7985 }, {  30,-7985 }, {  31,-7985 },
+ {  32,1681 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7985 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1681 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7985 }, {  46,-8010 },
+ {  47,-8010 }, {  48,-7985 }, {  49,-7985 }, {  50,-7985 }, {  51,-7985 },
+ {  52,-7985 }, {  53,-7985 }, {  54,-7985 }, {  55,-7985 }, {  56,-7985 },
+ {  57,-7985 }, {  58,-7985 }, {   0,   0 }, {   0,   0 }, {  61,-8010 },
+ {   0,   0 }, {  63,-7985 }, {   0,   0 }, {  65,-7985 }, {  66,-7985 },
+
+ {  67,-7985 }, {  68,-7985 }, {  69,-7985 }, {  70,-7985 }, {  71,-7985 },
+ {  72,-7985 }, {  73,-7985 }, {  74,-7985 }, {  75,-7985 }, {  76,-7985 },
+ {  77,-7985 }, {  78,-7985 }, {  79,-7985 }, {  80,-7985 }, {  81,-7985 },
+ {  82,-7985 }, {  83,-7985 }, {  84,-7985 }, {  85,-7985 }, {  86,-7985 },
+ {  87,-7985 }, {  88,-7985 }, {  89,-7985 }, {  90,-7985 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7985 }, {   0,   0 },
+ {  97,-7985 }, {  98,-7985 }, {  99,-7985 }, { 100,-7985 }, { 101,-7985 },
+ { 102,-7985 }, { 103,-7985 }, { 104,-7985 }, { 105,-7985 }, { 106,-7985 },
+ { 107,-7985 }, { 108,-7985 }, { 109,-7985 }, { 110,-7985 }, { 111,-7985 },
+ { 112,-7985 }, { 113,-7985 }, { 114,-7985 }, { 115,-7985 }, { 116,-7985 },
+
+ { 117,-7985 }, { 118,-7985 }, { 119,-7985 }, { 120,-7985 }, { 121,-7985 },
+ { 122,-7985 }, {   0,   0 }, { 124,-8010 }, { 125,1681 }, { 126,1681 },
+ { 127,-7985 }, { 128,-7985 }, { 129,-7985 }, { 130,-7985 }, { 131,-7985 },
+ { 132,-7985 }, { 133,-7985 }, { 134,-7985 }, { 135,-7985 }, { 136,-7985 },
+ { 137,-7985 }, { 138,-7985 }, { 139,-7985 }, { 140,-7985 }, { 141,-7985 },
+ { 142,-7985 }, { 143,-7985 }, { 144,-7985 }, { 145,-7985 }, { 146,-7985 },
+ { 147,-7985 }, { 148,-7985 }, { 149,-7985 }, { 150,-7985 }, { 151,-7985 },
+ { 152,-7985 }, { 153,-7985 }, { 154,-7985 }, { 155,-7985 }, { 156,-7985 },
+ { 157,-7985 }, { 158,-7985 }, { 159,-7985 }, { 160,-7985 }, { 161,-7985 },
+ { 162,-7985 }, { 163,-7985 }, { 164,-7985 }, { 165,-7985 }, { 166,-7985 },
+
+ { 167,-7985 }, { 168,-7985 }, { 169,-7985 }, { 170,-7985 }, { 171,-7985 },
+ { 172,-7985 }, { 173,-7985 }, { 174,-7985 }, { 175,-7985 }, { 176,-7985 },
+ { 177,-7985 }, { 178,-7985 }, { 179,-7985 }, { 180,-7985 }, { 181,-7985 },
+ { 182,-7985 }, { 183,-7985 }, { 184,-7985 }, { 185,-7985 }, { 186,-7985 },
+ { 187,-7985 }, { 188,-7985 }, { 189,-7985 }, { 190,-7985 }, { 191,-7985 },
+ { 192,-7985 }, { 193,-7985 }, { 194,-7985 }, { 195,-7985 }, { 196,-7985 },
+ { 197,-7985 }, { 198,-7985 }, { 199,-7985 }, { 200,-7985 }, { 201,-7985 },
+ { 202,-7985 }, { 203,-7985 }, { 204,-7985 }, { 205,-7985 }, { 206,-7985 },
+ { 207,-7985 }, { 208,-7985 }, { 209,-7985 }, { 210,-7985 }, { 211,-7985 },
+ { 212,-7985 }, { 213,-7985 }, { 214,-7985 }, { 215,-7985 }, { 216,-7985 },
+
+ { 217,-7985 }, { 218,-7985 }, { 219,-7985 }, { 220,-7985 }, { 221,-7985 },
+ { 222,-7985 }, { 223,-7985 }, { 224,-7985 }, { 225,-7985 }, { 226,-7985 },
+ { 227,-7985 }, { 228,-7985 }, { 229,-7985 }, { 230,-7985 }, { 231,-7985 },
+ { 232,-7985 }, { 233,-7985 }, { 234,-7985 }, { 235,-7985 }, { 236,-7985 },
+ { 237,-7985 }, { 238,-7985 }, { 239,-7985 }, { 240,-7985 }, { 241,-7985 },
+ { 242,-7985 }, { 243,-7985 }, { 244,-7985 }, { 245,-7985 }, { 246,-7985 },
+ { 247,-7985 }, { 248,-7985 }, { 249,-7985 }, { 250,-7985 }, { 251,-7985 },
+ { 252,-7985 }, { 253,-7985 }, { 254,-7985 }, { 255,-7985 }, { 256,-7985 },
+ {   0,   0 }, {   0,4938 }, {   1,-8243 }, {   2,-8243 }, {   3,-8243 },
+ {   4,-8243 }, {   5,-8243 }, {   6,-8243 }, {   7,-8243 }, {   8,-8243 },
+
+ {   9,1425 }, {  10,1425 }, {  11,-8243 }, {  12,-8243 }, {  13,1425 },
+ {  14,-8243 }, {  15,-8243 }, {  16,-8243 }, {  17,-8243 }, {  18,-8243 },
+ {  19,-8243 }, {  20,-8243 }, {  21,-8243 }, {  22,-8243 }, {  23,-8243 },
+ {  24,-8243 }, {  25,-8243 }, {  26,-8243 }, {  27,-8243 }, {  28,-8243 },
+ {  29,-8243 }, {  30,-8243 }, {  31,-8243 }, {  32,1425 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,-8243 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1425 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-8243 }, {  46,-8268 }, {  47,-8268 }, {  48,-8243 },
+ {  49,-8243 }, {  50,-8243 }, {  51,-8243 }, {  52,-8243 }, {  53,-8243 },
+ {  54,-8243 }, {  55,-8243 }, {  56,-8243 }, {  57,-8243 }, {  58,-8243 },
+
+ {   0,   0 }, {   0,   0 }, {  61,-8268 }, {   0,   0 }, {  63,-8243 },
+ {   0,   0 }, {  65,-8243 }, {  66,-8243 }, {  67,-8243 }, {  68,-8243 },
+ {  69,-8243 }, {  70,-8243 }, {  71,-8243 }, {  72,-8243 }, {  73,-8243 },
+ {  74,-8243 }, {  75,-8243 }, {  76,-8243 }, {  77,-8243 }, {  78,-8243 },
+ {  79,-8243 }, {  80,-8243 }, {  81,-8243 }, {  82,-8243 }, {  83,-8243 },
+ {  84,-8243 }, {  85,-8243 }, {  86,-8243 }, {  87,-8243 }, {  88,-8243 },
+ {  89,-8243 }, {  90,-8243 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-8243 }, {   0,   0 }, {  97,-8243 }, {  98,-8243 },
+ {  99,-8243 }, { 100,-8243 }, { 101,-8243 }, { 102,-8243 }, { 103,-8243 },
+ { 104,-8243 }, { 105,-8243 }, { 106,-8243 }, { 107,-8243 }, { 108,-8243 },
+
+ { 109,-8243 }, { 110,-8243 }, { 111,-8243 }, { 112,-8243 }, { 113,-8243 },
+ { 114,-8243 }, { 115,-8243 }, { 116,-8243 }, { 117,-8243 }, { 118,-8243 },
+ { 119,-8243 }, { 120,-8243 }, { 121,-8243 }, { 122,-8243 }, {   0,   0 },
+ { 124,-8268 }, { 125,1425 }, { 126,1425 }, { 127,-8243 }, { 128,-8243 },
+ { 129,-8243 }, { 130,-8243 }, { 131,-8243 }, { 132,-8243 }, { 133,-8243 },
+ { 134,-8243 }, { 135,-8243 }, { 136,-8243 }, { 137,-8243 }, { 138,-8243 },
+ { 139,-8243 }, { 140,-8243 }, { 141,-8243 }, { 142,-8243 }, { 143,-8243 },
+ { 144,-8243 }, { 145,-8243 }, { 146,-8243 }, { 147,-8243 }, { 148,-8243 },
+ { 149,-8243 }, { 150,-8243 }, { 151,-8243 }, { 152,-8243 }, { 153,-8243 },
+ { 154,-8243 }, { 155,-8243 }, { 156,-8243 }, { 157,-8243 }, { 158,-8243 },
+
+ { 159,-8243 }, { 160,-8243 }, { 161,-8243 }, { 162,-8243 }, { 163,-8243 },
+ { 164,-8243 }, { 165,-8243 }, { 166,-8243 }, { 167,-8243 }, { 168,-8243 },
+ { 169,-8243 }, { 170,-8243 }, { 171,-8243 }, { 172,-8243 }, { 173,-8243 },
+ { 174,-8243 }, { 175,-8243 }, { 176,-8243 }, { 177,-8243 }, { 178,-8243 },
+ { 179,-8243 }, { 180,-8243 }, { 181,-8243 }, { 182,-8243 }, { 183,-8243 },
+ { 184,-8243 }, { 185,-8243 }, { 186,-8243 }, { 187,-8243 }, { 188,-8243 },
+ { 189,-8243 }, { 190,-8243 }, { 191,-8243 }, { 192,-8243 }, { 193,-8243 },
+ { 194,-8243 }, { 195,-8243 }, { 196,-8243 }, { 197,-8243 }, { 198,-8243 },
+ { 199,-8243 }, { 200,-8243 }, { 201,-8243 }, { 202,-8243 }, { 203,-8243 },
+ { 204,-8243 }, { 205,-8243 }, { 206,-8243 }, { 207,-8243 }, { 208,-8243 },
+
+ { 209,-8243 }, { 210,-8243 }, { 211,-8243 }, { 212,-8243 }, { 213,-8243 },
+ { 214,-8243 }, { 215,-8243 }, { 216,-8243 }, { 217,-8243 }, { 218,-8243 },
+ { 219,-8243 }, { 220,-8243 }, { 221,-8243 }, { 222,-8243 }, { 223,-8243 },
+ { 224,-8243 }, { 225,-8243 }, { 226,-8243 }, { 227,-8243 }, { 228,-8243 },
+ { 229,-8243 }, { 230,-8243 }, { 231,-8243 }, { 232,-8243 }, { 233,-8243 },
+ { 234,-8243 }, { 235,-8243 }, { 236,-8243 }, { 237,-8243 }, { 238,-8243 },
+ { 239,-8243 }, { 240,-8243 }, { 241,-8243 }, { 242,-8243 }, { 243,-8243 },
+ { 244,-8243 }, { 245,-8243 }, { 246,-8243 }, { 247,-8243 }, { 248,-8243 },
+ { 249,-8243 }, { 250,-8243 }, { 251,-8243 }, { 252,-8243 }, { 253,-8243 },
+ { 254,-8243 }, { 255,-8243 }, { 256,-8243 }, {   0,   0 }, {   0,4680 },
+
+ {   1,-8501 }, {   2,-8501 }, {   3,-8501 }, {   4,-8501 }, {   5,-8501 },
+ {   6,-8501 }, {   7,-8501 }, {   8,-8501 }, {   9,-8526 }, {  10,-8526 },
+ {  11,-8501 }, {  12,-8501 }, {  13,-8526 }, {  14,-8501 }, {  15,-8501 },
+ {  16,-8501 }, {  17,-8501 }, {  18,-8501 }, {  19,-8501 }, {  20,-8501 },
+ {  21,-8501 }, {  22,-8501 }, {  23,-8501 }, {  24,-8501 }, {  25,-8501 },
+ {  26,-8501 }, {  27,-8501 }, {  28,-8501 }, {  29,-8501 }, {  30,-8501 },
+ {  31,-8501 }, {  32,-8526 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-8501 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-8526 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8501 },
+ {  46,-8526 }, {  47,-8526 }, {  48,-8501 }, {  49,-8501 }, {  50,-8501 },
+
+ {  51,-8501 }, {  52,-8501 }, {  53,-8501 }, {  54,-8501 }, {  55,-8501 },
+ {  56,-8501 }, {  57,-8501 }, {  58,-8501 }, {   0,   0 }, {   0,   0 },
+ {  61,-8526 }, {   0,   0 }, {  63,-8501 }, {   0,   0 }, {  65,-8501 },
+ {  66,-8501 }, {  67,-8501 }, {  68,-8501 }, {  69,-8501 }, {  70,-8501 },
+ {  71,-8501 }, {  72,-8501 }, {  73,-8501 }, {  74,-8501 }, {  75,-8501 },
+ {  76,-8501 }, {  77,-8501 }, {  78,-8501 }, {  79,-8501 }, {  80,-8501 },
+ {  81,-8501 }, {  82,-8501 }, {  83,-8501 }, {  84,-8501 }, {  85,-8501 },
+ {  86,-8501 }, {  87,-8501 }, {  88,-8501 }, {  89,-8501 }, {  90,-8501 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-8501 },
+ {   0,   0 }, {  97,-8501 }, {  98,-8501 }, {  99,-8501 }, { 100,-8501 },
+
+ { 101,-8501 }, { 102,1446 }, { 103,-8501 }, { 104,-8501 }, { 105,-8501 },
+ { 106,-8501 }, { 107,-8501 }, { 108,-8501 }, { 109,-8501 }, { 110,-8501 },
+ { 111,-8501 }, { 112,-8501 }, { 113,-8501 }, { 114,-8501 }, { 115,-8501 },
+ { 116,-8501 }, { 117,-8501 }, { 118,-8501 }, { 119,-8501 }, { 120,-8501 },
+ { 121,-8501 }, { 122,-8501 }, {   0,   0 }, { 124,-8526 }, { 125,-8526 },
+ { 126,-8526 }, { 127,-8501 }, { 128,-8501 }, { 129,-8501 }, { 130,-8501 },
+ { 131,-8501 }, { 132,-8501 }, { 133,-8501 }, { 134,-8501 }, { 135,-8501 },
+ { 136,-8501 }, { 137,-8501 }, { 138,-8501 }, { 139,-8501 }, { 140,-8501 },
+ { 141,-8501 }, { 142,-8501 }, { 143,-8501 }, { 144,-8501 }, { 145,-8501 },
+ { 146,-8501 }, { 147,-8501 }, { 148,-8501 }, { 149,-8501 }, { 150,-8501 },
+
+ { 151,-8501 }, { 152,-8501 }, { 153,-8501 }, { 154,-8501 }, { 155,-8501 },
+ { 156,-8501 }, { 157,-8501 }, { 158,-8501 }, { 159,-8501 }, { 160,-8501 },
+ { 161,-8501 }, { 162,-8501 }, { 163,-8501 }, { 164,-8501 }, { 165,-8501 },
+ { 166,-8501 }, { 167,-8501 }, { 168,-8501 }, { 169,-8501 }, { 170,-8501 },
+ { 171,-8501 }, { 172,-8501 }, { 173,-8501 }, { 174,-8501 }, { 175,-8501 },
+ { 176,-8501 }, { 177,-8501 }, { 178,-8501 }, { 179,-8501 }, { 180,-8501 },
+ { 181,-8501 }, { 182,-8501 }, { 183,-8501 }, { 184,-8501 }, { 185,-8501 },
+ { 186,-8501 }, { 187,-8501 }, { 188,-8501 }, { 189,-8501 }, { 190,-8501 },
+ { 191,-8501 }, { 192,-8501 }, { 193,-8501 }, { 194,-8501 }, { 195,-8501 },
+ { 196,-8501 }, { 197,-8501 }, { 198,-8501 }, { 199,-8501 }, { 200,-8501 },
+
+ { 201,-8501 }, { 202,-8501 }, { 203,-8501 }, { 204,-8501 }, { 205,-8501 },
+ { 206,-8501 }, { 207,-8501 }, { 208,-8501 }, { 209,-8501 }, { 210,-8501 },
+ { 211,-8501 }, { 212,-8501 }, { 213,-8501 }, { 214,-8501 }, { 215,-8501 },
+ { 216,-8501 }, { 217,-8501 }, { 218,-8501 }, { 219,-8501 }, { 220,-8501 },
+ { 221,-8501 }, { 222,-8501 }, { 223,-8501 }, { 224,-8501 }, { 225,-8501 },
+ { 226,-8501 }, { 227,-8501 }, { 228,-8501 }, { 229,-8501 }, { 230,-8501 },
+ { 231,-8501 }, { 232,-8501 }, { 233,-8501 }, { 234,-8501 }, { 235,-8501 },
+ { 236,-8501 }, { 237,-8501 }, { 238,-8501 }, { 239,-8501 }, { 240,-8501 },
+ { 241,-8501 }, { 242,-8501 }, { 243,-8501 }, { 244,-8501 }, { 245,-8501 },
+ { 246,-8501 }, { 247,-8501 }, { 248,-8501 }, { 249,-8501 }, { 250,-8501 },
+
+ { 251,-8501 }, { 252,-8501 }, { 253,-8501 }, { 254,-8501 }, { 255,-8501 },
+ { 256,-8501 }, {   0,   0 }, {   0,4422 }, {   0,   0 }, {   0,4420 },
+ {   0,   0 }, {   0,4418 }, {   0,  16 }, {   0,4416 }, {   0,  26 },
+ {   0,4414 }, {   9,   0 }, {  10,   0 }, {   0,  17 }, {   0,4410 },
+ {  13,   0 }, {   0,  36 }, {   0,4407 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
@@ -4259,981 +4259,882 @@ static const struct yy_trans_info yy_transition[21536] =
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 115,   0 }, { 108,1448 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 115,1448 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,   2 }, { 126,   4 }, { 125,1450 }, {   0,   0 },
- { 125,  -2 }, {   0,   0 }, {   0,4549 }, {   1,   0 }, {   2,   0 },
- {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
- {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
- {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 115, 916 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 125,-1579 }, { 126,   2 }, { 125,-1581 },
+ {   0,   0 }, {   0,4293 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
+ {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
 
- {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
- {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
- {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
- {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
- {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
- {  43,   0 }, {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
- {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
- {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
+ {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
+ {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
+ {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
+ {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
+ {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
+ {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
+ {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
+ {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
+ {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
+ {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
 
- {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
- {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
- {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
- {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
- {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
- {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
- { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
- { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
- { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
+ {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+ {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
+ {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
+ {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
+ {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
+ {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
+ {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
+ {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
+ { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
+ { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
 
- { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
- { 123,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
- { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
- { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
- { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
- { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
- { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
- { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
- { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
- { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
+ { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
+ { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
+ { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
+ { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
+ { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
+ { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+ { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
+ { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
+ { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
+ { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
 
- { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
- { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
- { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
- { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
- { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
- { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
- { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
- { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
- { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
- { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
+ { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
+ { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
+ { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
+ { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
+ { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
+ { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+ { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
+ { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
+ { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
+ { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
 
- { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
- { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
- { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
- { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
- { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
- { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
- { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
- { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
- {   0,4291 }, {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 },
- {   5,-258 }, {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 },
-
- {  10,-258 }, {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 },
- {  15,-258 }, {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 },
- {  20,-258 }, {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 },
- {  25,-258 }, {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 },
- {  30,-258 }, {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 },
- {  35,-258 }, {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 },
- {  40,-258 }, {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 },
- {  45,1184 }, {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 },
- {  50,-258 }, {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 },
- {  55,-258 }, {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 },
-
- {  60,-258 }, {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 },
- {  65,-258 }, {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 },
- {  70,-258 }, {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 },
- {  75,-258 }, {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 },
- {  80,-258 }, {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 },
- {  85,-258 }, {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 },
- {  90,-258 }, {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 },
- {  95,-258 }, {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 },
- { 100,-258 }, { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 },
- { 105,-258 }, { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 },
-
- { 110,-258 }, { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 },
- { 115,-258 }, { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 },
- { 120,-258 }, { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 },
- { 125,-258 }, { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 },
- { 130,-258 }, { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 },
- { 135,-258 }, { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 },
- { 140,-258 }, { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 },
- { 145,-258 }, { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 },
- { 150,-258 }, { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 },
- { 155,-258 }, { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 },
-
- { 160,-258 }, { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 },
- { 165,-258 }, { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 },
- { 170,-258 }, { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 },
- { 175,-258 }, { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 },
- { 180,-258 }, { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 },
- { 185,-258 }, { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 },
- { 190,-258 }, { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 },
- { 195,-258 }, { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 },
- { 200,-258 }, { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 },
- { 205,-258 }, { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 },
-
- { 210,-258 }, { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 },
- { 215,-258 }, { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 },
- { 220,-258 }, { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 },
- { 225,-258 }, { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 },
- { 230,-258 }, { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 },
- { 235,-258 }, { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 },
- { 240,-258 }, { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 },
- { 245,-258 }, { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 },
- { 250,-258 }, { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 },
- { 255,-258 }, { 256,-258 }, {   0,   0 }, {   0,4033 }, {   1, 811 },
-
- {   2, 811 }, {   3, 811 }, {   4, 811 }, {   5, 811 }, {   6, 811 },
- {   7, 811 }, {   8, 811 }, {   9, 811 }, {  10, 811 }, {  11, 811 },
- {  12, 811 }, {  13, 811 }, {  14, 811 }, {  15, 811 }, {  16, 811 },
- {  17, 811 }, {  18, 811 }, {  19, 811 }, {  20, 811 }, {  21, 811 },
- {  22, 811 }, {  23, 811 }, {  24, 811 }, {  25, 811 }, {  26, 811 },
- {  27, 811 }, {  28, 811 }, {  29, 811 }, {  30, 811 }, {  31, 811 },
- {  32, 811 }, {  33, 811 }, {  34, 811 }, {  35, 811 }, {  36, 811 },
- {  37, 811 }, {  38, 811 }, {  39, 811 }, {  40, 811 }, {  41, 811 },
- {  42, 811 }, {  43, 811 }, {  44, 811 }, {  45, 811 }, {  46, 811 },
- {  47,1184 }, {  48, 811 }, {  49, 811 }, {  50, 811 }, {  51, 811 },
-
- {  52, 811 }, {  53, 811 }, {  54, 811 }, {  55, 811 }, {  56, 811 },
- {  57, 811 }, {  58, 811 }, {  59, 811 }, {  60, 811 }, {  61, 811 },
- {  62, 811 }, {  63, 811 }, {  64, 811 }, {  65, 811 }, {  66, 811 },
- {  67, 811 }, {  68, 811 }, {  69, 811 }, {  70, 811 }, {  71, 811 },
- {  72, 811 }, {  73, 811 }, {  74, 811 }, {  75, 811 }, {  76, 811 },
- {  77, 811 }, {  78, 811 }, {  79, 811 }, {  80, 811 }, {  81, 811 },
- {  82, 811 }, {  83, 811 }, {  84, 811 }, {  85, 811 }, {  86, 811 },
- {  87, 811 }, {  88, 811 }, {  89, 811 }, {  90, 811 }, {  91, 811 },
- {  92, 811 }, {  93, 811 }, {  94, 811 }, {  95, 811 }, {  96, 811 },
- {  97, 811 }, {  98, 811 }, {  99, 811 }, { 100, 811 }, { 101, 811 },
-
- { 102, 811 }, { 103, 811 }, { 104, 811 }, { 105, 811 }, { 106, 811 },
- { 107, 811 }, { 108, 811 }, { 109, 811 }, { 110, 811 }, { 111, 811 },
- { 112, 811 }, { 113, 811 }, { 114, 811 }, { 115, 811 }, { 116, 811 },
- { 117, 811 }, { 118, 811 }, { 119, 811 }, { 120, 811 }, { 121, 811 },
- { 122, 811 }, { 123, 811 }, { 124, 811 }, { 125, 811 }, { 126, 811 },
- { 127, 811 }, { 128, 811 }, { 129, 811 }, { 130, 811 }, { 131, 811 },
- { 132, 811 }, { 133, 811 }, { 134, 811 }, { 135, 811 }, { 136, 811 },
- { 137, 811 }, { 138, 811 }, { 139, 811 }, { 140, 811 }, { 141, 811 },
- { 142, 811 }, { 143, 811 }, { 144, 811 }, { 145, 811 }, { 146, 811 },
- { 147, 811 }, { 148, 811 }, { 149, 811 }, { 150, 811 }, { 151, 811 },
-
- { 152, 811 }, { 153, 811 }, { 154, 811 }, { 155, 811 }, { 156, 811 },
- { 157, 811 }, { 158, 811 }, { 159, 811 }, { 160, 811 }, { 161, 811 },
- { 162, 811 }, { 163, 811 }, { 164, 811 }, { 165, 811 }, { 166, 811 },
- { 167, 811 }, { 168, 811 }, { 169, 811 }, { 170, 811 }, { 171, 811 },
- { 172, 811 }, { 173, 811 }, { 174, 811 }, { 175, 811 }, { 176, 811 },
- { 177, 811 }, { 178, 811 }, { 179, 811 }, { 180, 811 }, { 181, 811 },
- { 182, 811 }, { 183, 811 }, { 184, 811 }, { 185, 811 }, { 186, 811 },
- { 187, 811 }, { 188, 811 }, { 189, 811 }, { 190, 811 }, { 191, 811 },
- { 192, 811 }, { 193, 811 }, { 194, 811 }, { 195, 811 }, { 196, 811 },
- { 197, 811 }, { 198, 811 }, { 199, 811 }, { 200, 811 }, { 201, 811 },
-
- { 202, 811 }, { 203, 811 }, { 204, 811 }, { 205, 811 }, { 206, 811 },
- { 207, 811 }, { 208, 811 }, { 209, 811 }, { 210, 811 }, { 211, 811 },
- { 212, 811 }, { 213, 811 }, { 214, 811 }, { 215, 811 }, { 216, 811 },
- { 217, 811 }, { 218, 811 }, { 219, 811 }, { 220, 811 }, { 221, 811 },
- { 222, 811 }, { 223, 811 }, { 224, 811 }, { 225, 811 }, { 226, 811 },
- { 227, 811 }, { 228, 811 }, { 229, 811 }, { 230, 811 }, { 231, 811 },
- { 232, 811 }, { 233, 811 }, { 234, 811 }, { 235, 811 }, { 236, 811 },
- { 237, 811 }, { 238, 811 }, { 239, 811 }, { 240, 811 }, { 241, 811 },
- { 242, 811 }, { 243, 811 }, { 244, 811 }, { 245, 811 }, { 246, 811 },
- { 247, 811 }, { 248, 811 }, { 249, 811 }, { 250, 811 }, { 251, 811 },
-
- { 252, 811 }, { 253, 811 }, { 254, 811 }, { 255, 811 }, { 256, 811 },
- {   0,   1 }, {   0,3775 }, {   0,   1 }, {   0,3773 }, {   0,  46 },
- {   0,3771 }, {   0,  43 }, {   0,3769 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,3748 }, {   1,-9685 },
- {   2,-9685 }, {   3,-9685 }, {   4,-9685 }, {   5,-9685 }, {   6,-9685 },
- {   7,-9685 }, {   8,-9685 }, {   9, 530 }, {  10, 530 }, {  11,-9685 },
- {  12,-9685 }, {  13, 530 }, {  14,-9685 }, {  15,-9685 }, {  16,-9685 },
-
- {  17,-9685 }, {  18,-9685 }, {  19,-9685 }, {  20,-9685 }, {  21,-9685 },
- {  22,-9685 }, {  23,-9685 }, {  24,-9685 }, {  25,-9685 }, {  26,-9685 },
- {  27,-9685 }, {  28,-9685 }, {  29,-9685 }, {  30,-9685 }, {  31,-9685 },
- {  32, 530 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9685 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, 530 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-9685 }, {  46,-9710 },
- {  47,-9710 }, {  48,-9685 }, {  49,-9685 }, {  50,-9685 }, {  51,-9685 },
- {  52,-9685 }, {  53,-9685 }, {  54,-9685 }, {  55,-9685 }, {  56,-9685 },
- {  57,-9685 }, {  58,-9685 }, {   0,   0 }, {   0,   0 }, {  61,-9710 },
- {   0,   0 }, {  63,-9685 }, {   0,   0 }, {  65,-9685 }, {  66,-9685 },
-
- {  67,-9685 }, {  68,-9685 }, {  69,-9685 }, {  70,-9685 }, {  71,-9685 },
- {  72,-9685 }, {  73,-9685 }, {  74,-9685 }, {  75,-9685 }, {  76,-9685 },
- {  77,-9685 }, {  78,-9685 }, {  79,-9685 }, {  80,-9685 }, {  81,-9685 },
- {  82,-9685 }, {  83,-9685 }, {  84,-9685 }, {  85,-9685 }, {  86,-9685 },
- {  87,-9685 }, {  88,-9685 }, {  89,-9685 }, {  90,-9685 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-9685 }, { 123, 555 },
- {  97,-9685 }, {  98,-9685 }, {  99,-9685 }, { 100,-9685 }, { 101,-9685 },
- { 102,-9685 }, { 103,-9685 }, { 104,-9685 }, { 105,-9685 }, { 106,-9685 },
- { 107,-9685 }, { 108,-9685 }, { 109,-9685 }, { 110,-9685 }, { 111,-9685 },
- { 112,-9685 }, { 113,-9685 }, { 114,-9685 }, { 115,-9685 }, { 116,-9685 },
-
- { 117,-9685 }, { 118,-9685 }, { 119,-9685 }, { 120,-9685 }, { 121,-9685 },
- { 122,-9685 }, {   0,   0 }, { 124,-9710 }, { 125, 530 }, { 126, 530 },
- { 127,-9685 }, { 128,-9685 }, { 129,-9685 }, { 130,-9685 }, { 131,-9685 },
- { 132,-9685 }, { 133,-9685 }, { 134,-9685 }, { 135,-9685 }, { 136,-9685 },
- { 137,-9685 }, { 138,-9685 }, { 139,-9685 }, { 140,-9685 }, { 141,-9685 },
- { 142,-9685 }, { 143,-9685 }, { 144,-9685 }, { 145,-9685 }, { 146,-9685 },
- { 147,-9685 }, { 148,-9685 }, { 149,-9685 }, { 150,-9685 }, { 151,-9685 },
- { 152,-9685 }, { 153,-9685 }, { 154,-9685 }, { 155,-9685 }, { 156,-9685 },
- { 157,-9685 }, { 158,-9685 }, { 159,-9685 }, { 160,-9685 }, { 161,-9685 },
- { 162,-9685 }, { 163,-9685 }, { 164,-9685 }, { 165,-9685 }, { 166,-9685 },
-
- { 167,-9685 }, { 168,-9685 }, { 169,-9685 }, { 170,-9685 }, { 171,-9685 },
- { 172,-9685 }, { 173,-9685 }, { 174,-9685 }, { 175,-9685 }, { 176,-9685 },
- { 177,-9685 }, { 178,-9685 }, { 179,-9685 }, { 180,-9685 }, { 181,-9685 },
- { 182,-9685 }, { 183,-9685 }, { 184,-9685 }, { 185,-9685 }, { 186,-9685 },
- { 187,-9685 }, { 188,-9685 }, { 189,-9685 }, { 190,-9685 }, { 191,-9685 },
- { 192,-9685 }, { 193,-9685 }, { 194,-9685 }, { 195,-9685 }, { 196,-9685 },
- { 197,-9685 }, { 198,-9685 }, { 199,-9685 }, { 200,-9685 }, { 201,-9685 },
- { 202,-9685 }, { 203,-9685 }, { 204,-9685 }, { 205,-9685 }, { 206,-9685 },
- { 207,-9685 }, { 208,-9685 }, { 209,-9685 }, { 210,-9685 }, { 211,-9685 },
- { 212,-9685 }, { 213,-9685 }, { 214,-9685 }, { 215,-9685 }, { 216,-9685 },
-
- { 217,-9685 }, { 218,-9685 }, { 219,-9685 }, { 220,-9685 }, { 221,-9685 },
- { 222,-9685 }, { 223,-9685 }, { 224,-9685 }, { 225,-9685 }, { 226,-9685 },
- { 227,-9685 }, { 228,-9685 }, { 229,-9685 }, { 230,-9685 }, { 231,-9685 },
- { 232,-9685 }, { 233,-9685 }, { 234,-9685 }, { 235,-9685 }, { 236,-9685 },
- { 237,-9685 }, { 238,-9685 }, { 239,-9685 }, { 240,-9685 }, { 241,-9685 },
- { 242,-9685 }, { 243,-9685 }, { 244,-9685 }, { 245,-9685 }, { 246,-9685 },
- { 247,-9685 }, { 248,-9685 }, { 249,-9685 }, { 250,-9685 }, { 251,-9685 },
- { 252,-9685 }, { 253,-9685 }, { 254,-9685 }, { 255,-9685 }, { 256,-9685 },
- {   0,   0 }, {   0,3490 }, {   1,-9943 }, {   2,-9943 }, {   3,-9943 },
- {   4,-9943 }, {   5,-9943 }, {   6,-9943 }, {   7,-9943 }, {   8,-9943 },
-
- {   9,-9968 }, {  10,-9968 }, {  11,-9943 }, {  12,-9943 }, {  13,-9968 },
- {  14,-9943 }, {  15,-9943 }, {  16,-9943 }, {  17,-9943 }, {  18,-9943 },
- {  19,-9943 }, {  20,-9943 }, {  21,-9943 }, {  22,-9943 }, {  23,-9943 },
- {  24,-9943 }, {  25,-9943 }, {  26,-9943 }, {  27,-9943 }, {  28,-9943 },
- {  29,-9943 }, {  30,-9943 }, {  31,-9943 }, {  32,-9968 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-9943 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-9968 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-9943 }, {  46,-9968 }, {  47,-9968 }, {  48,-9943 },
- {  49,-9943 }, {  50,-9943 }, {  51,-9943 }, {  52,-9943 }, {  53,-9943 },
- {  54,-9943 }, {  55,-9943 }, {  56,-9943 }, {  57,-9943 }, {  58,-9943 },
-
- {   0,   0 }, {   0,   0 }, {  61,-9968 }, {   0,   0 }, {  63,-9943 },
- {   0,   0 }, {  65,-9943 }, {  66,-9943 }, {  67,-9943 }, {  68,-9943 },
- {  69,-9943 }, {  70,-9943 }, {  71,-9943 }, {  72,-9943 }, {  73,-9943 },
- {  74,-9943 }, {  75,-9943 }, {  76,-9943 }, {  77,-9943 }, {  78,-9943 },
- {  79,-9943 }, {  80,-9943 }, {  81,-9943 }, {  82,-9943 }, {  83,-9943 },
- {  84,-9943 }, {  85,-9943 }, {  86,-9943 }, {  87,-9943 }, {  88,-9943 },
- {  89,-9943 }, {  90,-9943 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-9943 }, {   0,   0 }, {  97,-9943 }, {  98,-9943 },
- {  99,-9943 }, { 100,-9943 }, { 101,-9943 }, { 102,-9943 }, { 103,-9943 },
- { 104,-9943 }, { 105, 899 }, { 106,-9943 }, { 107,-9943 }, { 108,-9943 },
-
- { 109,-9943 }, { 110,-9943 }, { 111,-9943 }, { 112,-9943 }, { 113,-9943 },
- { 114,-9943 }, { 115,-9943 }, { 116,-9943 }, { 117,-9943 }, { 118,-9943 },
- { 119,-9943 }, { 120,-9943 }, { 121,-9943 }, { 122,-9943 }, {   0,   0 },
- { 124,-9968 }, { 125,-9968 }, { 126,-9968 }, { 127,-9943 }, { 128,-9943 },
- { 129,-9943 }, { 130,-9943 }, { 131,-9943 }, { 132,-9943 }, { 133,-9943 },
- { 134,-9943 }, { 135,-9943 }, { 136,-9943 }, { 137,-9943 }, { 138,-9943 },
- { 139,-9943 }, { 140,-9943 }, { 141,-9943 }, { 142,-9943 }, { 143,-9943 },
- { 144,-9943 }, { 145,-9943 }, { 146,-9943 }, { 147,-9943 }, { 148,-9943 },
- { 149,-9943 }, { 150,-9943 }, { 151,-9943 }, { 152,-9943 }, { 153,-9943 },
- { 154,-9943 }, { 155,-9943 }, { 156,-9943 }, { 157,-9943 }, { 158,-9943 },
-
- { 159,-9943 }, { 160,-9943 }, { 161,-9943 }, { 162,-9943 }, { 163,-9943 },
- { 164,-9943 }, { 165,-9943 }, { 166,-9943 }, { 167,-9943 }, { 168,-9943 },
- { 169,-9943 }, { 170,-9943 }, { 171,-9943 }, { 172,-9943 }, { 173,-9943 },
- { 174,-9943 }, { 175,-9943 }, { 176,-9943 }, { 177,-9943 }, { 178,-9943 },
- { 179,-9943 }, { 180,-9943 }, { 181,-9943 }, { 182,-9943 }, { 183,-9943 },
- { 184,-9943 }, { 185,-9943 }, { 186,-9943 }, { 187,-9943 }, { 188,-9943 },
- { 189,-9943 }, { 190,-9943 }, { 191,-9943 }, { 192,-9943 }, { 193,-9943 },
- { 194,-9943 }, { 195,-9943 }, { 196,-9943 }, { 197,-9943 }, { 198,-9943 },
- { 199,-9943 }, { 200,-9943 }, { 201,-9943 }, { 202,-9943 }, { 203,-9943 },
- { 204,-9943 }, { 205,-9943 }, { 206,-9943 }, { 207,-9943 }, { 208,-9943 },
-
- { 209,-9943 }, { 210,-9943 }, { 211,-9943 }, { 212,-9943 }, { 213,-9943 },
- { 214,-9943 }, { 215,-9943 }, { 216,-9943 }, { 217,-9943 }, { 218,-9943 },
- { 219,-9943 }, { 220,-9943 }, { 221,-9943 }, { 222,-9943 }, { 223,-9943 },
- { 224,-9943 }, { 225,-9943 }, { 226,-9943 }, { 227,-9943 }, { 228,-9943 },
- { 229,-9943 }, { 230,-9943 }, { 231,-9943 }, { 232,-9943 }, { 233,-9943 },
- { 234,-9943 }, { 235,-9943 }, { 236,-9943 }, { 237,-9943 }, { 238,-9943 },
- { 239,-9943 }, { 240,-9943 }, { 241,-9943 }, { 242,-9943 }, { 243,-9943 },
- { 244,-9943 }, { 245,-9943 }, { 246,-9943 }, { 247,-9943 }, { 248,-9943 },
- { 249,-9943 }, { 250,-9943 }, { 251,-9943 }, { 252,-9943 }, { 253,-9943 },
- { 254,-9943 }, { 255,-9943 }, { 256,-9943 }, {   0,   0 }, {   0,3232 },
-
- {   0,  28 }, {   0,3230 }, {   0,  22 }, {   0,3228 }, {   0,   0 },
- {   0,3226 }, {   0,   0 }, {   0,3224 }, {   0,   8 }, {   0,3222 },
- {   0,   1 }, {   0,3220 }, {   0,  44 }, {   0,3218 }, {   0,   0 },
- {   0,3216 }, {   0,   0 }, {   0,3214 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101, 893 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 115,  16 },
- {   0,   0 }, { 101,2043 }, {   0,   0 }, { 101,2049 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 115,  10 }, {   0,   0 }, {   0,3107 },
- {   1,-1442 }, {   2,-1442 }, {   3,-1442 }, {   4,-1442 }, {   5,-1442 },
- {   6,-1442 }, {   7,-1442 }, {   8,-1442 }, {   9,-1442 }, {  10,-1442 },
- {  11,-1442 }, {  12,-1442 }, {  13,-1442 }, {  14,-1442 }, {  15,-1442 },
- {  16,-1442 }, {  17,-1442 }, {  18,-1442 }, {  19,-1442 }, {  20,-1442 },
- {  21,-1442 }, {  22,-1442 }, {  23,-1442 }, {  24,-1442 }, {  25,-1442 },
-
- {  26,-1442 }, {  27,-1442 }, {  28,-1442 }, {  29,-1442 }, {  30,-1442 },
- {  31,-1442 }, {  32,-1442 }, {  33,-1442 }, {  34,-1442 }, {  35,-1442 },
- {  36,-1442 }, {  37,-1442 }, {  38,-1442 }, {  39,-1442 }, {  40,-1442 },
- {  41,-1442 }, {  42,-1442 }, {  43,-1442 }, {  44,-1442 }, {  45,   0 },
- {  46,-1442 }, {  47,-1442 }, {  48,-1442 }, {  49,-1442 }, {  50,-1442 },
- {  51,-1442 }, {  52,-1442 }, {  53,-1442 }, {  54,-1442 }, {  55,-1442 },
- {  56,-1442 }, {  57,-1442 }, {  58,-1442 }, {  59,-1442 }, {  60,-1442 },
- {  61,-1442 }, {  62,-1442 }, {  63,-1442 }, {  64,-1442 }, {  65,-1442 },
- {  66,-1442 }, {  67,-1442 }, {  68,-1442 }, {  69,-1442 }, {  70,-1442 },
- {  71,-1442 }, {  72,-1442 }, {  73,-1442 }, {  74,-1442 }, {  75,-1442 },
-
- {  76,-1442 }, {  77,-1442 }, {  78,-1442 }, {  79,-1442 }, {  80,-1442 },
- {  81,-1442 }, {  82,-1442 }, {  83,-1442 }, {  84,-1442 }, {  85,-1442 },
- {  86,-1442 }, {  87,-1442 }, {  88,-1442 }, {  89,-1442 }, {  90,-1442 },
- {  91,-1442 }, {  92,-1442 }, {  93,-1442 }, {  94,-1442 }, {  95,-1442 },
- {  96,-1442 }, {  97,-1442 }, {  98,-1442 }, {  99,-1442 }, { 100,-1442 },
- { 101,-1442 }, { 102,-1442 }, { 103,-1442 }, { 104,-1442 }, { 105,-1442 },
- { 106,-1442 }, { 107,-1442 }, { 108,-1442 }, { 109,-1442 }, { 110,-1442 },
- { 111,-1442 }, { 112,-1442 }, { 113,-1442 }, { 114,-1442 }, { 115,-1442 },
- { 116,-1442 }, { 117,-1442 }, { 118,-1442 }, { 119,-1442 }, { 120,-1442 },
- { 121,-1442 }, { 122,-1442 }, { 123,-1442 }, { 124,-1442 }, { 125, 902 },
-
- { 126,1160 }, { 127,-1442 }, { 128,-1442 }, { 129,-1442 }, { 130,-1442 },
- { 131,-1442 }, { 132,-1442 }, { 133,-1442 }, { 134,-1442 }, { 135,-1442 },
- { 136,-1442 }, { 137,-1442 }, { 138,-1442 }, { 139,-1442 }, { 140,-1442 },
- { 141,-1442 }, { 142,-1442 }, { 143,-1442 }, { 144,-1442 }, { 145,-1442 },
- { 146,-1442 }, { 147,-1442 }, { 148,-1442 }, { 149,-1442 }, { 150,-1442 },
- { 151,-1442 }, { 152,-1442 }, { 153,-1442 }, { 154,-1442 }, { 155,-1442 },
- { 156,-1442 }, { 157,-1442 }, { 158,-1442 }, { 159,-1442 }, { 160,-1442 },
- { 161,-1442 }, { 162,-1442 }, { 163,-1442 }, { 164,-1442 }, { 165,-1442 },
- { 166,-1442 }, { 167,-1442 }, { 168,-1442 }, { 169,-1442 }, { 170,-1442 },
- { 171,-1442 }, { 172,-1442 }, { 173,-1442 }, { 174,-1442 }, { 175,-1442 },
-
- { 176,-1442 }, { 177,-1442 }, { 178,-1442 }, { 179,-1442 }, { 180,-1442 },
- { 181,-1442 }, { 182,-1442 }, { 183,-1442 }, { 184,-1442 }, { 185,-1442 },
- { 186,-1442 }, { 187,-1442 }, { 188,-1442 }, { 189,-1442 }, { 190,-1442 },
- { 191,-1442 }, { 192,-1442 }, { 193,-1442 }, { 194,-1442 }, { 195,-1442 },
- { 196,-1442 }, { 197,-1442 }, { 198,-1442 }, { 199,-1442 }, { 200,-1442 },
- { 201,-1442 }, { 202,-1442 }, { 203,-1442 }, { 204,-1442 }, { 205,-1442 },
- { 206,-1442 }, { 207,-1442 }, { 208,-1442 }, { 209,-1442 }, { 210,-1442 },
- { 211,-1442 }, { 212,-1442 }, { 213,-1442 }, { 214,-1442 }, { 215,-1442 },
- { 216,-1442 }, { 217,-1442 }, { 218,-1442 }, { 219,-1442 }, { 220,-1442 },
- { 221,-1442 }, { 222,-1442 }, { 223,-1442 }, { 224,-1442 }, { 225,-1442 },
-
- { 226,-1442 }, { 227,-1442 }, { 228,-1442 }, { 229,-1442 }, { 230,-1442 },
- { 231,-1442 }, { 232,-1442 }, { 233,-1442 }, { 234,-1442 }, { 235,-1442 },
- { 236,-1442 }, { 237,-1442 }, { 238,-1442 }, { 239,-1442 }, { 240,-1442 },
- { 241,-1442 }, { 242,-1442 }, { 243,-1442 }, { 244,-1442 }, { 245,-1442 },
- { 246,-1442 }, { 247,-1442 }, { 248,-1442 }, { 249,-1442 }, { 250,-1442 },
- { 251,-1442 }, { 252,-1442 }, { 253,-1442 }, { 254,-1442 }, { 255,-1442 },
- { 256,-1442 }, {   0,   0 }, {   0,2849 }, {   1,1160 }, {   2,1160 },
- {   3,1160 }, {   4,1160 }, {   5,1160 }, {   6,1160 }, {   7,1160 },
- {   8,1160 }, {   0,   0 }, {   0,   0 }, {  11,1160 }, {  12,1160 },
- {   0,   0 }, {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 },
-
- {  18,1160 }, {  19,1160 }, {  20,1160 }, {  21,1160 }, {  22,1160 },
- {  23,1160 }, {  24,1160 }, {  25,1160 }, {  26,1160 }, {  27,1160 },
- {  28,1160 }, {  29,1160 }, {  30,1160 }, {  31,1160 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1160 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,1160 }, {   0,   0 }, {   0,   0 },
- {  48,1160 }, {  49,1160 }, {  50,1160 }, {  51,1160 }, {  52,1160 },
- {  53,1160 }, {  54,1160 }, {  55,1160 }, {  56,1160 }, {  57,1160 },
- {  58,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  63,1160 }, {   0,   0 }, {  65,1160 }, {  66,1160 }, {  67,1160 },
-
- {  68,1160 }, {  69,1160 }, {  70,1160 }, {  71,1160 }, {  72,1160 },
- {  73,1160 }, {  74,1160 }, {  75,1160 }, {  76,1160 }, {  77,1160 },
- {  78,1160 }, {  79,1160 }, {  80,1160 }, {  81,1160 }, {  82,1160 },
- {  83,1160 }, {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 },
- {  88,1160 }, {  89,1160 }, {  90,1160 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,1160 }, {   0,   0 }, {  97,1160 },
- {  98,1160 }, {  99,1160 }, { 100,1160 }, { 101,1160 }, { 102,1160 },
- { 103,1160 }, { 104,1160 }, { 105,1160 }, { 106,1160 }, { 107,1160 },
- { 108,1160 }, { 109,1160 }, { 110,1160 }, { 111,1160 }, { 112,1160 },
- { 113,1160 }, { 114,1160 }, { 115,1160 }, { 116,1160 }, { 117,1160 },
-
- { 118,1160 }, { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1160 },
- { 128,1160 }, { 129,1160 }, { 130,1160 }, { 131,1160 }, { 132,1160 },
- { 133,1160 }, { 134,1160 }, { 135,1160 }, { 136,1160 }, { 137,1160 },
- { 138,1160 }, { 139,1160 }, { 140,1160 }, { 141,1160 }, { 142,1160 },
- { 143,1160 }, { 144,1160 }, { 145,1160 }, { 146,1160 }, { 147,1160 },
- { 148,1160 }, { 149,1160 }, { 150,1160 }, { 151,1160 }, { 152,1160 },
- { 153,1160 }, { 154,1160 }, { 155,1160 }, { 156,1160 }, { 157,1160 },
- { 158,1160 }, { 159,1160 }, { 160,1160 }, { 161,1160 }, { 162,1160 },
- { 163,1160 }, { 164,1160 }, { 165,1160 }, { 166,1160 }, { 167,1160 },
-
- { 168,1160 }, { 169,1160 }, { 170,1160 }, { 171,1160 }, { 172,1160 },
- { 173,1160 }, { 174,1160 }, { 175,1160 }, { 176,1160 }, { 177,1160 },
- { 178,1160 }, { 179,1160 }, { 180,1160 }, { 181,1160 }, { 182,1160 },
- { 183,1160 }, { 184,1160 }, { 185,1160 }, { 186,1160 }, { 187,1160 },
- { 188,1160 }, { 189,1160 }, { 190,1160 }, { 191,1160 }, { 192,1160 },
- { 193,1160 }, { 194,1160 }, { 195,1160 }, { 196,1160 }, { 197,1160 },
- { 198,1160 }, { 199,1160 }, { 200,1160 }, { 201,1160 }, { 202,1160 },
- { 203,1160 }, { 204,1160 }, { 205,1160 }, { 206,1160 }, { 207,1160 },
- { 208,1160 }, { 209,1160 }, { 210,1160 }, { 211,1160 }, { 212,1160 },
- { 213,1160 }, { 214,1160 }, { 215,1160 }, { 216,1160 }, { 217,1160 },
-
- { 218,1160 }, { 219,1160 }, { 220,1160 }, { 221,1160 }, { 222,1160 },
- { 223,1160 }, { 224,1160 }, { 225,1160 }, { 226,1160 }, { 227,1160 },
- { 228,1160 }, { 229,1160 }, { 230,1160 }, { 231,1160 }, { 232,1160 },
- { 233,1160 }, { 234,1160 }, { 235,1160 }, { 236,1160 }, { 237,1160 },
- { 238,1160 }, { 239,1160 }, { 240,1160 }, { 241,1160 }, { 242,1160 },
- { 243,1160 }, { 244,1160 }, { 245,1160 }, { 246,1160 }, { 247,1160 },
- { 248,1160 }, { 249,1160 }, { 250,1160 }, { 251,1160 }, { 252,1160 },
- { 253,1160 }, { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 },
- {   0,2591 }, {   1,-10842 }, {   2,-10842 }, {   3,-10842 }, {   4,-10842 },
- {   5,-10842 }, {   6,-10842 }, {   7,-10842 }, {   8,-10842 }, {   9,-10867 },
-
- {  10,-10867 }, {  11,-10842 }, {  12,-10842 }, {  13,-10867 }, {  14,-10842 },
- {  15,-10842 }, {  16,-10842 }, {  17,-10842 }, {  18,-10842 }, {  19,-10842 },
- {  20,-10842 }, {  21,-10842 }, {  22,-10842 }, {  23,-10842 }, {  24,-10842 },
- {  25,-10842 }, {  26,-10842 }, {  27,-10842 }, {  28,-10842 }, {  29,-10842 },
- {  30,-10842 }, {  31,-10842 }, {  32,-10867 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-10842 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-10867 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-10842 }, {  46,-10867 }, {  47,-10867 }, {  48,-10842 }, {  49,-10842 },
- {  50,-10842 }, {  51,-10842 }, {  52,-10842 }, {  53,-10842 }, {  54,-10842 },
- {  55,-10842 }, {  56,-10842 }, {  57,-10842 }, {  58,-10842 }, {   0,   0 },
-
- {   0,   0 }, {  61,-10867 }, {   0,   0 }, {  63,-10842 }, {   0,   0 },
- {  65,-10842 }, {  66,-10842 }, {  67,-10842 }, {  68,-10842 }, {  69,-10842 },
- {  70,-10842 }, {  71,-10842 }, {  72,-10842 }, {  73,-10842 }, {  74,-10842 },
- {  75,-10842 }, {  76,-10842 }, {  77,-10842 }, {  78,-10842 }, {  79,-10842 },
- {  80,-10842 }, {  81,-10842 }, {  82,-10842 }, {  83,-10842 }, {  84,-10842 },
- {  85,-10842 }, {  86,-10842 }, {  87,-10842 }, {  88,-10842 }, {  89,-10842 },
- {  90,-10842 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-10842 }, {   0,   0 }, {  97,-10842 }, {  98,-10842 }, {  99,-10842 },
- { 100,-10842 }, { 101,-10842 }, { 102,-10842 }, { 103,-10842 }, { 104,-10842 },
- { 105,-10842 }, { 106,-10842 }, { 107,-10842 }, { 108,-10842 }, { 109,-10842 },
-
- { 110,1160 }, { 111,-10842 }, { 112,-10842 }, { 113,-10842 }, { 114,-10842 },
- { 115,-10842 }, { 116,-10842 }, { 117,-10842 }, { 118,-10842 }, { 119,-10842 },
- { 120,-10842 }, { 121,-10842 }, { 122,-10842 }, {   0,   0 }, { 124,-10867 },
- { 125,-10867 }, { 126,-10867 }, { 127,-10842 }, { 128,-10842 }, { 129,-10842 },
- { 130,-10842 }, { 131,-10842 }, { 132,-10842 }, { 133,-10842 }, { 134,-10842 },
- { 135,-10842 }, { 136,-10842 }, { 137,-10842 }, { 138,-10842 }, { 139,-10842 },
- { 140,-10842 }, { 141,-10842 }, { 142,-10842 }, { 143,-10842 }, { 144,-10842 },
- { 145,-10842 }, { 146,-10842 }, { 147,-10842 }, { 148,-10842 }, { 149,-10842 },
- { 150,-10842 }, { 151,-10842 }, { 152,-10842 }, { 153,-10842 }, { 154,-10842 },
- { 155,-10842 }, { 156,-10842 }, { 157,-10842 }, { 158,-10842 }, { 159,-10842 },
-
- { 160,-10842 }, { 161,-10842 }, { 162,-10842 }, { 163,-10842 }, { 164,-10842 },
- { 165,-10842 }, { 166,-10842 }, { 167,-10842 }, { 168,-10842 }, { 169,-10842 },
- { 170,-10842 }, { 171,-10842 }, { 172,-10842 }, { 173,-10842 }, { 174,-10842 },
- { 175,-10842 }, { 176,-10842 }, { 177,-10842 }, { 178,-10842 }, { 179,-10842 },
- { 180,-10842 }, { 181,-10842 }, { 182,-10842 }, { 183,-10842 }, { 184,-10842 },
- { 185,-10842 }, { 186,-10842 }, { 187,-10842 }, { 188,-10842 }, { 189,-10842 },
- { 190,-10842 }, { 191,-10842 }, { 192,-10842 }, { 193,-10842 }, { 194,-10842 },
- { 195,-10842 }, { 196,-10842 }, { 197,-10842 }, { 198,-10842 }, { 199,-10842 },
- { 200,-10842 }, { 201,-10842 }, { 202,-10842 }, { 203,-10842 }, { 204,-10842 },
- { 205,-10842 }, { 206,-10842 }, { 207,-10842 }, { 208,-10842 }, { 209,-10842 },
-
- { 210,-10842 }, { 211,-10842 }, { 212,-10842 }, { 213,-10842 }, { 214,-10842 },
- { 215,-10842 }, { 216,-10842 }, { 217,-10842 }, { 218,-10842 }, { 219,-10842 },
- { 220,-10842 }, { 221,-10842 }, { 222,-10842 }, { 223,-10842 }, { 224,-10842 },
- { 225,-10842 }, { 226,-10842 }, { 227,-10842 }, { 228,-10842 }, { 229,-10842 },
- { 230,-10842 }, { 231,-10842 }, { 232,-10842 }, { 233,-10842 }, { 234,-10842 },
- { 235,-10842 }, { 236,-10842 }, { 237,-10842 }, { 238,-10842 }, { 239,-10842 },
- { 240,-10842 }, { 241,-10842 }, { 242,-10842 }, { 243,-10842 }, { 244,-10842 },
- { 245,-10842 }, { 246,-10842 }, { 247,-10842 }, { 248,-10842 }, { 249,-10842 },
- { 250,-10842 }, { 251,-10842 }, { 252,-10842 }, { 253,-10842 }, { 254,-10842 },
- { 255,-10842 }, { 256,-10842 }, {   0,  25 }, {   0,2333 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   9,1162 }, {  10,1162 }, {   0,   0 },
- {   0,   0 }, {  13,1162 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  32,1162 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,1164 }, { 126,1166 },
- {   0,   0 }, {   0,2205 }, {   1,-2344 }, {   2,-2344 }, {   3,-2344 },
- {   4,-2344 }, {   5,-2344 }, {   6,-2344 }, {   7,-2344 }, {   8,-2344 },
- {   9,-2344 }, {  10,-2344 }, {  11,-2344 }, {  12,-2344 }, {  13,-2344 },
- {  14,-2344 }, {  15,-2344 }, {  16,-2344 }, {  17,-2344 }, {  18,-2344 },
- {  19,-2344 }, {  20,-2344 }, {  21,-2344 }, {  22,-2344 }, {  23,-2344 },
-
- {  24,-2344 }, {  25,-2344 }, {  26,-2344 }, {  27,-2344 }, {  28,-2344 },
- {  29,-2344 }, {  30,-2344 }, {  31,-2344 }, {  32,-2344 }, {  33,-2344 },
- {  34,-2344 }, {  35,-2344 }, {  36,-2344 }, {  37,-2344 }, {  38,-2344 },
- {  39,-2344 }, {  40,-2344 }, {  41,-2344 }, {  42,-2344 }, {  43,-2344 },
- {  44,-2344 }, {  45,1165 }, {  46,-2344 }, {  47,-2344 }, {  48,-2344 },
- {  49,-2344 }, {  50,-2344 }, {  51,-2344 }, {  52,-2344 }, {  53,-2344 },
- {  54,-2344 }, {  55,-2344 }, {  56,-2344 }, {  57,-2344 }, {  58,-2344 },
- {  59,-2344 }, {  60,-2344 }, {  61,-2344 }, {  62,-2344 }, {  63,-2344 },
- {  64,-2344 }, {  65,-2344 }, {  66,-2344 }, {  67,-2344 }, {  68,-2344 },
- {  69,-2344 }, {  70,-2344 }, {  71,-2344 }, {  72,-2344 }, {  73,-2344 },
-
- {  74,-2344 }, {  75,-2344 }, {  76,-2344 }, {  77,-2344 }, {  78,-2344 },
- {  79,-2344 }, {  80,-2344 }, {  81,-2344 }, {  82,-2344 }, {  83,-2344 },
- {  84,-2344 }, {  85,-2344 }, {  86,-2344 }, {  87,-2344 }, {  88,-2344 },
- {  89,-2344 }, {  90,-2344 }, {  91,-2344 }, {  92,-2344 }, {  93,-2344 },
- {  94,-2344 }, {  95,-2344 }, {  96,-2344 }, {  97,-2344 }, {  98,-2344 },
- {  99,-2344 }, { 100,-2344 }, { 101,-2344 }, { 102,-2344 }, { 103,-2344 },
- { 104,-2344 }, { 105,-2344 }, { 106,-2344 }, { 107,-2344 }, { 108,-2344 },
- { 109,-2344 }, { 110,-2344 }, { 111,-2344 }, { 112,-2344 }, { 113,-2344 },
- { 114,-2344 }, { 115,-2344 }, { 116,-2344 }, { 117,-2344 }, { 118,-2344 },
- { 119,-2344 }, { 120,-2344 }, { 121,-2344 }, { 122,-2344 }, { 123,-2344 },
-
- { 124,-2344 }, { 125,1049 }, { 126,-2344 }, { 127,-2344 }, { 128,-2344 },
- { 129,-2344 }, { 130,-2344 }, { 131,-2344 }, { 132,-2344 }, { 133,-2344 },
- { 134,-2344 }, { 135,-2344 }, { 136,-2344 }, { 137,-2344 }, { 138,-2344 },
- { 139,-2344 }, { 140,-2344 }, { 141,-2344 }, { 142,-2344 }, { 143,-2344 },
- { 144,-2344 }, { 145,-2344 }, { 146,-2344 }, { 147,-2344 }, { 148,-2344 },
- { 149,-2344 }, { 150,-2344 }, { 151,-2344 }, { 152,-2344 }, { 153,-2344 },
- { 154,-2344 }, { 155,-2344 }, { 156,-2344 }, { 157,-2344 }, { 158,-2344 },
- { 159,-2344 }, { 160,-2344 }, { 161,-2344 }, { 162,-2344 }, { 163,-2344 },
- { 164,-2344 }, { 165,-2344 }, { 166,-2344 }, { 167,-2344 }, { 168,-2344 },
- { 169,-2344 }, { 170,-2344 }, { 171,-2344 }, { 172,-2344 }, { 173,-2344 },
-
- { 174,-2344 }, { 175,-2344 }, { 176,-2344 }, { 177,-2344 }, { 178,-2344 },
- { 179,-2344 }, { 180,-2344 }, { 181,-2344 }, { 182,-2344 }, { 183,-2344 },
- { 184,-2344 }, { 185,-2344 }, { 186,-2344 }, { 187,-2344 }, { 188,-2344 },
- { 189,-2344 }, { 190,-2344 }, { 191,-2344 }, { 192,-2344 }, { 193,-2344 },
- { 194,-2344 }, { 195,-2344 }, { 196,-2344 }, { 197,-2344 }, { 198,-2344 },
- { 199,-2344 }, { 200,-2344 }, { 201,-2344 }, { 202,-2344 }, { 203,-2344 },
- { 204,-2344 }, { 205,-2344 }, { 206,-2344 }, { 207,-2344 }, { 208,-2344 },
- { 209,-2344 }, { 210,-2344 }, { 211,-2344 }, { 212,-2344 }, { 213,-2344 },
- { 214,-2344 }, { 215,-2344 }, { 216,-2344 }, { 217,-2344 }, { 218,-2344 },
- { 219,-2344 }, { 220,-2344 }, { 221,-2344 }, { 222,-2344 }, { 223,-2344 },
-
- { 224,-2344 }, { 225,-2344 }, { 226,-2344 }, { 227,-2344 }, { 228,-2344 },
- { 229,-2344 }, { 230,-2344 }, { 231,-2344 }, { 232,-2344 }, { 233,-2344 },
- { 234,-2344 }, { 235,-2344 }, { 236,-2344 }, { 237,-2344 }, { 238,-2344 },
- { 239,-2344 }, { 240,-2344 }, { 241,-2344 }, { 242,-2344 }, { 243,-2344 },
- { 244,-2344 }, { 245,-2344 }, { 246,-2344 }, { 247,-2344 }, { 248,-2344 },
- { 249,-2344 }, { 250,-2344 }, { 251,-2344 }, { 252,-2344 }, { 253,-2344 },
- { 254,-2344 }, { 255,-2344 }, { 256,-2344 }, {   0,   0 }, {   0,1947 },
- {   1,-2602 }, {   2,-2602 }, {   3,-2602 }, {   4,-2602 }, {   5,-2602 },
- {   6,-2602 }, {   7,-2602 }, {   8,-2602 }, {   9,-2602 }, {  10,-2602 },
- {  11,-2602 }, {  12,-2602 }, {  13,-2602 }, {  14,-2602 }, {  15,-2602 },
-
- {  16,-2602 }, {  17,-2602 }, {  18,-2602 }, {  19,-2602 }, {  20,-2602 },
- {  21,-2602 }, {  22,-2602 }, {  23,-2602 }, {  24,-2602 }, {  25,-2602 },
- {  26,-2602 }, {  27,-2602 }, {  28,-2602 }, {  29,-2602 }, {  30,-2602 },
- {  31,-2602 }, {  32,-2602 }, {  33,-2602 }, {  34,-2602 }, {  35,-2602 },
- {  36,-2602 }, {  37,-2602 }, {  38,-2602 }, {  39,-2602 }, {  40,-2602 },
- {  41,-2602 }, {  42,-2602 }, {  43,-2602 }, {  44,-2602 }, {  45, 907 },
- {  46,-2602 }, {  47,-2602 }, {  48,-2602 }, {  49,-2602 }, {  50,-2602 },
- {  51,-2602 }, {  52,-2602 }, {  53,-2602 }, {  54,-2602 }, {  55,-2602 },
- {  56,-2602 }, {  57,-2602 }, {  58,-2602 }, {  59,-2602 }, {  60,-2602 },
- {  61,-2602 }, {  62,-2602 }, {  63,-2602 }, {  64,-2602 }, {  65,-2602 },
-
- {  66,-2602 }, {  67,-2602 }, {  68,-2602 }, {  69,-2602 }, {  70,-2602 },
- {  71,-2602 }, {  72,-2602 }, {  73,-2602 }, {  74,-2602 }, {  75,-2602 },
- {  76,-2602 }, {  77,-2602 }, {  78,-2602 }, {  79,-2602 }, {  80,-2602 },
- {  81,-2602 }, {  82,-2602 }, {  83,-2602 }, {  84,-2602 }, {  85,-2602 },
- {  86,-2602 }, {  87,-2602 }, {  88,-2602 }, {  89,-2602 }, {  90,-2602 },
- {  91,-2602 }, {  92,-2602 }, {  93,-2602 }, {  94,-2602 }, {  95,-2602 },
- {  96,-2602 }, {  97,-2602 }, {  98,-2602 }, {  99,-2602 }, { 100,-2602 },
- { 101,-2602 }, { 102,-2602 }, { 103,-2602 }, { 104,-2602 }, { 105,-2602 },
- { 106,-2602 }, { 107,-2602 }, { 108,-2602 }, { 109,-2602 }, { 110,-2602 },
- { 111,-2602 }, { 112,-2602 }, { 113,-2602 }, { 114,-2602 }, { 115,-2602 },
-
- { 116,-2602 }, { 117,-2602 }, { 118,-2602 }, { 119,-2602 }, { 120,-2602 },
- { 121,-2602 }, { 122,-2602 }, { 123,-2602 }, { 124,-2602 }, { 125,-258 },
- { 126,-2602 }, { 127,-2602 }, { 128,-2602 }, { 129,-2602 }, { 130,-2602 },
- { 131,-2602 }, { 132,-2602 }, { 133,-2602 }, { 134,-2602 }, { 135,-2602 },
- { 136,-2602 }, { 137,-2602 }, { 138,-2602 }, { 139,-2602 }, { 140,-2602 },
- { 141,-2602 }, { 142,-2602 }, { 143,-2602 }, { 144,-2602 }, { 145,-2602 },
- { 146,-2602 }, { 147,-2602 }, { 148,-2602 }, { 149,-2602 }, { 150,-2602 },
- { 151,-2602 }, { 152,-2602 }, { 153,-2602 }, { 154,-2602 }, { 155,-2602 },
- { 156,-2602 }, { 157,-2602 }, { 158,-2602 }, { 159,-2602 }, { 160,-2602 },
- { 161,-2602 }, { 162,-2602 }, { 163,-2602 }, { 164,-2602 }, { 165,-2602 },
-
- { 166,-2602 }, { 167,-2602 }, { 168,-2602 }, { 169,-2602 }, { 170,-2602 },
- { 171,-2602 }, { 172,-2602 }, { 173,-2602 }, { 174,-2602 }, { 175,-2602 },
- { 176,-2602 }, { 177,-2602 }, { 178,-2602 }, { 179,-2602 }, { 180,-2602 },
- { 181,-2602 }, { 182,-2602 }, { 183,-2602 }, { 184,-2602 }, { 185,-2602 },
- { 186,-2602 }, { 187,-2602 }, { 188,-2602 }, { 189,-2602 }, { 190,-2602 },
- { 191,-2602 }, { 192,-2602 }, { 193,-2602 }, { 194,-2602 }, { 195,-2602 },
- { 196,-2602 }, { 197,-2602 }, { 198,-2602 }, { 199,-2602 }, { 200,-2602 },
- { 201,-2602 }, { 202,-2602 }, { 203,-2602 }, { 204,-2602 }, { 205,-2602 },
- { 206,-2602 }, { 207,-2602 }, { 208,-2602 }, { 209,-2602 }, { 210,-2602 },
- { 211,-2602 }, { 212,-2602 }, { 213,-2602 }, { 214,-2602 }, { 215,-2602 },
-
- { 216,-2602 }, { 217,-2602 }, { 218,-2602 }, { 219,-2602 }, { 220,-2602 },
- { 221,-2602 }, { 222,-2602 }, { 223,-2602 }, { 224,-2602 }, { 225,-2602 },
- { 226,-2602 }, { 227,-2602 }, { 228,-2602 }, { 229,-2602 }, { 230,-2602 },
- { 231,-2602 }, { 232,-2602 }, { 233,-2602 }, { 234,-2602 }, { 235,-2602 },
- { 236,-2602 }, { 237,-2602 }, { 238,-2602 }, { 239,-2602 }, { 240,-2602 },
- { 241,-2602 }, { 242,-2602 }, { 243,-2602 }, { 244,-2602 }, { 245,-2602 },
- { 246,-2602 }, { 247,-2602 }, { 248,-2602 }, { 249,-2602 }, { 250,-2602 },
- { 251,-2602 }, { 252,-2602 }, { 253,-2602 }, { 254,-2602 }, { 255,-2602 },
- { 256,-2602 }, {   0,   0 }, {   0,1689 }, {   1,   0 }, {   2,   0 },
- {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
+ { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
+ { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
+ { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
+ { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
+ { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
+ { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+ { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
+ { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,4035 },
+ {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
 
- {   8,   0 }, {   0,   0 }, {   0,   0 }, {  11,   0 }, {  12,   0 },
- {   0,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
- {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
- {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
- {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,   0 }, {   0,   0 }, {   0,   0 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
- {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
+ {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
+ {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
+ {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
+ {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
+ {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
+ {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
+ {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
+ {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,1059 },
+ {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
+ {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
 
- {  58,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
- {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
- {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
- {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
- {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 },
- {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
- { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
+ {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
+ {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
+ {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
+ {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
+ {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
+ {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
+ {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
+ {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
+ {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
+ { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
 
- { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
- { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
- { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
- {   0,   0 }, {   0,   0 }, { 125, 907 }, {   0,   0 }, { 127,   0 },
- { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
- { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
- { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
- { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
- { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
- { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
+ { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
+ { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
+ { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
+ { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
+ { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
+ { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
+ { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
+ { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
+ { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
+ { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
 
- { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
- { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
- { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
- { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
- { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
- { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
- { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
- { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
- { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
- { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
+ { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
+ { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
+ { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
+ { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
+ { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
+ { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
+ { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
+ { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
+ { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
+ { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
 
- { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
- { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
- { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
- { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
- { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
- { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
- { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
- { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
- { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
- { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 },
+ { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
+ { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
+ { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
+ { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
+ { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
+ { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
+ { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
+ { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
+ { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
+ { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
 
- {   0,1431 }, {   1,-12002 }, {   2,-12002 }, {   3,-12002 }, {   4,-12002 },
- {   5,-12002 }, {   6,-12002 }, {   7,-12002 }, {   8,-12002 }, {   9,-12027 },
- {  10,-12027 }, {  11,-12002 }, {  12,-12002 }, {  13,-12027 }, {  14,-12002 },
- {  15,-12002 }, {  16,-12002 }, {  17,-12002 }, {  18,-12002 }, {  19,-12002 },
- {  20,-12002 }, {  21,-12002 }, {  22,-12002 }, {  23,-12002 }, {  24,-12002 },
- {  25,-12002 }, {  26,-12002 }, {  27,-12002 }, {  28,-12002 }, {  29,-12002 },
- {  30,-12002 }, {  31,-12002 }, {  32,-12027 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-12002 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-12027 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-12002 }, {  46,-12027 }, {  47,-12027 }, {  48,-12002 }, {  49,-12002 },
+ { 256,-258 }, {   0,   0 }, {   0,3777 }, {   1, 277 }, {   2, 277 },
+ {   3, 277 }, {   4, 277 }, {   5, 277 }, {   6, 277 }, {   7, 277 },
+ {   8, 277 }, {   9, 277 }, {  10, 277 }, {  11, 277 }, {  12, 277 },
+ {  13, 277 }, {  14, 277 }, {  15, 277 }, {  16, 277 }, {  17, 277 },
+ {  18, 277 }, {  19, 277 }, {  20, 277 }, {  21, 277 }, {  22, 277 },
+ {  23, 277 }, {  24, 277 }, {  25, 277 }, {  26, 277 }, {  27, 277 },
+ {  28, 277 }, {  29, 277 }, {  30, 277 }, {  31, 277 }, {  32, 277 },
+ {  33, 277 }, {  34, 277 }, {  35, 277 }, {  36, 277 }, {  37, 277 },
+ {  38, 277 }, {  39, 277 }, {  40, 277 }, {  41, 277 }, {  42, 277 },
+ {  43, 277 }, {  44, 277 }, {  45, 277 }, {  46, 277 }, {  47,1059 },
+
+ {  48, 277 }, {  49, 277 }, {  50, 277 }, {  51, 277 }, {  52, 277 },
+ {  53, 277 }, {  54, 277 }, {  55, 277 }, {  56, 277 }, {  57, 277 },
+ {  58, 277 }, {  59, 277 }, {  60, 277 }, {  61, 277 }, {  62, 277 },
+ {  63, 277 }, {  64, 277 }, {  65, 277 }, {  66, 277 }, {  67, 277 },
+ {  68, 277 }, {  69, 277 }, {  70, 277 }, {  71, 277 }, {  72, 277 },
+ {  73, 277 }, {  74, 277 }, {  75, 277 }, {  76, 277 }, {  77, 277 },
+ {  78, 277 }, {  79, 277 }, {  80, 277 }, {  81, 277 }, {  82, 277 },
+ {  83, 277 }, {  84, 277 }, {  85, 277 }, {  86, 277 }, {  87, 277 },
+ {  88, 277 }, {  89, 277 }, {  90, 277 }, {  91, 277 }, {  92, 277 },
+ {  93, 277 }, {  94, 277 }, {  95, 277 }, {  96, 277 }, {  97, 277 },
+
+ {  98, 277 }, {  99, 277 }, { 100, 277 }, { 101, 277 }, { 102, 277 },
+ { 103, 277 }, { 104, 277 }, { 105, 277 }, { 106, 277 }, { 107, 277 },
+ { 108, 277 }, { 109, 277 }, { 110, 277 }, { 111, 277 }, { 112, 277 },
+ { 113, 277 }, { 114, 277 }, { 115, 277 }, { 116, 277 }, { 117, 277 },
+ { 118, 277 }, { 119, 277 }, { 120, 277 }, { 121, 277 }, { 122, 277 },
+ { 123, 277 }, { 124, 277 }, { 125, 277 }, { 126, 277 }, { 127, 277 },
+ { 128, 277 }, { 129, 277 }, { 130, 277 }, { 131, 277 }, { 132, 277 },
+ { 133, 277 }, { 134, 277 }, { 135, 277 }, { 136, 277 }, { 137, 277 },
+ { 138, 277 }, { 139, 277 }, { 140, 277 }, { 141, 277 }, { 142, 277 },
+ { 143, 277 }, { 144, 277 }, { 145, 277 }, { 146, 277 }, { 147, 277 },
+
+ { 148, 277 }, { 149, 277 }, { 150, 277 }, { 151, 277 }, { 152, 277 },
+ { 153, 277 }, { 154, 277 }, { 155, 277 }, { 156, 277 }, { 157, 277 },
+ { 158, 277 }, { 159, 277 }, { 160, 277 }, { 161, 277 }, { 162, 277 },
+ { 163, 277 }, { 164, 277 }, { 165, 277 }, { 166, 277 }, { 167, 277 },
+ { 168, 277 }, { 169, 277 }, { 170, 277 }, { 171, 277 }, { 172, 277 },
+ { 173, 277 }, { 174, 277 }, { 175, 277 }, { 176, 277 }, { 177, 277 },
+ { 178, 277 }, { 179, 277 }, { 180, 277 }, { 181, 277 }, { 182, 277 },
+ { 183, 277 }, { 184, 277 }, { 185, 277 }, { 186, 277 }, { 187, 277 },
+ { 188, 277 }, { 189, 277 }, { 190, 277 }, { 191, 277 }, { 192, 277 },
+ { 193, 277 }, { 194, 277 }, { 195, 277 }, { 196, 277 }, { 197, 277 },
+
+ { 198, 277 }, { 199, 277 }, { 200, 277 }, { 201, 277 }, { 202, 277 },
+ { 203, 277 }, { 204, 277 }, { 205, 277 }, { 206, 277 }, { 207, 277 },
+ { 208, 277 }, { 209, 277 }, { 210, 277 }, { 211, 277 }, { 212, 277 },
+ { 213, 277 }, { 214, 277 }, { 215, 277 }, { 216, 277 }, { 217, 277 },
+ { 218, 277 }, { 219, 277 }, { 220, 277 }, { 221, 277 }, { 222, 277 },
+ { 223, 277 }, { 224, 277 }, { 225, 277 }, { 226, 277 }, { 227, 277 },
+ { 228, 277 }, { 229, 277 }, { 230, 277 }, { 231, 277 }, { 232, 277 },
+ { 233, 277 }, { 234, 277 }, { 235, 277 }, { 236, 277 }, { 237, 277 },
+ { 238, 277 }, { 239, 277 }, { 240, 277 }, { 241, 277 }, { 242, 277 },
+ { 243, 277 }, { 244, 277 }, { 245, 277 }, { 246, 277 }, { 247, 277 },
+
+ { 248, 277 }, { 249, 277 }, { 250, 277 }, { 251, 277 }, { 252, 277 },
+ { 253, 277 }, { 254, 277 }, { 255, 277 }, { 256, 277 }, {   0,   1 },
+ {   0,3519 }, {   0,   1 }, {   0,3517 }, {   0,  46 }, {   0,3515 },
+ {   0,  43 }, {   0,3513 }, {   0,  28 }, {   0,3511 }, {   0,  22 },
+ {   0,3509 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,3502 }, {   0,   8 }, {   0,3500 },
+ {   0,   1 }, {   0,3498 }, {   0,  44 }, {   0,3496 }, {   0,  25 },
+ {   0,3494 }, {   0,   0 }, {   0,3492 }, {   1,-9689 }, {   2,-9689 },
+ {   3,-9689 }, {   4,-9689 }, {   5,-9689 }, {   6,-9689 }, {   7,-9689 },
+ {   8,-9689 }, {   9,  -4 }, {  10,  -4 }, {  11,-9689 }, {  12,-9689 },
+
+ {  13,  -4 }, {  14,-9689 }, {  15,-9689 }, {  16,-9689 }, {  17,-9689 },
+ {  18,-9689 }, {  19,-9689 }, {  20,-9689 }, {  21,-9689 }, {  22,-9689 },
+ {  23,-9689 }, {  24,-9689 }, {  25,-9689 }, {  26,-9689 }, {  27,-9689 },
+ {  28,-9689 }, {  29,-9689 }, {  30,-9689 }, {  31,-9689 }, {  32,  -4 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9689 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,  -4 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,-9689 }, {  46,-9714 }, {  47,-9714 },
+ {  48,-9689 }, {  49,-9689 }, {  50,-9689 }, {  51,-9689 }, {  52,-9689 },
+ {  53,-9689 }, {  54,-9689 }, {  55,-9689 }, {  56,-9689 }, {  57,-9689 },
+ {  58,-9689 }, {   0,   0 }, {   0,   0 }, {  61,-9714 }, {   0,   0 },
+
+ {  63,-9689 }, {   0,   0 }, {  65,-9689 }, {  66,-9689 }, {  67,-9689 },
+ {  68,-9689 }, {  69,-9689 }, {  70,-9689 }, {  71,-9689 }, {  72,-9689 },
+ {  73,-9689 }, {  74,-9689 }, {  75,-9689 }, {  76,-9689 }, {  77,-9689 },
+ {  78,-9689 }, {  79,-9689 }, {  80,-9689 }, {  81,-9689 }, {  82,-9689 },
+ {  83,-9689 }, {  84,-9689 }, {  85,-9689 }, {  86,-9689 }, {  87,-9689 },
+ {  88,-9689 }, {  89,-9689 }, {  90,-9689 }, { 101,1300 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,-9689 }, { 123,  21 }, {  97,-9689 },
+ {  98,-9689 }, {  99,-9689 }, { 100,-9689 }, { 101,-9689 }, { 102,-9689 },
+ { 103,-9689 }, { 104,-9689 }, { 105,-9689 }, { 106,-9689 }, { 107,-9689 },
+ { 108,-9689 }, { 109,-9689 }, { 110,-9689 }, { 111,-9689 }, { 112,-9689 },
+
+ { 113,-9689 }, { 114,-9689 }, { 115,-9689 }, { 116,-9689 }, { 117,-9689 },
+ { 118,-9689 }, { 119,-9689 }, { 120,-9689 }, { 121,-9689 }, { 122,-9689 },
+ {   0,   0 }, { 124,-9714 }, { 125,  -4 }, { 126,  -4 }, { 127,-9689 },
+ { 128,-9689 }, { 129,-9689 }, { 130,-9689 }, { 131,-9689 }, { 132,-9689 },
+ { 133,-9689 }, { 134,-9689 }, { 135,-9689 }, { 136,-9689 }, { 137,-9689 },
+ { 138,-9689 }, { 139,-9689 }, { 140,-9689 }, { 141,-9689 }, { 142,-9689 },
+ { 143,-9689 }, { 144,-9689 }, { 145,-9689 }, { 146,-9689 }, { 147,-9689 },
+ { 148,-9689 }, { 149,-9689 }, { 150,-9689 }, { 151,-9689 }, { 152,-9689 },
+ { 153,-9689 }, { 154,-9689 }, { 155,-9689 }, { 156,-9689 }, { 157,-9689 },
+ { 158,-9689 }, { 159,-9689 }, { 160,-9689 }, { 161,-9689 }, { 162,-9689 },
+
+ { 163,-9689 }, { 164,-9689 }, { 165,-9689 }, { 166,-9689 }, { 167,-9689 },
+ { 168,-9689 }, { 169,-9689 }, { 170,-9689 }, { 171,-9689 }, { 172,-9689 },
+ { 173,-9689 }, { 174,-9689 }, { 175,-9689 }, { 176,-9689 }, { 177,-9689 },
+ { 178,-9689 }, { 179,-9689 }, { 180,-9689 }, { 181,-9689 }, { 182,-9689 },
+ { 183,-9689 }, { 184,-9689 }, { 185,-9689 }, { 186,-9689 }, { 187,-9689 },
+ { 188,-9689 }, { 189,-9689 }, { 190,-9689 }, { 191,-9689 }, { 192,-9689 },
+ { 193,-9689 }, { 194,-9689 }, { 195,-9689 }, { 196,-9689 }, { 197,-9689 },
+ { 198,-9689 }, { 199,-9689 }, { 200,-9689 }, { 201,-9689 }, { 202,-9689 },
+ { 203,-9689 }, { 204,-9689 }, { 205,-9689 }, { 206,-9689 }, { 207,-9689 },
+ { 208,-9689 }, { 209,-9689 }, { 210,-9689 }, { 211,-9689 }, { 212,-9689 },
+
+ { 213,-9689 }, { 214,-9689 }, { 215,-9689 }, { 216,-9689 }, { 217,-9689 },
+ { 218,-9689 }, { 219,-9689 }, { 220,-9689 }, { 221,-9689 }, { 222,-9689 },
+ { 223,-9689 }, { 224,-9689 }, { 225,-9689 }, { 226,-9689 }, { 227,-9689 },
+ { 228,-9689 }, { 229,-9689 }, { 230,-9689 }, { 231,-9689 }, { 232,-9689 },
+ { 233,-9689 }, { 234,-9689 }, { 235,-9689 }, { 236,-9689 }, { 237,-9689 },
+ { 238,-9689 }, { 239,-9689 }, { 240,-9689 }, { 241,-9689 }, { 242,-9689 },
+ { 243,-9689 }, { 244,-9689 }, { 245,-9689 }, { 246,-9689 }, { 247,-9689 },
+ { 248,-9689 }, { 249,-9689 }, { 250,-9689 }, { 251,-9689 }, { 252,-9689 },
+ { 253,-9689 }, { 254,-9689 }, { 255,-9689 }, { 256,-9689 }, {   0,   0 },
+ {   0,3234 }, {   1,-9947 }, {   2,-9947 }, {   3,-9947 }, {   4,-9947 },
+
+ {   5,-9947 }, {   6,-9947 }, {   7,-9947 }, {   8,-9947 }, {   9,-9972 },
+ {  10,-9972 }, {  11,-9947 }, {  12,-9947 }, {  13,-9972 }, {  14,-9947 },
+ {  15,-9947 }, {  16,-9947 }, {  17,-9947 }, {  18,-9947 }, {  19,-9947 },
+ {  20,-9947 }, {  21,-9947 }, {  22,-9947 }, {  23,-9947 }, {  24,-9947 },
+ {  25,-9947 }, {  26,-9947 }, {  27,-9947 }, {  28,-9947 }, {  29,-9947 },
+ {  30,-9947 }, {  31,-9947 }, {  32,-9972 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,-9947 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,-9972 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,-9947 }, {  46,-9972 }, {  47,-9972 }, {  48,-9947 }, {  49,-9947 },
+ {  50,-9947 }, {  51,-9947 }, {  52,-9947 }, {  53,-9947 }, {  54,-9947 },
+
+ {  55,-9947 }, {  56,-9947 }, {  57,-9947 }, {  58,-9947 }, {   0,   0 },
+ {   0,   0 }, {  61,-9972 }, {   0,   0 }, {  63,-9947 }, {   0,   0 },
+ {  65,-9947 }, {  66,-9947 }, {  67,-9947 }, {  68,-9947 }, {  69,-9947 },
+ {  70,-9947 }, {  71,-9947 }, {  72,-9947 }, {  73,-9947 }, {  74,-9947 },
+ {  75,-9947 }, {  76,-9947 }, {  77,-9947 }, {  78,-9947 }, {  79,-9947 },
+ {  80,-9947 }, {  81,-9947 }, {  82,-9947 }, {  83,-9947 }, {  84,-9947 },
+ {  85,-9947 }, {  86,-9947 }, {  87,-9947 }, {  88,-9947 }, {  89,-9947 },
+ {  90,-9947 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,-9947 }, {   0,   0 }, {  97,-9947 }, {  98,-9947 }, {  99,-9947 },
+ { 100,-9947 }, { 101,-9947 }, { 102,-9947 }, { 103,-9947 }, { 104,-9947 },
+
+ { 105, 774 }, { 106,-9947 }, { 107,-9947 }, { 108,-9947 }, { 109,-9947 },
+ { 110,-9947 }, { 111,-9947 }, { 112,-9947 }, { 113,-9947 }, { 114,-9947 },
+ { 115,-9947 }, { 116,-9947 }, { 117,-9947 }, { 118,-9947 }, { 119,-9947 },
+ { 120,-9947 }, { 121,-9947 }, { 122,-9947 }, {   0,   0 }, { 124,-9972 },
+ { 125,-9972 }, { 126,-9972 }, { 127,-9947 }, { 128,-9947 }, { 129,-9947 },
+ { 130,-9947 }, { 131,-9947 }, { 132,-9947 }, { 133,-9947 }, { 134,-9947 },
+ { 135,-9947 }, { 136,-9947 }, { 137,-9947 }, { 138,-9947 }, { 139,-9947 },
+ { 140,-9947 }, { 141,-9947 }, { 142,-9947 }, { 143,-9947 }, { 144,-9947 },
+ { 145,-9947 }, { 146,-9947 }, { 147,-9947 }, { 148,-9947 }, { 149,-9947 },
+ { 150,-9947 }, { 151,-9947 }, { 152,-9947 }, { 153,-9947 }, { 154,-9947 },
+
+ { 155,-9947 }, { 156,-9947 }, { 157,-9947 }, { 158,-9947 }, { 159,-9947 },
+ { 160,-9947 }, { 161,-9947 }, { 162,-9947 }, { 163,-9947 }, { 164,-9947 },
+ { 165,-9947 }, { 166,-9947 }, { 167,-9947 }, { 168,-9947 }, { 169,-9947 },
+ { 170,-9947 }, { 171,-9947 }, { 172,-9947 }, { 173,-9947 }, { 174,-9947 },
+ { 175,-9947 }, { 176,-9947 }, { 177,-9947 }, { 178,-9947 }, { 179,-9947 },
+ { 180,-9947 }, { 181,-9947 }, { 182,-9947 }, { 183,-9947 }, { 184,-9947 },
+ { 185,-9947 }, { 186,-9947 }, { 187,-9947 }, { 188,-9947 }, { 189,-9947 },
+ { 190,-9947 }, { 191,-9947 }, { 192,-9947 }, { 193,-9947 }, { 194,-9947 },
+ { 195,-9947 }, { 196,-9947 }, { 197,-9947 }, { 198,-9947 }, { 199,-9947 },
+ { 200,-9947 }, { 201,-9947 }, { 202,-9947 }, { 203,-9947 }, { 204,-9947 },
+
+ { 205,-9947 }, { 206,-9947 }, { 207,-9947 }, { 208,-9947 }, { 209,-9947 },
+ { 210,-9947 }, { 211,-9947 }, { 212,-9947 }, { 213,-9947 }, { 214,-9947 },
+ { 215,-9947 }, { 216,-9947 }, { 217,-9947 }, { 218,-9947 }, { 219,-9947 },
+ { 220,-9947 }, { 221,-9947 }, { 222,-9947 }, { 223,-9947 }, { 224,-9947 },
+ { 225,-9947 }, { 226,-9947 }, { 227,-9947 }, { 228,-9947 }, { 229,-9947 },
+ { 230,-9947 }, { 231,-9947 }, { 232,-9947 }, { 233,-9947 }, { 234,-9947 },
+ { 235,-9947 }, { 236,-9947 }, { 237,-9947 }, { 238,-9947 }, { 239,-9947 },
+ { 240,-9947 }, { 241,-9947 }, { 242,-9947 }, { 243,-9947 }, { 244,-9947 },
+ { 245,-9947 }, { 246,-9947 }, { 247,-9947 }, { 248,-9947 }, { 249,-9947 },
+ { 250,-9947 }, { 251,-9947 }, { 252,-9947 }, { 253,-9947 }, { 254,-9947 },
+
+ { 255,-9947 }, { 256,-9947 }, {   0,   0 }, {   0,2976 }, {   1,-1317 },
+ {   2,-1317 }, {   3,-1317 }, {   4,-1317 }, {   5,-1317 }, {   6,-1317 },
+ {   7,-1317 }, {   8,-1317 }, {   9,-1317 }, {  10,-1317 }, {  11,-1317 },
+ {  12,-1317 }, {  13,-1317 }, {  14,-1317 }, {  15,-1317 }, {  16,-1317 },
+ {  17,-1317 }, {  18,-1317 }, {  19,-1317 }, {  20,-1317 }, {  21,-1317 },
+ {  22,-1317 }, {  23,-1317 }, {  24,-1317 }, {  25,-1317 }, {  26,-1317 },
+ {  27,-1317 }, {  28,-1317 }, {  29,-1317 }, {  30,-1317 }, {  31,-1317 },
+ {  32,-1317 }, {  33,-1317 }, {  34,-1317 }, {  35,-1317 }, {  36,-1317 },
+ {  37,-1317 }, {  38,-1317 }, {  39,-1317 }, {  40,-1317 }, {  41,-1317 },
+ {  42,-1317 }, {  43,-1317 }, {  44,-1317 }, {  45,   0 }, {  46,-1317 },
+
+ {  47,-1317 }, {  48,-1317 }, {  49,-1317 }, {  50,-1317 }, {  51,-1317 },
+ {  52,-1317 }, {  53,-1317 }, {  54,-1317 }, {  55,-1317 }, {  56,-1317 },
+ {  57,-1317 }, {  58,-1317 }, {  59,-1317 }, {  60,-1317 }, {  61,-1317 },
+ {  62,-1317 }, {  63,-1317 }, {  64,-1317 }, {  65,-1317 }, {  66,-1317 },
+ {  67,-1317 }, {  68,-1317 }, {  69,-1317 }, {  70,-1317 }, {  71,-1317 },
+ {  72,-1317 }, {  73,-1317 }, {  74,-1317 }, {  75,-1317 }, {  76,-1317 },
+ {  77,-1317 }, {  78,-1317 }, {  79,-1317 }, {  80,-1317 }, {  81,-1317 },
+ {  82,-1317 }, {  83,-1317 }, {  84,-1317 }, {  85,-1317 }, {  86,-1317 },
+ {  87,-1317 }, {  88,-1317 }, {  89,-1317 }, {  90,-1317 }, {  91,-1317 },
+ {  92,-1317 }, {  93,-1317 }, {  94,-1317 }, {  95,-1317 }, {  96,-1317 },
+
+ {  97,-1317 }, {  98,-1317 }, {  99,-1317 }, { 100,-1317 }, { 101,-1317 },
+ { 102,-1317 }, { 103,-1317 }, { 104,-1317 }, { 105,-1317 }, { 106,-1317 },
+ { 107,-1317 }, { 108,-1317 }, { 109,-1317 }, { 110,-1317 }, { 111,-1317 },
+ { 112,-1317 }, { 113,-1317 }, { 114,-1317 }, { 115,-1317 }, { 116,-1317 },
+ { 117,-1317 }, { 118,-1317 }, { 119,-1317 }, { 120,-1317 }, { 121,-1317 },
+ { 122,-1317 }, { 123,-1317 }, { 124,-1317 }, { 125, 902 }, { 126,1160 },
+ { 127,-1317 }, { 128,-1317 }, { 129,-1317 }, { 130,-1317 }, { 131,-1317 },
+ { 132,-1317 }, { 133,-1317 }, { 134,-1317 }, { 135,-1317 }, { 136,-1317 },
+ { 137,-1317 }, { 138,-1317 }, { 139,-1317 }, { 140,-1317 }, { 141,-1317 },
+ { 142,-1317 }, { 143,-1317 }, { 144,-1317 }, { 145,-1317 }, { 146,-1317 },
+
+ { 147,-1317 }, { 148,-1317 }, { 149,-1317 }, { 150,-1317 }, { 151,-1317 },
+ { 152,-1317 }, { 153,-1317 }, { 154,-1317 }, { 155,-1317 }, { 156,-1317 },
+ { 157,-1317 }, { 158,-1317 }, { 159,-1317 }, { 160,-1317 }, { 161,-1317 },
+ { 162,-1317 }, { 163,-1317 }, { 164,-1317 }, { 165,-1317 }, { 166,-1317 },
+ { 167,-1317 }, { 168,-1317 }, { 169,-1317 }, { 170,-1317 }, { 171,-1317 },
+ { 172,-1317 }, { 173,-1317 }, { 174,-1317 }, { 175,-1317 }, { 176,-1317 },
+ { 177,-1317 }, { 178,-1317 }, { 179,-1317 }, { 180,-1317 }, { 181,-1317 },
+ { 182,-1317 }, { 183,-1317 }, { 184,-1317 }, { 185,-1317 }, { 186,-1317 },
+ { 187,-1317 }, { 188,-1317 }, { 189,-1317 }, { 190,-1317 }, { 191,-1317 },
+ { 192,-1317 }, { 193,-1317 }, { 194,-1317 }, { 195,-1317 }, { 196,-1317 },
+
+ { 197,-1317 }, { 198,-1317 }, { 199,-1317 }, { 200,-1317 }, { 201,-1317 },
+ { 202,-1317 }, { 203,-1317 }, { 204,-1317 }, { 205,-1317 }, { 206,-1317 },
+ { 207,-1317 }, { 208,-1317 }, { 209,-1317 }, { 210,-1317 }, { 211,-1317 },
+ { 212,-1317 }, { 213,-1317 }, { 214,-1317 }, { 215,-1317 }, { 216,-1317 },
+ { 217,-1317 }, { 218,-1317 }, { 219,-1317 }, { 220,-1317 }, { 221,-1317 },
+ { 222,-1317 }, { 223,-1317 }, { 224,-1317 }, { 225,-1317 }, { 226,-1317 },
+ { 227,-1317 }, { 228,-1317 }, { 229,-1317 }, { 230,-1317 }, { 231,-1317 },
+ { 232,-1317 }, { 233,-1317 }, { 234,-1317 }, { 235,-1317 }, { 236,-1317 },
+ { 237,-1317 }, { 238,-1317 }, { 239,-1317 }, { 240,-1317 }, { 241,-1317 },
+ { 242,-1317 }, { 243,-1317 }, { 244,-1317 }, { 245,-1317 }, { 246,-1317 },
+
+ { 247,-1317 }, { 248,-1317 }, { 249,-1317 }, { 250,-1317 }, { 251,-1317 },
+ { 252,-1317 }, { 253,-1317 }, { 254,-1317 }, { 255,-1317 }, { 256,-1317 },
+ {   0,   0 }, {   0,2718 }, {   1,1160 }, {   2,1160 }, {   3,1160 },
+ {   4,1160 }, {   5,1160 }, {   6,1160 }, {   7,1160 }, {   8,1160 },
+ {   0,   0 }, {   0,   0 }, {  11,1160 }, {  12,1160 }, {   0,   0 },
+ {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 }, {  18,1160 },
+ {  19,1160 }, {  20,1160 }, {  21,1160 }, {  22,1160 }, {  23,1160 },
+ {  24,1160 }, {  25,1160 }, {  26,1160 }, {  27,1160 }, {  28,1160 },
+ {  29,1160 }, {  30,1160 }, {  31,1160 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,1160 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,1160 }, {   0,   0 }, {   0,   0 }, {  48,1160 },
+ {  49,1160 }, {  50,1160 }, {  51,1160 }, {  52,1160 }, {  53,1160 },
+ {  54,1160 }, {  55,1160 }, {  56,1160 }, {  57,1160 }, {  58,1160 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,1160 },
+ {   0,   0 }, {  65,1160 }, {  66,1160 }, {  67,1160 }, {  68,1160 },
+ {  69,1160 }, {  70,1160 }, {  71,1160 }, {  72,1160 }, {  73,1160 },
+ {  74,1160 }, {  75,1160 }, {  76,1160 }, {  77,1160 }, {  78,1160 },
+ {  79,1160 }, {  80,1160 }, {  81,1160 }, {  82,1160 }, {  83,1160 },
+ {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 }, {  88,1160 },
+
+ {  89,1160 }, {  90,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,1160 }, {   0,   0 }, {  97,1160 }, {  98,1160 },
+ {  99,1160 }, { 100,1160 }, { 101,1160 }, { 102,1160 }, { 103,1160 },
+ { 104,1160 }, { 105,1160 }, { 106,1160 }, { 107,1160 }, { 108,1160 },
+ { 109,1160 }, { 110,1160 }, { 111,1160 }, { 112,1160 }, { 113,1160 },
+ { 114,1160 }, { 115,1160 }, { 116,1160 }, { 117,1160 }, { 118,1160 },
+ { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1160 }, { 128,1160 },
+ { 129,1160 }, { 130,1160 }, { 131,1160 }, { 132,1160 }, { 133,1160 },
+ { 134,1160 }, { 135,1160 }, { 136,1160 }, { 137,1160 }, { 138,1160 },
+
+ { 139,1160 }, { 140,1160 }, { 141,1160 }, { 142,1160 }, { 143,1160 },
+ { 144,1160 }, { 145,1160 }, { 146,1160 }, { 147,1160 }, { 148,1160 },
+ { 149,1160 }, { 150,1160 }, { 151,1160 }, { 152,1160 }, { 153,1160 },
+ { 154,1160 }, { 155,1160 }, { 156,1160 }, { 157,1160 }, { 158,1160 },
+ { 159,1160 }, { 160,1160 }, { 161,1160 }, { 162,1160 }, { 163,1160 },
+ { 164,1160 }, { 165,1160 }, { 166,1160 }, { 167,1160 }, { 168,1160 },
+ { 169,1160 }, { 170,1160 }, { 171,1160 }, { 172,1160 }, { 173,1160 },
+ { 174,1160 }, { 175,1160 }, { 176,1160 }, { 177,1160 }, { 178,1160 },
+ { 179,1160 }, { 180,1160 }, { 181,1160 }, { 182,1160 }, { 183,1160 },
+ { 184,1160 }, { 185,1160 }, { 186,1160 }, { 187,1160 }, { 188,1160 },
+
+ { 189,1160 }, { 190,1160 }, { 191,1160 }, { 192,1160 }, { 193,1160 },
+ { 194,1160 }, { 195,1160 }, { 196,1160 }, { 197,1160 }, { 198,1160 },
+ { 199,1160 }, { 200,1160 }, { 201,1160 }, { 202,1160 }, { 203,1160 },
+ { 204,1160 }, { 205,1160 }, { 206,1160 }, { 207,1160 }, { 208,1160 },
+ { 209,1160 }, { 210,1160 }, { 211,1160 }, { 212,1160 }, { 213,1160 },
+ { 214,1160 }, { 215,1160 }, { 216,1160 }, { 217,1160 }, { 218,1160 },
+ { 219,1160 }, { 220,1160 }, { 221,1160 }, { 222,1160 }, { 223,1160 },
+ { 224,1160 }, { 225,1160 }, { 226,1160 }, { 227,1160 }, { 228,1160 },
+ { 229,1160 }, { 230,1160 }, { 231,1160 }, { 232,1160 }, { 233,1160 },
+ { 234,1160 }, { 235,1160 }, { 236,1160 }, { 237,1160 }, { 238,1160 },
+
+ { 239,1160 }, { 240,1160 }, { 241,1160 }, { 242,1160 }, { 243,1160 },
+ { 244,1160 }, { 245,1160 }, { 246,1160 }, { 247,1160 }, { 248,1160 },
+ { 249,1160 }, { 250,1160 }, { 251,1160 }, { 252,1160 }, { 253,1160 },
+ { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 }, {   0,2460 },
+ {   1,-10721 }, {   2,-10721 }, {   3,-10721 }, {   4,-10721 }, {   5,-10721 },
+ {   6,-10721 }, {   7,-10721 }, {   8,-10721 }, {   9,-10746 }, {  10,-10746 },
+ {  11,-10721 }, {  12,-10721 }, {  13,-10746 }, {  14,-10721 }, {  15,-10721 },
+ {  16,-10721 }, {  17,-10721 }, {  18,-10721 }, {  19,-10721 }, {  20,-10721 },
+ {  21,-10721 }, {  22,-10721 }, {  23,-10721 }, {  24,-10721 }, {  25,-10721 },
+ {  26,-10721 }, {  27,-10721 }, {  28,-10721 }, {  29,-10721 }, {  30,-10721 },
+
+ {  31,-10721 }, {  32,-10746 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-10721 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-10746 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-10721 },
+ {  46,-10746 }, {  47,-10746 }, {  48,-10721 }, {  49,-10721 }, {  50,-10721 },
+ {  51,-10721 }, {  52,-10721 }, {  53,-10721 }, {  54,-10721 }, {  55,-10721 },
+ {  56,-10721 }, {  57,-10721 }, {  58,-10721 }, {   0,   0 }, {   0,   0 },
+ {  61,-10746 }, {   0,   0 }, {  63,-10721 }, {   0,   0 }, {  65,-10721 },
+ {  66,-10721 }, {  67,-10721 }, {  68,-10721 }, {  69,-10721 }, {  70,-10721 },
+ {  71,-10721 }, {  72,-10721 }, {  73,-10721 }, {  74,-10721 }, {  75,-10721 },
+ {  76,-10721 }, {  77,-10721 }, {  78,-10721 }, {  79,-10721 }, {  80,-10721 },
+
+ {  81,-10721 }, {  82,-10721 }, {  83,-10721 }, {  84,-10721 }, {  85,-10721 },
+ {  86,-10721 }, {  87,-10721 }, {  88,-10721 }, {  89,-10721 }, {  90,-10721 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-10721 },
+ {   0,   0 }, {  97,-10721 }, {  98,-10721 }, {  99,-10721 }, { 100,-10721 },
+ { 101,-10721 }, { 102,-10721 }, { 103,-10721 }, { 104,-10721 }, { 105,-10721 },
+ { 106,-10721 }, { 107,-10721 }, { 108,-10721 }, { 109,-10721 }, { 110,1160 },
+ { 111,-10721 }, { 112,-10721 }, { 113,-10721 }, { 114,-10721 }, { 115,-10721 },
+ { 116,-10721 }, { 117,-10721 }, { 118,-10721 }, { 119,-10721 }, { 120,-10721 },
+ { 121,-10721 }, { 122,-10721 }, {   0,   0 }, { 124,-10746 }, { 125,-10746 },
+ { 126,-10746 }, { 127,-10721 }, { 128,-10721 }, { 129,-10721 }, { 130,-10721 },
+
+ { 131,-10721 }, { 132,-10721 }, { 133,-10721 }, { 134,-10721 }, { 135,-10721 },
+ { 136,-10721 }, { 137,-10721 }, { 138,-10721 }, { 139,-10721 }, { 140,-10721 },
+ { 141,-10721 }, { 142,-10721 }, { 143,-10721 }, { 144,-10721 }, { 145,-10721 },
+ { 146,-10721 }, { 147,-10721 }, { 148,-10721 }, { 149,-10721 }, { 150,-10721 },
+ { 151,-10721 }, { 152,-10721 }, { 153,-10721 }, { 154,-10721 }, { 155,-10721 },
+ { 156,-10721 }, { 157,-10721 }, { 158,-10721 }, { 159,-10721 }, { 160,-10721 },
+ { 161,-10721 }, { 162,-10721 }, { 163,-10721 }, { 164,-10721 }, { 165,-10721 },
+ { 166,-10721 }, { 167,-10721 }, { 168,-10721 }, { 169,-10721 }, { 170,-10721 },
+ { 171,-10721 }, { 172,-10721 }, { 173,-10721 }, { 174,-10721 }, { 175,-10721 },
+ { 176,-10721 }, { 177,-10721 }, { 178,-10721 }, { 179,-10721 }, { 180,-10721 },
+
+ { 181,-10721 }, { 182,-10721 }, { 183,-10721 }, { 184,-10721 }, { 185,-10721 },
+ { 186,-10721 }, { 187,-10721 }, { 188,-10721 }, { 189,-10721 }, { 190,-10721 },
+ { 191,-10721 }, { 192,-10721 }, { 193,-10721 }, { 194,-10721 }, { 195,-10721 },
+ { 196,-10721 }, { 197,-10721 }, { 198,-10721 }, { 199,-10721 }, { 200,-10721 },
+ { 201,-10721 }, { 202,-10721 }, { 203,-10721 }, { 204,-10721 }, { 205,-10721 },
+ { 206,-10721 }, { 207,-10721 }, { 208,-10721 }, { 209,-10721 }, { 210,-10721 },
+ { 211,-10721 }, { 212,-10721 }, { 213,-10721 }, { 214,-10721 }, { 215,-10721 },
+ { 216,-10721 }, { 217,-10721 }, { 218,-10721 }, { 219,-10721 }, { 220,-10721 },
+ { 221,-10721 }, { 222,-10721 }, { 223,-10721 }, { 224,-10721 }, { 225,-10721 },
+ { 226,-10721 }, { 227,-10721 }, { 228,-10721 }, { 229,-10721 }, { 230,-10721 },
+
+ { 231,-10721 }, { 232,-10721 }, { 233,-10721 }, { 234,-10721 }, { 235,-10721 },
+ { 236,-10721 }, { 237,-10721 }, { 238,-10721 }, { 239,-10721 }, { 240,-10721 },
+ { 241,-10721 }, { 242,-10721 }, { 243,-10721 }, { 244,-10721 }, { 245,-10721 },
+ { 246,-10721 }, { 247,-10721 }, { 248,-10721 }, { 249,-10721 }, { 250,-10721 },
+ { 251,-10721 }, { 252,-10721 }, { 253,-10721 }, { 254,-10721 }, { 255,-10721 },
+ { 256,-10721 }, {   0,   0 }, {   0,2202 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   9,1160 }, {  10,1160 }, {   0,   0 }, {   0,   0 },
+ {  13,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1160 },
+ {  33,-1292 }, {  34,-1292 }, {  35,-1292 }, {   0,   0 }, {  37,-1292 },
+ {  38,-1292 }, {  39,-1292 }, {  40,-1292 }, {  41,-1292 }, {  42,-1292 },
+ {  43,-1292 }, {  44,-1292 }, {   0,   0 }, {  46,-1292 }, {  47,-1292 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  59,-1292 }, {  60,-1292 }, {  61,-1292 }, {  62,-1292 },
+ {   0,   0 }, {  64,-1292 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  91,-1292 }, {  92,-1292 },
+ {  93,-1292 }, {  94,-1292 }, {   0,   0 }, {  96,-1292 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ { 123,-1292 }, { 124,-1292 }, { 125,1162 }, { 126,1164 }, {   0,   0 },
+ {   0,2074 }, {   1,-2219 }, {   2,-2219 }, {   3,-2219 }, {   4,-2219 },
+ {   5,-2219 }, {   6,-2219 }, {   7,-2219 }, {   8,-2219 }, {   9,-2219 },
+ {  10,-2219 }, {  11,-2219 }, {  12,-2219 }, {  13,-2219 }, {  14,-2219 },
+ {  15,-2219 }, {  16,-2219 }, {  17,-2219 }, {  18,-2219 }, {  19,-2219 },
+ {  20,-2219 }, {  21,-2219 }, {  22,-2219 }, {  23,-2219 }, {  24,-2219 },
+ {  25,-2219 }, {  26,-2219 }, {  27,-2219 }, {  28,-2219 }, {  29,-2219 },
+ {  30,-2219 }, {  31,-2219 }, {  32,-2219 }, {  33,-2219 }, {  34,-2219 },
+ {  35,-2219 }, {  36,-2219 }, {  37,-2219 }, {  38,-2219 }, {  39,-2219 },
+ {  40,-2219 }, {  41,-2219 }, {  42,-2219 }, {  43,-2219 }, {  44,-2219 },
+
+ {  45,1163 }, {  46,-2219 }, {  47,-2219 }, {  48,-2219 }, {  49,-2219 },
+ {  50,-2219 }, {  51,-2219 }, {  52,-2219 }, {  53,-2219 }, {  54,-2219 },
+ {  55,-2219 }, {  56,-2219 }, {  57,-2219 }, {  58,-2219 }, {  59,-2219 },
+ {  60,-2219 }, {  61,-2219 }, {  62,-2219 }, {  63,-2219 }, {  64,-2219 },
+ {  65,-2219 }, {  66,-2219 }, {  67,-2219 }, {  68,-2219 }, {  69,-2219 },
+ {  70,-2219 }, {  71,-2219 }, {  72,-2219 }, {  73,-2219 }, {  74,-2219 },
+ {  75,-2219 }, {  76,-2219 }, {  77,-2219 }, {  78,-2219 }, {  79,-2219 },
+ {  80,-2219 }, {  81,-2219 }, {  82,-2219 }, {  83,-2219 }, {  84,-2219 },
+ {  85,-2219 }, {  86,-2219 }, {  87,-2219 }, {  88,-2219 }, {  89,-2219 },
+ {  90,-2219 }, {  91,-2219 }, {  92,-2219 }, {  93,-2219 }, {  94,-2219 },
+
+ {  95,-2219 }, {  96,-2219 }, {  97,-2219 }, {  98,-2219 }, {  99,-2219 },
+ { 100,-2219 }, { 101,-2219 }, { 102,-2219 }, { 103,-2219 }, { 104,-2219 },
+ { 105,-2219 }, { 106,-2219 }, { 107,-2219 }, { 108,-2219 }, { 109,-2219 },
+ { 110,-2219 }, { 111,-2219 }, { 112,-2219 }, { 113,-2219 }, { 114,-2219 },
+ { 115,-2219 }, { 116,-2219 }, { 117,-2219 }, { 118,-2219 }, { 119,-2219 },
+ { 120,-2219 }, { 121,-2219 }, { 122,-2219 }, { 123,-2219 }, { 124,-2219 },
+ { 125,1038 }, { 126,-2219 }, { 127,-2219 }, { 128,-2219 }, { 129,-2219 },
+ { 130,-2219 }, { 131,-2219 }, { 132,-2219 }, { 133,-2219 }, { 134,-2219 },
+ { 135,-2219 }, { 136,-2219 }, { 137,-2219 }, { 138,-2219 }, { 139,-2219 },
+ { 140,-2219 }, { 141,-2219 }, { 142,-2219 }, { 143,-2219 }, { 144,-2219 },
+
+ { 145,-2219 }, { 146,-2219 }, { 147,-2219 }, { 148,-2219 }, { 149,-2219 },
+ { 150,-2219 }, { 151,-2219 }, { 152,-2219 }, { 153,-2219 }, { 154,-2219 },
+ { 155,-2219 }, { 156,-2219 }, { 157,-2219 }, { 158,-2219 }, { 159,-2219 },
+ { 160,-2219 }, { 161,-2219 }, { 162,-2219 }, { 163,-2219 }, { 164,-2219 },
+ { 165,-2219 }, { 166,-2219 }, { 167,-2219 }, { 168,-2219 }, { 169,-2219 },
+ { 170,-2219 }, { 171,-2219 }, { 172,-2219 }, { 173,-2219 }, { 174,-2219 },
+ { 175,-2219 }, { 176,-2219 }, { 177,-2219 }, { 178,-2219 }, { 179,-2219 },
+ { 180,-2219 }, { 181,-2219 }, { 182,-2219 }, { 183,-2219 }, { 184,-2219 },
+ { 185,-2219 }, { 186,-2219 }, { 187,-2219 }, { 188,-2219 }, { 189,-2219 },
+ { 190,-2219 }, { 191,-2219 }, { 192,-2219 }, { 193,-2219 }, { 194,-2219 },
+
+ { 195,-2219 }, { 196,-2219 }, { 197,-2219 }, { 198,-2219 }, { 199,-2219 },
+ { 200,-2219 }, { 201,-2219 }, { 202,-2219 }, { 203,-2219 }, { 204,-2219 },
+ { 205,-2219 }, { 206,-2219 }, { 207,-2219 }, { 208,-2219 }, { 209,-2219 },
+ { 210,-2219 }, { 211,-2219 }, { 212,-2219 }, { 213,-2219 }, { 214,-2219 },
+ { 215,-2219 }, { 216,-2219 }, { 217,-2219 }, { 218,-2219 }, { 219,-2219 },
+ { 220,-2219 }, { 221,-2219 }, { 222,-2219 }, { 223,-2219 }, { 224,-2219 },
+ { 225,-2219 }, { 226,-2219 }, { 227,-2219 }, { 228,-2219 }, { 229,-2219 },
+ { 230,-2219 }, { 231,-2219 }, { 232,-2219 }, { 233,-2219 }, { 234,-2219 },
+ { 235,-2219 }, { 236,-2219 }, { 237,-2219 }, { 238,-2219 }, { 239,-2219 },
+ { 240,-2219 }, { 241,-2219 }, { 242,-2219 }, { 243,-2219 }, { 244,-2219 },
+
+ { 245,-2219 }, { 246,-2219 }, { 247,-2219 }, { 248,-2219 }, { 249,-2219 },
+ { 250,-2219 }, { 251,-2219 }, { 252,-2219 }, { 253,-2219 }, { 254,-2219 },
+ { 255,-2219 }, { 256,-2219 }, {   0,   0 }, {   0,1816 }, {   1,-2477 },
+ {   2,-2477 }, {   3,-2477 }, {   4,-2477 }, {   5,-2477 }, {   6,-2477 },
+ {   7,-2477 }, {   8,-2477 }, {   9,-2477 }, {  10,-2477 }, {  11,-2477 },
+ {  12,-2477 }, {  13,-2477 }, {  14,-2477 }, {  15,-2477 }, {  16,-2477 },
+ {  17,-2477 }, {  18,-2477 }, {  19,-2477 }, {  20,-2477 }, {  21,-2477 },
+ {  22,-2477 }, {  23,-2477 }, {  24,-2477 }, {  25,-2477 }, {  26,-2477 },
+ {  27,-2477 }, {  28,-2477 }, {  29,-2477 }, {  30,-2477 }, {  31,-2477 },
+ {  32,-2477 }, {  33,-2477 }, {  34,-2477 }, {  35,-2477 }, {  36,-2477 },
+
+ {  37,-2477 }, {  38,-2477 }, {  39,-2477 }, {  40,-2477 }, {  41,-2477 },
+ {  42,-2477 }, {  43,-2477 }, {  44,-2477 }, {  45, 905 }, {  46,-2477 },
+ {  47,-2477 }, {  48,-2477 }, {  49,-2477 }, {  50,-2477 }, {  51,-2477 },
+ {  52,-2477 }, {  53,-2477 }, {  54,-2477 }, {  55,-2477 }, {  56,-2477 },
+ {  57,-2477 }, {  58,-2477 }, {  59,-2477 }, {  60,-2477 }, {  61,-2477 },
+ {  62,-2477 }, {  63,-2477 }, {  64,-2477 }, {  65,-2477 }, {  66,-2477 },
+ {  67,-2477 }, {  68,-2477 }, {  69,-2477 }, {  70,-2477 }, {  71,-2477 },
+ {  72,-2477 }, {  73,-2477 }, {  74,-2477 }, {  75,-2477 }, {  76,-2477 },
+ {  77,-2477 }, {  78,-2477 }, {  79,-2477 }, {  80,-2477 }, {  81,-2477 },
+ {  82,-2477 }, {  83,-2477 }, {  84,-2477 }, {  85,-2477 }, {  86,-2477 },
+
+ {  87,-2477 }, {  88,-2477 }, {  89,-2477 }, {  90,-2477 }, {  91,-2477 },
+ {  92,-2477 }, {  93,-2477 }, {  94,-2477 }, {  95,-2477 }, {  96,-2477 },
+ {  97,-2477 }, {  98,-2477 }, {  99,-2477 }, { 100,-2477 }, { 101,-2477 },
+ { 102,-2477 }, { 103,-2477 }, { 104,-2477 }, { 105,-2477 }, { 106,-2477 },
+ { 107,-2477 }, { 108,-2477 }, { 109,-2477 }, { 110,-2477 }, { 111,-2477 },
+ { 112,-2477 }, { 113,-2477 }, { 114,-2477 }, { 115,-2477 }, { 116,-2477 },
+ { 117,-2477 }, { 118,-2477 }, { 119,-2477 }, { 120,-2477 }, { 121,-2477 },
+ { 122,-2477 }, { 123,-2477 }, { 124,-2477 }, { 125,-258 }, { 126,-2477 },
+ { 127,-2477 }, { 128,-2477 }, { 129,-2477 }, { 130,-2477 }, { 131,-2477 },
+ { 132,-2477 }, { 133,-2477 }, { 134,-2477 }, { 135,-2477 }, { 136,-2477 },
+
+ { 137,-2477 }, { 138,-2477 }, { 139,-2477 }, { 140,-2477 }, { 141,-2477 },
+ { 142,-2477 }, { 143,-2477 }, { 144,-2477 }, { 145,-2477 }, { 146,-2477 },
+ { 147,-2477 }, { 148,-2477 }, { 149,-2477 }, { 150,-2477 }, { 151,-2477 },
+ { 152,-2477 }, { 153,-2477 }, { 154,-2477 }, { 155,-2477 }, { 156,-2477 },
+ { 157,-2477 }, { 158,-2477 }, { 159,-2477 }, { 160,-2477 }, { 161,-2477 },
+ { 162,-2477 }, { 163,-2477 }, { 164,-2477 }, { 165,-2477 }, { 166,-2477 },
+ { 167,-2477 }, { 168,-2477 }, { 169,-2477 }, { 170,-2477 }, { 171,-2477 },
+ { 172,-2477 }, { 173,-2477 }, { 174,-2477 }, { 175,-2477 }, { 176,-2477 },
+ { 177,-2477 }, { 178,-2477 }, { 179,-2477 }, { 180,-2477 }, { 181,-2477 },
+ { 182,-2477 }, { 183,-2477 }, { 184,-2477 }, { 185,-2477 }, { 186,-2477 },
+
+ { 187,-2477 }, { 188,-2477 }, { 189,-2477 }, { 190,-2477 }, { 191,-2477 },
+ { 192,-2477 }, { 193,-2477 }, { 194,-2477 }, { 195,-2477 }, { 196,-2477 },
+ { 197,-2477 }, { 198,-2477 }, { 199,-2477 }, { 200,-2477 }, { 201,-2477 },
+ { 202,-2477 }, { 203,-2477 }, { 204,-2477 }, { 205,-2477 }, { 206,-2477 },
+ { 207,-2477 }, { 208,-2477 }, { 209,-2477 }, { 210,-2477 }, { 211,-2477 },
+ { 212,-2477 }, { 213,-2477 }, { 214,-2477 }, { 215,-2477 }, { 216,-2477 },
+ { 217,-2477 }, { 218,-2477 }, { 219,-2477 }, { 220,-2477 }, { 221,-2477 },
+ { 222,-2477 }, { 223,-2477 }, { 224,-2477 }, { 225,-2477 }, { 226,-2477 },
+ { 227,-2477 }, { 228,-2477 }, { 229,-2477 }, { 230,-2477 }, { 231,-2477 },
+ { 232,-2477 }, { 233,-2477 }, { 234,-2477 }, { 235,-2477 }, { 236,-2477 },
+
+ { 237,-2477 }, { 238,-2477 }, { 239,-2477 }, { 240,-2477 }, { 241,-2477 },
+ { 242,-2477 }, { 243,-2477 }, { 244,-2477 }, { 245,-2477 }, { 246,-2477 },
+ { 247,-2477 }, { 248,-2477 }, { 249,-2477 }, { 250,-2477 }, { 251,-2477 },
+ { 252,-2477 }, { 253,-2477 }, { 254,-2477 }, { 255,-2477 }, { 256,-2477 },
+ {   0,   0 }, {   0,1558 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+ {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
+ {   0,   0 }, {   0,   0 }, {  11,   0 }, {  12,   0 }, {   0,   0 },
+ {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
+ {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
+ {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
 
- {  50,-12002 }, {  51,-12002 }, {  52,-12002 }, {  53,-12002 }, {  54,-12002 },
- {  55,-12002 }, {  56,-12002 }, {  57,-12002 }, {  58,-12002 }, {   0,   0 },
- {   0,   0 }, {  61,-12027 }, {   0,   0 }, {  63,-12002 }, {   0,   0 },
- {  65,-12002 }, {  66,-12002 }, {  67,-12002 }, {  68,-12002 }, {  69,-12002 },
- {  70,-12002 }, {  71,-12002 }, {  72,-12002 }, {  73,-12002 }, {  74,-12002 },
- {  75,-12002 }, {  76,-12002 }, {  77,-12002 }, {  78,-12002 }, {  79,-12002 },
- {  80,-12002 }, {  81,-12002 }, {  82,-12002 }, {  83,-12002 }, {  84,-12002 },
- {  85,-12002 }, {  86,-12002 }, {  87,-12002 }, {  88,-12002 }, {  89,-12002 },
- {  90,-12002 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-12002 }, {   0,   0 }, {  97,-12002 }, {  98,-12002 }, {  99,-12002 },
+ {  29,   0 }, {  30,   0 }, {  31,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 },
+ {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
+ {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,   0 },
+ {   0,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+ {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
+ {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
 
- { 100,-12002 }, { 101, 651 }, { 102,-12002 }, { 103,-12002 }, { 104,-12002 },
- { 105,-12002 }, { 106,-12002 }, { 107,-12002 }, { 108,-12002 }, { 109,-12002 },
- { 110,-12002 }, { 111,-12002 }, { 112,-12002 }, { 113,-12002 }, { 114,-12002 },
- { 115,-12002 }, { 116,-12002 }, { 117,-12002 }, { 118,-12002 }, { 119,-12002 },
- { 120,-12002 }, { 121,-12002 }, { 122,-12002 }, {   0,   0 }, { 124,-12027 },
- { 125,-12027 }, { 126,-12027 }, { 127,-12002 }, { 128,-12002 }, { 129,-12002 },
- { 130,-12002 }, { 131,-12002 }, { 132,-12002 }, { 133,-12002 }, { 134,-12002 },
- { 135,-12002 }, { 136,-12002 }, { 137,-12002 }, { 138,-12002 }, { 139,-12002 },
- { 140,-12002 }, { 141,-12002 }, { 142,-12002 }, { 143,-12002 }, { 144,-12002 },
- { 145,-12002 }, { 146,-12002 }, { 147,-12002 }, { 148,-12002 }, { 149,-12002 },
-
- { 150,-12002 }, { 151,-12002 }, { 152,-12002 }, { 153,-12002 }, { 154,-12002 },
- { 155,-12002 }, { 156,-12002 }, { 157,-12002 }, { 158,-12002 }, { 159,-12002 },
- { 160,-12002 }, { 161,-12002 }, { 162,-12002 }, { 163,-12002 }, { 164,-12002 },
- { 165,-12002 }, { 166,-12002 }, { 167,-12002 }, { 168,-12002 }, { 169,-12002 },
- { 170,-12002 }, { 171,-12002 }, { 172,-12002 }, { 173,-12002 }, { 174,-12002 },
- { 175,-12002 }, { 176,-12002 }, { 177,-12002 }, { 178,-12002 }, { 179,-12002 },
- { 180,-12002 }, { 181,-12002 }, { 182,-12002 }, { 183,-12002 }, { 184,-12002 },
- { 185,-12002 }, { 186,-12002 }, { 187,-12002 }, { 188,-12002 }, { 189,-12002 },
- { 190,-12002 }, { 191,-12002 }, { 192,-12002 }, { 193,-12002 }, { 194,-12002 },
- { 195,-12002 }, { 196,-12002 }, { 197,-12002 }, { 198,-12002 }, { 199,-12002 },
-
- { 200,-12002 }, { 201,-12002 }, { 202,-12002 }, { 203,-12002 }, { 204,-12002 },
- { 205,-12002 }, { 206,-12002 }, { 207,-12002 }, { 208,-12002 }, { 209,-12002 },
- { 210,-12002 }, { 211,-12002 }, { 212,-12002 }, { 213,-12002 }, { 214,-12002 },
- { 215,-12002 }, { 216,-12002 }, { 217,-12002 }, { 218,-12002 }, { 219,-12002 },
- { 220,-12002 }, { 221,-12002 }, { 222,-12002 }, { 223,-12002 }, { 224,-12002 },
- { 225,-12002 }, { 226,-12002 }, { 227,-12002 }, { 228,-12002 }, { 229,-12002 },
- { 230,-12002 }, { 231,-12002 }, { 232,-12002 }, { 233,-12002 }, { 234,-12002 },
- { 235,-12002 }, { 236,-12002 }, { 237,-12002 }, { 238,-12002 }, { 239,-12002 },
- { 240,-12002 }, { 241,-12002 }, { 242,-12002 }, { 243,-12002 }, { 244,-12002 },
- { 245,-12002 }, { 246,-12002 }, { 247,-12002 }, { 248,-12002 }, { 249,-12002 },
-
- { 250,-12002 }, { 251,-12002 }, { 252,-12002 }, { 253,-12002 }, { 254,-12002 },
- { 255,-12002 }, { 256,-12002 }, {   0,   0 }, {   0,1173 }, {   0,   0 },
- {   0,1171 }, {   0,   0 }, {   0,1169 }, {   0,   0 }, {   0,1167 },
- {   0,  25 }, {   0,1165 }, {   9,   2 }, {  10,   2 }, {   9,   0 },
- {  10,   0 }, {  13,   2 }, {   0,   0 }, {  13,   0 }, {   0,  12 },
- {   0,1156 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  32,   2 }, {   0,   0 }, {  32,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   4 }, { 126,   6 },
- { 125,   2 }, { 126,   4 }, { 125, 423 }, {   0,   0 }, { 125,  -2 },
- {   0,   0 }, {   0,1040 }, {   1,-3509 }, {   2,-3509 }, {   3,-3509 },
- {   4,-3509 }, {   5,-3509 }, {   6,-3509 }, {   7,-3509 }, {   8,-3509 },
-
- {   9,-3509 }, {  10,-3509 }, {  11,-3509 }, {  12,-3509 }, {  13,-3509 },
- {  14,-3509 }, {  15,-3509 }, {  16,-3509 }, {  17,-3509 }, {  18,-3509 },
- {  19,-3509 }, {  20,-3509 }, {  21,-3509 }, {  22,-3509 }, {  23,-3509 },
- {  24,-3509 }, {  25,-3509 }, {  26,-3509 }, {  27,-3509 }, {  28,-3509 },
- {  29,-3509 }, {  30,-3509 }, {  31,-3509 }, {  32,-3509 }, {  33,-3509 },
- {  34,-3509 }, {  35,-3509 }, {  36,-3509 }, {  37,-3509 }, {  38,-3509 },
- {  39,-3509 }, {  40,-3509 }, {  41,-3509 }, {  42,-3509 }, {  43,-3509 },
- {  44,-3509 }, {  45,-2067 }, {  46,-3509 }, {  47,-3509 }, {  48,-3509 },
- {  49,-3509 }, {  50,-3509 }, {  51,-3509 }, {  52,-3509 }, {  53,-3509 },
- {  54,-3509 }, {  55,-3509 }, {  56,-3509 }, {  57,-3509 }, {  58,-3509 },
-
- {  59,-3509 }, {  60,-3509 }, {  61,-3509 }, {  62,-3509 }, {  63,-3509 },
- {  64,-3509 }, {  65,-3509 }, {  66,-3509 }, {  67,-3509 }, {  68,-3509 },
- {  69,-3509 }, {  70,-3509 }, {  71,-3509 }, {  72,-3509 }, {  73,-3509 },
- {  74,-3509 }, {  75,-3509 }, {  76,-3509 }, {  77,-3509 }, {  78,-3509 },
- {  79,-3509 }, {  80,-3509 }, {  81,-3509 }, {  82,-3509 }, {  83,-3509 },
- {  84,-3509 }, {  85,-3509 }, {  86,-3509 }, {  87,-3509 }, {  88,-3509 },
- {  89,-3509 }, {  90,-3509 }, {  91,-3509 }, {  92,-3509 }, {  93,-3509 },
- {  94,-3509 }, {  95,-3509 }, {  96,-3509 }, {  97,-3509 }, {  98,-3509 },
- {  99,-3509 }, { 100,-3509 }, { 101,-3509 }, { 102,-3509 }, { 103,-3509 },
- { 104,-3509 }, { 105,-3509 }, { 106,-3509 }, { 107,-3509 }, { 108,-3509 },
-
- { 109,-3509 }, { 110,-3509 }, { 111,-3509 }, { 112,-3509 }, { 113,-3509 },
- { 114,-3509 }, { 115,-3509 }, { 116,-3509 }, { 117,-3509 }, { 118,-3509 },
- { 119,-3509 }, { 120,-3509 }, { 121,-3509 }, { 122,-3509 }, { 123,-3509 },
- { 124,-3509 }, { 125,-3509 }, { 126,-3509 }, { 127,-3509 }, { 128,-3509 },
- { 129,-3509 }, { 130,-3509 }, { 131,-3509 }, { 132,-3509 }, { 133,-3509 },
- { 134,-3509 }, { 135,-3509 }, { 136,-3509 }, { 137,-3509 }, { 138,-3509 },
- { 139,-3509 }, { 140,-3509 }, { 141,-3509 }, { 142,-3509 }, { 143,-3509 },
- { 144,-3509 }, { 145,-3509 }, { 146,-3509 }, { 147,-3509 }, { 148,-3509 },
- { 149,-3509 }, { 150,-3509 }, { 151,-3509 }, { 152,-3509 }, { 153,-3509 },
- { 154,-3509 }, { 155,-3509 }, { 156,-3509 }, { 157,-3509 }, { 158,-3509 },
-
- { 159,-3509 }, { 160,-3509 }, { 161,-3509 }, { 162,-3509 }, { 163,-3509 },
- { 164,-3509 }, { 165,-3509 }, { 166,-3509 }, { 167,-3509 }, { 168,-3509 },
- { 169,-3509 }, { 170,-3509 }, { 171,-3509 }, { 172,-3509 }, { 173,-3509 },
- { 174,-3509 }, { 175,-3509 }, { 176,-3509 }, { 177,-3509 }, { 178,-3509 },
- { 179,-3509 }, { 180,-3509 }, { 181,-3509 }, { 182,-3509 }, { 183,-3509 },
- { 184,-3509 }, { 185,-3509 }, { 186,-3509 }, { 187,-3509 }, { 188,-3509 },
- { 189,-3509 }, { 190,-3509 }, { 191,-3509 }, { 192,-3509 }, { 193,-3509 },
- { 194,-3509 }, { 195,-3509 }, { 196,-3509 }, { 197,-3509 }, { 198,-3509 },
- { 199,-3509 }, { 200,-3509 }, { 201,-3509 }, { 202,-3509 }, { 203,-3509 },
- { 204,-3509 }, { 205,-3509 }, { 206,-3509 }, { 207,-3509 }, { 208,-3509 },
-
- { 209,-3509 }, { 210,-3509 }, { 211,-3509 }, { 212,-3509 }, { 213,-3509 },
- { 214,-3509 }, { 215,-3509 }, { 216,-3509 }, { 217,-3509 }, { 218,-3509 },
- { 219,-3509 }, { 220,-3509 }, { 221,-3509 }, { 222,-3509 }, { 223,-3509 },
- { 224,-3509 }, { 225,-3509 }, { 226,-3509 }, { 227,-3509 }, { 228,-3509 },
- { 229,-3509 }, { 230,-3509 }, { 231,-3509 }, { 232,-3509 }, { 233,-3509 },
- { 234,-3509 }, { 235,-3509 }, { 236,-3509 }, { 237,-3509 }, { 238,-3509 },
- { 239,-3509 }, { 240,-3509 }, { 241,-3509 }, { 242,-3509 }, { 243,-3509 },
- { 244,-3509 }, { 245,-3509 }, { 246,-3509 }, { 247,-3509 }, { 248,-3509 },
- { 249,-3509 }, { 250,-3509 }, { 251,-3509 }, { 252,-3509 }, { 253,-3509 },
- { 254,-3509 }, { 255,-3509 }, { 256,-3509 }, {   0,   0 }, {   0, 782 },
-
- {   0,   0 }, {   0, 780 }, {   1,-12653 }, {   2,-12653 }, {   3,-12653 },
- {   4,-12653 }, {   5,-12653 }, {   6,-12653 }, {   7,-12653 }, {   8,-12653 },
- {   9,-12678 }, {  10,-12678 }, {  11,-12653 }, {  12,-12653 }, {  13,-12678 },
- {  14,-12653 }, {  15,-12653 }, {  16,-12653 }, {  17,-12653 }, {  18,-12653 },
- {  19,-12653 }, {  20,-12653 }, {  21,-12653 }, {  22,-12653 }, {  23,-12653 },
- {  24,-12653 }, {  25,-12653 }, {  26,-12653 }, {  27,-12653 }, {  28,-12653 },
- {  29,-12653 }, {  30,-12653 }, {  31,-12653 }, {  32,-12678 }, {   0,  23 },
- {   0, 746 }, {   0,   0 }, {  36,-12653 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-12678 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-12653 }, {  46,-12678 }, {  47,-12678 }, {  48,-12653 },
-
- {  49,-12653 }, {  50,-12653 }, {  51,-12653 }, {  52,-12653 }, {  53,-12653 },
- {  54,-12653 }, {  55,-12653 }, {  56,-12653 }, {  57,-12653 }, {  58,-12653 },
- {   0,   0 }, {   0,   0 }, {  61,-12678 }, {   0,   0 }, {  63,-12653 },
- {   0,   0 }, {  65,-12653 }, {  66,-12653 }, {  67,-12653 }, {  68,-12653 },
- {  69,-12653 }, {  70,-12653 }, {  71,-12653 }, {  72,-12653 }, {  73,-12653 },
- {  74,-12653 }, {  75,-12653 }, {  76,-12653 }, {  77,-12653 }, {  78,-12653 },
- {  79,-12653 }, {  80,-12653 }, {  81,-12653 }, {  82,-12653 }, {  83,-12653 },
- {  84,-12653 }, {  85,-12653 }, {  86,-12653 }, {  87,-12653 }, {  88,-12653 },
- {  89,-12653 }, {  90,-12653 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-12653 }, {   0,   0 }, {  97,-12653 }, {  98,-12653 },
-
- {  99,-12653 }, { 100, 260 }, { 101,-12653 }, { 102,-12653 }, { 103,-12653 },
- { 104,-12653 }, { 105,-12653 }, { 106,-12653 }, { 107,-12653 }, { 108,-12653 },
- { 109,-12653 }, { 110,-12653 }, { 111,-12653 }, { 112,-12653 }, { 113,-12653 },
- { 114,-12653 }, { 115,-12653 }, { 116,-12653 }, { 117,-12653 }, { 118,-12653 },
- { 119,-12653 }, { 120,-12653 }, { 121,-12653 }, { 122,-12653 }, { 125, 260 },
- { 124,-12678 }, { 125,-12678 }, { 126,-12678 }, { 127,-12653 }, { 128,-12653 },
- { 129,-12653 }, { 130,-12653 }, { 131,-12653 }, { 132,-12653 }, { 133,-12653 },
- { 134,-12653 }, { 135,-12653 }, { 136,-12653 }, { 137,-12653 }, { 138,-12653 },
- { 139,-12653 }, { 140,-12653 }, { 141,-12653 }, { 142,-12653 }, { 143,-12653 },
- { 144,-12653 }, { 145,-12653 }, { 146,-12653 }, { 147,-12653 }, { 148,-12653 },
-
- { 149,-12653 }, { 150,-12653 }, { 151,-12653 }, { 152,-12653 }, { 153,-12653 },
- { 154,-12653 }, { 155,-12653 }, { 156,-12653 }, { 157,-12653 }, { 158,-12653 },
- { 159,-12653 }, { 160,-12653 }, { 161,-12653 }, { 162,-12653 }, { 163,-12653 },
- { 164,-12653 }, { 165,-12653 }, { 166,-12653 }, { 167,-12653 }, { 168,-12653 },
- { 169,-12653 }, { 170,-12653 }, { 171,-12653 }, { 172,-12653 }, { 173,-12653 },
- { 174,-12653 }, { 175,-12653 }, { 176,-12653 }, { 177,-12653 }, { 178,-12653 },
- { 179,-12653 }, { 180,-12653 }, { 181,-12653 }, { 182,-12653 }, { 183,-12653 },
- { 184,-12653 }, { 185,-12653 }, { 186,-12653 }, { 187,-12653 }, { 188,-12653 },
- { 189,-12653 }, { 190,-12653 }, { 191,-12653 }, { 192,-12653 }, { 193,-12653 },
- { 194,-12653 }, { 195,-12653 }, { 196,-12653 }, { 197,-12653 }, { 198,-12653 },
-
- { 199,-12653 }, { 200,-12653 }, { 201,-12653 }, { 202,-12653 }, { 203,-12653 },
- { 204,-12653 }, { 205,-12653 }, { 206,-12653 }, { 207,-12653 }, { 208,-12653 },
- { 209,-12653 }, { 210,-12653 }, { 211,-12653 }, { 212,-12653 }, { 213,-12653 },
- { 214,-12653 }, { 215,-12653 }, { 216,-12653 }, { 217,-12653 }, { 218,-12653 },
- { 219,-12653 }, { 220,-12653 }, { 221,-12653 }, { 222,-12653 }, { 223,-12653 },
- { 224,-12653 }, { 225,-12653 }, { 226,-12653 }, { 227,-12653 }, { 228,-12653 },
- { 229,-12653 }, { 230,-12653 }, { 231,-12653 }, { 232,-12653 }, { 233,-12653 },
- { 234,-12653 }, { 235,-12653 }, { 236,-12653 }, { 237,-12653 }, { 238,-12653 },
- { 239,-12653 }, { 240,-12653 }, { 241,-12653 }, { 242,-12653 }, { 243,-12653 },
- { 244,-12653 }, { 245,-12653 }, { 246,-12653 }, { 247,-12653 }, { 248,-12653 },
+ {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
+ {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
+ {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 }, {  98,   0 },
+ {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
+ { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
+ { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
+ { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
+ { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 },
+ {   0,   0 }, { 125, 905 }, {   0,   0 }, { 127,   0 }, { 128,   0 },
 
- { 249,-12653 }, { 250,-12653 }, { 251,-12653 }, { 252,-12653 }, { 253,-12653 },
- { 254,-12653 }, { 255,-12653 }, { 256,-12653 }, {   0,   0 }, {   0, 522 },
- {   0,   0 }, {   0, 520 }, {   1,-12913 }, {   2,-12913 }, {   3,-12913 },
- {   4,-12913 }, {   5,-12913 }, {   6,-12913 }, {   7,-12913 }, {   8,-12913 },
- {   9, 260 }, {  10, 260 }, {  11,-12913 }, {  12,-12913 }, {  13, 260 },
- {  14,-12913 }, {  15,-12913 }, {  16,-12913 }, {  17,-12913 }, {  18,-12913 },
- {  19,-12913 }, {  20,-12913 }, {  21,-12913 }, {  22,-12913 }, {  23,-12913 },
- {  24,-12913 }, {  25,-12913 }, {  26,-12913 }, {  27,-12913 }, {  28,-12913 },
- {  29,-12913 }, {  30,-12913 }, {  31,-12913 }, {  32, 260 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-12913 }, {   0,   0 }, {   0,   0 },
+ { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
+ { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
+ { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+ { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
+ { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
+ { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
+ { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
+ { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
+ { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
+ { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
 
- {   0,   0 }, {   0,   0 }, {  41, 260 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-12913 }, {  46,-12938 }, {  47,-12938 }, {  48,-12913 },
- {  49,-12913 }, {  50,-12913 }, {  51,-12913 }, {  52,-12913 }, {  53,-12913 },
- {  54,-12913 }, {  55,-12913 }, {  56,-12913 }, {  57,-12913 }, {  58,-12913 },
- {   0,   0 }, {   0,   0 }, {  61,-12938 }, {   0,   0 }, {  63,-12913 },
- {   0,   0 }, {  65,-12913 }, {  66,-12913 }, {  67,-12913 }, {  68,-12913 },
- {  69,-12913 }, {  70,-12913 }, {  71,-12913 }, {  72,-12913 }, {  73,-12913 },
- {  74,-12913 }, {  75,-12913 }, {  76,-12913 }, {  77,-12913 }, {  78,-12913 },
- {  79,-12913 }, {  80,-12913 }, {  81,-12913 }, {  82,-12913 }, {  83,-12913 },
- {  84,-12913 }, {  85,-12913 }, {  86,-12913 }, {  87,-12913 }, {  88,-12913 },
+ { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
+ { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
+ { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+ { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
+ { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
+ { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
+ { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
+ { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
+ { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
+ { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
 
- {  89,-12913 }, {  90,-12913 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-12913 }, {   0,   0 }, {  97,-12913 }, {  98,-12913 },
- {  99,-12913 }, { 100,-12913 }, { 101,-12913 }, { 102,-12913 }, { 103,-12913 },
- { 104,-12913 }, { 105,-12913 }, { 106,-12913 }, { 107,-12913 }, { 108,-12913 },
- { 109,-12913 }, { 110,-12913 }, { 111,-12913 }, { 112,-12913 }, { 113,-12913 },
- { 114,-12913 }, { 115,-12913 }, { 116,-12913 }, { 117,-12913 }, { 118,-12913 },
- { 119,-12913 }, { 120,-12913 }, { 121,-12913 }, { 122,-12913 }, { 125, 260 },
- { 124,-12938 }, { 125, 260 }, { 126, 260 }, { 127,-12913 }, { 128,-12913 },
- { 129,-12913 }, { 130,-12913 }, { 131,-12913 }, { 132,-12913 }, { 133,-12913 },
- { 134,-12913 }, { 135,-12913 }, { 136,-12913 }, { 137,-12913 }, { 138,-12913 },
+ { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
+ { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
+ { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+ { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
+ { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
+ { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1300 },
+ {   1,-11881 }, {   2,-11881 }, {   3,-11881 }, {   4,-11881 }, {   5,-11881 },
+ {   6,-11881 }, {   7,-11881 }, {   8,-11881 }, {   9,-11906 }, {  10,-11906 },
+ {  11,-11881 }, {  12,-11881 }, {  13,-11906 }, {  14,-11881 }, {  15,-11881 },
+ {  16,-11881 }, {  17,-11881 }, {  18,-11881 }, {  19,-11881 }, {  20,-11881 },
 
- { 139,-12913 }, { 140,-12913 }, { 141,-12913 }, { 142,-12913 }, { 143,-12913 },
- { 144,-12913 }, { 145,-12913 }, { 146,-12913 }, { 147,-12913 }, { 148,-12913 },
- { 149,-12913 }, { 150,-12913 }, { 151,-12913 }, { 152,-12913 }, { 153,-12913 },
- { 154,-12913 }, { 155,-12913 }, { 156,-12913 }, { 157,-12913 }, { 158,-12913 },
- { 159,-12913 }, { 160,-12913 }, { 161,-12913 }, { 162,-12913 }, { 163,-12913 },
- { 164,-12913 }, { 165,-12913 }, { 166,-12913 }, { 167,-12913 }, { 168,-12913 },
- { 169,-12913 }, { 170,-12913 }, { 171,-12913 }, { 172,-12913 }, { 173,-12913 },
- { 174,-12913 }, { 175,-12913 }, { 176,-12913 }, { 177,-12913 }, { 178,-12913 },
- { 179,-12913 }, { 180,-12913 }, { 181,-12913 }, { 182,-12913 }, { 183,-12913 },
- { 184,-12913 }, { 185,-12913 }, { 186,-12913 }, { 187,-12913 }, { 188,-12913 },
+ {  21,-11881 }, {  22,-11881 }, {  23,-11881 }, {  24,-11881 }, {  25,-11881 },
+ {  26,-11881 }, {  27,-11881 }, {  28,-11881 }, {  29,-11881 }, {  30,-11881 },
+ {  31,-11881 }, {  32,-11906 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,-11881 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,-11906 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11881 },
+ {  46,-11906 }, {  47,-11906 }, {  48,-11881 }, {  49,-11881 }, {  50,-11881 },
+ {  51,-11881 }, {  52,-11881 }, {  53,-11881 }, {  54,-11881 }, {  55,-11881 },
+ {  56,-11881 }, {  57,-11881 }, {  58,-11881 }, {   0,   0 }, {   0,   0 },
+ {  61,-11906 }, {   0,   0 }, {  63,-11881 }, {   0,   0 }, {  65,-11881 },
+ {  66,-11881 }, {  67,-11881 }, {  68,-11881 }, {  69,-11881 }, {  70,-11881 },
 
- { 189,-12913 }, { 190,-12913 }, { 191,-12913 }, { 192,-12913 }, { 193,-12913 },
- { 194,-12913 }, { 195,-12913 }, { 196,-12913 }, { 197,-12913 }, { 198,-12913 },
- { 199,-12913 }, { 200,-12913 }, { 201,-12913 }, { 202,-12913 }, { 203,-12913 },
- { 204,-12913 }, { 205,-12913 }, { 206,-12913 }, { 207,-12913 }, { 208,-12913 },
- { 209,-12913 }, { 210,-12913 }, { 211,-12913 }, { 212,-12913 }, { 213,-12913 },
- { 214,-12913 }, { 215,-12913 }, { 216,-12913 }, { 217,-12913 }, { 218,-12913 },
- { 219,-12913 }, { 220,-12913 }, { 221,-12913 }, { 222,-12913 }, { 223,-12913 },
- { 224,-12913 }, { 225,-12913 }, { 226,-12913 }, { 227,-12913 }, { 228,-12913 },
- { 229,-12913 }, { 230,-12913 }, { 231,-12913 }, { 232,-12913 }, { 233,-12913 },
- { 234,-12913 }, { 235,-12913 }, { 236,-12913 }, { 237,-12913 }, { 238,-12913 },
+ {  71,-11881 }, {  72,-11881 }, {  73,-11881 }, {  74,-11881 }, {  75,-11881 },
+ {  76,-11881 }, {  77,-11881 }, {  78,-11881 }, {  79,-11881 }, {  80,-11881 },
+ {  81,-11881 }, {  82,-11881 }, {  83,-11881 }, {  84,-11881 }, {  85,-11881 },
+ {  86,-11881 }, {  87,-11881 }, {  88,-11881 }, {  89,-11881 }, {  90,-11881 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11881 },
+ {   0,   0 }, {  97,-11881 }, {  98,-11881 }, {  99,-11881 }, { 100,-11881 },
+ { 101, 649 }, { 102,-11881 }, { 103,-11881 }, { 104,-11881 }, { 105,-11881 },
+ { 106,-11881 }, { 107,-11881 }, { 108,-11881 }, { 109,-11881 }, { 110,-11881 },
+ { 111,-11881 }, { 112,-11881 }, { 113,-11881 }, { 114,-11881 }, { 115,-11881 },
+ { 116,-11881 }, { 117,-11881 }, { 118,-11881 }, { 119,-11881 }, { 120,-11881 },
 
- { 239,-12913 }, { 240,-12913 }, { 241,-12913 }, { 242,-12913 }, { 243,-12913 },
- { 244,-12913 }, { 245,-12913 }, { 246,-12913 }, { 247,-12913 }, { 248,-12913 },
- { 249,-12913 }, { 250,-12913 }, { 251,-12913 }, { 252,-12913 }, { 253,-12913 },
- { 254,-12913 }, { 255,-12913 }, { 256,-12913 }, {   0,   0 }, {   0, 262 },
- {   0,  45 }, {   0, 260 }, {   0,   9 }, {   0, 258 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 121,-11881 }, { 122,-11881 }, {   0,   0 }, { 124,-11906 }, { 125,-11906 },
+ { 126,-11906 }, { 127,-11881 }, { 128,-11881 }, { 129,-11881 }, { 130,-11881 },
+ { 131,-11881 }, { 132,-11881 }, { 133,-11881 }, { 134,-11881 }, { 135,-11881 },
+ { 136,-11881 }, { 137,-11881 }, { 138,-11881 }, { 139,-11881 }, { 140,-11881 },
+ { 141,-11881 }, { 142,-11881 }, { 143,-11881 }, { 144,-11881 }, { 145,-11881 },
+ { 146,-11881 }, { 147,-11881 }, { 148,-11881 }, { 149,-11881 }, { 150,-11881 },
+ { 151,-11881 }, { 152,-11881 }, { 153,-11881 }, { 154,-11881 }, { 155,-11881 },
+ { 156,-11881 }, { 157,-11881 }, { 158,-11881 }, { 159,-11881 }, { 160,-11881 },
+ { 161,-11881 }, { 162,-11881 }, { 163,-11881 }, { 164,-11881 }, { 165,-11881 },
+ { 166,-11881 }, { 167,-11881 }, { 168,-11881 }, { 169,-11881 }, { 170,-11881 },
+
+ { 171,-11881 }, { 172,-11881 }, { 173,-11881 }, { 174,-11881 }, { 175,-11881 },
+ { 176,-11881 }, { 177,-11881 }, { 178,-11881 }, { 179,-11881 }, { 180,-11881 },
+ { 181,-11881 }, { 182,-11881 }, { 183,-11881 }, { 184,-11881 }, { 185,-11881 },
+ { 186,-11881 }, { 187,-11881 }, { 188,-11881 }, { 189,-11881 }, { 190,-11881 },
+ { 191,-11881 }, { 192,-11881 }, { 193,-11881 }, { 194,-11881 }, { 195,-11881 },
+ { 196,-11881 }, { 197,-11881 }, { 198,-11881 }, { 199,-11881 }, { 200,-11881 },
+ { 201,-11881 }, { 202,-11881 }, { 203,-11881 }, { 204,-11881 }, { 205,-11881 },
+ { 206,-11881 }, { 207,-11881 }, { 208,-11881 }, { 209,-11881 }, { 210,-11881 },
+ { 211,-11881 }, { 212,-11881 }, { 213,-11881 }, { 214,-11881 }, { 215,-11881 },
+ { 216,-11881 }, { 217,-11881 }, { 218,-11881 }, { 219,-11881 }, { 220,-11881 },
+
+ { 221,-11881 }, { 222,-11881 }, { 223,-11881 }, { 224,-11881 }, { 225,-11881 },
+ { 226,-11881 }, { 227,-11881 }, { 228,-11881 }, { 229,-11881 }, { 230,-11881 },
+ { 231,-11881 }, { 232,-11881 }, { 233,-11881 }, { 234,-11881 }, { 235,-11881 },
+ { 236,-11881 }, { 237,-11881 }, { 238,-11881 }, { 239,-11881 }, { 240,-11881 },
+ { 241,-11881 }, { 242,-11881 }, { 243,-11881 }, { 244,-11881 }, { 245,-11881 },
+ { 246,-11881 }, { 247,-11881 }, { 248,-11881 }, { 249,-11881 }, { 250,-11881 },
+ { 251,-11881 }, { 252,-11881 }, { 253,-11881 }, { 254,-11881 }, { 255,-11881 },
+ { 256,-11881 }, {   0,  25 }, {   0,1042 }, {   0,  25 }, {   0,1040 },
+ {   0,  25 }, {   0,1038 }, {   0,  12 }, {   0,1036 }, {   0,   0 },
+ {   0,   0 }, {   9, 649 }, {  10, 649 }, {   0,   0 }, {   0,   0 },
+
+ {  13, 649 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32, 649 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, { 125, 651 }, { 126, 653 }, { 125, 653 },
+ {   0,   0 }, { 125, 647 }, {   0,   0 }, {   0, 911 }, {   1,-3382 },
+ {   2,-3382 }, {   3,-3382 }, {   4,-3382 }, {   5,-3382 }, {   6,-3382 },
+ {   7,-3382 }, {   8,-3382 }, {   9,-3382 }, {  10,-3382 }, {  11,-3382 },
+ {  12,-3382 }, {  13,-3382 }, {  14,-3382 }, {  15,-3382 }, {  16,-3382 },
+ {  17,-3382 }, {  18,-3382 }, {  19,-3382 }, {  20,-3382 }, {  21,-3382 },
+ {  22,-3382 }, {  23,-3382 }, {  24,-3382 }, {  25,-3382 }, {  26,-3382 },
+ {  27,-3382 }, {  28,-3382 }, {  29,-3382 }, {  30,-3382 }, {  31,-3382 },
+
+ {  32,-3382 }, {  33,-3382 }, {  34,-3382 }, {  35,-3382 }, {  36,-3382 },
+ {  37,-3382 }, {  38,-3382 }, {  39,-3382 }, {  40,-3382 }, {  41,-3382 },
+ {  42,-3382 }, {  43,-3382 }, {  44,-3382 }, {  45,-2065 }, {  46,-3382 },
+ {  47,-3382 }, {  48,-3382 }, {  49,-3382 }, {  50,-3382 }, {  51,-3382 },
+ {  52,-3382 }, {  53,-3382 }, {  54,-3382 }, {  55,-3382 }, {  56,-3382 },
+ {  57,-3382 }, {  58,-3382 }, {  59,-3382 }, {  60,-3382 }, {  61,-3382 },
+ {  62,-3382 }, {  63,-3382 }, {  64,-3382 }, {  65,-3382 }, {  66,-3382 },
+ {  67,-3382 }, {  68,-3382 }, {  69,-3382 }, {  70,-3382 }, {  71,-3382 },
+ {  72,-3382 }, {  73,-3382 }, {  74,-3382 }, {  75,-3382 }, {  76,-3382 },
+ {  77,-3382 }, {  78,-3382 }, {  79,-3382 }, {  80,-3382 }, {  81,-3382 },
+
+ {  82,-3382 }, {  83,-3382 }, {  84,-3382 }, {  85,-3382 }, {  86,-3382 },
+ {  87,-3382 }, {  88,-3382 }, {  89,-3382 }, {  90,-3382 }, {  91,-3382 },
+ {  92,-3382 }, {  93,-3382 }, {  94,-3382 }, {  95,-3382 }, {  96,-3382 },
+ {  97,-3382 }, {  98,-3382 }, {  99,-3382 }, { 100,-3382 }, { 101,-3382 },
+ { 102,-3382 }, { 103,-3382 }, { 104,-3382 }, { 105,-3382 }, { 106,-3382 },
+ { 107,-3382 }, { 108,-3382 }, { 109,-3382 }, { 110,-3382 }, { 111,-3382 },
+ { 112,-3382 }, { 113,-3382 }, { 114,-3382 }, { 115,-3382 }, { 116,-3382 },
+ { 117,-3382 }, { 118,-3382 }, { 119,-3382 }, { 120,-3382 }, { 121,-3382 },
+ { 122,-3382 }, { 123,-3382 }, { 124,-3382 }, { 125,-3382 }, { 126,-3382 },
+ { 127,-3382 }, { 128,-3382 }, { 129,-3382 }, { 130,-3382 }, { 131,-3382 },
+
+ { 132,-3382 }, { 133,-3382 }, { 134,-3382 }, { 135,-3382 }, { 136,-3382 },
+ { 137,-3382 }, { 138,-3382 }, { 139,-3382 }, { 140,-3382 }, { 141,-3382 },
+ { 142,-3382 }, { 143,-3382 }, { 144,-3382 }, { 145,-3382 }, { 146,-3382 },
+ { 147,-3382 }, { 148,-3382 }, { 149,-3382 }, { 150,-3382 }, { 151,-3382 },
+ { 152,-3382 }, { 153,-3382 }, { 154,-3382 }, { 155,-3382 }, { 156,-3382 },
+ { 157,-3382 }, { 158,-3382 }, { 159,-3382 }, { 160,-3382 }, { 161,-3382 },
+ { 162,-3382 }, { 163,-3382 }, { 164,-3382 }, { 165,-3382 }, { 166,-3382 },
+ { 167,-3382 }, { 168,-3382 }, { 169,-3382 }, { 170,-3382 }, { 171,-3382 },
+ { 172,-3382 }, { 173,-3382 }, { 174,-3382 }, { 175,-3382 }, { 176,-3382 },
+ { 177,-3382 }, { 178,-3382 }, { 179,-3382 }, { 180,-3382 }, { 181,-3382 },
+
+ { 182,-3382 }, { 183,-3382 }, { 184,-3382 }, { 185,-3382 }, { 186,-3382 },
+ { 187,-3382 }, { 188,-3382 }, { 189,-3382 }, { 190,-3382 }, { 191,-3382 },
+ { 192,-3382 }, { 193,-3382 }, { 194,-3382 }, { 195,-3382 }, { 196,-3382 },
+ { 197,-3382 }, { 198,-3382 }, { 199,-3382 }, { 200,-3382 }, { 201,-3382 },
+ { 202,-3382 }, { 203,-3382 }, { 204,-3382 }, { 205,-3382 }, { 206,-3382 },
+ { 207,-3382 }, { 208,-3382 }, { 209,-3382 }, { 210,-3382 }, { 211,-3382 },
+ { 212,-3382 }, { 213,-3382 }, { 214,-3382 }, { 215,-3382 }, { 216,-3382 },
+ { 217,-3382 }, { 218,-3382 }, { 219,-3382 }, { 220,-3382 }, { 221,-3382 },
+ { 222,-3382 }, { 223,-3382 }, { 224,-3382 }, { 225,-3382 }, { 226,-3382 },
+ { 227,-3382 }, { 228,-3382 }, { 229,-3382 }, { 230,-3382 }, { 231,-3382 },
+
+ { 232,-3382 }, { 233,-3382 }, { 234,-3382 }, { 235,-3382 }, { 236,-3382 },
+ { 237,-3382 }, { 238,-3382 }, { 239,-3382 }, { 240,-3382 }, { 241,-3382 },
+ { 242,-3382 }, { 243,-3382 }, { 244,-3382 }, { 245,-3382 }, { 246,-3382 },
+ { 247,-3382 }, { 248,-3382 }, { 249,-3382 }, { 250,-3382 }, { 251,-3382 },
+ { 252,-3382 }, { 253,-3382 }, { 254,-3382 }, { 255,-3382 }, { 256,-3382 },
+ {   0,   0 }, {   0, 653 }, {   0,   0 }, {   0, 651 }, {   1,-12530 },
+ {   2,-12530 }, {   3,-12530 }, {   4,-12530 }, {   5,-12530 }, {   6,-12530 },
+ {   7,-12530 }, {   8,-12530 }, {   9,-12555 }, {  10,-12555 }, {  11,-12530 },
+ {  12,-12530 }, {  13,-12555 }, {  14,-12530 }, {  15,-12530 }, {  16,-12530 },
+ {  17,-12530 }, {  18,-12530 }, {  19,-12530 }, {  20,-12530 }, {  21,-12530 },
+
+ {  22,-12530 }, {  23,-12530 }, {  24,-12530 }, {  25,-12530 }, {  26,-12530 },
+ {  27,-12530 }, {  28,-12530 }, {  29,-12530 }, {  30,-12530 }, {  31,-12530 },
+ {  32,-12555 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-12530 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-12555 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-12530 }, {  46,-12555 },
+ {  47,-12555 }, {  48,-12530 }, {  49,-12530 }, {  50,-12530 }, {  51,-12530 },
+ {  52,-12530 }, {  53,-12530 }, {  54,-12530 }, {  55,-12530 }, {  56,-12530 },
+ {  57,-12530 }, {  58,-12530 }, {   0,   0 }, {   0,   0 }, {  61,-12555 },
+ {   0,   0 }, {  63,-12530 }, {   0,   0 }, {  65,-12530 }, {  66,-12530 },
+ {  67,-12530 }, {  68,-12530 }, {  69,-12530 }, {  70,-12530 }, {  71,-12530 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  72,-12530 }, {  73,-12530 }, {  74,-12530 }, {  75,-12530 }, {  76,-12530 },
+ {  77,-12530 }, {  78,-12530 }, {  79,-12530 }, {  80,-12530 }, {  81,-12530 },
+ {  82,-12530 }, {  83,-12530 }, {  84,-12530 }, {  85,-12530 }, {  86,-12530 },
+ {  87,-12530 }, {  88,-12530 }, {  89,-12530 }, {  90,-12530 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-12530 }, {   0,   0 },
+ {  97,-12530 }, {  98,-12530 }, {  99,-12530 }, { 100, 393 }, { 101,-12530 },
+ { 102,-12530 }, { 103,-12530 }, { 104,-12530 }, { 105,-12530 }, { 106,-12530 },
+ { 107,-12530 }, { 108,-12530 }, { 109,-12530 }, { 110,-12530 }, { 111,-12530 },
+ { 112,-12530 }, { 113,-12530 }, { 114,-12530 }, { 115,-12530 }, { 116,-12530 },
+ { 117,-12530 }, { 118,-12530 }, { 119,-12530 }, { 120,-12530 }, { 121,-12530 },
+
+ { 122,-12530 }, { 125, 268 }, { 124,-12555 }, { 125,-12555 }, { 126,-12555 },
+ { 127,-12530 }, { 128,-12530 }, { 129,-12530 }, { 130,-12530 }, { 131,-12530 },
+ { 132,-12530 }, { 133,-12530 }, { 134,-12530 }, { 135,-12530 }, { 136,-12530 },
+ { 137,-12530 }, { 138,-12530 }, { 139,-12530 }, { 140,-12530 }, { 141,-12530 },
+ { 142,-12530 }, { 143,-12530 }, { 144,-12530 }, { 145,-12530 }, { 146,-12530 },
+ { 147,-12530 }, { 148,-12530 }, { 149,-12530 }, { 150,-12530 }, { 151,-12530 },
+ { 152,-12530 }, { 153,-12530 }, { 154,-12530 }, { 155,-12530 }, { 156,-12530 },
+ { 157,-12530 }, { 158,-12530 }, { 159,-12530 }, { 160,-12530 }, { 161,-12530 },
+ { 162,-12530 }, { 163,-12530 }, { 164,-12530 }, { 165,-12530 }, { 166,-12530 },
+ { 167,-12530 }, { 168,-12530 }, { 169,-12530 }, { 170,-12530 }, { 171,-12530 },
+
+ { 172,-12530 }, { 173,-12530 }, { 174,-12530 }, { 175,-12530 }, { 176,-12530 },
+ { 177,-12530 }, { 178,-12530 }, { 179,-12530 }, { 180,-12530 }, { 181,-12530 },
+ { 182,-12530 }, { 183,-12530 }, { 184,-12530 }, { 185,-12530 }, { 186,-12530 },
+ { 187,-12530 }, { 188,-12530 }, { 189,-12530 }, { 190,-12530 }, { 191,-12530 },
+ { 192,-12530 }, { 193,-12530 }, { 194,-12530 }, { 195,-12530 }, { 196,-12530 },
+ { 197,-12530 }, { 198,-12530 }, { 199,-12530 }, { 200,-12530 }, { 201,-12530 },
+ { 202,-12530 }, { 203,-12530 }, { 204,-12530 }, { 205,-12530 }, { 206,-12530 },
+ { 207,-12530 }, { 208,-12530 }, { 209,-12530 }, { 210,-12530 }, { 211,-12530 },
+ { 212,-12530 }, { 213,-12530 }, { 214,-12530 }, { 215,-12530 }, { 216,-12530 },
+ { 217,-12530 }, { 218,-12530 }, { 219,-12530 }, { 220,-12530 }, { 221,-12530 },
+
+ { 222,-12530 }, { 223,-12530 }, { 224,-12530 }, { 225,-12530 }, { 226,-12530 },
+ { 227,-12530 }, { 228,-12530 }, { 229,-12530 }, { 230,-12530 }, { 231,-12530 },
+ { 232,-12530 }, { 233,-12530 }, { 234,-12530 }, { 235,-12530 }, { 236,-12530 },
+ { 237,-12530 }, { 238,-12530 }, { 239,-12530 }, { 240,-12530 }, { 241,-12530 },
+ { 242,-12530 }, { 243,-12530 }, { 244,-12530 }, { 245,-12530 }, { 246,-12530 },
+ { 247,-12530 }, { 248,-12530 }, { 249,-12530 }, { 250,-12530 }, { 251,-12530 },
+ { 252,-12530 }, { 253,-12530 }, { 254,-12530 }, { 255,-12530 }, { 256,-12530 },
+ {   0,   0 }, {   0, 393 }, {   0,   0 }, {   0, 391 }, {   0,   0 },
+ {   0, 389 }, {   0,  23 }, {   0, 387 }, {   0,   0 }, {   0, 385 },
+ {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 350 },
+ {   0,  45 }, {   0, 348 }, {   0,   9 }, {   0, 346 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,   4 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
@@ -5248,22 +5149,66 @@ static const struct yy_trans_info yy_transition[21536] =
 
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 125,   2 }, { 126,   4 }, { 125,   4 }, {   0,   0 },
+ { 125,  -2 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,  35 },
+ {   0,   0 }, {   0, 258 }, {   1,-12923 }, {   2,-12923 }, {   3,-12923 },
+ {   4,-12923 }, {   5,-12923 }, {   6,-12923 }, {   7,-12923 }, {   8,-12923 },
+ {   9, -90 }, {  10, -90 }, {  11,-12923 }, {  12,-12923 }, {  13, -90 },
+ {  14,-12923 }, {  15,-12923 }, {  16,-12923 }, {  17,-12923 }, {  18,-12923 },
+ {  19,-12923 }, {  20,-12923 }, {  21,-12923 }, {  22,-12923 }, {  23,-12923 },
+ {  24,-12923 }, {  25,-12923 }, {  26,-12923 }, {  27,-12923 }, {  28,-12923 },
 
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 257,  52 }, {   1,   0 },    };
+ {  29,-12923 }, {  30,-12923 }, {  31,-12923 }, {  32, -90 }, { 125,   4 },
+ {   0,   0 }, {   0,   0 }, {  36,-12923 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41, -90 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,-12923 }, {  46,-12948 }, {  47,-12948 }, {  48,-12923 },
+ {  49,-12923 }, {  50,-12923 }, {  51,-12923 }, {  52,-12923 }, {  53,-12923 },
+ {  54,-12923 }, {  55,-12923 }, {  56,-12923 }, {  57,-12923 }, {  58,-12923 },
+ {   0,   0 }, {   0,   0 }, {  61,-12948 }, {   0,   0 }, {  63,-12923 },
+ {   0,   0 }, {  65,-12923 }, {  66,-12923 }, {  67,-12923 }, {  68,-12923 },
+ {  69,-12923 }, {  70,-12923 }, {  71,-12923 }, {  72,-12923 }, {  73,-12923 },
+ {  74,-12923 }, {  75,-12923 }, {  76,-12923 }, {  77,-12923 }, {  78,-12923 },
+
+ {  79,-12923 }, {  80,-12923 }, {  81,-12923 }, {  82,-12923 }, {  83,-12923 },
+ {  84,-12923 }, {  85,-12923 }, {  86,-12923 }, {  87,-12923 }, {  88,-12923 },
+ {  89,-12923 }, {  90,-12923 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,-12923 }, {   0,   0 }, {  97,-12923 }, {  98,-12923 },
+ {  99,-12923 }, { 100,-12923 }, { 101,-12923 }, { 102,-12923 }, { 103,-12923 },
+ { 104,-12923 }, { 105,-12923 }, { 106,-12923 }, { 107,-12923 }, { 108,-12923 },
+ { 109,-12923 }, { 110,-12923 }, { 111,-12923 }, { 112,-12923 }, { 113,-12923 },
+ { 114,-12923 }, { 115,-12923 }, { 116,-12923 }, { 117,-12923 }, { 118,-12923 },
+ { 119,-12923 }, { 120,-12923 }, { 121,-12923 }, { 122,-12923 }, {   0,   0 },
+ { 124,-12948 }, { 125, -90 }, { 126, -90 }, { 127,-12923 }, { 128,-12923 },
+
+ { 129,-12923 }, { 130,-12923 }, { 131,-12923 }, { 132,-12923 }, { 133,-12923 },
+ { 134,-12923 }, { 135,-12923 }, { 136,-12923 }, { 137,-12923 }, { 138,-12923 },
+ { 139,-12923 }, { 140,-12923 }, { 141,-12923 }, { 142,-12923 }, { 143,-12923 },
+ { 144,-12923 }, { 145,-12923 }, { 146,-12923 }, { 147,-12923 }, { 148,-12923 },
+ { 149,-12923 }, { 150,-12923 }, { 151,-12923 }, { 152,-12923 }, { 153,-12923 },
+ { 154,-12923 }, { 155,-12923 }, { 156,-12923 }, { 157,-12923 }, { 158,-12923 },
+ { 159,-12923 }, { 160,-12923 }, { 161,-12923 }, { 162,-12923 }, { 163,-12923 },
+ { 164,-12923 }, { 165,-12923 }, { 166,-12923 }, { 167,-12923 }, { 168,-12923 },
+ { 169,-12923 }, { 170,-12923 }, { 171,-12923 }, { 172,-12923 }, { 173,-12923 },
+ { 174,-12923 }, { 175,-12923 }, { 176,-12923 }, { 177,-12923 }, { 178,-12923 },
+
+ { 179,-12923 }, { 180,-12923 }, { 181,-12923 }, { 182,-12923 }, { 183,-12923 },
+ { 184,-12923 }, { 185,-12923 }, { 186,-12923 }, { 187,-12923 }, { 188,-12923 },
+ { 189,-12923 }, { 190,-12923 }, { 191,-12923 }, { 192,-12923 }, { 193,-12923 },
+ { 194,-12923 }, { 195,-12923 }, { 196,-12923 }, { 197,-12923 }, { 198,-12923 },
+ { 199,-12923 }, { 200,-12923 }, { 201,-12923 }, { 202,-12923 }, { 203,-12923 },
+ { 204,-12923 }, { 205,-12923 }, { 206,-12923 }, { 207,-12923 }, { 208,-12923 },
+ { 209,-12923 }, { 210,-12923 }, { 211,-12923 }, { 212,-12923 }, { 213,-12923 },
+ { 214,-12923 }, { 215,-12923 }, { 216,-12923 }, { 217,-12923 }, { 218,-12923 },
+ { 219,-12923 }, { 220,-12923 }, { 221,-12923 }, { 222,-12923 }, { 223,-12923 },
+ { 224,-12923 }, { 225,-12923 }, { 226,-12923 }, { 227,-12923 }, { 228,-12923 },
+
+ { 229,-12923 }, { 230,-12923 }, { 231,-12923 }, { 232,-12923 }, { 233,-12923 },
+ { 234,-12923 }, { 235,-12923 }, { 236,-12923 }, { 237,-12923 }, { 238,-12923 },
+ { 239,-12923 }, { 240,-12923 }, { 241,-12923 }, { 242,-12923 }, { 243,-12923 },
+ { 244,-12923 }, { 245,-12923 }, { 246,-12923 }, { 247,-12923 }, { 248,-12923 },
+ { 249,-12923 }, { 250,-12923 }, { 251,-12923 }, { 252,-12923 }, { 253,-12923 },
+ { 254,-12923 }, { 255,-12923 }, { 256,-12923 }, { 257,  52 }, {   1,   0 },
+    };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
     {
@@ -5280,7 +5225,6 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     &yy_transition[2325],
     &yy_transition[2583],
     &yy_transition[2841],
-
     } ;
 
 /* The intent behind this definition is that it'll catch
@@ -5402,9 +5346,9 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     yylloc->first_column = yylloc->last_column = yycolumn; \
     handlebars_yy_advance(yytext, yyleng); \
    	YY_USER_DEBUG_ACTION;
-#line 5406 "handlebars.lex.c"
+#line 5350 "handlebars.lex.c"
 
-#line 5408 "handlebars.lex.c"
+#line 5352 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5683,11 +5627,11 @@ YY_DECL
 		}
 
 	{
-#line 159 "handlebars.l"
+#line 160 "handlebars.l"
 
 
 
-#line 5691 "handlebars.lex.c"
+#line 5635 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5742,7 +5686,7 @@ do_action:	/* This label is used only to access EOF actions. */
 case 1:
 /* rule 1 can match eol */
 YY_RULE_SETUP
-#line 162 "handlebars.l"
+#line 163 "handlebars.l"
 {
 										int n = yytext[yyleng - 3] == '{' ? 3 : 2;
 										handlebars_yy_unput_n(n);
@@ -5755,7 +5699,7 @@ YY_RULE_SETUP
 case 2:
 /* rule 2 can match eol */
 YY_RULE_SETUP
-#line 171 "handlebars.l"
+#line 172 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 31
 										handlebars_yy_copy_lval();
@@ -5764,7 +5708,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 3:
 YY_RULE_SETUP
-#line 177 "handlebars.l"
+#line 178 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 32
 										handlebars_yy_unput_n(2);
@@ -5779,7 +5723,7 @@ YY_RULE_SETUP
 case 4:
 /* rule 4 can match eol */
 YY_RULE_SETUP
-#line 188 "handlebars.l"
+#line 189 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 35
 										yy_push_state(emu, yyscanner);
@@ -5790,7 +5734,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 5:
 YY_RULE_SETUP
-#line 196 "handlebars.l"
+#line 197 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 38
 										handlebars_yy_unput_all;
@@ -5799,7 +5743,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 6:
 YY_RULE_SETUP
-#line 202 "handlebars.l"
+#line 203 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5807,7 +5751,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 7:
 YY_RULE_SETUP
-#line 207 "handlebars.l"
+#line 208 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 47
 										handlebars_yy_unput_all;
@@ -5821,7 +5765,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 213 "handlebars.l"
+#line 214 "handlebars.l"
 {
                                   		yy_push_state(raw, yyscanner);
 										handlebars_yy_copy_lval();
@@ -5830,7 +5774,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 9:
 YY_RULE_SETUP
-#line 219 "handlebars.l"
+#line 220 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 54
 
@@ -5848,7 +5792,7 @@ YY_RULE_SETUP
 case 10:
 /* rule 10 can match eol */
 YY_RULE_SETUP
-#line 233 "handlebars.l"
+#line 234 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 57
 										handlebars_yy_copy_lval();
@@ -5857,7 +5801,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 11:
 YY_RULE_SETUP
-#line 239 "handlebars.l"
+#line 240 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
@@ -5866,7 +5810,7 @@ YY_RULE_SETUP
 case 12:
 /* rule 12 can match eol */
 YY_RULE_SETUP
-#line 244 "handlebars.l"
+#line 245 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
@@ -5879,7 +5823,7 @@ YY_RULE_SETUP
 case 13:
 /* rule 13 can match eol */
 YY_RULE_SETUP
-#line 253 "handlebars.l"
+#line 254 "handlebars.l"
 {
   										//yytext[yyleng -= 2] = 0;
   										yy_pop_state(yyg);
@@ -5889,7 +5833,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 14:
 YY_RULE_SETUP
-#line 260 "handlebars.l"
+#line 261 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
@@ -5898,7 +5842,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
-#line 266 "handlebars.l"
+#line 267 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
@@ -5907,7 +5851,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
-#line 272 "handlebars.l"
+#line 273 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 64
 										handlebars_yy_copy_lval();
@@ -5916,7 +5860,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
-#line 278 "handlebars.l"
+#line 279 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -5927,7 +5871,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 18:
 YY_RULE_SETUP
-#line 286 "handlebars.l"
+#line 287 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
@@ -5936,7 +5880,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 19:
 YY_RULE_SETUP
-#line 292 "handlebars.l"
+#line 293 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -5945,7 +5889,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 20:
 YY_RULE_SETUP
-#line 298 "handlebars.l"
+#line 299 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
@@ -5954,7 +5898,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 21:
 YY_RULE_SETUP
-#line 304 "handlebars.l"
+#line 305 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
@@ -5962,8 +5906,9 @@ YY_RULE_SETUP
                              		}
 	YY_BREAK
 case 22:
+/* rule 22 can match eol */
 YY_RULE_SETUP
-#line 310 "handlebars.l"
+#line 311 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -5974,7 +5919,7 @@ YY_RULE_SETUP
 case 23:
 /* rule 23 can match eol */
 YY_RULE_SETUP
-#line 317 "handlebars.l"
+#line 318 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -5984,7 +5929,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 24:
 YY_RULE_SETUP
-#line 324 "handlebars.l"
+#line 325 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
@@ -5992,8 +5937,13 @@ YY_RULE_SETUP
                              		}
 	YY_BREAK
 case 25:
+/* rule 25 can match eol */
+*yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
+YY_LINENO_REWIND_TO(yy_cp - 1);
+yyg->yy_c_buf_p = yy_cp -= 1;
+YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 330 "handlebars.l"
+#line 331 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
@@ -6002,7 +5952,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 26:
 YY_RULE_SETUP
-#line 336 "handlebars.l"
+#line 337 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
@@ -6011,7 +5961,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
-#line 342 "handlebars.l"
+#line 343 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
@@ -6020,7 +5970,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
-#line 348 "handlebars.l"
+#line 349 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -6030,7 +5980,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
-#line 355 "handlebars.l"
+#line 356 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -6040,7 +5990,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 30:
 YY_RULE_SETUP
-#line 362 "handlebars.l"
+#line 363 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
@@ -6049,7 +5999,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 31:
 YY_RULE_SETUP
-#line 368 "handlebars.l"
+#line 369 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
@@ -6058,7 +6008,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 32:
 YY_RULE_SETUP
-#line 374 "handlebars.l"
+#line 375 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
@@ -6072,7 +6022,7 @@ YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 380 "handlebars.l"
+#line 381 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
@@ -6081,7 +6031,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 34:
 YY_RULE_SETUP
-#line 386 "handlebars.l"
+#line 387 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
@@ -6091,7 +6041,7 @@ YY_RULE_SETUP
 case 35:
 /* rule 35 can match eol */
 YY_RULE_SETUP
-#line 392 "handlebars.l"
+#line 393 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
@@ -6099,7 +6049,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 36:
 YY_RULE_SETUP
-#line 397 "handlebars.l"
+#line 398 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -6109,7 +6059,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 37:
 YY_RULE_SETUP
-#line 404 "handlebars.l"
+#line 405 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -6120,7 +6070,7 @@ YY_RULE_SETUP
 case 38:
 /* rule 38 can match eol */
 YY_RULE_SETUP
-#line 411 "handlebars.l"
+#line 412 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -6133,7 +6083,7 @@ YY_RULE_SETUP
 case 39:
 /* rule 39 can match eol */
 YY_RULE_SETUP
-#line 420 "handlebars.l"
+#line 421 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -6145,7 +6095,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 40:
 YY_RULE_SETUP
-#line 429 "handlebars.l"
+#line 430 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
@@ -6155,7 +6105,7 @@ YY_RULE_SETUP
 case 41:
 /* rule 41 can match eol */
 YY_RULE_SETUP
-#line 435 "handlebars.l"
+#line 436 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
@@ -6164,7 +6114,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 42:
 YY_RULE_SETUP
-#line 441 "handlebars.l"
+#line 442 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
@@ -6178,7 +6128,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 447 "handlebars.l"
+#line 448 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
@@ -6192,7 +6142,7 @@ YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 453 "handlebars.l"
+#line 454 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
@@ -6206,7 +6156,7 @@ YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 459 "handlebars.l"
+#line 460 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
@@ -6220,7 +6170,7 @@ YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 465 "handlebars.l"
+#line 466 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
@@ -6234,7 +6184,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 471 "handlebars.l"
+#line 472 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
@@ -6248,7 +6198,7 @@ YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 478 "handlebars.l"
+#line 479 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
@@ -6258,7 +6208,7 @@ YY_RULE_SETUP
 case 49:
 /* rule 49 can match eol */
 YY_RULE_SETUP
-#line 484 "handlebars.l"
+#line 485 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -6271,7 +6221,7 @@ YY_RULE_SETUP
 	YY_BREAK
 case 50:
 YY_RULE_SETUP
-#line 494 "handlebars.l"
+#line 495 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -6284,7 +6234,7 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 500 "handlebars.l"
+#line 501 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
@@ -6292,10 +6242,10 @@ case YY_STATE_EOF(raw):
 	YY_BREAK
 case 51:
 YY_RULE_SETUP
-#line 505 "handlebars.l"
+#line 506 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6299 "handlebars.lex.c"
+#line 6249 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -7492,6 +7442,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 505 "handlebars.l"
+#line 506 "handlebars.l"
 
 
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index dcc8197..4255f58 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -733,7 +733,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 505 "handlebars.l"
+#line 506 "handlebars.l"
 
 
 #line 740 "handlebars.lex.h"
-- 
2.43.0


From dc6a6a6572b9aef9fd0be388e4005390a2f3ee7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:30 +0000
Subject: [PATCH 050/110] fix: only the quote is escaped by a backslash in a
 string literal

---
 src/handlebars.l     | 4 ++--
 src/handlebars.lex.c | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 167337f..4833b68 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -414,7 +414,7 @@ BLOCKPARAM [\x7C]
 										yytext[--yyleng] = 0;
 										yytext++, yyleng--;
 										handlebars_yy_copy_lval();
-										yylval->string = handlebars_string_stripcslashes(yylval->string);
+										yylval->string = handlebars_str_reduce(yylval->string, HBS_STRL("\\\""), HBS_STRL("\""));
                                    		return STRING;
                                  	}
 
@@ -423,7 +423,7 @@ BLOCKPARAM [\x7C]
 										yytext[--yyleng] = 0;
 										yytext++, yyleng--;
 										handlebars_yy_copy_lval();
-										yylval->string = handlebars_string_stripcslashes(yylval->string);
+										yylval->string = handlebars_str_reduce(yylval->string, HBS_STRL("\\'"), HBS_STRL("'"));
 										return SINGLE_STRING;
                                 	}
 
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index b723dc1..282d64c 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -6076,7 +6076,7 @@ YY_RULE_SETUP
 										yytext[--yyleng] = 0;
 										yytext++, yyleng--;
 										handlebars_yy_copy_lval();
-										yylval->string = handlebars_string_stripcslashes(yylval->string);
+										yylval->string = handlebars_str_reduce(yylval->string, HBS_STRL("\\\""), HBS_STRL("\""));
                                    		return STRING;
                                  	}
 	YY_BREAK
@@ -6089,7 +6089,7 @@ YY_RULE_SETUP
 										yytext[--yyleng] = 0;
 										yytext++, yyleng--;
 										handlebars_yy_copy_lval();
-										yylval->string = handlebars_string_stripcslashes(yylval->string);
+										yylval->string = handlebars_str_reduce(yylval->string, HBS_STRL("\\'"), HBS_STRL("'"));
 										return SINGLE_STRING;
                                 	}
 	YY_BREAK
-- 
2.43.0


From f5afcbfc69c65dfd4cabbeb141cb6f8f6d11fa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:02 +0000
Subject: [PATCH 051/110] fix: a comment that never ends is an error

---
 src/handlebars.l     |    6 +
 src/handlebars.lex.c | 3140 +++++++++++++++++++++---------------------
 src/handlebars.lex.h |    2 +-
 3 files changed, 1596 insertions(+), 1552 deletions(-)

diff --git a/src/handlebars.l b/src/handlebars.l
index 4833b68..ff859eb 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -258,6 +258,12 @@ BLOCKPARAM [\x7C]
   										return COMMENT;
 									}
 
+<com,com1>.|\n						{
+										// The comment never ends
+										handlebars_yy_copy_lval();
+										return INVALID;
+									}
+
 <mu>"("                          	{
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index 282d64c..b8f001b 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -573,16 +573,16 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 51
-#define YY_END_OF_BUFFER 52
+#define YY_NUM_RULES 52
+#define YY_END_OF_BUFFER 53
 struct yy_trans_info
 	{
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[21284] =
+static const struct yy_trans_info yy_transition[21409] =
     {
- {   0,   0 }, {   0,21028 }, {   0,   2 }, {   0,21026 }, {   1,3096 },
+ {   0,   0 }, {   0,21153 }, {   0,   2 }, {   0,21151 }, {   1,3096 },
  {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
  {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
  {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
@@ -639,7 +639,7 @@ static const struct yy_trans_info yy_transition[21284] =
 
  { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
  { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,20768 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
+ {   0,   2 }, {   0,20893 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
  {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
  {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
  {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
@@ -695,7 +695,7 @@ static const struct yy_trans_info yy_transition[21284] =
  { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
  { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
  { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,20510 },
+ { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,20635 },
  {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
  {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
  {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
@@ -752,7 +752,7 @@ static const struct yy_trans_info yy_transition[21284] =
  { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
  { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
  { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,20252 }, {   1,2965 }, {   2,2965 },
+ { 256,3223 }, {   0,   0 }, {   0,20377 }, {   1,2965 }, {   2,2965 },
  {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
  {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
  {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
@@ -809,7 +809,7 @@ static const struct yy_trans_info yy_transition[21284] =
  { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
  { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
  { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,19994 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
+ {   0,20119 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
  {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
  {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
 
@@ -865,7 +865,7 @@ static const struct yy_trans_info yy_transition[21284] =
  { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
  { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
  { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,19736 }, {   1,3534 },
+ { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,19861 }, {   1,3534 },
  {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
 
  {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
@@ -923,4291 +923,4319 @@ static const struct yy_trans_info yy_transition[21284] =
  { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
  { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
 
- {   0,   0 }, {   0,19478 }, {   1,1811 }, {   2,1811 }, {   3,1811 },
- {   4,1811 }, {   5,1811 }, {   6,1811 }, {   7,1811 }, {   8,1811 },
- {   9,1811 }, {  10,1811 }, {  11,1811 }, {  12,1811 }, {  13,1811 },
- {  14,1811 }, {  15,1811 }, {  16,1811 }, {  17,1811 }, {  18,1811 },
- {  19,1811 }, {  20,1811 }, {  21,1811 }, {  22,1811 }, {  23,1811 },
- {  24,1811 }, {  25,1811 }, {  26,1811 }, {  27,1811 }, {  28,1811 },
- {  29,1811 }, {  30,1811 }, {  31,1811 }, {  32,1811 }, {  33,1811 },
- {  34,1811 }, {  35,1811 }, {  36,1811 }, {  37,1811 }, {  38,1811 },
- {  39,1811 }, {  40,1811 }, {  41,1811 }, {  42,1811 }, {  43,1811 },
- {  44,1811 }, {  45,1811 }, {  46,1811 }, {  47,1811 }, {  48,1811 },
-
- {  49,1811 }, {  50,1811 }, {  51,1811 }, {  52,1811 }, {  53,1811 },
- {  54,1811 }, {  55,1811 }, {  56,1811 }, {  57,1811 }, {  58,1811 },
- {  59,1811 }, {  60,1811 }, {  61,1811 }, {  62,1811 }, {  63,1811 },
- {  64,1811 }, {  65,1811 }, {  66,1811 }, {  67,1811 }, {  68,1811 },
- {  69,1811 }, {  70,1811 }, {  71,1811 }, {  72,1811 }, {  73,1811 },
- {  74,1811 }, {  75,1811 }, {  76,1811 }, {  77,1811 }, {  78,1811 },
- {  79,1811 }, {  80,1811 }, {  81,1811 }, {  82,1811 }, {  83,1811 },
- {  84,1811 }, {  85,1811 }, {  86,1811 }, {  87,1811 }, {  88,1811 },
- {  89,1811 }, {  90,1811 }, {  91,1811 }, {  92,1811 }, {  93,1811 },
- {  94,1811 }, {  95,1811 }, {  96,1811 }, {  97,1811 }, {  98,1811 },
-
- {  99,1811 }, { 100,1811 }, { 101,1811 }, { 102,1811 }, { 103,1811 },
- { 104,1811 }, { 105,1811 }, { 106,1811 }, { 107,1811 }, { 108,1811 },
- { 109,1811 }, { 110,1811 }, { 111,1811 }, { 112,1811 }, { 113,1811 },
- { 114,1811 }, { 115,1811 }, { 116,1811 }, { 117,1811 }, { 118,1811 },
- { 119,1811 }, { 120,1811 }, { 121,1811 }, { 122,1811 }, { 123,3278 },
- { 124,1811 }, { 125,1811 }, { 126,1811 }, { 127,1811 }, { 128,1811 },
- { 129,1811 }, { 130,1811 }, { 131,1811 }, { 132,1811 }, { 133,1811 },
- { 134,1811 }, { 135,1811 }, { 136,1811 }, { 137,1811 }, { 138,1811 },
- { 139,1811 }, { 140,1811 }, { 141,1811 }, { 142,1811 }, { 143,1811 },
- { 144,1811 }, { 145,1811 }, { 146,1811 }, { 147,1811 }, { 148,1811 },
-
- { 149,1811 }, { 150,1811 }, { 151,1811 }, { 152,1811 }, { 153,1811 },
- { 154,1811 }, { 155,1811 }, { 156,1811 }, { 157,1811 }, { 158,1811 },
- { 159,1811 }, { 160,1811 }, { 161,1811 }, { 162,1811 }, { 163,1811 },
- { 164,1811 }, { 165,1811 }, { 166,1811 }, { 167,1811 }, { 168,1811 },
- { 169,1811 }, { 170,1811 }, { 171,1811 }, { 172,1811 }, { 173,1811 },
- { 174,1811 }, { 175,1811 }, { 176,1811 }, { 177,1811 }, { 178,1811 },
- { 179,1811 }, { 180,1811 }, { 181,1811 }, { 182,1811 }, { 183,1811 },
- { 184,1811 }, { 185,1811 }, { 186,1811 }, { 187,1811 }, { 188,1811 },
- { 189,1811 }, { 190,1811 }, { 191,1811 }, { 192,1811 }, { 193,1811 },
- { 194,1811 }, { 195,1811 }, { 196,1811 }, { 197,1811 }, { 198,1811 },
-
- { 199,1811 }, { 200,1811 }, { 201,1811 }, { 202,1811 }, { 203,1811 },
- { 204,1811 }, { 205,1811 }, { 206,1811 }, { 207,1811 }, { 208,1811 },
- { 209,1811 }, { 210,1811 }, { 211,1811 }, { 212,1811 }, { 213,1811 },
- { 214,1811 }, { 215,1811 }, { 216,1811 }, { 217,1811 }, { 218,1811 },
- { 219,1811 }, { 220,1811 }, { 221,1811 }, { 222,1811 }, { 223,1811 },
- { 224,1811 }, { 225,1811 }, { 226,1811 }, { 227,1811 }, { 228,1811 },
- { 229,1811 }, { 230,1811 }, { 231,1811 }, { 232,1811 }, { 233,1811 },
- { 234,1811 }, { 235,1811 }, { 236,1811 }, { 237,1811 }, { 238,1811 },
- { 239,1811 }, { 240,1811 }, { 241,1811 }, { 242,1811 }, { 243,1811 },
- { 244,1811 }, { 245,1811 }, { 246,1811 }, { 247,1811 }, { 248,1811 },
-
- { 249,1811 }, { 250,1811 }, { 251,1811 }, { 252,1811 }, { 253,1811 },
- { 254,1811 }, { 255,1811 }, { 256,1811 }, {   0,   0 }, {   0,19220 },
- {   1,1553 }, {   2,1553 }, {   3,1553 }, {   4,1553 }, {   5,1553 },
- {   6,1553 }, {   7,1553 }, {   8,1553 }, {   9,1553 }, {  10,1553 },
- {  11,1553 }, {  12,1553 }, {  13,1553 }, {  14,1553 }, {  15,1553 },
- {  16,1553 }, {  17,1553 }, {  18,1553 }, {  19,1553 }, {  20,1553 },
- {  21,1553 }, {  22,1553 }, {  23,1553 }, {  24,1553 }, {  25,1553 },
- {  26,1553 }, {  27,1553 }, {  28,1553 }, {  29,1553 }, {  30,1553 },
- {  31,1553 }, {  32,1553 }, {  33,1553 }, {  34,1553 }, {  35,1553 },
- {  36,1553 }, {  37,1553 }, {  38,1553 }, {  39,1553 }, {  40,1553 },
-
- {  41,1553 }, {  42,1553 }, {  43,1553 }, {  44,1553 }, {  45,1553 },
- {  46,1553 }, {  47,1553 }, {  48,1553 }, {  49,1553 }, {  50,1553 },
- {  51,1553 }, {  52,1553 }, {  53,1553 }, {  54,1553 }, {  55,1553 },
- {  56,1553 }, {  57,1553 }, {  58,1553 }, {  59,1553 }, {  60,1553 },
- {  61,1553 }, {  62,1553 }, {  63,1553 }, {  64,1553 }, {  65,1553 },
- {  66,1553 }, {  67,1553 }, {  68,1553 }, {  69,1553 }, {  70,1553 },
- {  71,1553 }, {  72,1553 }, {  73,1553 }, {  74,1553 }, {  75,1553 },
- {  76,1553 }, {  77,1553 }, {  78,1553 }, {  79,1553 }, {  80,1553 },
- {  81,1553 }, {  82,1553 }, {  83,1553 }, {  84,1553 }, {  85,1553 },
- {  86,1553 }, {  87,1553 }, {  88,1553 }, {  89,1553 }, {  90,1553 },
-
- {  91,1553 }, {  92,1553 }, {  93,1553 }, {  94,1553 }, {  95,1553 },
- {  96,1553 }, {  97,1553 }, {  98,1553 }, {  99,1553 }, { 100,1553 },
- { 101,1553 }, { 102,1553 }, { 103,1553 }, { 104,1553 }, { 105,1553 },
- { 106,1553 }, { 107,1553 }, { 108,1553 }, { 109,1553 }, { 110,1553 },
- { 111,1553 }, { 112,1553 }, { 113,1553 }, { 114,1553 }, { 115,1553 },
- { 116,1553 }, { 117,1553 }, { 118,1553 }, { 119,1553 }, { 120,1553 },
- { 121,1553 }, { 122,1553 }, { 123,3020 }, { 124,1553 }, { 125,1553 },
- { 126,1553 }, { 127,1553 }, { 128,1553 }, { 129,1553 }, { 130,1553 },
- { 131,1553 }, { 132,1553 }, { 133,1553 }, { 134,1553 }, { 135,1553 },
- { 136,1553 }, { 137,1553 }, { 138,1553 }, { 139,1553 }, { 140,1553 },
-
- { 141,1553 }, { 142,1553 }, { 143,1553 }, { 144,1553 }, { 145,1553 },
- { 146,1553 }, { 147,1553 }, { 148,1553 }, { 149,1553 }, { 150,1553 },
- { 151,1553 }, { 152,1553 }, { 153,1553 }, { 154,1553 }, { 155,1553 },
- { 156,1553 }, { 157,1553 }, { 158,1553 }, { 159,1553 }, { 160,1553 },
- { 161,1553 }, { 162,1553 }, { 163,1553 }, { 164,1553 }, { 165,1553 },
- { 166,1553 }, { 167,1553 }, { 168,1553 }, { 169,1553 }, { 170,1553 },
- { 171,1553 }, { 172,1553 }, { 173,1553 }, { 174,1553 }, { 175,1553 },
- { 176,1553 }, { 177,1553 }, { 178,1553 }, { 179,1553 }, { 180,1553 },
- { 181,1553 }, { 182,1553 }, { 183,1553 }, { 184,1553 }, { 185,1553 },
- { 186,1553 }, { 187,1553 }, { 188,1553 }, { 189,1553 }, { 190,1553 },
-
- { 191,1553 }, { 192,1553 }, { 193,1553 }, { 194,1553 }, { 195,1553 },
- { 196,1553 }, { 197,1553 }, { 198,1553 }, { 199,1553 }, { 200,1553 },
- { 201,1553 }, { 202,1553 }, { 203,1553 }, { 204,1553 }, { 205,1553 },
- { 206,1553 }, { 207,1553 }, { 208,1553 }, { 209,1553 }, { 210,1553 },
- { 211,1553 }, { 212,1553 }, { 213,1553 }, { 214,1553 }, { 215,1553 },
- { 216,1553 }, { 217,1553 }, { 218,1553 }, { 219,1553 }, { 220,1553 },
- { 221,1553 }, { 222,1553 }, { 223,1553 }, { 224,1553 }, { 225,1553 },
- { 226,1553 }, { 227,1553 }, { 228,1553 }, { 229,1553 }, { 230,1553 },
- { 231,1553 }, { 232,1553 }, { 233,1553 }, { 234,1553 }, { 235,1553 },
- { 236,1553 }, { 237,1553 }, { 238,1553 }, { 239,1553 }, { 240,1553 },
-
- { 241,1553 }, { 242,1553 }, { 243,1553 }, { 244,1553 }, { 245,1553 },
- { 246,1553 }, { 247,1553 }, { 248,1553 }, { 249,1553 }, { 250,1553 },
- { 251,1553 }, { 252,1553 }, { 253,1553 }, { 254,1553 }, { 255,1553 },
- { 256,1553 }, {   0,   0 }, {   0,18962 }, {   1,4595 }, {   2,4595 },
- {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 }, {   7,4595 },
- {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 }, {  12,4595 },
- {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 }, {  17,4595 },
- {  18,4595 }, {  19,4595 }, {  20,4595 }, {  21,4595 }, {  22,4595 },
- {  23,4595 }, {  24,4595 }, {  25,4595 }, {  26,4595 }, {  27,4595 },
- {  28,4595 }, {  29,4595 }, {  30,4595 }, {  31,4595 }, {  32,4595 },
-
- {  33,4595 }, {  34,4595 }, {  35,4595 }, {  36,4595 }, {  37,4595 },
- {  38,4595 }, {  39,4595 }, {  40,4595 }, {  41,4595 }, {  42,4595 },
- {  43,4595 }, {  44,4595 }, {  45,4595 }, {  46,4595 }, {  47,4595 },
- {  48,4595 }, {  49,4595 }, {  50,4595 }, {  51,4595 }, {  52,4595 },
- {  53,4595 }, {  54,4595 }, {  55,4595 }, {  56,4595 }, {  57,4595 },
- {  58,4595 }, {  59,4595 }, {  60,4595 }, {  61,4595 }, {  62,4595 },
- {  63,4595 }, {  64,4595 }, {  65,4595 }, {  66,4595 }, {  67,4595 },
- {  68,4595 }, {  69,4595 }, {  70,4595 }, {  71,4595 }, {  72,4595 },
- {  73,4595 }, {  74,4595 }, {  75,4595 }, {  76,4595 }, {  77,4595 },
- {  78,4595 }, {  79,4595 }, {  80,4595 }, {  81,4595 }, {  82,4595 },
-
- {  83,4595 }, {  84,4595 }, {  85,4595 }, {  86,4595 }, {  87,4595 },
- {  88,4595 }, {  89,4595 }, {  90,4595 }, {  91,4595 }, {  92,4595 },
- {  93,4595 }, {  94,4595 }, {  95,4595 }, {  96,4595 }, {  97,4595 },
- {  98,4595 }, {  99,4595 }, { 100,4595 }, { 101,4595 }, { 102,4595 },
- { 103,4595 }, { 104,4595 }, { 105,4595 }, { 106,4595 }, { 107,4595 },
- { 108,4595 }, { 109,4595 }, { 110,4595 }, { 111,4595 }, { 112,4595 },
- { 113,4595 }, { 114,4595 }, { 115,4595 }, { 116,4595 }, { 117,4595 },
- { 118,4595 }, { 119,4595 }, { 120,4595 }, { 121,4595 }, { 122,4595 },
- { 123,4595 }, { 124,4595 }, { 125,4853 }, { 126,4595 }, { 127,4595 },
- { 128,4595 }, { 129,4595 }, { 130,4595 }, { 131,4595 }, { 132,4595 },
-
- { 133,4595 }, { 134,4595 }, { 135,4595 }, { 136,4595 }, { 137,4595 },
- { 138,4595 }, { 139,4595 }, { 140,4595 }, { 141,4595 }, { 142,4595 },
- { 143,4595 }, { 144,4595 }, { 145,4595 }, { 146,4595 }, { 147,4595 },
- { 148,4595 }, { 149,4595 }, { 150,4595 }, { 151,4595 }, { 152,4595 },
- { 153,4595 }, { 154,4595 }, { 155,4595 }, { 156,4595 }, { 157,4595 },
- { 158,4595 }, { 159,4595 }, { 160,4595 }, { 161,4595 }, { 162,4595 },
- { 163,4595 }, { 164,4595 }, { 165,4595 }, { 166,4595 }, { 167,4595 },
- { 168,4595 }, { 169,4595 }, { 170,4595 }, { 171,4595 }, { 172,4595 },
- { 173,4595 }, { 174,4595 }, { 175,4595 }, { 176,4595 }, { 177,4595 },
- { 178,4595 }, { 179,4595 }, { 180,4595 }, { 181,4595 }, { 182,4595 },
-
- { 183,4595 }, { 184,4595 }, { 185,4595 }, { 186,4595 }, { 187,4595 },
- { 188,4595 }, { 189,4595 }, { 190,4595 }, { 191,4595 }, { 192,4595 },
- { 193,4595 }, { 194,4595 }, { 195,4595 }, { 196,4595 }, { 197,4595 },
- { 198,4595 }, { 199,4595 }, { 200,4595 }, { 201,4595 }, { 202,4595 },
- { 203,4595 }, { 204,4595 }, { 205,4595 }, { 206,4595 }, { 207,4595 },
- { 208,4595 }, { 209,4595 }, { 210,4595 }, { 211,4595 }, { 212,4595 },
- { 213,4595 }, { 214,4595 }, { 215,4595 }, { 216,4595 }, { 217,4595 },
- { 218,4595 }, { 219,4595 }, { 220,4595 }, { 221,4595 }, { 222,4595 },
- { 223,4595 }, { 224,4595 }, { 225,4595 }, { 226,4595 }, { 227,4595 },
- { 228,4595 }, { 229,4595 }, { 230,4595 }, { 231,4595 }, { 232,4595 },
-
- { 233,4595 }, { 234,4595 }, { 235,4595 }, { 236,4595 }, { 237,4595 },
- { 238,4595 }, { 239,4595 }, { 240,4595 }, { 241,4595 }, { 242,4595 },
- { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 }, { 247,4595 },
- { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 }, { 252,4595 },
- { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256,4595 }, {   0,   0 },
- {   0,18704 }, {   1,4337 }, {   2,4337 }, {   3,4337 }, {   4,4337 },
- {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 }, {   9,4337 },
- {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 }, {  14,4337 },
- {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 }, {  19,4337 },
- {  20,4337 }, {  21,4337 }, {  22,4337 }, {  23,4337 }, {  24,4337 },
-
- {  25,4337 }, {  26,4337 }, {  27,4337 }, {  28,4337 }, {  29,4337 },
- {  30,4337 }, {  31,4337 }, {  32,4337 }, {  33,4337 }, {  34,4337 },
- {  35,4337 }, {  36,4337 }, {  37,4337 }, {  38,4337 }, {  39,4337 },
- {  40,4337 }, {  41,4337 }, {  42,4337 }, {  43,4337 }, {  44,4337 },
- {  45,4337 }, {  46,4337 }, {  47,4337 }, {  48,4337 }, {  49,4337 },
- {  50,4337 }, {  51,4337 }, {  52,4337 }, {  53,4337 }, {  54,4337 },
- {  55,4337 }, {  56,4337 }, {  57,4337 }, {  58,4337 }, {  59,4337 },
- {  60,4337 }, {  61,4337 }, {  62,4337 }, {  63,4337 }, {  64,4337 },
- {  65,4337 }, {  66,4337 }, {  67,4337 }, {  68,4337 }, {  69,4337 },
- {  70,4337 }, {  71,4337 }, {  72,4337 }, {  73,4337 }, {  74,4337 },
-
- {  75,4337 }, {  76,4337 }, {  77,4337 }, {  78,4337 }, {  79,4337 },
- {  80,4337 }, {  81,4337 }, {  82,4337 }, {  83,4337 }, {  84,4337 },
- {  85,4337 }, {  86,4337 }, {  87,4337 }, {  88,4337 }, {  89,4337 },
- {  90,4337 }, {  91,4337 }, {  92,4337 }, {  93,4337 }, {  94,4337 },
- {  95,4337 }, {  96,4337 }, {  97,4337 }, {  98,4337 }, {  99,4337 },
- { 100,4337 }, { 101,4337 }, { 102,4337 }, { 103,4337 }, { 104,4337 },
- { 105,4337 }, { 106,4337 }, { 107,4337 }, { 108,4337 }, { 109,4337 },
- { 110,4337 }, { 111,4337 }, { 112,4337 }, { 113,4337 }, { 114,4337 },
- { 115,4337 }, { 116,4337 }, { 117,4337 }, { 118,4337 }, { 119,4337 },
- { 120,4337 }, { 121,4337 }, { 122,4337 }, { 123,4337 }, { 124,4337 },
-
- { 125,4595 }, { 126,4337 }, { 127,4337 }, { 128,4337 }, { 129,4337 },
- { 130,4337 }, { 131,4337 }, { 132,4337 }, { 133,4337 }, { 134,4337 },
- { 135,4337 }, { 136,4337 }, { 137,4337 }, { 138,4337 }, { 139,4337 },
- { 140,4337 }, { 141,4337 }, { 142,4337 }, { 143,4337 }, { 144,4337 },
- { 145,4337 }, { 146,4337 }, { 147,4337 }, { 148,4337 }, { 149,4337 },
- { 150,4337 }, { 151,4337 }, { 152,4337 }, { 153,4337 }, { 154,4337 },
- { 155,4337 }, { 156,4337 }, { 157,4337 }, { 158,4337 }, { 159,4337 },
- { 160,4337 }, { 161,4337 }, { 162,4337 }, { 163,4337 }, { 164,4337 },
- { 165,4337 }, { 166,4337 }, { 167,4337 }, { 168,4337 }, { 169,4337 },
- { 170,4337 }, { 171,4337 }, { 172,4337 }, { 173,4337 }, { 174,4337 },
-
- { 175,4337 }, { 176,4337 }, { 177,4337 }, { 178,4337 }, { 179,4337 },
- { 180,4337 }, { 181,4337 }, { 182,4337 }, { 183,4337 }, { 184,4337 },
- { 185,4337 }, { 186,4337 }, { 187,4337 }, { 188,4337 }, { 189,4337 },
- { 190,4337 }, { 191,4337 }, { 192,4337 }, { 193,4337 }, { 194,4337 },
- { 195,4337 }, { 196,4337 }, { 197,4337 }, { 198,4337 }, { 199,4337 },
- { 200,4337 }, { 201,4337 }, { 202,4337 }, { 203,4337 }, { 204,4337 },
- { 205,4337 }, { 206,4337 }, { 207,4337 }, { 208,4337 }, { 209,4337 },
- { 210,4337 }, { 211,4337 }, { 212,4337 }, { 213,4337 }, { 214,4337 },
- { 215,4337 }, { 216,4337 }, { 217,4337 }, { 218,4337 }, { 219,4337 },
- { 220,4337 }, { 221,4337 }, { 222,4337 }, { 223,4337 }, { 224,4337 },
-
- { 225,4337 }, { 226,4337 }, { 227,4337 }, { 228,4337 }, { 229,4337 },
- { 230,4337 }, { 231,4337 }, { 232,4337 }, { 233,4337 }, { 234,4337 },
- { 235,4337 }, { 236,4337 }, { 237,4337 }, { 238,4337 }, { 239,4337 },
- { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 }, { 244,4337 },
- { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 }, { 249,4337 },
- { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 }, { 254,4337 },
- { 255,4337 }, { 256,4337 }, {   0,   0 }, {   0,18446 }, {   1,4595 },
- {   2,4595 }, {   3,4595 }, {   4,4595 }, {   5,4595 }, {   6,4595 },
- {   7,4595 }, {   8,4595 }, {   9,4595 }, {  10,4595 }, {  11,4595 },
- {  12,4595 }, {  13,4595 }, {  14,4595 }, {  15,4595 }, {  16,4595 },
-
- {  17,4595 }, {  18,4595 }, {  19,4595 }, {  20,4595 }, {  21,4595 },
- {  22,4595 }, {  23,4595 }, {  24,4595 }, {  25,4595 }, {  26,4595 },
- {  27,4595 }, {  28,4595 }, {  29,4595 }, {  30,4595 }, {  31,4595 },
- {  32,4595 }, {  33,4595 }, {  34,4595 }, {  35,4595 }, {  36,4595 },
- {  37,4595 }, {  38,4595 }, {  39,4595 }, {  40,4595 }, {  41,4595 },
- {  42,4595 }, {  43,4595 }, {  44,4595 }, {  45,4595 }, {  46,4595 },
- {  47,4595 }, {  48,4595 }, {  49,4595 }, {  50,4595 }, {  51,4595 },
- {  52,4595 }, {  53,4595 }, {  54,4595 }, {  55,4595 }, {  56,4595 },
- {  57,4595 }, {  58,4595 }, {  59,4595 }, {  60,4595 }, {  61,4595 },
- {  62,4595 }, {  63,4595 }, {  64,4595 }, {  65,4595 }, {  66,4595 },
-
- {  67,4595 }, {  68,4595 }, {  69,4595 }, {  70,4595 }, {  71,4595 },
- {  72,4595 }, {  73,4595 }, {  74,4595 }, {  75,4595 }, {  76,4595 },
- {  77,4595 }, {  78,4595 }, {  79,4595 }, {  80,4595 }, {  81,4595 },
- {  82,4595 }, {  83,4595 }, {  84,4595 }, {  85,4595 }, {  86,4595 },
- {  87,4595 }, {  88,4595 }, {  89,4595 }, {  90,4595 }, {  91,4595 },
- {  92,4595 }, {  93,4595 }, {  94,4595 }, {  95,4595 }, {  96,4595 },
- {  97,4595 }, {  98,4595 }, {  99,4595 }, { 100,4595 }, { 101,4595 },
- { 102,4595 }, { 103,4595 }, { 104,4595 }, { 105,4595 }, { 106,4595 },
- { 107,4595 }, { 108,4595 }, { 109,4595 }, { 110,4595 }, { 111,4595 },
- { 112,4595 }, { 113,4595 }, { 114,4595 }, { 115,4595 }, { 116,4595 },
-
- { 117,4595 }, { 118,4595 }, { 119,4595 }, { 120,4595 }, { 121,4595 },
- { 122,4595 }, { 123,4852 }, { 124,4595 }, { 125,4595 }, { 126,4595 },
- { 127,4595 }, { 128,4595 }, { 129,4595 }, { 130,4595 }, { 131,4595 },
- { 132,4595 }, { 133,4595 }, { 134,4595 }, { 135,4595 }, { 136,4595 },
- { 137,4595 }, { 138,4595 }, { 139,4595 }, { 140,4595 }, { 141,4595 },
- { 142,4595 }, { 143,4595 }, { 144,4595 }, { 145,4595 }, { 146,4595 },
- { 147,4595 }, { 148,4595 }, { 149,4595 }, { 150,4595 }, { 151,4595 },
- { 152,4595 }, { 153,4595 }, { 154,4595 }, { 155,4595 }, { 156,4595 },
- { 157,4595 }, { 158,4595 }, { 159,4595 }, { 160,4595 }, { 161,4595 },
- { 162,4595 }, { 163,4595 }, { 164,4595 }, { 165,4595 }, { 166,4595 },
-
- { 167,4595 }, { 168,4595 }, { 169,4595 }, { 170,4595 }, { 171,4595 },
- { 172,4595 }, { 173,4595 }, { 174,4595 }, { 175,4595 }, { 176,4595 },
- { 177,4595 }, { 178,4595 }, { 179,4595 }, { 180,4595 }, { 181,4595 },
- { 182,4595 }, { 183,4595 }, { 184,4595 }, { 185,4595 }, { 186,4595 },
- { 187,4595 }, { 188,4595 }, { 189,4595 }, { 190,4595 }, { 191,4595 },
- { 192,4595 }, { 193,4595 }, { 194,4595 }, { 195,4595 }, { 196,4595 },
- { 197,4595 }, { 198,4595 }, { 199,4595 }, { 200,4595 }, { 201,4595 },
- { 202,4595 }, { 203,4595 }, { 204,4595 }, { 205,4595 }, { 206,4595 },
- { 207,4595 }, { 208,4595 }, { 209,4595 }, { 210,4595 }, { 211,4595 },
- { 212,4595 }, { 213,4595 }, { 214,4595 }, { 215,4595 }, { 216,4595 },
-
- { 217,4595 }, { 218,4595 }, { 219,4595 }, { 220,4595 }, { 221,4595 },
- { 222,4595 }, { 223,4595 }, { 224,4595 }, { 225,4595 }, { 226,4595 },
- { 227,4595 }, { 228,4595 }, { 229,4595 }, { 230,4595 }, { 231,4595 },
- { 232,4595 }, { 233,4595 }, { 234,4595 }, { 235,4595 }, { 236,4595 },
- { 237,4595 }, { 238,4595 }, { 239,4595 }, { 240,4595 }, { 241,4595 },
- { 242,4595 }, { 243,4595 }, { 244,4595 }, { 245,4595 }, { 246,4595 },
- { 247,4595 }, { 248,4595 }, { 249,4595 }, { 250,4595 }, { 251,4595 },
- { 252,4595 }, { 253,4595 }, { 254,4595 }, { 255,4595 }, { 256, 779 },
- {   0,   0 }, {   0,18188 }, {   1,4337 }, {   2,4337 }, {   3,4337 },
- {   4,4337 }, {   5,4337 }, {   6,4337 }, {   7,4337 }, {   8,4337 },
-
- {   9,4337 }, {  10,4337 }, {  11,4337 }, {  12,4337 }, {  13,4337 },
- {  14,4337 }, {  15,4337 }, {  16,4337 }, {  17,4337 }, {  18,4337 },
- {  19,4337 }, {  20,4337 }, {  21,4337 }, {  22,4337 }, {  23,4337 },
- {  24,4337 }, {  25,4337 }, {  26,4337 }, {  27,4337 }, {  28,4337 },
- {  29,4337 }, {  30,4337 }, {  31,4337 }, {  32,4337 }, {  33,4337 },
- {  34,4337 }, {  35,4337 }, {  36,4337 }, {  37,4337 }, {  38,4337 },
- {  39,4337 }, {  40,4337 }, {  41,4337 }, {  42,4337 }, {  43,4337 },
- {  44,4337 }, {  45,4337 }, {  46,4337 }, {  47,4337 }, {  48,4337 },
- {  49,4337 }, {  50,4337 }, {  51,4337 }, {  52,4337 }, {  53,4337 },
- {  54,4337 }, {  55,4337 }, {  56,4337 }, {  57,4337 }, {  58,4337 },
-
- {  59,4337 }, {  60,4337 }, {  61,4337 }, {  62,4337 }, {  63,4337 },
- {  64,4337 }, {  65,4337 }, {  66,4337 }, {  67,4337 }, {  68,4337 },
- {  69,4337 }, {  70,4337 }, {  71,4337 }, {  72,4337 }, {  73,4337 },
- {  74,4337 }, {  75,4337 }, {  76,4337 }, {  77,4337 }, {  78,4337 },
- {  79,4337 }, {  80,4337 }, {  81,4337 }, {  82,4337 }, {  83,4337 },
- {  84,4337 }, {  85,4337 }, {  86,4337 }, {  87,4337 }, {  88,4337 },
- {  89,4337 }, {  90,4337 }, {  91,4337 }, {  92,4337 }, {  93,4337 },
- {  94,4337 }, {  95,4337 }, {  96,4337 }, {  97,4337 }, {  98,4337 },
- {  99,4337 }, { 100,4337 }, { 101,4337 }, { 102,4337 }, { 103,4337 },
- { 104,4337 }, { 105,4337 }, { 106,4337 }, { 107,4337 }, { 108,4337 },
-
- { 109,4337 }, { 110,4337 }, { 111,4337 }, { 112,4337 }, { 113,4337 },
- { 114,4337 }, { 115,4337 }, { 116,4337 }, { 117,4337 }, { 118,4337 },
- { 119,4337 }, { 120,4337 }, { 121,4337 }, { 122,4337 }, { 123,4594 },
- { 124,4337 }, { 125,4337 }, { 126,4337 }, { 127,4337 }, { 128,4337 },
- { 129,4337 }, { 130,4337 }, { 131,4337 }, { 132,4337 }, { 133,4337 },
- { 134,4337 }, { 135,4337 }, { 136,4337 }, { 137,4337 }, { 138,4337 },
- { 139,4337 }, { 140,4337 }, { 141,4337 }, { 142,4337 }, { 143,4337 },
- { 144,4337 }, { 145,4337 }, { 146,4337 }, { 147,4337 }, { 148,4337 },
- { 149,4337 }, { 150,4337 }, { 151,4337 }, { 152,4337 }, { 153,4337 },
- { 154,4337 }, { 155,4337 }, { 156,4337 }, { 157,4337 }, { 158,4337 },
-
- { 159,4337 }, { 160,4337 }, { 161,4337 }, { 162,4337 }, { 163,4337 },
- { 164,4337 }, { 165,4337 }, { 166,4337 }, { 167,4337 }, { 168,4337 },
- { 169,4337 }, { 170,4337 }, { 171,4337 }, { 172,4337 }, { 173,4337 },
- { 174,4337 }, { 175,4337 }, { 176,4337 }, { 177,4337 }, { 178,4337 },
- { 179,4337 }, { 180,4337 }, { 181,4337 }, { 182,4337 }, { 183,4337 },
- { 184,4337 }, { 185,4337 }, { 186,4337 }, { 187,4337 }, { 188,4337 },
- { 189,4337 }, { 190,4337 }, { 191,4337 }, { 192,4337 }, { 193,4337 },
- { 194,4337 }, { 195,4337 }, { 196,4337 }, { 197,4337 }, { 198,4337 },
- { 199,4337 }, { 200,4337 }, { 201,4337 }, { 202,4337 }, { 203,4337 },
- { 204,4337 }, { 205,4337 }, { 206,4337 }, { 207,4337 }, { 208,4337 },
-
- { 209,4337 }, { 210,4337 }, { 211,4337 }, { 212,4337 }, { 213,4337 },
- { 214,4337 }, { 215,4337 }, { 216,4337 }, { 217,4337 }, { 218,4337 },
- { 219,4337 }, { 220,4337 }, { 221,4337 }, { 222,4337 }, { 223,4337 },
- { 224,4337 }, { 225,4337 }, { 226,4337 }, { 227,4337 }, { 228,4337 },
- { 229,4337 }, { 230,4337 }, { 231,4337 }, { 232,4337 }, { 233,4337 },
- { 234,4337 }, { 235,4337 }, { 236,4337 }, { 237,4337 }, { 238,4337 },
- { 239,4337 }, { 240,4337 }, { 241,4337 }, { 242,4337 }, { 243,4337 },
- { 244,4337 }, { 245,4337 }, { 246,4337 }, { 247,4337 }, { 248,4337 },
- { 249,4337 }, { 250,4337 }, { 251,4337 }, { 252,4337 }, { 253,4337 },
- { 254,4337 }, { 255,4337 }, { 256, 521 }, {   0,   2 }, {   0,17930 },
-
- {   1,4461 }, {   2,4461 }, {   3,4461 }, {   4,4461 }, {   5,4461 },
- {   6,4461 }, {   7,4461 }, {   8,4461 }, {   9,4461 }, {  10,4338 },
- {  11,4461 }, {  12,4461 }, {  13,4338 }, {  14,4461 }, {  15,4461 },
- {  16,4461 }, {  17,4461 }, {  18,4461 }, {  19,4461 }, {  20,4461 },
- {  21,4461 }, {  22,4461 }, {  23,4461 }, {  24,4461 }, {  25,4461 },
- {  26,4461 }, {  27,4461 }, {  28,4461 }, {  29,4461 }, {  30,4461 },
- {  31,4461 }, {  32,4461 }, {  33,4461 }, {  34,4461 }, {  35,4461 },
- {  36,4461 }, {  37,4461 }, {  38,4461 }, {  39,4461 }, {  40,4461 },
- {  41,4461 }, {  42,4461 }, {  43,4461 }, {  44,4461 }, {  45,4461 },
- {  46,4461 }, {  47,4461 }, {  48,4461 }, {  49,4461 }, {  50,4461 },
-
- {  51,4461 }, {  52,4461 }, {  53,4461 }, {  54,4461 }, {  55,4461 },
- {  56,4461 }, {  57,4461 }, {  58,4461 }, {  59,4461 }, {  60,4461 },
- {  61,4461 }, {  62,4461 }, {  63,4461 }, {  64,4461 }, {  65,4461 },
- {  66,4461 }, {  67,4461 }, {  68,4461 }, {  69,4461 }, {  70,4461 },
- {  71,4461 }, {  72,4461 }, {  73,4461 }, {  74,4461 }, {  75,4461 },
- {  76,4461 }, {  77,4461 }, {  78,4461 }, {  79,4461 }, {  80,4461 },
- {  81,4461 }, {  82,4461 }, {  83,4461 }, {  84,4461 }, {  85,4461 },
- {  86,4461 }, {  87,4461 }, {  88,4461 }, {  89,4461 }, {  90,4461 },
- {  91,4461 }, {  92,4340 }, {  93,4461 }, {  94,4461 }, {  95,4461 },
- {  96,4461 }, {  97,4461 }, {  98,4461 }, {  99,4461 }, { 100,4461 },
-
- { 101,4461 }, { 102,4461 }, { 103,4461 }, { 104,4461 }, { 105,4461 },
- { 106,4461 }, { 107,4461 }, { 108,4461 }, { 109,4461 }, { 110,4461 },
- { 111,4461 }, { 112,4461 }, { 113,4461 }, { 114,4461 }, { 115,4461 },
- { 116,4461 }, { 117,4461 }, { 118,4461 }, { 119,4461 }, { 120,4461 },
- { 121,4461 }, { 122,4461 }, {   0,   0 }, { 124,4461 }, { 125,4461 },
- { 126,4461 }, { 127,4461 }, { 128,4461 }, { 129,4461 }, { 130,4461 },
- { 131,4461 }, { 132,4461 }, { 133,4461 }, { 134,4461 }, { 135,4461 },
- { 136,4461 }, { 137,4461 }, { 138,4461 }, { 139,4461 }, { 140,4461 },
- { 141,4461 }, { 142,4461 }, { 143,4461 }, { 144,4461 }, { 145,4461 },
- { 146,4461 }, { 147,4461 }, { 148,4461 }, { 149,4461 }, { 150,4461 },
-
- { 151,4461 }, { 152,4461 }, { 153,4461 }, { 154,4461 }, { 155,4461 },
- { 156,4461 }, { 157,4461 }, { 158,4461 }, { 159,4461 }, { 160,4461 },
- { 161,4461 }, { 162,4461 }, { 163,4461 }, { 164,4461 }, { 165,4461 },
- { 166,4461 }, { 167,4461 }, { 168,4461 }, { 169,4461 }, { 170,4461 },
- { 171,4461 }, { 172,4461 }, { 173,4461 }, { 174,4461 }, { 175,4461 },
- { 176,4461 }, { 177,4461 }, { 178,4461 }, { 179,4461 }, { 180,4461 },
- { 181,4461 }, { 182,4461 }, { 183,4461 }, { 184,4461 }, { 185,4461 },
- { 186,4461 }, { 187,4461 }, { 188,4461 }, { 189,4461 }, { 190,4461 },
- { 191,4461 }, { 192,4461 }, { 193,4461 }, { 194,4461 }, { 195,4461 },
- { 196,4461 }, { 197,4461 }, { 198,4461 }, { 199,4461 }, { 200,4461 },
-
- { 201,4461 }, { 202,4461 }, { 203,4461 }, { 204,4461 }, { 205,4461 },
- { 206,4461 }, { 207,4461 }, { 208,4461 }, { 209,4461 }, { 210,4461 },
- { 211,4461 }, { 212,4461 }, { 213,4461 }, { 214,4461 }, { 215,4461 },
- { 216,4461 }, { 217,4461 }, { 218,4461 }, { 219,4461 }, { 220,4461 },
- { 221,4461 }, { 222,4461 }, { 223,4461 }, { 224,4461 }, { 225,4461 },
- { 226,4461 }, { 227,4461 }, { 228,4461 }, { 229,4461 }, { 230,4461 },
- { 231,4461 }, { 232,4461 }, { 233,4461 }, { 234,4461 }, { 235,4461 },
- { 236,4461 }, { 237,4461 }, { 238,4461 }, { 239,4461 }, { 240,4461 },
- { 241,4461 }, { 242,4461 }, { 243,4461 }, { 244,4461 }, { 245,4461 },
- { 246,4461 }, { 247,4461 }, { 248,4461 }, { 249,4461 }, { 250,4461 },
-
- { 251,4461 }, { 252,4461 }, { 253,4461 }, { 254,4461 }, { 255,4461 },
- {   0,   2 }, {   0,17673 }, {   0,   6 }, {   0,17671 }, {   0,   6 },
- {   0,17669 }, {   0,  51 }, {   0,17667 }, {   0,  35 }, {   0,17665 },
- {   0,   0 }, {  10,4081 }, {   0,   0 }, {   0,   0 }, {  13,4081 },
- {   0,  35 }, {   0,17658 }, {   0,   0 }, {   9,4742 }, {  10,4742 },
- {   0,  50 }, {   0,17653 }, {  13,4742 }, {   0,  14 }, {   0,17650 },
- {   9,4735 }, {  10,4735 }, {   0,  15 }, {   0,17646 }, {  13,4735 },
- {   0,  34 }, {   0,17643 }, {   0,  31 }, {   0,17641 }, {   0,  40 },
- {   0,17639 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,4742 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4735 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,4083 }, {   0,   0 },
-
- {  92,4459 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 123,4461 }, {   0,   0 }, { 123,4461 }, {   0,   2 },
- {   0,17544 }, {   1,4075 }, {   2,4075 }, {   3,4075 }, {   4,4075 },
- {   5,4075 }, {   6,4075 }, {   7,4075 }, {   8,4075 }, {   9,4075 },
- {  10,3952 }, {  11,4075 }, {  12,4075 }, {  13,3952 }, {  14,4075 },
-
- {  15,4075 }, {  16,4075 }, {  17,4075 }, {  18,4075 }, {  19,4075 },
- {  20,4075 }, {  21,4075 }, {  22,4075 }, {  23,4075 }, {  24,4075 },
- {  25,4075 }, {  26,4075 }, {  27,4075 }, {  28,4075 }, {  29,4075 },
- {  30,4075 }, {  31,4075 }, {  32,4075 }, {  33,4075 }, {  34,4075 },
- {  35,4075 }, {  36,4075 }, {  37,4075 }, {  38,4075 }, {  39,4075 },
- {  40,4075 }, {  41,4075 }, {  42,4075 }, {  43,4075 }, {  44,4075 },
- {  45,4075 }, {  46,4075 }, {  47,4075 }, {  48,4075 }, {  49,4075 },
- {  50,4075 }, {  51,4075 }, {  52,4075 }, {  53,4075 }, {  54,4075 },
- {  55,4075 }, {  56,4075 }, {  57,4075 }, {  58,4075 }, {  59,4075 },
- {  60,4075 }, {  61,4075 }, {  62,4075 }, {  63,4075 }, {  64,4075 },
-
- {  65,4075 }, {  66,4075 }, {  67,4075 }, {  68,4075 }, {  69,4075 },
- {  70,4075 }, {  71,4075 }, {  72,4075 }, {  73,4075 }, {  74,4075 },
- {  75,4075 }, {  76,4075 }, {  77,4075 }, {  78,4075 }, {  79,4075 },
- {  80,4075 }, {  81,4075 }, {  82,4075 }, {  83,4075 }, {  84,4075 },
- {  85,4075 }, {  86,4075 }, {  87,4075 }, {  88,4075 }, {  89,4075 },
- {  90,4075 }, {  91,4075 }, {  92,3954 }, {  93,4075 }, {  94,4075 },
- {  95,4075 }, {  96,4075 }, {  97,4075 }, {  98,4075 }, {  99,4075 },
- { 100,4075 }, { 101,4075 }, { 102,4075 }, { 103,4075 }, { 104,4075 },
- { 105,4075 }, { 106,4075 }, { 107,4075 }, { 108,4075 }, { 109,4075 },
- { 110,4075 }, { 111,4075 }, { 112,4075 }, { 113,4075 }, { 114,4075 },
-
- { 115,4075 }, { 116,4075 }, { 117,4075 }, { 118,4075 }, { 119,4075 },
- { 120,4075 }, { 121,4075 }, { 122,4075 }, {   0,   0 }, { 124,4075 },
- { 125,4075 }, { 126,4075 }, { 127,4075 }, { 128,4075 }, { 129,4075 },
- { 130,4075 }, { 131,4075 }, { 132,4075 }, { 133,4075 }, { 134,4075 },
- { 135,4075 }, { 136,4075 }, { 137,4075 }, { 138,4075 }, { 139,4075 },
- { 140,4075 }, { 141,4075 }, { 142,4075 }, { 143,4075 }, { 144,4075 },
- { 145,4075 }, { 146,4075 }, { 147,4075 }, { 148,4075 }, { 149,4075 },
- { 150,4075 }, { 151,4075 }, { 152,4075 }, { 153,4075 }, { 154,4075 },
- { 155,4075 }, { 156,4075 }, { 157,4075 }, { 158,4075 }, { 159,4075 },
- { 160,4075 }, { 161,4075 }, { 162,4075 }, { 163,4075 }, { 164,4075 },
-
- { 165,4075 }, { 166,4075 }, { 167,4075 }, { 168,4075 }, { 169,4075 },
- { 170,4075 }, { 171,4075 }, { 172,4075 }, { 173,4075 }, { 174,4075 },
- { 175,4075 }, { 176,4075 }, { 177,4075 }, { 178,4075 }, { 179,4075 },
- { 180,4075 }, { 181,4075 }, { 182,4075 }, { 183,4075 }, { 184,4075 },
- { 185,4075 }, { 186,4075 }, { 187,4075 }, { 188,4075 }, { 189,4075 },
- { 190,4075 }, { 191,4075 }, { 192,4075 }, { 193,4075 }, { 194,4075 },
- { 195,4075 }, { 196,4075 }, { 197,4075 }, { 198,4075 }, { 199,4075 },
- { 200,4075 }, { 201,4075 }, { 202,4075 }, { 203,4075 }, { 204,4075 },
- { 205,4075 }, { 206,4075 }, { 207,4075 }, { 208,4075 }, { 209,4075 },
- { 210,4075 }, { 211,4075 }, { 212,4075 }, { 213,4075 }, { 214,4075 },
-
- { 215,4075 }, { 216,4075 }, { 217,4075 }, { 218,4075 }, { 219,4075 },
- { 220,4075 }, { 221,4075 }, { 222,4075 }, { 223,4075 }, { 224,4075 },
- { 225,4075 }, { 226,4075 }, { 227,4075 }, { 228,4075 }, { 229,4075 },
- { 230,4075 }, { 231,4075 }, { 232,4075 }, { 233,4075 }, { 234,4075 },
- { 235,4075 }, { 236,4075 }, { 237,4075 }, { 238,4075 }, { 239,4075 },
- { 240,4075 }, { 241,4075 }, { 242,4075 }, { 243,4075 }, { 244,4075 },
- { 245,4075 }, { 246,4075 }, { 247,4075 }, { 248,4075 }, { 249,4075 },
- { 250,4075 }, { 251,4075 }, { 252,4075 }, { 253,4075 }, { 254,4075 },
- { 255,4075 }, {   0,  50 }, {   0,17287 }, {   1,4106 }, {   2,4106 },
- {   3,4106 }, {   4,4106 }, {   5,4106 }, {   6,4106 }, {   7,4106 },
-
- {   8,4106 }, {   9,4081 }, {  10,4081 }, {  11,4106 }, {  12,4106 },
- {  13,4081 }, {  14,4106 }, {  15,4106 }, {  16,4106 }, {  17,4106 },
- {  18,4106 }, {  19,4106 }, {  20,4106 }, {  21,4106 }, {  22,4106 },
- {  23,4106 }, {  24,4106 }, {  25,4106 }, {  26,4106 }, {  27,4106 },
- {  28,4106 }, {  29,4106 }, {  30,4106 }, {  31,4106 }, {  32,4081 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,4106 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,4081 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,4106 }, {  46,4081 }, {  47,4081 },
- {  48,4106 }, {  49,4106 }, {  50,4106 }, {  51,4106 }, {  52,4106 },
- {  53,4106 }, {  54,4106 }, {  55,4106 }, {  56,4106 }, {  57,4106 },
-
- {  58,4106 }, {   0,   0 }, {   0,   0 }, {  61,4081 }, {   0,   0 },
- {  63,4106 }, {   0,   0 }, {  65,4106 }, {  66,4106 }, {  67,4106 },
- {  68,4106 }, {  69,4106 }, {  70,4106 }, {  71,4106 }, {  72,4106 },
- {  73,4106 }, {  74,4106 }, {  75,4106 }, {  76,4106 }, {  77,4106 },
- {  78,4106 }, {  79,4106 }, {  80,4106 }, {  81,4106 }, {  82,4106 },
- {  83,4106 }, {  84,4106 }, {  85,4106 }, {  86,4106 }, {  87,4106 },
- {  88,4106 }, {  89,4106 }, {  90,4106 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,4106 }, {   0,   0 }, {  97,4106 },
- {  98,4106 }, {  99,4106 }, { 100,4106 }, { 101,4106 }, { 102,4106 },
- { 103,4106 }, { 104,4106 }, { 105,4106 }, { 106,4106 }, { 107,4106 },
-
- { 108,4106 }, { 109,4106 }, { 110,4106 }, { 111,4106 }, { 112,4106 },
- { 113,4106 }, { 114,4106 }, { 115,4106 }, { 116,4106 }, { 117,4106 },
- { 118,4106 }, { 119,4106 }, { 120,4106 }, { 121,4106 }, { 122,4106 },
- {   0,   0 }, { 124,4081 }, { 125,4081 }, { 126,4081 }, { 127,4106 },
- { 128,4106 }, { 129,4106 }, { 130,4106 }, { 131,4106 }, { 132,4106 },
- { 133,4106 }, { 134,4106 }, { 135,4106 }, { 136,4106 }, { 137,4106 },
- { 138,4106 }, { 139,4106 }, { 140,4106 }, { 141,4106 }, { 142,4106 },
- { 143,4106 }, { 144,4106 }, { 145,4106 }, { 146,4106 }, { 147,4106 },
- { 148,4106 }, { 149,4106 }, { 150,4106 }, { 151,4106 }, { 152,4106 },
- { 153,4106 }, { 154,4106 }, { 155,4106 }, { 156,4106 }, { 157,4106 },
-
- { 158,4106 }, { 159,4106 }, { 160,4106 }, { 161,4106 }, { 162,4106 },
- { 163,4106 }, { 164,4106 }, { 165,4106 }, { 166,4106 }, { 167,4106 },
- { 168,4106 }, { 169,4106 }, { 170,4106 }, { 171,4106 }, { 172,4106 },
- { 173,4106 }, { 174,4106 }, { 175,4106 }, { 176,4106 }, { 177,4106 },
- { 178,4106 }, { 179,4106 }, { 180,4106 }, { 181,4106 }, { 182,4106 },
- { 183,4106 }, { 184,4106 }, { 185,4106 }, { 186,4106 }, { 187,4106 },
- { 188,4106 }, { 189,4106 }, { 190,4106 }, { 191,4106 }, { 192,4106 },
- { 193,4106 }, { 194,4106 }, { 195,4106 }, { 196,4106 }, { 197,4106 },
- { 198,4106 }, { 199,4106 }, { 200,4106 }, { 201,4106 }, { 202,4106 },
- { 203,4106 }, { 204,4106 }, { 205,4106 }, { 206,4106 }, { 207,4106 },
-
- { 208,4106 }, { 209,4106 }, { 210,4106 }, { 211,4106 }, { 212,4106 },
- { 213,4106 }, { 214,4106 }, { 215,4106 }, { 216,4106 }, { 217,4106 },
- { 218,4106 }, { 219,4106 }, { 220,4106 }, { 221,4106 }, { 222,4106 },
- { 223,4106 }, { 224,4106 }, { 225,4106 }, { 226,4106 }, { 227,4106 },
- { 228,4106 }, { 229,4106 }, { 230,4106 }, { 231,4106 }, { 232,4106 },
- { 233,4106 }, { 234,4106 }, { 235,4106 }, { 236,4106 }, { 237,4106 },
- { 238,4106 }, { 239,4106 }, { 240,4106 }, { 241,4106 }, { 242,4106 },
- { 243,4106 }, { 244,4106 }, { 245,4106 }, { 246,4106 }, { 247,4106 },
- { 248,4106 }, { 249,4106 }, { 250,4106 }, { 251,4106 }, { 252,4106 },
- { 253,4106 }, { 254,4106 }, { 255,4106 }, { 256,4106 }, {   0,  50 },
-
- {   0,17029 }, {   1,4140 }, {   2,4140 }, {   3,4140 }, {   4,4140 },
- {   5,4140 }, {   6,4140 }, {   7,4140 }, {   8,4140 }, {   9,4140 },
- {  10,4140 }, {  11,4140 }, {  12,4140 }, {  13,4140 }, {  14,4140 },
- {  15,4140 }, {  16,4140 }, {  17,4140 }, {  18,4140 }, {  19,4140 },
- {  20,4140 }, {  21,4140 }, {  22,4140 }, {  23,4140 }, {  24,4140 },
- {  25,4140 }, {  26,4140 }, {  27,4140 }, {  28,4140 }, {  29,4140 },
- {  30,4140 }, {  31,4140 }, {  32,4140 }, {  33,4140 }, {  34,4108 },
- {  35,4140 }, {  36,4140 }, {  37,4140 }, {  38,4140 }, {  39,4140 },
- {  40,4140 }, {  41,4140 }, {  42,4140 }, {  43,4140 }, {  44,4140 },
- {  45,4140 }, {  46,4140 }, {  47,4140 }, {  48,4140 }, {  49,4140 },
-
- {  50,4140 }, {  51,4140 }, {  52,4140 }, {  53,4140 }, {  54,4140 },
- {  55,4140 }, {  56,4140 }, {  57,4140 }, {  58,4140 }, {  59,4140 },
- {  60,4140 }, {  61,4140 }, {  62,4140 }, {  63,4140 }, {  64,4140 },
- {  65,4140 }, {  66,4140 }, {  67,4140 }, {  68,4140 }, {  69,4140 },
- {  70,4140 }, {  71,4140 }, {  72,4140 }, {  73,4140 }, {  74,4140 },
- {  75,4140 }, {  76,4140 }, {  77,4140 }, {  78,4140 }, {  79,4140 },
- {  80,4140 }, {  81,4140 }, {  82,4140 }, {  83,4140 }, {  84,4140 },
- {  85,4140 }, {  86,4140 }, {  87,4140 }, {  88,4140 }, {  89,4140 },
- {  90,4140 }, {  91,4140 }, {  92,4398 }, {  93,4140 }, {  94,4140 },
- {  95,4140 }, {  96,4140 }, {  97,4140 }, {  98,4140 }, {  99,4140 },
-
- { 100,4140 }, { 101,4140 }, { 102,4140 }, { 103,4140 }, { 104,4140 },
- { 105,4140 }, { 106,4140 }, { 107,4140 }, { 108,4140 }, { 109,4140 },
- { 110,4140 }, { 111,4140 }, { 112,4140 }, { 113,4140 }, { 114,4140 },
- { 115,4140 }, { 116,4140 }, { 117,4140 }, { 118,4140 }, { 119,4140 },
- { 120,4140 }, { 121,4140 }, { 122,4140 }, { 123,4140 }, { 124,4140 },
- { 125,4140 }, { 126,4140 }, { 127,4140 }, { 128,4140 }, { 129,4140 },
- { 130,4140 }, { 131,4140 }, { 132,4140 }, { 133,4140 }, { 134,4140 },
- { 135,4140 }, { 136,4140 }, { 137,4140 }, { 138,4140 }, { 139,4140 },
- { 140,4140 }, { 141,4140 }, { 142,4140 }, { 143,4140 }, { 144,4140 },
- { 145,4140 }, { 146,4140 }, { 147,4140 }, { 148,4140 }, { 149,4140 },
-
- { 150,4140 }, { 151,4140 }, { 152,4140 }, { 153,4140 }, { 154,4140 },
- { 155,4140 }, { 156,4140 }, { 157,4140 }, { 158,4140 }, { 159,4140 },
- { 160,4140 }, { 161,4140 }, { 162,4140 }, { 163,4140 }, { 164,4140 },
- { 165,4140 }, { 166,4140 }, { 167,4140 }, { 168,4140 }, { 169,4140 },
- { 170,4140 }, { 171,4140 }, { 172,4140 }, { 173,4140 }, { 174,4140 },
- { 175,4140 }, { 176,4140 }, { 177,4140 }, { 178,4140 }, { 179,4140 },
- { 180,4140 }, { 181,4140 }, { 182,4140 }, { 183,4140 }, { 184,4140 },
- { 185,4140 }, { 186,4140 }, { 187,4140 }, { 188,4140 }, { 189,4140 },
- { 190,4140 }, { 191,4140 }, { 192,4140 }, { 193,4140 }, { 194,4140 },
- { 195,4140 }, { 196,4140 }, { 197,4140 }, { 198,4140 }, { 199,4140 },
-
- { 200,4140 }, { 201,4140 }, { 202,4140 }, { 203,4140 }, { 204,4140 },
- { 205,4140 }, { 206,4140 }, { 207,4140 }, { 208,4140 }, { 209,4140 },
- { 210,4140 }, { 211,4140 }, { 212,4140 }, { 213,4140 }, { 214,4140 },
- { 215,4140 }, { 216,4140 }, { 217,4140 }, { 218,4140 }, { 219,4140 },
- { 220,4140 }, { 221,4140 }, { 222,4140 }, { 223,4140 }, { 224,4140 },
- { 225,4140 }, { 226,4140 }, { 227,4140 }, { 228,4140 }, { 229,4140 },
- { 230,4140 }, { 231,4140 }, { 232,4140 }, { 233,4140 }, { 234,4140 },
- { 235,4140 }, { 236,4140 }, { 237,4140 }, { 238,4140 }, { 239,4140 },
- { 240,4140 }, { 241,4140 }, { 242,4140 }, { 243,4140 }, { 244,4140 },
- { 245,4140 }, { 246,4140 }, { 247,4140 }, { 248,4140 }, { 249,4140 },
-
- { 250,4140 }, { 251,4140 }, { 252,4140 }, { 253,4140 }, { 254,4140 },
- { 255,4140 }, { 256,4140 }, {   0,  50 }, {   0,16771 }, {   1,4398 },
- {   2,4398 }, {   3,4398 }, {   4,4398 }, {   5,4398 }, {   6,4398 },
- {   7,4398 }, {   8,4398 }, {   9,4398 }, {  10,4398 }, {  11,4398 },
- {  12,4398 }, {  13,4398 }, {  14,4398 }, {  15,4398 }, {  16,4398 },
- {  17,4398 }, {  18,4398 }, {  19,4398 }, {  20,4398 }, {  21,4398 },
- {  22,4398 }, {  23,4398 }, {  24,4398 }, {  25,4398 }, {  26,4398 },
- {  27,4398 }, {  28,4398 }, {  29,4398 }, {  30,4398 }, {  31,4398 },
- {  32,4398 }, {  33,4398 }, {  34,4398 }, {  35,4398 }, {  36,4398 },
- {  37,4398 }, {  38,4398 }, {  39,3852 }, {  40,4398 }, {  41,4398 },
-
- {  42,4398 }, {  43,4398 }, {  44,4398 }, {  45,4398 }, {  46,4398 },
- {  47,4398 }, {  48,4398 }, {  49,4398 }, {  50,4398 }, {  51,4398 },
- {  52,4398 }, {  53,4398 }, {  54,4398 }, {  55,4398 }, {  56,4398 },
- {  57,4398 }, {  58,4398 }, {  59,4398 }, {  60,4398 }, {  61,4398 },
- {  62,4398 }, {  63,4398 }, {  64,4398 }, {  65,4398 }, {  66,4398 },
- {  67,4398 }, {  68,4398 }, {  69,4398 }, {  70,4398 }, {  71,4398 },
- {  72,4398 }, {  73,4398 }, {  74,4398 }, {  75,4398 }, {  76,4398 },
- {  77,4398 }, {  78,4398 }, {  79,4398 }, {  80,4398 }, {  81,4398 },
- {  82,4398 }, {  83,4398 }, {  84,4398 }, {  85,4398 }, {  86,4398 },
- {  87,4398 }, {  88,4398 }, {  89,4398 }, {  90,4398 }, {  91,4398 },
-
- {  92,4656 }, {  93,4398 }, {  94,4398 }, {  95,4398 }, {  96,4398 },
- {  97,4398 }, {  98,4398 }, {  99,4398 }, { 100,4398 }, { 101,4398 },
- { 102,4398 }, { 103,4398 }, { 104,4398 }, { 105,4398 }, { 106,4398 },
- { 107,4398 }, { 108,4398 }, { 109,4398 }, { 110,4398 }, { 111,4398 },
- { 112,4398 }, { 113,4398 }, { 114,4398 }, { 115,4398 }, { 116,4398 },
- { 117,4398 }, { 118,4398 }, { 119,4398 }, { 120,4398 }, { 121,4398 },
- { 122,4398 }, { 123,4398 }, { 124,4398 }, { 125,4398 }, { 126,4398 },
- { 127,4398 }, { 128,4398 }, { 129,4398 }, { 130,4398 }, { 131,4398 },
- { 132,4398 }, { 133,4398 }, { 134,4398 }, { 135,4398 }, { 136,4398 },
- { 137,4398 }, { 138,4398 }, { 139,4398 }, { 140,4398 }, { 141,4398 },
-
- { 142,4398 }, { 143,4398 }, { 144,4398 }, { 145,4398 }, { 146,4398 },
- { 147,4398 }, { 148,4398 }, { 149,4398 }, { 150,4398 }, { 151,4398 },
- { 152,4398 }, { 153,4398 }, { 154,4398 }, { 155,4398 }, { 156,4398 },
- { 157,4398 }, { 158,4398 }, { 159,4398 }, { 160,4398 }, { 161,4398 },
- { 162,4398 }, { 163,4398 }, { 164,4398 }, { 165,4398 }, { 166,4398 },
- { 167,4398 }, { 168,4398 }, { 169,4398 }, { 170,4398 }, { 171,4398 },
- { 172,4398 }, { 173,4398 }, { 174,4398 }, { 175,4398 }, { 176,4398 },
- { 177,4398 }, { 178,4398 }, { 179,4398 }, { 180,4398 }, { 181,4398 },
- { 182,4398 }, { 183,4398 }, { 184,4398 }, { 185,4398 }, { 186,4398 },
- { 187,4398 }, { 188,4398 }, { 189,4398 }, { 190,4398 }, { 191,4398 },
-
- { 192,4398 }, { 193,4398 }, { 194,4398 }, { 195,4398 }, { 196,4398 },
- { 197,4398 }, { 198,4398 }, { 199,4398 }, { 200,4398 }, { 201,4398 },
- { 202,4398 }, { 203,4398 }, { 204,4398 }, { 205,4398 }, { 206,4398 },
- { 207,4398 }, { 208,4398 }, { 209,4398 }, { 210,4398 }, { 211,4398 },
- { 212,4398 }, { 213,4398 }, { 214,4398 }, { 215,4398 }, { 216,4398 },
- { 217,4398 }, { 218,4398 }, { 219,4398 }, { 220,4398 }, { 221,4398 },
- { 222,4398 }, { 223,4398 }, { 224,4398 }, { 225,4398 }, { 226,4398 },
- { 227,4398 }, { 228,4398 }, { 229,4398 }, { 230,4398 }, { 231,4398 },
- { 232,4398 }, { 233,4398 }, { 234,4398 }, { 235,4398 }, { 236,4398 },
- { 237,4398 }, { 238,4398 }, { 239,4398 }, { 240,4398 }, { 241,4398 },
-
- { 242,4398 }, { 243,4398 }, { 244,4398 }, { 245,4398 }, { 246,4398 },
- { 247,4398 }, { 248,4398 }, { 249,4398 }, { 250,4398 }, { 251,4398 },
- { 252,4398 }, { 253,4398 }, { 254,4398 }, { 255,4398 }, { 256,4398 },
- {   0,  50 }, {   0,16513 }, {   1,3332 }, {   2,3332 }, {   3,3332 },
- {   4,3332 }, {   5,3332 }, {   6,3332 }, {   7,3332 }, {   8,3332 },
- {   9,3307 }, {  10,3307 }, {  11,3332 }, {  12,3332 }, {  13,3307 },
- {  14,3332 }, {  15,3332 }, {  16,3332 }, {  17,3332 }, {  18,3332 },
- {  19,3332 }, {  20,3332 }, {  21,3332 }, {  22,3332 }, {  23,3332 },
- {  24,3332 }, {  25,3332 }, {  26,3332 }, {  27,3332 }, {  28,3332 },
- {  29,3332 }, {  30,3332 }, {  31,3332 }, {  32,3307 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  36,3332 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,3307 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,3332 }, {  46,3307 }, {  47,3307 }, {  48,4656 },
- {  49,4656 }, {  50,4656 }, {  51,4656 }, {  52,4656 }, {  53,4656 },
- {  54,4656 }, {  55,4656 }, {  56,4656 }, {  57,4656 }, {  58,3332 },
- {   0,   0 }, {   0,   0 }, {  61,3307 }, {   0,   0 }, {  63,3332 },
- {   0,   0 }, {  65,3332 }, {  66,3332 }, {  67,3332 }, {  68,3332 },
- {  69,3332 }, {  70,3332 }, {  71,3332 }, {  72,3332 }, {  73,3332 },
- {  74,3332 }, {  75,3332 }, {  76,3332 }, {  77,3332 }, {  78,3332 },
- {  79,3332 }, {  80,3332 }, {  81,3332 }, {  82,3332 }, {  83,3332 },
-
- {  84,3332 }, {  85,3332 }, {  86,3332 }, {  87,3332 }, {  88,3332 },
- {  89,3332 }, {  90,3332 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,3332 }, {   0,   0 }, {  97,3332 }, {  98,3332 },
- {  99,3332 }, { 100,3332 }, { 101,3332 }, { 102,3332 }, { 103,3332 },
- { 104,3332 }, { 105,3332 }, { 106,3332 }, { 107,3332 }, { 108,3332 },
- { 109,3332 }, { 110,3332 }, { 111,3332 }, { 112,3332 }, { 113,3332 },
- { 114,3332 }, { 115,3332 }, { 116,3332 }, { 117,3332 }, { 118,3332 },
- { 119,3332 }, { 120,3332 }, { 121,3332 }, { 122,3332 }, {   0,   0 },
- { 124,3307 }, { 125,3307 }, { 126,3307 }, { 127,3332 }, { 128,3332 },
- { 129,3332 }, { 130,3332 }, { 131,3332 }, { 132,3332 }, { 133,3332 },
-
- { 134,3332 }, { 135,3332 }, { 136,3332 }, { 137,3332 }, { 138,3332 },
- { 139,3332 }, { 140,3332 }, { 141,3332 }, { 142,3332 }, { 143,3332 },
- { 144,3332 }, { 145,3332 }, { 146,3332 }, { 147,3332 }, { 148,3332 },
- { 149,3332 }, { 150,3332 }, { 151,3332 }, { 152,3332 }, { 153,3332 },
- { 154,3332 }, { 155,3332 }, { 156,3332 }, { 157,3332 }, { 158,3332 },
- { 159,3332 }, { 160,3332 }, { 161,3332 }, { 162,3332 }, { 163,3332 },
- { 164,3332 }, { 165,3332 }, { 166,3332 }, { 167,3332 }, { 168,3332 },
- { 169,3332 }, { 170,3332 }, { 171,3332 }, { 172,3332 }, { 173,3332 },
- { 174,3332 }, { 175,3332 }, { 176,3332 }, { 177,3332 }, { 178,3332 },
- { 179,3332 }, { 180,3332 }, { 181,3332 }, { 182,3332 }, { 183,3332 },
-
- { 184,3332 }, { 185,3332 }, { 186,3332 }, { 187,3332 }, { 188,3332 },
- { 189,3332 }, { 190,3332 }, { 191,3332 }, { 192,3332 }, { 193,3332 },
- { 194,3332 }, { 195,3332 }, { 196,3332 }, { 197,3332 }, { 198,3332 },
- { 199,3332 }, { 200,3332 }, { 201,3332 }, { 202,3332 }, { 203,3332 },
- { 204,3332 }, { 205,3332 }, { 206,3332 }, { 207,3332 }, { 208,3332 },
- { 209,3332 }, { 210,3332 }, { 211,3332 }, { 212,3332 }, { 213,3332 },
- { 214,3332 }, { 215,3332 }, { 216,3332 }, { 217,3332 }, { 218,3332 },
- { 219,3332 }, { 220,3332 }, { 221,3332 }, { 222,3332 }, { 223,3332 },
- { 224,3332 }, { 225,3332 }, { 226,3332 }, { 227,3332 }, { 228,3332 },
- { 229,3332 }, { 230,3332 }, { 231,3332 }, { 232,3332 }, { 233,3332 },
-
- { 234,3332 }, { 235,3332 }, { 236,3332 }, { 237,3332 }, { 238,3332 },
- { 239,3332 }, { 240,3332 }, { 241,3332 }, { 242,3332 }, { 243,3332 },
- { 244,3332 }, { 245,3332 }, { 246,3332 }, { 247,3332 }, { 248,3332 },
- { 249,3332 }, { 250,3332 }, { 251,3332 }, { 252,3332 }, { 253,3332 },
- { 254,3332 }, { 255,3332 }, { 256,3332 }, {   0,  34 }, {   0,16255 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3338 }, {  10,3338 },
- {   0,   0 }, {   0,   0 }, {  13,3338 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  50 }, {   0,16237 }, {   0,  42 }, {   0,16235 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3340 }, {  47,3338 }, {   0,  50 }, {   0,16206 }, {   0,  50 },
- {   0,16204 }, {   0,   7 }, {   0,16202 }, {   0,  51 }, {   0,16200 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  61,3338 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  50 }, {   0,16173 }, {   1,2992 }, {   2,2992 }, {   3,2992 },
- {   4,2992 }, {   5,2992 }, {   6,2992 }, {   7,2992 }, {   8,2992 },
- {   9,3262 }, {  10,3262 }, {  11,2992 }, {  12,2992 }, {  13,3262 },
- {  14,2992 }, {  15,2992 }, {  16,2992 }, {  17,2992 }, {  18,2992 },
- {  19,2992 }, {  20,2992 }, {  21,2992 }, {  22,2992 }, {  23,2992 },
- {  24,2992 }, {  25,2992 }, {  26,2992 }, {  27,2992 }, {  28,2992 },
- {  29,2992 }, {  30,2992 }, {  31,2992 }, {  32,3262 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,2992 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,3262 }, { 124,3338 }, { 125,3338 },
-
- { 126,3338 }, {  45,2992 }, {  46,4574 }, {  47,2967 }, {  48,4316 },
- {  49,4316 }, {  50,4316 }, {  51,4316 }, {  52,4316 }, {  53,4316 },
- {  54,4316 }, {  55,4316 }, {  56,4316 }, {  57,4316 }, {  58,2992 },
- { 123,6503 }, {   0,   0 }, {  61,2967 }, {   0,   0 }, {  63,2992 },
- {   0,   0 }, {  65,2992 }, {  66,2992 }, {  67,2992 }, {  68,2992 },
- {  69,2992 }, {  70,2992 }, {  71,2992 }, {  72,2992 }, {  73,2992 },
- {  74,2992 }, {  75,2992 }, {  76,2992 }, {  77,2992 }, {  78,2992 },
- {  79,2992 }, {  80,2992 }, {  81,2992 }, {  82,2992 }, {  83,2992 },
- {  84,2992 }, {  85,2992 }, {  86,2992 }, {  87,2992 }, {  88,2992 },
- {  89,2992 }, {  90,2992 }, {   0,   0 }, { 125,6474 }, { 126,6476 },
-
- { 125,6476 }, {  95,2992 }, { 123,6474 }, {  97,2992 }, {  98,2992 },
- {  99,2992 }, { 100,2992 }, { 101,2992 }, { 102,2992 }, { 103,2992 },
- { 104,2992 }, { 105,2992 }, { 106,2992 }, { 107,2992 }, { 108,2992 },
- { 109,2992 }, { 110,2992 }, { 111,2992 }, { 112,2992 }, { 113,2992 },
- { 114,2992 }, { 115,2992 }, { 116,2992 }, { 117,2992 }, { 118,2992 },
- { 119,2992 }, { 120,2992 }, { 121,2992 }, { 122,2992 }, {   0,   0 },
- { 124,2967 }, { 125,3262 }, { 126,3262 }, { 127,2992 }, { 128,2992 },
- { 129,2992 }, { 130,2992 }, { 131,2992 }, { 132,2992 }, { 133,2992 },
- { 134,2992 }, { 135,2992 }, { 136,2992 }, { 137,2992 }, { 138,2992 },
- { 139,2992 }, { 140,2992 }, { 141,2992 }, { 142,2992 }, { 143,2992 },
-
- { 144,2992 }, { 145,2992 }, { 146,2992 }, { 147,2992 }, { 148,2992 },
- { 149,2992 }, { 150,2992 }, { 151,2992 }, { 152,2992 }, { 153,2992 },
- { 154,2992 }, { 155,2992 }, { 156,2992 }, { 157,2992 }, { 158,2992 },
- { 159,2992 }, { 160,2992 }, { 161,2992 }, { 162,2992 }, { 163,2992 },
- { 164,2992 }, { 165,2992 }, { 166,2992 }, { 167,2992 }, { 168,2992 },
- { 169,2992 }, { 170,2992 }, { 171,2992 }, { 172,2992 }, { 173,2992 },
- { 174,2992 }, { 175,2992 }, { 176,2992 }, { 177,2992 }, { 178,2992 },
- { 179,2992 }, { 180,2992 }, { 181,2992 }, { 182,2992 }, { 183,2992 },
- { 184,2992 }, { 185,2992 }, { 186,2992 }, { 187,2992 }, { 188,2992 },
- { 189,2992 }, { 190,2992 }, { 191,2992 }, { 192,2992 }, { 193,2992 },
-
- { 194,2992 }, { 195,2992 }, { 196,2992 }, { 197,2992 }, { 198,2992 },
- { 199,2992 }, { 200,2992 }, { 201,2992 }, { 202,2992 }, { 203,2992 },
- { 204,2992 }, { 205,2992 }, { 206,2992 }, { 207,2992 }, { 208,2992 },
- { 209,2992 }, { 210,2992 }, { 211,2992 }, { 212,2992 }, { 213,2992 },
- { 214,2992 }, { 215,2992 }, { 216,2992 }, { 217,2992 }, { 218,2992 },
- { 219,2992 }, { 220,2992 }, { 221,2992 }, { 222,2992 }, { 223,2992 },
- { 224,2992 }, { 225,2992 }, { 226,2992 }, { 227,2992 }, { 228,2992 },
- { 229,2992 }, { 230,2992 }, { 231,2992 }, { 232,2992 }, { 233,2992 },
- { 234,2992 }, { 235,2992 }, { 236,2992 }, { 237,2992 }, { 238,2992 },
- { 239,2992 }, { 240,2992 }, { 241,2992 }, { 242,2992 }, { 243,2992 },
-
- { 244,2992 }, { 245,2992 }, { 246,2992 }, { 247,2992 }, { 248,2992 },
- { 249,2992 }, { 250,2992 }, { 251,2992 }, { 252,2992 }, { 253,2992 },
- { 254,2992 }, { 255,2992 }, { 256,2992 }, {   0,  50 }, {   0,15915 },
- {   1,4375 }, {   2,4375 }, {   3,4375 }, {   4,4375 }, {   5,4375 },
- {   6,4375 }, {   7,4375 }, {   8,4375 }, {   9,4375 }, {  10,4375 },
- {  11,4375 }, {  12,4375 }, {  13,4375 }, {  14,4375 }, {  15,4375 },
- {  16,4375 }, {  17,4375 }, {  18,4375 }, {  19,4375 }, {  20,4375 },
- {  21,4375 }, {  22,4375 }, {  23,4375 }, {  24,4375 }, {  25,4375 },
- {  26,4375 }, {  27,4375 }, {  28,4375 }, {  29,4375 }, {  30,4375 },
- {  31,4375 }, {  32,4375 }, {  33,4375 }, {  34,4375 }, {  35,4375 },
-
- {  36,4375 }, {  37,4375 }, {  38,4375 }, {  39,4375 }, {  40,4375 },
- {  41,4375 }, {  42,4375 }, {  43,4375 }, {  44,4375 }, {  45,4375 },
- {  46,4375 }, {  47,4375 }, {  48,4375 }, {  49,4375 }, {  50,4375 },
- {  51,4375 }, {  52,4375 }, {  53,4375 }, {  54,4375 }, {  55,4375 },
- {  56,4375 }, {  57,4375 }, {  58,4375 }, {  59,4375 }, {  60,4375 },
- {  61,4375 }, {  62,4375 }, {  63,4375 }, {  64,4375 }, {  65,4375 },
- {  66,4375 }, {  67,4375 }, {  68,4375 }, {  69,4375 }, {  70,4375 },
- {  71,4375 }, {  72,4375 }, {  73,4375 }, {  74,4375 }, {  75,4375 },
- {  76,4375 }, {  77,4375 }, {  78,4375 }, {  79,4375 }, {  80,4375 },
- {  81,4375 }, {  82,4375 }, {  83,4375 }, {  84,4375 }, {  85,4375 },
-
- {  86,4375 }, {  87,4375 }, {  88,4375 }, {  89,4375 }, {  90,4375 },
- {  91,4375 }, {  92,4633 }, {  93,3007 }, {  94,4375 }, {  95,4375 },
- {  96,4375 }, {  97,4375 }, {  98,4375 }, {  99,4375 }, { 100,4375 },
- { 101,4375 }, { 102,4375 }, { 103,4375 }, { 104,4375 }, { 105,4375 },
- { 106,4375 }, { 107,4375 }, { 108,4375 }, { 109,4375 }, { 110,4375 },
- { 111,4375 }, { 112,4375 }, { 113,4375 }, { 114,4375 }, { 115,4375 },
- { 116,4375 }, { 117,4375 }, { 118,4375 }, { 119,4375 }, { 120,4375 },
- { 121,4375 }, { 122,4375 }, { 123,4375 }, { 124,4375 }, { 125,4375 },
- { 126,4375 }, { 127,4375 }, { 128,4375 }, { 129,4375 }, { 130,4375 },
- { 131,4375 }, { 132,4375 }, { 133,4375 }, { 134,4375 }, { 135,4375 },
-
- { 136,4375 }, { 137,4375 }, { 138,4375 }, { 139,4375 }, { 140,4375 },
- { 141,4375 }, { 142,4375 }, { 143,4375 }, { 144,4375 }, { 145,4375 },
- { 146,4375 }, { 147,4375 }, { 148,4375 }, { 149,4375 }, { 150,4375 },
- { 151,4375 }, { 152,4375 }, { 153,4375 }, { 154,4375 }, { 155,4375 },
- { 156,4375 }, { 157,4375 }, { 158,4375 }, { 159,4375 }, { 160,4375 },
- { 161,4375 }, { 162,4375 }, { 163,4375 }, { 164,4375 }, { 165,4375 },
- { 166,4375 }, { 167,4375 }, { 168,4375 }, { 169,4375 }, { 170,4375 },
- { 171,4375 }, { 172,4375 }, { 173,4375 }, { 174,4375 }, { 175,4375 },
- { 176,4375 }, { 177,4375 }, { 178,4375 }, { 179,4375 }, { 180,4375 },
- { 181,4375 }, { 182,4375 }, { 183,4375 }, { 184,4375 }, { 185,4375 },
-
- { 186,4375 }, { 187,4375 }, { 188,4375 }, { 189,4375 }, { 190,4375 },
- { 191,4375 }, { 192,4375 }, { 193,4375 }, { 194,4375 }, { 195,4375 },
- { 196,4375 }, { 197,4375 }, { 198,4375 }, { 199,4375 }, { 200,4375 },
- { 201,4375 }, { 202,4375 }, { 203,4375 }, { 204,4375 }, { 205,4375 },
- { 206,4375 }, { 207,4375 }, { 208,4375 }, { 209,4375 }, { 210,4375 },
- { 211,4375 }, { 212,4375 }, { 213,4375 }, { 214,4375 }, { 215,4375 },
- { 216,4375 }, { 217,4375 }, { 218,4375 }, { 219,4375 }, { 220,4375 },
- { 221,4375 }, { 222,4375 }, { 223,4375 }, { 224,4375 }, { 225,4375 },
- { 226,4375 }, { 227,4375 }, { 228,4375 }, { 229,4375 }, { 230,4375 },
- { 231,4375 }, { 232,4375 }, { 233,4375 }, { 234,4375 }, { 235,4375 },
-
- { 236,4375 }, { 237,4375 }, { 238,4375 }, { 239,4375 }, { 240,4375 },
- { 241,4375 }, { 242,4375 }, { 243,4375 }, { 244,4375 }, { 245,4375 },
- { 246,4375 }, { 247,4375 }, { 248,4375 }, { 249,4375 }, { 250,4375 },
- { 251,4375 }, { 252,4375 }, { 253,4375 }, { 254,4375 }, { 255,4375 },
- { 256,4375 }, {   0,  50 }, {   0,15657 }, {   1,2476 }, {   2,2476 },
- {   3,2476 }, {   4,2476 }, {   5,2476 }, {   6,2476 }, {   7,2476 },
- {   8,2476 }, {   9,2451 }, {  10,2451 }, {  11,2476 }, {  12,2476 },
- {  13,2451 }, {  14,2476 }, {  15,2476 }, {  16,2476 }, {  17,2476 },
- {  18,2476 }, {  19,2476 }, {  20,2476 }, {  21,2476 }, {  22,2476 },
- {  23,2476 }, {  24,2476 }, {  25,2476 }, {  26,2476 }, {  27,2476 },
-
- {  28,2476 }, {  29,2476 }, {  30,2476 }, {  31,2476 }, {  32,2451 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2476 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2451 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,2476 }, {  46,2451 }, {  47,2451 },
- {  48,2476 }, {  49,2476 }, {  50,2476 }, {  51,2476 }, {  52,2476 },
- {  53,2476 }, {  54,2476 }, {  55,2476 }, {  56,2476 }, {  57,2476 },
- {  58,2476 }, {   0,   0 }, {   0,   0 }, {  61,2451 }, {   0,   0 },
- {  63,2476 }, {   0,   0 }, {  65,2476 }, {  66,2476 }, {  67,2476 },
- {  68,2476 }, {  69,2476 }, {  70,2476 }, {  71,2476 }, {  72,2476 },
- {  73,2476 }, {  74,2476 }, {  75,2476 }, {  76,2476 }, {  77,2476 },
-
- {  78,2476 }, {  79,2476 }, {  80,2476 }, {  81,2476 }, {  82,2476 },
- {  83,2476 }, {  84,2476 }, {  85,2476 }, {  86,2476 }, {  87,2476 },
- {  88,2476 }, {  89,2476 }, {  90,2476 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,2476 }, {   0,   0 }, {  97,2476 },
- {  98,2476 }, {  99,2476 }, { 100,2476 }, { 101,2476 }, { 102,2476 },
- { 103,2476 }, { 104,2476 }, { 105,2476 }, { 106,2476 }, { 107,2476 },
- { 108,2476 }, { 109,2476 }, { 110,2476 }, { 111,2476 }, { 112,2476 },
- { 113,2476 }, { 114,2476 }, { 115,4633 }, { 116,2476 }, { 117,2476 },
- { 118,2476 }, { 119,2476 }, { 120,2476 }, { 121,2476 }, { 122,2476 },
- {   0,   0 }, { 124,2451 }, { 125,2451 }, { 126,2451 }, { 127,2476 },
-
- { 128,2476 }, { 129,2476 }, { 130,2476 }, { 131,2476 }, { 132,2476 },
- { 133,2476 }, { 134,2476 }, { 135,2476 }, { 136,2476 }, { 137,2476 },
- { 138,2476 }, { 139,2476 }, { 140,2476 }, { 141,2476 }, { 142,2476 },
- { 143,2476 }, { 144,2476 }, { 145,2476 }, { 146,2476 }, { 147,2476 },
- { 148,2476 }, { 149,2476 }, { 150,2476 }, { 151,2476 }, { 152,2476 },
- { 153,2476 }, { 154,2476 }, { 155,2476 }, { 156,2476 }, { 157,2476 },
- { 158,2476 }, { 159,2476 }, { 160,2476 }, { 161,2476 }, { 162,2476 },
- { 163,2476 }, { 164,2476 }, { 165,2476 }, { 166,2476 }, { 167,2476 },
- { 168,2476 }, { 169,2476 }, { 170,2476 }, { 171,2476 }, { 172,2476 },
- { 173,2476 }, { 174,2476 }, { 175,2476 }, { 176,2476 }, { 177,2476 },
-
- { 178,2476 }, { 179,2476 }, { 180,2476 }, { 181,2476 }, { 182,2476 },
- { 183,2476 }, { 184,2476 }, { 185,2476 }, { 186,2476 }, { 187,2476 },
- { 188,2476 }, { 189,2476 }, { 190,2476 }, { 191,2476 }, { 192,2476 },
- { 193,2476 }, { 194,2476 }, { 195,2476 }, { 196,2476 }, { 197,2476 },
- { 198,2476 }, { 199,2476 }, { 200,2476 }, { 201,2476 }, { 202,2476 },
- { 203,2476 }, { 204,2476 }, { 205,2476 }, { 206,2476 }, { 207,2476 },
- { 208,2476 }, { 209,2476 }, { 210,2476 }, { 211,2476 }, { 212,2476 },
- { 213,2476 }, { 214,2476 }, { 215,2476 }, { 216,2476 }, { 217,2476 },
- { 218,2476 }, { 219,2476 }, { 220,2476 }, { 221,2476 }, { 222,2476 },
- { 223,2476 }, { 224,2476 }, { 225,2476 }, { 226,2476 }, { 227,2476 },
-
- { 228,2476 }, { 229,2476 }, { 230,2476 }, { 231,2476 }, { 232,2476 },
- { 233,2476 }, { 234,2476 }, { 235,2476 }, { 236,2476 }, { 237,2476 },
- { 238,2476 }, { 239,2476 }, { 240,2476 }, { 241,2476 }, { 242,2476 },
- { 243,2476 }, { 244,2476 }, { 245,2476 }, { 246,2476 }, { 247,2476 },
- { 248,2476 }, { 249,2476 }, { 250,2476 }, { 251,2476 }, { 252,2476 },
- { 253,2476 }, { 254,2476 }, { 255,2476 }, { 256,2476 }, {   0,  50 },
- {   0,15399 }, {   1,2218 }, {   2,2218 }, {   3,2218 }, {   4,2218 },
- {   5,2218 }, {   6,2218 }, {   7,2218 }, {   8,2218 }, {   9,2193 },
- {  10,2193 }, {  11,2218 }, {  12,2218 }, {  13,2193 }, {  14,2218 },
- {  15,2218 }, {  16,2218 }, {  17,2218 }, {  18,2218 }, {  19,2218 },
-
- {  20,2218 }, {  21,2218 }, {  22,2218 }, {  23,2218 }, {  24,2218 },
- {  25,2218 }, {  26,2218 }, {  27,2218 }, {  28,2218 }, {  29,2218 },
- {  30,2218 }, {  31,2218 }, {  32,2193 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,2218 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,2193 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,2218 }, {  46,2193 }, {  47,2193 }, {  48,2218 }, {  49,2218 },
- {  50,2218 }, {  51,2218 }, {  52,2218 }, {  53,2218 }, {  54,2218 },
- {  55,2218 }, {  56,2218 }, {  57,2218 }, {  58,2218 }, {   0,   0 },
- {   0,   0 }, {  61,2193 }, {   0,   0 }, {  63,2218 }, {   0,   0 },
- {  65,2218 }, {  66,2218 }, {  67,2218 }, {  68,2218 }, {  69,2218 },
-
- {  70,2218 }, {  71,2218 }, {  72,2218 }, {  73,2218 }, {  74,2218 },
- {  75,2218 }, {  76,2218 }, {  77,2218 }, {  78,2218 }, {  79,2218 },
- {  80,2218 }, {  81,2218 }, {  82,2218 }, {  83,2218 }, {  84,2218 },
- {  85,2218 }, {  86,2218 }, {  87,2218 }, {  88,2218 }, {  89,2218 },
- {  90,2218 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,2218 }, {   0,   0 }, {  97,4633 }, {  98,2218 }, {  99,2218 },
- { 100,2218 }, { 101,2218 }, { 102,2218 }, { 103,2218 }, { 104,2218 },
- { 105,2218 }, { 106,2218 }, { 107,2218 }, { 108,2218 }, { 109,2218 },
- { 110,2218 }, { 111,2218 }, { 112,2218 }, { 113,2218 }, { 114,2218 },
- { 115,2218 }, { 116,2218 }, { 117,2218 }, { 118,2218 }, { 119,2218 },
-
- { 120,2218 }, { 121,2218 }, { 122,2218 }, {   0,   0 }, { 124,2193 },
- { 125,2193 }, { 126,2193 }, { 127,2218 }, { 128,2218 }, { 129,2218 },
- { 130,2218 }, { 131,2218 }, { 132,2218 }, { 133,2218 }, { 134,2218 },
- { 135,2218 }, { 136,2218 }, { 137,2218 }, { 138,2218 }, { 139,2218 },
- { 140,2218 }, { 141,2218 }, { 142,2218 }, { 143,2218 }, { 144,2218 },
- { 145,2218 }, { 146,2218 }, { 147,2218 }, { 148,2218 }, { 149,2218 },
- { 150,2218 }, { 151,2218 }, { 152,2218 }, { 153,2218 }, { 154,2218 },
- { 155,2218 }, { 156,2218 }, { 157,2218 }, { 158,2218 }, { 159,2218 },
- { 160,2218 }, { 161,2218 }, { 162,2218 }, { 163,2218 }, { 164,2218 },
- { 165,2218 }, { 166,2218 }, { 167,2218 }, { 168,2218 }, { 169,2218 },
-
- { 170,2218 }, { 171,2218 }, { 172,2218 }, { 173,2218 }, { 174,2218 },
- { 175,2218 }, { 176,2218 }, { 177,2218 }, { 178,2218 }, { 179,2218 },
- { 180,2218 }, { 181,2218 }, { 182,2218 }, { 183,2218 }, { 184,2218 },
- { 185,2218 }, { 186,2218 }, { 187,2218 }, { 188,2218 }, { 189,2218 },
- { 190,2218 }, { 191,2218 }, { 192,2218 }, { 193,2218 }, { 194,2218 },
- { 195,2218 }, { 196,2218 }, { 197,2218 }, { 198,2218 }, { 199,2218 },
- { 200,2218 }, { 201,2218 }, { 202,2218 }, { 203,2218 }, { 204,2218 },
- { 205,2218 }, { 206,2218 }, { 207,2218 }, { 208,2218 }, { 209,2218 },
- { 210,2218 }, { 211,2218 }, { 212,2218 }, { 213,2218 }, { 214,2218 },
- { 215,2218 }, { 216,2218 }, { 217,2218 }, { 218,2218 }, { 219,2218 },
-
- { 220,2218 }, { 221,2218 }, { 222,2218 }, { 223,2218 }, { 224,2218 },
- { 225,2218 }, { 226,2218 }, { 227,2218 }, { 228,2218 }, { 229,2218 },
- { 230,2218 }, { 231,2218 }, { 232,2218 }, { 233,2218 }, { 234,2218 },
- { 235,2218 }, { 236,2218 }, { 237,2218 }, { 238,2218 }, { 239,2218 },
- { 240,2218 }, { 241,2218 }, { 242,2218 }, { 243,2218 }, { 244,2218 },
- { 245,2218 }, { 246,2218 }, { 247,2218 }, { 248,2218 }, { 249,2218 },
- { 250,2218 }, { 251,2218 }, { 252,2218 }, { 253,2218 }, { 254,2218 },
- { 255,2218 }, { 256,2218 }, {   0,  50 }, {   0,15141 }, {   1,1960 },
- {   2,1960 }, {   3,1960 }, {   4,1960 }, {   5,1960 }, {   6,1960 },
- {   7,1960 }, {   8,1960 }, {   9,1935 }, {  10,1935 }, {  11,1960 },
-
- {  12,1960 }, {  13,1935 }, {  14,1960 }, {  15,1960 }, {  16,1960 },
- {  17,1960 }, {  18,1960 }, {  19,1960 }, {  20,1960 }, {  21,1960 },
- {  22,1960 }, {  23,1960 }, {  24,1960 }, {  25,1960 }, {  26,1960 },
- {  27,1960 }, {  28,1960 }, {  29,1960 }, {  30,1960 }, {  31,1960 },
- {  32,1935 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,1960 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1935 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1960 }, {  46,1935 },
- {  47,1935 }, {  48,1960 }, {  49,1960 }, {  50,1960 }, {  51,1960 },
- {  52,1960 }, {  53,1960 }, {  54,1960 }, {  55,1960 }, {  56,1960 },
- {  57,1960 }, {  58,1960 }, {   0,   0 }, {   0,   0 }, {  61,1935 },
-
- {   0,   0 }, {  63,1960 }, {   0,   0 }, {  65,1960 }, {  66,1960 },
- {  67,1960 }, {  68,1960 }, {  69,1960 }, {  70,1960 }, {  71,1960 },
- {  72,1960 }, {  73,1960 }, {  74,1960 }, {  75,1960 }, {  76,1960 },
- {  77,1960 }, {  78,1960 }, {  79,1960 }, {  80,1960 }, {  81,1960 },
- {  82,1960 }, {  83,1960 }, {  84,1960 }, {  85,1960 }, {  86,1960 },
- {  87,1960 }, {  88,1960 }, {  89,1960 }, {  90,1960 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1960 }, {   0,   0 },
- {  97,1960 }, {  98,1960 }, {  99,1960 }, { 100,1960 }, { 101,1960 },
- { 102,1960 }, { 103,1960 }, { 104,1960 }, { 105,1960 }, { 106,1960 },
- { 107,1960 }, { 108,1960 }, { 109,1960 }, { 110,1960 }, { 111,1960 },
-
- { 112,1960 }, { 113,1960 }, { 114,1960 }, { 115,1960 }, { 116,1960 },
- { 117,4633 }, { 118,1960 }, { 119,1960 }, { 120,1960 }, { 121,1960 },
- { 122,1960 }, {   0,   0 }, { 124,1935 }, { 125,1935 }, { 126,1935 },
- { 127,1960 }, { 128,1960 }, { 129,1960 }, { 130,1960 }, { 131,1960 },
- { 132,1960 }, { 133,1960 }, { 134,1960 }, { 135,1960 }, { 136,1960 },
- { 137,1960 }, { 138,1960 }, { 139,1960 }, { 140,1960 }, { 141,1960 },
- { 142,1960 }, { 143,1960 }, { 144,1960 }, { 145,1960 }, { 146,1960 },
- { 147,1960 }, { 148,1960 }, { 149,1960 }, { 150,1960 }, { 151,1960 },
- { 152,1960 }, { 153,1960 }, { 154,1960 }, { 155,1960 }, { 156,1960 },
- { 157,1960 }, { 158,1960 }, { 159,1960 }, { 160,1960 }, { 161,1960 },
-
- { 162,1960 }, { 163,1960 }, { 164,1960 }, { 165,1960 }, { 166,1960 },
- { 167,1960 }, { 168,1960 }, { 169,1960 }, { 170,1960 }, { 171,1960 },
- { 172,1960 }, { 173,1960 }, { 174,1960 }, { 175,1960 }, { 176,1960 },
- { 177,1960 }, { 178,1960 }, { 179,1960 }, { 180,1960 }, { 181,1960 },
- { 182,1960 }, { 183,1960 }, { 184,1960 }, { 185,1960 }, { 186,1960 },
- { 187,1960 }, { 188,1960 }, { 189,1960 }, { 190,1960 }, { 191,1960 },
- { 192,1960 }, { 193,1960 }, { 194,1960 }, { 195,1960 }, { 196,1960 },
- { 197,1960 }, { 198,1960 }, { 199,1960 }, { 200,1960 }, { 201,1960 },
- { 202,1960 }, { 203,1960 }, { 204,1960 }, { 205,1960 }, { 206,1960 },
- { 207,1960 }, { 208,1960 }, { 209,1960 }, { 210,1960 }, { 211,1960 },
-
- { 212,1960 }, { 213,1960 }, { 214,1960 }, { 215,1960 }, { 216,1960 },
- { 217,1960 }, { 218,1960 }, { 219,1960 }, { 220,1960 }, { 221,1960 },
- { 222,1960 }, { 223,1960 }, { 224,1960 }, { 225,1960 }, { 226,1960 },
- { 227,1960 }, { 228,1960 }, { 229,1960 }, { 230,1960 }, { 231,1960 },
- { 232,1960 }, { 233,1960 }, { 234,1960 }, { 235,1960 }, { 236,1960 },
- { 237,1960 }, { 238,1960 }, { 239,1960 }, { 240,1960 }, { 241,1960 },
- { 242,1960 }, { 243,1960 }, { 244,1960 }, { 245,1960 }, { 246,1960 },
- { 247,1960 }, { 248,1960 }, { 249,1960 }, { 250,1960 }, { 251,1960 },
- { 252,1960 }, { 253,1960 }, { 254,1960 }, { 255,1960 }, { 256,1960 },
- {   0,  50 }, {   0,14883 }, {   1,1702 }, {   2,1702 }, {   3,1702 },
-
- {   4,1702 }, {   5,1702 }, {   6,1702 }, {   7,1702 }, {   8,1702 },
- {   9,1677 }, {  10,1677 }, {  11,1702 }, {  12,1702 }, {  13,1677 },
- {  14,1702 }, {  15,1702 }, {  16,1702 }, {  17,1702 }, {  18,1702 },
- {  19,1702 }, {  20,1702 }, {  21,1702 }, {  22,1702 }, {  23,1702 },
- {  24,1702 }, {  25,1702 }, {  26,1702 }, {  27,1702 }, {  28,1702 },
- {  29,1702 }, {  30,1702 }, {  31,1702 }, {  32,1677 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,1702 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1677 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,1702 }, {  46,1677 }, {  47,1677 }, {  48,1702 },
- {  49,1702 }, {  50,1702 }, {  51,1702 }, {  52,1702 }, {  53,1702 },
-
- {  54,1702 }, {  55,1702 }, {  56,1702 }, {  57,1702 }, {  58,1702 },
- {   0,   0 }, {   0,   0 }, {  61,1677 }, {   0,   0 }, {  63,1702 },
- {   0,   0 }, {  65,1702 }, {  66,1702 }, {  67,1702 }, {  68,1702 },
- {  69,1702 }, {  70,1702 }, {  71,1702 }, {  72,1702 }, {  73,1702 },
- {  74,1702 }, {  75,1702 }, {  76,1702 }, {  77,1702 }, {  78,1702 },
- {  79,1702 }, {  80,1702 }, {  81,1702 }, {  82,1702 }, {  83,1702 },
- {  84,1702 }, {  85,1702 }, {  86,1702 }, {  87,1702 }, {  88,1702 },
- {  89,1702 }, {  90,1702 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,1702 }, {   0,   0 }, {  97,1702 }, {  98,1702 },
- {  99,1702 }, { 100,1702 }, { 101,1702 }, { 102,1702 }, { 103,1702 },
-
- { 104,1702 }, { 105,1702 }, { 106,1702 }, { 107,1702 }, { 108,1702 },
- { 109,1702 }, { 110,1702 }, { 111,1702 }, { 112,1702 }, { 113,1702 },
- { 114,4633 }, { 115,1702 }, { 116,1702 }, { 117,1702 }, { 118,1702 },
- { 119,1702 }, { 120,1702 }, { 121,1702 }, { 122,1702 }, {   0,   0 },
- { 124,1677 }, { 125,1677 }, { 126,1677 }, { 127,1702 }, { 128,1702 },
- { 129,1702 }, { 130,1702 }, { 131,1702 }, { 132,1702 }, { 133,1702 },
- { 134,1702 }, { 135,1702 }, { 136,1702 }, { 137,1702 }, { 138,1702 },
- { 139,1702 }, { 140,1702 }, { 141,1702 }, { 142,1702 }, { 143,1702 },
- { 144,1702 }, { 145,1702 }, { 146,1702 }, { 147,1702 }, { 148,1702 },
- { 149,1702 }, { 150,1702 }, { 151,1702 }, { 152,1702 }, { 153,1702 },
-
- { 154,1702 }, { 155,1702 }, { 156,1702 }, { 157,1702 }, { 158,1702 },
- { 159,1702 }, { 160,1702 }, { 161,1702 }, { 162,1702 }, { 163,1702 },
- { 164,1702 }, { 165,1702 }, { 166,1702 }, { 167,1702 }, { 168,1702 },
- { 169,1702 }, { 170,1702 }, { 171,1702 }, { 172,1702 }, { 173,1702 },
- { 174,1702 }, { 175,1702 }, { 176,1702 }, { 177,1702 }, { 178,1702 },
- { 179,1702 }, { 180,1702 }, { 181,1702 }, { 182,1702 }, { 183,1702 },
- { 184,1702 }, { 185,1702 }, { 186,1702 }, { 187,1702 }, { 188,1702 },
- { 189,1702 }, { 190,1702 }, { 191,1702 }, { 192,1702 }, { 193,1702 },
- { 194,1702 }, { 195,1702 }, { 196,1702 }, { 197,1702 }, { 198,1702 },
- { 199,1702 }, { 200,1702 }, { 201,1702 }, { 202,1702 }, { 203,1702 },
-
- { 204,1702 }, { 205,1702 }, { 206,1702 }, { 207,1702 }, { 208,1702 },
- { 209,1702 }, { 210,1702 }, { 211,1702 }, { 212,1702 }, { 213,1702 },
- { 214,1702 }, { 215,1702 }, { 216,1702 }, { 217,1702 }, { 218,1702 },
- { 219,1702 }, { 220,1702 }, { 221,1702 }, { 222,1702 }, { 223,1702 },
- { 224,1702 }, { 225,1702 }, { 226,1702 }, { 227,1702 }, { 228,1702 },
- { 229,1702 }, { 230,1702 }, { 231,1702 }, { 232,1702 }, { 233,1702 },
- { 234,1702 }, { 235,1702 }, { 236,1702 }, { 237,1702 }, { 238,1702 },
- { 239,1702 }, { 240,1702 }, { 241,1702 }, { 242,1702 }, { 243,1702 },
- { 244,1702 }, { 245,1702 }, { 246,1702 }, { 247,1702 }, { 248,1702 },
- { 249,1702 }, { 250,1702 }, { 251,1702 }, { 252,1702 }, { 253,1702 },
-
- { 254,1702 }, { 255,1702 }, { 256,1702 }, {   0,  50 }, {   0,14625 },
- {   1,1444 }, {   2,1444 }, {   3,1444 }, {   4,1444 }, {   5,1444 },
- {   6,1444 }, {   7,1444 }, {   8,1444 }, {   9,1419 }, {  10,1419 },
- {  11,1444 }, {  12,1444 }, {  13,1419 }, {  14,1444 }, {  15,1444 },
- {  16,1444 }, {  17,1444 }, {  18,1444 }, {  19,1444 }, {  20,1444 },
- {  21,1444 }, {  22,1444 }, {  23,1444 }, {  24,1444 }, {  25,1444 },
- {  26,1444 }, {  27,1444 }, {  28,1444 }, {  29,1444 }, {  30,1444 },
- {  31,1444 }, {  32,1419 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,1444 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,1419 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1444 },
-
- {  46,1419 }, {  47,1419 }, {  48,1444 }, {  49,1444 }, {  50,1444 },
- {  51,1444 }, {  52,1444 }, {  53,1444 }, {  54,1444 }, {  55,1444 },
- {  56,1444 }, {  57,1444 }, {  58,1444 }, {   0,   0 }, {   0,   0 },
- {  61,1419 }, {   0,   0 }, {  63,1444 }, {   0,   0 }, {  65,1444 },
- {  66,1444 }, {  67,1444 }, {  68,1444 }, {  69,1444 }, {  70,1444 },
- {  71,1444 }, {  72,1444 }, {  73,1444 }, {  74,1444 }, {  75,1444 },
- {  76,1444 }, {  77,1444 }, {  78,1444 }, {  79,1444 }, {  80,1444 },
- {  81,1444 }, {  82,1444 }, {  83,1444 }, {  84,1444 }, {  85,1444 },
- {  86,1444 }, {  87,1444 }, {  88,1444 }, {  89,1444 }, {  90,1444 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1444 },
-
- {   0,   0 }, {  97,1444 }, {  98,1444 }, {  99,1444 }, { 100,1444 },
- { 101,1444 }, { 102,1444 }, { 103,1444 }, { 104,1444 }, { 105,1444 },
- { 106,1444 }, { 107,1444 }, { 108,1444 }, { 109,1444 }, { 110,4633 },
- { 111,1444 }, { 112,1444 }, { 113,1444 }, { 114,1444 }, { 115,1444 },
- { 116,1444 }, { 117,1444 }, { 118,1444 }, { 119,1444 }, { 120,1444 },
- { 121,1444 }, { 122,1444 }, {   0,   0 }, { 124,1419 }, { 125,1419 },
- { 126,1419 }, { 127,1444 }, { 128,1444 }, { 129,1444 }, { 130,1444 },
- { 131,1444 }, { 132,1444 }, { 133,1444 }, { 134,1444 }, { 135,1444 },
- { 136,1444 }, { 137,1444 }, { 138,1444 }, { 139,1444 }, { 140,1444 },
- { 141,1444 }, { 142,1444 }, { 143,1444 }, { 144,1444 }, { 145,1444 },
-
- { 146,1444 }, { 147,1444 }, { 148,1444 }, { 149,1444 }, { 150,1444 },
- { 151,1444 }, { 152,1444 }, { 153,1444 }, { 154,1444 }, { 155,1444 },
- { 156,1444 }, { 157,1444 }, { 158,1444 }, { 159,1444 }, { 160,1444 },
- { 161,1444 }, { 162,1444 }, { 163,1444 }, { 164,1444 }, { 165,1444 },
- { 166,1444 }, { 167,1444 }, { 168,1444 }, { 169,1444 }, { 170,1444 },
- { 171,1444 }, { 172,1444 }, { 173,1444 }, { 174,1444 }, { 175,1444 },
- { 176,1444 }, { 177,1444 }, { 178,1444 }, { 179,1444 }, { 180,1444 },
- { 181,1444 }, { 182,1444 }, { 183,1444 }, { 184,1444 }, { 185,1444 },
- { 186,1444 }, { 187,1444 }, { 188,1444 }, { 189,1444 }, { 190,1444 },
- { 191,1444 }, { 192,1444 }, { 193,1444 }, { 194,1444 }, { 195,1444 },
-
- { 196,1444 }, { 197,1444 }, { 198,1444 }, { 199,1444 }, { 200,1444 },
- { 201,1444 }, { 202,1444 }, { 203,1444 }, { 204,1444 }, { 205,1444 },
- { 206,1444 }, { 207,1444 }, { 208,1444 }, { 209,1444 }, { 210,1444 },
- { 211,1444 }, { 212,1444 }, { 213,1444 }, { 214,1444 }, { 215,1444 },
- { 216,1444 }, { 217,1444 }, { 218,1444 }, { 219,1444 }, { 220,1444 },
- { 221,1444 }, { 222,1444 }, { 223,1444 }, { 224,1444 }, { 225,1444 },
- { 226,1444 }, { 227,1444 }, { 228,1444 }, { 229,1444 }, { 230,1444 },
- { 231,1444 }, { 232,1444 }, { 233,1444 }, { 234,1444 }, { 235,1444 },
- { 236,1444 }, { 237,1444 }, { 238,1444 }, { 239,1444 }, { 240,1444 },
- { 241,1444 }, { 242,1444 }, { 243,1444 }, { 244,1444 }, { 245,1444 },
-
- { 246,1444 }, { 247,1444 }, { 248,1444 }, { 249,1444 }, { 250,1444 },
- { 251,1444 }, { 252,1444 }, { 253,1444 }, { 254,1444 }, { 255,1444 },
- { 256,1444 }, {   0,  51 }, {   0,14367 }, {   1,4769 }, {   2,4769 },
+ {   0,   0 }, {   0,19603 }, {   1,3278 }, {   2,3278 }, {   3,3278 },
+ {   4,3278 }, {   5,3278 }, {   6,3278 }, {   7,3278 }, {   8,3278 },
+ {   9,3278 }, {  10,3278 }, {  11,3278 }, {  12,3278 }, {  13,3278 },
+ {  14,3278 }, {  15,3278 }, {  16,3278 }, {  17,3278 }, {  18,3278 },
+ {  19,3278 }, {  20,3278 }, {  21,3278 }, {  22,3278 }, {  23,3278 },
+ {  24,3278 }, {  25,3278 }, {  26,3278 }, {  27,3278 }, {  28,3278 },
+ {  29,3278 }, {  30,3278 }, {  31,3278 }, {  32,3278 }, {  33,3278 },
+ {  34,3278 }, {  35,3278 }, {  36,3278 }, {  37,3278 }, {  38,3278 },
+ {  39,3278 }, {  40,3278 }, {  41,3278 }, {  42,3278 }, {  43,3278 },
+ {  44,3278 }, {  45,3278 }, {  46,3278 }, {  47,3278 }, {  48,3278 },
+
+ {  49,3278 }, {  50,3278 }, {  51,3278 }, {  52,3278 }, {  53,3278 },
+ {  54,3278 }, {  55,3278 }, {  56,3278 }, {  57,3278 }, {  58,3278 },
+ {  59,3278 }, {  60,3278 }, {  61,3278 }, {  62,3278 }, {  63,3278 },
+ {  64,3278 }, {  65,3278 }, {  66,3278 }, {  67,3278 }, {  68,3278 },
+ {  69,3278 }, {  70,3278 }, {  71,3278 }, {  72,3278 }, {  73,3278 },
+ {  74,3278 }, {  75,3278 }, {  76,3278 }, {  77,3278 }, {  78,3278 },
+ {  79,3278 }, {  80,3278 }, {  81,3278 }, {  82,3278 }, {  83,3278 },
+ {  84,3278 }, {  85,3278 }, {  86,3278 }, {  87,3278 }, {  88,3278 },
+ {  89,3278 }, {  90,3278 }, {  91,3278 }, {  92,3278 }, {  93,3278 },
+ {  94,3278 }, {  95,3278 }, {  96,3278 }, {  97,3278 }, {  98,3278 },
+
+ {  99,3278 }, { 100,3278 }, { 101,3278 }, { 102,3278 }, { 103,3278 },
+ { 104,3278 }, { 105,3278 }, { 106,3278 }, { 107,3278 }, { 108,3278 },
+ { 109,3278 }, { 110,3278 }, { 111,3278 }, { 112,3278 }, { 113,3278 },
+ { 114,3278 }, { 115,3278 }, { 116,3278 }, { 117,3278 }, { 118,3278 },
+ { 119,3278 }, { 120,3278 }, { 121,3278 }, { 122,3278 }, { 123,5111 },
+ { 124,3278 }, { 125,3278 }, { 126,3278 }, { 127,3278 }, { 128,3278 },
+ { 129,3278 }, { 130,3278 }, { 131,3278 }, { 132,3278 }, { 133,3278 },
+ { 134,3278 }, { 135,3278 }, { 136,3278 }, { 137,3278 }, { 138,3278 },
+ { 139,3278 }, { 140,3278 }, { 141,3278 }, { 142,3278 }, { 143,3278 },
+ { 144,3278 }, { 145,3278 }, { 146,3278 }, { 147,3278 }, { 148,3278 },
+
+ { 149,3278 }, { 150,3278 }, { 151,3278 }, { 152,3278 }, { 153,3278 },
+ { 154,3278 }, { 155,3278 }, { 156,3278 }, { 157,3278 }, { 158,3278 },
+ { 159,3278 }, { 160,3278 }, { 161,3278 }, { 162,3278 }, { 163,3278 },
+ { 164,3278 }, { 165,3278 }, { 166,3278 }, { 167,3278 }, { 168,3278 },
+ { 169,3278 }, { 170,3278 }, { 171,3278 }, { 172,3278 }, { 173,3278 },
+ { 174,3278 }, { 175,3278 }, { 176,3278 }, { 177,3278 }, { 178,3278 },
+ { 179,3278 }, { 180,3278 }, { 181,3278 }, { 182,3278 }, { 183,3278 },
+ { 184,3278 }, { 185,3278 }, { 186,3278 }, { 187,3278 }, { 188,3278 },
+ { 189,3278 }, { 190,3278 }, { 191,3278 }, { 192,3278 }, { 193,3278 },
+ { 194,3278 }, { 195,3278 }, { 196,3278 }, { 197,3278 }, { 198,3278 },
+
+ { 199,3278 }, { 200,3278 }, { 201,3278 }, { 202,3278 }, { 203,3278 },
+ { 204,3278 }, { 205,3278 }, { 206,3278 }, { 207,3278 }, { 208,3278 },
+ { 209,3278 }, { 210,3278 }, { 211,3278 }, { 212,3278 }, { 213,3278 },
+ { 214,3278 }, { 215,3278 }, { 216,3278 }, { 217,3278 }, { 218,3278 },
+ { 219,3278 }, { 220,3278 }, { 221,3278 }, { 222,3278 }, { 223,3278 },
+ { 224,3278 }, { 225,3278 }, { 226,3278 }, { 227,3278 }, { 228,3278 },
+ { 229,3278 }, { 230,3278 }, { 231,3278 }, { 232,3278 }, { 233,3278 },
+ { 234,3278 }, { 235,3278 }, { 236,3278 }, { 237,3278 }, { 238,3278 },
+ { 239,3278 }, { 240,3278 }, { 241,3278 }, { 242,3278 }, { 243,3278 },
+ { 244,3278 }, { 245,3278 }, { 246,3278 }, { 247,3278 }, { 248,3278 },
+
+ { 249,3278 }, { 250,3278 }, { 251,3278 }, { 252,3278 }, { 253,3278 },
+ { 254,3278 }, { 255,3278 }, { 256,3278 }, {   0,   0 }, {   0,19345 },
+ {   1,3020 }, {   2,3020 }, {   3,3020 }, {   4,3020 }, {   5,3020 },
+ {   6,3020 }, {   7,3020 }, {   8,3020 }, {   9,3020 }, {  10,3020 },
+ {  11,3020 }, {  12,3020 }, {  13,3020 }, {  14,3020 }, {  15,3020 },
+ {  16,3020 }, {  17,3020 }, {  18,3020 }, {  19,3020 }, {  20,3020 },
+ {  21,3020 }, {  22,3020 }, {  23,3020 }, {  24,3020 }, {  25,3020 },
+ {  26,3020 }, {  27,3020 }, {  28,3020 }, {  29,3020 }, {  30,3020 },
+ {  31,3020 }, {  32,3020 }, {  33,3020 }, {  34,3020 }, {  35,3020 },
+ {  36,3020 }, {  37,3020 }, {  38,3020 }, {  39,3020 }, {  40,3020 },
+
+ {  41,3020 }, {  42,3020 }, {  43,3020 }, {  44,3020 }, {  45,3020 },
+ {  46,3020 }, {  47,3020 }, {  48,3020 }, {  49,3020 }, {  50,3020 },
+ {  51,3020 }, {  52,3020 }, {  53,3020 }, {  54,3020 }, {  55,3020 },
+ {  56,3020 }, {  57,3020 }, {  58,3020 }, {  59,3020 }, {  60,3020 },
+ {  61,3020 }, {  62,3020 }, {  63,3020 }, {  64,3020 }, {  65,3020 },
+ {  66,3020 }, {  67,3020 }, {  68,3020 }, {  69,3020 }, {  70,3020 },
+ {  71,3020 }, {  72,3020 }, {  73,3020 }, {  74,3020 }, {  75,3020 },
+ {  76,3020 }, {  77,3020 }, {  78,3020 }, {  79,3020 }, {  80,3020 },
+ {  81,3020 }, {  82,3020 }, {  83,3020 }, {  84,3020 }, {  85,3020 },
+ {  86,3020 }, {  87,3020 }, {  88,3020 }, {  89,3020 }, {  90,3020 },
+
+ {  91,3020 }, {  92,3020 }, {  93,3020 }, {  94,3020 }, {  95,3020 },
+ {  96,3020 }, {  97,3020 }, {  98,3020 }, {  99,3020 }, { 100,3020 },
+ { 101,3020 }, { 102,3020 }, { 103,3020 }, { 104,3020 }, { 105,3020 },
+ { 106,3020 }, { 107,3020 }, { 108,3020 }, { 109,3020 }, { 110,3020 },
+ { 111,3020 }, { 112,3020 }, { 113,3020 }, { 114,3020 }, { 115,3020 },
+ { 116,3020 }, { 117,3020 }, { 118,3020 }, { 119,3020 }, { 120,3020 },
+ { 121,3020 }, { 122,3020 }, { 123,4853 }, { 124,3020 }, { 125,3020 },
+ { 126,3020 }, { 127,3020 }, { 128,3020 }, { 129,3020 }, { 130,3020 },
+ { 131,3020 }, { 132,3020 }, { 133,3020 }, { 134,3020 }, { 135,3020 },
+ { 136,3020 }, { 137,3020 }, { 138,3020 }, { 139,3020 }, { 140,3020 },
+
+ { 141,3020 }, { 142,3020 }, { 143,3020 }, { 144,3020 }, { 145,3020 },
+ { 146,3020 }, { 147,3020 }, { 148,3020 }, { 149,3020 }, { 150,3020 },
+ { 151,3020 }, { 152,3020 }, { 153,3020 }, { 154,3020 }, { 155,3020 },
+ { 156,3020 }, { 157,3020 }, { 158,3020 }, { 159,3020 }, { 160,3020 },
+ { 161,3020 }, { 162,3020 }, { 163,3020 }, { 164,3020 }, { 165,3020 },
+ { 166,3020 }, { 167,3020 }, { 168,3020 }, { 169,3020 }, { 170,3020 },
+ { 171,3020 }, { 172,3020 }, { 173,3020 }, { 174,3020 }, { 175,3020 },
+ { 176,3020 }, { 177,3020 }, { 178,3020 }, { 179,3020 }, { 180,3020 },
+ { 181,3020 }, { 182,3020 }, { 183,3020 }, { 184,3020 }, { 185,3020 },
+ { 186,3020 }, { 187,3020 }, { 188,3020 }, { 189,3020 }, { 190,3020 },
+
+ { 191,3020 }, { 192,3020 }, { 193,3020 }, { 194,3020 }, { 195,3020 },
+ { 196,3020 }, { 197,3020 }, { 198,3020 }, { 199,3020 }, { 200,3020 },
+ { 201,3020 }, { 202,3020 }, { 203,3020 }, { 204,3020 }, { 205,3020 },
+ { 206,3020 }, { 207,3020 }, { 208,3020 }, { 209,3020 }, { 210,3020 },
+ { 211,3020 }, { 212,3020 }, { 213,3020 }, { 214,3020 }, { 215,3020 },
+ { 216,3020 }, { 217,3020 }, { 218,3020 }, { 219,3020 }, { 220,3020 },
+ { 221,3020 }, { 222,3020 }, { 223,3020 }, { 224,3020 }, { 225,3020 },
+ { 226,3020 }, { 227,3020 }, { 228,3020 }, { 229,3020 }, { 230,3020 },
+ { 231,3020 }, { 232,3020 }, { 233,3020 }, { 234,3020 }, { 235,3020 },
+ { 236,3020 }, { 237,3020 }, { 238,3020 }, { 239,3020 }, { 240,3020 },
+
+ { 241,3020 }, { 242,3020 }, { 243,3020 }, { 244,3020 }, { 245,3020 },
+ { 246,3020 }, { 247,3020 }, { 248,3020 }, { 249,3020 }, { 250,3020 },
+ { 251,3020 }, { 252,3020 }, { 253,3020 }, { 254,3020 }, { 255,3020 },
+ { 256,3020 }, {   0,   0 }, {   0,19087 }, {   1,4720 }, {   2,4720 },
+ {   3,4720 }, {   4,4720 }, {   5,4720 }, {   6,4720 }, {   7,4720 },
+ {   8,4720 }, {   9,4720 }, {  10,4720 }, {  11,4720 }, {  12,4720 },
+ {  13,4720 }, {  14,4720 }, {  15,4720 }, {  16,4720 }, {  17,4720 },
+ {  18,4720 }, {  19,4720 }, {  20,4720 }, {  21,4720 }, {  22,4720 },
+ {  23,4720 }, {  24,4720 }, {  25,4720 }, {  26,4720 }, {  27,4720 },
+ {  28,4720 }, {  29,4720 }, {  30,4720 }, {  31,4720 }, {  32,4720 },
+
+ {  33,4720 }, {  34,4720 }, {  35,4720 }, {  36,4720 }, {  37,4720 },
+ {  38,4720 }, {  39,4720 }, {  40,4720 }, {  41,4720 }, {  42,4720 },
+ {  43,4720 }, {  44,4720 }, {  45,4720 }, {  46,4720 }, {  47,4720 },
+ {  48,4720 }, {  49,4720 }, {  50,4720 }, {  51,4720 }, {  52,4720 },
+ {  53,4720 }, {  54,4720 }, {  55,4720 }, {  56,4720 }, {  57,4720 },
+ {  58,4720 }, {  59,4720 }, {  60,4720 }, {  61,4720 }, {  62,4720 },
+ {  63,4720 }, {  64,4720 }, {  65,4720 }, {  66,4720 }, {  67,4720 },
+ {  68,4720 }, {  69,4720 }, {  70,4720 }, {  71,4720 }, {  72,4720 },
+ {  73,4720 }, {  74,4720 }, {  75,4720 }, {  76,4720 }, {  77,4720 },
+ {  78,4720 }, {  79,4720 }, {  80,4720 }, {  81,4720 }, {  82,4720 },
+
+ {  83,4720 }, {  84,4720 }, {  85,4720 }, {  86,4720 }, {  87,4720 },
+ {  88,4720 }, {  89,4720 }, {  90,4720 }, {  91,4720 }, {  92,4720 },
+ {  93,4720 }, {  94,4720 }, {  95,4720 }, {  96,4720 }, {  97,4720 },
+ {  98,4720 }, {  99,4720 }, { 100,4720 }, { 101,4720 }, { 102,4720 },
+ { 103,4720 }, { 104,4720 }, { 105,4720 }, { 106,4720 }, { 107,4720 },
+ { 108,4720 }, { 109,4720 }, { 110,4720 }, { 111,4720 }, { 112,4720 },
+ { 113,4720 }, { 114,4720 }, { 115,4720 }, { 116,4720 }, { 117,4720 },
+ { 118,4720 }, { 119,4720 }, { 120,4720 }, { 121,4720 }, { 122,4720 },
+ { 123,4720 }, { 124,4720 }, { 125,4978 }, { 126,4720 }, { 127,4720 },
+ { 128,4720 }, { 129,4720 }, { 130,4720 }, { 131,4720 }, { 132,4720 },
+
+ { 133,4720 }, { 134,4720 }, { 135,4720 }, { 136,4720 }, { 137,4720 },
+ { 138,4720 }, { 139,4720 }, { 140,4720 }, { 141,4720 }, { 142,4720 },
+ { 143,4720 }, { 144,4720 }, { 145,4720 }, { 146,4720 }, { 147,4720 },
+ { 148,4720 }, { 149,4720 }, { 150,4720 }, { 151,4720 }, { 152,4720 },
+ { 153,4720 }, { 154,4720 }, { 155,4720 }, { 156,4720 }, { 157,4720 },
+ { 158,4720 }, { 159,4720 }, { 160,4720 }, { 161,4720 }, { 162,4720 },
+ { 163,4720 }, { 164,4720 }, { 165,4720 }, { 166,4720 }, { 167,4720 },
+ { 168,4720 }, { 169,4720 }, { 170,4720 }, { 171,4720 }, { 172,4720 },
+ { 173,4720 }, { 174,4720 }, { 175,4720 }, { 176,4720 }, { 177,4720 },
+ { 178,4720 }, { 179,4720 }, { 180,4720 }, { 181,4720 }, { 182,4720 },
+
+ { 183,4720 }, { 184,4720 }, { 185,4720 }, { 186,4720 }, { 187,4720 },
+ { 188,4720 }, { 189,4720 }, { 190,4720 }, { 191,4720 }, { 192,4720 },
+ { 193,4720 }, { 194,4720 }, { 195,4720 }, { 196,4720 }, { 197,4720 },
+ { 198,4720 }, { 199,4720 }, { 200,4720 }, { 201,4720 }, { 202,4720 },
+ { 203,4720 }, { 204,4720 }, { 205,4720 }, { 206,4720 }, { 207,4720 },
+ { 208,4720 }, { 209,4720 }, { 210,4720 }, { 211,4720 }, { 212,4720 },
+ { 213,4720 }, { 214,4720 }, { 215,4720 }, { 216,4720 }, { 217,4720 },
+ { 218,4720 }, { 219,4720 }, { 220,4720 }, { 221,4720 }, { 222,4720 },
+ { 223,4720 }, { 224,4720 }, { 225,4720 }, { 226,4720 }, { 227,4720 },
+ { 228,4720 }, { 229,4720 }, { 230,4720 }, { 231,4720 }, { 232,4720 },
+
+ { 233,4720 }, { 234,4720 }, { 235,4720 }, { 236,4720 }, { 237,4720 },
+ { 238,4720 }, { 239,4720 }, { 240,4720 }, { 241,4720 }, { 242,4720 },
+ { 243,4720 }, { 244,4720 }, { 245,4720 }, { 246,4720 }, { 247,4720 },
+ { 248,4720 }, { 249,4720 }, { 250,4720 }, { 251,4720 }, { 252,4720 },
+ { 253,4720 }, { 254,4720 }, { 255,4720 }, { 256,4720 }, {   0,   0 },
+ {   0,18829 }, {   1,4462 }, {   2,4462 }, {   3,4462 }, {   4,4462 },
+ {   5,4462 }, {   6,4462 }, {   7,4462 }, {   8,4462 }, {   9,4462 },
+ {  10,4462 }, {  11,4462 }, {  12,4462 }, {  13,4462 }, {  14,4462 },
+ {  15,4462 }, {  16,4462 }, {  17,4462 }, {  18,4462 }, {  19,4462 },
+ {  20,4462 }, {  21,4462 }, {  22,4462 }, {  23,4462 }, {  24,4462 },
+
+ {  25,4462 }, {  26,4462 }, {  27,4462 }, {  28,4462 }, {  29,4462 },
+ {  30,4462 }, {  31,4462 }, {  32,4462 }, {  33,4462 }, {  34,4462 },
+ {  35,4462 }, {  36,4462 }, {  37,4462 }, {  38,4462 }, {  39,4462 },
+ {  40,4462 }, {  41,4462 }, {  42,4462 }, {  43,4462 }, {  44,4462 },
+ {  45,4462 }, {  46,4462 }, {  47,4462 }, {  48,4462 }, {  49,4462 },
+ {  50,4462 }, {  51,4462 }, {  52,4462 }, {  53,4462 }, {  54,4462 },
+ {  55,4462 }, {  56,4462 }, {  57,4462 }, {  58,4462 }, {  59,4462 },
+ {  60,4462 }, {  61,4462 }, {  62,4462 }, {  63,4462 }, {  64,4462 },
+ {  65,4462 }, {  66,4462 }, {  67,4462 }, {  68,4462 }, {  69,4462 },
+ {  70,4462 }, {  71,4462 }, {  72,4462 }, {  73,4462 }, {  74,4462 },
+
+ {  75,4462 }, {  76,4462 }, {  77,4462 }, {  78,4462 }, {  79,4462 },
+ {  80,4462 }, {  81,4462 }, {  82,4462 }, {  83,4462 }, {  84,4462 },
+ {  85,4462 }, {  86,4462 }, {  87,4462 }, {  88,4462 }, {  89,4462 },
+ {  90,4462 }, {  91,4462 }, {  92,4462 }, {  93,4462 }, {  94,4462 },
+ {  95,4462 }, {  96,4462 }, {  97,4462 }, {  98,4462 }, {  99,4462 },
+ { 100,4462 }, { 101,4462 }, { 102,4462 }, { 103,4462 }, { 104,4462 },
+ { 105,4462 }, { 106,4462 }, { 107,4462 }, { 108,4462 }, { 109,4462 },
+ { 110,4462 }, { 111,4462 }, { 112,4462 }, { 113,4462 }, { 114,4462 },
+ { 115,4462 }, { 116,4462 }, { 117,4462 }, { 118,4462 }, { 119,4462 },
+ { 120,4462 }, { 121,4462 }, { 122,4462 }, { 123,4462 }, { 124,4462 },
+
+ { 125,4720 }, { 126,4462 }, { 127,4462 }, { 128,4462 }, { 129,4462 },
+ { 130,4462 }, { 131,4462 }, { 132,4462 }, { 133,4462 }, { 134,4462 },
+ { 135,4462 }, { 136,4462 }, { 137,4462 }, { 138,4462 }, { 139,4462 },
+ { 140,4462 }, { 141,4462 }, { 142,4462 }, { 143,4462 }, { 144,4462 },
+ { 145,4462 }, { 146,4462 }, { 147,4462 }, { 148,4462 }, { 149,4462 },
+ { 150,4462 }, { 151,4462 }, { 152,4462 }, { 153,4462 }, { 154,4462 },
+ { 155,4462 }, { 156,4462 }, { 157,4462 }, { 158,4462 }, { 159,4462 },
+ { 160,4462 }, { 161,4462 }, { 162,4462 }, { 163,4462 }, { 164,4462 },
+ { 165,4462 }, { 166,4462 }, { 167,4462 }, { 168,4462 }, { 169,4462 },
+ { 170,4462 }, { 171,4462 }, { 172,4462 }, { 173,4462 }, { 174,4462 },
+
+ { 175,4462 }, { 176,4462 }, { 177,4462 }, { 178,4462 }, { 179,4462 },
+ { 180,4462 }, { 181,4462 }, { 182,4462 }, { 183,4462 }, { 184,4462 },
+ { 185,4462 }, { 186,4462 }, { 187,4462 }, { 188,4462 }, { 189,4462 },
+ { 190,4462 }, { 191,4462 }, { 192,4462 }, { 193,4462 }, { 194,4462 },
+ { 195,4462 }, { 196,4462 }, { 197,4462 }, { 198,4462 }, { 199,4462 },
+ { 200,4462 }, { 201,4462 }, { 202,4462 }, { 203,4462 }, { 204,4462 },
+ { 205,4462 }, { 206,4462 }, { 207,4462 }, { 208,4462 }, { 209,4462 },
+ { 210,4462 }, { 211,4462 }, { 212,4462 }, { 213,4462 }, { 214,4462 },
+ { 215,4462 }, { 216,4462 }, { 217,4462 }, { 218,4462 }, { 219,4462 },
+ { 220,4462 }, { 221,4462 }, { 222,4462 }, { 223,4462 }, { 224,4462 },
+
+ { 225,4462 }, { 226,4462 }, { 227,4462 }, { 228,4462 }, { 229,4462 },
+ { 230,4462 }, { 231,4462 }, { 232,4462 }, { 233,4462 }, { 234,4462 },
+ { 235,4462 }, { 236,4462 }, { 237,4462 }, { 238,4462 }, { 239,4462 },
+ { 240,4462 }, { 241,4462 }, { 242,4462 }, { 243,4462 }, { 244,4462 },
+ { 245,4462 }, { 246,4462 }, { 247,4462 }, { 248,4462 }, { 249,4462 },
+ { 250,4462 }, { 251,4462 }, { 252,4462 }, { 253,4462 }, { 254,4462 },
+ { 255,4462 }, { 256,4462 }, {   0,   0 }, {   0,18571 }, {   1,4720 },
+ {   2,4720 }, {   3,4720 }, {   4,4720 }, {   5,4720 }, {   6,4720 },
+ {   7,4720 }, {   8,4720 }, {   9,4720 }, {  10,4720 }, {  11,4720 },
+ {  12,4720 }, {  13,4720 }, {  14,4720 }, {  15,4720 }, {  16,4720 },
+
+ {  17,4720 }, {  18,4720 }, {  19,4720 }, {  20,4720 }, {  21,4720 },
+ {  22,4720 }, {  23,4720 }, {  24,4720 }, {  25,4720 }, {  26,4720 },
+ {  27,4720 }, {  28,4720 }, {  29,4720 }, {  30,4720 }, {  31,4720 },
+ {  32,4720 }, {  33,4720 }, {  34,4720 }, {  35,4720 }, {  36,4720 },
+ {  37,4720 }, {  38,4720 }, {  39,4720 }, {  40,4720 }, {  41,4720 },
+ {  42,4720 }, {  43,4720 }, {  44,4720 }, {  45,4720 }, {  46,4720 },
+ {  47,4720 }, {  48,4720 }, {  49,4720 }, {  50,4720 }, {  51,4720 },
+ {  52,4720 }, {  53,4720 }, {  54,4720 }, {  55,4720 }, {  56,4720 },
+ {  57,4720 }, {  58,4720 }, {  59,4720 }, {  60,4720 }, {  61,4720 },
+ {  62,4720 }, {  63,4720 }, {  64,4720 }, {  65,4720 }, {  66,4720 },
+
+ {  67,4720 }, {  68,4720 }, {  69,4720 }, {  70,4720 }, {  71,4720 },
+ {  72,4720 }, {  73,4720 }, {  74,4720 }, {  75,4720 }, {  76,4720 },
+ {  77,4720 }, {  78,4720 }, {  79,4720 }, {  80,4720 }, {  81,4720 },
+ {  82,4720 }, {  83,4720 }, {  84,4720 }, {  85,4720 }, {  86,4720 },
+ {  87,4720 }, {  88,4720 }, {  89,4720 }, {  90,4720 }, {  91,4720 },
+ {  92,4720 }, {  93,4720 }, {  94,4720 }, {  95,4720 }, {  96,4720 },
+ {  97,4720 }, {  98,4720 }, {  99,4720 }, { 100,4720 }, { 101,4720 },
+ { 102,4720 }, { 103,4720 }, { 104,4720 }, { 105,4720 }, { 106,4720 },
+ { 107,4720 }, { 108,4720 }, { 109,4720 }, { 110,4720 }, { 111,4720 },
+ { 112,4720 }, { 113,4720 }, { 114,4720 }, { 115,4720 }, { 116,4720 },
+
+ { 117,4720 }, { 118,4720 }, { 119,4720 }, { 120,4720 }, { 121,4720 },
+ { 122,4720 }, { 123,4977 }, { 124,4720 }, { 125,4720 }, { 126,4720 },
+ { 127,4720 }, { 128,4720 }, { 129,4720 }, { 130,4720 }, { 131,4720 },
+ { 132,4720 }, { 133,4720 }, { 134,4720 }, { 135,4720 }, { 136,4720 },
+ { 137,4720 }, { 138,4720 }, { 139,4720 }, { 140,4720 }, { 141,4720 },
+ { 142,4720 }, { 143,4720 }, { 144,4720 }, { 145,4720 }, { 146,4720 },
+ { 147,4720 }, { 148,4720 }, { 149,4720 }, { 150,4720 }, { 151,4720 },
+ { 152,4720 }, { 153,4720 }, { 154,4720 }, { 155,4720 }, { 156,4720 },
+ { 157,4720 }, { 158,4720 }, { 159,4720 }, { 160,4720 }, { 161,4720 },
+ { 162,4720 }, { 163,4720 }, { 164,4720 }, { 165,4720 }, { 166,4720 },
+
+ { 167,4720 }, { 168,4720 }, { 169,4720 }, { 170,4720 }, { 171,4720 },
+ { 172,4720 }, { 173,4720 }, { 174,4720 }, { 175,4720 }, { 176,4720 },
+ { 177,4720 }, { 178,4720 }, { 179,4720 }, { 180,4720 }, { 181,4720 },
+ { 182,4720 }, { 183,4720 }, { 184,4720 }, { 185,4720 }, { 186,4720 },
+ { 187,4720 }, { 188,4720 }, { 189,4720 }, { 190,4720 }, { 191,4720 },
+ { 192,4720 }, { 193,4720 }, { 194,4720 }, { 195,4720 }, { 196,4720 },
+ { 197,4720 }, { 198,4720 }, { 199,4720 }, { 200,4720 }, { 201,4720 },
+ { 202,4720 }, { 203,4720 }, { 204,4720 }, { 205,4720 }, { 206,4720 },
+ { 207,4720 }, { 208,4720 }, { 209,4720 }, { 210,4720 }, { 211,4720 },
+ { 212,4720 }, { 213,4720 }, { 214,4720 }, { 215,4720 }, { 216,4720 },
+
+ { 217,4720 }, { 218,4720 }, { 219,4720 }, { 220,4720 }, { 221,4720 },
+ { 222,4720 }, { 223,4720 }, { 224,4720 }, { 225,4720 }, { 226,4720 },
+ { 227,4720 }, { 228,4720 }, { 229,4720 }, { 230,4720 }, { 231,4720 },
+ { 232,4720 }, { 233,4720 }, { 234,4720 }, { 235,4720 }, { 236,4720 },
+ { 237,4720 }, { 238,4720 }, { 239,4720 }, { 240,4720 }, { 241,4720 },
+ { 242,4720 }, { 243,4720 }, { 244,4720 }, { 245,4720 }, { 246,4720 },
+ { 247,4720 }, { 248,4720 }, { 249,4720 }, { 250,4720 }, { 251,4720 },
+ { 252,4720 }, { 253,4720 }, { 254,4720 }, { 255,4720 }, { 256, 779 },
+ {   0,   0 }, {   0,18313 }, {   1,4462 }, {   2,4462 }, {   3,4462 },
+ {   4,4462 }, {   5,4462 }, {   6,4462 }, {   7,4462 }, {   8,4462 },
+
+ {   9,4462 }, {  10,4462 }, {  11,4462 }, {  12,4462 }, {  13,4462 },
+ {  14,4462 }, {  15,4462 }, {  16,4462 }, {  17,4462 }, {  18,4462 },
+ {  19,4462 }, {  20,4462 }, {  21,4462 }, {  22,4462 }, {  23,4462 },
+ {  24,4462 }, {  25,4462 }, {  26,4462 }, {  27,4462 }, {  28,4462 },
+ {  29,4462 }, {  30,4462 }, {  31,4462 }, {  32,4462 }, {  33,4462 },
+ {  34,4462 }, {  35,4462 }, {  36,4462 }, {  37,4462 }, {  38,4462 },
+ {  39,4462 }, {  40,4462 }, {  41,4462 }, {  42,4462 }, {  43,4462 },
+ {  44,4462 }, {  45,4462 }, {  46,4462 }, {  47,4462 }, {  48,4462 },
+ {  49,4462 }, {  50,4462 }, {  51,4462 }, {  52,4462 }, {  53,4462 },
+ {  54,4462 }, {  55,4462 }, {  56,4462 }, {  57,4462 }, {  58,4462 },
+
+ {  59,4462 }, {  60,4462 }, {  61,4462 }, {  62,4462 }, {  63,4462 },
+ {  64,4462 }, {  65,4462 }, {  66,4462 }, {  67,4462 }, {  68,4462 },
+ {  69,4462 }, {  70,4462 }, {  71,4462 }, {  72,4462 }, {  73,4462 },
+ {  74,4462 }, {  75,4462 }, {  76,4462 }, {  77,4462 }, {  78,4462 },
+ {  79,4462 }, {  80,4462 }, {  81,4462 }, {  82,4462 }, {  83,4462 },
+ {  84,4462 }, {  85,4462 }, {  86,4462 }, {  87,4462 }, {  88,4462 },
+ {  89,4462 }, {  90,4462 }, {  91,4462 }, {  92,4462 }, {  93,4462 },
+ {  94,4462 }, {  95,4462 }, {  96,4462 }, {  97,4462 }, {  98,4462 },
+ {  99,4462 }, { 100,4462 }, { 101,4462 }, { 102,4462 }, { 103,4462 },
+ { 104,4462 }, { 105,4462 }, { 106,4462 }, { 107,4462 }, { 108,4462 },
+
+ { 109,4462 }, { 110,4462 }, { 111,4462 }, { 112,4462 }, { 113,4462 },
+ { 114,4462 }, { 115,4462 }, { 116,4462 }, { 117,4462 }, { 118,4462 },
+ { 119,4462 }, { 120,4462 }, { 121,4462 }, { 122,4462 }, { 123,4719 },
+ { 124,4462 }, { 125,4462 }, { 126,4462 }, { 127,4462 }, { 128,4462 },
+ { 129,4462 }, { 130,4462 }, { 131,4462 }, { 132,4462 }, { 133,4462 },
+ { 134,4462 }, { 135,4462 }, { 136,4462 }, { 137,4462 }, { 138,4462 },
+ { 139,4462 }, { 140,4462 }, { 141,4462 }, { 142,4462 }, { 143,4462 },
+ { 144,4462 }, { 145,4462 }, { 146,4462 }, { 147,4462 }, { 148,4462 },
+ { 149,4462 }, { 150,4462 }, { 151,4462 }, { 152,4462 }, { 153,4462 },
+ { 154,4462 }, { 155,4462 }, { 156,4462 }, { 157,4462 }, { 158,4462 },
+
+ { 159,4462 }, { 160,4462 }, { 161,4462 }, { 162,4462 }, { 163,4462 },
+ { 164,4462 }, { 165,4462 }, { 166,4462 }, { 167,4462 }, { 168,4462 },
+ { 169,4462 }, { 170,4462 }, { 171,4462 }, { 172,4462 }, { 173,4462 },
+ { 174,4462 }, { 175,4462 }, { 176,4462 }, { 177,4462 }, { 178,4462 },
+ { 179,4462 }, { 180,4462 }, { 181,4462 }, { 182,4462 }, { 183,4462 },
+ { 184,4462 }, { 185,4462 }, { 186,4462 }, { 187,4462 }, { 188,4462 },
+ { 189,4462 }, { 190,4462 }, { 191,4462 }, { 192,4462 }, { 193,4462 },
+ { 194,4462 }, { 195,4462 }, { 196,4462 }, { 197,4462 }, { 198,4462 },
+ { 199,4462 }, { 200,4462 }, { 201,4462 }, { 202,4462 }, { 203,4462 },
+ { 204,4462 }, { 205,4462 }, { 206,4462 }, { 207,4462 }, { 208,4462 },
+
+ { 209,4462 }, { 210,4462 }, { 211,4462 }, { 212,4462 }, { 213,4462 },
+ { 214,4462 }, { 215,4462 }, { 216,4462 }, { 217,4462 }, { 218,4462 },
+ { 219,4462 }, { 220,4462 }, { 221,4462 }, { 222,4462 }, { 223,4462 },
+ { 224,4462 }, { 225,4462 }, { 226,4462 }, { 227,4462 }, { 228,4462 },
+ { 229,4462 }, { 230,4462 }, { 231,4462 }, { 232,4462 }, { 233,4462 },
+ { 234,4462 }, { 235,4462 }, { 236,4462 }, { 237,4462 }, { 238,4462 },
+ { 239,4462 }, { 240,4462 }, { 241,4462 }, { 242,4462 }, { 243,4462 },
+ { 244,4462 }, { 245,4462 }, { 246,4462 }, { 247,4462 }, { 248,4462 },
+ { 249,4462 }, { 250,4462 }, { 251,4462 }, { 252,4462 }, { 253,4462 },
+ { 254,4462 }, { 255,4462 }, { 256, 521 }, {   0,   2 }, {   0,18055 },
+
+ {   1,4586 }, {   2,4586 }, {   3,4586 }, {   4,4586 }, {   5,4586 },
+ {   6,4586 }, {   7,4586 }, {   8,4586 }, {   9,4586 }, {  10,4463 },
+ {  11,4586 }, {  12,4586 }, {  13,4463 }, {  14,4586 }, {  15,4586 },
+ {  16,4586 }, {  17,4586 }, {  18,4586 }, {  19,4586 }, {  20,4586 },
+ {  21,4586 }, {  22,4586 }, {  23,4586 }, {  24,4586 }, {  25,4586 },
+ {  26,4586 }, {  27,4586 }, {  28,4586 }, {  29,4586 }, {  30,4586 },
+ {  31,4586 }, {  32,4586 }, {  33,4586 }, {  34,4586 }, {  35,4586 },
+ {  36,4586 }, {  37,4586 }, {  38,4586 }, {  39,4586 }, {  40,4586 },
+ {  41,4586 }, {  42,4586 }, {  43,4586 }, {  44,4586 }, {  45,4586 },
+ {  46,4586 }, {  47,4586 }, {  48,4586 }, {  49,4586 }, {  50,4586 },
+
+ {  51,4586 }, {  52,4586 }, {  53,4586 }, {  54,4586 }, {  55,4586 },
+ {  56,4586 }, {  57,4586 }, {  58,4586 }, {  59,4586 }, {  60,4586 },
+ {  61,4586 }, {  62,4586 }, {  63,4586 }, {  64,4586 }, {  65,4586 },
+ {  66,4586 }, {  67,4586 }, {  68,4586 }, {  69,4586 }, {  70,4586 },
+ {  71,4586 }, {  72,4586 }, {  73,4586 }, {  74,4586 }, {  75,4586 },
+ {  76,4586 }, {  77,4586 }, {  78,4586 }, {  79,4586 }, {  80,4586 },
+ {  81,4586 }, {  82,4586 }, {  83,4586 }, {  84,4586 }, {  85,4586 },
+ {  86,4586 }, {  87,4586 }, {  88,4586 }, {  89,4586 }, {  90,4586 },
+ {  91,4586 }, {  92,4465 }, {  93,4586 }, {  94,4586 }, {  95,4586 },
+ {  96,4586 }, {  97,4586 }, {  98,4586 }, {  99,4586 }, { 100,4586 },
+
+ { 101,4586 }, { 102,4586 }, { 103,4586 }, { 104,4586 }, { 105,4586 },
+ { 106,4586 }, { 107,4586 }, { 108,4586 }, { 109,4586 }, { 110,4586 },
+ { 111,4586 }, { 112,4586 }, { 113,4586 }, { 114,4586 }, { 115,4586 },
+ { 116,4586 }, { 117,4586 }, { 118,4586 }, { 119,4586 }, { 120,4586 },
+ { 121,4586 }, { 122,4586 }, {   0,   0 }, { 124,4586 }, { 125,4586 },
+ { 126,4586 }, { 127,4586 }, { 128,4586 }, { 129,4586 }, { 130,4586 },
+ { 131,4586 }, { 132,4586 }, { 133,4586 }, { 134,4586 }, { 135,4586 },
+ { 136,4586 }, { 137,4586 }, { 138,4586 }, { 139,4586 }, { 140,4586 },
+ { 141,4586 }, { 142,4586 }, { 143,4586 }, { 144,4586 }, { 145,4586 },
+ { 146,4586 }, { 147,4586 }, { 148,4586 }, { 149,4586 }, { 150,4586 },
+
+ { 151,4586 }, { 152,4586 }, { 153,4586 }, { 154,4586 }, { 155,4586 },
+ { 156,4586 }, { 157,4586 }, { 158,4586 }, { 159,4586 }, { 160,4586 },
+ { 161,4586 }, { 162,4586 }, { 163,4586 }, { 164,4586 }, { 165,4586 },
+ { 166,4586 }, { 167,4586 }, { 168,4586 }, { 169,4586 }, { 170,4586 },
+ { 171,4586 }, { 172,4586 }, { 173,4586 }, { 174,4586 }, { 175,4586 },
+ { 176,4586 }, { 177,4586 }, { 178,4586 }, { 179,4586 }, { 180,4586 },
+ { 181,4586 }, { 182,4586 }, { 183,4586 }, { 184,4586 }, { 185,4586 },
+ { 186,4586 }, { 187,4586 }, { 188,4586 }, { 189,4586 }, { 190,4586 },
+ { 191,4586 }, { 192,4586 }, { 193,4586 }, { 194,4586 }, { 195,4586 },
+ { 196,4586 }, { 197,4586 }, { 198,4586 }, { 199,4586 }, { 200,4586 },
+
+ { 201,4586 }, { 202,4586 }, { 203,4586 }, { 204,4586 }, { 205,4586 },
+ { 206,4586 }, { 207,4586 }, { 208,4586 }, { 209,4586 }, { 210,4586 },
+ { 211,4586 }, { 212,4586 }, { 213,4586 }, { 214,4586 }, { 215,4586 },
+ { 216,4586 }, { 217,4586 }, { 218,4586 }, { 219,4586 }, { 220,4586 },
+ { 221,4586 }, { 222,4586 }, { 223,4586 }, { 224,4586 }, { 225,4586 },
+ { 226,4586 }, { 227,4586 }, { 228,4586 }, { 229,4586 }, { 230,4586 },
+ { 231,4586 }, { 232,4586 }, { 233,4586 }, { 234,4586 }, { 235,4586 },
+ { 236,4586 }, { 237,4586 }, { 238,4586 }, { 239,4586 }, { 240,4586 },
+ { 241,4586 }, { 242,4586 }, { 243,4586 }, { 244,4586 }, { 245,4586 },
+ { 246,4586 }, { 247,4586 }, { 248,4586 }, { 249,4586 }, { 250,4586 },
+
+ { 251,4586 }, { 252,4586 }, { 253,4586 }, { 254,4586 }, { 255,4586 },
+ {   0,   2 }, {   0,17798 }, {   0,   6 }, {   0,17796 }, {   0,   6 },
+ {   0,17794 }, {   0,  52 }, {   0,17792 }, {   0,  36 }, {   0,17790 },
+ {   0,   0 }, {  10,4206 }, {   0,   0 }, {   0,   0 }, {  13,4206 },
+ {   0,  36 }, {   0,17783 }, {   0,   0 }, {   9,4867 }, {  10,4867 },
+ {   0,  51 }, {   0,17778 }, {  13,4867 }, {   0,  15 }, {   0,17775 },
+ {   9,4860 }, {  10,4860 }, {   0,  16 }, {   0,17771 }, {  13,4860 },
+ {   0,  35 }, {   0,17768 }, {   0,  32 }, {   0,17766 }, {   0,  41 },
+ {   0,17764 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,4867 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4860 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,4208 }, {   0,   0 },
+
+ {  92,4584 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, { 123,4586 }, {   0,   0 }, { 123,4586 }, {   0,   2 },
+ {   0,17669 }, {   1,4200 }, {   2,4200 }, {   3,4200 }, {   4,4200 },
+ {   5,4200 }, {   6,4200 }, {   7,4200 }, {   8,4200 }, {   9,4200 },
+ {  10,4077 }, {  11,4200 }, {  12,4200 }, {  13,4077 }, {  14,4200 },
+
+ {  15,4200 }, {  16,4200 }, {  17,4200 }, {  18,4200 }, {  19,4200 },
+ {  20,4200 }, {  21,4200 }, {  22,4200 }, {  23,4200 }, {  24,4200 },
+ {  25,4200 }, {  26,4200 }, {  27,4200 }, {  28,4200 }, {  29,4200 },
+ {  30,4200 }, {  31,4200 }, {  32,4200 }, {  33,4200 }, {  34,4200 },
+ {  35,4200 }, {  36,4200 }, {  37,4200 }, {  38,4200 }, {  39,4200 },
+ {  40,4200 }, {  41,4200 }, {  42,4200 }, {  43,4200 }, {  44,4200 },
+ {  45,4200 }, {  46,4200 }, {  47,4200 }, {  48,4200 }, {  49,4200 },
+ {  50,4200 }, {  51,4200 }, {  52,4200 }, {  53,4200 }, {  54,4200 },
+ {  55,4200 }, {  56,4200 }, {  57,4200 }, {  58,4200 }, {  59,4200 },
+ {  60,4200 }, {  61,4200 }, {  62,4200 }, {  63,4200 }, {  64,4200 },
+
+ {  65,4200 }, {  66,4200 }, {  67,4200 }, {  68,4200 }, {  69,4200 },
+ {  70,4200 }, {  71,4200 }, {  72,4200 }, {  73,4200 }, {  74,4200 },
+ {  75,4200 }, {  76,4200 }, {  77,4200 }, {  78,4200 }, {  79,4200 },
+ {  80,4200 }, {  81,4200 }, {  82,4200 }, {  83,4200 }, {  84,4200 },
+ {  85,4200 }, {  86,4200 }, {  87,4200 }, {  88,4200 }, {  89,4200 },
+ {  90,4200 }, {  91,4200 }, {  92,4079 }, {  93,4200 }, {  94,4200 },
+ {  95,4200 }, {  96,4200 }, {  97,4200 }, {  98,4200 }, {  99,4200 },
+ { 100,4200 }, { 101,4200 }, { 102,4200 }, { 103,4200 }, { 104,4200 },
+ { 105,4200 }, { 106,4200 }, { 107,4200 }, { 108,4200 }, { 109,4200 },
+ { 110,4200 }, { 111,4200 }, { 112,4200 }, { 113,4200 }, { 114,4200 },
+
+ { 115,4200 }, { 116,4200 }, { 117,4200 }, { 118,4200 }, { 119,4200 },
+ { 120,4200 }, { 121,4200 }, { 122,4200 }, {   0,   0 }, { 124,4200 },
+ { 125,4200 }, { 126,4200 }, { 127,4200 }, { 128,4200 }, { 129,4200 },
+ { 130,4200 }, { 131,4200 }, { 132,4200 }, { 133,4200 }, { 134,4200 },
+ { 135,4200 }, { 136,4200 }, { 137,4200 }, { 138,4200 }, { 139,4200 },
+ { 140,4200 }, { 141,4200 }, { 142,4200 }, { 143,4200 }, { 144,4200 },
+ { 145,4200 }, { 146,4200 }, { 147,4200 }, { 148,4200 }, { 149,4200 },
+ { 150,4200 }, { 151,4200 }, { 152,4200 }, { 153,4200 }, { 154,4200 },
+ { 155,4200 }, { 156,4200 }, { 157,4200 }, { 158,4200 }, { 159,4200 },
+ { 160,4200 }, { 161,4200 }, { 162,4200 }, { 163,4200 }, { 164,4200 },
+
+ { 165,4200 }, { 166,4200 }, { 167,4200 }, { 168,4200 }, { 169,4200 },
+ { 170,4200 }, { 171,4200 }, { 172,4200 }, { 173,4200 }, { 174,4200 },
+ { 175,4200 }, { 176,4200 }, { 177,4200 }, { 178,4200 }, { 179,4200 },
+ { 180,4200 }, { 181,4200 }, { 182,4200 }, { 183,4200 }, { 184,4200 },
+ { 185,4200 }, { 186,4200 }, { 187,4200 }, { 188,4200 }, { 189,4200 },
+ { 190,4200 }, { 191,4200 }, { 192,4200 }, { 193,4200 }, { 194,4200 },
+ { 195,4200 }, { 196,4200 }, { 197,4200 }, { 198,4200 }, { 199,4200 },
+ { 200,4200 }, { 201,4200 }, { 202,4200 }, { 203,4200 }, { 204,4200 },
+ { 205,4200 }, { 206,4200 }, { 207,4200 }, { 208,4200 }, { 209,4200 },
+ { 210,4200 }, { 211,4200 }, { 212,4200 }, { 213,4200 }, { 214,4200 },
+
+ { 215,4200 }, { 216,4200 }, { 217,4200 }, { 218,4200 }, { 219,4200 },
+ { 220,4200 }, { 221,4200 }, { 222,4200 }, { 223,4200 }, { 224,4200 },
+ { 225,4200 }, { 226,4200 }, { 227,4200 }, { 228,4200 }, { 229,4200 },
+ { 230,4200 }, { 231,4200 }, { 232,4200 }, { 233,4200 }, { 234,4200 },
+ { 235,4200 }, { 236,4200 }, { 237,4200 }, { 238,4200 }, { 239,4200 },
+ { 240,4200 }, { 241,4200 }, { 242,4200 }, { 243,4200 }, { 244,4200 },
+ { 245,4200 }, { 246,4200 }, { 247,4200 }, { 248,4200 }, { 249,4200 },
+ { 250,4200 }, { 251,4200 }, { 252,4200 }, { 253,4200 }, { 254,4200 },
+ { 255,4200 }, {   0,  51 }, {   0,17412 }, {   1,4231 }, {   2,4231 },
+ {   3,4231 }, {   4,4231 }, {   5,4231 }, {   6,4231 }, {   7,4231 },
+
+ {   8,4231 }, {   9,4206 }, {  10,4206 }, {  11,4231 }, {  12,4231 },
+ {  13,4206 }, {  14,4231 }, {  15,4231 }, {  16,4231 }, {  17,4231 },
+ {  18,4231 }, {  19,4231 }, {  20,4231 }, {  21,4231 }, {  22,4231 },
+ {  23,4231 }, {  24,4231 }, {  25,4231 }, {  26,4231 }, {  27,4231 },
+ {  28,4231 }, {  29,4231 }, {  30,4231 }, {  31,4231 }, {  32,4206 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,4231 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,4206 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,4231 }, {  46,4206 }, {  47,4206 },
+ {  48,4231 }, {  49,4231 }, {  50,4231 }, {  51,4231 }, {  52,4231 },
+ {  53,4231 }, {  54,4231 }, {  55,4231 }, {  56,4231 }, {  57,4231 },
+
+ {  58,4231 }, {   0,   0 }, {   0,   0 }, {  61,4206 }, {   0,   0 },
+ {  63,4231 }, {   0,   0 }, {  65,4231 }, {  66,4231 }, {  67,4231 },
+ {  68,4231 }, {  69,4231 }, {  70,4231 }, {  71,4231 }, {  72,4231 },
+ {  73,4231 }, {  74,4231 }, {  75,4231 }, {  76,4231 }, {  77,4231 },
+ {  78,4231 }, {  79,4231 }, {  80,4231 }, {  81,4231 }, {  82,4231 },
+ {  83,4231 }, {  84,4231 }, {  85,4231 }, {  86,4231 }, {  87,4231 },
+ {  88,4231 }, {  89,4231 }, {  90,4231 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,4231 }, {   0,   0 }, {  97,4231 },
+ {  98,4231 }, {  99,4231 }, { 100,4231 }, { 101,4231 }, { 102,4231 },
+ { 103,4231 }, { 104,4231 }, { 105,4231 }, { 106,4231 }, { 107,4231 },
+
+ { 108,4231 }, { 109,4231 }, { 110,4231 }, { 111,4231 }, { 112,4231 },
+ { 113,4231 }, { 114,4231 }, { 115,4231 }, { 116,4231 }, { 117,4231 },
+ { 118,4231 }, { 119,4231 }, { 120,4231 }, { 121,4231 }, { 122,4231 },
+ {   0,   0 }, { 124,4206 }, { 125,4206 }, { 126,4206 }, { 127,4231 },
+ { 128,4231 }, { 129,4231 }, { 130,4231 }, { 131,4231 }, { 132,4231 },
+ { 133,4231 }, { 134,4231 }, { 135,4231 }, { 136,4231 }, { 137,4231 },
+ { 138,4231 }, { 139,4231 }, { 140,4231 }, { 141,4231 }, { 142,4231 },
+ { 143,4231 }, { 144,4231 }, { 145,4231 }, { 146,4231 }, { 147,4231 },
+ { 148,4231 }, { 149,4231 }, { 150,4231 }, { 151,4231 }, { 152,4231 },
+ { 153,4231 }, { 154,4231 }, { 155,4231 }, { 156,4231 }, { 157,4231 },
+
+ { 158,4231 }, { 159,4231 }, { 160,4231 }, { 161,4231 }, { 162,4231 },
+ { 163,4231 }, { 164,4231 }, { 165,4231 }, { 166,4231 }, { 167,4231 },
+ { 168,4231 }, { 169,4231 }, { 170,4231 }, { 171,4231 }, { 172,4231 },
+ { 173,4231 }, { 174,4231 }, { 175,4231 }, { 176,4231 }, { 177,4231 },
+ { 178,4231 }, { 179,4231 }, { 180,4231 }, { 181,4231 }, { 182,4231 },
+ { 183,4231 }, { 184,4231 }, { 185,4231 }, { 186,4231 }, { 187,4231 },
+ { 188,4231 }, { 189,4231 }, { 190,4231 }, { 191,4231 }, { 192,4231 },
+ { 193,4231 }, { 194,4231 }, { 195,4231 }, { 196,4231 }, { 197,4231 },
+ { 198,4231 }, { 199,4231 }, { 200,4231 }, { 201,4231 }, { 202,4231 },
+ { 203,4231 }, { 204,4231 }, { 205,4231 }, { 206,4231 }, { 207,4231 },
+
+ { 208,4231 }, { 209,4231 }, { 210,4231 }, { 211,4231 }, { 212,4231 },
+ { 213,4231 }, { 214,4231 }, { 215,4231 }, { 216,4231 }, { 217,4231 },
+ { 218,4231 }, { 219,4231 }, { 220,4231 }, { 221,4231 }, { 222,4231 },
+ { 223,4231 }, { 224,4231 }, { 225,4231 }, { 226,4231 }, { 227,4231 },
+ { 228,4231 }, { 229,4231 }, { 230,4231 }, { 231,4231 }, { 232,4231 },
+ { 233,4231 }, { 234,4231 }, { 235,4231 }, { 236,4231 }, { 237,4231 },
+ { 238,4231 }, { 239,4231 }, { 240,4231 }, { 241,4231 }, { 242,4231 },
+ { 243,4231 }, { 244,4231 }, { 245,4231 }, { 246,4231 }, { 247,4231 },
+ { 248,4231 }, { 249,4231 }, { 250,4231 }, { 251,4231 }, { 252,4231 },
+ { 253,4231 }, { 254,4231 }, { 255,4231 }, { 256,4231 }, {   0,  51 },
+
+ {   0,17154 }, {   1,4265 }, {   2,4265 }, {   3,4265 }, {   4,4265 },
+ {   5,4265 }, {   6,4265 }, {   7,4265 }, {   8,4265 }, {   9,4265 },
+ {  10,4265 }, {  11,4265 }, {  12,4265 }, {  13,4265 }, {  14,4265 },
+ {  15,4265 }, {  16,4265 }, {  17,4265 }, {  18,4265 }, {  19,4265 },
+ {  20,4265 }, {  21,4265 }, {  22,4265 }, {  23,4265 }, {  24,4265 },
+ {  25,4265 }, {  26,4265 }, {  27,4265 }, {  28,4265 }, {  29,4265 },
+ {  30,4265 }, {  31,4265 }, {  32,4265 }, {  33,4265 }, {  34,4233 },
+ {  35,4265 }, {  36,4265 }, {  37,4265 }, {  38,4265 }, {  39,4265 },
+ {  40,4265 }, {  41,4265 }, {  42,4265 }, {  43,4265 }, {  44,4265 },
+ {  45,4265 }, {  46,4265 }, {  47,4265 }, {  48,4265 }, {  49,4265 },
+
+ {  50,4265 }, {  51,4265 }, {  52,4265 }, {  53,4265 }, {  54,4265 },
+ {  55,4265 }, {  56,4265 }, {  57,4265 }, {  58,4265 }, {  59,4265 },
+ {  60,4265 }, {  61,4265 }, {  62,4265 }, {  63,4265 }, {  64,4265 },
+ {  65,4265 }, {  66,4265 }, {  67,4265 }, {  68,4265 }, {  69,4265 },
+ {  70,4265 }, {  71,4265 }, {  72,4265 }, {  73,4265 }, {  74,4265 },
+ {  75,4265 }, {  76,4265 }, {  77,4265 }, {  78,4265 }, {  79,4265 },
+ {  80,4265 }, {  81,4265 }, {  82,4265 }, {  83,4265 }, {  84,4265 },
+ {  85,4265 }, {  86,4265 }, {  87,4265 }, {  88,4265 }, {  89,4265 },
+ {  90,4265 }, {  91,4265 }, {  92,4523 }, {  93,4265 }, {  94,4265 },
+ {  95,4265 }, {  96,4265 }, {  97,4265 }, {  98,4265 }, {  99,4265 },
+
+ { 100,4265 }, { 101,4265 }, { 102,4265 }, { 103,4265 }, { 104,4265 },
+ { 105,4265 }, { 106,4265 }, { 107,4265 }, { 108,4265 }, { 109,4265 },
+ { 110,4265 }, { 111,4265 }, { 112,4265 }, { 113,4265 }, { 114,4265 },
+ { 115,4265 }, { 116,4265 }, { 117,4265 }, { 118,4265 }, { 119,4265 },
+ { 120,4265 }, { 121,4265 }, { 122,4265 }, { 123,4265 }, { 124,4265 },
+ { 125,4265 }, { 126,4265 }, { 127,4265 }, { 128,4265 }, { 129,4265 },
+ { 130,4265 }, { 131,4265 }, { 132,4265 }, { 133,4265 }, { 134,4265 },
+ { 135,4265 }, { 136,4265 }, { 137,4265 }, { 138,4265 }, { 139,4265 },
+ { 140,4265 }, { 141,4265 }, { 142,4265 }, { 143,4265 }, { 144,4265 },
+ { 145,4265 }, { 146,4265 }, { 147,4265 }, { 148,4265 }, { 149,4265 },
+
+ { 150,4265 }, { 151,4265 }, { 152,4265 }, { 153,4265 }, { 154,4265 },
+ { 155,4265 }, { 156,4265 }, { 157,4265 }, { 158,4265 }, { 159,4265 },
+ { 160,4265 }, { 161,4265 }, { 162,4265 }, { 163,4265 }, { 164,4265 },
+ { 165,4265 }, { 166,4265 }, { 167,4265 }, { 168,4265 }, { 169,4265 },
+ { 170,4265 }, { 171,4265 }, { 172,4265 }, { 173,4265 }, { 174,4265 },
+ { 175,4265 }, { 176,4265 }, { 177,4265 }, { 178,4265 }, { 179,4265 },
+ { 180,4265 }, { 181,4265 }, { 182,4265 }, { 183,4265 }, { 184,4265 },
+ { 185,4265 }, { 186,4265 }, { 187,4265 }, { 188,4265 }, { 189,4265 },
+ { 190,4265 }, { 191,4265 }, { 192,4265 }, { 193,4265 }, { 194,4265 },
+ { 195,4265 }, { 196,4265 }, { 197,4265 }, { 198,4265 }, { 199,4265 },
+
+ { 200,4265 }, { 201,4265 }, { 202,4265 }, { 203,4265 }, { 204,4265 },
+ { 205,4265 }, { 206,4265 }, { 207,4265 }, { 208,4265 }, { 209,4265 },
+ { 210,4265 }, { 211,4265 }, { 212,4265 }, { 213,4265 }, { 214,4265 },
+ { 215,4265 }, { 216,4265 }, { 217,4265 }, { 218,4265 }, { 219,4265 },
+ { 220,4265 }, { 221,4265 }, { 222,4265 }, { 223,4265 }, { 224,4265 },
+ { 225,4265 }, { 226,4265 }, { 227,4265 }, { 228,4265 }, { 229,4265 },
+ { 230,4265 }, { 231,4265 }, { 232,4265 }, { 233,4265 }, { 234,4265 },
+ { 235,4265 }, { 236,4265 }, { 237,4265 }, { 238,4265 }, { 239,4265 },
+ { 240,4265 }, { 241,4265 }, { 242,4265 }, { 243,4265 }, { 244,4265 },
+ { 245,4265 }, { 246,4265 }, { 247,4265 }, { 248,4265 }, { 249,4265 },
+
+ { 250,4265 }, { 251,4265 }, { 252,4265 }, { 253,4265 }, { 254,4265 },
+ { 255,4265 }, { 256,4265 }, {   0,  51 }, {   0,16896 }, {   1,4523 },
+ {   2,4523 }, {   3,4523 }, {   4,4523 }, {   5,4523 }, {   6,4523 },
+ {   7,4523 }, {   8,4523 }, {   9,4523 }, {  10,4523 }, {  11,4523 },
+ {  12,4523 }, {  13,4523 }, {  14,4523 }, {  15,4523 }, {  16,4523 },
+ {  17,4523 }, {  18,4523 }, {  19,4523 }, {  20,4523 }, {  21,4523 },
+ {  22,4523 }, {  23,4523 }, {  24,4523 }, {  25,4523 }, {  26,4523 },
+ {  27,4523 }, {  28,4523 }, {  29,4523 }, {  30,4523 }, {  31,4523 },
+ {  32,4523 }, {  33,4523 }, {  34,4523 }, {  35,4523 }, {  36,4523 },
+ {  37,4523 }, {  38,4523 }, {  39,3977 }, {  40,4523 }, {  41,4523 },
+
+ {  42,4523 }, {  43,4523 }, {  44,4523 }, {  45,4523 }, {  46,4523 },
+ {  47,4523 }, {  48,4523 }, {  49,4523 }, {  50,4523 }, {  51,4523 },
+ {  52,4523 }, {  53,4523 }, {  54,4523 }, {  55,4523 }, {  56,4523 },
+ {  57,4523 }, {  58,4523 }, {  59,4523 }, {  60,4523 }, {  61,4523 },
+ {  62,4523 }, {  63,4523 }, {  64,4523 }, {  65,4523 }, {  66,4523 },
+ {  67,4523 }, {  68,4523 }, {  69,4523 }, {  70,4523 }, {  71,4523 },
+ {  72,4523 }, {  73,4523 }, {  74,4523 }, {  75,4523 }, {  76,4523 },
+ {  77,4523 }, {  78,4523 }, {  79,4523 }, {  80,4523 }, {  81,4523 },
+ {  82,4523 }, {  83,4523 }, {  84,4523 }, {  85,4523 }, {  86,4523 },
+ {  87,4523 }, {  88,4523 }, {  89,4523 }, {  90,4523 }, {  91,4523 },
+
+ {  92,4781 }, {  93,4523 }, {  94,4523 }, {  95,4523 }, {  96,4523 },
+ {  97,4523 }, {  98,4523 }, {  99,4523 }, { 100,4523 }, { 101,4523 },
+ { 102,4523 }, { 103,4523 }, { 104,4523 }, { 105,4523 }, { 106,4523 },
+ { 107,4523 }, { 108,4523 }, { 109,4523 }, { 110,4523 }, { 111,4523 },
+ { 112,4523 }, { 113,4523 }, { 114,4523 }, { 115,4523 }, { 116,4523 },
+ { 117,4523 }, { 118,4523 }, { 119,4523 }, { 120,4523 }, { 121,4523 },
+ { 122,4523 }, { 123,4523 }, { 124,4523 }, { 125,4523 }, { 126,4523 },
+ { 127,4523 }, { 128,4523 }, { 129,4523 }, { 130,4523 }, { 131,4523 },
+ { 132,4523 }, { 133,4523 }, { 134,4523 }, { 135,4523 }, { 136,4523 },
+ { 137,4523 }, { 138,4523 }, { 139,4523 }, { 140,4523 }, { 141,4523 },
+
+ { 142,4523 }, { 143,4523 }, { 144,4523 }, { 145,4523 }, { 146,4523 },
+ { 147,4523 }, { 148,4523 }, { 149,4523 }, { 150,4523 }, { 151,4523 },
+ { 152,4523 }, { 153,4523 }, { 154,4523 }, { 155,4523 }, { 156,4523 },
+ { 157,4523 }, { 158,4523 }, { 159,4523 }, { 160,4523 }, { 161,4523 },
+ { 162,4523 }, { 163,4523 }, { 164,4523 }, { 165,4523 }, { 166,4523 },
+ { 167,4523 }, { 168,4523 }, { 169,4523 }, { 170,4523 }, { 171,4523 },
+ { 172,4523 }, { 173,4523 }, { 174,4523 }, { 175,4523 }, { 176,4523 },
+ { 177,4523 }, { 178,4523 }, { 179,4523 }, { 180,4523 }, { 181,4523 },
+ { 182,4523 }, { 183,4523 }, { 184,4523 }, { 185,4523 }, { 186,4523 },
+ { 187,4523 }, { 188,4523 }, { 189,4523 }, { 190,4523 }, { 191,4523 },
+
+ { 192,4523 }, { 193,4523 }, { 194,4523 }, { 195,4523 }, { 196,4523 },
+ { 197,4523 }, { 198,4523 }, { 199,4523 }, { 200,4523 }, { 201,4523 },
+ { 202,4523 }, { 203,4523 }, { 204,4523 }, { 205,4523 }, { 206,4523 },
+ { 207,4523 }, { 208,4523 }, { 209,4523 }, { 210,4523 }, { 211,4523 },
+ { 212,4523 }, { 213,4523 }, { 214,4523 }, { 215,4523 }, { 216,4523 },
+ { 217,4523 }, { 218,4523 }, { 219,4523 }, { 220,4523 }, { 221,4523 },
+ { 222,4523 }, { 223,4523 }, { 224,4523 }, { 225,4523 }, { 226,4523 },
+ { 227,4523 }, { 228,4523 }, { 229,4523 }, { 230,4523 }, { 231,4523 },
+ { 232,4523 }, { 233,4523 }, { 234,4523 }, { 235,4523 }, { 236,4523 },
+ { 237,4523 }, { 238,4523 }, { 239,4523 }, { 240,4523 }, { 241,4523 },
+
+ { 242,4523 }, { 243,4523 }, { 244,4523 }, { 245,4523 }, { 246,4523 },
+ { 247,4523 }, { 248,4523 }, { 249,4523 }, { 250,4523 }, { 251,4523 },
+ { 252,4523 }, { 253,4523 }, { 254,4523 }, { 255,4523 }, { 256,4523 },
+ {   0,  51 }, {   0,16638 }, {   1,3457 }, {   2,3457 }, {   3,3457 },
+ {   4,3457 }, {   5,3457 }, {   6,3457 }, {   7,3457 }, {   8,3457 },
+ {   9,3432 }, {  10,3432 }, {  11,3457 }, {  12,3457 }, {  13,3432 },
+ {  14,3457 }, {  15,3457 }, {  16,3457 }, {  17,3457 }, {  18,3457 },
+ {  19,3457 }, {  20,3457 }, {  21,3457 }, {  22,3457 }, {  23,3457 },
+ {  24,3457 }, {  25,3457 }, {  26,3457 }, {  27,3457 }, {  28,3457 },
+ {  29,3457 }, {  30,3457 }, {  31,3457 }, {  32,3432 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {  36,3457 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,3432 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,3457 }, {  46,3432 }, {  47,3432 }, {  48,4781 },
+ {  49,4781 }, {  50,4781 }, {  51,4781 }, {  52,4781 }, {  53,4781 },
+ {  54,4781 }, {  55,4781 }, {  56,4781 }, {  57,4781 }, {  58,3457 },
+ {   0,   0 }, {   0,   0 }, {  61,3432 }, {   0,   0 }, {  63,3457 },
+ {   0,   0 }, {  65,3457 }, {  66,3457 }, {  67,3457 }, {  68,3457 },
+ {  69,3457 }, {  70,3457 }, {  71,3457 }, {  72,3457 }, {  73,3457 },
+ {  74,3457 }, {  75,3457 }, {  76,3457 }, {  77,3457 }, {  78,3457 },
+ {  79,3457 }, {  80,3457 }, {  81,3457 }, {  82,3457 }, {  83,3457 },
+
+ {  84,3457 }, {  85,3457 }, {  86,3457 }, {  87,3457 }, {  88,3457 },
+ {  89,3457 }, {  90,3457 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,3457 }, {   0,   0 }, {  97,3457 }, {  98,3457 },
+ {  99,3457 }, { 100,3457 }, { 101,3457 }, { 102,3457 }, { 103,3457 },
+ { 104,3457 }, { 105,3457 }, { 106,3457 }, { 107,3457 }, { 108,3457 },
+ { 109,3457 }, { 110,3457 }, { 111,3457 }, { 112,3457 }, { 113,3457 },
+ { 114,3457 }, { 115,3457 }, { 116,3457 }, { 117,3457 }, { 118,3457 },
+ { 119,3457 }, { 120,3457 }, { 121,3457 }, { 122,3457 }, {   0,   0 },
+ { 124,3432 }, { 125,3432 }, { 126,3432 }, { 127,3457 }, { 128,3457 },
+ { 129,3457 }, { 130,3457 }, { 131,3457 }, { 132,3457 }, { 133,3457 },
+
+ { 134,3457 }, { 135,3457 }, { 136,3457 }, { 137,3457 }, { 138,3457 },
+ { 139,3457 }, { 140,3457 }, { 141,3457 }, { 142,3457 }, { 143,3457 },
+ { 144,3457 }, { 145,3457 }, { 146,3457 }, { 147,3457 }, { 148,3457 },
+ { 149,3457 }, { 150,3457 }, { 151,3457 }, { 152,3457 }, { 153,3457 },
+ { 154,3457 }, { 155,3457 }, { 156,3457 }, { 157,3457 }, { 158,3457 },
+ { 159,3457 }, { 160,3457 }, { 161,3457 }, { 162,3457 }, { 163,3457 },
+ { 164,3457 }, { 165,3457 }, { 166,3457 }, { 167,3457 }, { 168,3457 },
+ { 169,3457 }, { 170,3457 }, { 171,3457 }, { 172,3457 }, { 173,3457 },
+ { 174,3457 }, { 175,3457 }, { 176,3457 }, { 177,3457 }, { 178,3457 },
+ { 179,3457 }, { 180,3457 }, { 181,3457 }, { 182,3457 }, { 183,3457 },
+
+ { 184,3457 }, { 185,3457 }, { 186,3457 }, { 187,3457 }, { 188,3457 },
+ { 189,3457 }, { 190,3457 }, { 191,3457 }, { 192,3457 }, { 193,3457 },
+ { 194,3457 }, { 195,3457 }, { 196,3457 }, { 197,3457 }, { 198,3457 },
+ { 199,3457 }, { 200,3457 }, { 201,3457 }, { 202,3457 }, { 203,3457 },
+ { 204,3457 }, { 205,3457 }, { 206,3457 }, { 207,3457 }, { 208,3457 },
+ { 209,3457 }, { 210,3457 }, { 211,3457 }, { 212,3457 }, { 213,3457 },
+ { 214,3457 }, { 215,3457 }, { 216,3457 }, { 217,3457 }, { 218,3457 },
+ { 219,3457 }, { 220,3457 }, { 221,3457 }, { 222,3457 }, { 223,3457 },
+ { 224,3457 }, { 225,3457 }, { 226,3457 }, { 227,3457 }, { 228,3457 },
+ { 229,3457 }, { 230,3457 }, { 231,3457 }, { 232,3457 }, { 233,3457 },
+
+ { 234,3457 }, { 235,3457 }, { 236,3457 }, { 237,3457 }, { 238,3457 },
+ { 239,3457 }, { 240,3457 }, { 241,3457 }, { 242,3457 }, { 243,3457 },
+ { 244,3457 }, { 245,3457 }, { 246,3457 }, { 247,3457 }, { 248,3457 },
+ { 249,3457 }, { 250,3457 }, { 251,3457 }, { 252,3457 }, { 253,3457 },
+ { 254,3457 }, { 255,3457 }, { 256,3457 }, {   0,  35 }, {   0,16380 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3463 }, {  10,3463 },
+ {   0,   0 }, {   0,   0 }, {  13,3463 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,  51 }, {   0,16362 }, {   0,  43 }, {   0,16360 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  32,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  46,3465 }, {  47,3463 }, {   0,  51 }, {   0,16331 }, {   0,  51 },
+ {   0,16329 }, {   0,   7 }, {   0,16327 }, {   0,  14 }, {   0,16325 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  61,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  51 }, {   0,16298 }, {   1,3117 }, {   2,3117 }, {   3,3117 },
+ {   4,3117 }, {   5,3117 }, {   6,3117 }, {   7,3117 }, {   8,3117 },
+ {   9,3387 }, {  10,3387 }, {  11,3117 }, {  12,3117 }, {  13,3387 },
+ {  14,3117 }, {  15,3117 }, {  16,3117 }, {  17,3117 }, {  18,3117 },
+ {  19,3117 }, {  20,3117 }, {  21,3117 }, {  22,3117 }, {  23,3117 },
+ {  24,3117 }, {  25,3117 }, {  26,3117 }, {  27,3117 }, {  28,3117 },
+ {  29,3117 }, {  30,3117 }, {  31,3117 }, {  32,3387 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,3117 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,3387 }, { 124,3463 }, { 125,3463 },
+
+ { 126,3463 }, {  45,3117 }, {  46,4699 }, {  47,3092 }, {  48,4441 },
+ {  49,4441 }, {  50,4441 }, {  51,4441 }, {  52,4441 }, {  53,4441 },
+ {  54,4441 }, {  55,4441 }, {  56,4441 }, {  57,4441 }, {  58,3117 },
+ { 123,6628 }, {   0,   0 }, {  61,3092 }, {   0,   0 }, {  63,3117 },
+ {   0,   0 }, {  65,3117 }, {  66,3117 }, {  67,3117 }, {  68,3117 },
+ {  69,3117 }, {  70,3117 }, {  71,3117 }, {  72,3117 }, {  73,3117 },
+ {  74,3117 }, {  75,3117 }, {  76,3117 }, {  77,3117 }, {  78,3117 },
+ {  79,3117 }, {  80,3117 }, {  81,3117 }, {  82,3117 }, {  83,3117 },
+ {  84,3117 }, {  85,3117 }, {  86,3117 }, {  87,3117 }, {  88,3117 },
+ {  89,3117 }, {  90,3117 }, {   0,   0 }, { 125,6599 }, { 126,6601 },
+
+ { 125,6601 }, {  95,3117 }, {   0,   0 }, {  97,3117 }, {  98,3117 },
+ {  99,3117 }, { 100,3117 }, { 101,3117 }, { 102,3117 }, { 103,3117 },
+ { 104,3117 }, { 105,3117 }, { 106,3117 }, { 107,3117 }, { 108,3117 },
+ { 109,3117 }, { 110,3117 }, { 111,3117 }, { 112,3117 }, { 113,3117 },
+ { 114,3117 }, { 115,3117 }, { 116,3117 }, { 117,3117 }, { 118,3117 },
+ { 119,3117 }, { 120,3117 }, { 121,3117 }, { 122,3117 }, {   0,   0 },
+ { 124,3092 }, { 125,3387 }, { 126,3387 }, { 127,3117 }, { 128,3117 },
+ { 129,3117 }, { 130,3117 }, { 131,3117 }, { 132,3117 }, { 133,3117 },
+ { 134,3117 }, { 135,3117 }, { 136,3117 }, { 137,3117 }, { 138,3117 },
+ { 139,3117 }, { 140,3117 }, { 141,3117 }, { 142,3117 }, { 143,3117 },
+
+ { 144,3117 }, { 145,3117 }, { 146,3117 }, { 147,3117 }, { 148,3117 },
+ { 149,3117 }, { 150,3117 }, { 151,3117 }, { 152,3117 }, { 153,3117 },
+ { 154,3117 }, { 155,3117 }, { 156,3117 }, { 157,3117 }, { 158,3117 },
+ { 159,3117 }, { 160,3117 }, { 161,3117 }, { 162,3117 }, { 163,3117 },
+ { 164,3117 }, { 165,3117 }, { 166,3117 }, { 167,3117 }, { 168,3117 },
+ { 169,3117 }, { 170,3117 }, { 171,3117 }, { 172,3117 }, { 173,3117 },
+ { 174,3117 }, { 175,3117 }, { 176,3117 }, { 177,3117 }, { 178,3117 },
+ { 179,3117 }, { 180,3117 }, { 181,3117 }, { 182,3117 }, { 183,3117 },
+ { 184,3117 }, { 185,3117 }, { 186,3117 }, { 187,3117 }, { 188,3117 },
+ { 189,3117 }, { 190,3117 }, { 191,3117 }, { 192,3117 }, { 193,3117 },
+
+ { 194,3117 }, { 195,3117 }, { 196,3117 }, { 197,3117 }, { 198,3117 },
+ { 199,3117 }, { 200,3117 }, { 201,3117 }, { 202,3117 }, { 203,3117 },
+ { 204,3117 }, { 205,3117 }, { 206,3117 }, { 207,3117 }, { 208,3117 },
+ { 209,3117 }, { 210,3117 }, { 211,3117 }, { 212,3117 }, { 213,3117 },
+ { 214,3117 }, { 215,3117 }, { 216,3117 }, { 217,3117 }, { 218,3117 },
+ { 219,3117 }, { 220,3117 }, { 221,3117 }, { 222,3117 }, { 223,3117 },
+ { 224,3117 }, { 225,3117 }, { 226,3117 }, { 227,3117 }, { 228,3117 },
+ { 229,3117 }, { 230,3117 }, { 231,3117 }, { 232,3117 }, { 233,3117 },
+ { 234,3117 }, { 235,3117 }, { 236,3117 }, { 237,3117 }, { 238,3117 },
+ { 239,3117 }, { 240,3117 }, { 241,3117 }, { 242,3117 }, { 243,3117 },
+
+ { 244,3117 }, { 245,3117 }, { 246,3117 }, { 247,3117 }, { 248,3117 },
+ { 249,3117 }, { 250,3117 }, { 251,3117 }, { 252,3117 }, { 253,3117 },
+ { 254,3117 }, { 255,3117 }, { 256,3117 }, {   0,  51 }, {   0,16040 },
+ {   1,4500 }, {   2,4500 }, {   3,4500 }, {   4,4500 }, {   5,4500 },
+ {   6,4500 }, {   7,4500 }, {   8,4500 }, {   9,4500 }, {  10,4500 },
+ {  11,4500 }, {  12,4500 }, {  13,4500 }, {  14,4500 }, {  15,4500 },
+ {  16,4500 }, {  17,4500 }, {  18,4500 }, {  19,4500 }, {  20,4500 },
+ {  21,4500 }, {  22,4500 }, {  23,4500 }, {  24,4500 }, {  25,4500 },
+ {  26,4500 }, {  27,4500 }, {  28,4500 }, {  29,4500 }, {  30,4500 },
+ {  31,4500 }, {  32,4500 }, {  33,4500 }, {  34,4500 }, {  35,4500 },
+
+ {  36,4500 }, {  37,4500 }, {  38,4500 }, {  39,4500 }, {  40,4500 },
+ {  41,4500 }, {  42,4500 }, {  43,4500 }, {  44,4500 }, {  45,4500 },
+ {  46,4500 }, {  47,4500 }, {  48,4500 }, {  49,4500 }, {  50,4500 },
+ {  51,4500 }, {  52,4500 }, {  53,4500 }, {  54,4500 }, {  55,4500 },
+ {  56,4500 }, {  57,4500 }, {  58,4500 }, {  59,4500 }, {  60,4500 },
+ {  61,4500 }, {  62,4500 }, {  63,4500 }, {  64,4500 }, {  65,4500 },
+ {  66,4500 }, {  67,4500 }, {  68,4500 }, {  69,4500 }, {  70,4500 },
+ {  71,4500 }, {  72,4500 }, {  73,4500 }, {  74,4500 }, {  75,4500 },
+ {  76,4500 }, {  77,4500 }, {  78,4500 }, {  79,4500 }, {  80,4500 },
+ {  81,4500 }, {  82,4500 }, {  83,4500 }, {  84,4500 }, {  85,4500 },
+
+ {  86,4500 }, {  87,4500 }, {  88,4500 }, {  89,4500 }, {  90,4500 },
+ {  91,4500 }, {  92,4758 }, {  93,3132 }, {  94,4500 }, {  95,4500 },
+ {  96,4500 }, {  97,4500 }, {  98,4500 }, {  99,4500 }, { 100,4500 },
+ { 101,4500 }, { 102,4500 }, { 103,4500 }, { 104,4500 }, { 105,4500 },
+ { 106,4500 }, { 107,4500 }, { 108,4500 }, { 109,4500 }, { 110,4500 },
+ { 111,4500 }, { 112,4500 }, { 113,4500 }, { 114,4500 }, { 115,4500 },
+ { 116,4500 }, { 117,4500 }, { 118,4500 }, { 119,4500 }, { 120,4500 },
+ { 121,4500 }, { 122,4500 }, { 123,4500 }, { 124,4500 }, { 125,4500 },
+ { 126,4500 }, { 127,4500 }, { 128,4500 }, { 129,4500 }, { 130,4500 },
+ { 131,4500 }, { 132,4500 }, { 133,4500 }, { 134,4500 }, { 135,4500 },
+
+ { 136,4500 }, { 137,4500 }, { 138,4500 }, { 139,4500 }, { 140,4500 },
+ { 141,4500 }, { 142,4500 }, { 143,4500 }, { 144,4500 }, { 145,4500 },
+ { 146,4500 }, { 147,4500 }, { 148,4500 }, { 149,4500 }, { 150,4500 },
+ { 151,4500 }, { 152,4500 }, { 153,4500 }, { 154,4500 }, { 155,4500 },
+ { 156,4500 }, { 157,4500 }, { 158,4500 }, { 159,4500 }, { 160,4500 },
+ { 161,4500 }, { 162,4500 }, { 163,4500 }, { 164,4500 }, { 165,4500 },
+ { 166,4500 }, { 167,4500 }, { 168,4500 }, { 169,4500 }, { 170,4500 },
+ { 171,4500 }, { 172,4500 }, { 173,4500 }, { 174,4500 }, { 175,4500 },
+ { 176,4500 }, { 177,4500 }, { 178,4500 }, { 179,4500 }, { 180,4500 },
+ { 181,4500 }, { 182,4500 }, { 183,4500 }, { 184,4500 }, { 185,4500 },
+
+ { 186,4500 }, { 187,4500 }, { 188,4500 }, { 189,4500 }, { 190,4500 },
+ { 191,4500 }, { 192,4500 }, { 193,4500 }, { 194,4500 }, { 195,4500 },
+ { 196,4500 }, { 197,4500 }, { 198,4500 }, { 199,4500 }, { 200,4500 },
+ { 201,4500 }, { 202,4500 }, { 203,4500 }, { 204,4500 }, { 205,4500 },
+ { 206,4500 }, { 207,4500 }, { 208,4500 }, { 209,4500 }, { 210,4500 },
+ { 211,4500 }, { 212,4500 }, { 213,4500 }, { 214,4500 }, { 215,4500 },
+ { 216,4500 }, { 217,4500 }, { 218,4500 }, { 219,4500 }, { 220,4500 },
+ { 221,4500 }, { 222,4500 }, { 223,4500 }, { 224,4500 }, { 225,4500 },
+ { 226,4500 }, { 227,4500 }, { 228,4500 }, { 229,4500 }, { 230,4500 },
+ { 231,4500 }, { 232,4500 }, { 233,4500 }, { 234,4500 }, { 235,4500 },
+
+ { 236,4500 }, { 237,4500 }, { 238,4500 }, { 239,4500 }, { 240,4500 },
+ { 241,4500 }, { 242,4500 }, { 243,4500 }, { 244,4500 }, { 245,4500 },
+ { 246,4500 }, { 247,4500 }, { 248,4500 }, { 249,4500 }, { 250,4500 },
+ { 251,4500 }, { 252,4500 }, { 253,4500 }, { 254,4500 }, { 255,4500 },
+ { 256,4500 }, {   0,  51 }, {   0,15782 }, {   1,2601 }, {   2,2601 },
+ {   3,2601 }, {   4,2601 }, {   5,2601 }, {   6,2601 }, {   7,2601 },
+ {   8,2601 }, {   9,2576 }, {  10,2576 }, {  11,2601 }, {  12,2601 },
+ {  13,2576 }, {  14,2601 }, {  15,2601 }, {  16,2601 }, {  17,2601 },
+ {  18,2601 }, {  19,2601 }, {  20,2601 }, {  21,2601 }, {  22,2601 },
+ {  23,2601 }, {  24,2601 }, {  25,2601 }, {  26,2601 }, {  27,2601 },
+
+ {  28,2601 }, {  29,2601 }, {  30,2601 }, {  31,2601 }, {  32,2576 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2601 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2576 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  45,2601 }, {  46,2576 }, {  47,2576 },
+ {  48,2601 }, {  49,2601 }, {  50,2601 }, {  51,2601 }, {  52,2601 },
+ {  53,2601 }, {  54,2601 }, {  55,2601 }, {  56,2601 }, {  57,2601 },
+ {  58,2601 }, {   0,   0 }, {   0,   0 }, {  61,2576 }, {   0,   0 },
+ {  63,2601 }, {   0,   0 }, {  65,2601 }, {  66,2601 }, {  67,2601 },
+ {  68,2601 }, {  69,2601 }, {  70,2601 }, {  71,2601 }, {  72,2601 },
+ {  73,2601 }, {  74,2601 }, {  75,2601 }, {  76,2601 }, {  77,2601 },
+
+ {  78,2601 }, {  79,2601 }, {  80,2601 }, {  81,2601 }, {  82,2601 },
+ {  83,2601 }, {  84,2601 }, {  85,2601 }, {  86,2601 }, {  87,2601 },
+ {  88,2601 }, {  89,2601 }, {  90,2601 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  95,2601 }, {   0,   0 }, {  97,2601 },
+ {  98,2601 }, {  99,2601 }, { 100,2601 }, { 101,2601 }, { 102,2601 },
+ { 103,2601 }, { 104,2601 }, { 105,2601 }, { 106,2601 }, { 107,2601 },
+ { 108,2601 }, { 109,2601 }, { 110,2601 }, { 111,2601 }, { 112,2601 },
+ { 113,2601 }, { 114,2601 }, { 115,4758 }, { 116,2601 }, { 117,2601 },
+ { 118,2601 }, { 119,2601 }, { 120,2601 }, { 121,2601 }, { 122,2601 },
+ {   0,   0 }, { 124,2576 }, { 125,2576 }, { 126,2576 }, { 127,2601 },
+
+ { 128,2601 }, { 129,2601 }, { 130,2601 }, { 131,2601 }, { 132,2601 },
+ { 133,2601 }, { 134,2601 }, { 135,2601 }, { 136,2601 }, { 137,2601 },
+ { 138,2601 }, { 139,2601 }, { 140,2601 }, { 141,2601 }, { 142,2601 },
+ { 143,2601 }, { 144,2601 }, { 145,2601 }, { 146,2601 }, { 147,2601 },
+ { 148,2601 }, { 149,2601 }, { 150,2601 }, { 151,2601 }, { 152,2601 },
+ { 153,2601 }, { 154,2601 }, { 155,2601 }, { 156,2601 }, { 157,2601 },
+ { 158,2601 }, { 159,2601 }, { 160,2601 }, { 161,2601 }, { 162,2601 },
+ { 163,2601 }, { 164,2601 }, { 165,2601 }, { 166,2601 }, { 167,2601 },
+ { 168,2601 }, { 169,2601 }, { 170,2601 }, { 171,2601 }, { 172,2601 },
+ { 173,2601 }, { 174,2601 }, { 175,2601 }, { 176,2601 }, { 177,2601 },
+
+ { 178,2601 }, { 179,2601 }, { 180,2601 }, { 181,2601 }, { 182,2601 },
+ { 183,2601 }, { 184,2601 }, { 185,2601 }, { 186,2601 }, { 187,2601 },
+ { 188,2601 }, { 189,2601 }, { 190,2601 }, { 191,2601 }, { 192,2601 },
+ { 193,2601 }, { 194,2601 }, { 195,2601 }, { 196,2601 }, { 197,2601 },
+ { 198,2601 }, { 199,2601 }, { 200,2601 }, { 201,2601 }, { 202,2601 },
+ { 203,2601 }, { 204,2601 }, { 205,2601 }, { 206,2601 }, { 207,2601 },
+ { 208,2601 }, { 209,2601 }, { 210,2601 }, { 211,2601 }, { 212,2601 },
+ { 213,2601 }, { 214,2601 }, { 215,2601 }, { 216,2601 }, { 217,2601 },
+ { 218,2601 }, { 219,2601 }, { 220,2601 }, { 221,2601 }, { 222,2601 },
+ { 223,2601 }, { 224,2601 }, { 225,2601 }, { 226,2601 }, { 227,2601 },
+
+ { 228,2601 }, { 229,2601 }, { 230,2601 }, { 231,2601 }, { 232,2601 },
+ { 233,2601 }, { 234,2601 }, { 235,2601 }, { 236,2601 }, { 237,2601 },
+ { 238,2601 }, { 239,2601 }, { 240,2601 }, { 241,2601 }, { 242,2601 },
+ { 243,2601 }, { 244,2601 }, { 245,2601 }, { 246,2601 }, { 247,2601 },
+ { 248,2601 }, { 249,2601 }, { 250,2601 }, { 251,2601 }, { 252,2601 },
+ { 253,2601 }, { 254,2601 }, { 255,2601 }, { 256,2601 }, {   0,  51 },
+ {   0,15524 }, {   1,2343 }, {   2,2343 }, {   3,2343 }, {   4,2343 },
+ {   5,2343 }, {   6,2343 }, {   7,2343 }, {   8,2343 }, {   9,2318 },
+ {  10,2318 }, {  11,2343 }, {  12,2343 }, {  13,2318 }, {  14,2343 },
+ {  15,2343 }, {  16,2343 }, {  17,2343 }, {  18,2343 }, {  19,2343 },
+
+ {  20,2343 }, {  21,2343 }, {  22,2343 }, {  23,2343 }, {  24,2343 },
+ {  25,2343 }, {  26,2343 }, {  27,2343 }, {  28,2343 }, {  29,2343 },
+ {  30,2343 }, {  31,2343 }, {  32,2318 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  36,2343 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  41,2318 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  45,2343 }, {  46,2318 }, {  47,2318 }, {  48,2343 }, {  49,2343 },
+ {  50,2343 }, {  51,2343 }, {  52,2343 }, {  53,2343 }, {  54,2343 },
+ {  55,2343 }, {  56,2343 }, {  57,2343 }, {  58,2343 }, {   0,   0 },
+ {   0,   0 }, {  61,2318 }, {   0,   0 }, {  63,2343 }, {   0,   0 },
+ {  65,2343 }, {  66,2343 }, {  67,2343 }, {  68,2343 }, {  69,2343 },
+
+ {  70,2343 }, {  71,2343 }, {  72,2343 }, {  73,2343 }, {  74,2343 },
+ {  75,2343 }, {  76,2343 }, {  77,2343 }, {  78,2343 }, {  79,2343 },
+ {  80,2343 }, {  81,2343 }, {  82,2343 }, {  83,2343 }, {  84,2343 },
+ {  85,2343 }, {  86,2343 }, {  87,2343 }, {  88,2343 }, {  89,2343 },
+ {  90,2343 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  95,2343 }, {   0,   0 }, {  97,4758 }, {  98,2343 }, {  99,2343 },
+ { 100,2343 }, { 101,2343 }, { 102,2343 }, { 103,2343 }, { 104,2343 },
+ { 105,2343 }, { 106,2343 }, { 107,2343 }, { 108,2343 }, { 109,2343 },
+ { 110,2343 }, { 111,2343 }, { 112,2343 }, { 113,2343 }, { 114,2343 },
+ { 115,2343 }, { 116,2343 }, { 117,2343 }, { 118,2343 }, { 119,2343 },
+
+ { 120,2343 }, { 121,2343 }, { 122,2343 }, {   0,   0 }, { 124,2318 },
+ { 125,2318 }, { 126,2318 }, { 127,2343 }, { 128,2343 }, { 129,2343 },
+ { 130,2343 }, { 131,2343 }, { 132,2343 }, { 133,2343 }, { 134,2343 },
+ { 135,2343 }, { 136,2343 }, { 137,2343 }, { 138,2343 }, { 139,2343 },
+ { 140,2343 }, { 141,2343 }, { 142,2343 }, { 143,2343 }, { 144,2343 },
+ { 145,2343 }, { 146,2343 }, { 147,2343 }, { 148,2343 }, { 149,2343 },
+ { 150,2343 }, { 151,2343 }, { 152,2343 }, { 153,2343 }, { 154,2343 },
+ { 155,2343 }, { 156,2343 }, { 157,2343 }, { 158,2343 }, { 159,2343 },
+ { 160,2343 }, { 161,2343 }, { 162,2343 }, { 163,2343 }, { 164,2343 },
+ { 165,2343 }, { 166,2343 }, { 167,2343 }, { 168,2343 }, { 169,2343 },
+
+ { 170,2343 }, { 171,2343 }, { 172,2343 }, { 173,2343 }, { 174,2343 },
+ { 175,2343 }, { 176,2343 }, { 177,2343 }, { 178,2343 }, { 179,2343 },
+ { 180,2343 }, { 181,2343 }, { 182,2343 }, { 183,2343 }, { 184,2343 },
+ { 185,2343 }, { 186,2343 }, { 187,2343 }, { 188,2343 }, { 189,2343 },
+ { 190,2343 }, { 191,2343 }, { 192,2343 }, { 193,2343 }, { 194,2343 },
+ { 195,2343 }, { 196,2343 }, { 197,2343 }, { 198,2343 }, { 199,2343 },
+ { 200,2343 }, { 201,2343 }, { 202,2343 }, { 203,2343 }, { 204,2343 },
+ { 205,2343 }, { 206,2343 }, { 207,2343 }, { 208,2343 }, { 209,2343 },
+ { 210,2343 }, { 211,2343 }, { 212,2343 }, { 213,2343 }, { 214,2343 },
+ { 215,2343 }, { 216,2343 }, { 217,2343 }, { 218,2343 }, { 219,2343 },
+
+ { 220,2343 }, { 221,2343 }, { 222,2343 }, { 223,2343 }, { 224,2343 },
+ { 225,2343 }, { 226,2343 }, { 227,2343 }, { 228,2343 }, { 229,2343 },
+ { 230,2343 }, { 231,2343 }, { 232,2343 }, { 233,2343 }, { 234,2343 },
+ { 235,2343 }, { 236,2343 }, { 237,2343 }, { 238,2343 }, { 239,2343 },
+ { 240,2343 }, { 241,2343 }, { 242,2343 }, { 243,2343 }, { 244,2343 },
+ { 245,2343 }, { 246,2343 }, { 247,2343 }, { 248,2343 }, { 249,2343 },
+ { 250,2343 }, { 251,2343 }, { 252,2343 }, { 253,2343 }, { 254,2343 },
+ { 255,2343 }, { 256,2343 }, {   0,  51 }, {   0,15266 }, {   1,2085 },
+ {   2,2085 }, {   3,2085 }, {   4,2085 }, {   5,2085 }, {   6,2085 },
+ {   7,2085 }, {   8,2085 }, {   9,2060 }, {  10,2060 }, {  11,2085 },
+
+ {  12,2085 }, {  13,2060 }, {  14,2085 }, {  15,2085 }, {  16,2085 },
+ {  17,2085 }, {  18,2085 }, {  19,2085 }, {  20,2085 }, {  21,2085 },
+ {  22,2085 }, {  23,2085 }, {  24,2085 }, {  25,2085 }, {  26,2085 },
+ {  27,2085 }, {  28,2085 }, {  29,2085 }, {  30,2085 }, {  31,2085 },
+ {  32,2060 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2085 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2060 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2085 }, {  46,2060 },
+ {  47,2060 }, {  48,2085 }, {  49,2085 }, {  50,2085 }, {  51,2085 },
+ {  52,2085 }, {  53,2085 }, {  54,2085 }, {  55,2085 }, {  56,2085 },
+ {  57,2085 }, {  58,2085 }, {   0,   0 }, {   0,   0 }, {  61,2060 },
+
+ {   0,   0 }, {  63,2085 }, {   0,   0 }, {  65,2085 }, {  66,2085 },
+ {  67,2085 }, {  68,2085 }, {  69,2085 }, {  70,2085 }, {  71,2085 },
+ {  72,2085 }, {  73,2085 }, {  74,2085 }, {  75,2085 }, {  76,2085 },
+ {  77,2085 }, {  78,2085 }, {  79,2085 }, {  80,2085 }, {  81,2085 },
+ {  82,2085 }, {  83,2085 }, {  84,2085 }, {  85,2085 }, {  86,2085 },
+ {  87,2085 }, {  88,2085 }, {  89,2085 }, {  90,2085 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,2085 }, {   0,   0 },
+ {  97,2085 }, {  98,2085 }, {  99,2085 }, { 100,2085 }, { 101,2085 },
+ { 102,2085 }, { 103,2085 }, { 104,2085 }, { 105,2085 }, { 106,2085 },
+ { 107,2085 }, { 108,2085 }, { 109,2085 }, { 110,2085 }, { 111,2085 },
+
+ { 112,2085 }, { 113,2085 }, { 114,2085 }, { 115,2085 }, { 116,2085 },
+ { 117,4758 }, { 118,2085 }, { 119,2085 }, { 120,2085 }, { 121,2085 },
+ { 122,2085 }, {   0,   0 }, { 124,2060 }, { 125,2060 }, { 126,2060 },
+ { 127,2085 }, { 128,2085 }, { 129,2085 }, { 130,2085 }, { 131,2085 },
+ { 132,2085 }, { 133,2085 }, { 134,2085 }, { 135,2085 }, { 136,2085 },
+ { 137,2085 }, { 138,2085 }, { 139,2085 }, { 140,2085 }, { 141,2085 },
+ { 142,2085 }, { 143,2085 }, { 144,2085 }, { 145,2085 }, { 146,2085 },
+ { 147,2085 }, { 148,2085 }, { 149,2085 }, { 150,2085 }, { 151,2085 },
+ { 152,2085 }, { 153,2085 }, { 154,2085 }, { 155,2085 }, { 156,2085 },
+ { 157,2085 }, { 158,2085 }, { 159,2085 }, { 160,2085 }, { 161,2085 },
+
+ { 162,2085 }, { 163,2085 }, { 164,2085 }, { 165,2085 }, { 166,2085 },
+ { 167,2085 }, { 168,2085 }, { 169,2085 }, { 170,2085 }, { 171,2085 },
+ { 172,2085 }, { 173,2085 }, { 174,2085 }, { 175,2085 }, { 176,2085 },
+ { 177,2085 }, { 178,2085 }, { 179,2085 }, { 180,2085 }, { 181,2085 },
+ { 182,2085 }, { 183,2085 }, { 184,2085 }, { 185,2085 }, { 186,2085 },
+ { 187,2085 }, { 188,2085 }, { 189,2085 }, { 190,2085 }, { 191,2085 },
+ { 192,2085 }, { 193,2085 }, { 194,2085 }, { 195,2085 }, { 196,2085 },
+ { 197,2085 }, { 198,2085 }, { 199,2085 }, { 200,2085 }, { 201,2085 },
+ { 202,2085 }, { 203,2085 }, { 204,2085 }, { 205,2085 }, { 206,2085 },
+ { 207,2085 }, { 208,2085 }, { 209,2085 }, { 210,2085 }, { 211,2085 },
+
+ { 212,2085 }, { 213,2085 }, { 214,2085 }, { 215,2085 }, { 216,2085 },
+ { 217,2085 }, { 218,2085 }, { 219,2085 }, { 220,2085 }, { 221,2085 },
+ { 222,2085 }, { 223,2085 }, { 224,2085 }, { 225,2085 }, { 226,2085 },
+ { 227,2085 }, { 228,2085 }, { 229,2085 }, { 230,2085 }, { 231,2085 },
+ { 232,2085 }, { 233,2085 }, { 234,2085 }, { 235,2085 }, { 236,2085 },
+ { 237,2085 }, { 238,2085 }, { 239,2085 }, { 240,2085 }, { 241,2085 },
+ { 242,2085 }, { 243,2085 }, { 244,2085 }, { 245,2085 }, { 246,2085 },
+ { 247,2085 }, { 248,2085 }, { 249,2085 }, { 250,2085 }, { 251,2085 },
+ { 252,2085 }, { 253,2085 }, { 254,2085 }, { 255,2085 }, { 256,2085 },
+ {   0,  51 }, {   0,15008 }, {   1,1827 }, {   2,1827 }, {   3,1827 },
+
+ {   4,1827 }, {   5,1827 }, {   6,1827 }, {   7,1827 }, {   8,1827 },
+ {   9,1802 }, {  10,1802 }, {  11,1827 }, {  12,1827 }, {  13,1802 },
+ {  14,1827 }, {  15,1827 }, {  16,1827 }, {  17,1827 }, {  18,1827 },
+ {  19,1827 }, {  20,1827 }, {  21,1827 }, {  22,1827 }, {  23,1827 },
+ {  24,1827 }, {  25,1827 }, {  26,1827 }, {  27,1827 }, {  28,1827 },
+ {  29,1827 }, {  30,1827 }, {  31,1827 }, {  32,1802 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  36,1827 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {  41,1802 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  45,1827 }, {  46,1802 }, {  47,1802 }, {  48,1827 },
+ {  49,1827 }, {  50,1827 }, {  51,1827 }, {  52,1827 }, {  53,1827 },
+
+ {  54,1827 }, {  55,1827 }, {  56,1827 }, {  57,1827 }, {  58,1827 },
+ {   0,   0 }, {   0,   0 }, {  61,1802 }, {   0,   0 }, {  63,1827 },
+ {   0,   0 }, {  65,1827 }, {  66,1827 }, {  67,1827 }, {  68,1827 },
+ {  69,1827 }, {  70,1827 }, {  71,1827 }, {  72,1827 }, {  73,1827 },
+ {  74,1827 }, {  75,1827 }, {  76,1827 }, {  77,1827 }, {  78,1827 },
+ {  79,1827 }, {  80,1827 }, {  81,1827 }, {  82,1827 }, {  83,1827 },
+ {  84,1827 }, {  85,1827 }, {  86,1827 }, {  87,1827 }, {  88,1827 },
+ {  89,1827 }, {  90,1827 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {  95,1827 }, {   0,   0 }, {  97,1827 }, {  98,1827 },
+ {  99,1827 }, { 100,1827 }, { 101,1827 }, { 102,1827 }, { 103,1827 },
+
+ { 104,1827 }, { 105,1827 }, { 106,1827 }, { 107,1827 }, { 108,1827 },
+ { 109,1827 }, { 110,1827 }, { 111,1827 }, { 112,1827 }, { 113,1827 },
+ { 114,4758 }, { 115,1827 }, { 116,1827 }, { 117,1827 }, { 118,1827 },
+ { 119,1827 }, { 120,1827 }, { 121,1827 }, { 122,1827 }, {   0,   0 },
+ { 124,1802 }, { 125,1802 }, { 126,1802 }, { 127,1827 }, { 128,1827 },
+ { 129,1827 }, { 130,1827 }, { 131,1827 }, { 132,1827 }, { 133,1827 },
+ { 134,1827 }, { 135,1827 }, { 136,1827 }, { 137,1827 }, { 138,1827 },
+ { 139,1827 }, { 140,1827 }, { 141,1827 }, { 142,1827 }, { 143,1827 },
+ { 144,1827 }, { 145,1827 }, { 146,1827 }, { 147,1827 }, { 148,1827 },
+ { 149,1827 }, { 150,1827 }, { 151,1827 }, { 152,1827 }, { 153,1827 },
+
+ { 154,1827 }, { 155,1827 }, { 156,1827 }, { 157,1827 }, { 158,1827 },
+ { 159,1827 }, { 160,1827 }, { 161,1827 }, { 162,1827 }, { 163,1827 },
+ { 164,1827 }, { 165,1827 }, { 166,1827 }, { 167,1827 }, { 168,1827 },
+ { 169,1827 }, { 170,1827 }, { 171,1827 }, { 172,1827 }, { 173,1827 },
+ { 174,1827 }, { 175,1827 }, { 176,1827 }, { 177,1827 }, { 178,1827 },
+ { 179,1827 }, { 180,1827 }, { 181,1827 }, { 182,1827 }, { 183,1827 },
+ { 184,1827 }, { 185,1827 }, { 186,1827 }, { 187,1827 }, { 188,1827 },
+ { 189,1827 }, { 190,1827 }, { 191,1827 }, { 192,1827 }, { 193,1827 },
+ { 194,1827 }, { 195,1827 }, { 196,1827 }, { 197,1827 }, { 198,1827 },
+ { 199,1827 }, { 200,1827 }, { 201,1827 }, { 202,1827 }, { 203,1827 },
+
+ { 204,1827 }, { 205,1827 }, { 206,1827 }, { 207,1827 }, { 208,1827 },
+ { 209,1827 }, { 210,1827 }, { 211,1827 }, { 212,1827 }, { 213,1827 },
+ { 214,1827 }, { 215,1827 }, { 216,1827 }, { 217,1827 }, { 218,1827 },
+ { 219,1827 }, { 220,1827 }, { 221,1827 }, { 222,1827 }, { 223,1827 },
+ { 224,1827 }, { 225,1827 }, { 226,1827 }, { 227,1827 }, { 228,1827 },
+ { 229,1827 }, { 230,1827 }, { 231,1827 }, { 232,1827 }, { 233,1827 },
+ { 234,1827 }, { 235,1827 }, { 236,1827 }, { 237,1827 }, { 238,1827 },
+ { 239,1827 }, { 240,1827 }, { 241,1827 }, { 242,1827 }, { 243,1827 },
+ { 244,1827 }, { 245,1827 }, { 246,1827 }, { 247,1827 }, { 248,1827 },
+ { 249,1827 }, { 250,1827 }, { 251,1827 }, { 252,1827 }, { 253,1827 },
+
+ { 254,1827 }, { 255,1827 }, { 256,1827 }, {   0,  51 }, {   0,14750 },
+ {   1,1569 }, {   2,1569 }, {   3,1569 }, {   4,1569 }, {   5,1569 },
+ {   6,1569 }, {   7,1569 }, {   8,1569 }, {   9,1544 }, {  10,1544 },
+ {  11,1569 }, {  12,1569 }, {  13,1544 }, {  14,1569 }, {  15,1569 },
+ {  16,1569 }, {  17,1569 }, {  18,1569 }, {  19,1569 }, {  20,1569 },
+ {  21,1569 }, {  22,1569 }, {  23,1569 }, {  24,1569 }, {  25,1569 },
+ {  26,1569 }, {  27,1569 }, {  28,1569 }, {  29,1569 }, {  30,1569 },
+ {  31,1569 }, {  32,1544 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  36,1569 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {  41,1544 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1569 },
+
+ {  46,1544 }, {  47,1544 }, {  48,1569 }, {  49,1569 }, {  50,1569 },
+ {  51,1569 }, {  52,1569 }, {  53,1569 }, {  54,1569 }, {  55,1569 },
+ {  56,1569 }, {  57,1569 }, {  58,1569 }, {   0,   0 }, {   0,   0 },
+ {  61,1544 }, {   0,   0 }, {  63,1569 }, {   0,   0 }, {  65,1569 },
+ {  66,1569 }, {  67,1569 }, {  68,1569 }, {  69,1569 }, {  70,1569 },
+ {  71,1569 }, {  72,1569 }, {  73,1569 }, {  74,1569 }, {  75,1569 },
+ {  76,1569 }, {  77,1569 }, {  78,1569 }, {  79,1569 }, {  80,1569 },
+ {  81,1569 }, {  82,1569 }, {  83,1569 }, {  84,1569 }, {  85,1569 },
+ {  86,1569 }, {  87,1569 }, {  88,1569 }, {  89,1569 }, {  90,1569 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1569 },
+
+ {   0,   0 }, {  97,1569 }, {  98,1569 }, {  99,1569 }, { 100,1569 },
+ { 101,1569 }, { 102,1569 }, { 103,1569 }, { 104,1569 }, { 105,1569 },
+ { 106,1569 }, { 107,1569 }, { 108,1569 }, { 109,1569 }, { 110,4758 },
+ { 111,1569 }, { 112,1569 }, { 113,1569 }, { 114,1569 }, { 115,1569 },
+ { 116,1569 }, { 117,1569 }, { 118,1569 }, { 119,1569 }, { 120,1569 },
+ { 121,1569 }, { 122,1569 }, {   0,   0 }, { 124,1544 }, { 125,1544 },
+ { 126,1544 }, { 127,1569 }, { 128,1569 }, { 129,1569 }, { 130,1569 },
+ { 131,1569 }, { 132,1569 }, { 133,1569 }, { 134,1569 }, { 135,1569 },
+ { 136,1569 }, { 137,1569 }, { 138,1569 }, { 139,1569 }, { 140,1569 },
+ { 141,1569 }, { 142,1569 }, { 143,1569 }, { 144,1569 }, { 145,1569 },
+
+ { 146,1569 }, { 147,1569 }, { 148,1569 }, { 149,1569 }, { 150,1569 },
+ { 151,1569 }, { 152,1569 }, { 153,1569 }, { 154,1569 }, { 155,1569 },
+ { 156,1569 }, { 157,1569 }, { 158,1569 }, { 159,1569 }, { 160,1569 },
+ { 161,1569 }, { 162,1569 }, { 163,1569 }, { 164,1569 }, { 165,1569 },
+ { 166,1569 }, { 167,1569 }, { 168,1569 }, { 169,1569 }, { 170,1569 },
+ { 171,1569 }, { 172,1569 }, { 173,1569 }, { 174,1569 }, { 175,1569 },
+ { 176,1569 }, { 177,1569 }, { 178,1569 }, { 179,1569 }, { 180,1569 },
+ { 181,1569 }, { 182,1569 }, { 183,1569 }, { 184,1569 }, { 185,1569 },
+ { 186,1569 }, { 187,1569 }, { 188,1569 }, { 189,1569 }, { 190,1569 },
+ { 191,1569 }, { 192,1569 }, { 193,1569 }, { 194,1569 }, { 195,1569 },
+
+ { 196,1569 }, { 197,1569 }, { 198,1569 }, { 199,1569 }, { 200,1569 },
+ { 201,1569 }, { 202,1569 }, { 203,1569 }, { 204,1569 }, { 205,1569 },
+ { 206,1569 }, { 207,1569 }, { 208,1569 }, { 209,1569 }, { 210,1569 },
+ { 211,1569 }, { 212,1569 }, { 213,1569 }, { 214,1569 }, { 215,1569 },
+ { 216,1569 }, { 217,1569 }, { 218,1569 }, { 219,1569 }, { 220,1569 },
+ { 221,1569 }, { 222,1569 }, { 223,1569 }, { 224,1569 }, { 225,1569 },
+ { 226,1569 }, { 227,1569 }, { 228,1569 }, { 229,1569 }, { 230,1569 },
+ { 231,1569 }, { 232,1569 }, { 233,1569 }, { 234,1569 }, { 235,1569 },
+ { 236,1569 }, { 237,1569 }, { 238,1569 }, { 239,1569 }, { 240,1569 },
+ { 241,1569 }, { 242,1569 }, { 243,1569 }, { 244,1569 }, { 245,1569 },
+
+ { 246,1569 }, { 247,1569 }, { 248,1569 }, { 249,1569 }, { 250,1569 },
+ { 251,1569 }, { 252,1569 }, { 253,1569 }, { 254,1569 }, { 255,1569 },
+ { 256,1569 }, {   0,  14 }, {   0,14492 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ { 123,4766 }, {   0,  14 }, {   0,14367 }, {   1,4769 }, {   2,4769 },
  {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
  {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
+
  {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
  {  18,4769 }, {  19,4769 }, {  20,4769 }, {  21,4769 }, {  22,4769 },
  {  23,4769 }, {  24,4769 }, {  25,4769 }, {  26,4769 }, {  27,4769 },
  {  28,4769 }, {  29,4769 }, {  30,4769 }, {  31,4769 }, {  32,4769 },
  {  33,4769 }, {  34,4769 }, {  35,4769 }, {  36,4769 }, {  37,4769 },
-
  {  38,4769 }, {  39,4769 }, {  40,4769 }, {  41,4769 }, {  42,4769 },
  {  43,4769 }, {  44,4769 }, {  45,4769 }, {  46,4769 }, {  47,4769 },
  {  48,4769 }, {  49,4769 }, {  50,4769 }, {  51,4769 }, {  52,4769 },
  {  53,4769 }, {  54,4769 }, {  55,4769 }, {  56,4769 }, {  57,4769 },
  {  58,4769 }, {  59,4769 }, {  60,4769 }, {  61,4769 }, {  62,4769 },
+
  {  63,4769 }, {  64,4769 }, {  65,4769 }, {  66,4769 }, {  67,4769 },
  {  68,4769 }, {  69,4769 }, {  70,4769 }, {  71,4769 }, {  72,4769 },
  {  73,4769 }, {  74,4769 }, {  75,4769 }, {  76,4769 }, {  77,4769 },
  {  78,4769 }, {  79,4769 }, {  80,4769 }, {  81,4769 }, {  82,4769 },
  {  83,4769 }, {  84,4769 }, {  85,4769 }, {  86,4769 }, {  87,4769 },
-
  {  88,4769 }, {  89,4769 }, {  90,4769 }, {  91,4769 }, {  92,4769 },
  {  93,4769 }, {  94,4769 }, {  95,4769 }, {  96,4769 }, {  97,4769 },
  {  98,4769 }, {  99,4769 }, { 100,4769 }, { 101,4769 }, { 102,4769 },
  { 103,4769 }, { 104,4769 }, { 105,4769 }, { 106,4769 }, { 107,4769 },
  { 108,4769 }, { 109,4769 }, { 110,4769 }, { 111,4769 }, { 112,4769 },
+
  { 113,4769 }, { 114,4769 }, { 115,4769 }, { 116,4769 }, { 117,4769 },
  { 118,4769 }, { 119,4769 }, { 120,4769 }, { 121,4769 }, { 122,4769 },
  { 123,4769 }, { 124,4769 }, { 125,5027 }, { 126,4769 }, { 127,4769 },
  { 128,4769 }, { 129,4769 }, { 130,4769 }, { 131,4769 }, { 132,4769 },
  { 133,4769 }, { 134,4769 }, { 135,4769 }, { 136,4769 }, { 137,4769 },
-
  { 138,4769 }, { 139,4769 }, { 140,4769 }, { 141,4769 }, { 142,4769 },
  { 143,4769 }, { 144,4769 }, { 145,4769 }, { 146,4769 }, { 147,4769 },
  { 148,4769 }, { 149,4769 }, { 150,4769 }, { 151,4769 }, { 152,4769 },
  { 153,4769 }, { 154,4769 }, { 155,4769 }, { 156,4769 }, { 157,4769 },
  { 158,4769 }, { 159,4769 }, { 160,4769 }, { 161,4769 }, { 162,4769 },
+
  { 163,4769 }, { 164,4769 }, { 165,4769 }, { 166,4769 }, { 167,4769 },
  { 168,4769 }, { 169,4769 }, { 170,4769 }, { 171,4769 }, { 172,4769 },
  { 173,4769 }, { 174,4769 }, { 175,4769 }, { 176,4769 }, { 177,4769 },
  { 178,4769 }, { 179,4769 }, { 180,4769 }, { 181,4769 }, { 182,4769 },
  { 183,4769 }, { 184,4769 }, { 185,4769 }, { 186,4769 }, { 187,4769 },
-
  { 188,4769 }, { 189,4769 }, { 190,4769 }, { 191,4769 }, { 192,4769 },
  { 193,4769 }, { 194,4769 }, { 195,4769 }, { 196,4769 }, { 197,4769 },
  { 198,4769 }, { 199,4769 }, { 200,4769 }, { 201,4769 }, { 202,4769 },
  { 203,4769 }, { 204,4769 }, { 205,4769 }, { 206,4769 }, { 207,4769 },
  { 208,4769 }, { 209,4769 }, { 210,4769 }, { 211,4769 }, { 212,4769 },
+
  { 213,4769 }, { 214,4769 }, { 215,4769 }, { 216,4769 }, { 217,4769 },
  { 218,4769 }, { 219,4769 }, { 220,4769 }, { 221,4769 }, { 222,4769 },
  { 223,4769 }, { 224,4769 }, { 225,4769 }, { 226,4769 }, { 227,4769 },
  { 228,4769 }, { 229,4769 }, { 230,4769 }, { 231,4769 }, { 232,4769 },
  { 233,4769 }, { 234,4769 }, { 235,4769 }, { 236,4769 }, { 237,4769 },
-
  { 238,4769 }, { 239,4769 }, { 240,4769 }, { 241,4769 }, { 242,4769 },
  { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
  { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
- { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  51 },
+ { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  14 },
  {   0,14109 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
+
  {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
  {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
  {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
  {  20,4511 }, {  21,4511 }, {  22,4511 }, {  23,4511 }, {  24,4511 },
  {  25,4511 }, {  26,4511 }, {  27,4511 }, {  28,4511 }, {  29,4511 },
-
  {  30,4511 }, {  31,4511 }, {  32,4511 }, {  33,4511 }, {  34,4511 },
  {  35,4511 }, {  36,4511 }, {  37,4511 }, {  38,4511 }, {  39,4511 },
  {  40,4511 }, {  41,4511 }, {  42,4511 }, {  43,4511 }, {  44,4511 },
  {  45,4511 }, {  46,4511 }, {  47,4511 }, {  48,4511 }, {  49,4511 },
  {  50,4511 }, {  51,4511 }, {  52,4511 }, {  53,4511 }, {  54,4511 },
+
  {  55,4511 }, {  56,4511 }, {  57,4511 }, {  58,4511 }, {  59,4511 },
  {  60,4511 }, {  61,4511 }, {  62,4511 }, {  63,4511 }, {  64,4511 },
  {  65,4511 }, {  66,4511 }, {  67,4511 }, {  68,4511 }, {  69,4511 },
  {  70,4511 }, {  71,4511 }, {  72,4511 }, {  73,4511 }, {  74,4511 },
  {  75,4511 }, {  76,4511 }, {  77,4511 }, {  78,4511 }, {  79,4511 },
-
  {  80,4511 }, {  81,4511 }, {  82,4511 }, {  83,4511 }, {  84,4511 },
  {  85,4511 }, {  86,4511 }, {  87,4511 }, {  88,4511 }, {  89,4511 },
  {  90,4511 }, {  91,4511 }, {  92,4511 }, {  93,4511 }, {  94,4511 },
  {  95,4511 }, {  96,4511 }, {  97,4511 }, {  98,4511 }, {  99,4511 },
  { 100,4511 }, { 101,4511 }, { 102,4511 }, { 103,4511 }, { 104,4511 },
+
  { 105,4511 }, { 106,4511 }, { 107,4511 }, { 108,4511 }, { 109,4511 },
  { 110,4511 }, { 111,4511 }, { 112,4511 }, { 113,4511 }, { 114,4511 },
  { 115,4511 }, { 116,4511 }, { 117,4511 }, { 118,4511 }, { 119,4511 },
  { 120,4511 }, { 121,4511 }, { 122,4511 }, { 123,4511 }, { 124,4511 },
  { 125,4387 }, { 126,4511 }, { 127,4511 }, { 128,4511 }, { 129,4511 },
-
  { 130,4511 }, { 131,4511 }, { 132,4511 }, { 133,4511 }, { 134,4511 },
  { 135,4511 }, { 136,4511 }, { 137,4511 }, { 138,4511 }, { 139,4511 },
  { 140,4511 }, { 141,4511 }, { 142,4511 }, { 143,4511 }, { 144,4511 },
  { 145,4511 }, { 146,4511 }, { 147,4511 }, { 148,4511 }, { 149,4511 },
  { 150,4511 }, { 151,4511 }, { 152,4511 }, { 153,4511 }, { 154,4511 },
+
  { 155,4511 }, { 156,4511 }, { 157,4511 }, { 158,4511 }, { 159,4511 },
  { 160,4511 }, { 161,4511 }, { 162,4511 }, { 163,4511 }, { 164,4511 },
  { 165,4511 }, { 166,4511 }, { 167,4511 }, { 168,4511 }, { 169,4511 },
  { 170,4511 }, { 171,4511 }, { 172,4511 }, { 173,4511 }, { 174,4511 },
  { 175,4511 }, { 176,4511 }, { 177,4511 }, { 178,4511 }, { 179,4511 },
-
  { 180,4511 }, { 181,4511 }, { 182,4511 }, { 183,4511 }, { 184,4511 },
  { 185,4511 }, { 186,4511 }, { 187,4511 }, { 188,4511 }, { 189,4511 },
  { 190,4511 }, { 191,4511 }, { 192,4511 }, { 193,4511 }, { 194,4511 },
  { 195,4511 }, { 196,4511 }, { 197,4511 }, { 198,4511 }, { 199,4511 },
  { 200,4511 }, { 201,4511 }, { 202,4511 }, { 203,4511 }, { 204,4511 },
+
  { 205,4511 }, { 206,4511 }, { 207,4511 }, { 208,4511 }, { 209,4511 },
  { 210,4511 }, { 211,4511 }, { 212,4511 }, { 213,4511 }, { 214,4511 },
  { 215,4511 }, { 216,4511 }, { 217,4511 }, { 218,4511 }, { 219,4511 },
  { 220,4511 }, { 221,4511 }, { 222,4511 }, { 223,4511 }, { 224,4511 },
  { 225,4511 }, { 226,4511 }, { 227,4511 }, { 228,4511 }, { 229,4511 },
-
  { 230,4511 }, { 231,4511 }, { 232,4511 }, { 233,4511 }, { 234,4511 },
  { 235,4511 }, { 236,4511 }, { 237,4511 }, { 238,4511 }, { 239,4511 },
  { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
  { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
  { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
+
  { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,13851 }, {   1,4769 },
  {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
  {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
  {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
  {  17,4769 }, {  18,4769 }, {  19,4769 }, {  20,4769 }, {  21,4769 },
-
  {  22,4769 }, {  23,4769 }, {  24,4769 }, {  25,4769 }, {  26,4769 },
  {  27,4769 }, {  28,4769 }, {  29,4769 }, {  30,4769 }, {  31,4769 },
  {  32,4769 }, {  33,4769 }, {  34,4769 }, {  35,4769 }, {  36,4769 },
  {  37,4769 }, {  38,4769 }, {  39,4769 }, {  40,4769 }, {  41,4769 },
  {  42,4769 }, {  43,4769 }, {  44,4769 }, {  45,4769 }, {  46,4769 },
+
  {  47,4769 }, {  48,4769 }, {  49,4769 }, {  50,4769 }, {  51,4769 },
  {  52,4769 }, {  53,4769 }, {  54,4769 }, {  55,4769 }, {  56,4769 },
  {  57,4769 }, {  58,4769 }, {  59,4769 }, {  60,4769 }, {  61,4769 },
  {  62,4769 }, {  63,4769 }, {  64,4769 }, {  65,4769 }, {  66,4769 },
  {  67,4769 }, {  68,4769 }, {  69,4769 }, {  70,4769 }, {  71,4769 },
-
  {  72,4769 }, {  73,4769 }, {  74,4769 }, {  75,4769 }, {  76,4769 },
  {  77,4769 }, {  78,4769 }, {  79,4769 }, {  80,4769 }, {  81,4769 },
  {  82,4769 }, {  83,4769 }, {  84,4769 }, {  85,4769 }, {  86,4769 },
  {  87,4769 }, {  88,4769 }, {  89,4769 }, {  90,4769 }, {  91,4769 },
  {  92,4769 }, {  93,4769 }, {  94,4769 }, {  95,4769 }, {  96,4769 },
+
  {  97,4769 }, {  98,4769 }, {  99,4769 }, { 100,4769 }, { 101,4769 },
  { 102,4769 }, { 103,4769 }, { 104,4769 }, { 105,4769 }, { 106,4769 },
  { 107,4769 }, { 108,4769 }, { 109,4769 }, { 110,4769 }, { 111,4769 },
  { 112,4769 }, { 113,4769 }, { 114,4769 }, { 115,4769 }, { 116,4769 },
  { 117,4769 }, { 118,4769 }, { 119,4769 }, { 120,4769 }, { 121,4769 },
-
  { 122,4769 }, {   0,   0 }, { 124,4769 }, { 125,4769 }, { 126,4769 },
  { 127,4769 }, { 128,4769 }, { 129,4769 }, { 130,4769 }, { 131,4769 },
  { 132,4769 }, { 133,4769 }, { 134,4769 }, { 135,4769 }, { 136,4769 },
  { 137,4769 }, { 138,4769 }, { 139,4769 }, { 140,4769 }, { 141,4769 },
  { 142,4769 }, { 143,4769 }, { 144,4769 }, { 145,4769 }, { 146,4769 },
+
  { 147,4769 }, { 148,4769 }, { 149,4769 }, { 150,4769 }, { 151,4769 },
  { 152,4769 }, { 153,4769 }, { 154,4769 }, { 155,4769 }, { 156,4769 },
  { 157,4769 }, { 158,4769 }, { 159,4769 }, { 160,4769 }, { 161,4769 },
  { 162,4769 }, { 163,4769 }, { 164,4769 }, { 165,4769 }, { 166,4769 },
  { 167,4769 }, { 168,4769 }, { 169,4769 }, { 170,4769 }, { 171,4769 },
-
  { 172,4769 }, { 173,4769 }, { 174,4769 }, { 175,4769 }, { 176,4769 },
  { 177,4769 }, { 178,4769 }, { 179,4769 }, { 180,4769 }, { 181,4769 },
  { 182,4769 }, { 183,4769 }, { 184,4769 }, { 185,4769 }, { 186,4769 },
  { 187,4769 }, { 188,4769 }, { 189,4769 }, { 190,4769 }, { 191,4769 },
  { 192,4769 }, { 193,4769 }, { 194,4769 }, { 195,4769 }, { 196,4769 },
+
  { 197,4769 }, { 198,4769 }, { 199,4769 }, { 200,4769 }, { 201,4769 },
  { 202,4769 }, { 203,4769 }, { 204,4769 }, { 205,4769 }, { 206,4769 },
  { 207,4769 }, { 208,4769 }, { 209,4769 }, { 210,4769 }, { 211,4769 },
  { 212,4769 }, { 213,4769 }, { 214,4769 }, { 215,4769 }, { 216,4769 },
  { 217,4769 }, { 218,4769 }, { 219,4769 }, { 220,4769 }, { 221,4769 },
-
  { 222,4769 }, { 223,4769 }, { 224,4769 }, { 225,4769 }, { 226,4769 },
  { 227,4769 }, { 228,4769 }, { 229,4769 }, { 230,4769 }, { 231,4769 },
  { 232,4769 }, { 233,4769 }, { 234,4769 }, { 235,4769 }, { 236,4769 },
  { 237,4769 }, { 238,4769 }, { 239,4769 }, { 240,4769 }, { 241,4769 },
  { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
+
  { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
  { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
  {   0,13594 }, {   0,   2 }, {   0,13592 }, {   0,   0 }, {   0,13590 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
-
  {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,   2 },
  {   0,   0 }, {  92,4767 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
  {   0,13469 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
  {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
+
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
  {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
  {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
  {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
  {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
-
  {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
  {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
  {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
  {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
  {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
+
  {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
  {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
  {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
  {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
  {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
-
  {  90,   0 }, {  91,   0 }, {  92,-121 }, {  93,   0 }, {  94,   0 },
  {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
  { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
  { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
  { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
+
  { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
  { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 },
  { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
  { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
  { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
-
  { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
  { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
  { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
  { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
  { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
+
  { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
  { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
  { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
  { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
  { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
-
  { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
  { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
  { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
  { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
  { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
+
  { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
  { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
  { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
  { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
  { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
-
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
  { 255,   0 }, {   0,   0 }, {   0,13212 }, {   0,   0 }, {   0,13210 },
- {   0,   5 }, {   0,13208 }, {   0,  48 }, {   0,13206 }, {   0,   0 },
+ {   0,   5 }, {   0,13208 }, {   0,  49 }, {   0,13206 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,13181 }, {   1,   0 },
-
  {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
  {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
  {  12,   0 }, {  13, -25 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
  {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
  {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
+
  {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
  {  32, -25 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, -25 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 }, {  46, -25 },
  {  47, -25 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
-
  {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
  {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 }, {  61, -25 },
  {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 },
  {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
  {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
+
  {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
  {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
  {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 },
  { 123,4391 }, {   0,   0 }, { 123,4514 }, {  95,   0 }, { 123,4389 },
  {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
-
  { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
  { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
  { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
  { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
  { 122,   0 }, {   0,   0 }, { 124, -25 }, { 125, -25 }, { 126, -25 },
+
  { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
  { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
  { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
  { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
  { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
-
  { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
  { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
  { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
  { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
  { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
+
  { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
  { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
  { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
  { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
  { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
-
  { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
  { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
  { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
  { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
  { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
+
  { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
  { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
  { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
  { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
  { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
-
  { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  35 }, {   0,12923 }, {   0,  38 }, {   0,12921 }, {   0,  39 },
- {   0,12919 }, {   0,  33 }, {   0,12917 }, {   0,  32 }, {   0,12915 },
- {   9,   0 }, {  10,   0 }, {   0,  47 }, {   0,12911 }, {  13,   0 },
- {   0,  49 }, {   0,12908 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  36 }, {   0,12923 }, {   0,  39 }, {   0,12921 }, {   0,  40 },
+ {   0,12919 }, {   0,  34 }, {   0,12917 }, {   0,  33 }, {   0,12915 },
+ {   9,   0 }, {  10,   0 }, {   0,  48 }, {   0,12911 }, {  13,   0 },
+ {   0,  50 }, {   0,12908 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
  {   0,12889 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
  {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
-
  {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
  {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
  {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
  {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
  {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34, -32 },
+
  {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
  {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
  {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
  {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
  {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
-
  {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
  {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
  {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
  {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
  {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
+
  {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
  {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 }, {  94,   0 },
  {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
  { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
  { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
-
  { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
  { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
  { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 },
  { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
  { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
+
  { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
  { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
  { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
  { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
  { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
-
  { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
  { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
  { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
  { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
  { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
+
  { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
  { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
  { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
  { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
  { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
-
  { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
  { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
  { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
  { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
  { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
+
  { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
  { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
  { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
  { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
  { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12631 }, {   1,-258 },
-
  {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
  {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
  {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
  {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 },
  {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 },
+
  {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 },
  {  32,-258 }, {  33,-258 }, {  34,4192 }, {  35,-258 }, {  36,-258 },
  {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 },
  {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 },
  {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 },
-
  {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 },
  {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 },
  {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 },
  {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 },
  {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 },
+
  {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 },
  {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 },
  {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 },
  {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 },
  {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 },
-
  { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 },
  { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 },
  { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 },
  { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 },
  { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 },
+
  { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 },
  { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 },
  { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 },
  { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 },
  { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 },
-
  { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 },
  { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 },
  { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 },
  { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 },
  { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 },
+
  { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 },
  { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 },
  { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 },
  { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 },
  { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 },
-
  { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 },
  { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 },
  { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 },
  { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 },
  { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 },
+
  { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 },
  { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 },
  { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 },
  { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
  { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
-
  { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
  {   0,   0 }, {   0,12373 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
+
  {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
  {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
  {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
  {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
  {  39,-546 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
-
  {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
  {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
  {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
+
  {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
  {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
  {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
  {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
  {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 },
-
  {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
  {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
  { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
  { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
  { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
+
  { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
  { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
  { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
  { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
  { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
-
  { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
  { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
  { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
  { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
  { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
+
  { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
  { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
  { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
  { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
  { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
-
  { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
  { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
  { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
  { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
  { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
+
  { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
  { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
  { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
  { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
-
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
  { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12115 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
+
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
  {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
  {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
  {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
  {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
-
  {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,3934 }, {  40,-258 },
  {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 },
  {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
  {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
  {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
+
  {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
  {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
  {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
  {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
  {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
-
  {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
  {  91,-258 }, {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
  {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
  { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
  { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
+
  { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
  { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
  { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
  { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
  { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
-
  { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
  { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
  { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
  { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
  { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
+
  { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
  { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
  { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
  { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
  { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
-
  { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
  { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
  { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
  { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
  { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
+
  { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
  { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
  { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
  { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
  { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
-
  { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
  { 256,-258 }, {   0,   0 }, {   0,11857 }, {   1,-1324 }, {   2,-1324 },
+
  {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
  {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
  {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
  {  18,-1324 }, {  19,-1324 }, {  20,-1324 }, {  21,-1324 }, {  22,-1324 },
  {  23,-1324 }, {  24,-1324 }, {  25,-1324 }, {  26,-1324 }, {  27,-1324 },
-
  {  28,-1324 }, {  29,-1324 }, {  30,-1324 }, {  31,-1324 }, {  32,-1054 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-1324 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-1054 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-1324 }, {  46, 258 }, {  47,-1349 },
  {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
+
  {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
  {  58,-1324 }, {   0,   0 }, {   0,   0 }, {  61,-1349 }, {   0,   0 },
  {  63,-1324 }, {   0,   0 }, {  65,-1324 }, {  66,-1324 }, {  67,-1324 },
  {  68,-1324 }, {  69,-1324 }, {  70,-1324 }, {  71,-1324 }, {  72,-1324 },
  {  73,-1324 }, {  74,-1324 }, {  75,-1324 }, {  76,-1324 }, {  77,-1324 },
-
  {  78,-1324 }, {  79,-1324 }, {  80,-1324 }, {  81,-1324 }, {  82,-1324 },
  {  83,-1324 }, {  84,-1324 }, {  85,-1324 }, {  86,-1324 }, {  87,-1324 },
  {  88,-1324 }, {  89,-1324 }, {  90,-1324 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  95,-1324 }, {   0,   0 }, {  97,-1324 },
  {  98,-1324 }, {  99,-1324 }, { 100,-1324 }, { 101,-1324 }, { 102,-1324 },
+
  { 103,-1324 }, { 104,-1324 }, { 105,-1324 }, { 106,-1324 }, { 107,-1324 },
  { 108,-1324 }, { 109,-1324 }, { 110,-1324 }, { 111,-1324 }, { 112,-1324 },
  { 113,-1324 }, { 114,-1324 }, { 115,-1324 }, { 116,-1324 }, { 117,-1324 },
  { 118,-1324 }, { 119,-1324 }, { 120,-1324 }, { 121,-1324 }, { 122,-1324 },
  {   0,   0 }, { 124,-1349 }, { 125,-1054 }, { 126,-1054 }, { 127,-1324 },
-
  { 128,-1324 }, { 129,-1324 }, { 130,-1324 }, { 131,-1324 }, { 132,-1324 },
  { 133,-1324 }, { 134,-1324 }, { 135,-1324 }, { 136,-1324 }, { 137,-1324 },
  { 138,-1324 }, { 139,-1324 }, { 140,-1324 }, { 141,-1324 }, { 142,-1324 },
  { 143,-1324 }, { 144,-1324 }, { 145,-1324 }, { 146,-1324 }, { 147,-1324 },
  { 148,-1324 }, { 149,-1324 }, { 150,-1324 }, { 151,-1324 }, { 152,-1324 },
+
  { 153,-1324 }, { 154,-1324 }, { 155,-1324 }, { 156,-1324 }, { 157,-1324 },
  { 158,-1324 }, { 159,-1324 }, { 160,-1324 }, { 161,-1324 }, { 162,-1324 },
  { 163,-1324 }, { 164,-1324 }, { 165,-1324 }, { 166,-1324 }, { 167,-1324 },
  { 168,-1324 }, { 169,-1324 }, { 170,-1324 }, { 171,-1324 }, { 172,-1324 },
  { 173,-1324 }, { 174,-1324 }, { 175,-1324 }, { 176,-1324 }, { 177,-1324 },
-
  { 178,-1324 }, { 179,-1324 }, { 180,-1324 }, { 181,-1324 }, { 182,-1324 },
  { 183,-1324 }, { 184,-1324 }, { 185,-1324 }, { 186,-1324 }, { 187,-1324 },
  { 188,-1324 }, { 189,-1324 }, { 190,-1324 }, { 191,-1324 }, { 192,-1324 },
  { 193,-1324 }, { 194,-1324 }, { 195,-1324 }, { 196,-1324 }, { 197,-1324 },
  { 198,-1324 }, { 199,-1324 }, { 200,-1324 }, { 201,-1324 }, { 202,-1324 },
+
  { 203,-1324 }, { 204,-1324 }, { 205,-1324 }, { 206,-1324 }, { 207,-1324 },
  { 208,-1324 }, { 209,-1324 }, { 210,-1324 }, { 211,-1324 }, { 212,-1324 },
  { 213,-1324 }, { 214,-1324 }, { 215,-1324 }, { 216,-1324 }, { 217,-1324 },
  { 218,-1324 }, { 219,-1324 }, { 220,-1324 }, { 221,-1324 }, { 222,-1324 },
  { 223,-1324 }, { 224,-1324 }, { 225,-1324 }, { 226,-1324 }, { 227,-1324 },
-
  { 228,-1324 }, { 229,-1324 }, { 230,-1324 }, { 231,-1324 }, { 232,-1324 },
  { 233,-1324 }, { 234,-1324 }, { 235,-1324 }, { 236,-1324 }, { 237,-1324 },
  { 238,-1324 }, { 239,-1324 }, { 240,-1324 }, { 241,-1324 }, { 242,-1324 },
  { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
  { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
- { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  48 },
+
+ { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  49 },
  {   0,11599 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
  {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
  {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,11540 },
  {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
  {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
-
  {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 },
  {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
  {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
  {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
  {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 },
+
  {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
  {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
  {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
  {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
  {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
-
  {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
  {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
  {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
  {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
  {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
+
  {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
  {  91,   0 }, {  92, 258 }, {  93,-1368 }, {  94,   0 }, {  95,   0 },
  {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
  { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
  { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
-
  { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
  { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
  { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 },
  { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
  { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
+
  { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
  { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
  { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
  { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
  { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
-
  { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
  { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
  { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
  { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
  { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
+
  { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
  { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
  { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
  { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
  { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
-
  { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
  { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
  { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
  { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
  { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
+
  { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
  { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
  { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
  { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
  { 256,   0 }, {   0,   0 }, {   0,11282 }, {   1,-258 }, {   2,-258 },
-
  {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
  {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
  {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
  {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 },
  {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 },
+
  {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 },
  {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 },
  {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 },
  {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 }, {  47,-258 },
  {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 },
-
  {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 },
  {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 },
  {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 },
  {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 },
  {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 },
+
  {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 },
  {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 },
  {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,   0 },
  {  93,3487 }, {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 },
  {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 },
-
  { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 },
  { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 },
  { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 },
  { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 },
  { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 },
+
  { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 },
  { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 },
  { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 },
  { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 },
  { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 },
-
  { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 },
  { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 },
  { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 },
  { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 },
  { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 },
+
  { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 },
  { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 },
  { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 },
  { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 },
  { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 },
-
  { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 },
  { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 },
  { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 },
  { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 },
  { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 },
+
  { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 },
  { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 },
  { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 },
  { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
  { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
-
  { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
  {   0,11024 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
  {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,2296 },
  {  10,2296 }, {  11,-2157 }, {  12,-2157 }, {  13,2296 }, {  14,-2157 },
  {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
+
  {  20,-2157 }, {  21,-2157 }, {  22,-2157 }, {  23,-2157 }, {  24,-2157 },
  {  25,-2157 }, {  26,-2157 }, {  27,-2157 }, {  28,-2157 }, {  29,-2157 },
  {  30,-2157 }, {  31,-2157 }, {  32,2296 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  36,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  41,-2182 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {  45,-2157 }, {  46,-2182 }, {  47,-2182 }, {  48,-2157 }, {  49,-2157 },
  {  50,-2157 }, {  51,-2157 }, {  52,-2157 }, {  53,-2157 }, {  54,-2157 },
  {  55,-2157 }, {  56,-2157 }, {  57,-2157 }, {  58,-2157 }, {   0,   0 },
  {   0,   0 }, {  61,-2182 }, {   0,   0 }, {  63,-2157 }, {   0,   0 },
  {  65,-2157 }, {  66,-2157 }, {  67,-2157 }, {  68,-2157 }, {  69,-2157 },
+
  {  70,-2157 }, {  71,-2157 }, {  72,-2157 }, {  73,-2157 }, {  74,-2157 },
  {  75,-2157 }, {  76,-2157 }, {  77,-2157 }, {  78,-2157 }, {  79,-2157 },
  {  80,-2157 }, {  81,-2157 }, {  82,-2157 }, {  83,-2157 }, {  84,-2157 },
  {  85,-2157 }, {  86,-2157 }, {  87,-2157 }, {  88,-2157 }, {  89,-2157 },
  {  90,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {  95,-2157 }, {   0,   0 }, {  97,-2157 }, {  98,-2157 }, {  99,-2157 },
  { 100,-2157 }, { 101,-2157 }, { 102,-2157 }, { 103,-2157 }, { 104,-2157 },
  { 105,-2157 }, { 106,-2157 }, { 107,-2157 }, { 108,-2157 }, { 109,-2157 },
  { 110,-2157 }, { 111,-2157 }, { 112,-2157 }, { 113,-2157 }, { 114,-2157 },
  { 115,-2157 }, { 116,-2157 }, { 117,-2157 }, { 118,-2157 }, { 119,-2157 },
+
  { 120,-2157 }, { 121,-2157 }, { 122,-2157 }, {   0,   0 }, { 124,-2182 },
  { 125,-2182 }, { 126,-2182 }, { 127,-2157 }, { 128,-2157 }, { 129,-2157 },
  { 130,-2157 }, { 131,-2157 }, { 132,-2157 }, { 133,-2157 }, { 134,-2157 },
  { 135,-2157 }, { 136,-2157 }, { 137,-2157 }, { 138,-2157 }, { 139,-2157 },
  { 140,-2157 }, { 141,-2157 }, { 142,-2157 }, { 143,-2157 }, { 144,-2157 },
-
  { 145,-2157 }, { 146,-2157 }, { 147,-2157 }, { 148,-2157 }, { 149,-2157 },
  { 150,-2157 }, { 151,-2157 }, { 152,-2157 }, { 153,-2157 }, { 154,-2157 },
  { 155,-2157 }, { 156,-2157 }, { 157,-2157 }, { 158,-2157 }, { 159,-2157 },
  { 160,-2157 }, { 161,-2157 }, { 162,-2157 }, { 163,-2157 }, { 164,-2157 },
  { 165,-2157 }, { 166,-2157 }, { 167,-2157 }, { 168,-2157 }, { 169,-2157 },
+
  { 170,-2157 }, { 171,-2157 }, { 172,-2157 }, { 173,-2157 }, { 174,-2157 },
  { 175,-2157 }, { 176,-2157 }, { 177,-2157 }, { 178,-2157 }, { 179,-2157 },
  { 180,-2157 }, { 181,-2157 }, { 182,-2157 }, { 183,-2157 }, { 184,-2157 },
  { 185,-2157 }, { 186,-2157 }, { 187,-2157 }, { 188,-2157 }, { 189,-2157 },
  { 190,-2157 }, { 191,-2157 }, { 192,-2157 }, { 193,-2157 }, { 194,-2157 },
-
  { 195,-2157 }, { 196,-2157 }, { 197,-2157 }, { 198,-2157 }, { 199,-2157 },
  { 200,-2157 }, { 201,-2157 }, { 202,-2157 }, { 203,-2157 }, { 204,-2157 },
  { 205,-2157 }, { 206,-2157 }, { 207,-2157 }, { 208,-2157 }, { 209,-2157 },
  { 210,-2157 }, { 211,-2157 }, { 212,-2157 }, { 213,-2157 }, { 214,-2157 },
  { 215,-2157 }, { 216,-2157 }, { 217,-2157 }, { 218,-2157 }, { 219,-2157 },
+
  { 220,-2157 }, { 221,-2157 }, { 222,-2157 }, { 223,-2157 }, { 224,-2157 },
  { 225,-2157 }, { 226,-2157 }, { 227,-2157 }, { 228,-2157 }, { 229,-2157 },
  { 230,-2157 }, { 231,-2157 }, { 232,-2157 }, { 233,-2157 }, { 234,-2157 },
  { 235,-2157 }, { 236,-2157 }, { 237,-2157 }, { 238,-2157 }, { 239,-2157 },
  { 240,-2157 }, { 241,-2157 }, { 242,-2157 }, { 243,-2157 }, { 244,-2157 },
-
  { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
  { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
  { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,10766 }, {   1,-2415 },
  {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
  {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
+
  {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
  {  17,-2415 }, {  18,-2415 }, {  19,-2415 }, {  20,-2415 }, {  21,-2415 },
  {  22,-2415 }, {  23,-2415 }, {  24,-2415 }, {  25,-2415 }, {  26,-2415 },
  {  27,-2415 }, {  28,-2415 }, {  29,-2415 }, {  30,-2415 }, {  31,-2415 },
  {  32,-2440 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-2415 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-2440 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2415 }, {  46,-2440 },
  {  47,-2440 }, {  48,-2415 }, {  49,-2415 }, {  50,-2415 }, {  51,-2415 },
  {  52,-2415 }, {  53,-2415 }, {  54,-2415 }, {  55,-2415 }, {  56,-2415 },
  {  57,-2415 }, {  58,-2415 }, {   0,   0 }, {   0,   0 }, {  61,-2440 },
+
  {   0,   0 }, {  63,-2415 }, {   0,   0 }, {  65,-2415 }, {  66,-2415 },
  {  67,-2415 }, {  68,-2415 }, {  69,-2415 }, {  70,-2415 }, {  71,-2415 },
  {  72,-2415 }, {  73,-2415 }, {  74,-2415 }, {  75,-2415 }, {  76,-2415 },
  {  77,-2415 }, {  78,-2415 }, {  79,-2415 }, {  80,-2415 }, {  81,-2415 },
  {  82,-2415 }, {  83,-2415 }, {  84,-2415 }, {  85,-2415 }, {  86,-2415 },
-
  {  87,-2415 }, {  88,-2415 }, {  89,-2415 }, {  90,-2415 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2415 }, {   0,   0 },
  {  97,-2415 }, {  98,-2415 }, {  99,-2415 }, { 100,-2415 }, { 101,-2415 },
  { 102,-2415 }, { 103,-2415 }, { 104,-2415 }, { 105,-2415 }, { 106,-2415 },
  { 107,-2415 }, { 108,3229 }, { 109,-2415 }, { 110,-2415 }, { 111,-2415 },
+
  { 112,-2415 }, { 113,-2415 }, { 114,-2415 }, { 115,-2415 }, { 116,-2415 },
  { 117,-2415 }, { 118,-2415 }, { 119,-2415 }, { 120,-2415 }, { 121,-2415 },
  { 122,-2415 }, {   0,   0 }, { 124,-2440 }, { 125,-2440 }, { 126,-2440 },
  { 127,-2415 }, { 128,-2415 }, { 129,-2415 }, { 130,-2415 }, { 131,-2415 },
  { 132,-2415 }, { 133,-2415 }, { 134,-2415 }, { 135,-2415 }, { 136,-2415 },
-
  { 137,-2415 }, { 138,-2415 }, { 139,-2415 }, { 140,-2415 }, { 141,-2415 },
  { 142,-2415 }, { 143,-2415 }, { 144,-2415 }, { 145,-2415 }, { 146,-2415 },
  { 147,-2415 }, { 148,-2415 }, { 149,-2415 }, { 150,-2415 }, { 151,-2415 },
  { 152,-2415 }, { 153,-2415 }, { 154,-2415 }, { 155,-2415 }, { 156,-2415 },
  { 157,-2415 }, { 158,-2415 }, { 159,-2415 }, { 160,-2415 }, { 161,-2415 },
+
  { 162,-2415 }, { 163,-2415 }, { 164,-2415 }, { 165,-2415 }, { 166,-2415 },
  { 167,-2415 }, { 168,-2415 }, { 169,-2415 }, { 170,-2415 }, { 171,-2415 },
  { 172,-2415 }, { 173,-2415 }, { 174,-2415 }, { 175,-2415 }, { 176,-2415 },
  { 177,-2415 }, { 178,-2415 }, { 179,-2415 }, { 180,-2415 }, { 181,-2415 },
  { 182,-2415 }, { 183,-2415 }, { 184,-2415 }, { 185,-2415 }, { 186,-2415 },
-
  { 187,-2415 }, { 188,-2415 }, { 189,-2415 }, { 190,-2415 }, { 191,-2415 },
  { 192,-2415 }, { 193,-2415 }, { 194,-2415 }, { 195,-2415 }, { 196,-2415 },
  { 197,-2415 }, { 198,-2415 }, { 199,-2415 }, { 200,-2415 }, { 201,-2415 },
  { 202,-2415 }, { 203,-2415 }, { 204,-2415 }, { 205,-2415 }, { 206,-2415 },
  { 207,-2415 }, { 208,-2415 }, { 209,-2415 }, { 210,-2415 }, { 211,-2415 },
+
  { 212,-2415 }, { 213,-2415 }, { 214,-2415 }, { 215,-2415 }, { 216,-2415 },
  { 217,-2415 }, { 218,-2415 }, { 219,-2415 }, { 220,-2415 }, { 221,-2415 },
  { 222,-2415 }, { 223,-2415 }, { 224,-2415 }, { 225,-2415 }, { 226,-2415 },
  { 227,-2415 }, { 228,-2415 }, { 229,-2415 }, { 230,-2415 }, { 231,-2415 },
  { 232,-2415 }, { 233,-2415 }, { 234,-2415 }, { 235,-2415 }, { 236,-2415 },
-
  { 237,-2415 }, { 238,-2415 }, { 239,-2415 }, { 240,-2415 }, { 241,-2415 },
  { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
  { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
  { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
  {   0,   0 }, {   0,10508 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
+
  {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
  {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
  {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
  {  19,-2673 }, {  20,-2673 }, {  21,-2673 }, {  22,-2673 }, {  23,-2673 },
  {  24,-2673 }, {  25,-2673 }, {  26,-2673 }, {  27,-2673 }, {  28,-2673 },
-
  {  29,-2673 }, {  30,-2673 }, {  31,-2673 }, {  32,-2698 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  36,-2673 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  41,-2698 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  45,-2673 }, {  46,-2698 }, {  47,-2698 }, {  48,-2673 },
  {  49,-2673 }, {  50,-2673 }, {  51,-2673 }, {  52,-2673 }, {  53,-2673 },
+
  {  54,-2673 }, {  55,-2673 }, {  56,-2673 }, {  57,-2673 }, {  58,-2673 },
  {   0,   0 }, {   0,   0 }, {  61,-2698 }, {   0,   0 }, {  63,-2673 },
  {   0,   0 }, {  65,-2673 }, {  66,-2673 }, {  67,-2673 }, {  68,-2673 },
  {  69,-2673 }, {  70,-2673 }, {  71,-2673 }, {  72,-2673 }, {  73,-2673 },
  {  74,-2673 }, {  75,-2673 }, {  76,-2673 }, {  77,-2673 }, {  78,-2673 },
-
  {  79,-2673 }, {  80,-2673 }, {  81,-2673 }, {  82,-2673 }, {  83,-2673 },
  {  84,-2673 }, {  85,-2673 }, {  86,-2673 }, {  87,-2673 }, {  88,-2673 },
  {  89,-2673 }, {  90,-2673 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-2673 }, {   0,   0 }, {  97,-2673 }, {  98,-2673 },
  {  99,-2673 }, { 100,-2673 }, { 101,-2673 }, { 102,-2673 }, { 103,-2673 },
+
  { 104,-2673 }, { 105,-2673 }, { 106,-2673 }, { 107,-2673 }, { 108,3229 },
  { 109,-2673 }, { 110,-2673 }, { 111,-2673 }, { 112,-2673 }, { 113,-2673 },
  { 114,-2673 }, { 115,-2673 }, { 116,-2673 }, { 117,-2673 }, { 118,-2673 },
  { 119,-2673 }, { 120,-2673 }, { 121,-2673 }, { 122,-2673 }, {   0,   0 },
  { 124,-2698 }, { 125,-2698 }, { 126,-2698 }, { 127,-2673 }, { 128,-2673 },
-
  { 129,-2673 }, { 130,-2673 }, { 131,-2673 }, { 132,-2673 }, { 133,-2673 },
  { 134,-2673 }, { 135,-2673 }, { 136,-2673 }, { 137,-2673 }, { 138,-2673 },
  { 139,-2673 }, { 140,-2673 }, { 141,-2673 }, { 142,-2673 }, { 143,-2673 },
  { 144,-2673 }, { 145,-2673 }, { 146,-2673 }, { 147,-2673 }, { 148,-2673 },
  { 149,-2673 }, { 150,-2673 }, { 151,-2673 }, { 152,-2673 }, { 153,-2673 },
+
  { 154,-2673 }, { 155,-2673 }, { 156,-2673 }, { 157,-2673 }, { 158,-2673 },
  { 159,-2673 }, { 160,-2673 }, { 161,-2673 }, { 162,-2673 }, { 163,-2673 },
  { 164,-2673 }, { 165,-2673 }, { 166,-2673 }, { 167,-2673 }, { 168,-2673 },
  { 169,-2673 }, { 170,-2673 }, { 171,-2673 }, { 172,-2673 }, { 173,-2673 },
  { 174,-2673 }, { 175,-2673 }, { 176,-2673 }, { 177,-2673 }, { 178,-2673 },
-
  { 179,-2673 }, { 180,-2673 }, { 181,-2673 }, { 182,-2673 }, { 183,-2673 },
  { 184,-2673 }, { 185,-2673 }, { 186,-2673 }, { 187,-2673 }, { 188,-2673 },
  { 189,-2673 }, { 190,-2673 }, { 191,-2673 }, { 192,-2673 }, { 193,-2673 },
  { 194,-2673 }, { 195,-2673 }, { 196,-2673 }, { 197,-2673 }, { 198,-2673 },
  { 199,-2673 }, { 200,-2673 }, { 201,-2673 }, { 202,-2673 }, { 203,-2673 },
+
  { 204,-2673 }, { 205,-2673 }, { 206,-2673 }, { 207,-2673 }, { 208,-2673 },
  { 209,-2673 }, { 210,-2673 }, { 211,-2673 }, { 212,-2673 }, { 213,-2673 },
  { 214,-2673 }, { 215,-2673 }, { 216,-2673 }, { 217,-2673 }, { 218,-2673 },
  { 219,-2673 }, { 220,-2673 }, { 221,-2673 }, { 222,-2673 }, { 223,-2673 },
  { 224,-2673 }, { 225,-2673 }, { 226,-2673 }, { 227,-2673 }, { 228,-2673 },
-
  { 229,-2673 }, { 230,-2673 }, { 231,-2673 }, { 232,-2673 }, { 233,-2673 },
  { 234,-2673 }, { 235,-2673 }, { 236,-2673 }, { 237,-2673 }, { 238,-2673 },
  { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
  { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
  { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
+
  { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,10250 },
  {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
  {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
  {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
  {  16,-2931 }, {  17,-2931 }, {  18,-2931 }, {  19,-2931 }, {  20,-2931 },
-
  {  21,-2931 }, {  22,-2931 }, {  23,-2931 }, {  24,-2931 }, {  25,-2931 },
  {  26,-2931 }, {  27,-2931 }, {  28,-2931 }, {  29,-2931 }, {  30,-2931 },
  {  31,-2931 }, {  32,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  36,-2931 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2931 },
+
  {  46,-2956 }, {  47,-2956 }, {  48,-2931 }, {  49,-2931 }, {  50,-2931 },
  {  51,-2931 }, {  52,-2931 }, {  53,-2931 }, {  54,-2931 }, {  55,-2931 },
  {  56,-2931 }, {  57,-2931 }, {  58,-2931 }, {   0,   0 }, {   0,   0 },
  {  61,-2956 }, {   0,   0 }, {  63,-2931 }, {   0,   0 }, {  65,-2931 },
  {  66,-2931 }, {  67,-2931 }, {  68,-2931 }, {  69,-2931 }, {  70,-2931 },
-
  {  71,-2931 }, {  72,-2931 }, {  73,-2931 }, {  74,-2931 }, {  75,-2931 },
  {  76,-2931 }, {  77,-2931 }, {  78,-2931 }, {  79,-2931 }, {  80,-2931 },
  {  81,-2931 }, {  82,-2931 }, {  83,-2931 }, {  84,-2931 }, {  85,-2931 },
  {  86,-2931 }, {  87,-2931 }, {  88,-2931 }, {  89,-2931 }, {  90,-2931 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2931 },
+
  {   0,   0 }, {  97,-2931 }, {  98,-2931 }, {  99,-2931 }, { 100,-2931 },
  { 101,-2931 }, { 102,-2931 }, { 103,-2931 }, { 104,-2931 }, { 105,-2931 },
  { 106,-2931 }, { 107,-2931 }, { 108,-2931 }, { 109,-2931 }, { 110,-2931 },
  { 111,-2931 }, { 112,-2931 }, { 113,-2931 }, { 114,-2931 }, { 115,-2931 },
  { 116,-2931 }, { 117,3229 }, { 118,-2931 }, { 119,-2931 }, { 120,-2931 },
-
  { 121,-2931 }, { 122,-2931 }, {   0,   0 }, { 124,-2956 }, { 125,-2956 },
  { 126,-2956 }, { 127,-2931 }, { 128,-2931 }, { 129,-2931 }, { 130,-2931 },
  { 131,-2931 }, { 132,-2931 }, { 133,-2931 }, { 134,-2931 }, { 135,-2931 },
  { 136,-2931 }, { 137,-2931 }, { 138,-2931 }, { 139,-2931 }, { 140,-2931 },
  { 141,-2931 }, { 142,-2931 }, { 143,-2931 }, { 144,-2931 }, { 145,-2931 },
+
  { 146,-2931 }, { 147,-2931 }, { 148,-2931 }, { 149,-2931 }, { 150,-2931 },
  { 151,-2931 }, { 152,-2931 }, { 153,-2931 }, { 154,-2931 }, { 155,-2931 },
  { 156,-2931 }, { 157,-2931 }, { 158,-2931 }, { 159,-2931 }, { 160,-2931 },
  { 161,-2931 }, { 162,-2931 }, { 163,-2931 }, { 164,-2931 }, { 165,-2931 },
  { 166,-2931 }, { 167,-2931 }, { 168,-2931 }, { 169,-2931 }, { 170,-2931 },
-
  { 171,-2931 }, { 172,-2931 }, { 173,-2931 }, { 174,-2931 }, { 175,-2931 },
  { 176,-2931 }, { 177,-2931 }, { 178,-2931 }, { 179,-2931 }, { 180,-2931 },
  { 181,-2931 }, { 182,-2931 }, { 183,-2931 }, { 184,-2931 }, { 185,-2931 },
  { 186,-2931 }, { 187,-2931 }, { 188,-2931 }, { 189,-2931 }, { 190,-2931 },
  { 191,-2931 }, { 192,-2931 }, { 193,-2931 }, { 194,-2931 }, { 195,-2931 },
+
  { 196,-2931 }, { 197,-2931 }, { 198,-2931 }, { 199,-2931 }, { 200,-2931 },
  { 201,-2931 }, { 202,-2931 }, { 203,-2931 }, { 204,-2931 }, { 205,-2931 },
  { 206,-2931 }, { 207,-2931 }, { 208,-2931 }, { 209,-2931 }, { 210,-2931 },
  { 211,-2931 }, { 212,-2931 }, { 213,-2931 }, { 214,-2931 }, { 215,-2931 },
  { 216,-2931 }, { 217,-2931 }, { 218,-2931 }, { 219,-2931 }, { 220,-2931 },
-
  { 221,-2931 }, { 222,-2931 }, { 223,-2931 }, { 224,-2931 }, { 225,-2931 },
  { 226,-2931 }, { 227,-2931 }, { 228,-2931 }, { 229,-2931 }, { 230,-2931 },
  { 231,-2931 }, { 232,-2931 }, { 233,-2931 }, { 234,-2931 }, { 235,-2931 },
  { 236,-2931 }, { 237,-2931 }, { 238,-2931 }, { 239,-2931 }, { 240,-2931 },
  { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
+
  { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
  { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
  { 256,-2931 }, {   0,   0 }, {   0,9992 }, {   1,-3189 }, {   2,-3189 },
  {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
  {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
-
  {  13,-3214 }, {  14,-3189 }, {  15,-3189 }, {  16,-3189 }, {  17,-3189 },
  {  18,-3189 }, {  19,-3189 }, {  20,-3189 }, {  21,-3189 }, {  22,-3189 },
  {  23,-3189 }, {  24,-3189 }, {  25,-3189 }, {  26,-3189 }, {  27,-3189 },
  {  28,-3189 }, {  29,-3189 }, {  30,-3189 }, {  31,-3189 }, {  32,-3214 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-3189 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-3214 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-3189 }, {  46,-3214 }, {  47,-3214 },
  {  48,-3189 }, {  49,-3189 }, {  50,-3189 }, {  51,-3189 }, {  52,-3189 },
  {  53,-3189 }, {  54,-3189 }, {  55,-3189 }, {  56,-3189 }, {  57,-3189 },
  {  58,-3189 }, {   0,   0 }, {   0,   0 }, {  61,-3214 }, {   0,   0 },
-
  {  63,-3189 }, {   0,   0 }, {  65,-3189 }, {  66,-3189 }, {  67,-3189 },
  {  68,-3189 }, {  69,-3189 }, {  70,-3189 }, {  71,-3189 }, {  72,-3189 },
  {  73,-3189 }, {  74,-3189 }, {  75,-3189 }, {  76,-3189 }, {  77,-3189 },
  {  78,-3189 }, {  79,-3189 }, {  80,-3189 }, {  81,-3189 }, {  82,-3189 },
  {  83,-3189 }, {  84,-3189 }, {  85,-3189 }, {  86,-3189 }, {  87,-3189 },
+
  {  88,-3189 }, {  89,-3189 }, {  90,-3189 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  95,-3189 }, {   0,   0 }, {  97,-3189 },
  {  98,-3189 }, {  99,-3189 }, { 100,3229 }, { 101,-3189 }, { 102,-3189 },
  { 103,-3189 }, { 104,-3189 }, { 105,-3189 }, { 106,-3189 }, { 107,-3189 },
  { 108,-3189 }, { 109,-3189 }, { 110,-3189 }, { 111,-3189 }, { 112,-3189 },
-
  { 113,-3189 }, { 114,-3189 }, { 115,-3189 }, { 116,-3189 }, { 117,-3189 },
  { 118,-3189 }, { 119,-3189 }, { 120,-3189 }, { 121,-3189 }, { 122,-3189 },
  {   0,   0 }, { 124,-3214 }, { 125,-3214 }, { 126,-3214 }, { 127,-3189 },
  { 128,-3189 }, { 129,-3189 }, { 130,-3189 }, { 131,-3189 }, { 132,-3189 },
  { 133,-3189 }, { 134,-3189 }, { 135,-3189 }, { 136,-3189 }, { 137,-3189 },
+
  { 138,-3189 }, { 139,-3189 }, { 140,-3189 }, { 141,-3189 }, { 142,-3189 },
  { 143,-3189 }, { 144,-3189 }, { 145,-3189 }, { 146,-3189 }, { 147,-3189 },
  { 148,-3189 }, { 149,-3189 }, { 150,-3189 }, { 151,-3189 }, { 152,-3189 },
  { 153,-3189 }, { 154,-3189 }, { 155,-3189 }, { 156,-3189 }, { 157,-3189 },
  { 158,-3189 }, { 159,-3189 }, { 160,-3189 }, { 161,-3189 }, { 162,-3189 },
-
  { 163,-3189 }, { 164,-3189 }, { 165,-3189 }, { 166,-3189 }, { 167,-3189 },
  { 168,-3189 }, { 169,-3189 }, { 170,-3189 }, { 171,-3189 }, { 172,-3189 },
  { 173,-3189 }, { 174,-3189 }, { 175,-3189 }, { 176,-3189 }, { 177,-3189 },
  { 178,-3189 }, { 179,-3189 }, { 180,-3189 }, { 181,-3189 }, { 182,-3189 },
  { 183,-3189 }, { 184,-3189 }, { 185,-3189 }, { 186,-3189 }, { 187,-3189 },
+
  { 188,-3189 }, { 189,-3189 }, { 190,-3189 }, { 191,-3189 }, { 192,-3189 },
  { 193,-3189 }, { 194,-3189 }, { 195,-3189 }, { 196,-3189 }, { 197,-3189 },
  { 198,-3189 }, { 199,-3189 }, { 200,-3189 }, { 201,-3189 }, { 202,-3189 },
  { 203,-3189 }, { 204,-3189 }, { 205,-3189 }, { 206,-3189 }, { 207,-3189 },
  { 208,-3189 }, { 209,-3189 }, { 210,-3189 }, { 211,-3189 }, { 212,-3189 },
-
  { 213,-3189 }, { 214,-3189 }, { 215,-3189 }, { 216,-3189 }, { 217,-3189 },
  { 218,-3189 }, { 219,-3189 }, { 220,-3189 }, { 221,-3189 }, { 222,-3189 },
  { 223,-3189 }, { 224,-3189 }, { 225,-3189 }, { 226,-3189 }, { 227,-3189 },
  { 228,-3189 }, { 229,-3189 }, { 230,-3189 }, { 231,-3189 }, { 232,-3189 },
  { 233,-3189 }, { 234,-3189 }, { 235,-3189 }, { 236,-3189 }, { 237,-3189 },
+
  { 238,-3189 }, { 239,-3189 }, { 240,-3189 }, { 241,-3189 }, { 242,-3189 },
  { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
  { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
- { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  30 },
- {   0,9734 }, {   0,  37 }, {   0,9732 }, {   0,   0 }, {   0,9730 },
-
+ { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  31 },
+ {   0,9734 }, {   0,  38 }, {   0,9732 }, {   0,   0 }, {   0,9730 },
  {   0,   0 }, {   0,9728 }, {   0,   0 }, {   0,9726 }, {   9,3229 },
  {  10,3229 }, {   0,  13 }, {   0,9722 }, {  13,3229 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {  32,3229 }, {  33,1813 }, {   0,   0 },
  {  35,1815 }, {   0,   0 }, {   0,   0 }, {  38,1817 }, {   0,   0 },
  {   0,   0 }, {  33,3371 }, {  42,1819 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  47,1823 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  62,1826 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,3231 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 101,3233 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,3235 }, {   0,   0 },
  {   0,   0 }, { 126,3237 }, { 125,3247 }, {   0,   0 }, { 125,3248 },
+
  {   0,   0 }, { 125,3248 }, {   0,   0 }, {   0,   0 }, { 126,3248 },
  {   0,   0 }, {   0,9598 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
-
  {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
  {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
  {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
  {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
  {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
+
  {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
  {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
  {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
-
  {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
  {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
  {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
  {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
  {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
+
  {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
  {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
  { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
  { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
  { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
-
  { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
  { 124,   0 }, { 125, 258 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
  { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
  { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
  { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
+
  { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
  { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
  { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
  { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
  { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
-
  { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
  { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
  { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
  { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
  { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
+
  { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
  { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
  { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
  { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
  { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
-
  { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
  { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
  { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
  { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
+
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
  { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,9340 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
-
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
  {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
  {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
  {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
  {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
+
  {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
  {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 },
  {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
  {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
  {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
-
  {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
  {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
  {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
  {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
  {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
+
  {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
  {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
  {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
  { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
  { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
-
  { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
  { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
  { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-382 },
  { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
  { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
+
  { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
  { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
  { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
  { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
  { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
-
  { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
  { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
  { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
  { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
  { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
+
  { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
  { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
  { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
  { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
  { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
-
  { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
  { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
  { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
  { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
  { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
+
  { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
  { 256,-258 }, {   0,  10 }, {   0,9082 }, {   1,   0 }, {   2,   0 },
-
  {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
  {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
  {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
  {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
  {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
+
  {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
  {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
  {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
  {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
  {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
-
  {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
  {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
  {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
  {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
  {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
+
  {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
  {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
  {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
  {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
  {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
-
  { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
  { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
  { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
  { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
  {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
+
  { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
  { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
  { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
  { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
  { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
-
  { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
  { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
  { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
  { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
  { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
+
  { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
  { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
  { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
  { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
  { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
-
  { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
  { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
  { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
  { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
  { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
+
  { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
  { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
  { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
  { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
  { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
-
  { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,8825 },
  {   0,   0 }, {   0,8823 }, {   0,   0 }, {   0,8821 }, {   0,   5 },
  {   0,8819 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,  48 }, {   0,8728 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,  49 }, {   0,8728 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, { 123,2728 }, {   0,   0 }, { 123,2728 },
  {   0,   0 }, { 123,2728 }, {   0,   4 }, {   0,8696 }, {   1,2728 },
  {   2,2728 }, {   3,2728 }, {   4,2728 }, {   5,2728 }, {   6,2728 },
  {   7,2728 }, {   8,2728 }, {   9,2728 }, {  10,2605 }, {  11,2728 },
  {  12,2728 }, {  13,2605 }, {  14,2728 }, {  15,2728 }, {  16,2728 },
-
  {  17,2728 }, {  18,2728 }, {  19,2728 }, {  20,2728 }, {  21,2728 },
  {  22,2728 }, {  23,2728 }, {  24,2728 }, {  25,2728 }, {  26,2728 },
  {  27,2728 }, {  28,2728 }, {  29,2728 }, {  30,2728 }, {  31,2728 },
  {  32,2728 }, {  33,2728 }, {  34,2728 }, {  35,2728 }, {  36,2728 },
  {  37,2728 }, {  38,2728 }, {  39,2728 }, {  40,2728 }, {  41,2728 },
+
  {  42,2728 }, {  43,2728 }, {  44,2728 }, {  45,2728 }, {  46,2728 },
  {  47,2728 }, {  48,2728 }, {  49,2728 }, {  50,2728 }, {  51,2728 },
  {  52,2728 }, {  53,2728 }, {  54,2728 }, {  55,2728 }, {  56,2728 },
  {  57,2728 }, {  58,2728 }, {  59,2728 }, {  60,2728 }, {  61,2728 },
  {  62,2728 }, {  63,2728 }, {  64,2728 }, {  65,2728 }, {  66,2728 },
-
  {  67,2728 }, {  68,2728 }, {  69,2728 }, {  70,2728 }, {  71,2728 },
  {  72,2728 }, {  73,2728 }, {  74,2728 }, {  75,2728 }, {  76,2728 },
  {  77,2728 }, {  78,2728 }, {  79,2728 }, {  80,2728 }, {  81,2728 },
  {  82,2728 }, {  83,2728 }, {  84,2728 }, {  85,2728 }, {  86,2728 },
  {  87,2728 }, {  88,2728 }, {  89,2728 }, {  90,2728 }, {  91,2728 },
+
  { 124,2641 }, {  93,2728 }, {  94,2728 }, {  95,2728 }, {  96,2728 },
  {  97,2728 }, {  98,2728 }, {  99,2728 }, { 100,2728 }, { 101,2728 },
  { 102,2728 }, { 103,2728 }, { 104,2728 }, { 105,2728 }, { 106,2728 },
  { 107,2728 }, { 108,2728 }, { 109,2728 }, { 110,2728 }, { 111,2728 },
  { 112,2728 }, { 113,2728 }, { 114,2728 }, { 115,2728 }, { 116,2728 },
-
  { 117,2728 }, { 118,2728 }, { 119,2728 }, { 120,2728 }, { 121,2728 },
  { 122,2728 }, { 123,2985 }, { 124,2728 }, { 125,2728 }, { 126,2728 },
  { 127,2728 }, { 128,2728 }, { 129,2728 }, { 130,2728 }, { 131,2728 },
  { 132,2728 }, { 133,2728 }, { 134,2728 }, { 135,2728 }, { 136,2728 },
  { 137,2728 }, { 138,2728 }, { 139,2728 }, { 140,2728 }, { 141,2728 },
+
  { 142,2728 }, { 143,2728 }, { 144,2728 }, { 145,2728 }, { 146,2728 },
  { 147,2728 }, { 148,2728 }, { 149,2728 }, { 150,2728 }, { 151,2728 },
  { 152,2728 }, { 153,2728 }, { 154,2728 }, { 155,2728 }, { 156,2728 },
  { 157,2728 }, { 158,2728 }, { 159,2728 }, { 160,2728 }, { 161,2728 },
  { 162,2728 }, { 163,2728 }, { 164,2728 }, { 165,2728 }, { 166,2728 },
-
  { 167,2728 }, { 168,2728 }, { 169,2728 }, { 170,2728 }, { 171,2728 },
  { 172,2728 }, { 173,2728 }, { 174,2728 }, { 175,2728 }, { 176,2728 },
  { 177,2728 }, { 178,2728 }, { 179,2728 }, { 180,2728 }, { 181,2728 },
  { 182,2728 }, { 183,2728 }, { 184,2728 }, { 185,2728 }, { 186,2728 },
  { 187,2728 }, { 188,2728 }, { 189,2728 }, { 190,2728 }, { 191,2728 },
+
  { 192,2728 }, { 193,2728 }, { 194,2728 }, { 195,2728 }, { 196,2728 },
  { 197,2728 }, { 198,2728 }, { 199,2728 }, { 200,2728 }, { 201,2728 },
  { 202,2728 }, { 203,2728 }, { 204,2728 }, { 205,2728 }, { 206,2728 },
  { 207,2728 }, { 208,2728 }, { 209,2728 }, { 210,2728 }, { 211,2728 },
  { 212,2728 }, { 213,2728 }, { 214,2728 }, { 215,2728 }, { 216,2728 },
-
  { 217,2728 }, { 218,2728 }, { 219,2728 }, { 220,2728 }, { 221,2728 },
  { 222,2728 }, { 223,2728 }, { 224,2728 }, { 225,2728 }, { 226,2728 },
  { 227,2728 }, { 228,2728 }, { 229,2728 }, { 230,2728 }, { 231,2728 },
  { 232,2728 }, { 233,2728 }, { 234,2728 }, { 235,2728 }, { 236,2728 },
  { 237,2728 }, { 238,2728 }, { 239,2728 }, { 240,2728 }, { 241,2728 },
+
  { 242,2728 }, { 243,2728 }, { 244,2728 }, { 245,2728 }, { 246,2728 },
  { 247,2728 }, { 248,2728 }, { 249,2728 }, { 250,2728 }, { 251,2728 },
- { 252,2728 }, { 253,2728 }, { 254,2728 }, { 255,2728 }, {   0,  38 },
+ { 252,2728 }, { 253,2728 }, { 254,2728 }, { 255,2728 }, {   0,  39 },
  {   0,8439 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
  {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
-
  {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
  {  15,-4450 }, {  16,-4450 }, {  17,-4450 }, {  18,-4450 }, {  19,-4450 },
  {  20,-4450 }, {  21,-4450 }, {  22,-4450 }, {  23,-4450 }, {  24,-4450 },
  {  25,-4450 }, {  26,-4450 }, {  27,-4450 }, {  28,-4450 }, {  29,-4450 },
  {  30,-4450 }, {  31,-4450 }, {  32,-4450 }, {  33,-4450 }, {  34,-4482 },
+
  {  35,-4450 }, {  36,-4450 }, {  37,-4450 }, {  38,-4450 }, {  39,-4450 },
  {  40,-4450 }, {  41,-4450 }, {  42,-4450 }, {  43,-4450 }, {  44,-4450 },
  {  45,-4450 }, {  46,-4450 }, {  47,-4450 }, {  48,-4450 }, {  49,-4450 },
  {  50,-4450 }, {  51,-4450 }, {  52,-4450 }, {  53,-4450 }, {  54,-4450 },
  {  55,-4450 }, {  56,-4450 }, {  57,-4450 }, {  58,-4450 }, {  59,-4450 },
-
  {  60,-4450 }, {  61,-4450 }, {  62,-4450 }, {  63,-4450 }, {  64,-4450 },
  {  65,-4450 }, {  66,-4450 }, {  67,-4450 }, {  68,-4450 }, {  69,-4450 },
  {  70,-4450 }, {  71,-4450 }, {  72,-4450 }, {  73,-4450 }, {  74,-4450 },
  {  75,-4450 }, {  76,-4450 }, {  77,-4450 }, {  78,-4450 }, {  79,-4450 },
  {  80,-4450 }, {  81,-4450 }, {  82,-4450 }, {  83,-4450 }, {  84,-4450 },
+
  {  85,-4450 }, {  86,-4450 }, {  87,-4450 }, {  88,-4450 }, {  89,-4450 },
  {  90,-4450 }, {  91,-4450 }, {  92,-4192 }, {  93,-4450 }, {  94,-4450 },
  {  95,-4450 }, {  96,-4450 }, {  97,-4450 }, {  98,-4450 }, {  99,-4450 },
  { 100,-4450 }, { 101,-4450 }, { 102,-4450 }, { 103,-4450 }, { 104,-4450 },
  { 105,-4450 }, { 106,-4450 }, { 107,-4450 }, { 108,-4450 }, { 109,-4450 },
-
  { 110,-4450 }, { 111,-4450 }, { 112,-4450 }, { 113,-4450 }, { 114,-4450 },
  { 115,-4450 }, { 116,-4450 }, { 117,-4450 }, { 118,-4450 }, { 119,-4450 },
  { 120,-4450 }, { 121,-4450 }, { 122,-4450 }, { 123,-4450 }, { 124,-4450 },
  { 125,-4450 }, { 126,-4450 }, { 127,-4450 }, { 128,-4450 }, { 129,-4450 },
  { 130,-4450 }, { 131,-4450 }, { 132,-4450 }, { 133,-4450 }, { 134,-4450 },
+
  { 135,-4450 }, { 136,-4450 }, { 137,-4450 }, { 138,-4450 }, { 139,-4450 },
  { 140,-4450 }, { 141,-4450 }, { 142,-4450 }, { 143,-4450 }, { 144,-4450 },
  { 145,-4450 }, { 146,-4450 }, { 147,-4450 }, { 148,-4450 }, { 149,-4450 },
  { 150,-4450 }, { 151,-4450 }, { 152,-4450 }, { 153,-4450 }, { 154,-4450 },
  { 155,-4450 }, { 156,-4450 }, { 157,-4450 }, { 158,-4450 }, { 159,-4450 },
-
  { 160,-4450 }, { 161,-4450 }, { 162,-4450 }, { 163,-4450 }, { 164,-4450 },
  { 165,-4450 }, { 166,-4450 }, { 167,-4450 }, { 168,-4450 }, { 169,-4450 },
  { 170,-4450 }, { 171,-4450 }, { 172,-4450 }, { 173,-4450 }, { 174,-4450 },
  { 175,-4450 }, { 176,-4450 }, { 177,-4450 }, { 178,-4450 }, { 179,-4450 },
  { 180,-4450 }, { 181,-4450 }, { 182,-4450 }, { 183,-4450 }, { 184,-4450 },
+
  { 185,-4450 }, { 186,-4450 }, { 187,-4450 }, { 188,-4450 }, { 189,-4450 },
  { 190,-4450 }, { 191,-4450 }, { 192,-4450 }, { 193,-4450 }, { 194,-4450 },
  { 195,-4450 }, { 196,-4450 }, { 197,-4450 }, { 198,-4450 }, { 199,-4450 },
  { 200,-4450 }, { 201,-4450 }, { 202,-4450 }, { 203,-4450 }, { 204,-4450 },
  { 205,-4450 }, { 206,-4450 }, { 207,-4450 }, { 208,-4450 }, { 209,-4450 },
-
  { 210,-4450 }, { 211,-4450 }, { 212,-4450 }, { 213,-4450 }, { 214,-4450 },
  { 215,-4450 }, { 216,-4450 }, { 217,-4450 }, { 218,-4450 }, { 219,-4450 },
  { 220,-4450 }, { 221,-4450 }, { 222,-4450 }, { 223,-4450 }, { 224,-4450 },
  { 225,-4450 }, { 226,-4450 }, { 227,-4450 }, { 228,-4450 }, { 229,-4450 },
  { 230,-4450 }, { 231,-4450 }, { 232,-4450 }, { 233,-4450 }, { 234,-4450 },
+
  { 235,-4450 }, { 236,-4450 }, { 237,-4450 }, { 238,-4450 }, { 239,-4450 },
  { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
  { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
  { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  39 }, {   0,8181 }, {   1,-4192 },
-
+ { 255,-4450 }, { 256,-4450 }, {   0,  40 }, {   0,8181 }, {   1,-4192 },
  {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
  {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
  {  12,-4192 }, {  13,-4192 }, {  14,-4192 }, {  15,-4192 }, {  16,-4192 },
  {  17,-4192 }, {  18,-4192 }, {  19,-4192 }, {  20,-4192 }, {  21,-4192 },
  {  22,-4192 }, {  23,-4192 }, {  24,-4192 }, {  25,-4192 }, {  26,-4192 },
+
  {  27,-4192 }, {  28,-4192 }, {  29,-4192 }, {  30,-4192 }, {  31,-4192 },
  {  32,-4192 }, {  33,-4192 }, {  34,-4192 }, {  35,-4192 }, {  36,-4192 },
  {  37,-4192 }, {  38,-4192 }, {  39,-4738 }, {  40,-4192 }, {  41,-4192 },
  {  42,-4192 }, {  43,-4192 }, {  44,-4192 }, {  45,-4192 }, {  46,-4192 },
  {  47,-4192 }, {  48,-4192 }, {  49,-4192 }, {  50,-4192 }, {  51,-4192 },
-
  {  52,-4192 }, {  53,-4192 }, {  54,-4192 }, {  55,-4192 }, {  56,-4192 },
  {  57,-4192 }, {  58,-4192 }, {  59,-4192 }, {  60,-4192 }, {  61,-4192 },
  {  62,-4192 }, {  63,-4192 }, {  64,-4192 }, {  65,-4192 }, {  66,-4192 },
  {  67,-4192 }, {  68,-4192 }, {  69,-4192 }, {  70,-4192 }, {  71,-4192 },
  {  72,-4192 }, {  73,-4192 }, {  74,-4192 }, {  75,-4192 }, {  76,-4192 },
+
  {  77,-4192 }, {  78,-4192 }, {  79,-4192 }, {  80,-4192 }, {  81,-4192 },
  {  82,-4192 }, {  83,-4192 }, {  84,-4192 }, {  85,-4192 }, {  86,-4192 },
  {  87,-4192 }, {  88,-4192 }, {  89,-4192 }, {  90,-4192 }, {  91,-4192 },
  {  92,-3934 }, {  93,-4192 }, {  94,-4192 }, {  95,-4192 }, {  96,-4192 },
  {  97,-4192 }, {  98,-4192 }, {  99,-4192 }, { 100,-4192 }, { 101,-4192 },
-
  { 102,-4192 }, { 103,-4192 }, { 104,-4192 }, { 105,-4192 }, { 106,-4192 },
  { 107,-4192 }, { 108,-4192 }, { 109,-4192 }, { 110,-4192 }, { 111,-4192 },
  { 112,-4192 }, { 113,-4192 }, { 114,-4192 }, { 115,-4192 }, { 116,-4192 },
  { 117,-4192 }, { 118,-4192 }, { 119,-4192 }, { 120,-4192 }, { 121,-4192 },
  { 122,-4192 }, { 123,-4192 }, { 124,-4192 }, { 125,-4192 }, { 126,-4192 },
+
  { 127,-4192 }, { 128,-4192 }, { 129,-4192 }, { 130,-4192 }, { 131,-4192 },
  { 132,-4192 }, { 133,-4192 }, { 134,-4192 }, { 135,-4192 }, { 136,-4192 },
  { 137,-4192 }, { 138,-4192 }, { 139,-4192 }, { 140,-4192 }, { 141,-4192 },
  { 142,-4192 }, { 143,-4192 }, { 144,-4192 }, { 145,-4192 }, { 146,-4192 },
  { 147,-4192 }, { 148,-4192 }, { 149,-4192 }, { 150,-4192 }, { 151,-4192 },
-
  { 152,-4192 }, { 153,-4192 }, { 154,-4192 }, { 155,-4192 }, { 156,-4192 },
  { 157,-4192 }, { 158,-4192 }, { 159,-4192 }, { 160,-4192 }, { 161,-4192 },
  { 162,-4192 }, { 163,-4192 }, { 164,-4192 }, { 165,-4192 }, { 166,-4192 },
  { 167,-4192 }, { 168,-4192 }, { 169,-4192 }, { 170,-4192 }, { 171,-4192 },
  { 172,-4192 }, { 173,-4192 }, { 174,-4192 }, { 175,-4192 }, { 176,-4192 },
+
  { 177,-4192 }, { 178,-4192 }, { 179,-4192 }, { 180,-4192 }, { 181,-4192 },
  { 182,-4192 }, { 183,-4192 }, { 184,-4192 }, { 185,-4192 }, { 186,-4192 },
  { 187,-4192 }, { 188,-4192 }, { 189,-4192 }, { 190,-4192 }, { 191,-4192 },
  { 192,-4192 }, { 193,-4192 }, { 194,-4192 }, { 195,-4192 }, { 196,-4192 },
  { 197,-4192 }, { 198,-4192 }, { 199,-4192 }, { 200,-4192 }, { 201,-4192 },
-
  { 202,-4192 }, { 203,-4192 }, { 204,-4192 }, { 205,-4192 }, { 206,-4192 },
  { 207,-4192 }, { 208,-4192 }, { 209,-4192 }, { 210,-4192 }, { 211,-4192 },
  { 212,-4192 }, { 213,-4192 }, { 214,-4192 }, { 215,-4192 }, { 216,-4192 },
  { 217,-4192 }, { 218,-4192 }, { 219,-4192 }, { 220,-4192 }, { 221,-4192 },
  { 222,-4192 }, { 223,-4192 }, { 224,-4192 }, { 225,-4192 }, { 226,-4192 },
+
  { 227,-4192 }, { 228,-4192 }, { 229,-4192 }, { 230,-4192 }, { 231,-4192 },
  { 232,-4192 }, { 233,-4192 }, { 234,-4192 }, { 235,-4192 }, { 236,-4192 },
  { 237,-4192 }, { 238,-4192 }, { 239,-4192 }, { 240,-4192 }, { 241,-4192 },
  { 242,-4192 }, { 243,-4192 }, { 244,-4192 }, { 245,-4192 }, { 246,-4192 },
  { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
-
  { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,7923 }, {   0,  29 }, {   0,7921 }, {   0,  20 },
- {   0,7919 }, {   0,  27 }, {   0,7917 }, {   0,  30 }, {   0,7915 },
- {   9,1834 }, {  10,1834 }, {   0,  21 }, {   0,7911 }, {  13,1834 },
- {   0,  18 }, {   0,7908 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,7923 }, {   0,  30 }, {   0,7921 }, {   0,  21 },
+ {   0,7919 }, {   0,  28 }, {   0,7917 }, {   0,  31 }, {   0,7915 },
+ {   9,1834 }, {  10,1834 }, {   0,  22 }, {   0,7911 }, {  13,1834 },
+ {   0,  19 }, {   0,7908 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1834 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  41,1834 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {  42,1836 }, {  45,1836 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  62,1840 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1834 }, { 126,1834 }, {   0,  49 }, {   0,7795 },
+ {   0,   0 }, { 125,1834 }, { 126,1834 }, {   0,  50 }, {   0,7795 },
  {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
  {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
  {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
-
  {  16,-3745 }, {  17,-3745 }, {  18,-3745 }, {  19,-3745 }, {  20,-3745 },
  {  21,-3745 }, {  22,-3745 }, {  23,-3745 }, {  24,-3745 }, {  25,-3745 },
  {  26,-3745 }, {  27,-3745 }, {  28,-3745 }, {  29,-3745 }, {  30,-3745 },
  {  31,-3745 }, {  32,-3745 }, {  33,-3745 }, {  34,-3745 }, {  35,-3745 },
  {  36,-3745 }, {  37,-3745 }, {  38,-3745 }, {  39,-3745 }, {  40,-3745 },
+
  {  41,-3745 }, {  42,-3745 }, {  43,-3745 }, {  44,-3745 }, {  45,-3745 },
  {  46,-3745 }, {  47,-3745 }, {  48,-3745 }, {  49,-3745 }, {  50,-3745 },
  {  51,-3745 }, {  52,-3745 }, {  53,-3745 }, {  54,-3745 }, {  55,-3745 },
  {  56,-3745 }, {  57,-3745 }, {  58,-3745 }, {  59,-3745 }, {  60,-3745 },
  {  61,-3745 }, {  62,-3745 }, {  63,-3745 }, {  64,-3745 }, {  65,-3745 },
-
  {  66,-3745 }, {  67,-3745 }, {  68,-3745 }, {  69,-3745 }, {  70,-3745 },
  {  71,-3745 }, {  72,-3745 }, {  73,-3745 }, {  74,-3745 }, {  75,-3745 },
  {  76,-3745 }, {  77,-3745 }, {  78,-3745 }, {  79,-3745 }, {  80,-3745 },
  {  81,-3745 }, {  82,-3745 }, {  83,-3745 }, {  84,-3745 }, {  85,-3745 },
  {  86,-3745 }, {  87,-3745 }, {  88,-3745 }, {  89,-3745 }, {  90,-3745 },
+
  {  91,-3745 }, {  92,-3487 }, {  93,-5113 }, {  94,-3745 }, {  95,-3745 },
  {  96,-3745 }, {  97,-3745 }, {  98,-3745 }, {  99,-3745 }, { 100,-3745 },
  { 101,-3745 }, { 102,-3745 }, { 103,-3745 }, { 104,-3745 }, { 105,-3745 },
  { 106,-3745 }, { 107,-3745 }, { 108,-3745 }, { 109,-3745 }, { 110,-3745 },
  { 111,-3745 }, { 112,-3745 }, { 113,-3745 }, { 114,-3745 }, { 115,-3745 },
-
  { 116,-3745 }, { 117,-3745 }, { 118,-3745 }, { 119,-3745 }, { 120,-3745 },
  { 121,-3745 }, { 122,-3745 }, { 123,-3745 }, { 124,-3745 }, { 125,-3745 },
  { 126,-3745 }, { 127,-3745 }, { 128,-3745 }, { 129,-3745 }, { 130,-3745 },
  { 131,-3745 }, { 132,-3745 }, { 133,-3745 }, { 134,-3745 }, { 135,-3745 },
  { 136,-3745 }, { 137,-3745 }, { 138,-3745 }, { 139,-3745 }, { 140,-3745 },
+
  { 141,-3745 }, { 142,-3745 }, { 143,-3745 }, { 144,-3745 }, { 145,-3745 },
  { 146,-3745 }, { 147,-3745 }, { 148,-3745 }, { 149,-3745 }, { 150,-3745 },
  { 151,-3745 }, { 152,-3745 }, { 153,-3745 }, { 154,-3745 }, { 155,-3745 },
  { 156,-3745 }, { 157,-3745 }, { 158,-3745 }, { 159,-3745 }, { 160,-3745 },
  { 161,-3745 }, { 162,-3745 }, { 163,-3745 }, { 164,-3745 }, { 165,-3745 },
-
  { 166,-3745 }, { 167,-3745 }, { 168,-3745 }, { 169,-3745 }, { 170,-3745 },
  { 171,-3745 }, { 172,-3745 }, { 173,-3745 }, { 174,-3745 }, { 175,-3745 },
  { 176,-3745 }, { 177,-3745 }, { 178,-3745 }, { 179,-3745 }, { 180,-3745 },
  { 181,-3745 }, { 182,-3745 }, { 183,-3745 }, { 184,-3745 }, { 185,-3745 },
  { 186,-3745 }, { 187,-3745 }, { 188,-3745 }, { 189,-3745 }, { 190,-3745 },
+
  { 191,-3745 }, { 192,-3745 }, { 193,-3745 }, { 194,-3745 }, { 195,-3745 },
  { 196,-3745 }, { 197,-3745 }, { 198,-3745 }, { 199,-3745 }, { 200,-3745 },
  { 201,-3745 }, { 202,-3745 }, { 203,-3745 }, { 204,-3745 }, { 205,-3745 },
  { 206,-3745 }, { 207,-3745 }, { 208,-3745 }, { 209,-3745 }, { 210,-3745 },
  { 211,-3745 }, { 212,-3745 }, { 213,-3745 }, { 214,-3745 }, { 215,-3745 },
-
  { 216,-3745 }, { 217,-3745 }, { 218,-3745 }, { 219,-3745 }, { 220,-3745 },
  { 221,-3745 }, { 222,-3745 }, { 223,-3745 }, { 224,-3745 }, { 225,-3745 },
  { 226,-3745 }, { 227,-3745 }, { 228,-3745 }, { 229,-3745 }, { 230,-3745 },
  { 231,-3745 }, { 232,-3745 }, { 233,-3745 }, { 234,-3745 }, { 235,-3745 },
  { 236,-3745 }, { 237,-3745 }, { 238,-3745 }, { 239,-3745 }, { 240,-3745 },
+
  { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
  { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
  { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
  { 256,-3745 }, {   0,   0 }, {   0,7537 }, {   1,-5644 }, {   2,-5644 },
  {   3,-5644 }, {   4,-5644 }, {   5,-5644 }, {   6,-5644 }, {   7,-5644 },
-
  {   8,-5644 }, {   9,-5669 }, {  10,-5669 }, {  11,-5644 }, {  12,-5644 },
  {  13,-5669 }, {  14,-5644 }, {  15,-5644 }, {  16,-5644 }, {  17,-5644 },
  {  18,-5644 }, {  19,-5644 }, {  20,-5644 }, {  21,-5644 }, {  22,-5644 },
  {  23,-5644 }, {  24,-5644 }, {  25,-5644 }, {  26,-5644 }, {  27,-5644 },
  {  28,-5644 }, {  29,-5644 }, {  30,-5644 }, {  31,-5644 }, {  32,-5669 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-5644 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-5669 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-5644 }, {  46,-5669 }, {  47,-5669 },
  {  48,-5644 }, {  49,-5644 }, {  50,-5644 }, {  51,-5644 }, {  52,-5644 },
  {  53,-5644 }, {  54,-5644 }, {  55,-5644 }, {  56,-5644 }, {  57,-5644 },
-
  {  58,-5644 }, {   0,   0 }, {   0,   0 }, {  61,-5669 }, {   0,   0 },
  {  63,-5644 }, {   0,   0 }, {  65,-5644 }, {  66,-5644 }, {  67,-5644 },
  {  68,-5644 }, {  69,-5644 }, {  70,-5644 }, {  71,-5644 }, {  72,-5644 },
  {  73,-5644 }, {  74,-5644 }, {  75,-5644 }, {  76,-5644 }, {  77,-5644 },
  {  78,-5644 }, {  79,-5644 }, {  80,-5644 }, {  81,-5644 }, {  82,-5644 },
+
  {  83,-5644 }, {  84,-5644 }, {  85,-5644 }, {  86,-5644 }, {  87,-5644 },
  {  88,-5644 }, {  89,-5644 }, {  90,-5644 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  95,-5644 }, {   0,   0 }, {  97,-5644 },
  {  98,-5644 }, {  99,-5644 }, { 100,-5644 }, { 101,-5644 }, { 102,-5644 },
  { 103,-5644 }, { 104,-5644 }, { 105,-5644 }, { 106,-5644 }, { 107,-5644 },
-
  { 108,-5644 }, { 109,-5644 }, { 110,-5644 }, { 111,-5644 }, { 112,-5644 },
  { 113,-5644 }, { 114,-5644 }, { 115,2083 }, { 116,-5644 }, { 117,-5644 },
  { 118,-5644 }, { 119,-5644 }, { 120,-5644 }, { 121,-5644 }, { 122,-5644 },
  {   0,   0 }, { 124,-5669 }, { 125,-5669 }, { 126,-5669 }, { 127,-5644 },
  { 128,-5644 }, { 129,-5644 }, { 130,-5644 }, { 131,-5644 }, { 132,-5644 },
+
  { 133,-5644 }, { 134,-5644 }, { 135,-5644 }, { 136,-5644 }, { 137,-5644 },
  { 138,-5644 }, { 139,-5644 }, { 140,-5644 }, { 141,-5644 }, { 142,-5644 },
  { 143,-5644 }, { 144,-5644 }, { 145,-5644 }, { 146,-5644 }, { 147,-5644 },
  { 148,-5644 }, { 149,-5644 }, { 150,-5644 }, { 151,-5644 }, { 152,-5644 },
  { 153,-5644 }, { 154,-5644 }, { 155,-5644 }, { 156,-5644 }, { 157,-5644 },
-
  { 158,-5644 }, { 159,-5644 }, { 160,-5644 }, { 161,-5644 }, { 162,-5644 },
  { 163,-5644 }, { 164,-5644 }, { 165,-5644 }, { 166,-5644 }, { 167,-5644 },
  { 168,-5644 }, { 169,-5644 }, { 170,-5644 }, { 171,-5644 }, { 172,-5644 },
  { 173,-5644 }, { 174,-5644 }, { 175,-5644 }, { 176,-5644 }, { 177,-5644 },
  { 178,-5644 }, { 179,-5644 }, { 180,-5644 }, { 181,-5644 }, { 182,-5644 },
+
  { 183,-5644 }, { 184,-5644 }, { 185,-5644 }, { 186,-5644 }, { 187,-5644 },
  { 188,-5644 }, { 189,-5644 }, { 190,-5644 }, { 191,-5644 }, { 192,-5644 },
  { 193,-5644 }, { 194,-5644 }, { 195,-5644 }, { 196,-5644 }, { 197,-5644 },
  { 198,-5644 }, { 199,-5644 }, { 200,-5644 }, { 201,-5644 }, { 202,-5644 },
  { 203,-5644 }, { 204,-5644 }, { 205,-5644 }, { 206,-5644 }, { 207,-5644 },
-
  { 208,-5644 }, { 209,-5644 }, { 210,-5644 }, { 211,-5644 }, { 212,-5644 },
  { 213,-5644 }, { 214,-5644 }, { 215,-5644 }, { 216,-5644 }, { 217,-5644 },
  { 218,-5644 }, { 219,-5644 }, { 220,-5644 }, { 221,-5644 }, { 222,-5644 },
  { 223,-5644 }, { 224,-5644 }, { 225,-5644 }, { 226,-5644 }, { 227,-5644 },
  { 228,-5644 }, { 229,-5644 }, { 230,-5644 }, { 231,-5644 }, { 232,-5644 },
+
  { 233,-5644 }, { 234,-5644 }, { 235,-5644 }, { 236,-5644 }, { 237,-5644 },
  { 238,-5644 }, { 239,-5644 }, { 240,-5644 }, { 241,-5644 }, { 242,-5644 },
  { 243,-5644 }, { 244,-5644 }, { 245,-5644 }, { 246,-5644 }, { 247,-5644 },
  { 248,-5644 }, { 249,-5644 }, { 250,-5644 }, { 251,-5644 }, { 252,-5644 },
  { 253,-5644 }, { 254,-5644 }, { 255,-5644 }, { 256,-5644 }, {   0,   0 },
-
  {   0,7279 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
  {   5,-5902 }, {   6,-5902 }, {   7,-5902 }, {   8,-5902 }, {   9,-5927 },
  {  10,-5927 }, {  11,-5902 }, {  12,-5902 }, {  13,-5927 }, {  14,-5902 },
  {  15,-5902 }, {  16,-5902 }, {  17,-5902 }, {  18,-5902 }, {  19,-5902 },
  {  20,-5902 }, {  21,-5902 }, {  22,-5902 }, {  23,-5902 }, {  24,-5902 },
+
  {  25,-5902 }, {  26,-5902 }, {  27,-5902 }, {  28,-5902 }, {  29,-5902 },
  {  30,-5902 }, {  31,-5902 }, {  32,-5927 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  36,-5902 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  41,-5927 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  45,-5902 }, {  46,-5927 }, {  47,-5927 }, {  48,-5902 }, {  49,-5902 },
-
  {  50,-5902 }, {  51,-5902 }, {  52,-5902 }, {  53,-5902 }, {  54,-5902 },
  {  55,-5902 }, {  56,-5902 }, {  57,-5902 }, {  58,-5902 }, {   0,   0 },
  {   0,   0 }, {  61,-5927 }, {   0,   0 }, {  63,-5902 }, {   0,   0 },
  {  65,-5902 }, {  66,-5902 }, {  67,-5902 }, {  68,-5902 }, {  69,-5902 },
  {  70,-5902 }, {  71,-5902 }, {  72,-5902 }, {  73,-5902 }, {  74,-5902 },
+
  {  75,-5902 }, {  76,-5902 }, {  77,-5902 }, {  78,-5902 }, {  79,-5902 },
  {  80,-5902 }, {  81,-5902 }, {  82,-5902 }, {  83,-5902 }, {  84,-5902 },
  {  85,-5902 }, {  86,-5902 }, {  87,-5902 }, {  88,-5902 }, {  89,-5902 },
  {  90,-5902 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  95,-5902 }, {   0,   0 }, {  97,-5902 }, {  98,-5902 }, {  99,-5902 },
-
  { 100,-5902 }, { 101,-5902 }, { 102,-5902 }, { 103,-5902 }, { 104,-5902 },
  { 105,-5902 }, { 106,-5902 }, { 107,-5902 }, { 108,2083 }, { 109,-5902 },
  { 110,-5902 }, { 111,-5902 }, { 112,-5902 }, { 113,-5902 }, { 114,-5902 },
  { 115,-5902 }, { 116,-5902 }, { 117,-5902 }, { 118,-5902 }, { 119,-5902 },
  { 120,-5902 }, { 121,-5902 }, { 122,-5902 }, {   0,   0 }, { 124,-5927 },
+
  { 125,-5927 }, { 126,-5927 }, { 127,-5902 }, { 128,-5902 }, { 129,-5902 },
  { 130,-5902 }, { 131,-5902 }, { 132,-5902 }, { 133,-5902 }, { 134,-5902 },
  { 135,-5902 }, { 136,-5902 }, { 137,-5902 }, { 138,-5902 }, { 139,-5902 },
  { 140,-5902 }, { 141,-5902 }, { 142,-5902 }, { 143,-5902 }, { 144,-5902 },
  { 145,-5902 }, { 146,-5902 }, { 147,-5902 }, { 148,-5902 }, { 149,-5902 },
-
  { 150,-5902 }, { 151,-5902 }, { 152,-5902 }, { 153,-5902 }, { 154,-5902 },
  { 155,-5902 }, { 156,-5902 }, { 157,-5902 }, { 158,-5902 }, { 159,-5902 },
  { 160,-5902 }, { 161,-5902 }, { 162,-5902 }, { 163,-5902 }, { 164,-5902 },
  { 165,-5902 }, { 166,-5902 }, { 167,-5902 }, { 168,-5902 }, { 169,-5902 },
  { 170,-5902 }, { 171,-5902 }, { 172,-5902 }, { 173,-5902 }, { 174,-5902 },
+
  { 175,-5902 }, { 176,-5902 }, { 177,-5902 }, { 178,-5902 }, { 179,-5902 },
  { 180,-5902 }, { 181,-5902 }, { 182,-5902 }, { 183,-5902 }, { 184,-5902 },
  { 185,-5902 }, { 186,-5902 }, { 187,-5902 }, { 188,-5902 }, { 189,-5902 },
  { 190,-5902 }, { 191,-5902 }, { 192,-5902 }, { 193,-5902 }, { 194,-5902 },
  { 195,-5902 }, { 196,-5902 }, { 197,-5902 }, { 198,-5902 }, { 199,-5902 },
-
  { 200,-5902 }, { 201,-5902 }, { 202,-5902 }, { 203,-5902 }, { 204,-5902 },
  { 205,-5902 }, { 206,-5902 }, { 207,-5902 }, { 208,-5902 }, { 209,-5902 },
  { 210,-5902 }, { 211,-5902 }, { 212,-5902 }, { 213,-5902 }, { 214,-5902 },
  { 215,-5902 }, { 216,-5902 }, { 217,-5902 }, { 218,-5902 }, { 219,-5902 },
  { 220,-5902 }, { 221,-5902 }, { 222,-5902 }, { 223,-5902 }, { 224,-5902 },
+
  { 225,-5902 }, { 226,-5902 }, { 227,-5902 }, { 228,-5902 }, { 229,-5902 },
  { 230,-5902 }, { 231,-5902 }, { 232,-5902 }, { 233,-5902 }, { 234,-5902 },
  { 235,-5902 }, { 236,-5902 }, { 237,-5902 }, { 238,-5902 }, { 239,-5902 },
  { 240,-5902 }, { 241,-5902 }, { 242,-5902 }, { 243,-5902 }, { 244,-5902 },
  { 245,-5902 }, { 246,-5902 }, { 247,-5902 }, { 248,-5902 }, { 249,-5902 },
-
  { 250,-5902 }, { 251,-5902 }, { 252,-5902 }, { 253,-5902 }, { 254,-5902 },
  { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,7021 }, {   1,-6160 },
  {   2,-6160 }, {   3,-6160 }, {   4,-6160 }, {   5,-6160 }, {   6,-6160 },
  {   7,-6160 }, {   8,-6160 }, {   9,-6185 }, {  10,-6185 }, {  11,-6160 },
  {  12,-6160 }, {  13,-6185 }, {  14,-6160 }, {  15,-6160 }, {  16,-6160 },
+
  {  17,-6160 }, {  18,-6160 }, {  19,-6160 }, {  20,-6160 }, {  21,-6160 },
  {  22,-6160 }, {  23,-6160 }, {  24,-6160 }, {  25,-6160 }, {  26,-6160 },
  {  27,-6160 }, {  28,-6160 }, {  29,-6160 }, {  30,-6160 }, {  31,-6160 },
  {  32,-6185 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6160 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6185 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6160 }, {  46,-6185 },
  {  47,-6185 }, {  48,-6160 }, {  49,-6160 }, {  50,-6160 }, {  51,-6160 },
  {  52,-6160 }, {  53,-6160 }, {  54,-6160 }, {  55,-6160 }, {  56,-6160 },
  {  57,-6160 }, {  58,-6160 }, {   0,   0 }, {   0,   0 }, {  61,-6185 },
  {   0,   0 }, {  63,-6160 }, {   0,   0 }, {  65,-6160 }, {  66,-6160 },
+
  {  67,-6160 }, {  68,-6160 }, {  69,-6160 }, {  70,-6160 }, {  71,-6160 },
  {  72,-6160 }, {  73,-6160 }, {  74,-6160 }, {  75,-6160 }, {  76,-6160 },
  {  77,-6160 }, {  78,-6160 }, {  79,-6160 }, {  80,-6160 }, {  81,-6160 },
  {  82,-6160 }, {  83,-6160 }, {  84,-6160 }, {  85,-6160 }, {  86,-6160 },
  {  87,-6160 }, {  88,-6160 }, {  89,-6160 }, {  90,-6160 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6160 }, {   0,   0 },
  {  97,-6160 }, {  98,-6160 }, {  99,-6160 }, { 100,-6160 }, { 101,2083 },
  { 102,-6160 }, { 103,-6160 }, { 104,-6160 }, { 105,-6160 }, { 106,-6160 },
  { 107,-6160 }, { 108,-6160 }, { 109,-6160 }, { 110,-6160 }, { 111,-6160 },
  { 112,-6160 }, { 113,-6160 }, { 114,-6160 }, { 115,-6160 }, { 116,-6160 },
+
  { 117,-6160 }, { 118,-6160 }, { 119,-6160 }, { 120,-6160 }, { 121,-6160 },
  { 122,-6160 }, {   0,   0 }, { 124,-6185 }, { 125,-6185 }, { 126,-6185 },
  { 127,-6160 }, { 128,-6160 }, { 129,-6160 }, { 130,-6160 }, { 131,-6160 },
  { 132,-6160 }, { 133,-6160 }, { 134,-6160 }, { 135,-6160 }, { 136,-6160 },
  { 137,-6160 }, { 138,-6160 }, { 139,-6160 }, { 140,-6160 }, { 141,-6160 },
-
  { 142,-6160 }, { 143,-6160 }, { 144,-6160 }, { 145,-6160 }, { 146,-6160 },
  { 147,-6160 }, { 148,-6160 }, { 149,-6160 }, { 150,-6160 }, { 151,-6160 },
  { 152,-6160 }, { 153,-6160 }, { 154,-6160 }, { 155,-6160 }, { 156,-6160 },
  { 157,-6160 }, { 158,-6160 }, { 159,-6160 }, { 160,-6160 }, { 161,-6160 },
  { 162,-6160 }, { 163,-6160 }, { 164,-6160 }, { 165,-6160 }, { 166,-6160 },
+
  { 167,-6160 }, { 168,-6160 }, { 169,-6160 }, { 170,-6160 }, { 171,-6160 },
  { 172,-6160 }, { 173,-6160 }, { 174,-6160 }, { 175,-6160 }, { 176,-6160 },
  { 177,-6160 }, { 178,-6160 }, { 179,-6160 }, { 180,-6160 }, { 181,-6160 },
  { 182,-6160 }, { 183,-6160 }, { 184,-6160 }, { 185,-6160 }, { 186,-6160 },
  { 187,-6160 }, { 188,-6160 }, { 189,-6160 }, { 190,-6160 }, { 191,-6160 },
-
  { 192,-6160 }, { 193,-6160 }, { 194,-6160 }, { 195,-6160 }, { 196,-6160 },
  { 197,-6160 }, { 198,-6160 }, { 199,-6160 }, { 200,-6160 }, { 201,-6160 },
  { 202,-6160 }, { 203,-6160 }, { 204,-6160 }, { 205,-6160 }, { 206,-6160 },
  { 207,-6160 }, { 208,-6160 }, { 209,-6160 }, { 210,-6160 }, { 211,-6160 },
  { 212,-6160 }, { 213,-6160 }, { 214,-6160 }, { 215,-6160 }, { 216,-6160 },
+
  { 217,-6160 }, { 218,-6160 }, { 219,-6160 }, { 220,-6160 }, { 221,-6160 },
  { 222,-6160 }, { 223,-6160 }, { 224,-6160 }, { 225,-6160 }, { 226,-6160 },
  { 227,-6160 }, { 228,-6160 }, { 229,-6160 }, { 230,-6160 }, { 231,-6160 },
  { 232,-6160 }, { 233,-6160 }, { 234,-6160 }, { 235,-6160 }, { 236,-6160 },
  { 237,-6160 }, { 238,-6160 }, { 239,-6160 }, { 240,-6160 }, { 241,-6160 },
-
  { 242,-6160 }, { 243,-6160 }, { 244,-6160 }, { 245,-6160 }, { 246,-6160 },
  { 247,-6160 }, { 248,-6160 }, { 249,-6160 }, { 250,-6160 }, { 251,-6160 },
  { 252,-6160 }, { 253,-6160 }, { 254,-6160 }, { 255,-6160 }, { 256,-6160 },
  {   0,   0 }, {   0,6763 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
  {   4,-6418 }, {   5,-6418 }, {   6,-6418 }, {   7,-6418 }, {   8,-6418 },
+
  {   9,-6443 }, {  10,-6443 }, {  11,-6418 }, {  12,-6418 }, {  13,-6443 },
  {  14,-6418 }, {  15,-6418 }, {  16,-6418 }, {  17,-6418 }, {  18,-6418 },
  {  19,-6418 }, {  20,-6418 }, {  21,-6418 }, {  22,-6418 }, {  23,-6418 },
  {  24,-6418 }, {  25,-6418 }, {  26,-6418 }, {  27,-6418 }, {  28,-6418 },
  {  29,-6418 }, {  30,-6418 }, {  31,-6418 }, {  32,-6443 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {  36,-6418 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  41,-6443 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  45,-6418 }, {  46,-6443 }, {  47,-6443 }, {  48,-6418 },
  {  49,-6418 }, {  50,-6418 }, {  51,-6418 }, {  52,-6418 }, {  53,-6418 },
  {  54,-6418 }, {  55,-6418 }, {  56,-6418 }, {  57,-6418 }, {  58,-6418 },
+
  {   0,   0 }, {   0,   0 }, {  61,-6443 }, {   0,   0 }, {  63,-6418 },
  {   0,   0 }, {  65,-6418 }, {  66,-6418 }, {  67,-6418 }, {  68,-6418 },
  {  69,-6418 }, {  70,-6418 }, {  71,-6418 }, {  72,-6418 }, {  73,-6418 },
  {  74,-6418 }, {  75,-6418 }, {  76,-6418 }, {  77,-6418 }, {  78,-6418 },
  {  79,-6418 }, {  80,-6418 }, {  81,-6418 }, {  82,-6418 }, {  83,-6418 },
-
  {  84,-6418 }, {  85,-6418 }, {  86,-6418 }, {  87,-6418 }, {  88,-6418 },
  {  89,-6418 }, {  90,-6418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-6418 }, {   0,   0 }, {  97,-6418 }, {  98,-6418 },
  {  99,-6418 }, { 100,-6418 }, { 101,2083 }, { 102,-6418 }, { 103,-6418 },
  { 104,-6418 }, { 105,-6418 }, { 106,-6418 }, { 107,-6418 }, { 108,-6418 },
+
  { 109,-6418 }, { 110,-6418 }, { 111,-6418 }, { 112,-6418 }, { 113,-6418 },
  { 114,-6418 }, { 115,-6418 }, { 116,-6418 }, { 117,-6418 }, { 118,-6418 },
  { 119,-6418 }, { 120,-6418 }, { 121,-6418 }, { 122,-6418 }, {   0,   0 },
  { 124,-6443 }, { 125,-6443 }, { 126,-6443 }, { 127,-6418 }, { 128,-6418 },
  { 129,-6418 }, { 130,-6418 }, { 131,-6418 }, { 132,-6418 }, { 133,-6418 },
-
  { 134,-6418 }, { 135,-6418 }, { 136,-6418 }, { 137,-6418 }, { 138,-6418 },
  { 139,-6418 }, { 140,-6418 }, { 141,-6418 }, { 142,-6418 }, { 143,-6418 },
  { 144,-6418 }, { 145,-6418 }, { 146,-6418 }, { 147,-6418 }, { 148,-6418 },
  { 149,-6418 }, { 150,-6418 }, { 151,-6418 }, { 152,-6418 }, { 153,-6418 },
  { 154,-6418 }, { 155,-6418 }, { 156,-6418 }, { 157,-6418 }, { 158,-6418 },
+
  { 159,-6418 }, { 160,-6418 }, { 161,-6418 }, { 162,-6418 }, { 163,-6418 },
  { 164,-6418 }, { 165,-6418 }, { 166,-6418 }, { 167,-6418 }, { 168,-6418 },
  { 169,-6418 }, { 170,-6418 }, { 171,-6418 }, { 172,-6418 }, { 173,-6418 },
  { 174,-6418 }, { 175,-6418 }, { 176,-6418 }, { 177,-6418 }, { 178,-6418 },
  { 179,-6418 }, { 180,-6418 }, { 181,-6418 }, { 182,-6418 }, { 183,-6418 },
-
  { 184,-6418 }, { 185,-6418 }, { 186,-6418 }, { 187,-6418 }, { 188,-6418 },
  { 189,-6418 }, { 190,-6418 }, { 191,-6418 }, { 192,-6418 }, { 193,-6418 },
  { 194,-6418 }, { 195,-6418 }, { 196,-6418 }, { 197,-6418 }, { 198,-6418 },
  { 199,-6418 }, { 200,-6418 }, { 201,-6418 }, { 202,-6418 }, { 203,-6418 },
  { 204,-6418 }, { 205,-6418 }, { 206,-6418 }, { 207,-6418 }, { 208,-6418 },
+
  { 209,-6418 }, { 210,-6418 }, { 211,-6418 }, { 212,-6418 }, { 213,-6418 },
  { 214,-6418 }, { 215,-6418 }, { 216,-6418 }, { 217,-6418 }, { 218,-6418 },
  { 219,-6418 }, { 220,-6418 }, { 221,-6418 }, { 222,-6418 }, { 223,-6418 },
  { 224,-6418 }, { 225,-6418 }, { 226,-6418 }, { 227,-6418 }, { 228,-6418 },
  { 229,-6418 }, { 230,-6418 }, { 231,-6418 }, { 232,-6418 }, { 233,-6418 },
-
  { 234,-6418 }, { 235,-6418 }, { 236,-6418 }, { 237,-6418 }, { 238,-6418 },
  { 239,-6418 }, { 240,-6418 }, { 241,-6418 }, { 242,-6418 }, { 243,-6418 },
  { 244,-6418 }, { 245,-6418 }, { 246,-6418 }, { 247,-6418 }, { 248,-6418 },
  { 249,-6418 }, { 250,-6418 }, { 251,-6418 }, { 252,-6418 }, { 253,-6418 },
  { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,6505 },
- {   0,  24 }, {   0,6503 }, {   0,   0 }, {   0,6501 }, {   0,  26 },
- {   0,6499 }, {   0,  30 }, {   0,6497 }, {   9,   0 }, {  10,   0 },
- {   9,2081 }, {  10,2081 }, {  13,   0 }, {   0,   0 }, {  13,2081 },
- {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,  36 }, {   0,6485 },
- {  13,  -8 }, {   0,   0 }, {   0,6482 }, {   0,  37 }, {   0,6480 },
 
+ {   0,  25 }, {   0,6503 }, {   0,   0 }, {   0,6501 }, {   0,  27 },
+ {   0,6499 }, {   0,  31 }, {   0,6497 }, {   9,   0 }, {  10,   0 },
+ {   9,2081 }, {  10,2081 }, {  13,   0 }, {   0,   0 }, {  13,2081 },
+ {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,  37 }, {   0,6485 },
+ {  13,  -8 }, {   0,   0 }, {   0,6482 }, {   0,  38 }, {   0,6480 },
  {   0,   0 }, {   0,6478 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  32,   0 }, {   0,   0 }, {  32,2081 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,  -8 },
  {  33,-1424 }, {   0,   0 }, {  35,-1422 }, {   0,   0 }, {   0,   0 },
  {  38,-1420 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  42,-1418 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  47,-1414 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  33, 123 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-1411 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  { 101,   4 }, {  94,  -6 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,  -4 }, {   0,   0 },
  {   0,   0 }, { 108,2083 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, { 125, 502 }, { 126,2083 }, { 123,2083 }, {   0,   0 },
  { 123,2083 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,2075 },
  {   0,   0 }, {   0,   0 }, { 125,2075 }, {   0,   0 }, {   0,6355 },
+
  {   1,2062 }, {   2,2062 }, {   3,2062 }, {   4,2062 }, {   5,2062 },
  {   6,2062 }, {   7,2062 }, {   8,2062 }, {   9,2062 }, {  10,2062 },
  {  11,2062 }, {  12,2062 }, {  13,2062 }, {  14,2062 }, {  15,2062 },
  {  16,2062 }, {  17,2062 }, {  18,2062 }, {  19,2062 }, {  20,2062 },
  {  21,2062 }, {  22,2062 }, {  23,2062 }, {  24,2062 }, {  25,2062 },
-
  {  26,2062 }, {  27,2062 }, {  28,2062 }, {  29,2062 }, {  30,2062 },
  {  31,2062 }, {  32,2062 }, {  33,2062 }, {  34,2062 }, {  35,2062 },
  {  36,2062 }, {  37,2062 }, {  38,2062 }, {  39,2062 }, {  40,2062 },
  {  41,2062 }, {  42,2062 }, {  43,2062 }, {  44,2062 }, {  45,2320 },
  {  46,2062 }, {  47,2062 }, {  48,2062 }, {  49,2062 }, {  50,2062 },
+
  {  51,2062 }, {  52,2062 }, {  53,2062 }, {  54,2062 }, {  55,2062 },
  {  56,2062 }, {  57,2062 }, {  58,2062 }, {  59,2062 }, {  60,2062 },
  {  61,2062 }, {  62,2062 }, {  63,2062 }, {  64,2062 }, {  65,2062 },
  {  66,2062 }, {  67,2062 }, {  68,2062 }, {  69,2062 }, {  70,2062 },
  {  71,2062 }, {  72,2062 }, {  73,2062 }, {  74,2062 }, {  75,2062 },
-
  {  76,2062 }, {  77,2062 }, {  78,2062 }, {  79,2062 }, {  80,2062 },
  {  81,2062 }, {  82,2062 }, {  83,2062 }, {  84,2062 }, {  85,2062 },
  {  86,2062 }, {  87,2062 }, {  88,2062 }, {  89,2062 }, {  90,2062 },
  {  91,2062 }, {  92,2062 }, {  93,2062 }, {  94,2062 }, {  95,2062 },
  {  96,2062 }, {  97,2062 }, {  98,2062 }, {  99,2062 }, { 100,2062 },
+
  { 101,2062 }, { 102,2062 }, { 103,2062 }, { 104,2062 }, { 105,2062 },
  { 106,2062 }, { 107,2062 }, { 108,2062 }, { 109,2062 }, { 110,2062 },
  { 111,2062 }, { 112,2062 }, { 113,2062 }, { 114,2062 }, { 115,2062 },
  { 116,2062 }, { 117,2062 }, { 118,2062 }, { 119,2062 }, { 120,2062 },
  { 121,2062 }, { 122,2062 }, { 123,2062 }, { 124,2062 }, { 125,2062 },
-
  { 126,2062 }, { 127,2062 }, { 128,2062 }, { 129,2062 }, { 130,2062 },
  { 131,2062 }, { 132,2062 }, { 133,2062 }, { 134,2062 }, { 135,2062 },
  { 136,2062 }, { 137,2062 }, { 138,2062 }, { 139,2062 }, { 140,2062 },
  { 141,2062 }, { 142,2062 }, { 143,2062 }, { 144,2062 }, { 145,2062 },
  { 146,2062 }, { 147,2062 }, { 148,2062 }, { 149,2062 }, { 150,2062 },
+
  { 151,2062 }, { 152,2062 }, { 153,2062 }, { 154,2062 }, { 155,2062 },
  { 156,2062 }, { 157,2062 }, { 158,2062 }, { 159,2062 }, { 160,2062 },
  { 161,2062 }, { 162,2062 }, { 163,2062 }, { 164,2062 }, { 165,2062 },
  { 166,2062 }, { 167,2062 }, { 168,2062 }, { 169,2062 }, { 170,2062 },
  { 171,2062 }, { 172,2062 }, { 173,2062 }, { 174,2062 }, { 175,2062 },
-
  { 176,2062 }, { 177,2062 }, { 178,2062 }, { 179,2062 }, { 180,2062 },
  { 181,2062 }, { 182,2062 }, { 183,2062 }, { 184,2062 }, { 185,2062 },
  { 186,2062 }, { 187,2062 }, { 188,2062 }, { 189,2062 }, { 190,2062 },
  { 191,2062 }, { 192,2062 }, { 193,2062 }, { 194,2062 }, { 195,2062 },
  { 196,2062 }, { 197,2062 }, { 198,2062 }, { 199,2062 }, { 200,2062 },
+
  { 201,2062 }, { 202,2062 }, { 203,2062 }, { 204,2062 }, { 205,2062 },
  { 206,2062 }, { 207,2062 }, { 208,2062 }, { 209,2062 }, { 210,2062 },
  { 211,2062 }, { 212,2062 }, { 213,2062 }, { 214,2062 }, { 215,2062 },
  { 216,2062 }, { 217,2062 }, { 218,2062 }, { 219,2062 }, { 220,2062 },
  { 221,2062 }, { 222,2062 }, { 223,2062 }, { 224,2062 }, { 225,2062 },
-
  { 226,2062 }, { 227,2062 }, { 228,2062 }, { 229,2062 }, { 230,2062 },
  { 231,2062 }, { 232,2062 }, { 233,2062 }, { 234,2062 }, { 235,2062 },
  { 236,2062 }, { 237,2062 }, { 238,2062 }, { 239,2062 }, { 240,2062 },
  { 241,2062 }, { 242,2062 }, { 243,2062 }, { 244,2062 }, { 245,2062 },
  { 246,2062 }, { 247,2062 }, { 248,2062 }, { 249,2062 }, { 250,2062 },
+
  { 251,2062 }, { 252,2062 }, { 253,2062 }, { 254,2062 }, { 255,2062 },
  { 256,2062 }, {   0,   0 }, {   0,6097 }, {   0,   0 }, {   0,6095 },
- {   0,   1 }, {   0,6093 }, {   0,   4 }, {   0,6091 }, {   0,  47 },
- {   0,6089 }, {   0,  41 }, {   0,6087 }, {   0,   0 }, {   0,6085 },
- {   0,  20 }, {   0,6083 }, {   0,   0 }, {  10,   0 }, {   0,  19 },
-
+ {   0,   1 }, {   0,6093 }, {   0,   4 }, {   0,6091 }, {   0,  48 },
+ {   0,6089 }, {   0,  42 }, {   0,6087 }, {   0,   0 }, {   0,6085 },
+ {   0,  21 }, {   0,6083 }, {   0,   0 }, {  10,   0 }, {   0,  20 },
  {   0,6079 }, {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2574 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,6001 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  { 123,2320 }, {   0,   0 }, { 123,2576 }, {   0,   0 }, { 123,2576 },
  {   0,   4 }, {   0,5968 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 },
+
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
  {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
  {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
  {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
  {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
-
  {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
  {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
  {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
+
  {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
  {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
  {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
  {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
  {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
-
  {  89,   0 }, {  90,   0 }, {  91,   0 }, { 125,2492 }, {  93,   0 },
  {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
  {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
  { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
  { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
+
  { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
  { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 },
  { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
  { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
  { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
-
  { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
  { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
  { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
  { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
  { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
+
  { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
  { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
  { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
  { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
  { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
-
  { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
  { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
  { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
  { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
  { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
+
  { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
  { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
  { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
  { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
  { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
-
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
  { 254,   0 }, { 255,   0 }, {   0,   4 }, {   0,5711 }, {   1,-257 },
  {   2,-257 }, {   3,-257 }, {   4,-257 }, {   5,-257 }, {   6,-257 },
+
  {   7,-257 }, {   8,-257 }, {   9,-257 }, {  10,-380 }, {  11,-257 },
  {  12,-257 }, {  13,-380 }, {  14,-257 }, {  15,-257 }, {  16,-257 },
  {  17,-257 }, {  18,-257 }, {  19,-257 }, {  20,-257 }, {  21,-257 },
  {  22,-257 }, {  23,-257 }, {  24,-257 }, {  25,-257 }, {  26,-257 },
  {  27,-257 }, {  28,-257 }, {  29,-257 }, {  30,-257 }, {  31,-257 },
-
  {  32,-257 }, {  33,-257 }, {  34,-257 }, {  35,-257 }, {  36,-257 },
  {  37,-257 }, {  38,-257 }, {  39,-257 }, {  40,-257 }, {  41,-257 },
  {  42,-257 }, {  43,-257 }, {  44,-257 }, {  45,-257 }, {  46,-257 },
  {  47,-257 }, {  48,-257 }, {  49,-257 }, {  50,-257 }, {  51,-257 },
  {  52,-257 }, {  53,-257 }, {  54,-257 }, {  55,-257 }, {  56,-257 },
+
  {  57,-257 }, {  58,-257 }, {  59,-257 }, {  60,-257 }, {  61,-257 },
  {  62,-257 }, {  63,-257 }, {  64,-257 }, {  65,-257 }, {  66,-257 },
  {  67,-257 }, {  68,-257 }, {  69,-257 }, {  70,-257 }, {  71,-257 },
  {  72,-257 }, {  73,-257 }, {  74,-257 }, {  75,-257 }, {  76,-257 },
  {  77,-257 }, {  78,-257 }, {  79,-257 }, {  80,-257 }, {  81,-257 },
-
  {  82,-257 }, {  83,-257 }, {  84,-257 }, {  85,-257 }, {  86,-257 },
  {  87,-257 }, {  88,-257 }, {  89,-257 }, {  90,-257 }, {  91,-257 },
  {   0,   0 }, {  93,-257 }, {  94,-257 }, {  95,-257 }, {  96,-257 },
  {  97,-257 }, {  98,-257 }, {  99,-257 }, { 100,-257 }, { 101,-257 },
  { 102,-257 }, { 103,-257 }, { 104,-257 }, { 105,-257 }, { 106,-257 },
+
  { 107,-257 }, { 108,-257 }, { 109,-257 }, { 110,-257 }, { 111,-257 },
  { 112,-257 }, { 113,-257 }, { 114,-257 }, { 115,-257 }, { 116,-257 },
  { 117,-257 }, { 118,-257 }, { 119,-257 }, { 120,-257 }, { 121,-257 },
  { 122,-257 }, {   0,   0 }, { 124,-257 }, { 125,-257 }, { 126,-257 },
  { 127,-257 }, { 128,-257 }, { 129,-257 }, { 130,-257 }, { 131,-257 },
-
  { 132,-257 }, { 133,-257 }, { 134,-257 }, { 135,-257 }, { 136,-257 },
  { 137,-257 }, { 138,-257 }, { 139,-257 }, { 140,-257 }, { 141,-257 },
  { 142,-257 }, { 143,-257 }, { 144,-257 }, { 145,-257 }, { 146,-257 },
  { 147,-257 }, { 148,-257 }, { 149,-257 }, { 150,-257 }, { 151,-257 },
  { 152,-257 }, { 153,-257 }, { 154,-257 }, { 155,-257 }, { 156,-257 },
+
  { 157,-257 }, { 158,-257 }, { 159,-257 }, { 160,-257 }, { 161,-257 },
  { 162,-257 }, { 163,-257 }, { 164,-257 }, { 165,-257 }, { 166,-257 },
  { 167,-257 }, { 168,-257 }, { 169,-257 }, { 170,-257 }, { 171,-257 },
  { 172,-257 }, { 173,-257 }, { 174,-257 }, { 175,-257 }, { 176,-257 },
  { 177,-257 }, { 178,-257 }, { 179,-257 }, { 180,-257 }, { 181,-257 },
-
  { 182,-257 }, { 183,-257 }, { 184,-257 }, { 185,-257 }, { 186,-257 },
  { 187,-257 }, { 188,-257 }, { 189,-257 }, { 190,-257 }, { 191,-257 },
  { 192,-257 }, { 193,-257 }, { 194,-257 }, { 195,-257 }, { 196,-257 },
  { 197,-257 }, { 198,-257 }, { 199,-257 }, { 200,-257 }, { 201,-257 },
  { 202,-257 }, { 203,-257 }, { 204,-257 }, { 205,-257 }, { 206,-257 },
+
  { 207,-257 }, { 208,-257 }, { 209,-257 }, { 210,-257 }, { 211,-257 },
  { 212,-257 }, { 213,-257 }, { 214,-257 }, { 215,-257 }, { 216,-257 },
  { 217,-257 }, { 218,-257 }, { 219,-257 }, { 220,-257 }, { 221,-257 },
  { 222,-257 }, { 223,-257 }, { 224,-257 }, { 225,-257 }, { 226,-257 },
  { 227,-257 }, { 228,-257 }, { 229,-257 }, { 230,-257 }, { 231,-257 },
-
  { 232,-257 }, { 233,-257 }, { 234,-257 }, { 235,-257 }, { 236,-257 },
  { 237,-257 }, { 238,-257 }, { 239,-257 }, { 240,-257 }, { 241,-257 },
  { 242,-257 }, { 243,-257 }, { 244,-257 }, { 245,-257 }, { 246,-257 },
  { 247,-257 }, { 248,-257 }, { 249,-257 }, { 250,-257 }, { 251,-257 },
  { 252,-257 }, { 253,-257 }, { 254,-257 }, { 255,-257 }, {   0,   0 },
+
  {   0,5454 }, {   1,-7727 }, {   2,-7727 }, {   3,-7727 }, {   4,-7727 },
  {   5,-7727 }, {   6,-7727 }, {   7,-7727 }, {   8,-7727 }, {   9,-7752 },
  {  10,-7752 }, {  11,-7727 }, {  12,-7727 }, {  13,-7752 }, {  14,-7727 },
  {  15,-7727 }, {  16,-7727 }, {  17,-7727 }, {  18,-7727 }, {  19,-7727 },
  {  20,-7727 }, {  21,-7727 }, {  22,-7727 }, {  23,-7727 }, {  24,-7727 },
-
  {  25,-7727 }, {  26,-7727 }, {  27,-7727 }, {  28,-7727 }, {  29,-7727 },
  {  30,-7727 }, {  31,-7727 }, {  32,-7752 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  36,-7727 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  41,-7752 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  45,-7727 }, {  46,-7752 }, {  47,-7752 }, {  48,-7727 }, {  49,-7727 },
+
  {  50,-7727 }, {  51,-7727 }, {  52,-7727 }, {  53,-7727 }, {  54,-7727 },
  {  55,-7727 }, {  56,-7727 }, {  57,-7727 }, {  58,-7727 }, {   0,   0 },
  {   0,   0 }, {  61,-7752 }, {   0,   0 }, {  63,-7727 }, {   0,   0 },
  {  65,-7727 }, {  66,-7727 }, {  67,-7727 }, {  68,-7727 }, {  69,-7727 },
  {  70,-7727 }, {  71,-7727 }, {  72,-7727 }, {  73,-7727 }, {  74,-7727 },
-
  {  75,-7727 }, {  76,-7727 }, {  77,-7727 }, {  78,-7727 }, {  79,-7727 },
  {  80,-7727 }, {  81,-7727 }, {  82,-7727 }, {  83,-7727 }, {  84,-7727 },
  {  85,-7727 }, {  86,-7727 }, {  87,-7727 }, {  88,-7727 }, {  89,-7727 },
  {  90,-7727 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  95,-7727 }, {   0,   0 }, {  97,-7727 }, {  98,-7727 }, {  99,-7727 },
+
  { 100,-7727 }, { 101,1962 }, { 102,-7727 }, { 103,-7727 }, { 104,-7727 },
  { 105,-7727 }, { 106,-7727 }, { 107,-7727 }, { 108,-7727 }, { 109,-7727 },
  { 110,-7727 }, { 111,-7727 }, { 112,-7727 }, { 113,-7727 }, { 114,-7727 },
  { 115,-7727 }, { 116,-7727 }, { 117,-7727 }, { 118,-7727 }, { 119,-7727 },
  { 120,-7727 }, { 121,-7727 }, { 122,-7727 }, {   0,   0 }, { 124,-7752 },
-
  { 125,-7752 }, { 126,-7752 }, { 127,-7727 }, { 128,-7727 }, { 129,-7727 },
  { 130,-7727 }, { 131,-7727 }, { 132,-7727 }, { 133,-7727 }, { 134,-7727 },
  { 135,-7727 }, { 136,-7727 }, { 137,-7727 }, { 138,-7727 }, { 139,-7727 },
  { 140,-7727 }, { 141,-7727 }, { 142,-7727 }, { 143,-7727 }, { 144,-7727 },
  { 145,-7727 }, { 146,-7727 }, { 147,-7727 }, { 148,-7727 }, { 149,-7727 },
+
  { 150,-7727 }, { 151,-7727 }, { 152,-7727 }, { 153,-7727 }, { 154,-7727 },
  { 155,-7727 }, { 156,-7727 }, { 157,-7727 }, { 158,-7727 }, { 159,-7727 },
  { 160,-7727 }, { 161,-7727 }, { 162,-7727 }, { 163,-7727 }, { 164,-7727 },
  { 165,-7727 }, { 166,-7727 }, { 167,-7727 }, { 168,-7727 }, { 169,-7727 },
  { 170,-7727 }, { 171,-7727 }, { 172,-7727 }, { 173,-7727 }, { 174,-7727 },
-
  { 175,-7727 }, { 176,-7727 }, { 177,-7727 }, { 178,-7727 }, { 179,-7727 },
  { 180,-7727 }, { 181,-7727 }, { 182,-7727 }, { 183,-7727 }, { 184,-7727 },
  { 185,-7727 }, { 186,-7727 }, { 187,-7727 }, { 188,-7727 }, { 189,-7727 },
  { 190,-7727 }, { 191,-7727 }, { 192,-7727 }, { 193,-7727 }, { 194,-7727 },
  { 195,-7727 }, { 196,-7727 }, { 197,-7727 }, { 198,-7727 }, { 199,-7727 },
+
  { 200,-7727 }, { 201,-7727 }, { 202,-7727 }, { 203,-7727 }, { 204,-7727 },
  { 205,-7727 }, { 206,-7727 }, { 207,-7727 }, { 208,-7727 }, { 209,-7727 },
  { 210,-7727 }, { 211,-7727 }, { 212,-7727 }, { 213,-7727 }, { 214,-7727 },
  { 215,-7727 }, { 216,-7727 }, { 217,-7727 }, { 218,-7727 }, { 219,-7727 },
  { 220,-7727 }, { 221,-7727 }, { 222,-7727 }, { 223,-7727 }, { 224,-7727 },
-
  { 225,-7727 }, { 226,-7727 }, { 227,-7727 }, { 228,-7727 }, { 229,-7727 },
  { 230,-7727 }, { 231,-7727 }, { 232,-7727 }, { 233,-7727 }, { 234,-7727 },
  { 235,-7727 }, { 236,-7727 }, { 237,-7727 }, { 238,-7727 }, { 239,-7727 },
  { 240,-7727 }, { 241,-7727 }, { 242,-7727 }, { 243,-7727 }, { 244,-7727 },
  { 245,-7727 }, { 246,-7727 }, { 247,-7727 }, { 248,-7727 }, { 249,-7727 },
+
  { 250,-7727 }, { 251,-7727 }, { 252,-7727 }, { 253,-7727 }, { 254,-7727 },
  { 255,-7727 }, { 256,-7727 }, {   0,   0 }, {   0,5196 }, {   1,-7985 },
  {   2,-7985 }, {   3,-7985 }, {   4,-7985 }, {   5,-7985 }, {   6,-7985 },
  {   7,-7985 }, {   8,-7985 }, {   9,1681 }, {  10,1681 }, {  11,-7985 },
  {  12,-7985 }, {  13,1681 }, {  14,-7985 }, {  15,-7985 }, {  16,-7985 },
-
  {  17,-7985 }, {  18,-7985 }, {  19,-7985 }, {  20,-7985 }, {  21,-7985 },
  {  22,-7985 }, {  23,-7985 }, {  24,-7985 }, {  25,-7985 }, {  26,-7985 },
  {  27,-7985 }, {  28,-7985 }, {  29,-7985 }, {  30,-7985 }, {  31,-7985 },
  {  32,1681 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7985 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1681 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7985 }, {  46,-8010 },
  {  47,-8010 }, {  48,-7985 }, {  49,-7985 }, {  50,-7985 }, {  51,-7985 },
  {  52,-7985 }, {  53,-7985 }, {  54,-7985 }, {  55,-7985 }, {  56,-7985 },
  {  57,-7985 }, {  58,-7985 }, {   0,   0 }, {   0,   0 }, {  61,-8010 },
  {   0,   0 }, {  63,-7985 }, {   0,   0 }, {  65,-7985 }, {  66,-7985 },
-
  {  67,-7985 }, {  68,-7985 }, {  69,-7985 }, {  70,-7985 }, {  71,-7985 },
  {  72,-7985 }, {  73,-7985 }, {  74,-7985 }, {  75,-7985 }, {  76,-7985 },
  {  77,-7985 }, {  78,-7985 }, {  79,-7985 }, {  80,-7985 }, {  81,-7985 },
  {  82,-7985 }, {  83,-7985 }, {  84,-7985 }, {  85,-7985 }, {  86,-7985 },
  {  87,-7985 }, {  88,-7985 }, {  89,-7985 }, {  90,-7985 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7985 }, {   0,   0 },
  {  97,-7985 }, {  98,-7985 }, {  99,-7985 }, { 100,-7985 }, { 101,-7985 },
  { 102,-7985 }, { 103,-7985 }, { 104,-7985 }, { 105,-7985 }, { 106,-7985 },
  { 107,-7985 }, { 108,-7985 }, { 109,-7985 }, { 110,-7985 }, { 111,-7985 },
  { 112,-7985 }, { 113,-7985 }, { 114,-7985 }, { 115,-7985 }, { 116,-7985 },
-
  { 117,-7985 }, { 118,-7985 }, { 119,-7985 }, { 120,-7985 }, { 121,-7985 },
  { 122,-7985 }, {   0,   0 }, { 124,-8010 }, { 125,1681 }, { 126,1681 },
  { 127,-7985 }, { 128,-7985 }, { 129,-7985 }, { 130,-7985 }, { 131,-7985 },
  { 132,-7985 }, { 133,-7985 }, { 134,-7985 }, { 135,-7985 }, { 136,-7985 },
  { 137,-7985 }, { 138,-7985 }, { 139,-7985 }, { 140,-7985 }, { 141,-7985 },
+
  { 142,-7985 }, { 143,-7985 }, { 144,-7985 }, { 145,-7985 }, { 146,-7985 },
  { 147,-7985 }, { 148,-7985 }, { 149,-7985 }, { 150,-7985 }, { 151,-7985 },
  { 152,-7985 }, { 153,-7985 }, { 154,-7985 }, { 155,-7985 }, { 156,-7985 },
  { 157,-7985 }, { 158,-7985 }, { 159,-7985 }, { 160,-7985 }, { 161,-7985 },
  { 162,-7985 }, { 163,-7985 }, { 164,-7985 }, { 165,-7985 }, { 166,-7985 },
-
  { 167,-7985 }, { 168,-7985 }, { 169,-7985 }, { 170,-7985 }, { 171,-7985 },
  { 172,-7985 }, { 173,-7985 }, { 174,-7985 }, { 175,-7985 }, { 176,-7985 },
  { 177,-7985 }, { 178,-7985 }, { 179,-7985 }, { 180,-7985 }, { 181,-7985 },
  { 182,-7985 }, { 183,-7985 }, { 184,-7985 }, { 185,-7985 }, { 186,-7985 },
  { 187,-7985 }, { 188,-7985 }, { 189,-7985 }, { 190,-7985 }, { 191,-7985 },
+
  { 192,-7985 }, { 193,-7985 }, { 194,-7985 }, { 195,-7985 }, { 196,-7985 },
  { 197,-7985 }, { 198,-7985 }, { 199,-7985 }, { 200,-7985 }, { 201,-7985 },
  { 202,-7985 }, { 203,-7985 }, { 204,-7985 }, { 205,-7985 }, { 206,-7985 },
  { 207,-7985 }, { 208,-7985 }, { 209,-7985 }, { 210,-7985 }, { 211,-7985 },
  { 212,-7985 }, { 213,-7985 }, { 214,-7985 }, { 215,-7985 }, { 216,-7985 },
-
  { 217,-7985 }, { 218,-7985 }, { 219,-7985 }, { 220,-7985 }, { 221,-7985 },
  { 222,-7985 }, { 223,-7985 }, { 224,-7985 }, { 225,-7985 }, { 226,-7985 },
  { 227,-7985 }, { 228,-7985 }, { 229,-7985 }, { 230,-7985 }, { 231,-7985 },
  { 232,-7985 }, { 233,-7985 }, { 234,-7985 }, { 235,-7985 }, { 236,-7985 },
  { 237,-7985 }, { 238,-7985 }, { 239,-7985 }, { 240,-7985 }, { 241,-7985 },
+
  { 242,-7985 }, { 243,-7985 }, { 244,-7985 }, { 245,-7985 }, { 246,-7985 },
  { 247,-7985 }, { 248,-7985 }, { 249,-7985 }, { 250,-7985 }, { 251,-7985 },
  { 252,-7985 }, { 253,-7985 }, { 254,-7985 }, { 255,-7985 }, { 256,-7985 },
  {   0,   0 }, {   0,4938 }, {   1,-8243 }, {   2,-8243 }, {   3,-8243 },
  {   4,-8243 }, {   5,-8243 }, {   6,-8243 }, {   7,-8243 }, {   8,-8243 },
-
  {   9,1425 }, {  10,1425 }, {  11,-8243 }, {  12,-8243 }, {  13,1425 },
  {  14,-8243 }, {  15,-8243 }, {  16,-8243 }, {  17,-8243 }, {  18,-8243 },
  {  19,-8243 }, {  20,-8243 }, {  21,-8243 }, {  22,-8243 }, {  23,-8243 },
  {  24,-8243 }, {  25,-8243 }, {  26,-8243 }, {  27,-8243 }, {  28,-8243 },
  {  29,-8243 }, {  30,-8243 }, {  31,-8243 }, {  32,1425 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {  36,-8243 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  41,1425 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  45,-8243 }, {  46,-8268 }, {  47,-8268 }, {  48,-8243 },
  {  49,-8243 }, {  50,-8243 }, {  51,-8243 }, {  52,-8243 }, {  53,-8243 },
  {  54,-8243 }, {  55,-8243 }, {  56,-8243 }, {  57,-8243 }, {  58,-8243 },
-
  {   0,   0 }, {   0,   0 }, {  61,-8268 }, {   0,   0 }, {  63,-8243 },
  {   0,   0 }, {  65,-8243 }, {  66,-8243 }, {  67,-8243 }, {  68,-8243 },
  {  69,-8243 }, {  70,-8243 }, {  71,-8243 }, {  72,-8243 }, {  73,-8243 },
  {  74,-8243 }, {  75,-8243 }, {  76,-8243 }, {  77,-8243 }, {  78,-8243 },
  {  79,-8243 }, {  80,-8243 }, {  81,-8243 }, {  82,-8243 }, {  83,-8243 },
+
  {  84,-8243 }, {  85,-8243 }, {  86,-8243 }, {  87,-8243 }, {  88,-8243 },
  {  89,-8243 }, {  90,-8243 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-8243 }, {   0,   0 }, {  97,-8243 }, {  98,-8243 },
  {  99,-8243 }, { 100,-8243 }, { 101,-8243 }, { 102,-8243 }, { 103,-8243 },
  { 104,-8243 }, { 105,-8243 }, { 106,-8243 }, { 107,-8243 }, { 108,-8243 },
-
  { 109,-8243 }, { 110,-8243 }, { 111,-8243 }, { 112,-8243 }, { 113,-8243 },
  { 114,-8243 }, { 115,-8243 }, { 116,-8243 }, { 117,-8243 }, { 118,-8243 },
  { 119,-8243 }, { 120,-8243 }, { 121,-8243 }, { 122,-8243 }, {   0,   0 },
  { 124,-8268 }, { 125,1425 }, { 126,1425 }, { 127,-8243 }, { 128,-8243 },
  { 129,-8243 }, { 130,-8243 }, { 131,-8243 }, { 132,-8243 }, { 133,-8243 },
+
  { 134,-8243 }, { 135,-8243 }, { 136,-8243 }, { 137,-8243 }, { 138,-8243 },
  { 139,-8243 }, { 140,-8243 }, { 141,-8243 }, { 142,-8243 }, { 143,-8243 },
  { 144,-8243 }, { 145,-8243 }, { 146,-8243 }, { 147,-8243 }, { 148,-8243 },
  { 149,-8243 }, { 150,-8243 }, { 151,-8243 }, { 152,-8243 }, { 153,-8243 },
  { 154,-8243 }, { 155,-8243 }, { 156,-8243 }, { 157,-8243 }, { 158,-8243 },
-
  { 159,-8243 }, { 160,-8243 }, { 161,-8243 }, { 162,-8243 }, { 163,-8243 },
  { 164,-8243 }, { 165,-8243 }, { 166,-8243 }, { 167,-8243 }, { 168,-8243 },
  { 169,-8243 }, { 170,-8243 }, { 171,-8243 }, { 172,-8243 }, { 173,-8243 },
  { 174,-8243 }, { 175,-8243 }, { 176,-8243 }, { 177,-8243 }, { 178,-8243 },
  { 179,-8243 }, { 180,-8243 }, { 181,-8243 }, { 182,-8243 }, { 183,-8243 },
+
  { 184,-8243 }, { 185,-8243 }, { 186,-8243 }, { 187,-8243 }, { 188,-8243 },
  { 189,-8243 }, { 190,-8243 }, { 191,-8243 }, { 192,-8243 }, { 193,-8243 },
  { 194,-8243 }, { 195,-8243 }, { 196,-8243 }, { 197,-8243 }, { 198,-8243 },
  { 199,-8243 }, { 200,-8243 }, { 201,-8243 }, { 202,-8243 }, { 203,-8243 },
  { 204,-8243 }, { 205,-8243 }, { 206,-8243 }, { 207,-8243 }, { 208,-8243 },
-
  { 209,-8243 }, { 210,-8243 }, { 211,-8243 }, { 212,-8243 }, { 213,-8243 },
  { 214,-8243 }, { 215,-8243 }, { 216,-8243 }, { 217,-8243 }, { 218,-8243 },
  { 219,-8243 }, { 220,-8243 }, { 221,-8243 }, { 222,-8243 }, { 223,-8243 },
  { 224,-8243 }, { 225,-8243 }, { 226,-8243 }, { 227,-8243 }, { 228,-8243 },
  { 229,-8243 }, { 230,-8243 }, { 231,-8243 }, { 232,-8243 }, { 233,-8243 },
+
  { 234,-8243 }, { 235,-8243 }, { 236,-8243 }, { 237,-8243 }, { 238,-8243 },
  { 239,-8243 }, { 240,-8243 }, { 241,-8243 }, { 242,-8243 }, { 243,-8243 },
  { 244,-8243 }, { 245,-8243 }, { 246,-8243 }, { 247,-8243 }, { 248,-8243 },
  { 249,-8243 }, { 250,-8243 }, { 251,-8243 }, { 252,-8243 }, { 253,-8243 },
  { 254,-8243 }, { 255,-8243 }, { 256,-8243 }, {   0,   0 }, {   0,4680 },
-
  {   1,-8501 }, {   2,-8501 }, {   3,-8501 }, {   4,-8501 }, {   5,-8501 },
  {   6,-8501 }, {   7,-8501 }, {   8,-8501 }, {   9,-8526 }, {  10,-8526 },
  {  11,-8501 }, {  12,-8501 }, {  13,-8526 }, {  14,-8501 }, {  15,-8501 },
  {  16,-8501 }, {  17,-8501 }, {  18,-8501 }, {  19,-8501 }, {  20,-8501 },
  {  21,-8501 }, {  22,-8501 }, {  23,-8501 }, {  24,-8501 }, {  25,-8501 },
+
  {  26,-8501 }, {  27,-8501 }, {  28,-8501 }, {  29,-8501 }, {  30,-8501 },
  {  31,-8501 }, {  32,-8526 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  36,-8501 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,-8526 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8501 },
  {  46,-8526 }, {  47,-8526 }, {  48,-8501 }, {  49,-8501 }, {  50,-8501 },
-
  {  51,-8501 }, {  52,-8501 }, {  53,-8501 }, {  54,-8501 }, {  55,-8501 },
  {  56,-8501 }, {  57,-8501 }, {  58,-8501 }, {   0,   0 }, {   0,   0 },
  {  61,-8526 }, {   0,   0 }, {  63,-8501 }, {   0,   0 }, {  65,-8501 },
  {  66,-8501 }, {  67,-8501 }, {  68,-8501 }, {  69,-8501 }, {  70,-8501 },
  {  71,-8501 }, {  72,-8501 }, {  73,-8501 }, {  74,-8501 }, {  75,-8501 },
+
  {  76,-8501 }, {  77,-8501 }, {  78,-8501 }, {  79,-8501 }, {  80,-8501 },
  {  81,-8501 }, {  82,-8501 }, {  83,-8501 }, {  84,-8501 }, {  85,-8501 },
  {  86,-8501 }, {  87,-8501 }, {  88,-8501 }, {  89,-8501 }, {  90,-8501 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-8501 },
  {   0,   0 }, {  97,-8501 }, {  98,-8501 }, {  99,-8501 }, { 100,-8501 },
-
  { 101,-8501 }, { 102,1446 }, { 103,-8501 }, { 104,-8501 }, { 105,-8501 },
  { 106,-8501 }, { 107,-8501 }, { 108,-8501 }, { 109,-8501 }, { 110,-8501 },
  { 111,-8501 }, { 112,-8501 }, { 113,-8501 }, { 114,-8501 }, { 115,-8501 },
  { 116,-8501 }, { 117,-8501 }, { 118,-8501 }, { 119,-8501 }, { 120,-8501 },
  { 121,-8501 }, { 122,-8501 }, {   0,   0 }, { 124,-8526 }, { 125,-8526 },
+
  { 126,-8526 }, { 127,-8501 }, { 128,-8501 }, { 129,-8501 }, { 130,-8501 },
  { 131,-8501 }, { 132,-8501 }, { 133,-8501 }, { 134,-8501 }, { 135,-8501 },
  { 136,-8501 }, { 137,-8501 }, { 138,-8501 }, { 139,-8501 }, { 140,-8501 },
  { 141,-8501 }, { 142,-8501 }, { 143,-8501 }, { 144,-8501 }, { 145,-8501 },
  { 146,-8501 }, { 147,-8501 }, { 148,-8501 }, { 149,-8501 }, { 150,-8501 },
-
  { 151,-8501 }, { 152,-8501 }, { 153,-8501 }, { 154,-8501 }, { 155,-8501 },
  { 156,-8501 }, { 157,-8501 }, { 158,-8501 }, { 159,-8501 }, { 160,-8501 },
  { 161,-8501 }, { 162,-8501 }, { 163,-8501 }, { 164,-8501 }, { 165,-8501 },
  { 166,-8501 }, { 167,-8501 }, { 168,-8501 }, { 169,-8501 }, { 170,-8501 },
  { 171,-8501 }, { 172,-8501 }, { 173,-8501 }, { 174,-8501 }, { 175,-8501 },
+
  { 176,-8501 }, { 177,-8501 }, { 178,-8501 }, { 179,-8501 }, { 180,-8501 },
  { 181,-8501 }, { 182,-8501 }, { 183,-8501 }, { 184,-8501 }, { 185,-8501 },
  { 186,-8501 }, { 187,-8501 }, { 188,-8501 }, { 189,-8501 }, { 190,-8501 },
  { 191,-8501 }, { 192,-8501 }, { 193,-8501 }, { 194,-8501 }, { 195,-8501 },
  { 196,-8501 }, { 197,-8501 }, { 198,-8501 }, { 199,-8501 }, { 200,-8501 },
-
  { 201,-8501 }, { 202,-8501 }, { 203,-8501 }, { 204,-8501 }, { 205,-8501 },
  { 206,-8501 }, { 207,-8501 }, { 208,-8501 }, { 209,-8501 }, { 210,-8501 },
  { 211,-8501 }, { 212,-8501 }, { 213,-8501 }, { 214,-8501 }, { 215,-8501 },
  { 216,-8501 }, { 217,-8501 }, { 218,-8501 }, { 219,-8501 }, { 220,-8501 },
  { 221,-8501 }, { 222,-8501 }, { 223,-8501 }, { 224,-8501 }, { 225,-8501 },
+
  { 226,-8501 }, { 227,-8501 }, { 228,-8501 }, { 229,-8501 }, { 230,-8501 },
  { 231,-8501 }, { 232,-8501 }, { 233,-8501 }, { 234,-8501 }, { 235,-8501 },
  { 236,-8501 }, { 237,-8501 }, { 238,-8501 }, { 239,-8501 }, { 240,-8501 },
  { 241,-8501 }, { 242,-8501 }, { 243,-8501 }, { 244,-8501 }, { 245,-8501 },
  { 246,-8501 }, { 247,-8501 }, { 248,-8501 }, { 249,-8501 }, { 250,-8501 },
-
  { 251,-8501 }, { 252,-8501 }, { 253,-8501 }, { 254,-8501 }, { 255,-8501 },
  { 256,-8501 }, {   0,   0 }, {   0,4422 }, {   0,   0 }, {   0,4420 },
- {   0,   0 }, {   0,4418 }, {   0,  16 }, {   0,4416 }, {   0,  26 },
- {   0,4414 }, {   9,   0 }, {  10,   0 }, {   0,  17 }, {   0,4410 },
- {  13,   0 }, {   0,  36 }, {   0,4407 }, {   0,   0 }, {   0,   0 },
+ {   0,   0 }, {   0,4418 }, {   0,  17 }, {   0,4416 }, {   0,  27 },
+ {   0,4414 }, {   9,   0 }, {  10,   0 }, {   0,  18 }, {   0,4410 },
+ {  13,   0 }, {   0,  37 }, {   0,4407 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, { 115, 916 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, { 125,-1579 }, { 126,   2 }, { 125,-1581 },
  {   0,   0 }, {   0,4293 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
-
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
  {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
  {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
  {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
  {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
+
  {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
  {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
  {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
-
  {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
  {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
  {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
  {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
  {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
+
  {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
  {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
  {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
  { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
  { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
-
  { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
  { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
  { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
  { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
  { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
+
  { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
  { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
  { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
  { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
  { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
-
  { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
  { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
  { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
  { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
  { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
+
  { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
  { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
  { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
  { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
  { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
-
  { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
  { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
  { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
  { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
  { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
+
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
  { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,4035 },
  {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
-
  {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
  {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
  {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
  {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
  {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
+
  {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
  {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
  {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,1059 },
  {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
  {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
-
  {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
  {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
  {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
  {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
  {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
+
  {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
  {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
  {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
  {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
  { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
-
  { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
  { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
  { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
  { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
  { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
+
  { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
  { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
  { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
  { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
  { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
-
  { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
  { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
  { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
  { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
  { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
+
  { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
  { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
  { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
  { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
  { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
-
  { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
  { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
  { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
  { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
  { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
+
  { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
  { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
  { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
  { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
  { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
-
  { 256,-258 }, {   0,   0 }, {   0,3777 }, {   1, 277 }, {   2, 277 },
  {   3, 277 }, {   4, 277 }, {   5, 277 }, {   6, 277 }, {   7, 277 },
  {   8, 277 }, {   9, 277 }, {  10, 277 }, {  11, 277 }, {  12, 277 },
  {  13, 277 }, {  14, 277 }, {  15, 277 }, {  16, 277 }, {  17, 277 },
  {  18, 277 }, {  19, 277 }, {  20, 277 }, {  21, 277 }, {  22, 277 },
+
  {  23, 277 }, {  24, 277 }, {  25, 277 }, {  26, 277 }, {  27, 277 },
  {  28, 277 }, {  29, 277 }, {  30, 277 }, {  31, 277 }, {  32, 277 },
  {  33, 277 }, {  34, 277 }, {  35, 277 }, {  36, 277 }, {  37, 277 },
  {  38, 277 }, {  39, 277 }, {  40, 277 }, {  41, 277 }, {  42, 277 },
  {  43, 277 }, {  44, 277 }, {  45, 277 }, {  46, 277 }, {  47,1059 },
-
  {  48, 277 }, {  49, 277 }, {  50, 277 }, {  51, 277 }, {  52, 277 },
  {  53, 277 }, {  54, 277 }, {  55, 277 }, {  56, 277 }, {  57, 277 },
  {  58, 277 }, {  59, 277 }, {  60, 277 }, {  61, 277 }, {  62, 277 },
  {  63, 277 }, {  64, 277 }, {  65, 277 }, {  66, 277 }, {  67, 277 },
  {  68, 277 }, {  69, 277 }, {  70, 277 }, {  71, 277 }, {  72, 277 },
+
  {  73, 277 }, {  74, 277 }, {  75, 277 }, {  76, 277 }, {  77, 277 },
  {  78, 277 }, {  79, 277 }, {  80, 277 }, {  81, 277 }, {  82, 277 },
  {  83, 277 }, {  84, 277 }, {  85, 277 }, {  86, 277 }, {  87, 277 },
  {  88, 277 }, {  89, 277 }, {  90, 277 }, {  91, 277 }, {  92, 277 },
  {  93, 277 }, {  94, 277 }, {  95, 277 }, {  96, 277 }, {  97, 277 },
-
  {  98, 277 }, {  99, 277 }, { 100, 277 }, { 101, 277 }, { 102, 277 },
  { 103, 277 }, { 104, 277 }, { 105, 277 }, { 106, 277 }, { 107, 277 },
  { 108, 277 }, { 109, 277 }, { 110, 277 }, { 111, 277 }, { 112, 277 },
  { 113, 277 }, { 114, 277 }, { 115, 277 }, { 116, 277 }, { 117, 277 },
  { 118, 277 }, { 119, 277 }, { 120, 277 }, { 121, 277 }, { 122, 277 },
+
  { 123, 277 }, { 124, 277 }, { 125, 277 }, { 126, 277 }, { 127, 277 },
  { 128, 277 }, { 129, 277 }, { 130, 277 }, { 131, 277 }, { 132, 277 },
  { 133, 277 }, { 134, 277 }, { 135, 277 }, { 136, 277 }, { 137, 277 },
  { 138, 277 }, { 139, 277 }, { 140, 277 }, { 141, 277 }, { 142, 277 },
  { 143, 277 }, { 144, 277 }, { 145, 277 }, { 146, 277 }, { 147, 277 },
-
  { 148, 277 }, { 149, 277 }, { 150, 277 }, { 151, 277 }, { 152, 277 },
  { 153, 277 }, { 154, 277 }, { 155, 277 }, { 156, 277 }, { 157, 277 },
  { 158, 277 }, { 159, 277 }, { 160, 277 }, { 161, 277 }, { 162, 277 },
  { 163, 277 }, { 164, 277 }, { 165, 277 }, { 166, 277 }, { 167, 277 },
  { 168, 277 }, { 169, 277 }, { 170, 277 }, { 171, 277 }, { 172, 277 },
+
  { 173, 277 }, { 174, 277 }, { 175, 277 }, { 176, 277 }, { 177, 277 },
  { 178, 277 }, { 179, 277 }, { 180, 277 }, { 181, 277 }, { 182, 277 },
  { 183, 277 }, { 184, 277 }, { 185, 277 }, { 186, 277 }, { 187, 277 },
  { 188, 277 }, { 189, 277 }, { 190, 277 }, { 191, 277 }, { 192, 277 },
  { 193, 277 }, { 194, 277 }, { 195, 277 }, { 196, 277 }, { 197, 277 },
-
  { 198, 277 }, { 199, 277 }, { 200, 277 }, { 201, 277 }, { 202, 277 },
  { 203, 277 }, { 204, 277 }, { 205, 277 }, { 206, 277 }, { 207, 277 },
  { 208, 277 }, { 209, 277 }, { 210, 277 }, { 211, 277 }, { 212, 277 },
  { 213, 277 }, { 214, 277 }, { 215, 277 }, { 216, 277 }, { 217, 277 },
  { 218, 277 }, { 219, 277 }, { 220, 277 }, { 221, 277 }, { 222, 277 },
+
  { 223, 277 }, { 224, 277 }, { 225, 277 }, { 226, 277 }, { 227, 277 },
  { 228, 277 }, { 229, 277 }, { 230, 277 }, { 231, 277 }, { 232, 277 },
  { 233, 277 }, { 234, 277 }, { 235, 277 }, { 236, 277 }, { 237, 277 },
  { 238, 277 }, { 239, 277 }, { 240, 277 }, { 241, 277 }, { 242, 277 },
  { 243, 277 }, { 244, 277 }, { 245, 277 }, { 246, 277 }, { 247, 277 },
-
  { 248, 277 }, { 249, 277 }, { 250, 277 }, { 251, 277 }, { 252, 277 },
  { 253, 277 }, { 254, 277 }, { 255, 277 }, { 256, 277 }, {   0,   1 },
- {   0,3519 }, {   0,   1 }, {   0,3517 }, {   0,  46 }, {   0,3515 },
- {   0,  43 }, {   0,3513 }, {   0,  28 }, {   0,3511 }, {   0,  22 },
+ {   0,3519 }, {   0,   1 }, {   0,3517 }, {   0,  47 }, {   0,3515 },
+ {   0,  44 }, {   0,3513 }, {   0,  29 }, {   0,3511 }, {   0,  23 },
  {   0,3509 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,3502 }, {   0,   8 }, {   0,3500 },
- {   0,   1 }, {   0,3498 }, {   0,  44 }, {   0,3496 }, {   0,  25 },
+ {   0,   1 }, {   0,3498 }, {   0,  45 }, {   0,3496 }, {   0,  26 },
  {   0,3494 }, {   0,   0 }, {   0,3492 }, {   1,-9689 }, {   2,-9689 },
  {   3,-9689 }, {   4,-9689 }, {   5,-9689 }, {   6,-9689 }, {   7,-9689 },
  {   8,-9689 }, {   9,  -4 }, {  10,  -4 }, {  11,-9689 }, {  12,-9689 },
-
  {  13,  -4 }, {  14,-9689 }, {  15,-9689 }, {  16,-9689 }, {  17,-9689 },
  {  18,-9689 }, {  19,-9689 }, {  20,-9689 }, {  21,-9689 }, {  22,-9689 },
  {  23,-9689 }, {  24,-9689 }, {  25,-9689 }, {  26,-9689 }, {  27,-9689 },
  {  28,-9689 }, {  29,-9689 }, {  30,-9689 }, {  31,-9689 }, {  32,  -4 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9689 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,  -4 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  45,-9689 }, {  46,-9714 }, {  47,-9714 },
  {  48,-9689 }, {  49,-9689 }, {  50,-9689 }, {  51,-9689 }, {  52,-9689 },
  {  53,-9689 }, {  54,-9689 }, {  55,-9689 }, {  56,-9689 }, {  57,-9689 },
  {  58,-9689 }, {   0,   0 }, {   0,   0 }, {  61,-9714 }, {   0,   0 },
-
  {  63,-9689 }, {   0,   0 }, {  65,-9689 }, {  66,-9689 }, {  67,-9689 },
  {  68,-9689 }, {  69,-9689 }, {  70,-9689 }, {  71,-9689 }, {  72,-9689 },
  {  73,-9689 }, {  74,-9689 }, {  75,-9689 }, {  76,-9689 }, {  77,-9689 },
  {  78,-9689 }, {  79,-9689 }, {  80,-9689 }, {  81,-9689 }, {  82,-9689 },
  {  83,-9689 }, {  84,-9689 }, {  85,-9689 }, {  86,-9689 }, {  87,-9689 },
+
  {  88,-9689 }, {  89,-9689 }, {  90,-9689 }, { 101,1300 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  95,-9689 }, { 123,  21 }, {  97,-9689 },
  {  98,-9689 }, {  99,-9689 }, { 100,-9689 }, { 101,-9689 }, { 102,-9689 },
  { 103,-9689 }, { 104,-9689 }, { 105,-9689 }, { 106,-9689 }, { 107,-9689 },
  { 108,-9689 }, { 109,-9689 }, { 110,-9689 }, { 111,-9689 }, { 112,-9689 },
-
  { 113,-9689 }, { 114,-9689 }, { 115,-9689 }, { 116,-9689 }, { 117,-9689 },
  { 118,-9689 }, { 119,-9689 }, { 120,-9689 }, { 121,-9689 }, { 122,-9689 },
  {   0,   0 }, { 124,-9714 }, { 125,  -4 }, { 126,  -4 }, { 127,-9689 },
  { 128,-9689 }, { 129,-9689 }, { 130,-9689 }, { 131,-9689 }, { 132,-9689 },
  { 133,-9689 }, { 134,-9689 }, { 135,-9689 }, { 136,-9689 }, { 137,-9689 },
+
  { 138,-9689 }, { 139,-9689 }, { 140,-9689 }, { 141,-9689 }, { 142,-9689 },
  { 143,-9689 }, { 144,-9689 }, { 145,-9689 }, { 146,-9689 }, { 147,-9689 },
  { 148,-9689 }, { 149,-9689 }, { 150,-9689 }, { 151,-9689 }, { 152,-9689 },
  { 153,-9689 }, { 154,-9689 }, { 155,-9689 }, { 156,-9689 }, { 157,-9689 },
  { 158,-9689 }, { 159,-9689 }, { 160,-9689 }, { 161,-9689 }, { 162,-9689 },
-
  { 163,-9689 }, { 164,-9689 }, { 165,-9689 }, { 166,-9689 }, { 167,-9689 },
  { 168,-9689 }, { 169,-9689 }, { 170,-9689 }, { 171,-9689 }, { 172,-9689 },
  { 173,-9689 }, { 174,-9689 }, { 175,-9689 }, { 176,-9689 }, { 177,-9689 },
  { 178,-9689 }, { 179,-9689 }, { 180,-9689 }, { 181,-9689 }, { 182,-9689 },
  { 183,-9689 }, { 184,-9689 }, { 185,-9689 }, { 186,-9689 }, { 187,-9689 },
+
  { 188,-9689 }, { 189,-9689 }, { 190,-9689 }, { 191,-9689 }, { 192,-9689 },
  { 193,-9689 }, { 194,-9689 }, { 195,-9689 }, { 196,-9689 }, { 197,-9689 },
  { 198,-9689 }, { 199,-9689 }, { 200,-9689 }, { 201,-9689 }, { 202,-9689 },
  { 203,-9689 }, { 204,-9689 }, { 205,-9689 }, { 206,-9689 }, { 207,-9689 },
  { 208,-9689 }, { 209,-9689 }, { 210,-9689 }, { 211,-9689 }, { 212,-9689 },
-
  { 213,-9689 }, { 214,-9689 }, { 215,-9689 }, { 216,-9689 }, { 217,-9689 },
  { 218,-9689 }, { 219,-9689 }, { 220,-9689 }, { 221,-9689 }, { 222,-9689 },
  { 223,-9689 }, { 224,-9689 }, { 225,-9689 }, { 226,-9689 }, { 227,-9689 },
  { 228,-9689 }, { 229,-9689 }, { 230,-9689 }, { 231,-9689 }, { 232,-9689 },
  { 233,-9689 }, { 234,-9689 }, { 235,-9689 }, { 236,-9689 }, { 237,-9689 },
+
  { 238,-9689 }, { 239,-9689 }, { 240,-9689 }, { 241,-9689 }, { 242,-9689 },
  { 243,-9689 }, { 244,-9689 }, { 245,-9689 }, { 246,-9689 }, { 247,-9689 },
  { 248,-9689 }, { 249,-9689 }, { 250,-9689 }, { 251,-9689 }, { 252,-9689 },
  { 253,-9689 }, { 254,-9689 }, { 255,-9689 }, { 256,-9689 }, {   0,   0 },
  {   0,3234 }, {   1,-9947 }, {   2,-9947 }, {   3,-9947 }, {   4,-9947 },
-
  {   5,-9947 }, {   6,-9947 }, {   7,-9947 }, {   8,-9947 }, {   9,-9972 },
  {  10,-9972 }, {  11,-9947 }, {  12,-9947 }, {  13,-9972 }, {  14,-9947 },
  {  15,-9947 }, {  16,-9947 }, {  17,-9947 }, {  18,-9947 }, {  19,-9947 },
  {  20,-9947 }, {  21,-9947 }, {  22,-9947 }, {  23,-9947 }, {  24,-9947 },
  {  25,-9947 }, {  26,-9947 }, {  27,-9947 }, {  28,-9947 }, {  29,-9947 },
+
  {  30,-9947 }, {  31,-9947 }, {  32,-9972 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  36,-9947 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  41,-9972 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  45,-9947 }, {  46,-9972 }, {  47,-9972 }, {  48,-9947 }, {  49,-9947 },
  {  50,-9947 }, {  51,-9947 }, {  52,-9947 }, {  53,-9947 }, {  54,-9947 },
-
  {  55,-9947 }, {  56,-9947 }, {  57,-9947 }, {  58,-9947 }, {   0,   0 },
  {   0,   0 }, {  61,-9972 }, {   0,   0 }, {  63,-9947 }, {   0,   0 },
  {  65,-9947 }, {  66,-9947 }, {  67,-9947 }, {  68,-9947 }, {  69,-9947 },
  {  70,-9947 }, {  71,-9947 }, {  72,-9947 }, {  73,-9947 }, {  74,-9947 },
  {  75,-9947 }, {  76,-9947 }, {  77,-9947 }, {  78,-9947 }, {  79,-9947 },
+
  {  80,-9947 }, {  81,-9947 }, {  82,-9947 }, {  83,-9947 }, {  84,-9947 },
  {  85,-9947 }, {  86,-9947 }, {  87,-9947 }, {  88,-9947 }, {  89,-9947 },
  {  90,-9947 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  95,-9947 }, {   0,   0 }, {  97,-9947 }, {  98,-9947 }, {  99,-9947 },
  { 100,-9947 }, { 101,-9947 }, { 102,-9947 }, { 103,-9947 }, { 104,-9947 },
-
  { 105, 774 }, { 106,-9947 }, { 107,-9947 }, { 108,-9947 }, { 109,-9947 },
  { 110,-9947 }, { 111,-9947 }, { 112,-9947 }, { 113,-9947 }, { 114,-9947 },
  { 115,-9947 }, { 116,-9947 }, { 117,-9947 }, { 118,-9947 }, { 119,-9947 },
  { 120,-9947 }, { 121,-9947 }, { 122,-9947 }, {   0,   0 }, { 124,-9972 },
  { 125,-9972 }, { 126,-9972 }, { 127,-9947 }, { 128,-9947 }, { 129,-9947 },
+
  { 130,-9947 }, { 131,-9947 }, { 132,-9947 }, { 133,-9947 }, { 134,-9947 },
  { 135,-9947 }, { 136,-9947 }, { 137,-9947 }, { 138,-9947 }, { 139,-9947 },
  { 140,-9947 }, { 141,-9947 }, { 142,-9947 }, { 143,-9947 }, { 144,-9947 },
  { 145,-9947 }, { 146,-9947 }, { 147,-9947 }, { 148,-9947 }, { 149,-9947 },
  { 150,-9947 }, { 151,-9947 }, { 152,-9947 }, { 153,-9947 }, { 154,-9947 },
-
  { 155,-9947 }, { 156,-9947 }, { 157,-9947 }, { 158,-9947 }, { 159,-9947 },
  { 160,-9947 }, { 161,-9947 }, { 162,-9947 }, { 163,-9947 }, { 164,-9947 },
  { 165,-9947 }, { 166,-9947 }, { 167,-9947 }, { 168,-9947 }, { 169,-9947 },
  { 170,-9947 }, { 171,-9947 }, { 172,-9947 }, { 173,-9947 }, { 174,-9947 },
  { 175,-9947 }, { 176,-9947 }, { 177,-9947 }, { 178,-9947 }, { 179,-9947 },
+
  { 180,-9947 }, { 181,-9947 }, { 182,-9947 }, { 183,-9947 }, { 184,-9947 },
  { 185,-9947 }, { 186,-9947 }, { 187,-9947 }, { 188,-9947 }, { 189,-9947 },
  { 190,-9947 }, { 191,-9947 }, { 192,-9947 }, { 193,-9947 }, { 194,-9947 },
  { 195,-9947 }, { 196,-9947 }, { 197,-9947 }, { 198,-9947 }, { 199,-9947 },
  { 200,-9947 }, { 201,-9947 }, { 202,-9947 }, { 203,-9947 }, { 204,-9947 },
-
  { 205,-9947 }, { 206,-9947 }, { 207,-9947 }, { 208,-9947 }, { 209,-9947 },
  { 210,-9947 }, { 211,-9947 }, { 212,-9947 }, { 213,-9947 }, { 214,-9947 },
  { 215,-9947 }, { 216,-9947 }, { 217,-9947 }, { 218,-9947 }, { 219,-9947 },
  { 220,-9947 }, { 221,-9947 }, { 222,-9947 }, { 223,-9947 }, { 224,-9947 },
  { 225,-9947 }, { 226,-9947 }, { 227,-9947 }, { 228,-9947 }, { 229,-9947 },
+
  { 230,-9947 }, { 231,-9947 }, { 232,-9947 }, { 233,-9947 }, { 234,-9947 },
  { 235,-9947 }, { 236,-9947 }, { 237,-9947 }, { 238,-9947 }, { 239,-9947 },
  { 240,-9947 }, { 241,-9947 }, { 242,-9947 }, { 243,-9947 }, { 244,-9947 },
  { 245,-9947 }, { 246,-9947 }, { 247,-9947 }, { 248,-9947 }, { 249,-9947 },
  { 250,-9947 }, { 251,-9947 }, { 252,-9947 }, { 253,-9947 }, { 254,-9947 },
-
  { 255,-9947 }, { 256,-9947 }, {   0,   0 }, {   0,2976 }, {   1,-1317 },
  {   2,-1317 }, {   3,-1317 }, {   4,-1317 }, {   5,-1317 }, {   6,-1317 },
  {   7,-1317 }, {   8,-1317 }, {   9,-1317 }, {  10,-1317 }, {  11,-1317 },
  {  12,-1317 }, {  13,-1317 }, {  14,-1317 }, {  15,-1317 }, {  16,-1317 },
  {  17,-1317 }, {  18,-1317 }, {  19,-1317 }, {  20,-1317 }, {  21,-1317 },
+
  {  22,-1317 }, {  23,-1317 }, {  24,-1317 }, {  25,-1317 }, {  26,-1317 },
  {  27,-1317 }, {  28,-1317 }, {  29,-1317 }, {  30,-1317 }, {  31,-1317 },
  {  32,-1317 }, {  33,-1317 }, {  34,-1317 }, {  35,-1317 }, {  36,-1317 },
  {  37,-1317 }, {  38,-1317 }, {  39,-1317 }, {  40,-1317 }, {  41,-1317 },
  {  42,-1317 }, {  43,-1317 }, {  44,-1317 }, {  45,   0 }, {  46,-1317 },
-
  {  47,-1317 }, {  48,-1317 }, {  49,-1317 }, {  50,-1317 }, {  51,-1317 },
  {  52,-1317 }, {  53,-1317 }, {  54,-1317 }, {  55,-1317 }, {  56,-1317 },
  {  57,-1317 }, {  58,-1317 }, {  59,-1317 }, {  60,-1317 }, {  61,-1317 },
  {  62,-1317 }, {  63,-1317 }, {  64,-1317 }, {  65,-1317 }, {  66,-1317 },
  {  67,-1317 }, {  68,-1317 }, {  69,-1317 }, {  70,-1317 }, {  71,-1317 },
+
  {  72,-1317 }, {  73,-1317 }, {  74,-1317 }, {  75,-1317 }, {  76,-1317 },
  {  77,-1317 }, {  78,-1317 }, {  79,-1317 }, {  80,-1317 }, {  81,-1317 },
  {  82,-1317 }, {  83,-1317 }, {  84,-1317 }, {  85,-1317 }, {  86,-1317 },
  {  87,-1317 }, {  88,-1317 }, {  89,-1317 }, {  90,-1317 }, {  91,-1317 },
  {  92,-1317 }, {  93,-1317 }, {  94,-1317 }, {  95,-1317 }, {  96,-1317 },
-
  {  97,-1317 }, {  98,-1317 }, {  99,-1317 }, { 100,-1317 }, { 101,-1317 },
  { 102,-1317 }, { 103,-1317 }, { 104,-1317 }, { 105,-1317 }, { 106,-1317 },
  { 107,-1317 }, { 108,-1317 }, { 109,-1317 }, { 110,-1317 }, { 111,-1317 },
  { 112,-1317 }, { 113,-1317 }, { 114,-1317 }, { 115,-1317 }, { 116,-1317 },
  { 117,-1317 }, { 118,-1317 }, { 119,-1317 }, { 120,-1317 }, { 121,-1317 },
+
  { 122,-1317 }, { 123,-1317 }, { 124,-1317 }, { 125, 902 }, { 126,1160 },
  { 127,-1317 }, { 128,-1317 }, { 129,-1317 }, { 130,-1317 }, { 131,-1317 },
  { 132,-1317 }, { 133,-1317 }, { 134,-1317 }, { 135,-1317 }, { 136,-1317 },
  { 137,-1317 }, { 138,-1317 }, { 139,-1317 }, { 140,-1317 }, { 141,-1317 },
  { 142,-1317 }, { 143,-1317 }, { 144,-1317 }, { 145,-1317 }, { 146,-1317 },
-
  { 147,-1317 }, { 148,-1317 }, { 149,-1317 }, { 150,-1317 }, { 151,-1317 },
  { 152,-1317 }, { 153,-1317 }, { 154,-1317 }, { 155,-1317 }, { 156,-1317 },
  { 157,-1317 }, { 158,-1317 }, { 159,-1317 }, { 160,-1317 }, { 161,-1317 },
  { 162,-1317 }, { 163,-1317 }, { 164,-1317 }, { 165,-1317 }, { 166,-1317 },
  { 167,-1317 }, { 168,-1317 }, { 169,-1317 }, { 170,-1317 }, { 171,-1317 },
+
  { 172,-1317 }, { 173,-1317 }, { 174,-1317 }, { 175,-1317 }, { 176,-1317 },
  { 177,-1317 }, { 178,-1317 }, { 179,-1317 }, { 180,-1317 }, { 181,-1317 },
  { 182,-1317 }, { 183,-1317 }, { 184,-1317 }, { 185,-1317 }, { 186,-1317 },
  { 187,-1317 }, { 188,-1317 }, { 189,-1317 }, { 190,-1317 }, { 191,-1317 },
  { 192,-1317 }, { 193,-1317 }, { 194,-1317 }, { 195,-1317 }, { 196,-1317 },
-
  { 197,-1317 }, { 198,-1317 }, { 199,-1317 }, { 200,-1317 }, { 201,-1317 },
  { 202,-1317 }, { 203,-1317 }, { 204,-1317 }, { 205,-1317 }, { 206,-1317 },
  { 207,-1317 }, { 208,-1317 }, { 209,-1317 }, { 210,-1317 }, { 211,-1317 },
  { 212,-1317 }, { 213,-1317 }, { 214,-1317 }, { 215,-1317 }, { 216,-1317 },
  { 217,-1317 }, { 218,-1317 }, { 219,-1317 }, { 220,-1317 }, { 221,-1317 },
+
  { 222,-1317 }, { 223,-1317 }, { 224,-1317 }, { 225,-1317 }, { 226,-1317 },
  { 227,-1317 }, { 228,-1317 }, { 229,-1317 }, { 230,-1317 }, { 231,-1317 },
  { 232,-1317 }, { 233,-1317 }, { 234,-1317 }, { 235,-1317 }, { 236,-1317 },
  { 237,-1317 }, { 238,-1317 }, { 239,-1317 }, { 240,-1317 }, { 241,-1317 },
  { 242,-1317 }, { 243,-1317 }, { 244,-1317 }, { 245,-1317 }, { 246,-1317 },
-
  { 247,-1317 }, { 248,-1317 }, { 249,-1317 }, { 250,-1317 }, { 251,-1317 },
  { 252,-1317 }, { 253,-1317 }, { 254,-1317 }, { 255,-1317 }, { 256,-1317 },
  {   0,   0 }, {   0,2718 }, {   1,1160 }, {   2,1160 }, {   3,1160 },
  {   4,1160 }, {   5,1160 }, {   6,1160 }, {   7,1160 }, {   8,1160 },
  {   0,   0 }, {   0,   0 }, {  11,1160 }, {  12,1160 }, {   0,   0 },
+
  {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 }, {  18,1160 },
  {  19,1160 }, {  20,1160 }, {  21,1160 }, {  22,1160 }, {  23,1160 },
  {  24,1160 }, {  25,1160 }, {  26,1160 }, {  27,1160 }, {  28,1160 },
  {  29,1160 }, {  30,1160 }, {  31,1160 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  36,1160 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  45,1160 }, {   0,   0 }, {   0,   0 }, {  48,1160 },
  {  49,1160 }, {  50,1160 }, {  51,1160 }, {  52,1160 }, {  53,1160 },
  {  54,1160 }, {  55,1160 }, {  56,1160 }, {  57,1160 }, {  58,1160 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,1160 },
+
  {   0,   0 }, {  65,1160 }, {  66,1160 }, {  67,1160 }, {  68,1160 },
  {  69,1160 }, {  70,1160 }, {  71,1160 }, {  72,1160 }, {  73,1160 },
  {  74,1160 }, {  75,1160 }, {  76,1160 }, {  77,1160 }, {  78,1160 },
  {  79,1160 }, {  80,1160 }, {  81,1160 }, {  82,1160 }, {  83,1160 },
  {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 }, {  88,1160 },
-
  {  89,1160 }, {  90,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,1160 }, {   0,   0 }, {  97,1160 }, {  98,1160 },
  {  99,1160 }, { 100,1160 }, { 101,1160 }, { 102,1160 }, { 103,1160 },
  { 104,1160 }, { 105,1160 }, { 106,1160 }, { 107,1160 }, { 108,1160 },
  { 109,1160 }, { 110,1160 }, { 111,1160 }, { 112,1160 }, { 113,1160 },
+
  { 114,1160 }, { 115,1160 }, { 116,1160 }, { 117,1160 }, { 118,1160 },
  { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1160 }, { 128,1160 },
  { 129,1160 }, { 130,1160 }, { 131,1160 }, { 132,1160 }, { 133,1160 },
  { 134,1160 }, { 135,1160 }, { 136,1160 }, { 137,1160 }, { 138,1160 },
-
  { 139,1160 }, { 140,1160 }, { 141,1160 }, { 142,1160 }, { 143,1160 },
  { 144,1160 }, { 145,1160 }, { 146,1160 }, { 147,1160 }, { 148,1160 },
  { 149,1160 }, { 150,1160 }, { 151,1160 }, { 152,1160 }, { 153,1160 },
  { 154,1160 }, { 155,1160 }, { 156,1160 }, { 157,1160 }, { 158,1160 },
  { 159,1160 }, { 160,1160 }, { 161,1160 }, { 162,1160 }, { 163,1160 },
+
  { 164,1160 }, { 165,1160 }, { 166,1160 }, { 167,1160 }, { 168,1160 },
  { 169,1160 }, { 170,1160 }, { 171,1160 }, { 172,1160 }, { 173,1160 },
  { 174,1160 }, { 175,1160 }, { 176,1160 }, { 177,1160 }, { 178,1160 },
  { 179,1160 }, { 180,1160 }, { 181,1160 }, { 182,1160 }, { 183,1160 },
  { 184,1160 }, { 185,1160 }, { 186,1160 }, { 187,1160 }, { 188,1160 },
-
  { 189,1160 }, { 190,1160 }, { 191,1160 }, { 192,1160 }, { 193,1160 },
  { 194,1160 }, { 195,1160 }, { 196,1160 }, { 197,1160 }, { 198,1160 },
  { 199,1160 }, { 200,1160 }, { 201,1160 }, { 202,1160 }, { 203,1160 },
  { 204,1160 }, { 205,1160 }, { 206,1160 }, { 207,1160 }, { 208,1160 },
  { 209,1160 }, { 210,1160 }, { 211,1160 }, { 212,1160 }, { 213,1160 },
+
  { 214,1160 }, { 215,1160 }, { 216,1160 }, { 217,1160 }, { 218,1160 },
  { 219,1160 }, { 220,1160 }, { 221,1160 }, { 222,1160 }, { 223,1160 },
  { 224,1160 }, { 225,1160 }, { 226,1160 }, { 227,1160 }, { 228,1160 },
  { 229,1160 }, { 230,1160 }, { 231,1160 }, { 232,1160 }, { 233,1160 },
  { 234,1160 }, { 235,1160 }, { 236,1160 }, { 237,1160 }, { 238,1160 },
-
  { 239,1160 }, { 240,1160 }, { 241,1160 }, { 242,1160 }, { 243,1160 },
  { 244,1160 }, { 245,1160 }, { 246,1160 }, { 247,1160 }, { 248,1160 },
  { 249,1160 }, { 250,1160 }, { 251,1160 }, { 252,1160 }, { 253,1160 },
  { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 }, {   0,2460 },
  {   1,-10721 }, {   2,-10721 }, {   3,-10721 }, {   4,-10721 }, {   5,-10721 },
+
  {   6,-10721 }, {   7,-10721 }, {   8,-10721 }, {   9,-10746 }, {  10,-10746 },
  {  11,-10721 }, {  12,-10721 }, {  13,-10746 }, {  14,-10721 }, {  15,-10721 },
  {  16,-10721 }, {  17,-10721 }, {  18,-10721 }, {  19,-10721 }, {  20,-10721 },
  {  21,-10721 }, {  22,-10721 }, {  23,-10721 }, {  24,-10721 }, {  25,-10721 },
  {  26,-10721 }, {  27,-10721 }, {  28,-10721 }, {  29,-10721 }, {  30,-10721 },
-
  {  31,-10721 }, {  32,-10746 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  36,-10721 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,-10746 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-10721 },
  {  46,-10746 }, {  47,-10746 }, {  48,-10721 }, {  49,-10721 }, {  50,-10721 },
  {  51,-10721 }, {  52,-10721 }, {  53,-10721 }, {  54,-10721 }, {  55,-10721 },
+
  {  56,-10721 }, {  57,-10721 }, {  58,-10721 }, {   0,   0 }, {   0,   0 },
  {  61,-10746 }, {   0,   0 }, {  63,-10721 }, {   0,   0 }, {  65,-10721 },
  {  66,-10721 }, {  67,-10721 }, {  68,-10721 }, {  69,-10721 }, {  70,-10721 },
  {  71,-10721 }, {  72,-10721 }, {  73,-10721 }, {  74,-10721 }, {  75,-10721 },
  {  76,-10721 }, {  77,-10721 }, {  78,-10721 }, {  79,-10721 }, {  80,-10721 },
-
  {  81,-10721 }, {  82,-10721 }, {  83,-10721 }, {  84,-10721 }, {  85,-10721 },
  {  86,-10721 }, {  87,-10721 }, {  88,-10721 }, {  89,-10721 }, {  90,-10721 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-10721 },
  {   0,   0 }, {  97,-10721 }, {  98,-10721 }, {  99,-10721 }, { 100,-10721 },
  { 101,-10721 }, { 102,-10721 }, { 103,-10721 }, { 104,-10721 }, { 105,-10721 },
+
  { 106,-10721 }, { 107,-10721 }, { 108,-10721 }, { 109,-10721 }, { 110,1160 },
  { 111,-10721 }, { 112,-10721 }, { 113,-10721 }, { 114,-10721 }, { 115,-10721 },
  { 116,-10721 }, { 117,-10721 }, { 118,-10721 }, { 119,-10721 }, { 120,-10721 },
  { 121,-10721 }, { 122,-10721 }, {   0,   0 }, { 124,-10746 }, { 125,-10746 },
  { 126,-10746 }, { 127,-10721 }, { 128,-10721 }, { 129,-10721 }, { 130,-10721 },
-
  { 131,-10721 }, { 132,-10721 }, { 133,-10721 }, { 134,-10721 }, { 135,-10721 },
  { 136,-10721 }, { 137,-10721 }, { 138,-10721 }, { 139,-10721 }, { 140,-10721 },
  { 141,-10721 }, { 142,-10721 }, { 143,-10721 }, { 144,-10721 }, { 145,-10721 },
  { 146,-10721 }, { 147,-10721 }, { 148,-10721 }, { 149,-10721 }, { 150,-10721 },
  { 151,-10721 }, { 152,-10721 }, { 153,-10721 }, { 154,-10721 }, { 155,-10721 },
+
  { 156,-10721 }, { 157,-10721 }, { 158,-10721 }, { 159,-10721 }, { 160,-10721 },
  { 161,-10721 }, { 162,-10721 }, { 163,-10721 }, { 164,-10721 }, { 165,-10721 },
  { 166,-10721 }, { 167,-10721 }, { 168,-10721 }, { 169,-10721 }, { 170,-10721 },
  { 171,-10721 }, { 172,-10721 }, { 173,-10721 }, { 174,-10721 }, { 175,-10721 },
  { 176,-10721 }, { 177,-10721 }, { 178,-10721 }, { 179,-10721 }, { 180,-10721 },
-
  { 181,-10721 }, { 182,-10721 }, { 183,-10721 }, { 184,-10721 }, { 185,-10721 },
  { 186,-10721 }, { 187,-10721 }, { 188,-10721 }, { 189,-10721 }, { 190,-10721 },
  { 191,-10721 }, { 192,-10721 }, { 193,-10721 }, { 194,-10721 }, { 195,-10721 },
  { 196,-10721 }, { 197,-10721 }, { 198,-10721 }, { 199,-10721 }, { 200,-10721 },
  { 201,-10721 }, { 202,-10721 }, { 203,-10721 }, { 204,-10721 }, { 205,-10721 },
+
  { 206,-10721 }, { 207,-10721 }, { 208,-10721 }, { 209,-10721 }, { 210,-10721 },
  { 211,-10721 }, { 212,-10721 }, { 213,-10721 }, { 214,-10721 }, { 215,-10721 },
  { 216,-10721 }, { 217,-10721 }, { 218,-10721 }, { 219,-10721 }, { 220,-10721 },
  { 221,-10721 }, { 222,-10721 }, { 223,-10721 }, { 224,-10721 }, { 225,-10721 },
  { 226,-10721 }, { 227,-10721 }, { 228,-10721 }, { 229,-10721 }, { 230,-10721 },
-
  { 231,-10721 }, { 232,-10721 }, { 233,-10721 }, { 234,-10721 }, { 235,-10721 },
  { 236,-10721 }, { 237,-10721 }, { 238,-10721 }, { 239,-10721 }, { 240,-10721 },
  { 241,-10721 }, { 242,-10721 }, { 243,-10721 }, { 244,-10721 }, { 245,-10721 },
  { 246,-10721 }, { 247,-10721 }, { 248,-10721 }, { 249,-10721 }, { 250,-10721 },
  { 251,-10721 }, { 252,-10721 }, { 253,-10721 }, { 254,-10721 }, { 255,-10721 },
+
  { 256,-10721 }, {   0,   0 }, {   0,2202 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   9,1160 }, {  10,1160 }, {   0,   0 }, {   0,   0 },
  {  13,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1160 },
  {  33,-1292 }, {  34,-1292 }, {  35,-1292 }, {   0,   0 }, {  37,-1292 },
  {  38,-1292 }, {  39,-1292 }, {  40,-1292 }, {  41,-1292 }, {  42,-1292 },
  {  43,-1292 }, {  44,-1292 }, {   0,   0 }, {  46,-1292 }, {  47,-1292 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  59,-1292 }, {  60,-1292 }, {  61,-1292 }, {  62,-1292 },
  {   0,   0 }, {  64,-1292 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  91,-1292 }, {  92,-1292 },
  {  93,-1292 }, {  94,-1292 }, {   0,   0 }, {  96,-1292 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  { 123,-1292 }, { 124,-1292 }, { 125,1162 }, { 126,1164 }, {   0,   0 },
  {   0,2074 }, {   1,-2219 }, {   2,-2219 }, {   3,-2219 }, {   4,-2219 },
  {   5,-2219 }, {   6,-2219 }, {   7,-2219 }, {   8,-2219 }, {   9,-2219 },
  {  10,-2219 }, {  11,-2219 }, {  12,-2219 }, {  13,-2219 }, {  14,-2219 },
  {  15,-2219 }, {  16,-2219 }, {  17,-2219 }, {  18,-2219 }, {  19,-2219 },
+
  {  20,-2219 }, {  21,-2219 }, {  22,-2219 }, {  23,-2219 }, {  24,-2219 },
  {  25,-2219 }, {  26,-2219 }, {  27,-2219 }, {  28,-2219 }, {  29,-2219 },
  {  30,-2219 }, {  31,-2219 }, {  32,-2219 }, {  33,-2219 }, {  34,-2219 },
  {  35,-2219 }, {  36,-2219 }, {  37,-2219 }, {  38,-2219 }, {  39,-2219 },
  {  40,-2219 }, {  41,-2219 }, {  42,-2219 }, {  43,-2219 }, {  44,-2219 },
-
  {  45,1163 }, {  46,-2219 }, {  47,-2219 }, {  48,-2219 }, {  49,-2219 },
  {  50,-2219 }, {  51,-2219 }, {  52,-2219 }, {  53,-2219 }, {  54,-2219 },
  {  55,-2219 }, {  56,-2219 }, {  57,-2219 }, {  58,-2219 }, {  59,-2219 },
  {  60,-2219 }, {  61,-2219 }, {  62,-2219 }, {  63,-2219 }, {  64,-2219 },
  {  65,-2219 }, {  66,-2219 }, {  67,-2219 }, {  68,-2219 }, {  69,-2219 },
+
  {  70,-2219 }, {  71,-2219 }, {  72,-2219 }, {  73,-2219 }, {  74,-2219 },
  {  75,-2219 }, {  76,-2219 }, {  77,-2219 }, {  78,-2219 }, {  79,-2219 },
  {  80,-2219 }, {  81,-2219 }, {  82,-2219 }, {  83,-2219 }, {  84,-2219 },
  {  85,-2219 }, {  86,-2219 }, {  87,-2219 }, {  88,-2219 }, {  89,-2219 },
  {  90,-2219 }, {  91,-2219 }, {  92,-2219 }, {  93,-2219 }, {  94,-2219 },
-
  {  95,-2219 }, {  96,-2219 }, {  97,-2219 }, {  98,-2219 }, {  99,-2219 },
  { 100,-2219 }, { 101,-2219 }, { 102,-2219 }, { 103,-2219 }, { 104,-2219 },
  { 105,-2219 }, { 106,-2219 }, { 107,-2219 }, { 108,-2219 }, { 109,-2219 },
  { 110,-2219 }, { 111,-2219 }, { 112,-2219 }, { 113,-2219 }, { 114,-2219 },
  { 115,-2219 }, { 116,-2219 }, { 117,-2219 }, { 118,-2219 }, { 119,-2219 },
+
  { 120,-2219 }, { 121,-2219 }, { 122,-2219 }, { 123,-2219 }, { 124,-2219 },
  { 125,1038 }, { 126,-2219 }, { 127,-2219 }, { 128,-2219 }, { 129,-2219 },
  { 130,-2219 }, { 131,-2219 }, { 132,-2219 }, { 133,-2219 }, { 134,-2219 },
  { 135,-2219 }, { 136,-2219 }, { 137,-2219 }, { 138,-2219 }, { 139,-2219 },
  { 140,-2219 }, { 141,-2219 }, { 142,-2219 }, { 143,-2219 }, { 144,-2219 },
-
  { 145,-2219 }, { 146,-2219 }, { 147,-2219 }, { 148,-2219 }, { 149,-2219 },
  { 150,-2219 }, { 151,-2219 }, { 152,-2219 }, { 153,-2219 }, { 154,-2219 },
  { 155,-2219 }, { 156,-2219 }, { 157,-2219 }, { 158,-2219 }, { 159,-2219 },
  { 160,-2219 }, { 161,-2219 }, { 162,-2219 }, { 163,-2219 }, { 164,-2219 },
  { 165,-2219 }, { 166,-2219 }, { 167,-2219 }, { 168,-2219 }, { 169,-2219 },
+
  { 170,-2219 }, { 171,-2219 }, { 172,-2219 }, { 173,-2219 }, { 174,-2219 },
  { 175,-2219 }, { 176,-2219 }, { 177,-2219 }, { 178,-2219 }, { 179,-2219 },
  { 180,-2219 }, { 181,-2219 }, { 182,-2219 }, { 183,-2219 }, { 184,-2219 },
  { 185,-2219 }, { 186,-2219 }, { 187,-2219 }, { 188,-2219 }, { 189,-2219 },
  { 190,-2219 }, { 191,-2219 }, { 192,-2219 }, { 193,-2219 }, { 194,-2219 },
-
  { 195,-2219 }, { 196,-2219 }, { 197,-2219 }, { 198,-2219 }, { 199,-2219 },
  { 200,-2219 }, { 201,-2219 }, { 202,-2219 }, { 203,-2219 }, { 204,-2219 },
  { 205,-2219 }, { 206,-2219 }, { 207,-2219 }, { 208,-2219 }, { 209,-2219 },
  { 210,-2219 }, { 211,-2219 }, { 212,-2219 }, { 213,-2219 }, { 214,-2219 },
  { 215,-2219 }, { 216,-2219 }, { 217,-2219 }, { 218,-2219 }, { 219,-2219 },
+
  { 220,-2219 }, { 221,-2219 }, { 222,-2219 }, { 223,-2219 }, { 224,-2219 },
  { 225,-2219 }, { 226,-2219 }, { 227,-2219 }, { 228,-2219 }, { 229,-2219 },
  { 230,-2219 }, { 231,-2219 }, { 232,-2219 }, { 233,-2219 }, { 234,-2219 },
  { 235,-2219 }, { 236,-2219 }, { 237,-2219 }, { 238,-2219 }, { 239,-2219 },
  { 240,-2219 }, { 241,-2219 }, { 242,-2219 }, { 243,-2219 }, { 244,-2219 },
-
  { 245,-2219 }, { 246,-2219 }, { 247,-2219 }, { 248,-2219 }, { 249,-2219 },
  { 250,-2219 }, { 251,-2219 }, { 252,-2219 }, { 253,-2219 }, { 254,-2219 },
  { 255,-2219 }, { 256,-2219 }, {   0,   0 }, {   0,1816 }, {   1,-2477 },
  {   2,-2477 }, {   3,-2477 }, {   4,-2477 }, {   5,-2477 }, {   6,-2477 },
  {   7,-2477 }, {   8,-2477 }, {   9,-2477 }, {  10,-2477 }, {  11,-2477 },
+
  {  12,-2477 }, {  13,-2477 }, {  14,-2477 }, {  15,-2477 }, {  16,-2477 },
  {  17,-2477 }, {  18,-2477 }, {  19,-2477 }, {  20,-2477 }, {  21,-2477 },
  {  22,-2477 }, {  23,-2477 }, {  24,-2477 }, {  25,-2477 }, {  26,-2477 },
  {  27,-2477 }, {  28,-2477 }, {  29,-2477 }, {  30,-2477 }, {  31,-2477 },
  {  32,-2477 }, {  33,-2477 }, {  34,-2477 }, {  35,-2477 }, {  36,-2477 },
-
  {  37,-2477 }, {  38,-2477 }, {  39,-2477 }, {  40,-2477 }, {  41,-2477 },
  {  42,-2477 }, {  43,-2477 }, {  44,-2477 }, {  45, 905 }, {  46,-2477 },
  {  47,-2477 }, {  48,-2477 }, {  49,-2477 }, {  50,-2477 }, {  51,-2477 },
  {  52,-2477 }, {  53,-2477 }, {  54,-2477 }, {  55,-2477 }, {  56,-2477 },
  {  57,-2477 }, {  58,-2477 }, {  59,-2477 }, {  60,-2477 }, {  61,-2477 },
+
  {  62,-2477 }, {  63,-2477 }, {  64,-2477 }, {  65,-2477 }, {  66,-2477 },
  {  67,-2477 }, {  68,-2477 }, {  69,-2477 }, {  70,-2477 }, {  71,-2477 },
  {  72,-2477 }, {  73,-2477 }, {  74,-2477 }, {  75,-2477 }, {  76,-2477 },
  {  77,-2477 }, {  78,-2477 }, {  79,-2477 }, {  80,-2477 }, {  81,-2477 },
  {  82,-2477 }, {  83,-2477 }, {  84,-2477 }, {  85,-2477 }, {  86,-2477 },
-
  {  87,-2477 }, {  88,-2477 }, {  89,-2477 }, {  90,-2477 }, {  91,-2477 },
  {  92,-2477 }, {  93,-2477 }, {  94,-2477 }, {  95,-2477 }, {  96,-2477 },
  {  97,-2477 }, {  98,-2477 }, {  99,-2477 }, { 100,-2477 }, { 101,-2477 },
  { 102,-2477 }, { 103,-2477 }, { 104,-2477 }, { 105,-2477 }, { 106,-2477 },
  { 107,-2477 }, { 108,-2477 }, { 109,-2477 }, { 110,-2477 }, { 111,-2477 },
+
  { 112,-2477 }, { 113,-2477 }, { 114,-2477 }, { 115,-2477 }, { 116,-2477 },
  { 117,-2477 }, { 118,-2477 }, { 119,-2477 }, { 120,-2477 }, { 121,-2477 },
  { 122,-2477 }, { 123,-2477 }, { 124,-2477 }, { 125,-258 }, { 126,-2477 },
  { 127,-2477 }, { 128,-2477 }, { 129,-2477 }, { 130,-2477 }, { 131,-2477 },
  { 132,-2477 }, { 133,-2477 }, { 134,-2477 }, { 135,-2477 }, { 136,-2477 },
-
  { 137,-2477 }, { 138,-2477 }, { 139,-2477 }, { 140,-2477 }, { 141,-2477 },
  { 142,-2477 }, { 143,-2477 }, { 144,-2477 }, { 145,-2477 }, { 146,-2477 },
  { 147,-2477 }, { 148,-2477 }, { 149,-2477 }, { 150,-2477 }, { 151,-2477 },
  { 152,-2477 }, { 153,-2477 }, { 154,-2477 }, { 155,-2477 }, { 156,-2477 },
  { 157,-2477 }, { 158,-2477 }, { 159,-2477 }, { 160,-2477 }, { 161,-2477 },
+
  { 162,-2477 }, { 163,-2477 }, { 164,-2477 }, { 165,-2477 }, { 166,-2477 },
  { 167,-2477 }, { 168,-2477 }, { 169,-2477 }, { 170,-2477 }, { 171,-2477 },
  { 172,-2477 }, { 173,-2477 }, { 174,-2477 }, { 175,-2477 }, { 176,-2477 },
  { 177,-2477 }, { 178,-2477 }, { 179,-2477 }, { 180,-2477 }, { 181,-2477 },
  { 182,-2477 }, { 183,-2477 }, { 184,-2477 }, { 185,-2477 }, { 186,-2477 },
-
  { 187,-2477 }, { 188,-2477 }, { 189,-2477 }, { 190,-2477 }, { 191,-2477 },
  { 192,-2477 }, { 193,-2477 }, { 194,-2477 }, { 195,-2477 }, { 196,-2477 },
  { 197,-2477 }, { 198,-2477 }, { 199,-2477 }, { 200,-2477 }, { 201,-2477 },
  { 202,-2477 }, { 203,-2477 }, { 204,-2477 }, { 205,-2477 }, { 206,-2477 },
  { 207,-2477 }, { 208,-2477 }, { 209,-2477 }, { 210,-2477 }, { 211,-2477 },
+
  { 212,-2477 }, { 213,-2477 }, { 214,-2477 }, { 215,-2477 }, { 216,-2477 },
  { 217,-2477 }, { 218,-2477 }, { 219,-2477 }, { 220,-2477 }, { 221,-2477 },
  { 222,-2477 }, { 223,-2477 }, { 224,-2477 }, { 225,-2477 }, { 226,-2477 },
  { 227,-2477 }, { 228,-2477 }, { 229,-2477 }, { 230,-2477 }, { 231,-2477 },
  { 232,-2477 }, { 233,-2477 }, { 234,-2477 }, { 235,-2477 }, { 236,-2477 },
-
  { 237,-2477 }, { 238,-2477 }, { 239,-2477 }, { 240,-2477 }, { 241,-2477 },
  { 242,-2477 }, { 243,-2477 }, { 244,-2477 }, { 245,-2477 }, { 246,-2477 },
  { 247,-2477 }, { 248,-2477 }, { 249,-2477 }, { 250,-2477 }, { 251,-2477 },
  { 252,-2477 }, { 253,-2477 }, { 254,-2477 }, { 255,-2477 }, { 256,-2477 },
  {   0,   0 }, {   0,1558 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
+
  {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
  {   0,   0 }, {   0,   0 }, {  11,   0 }, {  12,   0 }, {   0,   0 },
  {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
  {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
  {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
-
  {  29,   0 }, {  30,   0 }, {  31,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  36,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  45,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 },
  {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
+
  {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,   0 },
  {   0,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
  {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
  {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
-
  {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
  {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
  {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 }, {  98,   0 },
  {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
+
  { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
  { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
  { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
  { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 },
  {   0,   0 }, { 125, 905 }, {   0,   0 }, { 127,   0 }, { 128,   0 },
-
  { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
  { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
  { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
  { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
  { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
+
  { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
  { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
  { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
  { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
  { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
-
  { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
  { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
  { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
  { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
  { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
+
  { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
  { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
  { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
  { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
  { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
-
  { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
  { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
  { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
  { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
  { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
+
  { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1300 },
  {   1,-11881 }, {   2,-11881 }, {   3,-11881 }, {   4,-11881 }, {   5,-11881 },
  {   6,-11881 }, {   7,-11881 }, {   8,-11881 }, {   9,-11906 }, {  10,-11906 },
  {  11,-11881 }, {  12,-11881 }, {  13,-11906 }, {  14,-11881 }, {  15,-11881 },
  {  16,-11881 }, {  17,-11881 }, {  18,-11881 }, {  19,-11881 }, {  20,-11881 },
-
  {  21,-11881 }, {  22,-11881 }, {  23,-11881 }, {  24,-11881 }, {  25,-11881 },
  {  26,-11881 }, {  27,-11881 }, {  28,-11881 }, {  29,-11881 }, {  30,-11881 },
  {  31,-11881 }, {  32,-11906 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  36,-11881 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {  41,-11906 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11881 },
+
  {  46,-11906 }, {  47,-11906 }, {  48,-11881 }, {  49,-11881 }, {  50,-11881 },
  {  51,-11881 }, {  52,-11881 }, {  53,-11881 }, {  54,-11881 }, {  55,-11881 },
  {  56,-11881 }, {  57,-11881 }, {  58,-11881 }, {   0,   0 }, {   0,   0 },
  {  61,-11906 }, {   0,   0 }, {  63,-11881 }, {   0,   0 }, {  65,-11881 },
  {  66,-11881 }, {  67,-11881 }, {  68,-11881 }, {  69,-11881 }, {  70,-11881 },
-
  {  71,-11881 }, {  72,-11881 }, {  73,-11881 }, {  74,-11881 }, {  75,-11881 },
  {  76,-11881 }, {  77,-11881 }, {  78,-11881 }, {  79,-11881 }, {  80,-11881 },
  {  81,-11881 }, {  82,-11881 }, {  83,-11881 }, {  84,-11881 }, {  85,-11881 },
  {  86,-11881 }, {  87,-11881 }, {  88,-11881 }, {  89,-11881 }, {  90,-11881 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11881 },
+
  {   0,   0 }, {  97,-11881 }, {  98,-11881 }, {  99,-11881 }, { 100,-11881 },
  { 101, 649 }, { 102,-11881 }, { 103,-11881 }, { 104,-11881 }, { 105,-11881 },
  { 106,-11881 }, { 107,-11881 }, { 108,-11881 }, { 109,-11881 }, { 110,-11881 },
  { 111,-11881 }, { 112,-11881 }, { 113,-11881 }, { 114,-11881 }, { 115,-11881 },
  { 116,-11881 }, { 117,-11881 }, { 118,-11881 }, { 119,-11881 }, { 120,-11881 },
-
  { 121,-11881 }, { 122,-11881 }, {   0,   0 }, { 124,-11906 }, { 125,-11906 },
  { 126,-11906 }, { 127,-11881 }, { 128,-11881 }, { 129,-11881 }, { 130,-11881 },
  { 131,-11881 }, { 132,-11881 }, { 133,-11881 }, { 134,-11881 }, { 135,-11881 },
  { 136,-11881 }, { 137,-11881 }, { 138,-11881 }, { 139,-11881 }, { 140,-11881 },
  { 141,-11881 }, { 142,-11881 }, { 143,-11881 }, { 144,-11881 }, { 145,-11881 },
+
  { 146,-11881 }, { 147,-11881 }, { 148,-11881 }, { 149,-11881 }, { 150,-11881 },
  { 151,-11881 }, { 152,-11881 }, { 153,-11881 }, { 154,-11881 }, { 155,-11881 },
  { 156,-11881 }, { 157,-11881 }, { 158,-11881 }, { 159,-11881 }, { 160,-11881 },
  { 161,-11881 }, { 162,-11881 }, { 163,-11881 }, { 164,-11881 }, { 165,-11881 },
  { 166,-11881 }, { 167,-11881 }, { 168,-11881 }, { 169,-11881 }, { 170,-11881 },
-
  { 171,-11881 }, { 172,-11881 }, { 173,-11881 }, { 174,-11881 }, { 175,-11881 },
  { 176,-11881 }, { 177,-11881 }, { 178,-11881 }, { 179,-11881 }, { 180,-11881 },
  { 181,-11881 }, { 182,-11881 }, { 183,-11881 }, { 184,-11881 }, { 185,-11881 },
  { 186,-11881 }, { 187,-11881 }, { 188,-11881 }, { 189,-11881 }, { 190,-11881 },
  { 191,-11881 }, { 192,-11881 }, { 193,-11881 }, { 194,-11881 }, { 195,-11881 },
+
  { 196,-11881 }, { 197,-11881 }, { 198,-11881 }, { 199,-11881 }, { 200,-11881 },
  { 201,-11881 }, { 202,-11881 }, { 203,-11881 }, { 204,-11881 }, { 205,-11881 },
  { 206,-11881 }, { 207,-11881 }, { 208,-11881 }, { 209,-11881 }, { 210,-11881 },
  { 211,-11881 }, { 212,-11881 }, { 213,-11881 }, { 214,-11881 }, { 215,-11881 },
  { 216,-11881 }, { 217,-11881 }, { 218,-11881 }, { 219,-11881 }, { 220,-11881 },
-
  { 221,-11881 }, { 222,-11881 }, { 223,-11881 }, { 224,-11881 }, { 225,-11881 },
  { 226,-11881 }, { 227,-11881 }, { 228,-11881 }, { 229,-11881 }, { 230,-11881 },
  { 231,-11881 }, { 232,-11881 }, { 233,-11881 }, { 234,-11881 }, { 235,-11881 },
  { 236,-11881 }, { 237,-11881 }, { 238,-11881 }, { 239,-11881 }, { 240,-11881 },
  { 241,-11881 }, { 242,-11881 }, { 243,-11881 }, { 244,-11881 }, { 245,-11881 },
+
  { 246,-11881 }, { 247,-11881 }, { 248,-11881 }, { 249,-11881 }, { 250,-11881 },
  { 251,-11881 }, { 252,-11881 }, { 253,-11881 }, { 254,-11881 }, { 255,-11881 },
- { 256,-11881 }, {   0,  25 }, {   0,1042 }, {   0,  25 }, {   0,1040 },
- {   0,  25 }, {   0,1038 }, {   0,  12 }, {   0,1036 }, {   0,   0 },
+ { 256,-11881 }, {   0,  26 }, {   0,1042 }, {   0,  26 }, {   0,1040 },
+ {   0,  26 }, {   0,1038 }, {   0,  12 }, {   0,1036 }, {   0,   0 },
  {   0,   0 }, {   9, 649 }, {  10, 649 }, {   0,   0 }, {   0,   0 },
-
  {  13, 649 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32, 649 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, { 125, 651 }, { 126, 653 }, { 125, 653 },
  {   0,   0 }, { 125, 647 }, {   0,   0 }, {   0, 911 }, {   1,-3382 },
  {   2,-3382 }, {   3,-3382 }, {   4,-3382 }, {   5,-3382 }, {   6,-3382 },
+
  {   7,-3382 }, {   8,-3382 }, {   9,-3382 }, {  10,-3382 }, {  11,-3382 },
  {  12,-3382 }, {  13,-3382 }, {  14,-3382 }, {  15,-3382 }, {  16,-3382 },
  {  17,-3382 }, {  18,-3382 }, {  19,-3382 }, {  20,-3382 }, {  21,-3382 },
  {  22,-3382 }, {  23,-3382 }, {  24,-3382 }, {  25,-3382 }, {  26,-3382 },
  {  27,-3382 }, {  28,-3382 }, {  29,-3382 }, {  30,-3382 }, {  31,-3382 },
-
  {  32,-3382 }, {  33,-3382 }, {  34,-3382 }, {  35,-3382 }, {  36,-3382 },
  {  37,-3382 }, {  38,-3382 }, {  39,-3382 }, {  40,-3382 }, {  41,-3382 },
  {  42,-3382 }, {  43,-3382 }, {  44,-3382 }, {  45,-2065 }, {  46,-3382 },
  {  47,-3382 }, {  48,-3382 }, {  49,-3382 }, {  50,-3382 }, {  51,-3382 },
  {  52,-3382 }, {  53,-3382 }, {  54,-3382 }, {  55,-3382 }, {  56,-3382 },
+
  {  57,-3382 }, {  58,-3382 }, {  59,-3382 }, {  60,-3382 }, {  61,-3382 },
  {  62,-3382 }, {  63,-3382 }, {  64,-3382 }, {  65,-3382 }, {  66,-3382 },
  {  67,-3382 }, {  68,-3382 }, {  69,-3382 }, {  70,-3382 }, {  71,-3382 },
  {  72,-3382 }, {  73,-3382 }, {  74,-3382 }, {  75,-3382 }, {  76,-3382 },
  {  77,-3382 }, {  78,-3382 }, {  79,-3382 }, {  80,-3382 }, {  81,-3382 },
-
  {  82,-3382 }, {  83,-3382 }, {  84,-3382 }, {  85,-3382 }, {  86,-3382 },
  {  87,-3382 }, {  88,-3382 }, {  89,-3382 }, {  90,-3382 }, {  91,-3382 },
  {  92,-3382 }, {  93,-3382 }, {  94,-3382 }, {  95,-3382 }, {  96,-3382 },
  {  97,-3382 }, {  98,-3382 }, {  99,-3382 }, { 100,-3382 }, { 101,-3382 },
  { 102,-3382 }, { 103,-3382 }, { 104,-3382 }, { 105,-3382 }, { 106,-3382 },
+
  { 107,-3382 }, { 108,-3382 }, { 109,-3382 }, { 110,-3382 }, { 111,-3382 },
  { 112,-3382 }, { 113,-3382 }, { 114,-3382 }, { 115,-3382 }, { 116,-3382 },
  { 117,-3382 }, { 118,-3382 }, { 119,-3382 }, { 120,-3382 }, { 121,-3382 },
  { 122,-3382 }, { 123,-3382 }, { 124,-3382 }, { 125,-3382 }, { 126,-3382 },
  { 127,-3382 }, { 128,-3382 }, { 129,-3382 }, { 130,-3382 }, { 131,-3382 },
-
  { 132,-3382 }, { 133,-3382 }, { 134,-3382 }, { 135,-3382 }, { 136,-3382 },
  { 137,-3382 }, { 138,-3382 }, { 139,-3382 }, { 140,-3382 }, { 141,-3382 },
  { 142,-3382 }, { 143,-3382 }, { 144,-3382 }, { 145,-3382 }, { 146,-3382 },
  { 147,-3382 }, { 148,-3382 }, { 149,-3382 }, { 150,-3382 }, { 151,-3382 },
  { 152,-3382 }, { 153,-3382 }, { 154,-3382 }, { 155,-3382 }, { 156,-3382 },
+
  { 157,-3382 }, { 158,-3382 }, { 159,-3382 }, { 160,-3382 }, { 161,-3382 },
  { 162,-3382 }, { 163,-3382 }, { 164,-3382 }, { 165,-3382 }, { 166,-3382 },
  { 167,-3382 }, { 168,-3382 }, { 169,-3382 }, { 170,-3382 }, { 171,-3382 },
  { 172,-3382 }, { 173,-3382 }, { 174,-3382 }, { 175,-3382 }, { 176,-3382 },
  { 177,-3382 }, { 178,-3382 }, { 179,-3382 }, { 180,-3382 }, { 181,-3382 },
-
  { 182,-3382 }, { 183,-3382 }, { 184,-3382 }, { 185,-3382 }, { 186,-3382 },
  { 187,-3382 }, { 188,-3382 }, { 189,-3382 }, { 190,-3382 }, { 191,-3382 },
  { 192,-3382 }, { 193,-3382 }, { 194,-3382 }, { 195,-3382 }, { 196,-3382 },
  { 197,-3382 }, { 198,-3382 }, { 199,-3382 }, { 200,-3382 }, { 201,-3382 },
  { 202,-3382 }, { 203,-3382 }, { 204,-3382 }, { 205,-3382 }, { 206,-3382 },
+
  { 207,-3382 }, { 208,-3382 }, { 209,-3382 }, { 210,-3382 }, { 211,-3382 },
  { 212,-3382 }, { 213,-3382 }, { 214,-3382 }, { 215,-3382 }, { 216,-3382 },
  { 217,-3382 }, { 218,-3382 }, { 219,-3382 }, { 220,-3382 }, { 221,-3382 },
  { 222,-3382 }, { 223,-3382 }, { 224,-3382 }, { 225,-3382 }, { 226,-3382 },
  { 227,-3382 }, { 228,-3382 }, { 229,-3382 }, { 230,-3382 }, { 231,-3382 },
-
  { 232,-3382 }, { 233,-3382 }, { 234,-3382 }, { 235,-3382 }, { 236,-3382 },
  { 237,-3382 }, { 238,-3382 }, { 239,-3382 }, { 240,-3382 }, { 241,-3382 },
  { 242,-3382 }, { 243,-3382 }, { 244,-3382 }, { 245,-3382 }, { 246,-3382 },
  { 247,-3382 }, { 248,-3382 }, { 249,-3382 }, { 250,-3382 }, { 251,-3382 },
  { 252,-3382 }, { 253,-3382 }, { 254,-3382 }, { 255,-3382 }, { 256,-3382 },
+
  {   0,   0 }, {   0, 653 }, {   0,   0 }, {   0, 651 }, {   1,-12530 },
  {   2,-12530 }, {   3,-12530 }, {   4,-12530 }, {   5,-12530 }, {   6,-12530 },
  {   7,-12530 }, {   8,-12530 }, {   9,-12555 }, {  10,-12555 }, {  11,-12530 },
  {  12,-12530 }, {  13,-12555 }, {  14,-12530 }, {  15,-12530 }, {  16,-12530 },
  {  17,-12530 }, {  18,-12530 }, {  19,-12530 }, {  20,-12530 }, {  21,-12530 },
-
  {  22,-12530 }, {  23,-12530 }, {  24,-12530 }, {  25,-12530 }, {  26,-12530 },
  {  27,-12530 }, {  28,-12530 }, {  29,-12530 }, {  30,-12530 }, {  31,-12530 },
  {  32,-12555 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-12530 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-12555 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-12530 }, {  46,-12555 },
+
  {  47,-12555 }, {  48,-12530 }, {  49,-12530 }, {  50,-12530 }, {  51,-12530 },
  {  52,-12530 }, {  53,-12530 }, {  54,-12530 }, {  55,-12530 }, {  56,-12530 },
  {  57,-12530 }, {  58,-12530 }, {   0,   0 }, {   0,   0 }, {  61,-12555 },
  {   0,   0 }, {  63,-12530 }, {   0,   0 }, {  65,-12530 }, {  66,-12530 },
  {  67,-12530 }, {  68,-12530 }, {  69,-12530 }, {  70,-12530 }, {  71,-12530 },
-
  {  72,-12530 }, {  73,-12530 }, {  74,-12530 }, {  75,-12530 }, {  76,-12530 },
  {  77,-12530 }, {  78,-12530 }, {  79,-12530 }, {  80,-12530 }, {  81,-12530 },
  {  82,-12530 }, {  83,-12530 }, {  84,-12530 }, {  85,-12530 }, {  86,-12530 },
  {  87,-12530 }, {  88,-12530 }, {  89,-12530 }, {  90,-12530 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-12530 }, {   0,   0 },
+
  {  97,-12530 }, {  98,-12530 }, {  99,-12530 }, { 100, 393 }, { 101,-12530 },
  { 102,-12530 }, { 103,-12530 }, { 104,-12530 }, { 105,-12530 }, { 106,-12530 },
  { 107,-12530 }, { 108,-12530 }, { 109,-12530 }, { 110,-12530 }, { 111,-12530 },
  { 112,-12530 }, { 113,-12530 }, { 114,-12530 }, { 115,-12530 }, { 116,-12530 },
  { 117,-12530 }, { 118,-12530 }, { 119,-12530 }, { 120,-12530 }, { 121,-12530 },
-
  { 122,-12530 }, { 125, 268 }, { 124,-12555 }, { 125,-12555 }, { 126,-12555 },
  { 127,-12530 }, { 128,-12530 }, { 129,-12530 }, { 130,-12530 }, { 131,-12530 },
  { 132,-12530 }, { 133,-12530 }, { 134,-12530 }, { 135,-12530 }, { 136,-12530 },
  { 137,-12530 }, { 138,-12530 }, { 139,-12530 }, { 140,-12530 }, { 141,-12530 },
  { 142,-12530 }, { 143,-12530 }, { 144,-12530 }, { 145,-12530 }, { 146,-12530 },
+
  { 147,-12530 }, { 148,-12530 }, { 149,-12530 }, { 150,-12530 }, { 151,-12530 },
  { 152,-12530 }, { 153,-12530 }, { 154,-12530 }, { 155,-12530 }, { 156,-12530 },
  { 157,-12530 }, { 158,-12530 }, { 159,-12530 }, { 160,-12530 }, { 161,-12530 },
  { 162,-12530 }, { 163,-12530 }, { 164,-12530 }, { 165,-12530 }, { 166,-12530 },
  { 167,-12530 }, { 168,-12530 }, { 169,-12530 }, { 170,-12530 }, { 171,-12530 },
-
  { 172,-12530 }, { 173,-12530 }, { 174,-12530 }, { 175,-12530 }, { 176,-12530 },
  { 177,-12530 }, { 178,-12530 }, { 179,-12530 }, { 180,-12530 }, { 181,-12530 },
  { 182,-12530 }, { 183,-12530 }, { 184,-12530 }, { 185,-12530 }, { 186,-12530 },
  { 187,-12530 }, { 188,-12530 }, { 189,-12530 }, { 190,-12530 }, { 191,-12530 },
  { 192,-12530 }, { 193,-12530 }, { 194,-12530 }, { 195,-12530 }, { 196,-12530 },
+
  { 197,-12530 }, { 198,-12530 }, { 199,-12530 }, { 200,-12530 }, { 201,-12530 },
  { 202,-12530 }, { 203,-12530 }, { 204,-12530 }, { 205,-12530 }, { 206,-12530 },
  { 207,-12530 }, { 208,-12530 }, { 209,-12530 }, { 210,-12530 }, { 211,-12530 },
  { 212,-12530 }, { 213,-12530 }, { 214,-12530 }, { 215,-12530 }, { 216,-12530 },
  { 217,-12530 }, { 218,-12530 }, { 219,-12530 }, { 220,-12530 }, { 221,-12530 },
-
  { 222,-12530 }, { 223,-12530 }, { 224,-12530 }, { 225,-12530 }, { 226,-12530 },
  { 227,-12530 }, { 228,-12530 }, { 229,-12530 }, { 230,-12530 }, { 231,-12530 },
  { 232,-12530 }, { 233,-12530 }, { 234,-12530 }, { 235,-12530 }, { 236,-12530 },
  { 237,-12530 }, { 238,-12530 }, { 239,-12530 }, { 240,-12530 }, { 241,-12530 },
  { 242,-12530 }, { 243,-12530 }, { 244,-12530 }, { 245,-12530 }, { 246,-12530 },
+
  { 247,-12530 }, { 248,-12530 }, { 249,-12530 }, { 250,-12530 }, { 251,-12530 },
  { 252,-12530 }, { 253,-12530 }, { 254,-12530 }, { 255,-12530 }, { 256,-12530 },
  {   0,   0 }, {   0, 393 }, {   0,   0 }, {   0, 391 }, {   0,   0 },
- {   0, 389 }, {   0,  23 }, {   0, 387 }, {   0,   0 }, {   0, 385 },
+ {   0, 389 }, {   0,  24 }, {   0, 387 }, {   0,   0 }, {   0, 385 },
  {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 350 },
- {   0,  45 }, {   0, 348 }, {   0,   9 }, {   0, 346 }, {   0,   0 },
+ {   0,  46 }, {   0, 348 }, {   0,   9 }, {   0, 346 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
+
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, { 125,   2 }, { 126,   4 }, { 125,   4 }, {   0,   0 },
  { 125,  -2 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,  35 },
  {   0,   0 }, {   0, 258 }, {   1,-12923 }, {   2,-12923 }, {   3,-12923 },
+
  {   4,-12923 }, {   5,-12923 }, {   6,-12923 }, {   7,-12923 }, {   8,-12923 },
  {   9, -90 }, {  10, -90 }, {  11,-12923 }, {  12,-12923 }, {  13, -90 },
  {  14,-12923 }, {  15,-12923 }, {  16,-12923 }, {  17,-12923 }, {  18,-12923 },
  {  19,-12923 }, {  20,-12923 }, {  21,-12923 }, {  22,-12923 }, {  23,-12923 },
  {  24,-12923 }, {  25,-12923 }, {  26,-12923 }, {  27,-12923 }, {  28,-12923 },
-
  {  29,-12923 }, {  30,-12923 }, {  31,-12923 }, {  32, -90 }, { 125,   4 },
  {   0,   0 }, {   0,   0 }, {  36,-12923 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {   0,   0 }, {  41, -90 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  45,-12923 }, {  46,-12948 }, {  47,-12948 }, {  48,-12923 },
  {  49,-12923 }, {  50,-12923 }, {  51,-12923 }, {  52,-12923 }, {  53,-12923 },
+
  {  54,-12923 }, {  55,-12923 }, {  56,-12923 }, {  57,-12923 }, {  58,-12923 },
  {   0,   0 }, {   0,   0 }, {  61,-12948 }, {   0,   0 }, {  63,-12923 },
  {   0,   0 }, {  65,-12923 }, {  66,-12923 }, {  67,-12923 }, {  68,-12923 },
  {  69,-12923 }, {  70,-12923 }, {  71,-12923 }, {  72,-12923 }, {  73,-12923 },
  {  74,-12923 }, {  75,-12923 }, {  76,-12923 }, {  77,-12923 }, {  78,-12923 },
-
  {  79,-12923 }, {  80,-12923 }, {  81,-12923 }, {  82,-12923 }, {  83,-12923 },
  {  84,-12923 }, {  85,-12923 }, {  86,-12923 }, {  87,-12923 }, {  88,-12923 },
  {  89,-12923 }, {  90,-12923 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
  {   0,   0 }, {  95,-12923 }, {   0,   0 }, {  97,-12923 }, {  98,-12923 },
  {  99,-12923 }, { 100,-12923 }, { 101,-12923 }, { 102,-12923 }, { 103,-12923 },
+
  { 104,-12923 }, { 105,-12923 }, { 106,-12923 }, { 107,-12923 }, { 108,-12923 },
  { 109,-12923 }, { 110,-12923 }, { 111,-12923 }, { 112,-12923 }, { 113,-12923 },
  { 114,-12923 }, { 115,-12923 }, { 116,-12923 }, { 117,-12923 }, { 118,-12923 },
  { 119,-12923 }, { 120,-12923 }, { 121,-12923 }, { 122,-12923 }, {   0,   0 },
  { 124,-12948 }, { 125, -90 }, { 126, -90 }, { 127,-12923 }, { 128,-12923 },
-
  { 129,-12923 }, { 130,-12923 }, { 131,-12923 }, { 132,-12923 }, { 133,-12923 },
  { 134,-12923 }, { 135,-12923 }, { 136,-12923 }, { 137,-12923 }, { 138,-12923 },
  { 139,-12923 }, { 140,-12923 }, { 141,-12923 }, { 142,-12923 }, { 143,-12923 },
  { 144,-12923 }, { 145,-12923 }, { 146,-12923 }, { 147,-12923 }, { 148,-12923 },
  { 149,-12923 }, { 150,-12923 }, { 151,-12923 }, { 152,-12923 }, { 153,-12923 },
+
  { 154,-12923 }, { 155,-12923 }, { 156,-12923 }, { 157,-12923 }, { 158,-12923 },
  { 159,-12923 }, { 160,-12923 }, { 161,-12923 }, { 162,-12923 }, { 163,-12923 },
  { 164,-12923 }, { 165,-12923 }, { 166,-12923 }, { 167,-12923 }, { 168,-12923 },
  { 169,-12923 }, { 170,-12923 }, { 171,-12923 }, { 172,-12923 }, { 173,-12923 },
  { 174,-12923 }, { 175,-12923 }, { 176,-12923 }, { 177,-12923 }, { 178,-12923 },
-
  { 179,-12923 }, { 180,-12923 }, { 181,-12923 }, { 182,-12923 }, { 183,-12923 },
  { 184,-12923 }, { 185,-12923 }, { 186,-12923 }, { 187,-12923 }, { 188,-12923 },
  { 189,-12923 }, { 190,-12923 }, { 191,-12923 }, { 192,-12923 }, { 193,-12923 },
  { 194,-12923 }, { 195,-12923 }, { 196,-12923 }, { 197,-12923 }, { 198,-12923 },
  { 199,-12923 }, { 200,-12923 }, { 201,-12923 }, { 202,-12923 }, { 203,-12923 },
+
  { 204,-12923 }, { 205,-12923 }, { 206,-12923 }, { 207,-12923 }, { 208,-12923 },
  { 209,-12923 }, { 210,-12923 }, { 211,-12923 }, { 212,-12923 }, { 213,-12923 },
  { 214,-12923 }, { 215,-12923 }, { 216,-12923 }, { 217,-12923 }, { 218,-12923 },
  { 219,-12923 }, { 220,-12923 }, { 221,-12923 }, { 222,-12923 }, { 223,-12923 },
  { 224,-12923 }, { 225,-12923 }, { 226,-12923 }, { 227,-12923 }, { 228,-12923 },
-
  { 229,-12923 }, { 230,-12923 }, { 231,-12923 }, { 232,-12923 }, { 233,-12923 },
  { 234,-12923 }, { 235,-12923 }, { 236,-12923 }, { 237,-12923 }, { 238,-12923 },
  { 239,-12923 }, { 240,-12923 }, { 241,-12923 }, { 242,-12923 }, { 243,-12923 },
  { 244,-12923 }, { 245,-12923 }, { 246,-12923 }, { 247,-12923 }, { 248,-12923 },
  { 249,-12923 }, { 250,-12923 }, { 251,-12923 }, { 252,-12923 }, { 253,-12923 },
- { 254,-12923 }, { 255,-12923 }, { 256,-12923 }, { 257,  52 }, {   1,   0 },
+
+ { 254,-12923 }, { 255,-12923 }, { 256,-12923 }, { 257,  53 }, {   1,   0 },
     };
 
 static const struct yy_trans_info *yy_start_state_list[13] =
@@ -5346,9 +5374,9 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     yylloc->first_column = yylloc->last_column = yycolumn; \
     handlebars_yy_advance(yytext, yyleng); \
    	YY_USER_DEBUG_ACTION;
-#line 5350 "handlebars.lex.c"
+#line 5378 "handlebars.lex.c"
 
-#line 5352 "handlebars.lex.c"
+#line 5380 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5631,7 +5659,7 @@ YY_DECL
 
 
 
-#line 5635 "handlebars.lex.c"
+#line 5663 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5832,35 +5860,45 @@ YY_RULE_SETUP
 									}
 	YY_BREAK
 case 14:
+/* rule 14 can match eol */
 YY_RULE_SETUP
 #line 261 "handlebars.l"
 {
-										// v2.0.0 handlebars.l line 61
+										// The comment never ends
 										handlebars_yy_copy_lval();
-										return OPEN_SEXPR;
+										return INVALID;
 									}
 	YY_BREAK
 case 15:
 YY_RULE_SETUP
 #line 267 "handlebars.l"
 {
-										// v2.0.0 handlebars.l line 62
+										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
-										return CLOSE_SEXPR;
+										return OPEN_SEXPR;
 									}
 	YY_BREAK
 case 16:
 YY_RULE_SETUP
 #line 273 "handlebars.l"
 {
-										// v2.0.0 handlebars.l line 64
+										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
-										return OPEN_RAW_BLOCK;
+										return CLOSE_SEXPR;
 									}
 	YY_BREAK
 case 17:
 YY_RULE_SETUP
 #line 279 "handlebars.l"
+{
+										// v2.0.0 handlebars.l line 64
+										handlebars_yy_copy_lval();
+										return OPEN_RAW_BLOCK;
+									}
+	YY_BREAK
+case 18:
+YY_RULE_SETUP
+#line 285 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -5869,46 +5907,46 @@ YY_RULE_SETUP
                                   		return CLOSE_RAW_BLOCK;
                              		}
 	YY_BREAK
-case 18:
+case 19:
 YY_RULE_SETUP
-#line 287 "handlebars.l"
+#line 293 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
 										return OPEN_PARTIAL;
                              		}
 	YY_BREAK
-case 19:
+case 20:
 YY_RULE_SETUP
-#line 293 "handlebars.l"
+#line 299 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
 										return OPEN_PARTIAL_BLOCK;
                              		}
 	YY_BREAK
-case 20:
+case 21:
 YY_RULE_SETUP
-#line 299 "handlebars.l"
+#line 305 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK;
                              		}
 	YY_BREAK
-case 21:
+case 22:
 YY_RULE_SETUP
-#line 305 "handlebars.l"
+#line 311 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
 										return OPEN_ENDBLOCK;
                              		}
 	YY_BREAK
-case 22:
-/* rule 22 can match eol */
+case 23:
+/* rule 23 can match eol */
 YY_RULE_SETUP
-#line 311 "handlebars.l"
+#line 317 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -5916,10 +5954,10 @@ YY_RULE_SETUP
 										return INVERSE;
                              		}
 	YY_BREAK
-case 23:
-/* rule 23 can match eol */
+case 24:
+/* rule 24 can match eol */
 YY_RULE_SETUP
-#line 318 "handlebars.l"
+#line 324 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -5927,50 +5965,50 @@ YY_RULE_SETUP
 										return INVERSE;
                              		}
 	YY_BREAK
-case 24:
+case 25:
 YY_RULE_SETUP
-#line 325 "handlebars.l"
+#line 331 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE;
                              		}
 	YY_BREAK
-case 25:
-/* rule 25 can match eol */
+case 26:
+/* rule 26 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 331 "handlebars.l"
+#line 337 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE_CHAIN;
                              		}
 	YY_BREAK
-case 26:
+case 27:
 YY_RULE_SETUP
-#line 337 "handlebars.l"
+#line 343 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
 										return OPEN_UNESCAPED;
                              		}
 	YY_BREAK
-case 27:
+case 28:
 YY_RULE_SETUP
-#line 343 "handlebars.l"
+#line 349 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
 										return OPEN;
                              		}
 	YY_BREAK
-case 28:
+case 29:
 YY_RULE_SETUP
-#line 349 "handlebars.l"
+#line 355 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -5978,9 +6016,9 @@ YY_RULE_SETUP
   										yy_push_state(com, yyscanner);
 									}
 	YY_BREAK
-case 29:
+case 30:
 YY_RULE_SETUP
-#line 356 "handlebars.l"
+#line 362 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -5988,68 +6026,68 @@ YY_RULE_SETUP
   										yy_push_state(com1, yyscanner);
 									}
 	YY_BREAK
-case 30:
+case 31:
 YY_RULE_SETUP
-#line 363 "handlebars.l"
+#line 369 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
 										return OPEN;
 									}
 	YY_BREAK
-case 31:
+case 32:
 YY_RULE_SETUP
-#line 369 "handlebars.l"
+#line 375 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
 										return EQUALS;
 									}
 	YY_BREAK
-case 32:
+case 33:
 YY_RULE_SETUP
-#line 375 "handlebars.l"
+#line 381 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 33:
-/* rule 33 can match eol */
+case 34:
+/* rule 34 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 381 "handlebars.l"
+#line 387 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 34:
+case 35:
 YY_RULE_SETUP
-#line 387 "handlebars.l"
+#line 393 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
 										return SEP;
 									}
 	YY_BREAK
-case 35:
-/* rule 35 can match eol */
+case 36:
+/* rule 36 can match eol */
 YY_RULE_SETUP
-#line 393 "handlebars.l"
+#line 399 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
                                  	}
 	YY_BREAK
-case 36:
+case 37:
 YY_RULE_SETUP
-#line 398 "handlebars.l"
+#line 404 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -6057,9 +6095,9 @@ YY_RULE_SETUP
 										return CLOSE_UNESCAPED;
 									}
 	YY_BREAK
-case 37:
+case 38:
 YY_RULE_SETUP
-#line 405 "handlebars.l"
+#line 411 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -6067,10 +6105,10 @@ YY_RULE_SETUP
 										return CLOSE;
 									}
 	YY_BREAK
-case 38:
-/* rule 38 can match eol */
+case 39:
+/* rule 39 can match eol */
 YY_RULE_SETUP
-#line 412 "handlebars.l"
+#line 418 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -6080,10 +6118,10 @@ YY_RULE_SETUP
                                    		return STRING;
                                  	}
 	YY_BREAK
-case 39:
-/* rule 39 can match eol */
+case 40:
+/* rule 40 can match eol */
 YY_RULE_SETUP
-#line 421 "handlebars.l"
+#line 427 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -6093,122 +6131,122 @@ YY_RULE_SETUP
 										return SINGLE_STRING;
                                 	}
 	YY_BREAK
-case 40:
+case 41:
 YY_RULE_SETUP
-#line 430 "handlebars.l"
+#line 436 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
 										return DATA;
 									}
 	YY_BREAK
-case 41:
-/* rule 41 can match eol */
+case 42:
+/* rule 42 can match eol */
 YY_RULE_SETUP
-#line 436 "handlebars.l"
+#line 442 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK_PARAMS;
 									}
 	YY_BREAK
-case 42:
+case 43:
 YY_RULE_SETUP
-#line 442 "handlebars.l"
+#line 448 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
 										return CLOSE_BLOCK_PARAMS;
 									}
 	YY_BREAK
-case 43:
-/* rule 43 can match eol */
+case 44:
+/* rule 44 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 448 "handlebars.l"
+#line 454 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
 										return BOOLEAN;
 									}
 	YY_BREAK
-case 44:
-/* rule 44 can match eol */
+case 45:
+/* rule 45 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 454 "handlebars.l"
+#line 460 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
 										return BOOLEAN;
 									}
 	YY_BREAK
-case 45:
-/* rule 45 can match eol */
+case 46:
+/* rule 46 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 460 "handlebars.l"
+#line 466 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
 										return UNDEFINED;
 									}
 	YY_BREAK
-case 46:
-/* rule 46 can match eol */
+case 47:
+/* rule 47 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 466 "handlebars.l"
+#line 472 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
 										return NUL;
 									}
 	YY_BREAK
-case 47:
-/* rule 47 can match eol */
+case 48:
+/* rule 48 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 472 "handlebars.l"
+#line 478 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
 										return NUMBER;
 									}
 	YY_BREAK
-case 48:
-/* rule 48 can match eol */
+case 49:
+/* rule 49 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 479 "handlebars.l"
+#line 485 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 49:
-/* rule 49 can match eol */
+case 50:
+/* rule 50 can match eol */
 YY_RULE_SETUP
-#line 485 "handlebars.l"
+#line 491 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -6219,9 +6257,9 @@ YY_RULE_SETUP
 										return ID;
 									}
 	YY_BREAK
-case 50:
+case 51:
 YY_RULE_SETUP
-#line 495 "handlebars.l"
+#line 501 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -6234,18 +6272,18 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 501 "handlebars.l"
+#line 507 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
 									}
 	YY_BREAK
-case 51:
+case 52:
 YY_RULE_SETUP
-#line 506 "handlebars.l"
+#line 512 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6249 "handlebars.lex.c"
+#line 6287 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -7442,6 +7480,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 506 "handlebars.l"
+#line 512 "handlebars.l"
 
 
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index 4255f58..1ef7ab9 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -733,7 +733,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 506 "handlebars.l"
+#line 512 "handlebars.l"
 
 
 #line 740 "handlebars.lex.h"
-- 
2.43.0


From 3e4866e8a172035a019ed3a8961acff5da3ddb2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:34 +0000
Subject: [PATCH 052/110] fix: number literals: every zero is zero, and what
 does not fit an integer keeps its digits

---
 src/handlebars_compiler.c | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index d1d5f54..dab6b6e 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -20,6 +20,7 @@
 #endif
 
 #include <assert.h>
+#include <errno.h>
 #include <string.h>
 #include <talloc.h>
 
@@ -1256,16 +1257,12 @@ static inline void handlebars_compiler_accept_number(
     assert(number != NULL);
     assert(number->type == HANDLEBARS_AST_NODE_NUMBER);
 
-    if (hbs_str_eq_strl(val, HBS_STRL("0"))) {
-    	__OPL(push_literal, 0);
-        return;
-    }
-
     // Convert to float and long
+    errno = 0;
     fv = strtod(hbs_str_val(val), NULL);
     lv = strtol(hbs_str_val(val), NULL, 10);
 
-    if( fv && lv && fv == (double) lv ) {
+    if( errno == 0 && fv == (double) lv ) {
     	// It's a long - @todo do we need to do float too?
     	__OPL(push_literal, lv);
     } else {
-- 
2.43.0


From be6a6eab38ab1b729828cdbabdfa51395cce5595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:03 +0000
Subject: [PATCH 053/110] fix: bytes that are not UTF-8 are not whitespace

---
 src/handlebars_scanners.c  | 224 +++++++++++--------------------------
 src/handlebars_scanners.re |   4 +-
 2 files changed, 65 insertions(+), 163 deletions(-)

diff --git a/src/handlebars_scanners.c b/src/handlebars_scanners.c
index 29f2be8..165a97b 100644
--- a/src/handlebars_scanners.c
+++ b/src/handlebars_scanners.c
@@ -1,22 +1,20 @@
-/* Generated by re2c 1.3 */
+/* Generated by re2c 3.1 */
 #line 1 "handlebars_scanners.re"
 /**
- * Copyright (C) 2016 John Boehr
+ * Copyright (c) anno Domini nostri Jesu Christi MMXVI-MMXXIV John Boehr & contributors
  *
- * This file is part of handlebars.c.
+ * This library is free software; you can redistribute it and/or
+ * modify it under the terms of the GNU Lesser General Public
+ * License as published by the Free Software Foundation; either
+ * version 2.1 of the License, or (at your option) any later version.
  *
- * handlebars.c is free software: you can redistribute it and/or modify
- * it under the terms of the GNU Lesser General Public License as published
- * by the Free Software Foundation, either version 2.1 of the License, or
- * (at your option) any later version.
- *
- * handlebars.c is distributed in the hope that it will be useful,
+ * This library is distributed in the hope that it will be useful,
  * but WITHOUT ANY WARRANTY; without even the implied warranty of
- * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the
- * GNU Lesser General Public License for more details.
+ * MERCHANTABILITY or FITNESS FOR A PARTICULAR PURPOSE.  See the GNU
+ * Lesser General Public License for more details.
  *
- * You should have received a copy of the GNU Lesser General Public License
- * along with handlebars.c.  If not, see <http://www.gnu.org/licenses/>.
+ * You should have received a copy of the GNU Lesser General Public
+ * License along with this library; if not, see <http://www.gnu.org/licenses/>.
  */
 
 #ifdef HAVE_CONFIG_H
@@ -33,103 +31,55 @@
 bool handlebars_scanner_next_whitespace(const char * s, bool def)
 {
     const YYCTYPE * YYCURSOR = (const unsigned char *) s;
-    
+
     assert(s != NULL);
-    
+
     for (;;) {
         
-#line 42 "handlebars_scanners.c"
+#line 40 "handlebars_scanners.c"
 {
     YYCTYPE yych;
     yych = *YYCURSOR;
-    if (yych <= ' ') {
-        if (yych <= '\n') {
-            if (yych <= 0x00) goto yy3;
-            if (yych <= 0x08) goto yy5;
-            if (yych <= '\t') goto yy7;
-            goto yy9;
+    if (yych <= '\v') {
+        if (yych <= 0x08) {
+            if (yych >= 0x01) goto yy1;
         } else {
-            if (yych <= '\f') {
-                if (yych <= '\v') goto yy7;
-                goto yy5;
-            } else {
-                if (yych <= '\r') goto yy7;
-                if (yych <= 0x1F) goto yy5;
-                goto yy7;
-            }
+            if (yych == '\n') goto yy3;
+            goto yy2;
         }
     } else {
-        if (yych <= 0xE0) {
-            if (yych <= 0x7F) goto yy5;
-            if (yych <= 0xC1) goto yy2;
-            if (yych <= 0xDF) goto yy11;
-            goto yy12;
+        if (yych <= '\r') {
+            if (yych <= '\f') goto yy1;
+            goto yy2;
         } else {
-            if (yych <= 0xF0) {
-                if (yych <= 0xEF) goto yy13;
-                goto yy14;
-            } else {
-                if (yych <= 0xF3) goto yy15;
-                if (yych <= 0xF4) goto yy16;
-            }
+            if (yych == ' ') goto yy2;
+            goto yy1;
         }
     }
-yy2:
-yy3:
     ++YYCURSOR;
-#line 42 "handlebars_scanners.re"
+#line 40 "handlebars_scanners.re"
     { break; }
-#line 83 "handlebars_scanners.c"
-yy5:
+#line 63 "handlebars_scanners.c"
+yy1:
     ++YYCURSOR;
-#line 45 "handlebars_scanners.re"
+#line 43 "handlebars_scanners.re"
     { return 0; }
-#line 88 "handlebars_scanners.c"
-yy7:
+#line 68 "handlebars_scanners.c"
+yy2:
     ++YYCURSOR;
-#line 43 "handlebars_scanners.re"
+#line 41 "handlebars_scanners.re"
     { continue; }
-#line 93 "handlebars_scanners.c"
-yy9:
+#line 73 "handlebars_scanners.c"
+yy3:
     ++YYCURSOR;
-#line 44 "handlebars_scanners.re"
+#line 42 "handlebars_scanners.re"
     { return 1; }
-#line 98 "handlebars_scanners.c"
-yy11:
-    yych = *++YYCURSOR;
-    if (yych <= 0x7F) goto yy2;
-    if (yych <= 0xBF) goto yy5;
-    goto yy2;
-yy12:
-    yych = *++YYCURSOR;
-    if (yych <= 0x9F) goto yy2;
-    if (yych <= 0xBF) goto yy11;
-    goto yy2;
-yy13:
-    yych = *++YYCURSOR;
-    if (yych <= 0x7F) goto yy2;
-    if (yych <= 0xBF) goto yy11;
-    goto yy2;
-yy14:
-    yych = *++YYCURSOR;
-    if (yych <= 0x8F) goto yy2;
-    if (yych <= 0xBF) goto yy13;
-    goto yy2;
-yy15:
-    yych = *++YYCURSOR;
-    if (yych <= 0x7F) goto yy2;
-    if (yych <= 0xBF) goto yy13;
-    goto yy2;
-yy16:
-    yych = *++YYCURSOR;
-    if (yych <= 0x7F) goto yy2;
-    if (yych <= 0x8F) goto yy13;
-    goto yy2;
+#line 78 "handlebars_scanners.c"
 }
-#line 46 "handlebars_scanners.re"
+#line 44 "handlebars_scanners.re"
 
     }
-    
+
     return def;
 }
 
@@ -137,102 +87,54 @@ bool handlebars_scanner_prev_whitespace(const char * s, bool def)
 {
     const YYCTYPE * YYCURSOR = (const unsigned char *) s;
     short match = def;
-    
+
     assert(s != NULL);
-    
+
     for (;;) {
         
-#line 146 "handlebars_scanners.c"
+#line 96 "handlebars_scanners.c"
 {
     YYCTYPE yych;
     yych = *YYCURSOR;
-    if (yych <= ' ') {
-        if (yych <= '\n') {
-            if (yych <= 0x00) goto yy20;
-            if (yych <= 0x08) goto yy22;
-            if (yych <= '\t') goto yy24;
-            goto yy26;
+    if (yych <= '\v') {
+        if (yych <= 0x08) {
+            if (yych >= 0x01) goto yy5;
         } else {
-            if (yych <= '\f') {
-                if (yych <= '\v') goto yy24;
-                goto yy22;
-            } else {
-                if (yych <= '\r') goto yy24;
-                if (yych <= 0x1F) goto yy22;
-                goto yy24;
-            }
+            if (yych == '\n') goto yy7;
+            goto yy6;
         }
     } else {
-        if (yych <= 0xE0) {
-            if (yych <= 0x7F) goto yy22;
-            if (yych <= 0xC1) goto yy19;
-            if (yych <= 0xDF) goto yy28;
-            goto yy29;
+        if (yych <= '\r') {
+            if (yych <= '\f') goto yy5;
+            goto yy6;
         } else {
-            if (yych <= 0xF0) {
-                if (yych <= 0xEF) goto yy30;
-                goto yy31;
-            } else {
-                if (yych <= 0xF3) goto yy32;
-                if (yych <= 0xF4) goto yy33;
-            }
+            if (yych == ' ') goto yy6;
+            goto yy5;
         }
     }
-yy19:
-yy20:
     ++YYCURSOR;
-#line 64 "handlebars_scanners.re"
+#line 62 "handlebars_scanners.re"
     { break; }
-#line 187 "handlebars_scanners.c"
-yy22:
+#line 119 "handlebars_scanners.c"
+yy5:
     ++YYCURSOR;
-#line 67 "handlebars_scanners.re"
+#line 65 "handlebars_scanners.re"
     { match = 0; continue; }
-#line 192 "handlebars_scanners.c"
-yy24:
+#line 124 "handlebars_scanners.c"
+yy6:
     ++YYCURSOR;
-#line 65 "handlebars_scanners.re"
+#line 63 "handlebars_scanners.re"
     { continue; }
-#line 197 "handlebars_scanners.c"
-yy26:
+#line 129 "handlebars_scanners.c"
+yy7:
     ++YYCURSOR;
-#line 66 "handlebars_scanners.re"
+#line 64 "handlebars_scanners.re"
     { match = 1; continue; }
-#line 202 "handlebars_scanners.c"
-yy28:
-    yych = *++YYCURSOR;
-    if (yych <= 0x7F) goto yy19;
-    if (yych <= 0xBF) goto yy22;
-    goto yy19;
-yy29:
-    yych = *++YYCURSOR;
-    if (yych <= 0x9F) goto yy19;
-    if (yych <= 0xBF) goto yy28;
-    goto yy19;
-yy30:
-    yych = *++YYCURSOR;
-    if (yych <= 0x7F) goto yy19;
-    if (yych <= 0xBF) goto yy28;
-    goto yy19;
-yy31:
-    yych = *++YYCURSOR;
-    if (yych <= 0x8F) goto yy19;
-    if (yych <= 0xBF) goto yy30;
-    goto yy19;
-yy32:
-    yych = *++YYCURSOR;
-    if (yych <= 0x7F) goto yy19;
-    if (yych <= 0xBF) goto yy30;
-    goto yy19;
-yy33:
-    yych = *++YYCURSOR;
-    if (yych <= 0x7F) goto yy19;
-    if (yych <= 0x8F) goto yy30;
-    goto yy19;
+#line 134 "handlebars_scanners.c"
 }
-#line 68 "handlebars_scanners.re"
+#line 66 "handlebars_scanners.re"
 
     }
-    
+
     return match;
 }
diff --git a/src/handlebars_scanners.re b/src/handlebars_scanners.re
index 137cbec..ffa0dbb 100644
--- a/src/handlebars_scanners.re
+++ b/src/handlebars_scanners.re
@@ -40,7 +40,7 @@ bool handlebars_scanner_next_whitespace(const char * s, bool def)
             "\x00"       { break; }
             [ \v\t\r]    { continue; }
             "\n"         { return 1; }
-            .            { return 0; }
+            *            { return 0; }
         */
     }
 
@@ -62,7 +62,7 @@ bool handlebars_scanner_prev_whitespace(const char * s, bool def)
             "\x00"       { break; }
             [ \v\t\r]    { continue; }
             "\n"         { match = 1; continue; }
-            .            { match = 0; continue; }
+            *            { match = 0; continue; }
         */
     }
 
-- 
2.43.0


From 899d1e29c90af1536713428385129de5a3c7e8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:49 +0000
Subject: [PATCH 054/110] fix: running out of memory is noticed while
 serializing, building closures, compacting strings and reading partials

---
 src/handlebars_closure.c           |  1 +
 src/handlebars_opcode_serializer.c |  2 ++
 src/handlebars_partial_loader.c    |  7 ++++++-
 src/handlebars_string.c            |  5 ++++-
 src/handlebars_value.c             | 16 ++++++++++++++--
 5 files changed, 27 insertions(+), 4 deletions(-)

diff --git a/src/handlebars_closure.c b/src/handlebars_closure.c
index 404ea63..a0eebd6 100644
--- a/src/handlebars_closure.c
+++ b/src/handlebars_closure.c
@@ -83,6 +83,7 @@ struct handlebars_closure * handlebars_closure_ctor(
     struct handlebars_value * localv
 ) {
     struct handlebars_closure * closure = handlebars_talloc_zero_size(vm, sizeof(struct handlebars_closure) + (sizeof(struct handlebars_value) * localc));
+    HANDLEBARS_MEMCHECK(closure, HBSCTX(vm));
     talloc_set_type(closure, struct handlebars_closure);
 #ifndef HANDLEBARS_NO_REFCOUNT
     handlebars_rc_init(&closure->rc);
diff --git a/src/handlebars_opcode_serializer.c b/src/handlebars_opcode_serializer.c
index c21dfb5..f10367b 100644
--- a/src/handlebars_opcode_serializer.c
+++ b/src/handlebars_opcode_serializer.c
@@ -241,6 +241,7 @@ struct handlebars_module * handlebars_program_serialize(
 ) {
     // Allocate initial buffer
     struct handlebars_module * module = handlebars_talloc_zero(context, struct handlebars_module);
+    HANDLEBARS_MEMCHECK(module, context);
     memcpy(&module->header, "HBSCM", sizeof("HBSCM"));
     module->version = handlebars_version();
     module->flags = program->flags;
@@ -251,6 +252,7 @@ struct handlebars_module * handlebars_program_serialize(
 
     // Reallocate buffer
     module = handlebars_talloc_realloc_size(context, module, module->size);
+    HANDLEBARS_MEMCHECK(module, context);
     module->addr = (void *) module;
     talloc_set_type(module, struct handlebars_module);
 
diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index a959289..39e5cf8 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -117,10 +117,15 @@ static struct handlebars_value * hbs_partial_loader_map_find(struct handlebars_v
     fseek(f, 0, SEEK_SET);
 
     // A directory can be opened, too, but has no sensible size
-    char * buf = size >= 0 && size < LONG_MAX ? handlebars_talloc_array(intern->user.ctx, char, size + 1) : NULL;
+    bool readable = size >= 0 && size < LONG_MAX;
+    char * buf = readable ? handlebars_talloc_array(intern->user.ctx, char, size + 1) : NULL;
     size_t read = buf ? fread(buf, size, 1, f) : 0;
     fclose(f);
 
+    if (readable) {
+        HANDLEBARS_MEMCHECK(buf, intern->user.ctx);
+    }
+
     if (!read) {
         handlebars_throw(intern->user.ctx, HANDLEBARS_ERROR, "Failed to read partial: %.*s", (int) hbs_str_len(filename), hbs_str_val(filename));
     }
diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 35373ec..878bc2d 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -321,7 +321,10 @@ struct handlebars_string * handlebars_string_compact(struct handlebars_string *
     size_t size = HBS_STR_SIZE(string->len);
     if( talloc_get_size(string) > size ) {
         string = separate_string(string);
-        string = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
+        struct handlebars_string * compacted = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
+        if( compacted ) {
+            string = compacted;
+        }
     }
     return string;
 }
diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 9bc1ed0..1fa7aef 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -746,50 +746,62 @@ char * handlebars_value_dump(struct handlebars_value * value, struct handlebars_
     switch( handlebars_value_get_type(value) ) {
         case HANDLEBARS_VALUE_TYPE_NULL:
             buf = handlebars_talloc_asprintf_append_buffer(buf, "NULL");
+            HANDLEBARS_MEMCHECK(buf, context);
             break;
         case HANDLEBARS_VALUE_TYPE_TRUE:
             buf = handlebars_talloc_strndup_append_buffer(buf, HBS_STRL("boolean(true)"));
+            HANDLEBARS_MEMCHECK(buf, context);
             break;
         case HANDLEBARS_VALUE_TYPE_FALSE:
             buf = handlebars_talloc_strndup_append_buffer(buf, HBS_STRL("boolean(false)"));
+            HANDLEBARS_MEMCHECK(buf, context);
             break;
         case HANDLEBARS_VALUE_TYPE_FLOAT:
             buf = handlebars_talloc_asprintf_append_buffer(buf, "float(%g)", value->v.dval);
+            HANDLEBARS_MEMCHECK(buf, context);
             break;
         case HANDLEBARS_VALUE_TYPE_INTEGER:
             buf = handlebars_talloc_asprintf_append_buffer(buf, "integer(%ld)", value->v.lval);
+            HANDLEBARS_MEMCHECK(buf, context);
             break;
         case HANDLEBARS_VALUE_TYPE_STRING:
             buf = handlebars_talloc_asprintf_append_buffer(buf, "string(%.*s)", (int) hbs_str_len(value->v.string), hbs_str_val(value->v.string));
+            HANDLEBARS_MEMCHECK(buf, context);
             break;
         case HANDLEBARS_VALUE_TYPE_ARRAY:
             buf = handlebars_talloc_asprintf_append_buffer(buf, "[%s", handlebars_value_count(value) ? "\n" : "");
+            HANDLEBARS_MEMCHECK(buf, context);
             HANDLEBARS_VALUE_FOREACH_IDX(value, index, child) {
                 char * tmp = handlebars_value_dump(child, context, depth + 1);
                 buf = handlebars_talloc_asprintf_append_buffer(buf, "%s%zd => %s\n", indent2, index, tmp);
+                HANDLEBARS_MEMCHECK(buf, context);
                 handlebars_talloc_free(tmp);
             } HANDLEBARS_VALUE_FOREACH_END();
             buf = handlebars_talloc_asprintf_append_buffer(buf, "%s]", handlebars_value_count(value) ? indent : "");
+            HANDLEBARS_MEMCHECK(buf, context);
             break;
         case HANDLEBARS_VALUE_TYPE_MAP:
             buf = handlebars_talloc_asprintf_append_buffer(buf, "{%s", handlebars_value_count(value) ? "\n" : "");
+            HANDLEBARS_MEMCHECK(buf, context);
             HANDLEBARS_VALUE_FOREACH_KV(value, key, child) {
                 char * tmp = handlebars_value_dump(child, context, depth + 1);
                 buf = handlebars_talloc_asprintf_append_buffer(buf, "%s%.*s => %s\n", indent2, (int) hbs_str_len(key), hbs_str_val(key), tmp);
+                HANDLEBARS_MEMCHECK(buf, context);
                 handlebars_talloc_free(tmp);
             } HANDLEBARS_VALUE_FOREACH_END();
             buf = handlebars_talloc_asprintf_append_buffer(buf, "%s}", handlebars_value_count(value) ? indent : "");
+            HANDLEBARS_MEMCHECK(buf, context);
             break;
         case HANDLEBARS_VALUE_TYPE_HELPER:
             buf = handlebars_talloc_asprintf_append_buffer(buf, "(function, real type %d)", value->type);
+            HANDLEBARS_MEMCHECK(buf, context);
             break;
         default:
             buf = handlebars_talloc_asprintf_append_buffer(buf, "unknown type %d", value->type);
+            HANDLEBARS_MEMCHECK(buf, context);
             break;
     }
 
-    HANDLEBARS_MEMCHECK(buf, context);
-
     return buf;
 }
 
-- 
2.43.0


From 0137bcde2839ee12ba3bb09dde265ba03da0189d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:21 +0000
Subject: [PATCH 055/110] fix: a compiled module is printed with each opcode
 under its own program

---
 src/handlebars_module_printer.c | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/src/handlebars_module_printer.c b/src/handlebars_module_printer.c
index e734a7b..099239a 100644
--- a/src/handlebars_module_printer.c
+++ b/src/handlebars_module_printer.c
@@ -45,8 +45,6 @@ struct handlebars_string * handlebars_module_print(
     struct handlebars_module * module
 ) {
     struct handlebars_string * buffer = handlebars_string_init(ctx, 1024);
-    size_t program_guid = 0;
-    size_t local_opcode_id = 0;
     buffer = handlebars_string_asprintf_append(
         ctx,
         buffer,
@@ -83,29 +81,15 @@ struct handlebars_string * handlebars_module_print(
             module->programs[i].opcode_offset
         );
     }
-    buffer = handlebars_string_asprintf_append(ctx, buffer, "PROGRAM: %zu\n", program_guid);
-    for  (size_t i = 0; i < module->opcode_count; i++) {
-        // Make sure the program_guid is correct
-#ifndef NDEBUG
+    for ( size_t program_guid = 0; program_guid < module->program_count; program_guid++ ) {
+        // The opcodes of a program are contiguous, but not in the order of the programs
         struct handlebars_module_table_entry * entry = &module->programs[program_guid];
-        assert(i >= entry->opcode_offset);
-        assert(i < entry->opcode_offset + entry->opcode_count);
-#endif
-
-        struct handlebars_opcode * opcode = &module->opcodes[i];
-        buffer = handlebars_string_asprintf_append(ctx, buffer, "OP[%03zu,%03zu]: ", local_opcode_id, i);
-        buffer = handlebars_opcode_print_append(ctx, buffer, &module->opcodes[i], 0);
-        buffer = handlebars_string_asprintf_append(ctx, buffer, "\n");
-        if (opcode->type == handlebars_opcode_type_return) {
-            program_guid++;
-            if (program_guid < module->program_count) {
-                buffer = handlebars_string_asprintf_append(ctx, buffer, "\nPROGRAM: %zu\n", program_guid);
-            }
-            local_opcode_id = 0;
-        } else {
-            local_opcode_id++;
+        buffer = handlebars_string_asprintf_append(ctx, buffer, "%sPROGRAM: %zu\n", program_guid > 0 ? "\n" : "", program_guid);
+        for ( size_t i = 0; i < entry->opcode_count; i++ ) {
+            buffer = handlebars_string_asprintf_append(ctx, buffer, "OP[%03zu,%03zu]: ", i, entry->opcode_offset + i);
+            buffer = handlebars_opcode_print_append(ctx, buffer, &module->opcodes[entry->opcode_offset + i], 0);
+            buffer = handlebars_string_asprintf_append(ctx, buffer, "\n");
         }
     }
-    assert(program_guid == module->program_count);
     return buffer;
 }
-- 
2.43.0


From 037b911accb544cb7d9e70a80e2fde76af3f3637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:15 +0000
Subject: [PATCH 056/110] fix: quoted YAML scalars are strings, and null and
 empty ones are null

---
 src/handlebars_yaml.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 6f9b350..a094074 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -75,7 +75,12 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
             break;
         }
         case YAML_SCALAR_NODE:
-            if( 0 == strcmp((const char *) node->data.scalar.value, "true") ) {
+            if( node->data.scalar.style != YAML_PLAIN_SCALAR_STYLE ) {
+                // Only plain scalars are anything but strings
+                handlebars_value_str(value, handlebars_string_ctor(ctx, (const char *) node->data.scalar.value, node->data.scalar.length));
+            } else if( node->data.scalar.length == 0 || 0 == strcmp((const char *) node->data.scalar.value, "~") || 0 == strcmp((const char *) node->data.scalar.value, "null") ) {
+                handlebars_value_null(value);
+            } else if( 0 == strcmp((const char *) node->data.scalar.value, "true") ) {
                 handlebars_value_boolean(value, 1);
             } else if( 0 == strcmp((const char *) node->data.scalar.value, "false") ) {
                 handlebars_value_boolean(value, 0);
@@ -90,7 +95,7 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
                 }
                 // Double
                 dval = strtod((const char *) node->data.scalar.value, &end);
-                if( !*end ) {
+                if( !*end && !strpbrk((const char *) node->data.scalar.value, "nN") ) { // not inf, infinity or nan
                     handlebars_value_float(value, dval);
                     goto done;
                 }
-- 
2.43.0


From 5b1e4c7c7ee2728e9031421971f235727c025456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:20 +0000
Subject: [PATCH 057/110] fix: YAML mappings with a list or a mapping as the
 key are refused

---
 src/handlebars_yaml.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index a094074..2b1c5e9 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -57,7 +57,9 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
             for( pair = node->data.mapping.pairs.start; pair < node->data.mapping.pairs.top; pair++ ) {
                 yaml_node_t * keyNode = yaml_document_get_node(document, pair->key);
                 yaml_node_t * valueNode = yaml_document_get_node(document, pair->value);
-                assert(keyNode->type == YAML_SCALAR_NODE);
+                if( keyNode->type != YAML_SCALAR_NODE ) {
+                    handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML mapping keys must be scalars on line %zu", keyNode->start_mark.line + 1);
+                }
                 handlebars_value_init_yaml_node(ctx, tmp, document, valueNode);
                 map = handlebars_map_str_update(map, (const char *) keyNode->data.scalar.value, keyNode->data.scalar.length, tmp);
             }
-- 
2.43.0


From 4d64a584be5b9e7f128ecf8132d0e51ecb7cc27d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:26 +0000
Subject: [PATCH 058/110] fix: a YAML document that contains itself is refused

---
 src/handlebars_yaml.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index 2b1c5e9..c5d41db 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -44,8 +44,15 @@ static int _yaml_ctx_dtor(struct _yaml_ctx * holder)
     return 0;
 }
 
-void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node)
+// Documents nested more deeply are refused, as are those that contain themselves through an alias
+#define YAML_MAX_DEPTH 1000
+
+static void init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node, int depth)
 {
+    if( depth > YAML_MAX_DEPTH ) {
+        handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML document is nested too deeply on line %zu", node->start_mark.line + 1);
+    }
+
     HANDLEBARS_VALUE_DECL(tmp);
     yaml_node_pair_t * pair;
     yaml_node_item_t * item;
@@ -60,7 +67,7 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
                 if( keyNode->type != YAML_SCALAR_NODE ) {
                     handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML mapping keys must be scalars on line %zu", keyNode->start_mark.line + 1);
                 }
-                handlebars_value_init_yaml_node(ctx, tmp, document, valueNode);
+                init_yaml_node(ctx, tmp, document, valueNode, depth + 1);
                 map = handlebars_map_str_update(map, (const char *) keyNode->data.scalar.value, keyNode->data.scalar.length, tmp);
             }
             handlebars_value_map(value, map);
@@ -70,7 +77,7 @@ void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct hand
             struct handlebars_stack * stack = handlebars_stack_ctor(ctx, node->data.sequence.items.top - node->data.sequence.items.start);
             for( item = node->data.sequence.items.start; item < node->data.sequence.items.top; item++) {
                 yaml_node_t * valueNode = yaml_document_get_node(document, *item);
-                handlebars_value_init_yaml_node(ctx, tmp, document, valueNode);
+                init_yaml_node(ctx, tmp, document, valueNode, depth + 1);
                 stack = handlebars_stack_push(stack, tmp);
             }
             handlebars_value_array(value, stack);
@@ -115,6 +122,11 @@ done:
     HANDLEBARS_VALUE_UNDECL(tmp);
 }
 
+void handlebars_value_init_yaml_node(struct handlebars_context *ctx, struct handlebars_value * value, struct yaml_document_s * document, struct yaml_node_s * node)
+{
+    init_yaml_node(ctx, value, document, node, 0);
+}
+
 void handlebars_value_init_yaml_string(struct handlebars_context * ctx, struct handlebars_value * value, const char * yaml)
 {
     struct _yaml_ctx * yctx = handlebars_talloc_zero(ctx, struct _yaml_ctx);
-- 
2.43.0


From 846ec2217695111c3053c03b05b2b4981f00c8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:28 +0000
Subject: [PATCH 059/110] fix: NUL outside of tags is an error: it went to
 standard output, and the lexer read behind its table

---
 configure            |     2 +-
 configure.ac         |     2 +-
 src/handlebars.l     |     6 +
 src/handlebars.lex.c | 10798 +++++++++++++++++++++++------------------
 src/handlebars.lex.h |     2 +-
 5 files changed, 5990 insertions(+), 4820 deletions(-)

diff --git a/configure b/configure
index eca68f6..3c02fba 100755
--- a/configure
+++ b/configure
@@ -20716,7 +20716,7 @@ fi
 
 if test "x$FLEXFLAGS" == "x"
 then :
-  FLEXFLAGS="--noreject --fast --align"
+  FLEXFLAGS="--noreject --full --align"
 fi
 
 # Check whether --enable-flex was given.
diff --git a/configure.ac b/configure.ac
index 45c3b3e..6ffa14b 100644
--- a/configure.ac
+++ b/configure.ac
@@ -242,7 +242,7 @@ AM_CONDITIONAL(DOXYGEN, [test "x$DOXYGEN" != "x"])
 
 # flex
 AC_ARG_VAR([FLEXFLAGS], [flex flags])
-AS_IF([test "x$FLEXFLAGS" == "x"], [FLEXFLAGS="--noreject --fast --align"])
+AS_IF([test "x$FLEXFLAGS" == "x"], [FLEXFLAGS="--noreject --full --align"])
 
 AC_ARG_ENABLE([flex], [AS_HELP_STRING([--disable-flex], [disable support for flex])], [])
 AS_IF([test "x$enable_flex" != "xno"], [
diff --git a/src/handlebars.l b/src/handlebars.l
index ff859eb..9e33ca3 100644
--- a/src/handlebars.l
+++ b/src/handlebars.l
@@ -205,6 +205,12 @@ BLOCKPARAM [\x7C]
 										return CONTENT;
 									}
 
+<INITIAL,raw>\x00+                  {
+										// Not text, same as the reference implementation
+										handlebars_yy_copy_lval();
+										return INVALID;
+									}
+
 <emu>. 								{
 										// v2.0.0 handlebars.l line 47
 										handlebars_yy_unput_all;
diff --git a/src/handlebars.lex.c b/src/handlebars.lex.c
index b8f001b..57f98b0 100644
--- a/src/handlebars.lex.c
+++ b/src/handlebars.lex.c
@@ -555,10 +555,5796 @@ void yyfree ( void * , yyscan_t yyscanner );
 #define YY_SKIP_YYWRAP
 typedef flex_uint8_t YY_CHAR;
 
-typedef const struct yy_trans_info *yy_state_type;
+typedef int yy_state_type;
 
 #define yytext_ptr yytext_r
 
+static const flex_int32_t yy_nxt[][256] =
+    {
+    {
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0
+    },
+
+    {
+       13,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       15,   14,   14,   15,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   16,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   17,   14,   18,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14
+    },
+
+    {
+       13,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       15,   14,   14,   15,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   16,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   17,   14,   18,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14,   14,   14,   14,   14,
+       14,   14,   14,   14,   14,   14
+    },
+
+    {
+       13,   20,   20,   20,   20,   20,   20,   20,   20,   21,
+       22,   20,   20,   21,   20,   20,   20,   20,   20,   20,
+
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   21,   23,   24,   23,   20,   23,   23,   25,
+       26,   27,   23,   23,   23,   28,   29,   30,   31,   31,
+       31,   31,   31,   31,   31,   31,   31,   31,   20,   23,
+       23,   32,   23,   20,   33,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   34,   23,   23,   23,   20,   23,   35,   20,   20,
+       20,   20,   36,   20,   20,   20,   20,   20,   20,   20,
+       37,   20,   20,   20,   20,   20,   38,   39,   20,   20,
+
+       20,   20,   20,   40,   41,   42,   43,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20
+    },
+
+    {
+       13,   20,   20,   20,   20,   20,   20,   20,   20,   21,
+       22,   20,   20,   21,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   21,   23,   24,   23,   20,   23,   23,   25,
+       26,   27,   23,   23,   23,   28,   29,   30,   31,   31,
+       31,   31,   31,   31,   31,   31,   31,   31,   20,   23,
+
+       23,   32,   23,   20,   33,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   34,   23,   23,   23,   20,   23,   35,   20,   20,
+       20,   20,   36,   20,   20,   20,   20,   20,   20,   20,
+       37,   20,   20,   20,   20,   20,   38,   39,   20,   20,
+       20,   20,   20,   40,   41,   42,   43,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20,   20,   20,   20,   20,
+       20,   20,   20,   20,   20,   20
+
+    },
+
+    {
+       13,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       45,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44
+    },
+
+    {
+       13,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       45,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+
+       44,   44,   44,   44,   44,   44,   44,   44,   44,   44,
+       44,   44,   44,   44,   44,   44
+    },
+
+    {
+       13,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   47,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46
+    },
+
+    {
+       13,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+
+       46,   46,   46,   47,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46,   46,   46,   46,   46,
+       46,   46,   46,   46,   46,   46
+    },
+
+    {
+       13,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   49,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48
+
+    },
+
+    {
+       13,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   49,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48,   48,   48,   48,   48,
+       48,   48,   48,   48,   48,   48
+    },
+
+    {
+       13,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   51,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50
+    },
+
+    {
+       13,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   51,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50,   50,   50,   50,   50,
+       50,   50,   50,   50,   50,   50
+    },
+
+    {
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,  -13,
+      -13,  -13,  -13,  -13,  -13,  -13
+    },
+
+    {
+       13,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       53,   52,   52,   53,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   54,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,  -14,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52
+
+    },
+
+    {
+       13,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+       53,  -15,  -15,   53,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,   54,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,  -15,
+      -15,  -15,  -15,  -15,  -15,  -15
+    },
+
+    {
+       13,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,   55,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,   56,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+
+      -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,  -16,
+      -16,  -16,  -16,  -16,  -16,  -16
+    },
+
+    {
+       13,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,   57,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,  -17,
+      -17,  -17,  -17,  -17,  -17,  -17
+    },
+
+    {
+       13,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       53,   52,   52,   53,   52,   52,   52,   52,   52,   52,
+
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   54,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+
+       52,   52,   52,  -18,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52
+    },
+
+    {
+       13,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,  -19,
+      -19,  -19,  -19,  -19,  -19,  -19
+
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -20,  -20,  -20,   59,  -20,  -20,  -20,
+      -20,   60,  -20,  -20,  -20,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -20,
+      -20,   60,  -20,   59,  -20,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -20,  -20,  -20,  -20,   59,  -20,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,  -20,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,   61,
+       61,  -21,  -21,   61,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,   61,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+
+      -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,  -21,
+      -21,  -21,  -21,  -21,  -21,  -21
+    },
+
+    {
+       13,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,   61,
+       61,  -22,  -22,   61,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,   61,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,  -22,
+      -22,  -22,  -22,  -22,  -22,  -22
+    },
+
+    {
+       13,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,  -23,
+      -23,  -23,  -23,  -23,  -23,  -23
+    },
+
+    {
+       13,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   63,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   64,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62
+
+    },
+
+    {
+       13,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   66,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   67,   65,   65,   65,   65,   65,   65,   65,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65
+    },
+
+    {
+       13,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+
+      -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,  -26,
+      -26,  -26,  -26,  -26,  -26,  -26
+    },
+
+    {
+       13,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,  -27,
+      -27,  -27,  -27,  -27,  -27,  -27
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -28,  -28,  -28,   59,  -28,  -28,  -28,
+      -28,   60,  -28,  -28,  -28,   59,   60,   60,   68,   68,
+       68,   68,   68,   68,   68,   68,   68,   68,   59,  -28,
+      -28,   60,  -28,   59,  -28,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -28,  -28,  -28,  -28,   59,  -28,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,  -28,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,   69,
+       69,  -29,  -29,   69,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,   69,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,   69,  -29,  -29,  -29,  -29,   70,   69,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+
+      -29,   69,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,   69,   69,   69,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,  -29,
+      -29,  -29,  -29,  -29,  -29,  -29
+
+    },
+
+    {
+       13,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,  -30,
+      -30,  -30,  -30,  -30,  -30,  -30
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   71,
+       71,   59,   59,   71,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   71,  -31,  -31,  -31,   59,  -31,  -31,  -31,
+
+      -31,   71,  -31,  -31,  -31,   59,   72,   60,   68,   68,
+       68,   68,   68,   68,   68,   68,   68,   68,   59,  -31,
+      -31,   60,  -31,   59,  -31,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -31,  -31,  -31,  -31,   59,  -31,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,  -31,   60,   71,   71,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,  -32,
+      -32,  -32,  -32,  -32,  -32,  -32
+    },
+
+    {
+       13,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,  -33,
+      -33,  -33,  -33,  -33,  -33,  -33
+    },
+
+    {
+       13,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   74,   75,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73
+
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -35,  -35,  -35,   59,  -35,  -35,  -35,
+      -35,   60,  -35,  -35,  -35,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -35,
+      -35,   60,  -35,   59,  -35,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -35,  -35,  -35,  -35,   59,  -35,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   76,   59,   59,   59,   59,
+       59,   59,   59,  -35,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -36,  -36,  -36,   59,  -36,  -36,  -36,
+
+      -36,   60,  -36,  -36,  -36,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -36,
+      -36,   60,  -36,   59,  -36,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -36,  -36,  -36,  -36,   59,  -36,   77,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,  -36,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -37,  -37,  -37,   59,  -37,  -37,  -37,
+      -37,   60,  -37,  -37,  -37,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -37,
+      -37,   60,  -37,   59,  -37,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -37,  -37,  -37,  -37,   59,  -37,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   78,   59,   59,
+       59,   59,   59,  -37,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -38,  -38,  -38,   59,  -38,  -38,  -38,
+      -38,   60,  -38,  -38,  -38,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -38,
+      -38,   60,  -38,   59,  -38,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -38,  -38,  -38,  -38,   59,  -38,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   79,   59,   59,   59,   59,   59,
+
+       59,   59,   59,  -38,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -39,  -39,  -39,   59,  -39,  -39,  -39,
+      -39,   60,  -39,  -39,  -39,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -39,
+
+      -39,   60,  -39,   59,  -39,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -39,  -39,  -39,  -39,   59,  -39,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       80,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,  -39,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+
+    },
+
+    {
+       13,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,   81,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,  -40,
+      -40,  -40,  -40,  -40,  -40,  -40
+    },
+
+    {
+       13,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+
+      -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,  -41,
+      -41,  -41,  -41,  -41,  -41,  -41
+    },
+
+    {
+       13,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,   82,   83,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,  -42,
+      -42,  -42,  -42,  -42,  -42,  -42
+    },
+
+    {
+       13,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+
+      -43,  -43,  -43,  -43,  -43,   84,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,  -43,
+      -43,  -43,  -43,  -43,  -43,  -43
+    },
+
+    {
+       13,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,  -44,
+      -44,  -44,  -44,  -44,  -44,  -44
+
+    },
+
+    {
+       13,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,  -45,
+      -45,  -45,  -45,  -45,  -45,  -45
+    },
+
+    {
+       13,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+
+      -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,  -46,
+      -46,  -46,  -46,  -46,  -46,  -46
+    },
+
+    {
+       13,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,   85,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,  -47,
+      -47,  -47,  -47,  -47,  -47,  -47
+    },
+
+    {
+       13,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   87,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86
+    },
+
+    {
+       13,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   88,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86
+
+    },
+
+    {
+       13,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,  -50,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89
+    },
+
+    {
+       13,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,   90,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+
+      -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,  -51,
+      -51,  -51,  -51,  -51,  -51,  -51
+    },
+
+    {
+       13,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       53,   52,   52,   53,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   54,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,  -52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52,   52,   52,   52,   52,
+       52,   52,   52,   52,   52,   52
+    },
+
+    {
+       13,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+       53,  -53,  -53,   53,  -53,  -53,  -53,  -53,  -53,  -53,
+
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,   54,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,  -53,
+      -53,  -53,  -53,  -53,  -53,  -53
+    },
+
+    {
+       13,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,   91,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,  -54,
+      -54,  -54,  -54,  -54,  -54,  -54
+
+    },
+
+    {
+       13,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,   92,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,  -55,
+      -55,  -55,  -55,  -55,  -55,  -55
+    },
+
+    {
+       13,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,   93,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+
+      -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,  -56,
+      -56,  -56,  -56,  -56,  -56,  -56
+    },
+
+    {
+       13,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,   94,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,  -57,
+      -57,  -57,  -57,  -57,  -57,  -57
+    },
+
+    {
+       13,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,  -58,
+      -58,  -58,  -58,  -58,  -58,  -58
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -59,  -59,  -59,   59,  -59,  -59,  -59,
+      -59,   60,  -59,  -59,  -59,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -59,
+
+      -59,   60,  -59,   59,  -59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -59,  -59,  -59,  -59,   59,  -59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,  -59,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+
+    },
+
+    {
+       13,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,  -60,
+      -60,  -60,  -60,  -60,  -60,  -60
+    },
+
+    {
+       13,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,   61,
+       61,  -61,  -61,   61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,   61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+
+      -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,  -61,
+      -61,  -61,  -61,  -61,  -61,  -61
+    },
+
+    {
+       13,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   63,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   64,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62
+    },
+
+    {
+       13,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,  -63,
+      -63,  -63,  -63,  -63,  -63,  -63
+    },
+
+    {
+       13,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   95,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   64,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62
+
+    },
+
+    {
+       13,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   66,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   67,   65,   65,   65,   65,   65,   65,   65,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65
+    },
+
+    {
+       13,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+
+      -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,  -66,
+      -66,  -66,  -66,  -66,  -66,  -66
+    },
+
+    {
+       13,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   96,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   67,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   71,
+       71,   59,   59,   71,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   71,  -68,  -68,  -68,   59,  -68,  -68,  -68,
+      -68,   71,  -68,  -68,  -68,   59,   72,   60,   68,   68,
+       68,   68,   68,   68,   68,   68,   68,   68,   59,  -68,
+      -68,   60,  -68,   59,  -68,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -68,  -68,  -68,  -68,   59,  -68,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,  -68,   60,   71,   71,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,  -69,
+      -69,  -69,  -69,  -69,  -69,  -69
+
+    },
+
+    {
+       13,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,  -70,
+      -70,  -70,  -70,  -70,  -70,  -70
+    },
+
+    {
+       13,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+
+      -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,  -71,
+      -71,  -71,  -71,  -71,  -71,  -71
+    },
+
+    {
+       13,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,   97,   97,
+       97,   97,   97,   97,   97,   97,   97,   97,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,  -72,
+      -72,  -72,  -72,  -72,  -72,  -72
+    },
+
+    {
+       13,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   74,   75,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73
+    },
+
+    {
+       13,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   74,   98,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73
+
+    },
+
+    {
+       13,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,  -75,
+      -75,  -75,  -75,  -75,  -75,  -75
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   99,
+       99,   59,   59,   99,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   99,  -76,  -76,  -76,   59,  -76,  -76,  -76,
+
+      -76,   60,  -76,  -76,  -76,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -76,
+      -76,   60,  -76,   59,  -76,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -76,  -76,  -76,  -76,   59,  -76,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,  -76,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -77,  -77,  -77,   59,  -77,  -77,  -77,
+      -77,   60,  -77,  -77,  -77,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -77,
+      -77,   60,  -77,   59,  -77,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -77,  -77,  -77,  -77,   59,  -77,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,  100,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,  -77,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -78,  -78,  -78,   59,  -78,  -78,  -78,
+      -78,   60,  -78,  -78,  -78,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -78,
+      -78,   60,  -78,   59,  -78,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -78,  -78,  -78,  -78,   59,  -78,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,  101,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,  -78,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -79,  -79,  -79,   59,  -79,  -79,  -79,
+      -79,   60,  -79,  -79,  -79,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -79,
+
+      -79,   60,  -79,   59,  -79,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -79,  -79,  -79,  -79,   59,  -79,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,  102,   59,   59,
+       59,   59,   59,  -79,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60,  -80,  -80,  -80,   59,  -80,  -80,  -80,
+      -80,   60,  -80,  -80,  -80,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,  -80,
+      -80,   60,  -80,   59,  -80,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,  -80,  -80,  -80,  -80,   59,  -80,   59,   59,   59,
+
+      103,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,  -80,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  104,
+      104,  -81,  -81,  104,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  104,  105,  -81,  106,  -81,  -81,  107,  -81,
+
+      -81,  -81,  108,  -81,  -81,  -81,  -81,  109,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  110,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  111,  -81,  -81,  -81,  -81,  -81,
+      -81,  112,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  113,  -81,  -81,  114,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+
+      -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,  -81,
+      -81,  -81,  -81,  -81,  -81,  -81
+    },
+
+    {
+       13,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  115,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,  -82,
+      -82,  -82,  -82,  -82,  -82,  -82
+    },
+
+    {
+       13,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+
+      -83,  -83,  -83,  -83,  -83,  116,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,  -83,
+      -83,  -83,  -83,  -83,  -83,  -83
+    },
+
+    {
+       13,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  117,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,  -84,
+      -84,  -84,  -84,  -84,  -84,  -84
+
+    },
+
+    {
+       13,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  118,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  119,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,  -85,
+      -85,  -85,  -85,  -85,  -85,  -85
+    },
+
+    {
+       13,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   87,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86
+    },
+
+    {
+       13,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   88,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86,   86,   86,   86,   86,
+       86,   86,   86,   86,   86,   86
+    },
+
+    {
+       13,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,  -88,
+      -88,  -88,  -88,  -88,  -88,  -88
+    },
+
+    {
+       13,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,  -89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89,   89,   89,   89,   89,
+       89,   89,   89,   89,   89,   89
+
+    },
+
+    {
+       13,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  120,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,  -90,
+      -90,  -90,  -90,  -90,  -90,  -90
+    },
+
+    {
+       13,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  121,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+
+      -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,  -91,
+      -91,  -91,  -91,  -91,  -91,  -91
+    },
+
+    {
+       13,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  122,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,  -92,
+      -92,  -92,  -92,  -92,  -92,  -92
+    },
+
+    {
+       13,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      124,  123,  123,  124,  123,  123,  123,  123,  123,  123,
+
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  -93,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+
+      123,  123,  123,  125,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123
+    },
+
+    {
+       13,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,  -94,
+      -94,  -94,  -94,  -94,  -94,  -94
+
+    },
+
+    {
+       13,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   63,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   64,   62,   62,   62,   62,   62,   62,   62,
+
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62,   62,   62,   62,   62,
+       62,   62,   62,   62,   62,   62
+    },
+
+    {
+       13,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   66,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   67,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+
+       65,   65,   65,   65,   65,   65,   65,   65,   65,   65,
+       65,   65,   65,   65,   65,   65
+    },
+
+    {
+       13,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  126,
+      126,  -97,  -97,  126,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  126,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  126,  -97,  -97,  -97,  -97,  -97,  -97,   97,   97,
+       97,   97,   97,   97,   97,   97,   97,   97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  126,  126,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,  -97,
+      -97,  -97,  -97,  -97,  -97,  -97
+    },
+
+    {
+       13,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   74,   75,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73,   73,   73,   73,   73,
+       73,   73,   73,   73,   73,   73
+    },
+
+    {
+       13,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  127,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,  -99,
+      -99,  -99,  -99,  -99,  -99,  -99
+
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -100, -100, -100,   59, -100, -100, -100,
+     -100,   60, -100, -100, -100,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -100,
+     -100,   60, -100,   59, -100,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -100, -100, -100, -100,   59, -100,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,  128,   59,   59,   59,   59,
+       59,   59,   59, -100,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -101, -101, -101,   59, -101, -101, -101,
+
+     -101,   60, -101, -101, -101,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -101,
+     -101,   60, -101,   59, -101,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -101, -101, -101, -101,   59, -101,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,  129,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -101,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -102, -102, -102,   59, -102, -102, -102,
+     -102,   60, -102, -102, -102,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -102,
+     -102,   60, -102,   59, -102,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -102, -102, -102, -102,   59, -102,   59,   59,   59,
+       59,  130,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -102,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -103, -103, -103,   59, -103, -103, -103,
+     -103,   60, -103, -103, -103,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -103,
+     -103,   60, -103,   59, -103,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -103, -103, -103, -103,   59, -103,   59,   59,   59,
+       59,  131,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59, -103,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13, -104, -104, -104, -104, -104, -104, -104, -104,  104,
+      104, -104, -104,  104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104,  104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104,  112, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104, -104, -104, -104, -104,
+     -104, -104, -104, -104, -104, -104
+
+    },
+
+    {
+       13, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105,  132, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105, -105, -105, -105, -105,
+     -105, -105, -105, -105, -105, -105
+    },
+
+    {
+       13, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+
+     -106, -106,  133, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106,  134, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+
+     -106, -106, -106, -106, -106, -106, -106, -106, -106, -106,
+     -106, -106, -106, -106, -106, -106
+    },
+
+    {
+       13, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107, -107, -107, -107, -107,
+     -107, -107, -107, -107, -107, -107
+    },
+
+    {
+       13, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108, -108, -108, -108, -108,
+     -108, -108, -108, -108, -108, -108
+    },
+
+    {
+       13, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109, -109, -109, -109, -109,
+     -109, -109, -109, -109, -109, -109
+
+    },
+
+    {
+       13, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110, -110, -110, -110, -110,
+     -110, -110, -110, -110, -110, -110
+    },
+
+    {
+       13, -111, -111, -111, -111, -111, -111, -111, -111,  135,
+      135, -111, -111,  135, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111,  135, -111, -111, -111, -111, -111, -111, -111,
+
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111,  136,  137, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+
+     -111, -111, -111, -111, -111, -111, -111, -111, -111, -111,
+     -111, -111, -111, -111, -111, -111
+    },
+
+    {
+       13, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112,  138, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112, -112, -112, -112, -112,
+     -112, -112, -112, -112, -112, -112
+    },
+
+    {
+       13, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+
+     -113, -113, -113,  139, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113, -113, -113, -113, -113,
+     -113, -113, -113, -113, -113, -113
+    },
+
+    {
+       13, -114, -114, -114, -114, -114, -114, -114, -114,  104,
+      104, -114, -114,  104, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114,  104,  105, -114,  106, -114, -114,  107, -114,
+     -114, -114,  108, -114, -114, -114, -114,  109, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+
+     -114, -114,  110, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114,  111, -114, -114, -114, -114, -114,
+     -114,  112, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114,  140, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114, -114, -114, -114, -114,
+     -114, -114, -114, -114, -114, -114
+
+    },
+
+    {
+       13, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115,  141, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115, -115, -115, -115, -115,
+     -115, -115, -115, -115, -115, -115
+    },
+
+    {
+       13, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116,  142, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+
+     -116, -116, -116, -116, -116, -116, -116, -116, -116, -116,
+     -116, -116, -116, -116, -116, -116
+    },
+
+    {
+       13, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117, -117, -117, -117, -117,
+     -117, -117, -117, -117, -117, -117
+    },
+
+    {
+       13,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  144,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143
+    },
+
+    {
+       13, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119,  118, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119, -119, -119, -119, -119,
+     -119, -119, -119, -119, -119, -119
+
+    },
+
+    {
+       13, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120,  145, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120, -120, -120, -120, -120,
+     -120, -120, -120, -120, -120, -120
+    },
+
+    {
+       13, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121,  146, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+
+     -121, -121, -121, -121, -121, -121, -121, -121, -121, -121,
+     -121, -121, -121, -121, -121, -121
+    },
+
+    {
+       13, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122,  147, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122, -122, -122, -122, -122,
+     -122, -122, -122, -122, -122, -122
+    },
+
+    {
+       13,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      124,  123,  123,  124,  123,  123,  123,  123,  123,  123,
+
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123, -123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+
+      123,  123,  123, -123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123
+    },
+
+    {
+       13, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+      124, -124, -124,  124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124, -124, -124, -124, -124,
+     -124, -124, -124, -124, -124, -124
+
+    },
+
+    {
+       13,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      124,  123,  123,  124,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123, -125,  123,  123,  123,  123,  123,  123,  123,
+
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123, -125,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123,  123,  123,  123,  123,
+      123,  123,  123,  123,  123,  123
+    },
+
+    {
+       13, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+
+     -126, -126, -126, -126, -126, -126, -126, -126, -126, -126,
+     -126, -126, -126, -126, -126, -126
+    },
+
+    {
+       13, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127, -127, -127, -127, -127,
+     -127, -127, -127, -127, -127, -127
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -128, -128, -128,   59, -128, -128, -128,
+     -128,   60, -128, -128, -128,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -128,
+     -128,   60, -128,   59, -128,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -128, -128, -128, -128,   59, -128,   59,   59,   59,
+       59,  148,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59, -128,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,  149,
+      149,   59,   59,  149,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,  149, -129, -129, -129,   59, -129, -129, -129,
+     -129,  149, -129, -129, -129,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -129,
+
+     -129,   60, -129,   59, -129,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -129, -129, -129, -129,   59, -129,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -129,   60,  149,  149,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,  150,
+      150,   59,   59,  150,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,  150, -130, -130, -130,   59, -130, -130, -130,
+     -130,  150, -130, -130, -130,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -130,
+     -130,   60, -130,   59, -130,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -130, -130, -130, -130,   59, -130,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -130,   60,  150,  150,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -131, -131, -131,   59, -131, -131, -131,
+
+     -131,   60, -131, -131, -131,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -131,
+     -131,   60, -131,   59, -131,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -131, -131, -131, -131,   59, -131,   59,   59,   59,
+       59,   59,  151,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -131,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132,  152, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132, -132, -132, -132, -132,
+     -132, -132, -132, -132, -132, -132
+    },
+
+    {
+       13, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133, -133, -133, -133, -133,
+     -133, -133, -133, -133, -133, -133
+    },
+
+    {
+       13, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134, -134, -134, -134, -134,
+     -134, -134, -134, -134, -134, -134
+
+    },
+
+    {
+       13, -135, -135, -135, -135, -135, -135, -135, -135,  135,
+      135, -135, -135,  135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135,  135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135,  136,  137, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135, -135, -135, -135, -135,
+     -135, -135, -135, -135, -135, -135
+    },
+
+    {
+       13, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136,  153, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+
+     -136, -136, -136, -136, -136, -136, -136, -136, -136, -136,
+     -136, -136, -136, -136, -136, -136
+    },
+
+    {
+       13, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137,  136, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137, -137, -137, -137, -137,
+     -137, -137, -137, -137, -137, -137
+    },
+
+    {
+       13, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138,  154, -138, -138, -138, -138,
+
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138, -138, -138, -138, -138,
+     -138, -138, -138, -138, -138, -138
+    },
+
+    {
+       13, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139, -139, -139, -139, -139,
+     -139, -139, -139, -139, -139, -139
+
+    },
+
+    {
+       13, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140, -140, -140, -140, -140,
+     -140, -140, -140, -140, -140, -140
+    },
+
+    {
+       13, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+
+     -141, -141, -141, -141, -141, -141, -141, -141, -141, -141,
+     -141, -141, -141, -141, -141, -141
+    },
+
+    {
+       13, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142, -142, -142, -142, -142,
+     -142, -142, -142, -142, -142, -142
+    },
+
+    {
+       13,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  144,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143
+    },
+
+    {
+       13,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  155,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143
+
+    },
+
+    {
+       13,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  157,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156,  156,  156,  156,  156,
+      156,  156,  156,  156,  156,  156
+    },
+
+    {
+       13, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146,  158, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+
+     -146, -146, -146, -146, -146, -146, -146, -146, -146, -146,
+     -146, -146, -146, -146, -146, -146
+    },
+
+    {
+       13, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147, -147, -147, -147, -147,
+     -147, -147, -147, -147, -147, -147
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,  159,
+      159,   59,   59,  159,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,  159, -148, -148, -148,   59, -148, -148, -148,
+     -148,  159, -148, -148, -148,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -148,
+     -148,   60, -148,   59, -148,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -148, -148, -148, -148,   59, -148,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59, -148,   60,  159,  159,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149, -149, -149, -149, -149,
+     -149, -149, -149, -149, -149, -149
+
+    },
+
+    {
+       13, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150, -150, -150, -150, -150,
+     -150, -150, -150, -150, -150, -150
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -151, -151, -151,   59, -151, -151, -151,
+
+     -151,   60, -151, -151, -151,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -151,
+     -151,   60, -151,   59, -151,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -151, -151, -151, -151,   59, -151,   59,   59,   59,
+       59,   59,   59,   59,   59,  160,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -151,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152, -152, -152, -152, -152,
+     -152, -152, -152, -152, -152, -152
+    },
+
+    {
+       13, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153, -153, -153, -153, -153,
+     -153, -153, -153, -153, -153, -153
+    },
+
+    {
+       13, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154,  161, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154, -154, -154, -154, -154,
+     -154, -154, -154, -154, -154, -154
+
+    },
+
+    {
+       13,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  155,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  162,  163,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143
+    },
+
+    {
+       13, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+
+     -156, -156, -156, -156, -156, -156, -156, -156, -156, -156,
+     -156, -156, -156, -156, -156, -156
+    },
+
+    {
+       13,  164,  164,  164,  164,  164,  164,  164,  164, -157,
+     -157,  164,  164, -157,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164, -157, -157, -157, -157,  164, -157, -157, -157,
+     -157, -157, -157, -157, -157,  164, -157, -157,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164, -157,
+     -157, -157, -157,  164, -157,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164, -157, -157, -157, -157,  164, -157,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164, -157, -157, -157, -157,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164
+    },
+
+    {
+       13, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158, -158, -158, -158, -158,
+     -158, -158, -158, -158, -158, -158
+    },
+
+    {
+       13, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159, -159, -159, -159, -159,
+     -159, -159, -159, -159, -159, -159
+
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -160, -160, -160,   59, -160, -160, -160,
+     -160,   60, -160, -160, -160,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -160,
+     -160,   60, -160,   59, -160,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -160, -160, -160, -160,   59, -160,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+      165,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -160,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13, -161, -161, -161, -161, -161, -161, -161, -161,  166,
+      166, -161, -161,  166, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161,  166,  167,  167,  167, -161,  167,  167,  167,
+
+      167,  167,  167,  167,  167, -161,  167,  167, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161,  167,
+      167,  167,  167, -161,  167, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161,  167,  167,  167,  167, -161,  167, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161,  167,  167,  168,  169, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+
+     -161, -161, -161, -161, -161, -161, -161, -161, -161, -161,
+     -161, -161, -161, -161, -161, -161
+    },
+
+    {
+       13,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  170,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  171,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143
+    },
+
+    {
+       13,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  170,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+
+      143,  143,  143,  143,  143,  162,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143
+    },
+
+    {
+       13,  164,  164,  164,  164,  164,  164,  164,  164, -164,
+     -164,  164,  164, -164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164, -164, -164, -164, -164,  164, -164, -164, -164,
+     -164, -164, -164, -164, -164,  164, -164, -164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164, -164,
+
+     -164, -164, -164,  164, -164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164, -164, -164, -164, -164,  164, -164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164, -164, -164,  172, -164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164,  164,  164,  164,  164,
+      164,  164,  164,  164,  164,  164
+
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -165, -165, -165,   59, -165, -165, -165,
+     -165,   60, -165, -165, -165,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -165,
+     -165,   60, -165,   59, -165,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -165, -165, -165, -165,   59, -165,   59,   59,   59,
+
+       59,  173,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -165,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13, -166, -166, -166, -166, -166, -166, -166, -166,  174,
+      174, -166, -166,  174, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166,  174, -166, -166, -166, -166, -166, -166, -166,
+
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166,  175,  176, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+
+     -166, -166, -166, -166, -166, -166, -166, -166, -166, -166,
+     -166, -166, -166, -166, -166, -166
+    },
+
+    {
+       13, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167, -167, -167, -167, -167,
+     -167, -167, -167, -167, -167, -167
+    },
+
+    {
+       13, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+
+     -168, -168, -168, -168, -168,  177, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168, -168, -168, -168, -168,
+     -168, -168, -168, -168, -168, -168
+    },
+
+    {
+       13, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169,  175, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169, -169, -169, -169, -169,
+     -169, -169, -169, -169, -169, -169
+
+    },
+
+    {
+       13,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  155,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143,  143,  143,  143,  143,
+      143,  143,  143,  143,  143,  143
+    },
+
+    {
+       13, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+
+     -171, -171, -171, -171, -171, -171, -171, -171, -171, -171,
+     -171, -171, -171, -171, -171, -171
+    },
+
+    {
+       13, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172,  178, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172, -172, -172, -172, -172,
+     -172, -172, -172, -172, -172, -172
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,   60,
+       60,   59,   59,   60,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   60, -173, -173, -173,   59, -173, -173, -173,
+     -173,   60, -173, -173, -173,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -173,
+     -173,   60, -173,   59, -173,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -173, -173, -173, -173,   59, -173,   59,   59,   59,
+      179,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59, -173,   60,   60,   60,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+    },
+
+    {
+       13, -174, -174, -174, -174, -174, -174, -174, -174,  174,
+      174, -174, -174,  174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174,  174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174,  175,  176, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174, -174, -174, -174, -174,
+     -174, -174, -174, -174, -174, -174
+
+    },
+
+    {
+       13, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175,  177, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175, -175, -175, -175, -175,
+     -175, -175, -175, -175, -175, -175
+    },
+
+    {
+       13, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176,  175, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+
+     -176, -176, -176, -176, -176, -176, -176, -176, -176, -176,
+     -176, -176, -176, -176, -176, -176
+    },
+
+    {
+       13, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177, -177, -177, -177, -177,
+     -177, -177, -177, -177, -177, -177
+    },
+
+    {
+       13, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+
+     -178, -178, -178, -178, -178,  180, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178, -178, -178, -178, -178,
+     -178, -178, -178, -178, -178, -178
+    },
+
+    {
+       13,   59,   59,   59,   59,   59,   59,   59,   59,  181,
+      181,   59,   59,  181,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,  181, -179, -179, -179,   59, -179, -179, -179,
+     -179,  181, -179, -179, -179,   59,   60,   60,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59, -179,
+
+     -179,   60, -179,   59, -179,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59, -179, -179, -179, -179,   59, -179,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59, -179,   60,  181,  181,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59,   59,   59,   59,   59,
+       59,   59,   59,   59,   59,   59
+
+    },
+
+    {
+       13, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180,  182, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180, -180, -180, -180, -180,
+     -180, -180, -180, -180, -180, -180
+    },
+
+    {
+       13, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+
+     -181, -181, -181, -181, -181, -181, -181, -181, -181, -181,
+     -181, -181, -181, -181, -181, -181
+    },
+
+    {
+       13, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182, -182, -182, -182, -182,
+     -182, -182, -182, -182, -182, -182
+    },
+
+    } ;
+
 static yy_state_type yy_get_previous_state ( yyscan_t yyscanner );
 static yy_state_type yy_try_NUL_trans ( yy_state_type current_state  , yyscan_t yyscanner);
 static int yy_get_next_buffer ( yyscan_t yyscanner );
@@ -573,4686 +6359,61 @@ static void yynoreturn yy_fatal_error ( const char* msg , yyscan_t yyscanner );
 	yyg->yy_hold_char = *yy_cp; \
 	*yy_cp = '\0'; \
 	yyg->yy_c_buf_p = yy_cp;
-#define YY_NUM_RULES 52
-#define YY_END_OF_BUFFER 53
+#define YY_NUM_RULES 53
+#define YY_END_OF_BUFFER 54
+/* This struct is not used in this scanner,
+   but its presence is necessary. */
 struct yy_trans_info
 	{
 	flex_int32_t yy_verify;
 	flex_int32_t yy_nxt;
 	};
-static const struct yy_trans_info yy_transition[21409] =
-    {
- {   0,   0 }, {   0,21153 }, {   0,   2 }, {   0,21151 }, {   1,3096 },
- {   2,3096 }, {   3,3096 }, {   4,3096 }, {   5,3096 }, {   6,3096 },
- {   7,3096 }, {   8,3096 }, {   9,3096 }, {  10,3353 }, {  11,3096 },
- {  12,3096 }, {  13,3353 }, {  14,3096 }, {  15,3096 }, {  16,3096 },
- {  17,3096 }, {  18,3096 }, {  19,3096 }, {  20,3096 }, {  21,3096 },
- {  22,3096 }, {  23,3096 }, {  24,3096 }, {  25,3096 }, {  26,3096 },
- {  27,3096 }, {  28,3096 }, {  29,3096 }, {  30,3096 }, {  31,3096 },
- {  32,3096 }, {  33,3096 }, {  34,3096 }, {  35,3096 }, {  36,3096 },
- {  37,3096 }, {  38,3096 }, {  39,3096 }, {  40,3096 }, {  41,3096 },
- {  42,3096 }, {  43,3096 }, {  44,3096 }, {  45,3096 }, {  46,3096 },
-
- {  47,3096 }, {  48,3096 }, {  49,3096 }, {  50,3096 }, {  51,3096 },
- {  52,3096 }, {  53,3096 }, {  54,3096 }, {  55,3096 }, {  56,3096 },
- {  57,3096 }, {  58,3096 }, {  59,3096 }, {  60,3096 }, {  61,3096 },
- {  62,3096 }, {  63,3096 }, {  64,3096 }, {  65,3096 }, {  66,3096 },
- {  67,3096 }, {  68,3096 }, {  69,3096 }, {  70,3096 }, {  71,3096 },
- {  72,3096 }, {  73,3096 }, {  74,3096 }, {  75,3096 }, {  76,3096 },
- {  77,3096 }, {  78,3096 }, {  79,3096 }, {  80,3096 }, {  81,3096 },
- {  82,3096 }, {  83,3096 }, {  84,3096 }, {  85,3096 }, {  86,3096 },
- {  87,3096 }, {  88,3096 }, {  89,3096 }, {  90,3096 }, {  91,3096 },
- {  92,3355 }, {  93,3096 }, {  94,3096 }, {  95,3096 }, {  96,3096 },
-
- {  97,3096 }, {  98,3096 }, {  99,3096 }, { 100,3096 }, { 101,3096 },
- { 102,3096 }, { 103,3096 }, { 104,3096 }, { 105,3096 }, { 106,3096 },
- { 107,3096 }, { 108,3096 }, { 109,3096 }, { 110,3096 }, { 111,3096 },
- { 112,3096 }, { 113,3096 }, { 114,3096 }, { 115,3096 }, { 116,3096 },
- { 117,3096 }, { 118,3096 }, { 119,3096 }, { 120,3096 }, { 121,3096 },
- { 122,3096 }, { 123,3357 }, { 124,3096 }, { 125,3482 }, { 126,3096 },
- { 127,3096 }, { 128,3096 }, { 129,3096 }, { 130,3096 }, { 131,3096 },
- { 132,3096 }, { 133,3096 }, { 134,3096 }, { 135,3096 }, { 136,3096 },
- { 137,3096 }, { 138,3096 }, { 139,3096 }, { 140,3096 }, { 141,3096 },
- { 142,3096 }, { 143,3096 }, { 144,3096 }, { 145,3096 }, { 146,3096 },
-
- { 147,3096 }, { 148,3096 }, { 149,3096 }, { 150,3096 }, { 151,3096 },
- { 152,3096 }, { 153,3096 }, { 154,3096 }, { 155,3096 }, { 156,3096 },
- { 157,3096 }, { 158,3096 }, { 159,3096 }, { 160,3096 }, { 161,3096 },
- { 162,3096 }, { 163,3096 }, { 164,3096 }, { 165,3096 }, { 166,3096 },
- { 167,3096 }, { 168,3096 }, { 169,3096 }, { 170,3096 }, { 171,3096 },
- { 172,3096 }, { 173,3096 }, { 174,3096 }, { 175,3096 }, { 176,3096 },
- { 177,3096 }, { 178,3096 }, { 179,3096 }, { 180,3096 }, { 181,3096 },
- { 182,3096 }, { 183,3096 }, { 184,3096 }, { 185,3096 }, { 186,3096 },
- { 187,3096 }, { 188,3096 }, { 189,3096 }, { 190,3096 }, { 191,3096 },
- { 192,3096 }, { 193,3096 }, { 194,3096 }, { 195,3096 }, { 196,3096 },
-
- { 197,3096 }, { 198,3096 }, { 199,3096 }, { 200,3096 }, { 201,3096 },
- { 202,3096 }, { 203,3096 }, { 204,3096 }, { 205,3096 }, { 206,3096 },
- { 207,3096 }, { 208,3096 }, { 209,3096 }, { 210,3096 }, { 211,3096 },
- { 212,3096 }, { 213,3096 }, { 214,3096 }, { 215,3096 }, { 216,3096 },
- { 217,3096 }, { 218,3096 }, { 219,3096 }, { 220,3096 }, { 221,3096 },
- { 222,3096 }, { 223,3096 }, { 224,3096 }, { 225,3096 }, { 226,3096 },
- { 227,3096 }, { 228,3096 }, { 229,3096 }, { 230,3096 }, { 231,3096 },
- { 232,3096 }, { 233,3096 }, { 234,3096 }, { 235,3096 }, { 236,3096 },
- { 237,3096 }, { 238,3096 }, { 239,3096 }, { 240,3096 }, { 241,3096 },
- { 242,3096 }, { 243,3096 }, { 244,3096 }, { 245,3096 }, { 246,3096 },
-
- { 247,3096 }, { 248,3096 }, { 249,3096 }, { 250,3096 }, { 251,3096 },
- { 252,3096 }, { 253,3096 }, { 254,3096 }, { 255,3096 }, { 256,3359 },
- {   0,   2 }, {   0,20893 }, {   1,2838 }, {   2,2838 }, {   3,2838 },
- {   4,2838 }, {   5,2838 }, {   6,2838 }, {   7,2838 }, {   8,2838 },
- {   9,2838 }, {  10,3095 }, {  11,2838 }, {  12,2838 }, {  13,3095 },
- {  14,2838 }, {  15,2838 }, {  16,2838 }, {  17,2838 }, {  18,2838 },
- {  19,2838 }, {  20,2838 }, {  21,2838 }, {  22,2838 }, {  23,2838 },
- {  24,2838 }, {  25,2838 }, {  26,2838 }, {  27,2838 }, {  28,2838 },
- {  29,2838 }, {  30,2838 }, {  31,2838 }, {  32,2838 }, {  33,2838 },
- {  34,2838 }, {  35,2838 }, {  36,2838 }, {  37,2838 }, {  38,2838 },
-
- {  39,2838 }, {  40,2838 }, {  41,2838 }, {  42,2838 }, {  43,2838 },
- {  44,2838 }, {  45,2838 }, {  46,2838 }, {  47,2838 }, {  48,2838 },
- {  49,2838 }, {  50,2838 }, {  51,2838 }, {  52,2838 }, {  53,2838 },
- {  54,2838 }, {  55,2838 }, {  56,2838 }, {  57,2838 }, {  58,2838 },
- {  59,2838 }, {  60,2838 }, {  61,2838 }, {  62,2838 }, {  63,2838 },
- {  64,2838 }, {  65,2838 }, {  66,2838 }, {  67,2838 }, {  68,2838 },
- {  69,2838 }, {  70,2838 }, {  71,2838 }, {  72,2838 }, {  73,2838 },
- {  74,2838 }, {  75,2838 }, {  76,2838 }, {  77,2838 }, {  78,2838 },
- {  79,2838 }, {  80,2838 }, {  81,2838 }, {  82,2838 }, {  83,2838 },
- {  84,2838 }, {  85,2838 }, {  86,2838 }, {  87,2838 }, {  88,2838 },
-
- {  89,2838 }, {  90,2838 }, {  91,2838 }, {  92,3097 }, {  93,2838 },
- {  94,2838 }, {  95,2838 }, {  96,2838 }, {  97,2838 }, {  98,2838 },
- {  99,2838 }, { 100,2838 }, { 101,2838 }, { 102,2838 }, { 103,2838 },
- { 104,2838 }, { 105,2838 }, { 106,2838 }, { 107,2838 }, { 108,2838 },
- { 109,2838 }, { 110,2838 }, { 111,2838 }, { 112,2838 }, { 113,2838 },
- { 114,2838 }, { 115,2838 }, { 116,2838 }, { 117,2838 }, { 118,2838 },
- { 119,2838 }, { 120,2838 }, { 121,2838 }, { 122,2838 }, { 123,3099 },
- { 124,2838 }, { 125,3224 }, { 126,2838 }, { 127,2838 }, { 128,2838 },
- { 129,2838 }, { 130,2838 }, { 131,2838 }, { 132,2838 }, { 133,2838 },
- { 134,2838 }, { 135,2838 }, { 136,2838 }, { 137,2838 }, { 138,2838 },
-
- { 139,2838 }, { 140,2838 }, { 141,2838 }, { 142,2838 }, { 143,2838 },
- { 144,2838 }, { 145,2838 }, { 146,2838 }, { 147,2838 }, { 148,2838 },
- { 149,2838 }, { 150,2838 }, { 151,2838 }, { 152,2838 }, { 153,2838 },
- { 154,2838 }, { 155,2838 }, { 156,2838 }, { 157,2838 }, { 158,2838 },
- { 159,2838 }, { 160,2838 }, { 161,2838 }, { 162,2838 }, { 163,2838 },
- { 164,2838 }, { 165,2838 }, { 166,2838 }, { 167,2838 }, { 168,2838 },
- { 169,2838 }, { 170,2838 }, { 171,2838 }, { 172,2838 }, { 173,2838 },
- { 174,2838 }, { 175,2838 }, { 176,2838 }, { 177,2838 }, { 178,2838 },
- { 179,2838 }, { 180,2838 }, { 181,2838 }, { 182,2838 }, { 183,2838 },
- { 184,2838 }, { 185,2838 }, { 186,2838 }, { 187,2838 }, { 188,2838 },
-
- { 189,2838 }, { 190,2838 }, { 191,2838 }, { 192,2838 }, { 193,2838 },
- { 194,2838 }, { 195,2838 }, { 196,2838 }, { 197,2838 }, { 198,2838 },
- { 199,2838 }, { 200,2838 }, { 201,2838 }, { 202,2838 }, { 203,2838 },
- { 204,2838 }, { 205,2838 }, { 206,2838 }, { 207,2838 }, { 208,2838 },
- { 209,2838 }, { 210,2838 }, { 211,2838 }, { 212,2838 }, { 213,2838 },
- { 214,2838 }, { 215,2838 }, { 216,2838 }, { 217,2838 }, { 218,2838 },
- { 219,2838 }, { 220,2838 }, { 221,2838 }, { 222,2838 }, { 223,2838 },
- { 224,2838 }, { 225,2838 }, { 226,2838 }, { 227,2838 }, { 228,2838 },
- { 229,2838 }, { 230,2838 }, { 231,2838 }, { 232,2838 }, { 233,2838 },
- { 234,2838 }, { 235,2838 }, { 236,2838 }, { 237,2838 }, { 238,2838 },
-
- { 239,2838 }, { 240,2838 }, { 241,2838 }, { 242,2838 }, { 243,2838 },
- { 244,2838 }, { 245,2838 }, { 246,2838 }, { 247,2838 }, { 248,2838 },
- { 249,2838 }, { 250,2838 }, { 251,2838 }, { 252,2838 }, { 253,2838 },
- { 254,2838 }, { 255,2838 }, { 256,3101 }, {   0,   0 }, {   0,20635 },
- {   1,3223 }, {   2,3223 }, {   3,3223 }, {   4,3223 }, {   5,3223 },
- {   6,3223 }, {   7,3223 }, {   8,3223 }, {   9,2845 }, {  10,2852 },
- {  11,3223 }, {  12,3223 }, {  13,2845 }, {  14,3223 }, {  15,3223 },
- {  16,3223 }, {  17,3223 }, {  18,3223 }, {  19,3223 }, {  20,3223 },
- {  21,3223 }, {  22,3223 }, {  23,3223 }, {  24,3223 }, {  25,3223 },
- {  26,3223 }, {  27,3223 }, {  28,3223 }, {  29,3223 }, {  30,3223 },
-
- {  31,3223 }, {  32,2845 }, {  33,2857 }, {  34,3481 }, {  35,2857 },
- {  36,3223 }, {  37,2857 }, {  38,2857 }, {  39,3739 }, {  40,2860 },
- {  41,2864 }, {  42,2857 }, {  43,2857 }, {  44,2857 }, {  45,3997 },
- {  46,4255 }, {  47,2867 }, {  48,4337 }, {  49,4337 }, {  50,4337 },
- {  51,4337 }, {  52,4337 }, {  53,4337 }, {  54,4337 }, {  55,4337 },
- {  56,4337 }, {  57,4337 }, {  58,3223 }, {  59,2857 }, {  60,2857 },
- {  61,2869 }, {  62,2857 }, {  63,3223 }, {  64,2871 }, {  65,3223 },
- {  66,3223 }, {  67,3223 }, {  68,3223 }, {  69,3223 }, {  70,3223 },
- {  71,3223 }, {  72,3223 }, {  73,3223 }, {  74,3223 }, {  75,3223 },
- {  76,3223 }, {  77,3223 }, {  78,3223 }, {  79,3223 }, {  80,3223 },
-
- {  81,3223 }, {  82,3223 }, {  83,3223 }, {  84,3223 }, {  85,3223 },
- {  86,3223 }, {  87,3223 }, {  88,3223 }, {  89,3223 }, {  90,3223 },
- {  91,4595 }, {  92,2857 }, {  93,2857 }, {  94,2857 }, {  95,3223 },
- {  96,2857 }, {  97,4853 }, {  98,3223 }, {  99,3223 }, { 100,3223 },
- { 101,3223 }, { 102,5111 }, { 103,3223 }, { 104,3223 }, { 105,3223 },
- { 106,3223 }, { 107,3223 }, { 108,3223 }, { 109,3223 }, { 110,5369 },
- { 111,3223 }, { 112,3223 }, { 113,3223 }, { 114,3223 }, { 115,3223 },
- { 116,5627 }, { 117,5885 }, { 118,3223 }, { 119,3223 }, { 120,3223 },
- { 121,3223 }, { 122,3223 }, { 123,4273 }, { 124,4275 }, { 125,4304 },
- { 126,4306 }, { 127,3223 }, { 128,3223 }, { 129,3223 }, { 130,3223 },
-
- { 131,3223 }, { 132,3223 }, { 133,3223 }, { 134,3223 }, { 135,3223 },
- { 136,3223 }, { 137,3223 }, { 138,3223 }, { 139,3223 }, { 140,3223 },
- { 141,3223 }, { 142,3223 }, { 143,3223 }, { 144,3223 }, { 145,3223 },
- { 146,3223 }, { 147,3223 }, { 148,3223 }, { 149,3223 }, { 150,3223 },
- { 151,3223 }, { 152,3223 }, { 153,3223 }, { 154,3223 }, { 155,3223 },
- { 156,3223 }, { 157,3223 }, { 158,3223 }, { 159,3223 }, { 160,3223 },
- { 161,3223 }, { 162,3223 }, { 163,3223 }, { 164,3223 }, { 165,3223 },
- { 166,3223 }, { 167,3223 }, { 168,3223 }, { 169,3223 }, { 170,3223 },
- { 171,3223 }, { 172,3223 }, { 173,3223 }, { 174,3223 }, { 175,3223 },
- { 176,3223 }, { 177,3223 }, { 178,3223 }, { 179,3223 }, { 180,3223 },
-
- { 181,3223 }, { 182,3223 }, { 183,3223 }, { 184,3223 }, { 185,3223 },
- { 186,3223 }, { 187,3223 }, { 188,3223 }, { 189,3223 }, { 190,3223 },
- { 191,3223 }, { 192,3223 }, { 193,3223 }, { 194,3223 }, { 195,3223 },
- { 196,3223 }, { 197,3223 }, { 198,3223 }, { 199,3223 }, { 200,3223 },
- { 201,3223 }, { 202,3223 }, { 203,3223 }, { 204,3223 }, { 205,3223 },
- { 206,3223 }, { 207,3223 }, { 208,3223 }, { 209,3223 }, { 210,3223 },
- { 211,3223 }, { 212,3223 }, { 213,3223 }, { 214,3223 }, { 215,3223 },
- { 216,3223 }, { 217,3223 }, { 218,3223 }, { 219,3223 }, { 220,3223 },
- { 221,3223 }, { 222,3223 }, { 223,3223 }, { 224,3223 }, { 225,3223 },
- { 226,3223 }, { 227,3223 }, { 228,3223 }, { 229,3223 }, { 230,3223 },
-
- { 231,3223 }, { 232,3223 }, { 233,3223 }, { 234,3223 }, { 235,3223 },
- { 236,3223 }, { 237,3223 }, { 238,3223 }, { 239,3223 }, { 240,3223 },
- { 241,3223 }, { 242,3223 }, { 243,3223 }, { 244,3223 }, { 245,3223 },
- { 246,3223 }, { 247,3223 }, { 248,3223 }, { 249,3223 }, { 250,3223 },
- { 251,3223 }, { 252,3223 }, { 253,3223 }, { 254,3223 }, { 255,3223 },
- { 256,3223 }, {   0,   0 }, {   0,20377 }, {   1,2965 }, {   2,2965 },
- {   3,2965 }, {   4,2965 }, {   5,2965 }, {   6,2965 }, {   7,2965 },
- {   8,2965 }, {   9,2587 }, {  10,2594 }, {  11,2965 }, {  12,2965 },
- {  13,2587 }, {  14,2965 }, {  15,2965 }, {  16,2965 }, {  17,2965 },
- {  18,2965 }, {  19,2965 }, {  20,2965 }, {  21,2965 }, {  22,2965 },
-
- {  23,2965 }, {  24,2965 }, {  25,2965 }, {  26,2965 }, {  27,2965 },
- {  28,2965 }, {  29,2965 }, {  30,2965 }, {  31,2965 }, {  32,2587 },
- {  33,2599 }, {  34,3223 }, {  35,2599 }, {  36,2965 }, {  37,2599 },
- {  38,2599 }, {  39,3481 }, {  40,2602 }, {  41,2606 }, {  42,2599 },
- {  43,2599 }, {  44,2599 }, {  45,3739 }, {  46,3997 }, {  47,2609 },
- {  48,4079 }, {  49,4079 }, {  50,4079 }, {  51,4079 }, {  52,4079 },
- {  53,4079 }, {  54,4079 }, {  55,4079 }, {  56,4079 }, {  57,4079 },
- {  58,2965 }, {  59,2599 }, {  60,2599 }, {  61,2611 }, {  62,2599 },
- {  63,2965 }, {  64,2613 }, {  65,2965 }, {  66,2965 }, {  67,2965 },
- {  68,2965 }, {  69,2965 }, {  70,2965 }, {  71,2965 }, {  72,2965 },
-
- {  73,2965 }, {  74,2965 }, {  75,2965 }, {  76,2965 }, {  77,2965 },
- {  78,2965 }, {  79,2965 }, {  80,2965 }, {  81,2965 }, {  82,2965 },
- {  83,2965 }, {  84,2965 }, {  85,2965 }, {  86,2965 }, {  87,2965 },
- {  88,2965 }, {  89,2965 }, {  90,2965 }, {  91,4337 }, {  92,2599 },
- {  93,2599 }, {  94,2599 }, {  95,2965 }, {  96,2599 }, {  97,4595 },
- {  98,2965 }, {  99,2965 }, { 100,2965 }, { 101,2965 }, { 102,4853 },
- { 103,2965 }, { 104,2965 }, { 105,2965 }, { 106,2965 }, { 107,2965 },
- { 108,2965 }, { 109,2965 }, { 110,5111 }, { 111,2965 }, { 112,2965 },
- { 113,2965 }, { 114,2965 }, { 115,2965 }, { 116,5369 }, { 117,5627 },
- { 118,2965 }, { 119,2965 }, { 120,2965 }, { 121,2965 }, { 122,2965 },
-
- { 123,4015 }, { 124,4017 }, { 125,4046 }, { 126,4048 }, { 127,2965 },
- { 128,2965 }, { 129,2965 }, { 130,2965 }, { 131,2965 }, { 132,2965 },
- { 133,2965 }, { 134,2965 }, { 135,2965 }, { 136,2965 }, { 137,2965 },
- { 138,2965 }, { 139,2965 }, { 140,2965 }, { 141,2965 }, { 142,2965 },
- { 143,2965 }, { 144,2965 }, { 145,2965 }, { 146,2965 }, { 147,2965 },
- { 148,2965 }, { 149,2965 }, { 150,2965 }, { 151,2965 }, { 152,2965 },
- { 153,2965 }, { 154,2965 }, { 155,2965 }, { 156,2965 }, { 157,2965 },
- { 158,2965 }, { 159,2965 }, { 160,2965 }, { 161,2965 }, { 162,2965 },
- { 163,2965 }, { 164,2965 }, { 165,2965 }, { 166,2965 }, { 167,2965 },
- { 168,2965 }, { 169,2965 }, { 170,2965 }, { 171,2965 }, { 172,2965 },
-
- { 173,2965 }, { 174,2965 }, { 175,2965 }, { 176,2965 }, { 177,2965 },
- { 178,2965 }, { 179,2965 }, { 180,2965 }, { 181,2965 }, { 182,2965 },
- { 183,2965 }, { 184,2965 }, { 185,2965 }, { 186,2965 }, { 187,2965 },
- { 188,2965 }, { 189,2965 }, { 190,2965 }, { 191,2965 }, { 192,2965 },
- { 193,2965 }, { 194,2965 }, { 195,2965 }, { 196,2965 }, { 197,2965 },
- { 198,2965 }, { 199,2965 }, { 200,2965 }, { 201,2965 }, { 202,2965 },
- { 203,2965 }, { 204,2965 }, { 205,2965 }, { 206,2965 }, { 207,2965 },
- { 208,2965 }, { 209,2965 }, { 210,2965 }, { 211,2965 }, { 212,2965 },
- { 213,2965 }, { 214,2965 }, { 215,2965 }, { 216,2965 }, { 217,2965 },
- { 218,2965 }, { 219,2965 }, { 220,2965 }, { 221,2965 }, { 222,2965 },
-
- { 223,2965 }, { 224,2965 }, { 225,2965 }, { 226,2965 }, { 227,2965 },
- { 228,2965 }, { 229,2965 }, { 230,2965 }, { 231,2965 }, { 232,2965 },
- { 233,2965 }, { 234,2965 }, { 235,2965 }, { 236,2965 }, { 237,2965 },
- { 238,2965 }, { 239,2965 }, { 240,2965 }, { 241,2965 }, { 242,2965 },
- { 243,2965 }, { 244,2965 }, { 245,2965 }, { 246,2965 }, { 247,2965 },
- { 248,2965 }, { 249,2965 }, { 250,2965 }, { 251,2965 }, { 252,2965 },
- { 253,2965 }, { 254,2965 }, { 255,2965 }, { 256,2965 }, {   0,   0 },
- {   0,20119 }, {   1,3792 }, {   2,3792 }, {   3,3792 }, {   4,3792 },
- {   5,3792 }, {   6,3792 }, {   7,3792 }, {   8,3792 }, {   9,3792 },
- {  10,2327 }, {  11,3792 }, {  12,3792 }, {  13,3792 }, {  14,3792 },
-
- {  15,3792 }, {  16,3792 }, {  17,3792 }, {  18,3792 }, {  19,3792 },
- {  20,3792 }, {  21,3792 }, {  22,3792 }, {  23,3792 }, {  24,3792 },
- {  25,3792 }, {  26,3792 }, {  27,3792 }, {  28,3792 }, {  29,3792 },
- {  30,3792 }, {  31,3792 }, {  32,3792 }, {  33,3792 }, {  34,3792 },
- {  35,3792 }, {  36,3792 }, {  37,3792 }, {  38,3792 }, {  39,3792 },
- {  40,3792 }, {  41,3792 }, {  42,3792 }, {  43,3792 }, {  44,3792 },
- {  45,3792 }, {  46,3792 }, {  47,3792 }, {  48,3792 }, {  49,3792 },
- {  50,3792 }, {  51,3792 }, {  52,3792 }, {  53,3792 }, {  54,3792 },
- {  55,3792 }, {  56,3792 }, {  57,3792 }, {  58,3792 }, {  59,3792 },
- {  60,3792 }, {  61,3792 }, {  62,3792 }, {  63,3792 }, {  64,3792 },
-
- {  65,3792 }, {  66,3792 }, {  67,3792 }, {  68,3792 }, {  69,3792 },
- {  70,3792 }, {  71,3792 }, {  72,3792 }, {  73,3792 }, {  74,3792 },
- {  75,3792 }, {  76,3792 }, {  77,3792 }, {  78,3792 }, {  79,3792 },
- {  80,3792 }, {  81,3792 }, {  82,3792 }, {  83,3792 }, {  84,3792 },
- {  85,3792 }, {  86,3792 }, {  87,3792 }, {  88,3792 }, {  89,3792 },
- {  90,3792 }, {  91,3792 }, {  92,3792 }, {  93,3792 }, {  94,3792 },
- {  95,3792 }, {  96,3792 }, {  97,3792 }, {  98,3792 }, {  99,3792 },
- { 100,3792 }, { 101,3792 }, { 102,3792 }, { 103,3792 }, { 104,3792 },
- { 105,3792 }, { 106,3792 }, { 107,3792 }, { 108,3792 }, { 109,3792 },
- { 110,3792 }, { 111,3792 }, { 112,3792 }, { 113,3792 }, { 114,3792 },
-
- { 115,3792 }, { 116,3792 }, { 117,3792 }, { 118,3792 }, { 119,3792 },
- { 120,3792 }, { 121,3792 }, { 122,3792 }, { 123,3792 }, { 124,3792 },
- { 125,3792 }, { 126,3792 }, { 127,3792 }, { 128,3792 }, { 129,3792 },
- { 130,3792 }, { 131,3792 }, { 132,3792 }, { 133,3792 }, { 134,3792 },
- { 135,3792 }, { 136,3792 }, { 137,3792 }, { 138,3792 }, { 139,3792 },
- { 140,3792 }, { 141,3792 }, { 142,3792 }, { 143,3792 }, { 144,3792 },
- { 145,3792 }, { 146,3792 }, { 147,3792 }, { 148,3792 }, { 149,3792 },
- { 150,3792 }, { 151,3792 }, { 152,3792 }, { 153,3792 }, { 154,3792 },
- { 155,3792 }, { 156,3792 }, { 157,3792 }, { 158,3792 }, { 159,3792 },
- { 160,3792 }, { 161,3792 }, { 162,3792 }, { 163,3792 }, { 164,3792 },
-
- { 165,3792 }, { 166,3792 }, { 167,3792 }, { 168,3792 }, { 169,3792 },
- { 170,3792 }, { 171,3792 }, { 172,3792 }, { 173,3792 }, { 174,3792 },
- { 175,3792 }, { 176,3792 }, { 177,3792 }, { 178,3792 }, { 179,3792 },
- { 180,3792 }, { 181,3792 }, { 182,3792 }, { 183,3792 }, { 184,3792 },
- { 185,3792 }, { 186,3792 }, { 187,3792 }, { 188,3792 }, { 189,3792 },
- { 190,3792 }, { 191,3792 }, { 192,3792 }, { 193,3792 }, { 194,3792 },
- { 195,3792 }, { 196,3792 }, { 197,3792 }, { 198,3792 }, { 199,3792 },
- { 200,3792 }, { 201,3792 }, { 202,3792 }, { 203,3792 }, { 204,3792 },
- { 205,3792 }, { 206,3792 }, { 207,3792 }, { 208,3792 }, { 209,3792 },
- { 210,3792 }, { 211,3792 }, { 212,3792 }, { 213,3792 }, { 214,3792 },
-
- { 215,3792 }, { 216,3792 }, { 217,3792 }, { 218,3792 }, { 219,3792 },
- { 220,3792 }, { 221,3792 }, { 222,3792 }, { 223,3792 }, { 224,3792 },
- { 225,3792 }, { 226,3792 }, { 227,3792 }, { 228,3792 }, { 229,3792 },
- { 230,3792 }, { 231,3792 }, { 232,3792 }, { 233,3792 }, { 234,3792 },
- { 235,3792 }, { 236,3792 }, { 237,3792 }, { 238,3792 }, { 239,3792 },
- { 240,3792 }, { 241,3792 }, { 242,3792 }, { 243,3792 }, { 244,3792 },
- { 245,3792 }, { 246,3792 }, { 247,3792 }, { 248,3792 }, { 249,3792 },
- { 250,3792 }, { 251,3792 }, { 252,3792 }, { 253,3792 }, { 254,3792 },
- { 255,3792 }, { 256,3792 }, {   0,   0 }, {   0,19861 }, {   1,3534 },
- {   2,3534 }, {   3,3534 }, {   4,3534 }, {   5,3534 }, {   6,3534 },
-
- {   7,3534 }, {   8,3534 }, {   9,3534 }, {  10,2069 }, {  11,3534 },
- {  12,3534 }, {  13,3534 }, {  14,3534 }, {  15,3534 }, {  16,3534 },
- {  17,3534 }, {  18,3534 }, {  19,3534 }, {  20,3534 }, {  21,3534 },
- {  22,3534 }, {  23,3534 }, {  24,3534 }, {  25,3534 }, {  26,3534 },
- {  27,3534 }, {  28,3534 }, {  29,3534 }, {  30,3534 }, {  31,3534 },
- {  32,3534 }, {  33,3534 }, {  34,3534 }, {  35,3534 }, {  36,3534 },
- {  37,3534 }, {  38,3534 }, {  39,3534 }, {  40,3534 }, {  41,3534 },
- {  42,3534 }, {  43,3534 }, {  44,3534 }, {  45,3534 }, {  46,3534 },
- {  47,3534 }, {  48,3534 }, {  49,3534 }, {  50,3534 }, {  51,3534 },
- {  52,3534 }, {  53,3534 }, {  54,3534 }, {  55,3534 }, {  56,3534 },
-
- {  57,3534 }, {  58,3534 }, {  59,3534 }, {  60,3534 }, {  61,3534 },
- {  62,3534 }, {  63,3534 }, {  64,3534 }, {  65,3534 }, {  66,3534 },
- {  67,3534 }, {  68,3534 }, {  69,3534 }, {  70,3534 }, {  71,3534 },
- {  72,3534 }, {  73,3534 }, {  74,3534 }, {  75,3534 }, {  76,3534 },
- {  77,3534 }, {  78,3534 }, {  79,3534 }, {  80,3534 }, {  81,3534 },
- {  82,3534 }, {  83,3534 }, {  84,3534 }, {  85,3534 }, {  86,3534 },
- {  87,3534 }, {  88,3534 }, {  89,3534 }, {  90,3534 }, {  91,3534 },
- {  92,3534 }, {  93,3534 }, {  94,3534 }, {  95,3534 }, {  96,3534 },
- {  97,3534 }, {  98,3534 }, {  99,3534 }, { 100,3534 }, { 101,3534 },
- { 102,3534 }, { 103,3534 }, { 104,3534 }, { 105,3534 }, { 106,3534 },
-
- { 107,3534 }, { 108,3534 }, { 109,3534 }, { 110,3534 }, { 111,3534 },
- { 112,3534 }, { 113,3534 }, { 114,3534 }, { 115,3534 }, { 116,3534 },
- { 117,3534 }, { 118,3534 }, { 119,3534 }, { 120,3534 }, { 121,3534 },
- { 122,3534 }, { 123,3534 }, { 124,3534 }, { 125,3534 }, { 126,3534 },
- { 127,3534 }, { 128,3534 }, { 129,3534 }, { 130,3534 }, { 131,3534 },
- { 132,3534 }, { 133,3534 }, { 134,3534 }, { 135,3534 }, { 136,3534 },
- { 137,3534 }, { 138,3534 }, { 139,3534 }, { 140,3534 }, { 141,3534 },
- { 142,3534 }, { 143,3534 }, { 144,3534 }, { 145,3534 }, { 146,3534 },
- { 147,3534 }, { 148,3534 }, { 149,3534 }, { 150,3534 }, { 151,3534 },
- { 152,3534 }, { 153,3534 }, { 154,3534 }, { 155,3534 }, { 156,3534 },
-
- { 157,3534 }, { 158,3534 }, { 159,3534 }, { 160,3534 }, { 161,3534 },
- { 162,3534 }, { 163,3534 }, { 164,3534 }, { 165,3534 }, { 166,3534 },
- { 167,3534 }, { 168,3534 }, { 169,3534 }, { 170,3534 }, { 171,3534 },
- { 172,3534 }, { 173,3534 }, { 174,3534 }, { 175,3534 }, { 176,3534 },
- { 177,3534 }, { 178,3534 }, { 179,3534 }, { 180,3534 }, { 181,3534 },
- { 182,3534 }, { 183,3534 }, { 184,3534 }, { 185,3534 }, { 186,3534 },
- { 187,3534 }, { 188,3534 }, { 189,3534 }, { 190,3534 }, { 191,3534 },
- { 192,3534 }, { 193,3534 }, { 194,3534 }, { 195,3534 }, { 196,3534 },
- { 197,3534 }, { 198,3534 }, { 199,3534 }, { 200,3534 }, { 201,3534 },
- { 202,3534 }, { 203,3534 }, { 204,3534 }, { 205,3534 }, { 206,3534 },
-
- { 207,3534 }, { 208,3534 }, { 209,3534 }, { 210,3534 }, { 211,3534 },
- { 212,3534 }, { 213,3534 }, { 214,3534 }, { 215,3534 }, { 216,3534 },
- { 217,3534 }, { 218,3534 }, { 219,3534 }, { 220,3534 }, { 221,3534 },
- { 222,3534 }, { 223,3534 }, { 224,3534 }, { 225,3534 }, { 226,3534 },
- { 227,3534 }, { 228,3534 }, { 229,3534 }, { 230,3534 }, { 231,3534 },
- { 232,3534 }, { 233,3534 }, { 234,3534 }, { 235,3534 }, { 236,3534 },
- { 237,3534 }, { 238,3534 }, { 239,3534 }, { 240,3534 }, { 241,3534 },
- { 242,3534 }, { 243,3534 }, { 244,3534 }, { 245,3534 }, { 246,3534 },
- { 247,3534 }, { 248,3534 }, { 249,3534 }, { 250,3534 }, { 251,3534 },
- { 252,3534 }, { 253,3534 }, { 254,3534 }, { 255,3534 }, { 256,3534 },
-
- {   0,   0 }, {   0,19603 }, {   1,3278 }, {   2,3278 }, {   3,3278 },
- {   4,3278 }, {   5,3278 }, {   6,3278 }, {   7,3278 }, {   8,3278 },
- {   9,3278 }, {  10,3278 }, {  11,3278 }, {  12,3278 }, {  13,3278 },
- {  14,3278 }, {  15,3278 }, {  16,3278 }, {  17,3278 }, {  18,3278 },
- {  19,3278 }, {  20,3278 }, {  21,3278 }, {  22,3278 }, {  23,3278 },
- {  24,3278 }, {  25,3278 }, {  26,3278 }, {  27,3278 }, {  28,3278 },
- {  29,3278 }, {  30,3278 }, {  31,3278 }, {  32,3278 }, {  33,3278 },
- {  34,3278 }, {  35,3278 }, {  36,3278 }, {  37,3278 }, {  38,3278 },
- {  39,3278 }, {  40,3278 }, {  41,3278 }, {  42,3278 }, {  43,3278 },
- {  44,3278 }, {  45,3278 }, {  46,3278 }, {  47,3278 }, {  48,3278 },
-
- {  49,3278 }, {  50,3278 }, {  51,3278 }, {  52,3278 }, {  53,3278 },
- {  54,3278 }, {  55,3278 }, {  56,3278 }, {  57,3278 }, {  58,3278 },
- {  59,3278 }, {  60,3278 }, {  61,3278 }, {  62,3278 }, {  63,3278 },
- {  64,3278 }, {  65,3278 }, {  66,3278 }, {  67,3278 }, {  68,3278 },
- {  69,3278 }, {  70,3278 }, {  71,3278 }, {  72,3278 }, {  73,3278 },
- {  74,3278 }, {  75,3278 }, {  76,3278 }, {  77,3278 }, {  78,3278 },
- {  79,3278 }, {  80,3278 }, {  81,3278 }, {  82,3278 }, {  83,3278 },
- {  84,3278 }, {  85,3278 }, {  86,3278 }, {  87,3278 }, {  88,3278 },
- {  89,3278 }, {  90,3278 }, {  91,3278 }, {  92,3278 }, {  93,3278 },
- {  94,3278 }, {  95,3278 }, {  96,3278 }, {  97,3278 }, {  98,3278 },
-
- {  99,3278 }, { 100,3278 }, { 101,3278 }, { 102,3278 }, { 103,3278 },
- { 104,3278 }, { 105,3278 }, { 106,3278 }, { 107,3278 }, { 108,3278 },
- { 109,3278 }, { 110,3278 }, { 111,3278 }, { 112,3278 }, { 113,3278 },
- { 114,3278 }, { 115,3278 }, { 116,3278 }, { 117,3278 }, { 118,3278 },
- { 119,3278 }, { 120,3278 }, { 121,3278 }, { 122,3278 }, { 123,5111 },
- { 124,3278 }, { 125,3278 }, { 126,3278 }, { 127,3278 }, { 128,3278 },
- { 129,3278 }, { 130,3278 }, { 131,3278 }, { 132,3278 }, { 133,3278 },
- { 134,3278 }, { 135,3278 }, { 136,3278 }, { 137,3278 }, { 138,3278 },
- { 139,3278 }, { 140,3278 }, { 141,3278 }, { 142,3278 }, { 143,3278 },
- { 144,3278 }, { 145,3278 }, { 146,3278 }, { 147,3278 }, { 148,3278 },
-
- { 149,3278 }, { 150,3278 }, { 151,3278 }, { 152,3278 }, { 153,3278 },
- { 154,3278 }, { 155,3278 }, { 156,3278 }, { 157,3278 }, { 158,3278 },
- { 159,3278 }, { 160,3278 }, { 161,3278 }, { 162,3278 }, { 163,3278 },
- { 164,3278 }, { 165,3278 }, { 166,3278 }, { 167,3278 }, { 168,3278 },
- { 169,3278 }, { 170,3278 }, { 171,3278 }, { 172,3278 }, { 173,3278 },
- { 174,3278 }, { 175,3278 }, { 176,3278 }, { 177,3278 }, { 178,3278 },
- { 179,3278 }, { 180,3278 }, { 181,3278 }, { 182,3278 }, { 183,3278 },
- { 184,3278 }, { 185,3278 }, { 186,3278 }, { 187,3278 }, { 188,3278 },
- { 189,3278 }, { 190,3278 }, { 191,3278 }, { 192,3278 }, { 193,3278 },
- { 194,3278 }, { 195,3278 }, { 196,3278 }, { 197,3278 }, { 198,3278 },
-
- { 199,3278 }, { 200,3278 }, { 201,3278 }, { 202,3278 }, { 203,3278 },
- { 204,3278 }, { 205,3278 }, { 206,3278 }, { 207,3278 }, { 208,3278 },
- { 209,3278 }, { 210,3278 }, { 211,3278 }, { 212,3278 }, { 213,3278 },
- { 214,3278 }, { 215,3278 }, { 216,3278 }, { 217,3278 }, { 218,3278 },
- { 219,3278 }, { 220,3278 }, { 221,3278 }, { 222,3278 }, { 223,3278 },
- { 224,3278 }, { 225,3278 }, { 226,3278 }, { 227,3278 }, { 228,3278 },
- { 229,3278 }, { 230,3278 }, { 231,3278 }, { 232,3278 }, { 233,3278 },
- { 234,3278 }, { 235,3278 }, { 236,3278 }, { 237,3278 }, { 238,3278 },
- { 239,3278 }, { 240,3278 }, { 241,3278 }, { 242,3278 }, { 243,3278 },
- { 244,3278 }, { 245,3278 }, { 246,3278 }, { 247,3278 }, { 248,3278 },
-
- { 249,3278 }, { 250,3278 }, { 251,3278 }, { 252,3278 }, { 253,3278 },
- { 254,3278 }, { 255,3278 }, { 256,3278 }, {   0,   0 }, {   0,19345 },
- {   1,3020 }, {   2,3020 }, {   3,3020 }, {   4,3020 }, {   5,3020 },
- {   6,3020 }, {   7,3020 }, {   8,3020 }, {   9,3020 }, {  10,3020 },
- {  11,3020 }, {  12,3020 }, {  13,3020 }, {  14,3020 }, {  15,3020 },
- {  16,3020 }, {  17,3020 }, {  18,3020 }, {  19,3020 }, {  20,3020 },
- {  21,3020 }, {  22,3020 }, {  23,3020 }, {  24,3020 }, {  25,3020 },
- {  26,3020 }, {  27,3020 }, {  28,3020 }, {  29,3020 }, {  30,3020 },
- {  31,3020 }, {  32,3020 }, {  33,3020 }, {  34,3020 }, {  35,3020 },
- {  36,3020 }, {  37,3020 }, {  38,3020 }, {  39,3020 }, {  40,3020 },
-
- {  41,3020 }, {  42,3020 }, {  43,3020 }, {  44,3020 }, {  45,3020 },
- {  46,3020 }, {  47,3020 }, {  48,3020 }, {  49,3020 }, {  50,3020 },
- {  51,3020 }, {  52,3020 }, {  53,3020 }, {  54,3020 }, {  55,3020 },
- {  56,3020 }, {  57,3020 }, {  58,3020 }, {  59,3020 }, {  60,3020 },
- {  61,3020 }, {  62,3020 }, {  63,3020 }, {  64,3020 }, {  65,3020 },
- {  66,3020 }, {  67,3020 }, {  68,3020 }, {  69,3020 }, {  70,3020 },
- {  71,3020 }, {  72,3020 }, {  73,3020 }, {  74,3020 }, {  75,3020 },
- {  76,3020 }, {  77,3020 }, {  78,3020 }, {  79,3020 }, {  80,3020 },
- {  81,3020 }, {  82,3020 }, {  83,3020 }, {  84,3020 }, {  85,3020 },
- {  86,3020 }, {  87,3020 }, {  88,3020 }, {  89,3020 }, {  90,3020 },
-
- {  91,3020 }, {  92,3020 }, {  93,3020 }, {  94,3020 }, {  95,3020 },
- {  96,3020 }, {  97,3020 }, {  98,3020 }, {  99,3020 }, { 100,3020 },
- { 101,3020 }, { 102,3020 }, { 103,3020 }, { 104,3020 }, { 105,3020 },
- { 106,3020 }, { 107,3020 }, { 108,3020 }, { 109,3020 }, { 110,3020 },
- { 111,3020 }, { 112,3020 }, { 113,3020 }, { 114,3020 }, { 115,3020 },
- { 116,3020 }, { 117,3020 }, { 118,3020 }, { 119,3020 }, { 120,3020 },
- { 121,3020 }, { 122,3020 }, { 123,4853 }, { 124,3020 }, { 125,3020 },
- { 126,3020 }, { 127,3020 }, { 128,3020 }, { 129,3020 }, { 130,3020 },
- { 131,3020 }, { 132,3020 }, { 133,3020 }, { 134,3020 }, { 135,3020 },
- { 136,3020 }, { 137,3020 }, { 138,3020 }, { 139,3020 }, { 140,3020 },
-
- { 141,3020 }, { 142,3020 }, { 143,3020 }, { 144,3020 }, { 145,3020 },
- { 146,3020 }, { 147,3020 }, { 148,3020 }, { 149,3020 }, { 150,3020 },
- { 151,3020 }, { 152,3020 }, { 153,3020 }, { 154,3020 }, { 155,3020 },
- { 156,3020 }, { 157,3020 }, { 158,3020 }, { 159,3020 }, { 160,3020 },
- { 161,3020 }, { 162,3020 }, { 163,3020 }, { 164,3020 }, { 165,3020 },
- { 166,3020 }, { 167,3020 }, { 168,3020 }, { 169,3020 }, { 170,3020 },
- { 171,3020 }, { 172,3020 }, { 173,3020 }, { 174,3020 }, { 175,3020 },
- { 176,3020 }, { 177,3020 }, { 178,3020 }, { 179,3020 }, { 180,3020 },
- { 181,3020 }, { 182,3020 }, { 183,3020 }, { 184,3020 }, { 185,3020 },
- { 186,3020 }, { 187,3020 }, { 188,3020 }, { 189,3020 }, { 190,3020 },
-
- { 191,3020 }, { 192,3020 }, { 193,3020 }, { 194,3020 }, { 195,3020 },
- { 196,3020 }, { 197,3020 }, { 198,3020 }, { 199,3020 }, { 200,3020 },
- { 201,3020 }, { 202,3020 }, { 203,3020 }, { 204,3020 }, { 205,3020 },
- { 206,3020 }, { 207,3020 }, { 208,3020 }, { 209,3020 }, { 210,3020 },
- { 211,3020 }, { 212,3020 }, { 213,3020 }, { 214,3020 }, { 215,3020 },
- { 216,3020 }, { 217,3020 }, { 218,3020 }, { 219,3020 }, { 220,3020 },
- { 221,3020 }, { 222,3020 }, { 223,3020 }, { 224,3020 }, { 225,3020 },
- { 226,3020 }, { 227,3020 }, { 228,3020 }, { 229,3020 }, { 230,3020 },
- { 231,3020 }, { 232,3020 }, { 233,3020 }, { 234,3020 }, { 235,3020 },
- { 236,3020 }, { 237,3020 }, { 238,3020 }, { 239,3020 }, { 240,3020 },
-
- { 241,3020 }, { 242,3020 }, { 243,3020 }, { 244,3020 }, { 245,3020 },
- { 246,3020 }, { 247,3020 }, { 248,3020 }, { 249,3020 }, { 250,3020 },
- { 251,3020 }, { 252,3020 }, { 253,3020 }, { 254,3020 }, { 255,3020 },
- { 256,3020 }, {   0,   0 }, {   0,19087 }, {   1,4720 }, {   2,4720 },
- {   3,4720 }, {   4,4720 }, {   5,4720 }, {   6,4720 }, {   7,4720 },
- {   8,4720 }, {   9,4720 }, {  10,4720 }, {  11,4720 }, {  12,4720 },
- {  13,4720 }, {  14,4720 }, {  15,4720 }, {  16,4720 }, {  17,4720 },
- {  18,4720 }, {  19,4720 }, {  20,4720 }, {  21,4720 }, {  22,4720 },
- {  23,4720 }, {  24,4720 }, {  25,4720 }, {  26,4720 }, {  27,4720 },
- {  28,4720 }, {  29,4720 }, {  30,4720 }, {  31,4720 }, {  32,4720 },
-
- {  33,4720 }, {  34,4720 }, {  35,4720 }, {  36,4720 }, {  37,4720 },
- {  38,4720 }, {  39,4720 }, {  40,4720 }, {  41,4720 }, {  42,4720 },
- {  43,4720 }, {  44,4720 }, {  45,4720 }, {  46,4720 }, {  47,4720 },
- {  48,4720 }, {  49,4720 }, {  50,4720 }, {  51,4720 }, {  52,4720 },
- {  53,4720 }, {  54,4720 }, {  55,4720 }, {  56,4720 }, {  57,4720 },
- {  58,4720 }, {  59,4720 }, {  60,4720 }, {  61,4720 }, {  62,4720 },
- {  63,4720 }, {  64,4720 }, {  65,4720 }, {  66,4720 }, {  67,4720 },
- {  68,4720 }, {  69,4720 }, {  70,4720 }, {  71,4720 }, {  72,4720 },
- {  73,4720 }, {  74,4720 }, {  75,4720 }, {  76,4720 }, {  77,4720 },
- {  78,4720 }, {  79,4720 }, {  80,4720 }, {  81,4720 }, {  82,4720 },
-
- {  83,4720 }, {  84,4720 }, {  85,4720 }, {  86,4720 }, {  87,4720 },
- {  88,4720 }, {  89,4720 }, {  90,4720 }, {  91,4720 }, {  92,4720 },
- {  93,4720 }, {  94,4720 }, {  95,4720 }, {  96,4720 }, {  97,4720 },
- {  98,4720 }, {  99,4720 }, { 100,4720 }, { 101,4720 }, { 102,4720 },
- { 103,4720 }, { 104,4720 }, { 105,4720 }, { 106,4720 }, { 107,4720 },
- { 108,4720 }, { 109,4720 }, { 110,4720 }, { 111,4720 }, { 112,4720 },
- { 113,4720 }, { 114,4720 }, { 115,4720 }, { 116,4720 }, { 117,4720 },
- { 118,4720 }, { 119,4720 }, { 120,4720 }, { 121,4720 }, { 122,4720 },
- { 123,4720 }, { 124,4720 }, { 125,4978 }, { 126,4720 }, { 127,4720 },
- { 128,4720 }, { 129,4720 }, { 130,4720 }, { 131,4720 }, { 132,4720 },
-
- { 133,4720 }, { 134,4720 }, { 135,4720 }, { 136,4720 }, { 137,4720 },
- { 138,4720 }, { 139,4720 }, { 140,4720 }, { 141,4720 }, { 142,4720 },
- { 143,4720 }, { 144,4720 }, { 145,4720 }, { 146,4720 }, { 147,4720 },
- { 148,4720 }, { 149,4720 }, { 150,4720 }, { 151,4720 }, { 152,4720 },
- { 153,4720 }, { 154,4720 }, { 155,4720 }, { 156,4720 }, { 157,4720 },
- { 158,4720 }, { 159,4720 }, { 160,4720 }, { 161,4720 }, { 162,4720 },
- { 163,4720 }, { 164,4720 }, { 165,4720 }, { 166,4720 }, { 167,4720 },
- { 168,4720 }, { 169,4720 }, { 170,4720 }, { 171,4720 }, { 172,4720 },
- { 173,4720 }, { 174,4720 }, { 175,4720 }, { 176,4720 }, { 177,4720 },
- { 178,4720 }, { 179,4720 }, { 180,4720 }, { 181,4720 }, { 182,4720 },
-
- { 183,4720 }, { 184,4720 }, { 185,4720 }, { 186,4720 }, { 187,4720 },
- { 188,4720 }, { 189,4720 }, { 190,4720 }, { 191,4720 }, { 192,4720 },
- { 193,4720 }, { 194,4720 }, { 195,4720 }, { 196,4720 }, { 197,4720 },
- { 198,4720 }, { 199,4720 }, { 200,4720 }, { 201,4720 }, { 202,4720 },
- { 203,4720 }, { 204,4720 }, { 205,4720 }, { 206,4720 }, { 207,4720 },
- { 208,4720 }, { 209,4720 }, { 210,4720 }, { 211,4720 }, { 212,4720 },
- { 213,4720 }, { 214,4720 }, { 215,4720 }, { 216,4720 }, { 217,4720 },
- { 218,4720 }, { 219,4720 }, { 220,4720 }, { 221,4720 }, { 222,4720 },
- { 223,4720 }, { 224,4720 }, { 225,4720 }, { 226,4720 }, { 227,4720 },
- { 228,4720 }, { 229,4720 }, { 230,4720 }, { 231,4720 }, { 232,4720 },
-
- { 233,4720 }, { 234,4720 }, { 235,4720 }, { 236,4720 }, { 237,4720 },
- { 238,4720 }, { 239,4720 }, { 240,4720 }, { 241,4720 }, { 242,4720 },
- { 243,4720 }, { 244,4720 }, { 245,4720 }, { 246,4720 }, { 247,4720 },
- { 248,4720 }, { 249,4720 }, { 250,4720 }, { 251,4720 }, { 252,4720 },
- { 253,4720 }, { 254,4720 }, { 255,4720 }, { 256,4720 }, {   0,   0 },
- {   0,18829 }, {   1,4462 }, {   2,4462 }, {   3,4462 }, {   4,4462 },
- {   5,4462 }, {   6,4462 }, {   7,4462 }, {   8,4462 }, {   9,4462 },
- {  10,4462 }, {  11,4462 }, {  12,4462 }, {  13,4462 }, {  14,4462 },
- {  15,4462 }, {  16,4462 }, {  17,4462 }, {  18,4462 }, {  19,4462 },
- {  20,4462 }, {  21,4462 }, {  22,4462 }, {  23,4462 }, {  24,4462 },
-
- {  25,4462 }, {  26,4462 }, {  27,4462 }, {  28,4462 }, {  29,4462 },
- {  30,4462 }, {  31,4462 }, {  32,4462 }, {  33,4462 }, {  34,4462 },
- {  35,4462 }, {  36,4462 }, {  37,4462 }, {  38,4462 }, {  39,4462 },
- {  40,4462 }, {  41,4462 }, {  42,4462 }, {  43,4462 }, {  44,4462 },
- {  45,4462 }, {  46,4462 }, {  47,4462 }, {  48,4462 }, {  49,4462 },
- {  50,4462 }, {  51,4462 }, {  52,4462 }, {  53,4462 }, {  54,4462 },
- {  55,4462 }, {  56,4462 }, {  57,4462 }, {  58,4462 }, {  59,4462 },
- {  60,4462 }, {  61,4462 }, {  62,4462 }, {  63,4462 }, {  64,4462 },
- {  65,4462 }, {  66,4462 }, {  67,4462 }, {  68,4462 }, {  69,4462 },
- {  70,4462 }, {  71,4462 }, {  72,4462 }, {  73,4462 }, {  74,4462 },
-
- {  75,4462 }, {  76,4462 }, {  77,4462 }, {  78,4462 }, {  79,4462 },
- {  80,4462 }, {  81,4462 }, {  82,4462 }, {  83,4462 }, {  84,4462 },
- {  85,4462 }, {  86,4462 }, {  87,4462 }, {  88,4462 }, {  89,4462 },
- {  90,4462 }, {  91,4462 }, {  92,4462 }, {  93,4462 }, {  94,4462 },
- {  95,4462 }, {  96,4462 }, {  97,4462 }, {  98,4462 }, {  99,4462 },
- { 100,4462 }, { 101,4462 }, { 102,4462 }, { 103,4462 }, { 104,4462 },
- { 105,4462 }, { 106,4462 }, { 107,4462 }, { 108,4462 }, { 109,4462 },
- { 110,4462 }, { 111,4462 }, { 112,4462 }, { 113,4462 }, { 114,4462 },
- { 115,4462 }, { 116,4462 }, { 117,4462 }, { 118,4462 }, { 119,4462 },
- { 120,4462 }, { 121,4462 }, { 122,4462 }, { 123,4462 }, { 124,4462 },
-
- { 125,4720 }, { 126,4462 }, { 127,4462 }, { 128,4462 }, { 129,4462 },
- { 130,4462 }, { 131,4462 }, { 132,4462 }, { 133,4462 }, { 134,4462 },
- { 135,4462 }, { 136,4462 }, { 137,4462 }, { 138,4462 }, { 139,4462 },
- { 140,4462 }, { 141,4462 }, { 142,4462 }, { 143,4462 }, { 144,4462 },
- { 145,4462 }, { 146,4462 }, { 147,4462 }, { 148,4462 }, { 149,4462 },
- { 150,4462 }, { 151,4462 }, { 152,4462 }, { 153,4462 }, { 154,4462 },
- { 155,4462 }, { 156,4462 }, { 157,4462 }, { 158,4462 }, { 159,4462 },
- { 160,4462 }, { 161,4462 }, { 162,4462 }, { 163,4462 }, { 164,4462 },
- { 165,4462 }, { 166,4462 }, { 167,4462 }, { 168,4462 }, { 169,4462 },
- { 170,4462 }, { 171,4462 }, { 172,4462 }, { 173,4462 }, { 174,4462 },
-
- { 175,4462 }, { 176,4462 }, { 177,4462 }, { 178,4462 }, { 179,4462 },
- { 180,4462 }, { 181,4462 }, { 182,4462 }, { 183,4462 }, { 184,4462 },
- { 185,4462 }, { 186,4462 }, { 187,4462 }, { 188,4462 }, { 189,4462 },
- { 190,4462 }, { 191,4462 }, { 192,4462 }, { 193,4462 }, { 194,4462 },
- { 195,4462 }, { 196,4462 }, { 197,4462 }, { 198,4462 }, { 199,4462 },
- { 200,4462 }, { 201,4462 }, { 202,4462 }, { 203,4462 }, { 204,4462 },
- { 205,4462 }, { 206,4462 }, { 207,4462 }, { 208,4462 }, { 209,4462 },
- { 210,4462 }, { 211,4462 }, { 212,4462 }, { 213,4462 }, { 214,4462 },
- { 215,4462 }, { 216,4462 }, { 217,4462 }, { 218,4462 }, { 219,4462 },
- { 220,4462 }, { 221,4462 }, { 222,4462 }, { 223,4462 }, { 224,4462 },
-
- { 225,4462 }, { 226,4462 }, { 227,4462 }, { 228,4462 }, { 229,4462 },
- { 230,4462 }, { 231,4462 }, { 232,4462 }, { 233,4462 }, { 234,4462 },
- { 235,4462 }, { 236,4462 }, { 237,4462 }, { 238,4462 }, { 239,4462 },
- { 240,4462 }, { 241,4462 }, { 242,4462 }, { 243,4462 }, { 244,4462 },
- { 245,4462 }, { 246,4462 }, { 247,4462 }, { 248,4462 }, { 249,4462 },
- { 250,4462 }, { 251,4462 }, { 252,4462 }, { 253,4462 }, { 254,4462 },
- { 255,4462 }, { 256,4462 }, {   0,   0 }, {   0,18571 }, {   1,4720 },
- {   2,4720 }, {   3,4720 }, {   4,4720 }, {   5,4720 }, {   6,4720 },
- {   7,4720 }, {   8,4720 }, {   9,4720 }, {  10,4720 }, {  11,4720 },
- {  12,4720 }, {  13,4720 }, {  14,4720 }, {  15,4720 }, {  16,4720 },
-
- {  17,4720 }, {  18,4720 }, {  19,4720 }, {  20,4720 }, {  21,4720 },
- {  22,4720 }, {  23,4720 }, {  24,4720 }, {  25,4720 }, {  26,4720 },
- {  27,4720 }, {  28,4720 }, {  29,4720 }, {  30,4720 }, {  31,4720 },
- {  32,4720 }, {  33,4720 }, {  34,4720 }, {  35,4720 }, {  36,4720 },
- {  37,4720 }, {  38,4720 }, {  39,4720 }, {  40,4720 }, {  41,4720 },
- {  42,4720 }, {  43,4720 }, {  44,4720 }, {  45,4720 }, {  46,4720 },
- {  47,4720 }, {  48,4720 }, {  49,4720 }, {  50,4720 }, {  51,4720 },
- {  52,4720 }, {  53,4720 }, {  54,4720 }, {  55,4720 }, {  56,4720 },
- {  57,4720 }, {  58,4720 }, {  59,4720 }, {  60,4720 }, {  61,4720 },
- {  62,4720 }, {  63,4720 }, {  64,4720 }, {  65,4720 }, {  66,4720 },
-
- {  67,4720 }, {  68,4720 }, {  69,4720 }, {  70,4720 }, {  71,4720 },
- {  72,4720 }, {  73,4720 }, {  74,4720 }, {  75,4720 }, {  76,4720 },
- {  77,4720 }, {  78,4720 }, {  79,4720 }, {  80,4720 }, {  81,4720 },
- {  82,4720 }, {  83,4720 }, {  84,4720 }, {  85,4720 }, {  86,4720 },
- {  87,4720 }, {  88,4720 }, {  89,4720 }, {  90,4720 }, {  91,4720 },
- {  92,4720 }, {  93,4720 }, {  94,4720 }, {  95,4720 }, {  96,4720 },
- {  97,4720 }, {  98,4720 }, {  99,4720 }, { 100,4720 }, { 101,4720 },
- { 102,4720 }, { 103,4720 }, { 104,4720 }, { 105,4720 }, { 106,4720 },
- { 107,4720 }, { 108,4720 }, { 109,4720 }, { 110,4720 }, { 111,4720 },
- { 112,4720 }, { 113,4720 }, { 114,4720 }, { 115,4720 }, { 116,4720 },
-
- { 117,4720 }, { 118,4720 }, { 119,4720 }, { 120,4720 }, { 121,4720 },
- { 122,4720 }, { 123,4977 }, { 124,4720 }, { 125,4720 }, { 126,4720 },
- { 127,4720 }, { 128,4720 }, { 129,4720 }, { 130,4720 }, { 131,4720 },
- { 132,4720 }, { 133,4720 }, { 134,4720 }, { 135,4720 }, { 136,4720 },
- { 137,4720 }, { 138,4720 }, { 139,4720 }, { 140,4720 }, { 141,4720 },
- { 142,4720 }, { 143,4720 }, { 144,4720 }, { 145,4720 }, { 146,4720 },
- { 147,4720 }, { 148,4720 }, { 149,4720 }, { 150,4720 }, { 151,4720 },
- { 152,4720 }, { 153,4720 }, { 154,4720 }, { 155,4720 }, { 156,4720 },
- { 157,4720 }, { 158,4720 }, { 159,4720 }, { 160,4720 }, { 161,4720 },
- { 162,4720 }, { 163,4720 }, { 164,4720 }, { 165,4720 }, { 166,4720 },
-
- { 167,4720 }, { 168,4720 }, { 169,4720 }, { 170,4720 }, { 171,4720 },
- { 172,4720 }, { 173,4720 }, { 174,4720 }, { 175,4720 }, { 176,4720 },
- { 177,4720 }, { 178,4720 }, { 179,4720 }, { 180,4720 }, { 181,4720 },
- { 182,4720 }, { 183,4720 }, { 184,4720 }, { 185,4720 }, { 186,4720 },
- { 187,4720 }, { 188,4720 }, { 189,4720 }, { 190,4720 }, { 191,4720 },
- { 192,4720 }, { 193,4720 }, { 194,4720 }, { 195,4720 }, { 196,4720 },
- { 197,4720 }, { 198,4720 }, { 199,4720 }, { 200,4720 }, { 201,4720 },
- { 202,4720 }, { 203,4720 }, { 204,4720 }, { 205,4720 }, { 206,4720 },
- { 207,4720 }, { 208,4720 }, { 209,4720 }, { 210,4720 }, { 211,4720 },
- { 212,4720 }, { 213,4720 }, { 214,4720 }, { 215,4720 }, { 216,4720 },
-
- { 217,4720 }, { 218,4720 }, { 219,4720 }, { 220,4720 }, { 221,4720 },
- { 222,4720 }, { 223,4720 }, { 224,4720 }, { 225,4720 }, { 226,4720 },
- { 227,4720 }, { 228,4720 }, { 229,4720 }, { 230,4720 }, { 231,4720 },
- { 232,4720 }, { 233,4720 }, { 234,4720 }, { 235,4720 }, { 236,4720 },
- { 237,4720 }, { 238,4720 }, { 239,4720 }, { 240,4720 }, { 241,4720 },
- { 242,4720 }, { 243,4720 }, { 244,4720 }, { 245,4720 }, { 246,4720 },
- { 247,4720 }, { 248,4720 }, { 249,4720 }, { 250,4720 }, { 251,4720 },
- { 252,4720 }, { 253,4720 }, { 254,4720 }, { 255,4720 }, { 256, 779 },
- {   0,   0 }, {   0,18313 }, {   1,4462 }, {   2,4462 }, {   3,4462 },
- {   4,4462 }, {   5,4462 }, {   6,4462 }, {   7,4462 }, {   8,4462 },
-
- {   9,4462 }, {  10,4462 }, {  11,4462 }, {  12,4462 }, {  13,4462 },
- {  14,4462 }, {  15,4462 }, {  16,4462 }, {  17,4462 }, {  18,4462 },
- {  19,4462 }, {  20,4462 }, {  21,4462 }, {  22,4462 }, {  23,4462 },
- {  24,4462 }, {  25,4462 }, {  26,4462 }, {  27,4462 }, {  28,4462 },
- {  29,4462 }, {  30,4462 }, {  31,4462 }, {  32,4462 }, {  33,4462 },
- {  34,4462 }, {  35,4462 }, {  36,4462 }, {  37,4462 }, {  38,4462 },
- {  39,4462 }, {  40,4462 }, {  41,4462 }, {  42,4462 }, {  43,4462 },
- {  44,4462 }, {  45,4462 }, {  46,4462 }, {  47,4462 }, {  48,4462 },
- {  49,4462 }, {  50,4462 }, {  51,4462 }, {  52,4462 }, {  53,4462 },
- {  54,4462 }, {  55,4462 }, {  56,4462 }, {  57,4462 }, {  58,4462 },
-
- {  59,4462 }, {  60,4462 }, {  61,4462 }, {  62,4462 }, {  63,4462 },
- {  64,4462 }, {  65,4462 }, {  66,4462 }, {  67,4462 }, {  68,4462 },
- {  69,4462 }, {  70,4462 }, {  71,4462 }, {  72,4462 }, {  73,4462 },
- {  74,4462 }, {  75,4462 }, {  76,4462 }, {  77,4462 }, {  78,4462 },
- {  79,4462 }, {  80,4462 }, {  81,4462 }, {  82,4462 }, {  83,4462 },
- {  84,4462 }, {  85,4462 }, {  86,4462 }, {  87,4462 }, {  88,4462 },
- {  89,4462 }, {  90,4462 }, {  91,4462 }, {  92,4462 }, {  93,4462 },
- {  94,4462 }, {  95,4462 }, {  96,4462 }, {  97,4462 }, {  98,4462 },
- {  99,4462 }, { 100,4462 }, { 101,4462 }, { 102,4462 }, { 103,4462 },
- { 104,4462 }, { 105,4462 }, { 106,4462 }, { 107,4462 }, { 108,4462 },
-
- { 109,4462 }, { 110,4462 }, { 111,4462 }, { 112,4462 }, { 113,4462 },
- { 114,4462 }, { 115,4462 }, { 116,4462 }, { 117,4462 }, { 118,4462 },
- { 119,4462 }, { 120,4462 }, { 121,4462 }, { 122,4462 }, { 123,4719 },
- { 124,4462 }, { 125,4462 }, { 126,4462 }, { 127,4462 }, { 128,4462 },
- { 129,4462 }, { 130,4462 }, { 131,4462 }, { 132,4462 }, { 133,4462 },
- { 134,4462 }, { 135,4462 }, { 136,4462 }, { 137,4462 }, { 138,4462 },
- { 139,4462 }, { 140,4462 }, { 141,4462 }, { 142,4462 }, { 143,4462 },
- { 144,4462 }, { 145,4462 }, { 146,4462 }, { 147,4462 }, { 148,4462 },
- { 149,4462 }, { 150,4462 }, { 151,4462 }, { 152,4462 }, { 153,4462 },
- { 154,4462 }, { 155,4462 }, { 156,4462 }, { 157,4462 }, { 158,4462 },
-
- { 159,4462 }, { 160,4462 }, { 161,4462 }, { 162,4462 }, { 163,4462 },
- { 164,4462 }, { 165,4462 }, { 166,4462 }, { 167,4462 }, { 168,4462 },
- { 169,4462 }, { 170,4462 }, { 171,4462 }, { 172,4462 }, { 173,4462 },
- { 174,4462 }, { 175,4462 }, { 176,4462 }, { 177,4462 }, { 178,4462 },
- { 179,4462 }, { 180,4462 }, { 181,4462 }, { 182,4462 }, { 183,4462 },
- { 184,4462 }, { 185,4462 }, { 186,4462 }, { 187,4462 }, { 188,4462 },
- { 189,4462 }, { 190,4462 }, { 191,4462 }, { 192,4462 }, { 193,4462 },
- { 194,4462 }, { 195,4462 }, { 196,4462 }, { 197,4462 }, { 198,4462 },
- { 199,4462 }, { 200,4462 }, { 201,4462 }, { 202,4462 }, { 203,4462 },
- { 204,4462 }, { 205,4462 }, { 206,4462 }, { 207,4462 }, { 208,4462 },
-
- { 209,4462 }, { 210,4462 }, { 211,4462 }, { 212,4462 }, { 213,4462 },
- { 214,4462 }, { 215,4462 }, { 216,4462 }, { 217,4462 }, { 218,4462 },
- { 219,4462 }, { 220,4462 }, { 221,4462 }, { 222,4462 }, { 223,4462 },
- { 224,4462 }, { 225,4462 }, { 226,4462 }, { 227,4462 }, { 228,4462 },
- { 229,4462 }, { 230,4462 }, { 231,4462 }, { 232,4462 }, { 233,4462 },
- { 234,4462 }, { 235,4462 }, { 236,4462 }, { 237,4462 }, { 238,4462 },
- { 239,4462 }, { 240,4462 }, { 241,4462 }, { 242,4462 }, { 243,4462 },
- { 244,4462 }, { 245,4462 }, { 246,4462 }, { 247,4462 }, { 248,4462 },
- { 249,4462 }, { 250,4462 }, { 251,4462 }, { 252,4462 }, { 253,4462 },
- { 254,4462 }, { 255,4462 }, { 256, 521 }, {   0,   2 }, {   0,18055 },
-
- {   1,4586 }, {   2,4586 }, {   3,4586 }, {   4,4586 }, {   5,4586 },
- {   6,4586 }, {   7,4586 }, {   8,4586 }, {   9,4586 }, {  10,4463 },
- {  11,4586 }, {  12,4586 }, {  13,4463 }, {  14,4586 }, {  15,4586 },
- {  16,4586 }, {  17,4586 }, {  18,4586 }, {  19,4586 }, {  20,4586 },
- {  21,4586 }, {  22,4586 }, {  23,4586 }, {  24,4586 }, {  25,4586 },
- {  26,4586 }, {  27,4586 }, {  28,4586 }, {  29,4586 }, {  30,4586 },
- {  31,4586 }, {  32,4586 }, {  33,4586 }, {  34,4586 }, {  35,4586 },
- {  36,4586 }, {  37,4586 }, {  38,4586 }, {  39,4586 }, {  40,4586 },
- {  41,4586 }, {  42,4586 }, {  43,4586 }, {  44,4586 }, {  45,4586 },
- {  46,4586 }, {  47,4586 }, {  48,4586 }, {  49,4586 }, {  50,4586 },
-
- {  51,4586 }, {  52,4586 }, {  53,4586 }, {  54,4586 }, {  55,4586 },
- {  56,4586 }, {  57,4586 }, {  58,4586 }, {  59,4586 }, {  60,4586 },
- {  61,4586 }, {  62,4586 }, {  63,4586 }, {  64,4586 }, {  65,4586 },
- {  66,4586 }, {  67,4586 }, {  68,4586 }, {  69,4586 }, {  70,4586 },
- {  71,4586 }, {  72,4586 }, {  73,4586 }, {  74,4586 }, {  75,4586 },
- {  76,4586 }, {  77,4586 }, {  78,4586 }, {  79,4586 }, {  80,4586 },
- {  81,4586 }, {  82,4586 }, {  83,4586 }, {  84,4586 }, {  85,4586 },
- {  86,4586 }, {  87,4586 }, {  88,4586 }, {  89,4586 }, {  90,4586 },
- {  91,4586 }, {  92,4465 }, {  93,4586 }, {  94,4586 }, {  95,4586 },
- {  96,4586 }, {  97,4586 }, {  98,4586 }, {  99,4586 }, { 100,4586 },
-
- { 101,4586 }, { 102,4586 }, { 103,4586 }, { 104,4586 }, { 105,4586 },
- { 106,4586 }, { 107,4586 }, { 108,4586 }, { 109,4586 }, { 110,4586 },
- { 111,4586 }, { 112,4586 }, { 113,4586 }, { 114,4586 }, { 115,4586 },
- { 116,4586 }, { 117,4586 }, { 118,4586 }, { 119,4586 }, { 120,4586 },
- { 121,4586 }, { 122,4586 }, {   0,   0 }, { 124,4586 }, { 125,4586 },
- { 126,4586 }, { 127,4586 }, { 128,4586 }, { 129,4586 }, { 130,4586 },
- { 131,4586 }, { 132,4586 }, { 133,4586 }, { 134,4586 }, { 135,4586 },
- { 136,4586 }, { 137,4586 }, { 138,4586 }, { 139,4586 }, { 140,4586 },
- { 141,4586 }, { 142,4586 }, { 143,4586 }, { 144,4586 }, { 145,4586 },
- { 146,4586 }, { 147,4586 }, { 148,4586 }, { 149,4586 }, { 150,4586 },
-
- { 151,4586 }, { 152,4586 }, { 153,4586 }, { 154,4586 }, { 155,4586 },
- { 156,4586 }, { 157,4586 }, { 158,4586 }, { 159,4586 }, { 160,4586 },
- { 161,4586 }, { 162,4586 }, { 163,4586 }, { 164,4586 }, { 165,4586 },
- { 166,4586 }, { 167,4586 }, { 168,4586 }, { 169,4586 }, { 170,4586 },
- { 171,4586 }, { 172,4586 }, { 173,4586 }, { 174,4586 }, { 175,4586 },
- { 176,4586 }, { 177,4586 }, { 178,4586 }, { 179,4586 }, { 180,4586 },
- { 181,4586 }, { 182,4586 }, { 183,4586 }, { 184,4586 }, { 185,4586 },
- { 186,4586 }, { 187,4586 }, { 188,4586 }, { 189,4586 }, { 190,4586 },
- { 191,4586 }, { 192,4586 }, { 193,4586 }, { 194,4586 }, { 195,4586 },
- { 196,4586 }, { 197,4586 }, { 198,4586 }, { 199,4586 }, { 200,4586 },
-
- { 201,4586 }, { 202,4586 }, { 203,4586 }, { 204,4586 }, { 205,4586 },
- { 206,4586 }, { 207,4586 }, { 208,4586 }, { 209,4586 }, { 210,4586 },
- { 211,4586 }, { 212,4586 }, { 213,4586 }, { 214,4586 }, { 215,4586 },
- { 216,4586 }, { 217,4586 }, { 218,4586 }, { 219,4586 }, { 220,4586 },
- { 221,4586 }, { 222,4586 }, { 223,4586 }, { 224,4586 }, { 225,4586 },
- { 226,4586 }, { 227,4586 }, { 228,4586 }, { 229,4586 }, { 230,4586 },
- { 231,4586 }, { 232,4586 }, { 233,4586 }, { 234,4586 }, { 235,4586 },
- { 236,4586 }, { 237,4586 }, { 238,4586 }, { 239,4586 }, { 240,4586 },
- { 241,4586 }, { 242,4586 }, { 243,4586 }, { 244,4586 }, { 245,4586 },
- { 246,4586 }, { 247,4586 }, { 248,4586 }, { 249,4586 }, { 250,4586 },
-
- { 251,4586 }, { 252,4586 }, { 253,4586 }, { 254,4586 }, { 255,4586 },
- {   0,   2 }, {   0,17798 }, {   0,   6 }, {   0,17796 }, {   0,   6 },
- {   0,17794 }, {   0,  52 }, {   0,17792 }, {   0,  36 }, {   0,17790 },
- {   0,   0 }, {  10,4206 }, {   0,   0 }, {   0,   0 }, {  13,4206 },
- {   0,  36 }, {   0,17783 }, {   0,   0 }, {   9,4867 }, {  10,4867 },
- {   0,  51 }, {   0,17778 }, {  13,4867 }, {   0,  15 }, {   0,17775 },
- {   9,4860 }, {  10,4860 }, {   0,  16 }, {   0,17771 }, {  13,4860 },
- {   0,  35 }, {   0,17768 }, {   0,  32 }, {   0,17766 }, {   0,  41 },
- {   0,17764 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,4867 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,4860 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,4208 }, {   0,   0 },
-
- {  92,4584 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 123,4586 }, {   0,   0 }, { 123,4586 }, {   0,   2 },
- {   0,17669 }, {   1,4200 }, {   2,4200 }, {   3,4200 }, {   4,4200 },
- {   5,4200 }, {   6,4200 }, {   7,4200 }, {   8,4200 }, {   9,4200 },
- {  10,4077 }, {  11,4200 }, {  12,4200 }, {  13,4077 }, {  14,4200 },
-
- {  15,4200 }, {  16,4200 }, {  17,4200 }, {  18,4200 }, {  19,4200 },
- {  20,4200 }, {  21,4200 }, {  22,4200 }, {  23,4200 }, {  24,4200 },
- {  25,4200 }, {  26,4200 }, {  27,4200 }, {  28,4200 }, {  29,4200 },
- {  30,4200 }, {  31,4200 }, {  32,4200 }, {  33,4200 }, {  34,4200 },
- {  35,4200 }, {  36,4200 }, {  37,4200 }, {  38,4200 }, {  39,4200 },
- {  40,4200 }, {  41,4200 }, {  42,4200 }, {  43,4200 }, {  44,4200 },
- {  45,4200 }, {  46,4200 }, {  47,4200 }, {  48,4200 }, {  49,4200 },
- {  50,4200 }, {  51,4200 }, {  52,4200 }, {  53,4200 }, {  54,4200 },
- {  55,4200 }, {  56,4200 }, {  57,4200 }, {  58,4200 }, {  59,4200 },
- {  60,4200 }, {  61,4200 }, {  62,4200 }, {  63,4200 }, {  64,4200 },
-
- {  65,4200 }, {  66,4200 }, {  67,4200 }, {  68,4200 }, {  69,4200 },
- {  70,4200 }, {  71,4200 }, {  72,4200 }, {  73,4200 }, {  74,4200 },
- {  75,4200 }, {  76,4200 }, {  77,4200 }, {  78,4200 }, {  79,4200 },
- {  80,4200 }, {  81,4200 }, {  82,4200 }, {  83,4200 }, {  84,4200 },
- {  85,4200 }, {  86,4200 }, {  87,4200 }, {  88,4200 }, {  89,4200 },
- {  90,4200 }, {  91,4200 }, {  92,4079 }, {  93,4200 }, {  94,4200 },
- {  95,4200 }, {  96,4200 }, {  97,4200 }, {  98,4200 }, {  99,4200 },
- { 100,4200 }, { 101,4200 }, { 102,4200 }, { 103,4200 }, { 104,4200 },
- { 105,4200 }, { 106,4200 }, { 107,4200 }, { 108,4200 }, { 109,4200 },
- { 110,4200 }, { 111,4200 }, { 112,4200 }, { 113,4200 }, { 114,4200 },
-
- { 115,4200 }, { 116,4200 }, { 117,4200 }, { 118,4200 }, { 119,4200 },
- { 120,4200 }, { 121,4200 }, { 122,4200 }, {   0,   0 }, { 124,4200 },
- { 125,4200 }, { 126,4200 }, { 127,4200 }, { 128,4200 }, { 129,4200 },
- { 130,4200 }, { 131,4200 }, { 132,4200 }, { 133,4200 }, { 134,4200 },
- { 135,4200 }, { 136,4200 }, { 137,4200 }, { 138,4200 }, { 139,4200 },
- { 140,4200 }, { 141,4200 }, { 142,4200 }, { 143,4200 }, { 144,4200 },
- { 145,4200 }, { 146,4200 }, { 147,4200 }, { 148,4200 }, { 149,4200 },
- { 150,4200 }, { 151,4200 }, { 152,4200 }, { 153,4200 }, { 154,4200 },
- { 155,4200 }, { 156,4200 }, { 157,4200 }, { 158,4200 }, { 159,4200 },
- { 160,4200 }, { 161,4200 }, { 162,4200 }, { 163,4200 }, { 164,4200 },
-
- { 165,4200 }, { 166,4200 }, { 167,4200 }, { 168,4200 }, { 169,4200 },
- { 170,4200 }, { 171,4200 }, { 172,4200 }, { 173,4200 }, { 174,4200 },
- { 175,4200 }, { 176,4200 }, { 177,4200 }, { 178,4200 }, { 179,4200 },
- { 180,4200 }, { 181,4200 }, { 182,4200 }, { 183,4200 }, { 184,4200 },
- { 185,4200 }, { 186,4200 }, { 187,4200 }, { 188,4200 }, { 189,4200 },
- { 190,4200 }, { 191,4200 }, { 192,4200 }, { 193,4200 }, { 194,4200 },
- { 195,4200 }, { 196,4200 }, { 197,4200 }, { 198,4200 }, { 199,4200 },
- { 200,4200 }, { 201,4200 }, { 202,4200 }, { 203,4200 }, { 204,4200 },
- { 205,4200 }, { 206,4200 }, { 207,4200 }, { 208,4200 }, { 209,4200 },
- { 210,4200 }, { 211,4200 }, { 212,4200 }, { 213,4200 }, { 214,4200 },
-
- { 215,4200 }, { 216,4200 }, { 217,4200 }, { 218,4200 }, { 219,4200 },
- { 220,4200 }, { 221,4200 }, { 222,4200 }, { 223,4200 }, { 224,4200 },
- { 225,4200 }, { 226,4200 }, { 227,4200 }, { 228,4200 }, { 229,4200 },
- { 230,4200 }, { 231,4200 }, { 232,4200 }, { 233,4200 }, { 234,4200 },
- { 235,4200 }, { 236,4200 }, { 237,4200 }, { 238,4200 }, { 239,4200 },
- { 240,4200 }, { 241,4200 }, { 242,4200 }, { 243,4200 }, { 244,4200 },
- { 245,4200 }, { 246,4200 }, { 247,4200 }, { 248,4200 }, { 249,4200 },
- { 250,4200 }, { 251,4200 }, { 252,4200 }, { 253,4200 }, { 254,4200 },
- { 255,4200 }, {   0,  51 }, {   0,17412 }, {   1,4231 }, {   2,4231 },
- {   3,4231 }, {   4,4231 }, {   5,4231 }, {   6,4231 }, {   7,4231 },
-
- {   8,4231 }, {   9,4206 }, {  10,4206 }, {  11,4231 }, {  12,4231 },
- {  13,4206 }, {  14,4231 }, {  15,4231 }, {  16,4231 }, {  17,4231 },
- {  18,4231 }, {  19,4231 }, {  20,4231 }, {  21,4231 }, {  22,4231 },
- {  23,4231 }, {  24,4231 }, {  25,4231 }, {  26,4231 }, {  27,4231 },
- {  28,4231 }, {  29,4231 }, {  30,4231 }, {  31,4231 }, {  32,4206 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,4231 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,4206 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,4231 }, {  46,4206 }, {  47,4206 },
- {  48,4231 }, {  49,4231 }, {  50,4231 }, {  51,4231 }, {  52,4231 },
- {  53,4231 }, {  54,4231 }, {  55,4231 }, {  56,4231 }, {  57,4231 },
-
- {  58,4231 }, {   0,   0 }, {   0,   0 }, {  61,4206 }, {   0,   0 },
- {  63,4231 }, {   0,   0 }, {  65,4231 }, {  66,4231 }, {  67,4231 },
- {  68,4231 }, {  69,4231 }, {  70,4231 }, {  71,4231 }, {  72,4231 },
- {  73,4231 }, {  74,4231 }, {  75,4231 }, {  76,4231 }, {  77,4231 },
- {  78,4231 }, {  79,4231 }, {  80,4231 }, {  81,4231 }, {  82,4231 },
- {  83,4231 }, {  84,4231 }, {  85,4231 }, {  86,4231 }, {  87,4231 },
- {  88,4231 }, {  89,4231 }, {  90,4231 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,4231 }, {   0,   0 }, {  97,4231 },
- {  98,4231 }, {  99,4231 }, { 100,4231 }, { 101,4231 }, { 102,4231 },
- { 103,4231 }, { 104,4231 }, { 105,4231 }, { 106,4231 }, { 107,4231 },
-
- { 108,4231 }, { 109,4231 }, { 110,4231 }, { 111,4231 }, { 112,4231 },
- { 113,4231 }, { 114,4231 }, { 115,4231 }, { 116,4231 }, { 117,4231 },
- { 118,4231 }, { 119,4231 }, { 120,4231 }, { 121,4231 }, { 122,4231 },
- {   0,   0 }, { 124,4206 }, { 125,4206 }, { 126,4206 }, { 127,4231 },
- { 128,4231 }, { 129,4231 }, { 130,4231 }, { 131,4231 }, { 132,4231 },
- { 133,4231 }, { 134,4231 }, { 135,4231 }, { 136,4231 }, { 137,4231 },
- { 138,4231 }, { 139,4231 }, { 140,4231 }, { 141,4231 }, { 142,4231 },
- { 143,4231 }, { 144,4231 }, { 145,4231 }, { 146,4231 }, { 147,4231 },
- { 148,4231 }, { 149,4231 }, { 150,4231 }, { 151,4231 }, { 152,4231 },
- { 153,4231 }, { 154,4231 }, { 155,4231 }, { 156,4231 }, { 157,4231 },
-
- { 158,4231 }, { 159,4231 }, { 160,4231 }, { 161,4231 }, { 162,4231 },
- { 163,4231 }, { 164,4231 }, { 165,4231 }, { 166,4231 }, { 167,4231 },
- { 168,4231 }, { 169,4231 }, { 170,4231 }, { 171,4231 }, { 172,4231 },
- { 173,4231 }, { 174,4231 }, { 175,4231 }, { 176,4231 }, { 177,4231 },
- { 178,4231 }, { 179,4231 }, { 180,4231 }, { 181,4231 }, { 182,4231 },
- { 183,4231 }, { 184,4231 }, { 185,4231 }, { 186,4231 }, { 187,4231 },
- { 188,4231 }, { 189,4231 }, { 190,4231 }, { 191,4231 }, { 192,4231 },
- { 193,4231 }, { 194,4231 }, { 195,4231 }, { 196,4231 }, { 197,4231 },
- { 198,4231 }, { 199,4231 }, { 200,4231 }, { 201,4231 }, { 202,4231 },
- { 203,4231 }, { 204,4231 }, { 205,4231 }, { 206,4231 }, { 207,4231 },
-
- { 208,4231 }, { 209,4231 }, { 210,4231 }, { 211,4231 }, { 212,4231 },
- { 213,4231 }, { 214,4231 }, { 215,4231 }, { 216,4231 }, { 217,4231 },
- { 218,4231 }, { 219,4231 }, { 220,4231 }, { 221,4231 }, { 222,4231 },
- { 223,4231 }, { 224,4231 }, { 225,4231 }, { 226,4231 }, { 227,4231 },
- { 228,4231 }, { 229,4231 }, { 230,4231 }, { 231,4231 }, { 232,4231 },
- { 233,4231 }, { 234,4231 }, { 235,4231 }, { 236,4231 }, { 237,4231 },
- { 238,4231 }, { 239,4231 }, { 240,4231 }, { 241,4231 }, { 242,4231 },
- { 243,4231 }, { 244,4231 }, { 245,4231 }, { 246,4231 }, { 247,4231 },
- { 248,4231 }, { 249,4231 }, { 250,4231 }, { 251,4231 }, { 252,4231 },
- { 253,4231 }, { 254,4231 }, { 255,4231 }, { 256,4231 }, {   0,  51 },
-
- {   0,17154 }, {   1,4265 }, {   2,4265 }, {   3,4265 }, {   4,4265 },
- {   5,4265 }, {   6,4265 }, {   7,4265 }, {   8,4265 }, {   9,4265 },
- {  10,4265 }, {  11,4265 }, {  12,4265 }, {  13,4265 }, {  14,4265 },
- {  15,4265 }, {  16,4265 }, {  17,4265 }, {  18,4265 }, {  19,4265 },
- {  20,4265 }, {  21,4265 }, {  22,4265 }, {  23,4265 }, {  24,4265 },
- {  25,4265 }, {  26,4265 }, {  27,4265 }, {  28,4265 }, {  29,4265 },
- {  30,4265 }, {  31,4265 }, {  32,4265 }, {  33,4265 }, {  34,4233 },
- {  35,4265 }, {  36,4265 }, {  37,4265 }, {  38,4265 }, {  39,4265 },
- {  40,4265 }, {  41,4265 }, {  42,4265 }, {  43,4265 }, {  44,4265 },
- {  45,4265 }, {  46,4265 }, {  47,4265 }, {  48,4265 }, {  49,4265 },
-
- {  50,4265 }, {  51,4265 }, {  52,4265 }, {  53,4265 }, {  54,4265 },
- {  55,4265 }, {  56,4265 }, {  57,4265 }, {  58,4265 }, {  59,4265 },
- {  60,4265 }, {  61,4265 }, {  62,4265 }, {  63,4265 }, {  64,4265 },
- {  65,4265 }, {  66,4265 }, {  67,4265 }, {  68,4265 }, {  69,4265 },
- {  70,4265 }, {  71,4265 }, {  72,4265 }, {  73,4265 }, {  74,4265 },
- {  75,4265 }, {  76,4265 }, {  77,4265 }, {  78,4265 }, {  79,4265 },
- {  80,4265 }, {  81,4265 }, {  82,4265 }, {  83,4265 }, {  84,4265 },
- {  85,4265 }, {  86,4265 }, {  87,4265 }, {  88,4265 }, {  89,4265 },
- {  90,4265 }, {  91,4265 }, {  92,4523 }, {  93,4265 }, {  94,4265 },
- {  95,4265 }, {  96,4265 }, {  97,4265 }, {  98,4265 }, {  99,4265 },
-
- { 100,4265 }, { 101,4265 }, { 102,4265 }, { 103,4265 }, { 104,4265 },
- { 105,4265 }, { 106,4265 }, { 107,4265 }, { 108,4265 }, { 109,4265 },
- { 110,4265 }, { 111,4265 }, { 112,4265 }, { 113,4265 }, { 114,4265 },
- { 115,4265 }, { 116,4265 }, { 117,4265 }, { 118,4265 }, { 119,4265 },
- { 120,4265 }, { 121,4265 }, { 122,4265 }, { 123,4265 }, { 124,4265 },
- { 125,4265 }, { 126,4265 }, { 127,4265 }, { 128,4265 }, { 129,4265 },
- { 130,4265 }, { 131,4265 }, { 132,4265 }, { 133,4265 }, { 134,4265 },
- { 135,4265 }, { 136,4265 }, { 137,4265 }, { 138,4265 }, { 139,4265 },
- { 140,4265 }, { 141,4265 }, { 142,4265 }, { 143,4265 }, { 144,4265 },
- { 145,4265 }, { 146,4265 }, { 147,4265 }, { 148,4265 }, { 149,4265 },
-
- { 150,4265 }, { 151,4265 }, { 152,4265 }, { 153,4265 }, { 154,4265 },
- { 155,4265 }, { 156,4265 }, { 157,4265 }, { 158,4265 }, { 159,4265 },
- { 160,4265 }, { 161,4265 }, { 162,4265 }, { 163,4265 }, { 164,4265 },
- { 165,4265 }, { 166,4265 }, { 167,4265 }, { 168,4265 }, { 169,4265 },
- { 170,4265 }, { 171,4265 }, { 172,4265 }, { 173,4265 }, { 174,4265 },
- { 175,4265 }, { 176,4265 }, { 177,4265 }, { 178,4265 }, { 179,4265 },
- { 180,4265 }, { 181,4265 }, { 182,4265 }, { 183,4265 }, { 184,4265 },
- { 185,4265 }, { 186,4265 }, { 187,4265 }, { 188,4265 }, { 189,4265 },
- { 190,4265 }, { 191,4265 }, { 192,4265 }, { 193,4265 }, { 194,4265 },
- { 195,4265 }, { 196,4265 }, { 197,4265 }, { 198,4265 }, { 199,4265 },
-
- { 200,4265 }, { 201,4265 }, { 202,4265 }, { 203,4265 }, { 204,4265 },
- { 205,4265 }, { 206,4265 }, { 207,4265 }, { 208,4265 }, { 209,4265 },
- { 210,4265 }, { 211,4265 }, { 212,4265 }, { 213,4265 }, { 214,4265 },
- { 215,4265 }, { 216,4265 }, { 217,4265 }, { 218,4265 }, { 219,4265 },
- { 220,4265 }, { 221,4265 }, { 222,4265 }, { 223,4265 }, { 224,4265 },
- { 225,4265 }, { 226,4265 }, { 227,4265 }, { 228,4265 }, { 229,4265 },
- { 230,4265 }, { 231,4265 }, { 232,4265 }, { 233,4265 }, { 234,4265 },
- { 235,4265 }, { 236,4265 }, { 237,4265 }, { 238,4265 }, { 239,4265 },
- { 240,4265 }, { 241,4265 }, { 242,4265 }, { 243,4265 }, { 244,4265 },
- { 245,4265 }, { 246,4265 }, { 247,4265 }, { 248,4265 }, { 249,4265 },
-
- { 250,4265 }, { 251,4265 }, { 252,4265 }, { 253,4265 }, { 254,4265 },
- { 255,4265 }, { 256,4265 }, {   0,  51 }, {   0,16896 }, {   1,4523 },
- {   2,4523 }, {   3,4523 }, {   4,4523 }, {   5,4523 }, {   6,4523 },
- {   7,4523 }, {   8,4523 }, {   9,4523 }, {  10,4523 }, {  11,4523 },
- {  12,4523 }, {  13,4523 }, {  14,4523 }, {  15,4523 }, {  16,4523 },
- {  17,4523 }, {  18,4523 }, {  19,4523 }, {  20,4523 }, {  21,4523 },
- {  22,4523 }, {  23,4523 }, {  24,4523 }, {  25,4523 }, {  26,4523 },
- {  27,4523 }, {  28,4523 }, {  29,4523 }, {  30,4523 }, {  31,4523 },
- {  32,4523 }, {  33,4523 }, {  34,4523 }, {  35,4523 }, {  36,4523 },
- {  37,4523 }, {  38,4523 }, {  39,3977 }, {  40,4523 }, {  41,4523 },
-
- {  42,4523 }, {  43,4523 }, {  44,4523 }, {  45,4523 }, {  46,4523 },
- {  47,4523 }, {  48,4523 }, {  49,4523 }, {  50,4523 }, {  51,4523 },
- {  52,4523 }, {  53,4523 }, {  54,4523 }, {  55,4523 }, {  56,4523 },
- {  57,4523 }, {  58,4523 }, {  59,4523 }, {  60,4523 }, {  61,4523 },
- {  62,4523 }, {  63,4523 }, {  64,4523 }, {  65,4523 }, {  66,4523 },
- {  67,4523 }, {  68,4523 }, {  69,4523 }, {  70,4523 }, {  71,4523 },
- {  72,4523 }, {  73,4523 }, {  74,4523 }, {  75,4523 }, {  76,4523 },
- {  77,4523 }, {  78,4523 }, {  79,4523 }, {  80,4523 }, {  81,4523 },
- {  82,4523 }, {  83,4523 }, {  84,4523 }, {  85,4523 }, {  86,4523 },
- {  87,4523 }, {  88,4523 }, {  89,4523 }, {  90,4523 }, {  91,4523 },
-
- {  92,4781 }, {  93,4523 }, {  94,4523 }, {  95,4523 }, {  96,4523 },
- {  97,4523 }, {  98,4523 }, {  99,4523 }, { 100,4523 }, { 101,4523 },
- { 102,4523 }, { 103,4523 }, { 104,4523 }, { 105,4523 }, { 106,4523 },
- { 107,4523 }, { 108,4523 }, { 109,4523 }, { 110,4523 }, { 111,4523 },
- { 112,4523 }, { 113,4523 }, { 114,4523 }, { 115,4523 }, { 116,4523 },
- { 117,4523 }, { 118,4523 }, { 119,4523 }, { 120,4523 }, { 121,4523 },
- { 122,4523 }, { 123,4523 }, { 124,4523 }, { 125,4523 }, { 126,4523 },
- { 127,4523 }, { 128,4523 }, { 129,4523 }, { 130,4523 }, { 131,4523 },
- { 132,4523 }, { 133,4523 }, { 134,4523 }, { 135,4523 }, { 136,4523 },
- { 137,4523 }, { 138,4523 }, { 139,4523 }, { 140,4523 }, { 141,4523 },
-
- { 142,4523 }, { 143,4523 }, { 144,4523 }, { 145,4523 }, { 146,4523 },
- { 147,4523 }, { 148,4523 }, { 149,4523 }, { 150,4523 }, { 151,4523 },
- { 152,4523 }, { 153,4523 }, { 154,4523 }, { 155,4523 }, { 156,4523 },
- { 157,4523 }, { 158,4523 }, { 159,4523 }, { 160,4523 }, { 161,4523 },
- { 162,4523 }, { 163,4523 }, { 164,4523 }, { 165,4523 }, { 166,4523 },
- { 167,4523 }, { 168,4523 }, { 169,4523 }, { 170,4523 }, { 171,4523 },
- { 172,4523 }, { 173,4523 }, { 174,4523 }, { 175,4523 }, { 176,4523 },
- { 177,4523 }, { 178,4523 }, { 179,4523 }, { 180,4523 }, { 181,4523 },
- { 182,4523 }, { 183,4523 }, { 184,4523 }, { 185,4523 }, { 186,4523 },
- { 187,4523 }, { 188,4523 }, { 189,4523 }, { 190,4523 }, { 191,4523 },
-
- { 192,4523 }, { 193,4523 }, { 194,4523 }, { 195,4523 }, { 196,4523 },
- { 197,4523 }, { 198,4523 }, { 199,4523 }, { 200,4523 }, { 201,4523 },
- { 202,4523 }, { 203,4523 }, { 204,4523 }, { 205,4523 }, { 206,4523 },
- { 207,4523 }, { 208,4523 }, { 209,4523 }, { 210,4523 }, { 211,4523 },
- { 212,4523 }, { 213,4523 }, { 214,4523 }, { 215,4523 }, { 216,4523 },
- { 217,4523 }, { 218,4523 }, { 219,4523 }, { 220,4523 }, { 221,4523 },
- { 222,4523 }, { 223,4523 }, { 224,4523 }, { 225,4523 }, { 226,4523 },
- { 227,4523 }, { 228,4523 }, { 229,4523 }, { 230,4523 }, { 231,4523 },
- { 232,4523 }, { 233,4523 }, { 234,4523 }, { 235,4523 }, { 236,4523 },
- { 237,4523 }, { 238,4523 }, { 239,4523 }, { 240,4523 }, { 241,4523 },
-
- { 242,4523 }, { 243,4523 }, { 244,4523 }, { 245,4523 }, { 246,4523 },
- { 247,4523 }, { 248,4523 }, { 249,4523 }, { 250,4523 }, { 251,4523 },
- { 252,4523 }, { 253,4523 }, { 254,4523 }, { 255,4523 }, { 256,4523 },
- {   0,  51 }, {   0,16638 }, {   1,3457 }, {   2,3457 }, {   3,3457 },
- {   4,3457 }, {   5,3457 }, {   6,3457 }, {   7,3457 }, {   8,3457 },
- {   9,3432 }, {  10,3432 }, {  11,3457 }, {  12,3457 }, {  13,3432 },
- {  14,3457 }, {  15,3457 }, {  16,3457 }, {  17,3457 }, {  18,3457 },
- {  19,3457 }, {  20,3457 }, {  21,3457 }, {  22,3457 }, {  23,3457 },
- {  24,3457 }, {  25,3457 }, {  26,3457 }, {  27,3457 }, {  28,3457 },
- {  29,3457 }, {  30,3457 }, {  31,3457 }, {  32,3432 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  36,3457 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,3432 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,3457 }, {  46,3432 }, {  47,3432 }, {  48,4781 },
- {  49,4781 }, {  50,4781 }, {  51,4781 }, {  52,4781 }, {  53,4781 },
- {  54,4781 }, {  55,4781 }, {  56,4781 }, {  57,4781 }, {  58,3457 },
- {   0,   0 }, {   0,   0 }, {  61,3432 }, {   0,   0 }, {  63,3457 },
- {   0,   0 }, {  65,3457 }, {  66,3457 }, {  67,3457 }, {  68,3457 },
- {  69,3457 }, {  70,3457 }, {  71,3457 }, {  72,3457 }, {  73,3457 },
- {  74,3457 }, {  75,3457 }, {  76,3457 }, {  77,3457 }, {  78,3457 },
- {  79,3457 }, {  80,3457 }, {  81,3457 }, {  82,3457 }, {  83,3457 },
-
- {  84,3457 }, {  85,3457 }, {  86,3457 }, {  87,3457 }, {  88,3457 },
- {  89,3457 }, {  90,3457 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,3457 }, {   0,   0 }, {  97,3457 }, {  98,3457 },
- {  99,3457 }, { 100,3457 }, { 101,3457 }, { 102,3457 }, { 103,3457 },
- { 104,3457 }, { 105,3457 }, { 106,3457 }, { 107,3457 }, { 108,3457 },
- { 109,3457 }, { 110,3457 }, { 111,3457 }, { 112,3457 }, { 113,3457 },
- { 114,3457 }, { 115,3457 }, { 116,3457 }, { 117,3457 }, { 118,3457 },
- { 119,3457 }, { 120,3457 }, { 121,3457 }, { 122,3457 }, {   0,   0 },
- { 124,3432 }, { 125,3432 }, { 126,3432 }, { 127,3457 }, { 128,3457 },
- { 129,3457 }, { 130,3457 }, { 131,3457 }, { 132,3457 }, { 133,3457 },
-
- { 134,3457 }, { 135,3457 }, { 136,3457 }, { 137,3457 }, { 138,3457 },
- { 139,3457 }, { 140,3457 }, { 141,3457 }, { 142,3457 }, { 143,3457 },
- { 144,3457 }, { 145,3457 }, { 146,3457 }, { 147,3457 }, { 148,3457 },
- { 149,3457 }, { 150,3457 }, { 151,3457 }, { 152,3457 }, { 153,3457 },
- { 154,3457 }, { 155,3457 }, { 156,3457 }, { 157,3457 }, { 158,3457 },
- { 159,3457 }, { 160,3457 }, { 161,3457 }, { 162,3457 }, { 163,3457 },
- { 164,3457 }, { 165,3457 }, { 166,3457 }, { 167,3457 }, { 168,3457 },
- { 169,3457 }, { 170,3457 }, { 171,3457 }, { 172,3457 }, { 173,3457 },
- { 174,3457 }, { 175,3457 }, { 176,3457 }, { 177,3457 }, { 178,3457 },
- { 179,3457 }, { 180,3457 }, { 181,3457 }, { 182,3457 }, { 183,3457 },
-
- { 184,3457 }, { 185,3457 }, { 186,3457 }, { 187,3457 }, { 188,3457 },
- { 189,3457 }, { 190,3457 }, { 191,3457 }, { 192,3457 }, { 193,3457 },
- { 194,3457 }, { 195,3457 }, { 196,3457 }, { 197,3457 }, { 198,3457 },
- { 199,3457 }, { 200,3457 }, { 201,3457 }, { 202,3457 }, { 203,3457 },
- { 204,3457 }, { 205,3457 }, { 206,3457 }, { 207,3457 }, { 208,3457 },
- { 209,3457 }, { 210,3457 }, { 211,3457 }, { 212,3457 }, { 213,3457 },
- { 214,3457 }, { 215,3457 }, { 216,3457 }, { 217,3457 }, { 218,3457 },
- { 219,3457 }, { 220,3457 }, { 221,3457 }, { 222,3457 }, { 223,3457 },
- { 224,3457 }, { 225,3457 }, { 226,3457 }, { 227,3457 }, { 228,3457 },
- { 229,3457 }, { 230,3457 }, { 231,3457 }, { 232,3457 }, { 233,3457 },
-
- { 234,3457 }, { 235,3457 }, { 236,3457 }, { 237,3457 }, { 238,3457 },
- { 239,3457 }, { 240,3457 }, { 241,3457 }, { 242,3457 }, { 243,3457 },
- { 244,3457 }, { 245,3457 }, { 246,3457 }, { 247,3457 }, { 248,3457 },
- { 249,3457 }, { 250,3457 }, { 251,3457 }, { 252,3457 }, { 253,3457 },
- { 254,3457 }, { 255,3457 }, { 256,3457 }, {   0,  35 }, {   0,16380 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   9,3463 }, {  10,3463 },
- {   0,   0 }, {   0,   0 }, {  13,3463 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,  51 }, {   0,16362 }, {   0,  43 }, {   0,16360 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  46,3465 }, {  47,3463 }, {   0,  51 }, {   0,16331 }, {   0,  51 },
- {   0,16329 }, {   0,   7 }, {   0,16327 }, {   0,  14 }, {   0,16325 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  61,3463 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  51 }, {   0,16298 }, {   1,3117 }, {   2,3117 }, {   3,3117 },
- {   4,3117 }, {   5,3117 }, {   6,3117 }, {   7,3117 }, {   8,3117 },
- {   9,3387 }, {  10,3387 }, {  11,3117 }, {  12,3117 }, {  13,3387 },
- {  14,3117 }, {  15,3117 }, {  16,3117 }, {  17,3117 }, {  18,3117 },
- {  19,3117 }, {  20,3117 }, {  21,3117 }, {  22,3117 }, {  23,3117 },
- {  24,3117 }, {  25,3117 }, {  26,3117 }, {  27,3117 }, {  28,3117 },
- {  29,3117 }, {  30,3117 }, {  31,3117 }, {  32,3387 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,3117 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,3387 }, { 124,3463 }, { 125,3463 },
-
- { 126,3463 }, {  45,3117 }, {  46,4699 }, {  47,3092 }, {  48,4441 },
- {  49,4441 }, {  50,4441 }, {  51,4441 }, {  52,4441 }, {  53,4441 },
- {  54,4441 }, {  55,4441 }, {  56,4441 }, {  57,4441 }, {  58,3117 },
- { 123,6628 }, {   0,   0 }, {  61,3092 }, {   0,   0 }, {  63,3117 },
- {   0,   0 }, {  65,3117 }, {  66,3117 }, {  67,3117 }, {  68,3117 },
- {  69,3117 }, {  70,3117 }, {  71,3117 }, {  72,3117 }, {  73,3117 },
- {  74,3117 }, {  75,3117 }, {  76,3117 }, {  77,3117 }, {  78,3117 },
- {  79,3117 }, {  80,3117 }, {  81,3117 }, {  82,3117 }, {  83,3117 },
- {  84,3117 }, {  85,3117 }, {  86,3117 }, {  87,3117 }, {  88,3117 },
- {  89,3117 }, {  90,3117 }, {   0,   0 }, { 125,6599 }, { 126,6601 },
-
- { 125,6601 }, {  95,3117 }, {   0,   0 }, {  97,3117 }, {  98,3117 },
- {  99,3117 }, { 100,3117 }, { 101,3117 }, { 102,3117 }, { 103,3117 },
- { 104,3117 }, { 105,3117 }, { 106,3117 }, { 107,3117 }, { 108,3117 },
- { 109,3117 }, { 110,3117 }, { 111,3117 }, { 112,3117 }, { 113,3117 },
- { 114,3117 }, { 115,3117 }, { 116,3117 }, { 117,3117 }, { 118,3117 },
- { 119,3117 }, { 120,3117 }, { 121,3117 }, { 122,3117 }, {   0,   0 },
- { 124,3092 }, { 125,3387 }, { 126,3387 }, { 127,3117 }, { 128,3117 },
- { 129,3117 }, { 130,3117 }, { 131,3117 }, { 132,3117 }, { 133,3117 },
- { 134,3117 }, { 135,3117 }, { 136,3117 }, { 137,3117 }, { 138,3117 },
- { 139,3117 }, { 140,3117 }, { 141,3117 }, { 142,3117 }, { 143,3117 },
-
- { 144,3117 }, { 145,3117 }, { 146,3117 }, { 147,3117 }, { 148,3117 },
- { 149,3117 }, { 150,3117 }, { 151,3117 }, { 152,3117 }, { 153,3117 },
- { 154,3117 }, { 155,3117 }, { 156,3117 }, { 157,3117 }, { 158,3117 },
- { 159,3117 }, { 160,3117 }, { 161,3117 }, { 162,3117 }, { 163,3117 },
- { 164,3117 }, { 165,3117 }, { 166,3117 }, { 167,3117 }, { 168,3117 },
- { 169,3117 }, { 170,3117 }, { 171,3117 }, { 172,3117 }, { 173,3117 },
- { 174,3117 }, { 175,3117 }, { 176,3117 }, { 177,3117 }, { 178,3117 },
- { 179,3117 }, { 180,3117 }, { 181,3117 }, { 182,3117 }, { 183,3117 },
- { 184,3117 }, { 185,3117 }, { 186,3117 }, { 187,3117 }, { 188,3117 },
- { 189,3117 }, { 190,3117 }, { 191,3117 }, { 192,3117 }, { 193,3117 },
-
- { 194,3117 }, { 195,3117 }, { 196,3117 }, { 197,3117 }, { 198,3117 },
- { 199,3117 }, { 200,3117 }, { 201,3117 }, { 202,3117 }, { 203,3117 },
- { 204,3117 }, { 205,3117 }, { 206,3117 }, { 207,3117 }, { 208,3117 },
- { 209,3117 }, { 210,3117 }, { 211,3117 }, { 212,3117 }, { 213,3117 },
- { 214,3117 }, { 215,3117 }, { 216,3117 }, { 217,3117 }, { 218,3117 },
- { 219,3117 }, { 220,3117 }, { 221,3117 }, { 222,3117 }, { 223,3117 },
- { 224,3117 }, { 225,3117 }, { 226,3117 }, { 227,3117 }, { 228,3117 },
- { 229,3117 }, { 230,3117 }, { 231,3117 }, { 232,3117 }, { 233,3117 },
- { 234,3117 }, { 235,3117 }, { 236,3117 }, { 237,3117 }, { 238,3117 },
- { 239,3117 }, { 240,3117 }, { 241,3117 }, { 242,3117 }, { 243,3117 },
-
- { 244,3117 }, { 245,3117 }, { 246,3117 }, { 247,3117 }, { 248,3117 },
- { 249,3117 }, { 250,3117 }, { 251,3117 }, { 252,3117 }, { 253,3117 },
- { 254,3117 }, { 255,3117 }, { 256,3117 }, {   0,  51 }, {   0,16040 },
- {   1,4500 }, {   2,4500 }, {   3,4500 }, {   4,4500 }, {   5,4500 },
- {   6,4500 }, {   7,4500 }, {   8,4500 }, {   9,4500 }, {  10,4500 },
- {  11,4500 }, {  12,4500 }, {  13,4500 }, {  14,4500 }, {  15,4500 },
- {  16,4500 }, {  17,4500 }, {  18,4500 }, {  19,4500 }, {  20,4500 },
- {  21,4500 }, {  22,4500 }, {  23,4500 }, {  24,4500 }, {  25,4500 },
- {  26,4500 }, {  27,4500 }, {  28,4500 }, {  29,4500 }, {  30,4500 },
- {  31,4500 }, {  32,4500 }, {  33,4500 }, {  34,4500 }, {  35,4500 },
-
- {  36,4500 }, {  37,4500 }, {  38,4500 }, {  39,4500 }, {  40,4500 },
- {  41,4500 }, {  42,4500 }, {  43,4500 }, {  44,4500 }, {  45,4500 },
- {  46,4500 }, {  47,4500 }, {  48,4500 }, {  49,4500 }, {  50,4500 },
- {  51,4500 }, {  52,4500 }, {  53,4500 }, {  54,4500 }, {  55,4500 },
- {  56,4500 }, {  57,4500 }, {  58,4500 }, {  59,4500 }, {  60,4500 },
- {  61,4500 }, {  62,4500 }, {  63,4500 }, {  64,4500 }, {  65,4500 },
- {  66,4500 }, {  67,4500 }, {  68,4500 }, {  69,4500 }, {  70,4500 },
- {  71,4500 }, {  72,4500 }, {  73,4500 }, {  74,4500 }, {  75,4500 },
- {  76,4500 }, {  77,4500 }, {  78,4500 }, {  79,4500 }, {  80,4500 },
- {  81,4500 }, {  82,4500 }, {  83,4500 }, {  84,4500 }, {  85,4500 },
-
- {  86,4500 }, {  87,4500 }, {  88,4500 }, {  89,4500 }, {  90,4500 },
- {  91,4500 }, {  92,4758 }, {  93,3132 }, {  94,4500 }, {  95,4500 },
- {  96,4500 }, {  97,4500 }, {  98,4500 }, {  99,4500 }, { 100,4500 },
- { 101,4500 }, { 102,4500 }, { 103,4500 }, { 104,4500 }, { 105,4500 },
- { 106,4500 }, { 107,4500 }, { 108,4500 }, { 109,4500 }, { 110,4500 },
- { 111,4500 }, { 112,4500 }, { 113,4500 }, { 114,4500 }, { 115,4500 },
- { 116,4500 }, { 117,4500 }, { 118,4500 }, { 119,4500 }, { 120,4500 },
- { 121,4500 }, { 122,4500 }, { 123,4500 }, { 124,4500 }, { 125,4500 },
- { 126,4500 }, { 127,4500 }, { 128,4500 }, { 129,4500 }, { 130,4500 },
- { 131,4500 }, { 132,4500 }, { 133,4500 }, { 134,4500 }, { 135,4500 },
-
- { 136,4500 }, { 137,4500 }, { 138,4500 }, { 139,4500 }, { 140,4500 },
- { 141,4500 }, { 142,4500 }, { 143,4500 }, { 144,4500 }, { 145,4500 },
- { 146,4500 }, { 147,4500 }, { 148,4500 }, { 149,4500 }, { 150,4500 },
- { 151,4500 }, { 152,4500 }, { 153,4500 }, { 154,4500 }, { 155,4500 },
- { 156,4500 }, { 157,4500 }, { 158,4500 }, { 159,4500 }, { 160,4500 },
- { 161,4500 }, { 162,4500 }, { 163,4500 }, { 164,4500 }, { 165,4500 },
- { 166,4500 }, { 167,4500 }, { 168,4500 }, { 169,4500 }, { 170,4500 },
- { 171,4500 }, { 172,4500 }, { 173,4500 }, { 174,4500 }, { 175,4500 },
- { 176,4500 }, { 177,4500 }, { 178,4500 }, { 179,4500 }, { 180,4500 },
- { 181,4500 }, { 182,4500 }, { 183,4500 }, { 184,4500 }, { 185,4500 },
-
- { 186,4500 }, { 187,4500 }, { 188,4500 }, { 189,4500 }, { 190,4500 },
- { 191,4500 }, { 192,4500 }, { 193,4500 }, { 194,4500 }, { 195,4500 },
- { 196,4500 }, { 197,4500 }, { 198,4500 }, { 199,4500 }, { 200,4500 },
- { 201,4500 }, { 202,4500 }, { 203,4500 }, { 204,4500 }, { 205,4500 },
- { 206,4500 }, { 207,4500 }, { 208,4500 }, { 209,4500 }, { 210,4500 },
- { 211,4500 }, { 212,4500 }, { 213,4500 }, { 214,4500 }, { 215,4500 },
- { 216,4500 }, { 217,4500 }, { 218,4500 }, { 219,4500 }, { 220,4500 },
- { 221,4500 }, { 222,4500 }, { 223,4500 }, { 224,4500 }, { 225,4500 },
- { 226,4500 }, { 227,4500 }, { 228,4500 }, { 229,4500 }, { 230,4500 },
- { 231,4500 }, { 232,4500 }, { 233,4500 }, { 234,4500 }, { 235,4500 },
-
- { 236,4500 }, { 237,4500 }, { 238,4500 }, { 239,4500 }, { 240,4500 },
- { 241,4500 }, { 242,4500 }, { 243,4500 }, { 244,4500 }, { 245,4500 },
- { 246,4500 }, { 247,4500 }, { 248,4500 }, { 249,4500 }, { 250,4500 },
- { 251,4500 }, { 252,4500 }, { 253,4500 }, { 254,4500 }, { 255,4500 },
- { 256,4500 }, {   0,  51 }, {   0,15782 }, {   1,2601 }, {   2,2601 },
- {   3,2601 }, {   4,2601 }, {   5,2601 }, {   6,2601 }, {   7,2601 },
- {   8,2601 }, {   9,2576 }, {  10,2576 }, {  11,2601 }, {  12,2601 },
- {  13,2576 }, {  14,2601 }, {  15,2601 }, {  16,2601 }, {  17,2601 },
- {  18,2601 }, {  19,2601 }, {  20,2601 }, {  21,2601 }, {  22,2601 },
- {  23,2601 }, {  24,2601 }, {  25,2601 }, {  26,2601 }, {  27,2601 },
-
- {  28,2601 }, {  29,2601 }, {  30,2601 }, {  31,2601 }, {  32,2576 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2601 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2576 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,2601 }, {  46,2576 }, {  47,2576 },
- {  48,2601 }, {  49,2601 }, {  50,2601 }, {  51,2601 }, {  52,2601 },
- {  53,2601 }, {  54,2601 }, {  55,2601 }, {  56,2601 }, {  57,2601 },
- {  58,2601 }, {   0,   0 }, {   0,   0 }, {  61,2576 }, {   0,   0 },
- {  63,2601 }, {   0,   0 }, {  65,2601 }, {  66,2601 }, {  67,2601 },
- {  68,2601 }, {  69,2601 }, {  70,2601 }, {  71,2601 }, {  72,2601 },
- {  73,2601 }, {  74,2601 }, {  75,2601 }, {  76,2601 }, {  77,2601 },
-
- {  78,2601 }, {  79,2601 }, {  80,2601 }, {  81,2601 }, {  82,2601 },
- {  83,2601 }, {  84,2601 }, {  85,2601 }, {  86,2601 }, {  87,2601 },
- {  88,2601 }, {  89,2601 }, {  90,2601 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,2601 }, {   0,   0 }, {  97,2601 },
- {  98,2601 }, {  99,2601 }, { 100,2601 }, { 101,2601 }, { 102,2601 },
- { 103,2601 }, { 104,2601 }, { 105,2601 }, { 106,2601 }, { 107,2601 },
- { 108,2601 }, { 109,2601 }, { 110,2601 }, { 111,2601 }, { 112,2601 },
- { 113,2601 }, { 114,2601 }, { 115,4758 }, { 116,2601 }, { 117,2601 },
- { 118,2601 }, { 119,2601 }, { 120,2601 }, { 121,2601 }, { 122,2601 },
- {   0,   0 }, { 124,2576 }, { 125,2576 }, { 126,2576 }, { 127,2601 },
-
- { 128,2601 }, { 129,2601 }, { 130,2601 }, { 131,2601 }, { 132,2601 },
- { 133,2601 }, { 134,2601 }, { 135,2601 }, { 136,2601 }, { 137,2601 },
- { 138,2601 }, { 139,2601 }, { 140,2601 }, { 141,2601 }, { 142,2601 },
- { 143,2601 }, { 144,2601 }, { 145,2601 }, { 146,2601 }, { 147,2601 },
- { 148,2601 }, { 149,2601 }, { 150,2601 }, { 151,2601 }, { 152,2601 },
- { 153,2601 }, { 154,2601 }, { 155,2601 }, { 156,2601 }, { 157,2601 },
- { 158,2601 }, { 159,2601 }, { 160,2601 }, { 161,2601 }, { 162,2601 },
- { 163,2601 }, { 164,2601 }, { 165,2601 }, { 166,2601 }, { 167,2601 },
- { 168,2601 }, { 169,2601 }, { 170,2601 }, { 171,2601 }, { 172,2601 },
- { 173,2601 }, { 174,2601 }, { 175,2601 }, { 176,2601 }, { 177,2601 },
-
- { 178,2601 }, { 179,2601 }, { 180,2601 }, { 181,2601 }, { 182,2601 },
- { 183,2601 }, { 184,2601 }, { 185,2601 }, { 186,2601 }, { 187,2601 },
- { 188,2601 }, { 189,2601 }, { 190,2601 }, { 191,2601 }, { 192,2601 },
- { 193,2601 }, { 194,2601 }, { 195,2601 }, { 196,2601 }, { 197,2601 },
- { 198,2601 }, { 199,2601 }, { 200,2601 }, { 201,2601 }, { 202,2601 },
- { 203,2601 }, { 204,2601 }, { 205,2601 }, { 206,2601 }, { 207,2601 },
- { 208,2601 }, { 209,2601 }, { 210,2601 }, { 211,2601 }, { 212,2601 },
- { 213,2601 }, { 214,2601 }, { 215,2601 }, { 216,2601 }, { 217,2601 },
- { 218,2601 }, { 219,2601 }, { 220,2601 }, { 221,2601 }, { 222,2601 },
- { 223,2601 }, { 224,2601 }, { 225,2601 }, { 226,2601 }, { 227,2601 },
-
- { 228,2601 }, { 229,2601 }, { 230,2601 }, { 231,2601 }, { 232,2601 },
- { 233,2601 }, { 234,2601 }, { 235,2601 }, { 236,2601 }, { 237,2601 },
- { 238,2601 }, { 239,2601 }, { 240,2601 }, { 241,2601 }, { 242,2601 },
- { 243,2601 }, { 244,2601 }, { 245,2601 }, { 246,2601 }, { 247,2601 },
- { 248,2601 }, { 249,2601 }, { 250,2601 }, { 251,2601 }, { 252,2601 },
- { 253,2601 }, { 254,2601 }, { 255,2601 }, { 256,2601 }, {   0,  51 },
- {   0,15524 }, {   1,2343 }, {   2,2343 }, {   3,2343 }, {   4,2343 },
- {   5,2343 }, {   6,2343 }, {   7,2343 }, {   8,2343 }, {   9,2318 },
- {  10,2318 }, {  11,2343 }, {  12,2343 }, {  13,2318 }, {  14,2343 },
- {  15,2343 }, {  16,2343 }, {  17,2343 }, {  18,2343 }, {  19,2343 },
-
- {  20,2343 }, {  21,2343 }, {  22,2343 }, {  23,2343 }, {  24,2343 },
- {  25,2343 }, {  26,2343 }, {  27,2343 }, {  28,2343 }, {  29,2343 },
- {  30,2343 }, {  31,2343 }, {  32,2318 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,2343 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,2318 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,2343 }, {  46,2318 }, {  47,2318 }, {  48,2343 }, {  49,2343 },
- {  50,2343 }, {  51,2343 }, {  52,2343 }, {  53,2343 }, {  54,2343 },
- {  55,2343 }, {  56,2343 }, {  57,2343 }, {  58,2343 }, {   0,   0 },
- {   0,   0 }, {  61,2318 }, {   0,   0 }, {  63,2343 }, {   0,   0 },
- {  65,2343 }, {  66,2343 }, {  67,2343 }, {  68,2343 }, {  69,2343 },
-
- {  70,2343 }, {  71,2343 }, {  72,2343 }, {  73,2343 }, {  74,2343 },
- {  75,2343 }, {  76,2343 }, {  77,2343 }, {  78,2343 }, {  79,2343 },
- {  80,2343 }, {  81,2343 }, {  82,2343 }, {  83,2343 }, {  84,2343 },
- {  85,2343 }, {  86,2343 }, {  87,2343 }, {  88,2343 }, {  89,2343 },
- {  90,2343 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,2343 }, {   0,   0 }, {  97,4758 }, {  98,2343 }, {  99,2343 },
- { 100,2343 }, { 101,2343 }, { 102,2343 }, { 103,2343 }, { 104,2343 },
- { 105,2343 }, { 106,2343 }, { 107,2343 }, { 108,2343 }, { 109,2343 },
- { 110,2343 }, { 111,2343 }, { 112,2343 }, { 113,2343 }, { 114,2343 },
- { 115,2343 }, { 116,2343 }, { 117,2343 }, { 118,2343 }, { 119,2343 },
-
- { 120,2343 }, { 121,2343 }, { 122,2343 }, {   0,   0 }, { 124,2318 },
- { 125,2318 }, { 126,2318 }, { 127,2343 }, { 128,2343 }, { 129,2343 },
- { 130,2343 }, { 131,2343 }, { 132,2343 }, { 133,2343 }, { 134,2343 },
- { 135,2343 }, { 136,2343 }, { 137,2343 }, { 138,2343 }, { 139,2343 },
- { 140,2343 }, { 141,2343 }, { 142,2343 }, { 143,2343 }, { 144,2343 },
- { 145,2343 }, { 146,2343 }, { 147,2343 }, { 148,2343 }, { 149,2343 },
- { 150,2343 }, { 151,2343 }, { 152,2343 }, { 153,2343 }, { 154,2343 },
- { 155,2343 }, { 156,2343 }, { 157,2343 }, { 158,2343 }, { 159,2343 },
- { 160,2343 }, { 161,2343 }, { 162,2343 }, { 163,2343 }, { 164,2343 },
- { 165,2343 }, { 166,2343 }, { 167,2343 }, { 168,2343 }, { 169,2343 },
-
- { 170,2343 }, { 171,2343 }, { 172,2343 }, { 173,2343 }, { 174,2343 },
- { 175,2343 }, { 176,2343 }, { 177,2343 }, { 178,2343 }, { 179,2343 },
- { 180,2343 }, { 181,2343 }, { 182,2343 }, { 183,2343 }, { 184,2343 },
- { 185,2343 }, { 186,2343 }, { 187,2343 }, { 188,2343 }, { 189,2343 },
- { 190,2343 }, { 191,2343 }, { 192,2343 }, { 193,2343 }, { 194,2343 },
- { 195,2343 }, { 196,2343 }, { 197,2343 }, { 198,2343 }, { 199,2343 },
- { 200,2343 }, { 201,2343 }, { 202,2343 }, { 203,2343 }, { 204,2343 },
- { 205,2343 }, { 206,2343 }, { 207,2343 }, { 208,2343 }, { 209,2343 },
- { 210,2343 }, { 211,2343 }, { 212,2343 }, { 213,2343 }, { 214,2343 },
- { 215,2343 }, { 216,2343 }, { 217,2343 }, { 218,2343 }, { 219,2343 },
-
- { 220,2343 }, { 221,2343 }, { 222,2343 }, { 223,2343 }, { 224,2343 },
- { 225,2343 }, { 226,2343 }, { 227,2343 }, { 228,2343 }, { 229,2343 },
- { 230,2343 }, { 231,2343 }, { 232,2343 }, { 233,2343 }, { 234,2343 },
- { 235,2343 }, { 236,2343 }, { 237,2343 }, { 238,2343 }, { 239,2343 },
- { 240,2343 }, { 241,2343 }, { 242,2343 }, { 243,2343 }, { 244,2343 },
- { 245,2343 }, { 246,2343 }, { 247,2343 }, { 248,2343 }, { 249,2343 },
- { 250,2343 }, { 251,2343 }, { 252,2343 }, { 253,2343 }, { 254,2343 },
- { 255,2343 }, { 256,2343 }, {   0,  51 }, {   0,15266 }, {   1,2085 },
- {   2,2085 }, {   3,2085 }, {   4,2085 }, {   5,2085 }, {   6,2085 },
- {   7,2085 }, {   8,2085 }, {   9,2060 }, {  10,2060 }, {  11,2085 },
-
- {  12,2085 }, {  13,2060 }, {  14,2085 }, {  15,2085 }, {  16,2085 },
- {  17,2085 }, {  18,2085 }, {  19,2085 }, {  20,2085 }, {  21,2085 },
- {  22,2085 }, {  23,2085 }, {  24,2085 }, {  25,2085 }, {  26,2085 },
- {  27,2085 }, {  28,2085 }, {  29,2085 }, {  30,2085 }, {  31,2085 },
- {  32,2060 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,2085 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,2060 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2085 }, {  46,2060 },
- {  47,2060 }, {  48,2085 }, {  49,2085 }, {  50,2085 }, {  51,2085 },
- {  52,2085 }, {  53,2085 }, {  54,2085 }, {  55,2085 }, {  56,2085 },
- {  57,2085 }, {  58,2085 }, {   0,   0 }, {   0,   0 }, {  61,2060 },
-
- {   0,   0 }, {  63,2085 }, {   0,   0 }, {  65,2085 }, {  66,2085 },
- {  67,2085 }, {  68,2085 }, {  69,2085 }, {  70,2085 }, {  71,2085 },
- {  72,2085 }, {  73,2085 }, {  74,2085 }, {  75,2085 }, {  76,2085 },
- {  77,2085 }, {  78,2085 }, {  79,2085 }, {  80,2085 }, {  81,2085 },
- {  82,2085 }, {  83,2085 }, {  84,2085 }, {  85,2085 }, {  86,2085 },
- {  87,2085 }, {  88,2085 }, {  89,2085 }, {  90,2085 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,2085 }, {   0,   0 },
- {  97,2085 }, {  98,2085 }, {  99,2085 }, { 100,2085 }, { 101,2085 },
- { 102,2085 }, { 103,2085 }, { 104,2085 }, { 105,2085 }, { 106,2085 },
- { 107,2085 }, { 108,2085 }, { 109,2085 }, { 110,2085 }, { 111,2085 },
-
- { 112,2085 }, { 113,2085 }, { 114,2085 }, { 115,2085 }, { 116,2085 },
- { 117,4758 }, { 118,2085 }, { 119,2085 }, { 120,2085 }, { 121,2085 },
- { 122,2085 }, {   0,   0 }, { 124,2060 }, { 125,2060 }, { 126,2060 },
- { 127,2085 }, { 128,2085 }, { 129,2085 }, { 130,2085 }, { 131,2085 },
- { 132,2085 }, { 133,2085 }, { 134,2085 }, { 135,2085 }, { 136,2085 },
- { 137,2085 }, { 138,2085 }, { 139,2085 }, { 140,2085 }, { 141,2085 },
- { 142,2085 }, { 143,2085 }, { 144,2085 }, { 145,2085 }, { 146,2085 },
- { 147,2085 }, { 148,2085 }, { 149,2085 }, { 150,2085 }, { 151,2085 },
- { 152,2085 }, { 153,2085 }, { 154,2085 }, { 155,2085 }, { 156,2085 },
- { 157,2085 }, { 158,2085 }, { 159,2085 }, { 160,2085 }, { 161,2085 },
-
- { 162,2085 }, { 163,2085 }, { 164,2085 }, { 165,2085 }, { 166,2085 },
- { 167,2085 }, { 168,2085 }, { 169,2085 }, { 170,2085 }, { 171,2085 },
- { 172,2085 }, { 173,2085 }, { 174,2085 }, { 175,2085 }, { 176,2085 },
- { 177,2085 }, { 178,2085 }, { 179,2085 }, { 180,2085 }, { 181,2085 },
- { 182,2085 }, { 183,2085 }, { 184,2085 }, { 185,2085 }, { 186,2085 },
- { 187,2085 }, { 188,2085 }, { 189,2085 }, { 190,2085 }, { 191,2085 },
- { 192,2085 }, { 193,2085 }, { 194,2085 }, { 195,2085 }, { 196,2085 },
- { 197,2085 }, { 198,2085 }, { 199,2085 }, { 200,2085 }, { 201,2085 },
- { 202,2085 }, { 203,2085 }, { 204,2085 }, { 205,2085 }, { 206,2085 },
- { 207,2085 }, { 208,2085 }, { 209,2085 }, { 210,2085 }, { 211,2085 },
-
- { 212,2085 }, { 213,2085 }, { 214,2085 }, { 215,2085 }, { 216,2085 },
- { 217,2085 }, { 218,2085 }, { 219,2085 }, { 220,2085 }, { 221,2085 },
- { 222,2085 }, { 223,2085 }, { 224,2085 }, { 225,2085 }, { 226,2085 },
- { 227,2085 }, { 228,2085 }, { 229,2085 }, { 230,2085 }, { 231,2085 },
- { 232,2085 }, { 233,2085 }, { 234,2085 }, { 235,2085 }, { 236,2085 },
- { 237,2085 }, { 238,2085 }, { 239,2085 }, { 240,2085 }, { 241,2085 },
- { 242,2085 }, { 243,2085 }, { 244,2085 }, { 245,2085 }, { 246,2085 },
- { 247,2085 }, { 248,2085 }, { 249,2085 }, { 250,2085 }, { 251,2085 },
- { 252,2085 }, { 253,2085 }, { 254,2085 }, { 255,2085 }, { 256,2085 },
- {   0,  51 }, {   0,15008 }, {   1,1827 }, {   2,1827 }, {   3,1827 },
-
- {   4,1827 }, {   5,1827 }, {   6,1827 }, {   7,1827 }, {   8,1827 },
- {   9,1802 }, {  10,1802 }, {  11,1827 }, {  12,1827 }, {  13,1802 },
- {  14,1827 }, {  15,1827 }, {  16,1827 }, {  17,1827 }, {  18,1827 },
- {  19,1827 }, {  20,1827 }, {  21,1827 }, {  22,1827 }, {  23,1827 },
- {  24,1827 }, {  25,1827 }, {  26,1827 }, {  27,1827 }, {  28,1827 },
- {  29,1827 }, {  30,1827 }, {  31,1827 }, {  32,1802 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,1827 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1802 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,1827 }, {  46,1802 }, {  47,1802 }, {  48,1827 },
- {  49,1827 }, {  50,1827 }, {  51,1827 }, {  52,1827 }, {  53,1827 },
-
- {  54,1827 }, {  55,1827 }, {  56,1827 }, {  57,1827 }, {  58,1827 },
- {   0,   0 }, {   0,   0 }, {  61,1802 }, {   0,   0 }, {  63,1827 },
- {   0,   0 }, {  65,1827 }, {  66,1827 }, {  67,1827 }, {  68,1827 },
- {  69,1827 }, {  70,1827 }, {  71,1827 }, {  72,1827 }, {  73,1827 },
- {  74,1827 }, {  75,1827 }, {  76,1827 }, {  77,1827 }, {  78,1827 },
- {  79,1827 }, {  80,1827 }, {  81,1827 }, {  82,1827 }, {  83,1827 },
- {  84,1827 }, {  85,1827 }, {  86,1827 }, {  87,1827 }, {  88,1827 },
- {  89,1827 }, {  90,1827 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,1827 }, {   0,   0 }, {  97,1827 }, {  98,1827 },
- {  99,1827 }, { 100,1827 }, { 101,1827 }, { 102,1827 }, { 103,1827 },
-
- { 104,1827 }, { 105,1827 }, { 106,1827 }, { 107,1827 }, { 108,1827 },
- { 109,1827 }, { 110,1827 }, { 111,1827 }, { 112,1827 }, { 113,1827 },
- { 114,4758 }, { 115,1827 }, { 116,1827 }, { 117,1827 }, { 118,1827 },
- { 119,1827 }, { 120,1827 }, { 121,1827 }, { 122,1827 }, {   0,   0 },
- { 124,1802 }, { 125,1802 }, { 126,1802 }, { 127,1827 }, { 128,1827 },
- { 129,1827 }, { 130,1827 }, { 131,1827 }, { 132,1827 }, { 133,1827 },
- { 134,1827 }, { 135,1827 }, { 136,1827 }, { 137,1827 }, { 138,1827 },
- { 139,1827 }, { 140,1827 }, { 141,1827 }, { 142,1827 }, { 143,1827 },
- { 144,1827 }, { 145,1827 }, { 146,1827 }, { 147,1827 }, { 148,1827 },
- { 149,1827 }, { 150,1827 }, { 151,1827 }, { 152,1827 }, { 153,1827 },
-
- { 154,1827 }, { 155,1827 }, { 156,1827 }, { 157,1827 }, { 158,1827 },
- { 159,1827 }, { 160,1827 }, { 161,1827 }, { 162,1827 }, { 163,1827 },
- { 164,1827 }, { 165,1827 }, { 166,1827 }, { 167,1827 }, { 168,1827 },
- { 169,1827 }, { 170,1827 }, { 171,1827 }, { 172,1827 }, { 173,1827 },
- { 174,1827 }, { 175,1827 }, { 176,1827 }, { 177,1827 }, { 178,1827 },
- { 179,1827 }, { 180,1827 }, { 181,1827 }, { 182,1827 }, { 183,1827 },
- { 184,1827 }, { 185,1827 }, { 186,1827 }, { 187,1827 }, { 188,1827 },
- { 189,1827 }, { 190,1827 }, { 191,1827 }, { 192,1827 }, { 193,1827 },
- { 194,1827 }, { 195,1827 }, { 196,1827 }, { 197,1827 }, { 198,1827 },
- { 199,1827 }, { 200,1827 }, { 201,1827 }, { 202,1827 }, { 203,1827 },
-
- { 204,1827 }, { 205,1827 }, { 206,1827 }, { 207,1827 }, { 208,1827 },
- { 209,1827 }, { 210,1827 }, { 211,1827 }, { 212,1827 }, { 213,1827 },
- { 214,1827 }, { 215,1827 }, { 216,1827 }, { 217,1827 }, { 218,1827 },
- { 219,1827 }, { 220,1827 }, { 221,1827 }, { 222,1827 }, { 223,1827 },
- { 224,1827 }, { 225,1827 }, { 226,1827 }, { 227,1827 }, { 228,1827 },
- { 229,1827 }, { 230,1827 }, { 231,1827 }, { 232,1827 }, { 233,1827 },
- { 234,1827 }, { 235,1827 }, { 236,1827 }, { 237,1827 }, { 238,1827 },
- { 239,1827 }, { 240,1827 }, { 241,1827 }, { 242,1827 }, { 243,1827 },
- { 244,1827 }, { 245,1827 }, { 246,1827 }, { 247,1827 }, { 248,1827 },
- { 249,1827 }, { 250,1827 }, { 251,1827 }, { 252,1827 }, { 253,1827 },
-
- { 254,1827 }, { 255,1827 }, { 256,1827 }, {   0,  51 }, {   0,14750 },
- {   1,1569 }, {   2,1569 }, {   3,1569 }, {   4,1569 }, {   5,1569 },
- {   6,1569 }, {   7,1569 }, {   8,1569 }, {   9,1544 }, {  10,1544 },
- {  11,1569 }, {  12,1569 }, {  13,1544 }, {  14,1569 }, {  15,1569 },
- {  16,1569 }, {  17,1569 }, {  18,1569 }, {  19,1569 }, {  20,1569 },
- {  21,1569 }, {  22,1569 }, {  23,1569 }, {  24,1569 }, {  25,1569 },
- {  26,1569 }, {  27,1569 }, {  28,1569 }, {  29,1569 }, {  30,1569 },
- {  31,1569 }, {  32,1544 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,1569 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,1544 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,1569 },
-
- {  46,1544 }, {  47,1544 }, {  48,1569 }, {  49,1569 }, {  50,1569 },
- {  51,1569 }, {  52,1569 }, {  53,1569 }, {  54,1569 }, {  55,1569 },
- {  56,1569 }, {  57,1569 }, {  58,1569 }, {   0,   0 }, {   0,   0 },
- {  61,1544 }, {   0,   0 }, {  63,1569 }, {   0,   0 }, {  65,1569 },
- {  66,1569 }, {  67,1569 }, {  68,1569 }, {  69,1569 }, {  70,1569 },
- {  71,1569 }, {  72,1569 }, {  73,1569 }, {  74,1569 }, {  75,1569 },
- {  76,1569 }, {  77,1569 }, {  78,1569 }, {  79,1569 }, {  80,1569 },
- {  81,1569 }, {  82,1569 }, {  83,1569 }, {  84,1569 }, {  85,1569 },
- {  86,1569 }, {  87,1569 }, {  88,1569 }, {  89,1569 }, {  90,1569 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,1569 },
-
- {   0,   0 }, {  97,1569 }, {  98,1569 }, {  99,1569 }, { 100,1569 },
- { 101,1569 }, { 102,1569 }, { 103,1569 }, { 104,1569 }, { 105,1569 },
- { 106,1569 }, { 107,1569 }, { 108,1569 }, { 109,1569 }, { 110,4758 },
- { 111,1569 }, { 112,1569 }, { 113,1569 }, { 114,1569 }, { 115,1569 },
- { 116,1569 }, { 117,1569 }, { 118,1569 }, { 119,1569 }, { 120,1569 },
- { 121,1569 }, { 122,1569 }, {   0,   0 }, { 124,1544 }, { 125,1544 },
- { 126,1544 }, { 127,1569 }, { 128,1569 }, { 129,1569 }, { 130,1569 },
- { 131,1569 }, { 132,1569 }, { 133,1569 }, { 134,1569 }, { 135,1569 },
- { 136,1569 }, { 137,1569 }, { 138,1569 }, { 139,1569 }, { 140,1569 },
- { 141,1569 }, { 142,1569 }, { 143,1569 }, { 144,1569 }, { 145,1569 },
-
- { 146,1569 }, { 147,1569 }, { 148,1569 }, { 149,1569 }, { 150,1569 },
- { 151,1569 }, { 152,1569 }, { 153,1569 }, { 154,1569 }, { 155,1569 },
- { 156,1569 }, { 157,1569 }, { 158,1569 }, { 159,1569 }, { 160,1569 },
- { 161,1569 }, { 162,1569 }, { 163,1569 }, { 164,1569 }, { 165,1569 },
- { 166,1569 }, { 167,1569 }, { 168,1569 }, { 169,1569 }, { 170,1569 },
- { 171,1569 }, { 172,1569 }, { 173,1569 }, { 174,1569 }, { 175,1569 },
- { 176,1569 }, { 177,1569 }, { 178,1569 }, { 179,1569 }, { 180,1569 },
- { 181,1569 }, { 182,1569 }, { 183,1569 }, { 184,1569 }, { 185,1569 },
- { 186,1569 }, { 187,1569 }, { 188,1569 }, { 189,1569 }, { 190,1569 },
- { 191,1569 }, { 192,1569 }, { 193,1569 }, { 194,1569 }, { 195,1569 },
-
- { 196,1569 }, { 197,1569 }, { 198,1569 }, { 199,1569 }, { 200,1569 },
- { 201,1569 }, { 202,1569 }, { 203,1569 }, { 204,1569 }, { 205,1569 },
- { 206,1569 }, { 207,1569 }, { 208,1569 }, { 209,1569 }, { 210,1569 },
- { 211,1569 }, { 212,1569 }, { 213,1569 }, { 214,1569 }, { 215,1569 },
- { 216,1569 }, { 217,1569 }, { 218,1569 }, { 219,1569 }, { 220,1569 },
- { 221,1569 }, { 222,1569 }, { 223,1569 }, { 224,1569 }, { 225,1569 },
- { 226,1569 }, { 227,1569 }, { 228,1569 }, { 229,1569 }, { 230,1569 },
- { 231,1569 }, { 232,1569 }, { 233,1569 }, { 234,1569 }, { 235,1569 },
- { 236,1569 }, { 237,1569 }, { 238,1569 }, { 239,1569 }, { 240,1569 },
- { 241,1569 }, { 242,1569 }, { 243,1569 }, { 244,1569 }, { 245,1569 },
-
- { 246,1569 }, { 247,1569 }, { 248,1569 }, { 249,1569 }, { 250,1569 },
- { 251,1569 }, { 252,1569 }, { 253,1569 }, { 254,1569 }, { 255,1569 },
- { 256,1569 }, {   0,  14 }, {   0,14492 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 123,4766 }, {   0,  14 }, {   0,14367 }, {   1,4769 }, {   2,4769 },
- {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 }, {   7,4769 },
- {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 }, {  12,4769 },
-
- {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 }, {  17,4769 },
- {  18,4769 }, {  19,4769 }, {  20,4769 }, {  21,4769 }, {  22,4769 },
- {  23,4769 }, {  24,4769 }, {  25,4769 }, {  26,4769 }, {  27,4769 },
- {  28,4769 }, {  29,4769 }, {  30,4769 }, {  31,4769 }, {  32,4769 },
- {  33,4769 }, {  34,4769 }, {  35,4769 }, {  36,4769 }, {  37,4769 },
- {  38,4769 }, {  39,4769 }, {  40,4769 }, {  41,4769 }, {  42,4769 },
- {  43,4769 }, {  44,4769 }, {  45,4769 }, {  46,4769 }, {  47,4769 },
- {  48,4769 }, {  49,4769 }, {  50,4769 }, {  51,4769 }, {  52,4769 },
- {  53,4769 }, {  54,4769 }, {  55,4769 }, {  56,4769 }, {  57,4769 },
- {  58,4769 }, {  59,4769 }, {  60,4769 }, {  61,4769 }, {  62,4769 },
-
- {  63,4769 }, {  64,4769 }, {  65,4769 }, {  66,4769 }, {  67,4769 },
- {  68,4769 }, {  69,4769 }, {  70,4769 }, {  71,4769 }, {  72,4769 },
- {  73,4769 }, {  74,4769 }, {  75,4769 }, {  76,4769 }, {  77,4769 },
- {  78,4769 }, {  79,4769 }, {  80,4769 }, {  81,4769 }, {  82,4769 },
- {  83,4769 }, {  84,4769 }, {  85,4769 }, {  86,4769 }, {  87,4769 },
- {  88,4769 }, {  89,4769 }, {  90,4769 }, {  91,4769 }, {  92,4769 },
- {  93,4769 }, {  94,4769 }, {  95,4769 }, {  96,4769 }, {  97,4769 },
- {  98,4769 }, {  99,4769 }, { 100,4769 }, { 101,4769 }, { 102,4769 },
- { 103,4769 }, { 104,4769 }, { 105,4769 }, { 106,4769 }, { 107,4769 },
- { 108,4769 }, { 109,4769 }, { 110,4769 }, { 111,4769 }, { 112,4769 },
-
- { 113,4769 }, { 114,4769 }, { 115,4769 }, { 116,4769 }, { 117,4769 },
- { 118,4769 }, { 119,4769 }, { 120,4769 }, { 121,4769 }, { 122,4769 },
- { 123,4769 }, { 124,4769 }, { 125,5027 }, { 126,4769 }, { 127,4769 },
- { 128,4769 }, { 129,4769 }, { 130,4769 }, { 131,4769 }, { 132,4769 },
- { 133,4769 }, { 134,4769 }, { 135,4769 }, { 136,4769 }, { 137,4769 },
- { 138,4769 }, { 139,4769 }, { 140,4769 }, { 141,4769 }, { 142,4769 },
- { 143,4769 }, { 144,4769 }, { 145,4769 }, { 146,4769 }, { 147,4769 },
- { 148,4769 }, { 149,4769 }, { 150,4769 }, { 151,4769 }, { 152,4769 },
- { 153,4769 }, { 154,4769 }, { 155,4769 }, { 156,4769 }, { 157,4769 },
- { 158,4769 }, { 159,4769 }, { 160,4769 }, { 161,4769 }, { 162,4769 },
-
- { 163,4769 }, { 164,4769 }, { 165,4769 }, { 166,4769 }, { 167,4769 },
- { 168,4769 }, { 169,4769 }, { 170,4769 }, { 171,4769 }, { 172,4769 },
- { 173,4769 }, { 174,4769 }, { 175,4769 }, { 176,4769 }, { 177,4769 },
- { 178,4769 }, { 179,4769 }, { 180,4769 }, { 181,4769 }, { 182,4769 },
- { 183,4769 }, { 184,4769 }, { 185,4769 }, { 186,4769 }, { 187,4769 },
- { 188,4769 }, { 189,4769 }, { 190,4769 }, { 191,4769 }, { 192,4769 },
- { 193,4769 }, { 194,4769 }, { 195,4769 }, { 196,4769 }, { 197,4769 },
- { 198,4769 }, { 199,4769 }, { 200,4769 }, { 201,4769 }, { 202,4769 },
- { 203,4769 }, { 204,4769 }, { 205,4769 }, { 206,4769 }, { 207,4769 },
- { 208,4769 }, { 209,4769 }, { 210,4769 }, { 211,4769 }, { 212,4769 },
-
- { 213,4769 }, { 214,4769 }, { 215,4769 }, { 216,4769 }, { 217,4769 },
- { 218,4769 }, { 219,4769 }, { 220,4769 }, { 221,4769 }, { 222,4769 },
- { 223,4769 }, { 224,4769 }, { 225,4769 }, { 226,4769 }, { 227,4769 },
- { 228,4769 }, { 229,4769 }, { 230,4769 }, { 231,4769 }, { 232,4769 },
- { 233,4769 }, { 234,4769 }, { 235,4769 }, { 236,4769 }, { 237,4769 },
- { 238,4769 }, { 239,4769 }, { 240,4769 }, { 241,4769 }, { 242,4769 },
- { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 }, { 247,4769 },
- { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 }, { 252,4769 },
- { 253,4769 }, { 254,4769 }, { 255,4769 }, { 256,4769 }, {   0,  14 },
- {   0,14109 }, {   1,4511 }, {   2,4511 }, {   3,4511 }, {   4,4511 },
-
- {   5,4511 }, {   6,4511 }, {   7,4511 }, {   8,4511 }, {   9,4511 },
- {  10,4511 }, {  11,4511 }, {  12,4511 }, {  13,4511 }, {  14,4511 },
- {  15,4511 }, {  16,4511 }, {  17,4511 }, {  18,4511 }, {  19,4511 },
- {  20,4511 }, {  21,4511 }, {  22,4511 }, {  23,4511 }, {  24,4511 },
- {  25,4511 }, {  26,4511 }, {  27,4511 }, {  28,4511 }, {  29,4511 },
- {  30,4511 }, {  31,4511 }, {  32,4511 }, {  33,4511 }, {  34,4511 },
- {  35,4511 }, {  36,4511 }, {  37,4511 }, {  38,4511 }, {  39,4511 },
- {  40,4511 }, {  41,4511 }, {  42,4511 }, {  43,4511 }, {  44,4511 },
- {  45,4511 }, {  46,4511 }, {  47,4511 }, {  48,4511 }, {  49,4511 },
- {  50,4511 }, {  51,4511 }, {  52,4511 }, {  53,4511 }, {  54,4511 },
-
- {  55,4511 }, {  56,4511 }, {  57,4511 }, {  58,4511 }, {  59,4511 },
- {  60,4511 }, {  61,4511 }, {  62,4511 }, {  63,4511 }, {  64,4511 },
- {  65,4511 }, {  66,4511 }, {  67,4511 }, {  68,4511 }, {  69,4511 },
- {  70,4511 }, {  71,4511 }, {  72,4511 }, {  73,4511 }, {  74,4511 },
- {  75,4511 }, {  76,4511 }, {  77,4511 }, {  78,4511 }, {  79,4511 },
- {  80,4511 }, {  81,4511 }, {  82,4511 }, {  83,4511 }, {  84,4511 },
- {  85,4511 }, {  86,4511 }, {  87,4511 }, {  88,4511 }, {  89,4511 },
- {  90,4511 }, {  91,4511 }, {  92,4511 }, {  93,4511 }, {  94,4511 },
- {  95,4511 }, {  96,4511 }, {  97,4511 }, {  98,4511 }, {  99,4511 },
- { 100,4511 }, { 101,4511 }, { 102,4511 }, { 103,4511 }, { 104,4511 },
-
- { 105,4511 }, { 106,4511 }, { 107,4511 }, { 108,4511 }, { 109,4511 },
- { 110,4511 }, { 111,4511 }, { 112,4511 }, { 113,4511 }, { 114,4511 },
- { 115,4511 }, { 116,4511 }, { 117,4511 }, { 118,4511 }, { 119,4511 },
- { 120,4511 }, { 121,4511 }, { 122,4511 }, { 123,4511 }, { 124,4511 },
- { 125,4387 }, { 126,4511 }, { 127,4511 }, { 128,4511 }, { 129,4511 },
- { 130,4511 }, { 131,4511 }, { 132,4511 }, { 133,4511 }, { 134,4511 },
- { 135,4511 }, { 136,4511 }, { 137,4511 }, { 138,4511 }, { 139,4511 },
- { 140,4511 }, { 141,4511 }, { 142,4511 }, { 143,4511 }, { 144,4511 },
- { 145,4511 }, { 146,4511 }, { 147,4511 }, { 148,4511 }, { 149,4511 },
- { 150,4511 }, { 151,4511 }, { 152,4511 }, { 153,4511 }, { 154,4511 },
-
- { 155,4511 }, { 156,4511 }, { 157,4511 }, { 158,4511 }, { 159,4511 },
- { 160,4511 }, { 161,4511 }, { 162,4511 }, { 163,4511 }, { 164,4511 },
- { 165,4511 }, { 166,4511 }, { 167,4511 }, { 168,4511 }, { 169,4511 },
- { 170,4511 }, { 171,4511 }, { 172,4511 }, { 173,4511 }, { 174,4511 },
- { 175,4511 }, { 176,4511 }, { 177,4511 }, { 178,4511 }, { 179,4511 },
- { 180,4511 }, { 181,4511 }, { 182,4511 }, { 183,4511 }, { 184,4511 },
- { 185,4511 }, { 186,4511 }, { 187,4511 }, { 188,4511 }, { 189,4511 },
- { 190,4511 }, { 191,4511 }, { 192,4511 }, { 193,4511 }, { 194,4511 },
- { 195,4511 }, { 196,4511 }, { 197,4511 }, { 198,4511 }, { 199,4511 },
- { 200,4511 }, { 201,4511 }, { 202,4511 }, { 203,4511 }, { 204,4511 },
-
- { 205,4511 }, { 206,4511 }, { 207,4511 }, { 208,4511 }, { 209,4511 },
- { 210,4511 }, { 211,4511 }, { 212,4511 }, { 213,4511 }, { 214,4511 },
- { 215,4511 }, { 216,4511 }, { 217,4511 }, { 218,4511 }, { 219,4511 },
- { 220,4511 }, { 221,4511 }, { 222,4511 }, { 223,4511 }, { 224,4511 },
- { 225,4511 }, { 226,4511 }, { 227,4511 }, { 228,4511 }, { 229,4511 },
- { 230,4511 }, { 231,4511 }, { 232,4511 }, { 233,4511 }, { 234,4511 },
- { 235,4511 }, { 236,4511 }, { 237,4511 }, { 238,4511 }, { 239,4511 },
- { 240,4511 }, { 241,4511 }, { 242,4511 }, { 243,4511 }, { 244,4511 },
- { 245,4511 }, { 246,4511 }, { 247,4511 }, { 248,4511 }, { 249,4511 },
- { 250,4511 }, { 251,4511 }, { 252,4511 }, { 253,4511 }, { 254,4511 },
-
- { 255,4511 }, { 256,4511 }, {   0,  10 }, {   0,13851 }, {   1,4769 },
- {   2,4769 }, {   3,4769 }, {   4,4769 }, {   5,4769 }, {   6,4769 },
- {   7,4769 }, {   8,4769 }, {   9,4769 }, {  10,4769 }, {  11,4769 },
- {  12,4769 }, {  13,4769 }, {  14,4769 }, {  15,4769 }, {  16,4769 },
- {  17,4769 }, {  18,4769 }, {  19,4769 }, {  20,4769 }, {  21,4769 },
- {  22,4769 }, {  23,4769 }, {  24,4769 }, {  25,4769 }, {  26,4769 },
- {  27,4769 }, {  28,4769 }, {  29,4769 }, {  30,4769 }, {  31,4769 },
- {  32,4769 }, {  33,4769 }, {  34,4769 }, {  35,4769 }, {  36,4769 },
- {  37,4769 }, {  38,4769 }, {  39,4769 }, {  40,4769 }, {  41,4769 },
- {  42,4769 }, {  43,4769 }, {  44,4769 }, {  45,4769 }, {  46,4769 },
-
- {  47,4769 }, {  48,4769 }, {  49,4769 }, {  50,4769 }, {  51,4769 },
- {  52,4769 }, {  53,4769 }, {  54,4769 }, {  55,4769 }, {  56,4769 },
- {  57,4769 }, {  58,4769 }, {  59,4769 }, {  60,4769 }, {  61,4769 },
- {  62,4769 }, {  63,4769 }, {  64,4769 }, {  65,4769 }, {  66,4769 },
- {  67,4769 }, {  68,4769 }, {  69,4769 }, {  70,4769 }, {  71,4769 },
- {  72,4769 }, {  73,4769 }, {  74,4769 }, {  75,4769 }, {  76,4769 },
- {  77,4769 }, {  78,4769 }, {  79,4769 }, {  80,4769 }, {  81,4769 },
- {  82,4769 }, {  83,4769 }, {  84,4769 }, {  85,4769 }, {  86,4769 },
- {  87,4769 }, {  88,4769 }, {  89,4769 }, {  90,4769 }, {  91,4769 },
- {  92,4769 }, {  93,4769 }, {  94,4769 }, {  95,4769 }, {  96,4769 },
-
- {  97,4769 }, {  98,4769 }, {  99,4769 }, { 100,4769 }, { 101,4769 },
- { 102,4769 }, { 103,4769 }, { 104,4769 }, { 105,4769 }, { 106,4769 },
- { 107,4769 }, { 108,4769 }, { 109,4769 }, { 110,4769 }, { 111,4769 },
- { 112,4769 }, { 113,4769 }, { 114,4769 }, { 115,4769 }, { 116,4769 },
- { 117,4769 }, { 118,4769 }, { 119,4769 }, { 120,4769 }, { 121,4769 },
- { 122,4769 }, {   0,   0 }, { 124,4769 }, { 125,4769 }, { 126,4769 },
- { 127,4769 }, { 128,4769 }, { 129,4769 }, { 130,4769 }, { 131,4769 },
- { 132,4769 }, { 133,4769 }, { 134,4769 }, { 135,4769 }, { 136,4769 },
- { 137,4769 }, { 138,4769 }, { 139,4769 }, { 140,4769 }, { 141,4769 },
- { 142,4769 }, { 143,4769 }, { 144,4769 }, { 145,4769 }, { 146,4769 },
-
- { 147,4769 }, { 148,4769 }, { 149,4769 }, { 150,4769 }, { 151,4769 },
- { 152,4769 }, { 153,4769 }, { 154,4769 }, { 155,4769 }, { 156,4769 },
- { 157,4769 }, { 158,4769 }, { 159,4769 }, { 160,4769 }, { 161,4769 },
- { 162,4769 }, { 163,4769 }, { 164,4769 }, { 165,4769 }, { 166,4769 },
- { 167,4769 }, { 168,4769 }, { 169,4769 }, { 170,4769 }, { 171,4769 },
- { 172,4769 }, { 173,4769 }, { 174,4769 }, { 175,4769 }, { 176,4769 },
- { 177,4769 }, { 178,4769 }, { 179,4769 }, { 180,4769 }, { 181,4769 },
- { 182,4769 }, { 183,4769 }, { 184,4769 }, { 185,4769 }, { 186,4769 },
- { 187,4769 }, { 188,4769 }, { 189,4769 }, { 190,4769 }, { 191,4769 },
- { 192,4769 }, { 193,4769 }, { 194,4769 }, { 195,4769 }, { 196,4769 },
-
- { 197,4769 }, { 198,4769 }, { 199,4769 }, { 200,4769 }, { 201,4769 },
- { 202,4769 }, { 203,4769 }, { 204,4769 }, { 205,4769 }, { 206,4769 },
- { 207,4769 }, { 208,4769 }, { 209,4769 }, { 210,4769 }, { 211,4769 },
- { 212,4769 }, { 213,4769 }, { 214,4769 }, { 215,4769 }, { 216,4769 },
- { 217,4769 }, { 218,4769 }, { 219,4769 }, { 220,4769 }, { 221,4769 },
- { 222,4769 }, { 223,4769 }, { 224,4769 }, { 225,4769 }, { 226,4769 },
- { 227,4769 }, { 228,4769 }, { 229,4769 }, { 230,4769 }, { 231,4769 },
- { 232,4769 }, { 233,4769 }, { 234,4769 }, { 235,4769 }, { 236,4769 },
- { 237,4769 }, { 238,4769 }, { 239,4769 }, { 240,4769 }, { 241,4769 },
- { 242,4769 }, { 243,4769 }, { 244,4769 }, { 245,4769 }, { 246,4769 },
-
- { 247,4769 }, { 248,4769 }, { 249,4769 }, { 250,4769 }, { 251,4769 },
- { 252,4769 }, { 253,4769 }, { 254,4769 }, { 255,4769 }, {   0,  11 },
- {   0,13594 }, {   0,   2 }, {   0,13592 }, {   0,   0 }, {   0,13590 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 },
- {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  92,   2 },
- {   0,   0 }, {  92,4767 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,4769 }, {   0,   2 },
- {   0,13469 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
- {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
- {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 }, {  14,   0 },
-
- {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
- {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
- {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
- {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 },
- {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
- {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
- {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
- {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
- {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
- {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
-
- {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
- {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
- {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
- {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
- {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
- {  90,   0 }, {  91,   0 }, {  92,-121 }, {  93,   0 }, {  94,   0 },
- {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
- { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
- { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
- { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
-
- { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
- { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 }, { 124,   0 },
- { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
- { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
- { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
- { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
- { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
- { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
- { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
- { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
-
- { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
- { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
- { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
- { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
- { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
- { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
- { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
- { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
- { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
- { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
-
- { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
- { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
- { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
- { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
- { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
- { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
- { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
- { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, {   0,   0 }, {   0,13212 }, {   0,   0 }, {   0,13210 },
- {   0,   5 }, {   0,13208 }, {   0,  49 }, {   0,13206 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,13181 }, {   1,   0 },
- {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 },
- {   7,   0 }, {   8,   0 }, {   9, -25 }, {  10, -25 }, {  11,   0 },
- {  12,   0 }, {  13, -25 }, {  14,   0 }, {  15,   0 }, {  16,   0 },
- {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 },
- {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 },
-
- {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 },
- {  32, -25 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41, -25 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,   0 }, {  46, -25 },
- {  47, -25 }, {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 },
- {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 },
- {  57,   0 }, {  58,   0 }, {   0,   0 }, {   0,   0 }, {  61, -25 },
- {   0,   0 }, {  63,   0 }, {   0,   0 }, {  65,   0 }, {  66,   0 },
- {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 },
- {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 },
-
- {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 },
- {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 },
- {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 }, {   0,   0 },
- { 123,4391 }, {   0,   0 }, { 123,4514 }, {  95,   0 }, { 123,4389 },
- {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 },
- { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 },
- { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 },
- { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 },
- { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 },
- { 122,   0 }, {   0,   0 }, { 124, -25 }, { 125, -25 }, { 126, -25 },
-
- { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 },
- { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 },
- { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 },
- { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 },
- { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 },
- { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 },
- { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 },
- { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 },
- { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 },
- { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 },
-
- { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 },
- { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 },
- { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 },
- { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 },
- { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 },
- { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 },
- { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 },
- { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 },
- { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 },
- { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 },
-
- { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 },
- { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 },
- { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 },
- { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 },
- { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 },
- { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 }, { 256,   0 },
- {   0,  36 }, {   0,12923 }, {   0,  39 }, {   0,12921 }, {   0,  40 },
- {   0,12919 }, {   0,  34 }, {   0,12917 }, {   0,  33 }, {   0,12915 },
- {   9,   0 }, {  10,   0 }, {   0,  48 }, {   0,12911 }, {  13,   0 },
- {   0,  50 }, {   0,12908 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,12889 }, {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 },
- {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 },
- {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 },
- {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 },
- {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 },
- {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 },
- {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34, -32 },
-
- {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 },
- {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 },
- {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 },
- {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 },
- {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 },
- {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 },
- {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 },
- {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 },
- {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 },
- {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 },
-
- {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 },
- {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 }, {  94,   0 },
- {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 },
- { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 },
- { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 },
- { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 },
- { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 },
- { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 },
- { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 },
- { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 },
-
- { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 },
- { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 },
- { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 },
- { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 },
- { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 },
- { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 },
- { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 },
- { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 },
- { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 },
- { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 },
-
- { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 },
- { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 },
- { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 },
- { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 },
- { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 },
- { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 },
- { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 },
- { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 },
- { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 },
- { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 },
-
- { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 },
- { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 },
- { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 },
- { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 },
- { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12631 }, {   1,-258 },
- {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 },
- {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 },
- {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 },
- {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 },
- {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 },
-
- {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 },
- {  32,-258 }, {  33,-258 }, {  34,4192 }, {  35,-258 }, {  36,-258 },
- {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 },
- {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 },
- {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 },
- {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 },
- {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 },
- {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 },
- {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 },
- {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 },
-
- {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 },
- {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 },
- {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 },
- {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 }, {  96,-258 },
- {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 },
- { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 },
- { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 },
- { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 },
- { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 },
- { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 },
-
- { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 },
- { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 },
- { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 },
- { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 },
- { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 },
- { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 },
- { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 },
- { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 },
- { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 },
- { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 },
-
- { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 },
- { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 },
- { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 },
- { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 },
- { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 },
- { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 },
- { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 },
- { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 },
- { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 },
- { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 },
-
- { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 },
- { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 },
- { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 },
- { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 },
- { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 },
- { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 },
- {   0,   0 }, {   0,12373 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
- {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
- {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
- {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
-
- {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
- {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
- {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
- {  39,-546 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
- {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
- {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
- {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
-
- {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
- {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
- {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
- {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
- {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92, 258 }, {  93,   0 },
- {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
- {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
- { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
- { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
- { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
-
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
- { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
- { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
- { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
- { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
- { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
- { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
- { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
- { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
- { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
-
- { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
- { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
- { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
- { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
- { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
- { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
- { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
- { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
- { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
- { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
-
- { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
- { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
- { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
- { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
- { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
- { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
- { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,12115 },
- {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
- {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
-
- {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
- {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
- {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
- {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
- {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
- {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,3934 }, {  40,-258 },
- {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 },
- {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
- {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
- {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
-
- {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
- {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
- {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
- {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
- {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
- {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
- {  91,-258 }, {  92,   0 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
- {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
- { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
- { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
-
- { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
- { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
- { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
- { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
- { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
- { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
- { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
- { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
- { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
- { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
-
- { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
- { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
- { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
- { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
- { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
- { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
- { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
- { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
- { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
- { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
-
- { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
- { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
- { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
- { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
- { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
- { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
- { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
- { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
- { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,11857 }, {   1,-1324 }, {   2,-1324 },
-
- {   3,-1324 }, {   4,-1324 }, {   5,-1324 }, {   6,-1324 }, {   7,-1324 },
- {   8,-1324 }, {   9,-1054 }, {  10,-1054 }, {  11,-1324 }, {  12,-1324 },
- {  13,-1054 }, {  14,-1324 }, {  15,-1324 }, {  16,-1324 }, {  17,-1324 },
- {  18,-1324 }, {  19,-1324 }, {  20,-1324 }, {  21,-1324 }, {  22,-1324 },
- {  23,-1324 }, {  24,-1324 }, {  25,-1324 }, {  26,-1324 }, {  27,-1324 },
- {  28,-1324 }, {  29,-1324 }, {  30,-1324 }, {  31,-1324 }, {  32,-1054 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-1324 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-1054 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-1324 }, {  46, 258 }, {  47,-1349 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
-
- {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,-1324 }, {   0,   0 }, {   0,   0 }, {  61,-1349 }, {   0,   0 },
- {  63,-1324 }, {   0,   0 }, {  65,-1324 }, {  66,-1324 }, {  67,-1324 },
- {  68,-1324 }, {  69,-1324 }, {  70,-1324 }, {  71,-1324 }, {  72,-1324 },
- {  73,-1324 }, {  74,-1324 }, {  75,-1324 }, {  76,-1324 }, {  77,-1324 },
- {  78,-1324 }, {  79,-1324 }, {  80,-1324 }, {  81,-1324 }, {  82,-1324 },
- {  83,-1324 }, {  84,-1324 }, {  85,-1324 }, {  86,-1324 }, {  87,-1324 },
- {  88,-1324 }, {  89,-1324 }, {  90,-1324 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-1324 }, {   0,   0 }, {  97,-1324 },
- {  98,-1324 }, {  99,-1324 }, { 100,-1324 }, { 101,-1324 }, { 102,-1324 },
-
- { 103,-1324 }, { 104,-1324 }, { 105,-1324 }, { 106,-1324 }, { 107,-1324 },
- { 108,-1324 }, { 109,-1324 }, { 110,-1324 }, { 111,-1324 }, { 112,-1324 },
- { 113,-1324 }, { 114,-1324 }, { 115,-1324 }, { 116,-1324 }, { 117,-1324 },
- { 118,-1324 }, { 119,-1324 }, { 120,-1324 }, { 121,-1324 }, { 122,-1324 },
- {   0,   0 }, { 124,-1349 }, { 125,-1054 }, { 126,-1054 }, { 127,-1324 },
- { 128,-1324 }, { 129,-1324 }, { 130,-1324 }, { 131,-1324 }, { 132,-1324 },
- { 133,-1324 }, { 134,-1324 }, { 135,-1324 }, { 136,-1324 }, { 137,-1324 },
- { 138,-1324 }, { 139,-1324 }, { 140,-1324 }, { 141,-1324 }, { 142,-1324 },
- { 143,-1324 }, { 144,-1324 }, { 145,-1324 }, { 146,-1324 }, { 147,-1324 },
- { 148,-1324 }, { 149,-1324 }, { 150,-1324 }, { 151,-1324 }, { 152,-1324 },
-
- { 153,-1324 }, { 154,-1324 }, { 155,-1324 }, { 156,-1324 }, { 157,-1324 },
- { 158,-1324 }, { 159,-1324 }, { 160,-1324 }, { 161,-1324 }, { 162,-1324 },
- { 163,-1324 }, { 164,-1324 }, { 165,-1324 }, { 166,-1324 }, { 167,-1324 },
- { 168,-1324 }, { 169,-1324 }, { 170,-1324 }, { 171,-1324 }, { 172,-1324 },
- { 173,-1324 }, { 174,-1324 }, { 175,-1324 }, { 176,-1324 }, { 177,-1324 },
- { 178,-1324 }, { 179,-1324 }, { 180,-1324 }, { 181,-1324 }, { 182,-1324 },
- { 183,-1324 }, { 184,-1324 }, { 185,-1324 }, { 186,-1324 }, { 187,-1324 },
- { 188,-1324 }, { 189,-1324 }, { 190,-1324 }, { 191,-1324 }, { 192,-1324 },
- { 193,-1324 }, { 194,-1324 }, { 195,-1324 }, { 196,-1324 }, { 197,-1324 },
- { 198,-1324 }, { 199,-1324 }, { 200,-1324 }, { 201,-1324 }, { 202,-1324 },
-
- { 203,-1324 }, { 204,-1324 }, { 205,-1324 }, { 206,-1324 }, { 207,-1324 },
- { 208,-1324 }, { 209,-1324 }, { 210,-1324 }, { 211,-1324 }, { 212,-1324 },
- { 213,-1324 }, { 214,-1324 }, { 215,-1324 }, { 216,-1324 }, { 217,-1324 },
- { 218,-1324 }, { 219,-1324 }, { 220,-1324 }, { 221,-1324 }, { 222,-1324 },
- { 223,-1324 }, { 224,-1324 }, { 225,-1324 }, { 226,-1324 }, { 227,-1324 },
- { 228,-1324 }, { 229,-1324 }, { 230,-1324 }, { 231,-1324 }, { 232,-1324 },
- { 233,-1324 }, { 234,-1324 }, { 235,-1324 }, { 236,-1324 }, { 237,-1324 },
- { 238,-1324 }, { 239,-1324 }, { 240,-1324 }, { 241,-1324 }, { 242,-1324 },
- { 243,-1324 }, { 244,-1324 }, { 245,-1324 }, { 246,-1324 }, { 247,-1324 },
- { 248,-1324 }, { 249,-1324 }, { 250,-1324 }, { 251,-1324 }, { 252,-1324 },
-
- { 253,-1324 }, { 254,-1324 }, { 255,-1324 }, { 256,-1324 }, {   0,  49 },
- {   0,11599 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  48,3676 }, {  49,3676 },
- {  50,3676 }, {  51,3676 }, {  52,3676 }, {  53,3676 }, {  54,3676 },
- {  55,3676 }, {  56,3676 }, {  57,3676 }, {   0,   0 }, {   0,11540 },
- {   1,   0 }, {   2,   0 }, {   3,   0 }, {   4,   0 }, {   5,   0 },
- {   6,   0 }, {   7,   0 }, {   8,   0 }, {   9,   0 }, {  10,   0 },
- {  11,   0 }, {  12,   0 }, {  13,   0 }, {  14,   0 }, {  15,   0 },
- {  16,   0 }, {  17,   0 }, {  18,   0 }, {  19,   0 }, {  20,   0 },
- {  21,   0 }, {  22,   0 }, {  23,   0 }, {  24,   0 }, {  25,   0 },
- {  26,   0 }, {  27,   0 }, {  28,   0 }, {  29,   0 }, {  30,   0 },
- {  31,   0 }, {  32,   0 }, {  33,   0 }, {  34,   0 }, {  35,   0 },
-
- {  36,   0 }, {  37,   0 }, {  38,   0 }, {  39,   0 }, {  40,   0 },
- {  41,   0 }, {  42,   0 }, {  43,   0 }, {  44,   0 }, {  45,   0 },
- {  46,   0 }, {  47,   0 }, {  48,   0 }, {  49,   0 }, {  50,   0 },
- {  51,   0 }, {  52,   0 }, {  53,   0 }, {  54,   0 }, {  55,   0 },
- {  56,   0 }, {  57,   0 }, {  58,   0 }, {  59,   0 }, {  60,   0 },
- {  61,   0 }, {  62,   0 }, {  63,   0 }, {  64,   0 }, {  65,   0 },
- {  66,   0 }, {  67,   0 }, {  68,   0 }, {  69,   0 }, {  70,   0 },
- {  71,   0 }, {  72,   0 }, {  73,   0 }, {  74,   0 }, {  75,   0 },
- {  76,   0 }, {  77,   0 }, {  78,   0 }, {  79,   0 }, {  80,   0 },
- {  81,   0 }, {  82,   0 }, {  83,   0 }, {  84,   0 }, {  85,   0 },
-
- {  86,   0 }, {  87,   0 }, {  88,   0 }, {  89,   0 }, {  90,   0 },
- {  91,   0 }, {  92, 258 }, {  93,-1368 }, {  94,   0 }, {  95,   0 },
- {  96,   0 }, {  97,   0 }, {  98,   0 }, {  99,   0 }, { 100,   0 },
- { 101,   0 }, { 102,   0 }, { 103,   0 }, { 104,   0 }, { 105,   0 },
- { 106,   0 }, { 107,   0 }, { 108,   0 }, { 109,   0 }, { 110,   0 },
- { 111,   0 }, { 112,   0 }, { 113,   0 }, { 114,   0 }, { 115,   0 },
- { 116,   0 }, { 117,   0 }, { 118,   0 }, { 119,   0 }, { 120,   0 },
- { 121,   0 }, { 122,   0 }, { 123,   0 }, { 124,   0 }, { 125,   0 },
- { 126,   0 }, { 127,   0 }, { 128,   0 }, { 129,   0 }, { 130,   0 },
- { 131,   0 }, { 132,   0 }, { 133,   0 }, { 134,   0 }, { 135,   0 },
-
- { 136,   0 }, { 137,   0 }, { 138,   0 }, { 139,   0 }, { 140,   0 },
- { 141,   0 }, { 142,   0 }, { 143,   0 }, { 144,   0 }, { 145,   0 },
- { 146,   0 }, { 147,   0 }, { 148,   0 }, { 149,   0 }, { 150,   0 },
- { 151,   0 }, { 152,   0 }, { 153,   0 }, { 154,   0 }, { 155,   0 },
- { 156,   0 }, { 157,   0 }, { 158,   0 }, { 159,   0 }, { 160,   0 },
- { 161,   0 }, { 162,   0 }, { 163,   0 }, { 164,   0 }, { 165,   0 },
- { 166,   0 }, { 167,   0 }, { 168,   0 }, { 169,   0 }, { 170,   0 },
- { 171,   0 }, { 172,   0 }, { 173,   0 }, { 174,   0 }, { 175,   0 },
- { 176,   0 }, { 177,   0 }, { 178,   0 }, { 179,   0 }, { 180,   0 },
- { 181,   0 }, { 182,   0 }, { 183,   0 }, { 184,   0 }, { 185,   0 },
-
- { 186,   0 }, { 187,   0 }, { 188,   0 }, { 189,   0 }, { 190,   0 },
- { 191,   0 }, { 192,   0 }, { 193,   0 }, { 194,   0 }, { 195,   0 },
- { 196,   0 }, { 197,   0 }, { 198,   0 }, { 199,   0 }, { 200,   0 },
- { 201,   0 }, { 202,   0 }, { 203,   0 }, { 204,   0 }, { 205,   0 },
- { 206,   0 }, { 207,   0 }, { 208,   0 }, { 209,   0 }, { 210,   0 },
- { 211,   0 }, { 212,   0 }, { 213,   0 }, { 214,   0 }, { 215,   0 },
- { 216,   0 }, { 217,   0 }, { 218,   0 }, { 219,   0 }, { 220,   0 },
- { 221,   0 }, { 222,   0 }, { 223,   0 }, { 224,   0 }, { 225,   0 },
- { 226,   0 }, { 227,   0 }, { 228,   0 }, { 229,   0 }, { 230,   0 },
- { 231,   0 }, { 232,   0 }, { 233,   0 }, { 234,   0 }, { 235,   0 },
-
- { 236,   0 }, { 237,   0 }, { 238,   0 }, { 239,   0 }, { 240,   0 },
- { 241,   0 }, { 242,   0 }, { 243,   0 }, { 244,   0 }, { 245,   0 },
- { 246,   0 }, { 247,   0 }, { 248,   0 }, { 249,   0 }, { 250,   0 },
- { 251,   0 }, { 252,   0 }, { 253,   0 }, { 254,   0 }, { 255,   0 },
- { 256,   0 }, {   0,   0 }, {   0,11282 }, {   1,-258 }, {   2,-258 },
- {   3,-258 }, {   4,-258 }, {   5,-258 }, {   6,-258 }, {   7,-258 },
- {   8,-258 }, {   9,-258 }, {  10,-258 }, {  11,-258 }, {  12,-258 },
- {  13,-258 }, {  14,-258 }, {  15,-258 }, {  16,-258 }, {  17,-258 },
- {  18,-258 }, {  19,-258 }, {  20,-258 }, {  21,-258 }, {  22,-258 },
- {  23,-258 }, {  24,-258 }, {  25,-258 }, {  26,-258 }, {  27,-258 },
-
- {  28,-258 }, {  29,-258 }, {  30,-258 }, {  31,-258 }, {  32,-258 },
- {  33,-258 }, {  34,-258 }, {  35,-258 }, {  36,-258 }, {  37,-258 },
- {  38,-258 }, {  39,-258 }, {  40,-258 }, {  41,-258 }, {  42,-258 },
- {  43,-258 }, {  44,-258 }, {  45,-258 }, {  46,-258 }, {  47,-258 },
- {  48,-258 }, {  49,-258 }, {  50,-258 }, {  51,-258 }, {  52,-258 },
- {  53,-258 }, {  54,-258 }, {  55,-258 }, {  56,-258 }, {  57,-258 },
- {  58,-258 }, {  59,-258 }, {  60,-258 }, {  61,-258 }, {  62,-258 },
- {  63,-258 }, {  64,-258 }, {  65,-258 }, {  66,-258 }, {  67,-258 },
- {  68,-258 }, {  69,-258 }, {  70,-258 }, {  71,-258 }, {  72,-258 },
- {  73,-258 }, {  74,-258 }, {  75,-258 }, {  76,-258 }, {  77,-258 },
-
- {  78,-258 }, {  79,-258 }, {  80,-258 }, {  81,-258 }, {  82,-258 },
- {  83,-258 }, {  84,-258 }, {  85,-258 }, {  86,-258 }, {  87,-258 },
- {  88,-258 }, {  89,-258 }, {  90,-258 }, {  91,-258 }, {  92,   0 },
- {  93,3487 }, {  94,-258 }, {  95,-258 }, {  96,-258 }, {  97,-258 },
- {  98,-258 }, {  99,-258 }, { 100,-258 }, { 101,-258 }, { 102,-258 },
- { 103,-258 }, { 104,-258 }, { 105,-258 }, { 106,-258 }, { 107,-258 },
- { 108,-258 }, { 109,-258 }, { 110,-258 }, { 111,-258 }, { 112,-258 },
- { 113,-258 }, { 114,-258 }, { 115,-258 }, { 116,-258 }, { 117,-258 },
- { 118,-258 }, { 119,-258 }, { 120,-258 }, { 121,-258 }, { 122,-258 },
- { 123,-258 }, { 124,-258 }, { 125,-258 }, { 126,-258 }, { 127,-258 },
-
- { 128,-258 }, { 129,-258 }, { 130,-258 }, { 131,-258 }, { 132,-258 },
- { 133,-258 }, { 134,-258 }, { 135,-258 }, { 136,-258 }, { 137,-258 },
- { 138,-258 }, { 139,-258 }, { 140,-258 }, { 141,-258 }, { 142,-258 },
- { 143,-258 }, { 144,-258 }, { 145,-258 }, { 146,-258 }, { 147,-258 },
- { 148,-258 }, { 149,-258 }, { 150,-258 }, { 151,-258 }, { 152,-258 },
- { 153,-258 }, { 154,-258 }, { 155,-258 }, { 156,-258 }, { 157,-258 },
- { 158,-258 }, { 159,-258 }, { 160,-258 }, { 161,-258 }, { 162,-258 },
- { 163,-258 }, { 164,-258 }, { 165,-258 }, { 166,-258 }, { 167,-258 },
- { 168,-258 }, { 169,-258 }, { 170,-258 }, { 171,-258 }, { 172,-258 },
- { 173,-258 }, { 174,-258 }, { 175,-258 }, { 176,-258 }, { 177,-258 },
-
- { 178,-258 }, { 179,-258 }, { 180,-258 }, { 181,-258 }, { 182,-258 },
- { 183,-258 }, { 184,-258 }, { 185,-258 }, { 186,-258 }, { 187,-258 },
- { 188,-258 }, { 189,-258 }, { 190,-258 }, { 191,-258 }, { 192,-258 },
- { 193,-258 }, { 194,-258 }, { 195,-258 }, { 196,-258 }, { 197,-258 },
- { 198,-258 }, { 199,-258 }, { 200,-258 }, { 201,-258 }, { 202,-258 },
- { 203,-258 }, { 204,-258 }, { 205,-258 }, { 206,-258 }, { 207,-258 },
- { 208,-258 }, { 209,-258 }, { 210,-258 }, { 211,-258 }, { 212,-258 },
- { 213,-258 }, { 214,-258 }, { 215,-258 }, { 216,-258 }, { 217,-258 },
- { 218,-258 }, { 219,-258 }, { 220,-258 }, { 221,-258 }, { 222,-258 },
- { 223,-258 }, { 224,-258 }, { 225,-258 }, { 226,-258 }, { 227,-258 },
-
- { 228,-258 }, { 229,-258 }, { 230,-258 }, { 231,-258 }, { 232,-258 },
- { 233,-258 }, { 234,-258 }, { 235,-258 }, { 236,-258 }, { 237,-258 },
- { 238,-258 }, { 239,-258 }, { 240,-258 }, { 241,-258 }, { 242,-258 },
- { 243,-258 }, { 244,-258 }, { 245,-258 }, { 246,-258 }, { 247,-258 },
- { 248,-258 }, { 249,-258 }, { 250,-258 }, { 251,-258 }, { 252,-258 },
- { 253,-258 }, { 254,-258 }, { 255,-258 }, { 256,-258 }, {   0,   0 },
- {   0,11024 }, {   1,-2157 }, {   2,-2157 }, {   3,-2157 }, {   4,-2157 },
- {   5,-2157 }, {   6,-2157 }, {   7,-2157 }, {   8,-2157 }, {   9,2296 },
- {  10,2296 }, {  11,-2157 }, {  12,-2157 }, {  13,2296 }, {  14,-2157 },
- {  15,-2157 }, {  16,-2157 }, {  17,-2157 }, {  18,-2157 }, {  19,-2157 },
-
- {  20,-2157 }, {  21,-2157 }, {  22,-2157 }, {  23,-2157 }, {  24,-2157 },
- {  25,-2157 }, {  26,-2157 }, {  27,-2157 }, {  28,-2157 }, {  29,-2157 },
- {  30,-2157 }, {  31,-2157 }, {  32,2296 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-2182 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-2157 }, {  46,-2182 }, {  47,-2182 }, {  48,-2157 }, {  49,-2157 },
- {  50,-2157 }, {  51,-2157 }, {  52,-2157 }, {  53,-2157 }, {  54,-2157 },
- {  55,-2157 }, {  56,-2157 }, {  57,-2157 }, {  58,-2157 }, {   0,   0 },
- {   0,   0 }, {  61,-2182 }, {   0,   0 }, {  63,-2157 }, {   0,   0 },
- {  65,-2157 }, {  66,-2157 }, {  67,-2157 }, {  68,-2157 }, {  69,-2157 },
-
- {  70,-2157 }, {  71,-2157 }, {  72,-2157 }, {  73,-2157 }, {  74,-2157 },
- {  75,-2157 }, {  76,-2157 }, {  77,-2157 }, {  78,-2157 }, {  79,-2157 },
- {  80,-2157 }, {  81,-2157 }, {  82,-2157 }, {  83,-2157 }, {  84,-2157 },
- {  85,-2157 }, {  86,-2157 }, {  87,-2157 }, {  88,-2157 }, {  89,-2157 },
- {  90,-2157 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-2157 }, {   0,   0 }, {  97,-2157 }, {  98,-2157 }, {  99,-2157 },
- { 100,-2157 }, { 101,-2157 }, { 102,-2157 }, { 103,-2157 }, { 104,-2157 },
- { 105,-2157 }, { 106,-2157 }, { 107,-2157 }, { 108,-2157 }, { 109,-2157 },
- { 110,-2157 }, { 111,-2157 }, { 112,-2157 }, { 113,-2157 }, { 114,-2157 },
- { 115,-2157 }, { 116,-2157 }, { 117,-2157 }, { 118,-2157 }, { 119,-2157 },
-
- { 120,-2157 }, { 121,-2157 }, { 122,-2157 }, {   0,   0 }, { 124,-2182 },
- { 125,-2182 }, { 126,-2182 }, { 127,-2157 }, { 128,-2157 }, { 129,-2157 },
- { 130,-2157 }, { 131,-2157 }, { 132,-2157 }, { 133,-2157 }, { 134,-2157 },
- { 135,-2157 }, { 136,-2157 }, { 137,-2157 }, { 138,-2157 }, { 139,-2157 },
- { 140,-2157 }, { 141,-2157 }, { 142,-2157 }, { 143,-2157 }, { 144,-2157 },
- { 145,-2157 }, { 146,-2157 }, { 147,-2157 }, { 148,-2157 }, { 149,-2157 },
- { 150,-2157 }, { 151,-2157 }, { 152,-2157 }, { 153,-2157 }, { 154,-2157 },
- { 155,-2157 }, { 156,-2157 }, { 157,-2157 }, { 158,-2157 }, { 159,-2157 },
- { 160,-2157 }, { 161,-2157 }, { 162,-2157 }, { 163,-2157 }, { 164,-2157 },
- { 165,-2157 }, { 166,-2157 }, { 167,-2157 }, { 168,-2157 }, { 169,-2157 },
-
- { 170,-2157 }, { 171,-2157 }, { 172,-2157 }, { 173,-2157 }, { 174,-2157 },
- { 175,-2157 }, { 176,-2157 }, { 177,-2157 }, { 178,-2157 }, { 179,-2157 },
- { 180,-2157 }, { 181,-2157 }, { 182,-2157 }, { 183,-2157 }, { 184,-2157 },
- { 185,-2157 }, { 186,-2157 }, { 187,-2157 }, { 188,-2157 }, { 189,-2157 },
- { 190,-2157 }, { 191,-2157 }, { 192,-2157 }, { 193,-2157 }, { 194,-2157 },
- { 195,-2157 }, { 196,-2157 }, { 197,-2157 }, { 198,-2157 }, { 199,-2157 },
- { 200,-2157 }, { 201,-2157 }, { 202,-2157 }, { 203,-2157 }, { 204,-2157 },
- { 205,-2157 }, { 206,-2157 }, { 207,-2157 }, { 208,-2157 }, { 209,-2157 },
- { 210,-2157 }, { 211,-2157 }, { 212,-2157 }, { 213,-2157 }, { 214,-2157 },
- { 215,-2157 }, { 216,-2157 }, { 217,-2157 }, { 218,-2157 }, { 219,-2157 },
-
- { 220,-2157 }, { 221,-2157 }, { 222,-2157 }, { 223,-2157 }, { 224,-2157 },
- { 225,-2157 }, { 226,-2157 }, { 227,-2157 }, { 228,-2157 }, { 229,-2157 },
- { 230,-2157 }, { 231,-2157 }, { 232,-2157 }, { 233,-2157 }, { 234,-2157 },
- { 235,-2157 }, { 236,-2157 }, { 237,-2157 }, { 238,-2157 }, { 239,-2157 },
- { 240,-2157 }, { 241,-2157 }, { 242,-2157 }, { 243,-2157 }, { 244,-2157 },
- { 245,-2157 }, { 246,-2157 }, { 247,-2157 }, { 248,-2157 }, { 249,-2157 },
- { 250,-2157 }, { 251,-2157 }, { 252,-2157 }, { 253,-2157 }, { 254,-2157 },
- { 255,-2157 }, { 256,-2157 }, {   0,   0 }, {   0,10766 }, {   1,-2415 },
- {   2,-2415 }, {   3,-2415 }, {   4,-2415 }, {   5,-2415 }, {   6,-2415 },
- {   7,-2415 }, {   8,-2415 }, {   9,-2440 }, {  10,-2440 }, {  11,-2415 },
-
- {  12,-2415 }, {  13,-2440 }, {  14,-2415 }, {  15,-2415 }, {  16,-2415 },
- {  17,-2415 }, {  18,-2415 }, {  19,-2415 }, {  20,-2415 }, {  21,-2415 },
- {  22,-2415 }, {  23,-2415 }, {  24,-2415 }, {  25,-2415 }, {  26,-2415 },
- {  27,-2415 }, {  28,-2415 }, {  29,-2415 }, {  30,-2415 }, {  31,-2415 },
- {  32,-2440 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-2415 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-2440 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2415 }, {  46,-2440 },
- {  47,-2440 }, {  48,-2415 }, {  49,-2415 }, {  50,-2415 }, {  51,-2415 },
- {  52,-2415 }, {  53,-2415 }, {  54,-2415 }, {  55,-2415 }, {  56,-2415 },
- {  57,-2415 }, {  58,-2415 }, {   0,   0 }, {   0,   0 }, {  61,-2440 },
-
- {   0,   0 }, {  63,-2415 }, {   0,   0 }, {  65,-2415 }, {  66,-2415 },
- {  67,-2415 }, {  68,-2415 }, {  69,-2415 }, {  70,-2415 }, {  71,-2415 },
- {  72,-2415 }, {  73,-2415 }, {  74,-2415 }, {  75,-2415 }, {  76,-2415 },
- {  77,-2415 }, {  78,-2415 }, {  79,-2415 }, {  80,-2415 }, {  81,-2415 },
- {  82,-2415 }, {  83,-2415 }, {  84,-2415 }, {  85,-2415 }, {  86,-2415 },
- {  87,-2415 }, {  88,-2415 }, {  89,-2415 }, {  90,-2415 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2415 }, {   0,   0 },
- {  97,-2415 }, {  98,-2415 }, {  99,-2415 }, { 100,-2415 }, { 101,-2415 },
- { 102,-2415 }, { 103,-2415 }, { 104,-2415 }, { 105,-2415 }, { 106,-2415 },
- { 107,-2415 }, { 108,3229 }, { 109,-2415 }, { 110,-2415 }, { 111,-2415 },
-
- { 112,-2415 }, { 113,-2415 }, { 114,-2415 }, { 115,-2415 }, { 116,-2415 },
- { 117,-2415 }, { 118,-2415 }, { 119,-2415 }, { 120,-2415 }, { 121,-2415 },
- { 122,-2415 }, {   0,   0 }, { 124,-2440 }, { 125,-2440 }, { 126,-2440 },
- { 127,-2415 }, { 128,-2415 }, { 129,-2415 }, { 130,-2415 }, { 131,-2415 },
- { 132,-2415 }, { 133,-2415 }, { 134,-2415 }, { 135,-2415 }, { 136,-2415 },
- { 137,-2415 }, { 138,-2415 }, { 139,-2415 }, { 140,-2415 }, { 141,-2415 },
- { 142,-2415 }, { 143,-2415 }, { 144,-2415 }, { 145,-2415 }, { 146,-2415 },
- { 147,-2415 }, { 148,-2415 }, { 149,-2415 }, { 150,-2415 }, { 151,-2415 },
- { 152,-2415 }, { 153,-2415 }, { 154,-2415 }, { 155,-2415 }, { 156,-2415 },
- { 157,-2415 }, { 158,-2415 }, { 159,-2415 }, { 160,-2415 }, { 161,-2415 },
-
- { 162,-2415 }, { 163,-2415 }, { 164,-2415 }, { 165,-2415 }, { 166,-2415 },
- { 167,-2415 }, { 168,-2415 }, { 169,-2415 }, { 170,-2415 }, { 171,-2415 },
- { 172,-2415 }, { 173,-2415 }, { 174,-2415 }, { 175,-2415 }, { 176,-2415 },
- { 177,-2415 }, { 178,-2415 }, { 179,-2415 }, { 180,-2415 }, { 181,-2415 },
- { 182,-2415 }, { 183,-2415 }, { 184,-2415 }, { 185,-2415 }, { 186,-2415 },
- { 187,-2415 }, { 188,-2415 }, { 189,-2415 }, { 190,-2415 }, { 191,-2415 },
- { 192,-2415 }, { 193,-2415 }, { 194,-2415 }, { 195,-2415 }, { 196,-2415 },
- { 197,-2415 }, { 198,-2415 }, { 199,-2415 }, { 200,-2415 }, { 201,-2415 },
- { 202,-2415 }, { 203,-2415 }, { 204,-2415 }, { 205,-2415 }, { 206,-2415 },
- { 207,-2415 }, { 208,-2415 }, { 209,-2415 }, { 210,-2415 }, { 211,-2415 },
-
- { 212,-2415 }, { 213,-2415 }, { 214,-2415 }, { 215,-2415 }, { 216,-2415 },
- { 217,-2415 }, { 218,-2415 }, { 219,-2415 }, { 220,-2415 }, { 221,-2415 },
- { 222,-2415 }, { 223,-2415 }, { 224,-2415 }, { 225,-2415 }, { 226,-2415 },
- { 227,-2415 }, { 228,-2415 }, { 229,-2415 }, { 230,-2415 }, { 231,-2415 },
- { 232,-2415 }, { 233,-2415 }, { 234,-2415 }, { 235,-2415 }, { 236,-2415 },
- { 237,-2415 }, { 238,-2415 }, { 239,-2415 }, { 240,-2415 }, { 241,-2415 },
- { 242,-2415 }, { 243,-2415 }, { 244,-2415 }, { 245,-2415 }, { 246,-2415 },
- { 247,-2415 }, { 248,-2415 }, { 249,-2415 }, { 250,-2415 }, { 251,-2415 },
- { 252,-2415 }, { 253,-2415 }, { 254,-2415 }, { 255,-2415 }, { 256,-2415 },
- {   0,   0 }, {   0,10508 }, {   1,-2673 }, {   2,-2673 }, {   3,-2673 },
-
- {   4,-2673 }, {   5,-2673 }, {   6,-2673 }, {   7,-2673 }, {   8,-2673 },
- {   9,-2698 }, {  10,-2698 }, {  11,-2673 }, {  12,-2673 }, {  13,-2698 },
- {  14,-2673 }, {  15,-2673 }, {  16,-2673 }, {  17,-2673 }, {  18,-2673 },
- {  19,-2673 }, {  20,-2673 }, {  21,-2673 }, {  22,-2673 }, {  23,-2673 },
- {  24,-2673 }, {  25,-2673 }, {  26,-2673 }, {  27,-2673 }, {  28,-2673 },
- {  29,-2673 }, {  30,-2673 }, {  31,-2673 }, {  32,-2698 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-2673 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-2698 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-2673 }, {  46,-2698 }, {  47,-2698 }, {  48,-2673 },
- {  49,-2673 }, {  50,-2673 }, {  51,-2673 }, {  52,-2673 }, {  53,-2673 },
-
- {  54,-2673 }, {  55,-2673 }, {  56,-2673 }, {  57,-2673 }, {  58,-2673 },
- {   0,   0 }, {   0,   0 }, {  61,-2698 }, {   0,   0 }, {  63,-2673 },
- {   0,   0 }, {  65,-2673 }, {  66,-2673 }, {  67,-2673 }, {  68,-2673 },
- {  69,-2673 }, {  70,-2673 }, {  71,-2673 }, {  72,-2673 }, {  73,-2673 },
- {  74,-2673 }, {  75,-2673 }, {  76,-2673 }, {  77,-2673 }, {  78,-2673 },
- {  79,-2673 }, {  80,-2673 }, {  81,-2673 }, {  82,-2673 }, {  83,-2673 },
- {  84,-2673 }, {  85,-2673 }, {  86,-2673 }, {  87,-2673 }, {  88,-2673 },
- {  89,-2673 }, {  90,-2673 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-2673 }, {   0,   0 }, {  97,-2673 }, {  98,-2673 },
- {  99,-2673 }, { 100,-2673 }, { 101,-2673 }, { 102,-2673 }, { 103,-2673 },
-
- { 104,-2673 }, { 105,-2673 }, { 106,-2673 }, { 107,-2673 }, { 108,3229 },
- { 109,-2673 }, { 110,-2673 }, { 111,-2673 }, { 112,-2673 }, { 113,-2673 },
- { 114,-2673 }, { 115,-2673 }, { 116,-2673 }, { 117,-2673 }, { 118,-2673 },
- { 119,-2673 }, { 120,-2673 }, { 121,-2673 }, { 122,-2673 }, {   0,   0 },
- { 124,-2698 }, { 125,-2698 }, { 126,-2698 }, { 127,-2673 }, { 128,-2673 },
- { 129,-2673 }, { 130,-2673 }, { 131,-2673 }, { 132,-2673 }, { 133,-2673 },
- { 134,-2673 }, { 135,-2673 }, { 136,-2673 }, { 137,-2673 }, { 138,-2673 },
- { 139,-2673 }, { 140,-2673 }, { 141,-2673 }, { 142,-2673 }, { 143,-2673 },
- { 144,-2673 }, { 145,-2673 }, { 146,-2673 }, { 147,-2673 }, { 148,-2673 },
- { 149,-2673 }, { 150,-2673 }, { 151,-2673 }, { 152,-2673 }, { 153,-2673 },
-
- { 154,-2673 }, { 155,-2673 }, { 156,-2673 }, { 157,-2673 }, { 158,-2673 },
- { 159,-2673 }, { 160,-2673 }, { 161,-2673 }, { 162,-2673 }, { 163,-2673 },
- { 164,-2673 }, { 165,-2673 }, { 166,-2673 }, { 167,-2673 }, { 168,-2673 },
- { 169,-2673 }, { 170,-2673 }, { 171,-2673 }, { 172,-2673 }, { 173,-2673 },
- { 174,-2673 }, { 175,-2673 }, { 176,-2673 }, { 177,-2673 }, { 178,-2673 },
- { 179,-2673 }, { 180,-2673 }, { 181,-2673 }, { 182,-2673 }, { 183,-2673 },
- { 184,-2673 }, { 185,-2673 }, { 186,-2673 }, { 187,-2673 }, { 188,-2673 },
- { 189,-2673 }, { 190,-2673 }, { 191,-2673 }, { 192,-2673 }, { 193,-2673 },
- { 194,-2673 }, { 195,-2673 }, { 196,-2673 }, { 197,-2673 }, { 198,-2673 },
- { 199,-2673 }, { 200,-2673 }, { 201,-2673 }, { 202,-2673 }, { 203,-2673 },
-
- { 204,-2673 }, { 205,-2673 }, { 206,-2673 }, { 207,-2673 }, { 208,-2673 },
- { 209,-2673 }, { 210,-2673 }, { 211,-2673 }, { 212,-2673 }, { 213,-2673 },
- { 214,-2673 }, { 215,-2673 }, { 216,-2673 }, { 217,-2673 }, { 218,-2673 },
- { 219,-2673 }, { 220,-2673 }, { 221,-2673 }, { 222,-2673 }, { 223,-2673 },
- { 224,-2673 }, { 225,-2673 }, { 226,-2673 }, { 227,-2673 }, { 228,-2673 },
- { 229,-2673 }, { 230,-2673 }, { 231,-2673 }, { 232,-2673 }, { 233,-2673 },
- { 234,-2673 }, { 235,-2673 }, { 236,-2673 }, { 237,-2673 }, { 238,-2673 },
- { 239,-2673 }, { 240,-2673 }, { 241,-2673 }, { 242,-2673 }, { 243,-2673 },
- { 244,-2673 }, { 245,-2673 }, { 246,-2673 }, { 247,-2673 }, { 248,-2673 },
- { 249,-2673 }, { 250,-2673 }, { 251,-2673 }, { 252,-2673 }, { 253,-2673 },
-
- { 254,-2673 }, { 255,-2673 }, { 256,-2673 }, {   0,   0 }, {   0,10250 },
- {   1,-2931 }, {   2,-2931 }, {   3,-2931 }, {   4,-2931 }, {   5,-2931 },
- {   6,-2931 }, {   7,-2931 }, {   8,-2931 }, {   9,-2956 }, {  10,-2956 },
- {  11,-2931 }, {  12,-2931 }, {  13,-2956 }, {  14,-2931 }, {  15,-2931 },
- {  16,-2931 }, {  17,-2931 }, {  18,-2931 }, {  19,-2931 }, {  20,-2931 },
- {  21,-2931 }, {  22,-2931 }, {  23,-2931 }, {  24,-2931 }, {  25,-2931 },
- {  26,-2931 }, {  27,-2931 }, {  28,-2931 }, {  29,-2931 }, {  30,-2931 },
- {  31,-2931 }, {  32,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-2931 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-2956 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-2931 },
-
- {  46,-2956 }, {  47,-2956 }, {  48,-2931 }, {  49,-2931 }, {  50,-2931 },
- {  51,-2931 }, {  52,-2931 }, {  53,-2931 }, {  54,-2931 }, {  55,-2931 },
- {  56,-2931 }, {  57,-2931 }, {  58,-2931 }, {   0,   0 }, {   0,   0 },
- {  61,-2956 }, {   0,   0 }, {  63,-2931 }, {   0,   0 }, {  65,-2931 },
- {  66,-2931 }, {  67,-2931 }, {  68,-2931 }, {  69,-2931 }, {  70,-2931 },
- {  71,-2931 }, {  72,-2931 }, {  73,-2931 }, {  74,-2931 }, {  75,-2931 },
- {  76,-2931 }, {  77,-2931 }, {  78,-2931 }, {  79,-2931 }, {  80,-2931 },
- {  81,-2931 }, {  82,-2931 }, {  83,-2931 }, {  84,-2931 }, {  85,-2931 },
- {  86,-2931 }, {  87,-2931 }, {  88,-2931 }, {  89,-2931 }, {  90,-2931 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-2931 },
-
- {   0,   0 }, {  97,-2931 }, {  98,-2931 }, {  99,-2931 }, { 100,-2931 },
- { 101,-2931 }, { 102,-2931 }, { 103,-2931 }, { 104,-2931 }, { 105,-2931 },
- { 106,-2931 }, { 107,-2931 }, { 108,-2931 }, { 109,-2931 }, { 110,-2931 },
- { 111,-2931 }, { 112,-2931 }, { 113,-2931 }, { 114,-2931 }, { 115,-2931 },
- { 116,-2931 }, { 117,3229 }, { 118,-2931 }, { 119,-2931 }, { 120,-2931 },
- { 121,-2931 }, { 122,-2931 }, {   0,   0 }, { 124,-2956 }, { 125,-2956 },
- { 126,-2956 }, { 127,-2931 }, { 128,-2931 }, { 129,-2931 }, { 130,-2931 },
- { 131,-2931 }, { 132,-2931 }, { 133,-2931 }, { 134,-2931 }, { 135,-2931 },
- { 136,-2931 }, { 137,-2931 }, { 138,-2931 }, { 139,-2931 }, { 140,-2931 },
- { 141,-2931 }, { 142,-2931 }, { 143,-2931 }, { 144,-2931 }, { 145,-2931 },
-
- { 146,-2931 }, { 147,-2931 }, { 148,-2931 }, { 149,-2931 }, { 150,-2931 },
- { 151,-2931 }, { 152,-2931 }, { 153,-2931 }, { 154,-2931 }, { 155,-2931 },
- { 156,-2931 }, { 157,-2931 }, { 158,-2931 }, { 159,-2931 }, { 160,-2931 },
- { 161,-2931 }, { 162,-2931 }, { 163,-2931 }, { 164,-2931 }, { 165,-2931 },
- { 166,-2931 }, { 167,-2931 }, { 168,-2931 }, { 169,-2931 }, { 170,-2931 },
- { 171,-2931 }, { 172,-2931 }, { 173,-2931 }, { 174,-2931 }, { 175,-2931 },
- { 176,-2931 }, { 177,-2931 }, { 178,-2931 }, { 179,-2931 }, { 180,-2931 },
- { 181,-2931 }, { 182,-2931 }, { 183,-2931 }, { 184,-2931 }, { 185,-2931 },
- { 186,-2931 }, { 187,-2931 }, { 188,-2931 }, { 189,-2931 }, { 190,-2931 },
- { 191,-2931 }, { 192,-2931 }, { 193,-2931 }, { 194,-2931 }, { 195,-2931 },
-
- { 196,-2931 }, { 197,-2931 }, { 198,-2931 }, { 199,-2931 }, { 200,-2931 },
- { 201,-2931 }, { 202,-2931 }, { 203,-2931 }, { 204,-2931 }, { 205,-2931 },
- { 206,-2931 }, { 207,-2931 }, { 208,-2931 }, { 209,-2931 }, { 210,-2931 },
- { 211,-2931 }, { 212,-2931 }, { 213,-2931 }, { 214,-2931 }, { 215,-2931 },
- { 216,-2931 }, { 217,-2931 }, { 218,-2931 }, { 219,-2931 }, { 220,-2931 },
- { 221,-2931 }, { 222,-2931 }, { 223,-2931 }, { 224,-2931 }, { 225,-2931 },
- { 226,-2931 }, { 227,-2931 }, { 228,-2931 }, { 229,-2931 }, { 230,-2931 },
- { 231,-2931 }, { 232,-2931 }, { 233,-2931 }, { 234,-2931 }, { 235,-2931 },
- { 236,-2931 }, { 237,-2931 }, { 238,-2931 }, { 239,-2931 }, { 240,-2931 },
- { 241,-2931 }, { 242,-2931 }, { 243,-2931 }, { 244,-2931 }, { 245,-2931 },
-
- { 246,-2931 }, { 247,-2931 }, { 248,-2931 }, { 249,-2931 }, { 250,-2931 },
- { 251,-2931 }, { 252,-2931 }, { 253,-2931 }, { 254,-2931 }, { 255,-2931 },
- { 256,-2931 }, {   0,   0 }, {   0,9992 }, {   1,-3189 }, {   2,-3189 },
- {   3,-3189 }, {   4,-3189 }, {   5,-3189 }, {   6,-3189 }, {   7,-3189 },
- {   8,-3189 }, {   9,-3214 }, {  10,-3214 }, {  11,-3189 }, {  12,-3189 },
- {  13,-3214 }, {  14,-3189 }, {  15,-3189 }, {  16,-3189 }, {  17,-3189 },
- {  18,-3189 }, {  19,-3189 }, {  20,-3189 }, {  21,-3189 }, {  22,-3189 },
- {  23,-3189 }, {  24,-3189 }, {  25,-3189 }, {  26,-3189 }, {  27,-3189 },
- {  28,-3189 }, {  29,-3189 }, {  30,-3189 }, {  31,-3189 }, {  32,-3214 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-3189 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-3214 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-3189 }, {  46,-3214 }, {  47,-3214 },
- {  48,-3189 }, {  49,-3189 }, {  50,-3189 }, {  51,-3189 }, {  52,-3189 },
- {  53,-3189 }, {  54,-3189 }, {  55,-3189 }, {  56,-3189 }, {  57,-3189 },
- {  58,-3189 }, {   0,   0 }, {   0,   0 }, {  61,-3214 }, {   0,   0 },
- {  63,-3189 }, {   0,   0 }, {  65,-3189 }, {  66,-3189 }, {  67,-3189 },
- {  68,-3189 }, {  69,-3189 }, {  70,-3189 }, {  71,-3189 }, {  72,-3189 },
- {  73,-3189 }, {  74,-3189 }, {  75,-3189 }, {  76,-3189 }, {  77,-3189 },
- {  78,-3189 }, {  79,-3189 }, {  80,-3189 }, {  81,-3189 }, {  82,-3189 },
- {  83,-3189 }, {  84,-3189 }, {  85,-3189 }, {  86,-3189 }, {  87,-3189 },
-
- {  88,-3189 }, {  89,-3189 }, {  90,-3189 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-3189 }, {   0,   0 }, {  97,-3189 },
- {  98,-3189 }, {  99,-3189 }, { 100,3229 }, { 101,-3189 }, { 102,-3189 },
- { 103,-3189 }, { 104,-3189 }, { 105,-3189 }, { 106,-3189 }, { 107,-3189 },
- { 108,-3189 }, { 109,-3189 }, { 110,-3189 }, { 111,-3189 }, { 112,-3189 },
- { 113,-3189 }, { 114,-3189 }, { 115,-3189 }, { 116,-3189 }, { 117,-3189 },
- { 118,-3189 }, { 119,-3189 }, { 120,-3189 }, { 121,-3189 }, { 122,-3189 },
- {   0,   0 }, { 124,-3214 }, { 125,-3214 }, { 126,-3214 }, { 127,-3189 },
- { 128,-3189 }, { 129,-3189 }, { 130,-3189 }, { 131,-3189 }, { 132,-3189 },
- { 133,-3189 }, { 134,-3189 }, { 135,-3189 }, { 136,-3189 }, { 137,-3189 },
-
- { 138,-3189 }, { 139,-3189 }, { 140,-3189 }, { 141,-3189 }, { 142,-3189 },
- { 143,-3189 }, { 144,-3189 }, { 145,-3189 }, { 146,-3189 }, { 147,-3189 },
- { 148,-3189 }, { 149,-3189 }, { 150,-3189 }, { 151,-3189 }, { 152,-3189 },
- { 153,-3189 }, { 154,-3189 }, { 155,-3189 }, { 156,-3189 }, { 157,-3189 },
- { 158,-3189 }, { 159,-3189 }, { 160,-3189 }, { 161,-3189 }, { 162,-3189 },
- { 163,-3189 }, { 164,-3189 }, { 165,-3189 }, { 166,-3189 }, { 167,-3189 },
- { 168,-3189 }, { 169,-3189 }, { 170,-3189 }, { 171,-3189 }, { 172,-3189 },
- { 173,-3189 }, { 174,-3189 }, { 175,-3189 }, { 176,-3189 }, { 177,-3189 },
- { 178,-3189 }, { 179,-3189 }, { 180,-3189 }, { 181,-3189 }, { 182,-3189 },
- { 183,-3189 }, { 184,-3189 }, { 185,-3189 }, { 186,-3189 }, { 187,-3189 },
-
- { 188,-3189 }, { 189,-3189 }, { 190,-3189 }, { 191,-3189 }, { 192,-3189 },
- { 193,-3189 }, { 194,-3189 }, { 195,-3189 }, { 196,-3189 }, { 197,-3189 },
- { 198,-3189 }, { 199,-3189 }, { 200,-3189 }, { 201,-3189 }, { 202,-3189 },
- { 203,-3189 }, { 204,-3189 }, { 205,-3189 }, { 206,-3189 }, { 207,-3189 },
- { 208,-3189 }, { 209,-3189 }, { 210,-3189 }, { 211,-3189 }, { 212,-3189 },
- { 213,-3189 }, { 214,-3189 }, { 215,-3189 }, { 216,-3189 }, { 217,-3189 },
- { 218,-3189 }, { 219,-3189 }, { 220,-3189 }, { 221,-3189 }, { 222,-3189 },
- { 223,-3189 }, { 224,-3189 }, { 225,-3189 }, { 226,-3189 }, { 227,-3189 },
- { 228,-3189 }, { 229,-3189 }, { 230,-3189 }, { 231,-3189 }, { 232,-3189 },
- { 233,-3189 }, { 234,-3189 }, { 235,-3189 }, { 236,-3189 }, { 237,-3189 },
-
- { 238,-3189 }, { 239,-3189 }, { 240,-3189 }, { 241,-3189 }, { 242,-3189 },
- { 243,-3189 }, { 244,-3189 }, { 245,-3189 }, { 246,-3189 }, { 247,-3189 },
- { 248,-3189 }, { 249,-3189 }, { 250,-3189 }, { 251,-3189 }, { 252,-3189 },
- { 253,-3189 }, { 254,-3189 }, { 255,-3189 }, { 256,-3189 }, {   0,  31 },
- {   0,9734 }, {   0,  38 }, {   0,9732 }, {   0,   0 }, {   0,9730 },
- {   0,   0 }, {   0,9728 }, {   0,   0 }, {   0,9726 }, {   9,3229 },
- {  10,3229 }, {   0,  13 }, {   0,9722 }, {  13,3229 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  32,3229 }, {  33,1813 }, {   0,   0 },
- {  35,1815 }, {   0,   0 }, {   0,   0 }, {  38,1817 }, {   0,   0 },
- {   0,   0 }, {  33,3371 }, {  42,1819 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  47,1823 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,1826 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  94,3231 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 101,3233 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 123,3235 }, {   0,   0 },
- {   0,   0 }, { 126,3237 }, { 125,3247 }, {   0,   0 }, { 125,3248 },
-
- {   0,   0 }, { 125,3248 }, {   0,   0 }, {   0,   0 }, { 126,3248 },
- {   0,   0 }, {   0,9598 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
- {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
- {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
- {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
- {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
- {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
- {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
- {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
-
- {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
- {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
- {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
- {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
- {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
- {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
- {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
- {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
-
- {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
- {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
- { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
- { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
- { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
- { 124,   0 }, { 125, 258 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
- { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
- { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
- { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
-
- { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
- { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
- { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
- { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
- { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
- { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
- { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
- { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
- { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
- { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
-
- { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
- { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
- { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
- { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
- { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
- { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
- { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
- { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
- { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
- { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
-
- { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
- { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,9340 },
- {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
- {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
- {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
- {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
- {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
- {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
- {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
-
- {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
- {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,-258 },
- {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
- {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
- {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
- {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
- {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
- {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
- {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
- {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
-
- {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
- {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
- {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
- { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
- { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
- { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
- { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
- { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-382 },
- { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
- { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
-
- { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
- { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
- { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
- { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
- { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
- { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
- { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
- { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
- { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
- { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
-
- { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
- { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
- { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
- { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
- { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
- { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
- { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
- { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
- { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
- { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
-
- { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
- { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
- { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
- { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,  10 }, {   0,9082 }, {   1,   0 }, {   2,   0 },
- {   3,   0 }, {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 },
- {   8,   0 }, {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 },
- {  13,   0 }, {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 },
- {  18,   0 }, {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 },
- {  23,   0 }, {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 },
-
- {  28,   0 }, {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 },
- {  33,   0 }, {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 },
- {  38,   0 }, {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 },
- {  43,   0 }, {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 },
- {  48,   0 }, {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 },
- {  53,   0 }, {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 },
- {  58,   0 }, {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 },
- {  63,   0 }, {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 },
- {  68,   0 }, {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 },
- {  73,   0 }, {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 },
-
- {  78,   0 }, {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 },
- {  83,   0 }, {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 },
- {  88,   0 }, {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 },
- {  93,   0 }, {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 },
- {  98,   0 }, {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 },
- { 103,   0 }, { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 },
- { 108,   0 }, { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 },
- { 113,   0 }, { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 },
- { 118,   0 }, { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 },
- {   0,   0 }, { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 },
-
- { 128,   0 }, { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 },
- { 133,   0 }, { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 },
- { 138,   0 }, { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 },
- { 143,   0 }, { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 },
- { 148,   0 }, { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 },
- { 153,   0 }, { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 },
- { 158,   0 }, { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 },
- { 163,   0 }, { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 },
- { 168,   0 }, { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 },
- { 173,   0 }, { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 },
-
- { 178,   0 }, { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 },
- { 183,   0 }, { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 },
- { 188,   0 }, { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 },
- { 193,   0 }, { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 },
- { 198,   0 }, { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 },
- { 203,   0 }, { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 },
- { 208,   0 }, { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 },
- { 213,   0 }, { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 },
- { 218,   0 }, { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 },
- { 223,   0 }, { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 },
-
- { 228,   0 }, { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 },
- { 233,   0 }, { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 },
- { 238,   0 }, { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 },
- { 243,   0 }, { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 },
- { 248,   0 }, { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 },
- { 253,   0 }, { 254,   0 }, { 255,   0 }, {   0,   0 }, {   0,8825 },
- {   0,   0 }, {   0,8823 }, {   0,   0 }, {   0,8821 }, {   0,   5 },
- {   0,8819 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,  49 }, {   0,8728 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, { 123,2728 }, {   0,   0 }, { 123,2728 },
- {   0,   0 }, { 123,2728 }, {   0,   4 }, {   0,8696 }, {   1,2728 },
- {   2,2728 }, {   3,2728 }, {   4,2728 }, {   5,2728 }, {   6,2728 },
- {   7,2728 }, {   8,2728 }, {   9,2728 }, {  10,2605 }, {  11,2728 },
- {  12,2728 }, {  13,2605 }, {  14,2728 }, {  15,2728 }, {  16,2728 },
- {  17,2728 }, {  18,2728 }, {  19,2728 }, {  20,2728 }, {  21,2728 },
- {  22,2728 }, {  23,2728 }, {  24,2728 }, {  25,2728 }, {  26,2728 },
- {  27,2728 }, {  28,2728 }, {  29,2728 }, {  30,2728 }, {  31,2728 },
- {  32,2728 }, {  33,2728 }, {  34,2728 }, {  35,2728 }, {  36,2728 },
- {  37,2728 }, {  38,2728 }, {  39,2728 }, {  40,2728 }, {  41,2728 },
-
- {  42,2728 }, {  43,2728 }, {  44,2728 }, {  45,2728 }, {  46,2728 },
- {  47,2728 }, {  48,2728 }, {  49,2728 }, {  50,2728 }, {  51,2728 },
- {  52,2728 }, {  53,2728 }, {  54,2728 }, {  55,2728 }, {  56,2728 },
- {  57,2728 }, {  58,2728 }, {  59,2728 }, {  60,2728 }, {  61,2728 },
- {  62,2728 }, {  63,2728 }, {  64,2728 }, {  65,2728 }, {  66,2728 },
- {  67,2728 }, {  68,2728 }, {  69,2728 }, {  70,2728 }, {  71,2728 },
- {  72,2728 }, {  73,2728 }, {  74,2728 }, {  75,2728 }, {  76,2728 },
- {  77,2728 }, {  78,2728 }, {  79,2728 }, {  80,2728 }, {  81,2728 },
- {  82,2728 }, {  83,2728 }, {  84,2728 }, {  85,2728 }, {  86,2728 },
- {  87,2728 }, {  88,2728 }, {  89,2728 }, {  90,2728 }, {  91,2728 },
-
- { 124,2641 }, {  93,2728 }, {  94,2728 }, {  95,2728 }, {  96,2728 },
- {  97,2728 }, {  98,2728 }, {  99,2728 }, { 100,2728 }, { 101,2728 },
- { 102,2728 }, { 103,2728 }, { 104,2728 }, { 105,2728 }, { 106,2728 },
- { 107,2728 }, { 108,2728 }, { 109,2728 }, { 110,2728 }, { 111,2728 },
- { 112,2728 }, { 113,2728 }, { 114,2728 }, { 115,2728 }, { 116,2728 },
- { 117,2728 }, { 118,2728 }, { 119,2728 }, { 120,2728 }, { 121,2728 },
- { 122,2728 }, { 123,2985 }, { 124,2728 }, { 125,2728 }, { 126,2728 },
- { 127,2728 }, { 128,2728 }, { 129,2728 }, { 130,2728 }, { 131,2728 },
- { 132,2728 }, { 133,2728 }, { 134,2728 }, { 135,2728 }, { 136,2728 },
- { 137,2728 }, { 138,2728 }, { 139,2728 }, { 140,2728 }, { 141,2728 },
-
- { 142,2728 }, { 143,2728 }, { 144,2728 }, { 145,2728 }, { 146,2728 },
- { 147,2728 }, { 148,2728 }, { 149,2728 }, { 150,2728 }, { 151,2728 },
- { 152,2728 }, { 153,2728 }, { 154,2728 }, { 155,2728 }, { 156,2728 },
- { 157,2728 }, { 158,2728 }, { 159,2728 }, { 160,2728 }, { 161,2728 },
- { 162,2728 }, { 163,2728 }, { 164,2728 }, { 165,2728 }, { 166,2728 },
- { 167,2728 }, { 168,2728 }, { 169,2728 }, { 170,2728 }, { 171,2728 },
- { 172,2728 }, { 173,2728 }, { 174,2728 }, { 175,2728 }, { 176,2728 },
- { 177,2728 }, { 178,2728 }, { 179,2728 }, { 180,2728 }, { 181,2728 },
- { 182,2728 }, { 183,2728 }, { 184,2728 }, { 185,2728 }, { 186,2728 },
- { 187,2728 }, { 188,2728 }, { 189,2728 }, { 190,2728 }, { 191,2728 },
-
- { 192,2728 }, { 193,2728 }, { 194,2728 }, { 195,2728 }, { 196,2728 },
- { 197,2728 }, { 198,2728 }, { 199,2728 }, { 200,2728 }, { 201,2728 },
- { 202,2728 }, { 203,2728 }, { 204,2728 }, { 205,2728 }, { 206,2728 },
- { 207,2728 }, { 208,2728 }, { 209,2728 }, { 210,2728 }, { 211,2728 },
- { 212,2728 }, { 213,2728 }, { 214,2728 }, { 215,2728 }, { 216,2728 },
- { 217,2728 }, { 218,2728 }, { 219,2728 }, { 220,2728 }, { 221,2728 },
- { 222,2728 }, { 223,2728 }, { 224,2728 }, { 225,2728 }, { 226,2728 },
- { 227,2728 }, { 228,2728 }, { 229,2728 }, { 230,2728 }, { 231,2728 },
- { 232,2728 }, { 233,2728 }, { 234,2728 }, { 235,2728 }, { 236,2728 },
- { 237,2728 }, { 238,2728 }, { 239,2728 }, { 240,2728 }, { 241,2728 },
-
- { 242,2728 }, { 243,2728 }, { 244,2728 }, { 245,2728 }, { 246,2728 },
- { 247,2728 }, { 248,2728 }, { 249,2728 }, { 250,2728 }, { 251,2728 },
- { 252,2728 }, { 253,2728 }, { 254,2728 }, { 255,2728 }, {   0,  39 },
- {   0,8439 }, {   1,-4450 }, {   2,-4450 }, {   3,-4450 }, {   4,-4450 },
- {   5,-4450 }, {   6,-4450 }, {   7,-4450 }, {   8,-4450 }, {   9,-4450 },
- {  10,-4450 }, {  11,-4450 }, {  12,-4450 }, {  13,-4450 }, {  14,-4450 },
- {  15,-4450 }, {  16,-4450 }, {  17,-4450 }, {  18,-4450 }, {  19,-4450 },
- {  20,-4450 }, {  21,-4450 }, {  22,-4450 }, {  23,-4450 }, {  24,-4450 },
- {  25,-4450 }, {  26,-4450 }, {  27,-4450 }, {  28,-4450 }, {  29,-4450 },
- {  30,-4450 }, {  31,-4450 }, {  32,-4450 }, {  33,-4450 }, {  34,-4482 },
-
- {  35,-4450 }, {  36,-4450 }, {  37,-4450 }, {  38,-4450 }, {  39,-4450 },
- {  40,-4450 }, {  41,-4450 }, {  42,-4450 }, {  43,-4450 }, {  44,-4450 },
- {  45,-4450 }, {  46,-4450 }, {  47,-4450 }, {  48,-4450 }, {  49,-4450 },
- {  50,-4450 }, {  51,-4450 }, {  52,-4450 }, {  53,-4450 }, {  54,-4450 },
- {  55,-4450 }, {  56,-4450 }, {  57,-4450 }, {  58,-4450 }, {  59,-4450 },
- {  60,-4450 }, {  61,-4450 }, {  62,-4450 }, {  63,-4450 }, {  64,-4450 },
- {  65,-4450 }, {  66,-4450 }, {  67,-4450 }, {  68,-4450 }, {  69,-4450 },
- {  70,-4450 }, {  71,-4450 }, {  72,-4450 }, {  73,-4450 }, {  74,-4450 },
- {  75,-4450 }, {  76,-4450 }, {  77,-4450 }, {  78,-4450 }, {  79,-4450 },
- {  80,-4450 }, {  81,-4450 }, {  82,-4450 }, {  83,-4450 }, {  84,-4450 },
-
- {  85,-4450 }, {  86,-4450 }, {  87,-4450 }, {  88,-4450 }, {  89,-4450 },
- {  90,-4450 }, {  91,-4450 }, {  92,-4192 }, {  93,-4450 }, {  94,-4450 },
- {  95,-4450 }, {  96,-4450 }, {  97,-4450 }, {  98,-4450 }, {  99,-4450 },
- { 100,-4450 }, { 101,-4450 }, { 102,-4450 }, { 103,-4450 }, { 104,-4450 },
- { 105,-4450 }, { 106,-4450 }, { 107,-4450 }, { 108,-4450 }, { 109,-4450 },
- { 110,-4450 }, { 111,-4450 }, { 112,-4450 }, { 113,-4450 }, { 114,-4450 },
- { 115,-4450 }, { 116,-4450 }, { 117,-4450 }, { 118,-4450 }, { 119,-4450 },
- { 120,-4450 }, { 121,-4450 }, { 122,-4450 }, { 123,-4450 }, { 124,-4450 },
- { 125,-4450 }, { 126,-4450 }, { 127,-4450 }, { 128,-4450 }, { 129,-4450 },
- { 130,-4450 }, { 131,-4450 }, { 132,-4450 }, { 133,-4450 }, { 134,-4450 },
-
- { 135,-4450 }, { 136,-4450 }, { 137,-4450 }, { 138,-4450 }, { 139,-4450 },
- { 140,-4450 }, { 141,-4450 }, { 142,-4450 }, { 143,-4450 }, { 144,-4450 },
- { 145,-4450 }, { 146,-4450 }, { 147,-4450 }, { 148,-4450 }, { 149,-4450 },
- { 150,-4450 }, { 151,-4450 }, { 152,-4450 }, { 153,-4450 }, { 154,-4450 },
- { 155,-4450 }, { 156,-4450 }, { 157,-4450 }, { 158,-4450 }, { 159,-4450 },
- { 160,-4450 }, { 161,-4450 }, { 162,-4450 }, { 163,-4450 }, { 164,-4450 },
- { 165,-4450 }, { 166,-4450 }, { 167,-4450 }, { 168,-4450 }, { 169,-4450 },
- { 170,-4450 }, { 171,-4450 }, { 172,-4450 }, { 173,-4450 }, { 174,-4450 },
- { 175,-4450 }, { 176,-4450 }, { 177,-4450 }, { 178,-4450 }, { 179,-4450 },
- { 180,-4450 }, { 181,-4450 }, { 182,-4450 }, { 183,-4450 }, { 184,-4450 },
-
- { 185,-4450 }, { 186,-4450 }, { 187,-4450 }, { 188,-4450 }, { 189,-4450 },
- { 190,-4450 }, { 191,-4450 }, { 192,-4450 }, { 193,-4450 }, { 194,-4450 },
- { 195,-4450 }, { 196,-4450 }, { 197,-4450 }, { 198,-4450 }, { 199,-4450 },
- { 200,-4450 }, { 201,-4450 }, { 202,-4450 }, { 203,-4450 }, { 204,-4450 },
- { 205,-4450 }, { 206,-4450 }, { 207,-4450 }, { 208,-4450 }, { 209,-4450 },
- { 210,-4450 }, { 211,-4450 }, { 212,-4450 }, { 213,-4450 }, { 214,-4450 },
- { 215,-4450 }, { 216,-4450 }, { 217,-4450 }, { 218,-4450 }, { 219,-4450 },
- { 220,-4450 }, { 221,-4450 }, { 222,-4450 }, { 223,-4450 }, { 224,-4450 },
- { 225,-4450 }, { 226,-4450 }, { 227,-4450 }, { 228,-4450 }, { 229,-4450 },
- { 230,-4450 }, { 231,-4450 }, { 232,-4450 }, { 233,-4450 }, { 234,-4450 },
-
- { 235,-4450 }, { 236,-4450 }, { 237,-4450 }, { 238,-4450 }, { 239,-4450 },
- { 240,-4450 }, { 241,-4450 }, { 242,-4450 }, { 243,-4450 }, { 244,-4450 },
- { 245,-4450 }, { 246,-4450 }, { 247,-4450 }, { 248,-4450 }, { 249,-4450 },
- { 250,-4450 }, { 251,-4450 }, { 252,-4450 }, { 253,-4450 }, { 254,-4450 },
- { 255,-4450 }, { 256,-4450 }, {   0,  40 }, {   0,8181 }, {   1,-4192 },
- {   2,-4192 }, {   3,-4192 }, {   4,-4192 }, {   5,-4192 }, {   6,-4192 },
- {   7,-4192 }, {   8,-4192 }, {   9,-4192 }, {  10,-4192 }, {  11,-4192 },
- {  12,-4192 }, {  13,-4192 }, {  14,-4192 }, {  15,-4192 }, {  16,-4192 },
- {  17,-4192 }, {  18,-4192 }, {  19,-4192 }, {  20,-4192 }, {  21,-4192 },
- {  22,-4192 }, {  23,-4192 }, {  24,-4192 }, {  25,-4192 }, {  26,-4192 },
-
- {  27,-4192 }, {  28,-4192 }, {  29,-4192 }, {  30,-4192 }, {  31,-4192 },
- {  32,-4192 }, {  33,-4192 }, {  34,-4192 }, {  35,-4192 }, {  36,-4192 },
- {  37,-4192 }, {  38,-4192 }, {  39,-4738 }, {  40,-4192 }, {  41,-4192 },
- {  42,-4192 }, {  43,-4192 }, {  44,-4192 }, {  45,-4192 }, {  46,-4192 },
- {  47,-4192 }, {  48,-4192 }, {  49,-4192 }, {  50,-4192 }, {  51,-4192 },
- {  52,-4192 }, {  53,-4192 }, {  54,-4192 }, {  55,-4192 }, {  56,-4192 },
- {  57,-4192 }, {  58,-4192 }, {  59,-4192 }, {  60,-4192 }, {  61,-4192 },
- {  62,-4192 }, {  63,-4192 }, {  64,-4192 }, {  65,-4192 }, {  66,-4192 },
- {  67,-4192 }, {  68,-4192 }, {  69,-4192 }, {  70,-4192 }, {  71,-4192 },
- {  72,-4192 }, {  73,-4192 }, {  74,-4192 }, {  75,-4192 }, {  76,-4192 },
-
- {  77,-4192 }, {  78,-4192 }, {  79,-4192 }, {  80,-4192 }, {  81,-4192 },
- {  82,-4192 }, {  83,-4192 }, {  84,-4192 }, {  85,-4192 }, {  86,-4192 },
- {  87,-4192 }, {  88,-4192 }, {  89,-4192 }, {  90,-4192 }, {  91,-4192 },
- {  92,-3934 }, {  93,-4192 }, {  94,-4192 }, {  95,-4192 }, {  96,-4192 },
- {  97,-4192 }, {  98,-4192 }, {  99,-4192 }, { 100,-4192 }, { 101,-4192 },
- { 102,-4192 }, { 103,-4192 }, { 104,-4192 }, { 105,-4192 }, { 106,-4192 },
- { 107,-4192 }, { 108,-4192 }, { 109,-4192 }, { 110,-4192 }, { 111,-4192 },
- { 112,-4192 }, { 113,-4192 }, { 114,-4192 }, { 115,-4192 }, { 116,-4192 },
- { 117,-4192 }, { 118,-4192 }, { 119,-4192 }, { 120,-4192 }, { 121,-4192 },
- { 122,-4192 }, { 123,-4192 }, { 124,-4192 }, { 125,-4192 }, { 126,-4192 },
-
- { 127,-4192 }, { 128,-4192 }, { 129,-4192 }, { 130,-4192 }, { 131,-4192 },
- { 132,-4192 }, { 133,-4192 }, { 134,-4192 }, { 135,-4192 }, { 136,-4192 },
- { 137,-4192 }, { 138,-4192 }, { 139,-4192 }, { 140,-4192 }, { 141,-4192 },
- { 142,-4192 }, { 143,-4192 }, { 144,-4192 }, { 145,-4192 }, { 146,-4192 },
- { 147,-4192 }, { 148,-4192 }, { 149,-4192 }, { 150,-4192 }, { 151,-4192 },
- { 152,-4192 }, { 153,-4192 }, { 154,-4192 }, { 155,-4192 }, { 156,-4192 },
- { 157,-4192 }, { 158,-4192 }, { 159,-4192 }, { 160,-4192 }, { 161,-4192 },
- { 162,-4192 }, { 163,-4192 }, { 164,-4192 }, { 165,-4192 }, { 166,-4192 },
- { 167,-4192 }, { 168,-4192 }, { 169,-4192 }, { 170,-4192 }, { 171,-4192 },
- { 172,-4192 }, { 173,-4192 }, { 174,-4192 }, { 175,-4192 }, { 176,-4192 },
-
- { 177,-4192 }, { 178,-4192 }, { 179,-4192 }, { 180,-4192 }, { 181,-4192 },
- { 182,-4192 }, { 183,-4192 }, { 184,-4192 }, { 185,-4192 }, { 186,-4192 },
- { 187,-4192 }, { 188,-4192 }, { 189,-4192 }, { 190,-4192 }, { 191,-4192 },
- { 192,-4192 }, { 193,-4192 }, { 194,-4192 }, { 195,-4192 }, { 196,-4192 },
- { 197,-4192 }, { 198,-4192 }, { 199,-4192 }, { 200,-4192 }, { 201,-4192 },
- { 202,-4192 }, { 203,-4192 }, { 204,-4192 }, { 205,-4192 }, { 206,-4192 },
- { 207,-4192 }, { 208,-4192 }, { 209,-4192 }, { 210,-4192 }, { 211,-4192 },
- { 212,-4192 }, { 213,-4192 }, { 214,-4192 }, { 215,-4192 }, { 216,-4192 },
- { 217,-4192 }, { 218,-4192 }, { 219,-4192 }, { 220,-4192 }, { 221,-4192 },
- { 222,-4192 }, { 223,-4192 }, { 224,-4192 }, { 225,-4192 }, { 226,-4192 },
-
- { 227,-4192 }, { 228,-4192 }, { 229,-4192 }, { 230,-4192 }, { 231,-4192 },
- { 232,-4192 }, { 233,-4192 }, { 234,-4192 }, { 235,-4192 }, { 236,-4192 },
- { 237,-4192 }, { 238,-4192 }, { 239,-4192 }, { 240,-4192 }, { 241,-4192 },
- { 242,-4192 }, { 243,-4192 }, { 244,-4192 }, { 245,-4192 }, { 246,-4192 },
- { 247,-4192 }, { 248,-4192 }, { 249,-4192 }, { 250,-4192 }, { 251,-4192 },
- { 252,-4192 }, { 253,-4192 }, { 254,-4192 }, { 255,-4192 }, { 256,-4192 },
- {   0,   0 }, {   0,7923 }, {   0,  30 }, {   0,7921 }, {   0,  21 },
- {   0,7919 }, {   0,  28 }, {   0,7917 }, {   0,  31 }, {   0,7915 },
- {   9,1834 }, {  10,1834 }, {   0,  22 }, {   0,7911 }, {  13,1834 },
- {   0,  19 }, {   0,7908 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1834 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1834 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  42,1836 }, {  45,1836 }, {  48,   0 },
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  62,1840 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,1834 }, { 126,1834 }, {   0,  50 }, {   0,7795 },
- {   1,-3745 }, {   2,-3745 }, {   3,-3745 }, {   4,-3745 }, {   5,-3745 },
- {   6,-3745 }, {   7,-3745 }, {   8,-3745 }, {   9,-3745 }, {  10,-3745 },
- {  11,-3745 }, {  12,-3745 }, {  13,-3745 }, {  14,-3745 }, {  15,-3745 },
- {  16,-3745 }, {  17,-3745 }, {  18,-3745 }, {  19,-3745 }, {  20,-3745 },
- {  21,-3745 }, {  22,-3745 }, {  23,-3745 }, {  24,-3745 }, {  25,-3745 },
- {  26,-3745 }, {  27,-3745 }, {  28,-3745 }, {  29,-3745 }, {  30,-3745 },
- {  31,-3745 }, {  32,-3745 }, {  33,-3745 }, {  34,-3745 }, {  35,-3745 },
- {  36,-3745 }, {  37,-3745 }, {  38,-3745 }, {  39,-3745 }, {  40,-3745 },
-
- {  41,-3745 }, {  42,-3745 }, {  43,-3745 }, {  44,-3745 }, {  45,-3745 },
- {  46,-3745 }, {  47,-3745 }, {  48,-3745 }, {  49,-3745 }, {  50,-3745 },
- {  51,-3745 }, {  52,-3745 }, {  53,-3745 }, {  54,-3745 }, {  55,-3745 },
- {  56,-3745 }, {  57,-3745 }, {  58,-3745 }, {  59,-3745 }, {  60,-3745 },
- {  61,-3745 }, {  62,-3745 }, {  63,-3745 }, {  64,-3745 }, {  65,-3745 },
- {  66,-3745 }, {  67,-3745 }, {  68,-3745 }, {  69,-3745 }, {  70,-3745 },
- {  71,-3745 }, {  72,-3745 }, {  73,-3745 }, {  74,-3745 }, {  75,-3745 },
- {  76,-3745 }, {  77,-3745 }, {  78,-3745 }, {  79,-3745 }, {  80,-3745 },
- {  81,-3745 }, {  82,-3745 }, {  83,-3745 }, {  84,-3745 }, {  85,-3745 },
- {  86,-3745 }, {  87,-3745 }, {  88,-3745 }, {  89,-3745 }, {  90,-3745 },
-
- {  91,-3745 }, {  92,-3487 }, {  93,-5113 }, {  94,-3745 }, {  95,-3745 },
- {  96,-3745 }, {  97,-3745 }, {  98,-3745 }, {  99,-3745 }, { 100,-3745 },
- { 101,-3745 }, { 102,-3745 }, { 103,-3745 }, { 104,-3745 }, { 105,-3745 },
- { 106,-3745 }, { 107,-3745 }, { 108,-3745 }, { 109,-3745 }, { 110,-3745 },
- { 111,-3745 }, { 112,-3745 }, { 113,-3745 }, { 114,-3745 }, { 115,-3745 },
- { 116,-3745 }, { 117,-3745 }, { 118,-3745 }, { 119,-3745 }, { 120,-3745 },
- { 121,-3745 }, { 122,-3745 }, { 123,-3745 }, { 124,-3745 }, { 125,-3745 },
- { 126,-3745 }, { 127,-3745 }, { 128,-3745 }, { 129,-3745 }, { 130,-3745 },
- { 131,-3745 }, { 132,-3745 }, { 133,-3745 }, { 134,-3745 }, { 135,-3745 },
- { 136,-3745 }, { 137,-3745 }, { 138,-3745 }, { 139,-3745 }, { 140,-3745 },
-
- { 141,-3745 }, { 142,-3745 }, { 143,-3745 }, { 144,-3745 }, { 145,-3745 },
- { 146,-3745 }, { 147,-3745 }, { 148,-3745 }, { 149,-3745 }, { 150,-3745 },
- { 151,-3745 }, { 152,-3745 }, { 153,-3745 }, { 154,-3745 }, { 155,-3745 },
- { 156,-3745 }, { 157,-3745 }, { 158,-3745 }, { 159,-3745 }, { 160,-3745 },
- { 161,-3745 }, { 162,-3745 }, { 163,-3745 }, { 164,-3745 }, { 165,-3745 },
- { 166,-3745 }, { 167,-3745 }, { 168,-3745 }, { 169,-3745 }, { 170,-3745 },
- { 171,-3745 }, { 172,-3745 }, { 173,-3745 }, { 174,-3745 }, { 175,-3745 },
- { 176,-3745 }, { 177,-3745 }, { 178,-3745 }, { 179,-3745 }, { 180,-3745 },
- { 181,-3745 }, { 182,-3745 }, { 183,-3745 }, { 184,-3745 }, { 185,-3745 },
- { 186,-3745 }, { 187,-3745 }, { 188,-3745 }, { 189,-3745 }, { 190,-3745 },
-
- { 191,-3745 }, { 192,-3745 }, { 193,-3745 }, { 194,-3745 }, { 195,-3745 },
- { 196,-3745 }, { 197,-3745 }, { 198,-3745 }, { 199,-3745 }, { 200,-3745 },
- { 201,-3745 }, { 202,-3745 }, { 203,-3745 }, { 204,-3745 }, { 205,-3745 },
- { 206,-3745 }, { 207,-3745 }, { 208,-3745 }, { 209,-3745 }, { 210,-3745 },
- { 211,-3745 }, { 212,-3745 }, { 213,-3745 }, { 214,-3745 }, { 215,-3745 },
- { 216,-3745 }, { 217,-3745 }, { 218,-3745 }, { 219,-3745 }, { 220,-3745 },
- { 221,-3745 }, { 222,-3745 }, { 223,-3745 }, { 224,-3745 }, { 225,-3745 },
- { 226,-3745 }, { 227,-3745 }, { 228,-3745 }, { 229,-3745 }, { 230,-3745 },
- { 231,-3745 }, { 232,-3745 }, { 233,-3745 }, { 234,-3745 }, { 235,-3745 },
- { 236,-3745 }, { 237,-3745 }, { 238,-3745 }, { 239,-3745 }, { 240,-3745 },
-
- { 241,-3745 }, { 242,-3745 }, { 243,-3745 }, { 244,-3745 }, { 245,-3745 },
- { 246,-3745 }, { 247,-3745 }, { 248,-3745 }, { 249,-3745 }, { 250,-3745 },
- { 251,-3745 }, { 252,-3745 }, { 253,-3745 }, { 254,-3745 }, { 255,-3745 },
- { 256,-3745 }, {   0,   0 }, {   0,7537 }, {   1,-5644 }, {   2,-5644 },
- {   3,-5644 }, {   4,-5644 }, {   5,-5644 }, {   6,-5644 }, {   7,-5644 },
- {   8,-5644 }, {   9,-5669 }, {  10,-5669 }, {  11,-5644 }, {  12,-5644 },
- {  13,-5669 }, {  14,-5644 }, {  15,-5644 }, {  16,-5644 }, {  17,-5644 },
- {  18,-5644 }, {  19,-5644 }, {  20,-5644 }, {  21,-5644 }, {  22,-5644 },
- {  23,-5644 }, {  24,-5644 }, {  25,-5644 }, {  26,-5644 }, {  27,-5644 },
- {  28,-5644 }, {  29,-5644 }, {  30,-5644 }, {  31,-5644 }, {  32,-5669 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-5644 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-5669 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-5644 }, {  46,-5669 }, {  47,-5669 },
- {  48,-5644 }, {  49,-5644 }, {  50,-5644 }, {  51,-5644 }, {  52,-5644 },
- {  53,-5644 }, {  54,-5644 }, {  55,-5644 }, {  56,-5644 }, {  57,-5644 },
- {  58,-5644 }, {   0,   0 }, {   0,   0 }, {  61,-5669 }, {   0,   0 },
- {  63,-5644 }, {   0,   0 }, {  65,-5644 }, {  66,-5644 }, {  67,-5644 },
- {  68,-5644 }, {  69,-5644 }, {  70,-5644 }, {  71,-5644 }, {  72,-5644 },
- {  73,-5644 }, {  74,-5644 }, {  75,-5644 }, {  76,-5644 }, {  77,-5644 },
- {  78,-5644 }, {  79,-5644 }, {  80,-5644 }, {  81,-5644 }, {  82,-5644 },
-
- {  83,-5644 }, {  84,-5644 }, {  85,-5644 }, {  86,-5644 }, {  87,-5644 },
- {  88,-5644 }, {  89,-5644 }, {  90,-5644 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-5644 }, {   0,   0 }, {  97,-5644 },
- {  98,-5644 }, {  99,-5644 }, { 100,-5644 }, { 101,-5644 }, { 102,-5644 },
- { 103,-5644 }, { 104,-5644 }, { 105,-5644 }, { 106,-5644 }, { 107,-5644 },
- { 108,-5644 }, { 109,-5644 }, { 110,-5644 }, { 111,-5644 }, { 112,-5644 },
- { 113,-5644 }, { 114,-5644 }, { 115,2083 }, { 116,-5644 }, { 117,-5644 },
- { 118,-5644 }, { 119,-5644 }, { 120,-5644 }, { 121,-5644 }, { 122,-5644 },
- {   0,   0 }, { 124,-5669 }, { 125,-5669 }, { 126,-5669 }, { 127,-5644 },
- { 128,-5644 }, { 129,-5644 }, { 130,-5644 }, { 131,-5644 }, { 132,-5644 },
-
- { 133,-5644 }, { 134,-5644 }, { 135,-5644 }, { 136,-5644 }, { 137,-5644 },
- { 138,-5644 }, { 139,-5644 }, { 140,-5644 }, { 141,-5644 }, { 142,-5644 },
- { 143,-5644 }, { 144,-5644 }, { 145,-5644 }, { 146,-5644 }, { 147,-5644 },
- { 148,-5644 }, { 149,-5644 }, { 150,-5644 }, { 151,-5644 }, { 152,-5644 },
- { 153,-5644 }, { 154,-5644 }, { 155,-5644 }, { 156,-5644 }, { 157,-5644 },
- { 158,-5644 }, { 159,-5644 }, { 160,-5644 }, { 161,-5644 }, { 162,-5644 },
- { 163,-5644 }, { 164,-5644 }, { 165,-5644 }, { 166,-5644 }, { 167,-5644 },
- { 168,-5644 }, { 169,-5644 }, { 170,-5644 }, { 171,-5644 }, { 172,-5644 },
- { 173,-5644 }, { 174,-5644 }, { 175,-5644 }, { 176,-5644 }, { 177,-5644 },
- { 178,-5644 }, { 179,-5644 }, { 180,-5644 }, { 181,-5644 }, { 182,-5644 },
-
- { 183,-5644 }, { 184,-5644 }, { 185,-5644 }, { 186,-5644 }, { 187,-5644 },
- { 188,-5644 }, { 189,-5644 }, { 190,-5644 }, { 191,-5644 }, { 192,-5644 },
- { 193,-5644 }, { 194,-5644 }, { 195,-5644 }, { 196,-5644 }, { 197,-5644 },
- { 198,-5644 }, { 199,-5644 }, { 200,-5644 }, { 201,-5644 }, { 202,-5644 },
- { 203,-5644 }, { 204,-5644 }, { 205,-5644 }, { 206,-5644 }, { 207,-5644 },
- { 208,-5644 }, { 209,-5644 }, { 210,-5644 }, { 211,-5644 }, { 212,-5644 },
- { 213,-5644 }, { 214,-5644 }, { 215,-5644 }, { 216,-5644 }, { 217,-5644 },
- { 218,-5644 }, { 219,-5644 }, { 220,-5644 }, { 221,-5644 }, { 222,-5644 },
- { 223,-5644 }, { 224,-5644 }, { 225,-5644 }, { 226,-5644 }, { 227,-5644 },
- { 228,-5644 }, { 229,-5644 }, { 230,-5644 }, { 231,-5644 }, { 232,-5644 },
-
- { 233,-5644 }, { 234,-5644 }, { 235,-5644 }, { 236,-5644 }, { 237,-5644 },
- { 238,-5644 }, { 239,-5644 }, { 240,-5644 }, { 241,-5644 }, { 242,-5644 },
- { 243,-5644 }, { 244,-5644 }, { 245,-5644 }, { 246,-5644 }, { 247,-5644 },
- { 248,-5644 }, { 249,-5644 }, { 250,-5644 }, { 251,-5644 }, { 252,-5644 },
- { 253,-5644 }, { 254,-5644 }, { 255,-5644 }, { 256,-5644 }, {   0,   0 },
- {   0,7279 }, {   1,-5902 }, {   2,-5902 }, {   3,-5902 }, {   4,-5902 },
- {   5,-5902 }, {   6,-5902 }, {   7,-5902 }, {   8,-5902 }, {   9,-5927 },
- {  10,-5927 }, {  11,-5902 }, {  12,-5902 }, {  13,-5927 }, {  14,-5902 },
- {  15,-5902 }, {  16,-5902 }, {  17,-5902 }, {  18,-5902 }, {  19,-5902 },
- {  20,-5902 }, {  21,-5902 }, {  22,-5902 }, {  23,-5902 }, {  24,-5902 },
-
- {  25,-5902 }, {  26,-5902 }, {  27,-5902 }, {  28,-5902 }, {  29,-5902 },
- {  30,-5902 }, {  31,-5902 }, {  32,-5927 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-5902 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-5927 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-5902 }, {  46,-5927 }, {  47,-5927 }, {  48,-5902 }, {  49,-5902 },
- {  50,-5902 }, {  51,-5902 }, {  52,-5902 }, {  53,-5902 }, {  54,-5902 },
- {  55,-5902 }, {  56,-5902 }, {  57,-5902 }, {  58,-5902 }, {   0,   0 },
- {   0,   0 }, {  61,-5927 }, {   0,   0 }, {  63,-5902 }, {   0,   0 },
- {  65,-5902 }, {  66,-5902 }, {  67,-5902 }, {  68,-5902 }, {  69,-5902 },
- {  70,-5902 }, {  71,-5902 }, {  72,-5902 }, {  73,-5902 }, {  74,-5902 },
-
- {  75,-5902 }, {  76,-5902 }, {  77,-5902 }, {  78,-5902 }, {  79,-5902 },
- {  80,-5902 }, {  81,-5902 }, {  82,-5902 }, {  83,-5902 }, {  84,-5902 },
- {  85,-5902 }, {  86,-5902 }, {  87,-5902 }, {  88,-5902 }, {  89,-5902 },
- {  90,-5902 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-5902 }, {   0,   0 }, {  97,-5902 }, {  98,-5902 }, {  99,-5902 },
- { 100,-5902 }, { 101,-5902 }, { 102,-5902 }, { 103,-5902 }, { 104,-5902 },
- { 105,-5902 }, { 106,-5902 }, { 107,-5902 }, { 108,2083 }, { 109,-5902 },
- { 110,-5902 }, { 111,-5902 }, { 112,-5902 }, { 113,-5902 }, { 114,-5902 },
- { 115,-5902 }, { 116,-5902 }, { 117,-5902 }, { 118,-5902 }, { 119,-5902 },
- { 120,-5902 }, { 121,-5902 }, { 122,-5902 }, {   0,   0 }, { 124,-5927 },
-
- { 125,-5927 }, { 126,-5927 }, { 127,-5902 }, { 128,-5902 }, { 129,-5902 },
- { 130,-5902 }, { 131,-5902 }, { 132,-5902 }, { 133,-5902 }, { 134,-5902 },
- { 135,-5902 }, { 136,-5902 }, { 137,-5902 }, { 138,-5902 }, { 139,-5902 },
- { 140,-5902 }, { 141,-5902 }, { 142,-5902 }, { 143,-5902 }, { 144,-5902 },
- { 145,-5902 }, { 146,-5902 }, { 147,-5902 }, { 148,-5902 }, { 149,-5902 },
- { 150,-5902 }, { 151,-5902 }, { 152,-5902 }, { 153,-5902 }, { 154,-5902 },
- { 155,-5902 }, { 156,-5902 }, { 157,-5902 }, { 158,-5902 }, { 159,-5902 },
- { 160,-5902 }, { 161,-5902 }, { 162,-5902 }, { 163,-5902 }, { 164,-5902 },
- { 165,-5902 }, { 166,-5902 }, { 167,-5902 }, { 168,-5902 }, { 169,-5902 },
- { 170,-5902 }, { 171,-5902 }, { 172,-5902 }, { 173,-5902 }, { 174,-5902 },
-
- { 175,-5902 }, { 176,-5902 }, { 177,-5902 }, { 178,-5902 }, { 179,-5902 },
- { 180,-5902 }, { 181,-5902 }, { 182,-5902 }, { 183,-5902 }, { 184,-5902 },
- { 185,-5902 }, { 186,-5902 }, { 187,-5902 }, { 188,-5902 }, { 189,-5902 },
- { 190,-5902 }, { 191,-5902 }, { 192,-5902 }, { 193,-5902 }, { 194,-5902 },
- { 195,-5902 }, { 196,-5902 }, { 197,-5902 }, { 198,-5902 }, { 199,-5902 },
- { 200,-5902 }, { 201,-5902 }, { 202,-5902 }, { 203,-5902 }, { 204,-5902 },
- { 205,-5902 }, { 206,-5902 }, { 207,-5902 }, { 208,-5902 }, { 209,-5902 },
- { 210,-5902 }, { 211,-5902 }, { 212,-5902 }, { 213,-5902 }, { 214,-5902 },
- { 215,-5902 }, { 216,-5902 }, { 217,-5902 }, { 218,-5902 }, { 219,-5902 },
- { 220,-5902 }, { 221,-5902 }, { 222,-5902 }, { 223,-5902 }, { 224,-5902 },
-
- { 225,-5902 }, { 226,-5902 }, { 227,-5902 }, { 228,-5902 }, { 229,-5902 },
- { 230,-5902 }, { 231,-5902 }, { 232,-5902 }, { 233,-5902 }, { 234,-5902 },
- { 235,-5902 }, { 236,-5902 }, { 237,-5902 }, { 238,-5902 }, { 239,-5902 },
- { 240,-5902 }, { 241,-5902 }, { 242,-5902 }, { 243,-5902 }, { 244,-5902 },
- { 245,-5902 }, { 246,-5902 }, { 247,-5902 }, { 248,-5902 }, { 249,-5902 },
- { 250,-5902 }, { 251,-5902 }, { 252,-5902 }, { 253,-5902 }, { 254,-5902 },
- { 255,-5902 }, { 256,-5902 }, {   0,   0 }, {   0,7021 }, {   1,-6160 },
- {   2,-6160 }, {   3,-6160 }, {   4,-6160 }, {   5,-6160 }, {   6,-6160 },
- {   7,-6160 }, {   8,-6160 }, {   9,-6185 }, {  10,-6185 }, {  11,-6160 },
- {  12,-6160 }, {  13,-6185 }, {  14,-6160 }, {  15,-6160 }, {  16,-6160 },
-
- {  17,-6160 }, {  18,-6160 }, {  19,-6160 }, {  20,-6160 }, {  21,-6160 },
- {  22,-6160 }, {  23,-6160 }, {  24,-6160 }, {  25,-6160 }, {  26,-6160 },
- {  27,-6160 }, {  28,-6160 }, {  29,-6160 }, {  30,-6160 }, {  31,-6160 },
- {  32,-6185 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-6160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-6185 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-6160 }, {  46,-6185 },
- {  47,-6185 }, {  48,-6160 }, {  49,-6160 }, {  50,-6160 }, {  51,-6160 },
- {  52,-6160 }, {  53,-6160 }, {  54,-6160 }, {  55,-6160 }, {  56,-6160 },
- {  57,-6160 }, {  58,-6160 }, {   0,   0 }, {   0,   0 }, {  61,-6185 },
- {   0,   0 }, {  63,-6160 }, {   0,   0 }, {  65,-6160 }, {  66,-6160 },
-
- {  67,-6160 }, {  68,-6160 }, {  69,-6160 }, {  70,-6160 }, {  71,-6160 },
- {  72,-6160 }, {  73,-6160 }, {  74,-6160 }, {  75,-6160 }, {  76,-6160 },
- {  77,-6160 }, {  78,-6160 }, {  79,-6160 }, {  80,-6160 }, {  81,-6160 },
- {  82,-6160 }, {  83,-6160 }, {  84,-6160 }, {  85,-6160 }, {  86,-6160 },
- {  87,-6160 }, {  88,-6160 }, {  89,-6160 }, {  90,-6160 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-6160 }, {   0,   0 },
- {  97,-6160 }, {  98,-6160 }, {  99,-6160 }, { 100,-6160 }, { 101,2083 },
- { 102,-6160 }, { 103,-6160 }, { 104,-6160 }, { 105,-6160 }, { 106,-6160 },
- { 107,-6160 }, { 108,-6160 }, { 109,-6160 }, { 110,-6160 }, { 111,-6160 },
- { 112,-6160 }, { 113,-6160 }, { 114,-6160 }, { 115,-6160 }, { 116,-6160 },
-
- { 117,-6160 }, { 118,-6160 }, { 119,-6160 }, { 120,-6160 }, { 121,-6160 },
- { 122,-6160 }, {   0,   0 }, { 124,-6185 }, { 125,-6185 }, { 126,-6185 },
- { 127,-6160 }, { 128,-6160 }, { 129,-6160 }, { 130,-6160 }, { 131,-6160 },
- { 132,-6160 }, { 133,-6160 }, { 134,-6160 }, { 135,-6160 }, { 136,-6160 },
- { 137,-6160 }, { 138,-6160 }, { 139,-6160 }, { 140,-6160 }, { 141,-6160 },
- { 142,-6160 }, { 143,-6160 }, { 144,-6160 }, { 145,-6160 }, { 146,-6160 },
- { 147,-6160 }, { 148,-6160 }, { 149,-6160 }, { 150,-6160 }, { 151,-6160 },
- { 152,-6160 }, { 153,-6160 }, { 154,-6160 }, { 155,-6160 }, { 156,-6160 },
- { 157,-6160 }, { 158,-6160 }, { 159,-6160 }, { 160,-6160 }, { 161,-6160 },
- { 162,-6160 }, { 163,-6160 }, { 164,-6160 }, { 165,-6160 }, { 166,-6160 },
-
- { 167,-6160 }, { 168,-6160 }, { 169,-6160 }, { 170,-6160 }, { 171,-6160 },
- { 172,-6160 }, { 173,-6160 }, { 174,-6160 }, { 175,-6160 }, { 176,-6160 },
- { 177,-6160 }, { 178,-6160 }, { 179,-6160 }, { 180,-6160 }, { 181,-6160 },
- { 182,-6160 }, { 183,-6160 }, { 184,-6160 }, { 185,-6160 }, { 186,-6160 },
- { 187,-6160 }, { 188,-6160 }, { 189,-6160 }, { 190,-6160 }, { 191,-6160 },
- { 192,-6160 }, { 193,-6160 }, { 194,-6160 }, { 195,-6160 }, { 196,-6160 },
- { 197,-6160 }, { 198,-6160 }, { 199,-6160 }, { 200,-6160 }, { 201,-6160 },
- { 202,-6160 }, { 203,-6160 }, { 204,-6160 }, { 205,-6160 }, { 206,-6160 },
- { 207,-6160 }, { 208,-6160 }, { 209,-6160 }, { 210,-6160 }, { 211,-6160 },
- { 212,-6160 }, { 213,-6160 }, { 214,-6160 }, { 215,-6160 }, { 216,-6160 },
-
- { 217,-6160 }, { 218,-6160 }, { 219,-6160 }, { 220,-6160 }, { 221,-6160 },
- { 222,-6160 }, { 223,-6160 }, { 224,-6160 }, { 225,-6160 }, { 226,-6160 },
- { 227,-6160 }, { 228,-6160 }, { 229,-6160 }, { 230,-6160 }, { 231,-6160 },
- { 232,-6160 }, { 233,-6160 }, { 234,-6160 }, { 235,-6160 }, { 236,-6160 },
- { 237,-6160 }, { 238,-6160 }, { 239,-6160 }, { 240,-6160 }, { 241,-6160 },
- { 242,-6160 }, { 243,-6160 }, { 244,-6160 }, { 245,-6160 }, { 246,-6160 },
- { 247,-6160 }, { 248,-6160 }, { 249,-6160 }, { 250,-6160 }, { 251,-6160 },
- { 252,-6160 }, { 253,-6160 }, { 254,-6160 }, { 255,-6160 }, { 256,-6160 },
- {   0,   0 }, {   0,6763 }, {   1,-6418 }, {   2,-6418 }, {   3,-6418 },
- {   4,-6418 }, {   5,-6418 }, {   6,-6418 }, {   7,-6418 }, {   8,-6418 },
-
- {   9,-6443 }, {  10,-6443 }, {  11,-6418 }, {  12,-6418 }, {  13,-6443 },
- {  14,-6418 }, {  15,-6418 }, {  16,-6418 }, {  17,-6418 }, {  18,-6418 },
- {  19,-6418 }, {  20,-6418 }, {  21,-6418 }, {  22,-6418 }, {  23,-6418 },
- {  24,-6418 }, {  25,-6418 }, {  26,-6418 }, {  27,-6418 }, {  28,-6418 },
- {  29,-6418 }, {  30,-6418 }, {  31,-6418 }, {  32,-6443 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,-6418 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,-6443 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-6418 }, {  46,-6443 }, {  47,-6443 }, {  48,-6418 },
- {  49,-6418 }, {  50,-6418 }, {  51,-6418 }, {  52,-6418 }, {  53,-6418 },
- {  54,-6418 }, {  55,-6418 }, {  56,-6418 }, {  57,-6418 }, {  58,-6418 },
-
- {   0,   0 }, {   0,   0 }, {  61,-6443 }, {   0,   0 }, {  63,-6418 },
- {   0,   0 }, {  65,-6418 }, {  66,-6418 }, {  67,-6418 }, {  68,-6418 },
- {  69,-6418 }, {  70,-6418 }, {  71,-6418 }, {  72,-6418 }, {  73,-6418 },
- {  74,-6418 }, {  75,-6418 }, {  76,-6418 }, {  77,-6418 }, {  78,-6418 },
- {  79,-6418 }, {  80,-6418 }, {  81,-6418 }, {  82,-6418 }, {  83,-6418 },
- {  84,-6418 }, {  85,-6418 }, {  86,-6418 }, {  87,-6418 }, {  88,-6418 },
- {  89,-6418 }, {  90,-6418 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-6418 }, {   0,   0 }, {  97,-6418 }, {  98,-6418 },
- {  99,-6418 }, { 100,-6418 }, { 101,2083 }, { 102,-6418 }, { 103,-6418 },
- { 104,-6418 }, { 105,-6418 }, { 106,-6418 }, { 107,-6418 }, { 108,-6418 },
-
- { 109,-6418 }, { 110,-6418 }, { 111,-6418 }, { 112,-6418 }, { 113,-6418 },
- { 114,-6418 }, { 115,-6418 }, { 116,-6418 }, { 117,-6418 }, { 118,-6418 },
- { 119,-6418 }, { 120,-6418 }, { 121,-6418 }, { 122,-6418 }, {   0,   0 },
- { 124,-6443 }, { 125,-6443 }, { 126,-6443 }, { 127,-6418 }, { 128,-6418 },
- { 129,-6418 }, { 130,-6418 }, { 131,-6418 }, { 132,-6418 }, { 133,-6418 },
- { 134,-6418 }, { 135,-6418 }, { 136,-6418 }, { 137,-6418 }, { 138,-6418 },
- { 139,-6418 }, { 140,-6418 }, { 141,-6418 }, { 142,-6418 }, { 143,-6418 },
- { 144,-6418 }, { 145,-6418 }, { 146,-6418 }, { 147,-6418 }, { 148,-6418 },
- { 149,-6418 }, { 150,-6418 }, { 151,-6418 }, { 152,-6418 }, { 153,-6418 },
- { 154,-6418 }, { 155,-6418 }, { 156,-6418 }, { 157,-6418 }, { 158,-6418 },
-
- { 159,-6418 }, { 160,-6418 }, { 161,-6418 }, { 162,-6418 }, { 163,-6418 },
- { 164,-6418 }, { 165,-6418 }, { 166,-6418 }, { 167,-6418 }, { 168,-6418 },
- { 169,-6418 }, { 170,-6418 }, { 171,-6418 }, { 172,-6418 }, { 173,-6418 },
- { 174,-6418 }, { 175,-6418 }, { 176,-6418 }, { 177,-6418 }, { 178,-6418 },
- { 179,-6418 }, { 180,-6418 }, { 181,-6418 }, { 182,-6418 }, { 183,-6418 },
- { 184,-6418 }, { 185,-6418 }, { 186,-6418 }, { 187,-6418 }, { 188,-6418 },
- { 189,-6418 }, { 190,-6418 }, { 191,-6418 }, { 192,-6418 }, { 193,-6418 },
- { 194,-6418 }, { 195,-6418 }, { 196,-6418 }, { 197,-6418 }, { 198,-6418 },
- { 199,-6418 }, { 200,-6418 }, { 201,-6418 }, { 202,-6418 }, { 203,-6418 },
- { 204,-6418 }, { 205,-6418 }, { 206,-6418 }, { 207,-6418 }, { 208,-6418 },
-
- { 209,-6418 }, { 210,-6418 }, { 211,-6418 }, { 212,-6418 }, { 213,-6418 },
- { 214,-6418 }, { 215,-6418 }, { 216,-6418 }, { 217,-6418 }, { 218,-6418 },
- { 219,-6418 }, { 220,-6418 }, { 221,-6418 }, { 222,-6418 }, { 223,-6418 },
- { 224,-6418 }, { 225,-6418 }, { 226,-6418 }, { 227,-6418 }, { 228,-6418 },
- { 229,-6418 }, { 230,-6418 }, { 231,-6418 }, { 232,-6418 }, { 233,-6418 },
- { 234,-6418 }, { 235,-6418 }, { 236,-6418 }, { 237,-6418 }, { 238,-6418 },
- { 239,-6418 }, { 240,-6418 }, { 241,-6418 }, { 242,-6418 }, { 243,-6418 },
- { 244,-6418 }, { 245,-6418 }, { 246,-6418 }, { 247,-6418 }, { 248,-6418 },
- { 249,-6418 }, { 250,-6418 }, { 251,-6418 }, { 252,-6418 }, { 253,-6418 },
- { 254,-6418 }, { 255,-6418 }, { 256,-6418 }, {   0,   0 }, {   0,6505 },
-
- {   0,  25 }, {   0,6503 }, {   0,   0 }, {   0,6501 }, {   0,  27 },
- {   0,6499 }, {   0,  31 }, {   0,6497 }, {   9,   0 }, {  10,   0 },
- {   9,2081 }, {  10,2081 }, {  13,   0 }, {   0,   0 }, {  13,2081 },
- {   0,   0 }, {   9,  -8 }, {  10,  -8 }, {   0,  37 }, {   0,6485 },
- {  13,  -8 }, {   0,   0 }, {   0,6482 }, {   0,  38 }, {   0,6480 },
- {   0,   0 }, {   0,6478 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  32,   0 }, {   0,   0 }, {  32,2081 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,  -8 },
- {  33,-1424 }, {   0,   0 }, {  35,-1422 }, {   0,   0 }, {   0,   0 },
- {  38,-1420 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  42,-1418 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  47,-1414 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  33, 123 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  62,-1411 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- { 101,   4 }, {  94,  -6 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 101,  -4 }, {   0,   0 },
- {   0,   0 }, { 108,2083 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125, 502 }, { 126,2083 }, { 123,2083 }, {   0,   0 },
- { 123,2083 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,2075 },
- {   0,   0 }, {   0,   0 }, { 125,2075 }, {   0,   0 }, {   0,6355 },
-
- {   1,2062 }, {   2,2062 }, {   3,2062 }, {   4,2062 }, {   5,2062 },
- {   6,2062 }, {   7,2062 }, {   8,2062 }, {   9,2062 }, {  10,2062 },
- {  11,2062 }, {  12,2062 }, {  13,2062 }, {  14,2062 }, {  15,2062 },
- {  16,2062 }, {  17,2062 }, {  18,2062 }, {  19,2062 }, {  20,2062 },
- {  21,2062 }, {  22,2062 }, {  23,2062 }, {  24,2062 }, {  25,2062 },
- {  26,2062 }, {  27,2062 }, {  28,2062 }, {  29,2062 }, {  30,2062 },
- {  31,2062 }, {  32,2062 }, {  33,2062 }, {  34,2062 }, {  35,2062 },
- {  36,2062 }, {  37,2062 }, {  38,2062 }, {  39,2062 }, {  40,2062 },
- {  41,2062 }, {  42,2062 }, {  43,2062 }, {  44,2062 }, {  45,2320 },
- {  46,2062 }, {  47,2062 }, {  48,2062 }, {  49,2062 }, {  50,2062 },
-
- {  51,2062 }, {  52,2062 }, {  53,2062 }, {  54,2062 }, {  55,2062 },
- {  56,2062 }, {  57,2062 }, {  58,2062 }, {  59,2062 }, {  60,2062 },
- {  61,2062 }, {  62,2062 }, {  63,2062 }, {  64,2062 }, {  65,2062 },
- {  66,2062 }, {  67,2062 }, {  68,2062 }, {  69,2062 }, {  70,2062 },
- {  71,2062 }, {  72,2062 }, {  73,2062 }, {  74,2062 }, {  75,2062 },
- {  76,2062 }, {  77,2062 }, {  78,2062 }, {  79,2062 }, {  80,2062 },
- {  81,2062 }, {  82,2062 }, {  83,2062 }, {  84,2062 }, {  85,2062 },
- {  86,2062 }, {  87,2062 }, {  88,2062 }, {  89,2062 }, {  90,2062 },
- {  91,2062 }, {  92,2062 }, {  93,2062 }, {  94,2062 }, {  95,2062 },
- {  96,2062 }, {  97,2062 }, {  98,2062 }, {  99,2062 }, { 100,2062 },
-
- { 101,2062 }, { 102,2062 }, { 103,2062 }, { 104,2062 }, { 105,2062 },
- { 106,2062 }, { 107,2062 }, { 108,2062 }, { 109,2062 }, { 110,2062 },
- { 111,2062 }, { 112,2062 }, { 113,2062 }, { 114,2062 }, { 115,2062 },
- { 116,2062 }, { 117,2062 }, { 118,2062 }, { 119,2062 }, { 120,2062 },
- { 121,2062 }, { 122,2062 }, { 123,2062 }, { 124,2062 }, { 125,2062 },
- { 126,2062 }, { 127,2062 }, { 128,2062 }, { 129,2062 }, { 130,2062 },
- { 131,2062 }, { 132,2062 }, { 133,2062 }, { 134,2062 }, { 135,2062 },
- { 136,2062 }, { 137,2062 }, { 138,2062 }, { 139,2062 }, { 140,2062 },
- { 141,2062 }, { 142,2062 }, { 143,2062 }, { 144,2062 }, { 145,2062 },
- { 146,2062 }, { 147,2062 }, { 148,2062 }, { 149,2062 }, { 150,2062 },
-
- { 151,2062 }, { 152,2062 }, { 153,2062 }, { 154,2062 }, { 155,2062 },
- { 156,2062 }, { 157,2062 }, { 158,2062 }, { 159,2062 }, { 160,2062 },
- { 161,2062 }, { 162,2062 }, { 163,2062 }, { 164,2062 }, { 165,2062 },
- { 166,2062 }, { 167,2062 }, { 168,2062 }, { 169,2062 }, { 170,2062 },
- { 171,2062 }, { 172,2062 }, { 173,2062 }, { 174,2062 }, { 175,2062 },
- { 176,2062 }, { 177,2062 }, { 178,2062 }, { 179,2062 }, { 180,2062 },
- { 181,2062 }, { 182,2062 }, { 183,2062 }, { 184,2062 }, { 185,2062 },
- { 186,2062 }, { 187,2062 }, { 188,2062 }, { 189,2062 }, { 190,2062 },
- { 191,2062 }, { 192,2062 }, { 193,2062 }, { 194,2062 }, { 195,2062 },
- { 196,2062 }, { 197,2062 }, { 198,2062 }, { 199,2062 }, { 200,2062 },
-
- { 201,2062 }, { 202,2062 }, { 203,2062 }, { 204,2062 }, { 205,2062 },
- { 206,2062 }, { 207,2062 }, { 208,2062 }, { 209,2062 }, { 210,2062 },
- { 211,2062 }, { 212,2062 }, { 213,2062 }, { 214,2062 }, { 215,2062 },
- { 216,2062 }, { 217,2062 }, { 218,2062 }, { 219,2062 }, { 220,2062 },
- { 221,2062 }, { 222,2062 }, { 223,2062 }, { 224,2062 }, { 225,2062 },
- { 226,2062 }, { 227,2062 }, { 228,2062 }, { 229,2062 }, { 230,2062 },
- { 231,2062 }, { 232,2062 }, { 233,2062 }, { 234,2062 }, { 235,2062 },
- { 236,2062 }, { 237,2062 }, { 238,2062 }, { 239,2062 }, { 240,2062 },
- { 241,2062 }, { 242,2062 }, { 243,2062 }, { 244,2062 }, { 245,2062 },
- { 246,2062 }, { 247,2062 }, { 248,2062 }, { 249,2062 }, { 250,2062 },
-
- { 251,2062 }, { 252,2062 }, { 253,2062 }, { 254,2062 }, { 255,2062 },
- { 256,2062 }, {   0,   0 }, {   0,6097 }, {   0,   0 }, {   0,6095 },
- {   0,   1 }, {   0,6093 }, {   0,   4 }, {   0,6091 }, {   0,  48 },
- {   0,6089 }, {   0,  42 }, {   0,6087 }, {   0,   0 }, {   0,6085 },
- {   0,  21 }, {   0,6083 }, {   0,   0 }, {  10,   0 }, {   0,  20 },
- {   0,6079 }, {  13,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,2574 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,6001 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 123,2320 }, {   0,   0 }, { 123,2576 }, {   0,   0 }, { 123,2576 },
- {   0,   4 }, {   0,5968 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
- {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
- {   9,   0 }, {  10,-123 }, {  11,   0 }, {  12,   0 }, {  13,-123 },
-
- {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
- {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
- {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
- {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
- {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
- {  44,   0 }, {  45,   0 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
- {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
-
- {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
- {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
- {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
- {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
- {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
- {  89,   0 }, {  90,   0 }, {  91,   0 }, { 125,2492 }, {  93,   0 },
- {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
- {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
- { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
- { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
-
- { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 },
- { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
- { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
- { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
- { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
- { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
- { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
- { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
- { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
-
- { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
- { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
- { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
- { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
- { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
- { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
- { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
- { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
- { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
- { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
-
- { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
- { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
- { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
- { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
- { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
- { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
- { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
- { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, {   0,   4 }, {   0,5711 }, {   1,-257 },
- {   2,-257 }, {   3,-257 }, {   4,-257 }, {   5,-257 }, {   6,-257 },
-
- {   7,-257 }, {   8,-257 }, {   9,-257 }, {  10,-380 }, {  11,-257 },
- {  12,-257 }, {  13,-380 }, {  14,-257 }, {  15,-257 }, {  16,-257 },
- {  17,-257 }, {  18,-257 }, {  19,-257 }, {  20,-257 }, {  21,-257 },
- {  22,-257 }, {  23,-257 }, {  24,-257 }, {  25,-257 }, {  26,-257 },
- {  27,-257 }, {  28,-257 }, {  29,-257 }, {  30,-257 }, {  31,-257 },
- {  32,-257 }, {  33,-257 }, {  34,-257 }, {  35,-257 }, {  36,-257 },
- {  37,-257 }, {  38,-257 }, {  39,-257 }, {  40,-257 }, {  41,-257 },
- {  42,-257 }, {  43,-257 }, {  44,-257 }, {  45,-257 }, {  46,-257 },
- {  47,-257 }, {  48,-257 }, {  49,-257 }, {  50,-257 }, {  51,-257 },
- {  52,-257 }, {  53,-257 }, {  54,-257 }, {  55,-257 }, {  56,-257 },
-
- {  57,-257 }, {  58,-257 }, {  59,-257 }, {  60,-257 }, {  61,-257 },
- {  62,-257 }, {  63,-257 }, {  64,-257 }, {  65,-257 }, {  66,-257 },
- {  67,-257 }, {  68,-257 }, {  69,-257 }, {  70,-257 }, {  71,-257 },
- {  72,-257 }, {  73,-257 }, {  74,-257 }, {  75,-257 }, {  76,-257 },
- {  77,-257 }, {  78,-257 }, {  79,-257 }, {  80,-257 }, {  81,-257 },
- {  82,-257 }, {  83,-257 }, {  84,-257 }, {  85,-257 }, {  86,-257 },
- {  87,-257 }, {  88,-257 }, {  89,-257 }, {  90,-257 }, {  91,-257 },
- {   0,   0 }, {  93,-257 }, {  94,-257 }, {  95,-257 }, {  96,-257 },
- {  97,-257 }, {  98,-257 }, {  99,-257 }, { 100,-257 }, { 101,-257 },
- { 102,-257 }, { 103,-257 }, { 104,-257 }, { 105,-257 }, { 106,-257 },
-
- { 107,-257 }, { 108,-257 }, { 109,-257 }, { 110,-257 }, { 111,-257 },
- { 112,-257 }, { 113,-257 }, { 114,-257 }, { 115,-257 }, { 116,-257 },
- { 117,-257 }, { 118,-257 }, { 119,-257 }, { 120,-257 }, { 121,-257 },
- { 122,-257 }, {   0,   0 }, { 124,-257 }, { 125,-257 }, { 126,-257 },
- { 127,-257 }, { 128,-257 }, { 129,-257 }, { 130,-257 }, { 131,-257 },
- { 132,-257 }, { 133,-257 }, { 134,-257 }, { 135,-257 }, { 136,-257 },
- { 137,-257 }, { 138,-257 }, { 139,-257 }, { 140,-257 }, { 141,-257 },
- { 142,-257 }, { 143,-257 }, { 144,-257 }, { 145,-257 }, { 146,-257 },
- { 147,-257 }, { 148,-257 }, { 149,-257 }, { 150,-257 }, { 151,-257 },
- { 152,-257 }, { 153,-257 }, { 154,-257 }, { 155,-257 }, { 156,-257 },
-
- { 157,-257 }, { 158,-257 }, { 159,-257 }, { 160,-257 }, { 161,-257 },
- { 162,-257 }, { 163,-257 }, { 164,-257 }, { 165,-257 }, { 166,-257 },
- { 167,-257 }, { 168,-257 }, { 169,-257 }, { 170,-257 }, { 171,-257 },
- { 172,-257 }, { 173,-257 }, { 174,-257 }, { 175,-257 }, { 176,-257 },
- { 177,-257 }, { 178,-257 }, { 179,-257 }, { 180,-257 }, { 181,-257 },
- { 182,-257 }, { 183,-257 }, { 184,-257 }, { 185,-257 }, { 186,-257 },
- { 187,-257 }, { 188,-257 }, { 189,-257 }, { 190,-257 }, { 191,-257 },
- { 192,-257 }, { 193,-257 }, { 194,-257 }, { 195,-257 }, { 196,-257 },
- { 197,-257 }, { 198,-257 }, { 199,-257 }, { 200,-257 }, { 201,-257 },
- { 202,-257 }, { 203,-257 }, { 204,-257 }, { 205,-257 }, { 206,-257 },
-
- { 207,-257 }, { 208,-257 }, { 209,-257 }, { 210,-257 }, { 211,-257 },
- { 212,-257 }, { 213,-257 }, { 214,-257 }, { 215,-257 }, { 216,-257 },
- { 217,-257 }, { 218,-257 }, { 219,-257 }, { 220,-257 }, { 221,-257 },
- { 222,-257 }, { 223,-257 }, { 224,-257 }, { 225,-257 }, { 226,-257 },
- { 227,-257 }, { 228,-257 }, { 229,-257 }, { 230,-257 }, { 231,-257 },
- { 232,-257 }, { 233,-257 }, { 234,-257 }, { 235,-257 }, { 236,-257 },
- { 237,-257 }, { 238,-257 }, { 239,-257 }, { 240,-257 }, { 241,-257 },
- { 242,-257 }, { 243,-257 }, { 244,-257 }, { 245,-257 }, { 246,-257 },
- { 247,-257 }, { 248,-257 }, { 249,-257 }, { 250,-257 }, { 251,-257 },
- { 252,-257 }, { 253,-257 }, { 254,-257 }, { 255,-257 }, {   0,   0 },
-
- {   0,5454 }, {   1,-7727 }, {   2,-7727 }, {   3,-7727 }, {   4,-7727 },
- {   5,-7727 }, {   6,-7727 }, {   7,-7727 }, {   8,-7727 }, {   9,-7752 },
- {  10,-7752 }, {  11,-7727 }, {  12,-7727 }, {  13,-7752 }, {  14,-7727 },
- {  15,-7727 }, {  16,-7727 }, {  17,-7727 }, {  18,-7727 }, {  19,-7727 },
- {  20,-7727 }, {  21,-7727 }, {  22,-7727 }, {  23,-7727 }, {  24,-7727 },
- {  25,-7727 }, {  26,-7727 }, {  27,-7727 }, {  28,-7727 }, {  29,-7727 },
- {  30,-7727 }, {  31,-7727 }, {  32,-7752 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-7727 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-7752 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-7727 }, {  46,-7752 }, {  47,-7752 }, {  48,-7727 }, {  49,-7727 },
-
- {  50,-7727 }, {  51,-7727 }, {  52,-7727 }, {  53,-7727 }, {  54,-7727 },
- {  55,-7727 }, {  56,-7727 }, {  57,-7727 }, {  58,-7727 }, {   0,   0 },
- {   0,   0 }, {  61,-7752 }, {   0,   0 }, {  63,-7727 }, {   0,   0 },
- {  65,-7727 }, {  66,-7727 }, {  67,-7727 }, {  68,-7727 }, {  69,-7727 },
- {  70,-7727 }, {  71,-7727 }, {  72,-7727 }, {  73,-7727 }, {  74,-7727 },
- {  75,-7727 }, {  76,-7727 }, {  77,-7727 }, {  78,-7727 }, {  79,-7727 },
- {  80,-7727 }, {  81,-7727 }, {  82,-7727 }, {  83,-7727 }, {  84,-7727 },
- {  85,-7727 }, {  86,-7727 }, {  87,-7727 }, {  88,-7727 }, {  89,-7727 },
- {  90,-7727 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-7727 }, {   0,   0 }, {  97,-7727 }, {  98,-7727 }, {  99,-7727 },
-
- { 100,-7727 }, { 101,1962 }, { 102,-7727 }, { 103,-7727 }, { 104,-7727 },
- { 105,-7727 }, { 106,-7727 }, { 107,-7727 }, { 108,-7727 }, { 109,-7727 },
- { 110,-7727 }, { 111,-7727 }, { 112,-7727 }, { 113,-7727 }, { 114,-7727 },
- { 115,-7727 }, { 116,-7727 }, { 117,-7727 }, { 118,-7727 }, { 119,-7727 },
- { 120,-7727 }, { 121,-7727 }, { 122,-7727 }, {   0,   0 }, { 124,-7752 },
- { 125,-7752 }, { 126,-7752 }, { 127,-7727 }, { 128,-7727 }, { 129,-7727 },
- { 130,-7727 }, { 131,-7727 }, { 132,-7727 }, { 133,-7727 }, { 134,-7727 },
- { 135,-7727 }, { 136,-7727 }, { 137,-7727 }, { 138,-7727 }, { 139,-7727 },
- { 140,-7727 }, { 141,-7727 }, { 142,-7727 }, { 143,-7727 }, { 144,-7727 },
- { 145,-7727 }, { 146,-7727 }, { 147,-7727 }, { 148,-7727 }, { 149,-7727 },
-
- { 150,-7727 }, { 151,-7727 }, { 152,-7727 }, { 153,-7727 }, { 154,-7727 },
- { 155,-7727 }, { 156,-7727 }, { 157,-7727 }, { 158,-7727 }, { 159,-7727 },
- { 160,-7727 }, { 161,-7727 }, { 162,-7727 }, { 163,-7727 }, { 164,-7727 },
- { 165,-7727 }, { 166,-7727 }, { 167,-7727 }, { 168,-7727 }, { 169,-7727 },
- { 170,-7727 }, { 171,-7727 }, { 172,-7727 }, { 173,-7727 }, { 174,-7727 },
- { 175,-7727 }, { 176,-7727 }, { 177,-7727 }, { 178,-7727 }, { 179,-7727 },
- { 180,-7727 }, { 181,-7727 }, { 182,-7727 }, { 183,-7727 }, { 184,-7727 },
- { 185,-7727 }, { 186,-7727 }, { 187,-7727 }, { 188,-7727 }, { 189,-7727 },
- { 190,-7727 }, { 191,-7727 }, { 192,-7727 }, { 193,-7727 }, { 194,-7727 },
- { 195,-7727 }, { 196,-7727 }, { 197,-7727 }, { 198,-7727 }, { 199,-7727 },
-
- { 200,-7727 }, { 201,-7727 }, { 202,-7727 }, { 203,-7727 }, { 204,-7727 },
- { 205,-7727 }, { 206,-7727 }, { 207,-7727 }, { 208,-7727 }, { 209,-7727 },
- { 210,-7727 }, { 211,-7727 }, { 212,-7727 }, { 213,-7727 }, { 214,-7727 },
- { 215,-7727 }, { 216,-7727 }, { 217,-7727 }, { 218,-7727 }, { 219,-7727 },
- { 220,-7727 }, { 221,-7727 }, { 222,-7727 }, { 223,-7727 }, { 224,-7727 },
- { 225,-7727 }, { 226,-7727 }, { 227,-7727 }, { 228,-7727 }, { 229,-7727 },
- { 230,-7727 }, { 231,-7727 }, { 232,-7727 }, { 233,-7727 }, { 234,-7727 },
- { 235,-7727 }, { 236,-7727 }, { 237,-7727 }, { 238,-7727 }, { 239,-7727 },
- { 240,-7727 }, { 241,-7727 }, { 242,-7727 }, { 243,-7727 }, { 244,-7727 },
- { 245,-7727 }, { 246,-7727 }, { 247,-7727 }, { 248,-7727 }, { 249,-7727 },
-
- { 250,-7727 }, { 251,-7727 }, { 252,-7727 }, { 253,-7727 }, { 254,-7727 },
- { 255,-7727 }, { 256,-7727 }, {   0,   0 }, {   0,5196 }, {   1,-7985 },
- {   2,-7985 }, {   3,-7985 }, {   4,-7985 }, {   5,-7985 }, {   6,-7985 },
- {   7,-7985 }, {   8,-7985 }, {   9,1681 }, {  10,1681 }, {  11,-7985 },
- {  12,-7985 }, {  13,1681 }, {  14,-7985 }, {  15,-7985 }, {  16,-7985 },
- {  17,-7985 }, {  18,-7985 }, {  19,-7985 }, {  20,-7985 }, {  21,-7985 },
- {  22,-7985 }, {  23,-7985 }, {  24,-7985 }, {  25,-7985 }, {  26,-7985 },
- {  27,-7985 }, {  28,-7985 }, {  29,-7985 }, {  30,-7985 }, {  31,-7985 },
- {  32,1681 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-7985 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,1681 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-7985 }, {  46,-8010 },
- {  47,-8010 }, {  48,-7985 }, {  49,-7985 }, {  50,-7985 }, {  51,-7985 },
- {  52,-7985 }, {  53,-7985 }, {  54,-7985 }, {  55,-7985 }, {  56,-7985 },
- {  57,-7985 }, {  58,-7985 }, {   0,   0 }, {   0,   0 }, {  61,-8010 },
- {   0,   0 }, {  63,-7985 }, {   0,   0 }, {  65,-7985 }, {  66,-7985 },
- {  67,-7985 }, {  68,-7985 }, {  69,-7985 }, {  70,-7985 }, {  71,-7985 },
- {  72,-7985 }, {  73,-7985 }, {  74,-7985 }, {  75,-7985 }, {  76,-7985 },
- {  77,-7985 }, {  78,-7985 }, {  79,-7985 }, {  80,-7985 }, {  81,-7985 },
- {  82,-7985 }, {  83,-7985 }, {  84,-7985 }, {  85,-7985 }, {  86,-7985 },
- {  87,-7985 }, {  88,-7985 }, {  89,-7985 }, {  90,-7985 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-7985 }, {   0,   0 },
- {  97,-7985 }, {  98,-7985 }, {  99,-7985 }, { 100,-7985 }, { 101,-7985 },
- { 102,-7985 }, { 103,-7985 }, { 104,-7985 }, { 105,-7985 }, { 106,-7985 },
- { 107,-7985 }, { 108,-7985 }, { 109,-7985 }, { 110,-7985 }, { 111,-7985 },
- { 112,-7985 }, { 113,-7985 }, { 114,-7985 }, { 115,-7985 }, { 116,-7985 },
- { 117,-7985 }, { 118,-7985 }, { 119,-7985 }, { 120,-7985 }, { 121,-7985 },
- { 122,-7985 }, {   0,   0 }, { 124,-8010 }, { 125,1681 }, { 126,1681 },
- { 127,-7985 }, { 128,-7985 }, { 129,-7985 }, { 130,-7985 }, { 131,-7985 },
- { 132,-7985 }, { 133,-7985 }, { 134,-7985 }, { 135,-7985 }, { 136,-7985 },
- { 137,-7985 }, { 138,-7985 }, { 139,-7985 }, { 140,-7985 }, { 141,-7985 },
-
- { 142,-7985 }, { 143,-7985 }, { 144,-7985 }, { 145,-7985 }, { 146,-7985 },
- { 147,-7985 }, { 148,-7985 }, { 149,-7985 }, { 150,-7985 }, { 151,-7985 },
- { 152,-7985 }, { 153,-7985 }, { 154,-7985 }, { 155,-7985 }, { 156,-7985 },
- { 157,-7985 }, { 158,-7985 }, { 159,-7985 }, { 160,-7985 }, { 161,-7985 },
- { 162,-7985 }, { 163,-7985 }, { 164,-7985 }, { 165,-7985 }, { 166,-7985 },
- { 167,-7985 }, { 168,-7985 }, { 169,-7985 }, { 170,-7985 }, { 171,-7985 },
- { 172,-7985 }, { 173,-7985 }, { 174,-7985 }, { 175,-7985 }, { 176,-7985 },
- { 177,-7985 }, { 178,-7985 }, { 179,-7985 }, { 180,-7985 }, { 181,-7985 },
- { 182,-7985 }, { 183,-7985 }, { 184,-7985 }, { 185,-7985 }, { 186,-7985 },
- { 187,-7985 }, { 188,-7985 }, { 189,-7985 }, { 190,-7985 }, { 191,-7985 },
-
- { 192,-7985 }, { 193,-7985 }, { 194,-7985 }, { 195,-7985 }, { 196,-7985 },
- { 197,-7985 }, { 198,-7985 }, { 199,-7985 }, { 200,-7985 }, { 201,-7985 },
- { 202,-7985 }, { 203,-7985 }, { 204,-7985 }, { 205,-7985 }, { 206,-7985 },
- { 207,-7985 }, { 208,-7985 }, { 209,-7985 }, { 210,-7985 }, { 211,-7985 },
- { 212,-7985 }, { 213,-7985 }, { 214,-7985 }, { 215,-7985 }, { 216,-7985 },
- { 217,-7985 }, { 218,-7985 }, { 219,-7985 }, { 220,-7985 }, { 221,-7985 },
- { 222,-7985 }, { 223,-7985 }, { 224,-7985 }, { 225,-7985 }, { 226,-7985 },
- { 227,-7985 }, { 228,-7985 }, { 229,-7985 }, { 230,-7985 }, { 231,-7985 },
- { 232,-7985 }, { 233,-7985 }, { 234,-7985 }, { 235,-7985 }, { 236,-7985 },
- { 237,-7985 }, { 238,-7985 }, { 239,-7985 }, { 240,-7985 }, { 241,-7985 },
-
- { 242,-7985 }, { 243,-7985 }, { 244,-7985 }, { 245,-7985 }, { 246,-7985 },
- { 247,-7985 }, { 248,-7985 }, { 249,-7985 }, { 250,-7985 }, { 251,-7985 },
- { 252,-7985 }, { 253,-7985 }, { 254,-7985 }, { 255,-7985 }, { 256,-7985 },
- {   0,   0 }, {   0,4938 }, {   1,-8243 }, {   2,-8243 }, {   3,-8243 },
- {   4,-8243 }, {   5,-8243 }, {   6,-8243 }, {   7,-8243 }, {   8,-8243 },
- {   9,1425 }, {  10,1425 }, {  11,-8243 }, {  12,-8243 }, {  13,1425 },
- {  14,-8243 }, {  15,-8243 }, {  16,-8243 }, {  17,-8243 }, {  18,-8243 },
- {  19,-8243 }, {  20,-8243 }, {  21,-8243 }, {  22,-8243 }, {  23,-8243 },
- {  24,-8243 }, {  25,-8243 }, {  26,-8243 }, {  27,-8243 }, {  28,-8243 },
- {  29,-8243 }, {  30,-8243 }, {  31,-8243 }, {  32,1425 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {  36,-8243 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41,1425 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-8243 }, {  46,-8268 }, {  47,-8268 }, {  48,-8243 },
- {  49,-8243 }, {  50,-8243 }, {  51,-8243 }, {  52,-8243 }, {  53,-8243 },
- {  54,-8243 }, {  55,-8243 }, {  56,-8243 }, {  57,-8243 }, {  58,-8243 },
- {   0,   0 }, {   0,   0 }, {  61,-8268 }, {   0,   0 }, {  63,-8243 },
- {   0,   0 }, {  65,-8243 }, {  66,-8243 }, {  67,-8243 }, {  68,-8243 },
- {  69,-8243 }, {  70,-8243 }, {  71,-8243 }, {  72,-8243 }, {  73,-8243 },
- {  74,-8243 }, {  75,-8243 }, {  76,-8243 }, {  77,-8243 }, {  78,-8243 },
- {  79,-8243 }, {  80,-8243 }, {  81,-8243 }, {  82,-8243 }, {  83,-8243 },
-
- {  84,-8243 }, {  85,-8243 }, {  86,-8243 }, {  87,-8243 }, {  88,-8243 },
- {  89,-8243 }, {  90,-8243 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-8243 }, {   0,   0 }, {  97,-8243 }, {  98,-8243 },
- {  99,-8243 }, { 100,-8243 }, { 101,-8243 }, { 102,-8243 }, { 103,-8243 },
- { 104,-8243 }, { 105,-8243 }, { 106,-8243 }, { 107,-8243 }, { 108,-8243 },
- { 109,-8243 }, { 110,-8243 }, { 111,-8243 }, { 112,-8243 }, { 113,-8243 },
- { 114,-8243 }, { 115,-8243 }, { 116,-8243 }, { 117,-8243 }, { 118,-8243 },
- { 119,-8243 }, { 120,-8243 }, { 121,-8243 }, { 122,-8243 }, {   0,   0 },
- { 124,-8268 }, { 125,1425 }, { 126,1425 }, { 127,-8243 }, { 128,-8243 },
- { 129,-8243 }, { 130,-8243 }, { 131,-8243 }, { 132,-8243 }, { 133,-8243 },
-
- { 134,-8243 }, { 135,-8243 }, { 136,-8243 }, { 137,-8243 }, { 138,-8243 },
- { 139,-8243 }, { 140,-8243 }, { 141,-8243 }, { 142,-8243 }, { 143,-8243 },
- { 144,-8243 }, { 145,-8243 }, { 146,-8243 }, { 147,-8243 }, { 148,-8243 },
- { 149,-8243 }, { 150,-8243 }, { 151,-8243 }, { 152,-8243 }, { 153,-8243 },
- { 154,-8243 }, { 155,-8243 }, { 156,-8243 }, { 157,-8243 }, { 158,-8243 },
- { 159,-8243 }, { 160,-8243 }, { 161,-8243 }, { 162,-8243 }, { 163,-8243 },
- { 164,-8243 }, { 165,-8243 }, { 166,-8243 }, { 167,-8243 }, { 168,-8243 },
- { 169,-8243 }, { 170,-8243 }, { 171,-8243 }, { 172,-8243 }, { 173,-8243 },
- { 174,-8243 }, { 175,-8243 }, { 176,-8243 }, { 177,-8243 }, { 178,-8243 },
- { 179,-8243 }, { 180,-8243 }, { 181,-8243 }, { 182,-8243 }, { 183,-8243 },
-
- { 184,-8243 }, { 185,-8243 }, { 186,-8243 }, { 187,-8243 }, { 188,-8243 },
- { 189,-8243 }, { 190,-8243 }, { 191,-8243 }, { 192,-8243 }, { 193,-8243 },
- { 194,-8243 }, { 195,-8243 }, { 196,-8243 }, { 197,-8243 }, { 198,-8243 },
- { 199,-8243 }, { 200,-8243 }, { 201,-8243 }, { 202,-8243 }, { 203,-8243 },
- { 204,-8243 }, { 205,-8243 }, { 206,-8243 }, { 207,-8243 }, { 208,-8243 },
- { 209,-8243 }, { 210,-8243 }, { 211,-8243 }, { 212,-8243 }, { 213,-8243 },
- { 214,-8243 }, { 215,-8243 }, { 216,-8243 }, { 217,-8243 }, { 218,-8243 },
- { 219,-8243 }, { 220,-8243 }, { 221,-8243 }, { 222,-8243 }, { 223,-8243 },
- { 224,-8243 }, { 225,-8243 }, { 226,-8243 }, { 227,-8243 }, { 228,-8243 },
- { 229,-8243 }, { 230,-8243 }, { 231,-8243 }, { 232,-8243 }, { 233,-8243 },
-
- { 234,-8243 }, { 235,-8243 }, { 236,-8243 }, { 237,-8243 }, { 238,-8243 },
- { 239,-8243 }, { 240,-8243 }, { 241,-8243 }, { 242,-8243 }, { 243,-8243 },
- { 244,-8243 }, { 245,-8243 }, { 246,-8243 }, { 247,-8243 }, { 248,-8243 },
- { 249,-8243 }, { 250,-8243 }, { 251,-8243 }, { 252,-8243 }, { 253,-8243 },
- { 254,-8243 }, { 255,-8243 }, { 256,-8243 }, {   0,   0 }, {   0,4680 },
- {   1,-8501 }, {   2,-8501 }, {   3,-8501 }, {   4,-8501 }, {   5,-8501 },
- {   6,-8501 }, {   7,-8501 }, {   8,-8501 }, {   9,-8526 }, {  10,-8526 },
- {  11,-8501 }, {  12,-8501 }, {  13,-8526 }, {  14,-8501 }, {  15,-8501 },
- {  16,-8501 }, {  17,-8501 }, {  18,-8501 }, {  19,-8501 }, {  20,-8501 },
- {  21,-8501 }, {  22,-8501 }, {  23,-8501 }, {  24,-8501 }, {  25,-8501 },
-
- {  26,-8501 }, {  27,-8501 }, {  28,-8501 }, {  29,-8501 }, {  30,-8501 },
- {  31,-8501 }, {  32,-8526 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-8501 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-8526 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-8501 },
- {  46,-8526 }, {  47,-8526 }, {  48,-8501 }, {  49,-8501 }, {  50,-8501 },
- {  51,-8501 }, {  52,-8501 }, {  53,-8501 }, {  54,-8501 }, {  55,-8501 },
- {  56,-8501 }, {  57,-8501 }, {  58,-8501 }, {   0,   0 }, {   0,   0 },
- {  61,-8526 }, {   0,   0 }, {  63,-8501 }, {   0,   0 }, {  65,-8501 },
- {  66,-8501 }, {  67,-8501 }, {  68,-8501 }, {  69,-8501 }, {  70,-8501 },
- {  71,-8501 }, {  72,-8501 }, {  73,-8501 }, {  74,-8501 }, {  75,-8501 },
-
- {  76,-8501 }, {  77,-8501 }, {  78,-8501 }, {  79,-8501 }, {  80,-8501 },
- {  81,-8501 }, {  82,-8501 }, {  83,-8501 }, {  84,-8501 }, {  85,-8501 },
- {  86,-8501 }, {  87,-8501 }, {  88,-8501 }, {  89,-8501 }, {  90,-8501 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-8501 },
- {   0,   0 }, {  97,-8501 }, {  98,-8501 }, {  99,-8501 }, { 100,-8501 },
- { 101,-8501 }, { 102,1446 }, { 103,-8501 }, { 104,-8501 }, { 105,-8501 },
- { 106,-8501 }, { 107,-8501 }, { 108,-8501 }, { 109,-8501 }, { 110,-8501 },
- { 111,-8501 }, { 112,-8501 }, { 113,-8501 }, { 114,-8501 }, { 115,-8501 },
- { 116,-8501 }, { 117,-8501 }, { 118,-8501 }, { 119,-8501 }, { 120,-8501 },
- { 121,-8501 }, { 122,-8501 }, {   0,   0 }, { 124,-8526 }, { 125,-8526 },
-
- { 126,-8526 }, { 127,-8501 }, { 128,-8501 }, { 129,-8501 }, { 130,-8501 },
- { 131,-8501 }, { 132,-8501 }, { 133,-8501 }, { 134,-8501 }, { 135,-8501 },
- { 136,-8501 }, { 137,-8501 }, { 138,-8501 }, { 139,-8501 }, { 140,-8501 },
- { 141,-8501 }, { 142,-8501 }, { 143,-8501 }, { 144,-8501 }, { 145,-8501 },
- { 146,-8501 }, { 147,-8501 }, { 148,-8501 }, { 149,-8501 }, { 150,-8501 },
- { 151,-8501 }, { 152,-8501 }, { 153,-8501 }, { 154,-8501 }, { 155,-8501 },
- { 156,-8501 }, { 157,-8501 }, { 158,-8501 }, { 159,-8501 }, { 160,-8501 },
- { 161,-8501 }, { 162,-8501 }, { 163,-8501 }, { 164,-8501 }, { 165,-8501 },
- { 166,-8501 }, { 167,-8501 }, { 168,-8501 }, { 169,-8501 }, { 170,-8501 },
- { 171,-8501 }, { 172,-8501 }, { 173,-8501 }, { 174,-8501 }, { 175,-8501 },
-
- { 176,-8501 }, { 177,-8501 }, { 178,-8501 }, { 179,-8501 }, { 180,-8501 },
- { 181,-8501 }, { 182,-8501 }, { 183,-8501 }, { 184,-8501 }, { 185,-8501 },
- { 186,-8501 }, { 187,-8501 }, { 188,-8501 }, { 189,-8501 }, { 190,-8501 },
- { 191,-8501 }, { 192,-8501 }, { 193,-8501 }, { 194,-8501 }, { 195,-8501 },
- { 196,-8501 }, { 197,-8501 }, { 198,-8501 }, { 199,-8501 }, { 200,-8501 },
- { 201,-8501 }, { 202,-8501 }, { 203,-8501 }, { 204,-8501 }, { 205,-8501 },
- { 206,-8501 }, { 207,-8501 }, { 208,-8501 }, { 209,-8501 }, { 210,-8501 },
- { 211,-8501 }, { 212,-8501 }, { 213,-8501 }, { 214,-8501 }, { 215,-8501 },
- { 216,-8501 }, { 217,-8501 }, { 218,-8501 }, { 219,-8501 }, { 220,-8501 },
- { 221,-8501 }, { 222,-8501 }, { 223,-8501 }, { 224,-8501 }, { 225,-8501 },
-
- { 226,-8501 }, { 227,-8501 }, { 228,-8501 }, { 229,-8501 }, { 230,-8501 },
- { 231,-8501 }, { 232,-8501 }, { 233,-8501 }, { 234,-8501 }, { 235,-8501 },
- { 236,-8501 }, { 237,-8501 }, { 238,-8501 }, { 239,-8501 }, { 240,-8501 },
- { 241,-8501 }, { 242,-8501 }, { 243,-8501 }, { 244,-8501 }, { 245,-8501 },
- { 246,-8501 }, { 247,-8501 }, { 248,-8501 }, { 249,-8501 }, { 250,-8501 },
- { 251,-8501 }, { 252,-8501 }, { 253,-8501 }, { 254,-8501 }, { 255,-8501 },
- { 256,-8501 }, {   0,   0 }, {   0,4422 }, {   0,   0 }, {   0,4420 },
- {   0,   0 }, {   0,4418 }, {   0,  17 }, {   0,4416 }, {   0,  27 },
- {   0,4414 }, {   9,   0 }, {  10,   0 }, {   0,  18 }, {   0,4410 },
- {  13,   0 }, {   0,  37 }, {   0,4407 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, { 115, 916 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 125,-1579 }, { 126,   2 }, { 125,-1581 },
- {   0,   0 }, {   0,4293 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
- {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
- {   9,   0 }, {  10,   0 }, {  11,   0 }, {  12,   0 }, {  13,   0 },
- {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
- {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
- {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {  32,   0 }, {  33,   0 },
- {  34,   0 }, {  35,   0 }, {  36,   0 }, {  37,   0 }, {  38,   0 },
-
- {  39,   0 }, {  40,   0 }, {  41,   0 }, {  42,   0 }, {  43,   0 },
- {  44,   0 }, {  45, 258 }, {  46,   0 }, {  47,   0 }, {  48,   0 },
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
- {  59,   0 }, {  60,   0 }, {  61,   0 }, {  62,   0 }, {  63,   0 },
- {  64,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
- {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
- {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
- {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
- {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
-
- {  89,   0 }, {  90,   0 }, {  91,   0 }, {  92,   0 }, {  93,   0 },
- {  94,   0 }, {  95,   0 }, {  96,   0 }, {  97,   0 }, {  98,   0 },
- {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
- { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
- { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
- { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, { 123,   0 },
- { 124,   0 }, { 125,   0 }, { 126,   0 }, { 127,   0 }, { 128,   0 },
- { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
- { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
-
- { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
- { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
- { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
- { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
- { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
- { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
- { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
- { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
- { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
- { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
-
- { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
- { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
- { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
- { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
- { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
- { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
- { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
- { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
- { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
- { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
-
- { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
- { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
- { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,4035 },
- {   1,-258 }, {   2,-258 }, {   3,-258 }, {   4,-258 }, {   5,-258 },
- {   6,-258 }, {   7,-258 }, {   8,-258 }, {   9,-258 }, {  10,-258 },
- {  11,-258 }, {  12,-258 }, {  13,-258 }, {  14,-258 }, {  15,-258 },
- {  16,-258 }, {  17,-258 }, {  18,-258 }, {  19,-258 }, {  20,-258 },
- {  21,-258 }, {  22,-258 }, {  23,-258 }, {  24,-258 }, {  25,-258 },
- {  26,-258 }, {  27,-258 }, {  28,-258 }, {  29,-258 }, {  30,-258 },
-
- {  31,-258 }, {  32,-258 }, {  33,-258 }, {  34,-258 }, {  35,-258 },
- {  36,-258 }, {  37,-258 }, {  38,-258 }, {  39,-258 }, {  40,-258 },
- {  41,-258 }, {  42,-258 }, {  43,-258 }, {  44,-258 }, {  45,1059 },
- {  46,-258 }, {  47,-258 }, {  48,-258 }, {  49,-258 }, {  50,-258 },
- {  51,-258 }, {  52,-258 }, {  53,-258 }, {  54,-258 }, {  55,-258 },
- {  56,-258 }, {  57,-258 }, {  58,-258 }, {  59,-258 }, {  60,-258 },
- {  61,-258 }, {  62,-258 }, {  63,-258 }, {  64,-258 }, {  65,-258 },
- {  66,-258 }, {  67,-258 }, {  68,-258 }, {  69,-258 }, {  70,-258 },
- {  71,-258 }, {  72,-258 }, {  73,-258 }, {  74,-258 }, {  75,-258 },
- {  76,-258 }, {  77,-258 }, {  78,-258 }, {  79,-258 }, {  80,-258 },
-
- {  81,-258 }, {  82,-258 }, {  83,-258 }, {  84,-258 }, {  85,-258 },
- {  86,-258 }, {  87,-258 }, {  88,-258 }, {  89,-258 }, {  90,-258 },
- {  91,-258 }, {  92,-258 }, {  93,-258 }, {  94,-258 }, {  95,-258 },
- {  96,-258 }, {  97,-258 }, {  98,-258 }, {  99,-258 }, { 100,-258 },
- { 101,-258 }, { 102,-258 }, { 103,-258 }, { 104,-258 }, { 105,-258 },
- { 106,-258 }, { 107,-258 }, { 108,-258 }, { 109,-258 }, { 110,-258 },
- { 111,-258 }, { 112,-258 }, { 113,-258 }, { 114,-258 }, { 115,-258 },
- { 116,-258 }, { 117,-258 }, { 118,-258 }, { 119,-258 }, { 120,-258 },
- { 121,-258 }, { 122,-258 }, { 123,-258 }, { 124,-258 }, { 125,-258 },
- { 126,-258 }, { 127,-258 }, { 128,-258 }, { 129,-258 }, { 130,-258 },
-
- { 131,-258 }, { 132,-258 }, { 133,-258 }, { 134,-258 }, { 135,-258 },
- { 136,-258 }, { 137,-258 }, { 138,-258 }, { 139,-258 }, { 140,-258 },
- { 141,-258 }, { 142,-258 }, { 143,-258 }, { 144,-258 }, { 145,-258 },
- { 146,-258 }, { 147,-258 }, { 148,-258 }, { 149,-258 }, { 150,-258 },
- { 151,-258 }, { 152,-258 }, { 153,-258 }, { 154,-258 }, { 155,-258 },
- { 156,-258 }, { 157,-258 }, { 158,-258 }, { 159,-258 }, { 160,-258 },
- { 161,-258 }, { 162,-258 }, { 163,-258 }, { 164,-258 }, { 165,-258 },
- { 166,-258 }, { 167,-258 }, { 168,-258 }, { 169,-258 }, { 170,-258 },
- { 171,-258 }, { 172,-258 }, { 173,-258 }, { 174,-258 }, { 175,-258 },
- { 176,-258 }, { 177,-258 }, { 178,-258 }, { 179,-258 }, { 180,-258 },
-
- { 181,-258 }, { 182,-258 }, { 183,-258 }, { 184,-258 }, { 185,-258 },
- { 186,-258 }, { 187,-258 }, { 188,-258 }, { 189,-258 }, { 190,-258 },
- { 191,-258 }, { 192,-258 }, { 193,-258 }, { 194,-258 }, { 195,-258 },
- { 196,-258 }, { 197,-258 }, { 198,-258 }, { 199,-258 }, { 200,-258 },
- { 201,-258 }, { 202,-258 }, { 203,-258 }, { 204,-258 }, { 205,-258 },
- { 206,-258 }, { 207,-258 }, { 208,-258 }, { 209,-258 }, { 210,-258 },
- { 211,-258 }, { 212,-258 }, { 213,-258 }, { 214,-258 }, { 215,-258 },
- { 216,-258 }, { 217,-258 }, { 218,-258 }, { 219,-258 }, { 220,-258 },
- { 221,-258 }, { 222,-258 }, { 223,-258 }, { 224,-258 }, { 225,-258 },
- { 226,-258 }, { 227,-258 }, { 228,-258 }, { 229,-258 }, { 230,-258 },
-
- { 231,-258 }, { 232,-258 }, { 233,-258 }, { 234,-258 }, { 235,-258 },
- { 236,-258 }, { 237,-258 }, { 238,-258 }, { 239,-258 }, { 240,-258 },
- { 241,-258 }, { 242,-258 }, { 243,-258 }, { 244,-258 }, { 245,-258 },
- { 246,-258 }, { 247,-258 }, { 248,-258 }, { 249,-258 }, { 250,-258 },
- { 251,-258 }, { 252,-258 }, { 253,-258 }, { 254,-258 }, { 255,-258 },
- { 256,-258 }, {   0,   0 }, {   0,3777 }, {   1, 277 }, {   2, 277 },
- {   3, 277 }, {   4, 277 }, {   5, 277 }, {   6, 277 }, {   7, 277 },
- {   8, 277 }, {   9, 277 }, {  10, 277 }, {  11, 277 }, {  12, 277 },
- {  13, 277 }, {  14, 277 }, {  15, 277 }, {  16, 277 }, {  17, 277 },
- {  18, 277 }, {  19, 277 }, {  20, 277 }, {  21, 277 }, {  22, 277 },
-
- {  23, 277 }, {  24, 277 }, {  25, 277 }, {  26, 277 }, {  27, 277 },
- {  28, 277 }, {  29, 277 }, {  30, 277 }, {  31, 277 }, {  32, 277 },
- {  33, 277 }, {  34, 277 }, {  35, 277 }, {  36, 277 }, {  37, 277 },
- {  38, 277 }, {  39, 277 }, {  40, 277 }, {  41, 277 }, {  42, 277 },
- {  43, 277 }, {  44, 277 }, {  45, 277 }, {  46, 277 }, {  47,1059 },
- {  48, 277 }, {  49, 277 }, {  50, 277 }, {  51, 277 }, {  52, 277 },
- {  53, 277 }, {  54, 277 }, {  55, 277 }, {  56, 277 }, {  57, 277 },
- {  58, 277 }, {  59, 277 }, {  60, 277 }, {  61, 277 }, {  62, 277 },
- {  63, 277 }, {  64, 277 }, {  65, 277 }, {  66, 277 }, {  67, 277 },
- {  68, 277 }, {  69, 277 }, {  70, 277 }, {  71, 277 }, {  72, 277 },
-
- {  73, 277 }, {  74, 277 }, {  75, 277 }, {  76, 277 }, {  77, 277 },
- {  78, 277 }, {  79, 277 }, {  80, 277 }, {  81, 277 }, {  82, 277 },
- {  83, 277 }, {  84, 277 }, {  85, 277 }, {  86, 277 }, {  87, 277 },
- {  88, 277 }, {  89, 277 }, {  90, 277 }, {  91, 277 }, {  92, 277 },
- {  93, 277 }, {  94, 277 }, {  95, 277 }, {  96, 277 }, {  97, 277 },
- {  98, 277 }, {  99, 277 }, { 100, 277 }, { 101, 277 }, { 102, 277 },
- { 103, 277 }, { 104, 277 }, { 105, 277 }, { 106, 277 }, { 107, 277 },
- { 108, 277 }, { 109, 277 }, { 110, 277 }, { 111, 277 }, { 112, 277 },
- { 113, 277 }, { 114, 277 }, { 115, 277 }, { 116, 277 }, { 117, 277 },
- { 118, 277 }, { 119, 277 }, { 120, 277 }, { 121, 277 }, { 122, 277 },
-
- { 123, 277 }, { 124, 277 }, { 125, 277 }, { 126, 277 }, { 127, 277 },
- { 128, 277 }, { 129, 277 }, { 130, 277 }, { 131, 277 }, { 132, 277 },
- { 133, 277 }, { 134, 277 }, { 135, 277 }, { 136, 277 }, { 137, 277 },
- { 138, 277 }, { 139, 277 }, { 140, 277 }, { 141, 277 }, { 142, 277 },
- { 143, 277 }, { 144, 277 }, { 145, 277 }, { 146, 277 }, { 147, 277 },
- { 148, 277 }, { 149, 277 }, { 150, 277 }, { 151, 277 }, { 152, 277 },
- { 153, 277 }, { 154, 277 }, { 155, 277 }, { 156, 277 }, { 157, 277 },
- { 158, 277 }, { 159, 277 }, { 160, 277 }, { 161, 277 }, { 162, 277 },
- { 163, 277 }, { 164, 277 }, { 165, 277 }, { 166, 277 }, { 167, 277 },
- { 168, 277 }, { 169, 277 }, { 170, 277 }, { 171, 277 }, { 172, 277 },
-
- { 173, 277 }, { 174, 277 }, { 175, 277 }, { 176, 277 }, { 177, 277 },
- { 178, 277 }, { 179, 277 }, { 180, 277 }, { 181, 277 }, { 182, 277 },
- { 183, 277 }, { 184, 277 }, { 185, 277 }, { 186, 277 }, { 187, 277 },
- { 188, 277 }, { 189, 277 }, { 190, 277 }, { 191, 277 }, { 192, 277 },
- { 193, 277 }, { 194, 277 }, { 195, 277 }, { 196, 277 }, { 197, 277 },
- { 198, 277 }, { 199, 277 }, { 200, 277 }, { 201, 277 }, { 202, 277 },
- { 203, 277 }, { 204, 277 }, { 205, 277 }, { 206, 277 }, { 207, 277 },
- { 208, 277 }, { 209, 277 }, { 210, 277 }, { 211, 277 }, { 212, 277 },
- { 213, 277 }, { 214, 277 }, { 215, 277 }, { 216, 277 }, { 217, 277 },
- { 218, 277 }, { 219, 277 }, { 220, 277 }, { 221, 277 }, { 222, 277 },
-
- { 223, 277 }, { 224, 277 }, { 225, 277 }, { 226, 277 }, { 227, 277 },
- { 228, 277 }, { 229, 277 }, { 230, 277 }, { 231, 277 }, { 232, 277 },
- { 233, 277 }, { 234, 277 }, { 235, 277 }, { 236, 277 }, { 237, 277 },
- { 238, 277 }, { 239, 277 }, { 240, 277 }, { 241, 277 }, { 242, 277 },
- { 243, 277 }, { 244, 277 }, { 245, 277 }, { 246, 277 }, { 247, 277 },
- { 248, 277 }, { 249, 277 }, { 250, 277 }, { 251, 277 }, { 252, 277 },
- { 253, 277 }, { 254, 277 }, { 255, 277 }, { 256, 277 }, {   0,   1 },
- {   0,3519 }, {   0,   1 }, {   0,3517 }, {   0,  47 }, {   0,3515 },
- {   0,  44 }, {   0,3513 }, {   0,  29 }, {   0,3511 }, {   0,  23 },
- {   0,3509 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,3502 }, {   0,   8 }, {   0,3500 },
- {   0,   1 }, {   0,3498 }, {   0,  45 }, {   0,3496 }, {   0,  26 },
- {   0,3494 }, {   0,   0 }, {   0,3492 }, {   1,-9689 }, {   2,-9689 },
- {   3,-9689 }, {   4,-9689 }, {   5,-9689 }, {   6,-9689 }, {   7,-9689 },
- {   8,-9689 }, {   9,  -4 }, {  10,  -4 }, {  11,-9689 }, {  12,-9689 },
- {  13,  -4 }, {  14,-9689 }, {  15,-9689 }, {  16,-9689 }, {  17,-9689 },
- {  18,-9689 }, {  19,-9689 }, {  20,-9689 }, {  21,-9689 }, {  22,-9689 },
- {  23,-9689 }, {  24,-9689 }, {  25,-9689 }, {  26,-9689 }, {  27,-9689 },
- {  28,-9689 }, {  29,-9689 }, {  30,-9689 }, {  31,-9689 }, {  32,  -4 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-9689 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,  -4 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  45,-9689 }, {  46,-9714 }, {  47,-9714 },
- {  48,-9689 }, {  49,-9689 }, {  50,-9689 }, {  51,-9689 }, {  52,-9689 },
- {  53,-9689 }, {  54,-9689 }, {  55,-9689 }, {  56,-9689 }, {  57,-9689 },
- {  58,-9689 }, {   0,   0 }, {   0,   0 }, {  61,-9714 }, {   0,   0 },
- {  63,-9689 }, {   0,   0 }, {  65,-9689 }, {  66,-9689 }, {  67,-9689 },
- {  68,-9689 }, {  69,-9689 }, {  70,-9689 }, {  71,-9689 }, {  72,-9689 },
- {  73,-9689 }, {  74,-9689 }, {  75,-9689 }, {  76,-9689 }, {  77,-9689 },
- {  78,-9689 }, {  79,-9689 }, {  80,-9689 }, {  81,-9689 }, {  82,-9689 },
- {  83,-9689 }, {  84,-9689 }, {  85,-9689 }, {  86,-9689 }, {  87,-9689 },
-
- {  88,-9689 }, {  89,-9689 }, {  90,-9689 }, { 101,1300 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  95,-9689 }, { 123,  21 }, {  97,-9689 },
- {  98,-9689 }, {  99,-9689 }, { 100,-9689 }, { 101,-9689 }, { 102,-9689 },
- { 103,-9689 }, { 104,-9689 }, { 105,-9689 }, { 106,-9689 }, { 107,-9689 },
- { 108,-9689 }, { 109,-9689 }, { 110,-9689 }, { 111,-9689 }, { 112,-9689 },
- { 113,-9689 }, { 114,-9689 }, { 115,-9689 }, { 116,-9689 }, { 117,-9689 },
- { 118,-9689 }, { 119,-9689 }, { 120,-9689 }, { 121,-9689 }, { 122,-9689 },
- {   0,   0 }, { 124,-9714 }, { 125,  -4 }, { 126,  -4 }, { 127,-9689 },
- { 128,-9689 }, { 129,-9689 }, { 130,-9689 }, { 131,-9689 }, { 132,-9689 },
- { 133,-9689 }, { 134,-9689 }, { 135,-9689 }, { 136,-9689 }, { 137,-9689 },
-
- { 138,-9689 }, { 139,-9689 }, { 140,-9689 }, { 141,-9689 }, { 142,-9689 },
- { 143,-9689 }, { 144,-9689 }, { 145,-9689 }, { 146,-9689 }, { 147,-9689 },
- { 148,-9689 }, { 149,-9689 }, { 150,-9689 }, { 151,-9689 }, { 152,-9689 },
- { 153,-9689 }, { 154,-9689 }, { 155,-9689 }, { 156,-9689 }, { 157,-9689 },
- { 158,-9689 }, { 159,-9689 }, { 160,-9689 }, { 161,-9689 }, { 162,-9689 },
- { 163,-9689 }, { 164,-9689 }, { 165,-9689 }, { 166,-9689 }, { 167,-9689 },
- { 168,-9689 }, { 169,-9689 }, { 170,-9689 }, { 171,-9689 }, { 172,-9689 },
- { 173,-9689 }, { 174,-9689 }, { 175,-9689 }, { 176,-9689 }, { 177,-9689 },
- { 178,-9689 }, { 179,-9689 }, { 180,-9689 }, { 181,-9689 }, { 182,-9689 },
- { 183,-9689 }, { 184,-9689 }, { 185,-9689 }, { 186,-9689 }, { 187,-9689 },
-
- { 188,-9689 }, { 189,-9689 }, { 190,-9689 }, { 191,-9689 }, { 192,-9689 },
- { 193,-9689 }, { 194,-9689 }, { 195,-9689 }, { 196,-9689 }, { 197,-9689 },
- { 198,-9689 }, { 199,-9689 }, { 200,-9689 }, { 201,-9689 }, { 202,-9689 },
- { 203,-9689 }, { 204,-9689 }, { 205,-9689 }, { 206,-9689 }, { 207,-9689 },
- { 208,-9689 }, { 209,-9689 }, { 210,-9689 }, { 211,-9689 }, { 212,-9689 },
- { 213,-9689 }, { 214,-9689 }, { 215,-9689 }, { 216,-9689 }, { 217,-9689 },
- { 218,-9689 }, { 219,-9689 }, { 220,-9689 }, { 221,-9689 }, { 222,-9689 },
- { 223,-9689 }, { 224,-9689 }, { 225,-9689 }, { 226,-9689 }, { 227,-9689 },
- { 228,-9689 }, { 229,-9689 }, { 230,-9689 }, { 231,-9689 }, { 232,-9689 },
- { 233,-9689 }, { 234,-9689 }, { 235,-9689 }, { 236,-9689 }, { 237,-9689 },
-
- { 238,-9689 }, { 239,-9689 }, { 240,-9689 }, { 241,-9689 }, { 242,-9689 },
- { 243,-9689 }, { 244,-9689 }, { 245,-9689 }, { 246,-9689 }, { 247,-9689 },
- { 248,-9689 }, { 249,-9689 }, { 250,-9689 }, { 251,-9689 }, { 252,-9689 },
- { 253,-9689 }, { 254,-9689 }, { 255,-9689 }, { 256,-9689 }, {   0,   0 },
- {   0,3234 }, {   1,-9947 }, {   2,-9947 }, {   3,-9947 }, {   4,-9947 },
- {   5,-9947 }, {   6,-9947 }, {   7,-9947 }, {   8,-9947 }, {   9,-9972 },
- {  10,-9972 }, {  11,-9947 }, {  12,-9947 }, {  13,-9972 }, {  14,-9947 },
- {  15,-9947 }, {  16,-9947 }, {  17,-9947 }, {  18,-9947 }, {  19,-9947 },
- {  20,-9947 }, {  21,-9947 }, {  22,-9947 }, {  23,-9947 }, {  24,-9947 },
- {  25,-9947 }, {  26,-9947 }, {  27,-9947 }, {  28,-9947 }, {  29,-9947 },
-
- {  30,-9947 }, {  31,-9947 }, {  32,-9972 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  36,-9947 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  41,-9972 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  45,-9947 }, {  46,-9972 }, {  47,-9972 }, {  48,-9947 }, {  49,-9947 },
- {  50,-9947 }, {  51,-9947 }, {  52,-9947 }, {  53,-9947 }, {  54,-9947 },
- {  55,-9947 }, {  56,-9947 }, {  57,-9947 }, {  58,-9947 }, {   0,   0 },
- {   0,   0 }, {  61,-9972 }, {   0,   0 }, {  63,-9947 }, {   0,   0 },
- {  65,-9947 }, {  66,-9947 }, {  67,-9947 }, {  68,-9947 }, {  69,-9947 },
- {  70,-9947 }, {  71,-9947 }, {  72,-9947 }, {  73,-9947 }, {  74,-9947 },
- {  75,-9947 }, {  76,-9947 }, {  77,-9947 }, {  78,-9947 }, {  79,-9947 },
-
- {  80,-9947 }, {  81,-9947 }, {  82,-9947 }, {  83,-9947 }, {  84,-9947 },
- {  85,-9947 }, {  86,-9947 }, {  87,-9947 }, {  88,-9947 }, {  89,-9947 },
- {  90,-9947 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  95,-9947 }, {   0,   0 }, {  97,-9947 }, {  98,-9947 }, {  99,-9947 },
- { 100,-9947 }, { 101,-9947 }, { 102,-9947 }, { 103,-9947 }, { 104,-9947 },
- { 105, 774 }, { 106,-9947 }, { 107,-9947 }, { 108,-9947 }, { 109,-9947 },
- { 110,-9947 }, { 111,-9947 }, { 112,-9947 }, { 113,-9947 }, { 114,-9947 },
- { 115,-9947 }, { 116,-9947 }, { 117,-9947 }, { 118,-9947 }, { 119,-9947 },
- { 120,-9947 }, { 121,-9947 }, { 122,-9947 }, {   0,   0 }, { 124,-9972 },
- { 125,-9972 }, { 126,-9972 }, { 127,-9947 }, { 128,-9947 }, { 129,-9947 },
-
- { 130,-9947 }, { 131,-9947 }, { 132,-9947 }, { 133,-9947 }, { 134,-9947 },
- { 135,-9947 }, { 136,-9947 }, { 137,-9947 }, { 138,-9947 }, { 139,-9947 },
- { 140,-9947 }, { 141,-9947 }, { 142,-9947 }, { 143,-9947 }, { 144,-9947 },
- { 145,-9947 }, { 146,-9947 }, { 147,-9947 }, { 148,-9947 }, { 149,-9947 },
- { 150,-9947 }, { 151,-9947 }, { 152,-9947 }, { 153,-9947 }, { 154,-9947 },
- { 155,-9947 }, { 156,-9947 }, { 157,-9947 }, { 158,-9947 }, { 159,-9947 },
- { 160,-9947 }, { 161,-9947 }, { 162,-9947 }, { 163,-9947 }, { 164,-9947 },
- { 165,-9947 }, { 166,-9947 }, { 167,-9947 }, { 168,-9947 }, { 169,-9947 },
- { 170,-9947 }, { 171,-9947 }, { 172,-9947 }, { 173,-9947 }, { 174,-9947 },
- { 175,-9947 }, { 176,-9947 }, { 177,-9947 }, { 178,-9947 }, { 179,-9947 },
-
- { 180,-9947 }, { 181,-9947 }, { 182,-9947 }, { 183,-9947 }, { 184,-9947 },
- { 185,-9947 }, { 186,-9947 }, { 187,-9947 }, { 188,-9947 }, { 189,-9947 },
- { 190,-9947 }, { 191,-9947 }, { 192,-9947 }, { 193,-9947 }, { 194,-9947 },
- { 195,-9947 }, { 196,-9947 }, { 197,-9947 }, { 198,-9947 }, { 199,-9947 },
- { 200,-9947 }, { 201,-9947 }, { 202,-9947 }, { 203,-9947 }, { 204,-9947 },
- { 205,-9947 }, { 206,-9947 }, { 207,-9947 }, { 208,-9947 }, { 209,-9947 },
- { 210,-9947 }, { 211,-9947 }, { 212,-9947 }, { 213,-9947 }, { 214,-9947 },
- { 215,-9947 }, { 216,-9947 }, { 217,-9947 }, { 218,-9947 }, { 219,-9947 },
- { 220,-9947 }, { 221,-9947 }, { 222,-9947 }, { 223,-9947 }, { 224,-9947 },
- { 225,-9947 }, { 226,-9947 }, { 227,-9947 }, { 228,-9947 }, { 229,-9947 },
-
- { 230,-9947 }, { 231,-9947 }, { 232,-9947 }, { 233,-9947 }, { 234,-9947 },
- { 235,-9947 }, { 236,-9947 }, { 237,-9947 }, { 238,-9947 }, { 239,-9947 },
- { 240,-9947 }, { 241,-9947 }, { 242,-9947 }, { 243,-9947 }, { 244,-9947 },
- { 245,-9947 }, { 246,-9947 }, { 247,-9947 }, { 248,-9947 }, { 249,-9947 },
- { 250,-9947 }, { 251,-9947 }, { 252,-9947 }, { 253,-9947 }, { 254,-9947 },
- { 255,-9947 }, { 256,-9947 }, {   0,   0 }, {   0,2976 }, {   1,-1317 },
- {   2,-1317 }, {   3,-1317 }, {   4,-1317 }, {   5,-1317 }, {   6,-1317 },
- {   7,-1317 }, {   8,-1317 }, {   9,-1317 }, {  10,-1317 }, {  11,-1317 },
- {  12,-1317 }, {  13,-1317 }, {  14,-1317 }, {  15,-1317 }, {  16,-1317 },
- {  17,-1317 }, {  18,-1317 }, {  19,-1317 }, {  20,-1317 }, {  21,-1317 },
-
- {  22,-1317 }, {  23,-1317 }, {  24,-1317 }, {  25,-1317 }, {  26,-1317 },
- {  27,-1317 }, {  28,-1317 }, {  29,-1317 }, {  30,-1317 }, {  31,-1317 },
- {  32,-1317 }, {  33,-1317 }, {  34,-1317 }, {  35,-1317 }, {  36,-1317 },
- {  37,-1317 }, {  38,-1317 }, {  39,-1317 }, {  40,-1317 }, {  41,-1317 },
- {  42,-1317 }, {  43,-1317 }, {  44,-1317 }, {  45,   0 }, {  46,-1317 },
- {  47,-1317 }, {  48,-1317 }, {  49,-1317 }, {  50,-1317 }, {  51,-1317 },
- {  52,-1317 }, {  53,-1317 }, {  54,-1317 }, {  55,-1317 }, {  56,-1317 },
- {  57,-1317 }, {  58,-1317 }, {  59,-1317 }, {  60,-1317 }, {  61,-1317 },
- {  62,-1317 }, {  63,-1317 }, {  64,-1317 }, {  65,-1317 }, {  66,-1317 },
- {  67,-1317 }, {  68,-1317 }, {  69,-1317 }, {  70,-1317 }, {  71,-1317 },
-
- {  72,-1317 }, {  73,-1317 }, {  74,-1317 }, {  75,-1317 }, {  76,-1317 },
- {  77,-1317 }, {  78,-1317 }, {  79,-1317 }, {  80,-1317 }, {  81,-1317 },
- {  82,-1317 }, {  83,-1317 }, {  84,-1317 }, {  85,-1317 }, {  86,-1317 },
- {  87,-1317 }, {  88,-1317 }, {  89,-1317 }, {  90,-1317 }, {  91,-1317 },
- {  92,-1317 }, {  93,-1317 }, {  94,-1317 }, {  95,-1317 }, {  96,-1317 },
- {  97,-1317 }, {  98,-1317 }, {  99,-1317 }, { 100,-1317 }, { 101,-1317 },
- { 102,-1317 }, { 103,-1317 }, { 104,-1317 }, { 105,-1317 }, { 106,-1317 },
- { 107,-1317 }, { 108,-1317 }, { 109,-1317 }, { 110,-1317 }, { 111,-1317 },
- { 112,-1317 }, { 113,-1317 }, { 114,-1317 }, { 115,-1317 }, { 116,-1317 },
- { 117,-1317 }, { 118,-1317 }, { 119,-1317 }, { 120,-1317 }, { 121,-1317 },
-
- { 122,-1317 }, { 123,-1317 }, { 124,-1317 }, { 125, 902 }, { 126,1160 },
- { 127,-1317 }, { 128,-1317 }, { 129,-1317 }, { 130,-1317 }, { 131,-1317 },
- { 132,-1317 }, { 133,-1317 }, { 134,-1317 }, { 135,-1317 }, { 136,-1317 },
- { 137,-1317 }, { 138,-1317 }, { 139,-1317 }, { 140,-1317 }, { 141,-1317 },
- { 142,-1317 }, { 143,-1317 }, { 144,-1317 }, { 145,-1317 }, { 146,-1317 },
- { 147,-1317 }, { 148,-1317 }, { 149,-1317 }, { 150,-1317 }, { 151,-1317 },
- { 152,-1317 }, { 153,-1317 }, { 154,-1317 }, { 155,-1317 }, { 156,-1317 },
- { 157,-1317 }, { 158,-1317 }, { 159,-1317 }, { 160,-1317 }, { 161,-1317 },
- { 162,-1317 }, { 163,-1317 }, { 164,-1317 }, { 165,-1317 }, { 166,-1317 },
- { 167,-1317 }, { 168,-1317 }, { 169,-1317 }, { 170,-1317 }, { 171,-1317 },
-
- { 172,-1317 }, { 173,-1317 }, { 174,-1317 }, { 175,-1317 }, { 176,-1317 },
- { 177,-1317 }, { 178,-1317 }, { 179,-1317 }, { 180,-1317 }, { 181,-1317 },
- { 182,-1317 }, { 183,-1317 }, { 184,-1317 }, { 185,-1317 }, { 186,-1317 },
- { 187,-1317 }, { 188,-1317 }, { 189,-1317 }, { 190,-1317 }, { 191,-1317 },
- { 192,-1317 }, { 193,-1317 }, { 194,-1317 }, { 195,-1317 }, { 196,-1317 },
- { 197,-1317 }, { 198,-1317 }, { 199,-1317 }, { 200,-1317 }, { 201,-1317 },
- { 202,-1317 }, { 203,-1317 }, { 204,-1317 }, { 205,-1317 }, { 206,-1317 },
- { 207,-1317 }, { 208,-1317 }, { 209,-1317 }, { 210,-1317 }, { 211,-1317 },
- { 212,-1317 }, { 213,-1317 }, { 214,-1317 }, { 215,-1317 }, { 216,-1317 },
- { 217,-1317 }, { 218,-1317 }, { 219,-1317 }, { 220,-1317 }, { 221,-1317 },
-
- { 222,-1317 }, { 223,-1317 }, { 224,-1317 }, { 225,-1317 }, { 226,-1317 },
- { 227,-1317 }, { 228,-1317 }, { 229,-1317 }, { 230,-1317 }, { 231,-1317 },
- { 232,-1317 }, { 233,-1317 }, { 234,-1317 }, { 235,-1317 }, { 236,-1317 },
- { 237,-1317 }, { 238,-1317 }, { 239,-1317 }, { 240,-1317 }, { 241,-1317 },
- { 242,-1317 }, { 243,-1317 }, { 244,-1317 }, { 245,-1317 }, { 246,-1317 },
- { 247,-1317 }, { 248,-1317 }, { 249,-1317 }, { 250,-1317 }, { 251,-1317 },
- { 252,-1317 }, { 253,-1317 }, { 254,-1317 }, { 255,-1317 }, { 256,-1317 },
- {   0,   0 }, {   0,2718 }, {   1,1160 }, {   2,1160 }, {   3,1160 },
- {   4,1160 }, {   5,1160 }, {   6,1160 }, {   7,1160 }, {   8,1160 },
- {   0,   0 }, {   0,   0 }, {  11,1160 }, {  12,1160 }, {   0,   0 },
-
- {  14,1160 }, {  15,1160 }, {  16,1160 }, {  17,1160 }, {  18,1160 },
- {  19,1160 }, {  20,1160 }, {  21,1160 }, {  22,1160 }, {  23,1160 },
- {  24,1160 }, {  25,1160 }, {  26,1160 }, {  27,1160 }, {  28,1160 },
- {  29,1160 }, {  30,1160 }, {  31,1160 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,1160 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,1160 }, {   0,   0 }, {   0,   0 }, {  48,1160 },
- {  49,1160 }, {  50,1160 }, {  51,1160 }, {  52,1160 }, {  53,1160 },
- {  54,1160 }, {  55,1160 }, {  56,1160 }, {  57,1160 }, {  58,1160 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,1160 },
-
- {   0,   0 }, {  65,1160 }, {  66,1160 }, {  67,1160 }, {  68,1160 },
- {  69,1160 }, {  70,1160 }, {  71,1160 }, {  72,1160 }, {  73,1160 },
- {  74,1160 }, {  75,1160 }, {  76,1160 }, {  77,1160 }, {  78,1160 },
- {  79,1160 }, {  80,1160 }, {  81,1160 }, {  82,1160 }, {  83,1160 },
- {  84,1160 }, {  85,1160 }, {  86,1160 }, {  87,1160 }, {  88,1160 },
- {  89,1160 }, {  90,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,1160 }, {   0,   0 }, {  97,1160 }, {  98,1160 },
- {  99,1160 }, { 100,1160 }, { 101,1160 }, { 102,1160 }, { 103,1160 },
- { 104,1160 }, { 105,1160 }, { 106,1160 }, { 107,1160 }, { 108,1160 },
- { 109,1160 }, { 110,1160 }, { 111,1160 }, { 112,1160 }, { 113,1160 },
-
- { 114,1160 }, { 115,1160 }, { 116,1160 }, { 117,1160 }, { 118,1160 },
- { 119,1160 }, { 120,1160 }, { 121,1160 }, { 122,1160 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, { 127,1160 }, { 128,1160 },
- { 129,1160 }, { 130,1160 }, { 131,1160 }, { 132,1160 }, { 133,1160 },
- { 134,1160 }, { 135,1160 }, { 136,1160 }, { 137,1160 }, { 138,1160 },
- { 139,1160 }, { 140,1160 }, { 141,1160 }, { 142,1160 }, { 143,1160 },
- { 144,1160 }, { 145,1160 }, { 146,1160 }, { 147,1160 }, { 148,1160 },
- { 149,1160 }, { 150,1160 }, { 151,1160 }, { 152,1160 }, { 153,1160 },
- { 154,1160 }, { 155,1160 }, { 156,1160 }, { 157,1160 }, { 158,1160 },
- { 159,1160 }, { 160,1160 }, { 161,1160 }, { 162,1160 }, { 163,1160 },
-
- { 164,1160 }, { 165,1160 }, { 166,1160 }, { 167,1160 }, { 168,1160 },
- { 169,1160 }, { 170,1160 }, { 171,1160 }, { 172,1160 }, { 173,1160 },
- { 174,1160 }, { 175,1160 }, { 176,1160 }, { 177,1160 }, { 178,1160 },
- { 179,1160 }, { 180,1160 }, { 181,1160 }, { 182,1160 }, { 183,1160 },
- { 184,1160 }, { 185,1160 }, { 186,1160 }, { 187,1160 }, { 188,1160 },
- { 189,1160 }, { 190,1160 }, { 191,1160 }, { 192,1160 }, { 193,1160 },
- { 194,1160 }, { 195,1160 }, { 196,1160 }, { 197,1160 }, { 198,1160 },
- { 199,1160 }, { 200,1160 }, { 201,1160 }, { 202,1160 }, { 203,1160 },
- { 204,1160 }, { 205,1160 }, { 206,1160 }, { 207,1160 }, { 208,1160 },
- { 209,1160 }, { 210,1160 }, { 211,1160 }, { 212,1160 }, { 213,1160 },
-
- { 214,1160 }, { 215,1160 }, { 216,1160 }, { 217,1160 }, { 218,1160 },
- { 219,1160 }, { 220,1160 }, { 221,1160 }, { 222,1160 }, { 223,1160 },
- { 224,1160 }, { 225,1160 }, { 226,1160 }, { 227,1160 }, { 228,1160 },
- { 229,1160 }, { 230,1160 }, { 231,1160 }, { 232,1160 }, { 233,1160 },
- { 234,1160 }, { 235,1160 }, { 236,1160 }, { 237,1160 }, { 238,1160 },
- { 239,1160 }, { 240,1160 }, { 241,1160 }, { 242,1160 }, { 243,1160 },
- { 244,1160 }, { 245,1160 }, { 246,1160 }, { 247,1160 }, { 248,1160 },
- { 249,1160 }, { 250,1160 }, { 251,1160 }, { 252,1160 }, { 253,1160 },
- { 254,1160 }, { 255,1160 }, { 256,1160 }, {   0,   0 }, {   0,2460 },
- {   1,-10721 }, {   2,-10721 }, {   3,-10721 }, {   4,-10721 }, {   5,-10721 },
-
- {   6,-10721 }, {   7,-10721 }, {   8,-10721 }, {   9,-10746 }, {  10,-10746 },
- {  11,-10721 }, {  12,-10721 }, {  13,-10746 }, {  14,-10721 }, {  15,-10721 },
- {  16,-10721 }, {  17,-10721 }, {  18,-10721 }, {  19,-10721 }, {  20,-10721 },
- {  21,-10721 }, {  22,-10721 }, {  23,-10721 }, {  24,-10721 }, {  25,-10721 },
- {  26,-10721 }, {  27,-10721 }, {  28,-10721 }, {  29,-10721 }, {  30,-10721 },
- {  31,-10721 }, {  32,-10746 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-10721 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-10746 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-10721 },
- {  46,-10746 }, {  47,-10746 }, {  48,-10721 }, {  49,-10721 }, {  50,-10721 },
- {  51,-10721 }, {  52,-10721 }, {  53,-10721 }, {  54,-10721 }, {  55,-10721 },
-
- {  56,-10721 }, {  57,-10721 }, {  58,-10721 }, {   0,   0 }, {   0,   0 },
- {  61,-10746 }, {   0,   0 }, {  63,-10721 }, {   0,   0 }, {  65,-10721 },
- {  66,-10721 }, {  67,-10721 }, {  68,-10721 }, {  69,-10721 }, {  70,-10721 },
- {  71,-10721 }, {  72,-10721 }, {  73,-10721 }, {  74,-10721 }, {  75,-10721 },
- {  76,-10721 }, {  77,-10721 }, {  78,-10721 }, {  79,-10721 }, {  80,-10721 },
- {  81,-10721 }, {  82,-10721 }, {  83,-10721 }, {  84,-10721 }, {  85,-10721 },
- {  86,-10721 }, {  87,-10721 }, {  88,-10721 }, {  89,-10721 }, {  90,-10721 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-10721 },
- {   0,   0 }, {  97,-10721 }, {  98,-10721 }, {  99,-10721 }, { 100,-10721 },
- { 101,-10721 }, { 102,-10721 }, { 103,-10721 }, { 104,-10721 }, { 105,-10721 },
-
- { 106,-10721 }, { 107,-10721 }, { 108,-10721 }, { 109,-10721 }, { 110,1160 },
- { 111,-10721 }, { 112,-10721 }, { 113,-10721 }, { 114,-10721 }, { 115,-10721 },
- { 116,-10721 }, { 117,-10721 }, { 118,-10721 }, { 119,-10721 }, { 120,-10721 },
- { 121,-10721 }, { 122,-10721 }, {   0,   0 }, { 124,-10746 }, { 125,-10746 },
- { 126,-10746 }, { 127,-10721 }, { 128,-10721 }, { 129,-10721 }, { 130,-10721 },
- { 131,-10721 }, { 132,-10721 }, { 133,-10721 }, { 134,-10721 }, { 135,-10721 },
- { 136,-10721 }, { 137,-10721 }, { 138,-10721 }, { 139,-10721 }, { 140,-10721 },
- { 141,-10721 }, { 142,-10721 }, { 143,-10721 }, { 144,-10721 }, { 145,-10721 },
- { 146,-10721 }, { 147,-10721 }, { 148,-10721 }, { 149,-10721 }, { 150,-10721 },
- { 151,-10721 }, { 152,-10721 }, { 153,-10721 }, { 154,-10721 }, { 155,-10721 },
-
- { 156,-10721 }, { 157,-10721 }, { 158,-10721 }, { 159,-10721 }, { 160,-10721 },
- { 161,-10721 }, { 162,-10721 }, { 163,-10721 }, { 164,-10721 }, { 165,-10721 },
- { 166,-10721 }, { 167,-10721 }, { 168,-10721 }, { 169,-10721 }, { 170,-10721 },
- { 171,-10721 }, { 172,-10721 }, { 173,-10721 }, { 174,-10721 }, { 175,-10721 },
- { 176,-10721 }, { 177,-10721 }, { 178,-10721 }, { 179,-10721 }, { 180,-10721 },
- { 181,-10721 }, { 182,-10721 }, { 183,-10721 }, { 184,-10721 }, { 185,-10721 },
- { 186,-10721 }, { 187,-10721 }, { 188,-10721 }, { 189,-10721 }, { 190,-10721 },
- { 191,-10721 }, { 192,-10721 }, { 193,-10721 }, { 194,-10721 }, { 195,-10721 },
- { 196,-10721 }, { 197,-10721 }, { 198,-10721 }, { 199,-10721 }, { 200,-10721 },
- { 201,-10721 }, { 202,-10721 }, { 203,-10721 }, { 204,-10721 }, { 205,-10721 },
-
- { 206,-10721 }, { 207,-10721 }, { 208,-10721 }, { 209,-10721 }, { 210,-10721 },
- { 211,-10721 }, { 212,-10721 }, { 213,-10721 }, { 214,-10721 }, { 215,-10721 },
- { 216,-10721 }, { 217,-10721 }, { 218,-10721 }, { 219,-10721 }, { 220,-10721 },
- { 221,-10721 }, { 222,-10721 }, { 223,-10721 }, { 224,-10721 }, { 225,-10721 },
- { 226,-10721 }, { 227,-10721 }, { 228,-10721 }, { 229,-10721 }, { 230,-10721 },
- { 231,-10721 }, { 232,-10721 }, { 233,-10721 }, { 234,-10721 }, { 235,-10721 },
- { 236,-10721 }, { 237,-10721 }, { 238,-10721 }, { 239,-10721 }, { 240,-10721 },
- { 241,-10721 }, { 242,-10721 }, { 243,-10721 }, { 244,-10721 }, { 245,-10721 },
- { 246,-10721 }, { 247,-10721 }, { 248,-10721 }, { 249,-10721 }, { 250,-10721 },
- { 251,-10721 }, { 252,-10721 }, { 253,-10721 }, { 254,-10721 }, { 255,-10721 },
-
- { 256,-10721 }, {   0,   0 }, {   0,2202 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   9,1160 }, {  10,1160 }, {   0,   0 }, {   0,   0 },
- {  13,1160 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,1160 },
- {  33,-1292 }, {  34,-1292 }, {  35,-1292 }, {   0,   0 }, {  37,-1292 },
- {  38,-1292 }, {  39,-1292 }, {  40,-1292 }, {  41,-1292 }, {  42,-1292 },
- {  43,-1292 }, {  44,-1292 }, {   0,   0 }, {  46,-1292 }, {  47,-1292 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  59,-1292 }, {  60,-1292 }, {  61,-1292 }, {  62,-1292 },
- {   0,   0 }, {  64,-1292 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  91,-1292 }, {  92,-1292 },
- {  93,-1292 }, {  94,-1292 }, {   0,   0 }, {  96,-1292 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- { 123,-1292 }, { 124,-1292 }, { 125,1162 }, { 126,1164 }, {   0,   0 },
- {   0,2074 }, {   1,-2219 }, {   2,-2219 }, {   3,-2219 }, {   4,-2219 },
- {   5,-2219 }, {   6,-2219 }, {   7,-2219 }, {   8,-2219 }, {   9,-2219 },
- {  10,-2219 }, {  11,-2219 }, {  12,-2219 }, {  13,-2219 }, {  14,-2219 },
- {  15,-2219 }, {  16,-2219 }, {  17,-2219 }, {  18,-2219 }, {  19,-2219 },
-
- {  20,-2219 }, {  21,-2219 }, {  22,-2219 }, {  23,-2219 }, {  24,-2219 },
- {  25,-2219 }, {  26,-2219 }, {  27,-2219 }, {  28,-2219 }, {  29,-2219 },
- {  30,-2219 }, {  31,-2219 }, {  32,-2219 }, {  33,-2219 }, {  34,-2219 },
- {  35,-2219 }, {  36,-2219 }, {  37,-2219 }, {  38,-2219 }, {  39,-2219 },
- {  40,-2219 }, {  41,-2219 }, {  42,-2219 }, {  43,-2219 }, {  44,-2219 },
- {  45,1163 }, {  46,-2219 }, {  47,-2219 }, {  48,-2219 }, {  49,-2219 },
- {  50,-2219 }, {  51,-2219 }, {  52,-2219 }, {  53,-2219 }, {  54,-2219 },
- {  55,-2219 }, {  56,-2219 }, {  57,-2219 }, {  58,-2219 }, {  59,-2219 },
- {  60,-2219 }, {  61,-2219 }, {  62,-2219 }, {  63,-2219 }, {  64,-2219 },
- {  65,-2219 }, {  66,-2219 }, {  67,-2219 }, {  68,-2219 }, {  69,-2219 },
-
- {  70,-2219 }, {  71,-2219 }, {  72,-2219 }, {  73,-2219 }, {  74,-2219 },
- {  75,-2219 }, {  76,-2219 }, {  77,-2219 }, {  78,-2219 }, {  79,-2219 },
- {  80,-2219 }, {  81,-2219 }, {  82,-2219 }, {  83,-2219 }, {  84,-2219 },
- {  85,-2219 }, {  86,-2219 }, {  87,-2219 }, {  88,-2219 }, {  89,-2219 },
- {  90,-2219 }, {  91,-2219 }, {  92,-2219 }, {  93,-2219 }, {  94,-2219 },
- {  95,-2219 }, {  96,-2219 }, {  97,-2219 }, {  98,-2219 }, {  99,-2219 },
- { 100,-2219 }, { 101,-2219 }, { 102,-2219 }, { 103,-2219 }, { 104,-2219 },
- { 105,-2219 }, { 106,-2219 }, { 107,-2219 }, { 108,-2219 }, { 109,-2219 },
- { 110,-2219 }, { 111,-2219 }, { 112,-2219 }, { 113,-2219 }, { 114,-2219 },
- { 115,-2219 }, { 116,-2219 }, { 117,-2219 }, { 118,-2219 }, { 119,-2219 },
-
- { 120,-2219 }, { 121,-2219 }, { 122,-2219 }, { 123,-2219 }, { 124,-2219 },
- { 125,1038 }, { 126,-2219 }, { 127,-2219 }, { 128,-2219 }, { 129,-2219 },
- { 130,-2219 }, { 131,-2219 }, { 132,-2219 }, { 133,-2219 }, { 134,-2219 },
- { 135,-2219 }, { 136,-2219 }, { 137,-2219 }, { 138,-2219 }, { 139,-2219 },
- { 140,-2219 }, { 141,-2219 }, { 142,-2219 }, { 143,-2219 }, { 144,-2219 },
- { 145,-2219 }, { 146,-2219 }, { 147,-2219 }, { 148,-2219 }, { 149,-2219 },
- { 150,-2219 }, { 151,-2219 }, { 152,-2219 }, { 153,-2219 }, { 154,-2219 },
- { 155,-2219 }, { 156,-2219 }, { 157,-2219 }, { 158,-2219 }, { 159,-2219 },
- { 160,-2219 }, { 161,-2219 }, { 162,-2219 }, { 163,-2219 }, { 164,-2219 },
- { 165,-2219 }, { 166,-2219 }, { 167,-2219 }, { 168,-2219 }, { 169,-2219 },
-
- { 170,-2219 }, { 171,-2219 }, { 172,-2219 }, { 173,-2219 }, { 174,-2219 },
- { 175,-2219 }, { 176,-2219 }, { 177,-2219 }, { 178,-2219 }, { 179,-2219 },
- { 180,-2219 }, { 181,-2219 }, { 182,-2219 }, { 183,-2219 }, { 184,-2219 },
- { 185,-2219 }, { 186,-2219 }, { 187,-2219 }, { 188,-2219 }, { 189,-2219 },
- { 190,-2219 }, { 191,-2219 }, { 192,-2219 }, { 193,-2219 }, { 194,-2219 },
- { 195,-2219 }, { 196,-2219 }, { 197,-2219 }, { 198,-2219 }, { 199,-2219 },
- { 200,-2219 }, { 201,-2219 }, { 202,-2219 }, { 203,-2219 }, { 204,-2219 },
- { 205,-2219 }, { 206,-2219 }, { 207,-2219 }, { 208,-2219 }, { 209,-2219 },
- { 210,-2219 }, { 211,-2219 }, { 212,-2219 }, { 213,-2219 }, { 214,-2219 },
- { 215,-2219 }, { 216,-2219 }, { 217,-2219 }, { 218,-2219 }, { 219,-2219 },
-
- { 220,-2219 }, { 221,-2219 }, { 222,-2219 }, { 223,-2219 }, { 224,-2219 },
- { 225,-2219 }, { 226,-2219 }, { 227,-2219 }, { 228,-2219 }, { 229,-2219 },
- { 230,-2219 }, { 231,-2219 }, { 232,-2219 }, { 233,-2219 }, { 234,-2219 },
- { 235,-2219 }, { 236,-2219 }, { 237,-2219 }, { 238,-2219 }, { 239,-2219 },
- { 240,-2219 }, { 241,-2219 }, { 242,-2219 }, { 243,-2219 }, { 244,-2219 },
- { 245,-2219 }, { 246,-2219 }, { 247,-2219 }, { 248,-2219 }, { 249,-2219 },
- { 250,-2219 }, { 251,-2219 }, { 252,-2219 }, { 253,-2219 }, { 254,-2219 },
- { 255,-2219 }, { 256,-2219 }, {   0,   0 }, {   0,1816 }, {   1,-2477 },
- {   2,-2477 }, {   3,-2477 }, {   4,-2477 }, {   5,-2477 }, {   6,-2477 },
- {   7,-2477 }, {   8,-2477 }, {   9,-2477 }, {  10,-2477 }, {  11,-2477 },
-
- {  12,-2477 }, {  13,-2477 }, {  14,-2477 }, {  15,-2477 }, {  16,-2477 },
- {  17,-2477 }, {  18,-2477 }, {  19,-2477 }, {  20,-2477 }, {  21,-2477 },
- {  22,-2477 }, {  23,-2477 }, {  24,-2477 }, {  25,-2477 }, {  26,-2477 },
- {  27,-2477 }, {  28,-2477 }, {  29,-2477 }, {  30,-2477 }, {  31,-2477 },
- {  32,-2477 }, {  33,-2477 }, {  34,-2477 }, {  35,-2477 }, {  36,-2477 },
- {  37,-2477 }, {  38,-2477 }, {  39,-2477 }, {  40,-2477 }, {  41,-2477 },
- {  42,-2477 }, {  43,-2477 }, {  44,-2477 }, {  45, 905 }, {  46,-2477 },
- {  47,-2477 }, {  48,-2477 }, {  49,-2477 }, {  50,-2477 }, {  51,-2477 },
- {  52,-2477 }, {  53,-2477 }, {  54,-2477 }, {  55,-2477 }, {  56,-2477 },
- {  57,-2477 }, {  58,-2477 }, {  59,-2477 }, {  60,-2477 }, {  61,-2477 },
-
- {  62,-2477 }, {  63,-2477 }, {  64,-2477 }, {  65,-2477 }, {  66,-2477 },
- {  67,-2477 }, {  68,-2477 }, {  69,-2477 }, {  70,-2477 }, {  71,-2477 },
- {  72,-2477 }, {  73,-2477 }, {  74,-2477 }, {  75,-2477 }, {  76,-2477 },
- {  77,-2477 }, {  78,-2477 }, {  79,-2477 }, {  80,-2477 }, {  81,-2477 },
- {  82,-2477 }, {  83,-2477 }, {  84,-2477 }, {  85,-2477 }, {  86,-2477 },
- {  87,-2477 }, {  88,-2477 }, {  89,-2477 }, {  90,-2477 }, {  91,-2477 },
- {  92,-2477 }, {  93,-2477 }, {  94,-2477 }, {  95,-2477 }, {  96,-2477 },
- {  97,-2477 }, {  98,-2477 }, {  99,-2477 }, { 100,-2477 }, { 101,-2477 },
- { 102,-2477 }, { 103,-2477 }, { 104,-2477 }, { 105,-2477 }, { 106,-2477 },
- { 107,-2477 }, { 108,-2477 }, { 109,-2477 }, { 110,-2477 }, { 111,-2477 },
-
- { 112,-2477 }, { 113,-2477 }, { 114,-2477 }, { 115,-2477 }, { 116,-2477 },
- { 117,-2477 }, { 118,-2477 }, { 119,-2477 }, { 120,-2477 }, { 121,-2477 },
- { 122,-2477 }, { 123,-2477 }, { 124,-2477 }, { 125,-258 }, { 126,-2477 },
- { 127,-2477 }, { 128,-2477 }, { 129,-2477 }, { 130,-2477 }, { 131,-2477 },
- { 132,-2477 }, { 133,-2477 }, { 134,-2477 }, { 135,-2477 }, { 136,-2477 },
- { 137,-2477 }, { 138,-2477 }, { 139,-2477 }, { 140,-2477 }, { 141,-2477 },
- { 142,-2477 }, { 143,-2477 }, { 144,-2477 }, { 145,-2477 }, { 146,-2477 },
- { 147,-2477 }, { 148,-2477 }, { 149,-2477 }, { 150,-2477 }, { 151,-2477 },
- { 152,-2477 }, { 153,-2477 }, { 154,-2477 }, { 155,-2477 }, { 156,-2477 },
- { 157,-2477 }, { 158,-2477 }, { 159,-2477 }, { 160,-2477 }, { 161,-2477 },
-
- { 162,-2477 }, { 163,-2477 }, { 164,-2477 }, { 165,-2477 }, { 166,-2477 },
- { 167,-2477 }, { 168,-2477 }, { 169,-2477 }, { 170,-2477 }, { 171,-2477 },
- { 172,-2477 }, { 173,-2477 }, { 174,-2477 }, { 175,-2477 }, { 176,-2477 },
- { 177,-2477 }, { 178,-2477 }, { 179,-2477 }, { 180,-2477 }, { 181,-2477 },
- { 182,-2477 }, { 183,-2477 }, { 184,-2477 }, { 185,-2477 }, { 186,-2477 },
- { 187,-2477 }, { 188,-2477 }, { 189,-2477 }, { 190,-2477 }, { 191,-2477 },
- { 192,-2477 }, { 193,-2477 }, { 194,-2477 }, { 195,-2477 }, { 196,-2477 },
- { 197,-2477 }, { 198,-2477 }, { 199,-2477 }, { 200,-2477 }, { 201,-2477 },
- { 202,-2477 }, { 203,-2477 }, { 204,-2477 }, { 205,-2477 }, { 206,-2477 },
- { 207,-2477 }, { 208,-2477 }, { 209,-2477 }, { 210,-2477 }, { 211,-2477 },
-
- { 212,-2477 }, { 213,-2477 }, { 214,-2477 }, { 215,-2477 }, { 216,-2477 },
- { 217,-2477 }, { 218,-2477 }, { 219,-2477 }, { 220,-2477 }, { 221,-2477 },
- { 222,-2477 }, { 223,-2477 }, { 224,-2477 }, { 225,-2477 }, { 226,-2477 },
- { 227,-2477 }, { 228,-2477 }, { 229,-2477 }, { 230,-2477 }, { 231,-2477 },
- { 232,-2477 }, { 233,-2477 }, { 234,-2477 }, { 235,-2477 }, { 236,-2477 },
- { 237,-2477 }, { 238,-2477 }, { 239,-2477 }, { 240,-2477 }, { 241,-2477 },
- { 242,-2477 }, { 243,-2477 }, { 244,-2477 }, { 245,-2477 }, { 246,-2477 },
- { 247,-2477 }, { 248,-2477 }, { 249,-2477 }, { 250,-2477 }, { 251,-2477 },
- { 252,-2477 }, { 253,-2477 }, { 254,-2477 }, { 255,-2477 }, { 256,-2477 },
- {   0,   0 }, {   0,1558 }, {   1,   0 }, {   2,   0 }, {   3,   0 },
-
- {   4,   0 }, {   5,   0 }, {   6,   0 }, {   7,   0 }, {   8,   0 },
- {   0,   0 }, {   0,   0 }, {  11,   0 }, {  12,   0 }, {   0,   0 },
- {  14,   0 }, {  15,   0 }, {  16,   0 }, {  17,   0 }, {  18,   0 },
- {  19,   0 }, {  20,   0 }, {  21,   0 }, {  22,   0 }, {  23,   0 },
- {  24,   0 }, {  25,   0 }, {  26,   0 }, {  27,   0 }, {  28,   0 },
- {  29,   0 }, {  30,   0 }, {  31,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  36,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,   0 }, {   0,   0 }, {   0,   0 }, {  48,   0 },
- {  49,   0 }, {  50,   0 }, {  51,   0 }, {  52,   0 }, {  53,   0 },
-
- {  54,   0 }, {  55,   0 }, {  56,   0 }, {  57,   0 }, {  58,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  63,   0 },
- {   0,   0 }, {  65,   0 }, {  66,   0 }, {  67,   0 }, {  68,   0 },
- {  69,   0 }, {  70,   0 }, {  71,   0 }, {  72,   0 }, {  73,   0 },
- {  74,   0 }, {  75,   0 }, {  76,   0 }, {  77,   0 }, {  78,   0 },
- {  79,   0 }, {  80,   0 }, {  81,   0 }, {  82,   0 }, {  83,   0 },
- {  84,   0 }, {  85,   0 }, {  86,   0 }, {  87,   0 }, {  88,   0 },
- {  89,   0 }, {  90,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,   0 }, {   0,   0 }, {  97,   0 }, {  98,   0 },
- {  99,   0 }, { 100,   0 }, { 101,   0 }, { 102,   0 }, { 103,   0 },
-
- { 104,   0 }, { 105,   0 }, { 106,   0 }, { 107,   0 }, { 108,   0 },
- { 109,   0 }, { 110,   0 }, { 111,   0 }, { 112,   0 }, { 113,   0 },
- { 114,   0 }, { 115,   0 }, { 116,   0 }, { 117,   0 }, { 118,   0 },
- { 119,   0 }, { 120,   0 }, { 121,   0 }, { 122,   0 }, {   0,   0 },
- {   0,   0 }, { 125, 905 }, {   0,   0 }, { 127,   0 }, { 128,   0 },
- { 129,   0 }, { 130,   0 }, { 131,   0 }, { 132,   0 }, { 133,   0 },
- { 134,   0 }, { 135,   0 }, { 136,   0 }, { 137,   0 }, { 138,   0 },
- { 139,   0 }, { 140,   0 }, { 141,   0 }, { 142,   0 }, { 143,   0 },
- { 144,   0 }, { 145,   0 }, { 146,   0 }, { 147,   0 }, { 148,   0 },
- { 149,   0 }, { 150,   0 }, { 151,   0 }, { 152,   0 }, { 153,   0 },
-
- { 154,   0 }, { 155,   0 }, { 156,   0 }, { 157,   0 }, { 158,   0 },
- { 159,   0 }, { 160,   0 }, { 161,   0 }, { 162,   0 }, { 163,   0 },
- { 164,   0 }, { 165,   0 }, { 166,   0 }, { 167,   0 }, { 168,   0 },
- { 169,   0 }, { 170,   0 }, { 171,   0 }, { 172,   0 }, { 173,   0 },
- { 174,   0 }, { 175,   0 }, { 176,   0 }, { 177,   0 }, { 178,   0 },
- { 179,   0 }, { 180,   0 }, { 181,   0 }, { 182,   0 }, { 183,   0 },
- { 184,   0 }, { 185,   0 }, { 186,   0 }, { 187,   0 }, { 188,   0 },
- { 189,   0 }, { 190,   0 }, { 191,   0 }, { 192,   0 }, { 193,   0 },
- { 194,   0 }, { 195,   0 }, { 196,   0 }, { 197,   0 }, { 198,   0 },
- { 199,   0 }, { 200,   0 }, { 201,   0 }, { 202,   0 }, { 203,   0 },
-
- { 204,   0 }, { 205,   0 }, { 206,   0 }, { 207,   0 }, { 208,   0 },
- { 209,   0 }, { 210,   0 }, { 211,   0 }, { 212,   0 }, { 213,   0 },
- { 214,   0 }, { 215,   0 }, { 216,   0 }, { 217,   0 }, { 218,   0 },
- { 219,   0 }, { 220,   0 }, { 221,   0 }, { 222,   0 }, { 223,   0 },
- { 224,   0 }, { 225,   0 }, { 226,   0 }, { 227,   0 }, { 228,   0 },
- { 229,   0 }, { 230,   0 }, { 231,   0 }, { 232,   0 }, { 233,   0 },
- { 234,   0 }, { 235,   0 }, { 236,   0 }, { 237,   0 }, { 238,   0 },
- { 239,   0 }, { 240,   0 }, { 241,   0 }, { 242,   0 }, { 243,   0 },
- { 244,   0 }, { 245,   0 }, { 246,   0 }, { 247,   0 }, { 248,   0 },
- { 249,   0 }, { 250,   0 }, { 251,   0 }, { 252,   0 }, { 253,   0 },
-
- { 254,   0 }, { 255,   0 }, { 256,   0 }, {   0,   0 }, {   0,1300 },
- {   1,-11881 }, {   2,-11881 }, {   3,-11881 }, {   4,-11881 }, {   5,-11881 },
- {   6,-11881 }, {   7,-11881 }, {   8,-11881 }, {   9,-11906 }, {  10,-11906 },
- {  11,-11881 }, {  12,-11881 }, {  13,-11906 }, {  14,-11881 }, {  15,-11881 },
- {  16,-11881 }, {  17,-11881 }, {  18,-11881 }, {  19,-11881 }, {  20,-11881 },
- {  21,-11881 }, {  22,-11881 }, {  23,-11881 }, {  24,-11881 }, {  25,-11881 },
- {  26,-11881 }, {  27,-11881 }, {  28,-11881 }, {  29,-11881 }, {  30,-11881 },
- {  31,-11881 }, {  32,-11906 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  36,-11881 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {  41,-11906 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-11881 },
-
- {  46,-11906 }, {  47,-11906 }, {  48,-11881 }, {  49,-11881 }, {  50,-11881 },
- {  51,-11881 }, {  52,-11881 }, {  53,-11881 }, {  54,-11881 }, {  55,-11881 },
- {  56,-11881 }, {  57,-11881 }, {  58,-11881 }, {   0,   0 }, {   0,   0 },
- {  61,-11906 }, {   0,   0 }, {  63,-11881 }, {   0,   0 }, {  65,-11881 },
- {  66,-11881 }, {  67,-11881 }, {  68,-11881 }, {  69,-11881 }, {  70,-11881 },
- {  71,-11881 }, {  72,-11881 }, {  73,-11881 }, {  74,-11881 }, {  75,-11881 },
- {  76,-11881 }, {  77,-11881 }, {  78,-11881 }, {  79,-11881 }, {  80,-11881 },
- {  81,-11881 }, {  82,-11881 }, {  83,-11881 }, {  84,-11881 }, {  85,-11881 },
- {  86,-11881 }, {  87,-11881 }, {  88,-11881 }, {  89,-11881 }, {  90,-11881 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-11881 },
-
- {   0,   0 }, {  97,-11881 }, {  98,-11881 }, {  99,-11881 }, { 100,-11881 },
- { 101, 649 }, { 102,-11881 }, { 103,-11881 }, { 104,-11881 }, { 105,-11881 },
- { 106,-11881 }, { 107,-11881 }, { 108,-11881 }, { 109,-11881 }, { 110,-11881 },
- { 111,-11881 }, { 112,-11881 }, { 113,-11881 }, { 114,-11881 }, { 115,-11881 },
- { 116,-11881 }, { 117,-11881 }, { 118,-11881 }, { 119,-11881 }, { 120,-11881 },
- { 121,-11881 }, { 122,-11881 }, {   0,   0 }, { 124,-11906 }, { 125,-11906 },
- { 126,-11906 }, { 127,-11881 }, { 128,-11881 }, { 129,-11881 }, { 130,-11881 },
- { 131,-11881 }, { 132,-11881 }, { 133,-11881 }, { 134,-11881 }, { 135,-11881 },
- { 136,-11881 }, { 137,-11881 }, { 138,-11881 }, { 139,-11881 }, { 140,-11881 },
- { 141,-11881 }, { 142,-11881 }, { 143,-11881 }, { 144,-11881 }, { 145,-11881 },
-
- { 146,-11881 }, { 147,-11881 }, { 148,-11881 }, { 149,-11881 }, { 150,-11881 },
- { 151,-11881 }, { 152,-11881 }, { 153,-11881 }, { 154,-11881 }, { 155,-11881 },
- { 156,-11881 }, { 157,-11881 }, { 158,-11881 }, { 159,-11881 }, { 160,-11881 },
- { 161,-11881 }, { 162,-11881 }, { 163,-11881 }, { 164,-11881 }, { 165,-11881 },
- { 166,-11881 }, { 167,-11881 }, { 168,-11881 }, { 169,-11881 }, { 170,-11881 },
- { 171,-11881 }, { 172,-11881 }, { 173,-11881 }, { 174,-11881 }, { 175,-11881 },
- { 176,-11881 }, { 177,-11881 }, { 178,-11881 }, { 179,-11881 }, { 180,-11881 },
- { 181,-11881 }, { 182,-11881 }, { 183,-11881 }, { 184,-11881 }, { 185,-11881 },
- { 186,-11881 }, { 187,-11881 }, { 188,-11881 }, { 189,-11881 }, { 190,-11881 },
- { 191,-11881 }, { 192,-11881 }, { 193,-11881 }, { 194,-11881 }, { 195,-11881 },
-
- { 196,-11881 }, { 197,-11881 }, { 198,-11881 }, { 199,-11881 }, { 200,-11881 },
- { 201,-11881 }, { 202,-11881 }, { 203,-11881 }, { 204,-11881 }, { 205,-11881 },
- { 206,-11881 }, { 207,-11881 }, { 208,-11881 }, { 209,-11881 }, { 210,-11881 },
- { 211,-11881 }, { 212,-11881 }, { 213,-11881 }, { 214,-11881 }, { 215,-11881 },
- { 216,-11881 }, { 217,-11881 }, { 218,-11881 }, { 219,-11881 }, { 220,-11881 },
- { 221,-11881 }, { 222,-11881 }, { 223,-11881 }, { 224,-11881 }, { 225,-11881 },
- { 226,-11881 }, { 227,-11881 }, { 228,-11881 }, { 229,-11881 }, { 230,-11881 },
- { 231,-11881 }, { 232,-11881 }, { 233,-11881 }, { 234,-11881 }, { 235,-11881 },
- { 236,-11881 }, { 237,-11881 }, { 238,-11881 }, { 239,-11881 }, { 240,-11881 },
- { 241,-11881 }, { 242,-11881 }, { 243,-11881 }, { 244,-11881 }, { 245,-11881 },
-
- { 246,-11881 }, { 247,-11881 }, { 248,-11881 }, { 249,-11881 }, { 250,-11881 },
- { 251,-11881 }, { 252,-11881 }, { 253,-11881 }, { 254,-11881 }, { 255,-11881 },
- { 256,-11881 }, {   0,  26 }, {   0,1042 }, {   0,  26 }, {   0,1040 },
- {   0,  26 }, {   0,1038 }, {   0,  12 }, {   0,1036 }, {   0,   0 },
- {   0,   0 }, {   9, 649 }, {  10, 649 }, {   0,   0 }, {   0,   0 },
- {  13, 649 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32, 649 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, { 125, 651 }, { 126, 653 }, { 125, 653 },
- {   0,   0 }, { 125, 647 }, {   0,   0 }, {   0, 911 }, {   1,-3382 },
- {   2,-3382 }, {   3,-3382 }, {   4,-3382 }, {   5,-3382 }, {   6,-3382 },
-
- {   7,-3382 }, {   8,-3382 }, {   9,-3382 }, {  10,-3382 }, {  11,-3382 },
- {  12,-3382 }, {  13,-3382 }, {  14,-3382 }, {  15,-3382 }, {  16,-3382 },
- {  17,-3382 }, {  18,-3382 }, {  19,-3382 }, {  20,-3382 }, {  21,-3382 },
- {  22,-3382 }, {  23,-3382 }, {  24,-3382 }, {  25,-3382 }, {  26,-3382 },
- {  27,-3382 }, {  28,-3382 }, {  29,-3382 }, {  30,-3382 }, {  31,-3382 },
- {  32,-3382 }, {  33,-3382 }, {  34,-3382 }, {  35,-3382 }, {  36,-3382 },
- {  37,-3382 }, {  38,-3382 }, {  39,-3382 }, {  40,-3382 }, {  41,-3382 },
- {  42,-3382 }, {  43,-3382 }, {  44,-3382 }, {  45,-2065 }, {  46,-3382 },
- {  47,-3382 }, {  48,-3382 }, {  49,-3382 }, {  50,-3382 }, {  51,-3382 },
- {  52,-3382 }, {  53,-3382 }, {  54,-3382 }, {  55,-3382 }, {  56,-3382 },
-
- {  57,-3382 }, {  58,-3382 }, {  59,-3382 }, {  60,-3382 }, {  61,-3382 },
- {  62,-3382 }, {  63,-3382 }, {  64,-3382 }, {  65,-3382 }, {  66,-3382 },
- {  67,-3382 }, {  68,-3382 }, {  69,-3382 }, {  70,-3382 }, {  71,-3382 },
- {  72,-3382 }, {  73,-3382 }, {  74,-3382 }, {  75,-3382 }, {  76,-3382 },
- {  77,-3382 }, {  78,-3382 }, {  79,-3382 }, {  80,-3382 }, {  81,-3382 },
- {  82,-3382 }, {  83,-3382 }, {  84,-3382 }, {  85,-3382 }, {  86,-3382 },
- {  87,-3382 }, {  88,-3382 }, {  89,-3382 }, {  90,-3382 }, {  91,-3382 },
- {  92,-3382 }, {  93,-3382 }, {  94,-3382 }, {  95,-3382 }, {  96,-3382 },
- {  97,-3382 }, {  98,-3382 }, {  99,-3382 }, { 100,-3382 }, { 101,-3382 },
- { 102,-3382 }, { 103,-3382 }, { 104,-3382 }, { 105,-3382 }, { 106,-3382 },
-
- { 107,-3382 }, { 108,-3382 }, { 109,-3382 }, { 110,-3382 }, { 111,-3382 },
- { 112,-3382 }, { 113,-3382 }, { 114,-3382 }, { 115,-3382 }, { 116,-3382 },
- { 117,-3382 }, { 118,-3382 }, { 119,-3382 }, { 120,-3382 }, { 121,-3382 },
- { 122,-3382 }, { 123,-3382 }, { 124,-3382 }, { 125,-3382 }, { 126,-3382 },
- { 127,-3382 }, { 128,-3382 }, { 129,-3382 }, { 130,-3382 }, { 131,-3382 },
- { 132,-3382 }, { 133,-3382 }, { 134,-3382 }, { 135,-3382 }, { 136,-3382 },
- { 137,-3382 }, { 138,-3382 }, { 139,-3382 }, { 140,-3382 }, { 141,-3382 },
- { 142,-3382 }, { 143,-3382 }, { 144,-3382 }, { 145,-3382 }, { 146,-3382 },
- { 147,-3382 }, { 148,-3382 }, { 149,-3382 }, { 150,-3382 }, { 151,-3382 },
- { 152,-3382 }, { 153,-3382 }, { 154,-3382 }, { 155,-3382 }, { 156,-3382 },
-
- { 157,-3382 }, { 158,-3382 }, { 159,-3382 }, { 160,-3382 }, { 161,-3382 },
- { 162,-3382 }, { 163,-3382 }, { 164,-3382 }, { 165,-3382 }, { 166,-3382 },
- { 167,-3382 }, { 168,-3382 }, { 169,-3382 }, { 170,-3382 }, { 171,-3382 },
- { 172,-3382 }, { 173,-3382 }, { 174,-3382 }, { 175,-3382 }, { 176,-3382 },
- { 177,-3382 }, { 178,-3382 }, { 179,-3382 }, { 180,-3382 }, { 181,-3382 },
- { 182,-3382 }, { 183,-3382 }, { 184,-3382 }, { 185,-3382 }, { 186,-3382 },
- { 187,-3382 }, { 188,-3382 }, { 189,-3382 }, { 190,-3382 }, { 191,-3382 },
- { 192,-3382 }, { 193,-3382 }, { 194,-3382 }, { 195,-3382 }, { 196,-3382 },
- { 197,-3382 }, { 198,-3382 }, { 199,-3382 }, { 200,-3382 }, { 201,-3382 },
- { 202,-3382 }, { 203,-3382 }, { 204,-3382 }, { 205,-3382 }, { 206,-3382 },
-
- { 207,-3382 }, { 208,-3382 }, { 209,-3382 }, { 210,-3382 }, { 211,-3382 },
- { 212,-3382 }, { 213,-3382 }, { 214,-3382 }, { 215,-3382 }, { 216,-3382 },
- { 217,-3382 }, { 218,-3382 }, { 219,-3382 }, { 220,-3382 }, { 221,-3382 },
- { 222,-3382 }, { 223,-3382 }, { 224,-3382 }, { 225,-3382 }, { 226,-3382 },
- { 227,-3382 }, { 228,-3382 }, { 229,-3382 }, { 230,-3382 }, { 231,-3382 },
- { 232,-3382 }, { 233,-3382 }, { 234,-3382 }, { 235,-3382 }, { 236,-3382 },
- { 237,-3382 }, { 238,-3382 }, { 239,-3382 }, { 240,-3382 }, { 241,-3382 },
- { 242,-3382 }, { 243,-3382 }, { 244,-3382 }, { 245,-3382 }, { 246,-3382 },
- { 247,-3382 }, { 248,-3382 }, { 249,-3382 }, { 250,-3382 }, { 251,-3382 },
- { 252,-3382 }, { 253,-3382 }, { 254,-3382 }, { 255,-3382 }, { 256,-3382 },
-
- {   0,   0 }, {   0, 653 }, {   0,   0 }, {   0, 651 }, {   1,-12530 },
- {   2,-12530 }, {   3,-12530 }, {   4,-12530 }, {   5,-12530 }, {   6,-12530 },
- {   7,-12530 }, {   8,-12530 }, {   9,-12555 }, {  10,-12555 }, {  11,-12530 },
- {  12,-12530 }, {  13,-12555 }, {  14,-12530 }, {  15,-12530 }, {  16,-12530 },
- {  17,-12530 }, {  18,-12530 }, {  19,-12530 }, {  20,-12530 }, {  21,-12530 },
- {  22,-12530 }, {  23,-12530 }, {  24,-12530 }, {  25,-12530 }, {  26,-12530 },
- {  27,-12530 }, {  28,-12530 }, {  29,-12530 }, {  30,-12530 }, {  31,-12530 },
- {  32,-12555 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  36,-12530 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {  41,-12555 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  45,-12530 }, {  46,-12555 },
-
- {  47,-12555 }, {  48,-12530 }, {  49,-12530 }, {  50,-12530 }, {  51,-12530 },
- {  52,-12530 }, {  53,-12530 }, {  54,-12530 }, {  55,-12530 }, {  56,-12530 },
- {  57,-12530 }, {  58,-12530 }, {   0,   0 }, {   0,   0 }, {  61,-12555 },
- {   0,   0 }, {  63,-12530 }, {   0,   0 }, {  65,-12530 }, {  66,-12530 },
- {  67,-12530 }, {  68,-12530 }, {  69,-12530 }, {  70,-12530 }, {  71,-12530 },
- {  72,-12530 }, {  73,-12530 }, {  74,-12530 }, {  75,-12530 }, {  76,-12530 },
- {  77,-12530 }, {  78,-12530 }, {  79,-12530 }, {  80,-12530 }, {  81,-12530 },
- {  82,-12530 }, {  83,-12530 }, {  84,-12530 }, {  85,-12530 }, {  86,-12530 },
- {  87,-12530 }, {  88,-12530 }, {  89,-12530 }, {  90,-12530 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  95,-12530 }, {   0,   0 },
-
- {  97,-12530 }, {  98,-12530 }, {  99,-12530 }, { 100, 393 }, { 101,-12530 },
- { 102,-12530 }, { 103,-12530 }, { 104,-12530 }, { 105,-12530 }, { 106,-12530 },
- { 107,-12530 }, { 108,-12530 }, { 109,-12530 }, { 110,-12530 }, { 111,-12530 },
- { 112,-12530 }, { 113,-12530 }, { 114,-12530 }, { 115,-12530 }, { 116,-12530 },
- { 117,-12530 }, { 118,-12530 }, { 119,-12530 }, { 120,-12530 }, { 121,-12530 },
- { 122,-12530 }, { 125, 268 }, { 124,-12555 }, { 125,-12555 }, { 126,-12555 },
- { 127,-12530 }, { 128,-12530 }, { 129,-12530 }, { 130,-12530 }, { 131,-12530 },
- { 132,-12530 }, { 133,-12530 }, { 134,-12530 }, { 135,-12530 }, { 136,-12530 },
- { 137,-12530 }, { 138,-12530 }, { 139,-12530 }, { 140,-12530 }, { 141,-12530 },
- { 142,-12530 }, { 143,-12530 }, { 144,-12530 }, { 145,-12530 }, { 146,-12530 },
-
- { 147,-12530 }, { 148,-12530 }, { 149,-12530 }, { 150,-12530 }, { 151,-12530 },
- { 152,-12530 }, { 153,-12530 }, { 154,-12530 }, { 155,-12530 }, { 156,-12530 },
- { 157,-12530 }, { 158,-12530 }, { 159,-12530 }, { 160,-12530 }, { 161,-12530 },
- { 162,-12530 }, { 163,-12530 }, { 164,-12530 }, { 165,-12530 }, { 166,-12530 },
- { 167,-12530 }, { 168,-12530 }, { 169,-12530 }, { 170,-12530 }, { 171,-12530 },
- { 172,-12530 }, { 173,-12530 }, { 174,-12530 }, { 175,-12530 }, { 176,-12530 },
- { 177,-12530 }, { 178,-12530 }, { 179,-12530 }, { 180,-12530 }, { 181,-12530 },
- { 182,-12530 }, { 183,-12530 }, { 184,-12530 }, { 185,-12530 }, { 186,-12530 },
- { 187,-12530 }, { 188,-12530 }, { 189,-12530 }, { 190,-12530 }, { 191,-12530 },
- { 192,-12530 }, { 193,-12530 }, { 194,-12530 }, { 195,-12530 }, { 196,-12530 },
-
- { 197,-12530 }, { 198,-12530 }, { 199,-12530 }, { 200,-12530 }, { 201,-12530 },
- { 202,-12530 }, { 203,-12530 }, { 204,-12530 }, { 205,-12530 }, { 206,-12530 },
- { 207,-12530 }, { 208,-12530 }, { 209,-12530 }, { 210,-12530 }, { 211,-12530 },
- { 212,-12530 }, { 213,-12530 }, { 214,-12530 }, { 215,-12530 }, { 216,-12530 },
- { 217,-12530 }, { 218,-12530 }, { 219,-12530 }, { 220,-12530 }, { 221,-12530 },
- { 222,-12530 }, { 223,-12530 }, { 224,-12530 }, { 225,-12530 }, { 226,-12530 },
- { 227,-12530 }, { 228,-12530 }, { 229,-12530 }, { 230,-12530 }, { 231,-12530 },
- { 232,-12530 }, { 233,-12530 }, { 234,-12530 }, { 235,-12530 }, { 236,-12530 },
- { 237,-12530 }, { 238,-12530 }, { 239,-12530 }, { 240,-12530 }, { 241,-12530 },
- { 242,-12530 }, { 243,-12530 }, { 244,-12530 }, { 245,-12530 }, { 246,-12530 },
-
- { 247,-12530 }, { 248,-12530 }, { 249,-12530 }, { 250,-12530 }, { 251,-12530 },
- { 252,-12530 }, { 253,-12530 }, { 254,-12530 }, { 255,-12530 }, { 256,-12530 },
- {   0,   0 }, {   0, 393 }, {   0,   0 }, {   0, 391 }, {   0,   0 },
- {   0, 389 }, {   0,  24 }, {   0, 387 }, {   0,   0 }, {   0, 385 },
- {   9,   0 }, {  10,   0 }, {   0,   0 }, {   0,   0 }, {  13,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {  32,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0, 350 },
- {   0,  46 }, {   0, 348 }, {   0,   9 }, {   0, 346 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
-
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, { 125,   2 }, { 126,   4 }, { 125,   4 }, {   0,   0 },
- { 125,  -2 }, {   0,   0 }, {   0,   0 }, {   0,   0 }, { 125,  35 },
- {   0,   0 }, {   0, 258 }, {   1,-12923 }, {   2,-12923 }, {   3,-12923 },
-
- {   4,-12923 }, {   5,-12923 }, {   6,-12923 }, {   7,-12923 }, {   8,-12923 },
- {   9, -90 }, {  10, -90 }, {  11,-12923 }, {  12,-12923 }, {  13, -90 },
- {  14,-12923 }, {  15,-12923 }, {  16,-12923 }, {  17,-12923 }, {  18,-12923 },
- {  19,-12923 }, {  20,-12923 }, {  21,-12923 }, {  22,-12923 }, {  23,-12923 },
- {  24,-12923 }, {  25,-12923 }, {  26,-12923 }, {  27,-12923 }, {  28,-12923 },
- {  29,-12923 }, {  30,-12923 }, {  31,-12923 }, {  32, -90 }, { 125,   4 },
- {   0,   0 }, {   0,   0 }, {  36,-12923 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {   0,   0 }, {  41, -90 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  45,-12923 }, {  46,-12948 }, {  47,-12948 }, {  48,-12923 },
- {  49,-12923 }, {  50,-12923 }, {  51,-12923 }, {  52,-12923 }, {  53,-12923 },
-
- {  54,-12923 }, {  55,-12923 }, {  56,-12923 }, {  57,-12923 }, {  58,-12923 },
- {   0,   0 }, {   0,   0 }, {  61,-12948 }, {   0,   0 }, {  63,-12923 },
- {   0,   0 }, {  65,-12923 }, {  66,-12923 }, {  67,-12923 }, {  68,-12923 },
- {  69,-12923 }, {  70,-12923 }, {  71,-12923 }, {  72,-12923 }, {  73,-12923 },
- {  74,-12923 }, {  75,-12923 }, {  76,-12923 }, {  77,-12923 }, {  78,-12923 },
- {  79,-12923 }, {  80,-12923 }, {  81,-12923 }, {  82,-12923 }, {  83,-12923 },
- {  84,-12923 }, {  85,-12923 }, {  86,-12923 }, {  87,-12923 }, {  88,-12923 },
- {  89,-12923 }, {  90,-12923 }, {   0,   0 }, {   0,   0 }, {   0,   0 },
- {   0,   0 }, {  95,-12923 }, {   0,   0 }, {  97,-12923 }, {  98,-12923 },
- {  99,-12923 }, { 100,-12923 }, { 101,-12923 }, { 102,-12923 }, { 103,-12923 },
-
- { 104,-12923 }, { 105,-12923 }, { 106,-12923 }, { 107,-12923 }, { 108,-12923 },
- { 109,-12923 }, { 110,-12923 }, { 111,-12923 }, { 112,-12923 }, { 113,-12923 },
- { 114,-12923 }, { 115,-12923 }, { 116,-12923 }, { 117,-12923 }, { 118,-12923 },
- { 119,-12923 }, { 120,-12923 }, { 121,-12923 }, { 122,-12923 }, {   0,   0 },
- { 124,-12948 }, { 125, -90 }, { 126, -90 }, { 127,-12923 }, { 128,-12923 },
- { 129,-12923 }, { 130,-12923 }, { 131,-12923 }, { 132,-12923 }, { 133,-12923 },
- { 134,-12923 }, { 135,-12923 }, { 136,-12923 }, { 137,-12923 }, { 138,-12923 },
- { 139,-12923 }, { 140,-12923 }, { 141,-12923 }, { 142,-12923 }, { 143,-12923 },
- { 144,-12923 }, { 145,-12923 }, { 146,-12923 }, { 147,-12923 }, { 148,-12923 },
- { 149,-12923 }, { 150,-12923 }, { 151,-12923 }, { 152,-12923 }, { 153,-12923 },
-
- { 154,-12923 }, { 155,-12923 }, { 156,-12923 }, { 157,-12923 }, { 158,-12923 },
- { 159,-12923 }, { 160,-12923 }, { 161,-12923 }, { 162,-12923 }, { 163,-12923 },
- { 164,-12923 }, { 165,-12923 }, { 166,-12923 }, { 167,-12923 }, { 168,-12923 },
- { 169,-12923 }, { 170,-12923 }, { 171,-12923 }, { 172,-12923 }, { 173,-12923 },
- { 174,-12923 }, { 175,-12923 }, { 176,-12923 }, { 177,-12923 }, { 178,-12923 },
- { 179,-12923 }, { 180,-12923 }, { 181,-12923 }, { 182,-12923 }, { 183,-12923 },
- { 184,-12923 }, { 185,-12923 }, { 186,-12923 }, { 187,-12923 }, { 188,-12923 },
- { 189,-12923 }, { 190,-12923 }, { 191,-12923 }, { 192,-12923 }, { 193,-12923 },
- { 194,-12923 }, { 195,-12923 }, { 196,-12923 }, { 197,-12923 }, { 198,-12923 },
- { 199,-12923 }, { 200,-12923 }, { 201,-12923 }, { 202,-12923 }, { 203,-12923 },
-
- { 204,-12923 }, { 205,-12923 }, { 206,-12923 }, { 207,-12923 }, { 208,-12923 },
- { 209,-12923 }, { 210,-12923 }, { 211,-12923 }, { 212,-12923 }, { 213,-12923 },
- { 214,-12923 }, { 215,-12923 }, { 216,-12923 }, { 217,-12923 }, { 218,-12923 },
- { 219,-12923 }, { 220,-12923 }, { 221,-12923 }, { 222,-12923 }, { 223,-12923 },
- { 224,-12923 }, { 225,-12923 }, { 226,-12923 }, { 227,-12923 }, { 228,-12923 },
- { 229,-12923 }, { 230,-12923 }, { 231,-12923 }, { 232,-12923 }, { 233,-12923 },
- { 234,-12923 }, { 235,-12923 }, { 236,-12923 }, { 237,-12923 }, { 238,-12923 },
- { 239,-12923 }, { 240,-12923 }, { 241,-12923 }, { 242,-12923 }, { 243,-12923 },
- { 244,-12923 }, { 245,-12923 }, { 246,-12923 }, { 247,-12923 }, { 248,-12923 },
- { 249,-12923 }, { 250,-12923 }, { 251,-12923 }, { 252,-12923 }, { 253,-12923 },
-
- { 254,-12923 }, { 255,-12923 }, { 256,-12923 }, { 257,  53 }, {   1,   0 },
-    };
-
-static const struct yy_trans_info *yy_start_state_list[13] =
-    {
-    &yy_transition[1],
-    &yy_transition[3],
-    &yy_transition[261],
-    &yy_transition[519],
-    &yy_transition[777],
-    &yy_transition[1035],
-    &yy_transition[1293],
-    &yy_transition[1551],
-    &yy_transition[1809],
-    &yy_transition[2067],
-    &yy_transition[2325],
-    &yy_transition[2583],
-    &yy_transition[2841],
+static const flex_int32_t yy_accept[183] =
+    {   0,
+        2,    2,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,   54,    2,    2,    6,    6,    2,    7,   52,
+       37,   37,   52,   52,   52,   16,   17,   52,   36,   36,
+       52,   33,   42,   52,   52,   52,   52,   52,   52,   52,
+       44,   52,   52,    8,   53,   15,   15,   15,   15,   11,
+       12,    2,    2,    0,    0,    0,    5,    7,    0,   50,
+       37,    0,   40,    0,    0,   41,    0,    0,   35,   34,
+       49,   50,    0,    0,   51,    0,    0,    0,    0,    0,
+       32,   39,    0,    0,    0,    0,    0,   14,   11,    0,
+        0,    0,    4,    5,   40,   41,    0,   51,   50,    0,
+
+        0,    0,    0,    0,   31,   22,   29,   32,   23,   20,
+       26,    0,   28,   32,   38,    0,   39,    0,    0,    0,
+        0,    1,    4,    4,    4,   49,   43,    0,    0,    0,
+        0,    0,   22,   21,    0,    0,    0,    0,   18,   28,
+       19,   38,    0,    0,    0,    1,    1,    0,   48,   45,
+        0,   30,   24,    0,    0,    9,    0,    1,   46,    0,
+        0,    0,    0,    0,    0,   27,   27,   27,   27,    0,
+       13,    0,    0,    0,    0,    0,   25,    0,    0,    0,
+       47,   10
+    } ;
+
+static const yy_state_type yy_NUL_trans[183] =
+    {   0,
+       19,   19,   20,   20,   44,   44,   46,   46,   48,   48,
+       19,   19,    0,    0,    0,    0,    0,    0,   58,   59,
+        0,    0,    0,   62,   65,    0,    0,   59,    0,    0,
+       59,    0,    0,   73,   59,   59,   59,   59,   59,    0,
+        0,    0,    0,    0,    0,    0,    0,   86,   86,    0,
+        0,    0,    0,    0,    0,    0,    0,   58,   59,    0,
+        0,   62,    0,   62,   65,    0,   65,   59,    0,    0,
+        0,    0,   73,   73,    0,   59,   59,   59,   59,   59,
+        0,    0,    0,    0,    0,   86,   86,    0,    0,    0,
+        0,    0,    0,    0,   62,   65,    0,   73,    0,   59,
+
+       59,   59,   59,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,  143,    0,    0,
+        0,    0,    0,    0,    0,    0,    0,   59,   59,   59,
+       59,    0,    0,    0,    0,    0,    0,    0,    0,    0,
+        0,    0,  143,  143,  156,    0,    0,   59,    0,    0,
+       59,    0,    0,    0,  143,    0,  164,    0,    0,   59,
+        0,  143,  143,  164,   59,    0,    0,    0,    0,  143,
+        0,    0,   59,    0,    0,    0,    0,    0,   59,    0,
+        0,    0
     } ;
 
 /* The intent behind this definition is that it'll catch
@@ -5374,9 +6535,9 @@ static const struct yy_trans_info *yy_start_state_list[13] =
     yylloc->first_column = yylloc->last_column = yycolumn; \
     handlebars_yy_advance(yytext, yyleng); \
    	YY_USER_DEBUG_ACTION;
-#line 5378 "handlebars.lex.c"
+#line 6539 "handlebars.lex.c"
 
-#line 5380 "handlebars.lex.c"
+#line 6541 "handlebars.lex.c"
 
 #define INITIAL 0
 #define mu 1
@@ -5659,7 +6820,7 @@ YY_DECL
 
 
 
-#line 5663 "handlebars.lex.c"
+#line 6824 "handlebars.lex.c"
 
 	while ( /*CONSTCOND*/1 )		/* loops until end-of-file is reached */
 		{
@@ -5673,30 +6834,23 @@ YY_DECL
 		 */
 		yy_bp = yy_cp;
 
-		yy_current_state = yy_start_state_list[yyg->yy_start];
+		yy_current_state = yyg->yy_start;
 yy_match:
-		{
-		const struct yy_trans_info *yy_trans_info;
-
-		YY_CHAR yy_c;
-
-		for ( yy_c = YY_SC_TO_UI(*yy_cp);
-		      (yy_trans_info = &yy_current_state[yy_c])->
-		yy_verify == yy_c;
-		      yy_c = YY_SC_TO_UI(*++yy_cp) )
+		while ( (yy_current_state = yy_nxt[yy_current_state][ YY_SC_TO_UI(*yy_cp) ]) > 0 )
 			{
-			yy_current_state += yy_trans_info->yy_nxt;
-
-			if ( yy_current_state[-1].yy_nxt )
+			if ( yy_accept[yy_current_state] )
 				{
 				yyg->yy_last_accepting_state = yy_current_state;
 				yyg->yy_last_accepting_cpos = yy_cp;
 				}
+
+			++yy_cp;
 			}
-		}
+
+		yy_current_state = -yy_current_state;
 
 yy_find_action:
-		yy_act = yy_current_state[-1].yy_nxt;
+		yy_act = yy_accept[yy_current_state];
 
 		YY_DO_BEFORE_ACTION;
 
@@ -5780,29 +6934,38 @@ YY_RULE_SETUP
 case 7:
 YY_RULE_SETUP
 #line 208 "handlebars.l"
+{
+										// Not text, same as the reference implementation
+										handlebars_yy_copy_lval();
+										return INVALID;
+									}
+	YY_BREAK
+case 8:
+YY_RULE_SETUP
+#line 214 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 47
 										handlebars_yy_unput_all;
                                    		yy_pop_state(yyg);
                                  	}
 	YY_BREAK
-case 8:
-/* rule 8 can match eol */
+case 9:
+/* rule 9 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 214 "handlebars.l"
+#line 220 "handlebars.l"
 {
                                   		yy_push_state(raw, yyscanner);
 										handlebars_yy_copy_lval();
                                   		return CONTENT;
                                  	}
 	YY_BREAK
-case 9:
+case 10:
 YY_RULE_SETUP
-#line 220 "handlebars.l"
+#line 226 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 54
 
@@ -5817,28 +6980,28 @@ YY_RULE_SETUP
 										}
                                  	}
 	YY_BREAK
-case 10:
-/* rule 10 can match eol */
+case 11:
+/* rule 11 can match eol */
 YY_RULE_SETUP
-#line 234 "handlebars.l"
+#line 240 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 57
 										handlebars_yy_copy_lval();
 										return CONTENT;
 									}
 	YY_BREAK
-case 11:
+case 12:
 YY_RULE_SETUP
-#line 240 "handlebars.l"
+#line 246 "handlebars.l"
 {
 										handlebars_yy_copy_lval();
 										return CONTENT;
 									}
 	YY_BREAK
-case 12:
-/* rule 12 can match eol */
+case 13:
+/* rule 13 can match eol */
 YY_RULE_SETUP
-#line 245 "handlebars.l"
+#line 251 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 59
   										yy_pop_state(yyg);
@@ -5848,10 +7011,10 @@ YY_RULE_SETUP
   										return LONG_COMMENT;
 									}
 	YY_BREAK
-case 13:
-/* rule 13 can match eol */
+case 14:
+/* rule 14 can match eol */
 YY_RULE_SETUP
-#line 254 "handlebars.l"
+#line 260 "handlebars.l"
 {
   										//yytext[yyleng -= 2] = 0;
   										yy_pop_state(yyg);
@@ -5859,46 +7022,46 @@ YY_RULE_SETUP
   										return COMMENT;
 									}
 	YY_BREAK
-case 14:
-/* rule 14 can match eol */
+case 15:
+/* rule 15 can match eol */
 YY_RULE_SETUP
-#line 261 "handlebars.l"
+#line 267 "handlebars.l"
 {
 										// The comment never ends
 										handlebars_yy_copy_lval();
 										return INVALID;
 									}
 	YY_BREAK
-case 15:
+case 16:
 YY_RULE_SETUP
-#line 267 "handlebars.l"
+#line 273 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 61
 										handlebars_yy_copy_lval();
 										return OPEN_SEXPR;
 									}
 	YY_BREAK
-case 16:
+case 17:
 YY_RULE_SETUP
-#line 273 "handlebars.l"
+#line 279 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 62
 										handlebars_yy_copy_lval();
 										return CLOSE_SEXPR;
 									}
 	YY_BREAK
-case 17:
+case 18:
 YY_RULE_SETUP
-#line 279 "handlebars.l"
+#line 285 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 64
 										handlebars_yy_copy_lval();
 										return OPEN_RAW_BLOCK;
 									}
 	YY_BREAK
-case 18:
+case 19:
 YY_RULE_SETUP
-#line 285 "handlebars.l"
+#line 291 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 65
 										yy_pop_state(yyg);
@@ -5907,46 +7070,46 @@ YY_RULE_SETUP
                                   		return CLOSE_RAW_BLOCK;
                              		}
 	YY_BREAK
-case 19:
+case 20:
 YY_RULE_SETUP
-#line 293 "handlebars.l"
+#line 299 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 70
 										handlebars_yy_copy_lval();
 										return OPEN_PARTIAL;
                              		}
 	YY_BREAK
-case 20:
+case 21:
 YY_RULE_SETUP
-#line 299 "handlebars.l"
+#line 305 "handlebars.l"
 {
 										// v4.0.2 handlebars.l line 83
 										handlebars_yy_copy_lval();
 										return OPEN_PARTIAL_BLOCK;
                              		}
 	YY_BREAK
-case 21:
+case 22:
 YY_RULE_SETUP
-#line 305 "handlebars.l"
+#line 311 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 71
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK;
                              		}
 	YY_BREAK
-case 22:
+case 23:
 YY_RULE_SETUP
-#line 311 "handlebars.l"
+#line 317 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 72
 										handlebars_yy_copy_lval();
 										return OPEN_ENDBLOCK;
                              		}
 	YY_BREAK
-case 23:
-/* rule 23 can match eol */
+case 24:
+/* rule 24 can match eol */
 YY_RULE_SETUP
-#line 317 "handlebars.l"
+#line 323 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 73
 										yy_pop_state(yyg);
@@ -5954,10 +7117,10 @@ YY_RULE_SETUP
 										return INVERSE;
                              		}
 	YY_BREAK
-case 24:
-/* rule 24 can match eol */
+case 25:
+/* rule 25 can match eol */
 YY_RULE_SETUP
-#line 324 "handlebars.l"
+#line 330 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 74
 										yy_pop_state(yyg);
@@ -5965,50 +7128,50 @@ YY_RULE_SETUP
 										return INVERSE;
                              		}
 	YY_BREAK
-case 25:
+case 26:
 YY_RULE_SETUP
-#line 331 "handlebars.l"
+#line 337 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 75
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE;
                              		}
 	YY_BREAK
-case 26:
-/* rule 26 can match eol */
+case 27:
+/* rule 27 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 337 "handlebars.l"
+#line 343 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 76
 										handlebars_yy_copy_lval();
 										return OPEN_INVERSE_CHAIN;
                              		}
 	YY_BREAK
-case 27:
+case 28:
 YY_RULE_SETUP
-#line 343 "handlebars.l"
+#line 349 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 77
 										handlebars_yy_copy_lval();
 										return OPEN_UNESCAPED;
                              		}
 	YY_BREAK
-case 28:
+case 29:
 YY_RULE_SETUP
-#line 349 "handlebars.l"
+#line 355 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 78
 										handlebars_yy_copy_lval();
 										return OPEN;
                              		}
 	YY_BREAK
-case 29:
+case 30:
 YY_RULE_SETUP
-#line 355 "handlebars.l"
+#line 361 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 79
 										handlebars_yy_unput_all;
@@ -6016,9 +7179,9 @@ YY_RULE_SETUP
   										yy_push_state(com, yyscanner);
 									}
 	YY_BREAK
-case 30:
+case 31:
 YY_RULE_SETUP
-#line 362 "handlebars.l"
+#line 368 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 80
 										handlebars_yy_unput_all;
@@ -6026,68 +7189,68 @@ YY_RULE_SETUP
   										yy_push_state(com1, yyscanner);
 									}
 	YY_BREAK
-case 31:
+case 32:
 YY_RULE_SETUP
-#line 369 "handlebars.l"
+#line 375 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 81
 										handlebars_yy_copy_lval();
 										return OPEN;
 									}
 	YY_BREAK
-case 32:
+case 33:
 YY_RULE_SETUP
-#line 375 "handlebars.l"
+#line 381 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 83
 										handlebars_yy_copy_lval();
 										return EQUALS;
 									}
 	YY_BREAK
-case 33:
+case 34:
 YY_RULE_SETUP
-#line 381 "handlebars.l"
+#line 387 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 84
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 34:
-/* rule 34 can match eol */
+case 35:
+/* rule 35 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 1);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 387 "handlebars.l"
+#line 393 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 85
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 35:
+case 36:
 YY_RULE_SETUP
-#line 393 "handlebars.l"
+#line 399 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 86
 										handlebars_yy_copy_lval();
 										return SEP;
 									}
 	YY_BREAK
-case 36:
-/* rule 36 can match eol */
+case 37:
+/* rule 37 can match eol */
 YY_RULE_SETUP
-#line 399 "handlebars.l"
+#line 405 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 87
 										// ignore whitespace
                                  	}
 	YY_BREAK
-case 37:
+case 38:
 YY_RULE_SETUP
-#line 404 "handlebars.l"
+#line 410 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 88
 										yy_pop_state(yyg);
@@ -6095,9 +7258,9 @@ YY_RULE_SETUP
 										return CLOSE_UNESCAPED;
 									}
 	YY_BREAK
-case 38:
+case 39:
 YY_RULE_SETUP
-#line 411 "handlebars.l"
+#line 417 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 89
 										yy_pop_state(yyg);
@@ -6105,10 +7268,10 @@ YY_RULE_SETUP
 										return CLOSE;
 									}
 	YY_BREAK
-case 39:
-/* rule 39 can match eol */
+case 40:
+/* rule 40 can match eol */
 YY_RULE_SETUP
-#line 418 "handlebars.l"
+#line 424 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 90
 										yytext[--yyleng] = 0;
@@ -6118,10 +7281,10 @@ YY_RULE_SETUP
                                    		return STRING;
                                  	}
 	YY_BREAK
-case 40:
-/* rule 40 can match eol */
+case 41:
+/* rule 41 can match eol */
 YY_RULE_SETUP
-#line 427 "handlebars.l"
+#line 433 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 91
 										yytext[--yyleng] = 0;
@@ -6131,122 +7294,122 @@ YY_RULE_SETUP
 										return SINGLE_STRING;
                                 	}
 	YY_BREAK
-case 41:
+case 42:
 YY_RULE_SETUP
-#line 436 "handlebars.l"
+#line 442 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 92
 										handlebars_yy_copy_lval();
 										return DATA;
 									}
 	YY_BREAK
-case 42:
-/* rule 42 can match eol */
+case 43:
+/* rule 43 can match eol */
 YY_RULE_SETUP
-#line 442 "handlebars.l"
+#line 448 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 108
 										handlebars_yy_copy_lval();
 										return OPEN_BLOCK_PARAMS;
 									}
 	YY_BREAK
-case 43:
+case 44:
 YY_RULE_SETUP
-#line 448 "handlebars.l"
+#line 454 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 109
 										handlebars_yy_copy_lval();
 										return CLOSE_BLOCK_PARAMS;
 									}
 	YY_BREAK
-case 44:
-/* rule 44 can match eol */
+case 45:
+/* rule 45 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 454 "handlebars.l"
+#line 460 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 93
 										handlebars_yy_copy_lval();
 										return BOOLEAN;
 									}
 	YY_BREAK
-case 45:
-/* rule 45 can match eol */
+case 46:
+/* rule 46 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 5);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 5;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 460 "handlebars.l"
+#line 466 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 94
 										handlebars_yy_copy_lval();
 										return BOOLEAN;
 									}
 	YY_BREAK
-case 46:
-/* rule 46 can match eol */
+case 47:
+/* rule 47 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 9);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 9;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 466 "handlebars.l"
+#line 472 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 105
 										handlebars_yy_copy_lval();
 										return UNDEFINED;
 									}
 	YY_BREAK
-case 47:
-/* rule 47 can match eol */
+case 48:
+/* rule 48 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_bp + 4);
 yyg->yy_c_buf_p = yy_cp = yy_bp + 4;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 472 "handlebars.l"
+#line 478 "handlebars.l"
 {
 										// v3.0.3 handlebars.l line 106
 										handlebars_yy_copy_lval();
 										return NUL;
 									}
 	YY_BREAK
-case 48:
-/* rule 48 can match eol */
+case 49:
+/* rule 49 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 478 "handlebars.l"
+#line 484 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 95
 										handlebars_yy_copy_lval();
 										return NUMBER;
 									}
 	YY_BREAK
-case 49:
-/* rule 49 can match eol */
+case 50:
+/* rule 50 can match eol */
 *yy_cp = yyg->yy_hold_char; /* undo effects of setting up yytext */
 YY_LINENO_REWIND_TO(yy_cp - 1);
 yyg->yy_c_buf_p = yy_cp -= 1;
 YY_DO_BEFORE_ACTION; /* set up yytext again */
 YY_RULE_SETUP
-#line 485 "handlebars.l"
+#line 491 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 97
 										handlebars_yy_copy_lval();
 										return ID;
 									}
 	YY_BREAK
-case 50:
-/* rule 50 can match eol */
+case 51:
+/* rule 51 can match eol */
 YY_RULE_SETUP
-#line 491 "handlebars.l"
+#line 497 "handlebars.l"
 {
 										// v4.0.3 handlebars.l line 123
 										// yytext = strip(1,2);
@@ -6257,9 +7420,9 @@ YY_RULE_SETUP
 										return ID;
 									}
 	YY_BREAK
-case 51:
+case 52:
 YY_RULE_SETUP
-#line 501 "handlebars.l"
+#line 507 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 100
 										handlebars_yy_copy_lval();
@@ -6272,18 +7435,18 @@ case YY_STATE_EOF(emu):
 case YY_STATE_EOF(com):
 case YY_STATE_EOF(com1):
 case YY_STATE_EOF(raw):
-#line 507 "handlebars.l"
+#line 513 "handlebars.l"
 {
 										// v2.0.0 handlebars.l line 102
 										return END;
 									}
 	YY_BREAK
-case 52:
+case 53:
 YY_RULE_SETUP
-#line 512 "handlebars.l"
+#line 518 "handlebars.l"
 ECHO;
 	YY_BREAK
-#line 6287 "handlebars.lex.c"
+#line 7450 "handlebars.lex.c"
 
 	case YY_END_OF_BUFFER:
 		{
@@ -6567,12 +7730,17 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
 	char *yy_cp;
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner;
 
-	yy_current_state = yy_start_state_list[yyg->yy_start];
+	yy_current_state = yyg->yy_start;
 
 	for ( yy_cp = yyg->yytext_ptr + YY_MORE_ADJ; yy_cp < yyg->yy_c_buf_p; ++yy_cp )
 		{
-		yy_current_state += yy_current_state[(*yy_cp ? YY_SC_TO_UI(*yy_cp) : 256)].yy_nxt;
-		if ( yy_current_state[-1].yy_nxt )
+		if ( *yy_cp )
+			{
+			yy_current_state = yy_nxt[yy_current_state][YY_SC_TO_UI(*yy_cp)];
+			}
+		else
+			yy_current_state = yy_NUL_trans[yy_current_state];
+		if ( yy_accept[yy_current_state] )
 			{
 			yyg->yy_last_accepting_state = yy_current_state;
 			yyg->yy_last_accepting_cpos = yy_cp;
@@ -6593,16 +7761,12 @@ static int yy_get_next_buffer (yyscan_t yyscanner)
     struct yyguts_t * yyg = (struct yyguts_t*)yyscanner; /* This var may be unused depending upon options. */
 	char *yy_cp = yyg->yy_c_buf_p;
 
-	int yy_c = 256;
-	const struct yy_trans_info *yy_trans_info;
-
-	yy_trans_info = &yy_current_state[(unsigned int) yy_c];
-	yy_current_state += yy_trans_info->yy_nxt;
-	yy_is_jam = (yy_trans_info->yy_verify != yy_c);
+	yy_current_state = yy_NUL_trans[yy_current_state];
+	yy_is_jam = (yy_current_state == 0);
 
 	if ( ! yy_is_jam )
 		{
-		if ( yy_current_state[-1].yy_nxt )
+		if ( yy_accept[yy_current_state] )
 			{
 			yyg->yy_last_accepting_state = yy_current_state;
 			yyg->yy_last_accepting_cpos = yy_cp;
@@ -7480,6 +8644,6 @@ static int yy_flex_strlen (const char * s , yyscan_t yyscanner)
 
 #define YYTABLES_NAME "yytables"
 
-#line 512 "handlebars.l"
+#line 518 "handlebars.l"
 
 
diff --git a/src/handlebars.lex.h b/src/handlebars.lex.h
index 1ef7ab9..11ec42d 100644
--- a/src/handlebars.lex.h
+++ b/src/handlebars.lex.h
@@ -733,7 +733,7 @@ extern int yylex \
 #undef yyTABLES_NAME
 #endif
 
-#line 512 "handlebars.l"
+#line 518 "handlebars.l"
 
 
 #line 740 "handlebars.lex.h"
-- 
2.43.0


From 4a4ade98ff2c28102beae0de1e701aff15955893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:28 +0000
Subject: [PATCH 060/110] fix: paths without a text are compiled with string
 params and with known helpers only

---
 src/handlebars_ast.c      | 7 ++++++-
 src/handlebars_compiler.c | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_ast.c b/src/handlebars_ast.c
index 87ca15a..191540b 100644
--- a/src/handlebars_ast.c
+++ b/src/handlebars_ast.c
@@ -105,10 +105,15 @@ struct handlebars_string * handlebars_ast_node_get_string_mode_value(
             string = node->node.nul.value;
             break;
         default:
-            string = handlebars_string_ctor(context, HBS_STRL(""));
+            string = NULL;
             break;
     }
 
+    // The implicit context of a partial is a path without a text
+    if( string == NULL ) {
+        string = handlebars_string_ctor(context, HBS_STRL(""));
+    }
+
     return string;
 }
 
diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index dab6b6e..52618b8 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -1121,6 +1121,9 @@ static inline void handlebars_compiler_accept_sexpr_helper(
         handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op2, name);
         __PUSH(opcode);
     } else if( compiler->flags & handlebars_compiler_flag_known_helpers_only ) {
+        if( name == NULL ) { // e.g. "." or ".."
+            name = handlebars_ast_node_get_string_mode_value(CONTEXT, path);
+        }
         handlebars_throw_ex(
             CONTEXT,
             HANDLEBARS_UNKNOWN_HELPER,
-- 
2.43.0


From 158213e07ed8b287a5ad8d8b2ac1b4dd34ddbf72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:28 +0000
Subject: [PATCH 061/110] fix: printing an AST with much escaped or with empty
 text crashed

---
 src/handlebars_ast_printer.c | 4 +++-
 src/handlebars_string.c      | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index 8eafb94..4119145 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -784,7 +784,9 @@ static void _handlebars_ast_to_string_content(struct handlebars_ast_node * ast_n
     } else {
         struct handlebars_string *escaped = handlebars_str_replace(CONTEXT, ast_node->node.content.original, HBS_STRL("{{"), HBS_STRL("\\{{"));
         __APPEND_STR(escaped);
-        handlebars_string_delref(escaped);
+        if (escaped != ast_node->node.content.original) {
+            handlebars_string_delref(escaped);
+        }
     }
 }
 
diff --git a/src/handlebars_string.c b/src/handlebars_string.c
index 878bc2d..a86b1a0 100644
--- a/src/handlebars_string.c
+++ b/src/handlebars_string.c
@@ -324,6 +324,7 @@ struct handlebars_string * handlebars_string_compact(struct handlebars_string *
         struct handlebars_string * compacted = (struct handlebars_string *) handlebars_talloc_realloc_size(NULL, string, size);
         if( compacted ) {
             string = compacted;
+            talloc_set_type(string, struct handlebars_string);
         }
     }
     return string;
-- 
2.43.0


From fb982da54c551c13cdfac49d036faa9e277e1674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:48 +0000
Subject: [PATCH 062/110] fix: executing a template without an error handler
 returns NULL on errors, so it is not declared never to

---
 src/handlebars_vm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_vm.h b/src/handlebars_vm.h
index 4986e26..b7e954a 100644
--- a/src/handlebars_vm.h
+++ b/src/handlebars_vm.h
@@ -67,7 +67,7 @@ struct handlebars_string * handlebars_vm_execute(
     struct handlebars_vm * vm,
     struct handlebars_module * module,
     struct handlebars_value * context
-) HBS_ATTR_NONNULL_ALL HBS_ATTR_RETURNS_NONNULL HBS_ATTR_NOINLINE;
+) HBS_ATTR_NONNULL_ALL HBS_ATTR_NOINLINE;
 
 struct handlebars_string * handlebars_vm_execute_ex(
     struct handlebars_vm * vm,
@@ -76,7 +76,7 @@ struct handlebars_string * handlebars_vm_execute_ex(
     long program,
     struct handlebars_value * data,
     struct handlebars_value * block_params
-) HBS_ATTR_NONNULL(1, 2, 3) HBS_ATTR_RETURNS_NONNULL HBS_ATTR_NOINLINE;
+) HBS_ATTR_NONNULL(1, 2, 3) HBS_ATTR_NOINLINE;
 
 struct handlebars_string * handlebars_vm_execute_program(
     struct handlebars_vm * vm,
-- 
2.43.0


From 38b3baa10f56fcb743338ddf47dcc801e9e9547a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:48 +0000
Subject: [PATCH 063/110] fix: a parser can be used again

---
 src/handlebars_parser.c         | 57 +++++++++++++++++++++++++++------
 src/handlebars_parser_private.h |  4 +++
 2 files changed, 51 insertions(+), 10 deletions(-)

diff --git a/src/handlebars_parser.c b/src/handlebars_parser.c
index 51ec25a..b972fca 100644
--- a/src/handlebars_parser.c
+++ b/src/handlebars_parser.c
@@ -40,24 +40,19 @@
 
 const size_t HANDLEBARS_PARSER_SIZE = sizeof(struct handlebars_parser);
 
-struct handlebars_parser * handlebars_parser_ctor(struct handlebars_context * ctx)
+static int handlebars_parser_init_scanner(struct handlebars_parser * parser)
 {
     int lexerr = 0;
-    struct handlebars_parser * parser = handlebars_talloc_zero(ctx, struct handlebars_parser);
-    HANDLEBARS_MEMCHECK(parser, ctx);
-
-    // Bind error context
-    handlebars_context_bind(ctx, HBSCTX(parser));
 
     // Set the current context in a variable for yyalloc >.>
     handlebars_parser_init_current = parser;
 
     // Initialize lexer
     lexerr = handlebars_yy_lex_init(&parser->scanner);
+    handlebars_parser_init_current = NULL;
     if( unlikely(lexerr != 0) ) {
-        handlebars_parser_init_current = NULL;
-        handlebars_talloc_free(parser);
-        handlebars_throw(ctx, HANDLEBARS_NOMEM, "Lexer initialization failed");
+        parser->scanner = NULL;
+        return lexerr;
     }
 
     // Steal the scanner just in case
@@ -66,7 +61,45 @@ struct handlebars_parser * handlebars_parser_ctor(struct handlebars_context * ct
     // Set the extra on the lexer
     handlebars_yy_set_extra(parser, parser->scanner);
 
-    handlebars_parser_init_current = NULL;
+    return 0;
+}
+
+/**
+ * Forget whatever was scanned or parsed before
+ */
+static void handlebars_parser_reset(struct handlebars_parser * parser)
+{
+    parser->program = NULL;
+    parser->tmplReadOffset = 0;
+    parser->whitespace_root_seen = false;
+
+    if( parser->scanned ) {
+        if( parser->scanner != NULL ) {
+            handlebars_yy_lex_destroy(parser->scanner);
+            parser->scanner = NULL;
+        }
+        if( handlebars_parser_init_scanner(parser) != 0 ) {
+            handlebars_throw(HBSCTX(parser), HANDLEBARS_NOMEM, "Lexer initialization failed");
+        }
+    }
+
+    parser->scanned = true;
+}
+
+struct handlebars_parser * handlebars_parser_ctor(struct handlebars_context * ctx)
+{
+    struct handlebars_parser * parser = handlebars_talloc_zero(ctx, struct handlebars_parser);
+    HANDLEBARS_MEMCHECK(parser, ctx);
+
+    // Bind error context
+    handlebars_context_bind(ctx, HBSCTX(parser));
+
+    // Initialize lexer
+    if( unlikely(handlebars_parser_init_scanner(parser) != 0) ) {
+        handlebars_talloc_free(parser);
+        handlebars_throw(ctx, HANDLEBARS_NOMEM, "Lexer initialization failed");
+    }
+
     return parser;
 }
 
@@ -113,6 +146,8 @@ struct handlebars_token ** handlebars_lex(struct handlebars_parser * parser)
     struct handlebars_token * token;
     size_t i = 0;
 
+    handlebars_parser_reset(parser);
+
     // Prepare token list
     tokens = MC(handlebars_talloc_array(parser, struct handlebars_token *, 32));
     HANDLEBARS_MEMCHECK(tokens, HBSCTX(parser));
@@ -155,6 +190,8 @@ struct handlebars_ast_node * handlebars_parse_ex(struct handlebars_parser * pars
         }
     }
 
+    handlebars_parser_reset(parser);
+
     parser->tmpl = tmpl;
     parser->flags = flags;
 
diff --git a/src/handlebars_parser_private.h b/src/handlebars_parser_private.h
index 56ed56d..304c300 100644
--- a/src/handlebars_parser_private.h
+++ b/src/handlebars_parser_private.h
@@ -43,6 +43,10 @@ struct handlebars_parser
 
     int tmplReadOffset;
     void * scanner;
+
+    //! Whether the scanner has been used
+    bool scanned;
+
     struct handlebars_ast_node * program;
     bool whitespace_root_seen;
     unsigned flags;
-- 
2.43.0


From 05b73a3214163dbba2fcfa8be9ba3a120b6ec058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:48 +0000
Subject: [PATCH 064/110] fix: a compiler can be used again, also after an
 error

---
 src/handlebars_compiler.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 52618b8..7fe5178 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -105,6 +105,11 @@ struct handlebars_compiler {
      * @brief Compiler flags
      */
     unsigned long flags;
+
+    /**
+     * @brief Whether something has been compiled before
+     */
+    bool compiled;
 };
 
 struct handlebars_block_param_pair {
@@ -388,7 +393,8 @@ static inline long handlebars_compiler_compile_program(
     subcompiler->known_helpers = compiler->known_helpers;
 
     // compile
-    handlebars_compiler_compile(subcompiler, node);
+    subcompiler->program->flags = subcompiler->flags;
+    handlebars_compiler_accept(subcompiler, node);
     subcompiler->program->flags = subcompiler->flags;
     guid = compiler->guid++;
 
@@ -1464,15 +1470,19 @@ void handlebars_compiler_compile(
         }
     }
 
-    // Allocate stacks
-    if (!compiler->bps) {
-        compiler->bps = alloca(sizeof(struct handlebars_block_param_stack));
-        compiler->bps->i = 0;
-    }
-    if (!compiler->sns) {
-        compiler->sns = alloca(sizeof(struct handlebars_source_node_stack));
-        compiler->sns->i = 0;
+    // Start over if the compiler has been used before
+    if (compiler->compiled) {
+        compiler->program = MC(handlebars_talloc_zero(compiler, struct handlebars_program));
+        compiler->program->main = compiler->program;
+        compiler->guid = 0;
     }
+    compiler->compiled = true;
+
+    // Allocate stacks. Those of an earlier compilation that failed are gone.
+    compiler->bps = alloca(sizeof(struct handlebars_block_param_stack));
+    compiler->bps->i = 0;
+    compiler->sns = alloca(sizeof(struct handlebars_source_node_stack));
+    compiler->sns->i = 0;
 
     // Compile
     compiler->program->flags = compiler->flags;
-- 
2.43.0


From e9c3e637b89e4bbfd0cca7c7a5c4e48c7af365ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:09:35 +0000
Subject: [PATCH 065/110] fix: JSON null is a NULL pointer, which may be passed
 to handlebars_value_init_json_object

---
 src/handlebars_json.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_json.h b/src/handlebars_json.h
index a48c988..cd6e846 100644
--- a/src/handlebars_json.h
+++ b/src/handlebars_json.h
@@ -37,7 +37,7 @@ void handlebars_value_init_json_object(
     struct handlebars_context * ctx,
     struct handlebars_value * value,
     struct json_object * json
-) HBS_ATTR_NONNULL_ALL;
+) HBS_ATTR_NONNULL(1, 2);
 
 /**
  * @brief Initialize a value from a JSON string
-- 
2.43.0


From 94fdc28e034d3526b2a97aec708fd74e75abdfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:05 +0000
Subject: [PATCH 066/110] fix: what the parser allocates for its stacks and
 messages is freed after an error

---
 src/handlebars.tab.c | 349 ++++++++++++++++++++++---------------------
 src/handlebars.tab.h |   2 +-
 src/handlebars.y     |  11 ++
 3 files changed, 192 insertions(+), 170 deletions(-)

diff --git a/src/handlebars.tab.c b/src/handlebars.tab.c
index c9cabee..e582ac6 100644
--- a/src/handlebars.tab.c
+++ b/src/handlebars.tab.c
@@ -116,7 +116,18 @@ int handlebars_yy_debug = 0;
 #define CONTEXT HBSCTX(parser)
 #define scanner parser->scanner
 
-#line 120 "handlebars.tab.c"
+// An error leaves the parser with a jump, so what it allocates has to belong to the context
+static void * handlebars_yy_stack_alloc(struct handlebars_parser * parser, size_t size)
+{
+    void * ptr = handlebars_talloc_size(parser, size);
+    HANDLEBARS_MEMCHECK(ptr, CONTEXT);
+    return ptr;
+}
+
+#define YYMALLOC(size) handlebars_yy_stack_alloc(parser, size)
+#define YYFREE(ptr) handlebars_talloc_free(ptr)
+
+#line 131 "handlebars.tab.c"
 
 # ifndef YY_CAST
 #  ifdef __cplusplus
@@ -606,15 +617,15 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_int16 yyrline[] =
 {
-       0,   188,   188,   193,   201,   204,   211,   215,   222,   225,
-     228,   231,   234,   237,   240,   247,   257,   261,   267,   270,
-     276,   282,   285,   288,   291,   297,   301,   305,   312,   320,
-     327,   334,   337,   340,   343,   346,   352,   356,   365,   372,
-     376,   383,   387,   391,   395,   402,   405,   411,   415,   419,
-     423,   430,   434,   441,   444,   450,   456,   461,   465,   468,
-     471,   474,   480,   488,   492,   499,   505,   509,   516,   519,
-     522,   525,   528,   531,   534,   537,   543,   546,   552,   558,
-     564,   570
+       0,   199,   199,   204,   212,   215,   222,   226,   233,   236,
+     239,   242,   245,   248,   251,   258,   268,   272,   278,   281,
+     287,   293,   296,   299,   302,   308,   312,   316,   323,   331,
+     338,   345,   348,   351,   354,   357,   363,   367,   376,   383,
+     387,   394,   398,   402,   406,   413,   416,   422,   426,   430,
+     434,   441,   445,   452,   455,   461,   467,   472,   476,   479,
+     482,   485,   491,   499,   503,   510,   516,   520,   527,   530,
+     533,   536,   539,   542,   545,   548,   554,   557,   563,   569,
+     575,   581
 };
 #endif
 
@@ -1701,110 +1712,110 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* start: program "end of file"  */
-#line 188 "handlebars.y"
+#line 199 "handlebars.y"
                 {
       parser->program = (yyvsp[-1].ast_node);
       handlebars_whitespace_accept(parser, parser->program);
       return 1;
     }
-#line 1711 "handlebars.tab.c"
+#line 1722 "handlebars.tab.c"
     break;
 
   case 3: /* start: "end of file"  */
-#line 193 "handlebars.y"
+#line 204 "handlebars.y"
         {
       // An empty template
       parser->program = handlebars_ast_node_ctor_program(parser, handlebars_ast_list_ctor(CONTEXT), NULL, NULL, 0, 0, &(yyloc));
       return 1;
     }
-#line 1721 "handlebars.tab.c"
+#line 1732 "handlebars.tab.c"
     break;
 
   case 4: /* program: statements  */
-#line 201 "handlebars.y"
+#line 212 "handlebars.y"
                {
       (yyval.ast_node) = handlebars_ast_node_ctor_program(parser, (yyvsp[0].ast_list), NULL, NULL, 0, 0, &(yyloc));
     }
-#line 1729 "handlebars.tab.c"
+#line 1740 "handlebars.tab.c"
     break;
 
   case 5: /* program: ""  */
-#line 204 "handlebars.y"
+#line 215 "handlebars.y"
        {
       struct handlebars_ast_list * list = handlebars_ast_list_ctor(CONTEXT);
       (yyval.ast_node) = handlebars_ast_node_ctor_program(parser, list, NULL, NULL, 0, 0, &(yyloc));
     }
-#line 1738 "handlebars.tab.c"
+#line 1749 "handlebars.tab.c"
     break;
 
   case 6: /* statements: statement  */
-#line 211 "handlebars.y"
+#line 222 "handlebars.y"
               {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 1747 "handlebars.tab.c"
+#line 1758 "handlebars.tab.c"
     break;
 
   case 7: /* statements: statements statement  */
-#line 215 "handlebars.y"
+#line 226 "handlebars.y"
                          {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 1756 "handlebars.tab.c"
+#line 1767 "handlebars.tab.c"
     break;
 
   case 8: /* statement: mustache  */
-#line 222 "handlebars.y"
+#line 233 "handlebars.y"
              {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1764 "handlebars.tab.c"
+#line 1775 "handlebars.tab.c"
     break;
 
   case 9: /* statement: block  */
-#line 225 "handlebars.y"
+#line 236 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1772 "handlebars.tab.c"
+#line 1783 "handlebars.tab.c"
     break;
 
   case 10: /* statement: raw_block  */
-#line 228 "handlebars.y"
+#line 239 "handlebars.y"
               {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1780 "handlebars.tab.c"
+#line 1791 "handlebars.tab.c"
     break;
 
   case 11: /* statement: partial  */
-#line 231 "handlebars.y"
+#line 242 "handlebars.y"
             {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1788 "handlebars.tab.c"
+#line 1799 "handlebars.tab.c"
     break;
 
   case 12: /* statement: partial_block  */
-#line 234 "handlebars.y"
+#line 245 "handlebars.y"
                   {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1796 "handlebars.tab.c"
+#line 1807 "handlebars.tab.c"
     break;
 
   case 13: /* statement: content  */
-#line 237 "handlebars.y"
+#line 248 "handlebars.y"
             {
       (yyval.ast_node) = handlebars_ast_node_ctor_content(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 1804 "handlebars.tab.c"
+#line 1815 "handlebars.tab.c"
     break;
 
   case 14: /* statement: COMMENT  */
-#line 240 "handlebars.y"
+#line 251 "handlebars.y"
             {
       // Strip comment strips in place
       unsigned strip = handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string));
@@ -1812,11 +1823,11 @@ yyreduce:
       			handlebars_ast_helper_strip_comment((yyvsp[0].string)), false, &(yyloc));
       handlebars_ast_node_set_strip((yyval.ast_node), strip);
     }
-#line 1816 "handlebars.tab.c"
+#line 1827 "handlebars.tab.c"
     break;
 
   case 15: /* statement: LONG_COMMENT  */
-#line 247 "handlebars.y"
+#line 258 "handlebars.y"
                  {
       // Strip comment strips in place
       unsigned strip = handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string));
@@ -1824,560 +1835,560 @@ yyreduce:
       			handlebars_ast_helper_strip_comment((yyvsp[0].string)), true, &(yyloc));
       handlebars_ast_node_set_strip((yyval.ast_node), strip);
   }
-#line 1828 "handlebars.tab.c"
+#line 1839 "handlebars.tab.c"
     break;
 
   case 16: /* content: CONTENT content  */
-#line 257 "handlebars.y"
+#line 268 "handlebars.y"
                     {
       (yyval.string) = handlebars_string_append_str(CONTEXT, (yyvsp[-1].string), (yyvsp[0].string));
       (yyval.string) = talloc_steal(parser, (yyval.string));
     }
-#line 1837 "handlebars.tab.c"
+#line 1848 "handlebars.tab.c"
     break;
 
   case 17: /* content: CONTENT  */
-#line 261 "handlebars.y"
+#line 272 "handlebars.y"
             {
       (yyval.string) = (yyvsp[0].string);
     }
-#line 1845 "handlebars.tab.c"
+#line 1856 "handlebars.tab.c"
     break;
 
   case 18: /* raw_block: open_raw_block content END_RAW_BLOCK  */
-#line 267 "handlebars.y"
+#line 278 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_helper_prepare_raw_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].string), (yyvsp[0].string), &(yyloc));
     }
-#line 1853 "handlebars.tab.c"
+#line 1864 "handlebars.tab.c"
     break;
 
   case 19: /* raw_block: open_raw_block END_RAW_BLOCK  */
-#line 270 "handlebars.y"
+#line 281 "handlebars.y"
                                    {
       (yyval.ast_node) = handlebars_ast_helper_prepare_raw_block(parser, (yyvsp[-1].ast_node), handlebars_string_ctor(HBSCTX(parser), HBS_STRL("")), (yyvsp[0].string), &(yyloc));
     }
-#line 1861 "handlebars.tab.c"
+#line 1872 "handlebars.tab.c"
     break;
 
   case 20: /* open_raw_block: "{{{{" intermediate4 "}}}}"  */
-#line 276 "handlebars.y"
+#line 287 "handlebars.y"
                                                  {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
     }
-#line 1869 "handlebars.tab.c"
+#line 1880 "handlebars.tab.c"
     break;
 
   case 21: /* block: open_block block_intermediate close_block  */
-#line 282 "handlebars.y"
+#line 293 "handlebars.y"
                                               {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].block_intermediate).program, (yyvsp[-1].block_intermediate).inverse_chain, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 1877 "handlebars.tab.c"
+#line 1888 "handlebars.tab.c"
     break;
 
   case 22: /* block: open_block close_block  */
-#line 285 "handlebars.y"
+#line 296 "handlebars.y"
                            {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-1].ast_node), NULL, NULL, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 1885 "handlebars.tab.c"
+#line 1896 "handlebars.tab.c"
     break;
 
   case 23: /* block: open_inverse block_intermediate close_block  */
-#line 288 "handlebars.y"
+#line 299 "handlebars.y"
                                                 {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].block_intermediate).program, (yyvsp[-1].block_intermediate).inverse_chain, (yyvsp[0].ast_node), 1, &(yyloc));
     }
-#line 1893 "handlebars.tab.c"
+#line 1904 "handlebars.tab.c"
     break;
 
   case 24: /* block: open_inverse close_block  */
-#line 291 "handlebars.y"
+#line 302 "handlebars.y"
                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_block(parser, (yyvsp[-1].ast_node), NULL, NULL, (yyvsp[0].ast_node), 1, &(yyloc));
     }
-#line 1901 "handlebars.tab.c"
+#line 1912 "handlebars.tab.c"
     break;
 
   case 25: /* block_intermediate: inverse_chain  */
-#line 297 "handlebars.y"
+#line 308 "handlebars.y"
                   {
       (yyval.block_intermediate).program = NULL;
       (yyval.block_intermediate).inverse_chain = (yyvsp[0].ast_node);
     }
-#line 1910 "handlebars.tab.c"
+#line 1921 "handlebars.tab.c"
     break;
 
   case 26: /* block_intermediate: program inverse_chain  */
-#line 301 "handlebars.y"
+#line 312 "handlebars.y"
                           {
       (yyval.block_intermediate).program = (yyvsp[-1].ast_node);
       (yyval.block_intermediate).inverse_chain = (yyvsp[0].ast_node);
     }
-#line 1919 "handlebars.tab.c"
+#line 1930 "handlebars.tab.c"
     break;
 
   case 27: /* block_intermediate: program  */
-#line 305 "handlebars.y"
+#line 316 "handlebars.y"
             {
       (yyval.block_intermediate).program = (yyvsp[0].ast_node);
       (yyval.block_intermediate).inverse_chain = NULL;
     }
-#line 1928 "handlebars.tab.c"
+#line 1939 "handlebars.tab.c"
     break;
 
   case 28: /* open_block: "{{#" intermediate4 "}}"  */
-#line 312 "handlebars.y"
+#line 323 "handlebars.y"
                                    {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
       (yyval.ast_node)->node.intermediate.open = talloc_steal((yyval.ast_node), handlebars_string_copy_ctor(CONTEXT, (yyvsp[-2].string)));
     }
-#line 1938 "handlebars.tab.c"
+#line 1949 "handlebars.tab.c"
     break;
 
   case 29: /* open_inverse: "{{^" intermediate4 "}}"  */
-#line 320 "handlebars.y"
+#line 331 "handlebars.y"
                                      {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
     }
-#line 1947 "handlebars.tab.c"
+#line 1958 "handlebars.tab.c"
     break;
 
   case 30: /* open_inverse_chain: OPEN_INVERSE_CHAIN intermediate4 "}}"  */
-#line 327 "handlebars.y"
+#line 338 "handlebars.y"
                                            {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       handlebars_ast_node_set_strip((yyval.ast_node), handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)));
     }
-#line 1956 "handlebars.tab.c"
+#line 1967 "handlebars.tab.c"
     break;
 
   case 31: /* inverse_chain: open_inverse_chain program inverse_chain  */
-#line 334 "handlebars.y"
+#line 345 "handlebars.y"
                                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_node), (yyvsp[0].ast_node), &(yyloc));
   	}
-#line 1964 "handlebars.tab.c"
+#line 1975 "handlebars.tab.c"
     break;
 
   case 32: /* inverse_chain: open_inverse_chain inverse_chain  */
-#line 337 "handlebars.y"
+#line 348 "handlebars.y"
                                      {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-1].ast_node), NULL, (yyvsp[0].ast_node), &(yyloc));
   	}
-#line 1972 "handlebars.tab.c"
+#line 1983 "handlebars.tab.c"
     break;
 
   case 33: /* inverse_chain: open_inverse_chain program  */
-#line 340 "handlebars.y"
+#line 351 "handlebars.y"
                                {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[-1].ast_node), (yyvsp[0].ast_node), NULL, &(yyloc));
     }
-#line 1980 "handlebars.tab.c"
+#line 1991 "handlebars.tab.c"
     break;
 
   case 34: /* inverse_chain: open_inverse_chain  */
-#line 343 "handlebars.y"
+#line 354 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_helper_prepare_inverse_chain(parser, (yyvsp[0].ast_node), NULL, NULL, &(yyloc));
     }
-#line 1988 "handlebars.tab.c"
+#line 1999 "handlebars.tab.c"
     break;
 
   case 35: /* inverse_chain: inverse_and_program  */
-#line 346 "handlebars.y"
+#line 357 "handlebars.y"
                         {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 1996 "handlebars.tab.c"
+#line 2007 "handlebars.tab.c"
     break;
 
   case 36: /* inverse_and_program: INVERSE program  */
-#line 352 "handlebars.y"
+#line 363 "handlebars.y"
                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_inverse(parser, (yyvsp[0].ast_node), 0,
               handlebars_ast_helper_strip_flags((yyvsp[-1].string), (yyvsp[-1].string)), &(yyloc));
     }
-#line 2005 "handlebars.tab.c"
+#line 2016 "handlebars.tab.c"
     break;
 
   case 37: /* inverse_and_program: INVERSE  */
-#line 356 "handlebars.y"
+#line 367 "handlebars.y"
             {
       struct handlebars_ast_node * program_node;
       program_node = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PROGRAM);
       (yyval.ast_node) = handlebars_ast_node_ctor_inverse(parser, program_node, 0,
               handlebars_ast_helper_strip_flags((yyvsp[0].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2016 "handlebars.tab.c"
+#line 2027 "handlebars.tab.c"
     break;
 
   case 38: /* close_block: OPEN_ENDBLOCK helper_name "}}"  */
-#line 365 "handlebars.y"
+#line 376 "handlebars.y"
                                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2025 "handlebars.tab.c"
+#line 2036 "handlebars.tab.c"
     break;
 
   case 39: /* mustache: "{{" intermediate3 "}}"  */
-#line 372 "handlebars.y"
+#line 383 "handlebars.y"
                              {
       (yyval.ast_node) = handlebars_ast_helper_prepare_mustache(parser, (yyvsp[-1].ast_node), (yyvsp[-2].string),
         			handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2034 "handlebars.tab.c"
+#line 2045 "handlebars.tab.c"
     break;
 
   case 40: /* mustache: "{{{" intermediate3 "}}}"  */
-#line 376 "handlebars.y"
+#line 387 "handlebars.y"
                                                  {
       (yyval.ast_node) = handlebars_ast_helper_prepare_mustache(parser, (yyvsp[-1].ast_node), (yyvsp[-2].string),
         			handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2043 "handlebars.tab.c"
+#line 2054 "handlebars.tab.c"
     break;
 
   case 41: /* partial: "{{>" partial_name params hash "}}"  */
-#line 383 "handlebars.y"
+#line 394 "handlebars.y"
                                                 {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-3].ast_node), (yyvsp[-2].ast_list), (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-4].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2052 "handlebars.tab.c"
+#line 2063 "handlebars.tab.c"
     break;
 
   case 42: /* partial: "{{>" partial_name params "}}"  */
-#line 387 "handlebars.y"
+#line 398 "handlebars.y"
                                            {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2061 "handlebars.tab.c"
+#line 2072 "handlebars.tab.c"
     break;
 
   case 43: /* partial: "{{>" partial_name hash "}}"  */
-#line 391 "handlebars.y"
+#line 402 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-2].ast_node), NULL, (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2070 "handlebars.tab.c"
+#line 2081 "handlebars.tab.c"
     break;
 
   case 44: /* partial: "{{>" partial_name "}}"  */
-#line 395 "handlebars.y"
+#line 406 "handlebars.y"
                                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_partial(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2079 "handlebars.tab.c"
+#line 2090 "handlebars.tab.c"
     break;
 
   case 45: /* partial_block: open_partial_block program close_block  */
-#line 402 "handlebars.y"
+#line 413 "handlebars.y"
                                            {
       (yyval.ast_node) = handlebars_ast_helper_prepare_partial_block(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_node), (yyvsp[0].ast_node), &(yyloc));
   }
-#line 2087 "handlebars.tab.c"
+#line 2098 "handlebars.tab.c"
     break;
 
   case 46: /* partial_block: open_partial_block close_block  */
-#line 405 "handlebars.y"
+#line 416 "handlebars.y"
                                    {
       struct handlebars_ast_node * program = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PROGRAM);
       (yyval.ast_node) = handlebars_ast_helper_prepare_partial_block(parser, (yyvsp[-1].ast_node), program, (yyvsp[0].ast_node), &(yyloc));
   }
-#line 2096 "handlebars.tab.c"
+#line 2107 "handlebars.tab.c"
     break;
 
   case 47: /* open_partial_block: "{{#>" partial_name params hash "}}"  */
-#line 411 "handlebars.y"
+#line 422 "handlebars.y"
                                                       {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-3].ast_node), (yyvsp[-2].ast_list), (yyvsp[-1].ast_node),
       			handlebars_ast_helper_strip_flags((yyvsp[-4].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2105 "handlebars.tab.c"
+#line 2116 "handlebars.tab.c"
     break;
 
   case 48: /* open_partial_block: "{{#>" partial_name params "}}"  */
-#line 415 "handlebars.y"
+#line 426 "handlebars.y"
                                                  {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), NULL,
       			handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2114 "handlebars.tab.c"
+#line 2125 "handlebars.tab.c"
     break;
 
   case 49: /* open_partial_block: "{{#>" partial_name hash "}}"  */
-#line 419 "handlebars.y"
+#line 430 "handlebars.y"
                                                {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), NULL, (yyvsp[-1].ast_node),
               handlebars_ast_helper_strip_flags((yyvsp[-3].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2123 "handlebars.tab.c"
+#line 2134 "handlebars.tab.c"
     break;
 
   case 50: /* open_partial_block: "{{#>" partial_name "}}"  */
-#line 423 "handlebars.y"
+#line 434 "handlebars.y"
                                           {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, NULL,
               handlebars_ast_helper_strip_flags((yyvsp[-2].string), (yyvsp[0].string)), &(yyloc));
     }
-#line 2132 "handlebars.tab.c"
+#line 2143 "handlebars.tab.c"
     break;
 
   case 51: /* params: param  */
-#line 430 "handlebars.y"
+#line 441 "handlebars.y"
           {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 2141 "handlebars.tab.c"
+#line 2152 "handlebars.tab.c"
     break;
 
   case 52: /* params: params param  */
-#line 434 "handlebars.y"
+#line 445 "handlebars.y"
                  {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 2150 "handlebars.tab.c"
+#line 2161 "handlebars.tab.c"
     break;
 
   case 53: /* param: helper_name  */
-#line 441 "handlebars.y"
+#line 452 "handlebars.y"
                 {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2158 "handlebars.tab.c"
+#line 2169 "handlebars.tab.c"
     break;
 
   case 54: /* param: sexpr  */
-#line 444 "handlebars.y"
+#line 455 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2166 "handlebars.tab.c"
+#line 2177 "handlebars.tab.c"
     break;
 
   case 55: /* sexpr: "(" intermediate3 ")"  */
-#line 450 "handlebars.y"
+#line 461 "handlebars.y"
                                          {
       (yyval.ast_node) = handlebars_ast_node_ctor_sexpr(parser, (yyvsp[-1].ast_node), &(yyloc));
     }
-#line 2174 "handlebars.tab.c"
+#line 2185 "handlebars.tab.c"
     break;
 
   case 56: /* intermediate4: intermediate3 block_params  */
-#line 456 "handlebars.y"
+#line 467 "handlebars.y"
                                {
       (yyval.ast_node) = (yyvsp[-1].ast_node);
       (yyval.ast_node)->node.intermediate.block_param1 = (yyvsp[0].block_params).block_param1;
       (yyval.ast_node)->node.intermediate.block_param2 = (yyvsp[0].block_params).block_param2;
     }
-#line 2184 "handlebars.tab.c"
+#line 2195 "handlebars.tab.c"
     break;
 
   case 58: /* intermediate3: helper_name params hash  */
-#line 465 "handlebars.y"
+#line 476 "handlebars.y"
                             {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-2].ast_node), (yyvsp[-1].ast_list), (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 2192 "handlebars.tab.c"
+#line 2203 "handlebars.tab.c"
     break;
 
   case 59: /* intermediate3: helper_name hash  */
-#line 468 "handlebars.y"
+#line 479 "handlebars.y"
                      {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), NULL, (yyvsp[0].ast_node), 0, &(yyloc));
     }
-#line 2200 "handlebars.tab.c"
+#line 2211 "handlebars.tab.c"
     break;
 
   case 60: /* intermediate3: helper_name params  */
-#line 471 "handlebars.y"
+#line 482 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[-1].ast_node), (yyvsp[0].ast_list), NULL, 0, &(yyloc));
     }
-#line 2208 "handlebars.tab.c"
+#line 2219 "handlebars.tab.c"
     break;
 
   case 61: /* intermediate3: helper_name  */
-#line 474 "handlebars.y"
+#line 485 "handlebars.y"
                 {
       (yyval.ast_node) = handlebars_ast_node_ctor_intermediate(parser, (yyvsp[0].ast_node), NULL, NULL, 0, &(yyloc));
     }
-#line 2216 "handlebars.tab.c"
+#line 2227 "handlebars.tab.c"
     break;
 
   case 62: /* hash: hash_pairs  */
-#line 480 "handlebars.y"
+#line 491 "handlebars.y"
                {
       struct handlebars_ast_node * ast_node = handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_HASH);
       ast_node->node.hash.pairs = (yyvsp[0].ast_list);
       (yyval.ast_node) = ast_node;
     }
-#line 2226 "handlebars.tab.c"
+#line 2237 "handlebars.tab.c"
     break;
 
   case 63: /* hash_pairs: hash_pairs hash_pair  */
-#line 488 "handlebars.y"
+#line 499 "handlebars.y"
                          {
       handlebars_ast_list_append((yyvsp[-1].ast_list), (yyvsp[0].ast_node));
       (yyval.ast_list) = (yyvsp[-1].ast_list);
     }
-#line 2235 "handlebars.tab.c"
+#line 2246 "handlebars.tab.c"
     break;
 
   case 64: /* hash_pairs: hash_pair  */
-#line 492 "handlebars.y"
+#line 503 "handlebars.y"
               {
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), (yyvsp[0].ast_node));
     }
-#line 2244 "handlebars.tab.c"
+#line 2255 "handlebars.tab.c"
     break;
 
   case 65: /* hash_pair: ID "=" param  */
-#line 499 "handlebars.y"
+#line 510 "handlebars.y"
                     {
       (yyval.ast_node) = handlebars_ast_node_ctor_hash_pair(parser, (yyvsp[-2].string), (yyvsp[0].ast_node), &(yyloc));
     }
-#line 2252 "handlebars.tab.c"
+#line 2263 "handlebars.tab.c"
     break;
 
   case 66: /* block_params: OPEN_BLOCK_PARAMS ID ID CLOSE_BLOCK_PARAMS  */
-#line 505 "handlebars.y"
+#line 516 "handlebars.y"
                                                {
       (yyval.block_params).block_param1 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-2].string));
       (yyval.block_params).block_param2 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-1].string));
     }
-#line 2261 "handlebars.tab.c"
+#line 2272 "handlebars.tab.c"
     break;
 
   case 67: /* block_params: OPEN_BLOCK_PARAMS ID CLOSE_BLOCK_PARAMS  */
-#line 509 "handlebars.y"
+#line 520 "handlebars.y"
                                             {
       (yyval.block_params).block_param1 = handlebars_string_copy_ctor(CONTEXT, (yyvsp[-1].string));
       (yyval.block_params).block_param2 = NULL;
     }
-#line 2270 "handlebars.tab.c"
+#line 2281 "handlebars.tab.c"
     break;
 
   case 68: /* helper_name: path  */
-#line 516 "handlebars.y"
+#line 527 "handlebars.y"
          {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2278 "handlebars.tab.c"
+#line 2289 "handlebars.tab.c"
     break;
 
   case 69: /* helper_name: data_name  */
-#line 519 "handlebars.y"
+#line 530 "handlebars.y"
               {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2286 "handlebars.tab.c"
+#line 2297 "handlebars.tab.c"
     break;
 
   case 70: /* helper_name: STRING  */
-#line 522 "handlebars.y"
+#line 533 "handlebars.y"
            {
       (yyval.ast_node) = handlebars_ast_node_ctor_string(parser, (yyvsp[0].string), false, &(yyloc));
     }
-#line 2294 "handlebars.tab.c"
+#line 2305 "handlebars.tab.c"
     break;
 
   case 71: /* helper_name: SINGLE_STRING  */
-#line 525 "handlebars.y"
+#line 536 "handlebars.y"
                   {
       (yyval.ast_node) = handlebars_ast_node_ctor_string(parser, (yyvsp[0].string), true, &(yyloc));
   }
-#line 2302 "handlebars.tab.c"
+#line 2313 "handlebars.tab.c"
     break;
 
   case 72: /* helper_name: NUMBER  */
-#line 528 "handlebars.y"
+#line 539 "handlebars.y"
            {
       (yyval.ast_node) = handlebars_ast_node_ctor_number(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2310 "handlebars.tab.c"
+#line 2321 "handlebars.tab.c"
     break;
 
   case 73: /* helper_name: BOOLEAN  */
-#line 531 "handlebars.y"
+#line 542 "handlebars.y"
             {
       (yyval.ast_node) = handlebars_ast_node_ctor_boolean(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2318 "handlebars.tab.c"
+#line 2329 "handlebars.tab.c"
     break;
 
   case 74: /* helper_name: "undefined"  */
-#line 534 "handlebars.y"
+#line 545 "handlebars.y"
               {
       (yyval.ast_node) = handlebars_ast_node_ctor_undefined(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2326 "handlebars.tab.c"
+#line 2337 "handlebars.tab.c"
     break;
 
   case 75: /* helper_name: "NULL"  */
-#line 537 "handlebars.y"
+#line 548 "handlebars.y"
         {
       (yyval.ast_node) = handlebars_ast_node_ctor_null(parser, (yyvsp[0].string), &(yyloc));
     }
-#line 2334 "handlebars.tab.c"
+#line 2345 "handlebars.tab.c"
     break;
 
   case 76: /* partial_name: helper_name  */
-#line 543 "handlebars.y"
+#line 554 "handlebars.y"
                 {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2342 "handlebars.tab.c"
+#line 2353 "handlebars.tab.c"
     break;
 
   case 77: /* partial_name: sexpr  */
-#line 546 "handlebars.y"
+#line 557 "handlebars.y"
           {
       (yyval.ast_node) = (yyvsp[0].ast_node);
     }
-#line 2350 "handlebars.tab.c"
+#line 2361 "handlebars.tab.c"
     break;
 
   case 78: /* data_name: DATA path_segments  */
-#line 552 "handlebars.y"
+#line 563 "handlebars.y"
                        {
       (yyval.ast_node) = handlebars_ast_helper_prepare_path(parser, (yyvsp[0].ast_list), 1, &(yyloc));
     }
-#line 2358 "handlebars.tab.c"
+#line 2369 "handlebars.tab.c"
     break;
 
   case 79: /* path: path_segments  */
-#line 558 "handlebars.y"
+#line 569 "handlebars.y"
                   {
       (yyval.ast_node) = handlebars_ast_helper_prepare_path(parser, (yyvsp[0].ast_list), 0, &(yyloc));
     }
-#line 2366 "handlebars.tab.c"
+#line 2377 "handlebars.tab.c"
     break;
 
   case 80: /* path_segments: path_segments SEP ID  */
-#line 564 "handlebars.y"
+#line 575 "handlebars.y"
                          {
       struct handlebars_ast_node * ast_node = handlebars_ast_node_ctor_path_segment(parser, (yyvsp[0].string), (yyvsp[-1].string), &(yyloc));
 
       handlebars_ast_list_append((yyvsp[-2].ast_list), ast_node);
       (yyval.ast_list) = (yyvsp[-2].ast_list);
     }
-#line 2377 "handlebars.tab.c"
+#line 2388 "handlebars.tab.c"
     break;
 
   case 81: /* path_segments: ID  */
-#line 570 "handlebars.y"
+#line 581 "handlebars.y"
        {
       struct handlebars_ast_node * ast_node;
       MEMCHK((yyvsp[0].string)); // this is weird
@@ -2388,11 +2399,11 @@ yyreduce:
       (yyval.ast_list) = handlebars_ast_list_ctor(CONTEXT);
       handlebars_ast_list_append((yyval.ast_list), ast_node);
     }
-#line 2392 "handlebars.tab.c"
+#line 2403 "handlebars.tab.c"
     break;
 
 
-#line 2396 "handlebars.tab.c"
+#line 2407 "handlebars.tab.c"
 
       default: break;
     }
diff --git a/src/handlebars.tab.h b/src/handlebars.tab.h
index 8fc7957..1cfe095 100644
--- a/src/handlebars.tab.h
+++ b/src/handlebars.tab.h
@@ -114,7 +114,7 @@ extern int handlebars_yy_debug;
 #if ! defined YYSTYPE && ! defined YYSTYPE_IS_DECLARED
 union YYSTYPE
 {
-#line 95 "handlebars.y"
+#line 106 "handlebars.y"
 
     struct handlebars_string * string;
     struct handlebars_ast_node * ast_node;
diff --git a/src/handlebars.y b/src/handlebars.y
index f4c3aec..4dd2cf8 100644
--- a/src/handlebars.y
+++ b/src/handlebars.y
@@ -90,6 +90,17 @@ int handlebars_yy_debug = 0;
 #undef CONTEXT
 #define CONTEXT HBSCTX(parser)
 #define scanner parser->scanner
+
+// An error leaves the parser with a jump, so what it allocates has to belong to the context
+static void * handlebars_yy_stack_alloc(struct handlebars_parser * parser, size_t size)
+{
+    void * ptr = handlebars_talloc_size(parser, size);
+    HANDLEBARS_MEMCHECK(ptr, CONTEXT);
+    return ptr;
+}
+
+#define YYMALLOC(size) handlebars_yy_stack_alloc(parser, size)
+#define YYFREE(ptr) handlebars_talloc_free(ptr)
 %}
 
 %union {
-- 
2.43.0


From b66a8ad735000c39b1e48886281383ef7abd8cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:54 +0000
Subject: [PATCH 067/110] fix: each frees the output of its iterations

---
 src/handlebars_helpers.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index dc370f5..8038051 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -151,6 +151,7 @@ struct handlebars_value * handlebars_builtin_each(HANDLEBARS_HELPER_ARGS)
 
         tmp = handlebars_vm_execute_program_ex(vm, options->program, it_child, data, block_params);
         result_str = handlebars_string_append(HBSCTX(vm), result_str, HBS_STR_STRL(tmp));
+        handlebars_string_delref(tmp);
 
         handlebars_value_null(data);
 
@@ -162,6 +163,7 @@ whoopsie:
         tmp = handlebars_vm_execute_program(vm, options->inverse, options->scope);
         assert(tmp != NULL);
         result_str = handlebars_string_append(HBSCTX(vm), result_str, HBS_STR_STRL(tmp));
+        handlebars_string_delref(tmp);
     }
 
     handlebars_value_str(rv, result_str);
-- 
2.43.0


From dc964de084ccf9655b2cac9d6e117b3ca357a3fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:56 +0000
Subject: [PATCH 068/110] fix: a list that nothing refers to yet is freed after
 pushing to it moved it

---
 src/handlebars_stack.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_stack.c b/src/handlebars_stack.c
index 4e8cd5d..10c41b7 100644
--- a/src/handlebars_stack.c
+++ b/src/handlebars_stack.c
@@ -200,8 +200,13 @@ struct handlebars_stack * handlebars_stack_push(struct handlebars_stack * stack,
         struct handlebars_stack * prev_stack = stack;
         stack = handlebars_stack_copy_ctor(prev_stack, capacity);
         stack->protect = prev_stack->protect;
+#ifndef HANDLEBARS_NO_REFCOUNT
+        // The reference moves over, if there was one
+        if (handlebars_rc_refcount(&prev_stack->rc) >= 1) {
+            handlebars_stack_addref(stack);
+        }
+#endif
         handlebars_stack_delref(prev_stack);
-        handlebars_stack_addref(stack);
     }
 
     handlebars_value_init(&stack->v[stack->i]);
-- 
2.43.0


From 066868310474c22619f2015e4a6ae8bd45dc0298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:38 +0000
Subject: [PATCH 069/110] fix: in compat mode the text of a partial is freed
 after it was appended

---
 src/handlebars_vm.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 6051c17..c5a24b0 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -940,6 +940,7 @@ ACCEPT_FUNCTION(invoke_partial)
 
         if (vm->flags & handlebars_compiler_flag_compat) {
             vm->buffer = handlebars_string_append_str(CONTEXT, vm->buffer, buffer);
+            handlebars_string_delref(buffer);
         } else {
             vm->buffer = handlebars_string_indent_append(HBSCTX(vm), vm->buffer, buffer, opcode->op3.data.string.string);
         }
-- 
2.43.0


From 93ad619b5e734b014e1f97718f2aae07764e1d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:00 +0000
Subject: [PATCH 070/110] fix: partial blocks nested in each other fill up a
 single stack of block params

---
 src/handlebars_vm.c | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index c5a24b0..9755e60 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -453,26 +453,30 @@ done:
 HANDLEBARS_CLOSURE_ATTRS
 static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE_ARGS)
 {
-    assert(localc >= 5);
+    assert(localc >= 6);
     assert(HANDLEBARS_LOCAL_AT(0)->type == HANDLEBARS_VALUE_TYPE_PTR);
     assert(HANDLEBARS_LOCAL_AT(1)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
     assert(HANDLEBARS_LOCAL_AT(2)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
     assert(HANDLEBARS_LOCAL_AT(3)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
     assert(HANDLEBARS_LOCAL_AT(4)->type == HANDLEBARS_VALUE_TYPE_INTEGER);
+    assert(HANDLEBARS_LOCAL_AT(5)->type == HANDLEBARS_VALUE_TYPE_PTR);
 
     struct handlebars_module * module = handlebars_value_get_ptr(HANDLEBARS_LOCAL_AT(0), struct handlebars_module);
     long program = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(1));
     long partial_block_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(2));
     long block_param_base = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(3));
     long block_param_depth = handlebars_value_get_intval(HANDLEBARS_LOCAL_AT(4));
+    struct handlebars_stack * block_param_stack = handlebars_value_get_ptr(HANDLEBARS_LOCAL_AT(5), struct handlebars_stack);
+    struct handlebars_stack * prev_block_param_stack = vm->blockParamStack;
     size_t prev_block_param_base = vm->blockParamBase;
-    struct handlebars_stack_save_buf bst = handlebars_stack_save(vm->blockParamStack);
     long i;
 
-    // Bring the block params the partial block was defined with back to the top, but not those of its callers
-    vm->blockParamBase = LEN(vm->blockParamStack);
+    // The partial block sees the block params it was defined with, but not those of its callers. They are copied to a
+    // stack of their own, so that partial blocks nested in each other do not fill up a single one
+    vm->blockParamStack = handlebars_stack_alloca(HBSCTX(vm), HANDLEBARS_VM_STACK_SIZE);
+    vm->blockParamBase = 0;
     for (i = block_param_base; i < block_param_depth; i++) {
-        PUSH(vm->blockParamStack, handlebars_stack_get(vm->blockParamStack, i));
+        PUSH(vm->blockParamStack, handlebars_stack_get(block_param_stack, i));
     }
 
     // Push the partial block that was current where this one was defined, or nothing if there was none
@@ -495,7 +499,8 @@ static struct handlebars_value * invoke_partial_block_closure(HANDLEBARS_CLOSURE
         handlebars_value_str(rv, buffer);
     }
 
-    handlebars_stack_restore(vm->blockParamStack, bst);
+    handlebars_stack_truncate(vm->blockParamStack, 0);
+    vm->blockParamStack = prev_block_param_stack;
     vm->blockParamBase = prev_block_param_base;
 
     // Pop partial block
@@ -872,13 +877,14 @@ ACCEPT_FUNCTION(invoke_partial)
 
     // Push partial block
     if (options.program > 0) {
-        const int closure_localc = 5;
+        const int closure_localc = 6;
         HANDLEBARS_VALUE_ARRAY_DECL(closure_localv, closure_localc);
         handlebars_value_ptr(&closure_localv[0], handlebars_ptr_ctor(CONTEXT, struct handlebars_module, vm->module, true));
         handlebars_value_integer(&closure_localv[1], options.program);
         handlebars_value_integer(&closure_localv[2], LEN(vm->partialBlockStack));
         handlebars_value_integer(&closure_localv[3], vm->blockParamBase);
         handlebars_value_integer(&closure_localv[4], LEN(vm->blockParamStack));
+        handlebars_value_ptr(&closure_localv[5], handlebars_ptr_ctor(CONTEXT, struct handlebars_stack, vm->blockParamStack, true));
         handlebars_value_closure(partial_block, handlebars_closure_ctor(vm, invoke_partial_block_closure, closure_localc, closure_localv));
         pushed_partial_block = true;
         PUSH(vm->partialBlockStack, partial_block);
@@ -1484,6 +1490,7 @@ struct handlebars_string * handlebars_vm_execute_ex(
     struct handlebars_value * prev_last_context = vm->last_context;
     struct handlebars_string * prev_delim_open = vm->delim_open;
     struct handlebars_string * prev_delim_close = vm->delim_close;
+    struct handlebars_stack * prev_block_param_stack = vm->blockParamStack;
     size_t prev_block_param_base = vm->blockParamBase;
     bool const setup_stacks = vm->stack == NULL;
     struct handlebars_stack_save_buf st = {0};
@@ -1547,6 +1554,7 @@ done:
         vm->blockParamStack = NULL;
         vm->partialBlockStack = NULL;
     } else {
+        vm->blockParamStack = prev_block_param_stack;
         handlebars_stack_restore(vm->stack, st);
         handlebars_stack_restore(vm->hashStack, hst);
         handlebars_stack_restore(vm->contextStack, cst);
-- 
2.43.0


From b79aed88947cb470626be2e4df7dc73c704577d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:46 +0000
Subject: [PATCH 071/110] fix: the error of an empty YAML document has a
 message

---
 src/handlebars_yaml.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index c5d41db..e911c39 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -139,7 +139,7 @@ void handlebars_value_init_yaml_string(struct handlebars_context * ctx, struct h
     if( node ) {
         handlebars_value_init_yaml_node(ctx, value, &yctx->document, node);
     } else {
-        handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: [%d] %s", yctx->parser.error, yctx->parser.problem);
+        handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: [%d] %s", yctx->parser.error, yctx->parser.problem ? yctx->parser.problem : "empty document");
     }
     handlebars_talloc_free(yctx);
 }
-- 
2.43.0


From dfa8dd2bda7de96224ef869345ba547c4356ac64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:43 +0000
Subject: [PATCH 072/110] fix: memory behind the strings of a template does not
 get into the compiled form

---
 src/handlebars_opcode_serializer.c | 31 +++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/handlebars_opcode_serializer.c b/src/handlebars_opcode_serializer.c
index f10367b..7cdf661 100644
--- a/src/handlebars_opcode_serializer.c
+++ b/src/handlebars_opcode_serializer.c
@@ -64,8 +64,20 @@ static void * append(struct handlebars_module * module, void * source, size_t si
     return addr;
 }
 
-static inline void patch_string(struct handlebars_string * str) {
-    handlebars_string_immortalize(str);
+static struct handlebars_string * append_string(struct handlebars_module * module, struct handlebars_string * string)
+{
+    // Make sure hash is computed
+    hbs_str_hash(string);
+
+    size_t size = HBS_STR_SIZE(hbs_str_len(string));
+    struct handlebars_string * copy = append(module, string, size);
+
+    // What is behind the text in memory is not part of it
+    char * end = hbs_str_val(copy) + hbs_str_len(copy);
+    memset(end, 0, (char *) copy + size - end);
+
+    handlebars_string_immortalize(copy);
+    return copy;
 }
 
 static size_t calculate_size_operand(struct handlebars_module * module, struct handlebars_operand * operand)
@@ -137,27 +149,16 @@ static size_t calculate_size_program(struct handlebars_module * module, struct h
 static void serialize_operand(struct handlebars_module * module, struct handlebars_operand * operand)
 {
     size_t i;
-    size_t size;
 
     // Increment for children
     switch( operand->type ) {
         case handlebars_operand_type_string:
-            // Make sure hash is computed
-            hbs_str_hash(operand->data.string.string);
-
-            size = HBS_STR_SIZE(hbs_str_len(operand->data.string.string));
-            operand->data.string.string = append(module, operand->data.string.string, size);
-            patch_string(operand->data.string.string);
+            operand->data.string.string = append_string(module, operand->data.string.string);
             break;
         case handlebars_operand_type_array:
             operand->data.array.array = append(module, operand->data.array.array, sizeof(struct handlebars_operand_string) * operand->data.array.count);
             for( i = 0; i < operand->data.array.count; i++ ) {
-                // Make sure hash is computed
-                hbs_str_hash(operand->data.array.array[i].string);
-
-                size = HBS_STR_SIZE(hbs_str_len(operand->data.array.array[i].string));
-                operand->data.array.array[i].string = append(module, operand->data.array.array[i].string, size);
-                patch_string(operand->data.array.array[i].string);
+                operand->data.array.array[i].string = append_string(module, operand->data.array.array[i].string);
             }
             break;
         default:
-- 
2.43.0


From 3e2ae39b1d0b80c999635c35e2824495cddc4a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:57 +0000
Subject: [PATCH 073/110] fix: relocating a module to or from address zero is
 no undefined behaviour

---
 src/handlebars_opcode_serializer.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_opcode_serializer.c b/src/handlebars_opcode_serializer.c
index 7cdf661..55ca945 100644
--- a/src/handlebars_opcode_serializer.c
+++ b/src/handlebars_opcode_serializer.c
@@ -39,7 +39,7 @@
 #include "handlebars_opcode_serializer.h"
 #include "handlebars_string.h"
 
-#define PATCH(ptr, baseaddr) ptr = (void *) (((char *) ptr) - ((char *) module->addr) + ((char *) baseaddr))
+#define PATCH(ptr, baseaddr) ptr = (void *) (((uintptr_t) ptr) - ((uintptr_t) module->addr) + ((uintptr_t) baseaddr))
 #define align_size(size) handlebars_align_size(size, sizeof(void *))
 
 const size_t HANDLEBARS_MODULE_SIZE = sizeof(struct handlebars_module);
-- 
2.43.0


From 84f3a9f4fe19ebb587d4c53197132c2218f61ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:34 +0000
Subject: [PATCH 074/110] fix: the source of a path keeps what is written in
 brackets

---
 src/handlebars_ast_printer.c | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index 4119145..077e674 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -880,7 +880,26 @@ static void _handlebars_ast_to_string_path(struct handlebars_ast_node * ast_node
     assert(ast_node->node.path.data == 0 || ast_node->node.path.data == 1);
 
     if (ast_node->node.path.original) {
-        __APPEND_STR(ast_node->node.path.original);
+        // What is written in brackets is in the original without them: take what precedes the segments (@, this or
+        // the parent references) from there, and the segments as they were written
+        size_t len = hbs_str_len(ast_node->node.path.original);
+
+        handlebars_ast_list_foreach(ast_list, item, tmp) {
+            struct handlebars_ast_node_path_segment * segment = &item->data->node.path_segment;
+            size_t segment_len = hbs_str_len(segment->part) + (segment->separator ? hbs_str_len(segment->separator) : 0);
+            assert(segment_len <= len);
+            len -= segment_len;
+        }
+
+        __APPENDL(hbs_str_val(ast_node->node.path.original), len);
+
+        handlebars_ast_list_foreach(ast_list, item, tmp) {
+            struct handlebars_ast_node_path_segment * segment = &item->data->node.path_segment;
+            if( segment->separator ) {
+                __APPEND_STR(segment->separator);
+            }
+            __APPEND_STR(segment->original);
+        }
     } else {
         if( ast_node->node.path.data ) {
             __APPENDS("@");
-- 
2.43.0


From e050780f9ecf4b3baab9c831e50e7f25280fb04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:35 +0000
Subject: [PATCH 075/110] fix: the source of a subexpression that is an
 argument of a partial is in parentheses

---
 src/handlebars_ast_printer.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index 077e674..568a94c 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -555,12 +555,6 @@ static void _handlebars_ast_to_string_path_params_hash(
     struct handlebars_ast_node * path, struct handlebars_ast_list * params,
     struct handlebars_ast_node * hash, struct handlebars_ast_printer_context * ctx)
 {
-    int depth = ctx->padding++;
-
-    if (depth > 0) {
-        __APPENDS("(");
-    }
-
     if( path ) {
         __PRINT(path);
     }
@@ -584,12 +578,6 @@ static void _handlebars_ast_to_string_path_params_hash(
         __APPENDS(" ");
         __PRINT(hash);
     }
-
-    if (depth > 0) {
-        __APPENDS(")");
-    }
-
-    ctx->padding--;
 }
 
 
@@ -809,8 +797,10 @@ static void _handlebars_ast_to_string_comment(struct handlebars_ast_node * ast_n
 static void _handlebars_ast_to_string_sexpr(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
     // Sexpr
+    __APPENDS("(");
     _handlebars_ast_to_string_path_params_hash(ast_node->node.sexpr.path,
             ast_node->node.sexpr.params, ast_node->node.sexpr.hash, ctx);
+    __APPENDS(")");
 }
 
 static void _handlebars_ast_to_string_string(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
-- 
2.43.0


From 271f3ac8519c68d7fa1a532be3fce5947fc532e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:35 +0000
Subject: [PATCH 076/110] fix: the source of a partial block has its whitespace
 control and spaces between its arguments

---
 src/handlebars_ast_printer.c | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index 568a94c..cfaadfa 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -740,15 +740,12 @@ static void _handlebars_ast_to_string_partial_block(struct handlebars_ast_node *
     ctx->in_partial = true;
 
     // Sexpr
-    __APPENDS("{{#> ");
-    _handlebars_ast_to_string(ast_node->node.partial_block.path, ctx);
-    if( ast_node->node.partial_block.params ) {
-        _handlebars_ast_to_string_list(ast_node->node.partial_block.params, ctx);
-    }
-    if( ast_node->node.partial_block.hash ) {
-    	__APPENDS(" ");
-        _handlebars_ast_to_string(ast_node->node.partial_block.hash, ctx);
-    }
+    __APPENDS("{{");
+    __APPEND_STRIP_LEFT(ast_node->node.partial_block.open_strip);
+    __APPENDS("#> ");
+    _handlebars_ast_to_string_path_params_hash(ast_node->node.partial_block.path,
+            ast_node->node.partial_block.params, ast_node->node.partial_block.hash, ctx);
+    __APPEND_STRIP_RIGHT(ast_node->node.partial_block.open_strip);
     __APPENDS("}}");
 
     // Program
@@ -757,8 +754,11 @@ static void _handlebars_ast_to_string_partial_block(struct handlebars_ast_node *
     }
 
     // end
-    __APPENDS("{{/");
+    __APPENDS("{{");
+    __APPEND_STRIP_LEFT(ast_node->node.partial_block.close_strip);
+    __APPENDS("/");
     _handlebars_ast_to_string(ast_node->node.partial_block.path, ctx);
+    __APPEND_STRIP_RIGHT(ast_node->node.partial_block.close_strip);
     __APPENDS("}}");
 
     ctx->in_partial = false;
-- 
2.43.0


From bad7526103ff7bb497dbdcb1e8f2a515aa76930a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:35 +0000
Subject: [PATCH 077/110] fix: the source of a block has the block params and
 else conditions it was written with

---
 src/handlebars_ast_printer.c | 112 +++++++++++++++++++----------------
 1 file changed, 60 insertions(+), 52 deletions(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index cfaadfa..be4c826 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -611,46 +611,68 @@ static void _handlebars_ast_to_string_mustache(struct handlebars_ast_node * ast_
     __APPENDS("}}");
 }
 
-static void _handlebars_ast_to_string_block(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
+static void _handlebars_ast_to_string_block_params(struct handlebars_ast_node * program, struct handlebars_ast_printer_context * ctx)
 {
-    bool is_raw = ast_node->type == HANDLEBARS_AST_NODE_RAW_BLOCK;
-    if (is_raw) {
-        ctx->in_raw_block = 1;
+    if( program && program->type == HANDLEBARS_AST_NODE_PROGRAM && program->node.program.block_param1 ) {
+        __APPENDS(" as |");
+        __APPEND_STR(program->node.program.block_param1);
+        if( program->node.program.block_param2 ) {
+            __APPENDS(" ");
+            __APPEND_STR(program->node.program.block_param2);
+        }
+        __APPENDS("|");
     }
+}
+
+static void _handlebars_ast_to_string_else(
+    struct handlebars_ast_node * program, unsigned strip, struct handlebars_ast_printer_context * ctx)
+{
+    struct handlebars_ast_list * statements = program->type == HANDLEBARS_AST_NODE_PROGRAM ? program->node.program.statements : NULL;
+    struct handlebars_ast_node * block;
 
-    // Use an inverted section
-    if (ast_node->node.block.inverse && !ast_node->node.block.program) {
-        if (is_raw) { __APPENDS("{{"); }
+    if( program->node.program.chained && statements && statements->first &&
+            statements->first->data->type == HANDLEBARS_AST_NODE_BLOCK ) {
+        // An else with a condition of its own, which ends where the block ends that it belongs to
+        block = statements->first->data;
         __APPENDS("{{");
-        __APPEND_STRIP_LEFT(ast_node->node.block.open_strip);
-        __APPENDS("^");
-        _handlebars_ast_to_string_path_params_hash(ast_node->node.block.path,
-                ast_node->node.block.params, ast_node->node.block.hash, ctx);
-        __APPEND_STRIP_RIGHT(ast_node->node.block.open_strip);
+        __APPEND_STRIP_LEFT(block->node.block.open_strip);
+        __APPENDS("else ");
+        _handlebars_ast_to_string_path_params_hash(block->node.block.path,
+                block->node.block.params, block->node.block.hash, ctx);
+        _handlebars_ast_to_string_block_params(block->node.block.program, ctx);
+        __APPEND_STRIP_RIGHT(block->node.block.open_strip);
         __APPENDS("}}");
-        if (is_raw) { __APPENDS("}}"); }
-
-        __PRINT(ast_node->node.block.inverse);
-
-        if (is_raw) { __APPENDS("{{"); }
+        if( block->node.block.program ) {
+            __PRINT(block->node.block.program);
+        }
+        if( block->node.block.inverse ) {
+            _handlebars_ast_to_string_else(block->node.block.inverse, block->node.block.inverse_strip, ctx);
+        }
+    } else {
         __APPENDS("{{");
-        __APPEND_STRIP_LEFT(ast_node->node.block.close_strip);
-        __APPENDS("/");
-        _handlebars_ast_to_string_path(ast_node->node.block.path, ctx, 1);
-        __APPEND_STRIP_RIGHT(ast_node->node.block.close_strip);
+        __APPEND_STRIP_LEFT(strip);
+        __APPENDS("^");
+        __APPEND_STRIP_RIGHT(strip);
         __APPENDS("}}");
-        if (is_raw) { __APPENDS("}}"); }
-        goto done;
+        __PRINT(program);
     }
+}
 
+static void _handlebars_ast_to_string_block(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
+{
+    bool is_raw = ast_node->type == HANDLEBARS_AST_NODE_RAW_BLOCK;
+    bool is_inverted = ast_node->node.block.is_inverted ||
+            (ast_node->node.block.inverse && !ast_node->node.block.program);
+    struct handlebars_ast_node * program = is_inverted ? ast_node->node.block.inverse : ast_node->node.block.program;
+    struct handlebars_ast_node * inverse = is_inverted ? ast_node->node.block.program : ast_node->node.block.inverse;
 
     // Sexpr
-    if (is_raw) {
-        __APPENDS("{{{{");
-        __APPEND_STRIP_LEFT(ast_node->node.block.open_strip);
-    } else {
-        __APPENDS("{{");
-        __APPEND_STRIP_LEFT(ast_node->node.block.open_strip);
+    __APPENDS("{{");
+    if (is_raw) { __APPENDS("{{"); }
+    __APPEND_STRIP_LEFT(ast_node->node.block.open_strip);
+    if( is_inverted ) {
+        __APPENDS("^");
+    } else if( !is_raw ) {
         __APPENDS("#");
     }
 	if( ast_node->node.block.is_decorator ) {
@@ -658,36 +680,23 @@ static void _handlebars_ast_to_string_block(struct handlebars_ast_node * ast_nod
 	}
     _handlebars_ast_to_string_path_params_hash(ast_node->node.block.path,
             ast_node->node.block.params, ast_node->node.block.hash, ctx);
-
-    if (ast_node->node.block.program) {
-        if( ast_node->node.block.program->node.program.block_param1 ) {
-            __APPENDS("as |");
-            __APPEND_STR(ast_node->node.block.program->node.program.block_param1);
-            if( ast_node->node.block.program->node.program.block_param2 ) {
-                __APPENDS(" ");
-                __APPEND_STR(ast_node->node.block.program->node.program.block_param2);
-            }
-            __APPENDS("|");
-        }
-    }
-
+    _handlebars_ast_to_string_block_params(program, ctx);
     __APPEND_STRIP_RIGHT(ast_node->node.block.open_strip);
     __APPENDS("}}");
     if (is_raw) { __APPENDS("}}"); }
 
+    if (is_raw) {
+        ctx->in_raw_block = 1;
+    }
+
     // Program
-    if( ast_node->node.block.program ) {
-        __PRINT(ast_node->node.block.program);
+    if( program ) {
+        __PRINT(program);
     }
 
     // Inverse
-    if( ast_node->node.block.inverse ) {
-        __APPENDS("{{");
-        __APPEND_STRIP_LEFT(ast_node->node.block.inverse_strip);
-        __APPENDS("^");
-        __APPEND_STRIP_RIGHT(ast_node->node.block.inverse_strip);
-        __APPENDS("}}");
-        __PRINT(ast_node->node.block.inverse);
+    if( inverse ) {
+        _handlebars_ast_to_string_else(inverse, ast_node->node.block.inverse_strip, ctx);
     }
 
     // end
@@ -701,7 +710,6 @@ static void _handlebars_ast_to_string_block(struct handlebars_ast_node * ast_nod
     __APPENDS("}}");
     if (is_raw) { __APPENDS("}}"); }
 
-done:
     ctx->in_raw_block = 0;
 }
 
-- 
2.43.0


From 197a1695b537eeeadea98fee1ab8c483a8a37e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:35 +0000
Subject: [PATCH 078/110] fix: the source of text that ends with a backslash
 keeps it from escaping the tag behind it

---
 src/handlebars_ast_printer.c | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index be4c826..fe7dec8 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -537,6 +537,16 @@ struct handlebars_string * handlebars_ast_print(struct handlebars_context * cont
 static void _handlebars_ast_to_string(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx);
 static void _handlebars_ast_to_string_path(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx, bool first_only);
 
+static void _handlebars_ast_to_string_open(struct handlebars_ast_printer_context * ctx)
+{
+    // A backslash that the text ends with would escape the tag, unless there are two of them
+    size_t len = hbs_str_len(ctx->output);
+    if( !ctx->in_raw_block && len > 0 && hbs_str_val(ctx->output)[len - 1] == '\\' ) {
+        __APPENDS("\\");
+    }
+    __APPENDS("{{");
+}
+
 static void _handlebars_ast_to_string_list(struct handlebars_ast_list * ast_list, struct handlebars_ast_printer_context * ctx)
 {
     struct handlebars_ast_list_item * item;
@@ -592,7 +602,7 @@ static void _handlebars_ast_to_string_mustache(struct handlebars_ast_node * ast_
 {
     unsigned char unescaped = ast_node->node.mustache.unescaped;
 
-    __APPENDS("{{");
+    _handlebars_ast_to_string_open(ctx);
     __APPEND_STRIP_LEFT(ast_node->strip);
     if (unescaped == 1) {
         __APPENDS("{");
@@ -634,7 +644,7 @@ static void _handlebars_ast_to_string_else(
             statements->first->data->type == HANDLEBARS_AST_NODE_BLOCK ) {
         // An else with a condition of its own, which ends where the block ends that it belongs to
         block = statements->first->data;
-        __APPENDS("{{");
+        _handlebars_ast_to_string_open(ctx);
         __APPEND_STRIP_LEFT(block->node.block.open_strip);
         __APPENDS("else ");
         _handlebars_ast_to_string_path_params_hash(block->node.block.path,
@@ -649,7 +659,7 @@ static void _handlebars_ast_to_string_else(
             _handlebars_ast_to_string_else(block->node.block.inverse, block->node.block.inverse_strip, ctx);
         }
     } else {
-        __APPENDS("{{");
+        _handlebars_ast_to_string_open(ctx);
         __APPEND_STRIP_LEFT(strip);
         __APPENDS("^");
         __APPEND_STRIP_RIGHT(strip);
@@ -667,7 +677,7 @@ static void _handlebars_ast_to_string_block(struct handlebars_ast_node * ast_nod
     struct handlebars_ast_node * inverse = is_inverted ? ast_node->node.block.program : ast_node->node.block.inverse;
 
     // Sexpr
-    __APPENDS("{{");
+    _handlebars_ast_to_string_open(ctx);
     if (is_raw) { __APPENDS("{{"); }
     __APPEND_STRIP_LEFT(ast_node->node.block.open_strip);
     if( is_inverted ) {
@@ -701,7 +711,7 @@ static void _handlebars_ast_to_string_block(struct handlebars_ast_node * ast_nod
 
     // end
     if (is_raw) { __APPENDS("{{"); }
-    __APPENDS("{{");
+    _handlebars_ast_to_string_open(ctx);
     __APPEND_STRIP_LEFT(ast_node->node.block.close_strip);
     __APPENDS("/");
     _handlebars_ast_to_string_path_params_hash(ast_node->node.block.path, NULL, NULL, ctx);
@@ -719,7 +729,7 @@ static void _handlebars_ast_to_string_partial(struct handlebars_ast_node * ast_n
 
     assert(ast_node->node.partial.name != NULL);
 
-    __APPENDS("{{");
+    _handlebars_ast_to_string_open(ctx);
     __APPEND_STRIP_LEFT(ast_node->strip);
     __APPENDS(">");
 
@@ -748,7 +758,7 @@ static void _handlebars_ast_to_string_partial_block(struct handlebars_ast_node *
     ctx->in_partial = true;
 
     // Sexpr
-    __APPENDS("{{");
+    _handlebars_ast_to_string_open(ctx);
     __APPEND_STRIP_LEFT(ast_node->node.partial_block.open_strip);
     __APPENDS("#> ");
     _handlebars_ast_to_string_path_params_hash(ast_node->node.partial_block.path,
@@ -762,7 +772,7 @@ static void _handlebars_ast_to_string_partial_block(struct handlebars_ast_node *
     }
 
     // end
-    __APPENDS("{{");
+    _handlebars_ast_to_string_open(ctx);
     __APPEND_STRIP_LEFT(ast_node->node.partial_block.close_strip);
     __APPENDS("/");
     _handlebars_ast_to_string(ast_node->node.partial_block.path, ctx);
@@ -788,7 +798,7 @@ static void _handlebars_ast_to_string_content(struct handlebars_ast_node * ast_n
 
 static void _handlebars_ast_to_string_comment(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx)
 {
-    __APPENDS("{{");
+    _handlebars_ast_to_string_open(ctx);
     __APPEND_STRIP_LEFT(ast_node->strip);
     __APPENDS("!");
     if (ast_node->node.comment.is_long) {
-- 
2.43.0


From 07b523eddb7c7723909ad6b0381b3d71f6be4fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:44:48 +0000
Subject: [PATCH 079/110] fix: the source of a partial has all of its arguments

---
 src/handlebars_ast_printer.c | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index fe7dec8..1dccb99 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -733,18 +733,8 @@ static void _handlebars_ast_to_string_partial(struct handlebars_ast_node * ast_n
     __APPEND_STRIP_LEFT(ast_node->strip);
     __APPENDS(">");
 
-    __PRINT(ast_node->node.partial.name);
-
-   if( ast_node->node.partial.params != NULL &&
-            handlebars_ast_list_count(ast_node->node.partial.params) ) {
-        __APPENDS(" ");
-        __PRINT(ast_node->node.partial.params->first->data);
-    }
-
-    if( ast_node->node.partial.hash ) {
-        __APPENDS(" ");
-        __PRINT(ast_node->node.partial.hash);
-    }
+    _handlebars_ast_to_string_path_params_hash(ast_node->node.partial.name,
+            ast_node->node.partial.params, ast_node->node.partial.hash, ctx);
 
     __APPEND_STRIP_RIGHT(ast_node->strip);
     __APPENDS("}}");
-- 
2.43.0


From d683e42a386a686d22ee02bfb9c1050b0f3c433a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:50 +0000
Subject: [PATCH 080/110] fix: the print of an opcode shows strings with a NUL
 in them in full

---
 src/handlebars_opcode_printer.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_opcode_printer.c b/src/handlebars_opcode_printer.c
index 5737bbf..5aca988 100644
--- a/src/handlebars_opcode_printer.c
+++ b/src/handlebars_opcode_printer.c
@@ -84,7 +84,9 @@ struct handlebars_string * handlebars_operand_print_append(
             break;
         case handlebars_operand_type_string:
             tmp = handlebars_string_addcslashes(context, operand->data.string.string, HBS_STRL("\r\n\t"));
-            string = handlebars_string_asprintf_append(context, string, "[STRING:%.*s]", (int) hbs_str_len(tmp), hbs_str_val(tmp));
+            string = handlebars_string_append(context, string, HBS_STRL("[STRING:"));
+            string = handlebars_string_append_str(context, string, tmp);
+            string = handlebars_string_append(context, string, HBS_STRL("]"));
             handlebars_talloc_free(tmp);
             break;
         case handlebars_operand_type_array: {
-- 
2.43.0


From 4aec80a713f3bc478338c8754d9dc9eb17b3c264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:31 +0000
Subject: [PATCH 081/110] fix: the in-memory cache does not return entries
 older than the maximum age

---
 src/handlebars_cache_simple.c | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_cache_simple.c b/src/handlebars_cache_simple.c
index 6bf3a56..a902bce 100644
--- a/src/handlebars_cache_simple.c
+++ b/src/handlebars_cache_simple.c
@@ -139,6 +139,22 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     struct handlebars_map * map = intern->map;
     struct handlebars_value * value = handlebars_map_find(map, tmpl);
     struct handlebars_module * module = NULL;
+    time_t now;
+
+    time(&now);
+
+    // Check if it's too old
+    if( value && cache->max_age >= 0 ) {
+        module = handlebars_value_get_ptr(value, struct handlebars_module);
+        if( difftime(now, module->ts) >= cache->max_age ) {
+            intern->stat.current_entries--;
+            intern->stat.current_size -= module->size;
+            intern->map = handlebars_map_remove(map, tmpl);
+            value = NULL;
+        }
+        module = NULL;
+    }
+
     if( value ) {
         // module = (struct handlebars_module *) value->v.ptr;
         module = handlebars_value_get_ptr(value, struct handlebars_module);
@@ -151,7 +167,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
         pin->next = intern->pins;
         intern->pins = pin;
 
-        time(&module->ts);
+        module->ts = now;
         intern->stat.hits++;
     } else {
         intern->stat.misses++;
-- 
2.43.0


From d1268191472a37ecef6bc8cd6036ab0c0a3e7343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:07 +0000
Subject: [PATCH 082/110] fix: the database cache tells templates with the same
 hash apart

---
 src/handlebars_cache_lmdb.c | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index 8866c56..75219b9 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -64,7 +64,8 @@ static int cache_dtor(struct handlebars_cache * cache)
     return 0;
 }
 
-static void make_key(struct handlebars_cache_lmdb * intern, struct handlebars_string * tmpl, MDB_val * key, char * tmp, size_t tmp_size)
+// Returns the length of the part of the template that is not in the key, it's stored after the data
+static size_t make_key(struct handlebars_cache_lmdb * intern, struct handlebars_string * tmpl, MDB_val * key, char * tmp, size_t tmp_size)
 {
     // The key is stored with the trailing NUL, if it fits
     if( hbs_str_len(tmpl) >= (size_t) mdb_env_get_maxkeysize(intern->env) ) {
@@ -77,9 +78,11 @@ static void make_key(struct handlebars_cache_lmdb * intern, struct handlebars_st
         );
         key->mv_size = strlen(tmp);
         key->mv_data = tmp;
+        return hbs_str_len(tmpl);
     } else {
         key->mv_size = hbs_str_len(tmpl) + 1;
         key->mv_data = hbs_str_val(tmpl);
+        return 0;
     }
 }
 
@@ -149,6 +152,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     struct handlebars_module * module;
     time_t now;
     size_t size;
+    size_t rest;
 
     time(&now);
 
@@ -159,7 +163,7 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     if( err != 0 ) goto error;
 
     // Make key
-    make_key(intern, tmpl, &key, tmp, sizeof(tmp));
+    rest = make_key(intern, tmpl, &key, tmp, sizeof(tmp));
 
     // Fetch data
     err = mdb_get(txn, dbi, &key, &data);
@@ -185,7 +189,12 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     mdb_txn_abort(txn);
 
     // A truncated entry can't be verified
-    if( size < HANDLEBARS_MODULE_SIZE || module->size != size ) {
+    if( size < HANDLEBARS_MODULE_SIZE + rest || module->size != size - rest ) {
+        goto miss;
+    }
+
+    // Another template may have the same hash
+    if( memcmp((char *) module + module->size, hbs_str_val(tmpl), rest) != 0 ) {
         goto miss;
     }
 
@@ -235,6 +244,7 @@ static void cache_add(
     MDB_val data;
     char tmp[256];
     struct handlebars_module * module_copy;
+    size_t rest;
 
     err = mdb_txn_begin(intern->env, NULL, 0, &txn);
     HANDLE_RC(err);
@@ -243,10 +253,10 @@ static void cache_add(
     if( err != 0 ) goto error;
 
     // Make key
-    make_key(intern, tmpl, &key, tmp, sizeof(tmp));
+    rest = make_key(intern, tmpl, &key, tmp, sizeof(tmp));
 
     // Normalize pointers
-    module_copy = handlebars_talloc_size(CONTEXT, module->size);
+    module_copy = handlebars_talloc_size(CONTEXT, module->size + rest);
     if( module_copy == NULL ) {
         mdb_txn_abort(txn);
         HANDLEBARS_MEMCHECK(module_copy, CONTEXT);
@@ -254,12 +264,13 @@ static void cache_add(
     }
     talloc_set_type(module_copy, struct handlebars_module);
     memcpy(module_copy, module, module->size);
+    memcpy((char *) module_copy + module->size, hbs_str_val(tmpl), rest);
     handlebars_module_patch_pointers(module_copy);
     handlebars_module_normalize_pointers(module_copy, (void *) 0);
     handlebars_module_generate_hash(module_copy);
 
     // Make data
-    data.mv_size = module_copy->size;
+    data.mv_size = module_copy->size + rest;
     data.mv_data = module_copy;
 
     // Store
-- 
2.43.0


From 9c43bb62c6fe650f901d3e734750c30722114689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:13 +0000
Subject: [PATCH 083/110] fix: creating shared memory caches in several threads
 at the same time is not a data race

---
 src/handlebars_cache_mmap.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_cache_mmap.c b/src/handlebars_cache_mmap.c
index f887376..22839cb 100644
--- a/src/handlebars_cache_mmap.c
+++ b/src/handlebars_cache_mmap.c
@@ -83,7 +83,6 @@ static inline bool exchange(bool * var, bool val)
 
 static const char head[] = "handlebars shared opcode cache";
 static const size_t PADDING = 1;
-static size_t page_size;
 
 struct handlebars_cache_mmap {
     //! Header
@@ -462,9 +461,9 @@ struct handlebars_cache * handlebars_cache_mmap_ctor(
 
     // Get page size
 #if defined(_SC_PAGESIZE)
-    page_size = (size_t) sysconf(_SC_PAGESIZE);
+    size_t page_size = (size_t) sysconf(_SC_PAGESIZE);
 #elif defined(PAGE_SIZE)
-    page_size = PAGE_SIZE;
+    size_t page_size = PAGE_SIZE;
 #else
 #error "Unable to query page size"
 #endif
-- 
2.43.0


From 63ea62cd102fecbc072fd50b7e42d1d0ccf0ab2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:54 +0000
Subject: [PATCH 084/110] fix: the database cache works after processes were
 killed and with many processes

---
 src/handlebars_cache_lmdb.c | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_cache_lmdb.c b/src/handlebars_cache_lmdb.c
index 75219b9..3f4c5aa 100644
--- a/src/handlebars_cache_lmdb.c
+++ b/src/handlebars_cache_lmdb.c
@@ -101,6 +101,9 @@ static int cache_gc(struct handlebars_cache * cache)
 
     time(&now);
 
+    // Processes that were killed while reading keep pages from being reused
+    mdb_reader_check(intern->env, NULL);
+
     err = mdb_txn_begin(intern->env, NULL, 0, &txn);
     HANDLE_RC(err);
 
@@ -157,6 +160,16 @@ static struct handlebars_module * cache_find(struct handlebars_cache * cache, st
     time(&now);
 
     err = mdb_txn_begin(intern->env, NULL, MDB_RDONLY, &txn);
+    if( err == MDB_READERS_FULL ) {
+        // Processes that were killed keep their slot until someone clears it
+        mdb_reader_check(intern->env, NULL);
+        err = mdb_txn_begin(intern->env, NULL, MDB_RDONLY, &txn);
+    }
+    // It's only a cache - if there are too many processes, go on without
+    if( err == MDB_READERS_FULL ) {
+        intern->stat.misses++;
+        return NULL;
+    }
     HANDLE_RC(err);
 
     err = mdb_dbi_open(txn, NULL, MDB_CREATE, &dbi);
@@ -280,7 +293,7 @@ static void cache_add(
 
     // Commit
     err = mdb_txn_commit(txn);
-    if( err == MDB_MAP_FULL ) return;
+    if( err == MDB_MAP_FULL ) goto full;
     HANDLE_RC(err);
 
     return;
@@ -288,8 +301,13 @@ static void cache_add(
 error:
     mdb_txn_abort(txn);
     // It's only a cache - if there is no room left, go on without
-    if( err == MDB_MAP_FULL ) return;
+    if( err == MDB_MAP_FULL ) goto full;
     HANDLE_RC(err);
+    return;
+
+full:
+    // Processes that were killed while reading keep pages from being reused
+    mdb_reader_check(intern->env, NULL);
 }
 
 static void cache_release(struct handlebars_cache * cache, struct handlebars_string * tmpl, struct handlebars_module * module)
@@ -330,6 +348,9 @@ static void cache_reset(struct handlebars_cache * cache)
     MDB_txn *txn;
     MDB_dbi dbi;
 
+    // Processes that were killed while reading keep pages from being reused
+    mdb_reader_check(intern->env, NULL);
+
     err = mdb_txn_begin(intern->env, NULL, 0, &txn);
     HANDLE_RC(err);
 
-- 
2.43.0


From 2b06d478261700639b5ef09a0de811bfcca934a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:01 +0000
Subject: [PATCH 085/110] fix: the source of paths and comments that end like
 something else

---
 src/handlebars_ast_printer.c | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_ast_printer.c b/src/handlebars_ast_printer.c
index 1dccb99..bfba93f 100644
--- a/src/handlebars_ast_printer.c
+++ b/src/handlebars_ast_printer.c
@@ -790,12 +790,15 @@ static void _handlebars_ast_to_string_comment(struct handlebars_ast_node * ast_n
 {
     _handlebars_ast_to_string_open(ctx);
     __APPEND_STRIP_LEFT(ast_node->strip);
+    // Two dashes at the end of any comment are not part of it
+    size_t len = hbs_str_len(ast_node->node.comment.value);
+    bool is_long = ast_node->node.comment.is_long || (len > 0 && hbs_str_val(ast_node->node.comment.value)[len - 1] == '-');
     __APPENDS("!");
-    if (ast_node->node.comment.is_long) {
+    if (is_long) {
         __APPENDS("--");
     }
     __APPEND_STR(ast_node->node.comment.value);
-    if (ast_node->node.comment.is_long) {
+    if (is_long) {
         __APPENDS("--");
     }
     __APPEND_STRIP_RIGHT(ast_node->strip);
@@ -869,6 +872,18 @@ static void _handlebars_ast_to_string_hash(struct handlebars_ast_node * ast_node
 
 
 
+static bool _handlebars_ast_to_string_is_literal(struct handlebars_string * string)
+{
+    const char * p = hbs_str_val(string);
+
+    if( 0 == strcmp(p, "null") || 0 == strcmp(p, "undefined") || 0 == strcmp(p, "true") || 0 == strcmp(p, "false") ) {
+        return true;
+    }
+
+    p += *p == '-';
+    return *p != '\0' && strspn(p, "0123456789") == strlen(p);
+}
+
 static void _handlebars_ast_to_string_path(struct handlebars_ast_node * ast_node, struct handlebars_ast_printer_context * ctx, bool first_only)
 {
     struct handlebars_ast_list * ast_list = ast_node->node.path.parts;
@@ -896,7 +911,14 @@ static void _handlebars_ast_to_string_path(struct handlebars_ast_node * ast_node
             if( segment->separator ) {
                 __APPEND_STR(segment->separator);
             }
-            __APPEND_STR(segment->original);
+            if( !item->next && segment->original && _handlebars_ast_to_string_is_literal(segment->original) ) {
+                // It was followed by a separator, it would be read as a literal by itself
+                __APPENDS("[");
+                __APPEND_STR(segment->original);
+                __APPENDS("]");
+            } else {
+                __APPEND_STR(segment->original);
+            }
         }
     } else {
         if( ast_node->node.path.data ) {
-- 
2.43.0


From 4e36813dc5ab7c13af28783ed18cb45c4d270947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:30 +0000
Subject: [PATCH 086/110] fix: the command line reads pipes, refuses
 directories, and takes files with NUL bytes in full

---
 bin/handlebarsc.c | 59 ++++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 26c5b92..9176b4f 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -284,24 +284,38 @@ start:
     goto start;
 }
 
-static char * read_stdin(void)
+static char * read_stream(FILE * in)
 {
-    char buffer[__BUFF_SIZE];
-    FILE * in = stdin;
-    char * buf = talloc_strdup(root, "");
+    size_t size = 0;
+    size_t capacity = __BUFF_SIZE;
+    size_t read;
+    char * buf = talloc_array(root, char, capacity + 1);
+
+    // The size is not known in advance, it may be a pipe
+    while( buf && (read = fread(buf + size, 1, capacity - size, in)) > 0 ) {
+        size += read;
+        if( size == capacity ) {
+            capacity *= 2;
+            buf = talloc_realloc(root, buf, char, capacity + 1);
+        }
+    }
 
-    // Read
-    while( fgets(buffer, __BUFF_SIZE, in) != NULL ) {
-        buf = talloc_strdup_append_buffer(buf, buffer);
+    if( buf ) {
+        buf = talloc_realloc(root, buf, char, size + 1);
     }
 
+    if( !buf || ferror(in) ) {
+        return NULL;
+    }
+
+    buf[size] = 0;
+
     return buf;
 }
 
 static char * file_get_contents(char * filename)
 {
     FILE * f;
-    long size;
     char * buf;
 
     // No input file?
@@ -309,26 +323,23 @@ static char * file_get_contents(char * filename)
         fprintf(stderr, "No input file!\n");
         exit(1);
     } else if( strcmp(filename, "-") == 0 ) {
-        return read_stdin();
+        f = stdin;
+    } else {
+        f = fopen(filename, "rb");
     }
 
-    f = fopen(filename, "rb");
     if( !f ) {
         fprintf(stderr, "Failed to open file: %s\n", filename);
         exit(1);
     }
 
-    fseek(f, 0, SEEK_END);
-    size = ftell(f);
-    fseek(f, 0, SEEK_SET);
-
-    buf = talloc_array(root, char, size + 1);
-    size_t read = fread(buf, size, 1, f);
-    fclose(f);
+    buf = read_stream(f);
 
-    buf[size] = 0;
+    if( f != stdin ) {
+        fclose(f);
+    }
 
-    if (!read) {
+    if( !buf || (f != stdin && talloc_array_length(buf) <= 1) ) {
         fprintf(stderr, "Failed to read file: %s\n", filename);
         exit(1);
     }
@@ -465,7 +476,7 @@ static int do_lex(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -508,7 +519,7 @@ static int do_parse(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -554,7 +565,7 @@ static int do_compile(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -603,7 +614,7 @@ static int do_module(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(ctx), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
@@ -668,7 +679,7 @@ static int do_execute(void)
 
     // Read
     readInput();
-    tmpl = handlebars_string_ctor(HBSCTX(parser), input_buf, strlen(input_buf));
+    tmpl = handlebars_string_ctor(HBSCTX(parser), input_buf, input_buf_length);
 
     // Preprocess
     if( compiler_flags & handlebars_compiler_flag_compat ) {
-- 
2.43.0


From 44bb0fd2ad3283ed20f429c3fc3bdb531de6ca0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:30 +0000
Subject: [PATCH 087/110] fix: the command line reads data files with short
 names and with empty values as YAML

---
 bin/handlebarsc.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 9176b4f..abde5b0 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -693,16 +693,15 @@ static int do_execute(void)
         char * input_str = file_get_contents(input_data_name);
         size_t input_str_size = talloc_array_length(input_str);
         if (input_str && input_str_size > 1) {
-            if (handlebars_value_is_empty(input) && input_data_name_len > 5 && (0 == strcmp(input_data_name + input_data_name_len - 5, ".yaml") ||
-                    0 == strcmp(input_data_name + input_data_name_len - 4, ".yml"))) {
+            if ((input_data_name_len >= 5 && 0 == strcmp(input_data_name + input_data_name_len - 5, ".yaml")) ||
+                    (input_data_name_len >= 4 && 0 == strcmp(input_data_name + input_data_name_len - 4, ".yml"))) {
 #ifdef HANDLEBARS_HAVE_YAML
                 handlebars_value_init_yaml_string(ctx, input, input_str);
 #else
                 fprintf(stderr, "Failed to process input data: YAML support is disabled");
                 exit(1);
 #endif
-            }
-            if (handlebars_value_is_empty(input)) {
+            } else {
 #ifdef HANDLEBARS_HAVE_JSON
                 // assume json
                 handlebars_value_init_json_stringl(ctx, input, input_str, input_str_size - 1);
-- 
2.43.0


From ef7d71e694d45713eb20af5a267e83a8f2dac402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:54:30 +0000
Subject: [PATCH 088/110] fix: an unknown option of the command line is an
 error instead of an assertion

---
 bin/handlebarsc.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index abde5b0..d2b2e11 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -278,6 +278,10 @@ start:
             pretty_print = true;
             break;
 
+        case '?':
+            // getopt printed what is wrong
+            exit(1);
+
         default: assert(0); break; // LCOV_EXCL_LINE
     }
 
-- 
2.43.0


From 139ec954ea89d7138043c80ca5d2a66ab8f4690c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:05 +0000
Subject: [PATCH 089/110] fix: JSON documents that are just a number or a
 literal are read, those with something behind them are refused

---
 src/handlebars_json.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 2e1cba4..5c10183 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -20,6 +20,7 @@
 #endif
 
 #include <assert.h>
+#include <ctype.h>
 #include <string.h>
 #include <talloc.h>
 
@@ -332,6 +333,19 @@ static struct json_object *json_tokener_parse_verbose_length(const char *str, si
     }
 
 	obj = json_tokener_parse_ex(tok, str, length);
+	if (tok->err == json_tokener_continue) {
+		// A number or a literal may go on, until there is a NUL
+		obj = json_tokener_parse_ex(tok, "", 1);
+	} else if (tok->err == json_tokener_success) {
+		// There must not be anything behind the document
+		size_t end = tok->char_offset;
+		while (end < length && (str[end] == '\0' || isspace((unsigned char) str[end]))) {
+			end++;
+		}
+		if (end < length) {
+			tok->err = json_tokener_error_parse_unexpected;
+		}
+	}
 	*error = tok->err;
 	if (tok->err != json_tokener_success) {
 		if (obj != NULL) {
-- 
2.43.0


From c3187d10e8afc47bdaa46633f4edb853eabd10fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:05 +0000
Subject: [PATCH 090/110] fix: a name with a NUL in it does not find what is
 named like the part in front of it (JSON)

---
 src/handlebars_json.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/handlebars_json.c b/src/handlebars_json.c
index 5c10183..9fc613f 100644
--- a/src/handlebars_json.c
+++ b/src/handlebars_json.c
@@ -147,6 +147,10 @@ static struct handlebars_value * hbs_json_map_find(struct handlebars_value * val
 {
     struct handlebars_json * intern = GET_INTERN_V(value);
     struct json_object * item = NULL;
+    // The names in a JSON object end at the first NUL
+    if( strlen(hbs_str_val(key)) != hbs_str_len(key) ) {
+        return NULL;
+    }
     if( !json_object_object_get_ex(intern->object, hbs_str_val(key), &item) ) {
         return NULL;
     }
-- 
2.43.0


From 24a6454c3c04d831eaead65dba0bf2cec984b77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:05 +0000
Subject: [PATCH 091/110] fix: a partial with a NUL in its name does not find
 the file named like the part in front of it

---
 src/handlebars_partial_loader.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index 39e5cf8..13c9751 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -92,6 +92,11 @@ static struct handlebars_value * hbs_partial_loader_map_find(struct handlebars_v
         return rv;
     }
 
+    // The name of a file can't have a NUL in it
+    if (strlen(hbs_str_val(key)) != hbs_str_len(key)) {
+        return NULL;
+    }
+
     struct handlebars_string *filename = handlebars_string_copy_ctor(intern->user.ctx, intern->base_path);
     filename = handlebars_string_append(intern->user.ctx, filename, HBS_STRL("/"));
     filename = handlebars_string_append_str(intern->user.ctx, filename, key);
-- 
2.43.0


From 52b0539d62ccae99757ce6c18b48f55950876d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:24 +0000
Subject: [PATCH 092/110] fix: YAML documents with malformed text behind the
 first document are refused

---
 src/handlebars_yaml.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/handlebars_yaml.c b/src/handlebars_yaml.c
index e911c39..39865f5 100644
--- a/src/handlebars_yaml.c
+++ b/src/handlebars_yaml.c
@@ -136,6 +136,17 @@ void handlebars_value_init_yaml_string(struct handlebars_context * ctx, struct h
     yaml_parser_set_input_string(&yctx->parser, (unsigned char *) yaml, strlen(yaml));
     yaml_parser_load(&yctx->parser, &yctx->document);
     yaml_node_t * node = yaml_document_get_root_node(&yctx->document);
+    bool more = node != NULL;
+    while( more ) {
+        // Only the first document is used, but what follows it has to be well-formed too
+        yaml_document_t next;
+        if( !yaml_parser_load(&yctx->parser, &next) ) {
+            node = NULL;
+            break;
+        }
+        more = yaml_document_get_root_node(&next) != NULL;
+        yaml_document_delete(&next);
+    }
     if( node ) {
         handlebars_value_init_yaml_node(ctx, value, &yctx->document, node);
     } else {
-- 
2.43.0


From 1bcbedd1ad8bbb92d460cf2eeb59b36eac0126af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:00 +0000
Subject: [PATCH 093/110] fix: the command line fails when its output can't be
 written

---
 bin/handlebarsc.c | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index d2b2e11..8e126ad 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -762,6 +762,15 @@ static int do_execute(void)
     return 0;
 }
 
+static int finish(int status)
+{
+    if( (fflush(stdout) != 0 || ferror(stdout)) && status == 0 ) {
+        fprintf(stderr, "Failed to write output\n");
+        return 1;
+    }
+    return status;
+}
+
 int main(int argc, char * argv[])
 {
 #ifdef HANDLEBARS_HAVE_VALGRIND
@@ -793,14 +802,14 @@ int main(int argc, char * argv[])
     }
 
     switch( mode ) {
-        case handlebarsc_mode_version: return do_version();
-        case handlebarsc_mode_lex: return do_lex();
-        case handlebarsc_mode_parse: return do_parse();
-        case handlebarsc_mode_compile: return do_compile();
-        case handlebarsc_mode_module: return do_module();
-        case handlebarsc_mode_execute: return do_execute();
-        case handlebarsc_mode_debuginfo: return do_debuginfo();
-        case handlebarsc_mode_usage: return do_usage();
+        case handlebarsc_mode_version: return finish(do_version());
+        case handlebarsc_mode_lex: return finish(do_lex());
+        case handlebarsc_mode_parse: return finish(do_parse());
+        case handlebarsc_mode_compile: return finish(do_compile());
+        case handlebarsc_mode_module: return finish(do_module());
+        case handlebarsc_mode_execute: return finish(do_execute());
+        case handlebarsc_mode_debuginfo: return finish(do_debuginfo());
+        case handlebarsc_mode_usage: return finish(do_usage());
 
         // LCOV_EXCL_START
         default:
-- 
2.43.0


From a1823559cc3ceb6cb47beaacd1f4145b2ce6822a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:00 +0000
Subject: [PATCH 094/110] fix: the command line refuses YAML documents with a
 NUL in them instead of using a part

---
 bin/handlebarsc.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bin/handlebarsc.c b/bin/handlebarsc.c
index 8e126ad..5f7b73e 100644
--- a/bin/handlebarsc.c
+++ b/bin/handlebarsc.c
@@ -700,6 +700,9 @@ static int do_execute(void)
             if ((input_data_name_len >= 5 && 0 == strcmp(input_data_name + input_data_name_len - 5, ".yaml")) ||
                     (input_data_name_len >= 4 && 0 == strcmp(input_data_name + input_data_name_len - 4, ".yml"))) {
 #ifdef HANDLEBARS_HAVE_YAML
+                if (strlen(input_str) != input_str_size - 1) {
+                    handlebars_throw(ctx, HANDLEBARS_ERROR, "YAML Parse Error: control characters are not allowed");
+                }
                 handlebars_value_init_yaml_string(ctx, input, input_str);
 #else
                 fprintf(stderr, "Failed to process input data: YAML support is disabled");
-- 
2.43.0


From b95fa636ec4c1d53c130f77bcc7e71a55a21dc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:08 +0000
Subject: [PATCH 095/110] fix: a string that starts with a zero and a NUL is
 not empty

---
 src/handlebars_value.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 1fa7aef..0ed623c 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -247,7 +247,7 @@ bool handlebars_value_get_boolval(struct handlebars_value * value)
         case HANDLEBARS_VALUE_TYPE_INTEGER:
             return value->v.lval != 0;
         case HANDLEBARS_VALUE_TYPE_STRING:
-            return hbs_str_len(value->v.string) != 0 && strcmp(hbs_str_val(value->v.string), "0") != 0;
+            return hbs_str_len(value->v.string) != 0 && !hbs_str_eq_strl(value->v.string, HBS_STRL("0"));
         case HANDLEBARS_VALUE_TYPE_ARRAY:
             return handlebars_stack_count(value->v.stack) != 0;
         case HANDLEBARS_VALUE_TYPE_MAP:
-- 
2.43.0


From 85d087660bcf89692a44bf1ec0cc3622b06dca1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:08 +0000
Subject: [PATCH 096/110] fix: lists and maps take themselves and parts of
 themselves as members, and a refused write leaves shared lists alone

---
 src/handlebars_map.c   | 17 ++++++++++++++---
 src/handlebars_stack.c | 31 ++++++++++++++++++++-----------
 2 files changed, 34 insertions(+), 14 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index fc78706..5eeb983 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -407,6 +407,10 @@ struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct h
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
     }
 
+    // The value may be part of this map, or what holds it
+    HANDLEBARS_VALUE_DECL(tmp);
+    handlebars_value_value(tmp, value);
+
     // Rehash
     map = handlebars_map_rehash(map, false);
 
@@ -417,7 +421,8 @@ struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct h
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
     }
 
-    map_add_at_table_offset(map, key, value, o.empty_offset);
+    map_add_at_table_offset(map, key, tmp, o.empty_offset);
+    HANDLEBARS_VALUE_UNDECL(tmp);
 
     return map;
 }
@@ -462,6 +467,10 @@ struct handlebars_value * handlebars_map_find(struct handlebars_map * map, struc
 
 struct handlebars_map * handlebars_map_update(struct handlebars_map * map, struct handlebars_string * key, struct handlebars_value * value)
 {
+    // The value may be part of this map, or what holds it
+    HANDLEBARS_VALUE_DECL(tmp);
+    handlebars_value_value(tmp, value);
+
     // Rehash
     map = handlebars_map_rehash(map, false);
 
@@ -469,7 +478,8 @@ struct handlebars_map * handlebars_map_update(struct handlebars_map * map, struc
     struct ht_find_result o = map_find_entry(map, key);
     struct handlebars_map_entry * entry = o.entry;
     if (entry) {
-        handlebars_value_value(&entry->value, value);
+        handlebars_value_value(&entry->value, tmp);
+        HANDLEBARS_VALUE_UNDECL(tmp);
         return map;
     }
 
@@ -478,7 +488,8 @@ struct handlebars_map * handlebars_map_update(struct handlebars_map * map, struc
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to update to hash table");
     }
 
-    map_add_at_table_offset(map, key, value, o.empty_offset);
+    map_add_at_table_offset(map, key, tmp, o.empty_offset);
+    HANDLEBARS_VALUE_UNDECL(tmp);
 
     return map;
 }
diff --git a/src/handlebars_stack.c b/src/handlebars_stack.c
index 10c41b7..9b18689 100644
--- a/src/handlebars_stack.c
+++ b/src/handlebars_stack.c
@@ -185,17 +185,20 @@ struct handlebars_stack * handlebars_stack_push(struct handlebars_stack * stack,
     assert(stack != NULL);
     assert(value != NULL);
 
+    // Cannot resize if this stack was stack allocated
+    if( stack->capacity <= stack->i && !(stack->flags & HANDLEBARS_STACK_TALLOCATED) ) {
+        handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Stack overflow");
+    }
+
+    // The value may be part of this stack, or what holds it
+    HANDLEBARS_VALUE_DECL(tmp);
+    handlebars_value_value(tmp, value);
+
     if( stack->capacity > stack->i ) {
         // Separate if refcount > 1
         stack = stack_separate(stack);
     } else {
         // Resize array if necessary
-
-        // Cannot resize if this stack was stack allocated
-        if (!(stack->flags & HANDLEBARS_STACK_TALLOCATED)) {
-            handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Stack overflow");
-        }
-
         size_t capacity = (stack->capacity | 3) * 3 / 2;
         struct handlebars_stack * prev_stack = stack;
         stack = handlebars_stack_copy_ctor(prev_stack, capacity);
@@ -210,8 +213,9 @@ struct handlebars_stack * handlebars_stack_push(struct handlebars_stack * stack,
     }
 
     handlebars_value_init(&stack->v[stack->i]);
-    handlebars_value_value(&stack->v[stack->i], value);
+    handlebars_value_value(&stack->v[stack->i], tmp);
     stack->i++;
+    HANDLEBARS_VALUE_UNDECL(tmp);
 
     return stack;
 }
@@ -267,9 +271,6 @@ struct handlebars_stack * handlebars_stack_set(struct handlebars_stack * stack,
         return handlebars_stack_push(stack, value);
     }
 
-    // Separate if refcount > 1
-    stack = stack_separate(stack);
-
     // Out-of-bounds
     if( offset >= stack->i ) {
         handlebars_throw(stack->ctx, HANDLEBARS_STACK_OVERFLOW, "Out-of-bounds %zu/%zu", offset, stack->i);
@@ -285,7 +286,15 @@ struct handlebars_stack * handlebars_stack_set(struct handlebars_stack * stack,
         return stack;
     }
 
-    handlebars_value_value(&stack->v[offset], value);
+    // The value may be part of this stack, or what holds it
+    HANDLEBARS_VALUE_DECL(tmp);
+    handlebars_value_value(tmp, value);
+
+    // Separate if refcount > 1
+    stack = stack_separate(stack);
+
+    handlebars_value_value(&stack->v[offset], tmp);
+    HANDLEBARS_VALUE_UNDECL(tmp);
 
     return stack;
 }
-- 
2.43.0


From edad4b180d86198e551c7929a1ab89619ebb7b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:16:54 +0000
Subject: [PATCH 097/110] fix: compiling leaves the parse tree as it was

---
 src/handlebars_compiler.c | 63 +++++++++++++++++++++++++--------------
 src/handlebars_opcodes.c  |  3 +-
 2 files changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 7fe5178..ebd8697 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -618,7 +618,17 @@ static inline struct handlebars_ast_list * handlebars_compiler_setup_full_mustac
     return params;
 }
 
-static inline void handlebars_compiler_transform_literal_to_path(
+// The parse tree is not ours to change
+static inline struct handlebars_ast_node * handlebars_compiler_copy_node(
+        struct handlebars_compiler * compiler,
+        struct handlebars_ast_node * node
+) {
+    struct handlebars_ast_node * copy = talloc_steal(compiler, handlebars_ast_node_ctor(CONTEXT, node->type));
+    memcpy(copy, node, sizeof(struct handlebars_ast_node));
+    return copy;
+}
+
+static inline struct handlebars_ast_node * handlebars_compiler_transform_literal_to_path(
         struct handlebars_compiler * compiler,
         struct handlebars_ast_node * node
 ) {
@@ -633,21 +643,27 @@ static inline void handlebars_compiler_transform_literal_to_path(
 		case HANDLEBARS_AST_NODE_NUMBER:
 		case HANDLEBARS_AST_NODE_STRING:
 			val = handlebars_ast_node_get_string_mode_value(CONTEXT, path);
+			node = handlebars_compiler_copy_node(compiler, node);
+			path = talloc_steal(node, handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PATH));
 			// Make parts
-			part = talloc_steal(node, handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PATH_SEGMENT));
+			part = talloc_steal(path, handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PATH_SEGMENT));
 			part->node.path_segment.part = talloc_steal(part, handlebars_string_copy_ctor(CONTEXT, val));
-			parts = talloc_steal(node, handlebars_ast_list_ctor(CONTEXT));
-		    handlebars_ast_list_append(parts, part);
-		    // Re-jigger node
-		    memset(path, 0, sizeof(struct handlebars_ast_node));
-			path->type = HANDLEBARS_AST_NODE_PATH;
-			path->node.path.original = talloc_steal(part, handlebars_string_copy_ctor(CONTEXT, val));
-			path->node.path.parts = talloc_steal(path, parts);
+			parts = talloc_steal(path, handlebars_ast_list_ctor(CONTEXT));
+			handlebars_ast_list_append(parts, part);
+			path->node.path.original = talloc_steal(path, handlebars_string_copy_ctor(CONTEXT, val));
+			path->node.path.parts = parts;
+			switch( node->type ) {
+				case HANDLEBARS_AST_NODE_BLOCK: node->node.block.path = path; break;
+				case HANDLEBARS_AST_NODE_MUSTACHE: node->node.mustache.path = path; break;
+				case HANDLEBARS_AST_NODE_RAW_BLOCK: node->node.raw_block.path = path; break;
+				default: assert(node->type == HANDLEBARS_AST_NODE_SEXPR); node->node.sexpr.path = path; break;
+			}
 			break;
         default:
             // do nothing
             break;
 	}
+	return node;
 }
 
 static inline bool handlebars_compiler_block_param_index(
@@ -733,16 +749,17 @@ static inline void handlebars_compiler_accept_block(
         struct handlebars_compiler * compiler,
         struct handlebars_ast_node * block
 ) {
-    struct handlebars_ast_node * sexpr = block; // cough
+    struct handlebars_ast_node * sexpr; // cough
     struct handlebars_ast_node * program = block->node.block.program;
     struct handlebars_ast_node * inverse = block->node.block.inverse;
-    struct handlebars_ast_node * path = block->node.block.path;
+    struct handlebars_ast_node * path;
     long programGuid = -1;
     long inverseGuid = -1;
 
     assert(compiler != NULL);
 
-    handlebars_compiler_transform_literal_to_path(compiler, block);
+    sexpr = block = handlebars_compiler_transform_literal_to_path(compiler, block);
+    path = block->node.block.path;
 
     programGuid = handlebars_compiler_compile_program(compiler, program);
 
@@ -857,13 +874,12 @@ static inline void _handlebars_compiler_accept_partial(
             __PUSH(opcode);
     		//__OPS(push_literal, "undefined";
     	} else {
-			if( !params ) {
-				params = talloc_steal(node, handlebars_ast_list_ctor(CONTEXT));
-				if( node->type == HANDLEBARS_AST_NODE_PARTIAL ) {
-					node->node.partial.params = params;
-				} else if( node->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
-					node->node.partial_block.params = params;
-				}
+			node = handlebars_compiler_copy_node(compiler, node);
+			params = talloc_steal(node, handlebars_ast_list_ctor(CONTEXT));
+			if( node->type == HANDLEBARS_AST_NODE_PARTIAL ) {
+				node->node.partial.params = params;
+			} else if( node->type == HANDLEBARS_AST_NODE_PARTIAL_BLOCK ) {
+				node->node.partial_block.params = params;
 			}
 			tmp = talloc_steal(params, handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PATH));
 			handlebars_ast_list_append(params, tmp);
@@ -1160,7 +1176,7 @@ static inline void handlebars_compiler_accept_sexpr(
     assert(compiler != NULL);
     assert(sexpr != NULL);
 
-    handlebars_compiler_transform_literal_to_path(compiler, sexpr);
+    sexpr = handlebars_compiler_transform_literal_to_path(compiler, sexpr);
 
     switch( handlebars_compiler_classify_sexpr(compiler, sexpr) ) {
         case SEXPR_HELPER:
@@ -1335,16 +1351,17 @@ static inline void handlebars_compiler_accept_raw_block(
         struct handlebars_compiler * compiler,
         struct handlebars_ast_node * raw_block
 ) {
-    struct handlebars_ast_node * sexpr = raw_block;
+    struct handlebars_ast_node * sexpr;
     struct handlebars_ast_node * program = raw_block->node.raw_block.program;
     struct handlebars_ast_node * inverse = raw_block->node.raw_block.inverse;
-    struct handlebars_ast_node * path = raw_block->node.raw_block.path;
+    struct handlebars_ast_node * path;
     long programGuid;
     long inverseGuid;
 
     assert(compiler != NULL);
 
-    handlebars_compiler_transform_literal_to_path(compiler, raw_block);
+    sexpr = raw_block = handlebars_compiler_transform_literal_to_path(compiler, raw_block);
+    path = raw_block->node.raw_block.path;
 
     programGuid = handlebars_compiler_compile_program(compiler, program);
     inverseGuid = handlebars_compiler_compile_program(compiler, inverse);
diff --git a/src/handlebars_opcodes.c b/src/handlebars_opcodes.c
index dc096fc..899ea54 100644
--- a/src/handlebars_opcodes.c
+++ b/src/handlebars_opcodes.c
@@ -78,7 +78,8 @@ void handlebars_operand_set_stringval(
     assert(operand != NULL);
 
     operand->type = handlebars_operand_type_string;
-    operand->data.string.string = talloc_steal(opcode, string);
+    // The string may belong to the parse tree
+    operand->data.string.string = talloc_steal(opcode, MC(handlebars_string_copy_ctor(context, string)));
 }
 
 void handlebars_operand_set_arrayval(
-- 
2.43.0


From beb62624d950f4ca7f5a7ac82577115ed57b3fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:26:47 +0000
Subject: [PATCH 098/110] fix: a partial loader can be walked over by several
 iterators, and asked meanwhile

---
 src/handlebars_partial_loader.c | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/handlebars_partial_loader.c b/src/handlebars_partial_loader.c
index 13c9751..228c917 100644
--- a/src/handlebars_partial_loader.c
+++ b/src/handlebars_partial_loader.c
@@ -156,16 +156,15 @@ static bool hbs_partial_loader_iterator_next_void(struct handlebars_value_iterat
 
 static bool hbs_partial_loader_iterator_next_map(struct handlebars_value_iterator * it)
 {
-    struct handlebars_partial_loader * intern = GET_INTERN_V(it->value);
-    struct handlebars_map * map = intern->map;
+    struct handlebars_map * map = it->usr;
     struct handlebars_value * tmp;
 
-    assert(it->value != NULL);
-    assert(handlebars_value_get_type(it->value) == HANDLEBARS_VALUE_TYPE_MAP);
+    assert(map != NULL);
 
     if( it->index >= handlebars_map_count(map) - 1 ) {
         handlebars_value_dtor(it->cur);
-        handlebars_map_set_is_in_iteration(map, false);
+        it->usr = NULL;
+        handlebars_map_delref(map);
         return false;
     }
 
@@ -192,10 +191,9 @@ static bool hbs_partial_loader_iterator_init(struct handlebars_value_iterator *
     handlebars_map_get_kv_at_index(map, it->index, &it->key, &tmp);
     handlebars_value_value(it->cur, tmp);
     it->next = &hbs_partial_loader_iterator_next_map;
-    if (handlebars_map_set_is_in_iteration(map, true)) {
-        fprintf(stderr, "Nested map iteration is not currently supported [%s:%d]", __FILE__, __LINE__);
-        abort();
-    }
+    // Hold a reference, partials found in the meantime are added to another map
+    it->usr = map;
+    handlebars_map_addref(map);
 
     return true;
 }
@@ -230,6 +228,7 @@ struct handlebars_value * handlebars_value_partial_loader_init(
     obj->base_path = talloc_steal(obj, handlebars_string_copy_ctor(context, base_path));
     obj->extension = talloc_steal(obj, handlebars_string_copy_ctor(context, extension));
     obj->map = talloc_steal(obj, handlebars_map_ctor(context, 32));
+    handlebars_map_addref(obj->map);
     talloc_set_destructor(obj, partial_loader_dtor);
     handlebars_value_user(rv, (struct handlebars_user *) obj);
     return rv;
-- 
2.43.0


From abdaba1861aa020cf6cbb4326315ec0e8ee4b68c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:19 +0000
Subject: [PATCH 099/110] fix: what a helper returns stands for its call, also
 when it is null

---
 src/handlebars_vm.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 9755e60..124d4fa 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -713,6 +713,8 @@ ACCEPT_FUNCTION(invoke_ambiguous)
     assert(opcode->op1.type == handlebars_operand_type_string);
     assert(opcode->op2.type == handlebars_operand_type_boolean);
 
+    bool is_missing = false;
+
     VM_SETUP_OPTIONS(argc);
     options.name = opcode->op1.data.string.string;
     vm->last_helper = NULL;
@@ -745,12 +747,13 @@ ACCEPT_FUNCTION(invoke_ambiguous)
         struct handlebars_string * tmp_str = handlebars_string_ctor(CONTEXT, HBS_STRL("helperMissing"));
         fn = lookup_helper(vm, tmp_str, fnv);
         handlebars_string_delref(tmp_str);
+        is_missing = true;
     }
 
     result = handlebars_value_call(fn, argc, argv, &options, vm, rv);
 
-    // Before, the null case was only done for helperMissing
-    if (result->type != HANDLEBARS_VALUE_TYPE_NULL) {
+    // What a helper returns stands for the call, unless it is helperMissing
+    if (result->type != HANDLEBARS_VALUE_TYPE_NULL || !is_missing) {
         PUSH(vm->stack, result);
     } else {
         PUSH(vm->stack, value);
-- 
2.43.0


From c35a5de31f7d08b45a9e51dbff89ca21eb1e7376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:45 +0000
Subject: [PATCH 100/110] fix: a zero is a zero, however it is written

---
 src/handlebars_helpers.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 8038051..1839427 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -60,6 +60,15 @@ void handlebars_options_deinit(struct handlebars_options * options)
     }
 }
 
+static inline bool value_is_zero(struct handlebars_value * value)
+{
+    switch( handlebars_value_get_type(value) ) {
+        case HANDLEBARS_VALUE_TYPE_INTEGER: return handlebars_value_get_intval(value) == 0;
+        case HANDLEBARS_VALUE_TYPE_FLOAT: return handlebars_value_get_floatval(value) == 0;
+        default: return false;
+    }
+}
+
 struct handlebars_value * handlebars_builtin_each(HANDLEBARS_HELPER_ARGS)
 {
     struct handlebars_value * context;
@@ -194,7 +203,7 @@ struct handlebars_value * handlebars_builtin_block_helper_missing(HANDLEBARS_HEL
     }
 
     context = &argv[0];
-    is_zero = handlebars_value_get_type(context) == HANDLEBARS_VALUE_TYPE_INTEGER && handlebars_value_get_intval(context) == 0;
+    is_zero = value_is_zero(context);
 
     if( handlebars_value_get_type(context) == HANDLEBARS_VALUE_TYPE_TRUE ) {
         result_str = handlebars_vm_execute_program(vm, options->program, options->scope);
@@ -297,8 +306,7 @@ struct handlebars_value * handlebars_builtin_if(HANDLEBARS_HELPER_ARGS)
 
     if( !handlebars_value_is_empty(conditional) ) {
         program = options->program;
-    } else if( handlebars_value_get_type(conditional) == HANDLEBARS_VALUE_TYPE_INTEGER &&
-            handlebars_value_get_intval(conditional) == 0 &&
+    } else if( value_is_zero(conditional) &&
             NULL != (include_zero = handlebars_value_map_str_find(options->hash, HBS_STRL("includeZero"), rv2)) &&
             !handlebars_value_is_empty(include_zero) ) {
         program = options->program;
-- 
2.43.0


From a9f7fd31efea0ca5c173f6edae1233df5a9d3e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:45 +0000
Subject: [PATCH 101/110] fix: the else part of with is for every empty value,
 and keeps the context

---
 src/handlebars_helpers.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 1839427..47d35a1 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -358,8 +358,8 @@ struct handlebars_value * handlebars_builtin_with(HANDLEBARS_HELPER_ARGS)
 
     assert(context != NULL);
 
-    if( handlebars_value_get_type(context) == HANDLEBARS_VALUE_TYPE_NULL ) {
-        result_str = handlebars_vm_execute_program(vm, options->inverse, context);
+    if( handlebars_value_get_type(context) != HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_is_empty(context) && !value_is_zero(context) ) {
+        result_str = handlebars_vm_execute_program(vm, options->inverse, options->scope);
     } else {
         handlebars_value_array(block_params, handlebars_stack_ctor(CONTEXT, 2));
         handlebars_value_array_set(block_params, 0, context);
-- 
2.43.0


From 1514ce39b5d7827206c0430292b217e338a49b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:03 +0000
Subject: [PATCH 102/110] fix: lookup finds list members by any decimal number,
 as paths do

---
 src/handlebars_helpers.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 47d35a1..93ea82f 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -20,6 +20,7 @@
 #endif
 
 #include <assert.h>
+#include <ctype.h>
 #include <string.h>
 
 #include "handlebars.h"
@@ -275,10 +276,18 @@ struct handlebars_value * handlebars_builtin_lookup(HANDLEBARS_HELPER_ARGS)
         (void) handlebars_value_map_find(context, key, rv);
         handlebars_string_delref(key);
     } else if( type == HANDLEBARS_VALUE_TYPE_ARRAY ) {
-        // @todo sscanf?
-        if( handlebars_value_get_type(field) == HANDLEBARS_VALUE_TYPE_INTEGER ) {
-            (void) handlebars_value_array_find(context, handlebars_value_get_intval(field), rv);
+        struct handlebars_string * key = handlebars_value_to_string(field, CONTEXT);
+        size_t len = hbs_str_len(key);
+        size_t index = 0;
+        size_t i;
+        // Only a plain decimal number is an index
+        for( i = 0; i < len && len <= 9 && isdigit((unsigned char) hbs_str_val(key)[i]); i++ ) {
+            index = index * 10 + (size_t) (hbs_str_val(key)[i] - '0');
+        }
+        if( len > 0 && i == len ) {
+            (void) handlebars_value_array_find(context, index, rv);
         }
+        handlebars_string_delref(key);
     }
 
     return rv;
-- 
2.43.0


From 7b6b0e529614390a20eb3b6f6a2734a895d9f421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:01:22 +0000
Subject: [PATCH 103/110] fix: values can be dumped at any depth

---
 src/handlebars_value.c | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 0ed623c..52809b9 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -729,20 +729,10 @@ struct handlebars_value * handlebars_value_call(struct handlebars_value * value,
 char * handlebars_value_dump(struct handlebars_value * value, struct handlebars_context * context, size_t depth)
 {
     char * buf = handlebars_talloc_strdup(context, "");
-    char indent[0x80];
-    char indent2[0x80];
+    int indent_len = (int) depth * 4;
+    int indent2_len = (int) (depth + 1) * 4;
     HANDLEBARS_MEMCHECK(buf, context);
 
-    assert((depth + 1) * 4 < 0x80);
-
-    size_t indent_len = (depth * 4) & 0x7F;
-    memset(indent, ' ', indent_len);
-    indent[indent_len] = 0;
-
-    size_t indent2_len = ((depth + 1) * 4) & 0x7F;
-    memset(indent2, ' ', indent2_len);
-    indent2[indent2_len] = 0;
-
     switch( handlebars_value_get_type(value) ) {
         case HANDLEBARS_VALUE_TYPE_NULL:
             buf = handlebars_talloc_asprintf_append_buffer(buf, "NULL");
@@ -773,11 +763,11 @@ char * handlebars_value_dump(struct handlebars_value * value, struct handlebars_
             HANDLEBARS_MEMCHECK(buf, context);
             HANDLEBARS_VALUE_FOREACH_IDX(value, index, child) {
                 char * tmp = handlebars_value_dump(child, context, depth + 1);
-                buf = handlebars_talloc_asprintf_append_buffer(buf, "%s%zd => %s\n", indent2, index, tmp);
+                buf = handlebars_talloc_asprintf_append_buffer(buf, "%*s%zd => %s\n", indent2_len, "", index, tmp);
                 HANDLEBARS_MEMCHECK(buf, context);
                 handlebars_talloc_free(tmp);
             } HANDLEBARS_VALUE_FOREACH_END();
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "%s]", handlebars_value_count(value) ? indent : "");
+            buf = handlebars_talloc_asprintf_append_buffer(buf, "%*s]", handlebars_value_count(value) ? indent_len : 0, "");
             HANDLEBARS_MEMCHECK(buf, context);
             break;
         case HANDLEBARS_VALUE_TYPE_MAP:
@@ -785,11 +775,11 @@ char * handlebars_value_dump(struct handlebars_value * value, struct handlebars_
             HANDLEBARS_MEMCHECK(buf, context);
             HANDLEBARS_VALUE_FOREACH_KV(value, key, child) {
                 char * tmp = handlebars_value_dump(child, context, depth + 1);
-                buf = handlebars_talloc_asprintf_append_buffer(buf, "%s%.*s => %s\n", indent2, (int) hbs_str_len(key), hbs_str_val(key), tmp);
+                buf = handlebars_talloc_asprintf_append_buffer(buf, "%*s%.*s => %s\n", indent2_len, "", (int) hbs_str_len(key), hbs_str_val(key), tmp);
                 HANDLEBARS_MEMCHECK(buf, context);
                 handlebars_talloc_free(tmp);
             } HANDLEBARS_VALUE_FOREACH_END();
-            buf = handlebars_talloc_asprintf_append_buffer(buf, "%s}", handlebars_value_count(value) ? indent : "");
+            buf = handlebars_talloc_asprintf_append_buffer(buf, "%*s}", handlebars_value_count(value) ? indent_len : 0, "");
             HANDLEBARS_MEMCHECK(buf, context);
             break;
         case HANDLEBARS_VALUE_TYPE_HELPER:
-- 
2.43.0


From 6b02f525a802734d49cd13f8315edc08b6329887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:30 +0000
Subject: [PATCH 104/110] fix: maps can be changed and walked over while they
 are walked over

---
 src/handlebars_map.c   |  8 ++++----
 src/handlebars_value.c | 16 +++++++++++-----
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/handlebars_map.c b/src/handlebars_map.c
index 5eeb983..2562f32 100644
--- a/src/handlebars_map.c
+++ b/src/handlebars_map.c
@@ -416,7 +416,7 @@ struct handlebars_map * handlebars_map_add(struct handlebars_map * map, struct h
 
     // Add
     o = map_find_entry(map, key);
-    if (!o.empty_found) {
+    if (!o.empty_found || map->vec_offset >= map->vec_capacity) {
         // this should never happen - unless rehash locked due to iteration
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to add to hash table");
     }
@@ -483,7 +483,7 @@ struct handlebars_map * handlebars_map_update(struct handlebars_map * map, struc
         return map;
     }
 
-    if (!o.empty_found) {
+    if (!o.empty_found || map->vec_offset >= map->vec_capacity) {
         // This should never happen
         handlebars_throw(map->ctx, HANDLEBARS_ERROR, "Failed to update to hash table");
     }
@@ -557,8 +557,8 @@ struct handlebars_map * handlebars_map_rehash(struct handlebars_map * map, bool
 
 void handlebars_map_sparse_array_compact(struct handlebars_map * map)
 {
-    // nothing to do
-    if (map->i == map->vec_offset) {
+    // nothing to do, or someone has an index into the vector
+    if (map->i == map->vec_offset || map->is_in_iteration) {
         return;
     }
 
diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 52809b9..7e8eefd 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -885,22 +885,28 @@ bool handlebars_value_iterator_init(struct handlebars_value_iterator * it, struc
             it->next = &handlebars_value_iterator_next_stack;
             return true;
 
-        case HANDLEBARS_VALUE_TYPE_MAP:
+        case HANDLEBARS_VALUE_TYPE_MAP: {
             if (handlebars_map_count(value->v.map) <= 0) {
                 it->next = &handlebars_value_iterator_next_void;
                 return false;
             }
-            handlebars_map_sparse_array_compact(value->v.map); // meh
+            struct handlebars_map * map = value->v.map;
+            handlebars_map_sparse_array_compact(map); // meh
+            if (handlebars_map_is_sparse(map)) {
+                // It is locked by another iteration
+                map = handlebars_map_copy_ctor(map, 0);
+            }
             it->value = value;
             it->index = 0;
-            handlebars_map_get_kv_at_index(value->v.map, it->index, &it->key, &tmp);
+            handlebars_map_get_kv_at_index(map, it->index, &it->key, &tmp);
             handlebars_value_value(it->cur, tmp);
             it->next = &handlebars_value_iterator_next_map;
             // Hold a reference, so that anything that changes the map in the
             // meantime separates it from the one being iterated
-            it->usr = value->v.map;
-            handlebars_map_addref(value->v.map);
+            it->usr = map;
+            handlebars_map_addref(map);
             return true;
+        }
 
         case HANDLEBARS_VALUE_TYPE_USER:
             return handlebars_value_get_handlers(value)->iterator(it, value);
-- 
2.43.0


From fd6c47bf0abbeff843036d0a372235a71a44abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:19 +0000
Subject: [PATCH 105/110] fix: with renders its block for the text "0"

---
 src/handlebars_helpers.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_helpers.c b/src/handlebars_helpers.c
index 93ea82f..e1d35a1 100644
--- a/src/handlebars_helpers.c
+++ b/src/handlebars_helpers.c
@@ -350,6 +350,7 @@ struct handlebars_value * handlebars_builtin_with(HANDLEBARS_HELPER_ARGS)
 {
     struct handlebars_string * result_str = NULL;
     struct handlebars_value * context = &argv[0];
+    bool is_empty;
     HANDLEBARS_VALUE_DECL(block_params);
     HANDLEBARS_VALUE_DECL(rv2);
 
@@ -367,7 +368,15 @@ struct handlebars_value * handlebars_builtin_with(HANDLEBARS_HELPER_ARGS)
 
     assert(context != NULL);
 
-    if( handlebars_value_get_type(context) != HANDLEBARS_VALUE_TYPE_MAP && handlebars_value_is_empty(context) && !value_is_zero(context) ) {
+    is_empty = handlebars_value_is_empty(context);
+    if( handlebars_value_get_type(context) == HANDLEBARS_VALUE_TYPE_STRING ) {
+        // the text "0" is not empty
+        is_empty = handlebars_value_get_strlen(context) == 0;
+    } else if( handlebars_value_get_type(context) == HANDLEBARS_VALUE_TYPE_MAP || value_is_zero(context) ) {
+        is_empty = false;
+    }
+
+    if( is_empty ) {
         result_str = handlebars_vm_execute_program(vm, options->inverse, options->scope);
     } else {
         handlebars_value_array(block_params, handlebars_stack_ctor(CONTEXT, 2));
-- 
2.43.0


From 1e5835efc371ce15a7de59f0cbcc107c51aa07f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:01:33 +0000
Subject: [PATCH 106/110] fix: string-params and track-ids operands keep what
 the parameter names

String mode stripped every leading '.' and '/', id tracking took "this" off
any text that starts with it, both stopped at a NUL byte, and numbers lost
their fraction or their digits after the tenth. Numbers too large for a long
named another partial.
---
 src/handlebars_compiler.c | 74 +++++++++++++++++++++++----------------
 1 file changed, 43 insertions(+), 31 deletions(-)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index ebd8697..95f336b 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -454,6 +454,14 @@ static inline void push_program_pair(struct handlebars_compiler * compiler, long
     }
 }
 
+static inline bool handlebars_compiler_number_is_long(struct handlebars_string * number, long * value)
+{
+    errno = 0;
+    double fv = strtod(hbs_str_val(number), NULL);
+    *value = strtol(hbs_str_val(number), NULL, 10);
+    return errno == 0 && fv == (double) *value;
+}
+
 static inline void handlebars_compiler_push_param(
         struct handlebars_compiler * compiler,
         struct handlebars_ast_node * param
@@ -487,12 +495,24 @@ static inline void handlebars_compiler_push_param(
         if( param->type == HANDLEBARS_AST_NODE_BOOLEAN ) {
             handlebars_operand_set_boolval(&opcode->op1, string && hbs_str_eq_strl(string, HBS_STRL("true")));
         } else {
-            // @todo should be /^(\.\.?\/)/
-            string = handlebars_string_copy_ctor(CONTEXT, string);
-            string = handlebars_string_ltrim(string, HBS_STRL("./"));
-            for( char * tmp2 = hbs_str_val(string); *tmp2; tmp2++ ) {
-                if( *tmp2 == '/' ) {
-                    *tmp2 = '.';
+            // /^(\.?\.\/)*/
+            const char * strval = hbs_str_val(string);
+            size_t len = hbs_str_len(string);
+            for( ;; ) {
+                if( len >= 2 && strval[0] == '.' && strval[1] == '/' ) {
+                    strval += 2;
+                    len -= 2;
+                } else if( len >= 3 && strval[0] == '.' && strval[1] == '.' && strval[2] == '/' ) {
+                    strval += 3;
+                    len -= 3;
+                } else {
+                    break;
+                }
+            }
+            string = handlebars_string_ctor(CONTEXT, strval, len);
+            for( size_t i = 0; i < len; i++ ) {
+                if( hbs_str_val(string)[i] == '/' ) {
+                    hbs_str_val(string)[i] = '.';
                 }
             }
             handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op1, string);
@@ -510,6 +530,7 @@ static inline void handlebars_compiler_push_param(
             struct handlebars_opcode * opcode;
             int block_param_depth = -1;
             int block_param_num = -1;
+            long lval;
             char tmp[32];
             const char * block_param_arr[3];
             struct handlebars_string ** parts_arr;
@@ -545,25 +566,27 @@ static inline void handlebars_compiler_push_param(
             } else {
                 string = handlebars_ast_node_get_string_mode_value(CONTEXT, param);
                 const char * strval = hbs_str_val(string);
-                if( strval == strstr(strval, "this") ) {
-                	strval += 4 + (*(strval + 4) == '.' || *(strval + 4) == '$' ? 1 : 0 );
+                size_t len = hbs_str_len(string);
+                if( len >= 4 && 0 == memcmp(strval, "this", 4) && (len == 4 || strval[4] == '.') ) {
+                    size_t prefix = len == 4 ? 4 : 5;
+                    strval += prefix;
+                    len -= prefix;
                 }
-                if( *strval == '.' && *(strval + 1) == 0 ) {
-                    strval = "";
-                } else if( *strval == '.' && *(strval + 1) == '/' ) {
+                if( len >= 2 && strval[0] == '.' && strval[1] == '/' ) {
                     strval += 2;
+                    len -= 2;
+                }
+                if( len == 1 && *strval == '.' ) {
+                    len = 0;
                 }
                 const char * name = handlebars_ast_node_readable_type(param->type);
                 handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op1, handlebars_string_ctor(CONTEXT, name, strlen(name)));
-                // @todo need to remove leading .
                 if( param->type == HANDLEBARS_AST_NODE_BOOLEAN ) {
-                    handlebars_operand_set_boolval(&opcode->op2, strcmp(strval, "true") == 0);
-                } else if( param->type == HANDLEBARS_AST_NODE_NUMBER ) {
-                    long lval;
-                    sscanf(strval, "%10ld", &lval);
+                    handlebars_operand_set_boolval(&opcode->op2, hbs_str_eq_strl(string, HBS_STRL("true")));
+                } else if( param->type == HANDLEBARS_AST_NODE_NUMBER && handlebars_compiler_number_is_long(string, &lval) ) {
                     handlebars_operand_set_longval(&opcode->op2, lval);
                 } else {
-                    handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op2, handlebars_string_ctor(CONTEXT, strval, strlen(strval)));
+                    handlebars_operand_set_stringval(CONTEXT, opcode, &opcode->op2, handlebars_string_ctor(CONTEXT, strval, len));
                 }
                 __PUSH(opcode);
             }
@@ -905,13 +928,8 @@ static inline void _handlebars_compiler_accept_partial(
         if( !is_dynamic ) {
             struct handlebars_string * string = handlebars_ast_node_get_string_mode_value(CONTEXT, name);
             long lv = 0;
-        	double fv;
-            if( name->type == HANDLEBARS_AST_NODE_NUMBER ) {
-                fv = strtod(hbs_str_val(string), NULL);
-                lv = strtol(hbs_str_val(string), NULL, 10);
-                if( !fv || !lv || fv != (double) lv ) {
-                    lv = 0;
-                }
+            if( name->type == HANDLEBARS_AST_NODE_NUMBER && !handlebars_compiler_number_is_long(string, &lv) ) {
+                lv = 0;
             }
             if( lv ) {
                 handlebars_operand_set_longval(&opcode->op2, lv);
@@ -1276,18 +1294,12 @@ static inline void handlebars_compiler_accept_number(
         struct handlebars_ast_node * number
 ) {
     struct handlebars_string * val = number->node.number.value;
-	double fv;
 	long lv;
 
     assert(number != NULL);
     assert(number->type == HANDLEBARS_AST_NODE_NUMBER);
 
-    // Convert to float and long
-    errno = 0;
-    fv = strtod(hbs_str_val(val), NULL);
-    lv = strtol(hbs_str_val(val), NULL, 10);
-
-    if( errno == 0 && fv == (double) lv ) {
+    if( handlebars_compiler_number_is_long(val, &lv) ) {
     	// It's a long - @todo do we need to do float too?
     	__OPL(push_literal, lv);
     } else {
-- 
2.43.0


From 46657335e70585af55ddf7b6ac5f076521308ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:09:01 +0000
Subject: [PATCH 107/110] fix: a name written as a literal has the place of the
 literal

---
 src/handlebars_compiler.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/handlebars_compiler.c b/src/handlebars_compiler.c
index 95f336b..083a0c7 100644
--- a/src/handlebars_compiler.c
+++ b/src/handlebars_compiler.c
@@ -659,6 +659,7 @@ static inline struct handlebars_ast_node * handlebars_compiler_transform_literal
 	struct handlebars_ast_node * part;
 	struct handlebars_ast_list * parts;
 	struct handlebars_string * val;
+	struct handlebars_locinfo loc = path->loc;
 	switch( path->type ) {
 		case HANDLEBARS_AST_NODE_UNDEFINED:
 		case HANDLEBARS_AST_NODE_NUL:
@@ -668,6 +669,7 @@ static inline struct handlebars_ast_node * handlebars_compiler_transform_literal
 			val = handlebars_ast_node_get_string_mode_value(CONTEXT, path);
 			node = handlebars_compiler_copy_node(compiler, node);
 			path = talloc_steal(node, handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PATH));
+			path->loc = loc;
 			// Make parts
 			part = talloc_steal(path, handlebars_ast_node_ctor(CONTEXT, HANDLEBARS_AST_NODE_PATH_SEGMENT));
 			part->node.path_segment.part = talloc_steal(part, handlebars_string_copy_ctor(CONTEXT, val));
-- 
2.43.0


From a28641a7d201434a03b96af9d9682bc05fa0474b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:03:46 +0000
Subject: [PATCH 108/110] fix: converting a list or map does not convert the
 user-defined values in it

---
 src/handlebars_value.c | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/handlebars_value.c b/src/handlebars_value.c
index 7e8eefd..c03cc93 100644
--- a/src/handlebars_value.c
+++ b/src/handlebars_value.c
@@ -311,9 +311,32 @@ void handlebars_value_convert_ex(struct handlebars_value * value, bool recurse)
             }
             break;
         case HANDLEBARS_VALUE_TYPE_MAP:
+            if (!recurse) {
+                break;
+            }
+            HANDLEBARS_VALUE_FOREACH_KV(value, key, child) {
+                // child is a copy, so a converted one has to be put back
+                HANDLEBARS_VALUE_DECL(tmp);
+                handlebars_value_value(tmp, child);
+                handlebars_value_convert_ex(tmp, recurse);
+                if (!handlebars_value_eq(tmp, child)) {
+                    handlebars_value_map_update(value, key, tmp);
+                }
+                HANDLEBARS_VALUE_UNDECL(tmp);
+            } HANDLEBARS_VALUE_FOREACH_END();
+            break;
         case HANDLEBARS_VALUE_TYPE_ARRAY:
-            HANDLEBARS_VALUE_FOREACH(value, child) {
-                handlebars_value_convert_ex(child, recurse);
+            if (!recurse) {
+                break;
+            }
+            HANDLEBARS_VALUE_FOREACH_IDX(value, index, child) {
+                HANDLEBARS_VALUE_DECL(tmp);
+                handlebars_value_value(tmp, child);
+                handlebars_value_convert_ex(tmp, recurse);
+                if (!handlebars_value_eq(tmp, child)) {
+                    handlebars_value_array_set(value, index, tmp);
+                }
+                HANDLEBARS_VALUE_UNDECL(tmp);
             } HANDLEBARS_VALUE_FOREACH_END();
             break;
         default:
-- 
2.43.0


From 43007e9d8e8fc8baa34304407fcf9afeef09e644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:35 +0000
Subject: [PATCH 109/110] fix: text and markers of section lambdas stay in
 memory until the VM goes

---
 src/handlebars_vm.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index 124d4fa..b99df5c 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -559,8 +559,12 @@ static struct handlebars_value * invoke_mustache_style_lambda_closure(HANDLEBARS
 
     if (!handlebars_value_is_empty(result)) {
         struct handlebars_string * tmpl = handlebars_value_to_string(result, CONTEXT);
+        if (result->type != HANDLEBARS_VALUE_TYPE_STRING) {
+            handlebars_string_addref(tmpl); // the text of a string comes with a reference, new text does not
+        }
         struct handlebars_string * rv_str = execute_template(vm, tmpl, TOP(vm->contextStack), NULL, 0, use_delimiters);
         handlebars_value_str(rv, rv_str);
+        handlebars_string_delref(tmpl);
     }
 
     HANDLEBARS_VALUE_ARRAY_UNDECL(lambda_argv, 1);
@@ -584,11 +588,6 @@ ACCEPT_FUNCTION(ambiguous_block_value)
         assert(result != NULL);
         PUSH(vm->stack, result);
         VM_TEARDOWN_OPTIONS(1);
-    } else if (hbs_str_eq_strl(vm->last_helper, HBS_STRL("lambda"))) {
-        VM_SETUP_OPTIONS(0);
-        handlebars_string_delref(vm->last_helper);
-        vm->last_helper = NULL;
-        VM_TEARDOWN_OPTIONS(0);
     } else {
         VM_SETUP_OPTIONS(0);
         VM_TEARDOWN_OPTIONS(0);
@@ -734,7 +733,7 @@ ACCEPT_FUNCTION(invoke_ambiguous)
         handlebars_value_closure(value, closure);
         fn = value;
 
-        last_helper = handlebars_string_ctor(CONTEXT, HBS_STRL("lambda")); // hackey but it works
+        last_helper = options.name; // it stands for the call, like a helper
         handlebars_string_addref(last_helper);
 
         HANDLEBARS_VALUE_ARRAY_UNDECL(closure_localv, closure_localc);
-- 
2.43.0


From 723e20e7c2c90bcbdf50c09ab64c9e643bbc6e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:09:35 +0000
Subject: [PATCH 110/110] fix: a lambda found by a path is called with
 incomplete options

---
 src/handlebars_vm.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/handlebars_vm.c b/src/handlebars_vm.c
index b99df5c..688028f 100644
--- a/src/handlebars_vm.c
+++ b/src/handlebars_vm.c
@@ -1293,12 +1293,20 @@ ACCEPT_FUNCTION(resolve_possible_lambda)
     if( handlebars_value_is_callable(value) ) {
         HANDLEBARS_VALUE_DECL(rv);
         // This should really use the same options object as invoke*
-        struct handlebars_options options = {0};
+        struct handlebars_options options = {.inverse = -1, .program = -1};
         const int argc = 1;
         HANDLEBARS_VALUE_ARRAY_DECL(argv, argc);
+        HANDLEBARS_VALUE_DECL(hash);
+        HANDLEBARS_VALUE_DECL(data);
         handlebars_value_value(&argv[0], TOP(vm->contextStack));
+        handlebars_value_map(hash, handlebars_map_ctor(CONTEXT, 0));
+        handlebars_value_value(data, &vm->data);
         options.scope = &argv[0];
+        options.hash = hash;
+        options.data = data;
         PUSH(vm->stack, handlebars_value_call(value, argc, argv, &options, vm, rv));
+        HANDLEBARS_VALUE_UNDECL(data);
+        HANDLEBARS_VALUE_UNDECL(hash);
         HANDLEBARS_VALUE_ARRAY_UNDECL(argv, argc);
         handlebars_options_deinit(&options);
         HANDLEBARS_VALUE_UNDECL(rv);
-- 
2.43.0

