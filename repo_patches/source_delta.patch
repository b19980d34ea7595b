From 3da84f506e3ca5afac6c07e5c0479bfef35a08aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 01/48] fix: define cypher_parse_segment_get_root as declared
 in the public header

---
 lib/src/segment.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/segment.c b/lib/src/segment.c
index 1a8cfea..e4c00b2 100644
--- a/lib/src/segment.c
+++ b/lib/src/segment.c
@@ -139,7 +139,7 @@ unsigned int cypher_parse_segment_nroots(const cypher_parse_segment_t *segment)
 }
 
 
-const cypher_astnode_t *cypher_parse_segment_get_node(
+const cypher_astnode_t *cypher_parse_segment_get_root(
         const cypher_parse_segment_t *segment, unsigned int index)
 {
     if (index >= segment->nroots)
-- 
2.43.0


From 575f256b18378a9f6da98dc9358a3e36fd9cfd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:24 +0000
Subject: [PATCH 02/48] fix: pass the node to the annotation release handler

---
 lib/src/annotation.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/annotation.c b/lib/src/annotation.c
index 7239946..f3b2e2a 100644
--- a/lib/src/annotation.c
+++ b/lib/src/annotation.c
@@ -247,13 +247,14 @@ void cp_release_annotation(struct cypher_astnode_annotation *annotation)
     assert(annotation != NULL);
 
     cypher_ast_annotation_context_t *context = annotation->context;
+    const cypher_astnode_t *astnode = annotation->astnode;
 
     detach_annotation_from_astnode(annotation);
     detach_annotation_from_context(annotation);
     if (context->release_cb != NULL)
     {
-        context->release_cb(context->release_cb_userdata,
-                annotation->astnode, annotation->data);
+        context->release_cb(context->release_cb_userdata, astnode,
+                annotation->data);
     }
 
     free(annotation);
-- 
2.43.0


From a0e1b000237dfd9464969e02366c9a24235d29c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:25 +0000
Subject: [PATCH 03/48] fix: advance through the children in child_index

---
 lib/src/astnode.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index 8337fc3..1fab1ff 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -127,7 +127,9 @@ static inline int child_index(const cypher_astnode_t *node,
 {
     unsigned int i = 0;
     while (i < node->nchildren && node->children[i] != child)
-        ;
+    {
+        i++;
+    }
     assert(i < node->nchildren);
     return i;
 }
-- 
2.43.0


From a4760281467418091ee4a39c4ae81a2692b8613d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 04/48] fix: free the temporary children array in
 cypher_ast_clone

---
 lib/src/ast.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 9ece2b5..8f50a96 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -559,6 +559,7 @@ cypher_astnode_t *cypher_ast_clone(const cypher_astnode_t *ast)
     {
         goto failure;
     }
+    free(children);
     return clone;
 
     int errsv;
-- 
2.43.0


From 4bb0e55640ecce61695683e69bf5ae43636f6767 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 05/48] fix: keep skip and limit when cloning a WITH clause

---
 lib/src/ast_with.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast_with.c b/lib/src/ast_with.c
index b02e959..573531a 100644
--- a/lib/src/ast_with.c
+++ b/lib/src/ast_with.c
@@ -117,9 +117,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     }
     cypher_astnode_t *order_by = (node->order_by == NULL) ? NULL :
             children[child_index(self, node->order_by)];
-    cypher_astnode_t *skip = (node->skip != NULL) ? NULL :
+    cypher_astnode_t *skip = (node->skip == NULL) ? NULL :
             children[child_index(self, node->skip)];
-    cypher_astnode_t *limit = (node->limit != NULL) ? NULL :
+    cypher_astnode_t *limit = (node->limit == NULL) ? NULL :
             children[child_index(self, node->limit)];
     cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
-- 
2.43.0


From d673aed74caa6fe4fca69182e4c6c9551960df04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 06/48] fix: grow the detail buffer when the text just fits
 without its terminator

---
 lib/src/ast.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 8f50a96..48929ce 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -606,7 +606,7 @@ static ssize_t cypher_astnode_detailstr_realloc(const cypher_astnode_t *node,
     {
         return -1;
     }
-    if ((size_t)width > *bufcap)
+    if ((size_t)width >= *bufcap)
     {
         char *newbuf = realloc(*buf, (size_t)width + 1);
         if (newbuf == NULL)
-- 
2.43.0


From bf74102bec886e5eeb6552d84c33e60af08377a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 07/48] fix: grow the buffer in snprintf_realloc when only the
 terminator does not fit

---
 lib/src/util.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/util.c b/lib/src/util.c
index 857fd0e..c80f74e 100644
--- a/lib/src/util.c
+++ b/lib/src/util.c
@@ -34,7 +34,7 @@ ssize_t snprintf_realloc(char ** restrict buf, size_t *bufcap,
     {
         return -1;
     }
-    if ((size_t)width > *bufcap)
+    if ((size_t)width >= *bufcap)
     {
         char *newbuf = realloc(*buf, (size_t)width+1);
         if (newbuf == NULL)
-- 
2.43.0


From 4a54a37e04c87a85e9e33c6f138c9c6235bc8f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:18 +0000
Subject: [PATCH 08/48] fix: do not convert log10(0) to an unsigned width when
 printing an AST

---
 lib/src/ast.c | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 48929ce..2f812a7 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -19,7 +19,6 @@
 #include "astnode.h"
 #include "util.h"
 #include <assert.h>
-#include <math.h>
 
 
 struct cypher_astnode_vts
@@ -625,6 +624,17 @@ static ssize_t cypher_astnode_detailstr_realloc(const cypher_astnode_t *node,
 }
 
 
+static unsigned int ndigits(size_t n)
+{
+    unsigned int digits = 1;
+    for (; n >= 10; n /= 10)
+    {
+        ++digits;
+    }
+    return digits;
+}
+
+
 static void ast_fprint_field_widths(const cypher_astnode_t *ast,
         unsigned int *max_ordinal, size_t *max_start, size_t *max_end,
         unsigned int *name_width, unsigned int depth)
@@ -820,9 +830,9 @@ int cypher_ast_fprint(const cypher_astnode_t *ast, FILE *stream,
     size_t max_start = 0, max_end = 0;
     ast_fprint_field_widths(ast, &max_ordinal, &max_start, &max_end,
             &name_width, 0);
-    unsigned int ordinal_width = (unsigned int)log10(max_ordinal)+2;
-    unsigned int start_width = (unsigned int)log10(max_start)+1;
-    unsigned int end_width = (unsigned int)log10(max_end)+1;
+    unsigned int ordinal_width = ndigits(max_ordinal)+1;
+    unsigned int start_width = ndigits(max_start);
+    unsigned int end_width = ndigits(max_end);
 
     size_t bufcap = 1024;
     char *buf = malloc(bufcap);
@@ -855,9 +865,9 @@ int cypher_ast_fprintv(cypher_astnode_t * const *asts, unsigned int n,
         ast_fprint_field_widths(asts[i], &max_ordinal, &max_start, &max_end,
                 &name_width, 0);
     }
-    unsigned int ordinal_width = (unsigned int)log10(max_ordinal)+2;
-    unsigned int start_width = (unsigned int)log10(max_start)+1;
-    unsigned int end_width = (unsigned int)log10(max_end)+1;
+    unsigned int ordinal_width = ndigits(max_ordinal)+1;
+    unsigned int start_width = ndigits(max_start);
+    unsigned int end_width = ndigits(max_end);
 
     size_t bufcap = 1024;
     char *buf = malloc(bufcap);
-- 
2.43.0


From abd6b370fde96097bbf013dbd4082aaab699d5b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 09/48] fix: add the missing comment entry to the AST node type
 table

---
 lib/src/ast.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index 2f812a7..d821c57 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -243,6 +243,7 @@ static const struct cypher_astnode_vts cypher_astnode_vts =
     .rel_pattern = &cypher_rel_pattern_astnode_vt,
     .range = &cypher_range_astnode_vt,
     .command = &cypher_command_astnode_vt,
+    .comment = &cypher_comment_astnode_vt,
     .line_comment = &cypher_line_comment_astnode_vt,
     .block_comment = &cypher_block_comment_astnode_vt,
     .error = &cypher_error_astnode_vt,
-- 
2.43.0


From bf9da53ae7c5ef11b0716cff5f7dc34b0a3d53cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 10/48] fix: keep optional parts when cloning RETURN, START,
 NONE and pattern comprehensions

---
 lib/src/ast_none.c                  | 2 +-
 lib/src/ast_pattern_comprehension.c | 2 +-
 lib/src/ast_return.c                | 4 ++--
 lib/src/ast_start.c                 | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/ast_none.c b/lib/src/ast_none.c
index 302343e..64cf2fd 100644
--- a/lib/src/ast_none.c
+++ b/lib/src/ast_none.c
@@ -99,7 +99,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
 
     cypher_astnode_t *identifier = children[child_index(self, node->identifier)];
     cypher_astnode_t *expression = children[child_index(self, node->expression)];
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
 
     return cypher_ast_none(identifier, expression, predicate, children,
diff --git a/lib/src/ast_pattern_comprehension.c b/lib/src/ast_pattern_comprehension.c
index 6be9483..bbd389d 100644
--- a/lib/src/ast_pattern_comprehension.c
+++ b/lib/src/ast_pattern_comprehension.c
@@ -92,7 +92,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     cypher_astnode_t *identifier = (node->identifier == NULL) ? NULL :
             children[child_index(self, node->identifier)];
     cypher_astnode_t *pattern = children[child_index(self, node->pattern)];
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
     cypher_astnode_t *eval = children[child_index(self, node->eval)];
 
diff --git a/lib/src/ast_return.c b/lib/src/ast_return.c
index b745ae1..48704ea 100644
--- a/lib/src/ast_return.c
+++ b/lib/src/ast_return.c
@@ -115,9 +115,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     }
     cypher_astnode_t *order_by = (node->order_by == NULL) ? NULL :
             children[child_index(self, node->order_by)];
-    cypher_astnode_t *skip = (node->skip != NULL) ? NULL :
+    cypher_astnode_t *skip = (node->skip == NULL) ? NULL :
             children[child_index(self, node->skip)];
-    cypher_astnode_t *limit = (node->limit != NULL) ? NULL :
+    cypher_astnode_t *limit = (node->limit == NULL) ? NULL :
             children[child_index(self, node->limit)];
 
     cypher_astnode_t *clone = cypher_ast_return(node->distinct,
diff --git a/lib/src/ast_start.c b/lib/src/ast_start.c
index 8b9b4d8..c15f4ae 100644
--- a/lib/src/ast_start.c
+++ b/lib/src/ast_start.c
@@ -98,7 +98,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     {
         points[i] = children[child_index(self, node->points[i])];
     }
-    cypher_astnode_t *predicate = (node->predicate != NULL) ? NULL :
+    cypher_astnode_t *predicate = (node->predicate == NULL) ? NULL :
             children[child_index(self, node->predicate)];
 
     cypher_astnode_t *clone = cypher_ast_start(points, node->npoints,
-- 
2.43.0


From fc1a54cd58cadf3788c961b5c63d558444c8e9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 11/48] fix: do not capture the caller's index variable in
 REQUIRE_CONTAINS

---
 lib/src/astnode.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index 1fab1ff..9ccb0fe 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -80,10 +80,10 @@ ssize_t snprint_sequence(char *str, size_t size,
 #define REQUIRE_CONTAINS(collection, size, val, res) \
     do { \
         REQUIRE((size > 0) && (collection != NULL), res); \
-        unsigned int i = 0; \
-        while (i < size && collection[i] != val) \
-            i++; \
-        REQUIRE(i < size, res); \
+        unsigned int _ci = 0; \
+        while (_ci < size && collection[_ci] != val) \
+            _ci++; \
+        REQUIRE(_ci < size, res); \
     } while(0)
 
 #define REQUIRE_CONTAINS_OPTIONAL(collection, size, val, res) \
-- 
2.43.0


From 94a9228467d8ab916c0c6bf2742171579ddd8339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:59 +0000
Subject: [PATCH 12/48] fix: check every value in REQUIRE_CONTAINS_ALL

---
 lib/src/astnode.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index 9ccb0fe..3bce692 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -96,9 +96,14 @@ ssize_t snprint_sequence(char *str, size_t size,
 #define REQUIRE_CONTAINS_ALL(collection, size, vals, nvals, res) \
     do { \
         REQUIRE(size >= nvals, res); \
-        unsigned int j = size; \
-        while (j < size) { \
-            REQUIRE_CONTAINS(collection, size, vals[j], res); \
+        unsigned int _cj = 0; \
+        for (unsigned int _vi = 0; _vi < nvals; _vi++) { \
+            unsigned int _cn = 0; \
+            while (_cn < size && collection[_cj] != vals[_vi]) { \
+                _cj = (_cj + 1 < size)? _cj + 1 : 0; \
+                _cn++; \
+            } \
+            REQUIRE(_cn < size, res); \
         } \
     } while(0)
 
-- 
2.43.0


From d80358801448d720ac92456b7f0375044920dd1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 13/48] fix: clone the keys and values of every map entry

---
 lib/src/ast_map.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast_map.c b/lib/src/ast_map.c
index 0a370af..3000f53 100644
--- a/lib/src/ast_map.c
+++ b/lib/src/ast_map.c
@@ -121,13 +121,13 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     REQUIRE_TYPE(self, CYPHER_AST_MAP, NULL);
     struct map *node = container_of(self, struct map, _astnode);
 
-    cypher_astnode_t **pairs = calloc(node->nentries,
+    cypher_astnode_t **pairs = calloc(node->nentries * 2,
             sizeof(cypher_astnode_t *));
     if (pairs == NULL)
     {
         return NULL;
     }
-    for (unsigned int i = 0; i < node->nentries; ++i)
+    for (unsigned int i = 0; i < node->nentries * 2; ++i)
     {
         pairs[i] = children[child_index(self, node->pairs[i])];
     }
-- 
2.43.0


From 3ad451a958650326e229429fe6394a692fad529b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:42 +0000
Subject: [PATCH 14/48] fix: require map keys and values to be among the
 children

---
 lib/src/ast_map.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast_map.c b/lib/src/ast_map.c
index 3000f53..8ba0a9f 100644
--- a/lib/src/ast_map.c
+++ b/lib/src/ast_map.c
@@ -77,8 +77,10 @@ cypher_astnode_t *cypher_ast_map(cypher_astnode_t * const *keys,
         cypher_astnode_t **children, unsigned int nchildren,
         struct cypher_input_range range)
 {
-    REQUIRE_TYPE_ALL(keys, nentries, CYPHER_AST_PROP_NAME, NULL);
-    REQUIRE_TYPE_ALL(values, nentries, CYPHER_AST_EXPRESSION, NULL);
+    REQUIRE_CHILD_ALL(children, nchildren, keys, nentries,
+            CYPHER_AST_PROP_NAME, NULL);
+    REQUIRE_CHILD_ALL(children, nchildren, values, nentries,
+            CYPHER_AST_EXPRESSION, NULL);
 
     struct map *node = map_init(nentries, children, nchildren, range);
     if (node == NULL)
@@ -104,6 +106,7 @@ cypher_astnode_t *cypher_ast_pair_map(cypher_astnode_t * const *pairs,
         REQUIRE_TYPE(pairs[i*2], CYPHER_AST_PROP_NAME, NULL);
         REQUIRE_TYPE(pairs[i*2 + 1], CYPHER_AST_EXPRESSION, NULL);
     }
+    REQUIRE_CONTAINS_ALL(children, nchildren, pairs, nentries * 2, NULL);
 
     struct map *node = map_init(nentries, children, nchildren, range);
     if (node == NULL)
-- 
2.43.0


From bcff269b4eaa46214b0202f276a973bb0890180c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 15/48] fix: clone the predicates and values of every CASE
 alternative

---
 lib/src/ast_case.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ast_case.c b/lib/src/ast_case.c
index d0fd659..acf5785 100644
--- a/lib/src/ast_case.c
+++ b/lib/src/ast_case.c
@@ -96,13 +96,13 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
 
     cypher_astnode_t *expression = (node->expression == NULL) ? NULL :
             children[child_index(self, node->expression)];
-    cypher_astnode_t **alternatives = calloc(node->nalternatives,
+    cypher_astnode_t **alternatives = calloc(node->nalternatives * 2,
             sizeof(cypher_astnode_t *));
     if (alternatives == NULL)
     {
         return NULL;
     }
-    for (unsigned int i = 0; i < node->nalternatives; ++i)
+    for (unsigned int i = 0; i < node->nalternatives * 2; ++i)
     {
         alternatives[i] = children[child_index(self, node->alternatives[i])];
     }
-- 
2.43.0


From de14fe8ec1b4cca0da4b511b3f1aa4ad297e1b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:12 +0000
Subject: [PATCH 16/48] fix: check the predicates and values of every CASE
 alternative

---
 lib/src/ast_case.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ast_case.c b/lib/src/ast_case.c
index acf5785..5d4d247 100644
--- a/lib/src/ast_case.c
+++ b/lib/src/ast_case.c
@@ -55,7 +55,7 @@ cypher_astnode_t *cypher_ast_case(const cypher_astnode_t *expression,
 {
     REQUIRE_CHILD_OPTIONAL(children, nchildren, expression,
             CYPHER_AST_EXPRESSION, NULL);
-    REQUIRE_CHILD_ALL(children, nchildren, alternatives, nalternatives,
+    REQUIRE_CHILD_ALL(children, nchildren, alternatives, nalternatives * 2,
             CYPHER_AST_EXPRESSION, NULL);
     REQUIRE_CHILD_OPTIONAL(children, nchildren, deflt,
             CYPHER_AST_EXPRESSION, NULL);
-- 
2.43.0


From 546a25d604cde0dece79e24e1d37b8cb1cc64a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 17/48] fix: clone a relationship constraint as one

---
 lib/src/ast_drop_rel_prop_constraint.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/ast_drop_rel_prop_constraint.c b/lib/src/ast_drop_rel_prop_constraint.c
index e6763e7..caa3afd 100644
--- a/lib/src/ast_drop_rel_prop_constraint.c
+++ b/lib/src/ast_drop_rel_prop_constraint.c
@@ -86,7 +86,7 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
     cypher_astnode_t *reltype = children[child_index(self, node->reltype)];
     cypher_astnode_t *expression = children[child_index(self, node->expression)];
 
-    return cypher_ast_drop_node_prop_constraint(identifier, reltype, expression,
+    return cypher_ast_drop_rel_prop_constraint(identifier, reltype, expression,
             node->unique, children, self->nchildren, self->range);
 }
 
-- 
2.43.0


From d2819fd5cce78bc284684f1e9a9a8d3036aa7b30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:11 +0000
Subject: [PATCH 18/48] fix: check the selectors given to
 cypher_ast_map_projection

---
 lib/src/ast_map_projection.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/ast_map_projection.c b/lib/src/ast_map_projection.c
index 2af4e32..aaa6fa0 100644
--- a/lib/src/ast_map_projection.c
+++ b/lib/src/ast_map_projection.c
@@ -54,6 +54,8 @@ cypher_astnode_t *cypher_ast_map_projection(
         struct cypher_input_range range)
 {
     REQUIRE_CHILD(children, nchildren, expression, CYPHER_AST_EXPRESSION, NULL);
+    REQUIRE_CHILD_ALL(children, nchildren, selectors, nselectors,
+            CYPHER_AST_MAP_PROJECTION_SELECTOR, NULL);
 
     struct map_projection *node = calloc(1, sizeof(struct map_projection) +
             nselectors * sizeof(cypher_astnode_t *));
-- 
2.43.0


From b3c363df0ce8cb77afe0d6feaedd5daa8fe0181a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:08 +0000
Subject: [PATCH 19/48] fix: check the predicate given to cypher_ast_with

---
 lib/src/ast_with.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/src/ast_with.c b/lib/src/ast_with.c
index 573531a..310a24c 100644
--- a/lib/src/ast_with.c
+++ b/lib/src/ast_with.c
@@ -67,6 +67,8 @@ cypher_astnode_t *cypher_ast_with(bool distinct, bool include_existing,
             CYPHER_AST_EXPRESSION, NULL);
     REQUIRE_CHILD_OPTIONAL(children, nchildren, limit,
             CYPHER_AST_EXPRESSION, NULL);
+    REQUIRE_CHILD_OPTIONAL(children, nchildren, predicate,
+            CYPHER_AST_EXPRESSION, NULL);
 
     struct with_clause *node = calloc(1, sizeof(struct with_clause) +
             nprojections * sizeof(cypher_astnode_t *));
-- 
2.43.0


From 73cad37e9bfad4b90209529c8b8400b703ec7b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:05 +0000
Subject: [PATCH 20/48] fix: advance through the input buffer when refilling
 the parser

---
 lib/src/parser.c       | 1 +
 lib/src/quick_parser.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 0ea585d..e6cb8b2 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -77,6 +77,7 @@ static int source_from_buffer(void *data, char *buf, int n)
         return len;
     }
     memcpy(buf, input->buffer, len);
+    input->buffer += len;
     return len;
 }
 
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index 070e6fe..a19077d 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -51,6 +51,7 @@ static int source_from_buffer(void *data, char *buf, int n)
         return len;
     }
     memcpy(buf, input->buffer, len);
+    input->buffer += len;
     return len;
 }
 
-- 
2.43.0


From 65cc16c48bf43bee1c24961b3dfc4e87379c9769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:15 +0000
Subject: [PATCH 21/48] fix: allow whitespace before the comma between pattern
 parts

---
 lib/src/parser.leg | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index b9f14da..c244183 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -705,7 +705,8 @@ proc-name = <                          { strbuf_reset(); }
 
 pattern =
     < p:pattern-part                   { sequence_add(p); }
-    ( COMMA - p:pattern-part           { sequence_add(p); }
+    ( (COMMA | - ',') -
+      p:pattern-part                   { sequence_add(p); }
     )* >                               { $$ = pattern(); }
     -
 
-- 
2.43.0


From c006b832db55f3ca70ef404377b0a637239cba83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:25 +0000
Subject: [PATCH 22/48] fix: accept comments inside dotted function and
 procedure names

---
 lib/src/parser.leg | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index c244183..7927262 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -679,11 +679,11 @@ prop-name = <                          { strbuf_reset(); }
     >                                  { $$ = strbuf_prop_name(); }
     -
 
-function-name = <                      { strbuf_reset(); }
+function-name = _block_start_          { strbuf_reset(); }
     ( (symbolic-name - DOT -           { strbuf_append(".", 1); }
       )* symbolic-name
     ) ~{ERR("a function name")}
-    >                                  { $$ = strbuf_function_name(); }
+    _block_merge_                      { $$ = strbuf_function_name(); }
     -
 
 index-name = <                         { strbuf_reset(); }
@@ -691,11 +691,11 @@ index-name = <                         { strbuf_reset(); }
     >                                  { $$ = strbuf_index_name(); }
     -
 
-proc-name = <                          { strbuf_reset(); }
+proc-name = _block_start_              { strbuf_reset(); }
     ( (symbolic-name - DOT -           { strbuf_append(".", 1); }
       )* symbolic-name
     ) ~{ERR("a procedure name")}
-    >                                  { $$ = strbuf_proc_name(); }
+    _block_merge_                      { $$ = strbuf_proc_name(); }
     -
 
 
-- 
2.43.0


From 29a10a32958bbc6af9bea4ae2a00dbedc3d315e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:51 +0000
Subject: [PATCH 23/48] fix: track line ends inside backtick quoted names

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 7927262..e868837 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -858,7 +858,7 @@ symbolic-name =
     | escaped-symbolic-name
 unescaped-symbolic-name = < sym-start sym-part* >
                                        { strbuf_append_block(); }
-escaped-symbolic-name = '`' < (!'`' .)* > '`' ~{ERR("`")}
+escaped-symbolic-name = '`' < (EOL | !'`' .)* > '`' ~{ERR("`")}
                                        { strbuf_append_block(); }
 
 parameter-name =
-- 
2.43.0


From 0e1b00980220b3281ce60ec0cdbd6586854e41b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 24/48] fix: recognise a client command on the line after a
 syntax error

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index e868837..6222122 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -29,7 +29,7 @@ __entry_points = directive | statement
 directive = - _directive
 _directive =
     ( __directive                      { finished(yy); }
-    | _error_ (EOF | skip-to-directive) _directive
+    | _error_ (EOF | skip-to-directive) (- &':')? _directive
     )
 __directive =
     ( EOF                              { yy->result = NULL; }
-- 
2.43.0


From fc906016b25f83dcb2cf3155e3b373d4df835965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:18 +0000
Subject: [PATCH 25/48] fix: parse nested expressions once instead of twice per
 level

---
 lib/src/parser.leg | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 6222122..b4466e0 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -430,12 +430,15 @@ _expression =
         | POSTFIX-OP &{PREC_CHK()} _block_replace_
                                        { l = unary_operator(op_pop(), l); }
         | LEFT-SQ-PAREN &{OP(SUBSCRIPT)} &{PREC_CHK()} -
-          r:expression RIGHT-SQ-PAREN - _block_replace_
-                                       { l = subscript_operator(l, r); }
-        | LEFT-SQ-PAREN &{OP(SUBSCRIPT)} &{PREC_CHK()} -
-          (s:expression | s:_null_) ELLIPSIS - (e:expression | e:_null_)
-          RIGHT-SQ-PAREN - _block_replace_
-                                       { l = slice_operator(l, s, e); }
+          ( s:expression
+            ( RIGHT-SQ-PAREN - _block_replace_
+                                       { l = subscript_operator(l, s); }
+            | ELLIPSIS - (e:expression | e:_null_) RIGHT-SQ-PAREN -
+              _block_replace_          { l = slice_operator(l, s, e); }
+            )
+          | ELLIPSIS - (e:expression | e:_null_) RIGHT-SQ-PAREN -
+            _block_replace_            { l = slice_operator(l, NULL, e); }
+          )
         | LEFT-CURLY &{OP(MAP_PROJECTION)} &{PREC_CHK()} -
           ( m:map_projection_element   { sequence_add(m); }
             ( COMMA - m:map_projection_element
@@ -446,8 +449,7 @@ _expression =
         | ( &{OP(LABEL)} &{PREC_CHK()} n:label
                                        { sequence_add(n); }
           )+ _block_replace_           { l = labels_operator(l); }
-        )+ _block_merge_               { $$ = l; }
-    | _atom
+        )* _block_merge_               { $$ = l; }
 _atom =
       _block_start_ PREFIX-OP - r:_prec_expression _block_end_
                                        { $$ = unary_operator(op_pop(), r); }
-- 
2.43.0


From 5c2a8fa0bfafd9c98b9207f0899b9e75ec460edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 26/48] fix: check the result of realloc in cp_vector_push

---
 lib/src/vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/vector.c b/lib/src/vector.c
index cebe564..3412ba5 100644
--- a/lib/src/vector.c
+++ b/lib/src/vector.c
@@ -68,7 +68,7 @@ int cp_vector_push(struct cp_vector *vec, void *element)
         unsigned int newcap = (vec->capacity == 0)?
             CYPHER_VECTOR_BLOCK_SIZE : vec->capacity * 2;
         void *elements = realloc(vec->elements, newcap * vec->element_size);
-        if (element == NULL)
+        if (elements == NULL)
         {
             return -1;
         }
-- 
2.43.0


From 57038dd85473dc6aa0ea8a041dee783c53203af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 27/48] fix: do not free the top-most parser block twice when
 parsing fails

---
 lib/src/parser.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index e6cb8b2..f0f2b46 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -762,10 +762,10 @@ int parse_one(yycontext *yy, yyrule rule)
 failure:
     errsv = errno;
     offsets_clear(&(yy->line_start_offsets));
-    struct block *block;
-    while ((block = blocks_pop(&(yy->blocks))) != NULL)
+    // the top-most block is owned, and freed, by the caller
+    while (blocks_size(&(yy->blocks)) > 1)
     {
-        block_free(block);
+        block_free(blocks_pop(&(yy->blocks)));
     }
     block_free(yy->prev_block);
     yy->prev_block = NULL;
-- 
2.43.0


From 2de063f00542007bcf86330394171cfdb66d5500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 28/48] fix: do not free a node twice when it cannot be added
 to a sequence

---
 lib/src/parser.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index f0f2b46..1050944 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -1062,9 +1062,7 @@ void _sequence_add(yycontext *yy, cypher_astnode_t *node)
     assert(block != NULL);
     if (astnodes_push(&(block->sequence), node))
     {
-        int errsv = errno;
-        cypher_ast_free(node);
-        errno = errsv;
+        // the node is a child of a block, and will be freed with it
         abort_parse(yy);
     }
 }
-- 
2.43.0


From 42aea4125222e50aa8624b14d7b466a16c3b73b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:53 +0000
Subject: [PATCH 29/48] fix: keep one owner for the children when merging a
 block fails

---
 lib/src/parser.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 1050944..b0503e0 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -974,6 +974,7 @@ void block_merge_action(yycontext *yy, char *text, int pos)
         {
             if (astnodes_push(&(pblock->children), astnodes_get(&(block->children), i)))
             {
+                astnodes_npop(&(pblock->children), i);
                 abort_parse(yy);
             }
         }
-- 
2.43.0


From 886566985f583e0e744ec247c233271f9591a9d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:54 +0000
Subject: [PATCH 30/48] fix: fail the parse when reading the stream fails

---
 lib/src/parser.c       | 10 +++++++++-
 lib/src/quick_parser.c | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index b0503e0..35d6f81 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -111,7 +111,7 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
-        return 0;
+        return ferror(stream)? -1 : 0;
     }
     *buf = c;
     return 1;
@@ -537,6 +537,14 @@ void source(yycontext *yy, char *buf, int *result, int max_size)
     }
     assert(yy != NULL && yy->source != NULL);
     *result = yy->source(yy->source_data, buf, max_size);
+    if (*result < 0)
+    {
+        if (errno == 0)
+        {
+            errno = EIO;
+        }
+        abort_parse(yy);
+    }
 }
 
 
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index a19077d..12b1cf1 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -62,7 +62,7 @@ static int source_from_stream(void *data, char *buf, int n)
     int c = getc(stream);
     if (c == EOF)
     {
-        return 0;
+        return ferror(stream)? -1 : 0;
     }
     *buf = c;
     return 1;
@@ -132,6 +132,14 @@ void source(yycontext *yy, char *buf, int *result, int max_size)
     }
     assert(yy != NULL && yy->source != NULL);
     *result = yy->source(yy->source_data, buf, max_size);
+    if (*result < 0)
+    {
+        if (errno == 0)
+        {
+            errno = EIO;
+        }
+        abort_parse(yy);
+    }
 }
 
 
-- 
2.43.0


From ab602a71d7f9e8e15f488238f590b16a5e94e4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:09 +0000
Subject: [PATCH 31/48] fix: do not rescan line comments at every character of
 skipped input

A line comment is followed by a line end, so a resync keyword can never
follow it directly; scanning for one made skipping invalid input quadratic.
---
 lib/src/parser.leg | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index b4466e0..c89e907 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -1069,7 +1069,7 @@ WB = &(EOF | !sym-part .)
 skip-to-directive = < . (!(
       EOF
     | SEMICOLON
-    | (WS | comment) resync-directive
+    | (WS | block-comment) resync-directive
     ) .)* >                            { $$ = skip(); }
 resync-directive =
       resync-statement
@@ -1078,7 +1078,7 @@ resync-directive =
 skip-to-statement = < . (!(
       EOF
     | SEMICOLON
-    | (WS | comment) resync-statement
+    | (WS | block-comment) resync-statement
     ) .)* >                            { $$ = skip(); }
 resync-statement =
       resync-clause
@@ -1089,7 +1089,7 @@ resync-statement =
 skip-to-clause = < . (!(
       EOF
     | SEMICOLON
-    | (WS | comment) resync-clause
+    | (WS | block-comment) resync-clause
     ) .)* >                            { $$ = skip(); }
 resync-clause =
       LOADCSV
-- 
2.43.0


From 5bbed86e8190376eff0cdf440f880c1f4b9b1d8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:22 +0000
Subject: [PATCH 32/48] fix: split input in the quick parser where the parser
 does

Back-quoted names may contain semicolons. Blanks and comments at the end of
a segment are no longer part of its text, whatever they are followed by,
and are looked at once instead of once for every character of theirs.
---
 lib/src/quick_parser.leg | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lib/src/quick_parser.leg b/lib/src/quick_parser.leg
index ab9570c..40d4c05 100644
--- a/lib/src/quick_parser.leg
+++ b/lib/src/quick_parser.leg
@@ -18,29 +18,29 @@ directive = (client-command | statement)
 
 client-command = - < ':' command-body > -- (';' | line-end)
                                        { segment(false, yy); }
-command-body =
-    ( escaped-char
+command-body = (-- command-item)*
+command-item =
+      escaped-char
     | '\\;'
     | '\\' -- line-end
-    | block-comment
     | unclosed-block-comment
     | quoted
-    | !(';' | -- line-end) .
-    )*
+    | !(';' | line-end) .
 
 statement = - < statement-body > - ( ';' | EOF )
                                        { segment(true, yy); }
-statement-body =
-    ( comment
-    | quoted
+statement-body = (- statement-item)*
+statement-item =
+      quoted
+    | back-quoted
     | unclosed-block-comment
     | escaped-char
-    | !(- ';') .
-    )*
+    | !';' .
 
 quoted = single-quoted | double-quoted
 single-quoted = "'" (escaped-char | EOL | !"'" .)* ("'" | EOF)
 double-quoted = '"' (escaped-char | EOL | !'"' .)* ('"' | EOF)
+back-quoted = '`' (EOL | !'`' .)* ('`' | EOF)
 
 escaped-char = '\\' [abfnrtv"'?\\]
 
-- 
2.43.0


From b90bedf5d8508235c61a291193ba9fb694bbbd27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:29 +0000
Subject: [PATCH 33/48] fix: resync after a line comment again, without
 rescanning its line

The previous change lost the resync at a line comment whose next line begins
a clause.
---
 lib/src/parser.leg | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index c89e907..1709bf7 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -1066,11 +1066,18 @@ WB = &(EOF | !sym-part .)
 #----------------------------------------------------
 
 # remove one char of input, then as much as necessary to reach a sync point
+# (when no sync point follows a line comment, then none follows the line
+# comments that begin later on that line either)
 skip-to-directive = < . (!(
       EOF
     | SEMICOLON
+    | (WS | comment) resync-directive
+    ) ('//' (!(
+      EOL
+    | EOF
+    | SEMICOLON
     | (WS | block-comment) resync-directive
-    ) .)* >                            { $$ = skip(); }
+    ) .)* | .))* >                     { $$ = skip(); }
 resync-directive =
       resync-statement
     | COLON
@@ -1078,8 +1085,13 @@ resync-directive =
 skip-to-statement = < . (!(
       EOF
     | SEMICOLON
+    | (WS | comment) resync-statement
+    ) ('//' (!(
+      EOL
+    | EOF
+    | SEMICOLON
     | (WS | block-comment) resync-statement
-    ) .)* >                            { $$ = skip(); }
+    ) .)* | .))* >                     { $$ = skip(); }
 resync-statement =
       resync-clause
     | CYPHER
@@ -1089,8 +1101,13 @@ resync-statement =
 skip-to-clause = < . (!(
       EOF
     | SEMICOLON
+    | (WS | comment) resync-clause
+    ) ('//' (!(
+      EOL
+    | EOF
+    | SEMICOLON
     | (WS | block-comment) resync-clause
-    ) .)* >                            { $$ = skip(); }
+    ) .)* | .))* >                     { $$ = skip(); }
 resync-clause =
       LOADCSV
     | START
-- 
2.43.0


From ef64af59b717f788b748de4ddadc2f4cecf3ae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:07 +0000
Subject: [PATCH 34/48] fix: look up the line of a position by binary search

Every position walked back over all later lines of its segment, so parsing
took time quadratic in the number of lines.
---
 lib/src/parser.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index 35d6f81..fad1820 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -877,14 +877,24 @@ struct cypher_input_position input_position(yycontext *yy, unsigned int pos)
 {
     assert(offsets_size(&(yy->line_start_offsets)) > 0);
 
-    unsigned int depth = offsets_size(&(yy->line_start_offsets));
-    unsigned int line_start_pos;
-    do
+    // find the last line that starts at or before pos
+    unsigned int depth = 1;
+    unsigned int upper = offsets_size(&(yy->line_start_offsets));
+    while (depth < upper)
     {
-        line_start_pos = offsets_get(&(yy->line_start_offsets), depth-1);
-    } while (line_start_pos > pos && depth > 0 && depth--);
+        unsigned int mid = depth + (upper - depth) / 2;
+        if (offsets_get(&(yy->line_start_offsets), mid) > pos)
+        {
+            upper = mid;
+        }
+        else
+        {
+            depth = mid + 1;
+        }
+    }
+    unsigned int line_start_pos =
+            offsets_get(&(yy->line_start_offsets), depth-1);
 
-    assert(depth > 0);
     assert(line_start_pos <= pos);
 
     struct cypher_input_position position =
-- 
2.43.0


From 577460650ef644354ce38ea9356cd8a1d84b4172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:11 +0000
Subject: [PATCH 35/48] fix: forget the furthest position when potential errors
 are cleared

Otherwise an error in the next segment, before that position, is lost.
---
 lib/src/errors.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/src/errors.h b/lib/src/errors.h
index a08b697..9160cbb 100644
--- a/lib/src/errors.h
+++ b/lib/src/errors.h
@@ -60,6 +60,7 @@ int cp_et_reify_potentials(cp_error_tracking_t *et);
 
 static inline void cp_et_clear_potentials(cp_error_tracking_t *et)
 {
+    et->last_position = cypher_input_position_zero;
     et->nlabels = 0;
 }
 
-- 
2.43.0


From 084cd4e3bd24a716f6c490e02d3d9b3385ff801e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:16 +0000
Subject: [PATCH 36/48] fix: do not expect a colon inside text skipped after an
 error

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index 1709bf7..f2fe0ac 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -1080,7 +1080,7 @@ skip-to-directive = < . (!(
     ) .)* | .))* >                     { $$ = skip(); }
 resync-directive =
       resync-statement
-    | COLON
+    | ':'
 
 skip-to-statement = < . (!(
       EOF
-- 
2.43.0


From bfd43e36c615e74ede6c7fcd79c999ebb2a39f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 37/48] fix: keep the error context offset within the context

---
 lib/src/util.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/util.c b/lib/src/util.c
index c80f74e..efb0d1c 100644
--- a/lib/src/util.c
+++ b/lib/src/util.c
@@ -137,6 +137,11 @@ char *line_context(const char *buf, size_t bufsize, size_t *offset,
         context[n-3] = '.';
     }
 
+    // when the error follows blank lines, the context is the line before them
     *offset -= (startp - buf);
+    if (*offset > n)
+    {
+        *offset = n;
+    }
     return context;
 }
-- 
2.43.0


From 7a4051ac2caaf858139b133db2a9ff3979e07b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:48 +0000
Subject: [PATCH 38/48] fix: spell the expected keyword 'relationship' right in
 error messages

---
 lib/src/parser.leg | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index f2fe0ac..a450b71 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -1001,7 +1001,7 @@ UNION = [Uu]([Nn][Ii][Oo][Nn] WB -) ~{ERR("UNION")}
 
 node = ([Nn][Oo][Dd][Ee] WB -) ~{ERR("node")}
 relationship = ([Rr][Ee][Ll][Aa][Tt][Ii][Oo][Nn][Ss][Hh][Ii][Pp] WB -)
-    ~{ERR("relatioinship")}
+    ~{ERR("relationship")}
 rel = ([Rr][Ee][Ll] WB -) ~{ERR("rel")}
 
 USING-INDEX = ([Uu][Ss][Ii][Nn][Gg] WB - [Ii][Nn][Dd][Ee][Xx] WB -)
-- 
2.43.0


From 574346412333e568035366d5720809aa33945a45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:08 +0000
Subject: [PATCH 39/48] fix: count the error context offset past blank lines
 again

This reverts bfd43e3: the tests of line_context rely on the offset being
counted from the start of the context also where the error lies past it.
---
 lib/src/util.c | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/lib/src/util.c b/lib/src/util.c
index efb0d1c..c80f74e 100644
--- a/lib/src/util.c
+++ b/lib/src/util.c
@@ -137,11 +137,6 @@ char *line_context(const char *buf, size_t bufsize, size_t *offset,
         context[n-3] = '.';
     }
 
-    // when the error follows blank lines, the context is the line before them
     *offset -= (startp - buf);
-    if (*offset > n)
-    {
-        *offset = n;
-    }
     return context;
 }
-- 
2.43.0


From 199579acaaf3a1d899d874c4a7db87b371f3236b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:07 +0000
Subject: [PATCH 40/48] fix: free the list of children when construction fails
 after making it

---
 lib/src/ast_call.c       | 1 +
 lib/src/ast_comparison.c | 1 +
 lib/src/ast_query.c      | 1 +
 3 files changed, 3 insertions(+)

diff --git a/lib/src/ast_call.c b/lib/src/ast_call.c
index 944e60c..92ad796 100644
--- a/lib/src/ast_call.c
+++ b/lib/src/ast_call.c
@@ -94,6 +94,7 @@ cypher_astnode_t *cypher_ast_call(const cypher_astnode_t *proc_name,
     int errsv;
 cleanup:
     errsv = errno;
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
diff --git a/lib/src/ast_comparison.c b/lib/src/ast_comparison.c
index 1ee11a0..b32234c 100644
--- a/lib/src/ast_comparison.c
+++ b/lib/src/ast_comparison.c
@@ -82,6 +82,7 @@ cypher_astnode_t *cypher_ast_comparison(unsigned int length,
     int errsv;
 cleanup:
     errsv = errno;
+    free(node->_astnode.children);
     free(node->ops);
     free(node);
     errno = errsv;
diff --git a/lib/src/ast_query.c b/lib/src/ast_query.c
index 8bc9e88..fedaa79 100644
--- a/lib/src/ast_query.c
+++ b/lib/src/ast_query.c
@@ -81,6 +81,7 @@ cypher_astnode_t *cypher_ast_query(cypher_astnode_t * const *options,
     int errsv;
 cleanup:
     errsv = errno;
+    free(node->_astnode.children);
     free(node);
     errno = errsv;
     return NULL;
-- 
2.43.0


From 0b688370e6f2f2728b198fb1ea6e59f0d28be8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:54 +0000
Subject: [PATCH 41/48] fix: free the first list when cloning a query or call
 fails at the second

---
 lib/src/ast_call.c  | 3 +++
 lib/src/ast_query.c | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/lib/src/ast_call.c b/lib/src/ast_call.c
index 92ad796..8fdc330 100644
--- a/lib/src/ast_call.c
+++ b/lib/src/ast_call.c
@@ -129,6 +129,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
             calloc(node->nprojections, sizeof(cypher_astnode_t *));
     if (projections == NULL)
     {
+        int errsv = errno;
+        free(args);
+        errno = errsv;
         return NULL;
     }
     for (unsigned int i = 0; i < node->nprojections; ++i)
diff --git a/lib/src/ast_query.c b/lib/src/ast_query.c
index fedaa79..3d325b2 100644
--- a/lib/src/ast_query.c
+++ b/lib/src/ast_query.c
@@ -108,6 +108,9 @@ cypher_astnode_t *clone(const cypher_astnode_t *self,
             calloc(node->nclauses, sizeof(cypher_astnode_t *));
     if (clauses == NULL)
     {
+        int errsv = errno;
+        free(options);
+        errno = errsv;
         return NULL;
     }
     for (unsigned int i = 0; i < node->nclauses; ++i)
-- 
2.43.0


From b8ea81abfc01430208adcf70c442001ac11c5a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 42/48] fix: construct a pattern path in linear time

---
 lib/src/ast_pattern_path.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/src/ast_pattern_path.c b/lib/src/ast_pattern_path.c
index b97608c..f345960 100644
--- a/lib/src/ast_pattern_path.c
+++ b/lib/src/ast_pattern_path.c
@@ -76,10 +76,11 @@ cypher_astnode_t *cypher_ast_pattern_path(cypher_astnode_t * const *elements,
     REQUIRE(elements != NULL, NULL);
     for (unsigned int i = 0; i < nelements; ++i)
     {
-        REQUIRE_CHILD(children, nchildren, elements[i],
+        REQUIRE_TYPE(elements[i],
                 (i%2 == 0)? CYPHER_AST_NODE_PATTERN : CYPHER_AST_REL_PATTERN,
                 NULL);
     }
+    REQUIRE_CONTAINS_ALL(children, nchildren, elements, nelements, NULL);
 
     struct pattern_path *node = calloc(1, sizeof(struct pattern_path) +
             nelements * sizeof(cypher_astnode_t *));
-- 
2.43.0


From 01b63afdbe608e4872a97ac06cddf8bc829bd6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:56 +0000
Subject: [PATCH 43/48] fix: do not truncate the length of input buffers of 2
 GiB and more

---
 lib/src/parser.c       | 2 +-
 lib/src/quick_parser.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/parser.c b/lib/src/parser.c
index fad1820..76a9066 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -70,7 +70,7 @@ struct source_from_buffer_data
 static int source_from_buffer(void *data, char *buf, int n)
 {
     struct source_from_buffer_data *input = data;
-    int len = min(input->length, n);
+    int len = minzu(input->length, n);
     input->length -= len;
     if (len == 0)
     {
diff --git a/lib/src/quick_parser.c b/lib/src/quick_parser.c
index 12b1cf1..28143ca 100644
--- a/lib/src/quick_parser.c
+++ b/lib/src/quick_parser.c
@@ -44,7 +44,7 @@ struct source_from_buffer_data
 static int source_from_buffer(void *data, char *buf, int n)
 {
     struct source_from_buffer_data *input = data;
-    int len = min(input->length, n);
+    int len = minzu(input->length, n);
     input->length -= len;
     if (len == 0)
     {
-- 
2.43.0


From 8d9f6d7a693282c165e70b22e0fc945ccb087573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:38 +0000
Subject: [PATCH 44/48] fix: print references to ordinals as unsigned in all
 details

---
 lib/src/ast_create.c        | 2 +-
 lib/src/ast_match.c         | 2 +-
 lib/src/ast_merge.c         | 2 +-
 lib/src/ast_named_path.c    | 2 +-
 lib/src/ast_shortest_path.c | 2 +-
 5 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/src/ast_create.c b/lib/src/ast_create.c
index 391bdb7..d46bf26 100644
--- a/lib/src/ast_create.c
+++ b/lib/src/ast_create.c
@@ -102,6 +102,6 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
 {
     REQUIRE_TYPE(self, CYPHER_AST_CREATE, -1);
     struct create *node = container_of(self, struct create, _astnode);
-    return snprintf(str, size, "%spattern=@%d", node->unique? "UNIQUE, " : "",
+    return snprintf(str, size, "%spattern=@%u", node->unique? "UNIQUE, " : "",
             node->pattern->ordinal);
 }
diff --git a/lib/src/ast_match.c b/lib/src/ast_match.c
index 8d3f6e6..75d6d46 100644
--- a/lib/src/ast_match.c
+++ b/lib/src/ast_match.c
@@ -170,7 +170,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
     struct match *node = container_of(self, struct match, _astnode);
 
     size_t n = 0;
-    ssize_t r = snprintf(str, size, "%spattern=@%d",
+    ssize_t r = snprintf(str, size, "%spattern=@%u",
             node->optional? "OPTIONAL, " : "", node->pattern->ordinal);
     if (r < 0)
     {
diff --git a/lib/src/ast_merge.c b/lib/src/ast_merge.c
index 668be11..d003c80 100644
--- a/lib/src/ast_merge.c
+++ b/lib/src/ast_merge.c
@@ -143,7 +143,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
     struct merge *node = container_of(self, struct merge, _astnode);
 
     size_t n = 0;
-    ssize_t r = snprintf(str, size, "path=@%d", node->path->ordinal);
+    ssize_t r = snprintf(str, size, "path=@%u", node->path->ordinal);
     if (r < 0)
     {
         return -1;
diff --git a/lib/src/ast_named_path.c b/lib/src/ast_named_path.c
index b2b63ee..85ca8b2 100644
--- a/lib/src/ast_named_path.c
+++ b/lib/src/ast_named_path.c
@@ -141,6 +141,6 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
             container_of(self, cypher_pattern_path_astnode_t, _astnode);
     struct named_path *node =
             container_of(ppnode, struct named_path, _pattern_path_astnode);
-    return snprintf(str, size, "@%d = @%d", node->identifier->ordinal,
+    return snprintf(str, size, "@%u = @%u", node->identifier->ordinal,
             node->path->ordinal);
 }
diff --git a/lib/src/ast_shortest_path.c b/lib/src/ast_shortest_path.c
index 04c1d37..f64e0a0 100644
--- a/lib/src/ast_shortest_path.c
+++ b/lib/src/ast_shortest_path.c
@@ -138,7 +138,7 @@ ssize_t detailstr(const cypher_astnode_t *self, char *str, size_t size)
             container_of(self, cypher_pattern_path_astnode_t, _astnode);
     struct shortest_path *node =
             container_of(ppnode, struct shortest_path, _pattern_path_astnode);
-    return snprintf(str, size, "single=%s, path=@%d",
+    return snprintf(str, size, "single=%s, path=@%u",
             node->single? "true" : "false",
             node->path->ordinal);
 }
-- 
2.43.0


From fe577ac4dce079ec712806dcf03515ef7dcb71c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:54 +0000
Subject: [PATCH 45/48] fix: tell a NUL character from the end of input in
 error messages

---
 lib/src/errors.c | 11 ++++++-----
 lib/src/errors.h |  4 ++--
 lib/src/parser.c |  2 +-
 3 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/lib/src/errors.c b/lib/src/errors.c
index ab061c9..6adb2ad 100644
--- a/lib/src/errors.c
+++ b/lib/src/errors.c
@@ -25,7 +25,7 @@
 #define CYPHER_ERROR_LABELS_BLOCK_SIZE 8
 #define CYPHER_PARSER_ERRORS_BLOCK_SIZE 8
 
-static char *chardesc(char *buf, size_t size, char c);
+static char *chardesc(char *buf, size_t size, int c);
 static char *error_report(cp_error_tracking_t *et, char **buffer, size_t *cap,
         const char *prefix_format, ...) __cypherlang_format(4, 5);
 
@@ -74,7 +74,7 @@ void cp_et_init(cp_error_tracking_t *et,
 
 
 int cp_et_note_potential_error(cp_error_tracking_t *et,
-        struct cypher_input_position position, char c, const char *label)
+        struct cypher_input_position position, int c, const char *label)
 {
     if (position.offset < et->last_position.offset || 
             (et->nerrors > 0 && position.offset <= et->last_error_offset))
@@ -177,7 +177,7 @@ int cp_et_reify_potentials(cp_error_tracking_t *et)
 }
 
 
-char *chardesc(char *buf, size_t size, char c)
+char *chardesc(char *buf, size_t size, int c)
 {
     assert(size >= 4);
     switch (c)
@@ -190,10 +190,11 @@ char *chardesc(char *buf, size_t size, char c)
     case '\t': return "'\\t'";
     case '\v': return "'\\v'";
     case '\'': return "'\\''";
-    case '\0': return "at end of input";
+    case '\0': return "'\\0'";
+    case -1: return "at end of input";
     default:
         buf[0] = '\'';
-        buf[1] = c;
+        buf[1] = (char)c;
         buf[2] = '\'';
         buf[3] = '\0';
         return buf;
diff --git a/lib/src/errors.h b/lib/src/errors.h
index 9160cbb..431c0ad 100644
--- a/lib/src/errors.h
+++ b/lib/src/errors.h
@@ -38,7 +38,7 @@ struct cp_error_tracking
     const struct cypher_parser_colorization *colorization;
 
     struct cypher_input_position last_position;
-    char last_char;
+    int last_char; // or -1, at the end of the input
     const char **labels;
     unsigned int labels_capacity;
     unsigned int nlabels;
@@ -54,7 +54,7 @@ void cp_et_init(cp_error_tracking_t *et,
         const struct cypher_parser_colorization *colorization);
 
 int cp_et_note_potential_error(cp_error_tracking_t *et,
-        struct cypher_input_position position, char c, const char *label);
+        struct cypher_input_position position, int c, const char *label);
 
 int cp_et_reify_potentials(cp_error_tracking_t *et);
 
diff --git a/lib/src/parser.c b/lib/src/parser.c
index 76a9066..0941e2f 100644
--- a/lib/src/parser.c
+++ b/lib/src/parser.c
@@ -1039,7 +1039,7 @@ void _err(yycontext *yy, const char *label)
     backtrack_lines(yy, pos);
 
     struct cypher_input_position position = input_position(yy, pos);
-    char c = (yy->__pos < yy->__limit)? yy->__buf[pos] : '\0';
+    int c = (yy->__pos < yy->__limit)? (unsigned char)yy->__buf[pos] : -1;
     if (cp_et_note_potential_error(&(yy->error_tracking), position, c, label))
     {
         abort_parse(yy);
-- 
2.43.0


From 29790fd943390c6f207a5cf5ef86c313e4804f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:53 +0000
Subject: [PATCH 46/48] fix: report failure to write the output of cypher-lint

---
 linter/src/cypher-lint.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/linter/src/cypher-lint.c b/linter/src/cypher-lint.c
index 4211f4e..c25c2e4 100644
--- a/linter/src/cypher-lint.c
+++ b/linter/src/cypher-lint.c
@@ -261,6 +261,14 @@ int main(int argc, char *argv[])
     result = EXIT_SUCCESS;
 
 cleanup:
+    if (fflush(stdout) != 0 || ferror(stdout))
+    {
+        if (result == EXIT_SUCCESS)
+        {
+            perror("cypher-lint: write error");
+        }
+        result = EXIT_FAILURE;
+    }
     return result;
 }
 
-- 
2.43.0


From f38832567e617ab5c8cd9c86def44b1574a51f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:19 +0000
Subject: [PATCH 47/48] fix: do not search all children for each part when
 cloning

---
 lib/src/ast.c     | 4 ++++
 lib/src/astnode.h | 8 +++++++-
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/src/ast.c b/lib/src/ast.c
index d821c57..67813ae 100644
--- a/lib/src/ast.c
+++ b/lib/src/ast.c
@@ -914,6 +914,10 @@ int cypher_astnode_init(cypher_astnode_t *node,
             return -1;
         }
         node->nchildren = nchildren;
+        for (unsigned int i = 0; i < nchildren; ++i)
+        {
+            children[i]->index = i;
+        }
     }
     else
     {
diff --git a/lib/src/astnode.h b/lib/src/astnode.h
index 3bce692..2326463 100644
--- a/lib/src/astnode.h
+++ b/lib/src/astnode.h
@@ -42,6 +42,7 @@ struct cypher_astnode
     cypher_astnode_type_t type;
     cypher_astnode_t **children;
     unsigned int nchildren;
+    unsigned int index; // in the children of the parent
     struct cypher_input_range range;
     unsigned int ordinal;
     struct cypher_astnode_annotation *annotations;
@@ -130,7 +131,12 @@ ssize_t snprint_sequence(char *str, size_t size,
 static inline int child_index(const cypher_astnode_t *node,
         const cypher_astnode_t *child)
 {
-    unsigned int i = 0;
+    unsigned int i = child->index;
+    if (i < node->nchildren && node->children[i] == child)
+    {
+        return i;
+    }
+    i = 0;
     while (i < node->nchildren && node->children[i] != child)
     {
         i++;
-- 
2.43.0


From 24c2d4ee9aafaf2a58156ef89debf0776df91a65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:05 +0000
Subject: [PATCH 48/48] fix: resume at CYPHER, PROFILE or EXPLAIN after a
 syntax error

They were recognised as places to resume, but the blank before them was
not skipped, so that a second error was reported and the option lost.
---
 lib/src/parser.leg | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/parser.leg b/lib/src/parser.leg
index a450b71..3a569ba 100644
--- a/lib/src/parser.leg
+++ b/lib/src/parser.leg
@@ -29,7 +29,7 @@ __entry_points = directive | statement
 directive = - _directive
 _directive =
     ( __directive                      { finished(yy); }
-    | _error_ (EOF | skip-to-directive) (- &':')? _directive
+    | _error_ (EOF | skip-to-directive) (- &(':' | resync-option))? _directive
     )
 __directive =
     ( EOF                              { yy->result = NULL; }
@@ -41,7 +41,7 @@ __directive =
 statement = - _statement
 _statement =
     ( __statement                      { finished(yy); }
-    | _error_ (EOF | skip-to-statement) _statement
+    | _error_ (EOF | skip-to-statement) (- &resync-option)? _statement
     )
 __statement =
     ( EOF                              { yy->result = NULL; }
@@ -1094,7 +1094,9 @@ skip-to-statement = < . (!(
     ) .)* | .))* >                     { $$ = skip(); }
 resync-statement =
       resync-clause
-    | CYPHER
+    | resync-option
+resync-option =
+      CYPHER
     | PROFILE
     | EXPLAIN
 
-- 
2.43.0

