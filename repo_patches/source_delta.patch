From 642e9b6ee41c53eef89d83ea7a4860439d3a30ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 01/19] fix: serialize v6 parsing, the C parser keeps its state
 in globals

---
 v6/pkg/tsl/tsl.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 69e1008..6658145 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -23,10 +23,15 @@ package tsl
 */
 import "C"
 import (
+	"sync"
 	"time"
 	"unsafe"
 )
 
+// parseMu serializes calls into the C parser: the flex scanner, the bison
+// parser and the error reporting keep their state in global variables.
+var parseMu sync.Mutex
+
 // TSLNode represents an tree search language AST (Abstract Syntax Tree) node
 type TSLNode struct {
 	cNode *C.ast_node
@@ -48,6 +53,9 @@ func ParseTSL(input string) (*TSLNode, error) {
 	cInput := C.CString(input)
 	defer C.free(unsafe.Pointer(cInput))
 
+	parseMu.Lock()
+	defer parseMu.Unlock()
+
 	cNode := C.parse_input_string(cInput)
 	if cNode == nil {
 		errStr := C.GoString(C.get_error_string())
-- 
2.43.0


From b839216983ca37a66e66eef8f178de5ce9d9268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:41 +0000
Subject: [PATCH 02/19] fix: give every drawn node its own graphviz ID

---
 v4/pkg/walkers/graphviz/walk.go |  9 +++++++--
 v5/pkg/walkers/graphviz/walk.go |  9 +++++++--
 v6/pkg/walkers/graphviz/walk.go | 10 ++++++++--
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/v4/pkg/walkers/graphviz/walk.go b/v4/pkg/walkers/graphviz/walk.go
index cacabe7..8297950 100644
--- a/v4/pkg/walkers/graphviz/walk.go
+++ b/v4/pkg/walkers/graphviz/walk.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"math/rand"
 	"strings"
+	"sync/atomic"
 
 	"github.com/yaacov/tree-search-language/v4/pkg/tsl"
 )
@@ -33,13 +34,17 @@ const numberStyle = "shape=record color=blue"
 const stringStyle = "shape=record color=blue"
 const opStyle = "shape=box color=black"
 
-// Generate a random string.
+// nodeSeq counts the node IDs handed out.
+var nodeSeq uint64
+
+// Generate a random string, followed by a sequence number: random letters alone
+// may repeat, and nodes sharing an ID are drawn as one node.
 func randStr(l int) string {
 	bytes := make([]byte, l)
 	for i := 0; i < l; i++ {
 		bytes[i] = pool[rand.Intn(len(pool))]
 	}
-	return string(bytes)
+	return fmt.Sprintf("%s%d", bytes, atomic.AddUint64(&nodeSeq, 1))
 }
 
 // Walk travel the TSL tree to create Graphviz dot nodes.
diff --git a/v5/pkg/walkers/graphviz/walk.go b/v5/pkg/walkers/graphviz/walk.go
index c12c81a..c8617f7 100644
--- a/v5/pkg/walkers/graphviz/walk.go
+++ b/v5/pkg/walkers/graphviz/walk.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"math/rand"
 	"strings"
+	"sync/atomic"
 
 	"github.com/yaacov/tree-search-language/v5/pkg/tsl"
 )
@@ -34,13 +35,17 @@ const stringStyle = "shape=record color=blue"
 const dateStyle = "shape=record color=orange"
 const opStyle = "shape=box color=black"
 
-// Generate a random string.
+// nodeSeq counts the node IDs handed out.
+var nodeSeq uint64
+
+// Generate a random string, followed by a sequence number: random letters alone
+// may repeat, and nodes sharing an ID are drawn as one node.
 func randStr(l int) string {
 	bytes := make([]byte, l)
 	for i := 0; i < l; i++ {
 		bytes[i] = pool[rand.Intn(len(pool))]
 	}
-	return string(bytes)
+	return fmt.Sprintf("%s%d", bytes, atomic.AddUint64(&nodeSeq, 1))
 }
 
 // Walk travel the TSL tree to create Graphviz dot nodes.
diff --git a/v6/pkg/walkers/graphviz/walk.go b/v6/pkg/walkers/graphviz/walk.go
index 5ca4f5a..54bd826 100644
--- a/v6/pkg/walkers/graphviz/walk.go
+++ b/v6/pkg/walkers/graphviz/walk.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"math/rand"
 	"strings"
+	"sync/atomic"
 
 	"github.com/yaacov/tree-search-language/v6/pkg/tsl"
 )
@@ -38,14 +39,19 @@ const timestampStyle = baseRecordStyle + " color=orange"
 const opStyle = baseBoxStyle + " color=black"
 const arrayStyle = baseBoxStyle + " color=green"
 
-// Generate a random string of specified length using only letters
+// nodeSeq counts the node IDs handed out.
+var nodeSeq uint64
+
+// Generate a random string of specified length using only letters, followed
+// by a sequence number: random letters alone may repeat, and nodes sharing an
+// ID are drawn as one node.
 func randStr(l int) string {
 	const pool = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
 	bytes := make([]byte, l)
 	for i := 0; i < l; i++ {
 		bytes[i] = pool[rand.Intn(len(pool))]
 	}
-	return string(bytes)
+	return fmt.Sprintf("%s%d", bytes, atomic.AddUint64(&nodeSeq, 1))
 }
 
 // formatLeafNodeWithInput creates a graphviz node string for leaf nodes including input string
-- 
2.43.0


From 793aa25f80da92b61f6ab0e54866421f54e30275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 03/19] fix: free the values the v6 parser drops on a syntax
 error

---
 v6/pkg/parser/tsl_parser.y  |   6 +
 v6/pkg/tsl/tsl_parser.tab.c | 316 ++++++++++++++++++++++++------------
 2 files changed, 217 insertions(+), 105 deletions(-)

diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index 401d005..2146fdc 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -66,6 +66,12 @@ char *error_string = NULL;
 
 %start input
 
+/* Values the parser drops on a syntax error; input is the result itself. */
+%destructor { free($$); } <str>
+%destructor { ast_free($$); } expr or_expr and_expr comparison_expr
+%destructor { ast_free($$); } additive_expr multiplicative_expr not_expr unary_expr
+%destructor { ast_free($$); } primary array_elements array opt_array_elements
+
 %%
 
 input:
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index 116b36e..1aa2e06 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -574,12 +574,12 @@ static const yytype_int8 yytranslate[] =
 /* YYRLINE[YYN] -- Source line where rule number YYN was defined.  */
 static const yytype_uint8 yyrline[] =
 {
-       0,    72,    72,    76,    80,    81,    85,    86,    90,    91,
-      92,    93,    94,    95,    96,    97,    98,    99,   100,   101,
-     105,   109,   110,   114,   122,   131,   132,   139,   140,   141,
-     145,   146,   147,   148,   152,   153,   154,   155,   156,   157,
-     161,   162,   163,   164,   165,   169,   173,   174,   175,   179,
-     185,   199,   200,   201,   202,   203,   204,   205
+       0,    78,    78,    82,    86,    87,    91,    92,    96,    97,
+      98,    99,   100,   101,   102,   103,   104,   105,   106,   107,
+     111,   115,   116,   120,   128,   137,   138,   145,   146,   147,
+     151,   152,   153,   154,   158,   159,   160,   161,   162,   163,
+     167,   168,   169,   170,   171,   175,   179,   180,   181,   185,
+     191,   205,   206,   207,   208,   209,   210,   211
 };
 #endif
 
@@ -943,7 +943,113 @@ yydestruct (const char *yymsg,
   YY_SYMBOL_PRINT (yymsg, yykind, yyvaluep, yylocationp);
 
   YY_IGNORE_MAYBE_UNINITIALIZED_BEGIN
-  YY_USE (yykind);
+  switch (yykind)
+    {
+    case YYSYMBOL_RFC3339: /* RFC3339  */
+#line 70 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 952 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_DATE: /* DATE  */
+#line 70 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 958 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_NUMERIC_LITERAL: /* NUMERIC_LITERAL  */
+#line 70 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 964 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_STRING_LITERAL: /* STRING_LITERAL  */
+#line 70 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 970 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_IDENTIFIER: /* IDENTIFIER  */
+#line 70 "tsl_parser.y"
+            { free(((*yyvaluep).str)); }
+#line 976 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_expr: /* expr  */
+#line 71 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 982 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_or_expr: /* or_expr  */
+#line 71 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 988 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_and_expr: /* and_expr  */
+#line 71 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 994 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_comparison_expr: /* comparison_expr  */
+#line 71 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1000 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_additive_expr: /* additive_expr  */
+#line 72 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1006 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_multiplicative_expr: /* multiplicative_expr  */
+#line 72 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1012 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_not_expr: /* not_expr  */
+#line 72 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1018 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_unary_expr: /* unary_expr  */
+#line 72 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1024 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_array: /* array  */
+#line 73 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1030 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_opt_array_elements: /* opt_array_elements  */
+#line 73 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1036 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_array_elements: /* array_elements  */
+#line 73 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1042 "../tsl/tsl_parser.tab.c"
+        break;
+
+    case YYSYMBOL_primary: /* primary  */
+#line 73 "tsl_parser.y"
+            { ast_free(((*yyvaluep).node)); }
+#line 1048 "../tsl/tsl_parser.tab.c"
+        break;
+
+      default:
+        break;
+    }
   YY_IGNORE_MAYBE_UNINITIALIZED_END
 }
 
@@ -1206,118 +1312,118 @@ yyreduce:
   switch (yyn)
     {
   case 2: /* input: expr  */
-#line 72 "tsl_parser.y"
+#line 78 "tsl_parser.y"
          { (yyval.node) = (yyvsp[0].node); ast_root = (yyvsp[0].node); }
-#line 1212 "../tsl/tsl_parser.tab.c"
+#line 1318 "../tsl/tsl_parser.tab.c"
     break;
 
   case 5: /* or_expr: or_expr K_OR and_expr  */
-#line 81 "tsl_parser.y"
+#line 87 "tsl_parser.y"
                                    { (yyval.node) = ast_create_binary(K_OR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1218 "../tsl/tsl_parser.tab.c"
+#line 1324 "../tsl/tsl_parser.tab.c"
     break;
 
   case 7: /* and_expr: and_expr K_AND comparison_expr  */
-#line 86 "tsl_parser.y"
+#line 92 "tsl_parser.y"
                                           { (yyval.node) = ast_create_binary(K_AND, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1224 "../tsl/tsl_parser.tab.c"
+#line 1330 "../tsl/tsl_parser.tab.c"
     break;
 
   case 9: /* comparison_expr: comparison_expr EQ additive_expr  */
-#line 91 "tsl_parser.y"
+#line 97 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(EQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1230 "../tsl/tsl_parser.tab.c"
+#line 1336 "../tsl/tsl_parser.tab.c"
     break;
 
   case 10: /* comparison_expr: comparison_expr NE additive_expr  */
-#line 92 "tsl_parser.y"
+#line 98 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(NE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1236 "../tsl/tsl_parser.tab.c"
+#line 1342 "../tsl/tsl_parser.tab.c"
     break;
 
   case 11: /* comparison_expr: comparison_expr LT additive_expr  */
-#line 93 "tsl_parser.y"
+#line 99 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(LT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1242 "../tsl/tsl_parser.tab.c"
+#line 1348 "../tsl/tsl_parser.tab.c"
     break;
 
   case 12: /* comparison_expr: comparison_expr LE additive_expr  */
-#line 94 "tsl_parser.y"
+#line 100 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(LE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1248 "../tsl/tsl_parser.tab.c"
+#line 1354 "../tsl/tsl_parser.tab.c"
     break;
 
   case 13: /* comparison_expr: comparison_expr GT additive_expr  */
-#line 95 "tsl_parser.y"
+#line 101 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(GT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1254 "../tsl/tsl_parser.tab.c"
+#line 1360 "../tsl/tsl_parser.tab.c"
     break;
 
   case 14: /* comparison_expr: comparison_expr GE additive_expr  */
-#line 96 "tsl_parser.y"
+#line 102 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(GE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1260 "../tsl/tsl_parser.tab.c"
+#line 1366 "../tsl/tsl_parser.tab.c"
     break;
 
   case 15: /* comparison_expr: comparison_expr REQ additive_expr  */
-#line 97 "tsl_parser.y"
+#line 103 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(REQ, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1266 "../tsl/tsl_parser.tab.c"
+#line 1372 "../tsl/tsl_parser.tab.c"
     break;
 
   case 16: /* comparison_expr: comparison_expr RNE additive_expr  */
-#line 98 "tsl_parser.y"
+#line 104 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(RNE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1272 "../tsl/tsl_parser.tab.c"
+#line 1378 "../tsl/tsl_parser.tab.c"
     break;
 
   case 17: /* comparison_expr: comparison_expr K_LIKE additive_expr  */
-#line 99 "tsl_parser.y"
+#line 105 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_LIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1278 "../tsl/tsl_parser.tab.c"
+#line 1384 "../tsl/tsl_parser.tab.c"
     break;
 
   case 18: /* comparison_expr: comparison_expr K_ILIKE additive_expr  */
-#line 100 "tsl_parser.y"
+#line 106 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_ILIKE, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1284 "../tsl/tsl_parser.tab.c"
+#line 1390 "../tsl/tsl_parser.tab.c"
     break;
 
   case 19: /* comparison_expr: comparison_expr K_NOT K_LIKE additive_expr  */
-#line 101 "tsl_parser.y"
+#line 107 "tsl_parser.y"
                                                   { 
         ast_node *like_expr = ast_create_binary(K_LIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, like_expr);
     }
-#line 1293 "../tsl/tsl_parser.tab.c"
+#line 1399 "../tsl/tsl_parser.tab.c"
     break;
 
   case 20: /* comparison_expr: comparison_expr K_NOT K_ILIKE additive_expr  */
-#line 105 "tsl_parser.y"
+#line 111 "tsl_parser.y"
                                                   { 
         ast_node *ilike_expr = ast_create_binary(K_ILIKE, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, ilike_expr);
     }
-#line 1302 "../tsl/tsl_parser.tab.c"
+#line 1408 "../tsl/tsl_parser.tab.c"
     break;
 
   case 21: /* comparison_expr: comparison_expr K_IS K_NULL  */
-#line 109 "tsl_parser.y"
+#line 115 "tsl_parser.y"
                                             { (yyval.node) = ast_create_binary(K_IS, (yyvsp[-2].node), ast_create_null()); }
-#line 1308 "../tsl/tsl_parser.tab.c"
+#line 1414 "../tsl/tsl_parser.tab.c"
     break;
 
   case 22: /* comparison_expr: comparison_expr K_IS K_NOT K_NULL  */
-#line 110 "tsl_parser.y"
+#line 116 "tsl_parser.y"
                                             { 
         ast_node *is_null = ast_create_binary(K_IS, (yyvsp[-3].node), ast_create_null());
         (yyval.node) = ast_create_unary(K_NOT, is_null);
     }
-#line 1317 "../tsl/tsl_parser.tab.c"
+#line 1423 "../tsl/tsl_parser.tab.c"
     break;
 
   case 23: /* comparison_expr: comparison_expr K_BETWEEN additive_expr K_AND additive_expr  */
-#line 114 "tsl_parser.y"
+#line 120 "tsl_parser.y"
                                                                   {
         ast_node **elements = malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
@@ -1326,11 +1432,11 @@ yyreduce:
         (yyval.node) = ast_create_binary(K_BETWEEN, (yyvsp[-4].node), range);
         free(elements);
     }
-#line 1330 "../tsl/tsl_parser.tab.c"
+#line 1436 "../tsl/tsl_parser.tab.c"
     break;
 
   case 24: /* comparison_expr: comparison_expr K_NOT K_BETWEEN additive_expr K_AND additive_expr  */
-#line 122 "tsl_parser.y"
+#line 128 "tsl_parser.y"
                                                                         {
         ast_node **elements = malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
@@ -1340,145 +1446,145 @@ yyreduce:
         (yyval.node) = ast_create_unary(K_NOT, between);
         free(elements);
     }
-#line 1344 "../tsl/tsl_parser.tab.c"
+#line 1450 "../tsl/tsl_parser.tab.c"
     break;
 
   case 25: /* comparison_expr: comparison_expr K_IN additive_expr  */
-#line 131 "tsl_parser.y"
+#line 137 "tsl_parser.y"
                                              { (yyval.node) = ast_create_binary(K_IN, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1350 "../tsl/tsl_parser.tab.c"
+#line 1456 "../tsl/tsl_parser.tab.c"
     break;
 
   case 26: /* comparison_expr: comparison_expr K_NOT K_IN additive_expr  */
-#line 132 "tsl_parser.y"
+#line 138 "tsl_parser.y"
                                                {
         ast_node *in_expr = ast_create_binary(K_IN, (yyvsp[-3].node), (yyvsp[0].node));
         (yyval.node) = ast_create_unary(K_NOT, in_expr);
     }
-#line 1359 "../tsl/tsl_parser.tab.c"
+#line 1465 "../tsl/tsl_parser.tab.c"
     break;
 
   case 28: /* additive_expr: additive_expr PLUS multiplicative_expr  */
-#line 140 "tsl_parser.y"
+#line 146 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(PLUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1365 "../tsl/tsl_parser.tab.c"
+#line 1471 "../tsl/tsl_parser.tab.c"
     break;
 
   case 29: /* additive_expr: additive_expr MINUS multiplicative_expr  */
-#line 141 "tsl_parser.y"
+#line 147 "tsl_parser.y"
                                                { (yyval.node) = ast_create_binary(MINUS, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1371 "../tsl/tsl_parser.tab.c"
+#line 1477 "../tsl/tsl_parser.tab.c"
     break;
 
   case 31: /* multiplicative_expr: multiplicative_expr STAR not_expr  */
-#line 146 "tsl_parser.y"
+#line 152 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(STAR, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1377 "../tsl/tsl_parser.tab.c"
+#line 1483 "../tsl/tsl_parser.tab.c"
     break;
 
   case 32: /* multiplicative_expr: multiplicative_expr SLASH not_expr  */
-#line 147 "tsl_parser.y"
+#line 153 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(SLASH, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1383 "../tsl/tsl_parser.tab.c"
+#line 1489 "../tsl/tsl_parser.tab.c"
     break;
 
   case 33: /* multiplicative_expr: multiplicative_expr PERCENT not_expr  */
-#line 148 "tsl_parser.y"
+#line 154 "tsl_parser.y"
                                            { (yyval.node) = ast_create_binary(PERCENT, (yyvsp[-2].node), (yyvsp[0].node)); }
-#line 1389 "../tsl/tsl_parser.tab.c"
+#line 1495 "../tsl/tsl_parser.tab.c"
     break;
 
   case 35: /* not_expr: K_NOT not_expr  */
-#line 153 "tsl_parser.y"
+#line 159 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_NOT, (yyvsp[0].node)); }
-#line 1395 "../tsl/tsl_parser.tab.c"
+#line 1501 "../tsl/tsl_parser.tab.c"
     break;
 
   case 36: /* not_expr: K_LEN not_expr  */
-#line 154 "tsl_parser.y"
+#line 160 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_LEN, (yyvsp[0].node)); }
-#line 1401 "../tsl/tsl_parser.tab.c"
+#line 1507 "../tsl/tsl_parser.tab.c"
     break;
 
   case 37: /* not_expr: K_ANY not_expr  */
-#line 155 "tsl_parser.y"
+#line 161 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ANY, (yyvsp[0].node)); }
-#line 1407 "../tsl/tsl_parser.tab.c"
+#line 1513 "../tsl/tsl_parser.tab.c"
     break;
 
   case 38: /* not_expr: K_ALL not_expr  */
-#line 156 "tsl_parser.y"
+#line 162 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_ALL, (yyvsp[0].node)); }
-#line 1413 "../tsl/tsl_parser.tab.c"
+#line 1519 "../tsl/tsl_parser.tab.c"
     break;
 
   case 39: /* not_expr: K_SUM not_expr  */
-#line 157 "tsl_parser.y"
+#line 163 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(K_SUM, (yyvsp[0].node)); }
-#line 1419 "../tsl/tsl_parser.tab.c"
+#line 1525 "../tsl/tsl_parser.tab.c"
     break;
 
   case 41: /* unary_expr: MINUS unary_expr  */
-#line 162 "tsl_parser.y"
+#line 168 "tsl_parser.y"
                                    { (yyval.node) = ast_create_unary(UMINUS, (yyvsp[0].node)); }
-#line 1425 "../tsl/tsl_parser.tab.c"
+#line 1531 "../tsl/tsl_parser.tab.c"
     break;
 
   case 42: /* unary_expr: PLUS unary_expr  */
-#line 163 "tsl_parser.y"
+#line 169 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1431 "../tsl/tsl_parser.tab.c"
+#line 1537 "../tsl/tsl_parser.tab.c"
     break;
 
   case 43: /* unary_expr: LPAREN expr RPAREN  */
-#line 164 "tsl_parser.y"
+#line 170 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[-1].node); }
-#line 1437 "../tsl/tsl_parser.tab.c"
+#line 1543 "../tsl/tsl_parser.tab.c"
     break;
 
   case 44: /* unary_expr: array  */
-#line 165 "tsl_parser.y"
+#line 171 "tsl_parser.y"
                                    { (yyval.node) = (yyvsp[0].node); }
-#line 1443 "../tsl/tsl_parser.tab.c"
+#line 1549 "../tsl/tsl_parser.tab.c"
     break;
 
   case 45: /* array: LBRACKET opt_array_elements RBRACKET  */
-#line 169 "tsl_parser.y"
+#line 175 "tsl_parser.y"
                                            { (yyval.node) = (yyvsp[-1].node); }
-#line 1449 "../tsl/tsl_parser.tab.c"
+#line 1555 "../tsl/tsl_parser.tab.c"
     break;
 
   case 46: /* opt_array_elements: %empty  */
-#line 173 "tsl_parser.y"
+#line 179 "tsl_parser.y"
                                   { (yyval.node) = ast_create_array(0, NULL); }
-#line 1455 "../tsl/tsl_parser.tab.c"
+#line 1561 "../tsl/tsl_parser.tab.c"
     break;
 
   case 47: /* opt_array_elements: array_elements  */
-#line 174 "tsl_parser.y"
+#line 180 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[0].node); }
-#line 1461 "../tsl/tsl_parser.tab.c"
+#line 1567 "../tsl/tsl_parser.tab.c"
     break;
 
   case 48: /* opt_array_elements: array_elements COMMA  */
-#line 175 "tsl_parser.y"
+#line 181 "tsl_parser.y"
                                   { (yyval.node) = (yyvsp[-1].node); }
-#line 1467 "../tsl/tsl_parser.tab.c"
+#line 1573 "../tsl/tsl_parser.tab.c"
     break;
 
   case 49: /* array_elements: expr  */
-#line 179 "tsl_parser.y"
+#line 185 "tsl_parser.y"
                                     { 
                                       ast_node **elements = malloc(sizeof(ast_node*));
                                       elements[0] = (yyvsp[0].node);
                                       (yyval.node) = ast_create_array(1, elements);
                                       free(elements);
                                     }
-#line 1478 "../tsl/tsl_parser.tab.c"
+#line 1584 "../tsl/tsl_parser.tab.c"
     break;
 
   case 50: /* array_elements: array_elements COMMA expr  */
-#line 185 "tsl_parser.y"
+#line 191 "tsl_parser.y"
                                     {
                                       ast_node **elements = malloc(((yyvsp[-2].node)->data.array.size + 1) * sizeof(ast_node*));
                                       // Copy existing elements
@@ -1490,53 +1596,53 @@ yyreduce:
                                       free(elements);
                                       ast_free((yyvsp[-2].node));
                                     }
-#line 1494 "../tsl/tsl_parser.tab.c"
+#line 1600 "../tsl/tsl_parser.tab.c"
     break;
 
   case 51: /* primary: NUMERIC_LITERAL  */
-#line 199 "tsl_parser.y"
+#line 205 "tsl_parser.y"
                             { (yyval.node) = ast_create_number((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1500 "../tsl/tsl_parser.tab.c"
+#line 1606 "../tsl/tsl_parser.tab.c"
     break;
 
   case 52: /* primary: STRING_LITERAL  */
-#line 200 "tsl_parser.y"
+#line 206 "tsl_parser.y"
                             { (yyval.node) = ast_create_string((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1506 "../tsl/tsl_parser.tab.c"
+#line 1612 "../tsl/tsl_parser.tab.c"
     break;
 
   case 53: /* primary: IDENTIFIER  */
-#line 201 "tsl_parser.y"
+#line 207 "tsl_parser.y"
                             { (yyval.node) = ast_create_identifier((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1512 "../tsl/tsl_parser.tab.c"
+#line 1618 "../tsl/tsl_parser.tab.c"
     break;
 
   case 54: /* primary: RFC3339  */
-#line 202 "tsl_parser.y"
+#line 208 "tsl_parser.y"
                             { (yyval.node) = ast_create_rfc3339((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1518 "../tsl/tsl_parser.tab.c"
+#line 1624 "../tsl/tsl_parser.tab.c"
     break;
 
   case 55: /* primary: DATE  */
-#line 203 "tsl_parser.y"
+#line 209 "tsl_parser.y"
                             { (yyval.node) = ast_create_date((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1524 "../tsl/tsl_parser.tab.c"
+#line 1630 "../tsl/tsl_parser.tab.c"
     break;
 
   case 56: /* primary: K_TRUE  */
-#line 204 "tsl_parser.y"
+#line 210 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(1); }
-#line 1530 "../tsl/tsl_parser.tab.c"
+#line 1636 "../tsl/tsl_parser.tab.c"
     break;
 
   case 57: /* primary: K_FALSE  */
-#line 205 "tsl_parser.y"
+#line 211 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(0); }
-#line 1536 "../tsl/tsl_parser.tab.c"
+#line 1642 "../tsl/tsl_parser.tab.c"
     break;
 
 
-#line 1540 "../tsl/tsl_parser.tab.c"
+#line 1646 "../tsl/tsl_parser.tab.c"
 
       default: break;
     }
@@ -1729,7 +1835,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 208 "tsl_parser.y"
+#line 214 "tsl_parser.y"
 
 
 /* API function implementation */
-- 
2.43.0


From 3dee534b56310929218322380d36c482d9e026e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 04/19] fix: free array elements after copying them into the
 longer array

---
 v6/pkg/parser/tsl_parser.y  |  1 +
 v6/pkg/tsl/tsl_parser.tab.c | 37 +++++++++++++++++++------------------
 2 files changed, 20 insertions(+), 18 deletions(-)

diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index 2146fdc..f470325 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -198,6 +198,7 @@ array_elements:
                                       $$ = ast_create_array($1->data.array.size + 1, elements);
                                       free(elements);
                                       ast_free($1);
+                                      ast_free($3);
                                     }
     ;
 
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index 1aa2e06..d378221 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -579,7 +579,7 @@ static const yytype_uint8 yyrline[] =
      111,   115,   116,   120,   128,   137,   138,   145,   146,   147,
      151,   152,   153,   154,   158,   159,   160,   161,   162,   163,
      167,   168,   169,   170,   171,   175,   179,   180,   181,   185,
-     191,   205,   206,   207,   208,   209,   210,   211
+     191,   206,   207,   208,   209,   210,   211,   212
 };
 #endif
 
@@ -1595,54 +1595,55 @@ yyreduce:
                                       (yyval.node) = ast_create_array((yyvsp[-2].node)->data.array.size + 1, elements);
                                       free(elements);
                                       ast_free((yyvsp[-2].node));
+                                      ast_free((yyvsp[0].node));
                                     }
-#line 1600 "../tsl/tsl_parser.tab.c"
+#line 1601 "../tsl/tsl_parser.tab.c"
     break;
 
   case 51: /* primary: NUMERIC_LITERAL  */
-#line 205 "tsl_parser.y"
+#line 206 "tsl_parser.y"
                             { (yyval.node) = ast_create_number((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1606 "../tsl/tsl_parser.tab.c"
+#line 1607 "../tsl/tsl_parser.tab.c"
     break;
 
   case 52: /* primary: STRING_LITERAL  */
-#line 206 "tsl_parser.y"
+#line 207 "tsl_parser.y"
                             { (yyval.node) = ast_create_string((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1612 "../tsl/tsl_parser.tab.c"
+#line 1613 "../tsl/tsl_parser.tab.c"
     break;
 
   case 53: /* primary: IDENTIFIER  */
-#line 207 "tsl_parser.y"
+#line 208 "tsl_parser.y"
                             { (yyval.node) = ast_create_identifier((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1618 "../tsl/tsl_parser.tab.c"
+#line 1619 "../tsl/tsl_parser.tab.c"
     break;
 
   case 54: /* primary: RFC3339  */
-#line 208 "tsl_parser.y"
+#line 209 "tsl_parser.y"
                             { (yyval.node) = ast_create_rfc3339((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1624 "../tsl/tsl_parser.tab.c"
+#line 1625 "../tsl/tsl_parser.tab.c"
     break;
 
   case 55: /* primary: DATE  */
-#line 209 "tsl_parser.y"
+#line 210 "tsl_parser.y"
                             { (yyval.node) = ast_create_date((yyvsp[0].str)); free((yyvsp[0].str)); }
-#line 1630 "../tsl/tsl_parser.tab.c"
+#line 1631 "../tsl/tsl_parser.tab.c"
     break;
 
   case 56: /* primary: K_TRUE  */
-#line 210 "tsl_parser.y"
+#line 211 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(1); }
-#line 1636 "../tsl/tsl_parser.tab.c"
+#line 1637 "../tsl/tsl_parser.tab.c"
     break;
 
   case 57: /* primary: K_FALSE  */
-#line 211 "tsl_parser.y"
+#line 212 "tsl_parser.y"
                             { (yyval.node) = ast_create_boolean(0); }
-#line 1642 "../tsl/tsl_parser.tab.c"
+#line 1643 "../tsl/tsl_parser.tab.c"
     break;
 
 
-#line 1646 "../tsl/tsl_parser.tab.c"
+#line 1647 "../tsl/tsl_parser.tab.c"
 
       default: break;
     }
@@ -1835,7 +1836,7 @@ yyreturnlab:
   return yyresult;
 }
 
-#line 214 "tsl_parser.y"
+#line 215 "tsl_parser.y"
 
 
 /* API function implementation */
-- 
2.43.0


From e5bc8161f7927c674a14b500b5f8fcd8dd532951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 05/19] fix: do not panic when printing a syntax error at the
 start of the input

---
 v6/pkg/tsl/errors.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/v6/pkg/tsl/errors.go b/v6/pkg/tsl/errors.go
index ba34543..1422ea5 100644
--- a/v6/pkg/tsl/errors.go
+++ b/v6/pkg/tsl/errors.go
@@ -12,7 +12,9 @@ type SyntaxError struct {
 
 // Error implements the error interface
 func (e *SyntaxError) Error() string {
-	pointer := make([]rune, e.Position)
+	// An error at the very start of the input has no token before it, its
+	// position is negative.
+	pointer := make([]rune, max(e.Position, 0))
 	for i := range pointer {
 		pointer[i] = ' '
 	}
-- 
2.43.0


From 75964f02615b4964d8ea451daf30c776a980b9bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:38 +0000
Subject: [PATCH 06/19] fix: attaching an operand where it already is must not
 free it

---
 v6/pkg/tsl/tsl_ast.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index f6226d6..af071df 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -259,7 +259,7 @@ ast_node *ast_detach_unary_child(ast_node *node) {
 int ast_attach_binary_left(ast_node *node, ast_node *child) {
     if (!node || node->type != AST_BINARY_OP) return 0;
     
-    if (node->data.binary.left) {
+    if (node->data.binary.left && node->data.binary.left != child) {
         ast_free(node->data.binary.left);
     }
     node->data.binary.left = child;
@@ -269,7 +269,7 @@ int ast_attach_binary_left(ast_node *node, ast_node *child) {
 int ast_attach_binary_right(ast_node *node, ast_node *child) {
     if (!node || node->type != AST_BINARY_OP) return 0;
     
-    if (node->data.binary.right) {
+    if (node->data.binary.right && node->data.binary.right != child) {
         ast_free(node->data.binary.right);
     }
     node->data.binary.right = child;
@@ -279,7 +279,7 @@ int ast_attach_binary_right(ast_node *node, ast_node *child) {
 int ast_attach_unary_child(ast_node *node, ast_node *child) {
     if (!node || node->type != AST_UNARY_OP) return 0;
     
-    if (node->data.unary.child) {
+    if (node->data.unary.child && node->data.unary.child != child) {
         ast_free(node->data.unary.child);
     }
     node->data.unary.child = child;
-- 
2.43.0


From d8661ede4d7399afbf10e9ef05c18be2809d7771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:42 +0000
Subject: [PATCH 07/19] fix: ident.Walk must not leak its copy of the tree

---
 v6/pkg/walkers/ident/walk.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/v6/pkg/walkers/ident/walk.go b/v6/pkg/walkers/ident/walk.go
index 2b05a3c..f74963a 100644
--- a/v6/pkg/walkers/ident/walk.go
+++ b/v6/pkg/walkers/ident/walk.go
@@ -65,9 +65,17 @@ func Walk(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.TSLNode, e
 		return nil, fmt.Errorf("failed to clone input tree")
 	}
 
+	// Free the copy unless it is what we return: it is not on an error, when the
+	// tree is a single identifier, and when check panics.
+	var newTree *tsl.TSLNode
+	defer func() {
+		if newTree != treeCopy {
+			treeCopy.Free()
+		}
+	}()
+
 	newTree, err := walkAndReplace(treeCopy, check)
 	if err != nil {
-		treeCopy.Free() // Clean up the copy if there's an error
 		return nil, err
 	}
 
-- 
2.43.0


From 578ebb446a0cccd9f329eeb64070463279d8009f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:19 +0000
Subject: [PATCH 08/19] fix: stop on a failed allocation in the v6 parser
 instead of losing values

---
 v6/pkg/parser/tsl_lexer.l   | 18 ++++++-------
 v6/pkg/parser/tsl_parser.y  | 12 ++++-----
 v6/pkg/tsl/lex.yy.c         | 18 ++++++-------
 v6/pkg/tsl/tsl_ast.c        | 54 ++++++++++++++++++++++++-------------
 v6/pkg/tsl/tsl_ast.h        |  6 +++++
 v6/pkg/tsl/tsl_parser.tab.c | 12 ++++-----
 6 files changed, 72 insertions(+), 48 deletions(-)

diff --git a/v6/pkg/parser/tsl_lexer.l b/v6/pkg/parser/tsl_lexer.l
index 8828151..49a639f 100644
--- a/v6/pkg/parser/tsl_lexer.l
+++ b/v6/pkg/parser/tsl_lexer.l
@@ -30,7 +30,7 @@ int check_date_formats(char *s) {
 
 /* Process escaped characters in a string */
 char* process_escapes(char* text, int len) {
-    char* result = malloc(len + 1);
+    char* result = tsl_malloc(len + 1);
     int i, j = 0;
     
     for (i = 0; i < len; i++) {
@@ -59,7 +59,7 @@ char* process_escapes(char* text, int len) {
 /* Strip quotes and process string */
 char* strip_quotes(char* text, int offset) {
     int len = strlen(text) - (offset * 2);
-    char *raw = malloc(len + 1);
+    char *raw = tsl_malloc(len + 1);
     strncpy(raw, text + offset, len);
     raw[len] = '\0';
     
@@ -135,14 +135,14 @@ NUMBER_WITH_SUFFIX ({INTEGER}|{DECIMAL}){SIZE_SUFFIX}
 "~!"                        { return RNE; }
 
     /* Date and time literals */
-{RFC3339}                   { yylval.str = strdup(yytext); return RFC3339; }
-{DATE}                      { yylval.str = strdup(yytext); return DATE; }
+{RFC3339}                   { yylval.str = tsl_strdup(yytext); return RFC3339; }
+{DATE}                      { yylval.str = tsl_strdup(yytext); return DATE; }
 
     /* Numeric literals */
-{INTEGER}                   { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
-{DECIMAL}                   { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
-{SCIENTIFIC}                { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
-{NUMBER_WITH_SUFFIX}        { yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
+{INTEGER}                   { yylval.str = tsl_strdup(yytext); return NUMERIC_LITERAL; }
+{DECIMAL}                   { yylval.str = tsl_strdup(yytext); return NUMERIC_LITERAL; }
+{SCIENTIFIC}                { yylval.str = tsl_strdup(yytext); return NUMERIC_LITERAL; }
+{NUMBER_WITH_SUFFIX}        { yylval.str = tsl_strdup(yytext); return NUMERIC_LITERAL; }
 
     /* String literals and identifiers */
 '([^'\\]|\\.)*'           {
@@ -169,7 +169,7 @@ NUMBER_WITH_SUFFIX ({INTEGER}|{DECIMAL}){SIZE_SUFFIX}
                             return STRING_LITERAL;
                            }
 
-{IDENTIFIER}               { yylval.str = strdup(yytext); return IDENTIFIER; }
+{IDENTIFIER}               { yylval.str = tsl_strdup(yytext); return IDENTIFIER; }
 
     /* Operators and delimiters */
 "("                        { return LPAREN; }
diff --git a/v6/pkg/parser/tsl_parser.y b/v6/pkg/parser/tsl_parser.y
index f470325..27344ec 100644
--- a/v6/pkg/parser/tsl_parser.y
+++ b/v6/pkg/parser/tsl_parser.y
@@ -118,7 +118,7 @@ comparison_expr:
         $$ = ast_create_unary(K_NOT, is_null);
     }
     | comparison_expr K_BETWEEN additive_expr K_AND additive_expr {
-        ast_node **elements = malloc(2 * sizeof(ast_node*));
+        ast_node **elements = tsl_malloc(2 * sizeof(ast_node*));
         elements[0] = $3;
         elements[1] = $5;
         ast_node *range = ast_create_array(2, elements);
@@ -126,7 +126,7 @@ comparison_expr:
         free(elements);
     }
     | comparison_expr K_NOT K_BETWEEN additive_expr K_AND additive_expr {
-        ast_node **elements = malloc(2 * sizeof(ast_node*));
+        ast_node **elements = tsl_malloc(2 * sizeof(ast_node*));
         elements[0] = $4;
         elements[1] = $6;
         ast_node *range = ast_create_array(2, elements);
@@ -183,13 +183,13 @@ opt_array_elements:
 
 array_elements:
       expr                          { 
-                                      ast_node **elements = malloc(sizeof(ast_node*));
+                                      ast_node **elements = tsl_malloc(sizeof(ast_node*));
                                       elements[0] = $1;
                                       $$ = ast_create_array(1, elements);
                                       free(elements);
                                     }
     | array_elements COMMA expr     {
-                                      ast_node **elements = malloc(($1->data.array.size + 1) * sizeof(ast_node*));
+                                      ast_node **elements = tsl_malloc(($1->data.array.size + 1) * sizeof(ast_node*));
                                       // Copy existing elements
                                       for(int i = 0; i < $1->data.array.size; i++) {
                                           elements[i] = ast_clone($1->data.array.elements[i]);
@@ -223,7 +223,7 @@ ast_node *parse_input_string(const char *input) {
     if (input_string) {
         free(input_string);
     }
-    input_string = strdup(input);
+    input_string = tsl_strdup(input);
     
     if (error_string) {
         free(error_string);
@@ -265,7 +265,7 @@ void yyerror(const char *s) {
     if (error_string) {
         free(error_string);
     }
-    error_string = strdup(s);
+    error_string = tsl_strdup(s);
 }
 
 /* Error string getter */
diff --git a/v6/pkg/tsl/lex.yy.c b/v6/pkg/tsl/lex.yy.c
index 7625f96..2afc271 100644
--- a/v6/pkg/tsl/lex.yy.c
+++ b/v6/pkg/tsl/lex.yy.c
@@ -599,7 +599,7 @@ int check_date_formats(char *s) {
 
 /* Process escaped characters in a string */
 char* process_escapes(char* text, int len) {
-    char* result = malloc(len + 1);
+    char* result = tsl_malloc(len + 1);
     int i, j = 0;
     
     for (i = 0; i < len; i++) {
@@ -628,7 +628,7 @@ char* process_escapes(char* text, int len) {
 /* Strip quotes and process string */
 char* strip_quotes(char* text, int offset) {
     int len = strlen(text) - (offset * 2);
-    char *raw = malloc(len + 1);
+    char *raw = tsl_malloc(len + 1);
     strncpy(raw, text + offset, len);
     raw[len] = '\0';
     
@@ -1039,33 +1039,33 @@ YY_RULE_SETUP
 case 24:
 YY_RULE_SETUP
 #line 139 "tsl_lexer.l"
-{ yylval.str = strdup(yytext); return RFC3339; }
+{ yylval.str = tsl_strdup(yytext); return RFC3339; }
 	YY_BREAK
 case 25:
 YY_RULE_SETUP
 #line 140 "tsl_lexer.l"
-{ yylval.str = strdup(yytext); return DATE; }
+{ yylval.str = tsl_strdup(yytext); return DATE; }
 	YY_BREAK
 /* Numeric literals */
 case 26:
 YY_RULE_SETUP
 #line 143 "tsl_lexer.l"
-{ yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
+{ yylval.str = tsl_strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 case 27:
 YY_RULE_SETUP
 #line 144 "tsl_lexer.l"
-{ yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
+{ yylval.str = tsl_strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 case 28:
 YY_RULE_SETUP
 #line 145 "tsl_lexer.l"
-{ yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
+{ yylval.str = tsl_strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 case 29:
 YY_RULE_SETUP
 #line 146 "tsl_lexer.l"
-{ yylval.str = strdup(yytext); return NUMERIC_LITERAL; }
+{ yylval.str = tsl_strdup(yytext); return NUMERIC_LITERAL; }
 	YY_BREAK
 /* String literals and identifiers */
 case 30:
@@ -1107,7 +1107,7 @@ YY_RULE_SETUP
 case 33:
 YY_RULE_SETUP
 #line 173 "tsl_lexer.l"
-{ yylval.str = strdup(yytext); return IDENTIFIER; }
+{ yylval.str = tsl_strdup(yytext); return IDENTIFIER; }
 	YY_BREAK
 /* Operators and delimiters */
 case 34:
diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index af071df..6eafc2b 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -4,6 +4,24 @@
 #include <ctype.h>
 #include "tsl_ast.h"
 
+/* Allocation that cannot fail: there is no way to report running out of memory
+   from the middle of a tree, and a node without its string reads as "". */
+static void *check_alloc(void *ptr) {
+    if (!ptr) {
+        fputs("tsl: out of memory\n", stderr);
+        abort();
+    }
+    return ptr;
+}
+
+void *tsl_malloc(size_t size) {
+    return check_alloc(malloc(size ? size : 1));
+}
+
+char *tsl_strdup(const char *str) {
+    return check_alloc(strdup(str));
+}
+
 /* Error position tracking */
 static int current_error_position = 0;
 
@@ -16,7 +34,7 @@ int get_error_position(void) {
 }
 
 ast_node *ast_create_number(const char *value_str) {
-    ast_node *node = malloc(sizeof(ast_node));
+    ast_node *node = tsl_malloc(sizeof(ast_node));
     node->type = AST_NUMBER;
 
     char *endptr;
@@ -41,48 +59,48 @@ ast_node *ast_create_number(const char *value_str) {
 }
 
 ast_node *ast_create_string(const char *value) {
-    ast_node *node = malloc(sizeof(ast_node));
+    ast_node *node = tsl_malloc(sizeof(ast_node));
     node->type = AST_STRING;
-    node->data.string = strdup(value);
+    node->data.string = tsl_strdup(value);
     return node;
 }
 
 ast_node *ast_create_identifier(const char *value) {
-    ast_node *node = malloc(sizeof(ast_node));
+    ast_node *node = tsl_malloc(sizeof(ast_node));
     node->type = AST_IDENTIFIER;
-    node->data.string = strdup(value);
+    node->data.string = tsl_strdup(value);
     return node;
 }
 
 ast_node *ast_create_date(const char *value) {
-    ast_node *node = malloc(sizeof(ast_node));
+    ast_node *node = tsl_malloc(sizeof(ast_node));
     node->type = AST_DATE;
-    node->data.string = strdup(value);
+    node->data.string = tsl_strdup(value);
     return node;
 }
 
 ast_node *ast_create_rfc3339(const char *value) {
-    ast_node *node = malloc(sizeof(ast_node));
+    ast_node *node = tsl_malloc(sizeof(ast_node));
     node->type = AST_RFC3339;
-    node->data.string = strdup(value);
+    node->data.string = tsl_strdup(value);
     return node;
 }
 
 ast_node *ast_create_boolean(int value) {
-    ast_node *node = malloc(sizeof(ast_node));
+    ast_node *node = tsl_malloc(sizeof(ast_node));
     node->type = AST_BOOL;
     node->data.boolean = value;
     return node;
 }
 
 ast_node *ast_create_null(void) {
-    ast_node *node = malloc(sizeof(ast_node));
+    ast_node *node = tsl_malloc(sizeof(ast_node));
     node->type = AST_NULL;
     return node;
 }
 
 ast_node *ast_create_binary(int op, ast_node *left, ast_node *right) {
-    ast_node *node = malloc(sizeof(ast_node));
+    ast_node *node = tsl_malloc(sizeof(ast_node));
     node->type = AST_BINARY_OP;
     node->data.binary.op = op;
     node->data.binary.left = left;
@@ -91,7 +109,7 @@ ast_node *ast_create_binary(int op, ast_node *left, ast_node *right) {
 }
 
 ast_node *ast_create_unary(int op, ast_node *child) {
-    ast_node *node = malloc(sizeof(ast_node));
+    ast_node *node = tsl_malloc(sizeof(ast_node));
     node->type = AST_UNARY_OP;
     node->data.unary.op = op;
     node->data.unary.child = child;
@@ -99,10 +117,10 @@ ast_node *ast_create_unary(int op, ast_node *child) {
 }
 
 ast_node *ast_create_array(int size, ast_node **elements) {
-    ast_node *node = malloc(sizeof(ast_node));
+    ast_node *node = tsl_malloc(sizeof(ast_node));
     node->type = AST_ARRAY;
     node->data.array.size = size;
-    node->data.array.elements = malloc(size * sizeof(ast_node*));
+    node->data.array.elements = tsl_malloc(size * sizeof(ast_node*));
     for (int i = 0; i < size; i++) {
         node->data.array.elements[i] = elements[i];
     }
@@ -142,7 +160,7 @@ void ast_free(ast_node *node) {
 ast_node *ast_clone(const ast_node *node) {
     if (!node) return NULL;
     
-    ast_node *clone = malloc(sizeof(ast_node));
+    ast_node *clone = tsl_malloc(sizeof(ast_node));
     clone->type = node->type;
     
     switch (node->type) {
@@ -156,7 +174,7 @@ ast_node *ast_clone(const ast_node *node) {
         case AST_IDENTIFIER:
         case AST_DATE:
         case AST_RFC3339:
-            clone->data.string = strdup(node->data.string);
+            clone->data.string = tsl_strdup(node->data.string);
             break;
         case AST_BINARY_OP:
             clone->data.binary.op = node->data.binary.op;
@@ -169,7 +187,7 @@ ast_node *ast_clone(const ast_node *node) {
             break;
         case AST_ARRAY:
             clone->data.array.size = node->data.array.size;
-            clone->data.array.elements = malloc(node->data.array.size * sizeof(ast_node*));
+            clone->data.array.elements = tsl_malloc(node->data.array.size * sizeof(ast_node*));
             for (int i = 0; i < node->data.array.size; i++) {
                 clone->data.array.elements[i] = ast_clone(node->data.array.elements[i]);
             }
diff --git a/v6/pkg/tsl/tsl_ast.h b/v6/pkg/tsl/tsl_ast.h
index 8fae504..63dda02 100644
--- a/v6/pkg/tsl/tsl_ast.h
+++ b/v6/pkg/tsl/tsl_ast.h
@@ -1,6 +1,8 @@
 #ifndef TSL_AST_H
 #define TSL_AST_H
 
+#include <stddef.h>
+
 #ifdef __cplusplus
 extern "C" {
 #endif
@@ -42,6 +44,10 @@ typedef struct ast_node {
     } data;
 } ast_node;
 
+/* Allocation functions, they stop the program when out of memory */
+void *tsl_malloc(size_t size);
+char *tsl_strdup(const char *str);
+
 /* AST node creation functions */
 ast_node *ast_create_null(void);
 ast_node *ast_create_boolean(int value);
diff --git a/v6/pkg/tsl/tsl_parser.tab.c b/v6/pkg/tsl/tsl_parser.tab.c
index d378221..1391373 100644
--- a/v6/pkg/tsl/tsl_parser.tab.c
+++ b/v6/pkg/tsl/tsl_parser.tab.c
@@ -1425,7 +1425,7 @@ yyreduce:
   case 23: /* comparison_expr: comparison_expr K_BETWEEN additive_expr K_AND additive_expr  */
 #line 120 "tsl_parser.y"
                                                                   {
-        ast_node **elements = malloc(2 * sizeof(ast_node*));
+        ast_node **elements = tsl_malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
         elements[1] = (yyvsp[0].node);
         ast_node *range = ast_create_array(2, elements);
@@ -1438,7 +1438,7 @@ yyreduce:
   case 24: /* comparison_expr: comparison_expr K_NOT K_BETWEEN additive_expr K_AND additive_expr  */
 #line 128 "tsl_parser.y"
                                                                         {
-        ast_node **elements = malloc(2 * sizeof(ast_node*));
+        ast_node **elements = tsl_malloc(2 * sizeof(ast_node*));
         elements[0] = (yyvsp[-2].node);
         elements[1] = (yyvsp[0].node);
         ast_node *range = ast_create_array(2, elements);
@@ -1575,7 +1575,7 @@ yyreduce:
   case 49: /* array_elements: expr  */
 #line 185 "tsl_parser.y"
                                     { 
-                                      ast_node **elements = malloc(sizeof(ast_node*));
+                                      ast_node **elements = tsl_malloc(sizeof(ast_node*));
                                       elements[0] = (yyvsp[0].node);
                                       (yyval.node) = ast_create_array(1, elements);
                                       free(elements);
@@ -1586,7 +1586,7 @@ yyreduce:
   case 50: /* array_elements: array_elements COMMA expr  */
 #line 191 "tsl_parser.y"
                                     {
-                                      ast_node **elements = malloc(((yyvsp[-2].node)->data.array.size + 1) * sizeof(ast_node*));
+                                      ast_node **elements = tsl_malloc(((yyvsp[-2].node)->data.array.size + 1) * sizeof(ast_node*));
                                       // Copy existing elements
                                       for(int i = 0; i < (yyvsp[-2].node)->data.array.size; i++) {
                                           elements[i] = ast_clone((yyvsp[-2].node)->data.array.elements[i]);
@@ -1848,7 +1848,7 @@ ast_node *parse_input_string(const char *input) {
     if (input_string) {
         free(input_string);
     }
-    input_string = strdup(input);
+    input_string = tsl_strdup(input);
     
     if (error_string) {
         free(error_string);
@@ -1890,7 +1890,7 @@ void yyerror(const char *s) {
     if (error_string) {
         free(error_string);
     }
-    error_string = strdup(s);
+    error_string = tsl_strdup(s);
 }
 
 /* Error string getter */
-- 
2.43.0


From c2a19951b35b67d076d7a36ac08cbff383a0cb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:31 +0000
Subject: [PATCH 09/19] fix: ident.Walk must ask about identifiers inside
 arrays

---
 v6/pkg/tsl/tsl.go            |  8 ++++++++
 v6/pkg/tsl/tsl_ast.c         | 11 +++++++++++
 v6/pkg/tsl/tsl_ast.h         |  1 +
 v6/pkg/walkers/ident/walk.go | 19 +++++++++++++++++++
 4 files changed, 39 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 6658145..8b084ea 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -202,3 +202,11 @@ func (n *TSLNode) AttachChild(child *TSLNode) bool {
 	}
 	return C.ast_attach_unary_child(n.cNode, child.cNode) != 0
 }
+
+// AttachElement safely attaches a child node as an element of an array literal node
+func (n *TSLNode) AttachElement(index int, child *TSLNode) bool {
+	if n == nil || child == nil || n.Type() != KindArrayLiteral {
+		return false
+	}
+	return C.ast_attach_array_element(n.cNode, C.int(index), child.cNode) != 0
+}
diff --git a/v6/pkg/tsl/tsl_ast.c b/v6/pkg/tsl/tsl_ast.c
index 6eafc2b..a7eeb04 100644
--- a/v6/pkg/tsl/tsl_ast.c
+++ b/v6/pkg/tsl/tsl_ast.c
@@ -303,3 +303,14 @@ int ast_attach_unary_child(ast_node *node, ast_node *child) {
     node->data.unary.child = child;
     return 1;
 }
+
+int ast_attach_array_element(ast_node *node, int index, ast_node *child) {
+    if (!node || node->type != AST_ARRAY) return 0;
+    if (index < 0 || index >= node->data.array.size) return 0;
+
+    if (node->data.array.elements[index] && node->data.array.elements[index] != child) {
+        ast_free(node->data.array.elements[index]);
+    }
+    node->data.array.elements[index] = child;
+    return 1;
+}
diff --git a/v6/pkg/tsl/tsl_ast.h b/v6/pkg/tsl/tsl_ast.h
index 63dda02..4bb066f 100644
--- a/v6/pkg/tsl/tsl_ast.h
+++ b/v6/pkg/tsl/tsl_ast.h
@@ -68,6 +68,7 @@ ast_node *ast_detach_unary_child(ast_node *node);
 int ast_attach_binary_left(ast_node *node, ast_node *child);
 int ast_attach_binary_right(ast_node *node, ast_node *child);
 int ast_attach_unary_child(ast_node *node, ast_node *child);
+int ast_attach_array_element(ast_node *node, int index, ast_node *child);
 
 /* AST printing functions */
 void ast_print(const ast_node *node);
diff --git a/v6/pkg/walkers/ident/walk.go b/v6/pkg/walkers/ident/walk.go
index f74963a..f3e1de6 100644
--- a/v6/pkg/walkers/ident/walk.go
+++ b/v6/pkg/walkers/ident/walk.go
@@ -154,6 +154,25 @@ func walkAndReplace(n *tsl.TSLNode, check func(s string) (string, error)) (*tsl.
 
 		return n, nil
 
+	case tsl.KindArrayLiteral:
+		// Process the elements of an IN list or a BETWEEN range
+		for i, element := range n.Value().(tsl.TSLArrayLiteral).Values {
+			if element.Type() == tsl.KindIdentifier {
+				newNode, err := processIdentifier(element, check)
+				if err != nil {
+					return nil, err
+				}
+				n.AttachElement(i, newNode)
+			} else {
+				_, err := walkAndReplace(element, check)
+				if err != nil {
+					return nil, err
+				}
+			}
+		}
+
+		return n, nil
+
 	case tsl.KindIdentifier:
 		return processIdentifier(n, check)
 
-- 
2.43.0


From 5d7c1a4dd18b82849077094971a434da59979c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:42 +0000
Subject: [PATCH 10/19] fix: keep the host's time zone out of parsed dates

---
 v5/pkg/tsl/listener.go | 2 +-
 v6/pkg/tsl/tsl.go      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/v5/pkg/tsl/listener.go b/v5/pkg/tsl/listener.go
index ba796ba..472425e 100644
--- a/v5/pkg/tsl/listener.go
+++ b/v5/pkg/tsl/listener.go
@@ -126,7 +126,7 @@ func (l *Listener) ExitBooleanLiteral(c *parser.BooleanLiteralContext) {
 // ExitDateLiteral is called when exiting the DateLiteral production.
 func (l *Listener) ExitDateLiteral(c *parser.DateLiteralContext) {
 	s := c.GetRuleContext().GetText()
-	t, err := time.Parse(time.RFC3339, s)
+	t, err := time.ParseInLocation(time.RFC3339, s, time.UTC)
 	if err != nil {
 		l.Errs = append(l.Errs, err)
 	}
diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 8b084ea..6d5092e 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -112,7 +112,7 @@ func (n *TSLNode) Value() interface{} {
 	case KindDateLiteral, KindTimestampLiteral:
 		// Parse date strings into time.Time
 		dateStr := C.GoString(C.get_string_value(n.cNode))
-		if t, err := time.Parse(time.RFC3339, dateStr); err == nil {
+		if t, err := time.ParseInLocation(time.RFC3339, dateStr, time.UTC); err == nil {
 			return t
 		}
 		// Fallback to returning raw string if parsing fails
-- 
2.43.0


From 08075e206ae7ba607ab4153741b76e280e983f57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:33 +0000
Subject: [PATCH 11/19] fix: serialize v4 and v5 parsing, ANTLR shares its DFA
 caches

---
 v4/pkg/tsl/tsl.go | 9 +++++++++
 v5/pkg/tsl/tsl.go | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/v4/pkg/tsl/tsl.go b/v4/pkg/tsl/tsl.go
index 5d1f08a..115bff4 100644
--- a/v4/pkg/tsl/tsl.go
+++ b/v4/pkg/tsl/tsl.go
@@ -16,13 +16,22 @@
 package tsl
 
 import (
+	"sync"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 
 	"github.com/yaacov/tree-search-language/v4/pkg/parser"
 )
 
+// parseMu serializes parsing: all the ANTLR lexers and parsers of the process share
+// and extend the same DFA caches, without any locking.
+var parseMu sync.Mutex
+
 // ParseTSL parses the input string into TSL tree.
 func ParseTSL(input string) (tree Node, err error) {
+	parseMu.Lock()
+	defer parseMu.Unlock()
+
 	// Setup the ErrorListener.
 	errorListener := NewErrorListener()
 
diff --git a/v5/pkg/tsl/tsl.go b/v5/pkg/tsl/tsl.go
index c882193..1b40211 100644
--- a/v5/pkg/tsl/tsl.go
+++ b/v5/pkg/tsl/tsl.go
@@ -16,13 +16,22 @@
 package tsl
 
 import (
+	"sync"
+
 	"github.com/antlr/antlr4/runtime/Go/antlr"
 
 	"github.com/yaacov/tree-search-language/v5/pkg/parser"
 )
 
+// parseMu serializes parsing: all the ANTLR lexers and parsers of the process share
+// and extend the same DFA caches, without any locking.
+var parseMu sync.Mutex
+
 // ParseTSL parses the input string into TSL tree.
 func ParseTSL(input string) (tree Node, err error) {
+	parseMu.Lock()
+	defer parseMu.Unlock()
+
 	// Setup the ErrorListener.
 	errorListener := NewErrorListener()
 
-- 
2.43.0


From c2baf9741be515757f19f2e1b59da7e39f697f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:32 +0000
Subject: [PATCH 12/19] fix: report errors writing the output of the command
 line tools

---
 v4/cmd/tsl_gorm/main.go   | 3 ++-
 v4/cmd/tsl_mem/main.go    | 3 ++-
 v4/cmd/tsl_mongo/main.go  | 3 ++-
 v4/cmd/tsl_parser/main.go | 3 ++-
 v4/cmd/tsl_sqlite/main.go | 3 ++-
 v5/cmd/tsl_gorm/main.go   | 3 ++-
 v5/cmd/tsl_mem/main.go    | 3 ++-
 v5/cmd/tsl_mongo/main.go  | 3 ++-
 v5/cmd/tsl_parser/main.go | 3 ++-
 v5/cmd/tsl_sqlite/main.go | 3 ++-
 v6/cmd/tsl/main.go        | 9 ++++++++-
 v6/cmd/tsl/printer.go     | 5 ++++-
 v6/cmd/tsl_mem/main.go    | 3 ++-
 v6/cmd/tsl_parser/main.go | 3 ++-
 14 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/v4/cmd/tsl_gorm/main.go b/v4/cmd/tsl_gorm/main.go
index 8af2438..bb0ddb3 100644
--- a/v4/cmd/tsl_gorm/main.go
+++ b/v4/cmd/tsl_gorm/main.go
@@ -117,7 +117,8 @@ func main() {
 
 		// Print out one Book in json format.
 		b, _ := json.Marshal(book)
-		fmt.Printf("%s\n", string(b))
+		_, err = fmt.Printf("%s\n", string(b))
+		check(err)
 	}
 
 	// Check for errors and exit.
diff --git a/v4/cmd/tsl_mem/main.go b/v4/cmd/tsl_mem/main.go
index 4c40600..a94f897 100644
--- a/v4/cmd/tsl_mem/main.go
+++ b/v4/cmd/tsl_mem/main.go
@@ -86,5 +86,6 @@ func main() {
 	}
 
 	check(err)
-	fmt.Printf("%s\n", s)
+	_, err = fmt.Printf("%s\n", s)
+	check(err)
 }
diff --git a/v4/cmd/tsl_mongo/main.go b/v4/cmd/tsl_mongo/main.go
index 94e3d10..36dfdc6 100644
--- a/v4/cmd/tsl_mongo/main.go
+++ b/v4/cmd/tsl_mongo/main.go
@@ -112,7 +112,8 @@ func main() {
 		check(err)
 
 		b, _ := json.Marshal(elem)
-		fmt.Printf("%s\n", string(b))
+		_, err = fmt.Printf("%s\n", string(b))
+		check(err)
 	}
 
 	// Check for errors and exit.
diff --git a/v4/cmd/tsl_parser/main.go b/v4/cmd/tsl_parser/main.go
index ad9dbb3..2bace96 100644
--- a/v4/cmd/tsl_parser/main.go
+++ b/v4/cmd/tsl_parser/main.go
@@ -87,5 +87,6 @@ func main() {
 	}
 
 	check(err)
-	fmt.Println(string(s))
+	_, err = fmt.Println(string(s))
+	check(err)
 }
diff --git a/v4/cmd/tsl_sqlite/main.go b/v4/cmd/tsl_sqlite/main.go
index 85b9f3c..3d72526 100644
--- a/v4/cmd/tsl_sqlite/main.go
+++ b/v4/cmd/tsl_sqlite/main.go
@@ -116,7 +116,8 @@ func main() {
 		check(err)
 
 		b, _ := json.Marshal(elem)
-		fmt.Printf("%s\n", string(b))
+		_, err = fmt.Printf("%s\n", string(b))
+		check(err)
 	}
 
 	// Check for errors and exit.
diff --git a/v5/cmd/tsl_gorm/main.go b/v5/cmd/tsl_gorm/main.go
index b1374d4..78fd518 100644
--- a/v5/cmd/tsl_gorm/main.go
+++ b/v5/cmd/tsl_gorm/main.go
@@ -119,7 +119,8 @@ func main() {
 
 		// Print out one Book in json format.
 		b, _ := json.Marshal(book)
-		fmt.Printf("%s\n", string(b))
+		_, err = fmt.Printf("%s\n", string(b))
+		check(err)
 	}
 
 	// Check for errors and exit.
diff --git a/v5/cmd/tsl_mem/main.go b/v5/cmd/tsl_mem/main.go
index 4b61101..2a00a45 100644
--- a/v5/cmd/tsl_mem/main.go
+++ b/v5/cmd/tsl_mem/main.go
@@ -86,5 +86,6 @@ func main() {
 	}
 
 	check(err)
-	fmt.Printf("%s\n", s)
+	_, err = fmt.Printf("%s\n", s)
+	check(err)
 }
diff --git a/v5/cmd/tsl_mongo/main.go b/v5/cmd/tsl_mongo/main.go
index a34a9ab..b893918 100644
--- a/v5/cmd/tsl_mongo/main.go
+++ b/v5/cmd/tsl_mongo/main.go
@@ -113,7 +113,8 @@ func main() {
 		check(err)
 
 		b, _ := json.Marshal(elem)
-		fmt.Printf("%s\n", string(b))
+		_, err = fmt.Printf("%s\n", string(b))
+		check(err)
 	}
 
 	// Check for errors and exit.
diff --git a/v5/cmd/tsl_parser/main.go b/v5/cmd/tsl_parser/main.go
index 5d8059b..bf75047 100644
--- a/v5/cmd/tsl_parser/main.go
+++ b/v5/cmd/tsl_parser/main.go
@@ -87,5 +87,6 @@ func main() {
 	}
 
 	check(err)
-	fmt.Println(string(s))
+	_, err = fmt.Println(string(s))
+	check(err)
 }
diff --git a/v5/cmd/tsl_sqlite/main.go b/v5/cmd/tsl_sqlite/main.go
index 7b4b70c..6ce6bf2 100644
--- a/v5/cmd/tsl_sqlite/main.go
+++ b/v5/cmd/tsl_sqlite/main.go
@@ -118,7 +118,8 @@ func main() {
 		check(err)
 
 		b, _ := json.Marshal(elem)
-		fmt.Printf("%s\n", string(b))
+		_, err = fmt.Printf("%s\n", string(b))
+		check(err)
 	}
 
 	// Check for errors and exit.
diff --git a/v6/cmd/tsl/main.go b/v6/cmd/tsl/main.go
index d5f71ba..5110288 100644
--- a/v6/cmd/tsl/main.go
+++ b/v6/cmd/tsl/main.go
@@ -23,7 +23,10 @@ func main() {
 
 	expression := flag.Arg(0)
 
-	fmt.Printf("Parsing: %s\n", expression)
+	if _, err := fmt.Printf("Parsing: %s\n", expression); err != nil {
+		fmt.Fprintln(os.Stderr, err)
+		os.Exit(1)
+	}
 	tree, err := tsl.ParseTSL(expression)
 	if err != nil {
 		fmt.Fprintln(os.Stderr, err)
@@ -33,4 +36,8 @@ func main() {
 
 	printer := NewASTPrinter()
 	printer.Print(tree, 0)
+	if printer.err != nil {
+		fmt.Fprintln(os.Stderr, printer.err)
+		os.Exit(1)
+	}
 }
diff --git a/v6/cmd/tsl/printer.go b/v6/cmd/tsl/printer.go
index 52da3b6..d0f33cc 100644
--- a/v6/cmd/tsl/printer.go
+++ b/v6/cmd/tsl/printer.go
@@ -11,6 +11,7 @@ import (
 // ASTPrinter handles the formatted output of TSL abstract syntax trees
 type ASTPrinter struct {
 	indentSize int
+	err        error // first error writing the output
 }
 
 // NewASTPrinter creates a new ASTPrinter with default settings
@@ -103,7 +104,9 @@ func (p *ASTPrinter) printTimestamp(node *tsl.TSLNode, level int) {
 
 func (p *ASTPrinter) printIndented(level int, format string, a ...interface{}) {
 	indent := p.getIndentation(level)
-	fmt.Printf(indent+format, a...)
+	if p.err == nil {
+		_, p.err = fmt.Printf(indent+format, a...)
+	}
 }
 
 func (p *ASTPrinter) getIndentation(level int) string {
diff --git a/v6/cmd/tsl_mem/main.go b/v6/cmd/tsl_mem/main.go
index a1d31e4..039369d 100644
--- a/v6/cmd/tsl_mem/main.go
+++ b/v6/cmd/tsl_mem/main.go
@@ -89,5 +89,6 @@ func main() {
 	}
 
 	check(err)
-	fmt.Printf("%s\n", s)
+	_, err = fmt.Printf("%s\n", s)
+	check(err)
 }
diff --git a/v6/cmd/tsl_parser/main.go b/v6/cmd/tsl_parser/main.go
index 163f59d..d60024f 100644
--- a/v6/cmd/tsl_parser/main.go
+++ b/v6/cmd/tsl_parser/main.go
@@ -86,5 +86,6 @@ func main() {
 	}
 
 	check(err)
-	fmt.Println(string(s))
+	_, err = fmt.Println(string(s))
+	check(err)
 }
-- 
2.43.0


From 936eefb09b05af291d2d4a27672042316355d715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:59 +0000
Subject: [PATCH 13/19] fix: report failures storing the collection in the
 database tools

---
 v4/cmd/tsl_gorm/main.go   |  5 ++++-
 v4/cmd/tsl_gorm/model.go  | 15 ++++++++++-----
 v4/cmd/tsl_sqlite/main.go |  5 ++++-
 v5/cmd/tsl_gorm/main.go   |  5 ++++-
 v5/cmd/tsl_gorm/model.go  | 15 ++++++++++-----
 v5/cmd/tsl_sqlite/main.go |  5 ++++-
 6 files changed, 36 insertions(+), 14 deletions(-)

diff --git a/v4/cmd/tsl_gorm/main.go b/v4/cmd/tsl_gorm/main.go
index bb0ddb3..8de8452 100644
--- a/v4/cmd/tsl_gorm/main.go
+++ b/v4/cmd/tsl_gorm/main.go
@@ -69,7 +69,6 @@ func main() {
 	// Try to connect to sqlite driver.
 	tx, err := connect(ctx, *filePtr)
 	check(err)
-	defer tx.Commit()
 
 	// Create a clean books collection.
 	if *preparePtr {
@@ -124,4 +123,8 @@ func main() {
 	// Check for errors and exit.
 	err = rows.Err()
 	check(err)
+
+	// Success means that the changes are stored.
+	err = tx.Commit().Error
+	check(err)
 }
diff --git a/v4/cmd/tsl_gorm/model.go b/v4/cmd/tsl_gorm/model.go
index 6ae883d..81431d4 100644
--- a/v4/cmd/tsl_gorm/model.go
+++ b/v4/cmd/tsl_gorm/model.go
@@ -38,28 +38,33 @@ func connect(ctx context.Context, url string) (tx *gorm.DB, err error) {
 	check(err)
 
 	// Migrate the schema.
-	db.AutoMigrate(&Book{})
+	err = db.AutoMigrate(&Book{}).Error
+	check(err)
 
 	// Begin transaction.
 	tx = db.Begin()
+	err = tx.Error
 
 	return
 }
 
 func prepareCollection(tx *gorm.DB) (err error) {
 	// Delete all books in the DB.
-	tx.Where("title is not null").Delete(Book{})
+	err = tx.Where("title is not null").Delete(Book{}).Error
+	if err != nil {
+		return
+	}
 
 	// Insert new books into DB.
 	for _, b := range model.Books {
-		tx.Create(&Book{
+		err = tx.Create(&Book{
 			Title:  b.(model.Book).Title,
 			Author: b.(model.Book).Author,
 			Pages:  b.(model.Book).Spec.Pages,
 			Rating: b.(model.Book).Spec.Rating,
-		})
+		}).Error
 
-		if tx.Error != nil {
+		if err != nil {
 			return
 		}
 	}
diff --git a/v4/cmd/tsl_sqlite/main.go b/v4/cmd/tsl_sqlite/main.go
index 3d72526..27919db 100644
--- a/v4/cmd/tsl_sqlite/main.go
+++ b/v4/cmd/tsl_sqlite/main.go
@@ -75,7 +75,6 @@ func main() {
 	// Try to connect to sqlite driver.
 	tx, err := connect(ctx, *filePtr)
 	check(err)
-	defer tx.Commit()
 
 	// Create a clean books collection.
 	if *preparePtr {
@@ -123,4 +122,8 @@ func main() {
 	// Check for errors and exit.
 	err = rows.Err()
 	check(err)
+
+	// Success means that the changes are stored.
+	err = tx.Commit()
+	check(err)
 }
diff --git a/v5/cmd/tsl_gorm/main.go b/v5/cmd/tsl_gorm/main.go
index 78fd518..ed9470c 100644
--- a/v5/cmd/tsl_gorm/main.go
+++ b/v5/cmd/tsl_gorm/main.go
@@ -70,7 +70,6 @@ func main() {
 	// Try to connect to sqlite driver.
 	tx, err := connect(ctx, *filePtr)
 	check(err)
-	defer tx.Commit()
 
 	// Create a clean books collection.
 	if *preparePtr {
@@ -126,4 +125,8 @@ func main() {
 	// Check for errors and exit.
 	err = rows.Err()
 	check(err)
+
+	// Success means that the changes are stored.
+	err = tx.Commit().Error
+	check(err)
 }
diff --git a/v5/cmd/tsl_gorm/model.go b/v5/cmd/tsl_gorm/model.go
index 095b15f..8828e76 100644
--- a/v5/cmd/tsl_gorm/model.go
+++ b/v5/cmd/tsl_gorm/model.go
@@ -39,29 +39,34 @@ func connect(ctx context.Context, url string) (tx *gorm.DB, err error) {
 	check(err)
 
 	// Migrate the schema.
-	db.AutoMigrate(&Book{})
+	err = db.AutoMigrate(&Book{}).Error
+	check(err)
 
 	// Begin transaction.
 	tx = db.Begin()
+	err = tx.Error
 
 	return
 }
 
 func prepareCollection(tx *gorm.DB) (err error) {
 	// Delete all books in the DB.
-	tx.Where("title is not null").Delete(Book{})
+	err = tx.Where("title is not null").Delete(Book{}).Error
+	if err != nil {
+		return
+	}
 
 	// Insert new books into DB.
 	for _, b := range model.Books {
-		tx.Create(&Book{
+		err = tx.Create(&Book{
 			Title:  b.(model.Book).Title,
 			Author: b.(model.Book).Author,
 			Pages:  b.(model.Book).Spec.Pages,
 			Rating: b.(model.Book).Spec.Rating,
 			OnLoan: b.(model.Book).OnLoan,
-		})
+		}).Error
 
-		if tx.Error != nil {
+		if err != nil {
 			return
 		}
 	}
diff --git a/v5/cmd/tsl_sqlite/main.go b/v5/cmd/tsl_sqlite/main.go
index 6ce6bf2..ed39898 100644
--- a/v5/cmd/tsl_sqlite/main.go
+++ b/v5/cmd/tsl_sqlite/main.go
@@ -76,7 +76,6 @@ func main() {
 	// Try to connect to sqlite driver.
 	tx, err := connect(ctx, *filePtr)
 	check(err)
-	defer tx.Commit()
 
 	// Create a clean books collection.
 	if *preparePtr {
@@ -125,4 +124,8 @@ func main() {
 	// Check for errors and exit.
 	err = rows.Err()
 	check(err)
+
+	// Success means that the changes are stored.
+	err = tx.Commit()
+	check(err)
 }
-- 
2.43.0


From eeb3525b9b8d0f192a0402a35758166522aa73e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 14/19] fix: close the data base of every GraphQL request and
 report start-up failures

---
 v4/cmd/tsl_graphql/main.go  | 14 ++++++++++----
 v4/cmd/tsl_graphql/model.go | 11 +++++++----
 v5/cmd/tsl_graphql/main.go  | 14 ++++++++++----
 v5/cmd/tsl_graphql/model.go | 11 +++++++----
 4 files changed, 34 insertions(+), 16 deletions(-)

diff --git a/v4/cmd/tsl_graphql/main.go b/v4/cmd/tsl_graphql/main.go
index 56df830..f4ab6ac 100644
--- a/v4/cmd/tsl_graphql/main.go
+++ b/v4/cmd/tsl_graphql/main.go
@@ -96,10 +96,11 @@ func sqlQuery(ctx context.Context, filter string) (books []model.Book, err error
 	var rows *sql.Rows
 
 	// Try to connect to sqlite driver.
-	tx, err := connect(ctx, *filePtr)
+	db, tx, err := connect(ctx, *filePtr)
 	if err != nil {
 		return nil, err
 	}
+	defer db.Close()
 	defer tx.Commit()
 
 	// Parse input string into a TSL tree.
@@ -167,13 +168,17 @@ func main() {
 
 	// Create a clean books collection.
 	if *preparePtr {
-		tx, err := connect(ctx, *filePtr)
+		db, tx, err := connect(ctx, *filePtr)
 		check(err)
 
 		err = prepareCollection(ctx, tx)
 		check(err)
 
-		tx.Commit()
+		err = tx.Commit()
+		check(err)
+
+		err = db.Close()
+		check(err)
 	}
 
 	rootQuery := graphql.NewObject(graphql.ObjectConfig{
@@ -220,5 +225,6 @@ Query example:
   "query={books(filter:\"title like '%%Other%%' and spec.pages>100\"){title,author,spec{pages}}}"`
 
 	fmt.Println(msg)
-	http.ListenAndServe(":8080", nil)
+	err := http.ListenAndServe(":8080", nil)
+	check(err)
 }
diff --git a/v4/cmd/tsl_graphql/model.go b/v4/cmd/tsl_graphql/model.go
index 2ddf90b..a7125eb 100644
--- a/v4/cmd/tsl_graphql/model.go
+++ b/v4/cmd/tsl_graphql/model.go
@@ -35,13 +35,16 @@ create table if not exists books (
 delete from books;
 `
 
-func connect(ctx context.Context, url string) (tx *sql.Tx, err error) {
-	var db *sql.DB
-
+func connect(ctx context.Context, url string) (db *sql.DB, tx *sql.Tx, err error) {
 	db, err = sql.Open("sqlite3", url)
-	check(err)
+	if err != nil {
+		return
+	}
 
 	tx, err = db.BeginTx(ctx, nil)
+	if err != nil {
+		db.Close()
+	}
 
 	return
 }
diff --git a/v5/cmd/tsl_graphql/main.go b/v5/cmd/tsl_graphql/main.go
index 4f161b4..43c7cc3 100644
--- a/v5/cmd/tsl_graphql/main.go
+++ b/v5/cmd/tsl_graphql/main.go
@@ -100,10 +100,11 @@ func sqlQuery(ctx context.Context, filter string) (books []model.Book, err error
 	var rows *sql.Rows
 
 	// Try to connect to sqlite driver.
-	tx, err := connect(ctx, *filePtr)
+	db, tx, err := connect(ctx, *filePtr)
 	if err != nil {
 		return nil, err
 	}
+	defer db.Close()
 	defer tx.Commit()
 
 	// Parse input string into a TSL tree.
@@ -172,13 +173,17 @@ func main() {
 
 	// Create a clean books collection.
 	if *preparePtr {
-		tx, err := connect(ctx, *filePtr)
+		db, tx, err := connect(ctx, *filePtr)
 		check(err)
 
 		err = prepareCollection(ctx, tx)
 		check(err)
 
-		tx.Commit()
+		err = tx.Commit()
+		check(err)
+
+		err = db.Close()
+		check(err)
 	}
 
 	rootQuery := graphql.NewObject(graphql.ObjectConfig{
@@ -225,5 +230,6 @@ Query example:
   "query={books(filter:\"title like '%%Other%%' and spec.pages>100\"){title,author,spec{pages}}}"`
 
 	fmt.Println(msg)
-	http.ListenAndServe(":8080", nil)
+	err := http.ListenAndServe(":8080", nil)
+	check(err)
 }
diff --git a/v5/cmd/tsl_graphql/model.go b/v5/cmd/tsl_graphql/model.go
index c4d72f1..613893d 100644
--- a/v5/cmd/tsl_graphql/model.go
+++ b/v5/cmd/tsl_graphql/model.go
@@ -36,13 +36,16 @@ create table if not exists books (
 delete from books;
 `
 
-func connect(ctx context.Context, url string) (tx *sql.Tx, err error) {
-	var db *sql.DB
-
+func connect(ctx context.Context, url string) (db *sql.DB, tx *sql.Tx, err error) {
 	db, err = sql.Open("sqlite3", url)
-	check(err)
+	if err != nil {
+		return
+	}
 
 	tx, err = db.BeginTx(ctx, nil)
+	if err != nil {
+		db.Close()
+	}
 
 	return
 }
-- 
2.43.0


From 6b4859d5a2827e936103e5ff6373cb9fe4354698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 15/19] fix: refuse array indexes that do not fit a C int

---
 v6/pkg/tsl/tsl.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/v6/pkg/tsl/tsl.go b/v6/pkg/tsl/tsl.go
index 6d5092e..b473673 100644
--- a/v6/pkg/tsl/tsl.go
+++ b/v6/pkg/tsl/tsl.go
@@ -208,5 +208,9 @@ func (n *TSLNode) AttachElement(index int, child *TSLNode) bool {
 	if n == nil || child == nil || n.Type() != KindArrayLiteral {
 		return false
 	}
+	// The index must be in range before it is cut down to a C int.
+	if index < 0 || index >= int(C.get_array_size(n.cNode)) {
+		return false
+	}
 	return C.ast_attach_array_element(n.cNode, C.int(index), child.cNode) != 0
 }
-- 
2.43.0


From b0b6c5c4ef3597fb65a7e6e61843efc802ef7da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:52 +0000
Subject: [PATCH 16/19] fix: read record dates without regard to the host's
 time zone

---
 v6/pkg/walkers/semantics/dates.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v6/pkg/walkers/semantics/dates.go b/v6/pkg/walkers/semantics/dates.go
index 277cac6..6c43408 100644
--- a/v6/pkg/walkers/semantics/dates.go
+++ b/v6/pkg/walkers/semantics/dates.go
@@ -8,7 +8,7 @@ func toDate(value interface{}) (time.Time, bool) {
 		return v, true
 	case string:
 		// try full RFC3339 first
-		if date, err := time.Parse(time.RFC3339, v); err == nil {
+		if date, err := time.ParseInLocation(time.RFC3339, v, time.UTC); err == nil {
 			return date, true
 		}
 		// then try short date format YYYY-MM-DD
-- 
2.43.0


From d8ee2fb434a116de7f16cbdc64bbe497b5c3d071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:38 +0000
Subject: [PATCH 17/19] fix: compare record dates as instants, not by their
 time zones

---
 v5/pkg/walkers/semantics/walk.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/v5/pkg/walkers/semantics/walk.go b/v5/pkg/walkers/semantics/walk.go
index aa6ef09..2d4391b 100644
--- a/v5/pkg/walkers/semantics/walk.go
+++ b/v5/pkg/walkers/semantics/walk.go
@@ -455,9 +455,9 @@ func handleDateOp(n tsl.Node, eval EvalFunc) (bool, error) {
 
 	switch n.Func {
 	case tsl.EqOp:
-		return left == right, nil
+		return left.Equal(right), nil
 	case tsl.NotEqOp:
-		return left != right, nil
+		return !left.Equal(right), nil
 	case tsl.LtOp:
 		return right.After(left), nil
 	case tsl.LteOp:
@@ -684,7 +684,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 			if !ok {
 				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 			}
-			b = b || left == t
+			b = b || left.Equal(t)
 		}
 		return b, nil
 	case tsl.NotInOp:
@@ -694,7 +694,7 @@ func handleDateArrayOp(n tsl.Node, eval EvalFunc) (bool, error) {
 			if !ok {
 				return false, tsl.UnexpectedLiteralError{Literal: n.Func}
 			}
-			b = b && left != t
+			b = b && !left.Equal(t)
 		}
 		return b, nil
 	}
-- 
2.43.0


From ed790a6b7a5c25aa51de27b96626d555f124ae36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:18 +0000
Subject: [PATCH 18/19] fix: v5 tsl_mongo: the on_loan column is the field
 on-loan of the documents

The demo documents store the field as "on-loan", so a filter on on_loan, mapped to
"onloan", compared a field no document has and selected nothing.
---
 v5/cmd/tsl_mongo/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v5/cmd/tsl_mongo/main.go b/v5/cmd/tsl_mongo/main.go
index b893918..c97a6a2 100644
--- a/v5/cmd/tsl_mongo/main.go
+++ b/v5/cmd/tsl_mongo/main.go
@@ -44,7 +44,7 @@ var columnNamesMap = map[string]string{
 	"author":      "author",
 	"spec.pages":  "spec.pages",
 	"spec.rating": "spec.rating",
-	"on_loan":     "onloan",
+	"on_loan":     "on-loan",
 }
 
 // checkColumnName checks if a coulumn name is valid in user space replace it
-- 
2.43.0


From 5494b7f17d1b71bd1f8880c0407eed8b3b578eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:28 +0000
Subject: [PATCH 19/19] fix: v5 tsl_gorm: the on_loan column is on_loan in
 gorm's table

gorm names the column of the OnLoan field on_loan, so every filter on on_loan, mapped to
onloan, ended with "no such column: onloan".
---
 v5/cmd/tsl_gorm/main.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v5/cmd/tsl_gorm/main.go b/v5/cmd/tsl_gorm/main.go
index ed9470c..88bf11c 100644
--- a/v5/cmd/tsl_gorm/main.go
+++ b/v5/cmd/tsl_gorm/main.go
@@ -42,7 +42,7 @@ var columnNamesMap = map[string]string{
 	"author":      "author",
 	"spec.pages":  "pages",
 	"spec.rating": "rating",
-	"on_loan":     "onloan",
+	"on_loan":     "on_loan",
 }
 
 // checkColumnName checks if a coulumn name is valid in user space replace it
-- 
2.43.0

