From 67ff822cea2a08eace5f591ff73d50cf0da27d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:07:51 +0000
Subject: [PATCH 01/81] fix: keep ampersands in harvest and query attribute
 values

libxml2's SAX1 attributes keep "&amp;" as "&#38;" unless entities are
substituted, so a url with an ampersand came back altered.
---
 src/mws/xmlparser/processMwsHarvest.cpp | 9 ++++++---
 src/mws/xmlparser/readMwsQuery.cpp      | 2 ++
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index a61621e..88b6ad5 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -486,10 +486,13 @@ HarvestResult processHarvestFromFd(int fd, HarvestProcessor* harvestProcessor,
                                          XML_CHAR_ENCODING_UTF8)) ==
         nullptr) {
         PRINT_WARN("Error while creating the ParserContext\n");
-    }
+    } else {
+        // Without this, attribute values keep "&amp;" as "&#38;"
+        ctxtPtr->replaceEntities = 1;
         // Parsing the document
-        else if ((result.status = xmlParseDocument(ctxtPtr)) == -1) {
-        PRINT_WARN("Parsing XML document failed\n");
+        if ((result.status = xmlParseDocument(ctxtPtr)) == -1) {
+            PRINT_WARN("Parsing XML document failed\n");
+        }
     }
 
     // Freeing the parser context
diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index 95bce09..8e23b03 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -401,6 +401,8 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
         return nullptr;
     }
 
+    // Without this, attribute values keep "&amp;" as "&#38;"
+    ctxtPtr->replaceEntities = 1;
     ret = xmlParseDocument(ctxtPtr);
     if (ret == -1) {
         PRINT_WARN("Parsing failed\n");
-- 
2.43.0


From 35c481ec439e5f6cee45fb26e9b1ce76e7f710e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:31 +0000
Subject: [PATCH 02/81] fix: range queries freed an uninitialised iterator, and
 iterating an empty index

RangeCtxt leaked its iterator on every re-solve and freed an uninitialised
pointer when it was never solved; iterators were dereferenced on an index
without any formula.
---
 src/mws/index/IndexIterator.hpp |  4 +++-
 src/mws/query/SearchContext.cpp | 17 ++++++++---------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/mws/index/IndexIterator.hpp b/src/mws/index/IndexIterator.hpp
index 1a14660..d6325a9 100644
--- a/src/mws/index/IndexIterator.hpp
+++ b/src/mws/index/IndexIterator.hpp
@@ -63,7 +63,9 @@ class IndexIterator {
 
     typename Accessor::Node* next() {
         if (_backtrackIterators.empty()) {  // add first branch
-            _push(Accessor::getChildrenIterator(_root));
+            auto children = Accessor::getChildrenIterator(_root);
+            if (!children.isValid()) return nullptr;  // empty index
+            _push(children);
         } else {  // or find first unexplored branch
             while (!_backtrackIterators.back().hasNext()) {
                 _pop();
diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index eba24a9..248f3bc 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -119,19 +119,20 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
 
     typename Accessor::Index* index;
     typename Accessor::Node* root;
-    typename Accessor::Iterator* iterator;
+    unique_ptr<typename Accessor::Iterator> iterator;
 
     typename Accessor::Node* solve(typename Accessor::Index* index,
                                    typename Accessor::Node* root) {
         this->index = index;
         this->root = root;
 
-        // XXX:
-        typename Accessor::Iterator it = Accessor::getChildrenIterator(root);
-        // malloc'ed because there is no default constructor
-        iterator = (typename Accessor::Iterator*)malloc(sizeof(it));
-        assert(iterator != nullptr);
-        *iterator = it;
+        // allocated because there is no default constructor
+        iterator.reset(new typename Accessor::Iterator(
+            Accessor::getChildrenIterator(root)));
+        if (!iterator->isValid()) {  // empty index
+            this->isSolved = false;
+            return nullptr;
+        }
 
         encoded_token_t tok = Accessor::getToken(*iterator);
         while (!validSubst(tok) && iterator->hasNext()) {
@@ -176,8 +177,6 @@ struct RangeCtxt : public BacktrackCtxt<Accessor> {
         return node;
     }
 
-    ~RangeCtxt() { free(iterator); }
-
  private:
     bool isCmmlNumber(encoded_token_t tok) {
         if (tok.arity != 0) return false;
-- 
2.43.0


From eb6d54f4c4cc21c7079ead5bfad8c966411197d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:31 +0000
Subject: [PATCH 03/81] fix: huge answer page sizes wrapped around when added
 to the offset

---
 src/mws/query/SearchContext.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/query/SearchContext.cpp b/src/mws/query/SearchContext.cpp
index 248f3bc..94bf020 100644
--- a/src/mws/query/SearchContext.cpp
+++ b/src/mws/query/SearchContext.cpp
@@ -301,7 +301,7 @@ MwsAnswset* SearchContext::getResult(typename A::Index* index,
     auto startTime = Time::now();
 
     // Checking the arguments
-    if (offset + size > maxTotal) {
+    if ((uint64_t)offset + size > maxTotal) {
         if (maxTotal <= offset) {
             size = 0;
         } else {
-- 
2.43.0


From efe0522e2d27ad73c38656db9f2e43ee01b1ff63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:31 +0000
Subject: [PATCH 04/81] fix: a range without lower bound excluded zero and
 negative numbers

numeric_limits<double>::min() is the smallest positive number.
---
 src/mws/types/CmmlToken.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/mws/types/CmmlToken.cpp b/src/mws/types/CmmlToken.cpp
index 2dc954c..6bc0823 100644
--- a/src/mws/types/CmmlToken.cpp
+++ b/src/mws/types/CmmlToken.cpp
@@ -228,7 +228,7 @@ std::string CmmlToken::getAttribute(const std::string& attr) const {
 /**
  * @brief CmmlToken::getRangeBounds
  * @return a pair with the first field set to the low bound
- * (MIN_DOUBLE if no low bound found)
+ * (the lowest double if no low bound found)
  * and the second field set to the upper bound
  * (MAX_DOUBLE if no upper bound found)
  */
@@ -239,7 +239,7 @@ const std::pair<double, double> CmmlToken::getRangeBounds() const {
 
     auto itLow = _attributes.find(RANGE_LOW_ATTR);
     if (itLow == _attributes.end()) {
-        bounds.first = numeric_limits<double>::min();
+        bounds.first = numeric_limits<double>::lowest();
     } else {
         try {
             bounds.first = std::stod(itLow->second);
@@ -247,7 +247,7 @@ const std::pair<double, double> CmmlToken::getRangeBounds() const {
         catch (std::exception & e) {
             UNUSED(e);
             PRINT_WARN("Invalid low bound for range.");
-            bounds.first = numeric_limits<double>::min();
+            bounds.first = numeric_limits<double>::lowest();
         }
     }
 
-- 
2.43.0


From ed62ad27c48f50979280f671450480117bc2d999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:10:30 +0000
Subject: [PATCH 05/81] fix: query variables and ranges are leaves of the
 encoded formula

They were given arity 1, and children written inside them were encoded as
further formula tokens: harvests with variables produced malformed indexes
and queries with them walked past index leaves.
---
 src/mws/index/ExpressionEncoder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index a97cea1..01cba1f 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -79,7 +79,7 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
 
         if (token->isVar()) {
             string qvarName = token->getVarName();
-            encoded_token.arity = 1;
+            encoded_token.arity = 0;
             if (qvarName == "") {
                 encoded_token.id = _getAnonVarOffset() + anonVarId;
                 anonVarId++;
@@ -93,7 +93,7 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
                 }
             }
         } else if (token->isRange()) {
-            encoded_token.arity = 1;
+            encoded_token.arity = 0;
             encoded_token.id = _getRangeOffset() + anonRangeId;
             anonRangeId++;
             if (expressionInfo != nullptr) {
@@ -118,6 +118,9 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
         }
         encodedFormula->push_back(encoded_token);
 
+        // Variables and ranges are leaves, whatever they contain
+        if (token->isVar() || token->isRange()) continue;
+
         // Replenish stack
         for (auto rIt = token->getChildNodes().rbegin();
              rIt != token->getChildNodes().rend(); rIt++) {
-- 
2.43.0


From e70e619b119d006fef19ea5c3144fef0993e6490 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:39 +0000
Subject: [PATCH 06/81] fix: queries with many variables mixed up unrelated
 variables and ranges

The 32nd named variable was treated as anonymous, further ones as ranges or
constants, and anonymous variables ran into range ids (assertion). Anonymous
variables now share the last id, named ones also use the second id range, and
formulas beyond that are reported as not encodable.
---
 src/mws/index/ExpressionEncoder.cpp | 21 ++++++++++++++++++---
 src/mws/index/encoded_token.h       |  4 ++--
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index 01cba1f..394db37 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -30,6 +30,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 /* Includes                                                                 */
 /****************************************************************************/
 
+#include <algorithm>
 #include <stack>
 using std::stack;
 #include <stdexcept>
@@ -81,11 +82,21 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
             string qvarName = token->getVarName();
             encoded_token.arity = 0;
             if (qvarName == "") {
-                encoded_token.id = _getAnonVarOffset() + anonVarId;
+                // Anonymous variables are independent of each other, so those
+                // beyond the available ids may share the last one
+                encoded_token.id = std::min<MeaningId>(
+                    _getAnonVarOffset() + anonVarId, ANON_HVAR_ID_MAX);
                 anonVarId++;
             } else {
-                encoded_token.id =
-                    _getNamedVarOffset() + namedVarDictionary.put(qvarName);
+                MeaningId varId = namedVarDictionary.put(qvarName);
+                encoded_token.id = _getNamedVarOffset() + varId;
+                if (encoded_token.id > HVAR_ID_MAX) {  // use the other range
+                    encoded_token.id += QVAR_ID_MIN - HVAR_ID_MAX - 1;
+                }
+                if (encoded_token.id > QVAR_ID_MAX) {
+                    PRINT_WARN("Too many named variables\n");
+                    return -1;
+                }
                 if (expressionInfo != nullptr) {
                     expressionInfo->qvarNames.push_back(qvarName);
                     expressionInfo->qvarXpaths
@@ -96,6 +107,10 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
             encoded_token.arity = 0;
             encoded_token.id = _getRangeOffset() + anonRangeId;
             anonRangeId++;
+            if (encoded_token.id > RANGE_ID_MAX) {
+                PRINT_WARN("Too many ranges\n");
+                return -1;
+            }
             if (expressionInfo != nullptr) {
                 MeaningId tokenId = encoded_token.id;
                 expressionInfo->rangeBounds
diff --git a/src/mws/index/encoded_token.h b/src/mws/index/encoded_token.h
index e095e27..387d47d 100644
--- a/src/mws/index/encoded_token.h
+++ b/src/mws/index/encoded_token.h
@@ -117,8 +117,8 @@ static inline bool encoded_token_is_range(encoded_token_t token) {
 }
 
 static inline bool encoded_token_is_anon_var(encoded_token_t token) {
-    return (ANON_HVAR_ID_MIN <= token.id && token.id < ANON_HVAR_ID_MAX) ||
-           (ANON_QVAR_ID_MIN <= token.id && token.id < ANON_QVAR_ID_MAX);
+    return (ANON_HVAR_ID_MIN <= token.id && token.id <= ANON_HVAR_ID_MAX) ||
+           (ANON_QVAR_ID_MIN <= token.id && token.id <= ANON_QVAR_ID_MAX);
 }
 
 END_DECLS
-- 
2.43.0


From b8608e3019b39167e0dc1d59b2f69235f4d8444b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:39 +0000
Subject: [PATCH 07/81] fix: the experimental engine only followed the first
 child of a node

A variable was matched against the first child again and again instead of
each child; the variable table was one entry short.
---
 src/mws/query/engine.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index d72e77a..2fb3e86 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -82,7 +82,7 @@ typedef struct query_ctxt_s {
     token_stack_t index_stack;
 
     /* var instantiations */
-    var_instantiation_t vars[VAR_ID_MAX];
+    var_instantiation_t vars[VAR_ID_MAX + 1];
     /* var solve stack */
     uint32_t solving_var_id;
 
@@ -139,7 +139,7 @@ static void query_ctxt_init(query_ctxt_t* RESTRICT query_ctxt,
     int i;
 
     // initialize variables table
-    for (i = 0; i < VAR_ID_MAX; i++) {
+    for (i = 0; i <= VAR_ID_MAX; i++) {
         query_ctxt->vars[i].solved = false;
     }
 
@@ -304,11 +304,11 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
             encoded_token_t entry_token;
             memsector_long_off_t entry_off;
             if (node_type == LONG_INTERNAL_NODE) {
-                entry_token = long_data->token;
-                entry_off = long_data->off;
+                entry_token = long_data[i].token;
+                entry_off = long_data[i].off;
             } else {
-                entry_token = data->token;
-                entry_off = data->off;
+                entry_token = data[i].token;
+                entry_off = data[i].off;
             }
             int pushed_var_tokens = 0;
             token_stack_t var_stack;
-- 
2.43.0


From a03b650f503ebaba82d8b0569537362db88e396c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:29 +0000
Subject: [PATCH 08/81] fix: the experimental engine left its path when a node
 had harvest variables

It consumed query tokens for them without descending to their child, which
either matched the wrong position or ran into the leaf assertion.
---
 src/mws/query/engine.c | 20 +++++---------------
 1 file changed, 5 insertions(+), 15 deletions(-)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index 2fb3e86..820c8ee 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -246,23 +246,13 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
 
                 // revert
                 query_ctxt->curr_index_inode = curr;
+            }
 
-                // revert query token before hvars processing
-                token_stack_push(query, query_token);
+            // harvest variables only match variables of the query, as in the
+            // standard engine
 
-                // hvars
-                uint32_t hvar_id_max =
-                    inode_get_max_var(query_ctxt->curr_index_inode);
-                uint32_t hvar_id;
-                for (hvar_id = 0; hvar_id < hvar_id_max; hvar_id++) {
-                    query_ctxt->solving_var_id = hvar_id;
-                    ret = match_var_to_query(query_ctxt, 1);
-                    if (ret != QUERY_CONTINUE) return ret;
-                }
-            } else {  // no child node exists
-                // revert query token
-                token_stack_push(query, query_token);
-            }
+            // revert query token
+            token_stack_push(query, query_token);
         }
     }
 
-- 
2.43.0


From a32a802b514a54a9a8401934b6ee694343dd8169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:50 +0000
Subject: [PATCH 09/81] fix: the experimental engine overflowed its fixed-size
 token stacks

Queries over 512 tokens and variables bound to subterms over 256 tokens wrote
past their arrays. The stacks now grow, and anonymous variables, which may
share an id, are not recorded.
---
 src/mws/query/engine.c | 267 +++++++++++++++++++++--------------------
 1 file changed, 139 insertions(+), 128 deletions(-)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index 820c8ee..ee4466b 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -26,6 +26,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
  * License: GPLv3
  */
 
+#include <stdlib.h>
+
 #include "mws/query/engine.h"
 
 #include "mws/index/encoded_token.h"
@@ -35,23 +37,33 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 /* Constants                                                                */
 /*--------------------------------------------------------------------------*/
 
-#define MAX_VAR_INSTATIATION_SIZE 256
-#define MAX_QUERY_STACK_SIZE 512
+#define TOKEN_STACK_MIN_CAPACITY 64
 
 /*--------------------------------------------------------------------------*/
 /* Type declarations                                                        */
 /*--------------------------------------------------------------------------*/
 
+typedef struct token_stack_s {
+    encoded_token_t* data;
+    int size;
+    int capacity;
+} token_stack_t;
+
 typedef struct var_instantiation_s {
     bool solved;
-    encoded_token_t tokens[MAX_VAR_INSTATIATION_SIZE];
-    int num_tokens;
+    token_stack_t tokens;
 } var_instantiation_t;
 
-typedef struct token_stack_s {
-    encoded_token_t data[MAX_QUERY_STACK_SIZE];
-    int size;
-} token_stack_t;
+static inline void token_stack_init(token_stack_t* stack) {
+    stack->data = NULL;
+    stack->size = 0;
+    stack->capacity = 0;
+}
+
+static inline void token_stack_free(token_stack_t* stack) {
+    free(stack->data);
+    token_stack_init(stack);
+}
 
 static inline encoded_token_t token_stack_pop(token_stack_t* RESTRICT stack) {
     stack->size--;
@@ -60,6 +72,13 @@ static inline encoded_token_t token_stack_pop(token_stack_t* RESTRICT stack) {
 
 static inline void token_stack_push(token_stack_t* RESTRICT stack,
                                     encoded_token_t token) {
+    if (stack->size == stack->capacity) {
+        stack->capacity = (stack->capacity == 0) ? TOKEN_STACK_MIN_CAPACITY
+                                                 : 2 * stack->capacity;
+        stack->data = (encoded_token_t*)realloc(
+            stack->data, stack->capacity * sizeof(encoded_token_t));
+        if (stack->data == NULL) abort();
+    }
     stack->data[stack->size] = token;
     stack->size++;
 }
@@ -108,7 +127,7 @@ static int process_query_token(query_ctxt_t* query_ctxt);
 
 static int match_var_to_index(query_ctxt_t* query_ctxt, uint32_t arity);
 
-static int match_var_to_query(query_ctxt_t* query_ctxt, uint32_t arity);
+static void query_ctxt_free(query_ctxt_t* query_ctxt);
 
 static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack);
 
@@ -124,7 +143,10 @@ int query_engine_run(index_handle_t* RESTRICT index,
 
     query_ctxt_init(&query_ctxt, index, query, result_cb, result_cb_handle);
 
-    return process_query_token(&query_ctxt);
+    int ret = process_query_token(&query_ctxt);
+    query_ctxt_free(&query_ctxt);
+
+    return ret;
 }
 
 /*--------------------------------------------------------------------------*/
@@ -141,18 +163,18 @@ static void query_ctxt_init(query_ctxt_t* RESTRICT query_ctxt,
     // initialize variables table
     for (i = 0; i <= VAR_ID_MAX; i++) {
         query_ctxt->vars[i].solved = false;
+        token_stack_init(&query_ctxt->vars[i].tokens);
     }
 
     // initialize query stack
-    int size = query->size;
-    query_ctxt->query_stack.size = size;
-    for (i = 0; i < size; i++) {
-        query_ctxt->query_stack.data[size - i - 1] = query->data[i];
+    token_stack_init(&query_ctxt->query_stack);
+    for (i = query->size - 1; i >= 0; i--) {
+        token_stack_push(&query_ctxt->query_stack, query->data[i]);
     }
 
     // intialize index
     query_ctxt->curr_index_inode = (inode_t*)index->root;
-    query_ctxt->index_stack.size = 0;
+    token_stack_init(&query_ctxt->index_stack);
 
     // initialize memsector alloc
     query_ctxt->alloc = index->ms;
@@ -162,6 +184,16 @@ static void query_ctxt_init(query_ctxt_t* RESTRICT query_ctxt,
     query_ctxt->result_cb_handle = result_cb_handle;
 }
 
+static void query_ctxt_free(query_ctxt_t* query_ctxt) {
+    int i;
+
+    for (i = 0; i <= VAR_ID_MAX; i++) {
+        token_stack_free(&query_ctxt->vars[i].tokens);
+    }
+    token_stack_free(&query_ctxt->query_stack);
+    token_stack_free(&query_ctxt->index_stack);
+}
+
 static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
     int ret;
     token_stack_t* query = &query_ctxt->query_stack;
@@ -182,9 +214,9 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
         if (query_ctxt->vars[var_id].solved) {  // solved
             var_instantiation_t* var = &query_ctxt->vars[var_id];
             int i;
-            int size = var->num_tokens;
+            int size = var->tokens.size;
             for (i = 0; i < size; ++i) {
-                token_stack_push(query, var->tokens[size - i - 1]);
+                token_stack_push(query, var->tokens.data[size - i - 1]);
             }
 
             // continue
@@ -195,7 +227,7 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
             token_stack_pop_many(query, size);
         } else {  // unsolved
             query_ctxt->solving_var_id = var_id;
-            query_ctxt->vars[var_id].num_tokens = 0;
+            query_ctxt->vars[var_id].tokens.size = 0;
             ret = match_var_to_index(query_ctxt, 1);
             if (ret != QUERY_CONTINUE) return ret;
         }
@@ -211,7 +243,7 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
 
                 int var_id = encoded_token_get_id(index_token);
                 query_ctxt->solving_var_id = var_id;
-                ret = match_var_to_query(query_ctxt, 1);
+                ret = match_var_to_stack(query_ctxt, query);
                 if (ret != QUERY_CONTINUE) return ret;
             } else {  // constant index token
                 if (memcmp(&query_token, &index_token, sizeof(query_token)) ==
@@ -259,6 +291,58 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
     return QUERY_CONTINUE;
 }
 
+/**
+ * Appends an index or query token to the instantiation of the variable being
+ * solved, replacing solved variables by their own instantiation.
+ * @return false if the variable would be infinitely recursive
+ */
+static bool instantiate_token(query_ctxt_t* query_ctxt,
+                              encoded_token_t first_token) {
+    const uint32_t solving_var_id = query_ctxt->solving_var_id;
+    var_instantiation_t* var = &query_ctxt->vars[solving_var_id];
+    bool result = true;
+
+    // anonymous variables are never looked up again
+    if (encoded_token_is_anon_var(encoded_token(solving_var_id, 0))) {
+        return true;
+    }
+    if (!encoded_token_is_var(first_token)) {
+        token_stack_push(&var->tokens, first_token);
+        return true;
+    }
+
+    token_stack_t var_stack;
+    token_stack_init(&var_stack);
+    token_stack_push(&var_stack, first_token);
+    while (!token_stack_empty(&var_stack)) {
+        encoded_token_t token = token_stack_pop(&var_stack);
+        if (encoded_token_is_var(token)) {  // var
+            uint32_t var_id = encoded_token_get_id(token);
+            // check self-referencing variable
+            if (var_id == solving_var_id) {
+                // (e.g. Q1 -> H1 -> Q1) => set as not solved and proceed
+                // (e.g. Q1 -> f(H1) -> f(g(Q1))) => no solution
+                result = token_stack_empty(&var_stack) && var->tokens.size == 0;
+                break;
+            }
+            if (query_ctxt->vars[var_id].solved) {  // solved var
+                const token_stack_t* solved = &query_ctxt->vars[var_id].tokens;
+                // push in reverse order on stack
+                int i;
+                for (i = solved->size - 1; i >= 0; --i) {
+                    token_stack_push(&var_stack, solved->data[i]);
+                }
+                continue;
+            }
+        }
+        // save to var_instantiation
+        token_stack_push(&var->tokens, token);
+    }
+    token_stack_free(&var_stack);
+
+    return result;
+}
+
 static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
                               uint32_t arity) {
     int ret;
@@ -266,7 +350,7 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
 
     if (arity == 0) {
         uint32_t var_id = query_ctxt->solving_var_id;
-        if (var->num_tokens > 0) {
+        if (var->tokens.size > 0) {
             var->solved = true;
         }
 
@@ -281,14 +365,15 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
         return match_var_to_stack(query_ctxt, &query_ctxt->index_stack);
     } else {  // regular index
         uint32_t i;
-        uint32_t size = query_ctxt->curr_index_inode->size;
-        const encoded_token_dict_entry_t* data;
-        const encoded_token_dict_entry_long_t* long_data;
-        const node_type_t node_type = query_ctxt->curr_index_inode->type;
+        const inode_t* curr = query_ctxt->curr_index_inode;
+        uint32_t size = curr->size;
+        const encoded_token_dict_entry_t* data = NULL;
+        const encoded_token_dict_entry_long_t* long_data = NULL;
+        const node_type_t node_type = curr->type;
         if (node_type == LONG_INTERNAL_NODE) {
-            long_data = ((inode_long_t*)query_ctxt->curr_index_inode)->data;
+            long_data = ((inode_long_t*)curr)->data;
         } else {
-            data = query_ctxt->curr_index_inode->data;
+            data = curr->data;
         }
         for (i = 0; i < size; ++i) {
             encoded_token_t entry_token;
@@ -300,59 +385,21 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
                 entry_token = data[i].token;
                 entry_off = data[i].off;
             }
-            int pushed_var_tokens = 0;
-            token_stack_t var_stack;
-            var_stack.size = 0;
-            token_stack_push(&var_stack, entry_token);
-
-            while (!token_stack_empty(&var_stack)) {
-                encoded_token_t token = token_stack_pop(&var_stack);
-                if (encoded_token_is_var(token)) {  // var
-                    uint32_t var_id = encoded_token_get_id(token);
-                    // check self-referencing variable
-                    if (var_id == query_ctxt->solving_var_id) {
-                        if (token_stack_empty(&var_stack) &&
-                            var->num_tokens == 0) {
-                            // variable self references (e.g. Q1 -> H1 -> Q1)
-                            // => set as not solved and proceed
-                            break;
-                        } else {
-                            // variable is infinitely recursive
-                            // (e.g. Q1 -> f(H1) -> f(g(Q1)))
-                            // => no solution
-                            goto revert_index;
-                        }
-                    }
-                    if (query_ctxt->vars[var_id].solved) {  // solved var
-                        var_instantiation_t* solved_var =
-                            &query_ctxt->vars[var_id];
-                        // push in reverse order on stack
-                        int i;
-                        for (i = solved_var->num_tokens - 1; i >= 0; --i) {
-                            token_stack_push(&var_stack, solved_var->tokens[i]);
-                        }
-                        continue;
-                    }
-                }
-                // save to var_instantiation
-                var->tokens[var->num_tokens] = token;
-                var->num_tokens++;
-                pushed_var_tokens++;
-            }
+            const int prev_var_tokens = var->tokens.size;
 
-            // advance in the index
-            const inode_t* curr = query_ctxt->curr_index_inode;
-            const inode_t* child =
-                (inode_t*)memsector_relOff2addr((char*)curr, entry_off);
-            query_ctxt->curr_index_inode = child;
+            if (instantiate_token(query_ctxt, entry_token)) {
+                // advance in the index
+                query_ctxt->curr_index_inode =
+                    (inode_t*)memsector_relOff2addr((char*)curr, entry_off);
 
-            // continue
-            ret = match_var_to_index(query_ctxt, arity + entry_token.arity - 1);
-            if (ret != QUERY_CONTINUE) return ret;
+                // continue
+                ret = match_var_to_index(query_ctxt,
+                                         arity + entry_token.arity - 1);
+                if (ret != QUERY_CONTINUE) return ret;
+            }
 
-        revert_index:
             // revert
-            var->num_tokens -= pushed_var_tokens;
+            var->tokens.size = prev_var_tokens;
             query_ctxt->curr_index_inode = curr;
         }
     }
@@ -360,17 +407,12 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
     return QUERY_CONTINUE;
 }
 
-static int match_var_to_query(query_ctxt_t* query_ctxt, uint32_t arity) {
-    UNUSED(arity);
-    return match_var_to_stack(query_ctxt, &query_ctxt->query_stack);
-}
-
 static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
-    int ret;
+    int ret = QUERY_CONTINUE;
     var_instantiation_t* var = &query_ctxt->vars[query_ctxt->solving_var_id];
 
     token_stack_t tmp_rev_stack;
-    tmp_rev_stack.size = 0;
+    token_stack_init(&tmp_rev_stack);
 
     // move the var matching to a temp reverted stack
     int arity = 1;
@@ -380,62 +422,31 @@ static int match_var_to_stack(query_ctxt_t* query_ctxt, token_stack_t* stack) {
         token_stack_push(&tmp_rev_stack, token);
     }
 
-    // copy stack and revert
-    token_stack_t var_stack;
+    // simplify using solved vars and save to var_instantiation
+    bool consistent = true;
     int i;
-    int size = tmp_rev_stack.size;
-    var_stack.size = size;
-    for (i = 0; i < size; ++i) {
-        var_stack.data[i] = tmp_rev_stack.data[size - 1 - i];
+    for (i = 0; i < tmp_rev_stack.size && consistent; ++i) {
+        consistent = instantiate_token(query_ctxt, tmp_rev_stack.data[i]);
     }
 
-    // simplify using solved vars and save to var_instantiation
-    bool solved = true;
-    while (!token_stack_empty(&var_stack)) {
-        encoded_token_t token = token_stack_pop(&var_stack);
-        if (encoded_token_is_var(token)) {  // var
-            uint32_t var_id = encoded_token_get_id(token);
-            // check self-referencing variable
-            if (var_id == query_ctxt->solving_var_id) {
-                if (token_stack_empty(&var_stack) && var->num_tokens == 0) {
-                    // variable self references (e.g. Q1 -> H1 -> Q1)
-                    // => set as not solved and proceed
-                    solved = false;
-                    break;
-                } else {
-                    // variable is infinitely recursive
-                    // (e.g. Q1 -> f(H1) -> f(g(Q1)))
-                    // => no solution
-                    goto revert_stack;
-                }
-            }
-            if (query_ctxt->vars[var_id].solved) {  // solved var
-                var_instantiation_t* solved_var = &query_ctxt->vars[var_id];
-                // push in reverse order on stack
-                int i;
-                for (i = solved_var->num_tokens - 1; i >= 0; --i) {
-                    token_stack_push(&var_stack, solved_var->tokens[i]);
-                }
-                continue;
-            }
+    if (consistent) {
+        // set var as solved
+        var->solved = var->tokens.size > 0;
+
+        // continue
+        ret = process_query_token(query_ctxt);
+        if (ret != QUERY_CONTINUE) {
+            token_stack_free(&tmp_rev_stack);
+            return ret;
         }
-        // save to var_instantiation
-        var->tokens[var->num_tokens] = token;
-        var->num_tokens++;
     }
 
-    // set var as solved
-    var->solved = solved;
-
-    // continue
-    ret = process_query_token(query_ctxt);
-    if (ret != QUERY_CONTINUE) return ret;
-
-revert_stack:
+    // revert
     var->solved = false;
     while (!token_stack_empty(&tmp_rev_stack)) {
         token_stack_push(stack, token_stack_pop(&tmp_rev_stack));
     }
+    token_stack_free(&tmp_rev_stack);
 
     return QUERY_CONTINUE;
 }
-- 
2.43.0


From 4a20b8d8e9f8fabf257c47eb18bd10de1ddb9569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:14:24 +0000
Subject: [PATCH 10/81] fix: the experimental engine applied the answer window
 to every formula

Offset and size were applied to the hits of each matching formula instead of
the whole answer list, and formula ids were not reported.
---
 src/mws/daemon/IndexQueryHandler.cpp | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/mws/daemon/IndexQueryHandler.cpp b/src/mws/daemon/IndexQueryHandler.cpp
index a2df29b..4058f53 100644
--- a/src/mws/daemon/IndexQueryHandler.cpp
+++ b/src/mws/daemon/IndexQueryHandler.cpp
@@ -40,6 +40,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <fcntl.h>      // File control operations
 #include <stdlib.h>
 
+#include <algorithm>
 #include <string>
 using std::string;
 #include <vector>
@@ -110,12 +111,27 @@ static result_cb_return_t result_callback(void* _ctxt, const leaf_t* leaf) {
     }
     ;
 
-    dbQueryManager->query((FormulaId)leaf->formula_id,
-                          mwsQuery->attrResultLimitMin,
-                          mwsQuery->attrResultMaxSize, queryCallback);
-    result->total += leaf->num_hits;
+    // window of requested answers, as in SearchContext
+    const uint64_t maxTotal = mwsQuery->attrResultTotalReqNr;
+    const uint64_t begin = (unsigned int)mwsQuery->attrResultLimitMin;
+    const uint64_t end =
+        std::min(maxTotal, begin + (unsigned int)mwsQuery->attrResultMaxSize);
+    const uint64_t found = result->total;
+    const uint64_t hits = mwsQuery->options.includeHits ? leaf->num_hits : 1;
+
+    if (found < end && found + hits > begin) {
+        if (mwsQuery->options.includeHits) {
+            const uint64_t first = std::max(begin, found);
+            dbQueryManager->query((FormulaId)leaf->formula_id, first - found,
+                                  end - first, queryCallback);
+        }
+        if (mwsQuery->options.includeMwsIds) {
+            result->ids.insert(leaf->formula_id);
+        }
+    }
+    result->total = std::min(maxTotal, found + hits);
 
-    return QUERY_CONTINUE;
+    return (found + hits < maxTotal) ? QUERY_CONTINUE : QUERY_STOP;
 }
 
 GenericAnswer* IndexQueryHandler::handleQuery(Query* query) {
-- 
2.43.0


From 846678bb229ecca870aa1f672ee97e4725f06464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:20 +0000
Subject: [PATCH 11/81] fix: identifier renaming did not exempt P and p

The meaning of an identifier starts with its tag, so the exemption never
applied.
---
 src/mws/index/ExpressionEncoder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index 394db37..48dc86b 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -151,7 +151,7 @@ MeaningId ExpressionEncoder::_getCiMeaning(const CmmlToken* token) {
     CmmlToken* tokParent = token->getParentNode();
 
     // check if we should not rename this ci
-    if ((tokMeaning == "#P") || (tokMeaning == "#p") ||
+    if ((tokMeaning == "ci#P") || (tokMeaning == "ci#p") ||
         // the content must have only 1 char:
         (tokMeaning.length() > 2 + token->getTag().length()) ||
         // make sure this is not the 1st child of apply
-- 
2.43.0


From 9c516751a09af0b1f5925498011d4de60b4506bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:29:49 +0000
Subject: [PATCH 12/81] fix: identifier renaming only renamed single-byte
 identifiers

Identifiers of one non-ASCII character, such as greek letters, kept their
names although they are single characters.
---
 src/mws/index/ExpressionEncoder.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mws/index/ExpressionEncoder.cpp b/src/mws/index/ExpressionEncoder.cpp
index 48dc86b..c56cfd2 100644
--- a/src/mws/index/ExpressionEncoder.cpp
+++ b/src/mws/index/ExpressionEncoder.cpp
@@ -146,6 +146,12 @@ int ExpressionEncoder::encode(const Config& config, const CmmlToken* expression,
     return rv;
 }
 
+/// @return number of characters, i.e. of bytes which start one
+static size_t countUtf8Chars(const string& str) {
+    return std::count_if(str.begin(), str.end(),
+                         [](char c) { return (c & 0xC0) != 0x80; });
+}
+
 MeaningId ExpressionEncoder::_getCiMeaning(const CmmlToken* token) {
     Meaning tokMeaning = token->getMeaning();
     CmmlToken* tokParent = token->getParentNode();
@@ -153,7 +159,7 @@ MeaningId ExpressionEncoder::_getCiMeaning(const CmmlToken* token) {
     // check if we should not rename this ci
     if ((tokMeaning == "ci#P") || (tokMeaning == "ci#p") ||
         // the content must have only 1 char:
-        (tokMeaning.length() > 2 + token->getTag().length()) ||
+        (countUtf8Chars(tokMeaning) > 2 + token->getTag().length()) ||
         // make sure this is not the 1st child of apply
         ((tokParent != nullptr) && (tokParent->getTag() == "apply") &&
          (tokParent->getChildNodes().front()) == token)) {
-- 
2.43.0


From 6a3416a25a74ff8f01b2099e77252261090ec30f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:52 +0000
Subject: [PATCH 13/81] fix: damaged saved indexes were loaded

The checksum covers neither the size nor the root position in the header,
so a short file was read beyond its end, an interrupted build (whose header
promises an empty index) was served, and a damaged root was followed.
The mapped size was also cut to 32 bits.
---
 src/common/utils/mmap.h   |  2 +-
 src/mws/index/memsector.c | 47 +++++++++++++++++++++++++++++++++++++++
 2 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/common/utils/mmap.h b/src/common/utils/mmap.h
index 53ef1a9..4dcdf33 100644
--- a/src/common/utils/mmap.h
+++ b/src/common/utils/mmap.h
@@ -44,7 +44,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 typedef struct mmap_handle_s {
     const char* path;
     char*    start_addr;
-    uint32_t size;
+    size_t size;
 } mmap_handle_t;
 
 /*--------------------------------------------------------------------------*/
diff --git a/src/mws/index/memsector.c b/src/mws/index/memsector.c
index dbbac2c..46659ef 100644
--- a/src/mws/index/memsector.c
+++ b/src/mws/index/memsector.c
@@ -36,6 +36,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <crc32/crc32.h>
 
 #include "common/utils/mmap.h"
+#include "mws/index/index.h"
 #include "mws/index/memsector.h"
 
 const uint64_t MEMSECTOR_MAGIC = 0x88CAFE88;
@@ -46,6 +47,8 @@ const uint32_t MEMSECTOR_VERSION = 1;
 /*--------------------------------------------------------------------------*/
 
 static uint32_t memsector_get_checksum(const memsector_header_t* memsector);
+static bool memsector_has_valid_root(const memsector_header_t* memsector,
+                                     uint64_t file_size);
 
 /*--------------------------------------------------------------------------*/
 /* Implementation                                                           */
@@ -109,6 +112,11 @@ int memsector_load(memsector_handle_t* ms, const char* path) {
     // read and validate memsector data
     memsector_header_t* memsector =
         (memsector_header_t*)ms->mmap_handle.start_addr;
+    if (ms->mmap_handle.size < sizeof(*memsector)) {
+        PRINT_WARN("File %s is not a memsector (too short)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
     if (memsector->magic != MEMSECTOR_MAGIC) {
         PRINT_WARN("File %s is not a memsector (magic mismatch)\n", path);
         mmap_unload(&ms->mmap_handle);
@@ -120,11 +128,21 @@ int memsector_load(memsector_handle_t* ms, const char* path) {
         mmap_unload(&ms->mmap_handle);
         return -1;
     }
+    if (memsector->index_size != ms->mmap_handle.size - sizeof(*memsector)) {
+        PRINT_WARN("Memsector %s is corrupted (size mismatch)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
     if (memsector->checksum != memsector_get_checksum(memsector)) {
         PRINT_WARN("Memsector %s is corrupted (checksum mismatch)\n", path);
         mmap_unload(&ms->mmap_handle);
         return -1;
     }
+    if (!memsector_has_valid_root(memsector, ms->mmap_handle.size)) {
+        PRINT_WARN("Memsector %s is corrupted (invalid root)\n", path);
+        mmap_unload(&ms->mmap_handle);
+        return -1;
+    }
 
     // initialize handle data
     ms->ms = memsector;
@@ -151,3 +169,32 @@ static uint32_t memsector_get_checksum(const memsector_header_t* memsector) {
 
     return crc32(/* initial crc32 = */ 0, index_start, index_size);
 }
+
+/**
+ * The root is not part of the checksum, but it is always the last node
+ */
+static bool memsector_has_valid_root(const memsector_header_t* memsector,
+                                     uint64_t file_size) {
+    const uint64_t root_off = memsector->root_off;
+
+    if (root_off > file_size / MEMSECTOR_ALLOC_UNIT ||
+        root_off * MEMSECTOR_ALLOC_UNIT < sizeof(*memsector) ||
+        root_off * MEMSECTOR_ALLOC_UNIT + sizeof(inode_t) > file_size) {
+        return false;
+    }
+
+    const inode_t* root =
+        (const inode_t*)memsector_off2addr(memsector, root_off);
+    const uint64_t data_size =
+        file_size - root_off * MEMSECTOR_ALLOC_UNIT - sizeof(inode_t);
+    uint64_t entry_size;
+    if (root->type == INTERNAL_NODE) {
+        entry_size = sizeof(encoded_token_dict_entry_t);
+    } else if (root->type == LONG_INTERNAL_NODE) {
+        entry_size = sizeof(encoded_token_dict_entry_long_t);
+    } else {
+        return false;
+    }
+
+    return data_size % entry_size == 0 && data_size / entry_size == root->size;
+}
-- 
2.43.0


From b6b4593e8fc96cdf075812e37b482d9dc3c00830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:10 +0000
Subject: [PATCH 14/81] fix: mws-index could delete an existing index

Whether to delete old data was left uninitialised.
---
 src/mws/index/IndexWriter.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mws/index/IndexWriter.hpp b/src/mws/index/IndexWriter.hpp
index 19f0875..2ce4081 100644
--- a/src/mws/index/IndexWriter.hpp
+++ b/src/mws/index/IndexWriter.hpp
@@ -41,6 +41,8 @@ struct IndexConfiguration {
     HarvesterConfiguration harvester;
     std::string dataPath;
     bool deleteOldData;
+
+    IndexConfiguration() : deleteOldData(false) {}
 };
 
 /**
-- 
2.43.0


From 180eeb1a9c7747b321e6ce36d583142ae767b515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:10 +0000
Subject: [PATCH 15/81] fix: index builds ignored storage failures and could
 leave a wrong index

Failures to store formulae, crawl data, meanings or the memsector did not
make the build fail. The memsector makes an index loadable, so it is now
removed first and written last.
---
 src/mws/index/IndexBuilder.cpp | 20 ++++++++++++++-----
 src/mws/index/IndexBuilder.hpp |  6 ++++++
 src/mws/index/IndexWriter.cpp  | 36 +++++++++++++++++++++++++++-------
 src/mws/index/TmpIndex.cpp     |  4 ++--
 src/mws/index/TmpIndex.hpp     |  3 ++-
 src/mws/index/memsector.c      | 13 +++++++++---
 src/mws/mwsd.cpp               |  5 ++++-
 7 files changed, 68 insertions(+), 19 deletions(-)

diff --git a/src/mws/index/IndexBuilder.cpp b/src/mws/index/IndexBuilder.cpp
index dfedf6c..8357cfb 100644
--- a/src/mws/index/IndexBuilder.cpp
+++ b/src/mws/index/IndexBuilder.cpp
@@ -79,14 +79,21 @@ IndexBuilder::IndexBuilder(dbc::FormulaDb* formulaDb, dbc::CrawlDb* crawlDb,
       m_crawlDb(crawlDb),
       m_index(index),
       m_meaningDictionary(meaningDictionary),
-      m_indexingOptions(std::move(encodingOptions)) {}
+      m_indexingOptions(std::move(encodingOptions)),
+      m_storageFailed(false) {}
 
 CrawlId IndexBuilder::indexCrawlData(const CrawlData& crawlData) {
     if (m_crawlDb != nullptr) {
-        return m_crawlDb->putData(crawlData);
-    } else {
-        return CRAWLID_NULL;
+        try {
+            return m_crawlDb->putData(crawlData);
+        }
+        catch (const std::exception& e) {
+            PRINT_WARN("%s\n", e.what());
+            m_storageFailed = true;
+        }
     }
+
+    return CRAWLID_NULL;
 }
 
 int IndexBuilder::indexContentMath(const CmmlToken* cmmlToken,
@@ -110,7 +117,10 @@ int IndexBuilder::indexContentMath(const CmmlToken* cmmlToken,
             types::FormulaPath formulaPath;
             formulaPath.xmlId = xmlId;
             formulaPath.xpath = token->getXpath();
-            m_formulaDb->insertFormula(leaf->id, crawlId, formulaPath);
+            if (m_formulaDb->insertFormula(leaf->id, crawlId, formulaPath) !=
+                0) {
+                m_storageFailed = true;
+            }
             leaf->solutions++;
             numSubExpressions++;
         }
diff --git a/src/mws/index/IndexBuilder.hpp b/src/mws/index/IndexBuilder.hpp
index 5733bef..d042203 100644
--- a/src/mws/index/IndexBuilder.hpp
+++ b/src/mws/index/IndexBuilder.hpp
@@ -58,6 +58,7 @@ class IndexBuilder {
     mws::index::TmpIndex* m_index;
     index::MeaningDictionary* m_meaningDictionary;
     index::ExpressionEncoder::Config m_indexingOptions;
+    bool m_storageFailed;
 
  public:
     IndexBuilder(dbc::FormulaDb* formulaDb, dbc::CrawlDb* crawlDb,
@@ -68,6 +69,11 @@ class IndexBuilder {
 
     const mws::index::TmpIndex* getIndex() const { return m_index; }
 
+    /**
+     * @return true if formulae or crawl data could not be stored
+     */
+    bool hasStorageFailed() const { return m_storageFailed; }
+
     /**
      * @brief index crawl data
      * @param crawlData URL and opaque data given in the crawled harvest
diff --git a/src/mws/index/IndexWriter.cpp b/src/mws/index/IndexWriter.cpp
index 717c1b9..78b0a2b 100644
--- a/src/mws/index/IndexWriter.cpp
+++ b/src/mws/index/IndexWriter.cpp
@@ -28,9 +28,12 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
   * @date 29 May 2014
   */
 
+#include <unistd.h>
+
 #include <cinttypes>
 #include <stdexcept>
 using std::exception;
+using std::runtime_error;
 #include <string>
 using std::string;
 #include <fstream>
@@ -63,9 +66,19 @@ int createCompressedIndex(const IndexConfiguration& config) {
     std::filebuf fb;
     std::ostream os(&fb);
     uint64_t numExpressions;
+    const std::string memsectorPath = output_dir + "/" + INDEX_MEMSECTOR_FILE;
+    const std::string meaningsPath = output_dir + "/" + MEANING_DICTIONARY_FILE;
 
     try {
         create_directory(output_dir);
+        // Without its memsector an index is never loaded, so it goes first
+        // and comes back last, when everything else is in place
+        if (config.deleteOldData) {
+            (void)unlink(memsectorPath.c_str());
+        }
+        if (access(memsectorPath.c_str(), F_OK) == 0) {
+            throw runtime_error(memsectorPath + " already exists");
+        }
         auto crawlLevDb = new dbc::LevCrawlDb();
         crawlLevDb->create_new((output_dir + "/" + CRAWL_DB_FILE).c_str(),
                                config.deleteOldData);
@@ -89,17 +102,26 @@ int createCompressedIndex(const IndexConfiguration& config) {
     }
     PRINT_LOG("%" PRIu64 " expressions loaded.\n", numExpressions);
 
-    memsector_create(&mwsr, (output_dir + "/" + INDEX_MEMSECTOR_FILE).c_str());
-    index.exportToMemsector(&mwsr);
+    if (indexBuilder.hasStorageFailed()) {
+        PRINT_WARN("Unable to store the expressions. Aborting...\n");
+        return EXIT_FAILURE;
+    }
+
+    if (fb.open(meaningsPath.c_str(), std::ios::out) == nullptr ||
+        meaningDictionary.save(os) != 0 || !os.good() ||
+        fb.close() == nullptr) {
+        PRINT_WARN("Error while writing %s\n", meaningsPath.c_str());
+        return EXIT_FAILURE;
+    }
+
+    if (memsector_create(&mwsr, memsectorPath.c_str()) != 0 ||
+        index.exportToMemsector(&mwsr) != 0) {
+        return EXIT_FAILURE;
+    }
     PRINT_LOG("Created index of %s\n",
               humanReadableByteCount(mwsr.ms.index_size,
                                      /* si= */ false).c_str());
 
-    fb.open((output_dir + "/" + MEANING_DICTIONARY_FILE).c_str(),
-            std::ios::out);
-    meaningDictionary.save(os);
-    fb.close();
-
     return EXIT_SUCCESS;
 }
 
diff --git a/src/mws/index/TmpIndex.cpp b/src/mws/index/TmpIndex.cpp
index 4f4f5b4..7e36cc4 100644
--- a/src/mws/index/TmpIndex.cpp
+++ b/src/mws/index/TmpIndex.cpp
@@ -142,7 +142,7 @@ uint64_t TmpIndex::computeMemsectorSize() const {
     return size;
 }
 
-void TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
+int TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
     stack<vector<memsector_long_off_t> > dfsStack;
 
     auto onPush = [&](TmpIndexAccessor::Iterator iterator) {
@@ -181,7 +181,7 @@ void TmpIndex::exportToMemsector(memsector_writer_t* mswr) const {
 
     dfsStack.pop();
     assert(dfsStack.empty());
-    memsector_save(mswr, rootOffset);
+    return memsector_save(mswr, rootOffset);
 }
 
 }  // namespace index
diff --git a/src/mws/index/TmpIndex.hpp b/src/mws/index/TmpIndex.hpp
index f74c18c..e4fa10e 100644
--- a/src/mws/index/TmpIndex.hpp
+++ b/src/mws/index/TmpIndex.hpp
@@ -117,8 +117,9 @@ class TmpIndex {
     /**
      * @brief exportToMemsector dump index data to a memsector index
      * @param mswr memsector writer handle
+     * @return 0 on success, -1 on failure
      */
-    void exportToMemsector(memsector_writer_t* mswr) const;
+    int exportToMemsector(memsector_writer_t* mswr) const;
 
  private:
     static memsector_long_off_t _writeChildrenOffsets(
diff --git a/src/mws/index/memsector.c b/src/mws/index/memsector.c
index 46659ef..3beaffb 100644
--- a/src/mws/index/memsector.c
+++ b/src/mws/index/memsector.c
@@ -94,10 +94,17 @@ void memsector_write(memsector_writer_t* msw, void* data, size_t size) {
 int memsector_save(memsector_writer_t* msw, memsector_long_off_t index_off) {
     msw->ms.root_off = index_off;
     msw->ms.index_size = msw->offset - sizeof(msw->ms);
-    fseek(msw->file, 0, SEEK_SET);
-    fwrite(&msw->ms, sizeof(msw->ms), 1, msw->file);
 
-    return fclose(msw->file);
+    /* the header is only valid when everything else was written */
+    bool success = fflush(msw->file) == 0 && !ferror(msw->file) &&
+                   fseek(msw->file, 0, SEEK_SET) == 0 &&
+                   fwrite(&msw->ms, sizeof(msw->ms), 1, msw->file) == 1;
+    if (fclose(msw->file) != 0) success = false;
+    if (!success) {
+        PRINT_WARN("Error while writing memsector: %s\n", strerror(errno));
+    }
+
+    return success ? 0 : -1;
 }
 
 int memsector_load(memsector_handle_t* ms, const char* path) {
diff --git a/src/mws/mwsd.cpp b/src/mws/mwsd.cpp
index 030718b..cccd81e 100644
--- a/src/mws/mwsd.cpp
+++ b/src/mws/mwsd.cpp
@@ -192,7 +192,10 @@ int main(int argc, char* argv[]) {
 
             if (qh == nullptr && FlagParser::hasArg('I')) {
                 PRINT_LOG("Attempting to build it from harvests\n");
-                createCompressedIndex(indexConfig);
+                if (createCompressedIndex(indexConfig) != EXIT_SUCCESS) {
+                    PRINT_WARN("Could not build the index. Aborting...\n");
+                    return EXIT_FAILURE;
+                }
                 qh = new IndexQueryHandler(indexConfig.dataPath, config);
             } else if (qh == nullptr) {
                 PRINT_WARN("Invalid index and no harvests supplied."
-- 
2.43.0


From f865211a3b3cf1e878b6aa7d28c7aeff11c81f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:48 +0000
Subject: [PATCH 16/81] fix: harvest errors inside an element crashed or leaked

The parser keeps reporting elements after non-fatal errors, and frees
nothing of what an error interrupts.
---
 src/mws/xmlparser/processMwsHarvest.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index 88b6ad5..ab76397 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -124,6 +124,10 @@ struct MwsHarvest_SaxUserData {
           errorDetected(false),
           parsedExpr(0),
           warnings(0),
+          harvestProcessor(nullptr),
+          shouldProcessData(false),
+          stringWriter(nullptr),
+          copyDepth(0),
           exprUri("") {}
 };
 
@@ -159,6 +163,7 @@ static inline void tearDownCopyToStringWriter(MwsHarvest_SaxUserData* data) {
     xmlTextWriterEndDocument(data->stringWriter);
     xmlTextWriterFlush(data->stringWriter);
     xmlFreeTextWriter(data->stringWriter);
+    data->stringWriter = nullptr;
     data->data = string(data->buffer.data(), data->buffer.size());
 }
 
@@ -196,6 +201,9 @@ static void my_startElement(void* user_data, const xmlChar* name,
                             const xmlChar** attrs) {
     MwsHarvest_SaxUserData* data = (MwsHarvest_SaxUserData*)user_data;
 
+    // Nothing after an error is trusted
+    if (data->errorDetected) return;
+
     switch (data->state) {
     case MWSHARVESTSTATE_DEFAULT:
         if (strcmp(reinterpret_cast<const char*>(name), MWSHARVEST_MAIN_NAME) ==
@@ -337,6 +345,9 @@ static void my_startElement(void* user_data, const xmlChar* name,
 static void my_endElement(void* user_data, const xmlChar* name) {
     MwsHarvest_SaxUserData* data = (MwsHarvest_SaxUserData*)user_data;
 
+    // Nothing after an error is trusted
+    if (data->errorDetected) return;
+
     switch (data->state) {
     case MWSHARVESTSTATE_DEFAULT:
         PRINT_WARN("Unexpected Default State for end element \"%s\"",
@@ -402,6 +413,9 @@ static void my_endElement(void* user_data, const xmlChar* name) {
 static void my_characters(void* user_data, const xmlChar* ch, int len) {
     MwsHarvest_SaxUserData* data = (MwsHarvest_SaxUserData*)user_data;
 
+    // Nothing after an error is trusted
+    if (data->errorDetected) return;
+
     if (data->state == MWSHARVESTSTATE_IN_MWS_EXPR &&  // Valid state
         data->currentToken != nullptr) {               // Valid token
         data->currentToken->appendTextContent((char*)ch, len);
@@ -503,6 +517,12 @@ HarvestResult processHarvestFromFd(int fd, HarvestProcessor* harvestProcessor,
     // Unlocking libXML -- to allow multi-threaded use
     xmlUnlockLibrary();
 
+    // Freeing what an error interrupted
+    delete user_data.currentTokenRoot;
+    if (user_data.stringWriter != nullptr) {
+        xmlFreeTextWriter(user_data.stringWriter);
+    }
+
     result.numExpressions = user_data.parsedExpr;
 
     return result;
-- 
2.43.0


From 34d67e1be072c933c40d73f32c0af8a87e98fe5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:48 +0000
Subject: [PATCH 17/81] fix: malformed queries could be answered, or leaked

A stopped parser (e.g. too deep a document) does not report the end of the
document, and elements after a non-fatal error were still evaluated.
---
 src/mws/xmlparser/readMwsQuery.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index 8e23b03..edf7e1f 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -125,15 +125,6 @@ static inline int fileInputReadCallback(void* file, char* buffer, int len) {
     return fread(buffer, sizeof(char), len, (FILE*)file);
 }
 
-static void my_endDocument(void* user_data) {
-    MwsQuery_SaxUserData* data = (MwsQuery_SaxUserData*)user_data;
-
-    if (data->errorDetected) {
-        delete data->result;
-        data->result = nullptr;
-    }
-}
-
 /**
   * @brief This function is called when the SAX handler encounters the
   * beginning of an element.
@@ -150,6 +141,9 @@ static void my_startElement(void* user_data, const xmlChar* name,
     BoolType boolValue;
     MwsQuery_SaxUserData* data = (MwsQuery_SaxUserData*)user_data;
 
+    // Nothing after an error is trusted
+    if (data->errorDetected) return;
+
     switch (data->state) {
     case MWSQUERYSTATE_DEFAULT:
         if (strcmp((char*)name, MWSQUERY_MAIN_NAME) == 0) {
@@ -275,6 +269,9 @@ static void my_endElement(void* user_data, const xmlChar* name) {
 
     MwsQuery_SaxUserData* data = (MwsQuery_SaxUserData*)user_data;
 
+    // Nothing after an error is trusted
+    if (data->errorDetected) return;
+
     switch (data->state) {
     case MWSQUERYSTATE_DEFAULT:
         // Shouldn't happen
@@ -308,6 +305,9 @@ static void my_endElement(void* user_data, const xmlChar* name) {
 static void my_characters(void* user_data, const xmlChar* ch, int len) {
     MwsQuery_SaxUserData* data = (MwsQuery_SaxUserData*)user_data;
 
+    // Nothing after an error is trusted
+    if (data->errorDetected) return;
+
     if (data->state == MWSQUERYSTATE_IN_MWS_EXPR &&
         data->currentToken != nullptr) {
         data->currentToken->appendTextContent((char*)ch, len);
@@ -380,7 +380,6 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
 
     // Registering Sax callbacks with defined ones
     saxHandler.getEntity = my_getEntity;
-    saxHandler.endDocument = my_endDocument;
     saxHandler.startElement = my_startElement;
     saxHandler.endElement = my_endElement;
     saxHandler.characters = my_characters;
@@ -398,6 +397,7 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
     if (ctxtPtr == nullptr) {
         PRINT_WARN("Error while creating the ParserContext\n");
         xmlUnlockLibrary();
+        delete user_data.result;
         return nullptr;
     }
 
@@ -409,6 +409,7 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
     }
     if (!ctxtPtr->wellFormed) {
         PRINT_WARN("Bad XML document\n");
+        user_data.errorDetected = true;
     }
 
     // Freeing the parser context
@@ -417,6 +418,13 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
     // Unlocking libXML -- to allow multi-threaded use
     xmlUnlockLibrary();
 
+    // A stopped parser does not report the end of the document
+    delete user_data.currentTokenRoot;
+    if (user_data.errorDetected) {
+        delete user_data.result;
+        user_data.result = nullptr;
+    }
+
     return user_data.result;
 }
 
-- 
2.43.0


From 5d3e27450db42e40d52a4167504d52f1a9645117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:45 +0000
Subject: [PATCH 18/81] fix: an unreadable file or directory hid all remaining
 harvests

Also replaces the deprecated readdir_r, and closes the directory.
---
 src/common/utils/util.cpp      | 21 +++++++++++++++------
 src/mws/index/IndexBuilder.cpp |  3 ++-
 2 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/common/utils/util.cpp b/src/common/utils/util.cpp
index 9caed66..4a44e0f 100644
--- a/src/common/utils/util.cpp
+++ b/src/common/utils/util.cpp
@@ -148,14 +148,19 @@ static int getPathsInDirectory(const std::string& directoryPath,
                                queue<string>* directoriesOut,
                                queue<FileData>* filesOut) {
     DIR* directory;
-    struct dirent entryData, *currEntry;
+    struct dirent* currEntry;
     vector<string> directories;
     vector<string> fileRelativePaths;
 
     FAIL_ON((directory = opendir(directoryPath.c_str())) == nullptr);
     while (1) {
-        FAIL_ON(readdir_r(directory, &entryData, &currEntry) != 0);
-        if (currEntry == nullptr) {
+        errno = 0;
+        if ((currEntry = readdir(directory)) == nullptr) {
+            if (errno != 0) {
+                PRINT_WARN("%s: %s\n", directoryPath.c_str(), strerror(errno));
+                (void)closedir(directory);
+                return -1;
+            }
             // end of directory
             break;
         }
@@ -202,6 +207,7 @@ int foreachEntryInDirectory(const std::string& path,
                             const DirectoryCallback& directoryCallback) {
     queue<string> directories;
     queue<FileData> files;
+    int result = 0;
 
     FAIL_ON(getPathsInDirectory(path, ".", &directories, &files) != 0);
 
@@ -216,13 +222,16 @@ int foreachEntryInDirectory(const std::string& path,
             const string directory = directories.front();
             directories.pop();
             if (directoryCallback(directory)) {
-                FAIL_ON(getPathsInDirectory(path + "/" + directory, directory,
-                                            &directories, &files) != 0);
+                // the other directories do not depend on this one
+                if (getPathsInDirectory(path + "/" + directory, directory,
+                                        &directories, &files) != 0) {
+                    result = -1;
+                }
             }
         }
     }
 
-    return 0;
+    return result;
 
 fail:
     return -1;
diff --git a/src/mws/index/IndexBuilder.cpp b/src/mws/index/IndexBuilder.cpp
index 8357cfb..d10f551 100644
--- a/src/mws/index/IndexBuilder.cpp
+++ b/src/mws/index/IndexBuilder.cpp
@@ -155,8 +155,9 @@ uint64_t loadHarvests(IndexBuilder* indexBuilder,
                 PRINT_LOG("Loading %s... ", path.c_str());
                 int fd = open(path.c_str(), O_RDONLY);
                 if (fd < 0) {
+                    // the other files do not depend on this one
                     perror(path.c_str());
-                    return -1;
+                    return 0;
                 }
                 auto loadReturn = loadHarvestFromFd(indexBuilder, fd,
                                                     !config.shouldIgnoreData);
-- 
2.43.0


From 0141c1f7e295bffefd64e53457826c76e2ba09cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:12 +0000
Subject: [PATCH 19/81] fix: schema queries asking for mws-ids output read a
 wrong answer type

The schema daemon only knows the xml and json formats; mws-ids output
treats the answer as a search answer.
---
 src/mws/xmlparser/readMwsQuery.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index edf7e1f..6756cc0 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -195,7 +195,8 @@ static void my_startElement(void* user_data, const xmlChar* name,
                             data->result->responseFormatter =
                                 RESPONSE_FORMATTER_MWS_JSON;
                         }
-                    } else if (strcmp((char*)attrs[1], "mws-ids") == 0) {
+                    } else if (!schemaMode &&
+                               strcmp((char*)attrs[1], "mws-ids") == 0) {
                         data->result->responseFormatter =
                             RESPONSE_FORMATTER_MWS_IDS;
                         data->result->options.includeHits = false;
-- 
2.43.0


From 0d7e98d20d6bb022c6d0a760b79354ad84fe8565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:16 +0000
Subject: [PATCH 20/81] fix: schema depths wrapped around, and the cutoff mode
 was uninitialised

A depth of 256 meant 0, percentages were subject to rounding errors (58%
of 50 levels was 28 levels), and a query without cutoff_mode used an
indeterminate one.
---
 src/mws/daemon/SchemaQueryHandler.cpp |  2 +-
 src/mws/query/SchemaEngine.cpp        | 14 ++++++++------
 src/mws/query/SchemaEngine.hpp        |  6 +++---
 src/mws/types/Query.hpp               |  5 +++--
 4 files changed, 15 insertions(+), 12 deletions(-)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index 8508940..1214d98 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -57,7 +57,7 @@ SchemaQueryHandler::SchemaQueryHandler(const ExpressionEncoder::Config& conf)
 SchemaQueryHandler::~SchemaQueryHandler() {}
 
 GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
-    const uint8_t max_depth = query->max_depth;
+    const uint32_t max_depth = query->max_depth;
     const uint32_t max_total = query->attrResultMaxSize;
 
     MeaningDictionary dict;
diff --git a/src/mws/query/SchemaEngine.cpp b/src/mws/query/SchemaEngine.cpp
index e439292..f0eda82 100644
--- a/src/mws/query/SchemaEngine.cpp
+++ b/src/mws/query/SchemaEngine.cpp
@@ -61,21 +61,23 @@ SchemaEngine::SchemaEngine(const MeaningDictionary& meaningDictionary,
 SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
                                 const vector<const CmmlToken*>& exprsTokens,
                                 uint32_t max_total,
-                                uint8_t depth) const {
+                                uint32_t depth) const {
     SchemaAnswset* result = new SchemaAnswset();
 
     unordered_map<string, vector<uint32_t>> schemaGroup;
-    unordered_map<string, uint8_t> cutoffs;
+    unordered_map<string, uint32_t> cutoffs;
     for (size_t i = 0; i < formulae.size(); i++) {
         const EncodedFormula& expr = formulae[i];
-        uint8_t cutoff;
+        uint32_t cutoff;
         switch (_config.cutoffHeuristic) {
         case ABSOLUTE:
             cutoff = depth;
             break;
         case RELATIVE:
             // "depth" percentages of token depth
-            cutoff = 0.01 * depth * exprsTokens[i]->getExprDepth();
+            cutoff = std::min<uint64_t>(
+                (uint64_t)depth * exprsTokens[i]->getExprDepth() / 100,
+                UINT32_MAX);
             break;
         default:
             assert(false);
@@ -121,7 +123,7 @@ SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
 }
 
 EncodedFormula SchemaEngine::reduceFormula(const EncodedFormula& expr,
-                                           uint8_t max_depth) const {
+                                           uint32_t max_depth) const {
     EncodedFormula reducedExpr;
     if (expr.empty()) return {};
     if (max_depth == 0) return {};
@@ -226,7 +228,7 @@ EncodedFormula SchemaEngine::unhashExpr(const std::string& exprHash) const {
 }
 
 CmmlToken* SchemaEngine::decodeFormula(const EncodedFormula& expr,
-                                       uint8_t max_depth) const {
+                                       uint32_t max_depth) const {
     if (expr.size() == 0) {
         CmmlToken* unifZero = CmmlToken::newRoot();
         unifZero->setTag(types::QVAR_TAG);
diff --git a/src/mws/query/SchemaEngine.hpp b/src/mws/query/SchemaEngine.hpp
index bc582d7..0d47bd0 100644
--- a/src/mws/query/SchemaEngine.hpp
+++ b/src/mws/query/SchemaEngine.hpp
@@ -66,20 +66,20 @@ class SchemaEngine {
     mws::SchemaAnswset* getSchemata(const std::vector<EncodedFormula>& formulae,
                             const std::vector<const types::CmmlToken*>& toks,
                             uint32_t max_total,
-                            uint8_t depth = DEFAULT_SCHEMA_DEPTH) const;
+                            uint32_t depth = DEFAULT_SCHEMA_DEPTH) const;
 
  private:
     const index::ExpressionDecoder decoder;
     const Config _config;
 
     EncodedFormula reduceFormula(const EncodedFormula& expr,
-                                 uint8_t depth) const;
+                                 uint32_t depth) const;
     size_t completeExpression(const EncodedFormula& expr,
                               size_t startExpr) const;
     std::string hashExpr(const EncodedFormula& expr) const;
     EncodedFormula unhashExpr(const std::string& exprHash) const;
     types::CmmlToken* decodeFormula(const EncodedFormula& expr,
-                                    uint8_t depth) const;
+                                    uint32_t depth) const;
     std::pair<std::string, std::string> decodeMeaning(
         const types::Meaning& meaning) const;
     bool isApply(const encoded_token_t& tok) const;
diff --git a/src/mws/types/Query.hpp b/src/mws/types/Query.hpp
index 0f3ea24..56ed89a 100644
--- a/src/mws/types/Query.hpp
+++ b/src/mws/types/Query.hpp
@@ -78,7 +78,7 @@ struct Query {
     /// Boolean value showing if the query needed restrictions
     bool restricted;
     /// Depth used for schema-queries; ignored for regular mws-queries
-    uint8_t max_depth;
+    uint32_t max_depth;
     /// Cutoff mode used for schema-queries; ignored for regular mws-queries
     char cutoff_mode;
 
@@ -90,7 +90,8 @@ struct Query {
           attrResultTotalReq(DEFAULT_QUERY_TOTALREQ),
           attrResultTotalReqNr(DEFAULT_QUERY_RESULT_TOTAL),
           restricted(false),
-          max_depth(DEFAULT_SCHEMA_DEPTH) {}
+          max_depth(DEFAULT_SCHEMA_DEPTH),
+          cutoff_mode('A') {}
 
     /// Destructor of the MwsQuery class
     ~Query() {
-- 
2.43.0


From 91b8ec8ae190430e187dcc267d5e9bd9693d822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:40 +0000
Subject: [PATCH 21/81] fix: schema members and substitutions were taken from
 the wrong formulas

Formulas which cannot be encoded are left out, which shifted the positions
of all formulas behind them.
---
 src/mws/daemon/SchemaQueryHandler.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index 1214d98..4ab0f8b 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -69,11 +69,16 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
 
     vector<const CmmlToken*> exprsTokens;
     exprsTokens.reserve(query->tokens.size());
-    for (const CmmlToken* tok : query->tokens) {
+    // positions of the encoded formulas in the query
+    vector<uint32_t> exprsIds;
+    exprsIds.reserve(query->tokens.size());
+    for (size_t i = 0; i < query->tokens.size(); i++) {
+        const CmmlToken* tok = query->tokens[i];
         EncodedFormula encTok;
         if (encoder.encode(_encodingConfig, tok, &encTok, nullptr) == 0) {
             exprs.push_back(std::move(encTok));
             exprsTokens.push_back(tok);
+            exprsIds.push_back(i);
         }
     }
 
@@ -99,6 +104,7 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
     /* we can't deduce the substitutions in SchemaEngine because we need
      * the original query, so we will do it here */
     for (ExprSchema& sch : result->schemata) {
+        for (uint32_t& formula : sch.formulae) formula = exprsIds[formula];
         /* As a heuristic,
          * we choose the first formula in this class to be schematized */
         const uint32_t representativeId = sch.formulae.front();
-- 
2.43.0


From b175c7bcca1e0bc4396bb5f07b84fbbb45ff6068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:44 +0000
Subject: [PATCH 22/81] fix: schemata of renamed identifiers depended on other
 formulas

Identifiers were numbered across all formulas of a query, so that f(x) and
f(y) shared no schema, and were shown as elements called ~1.
---
 src/mws/daemon/SchemaQueryHandler.cpp | 7 ++++---
 src/mws/query/SchemaEngine.cpp        | 3 ++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index 4ab0f8b..a6d8ba8 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -61,9 +61,6 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
     const uint32_t max_total = query->attrResultMaxSize;
 
     MeaningDictionary dict;
-    // using a HarvestEncoder to be able to fill
-    // the MeaningDictonary on the fly, so we don't require an index for ids
-    HarvestEncoder encoder(&dict);
     vector<EncodedFormula> exprs;
     exprs.reserve(query->tokens.size());
 
@@ -75,6 +72,10 @@ GenericAnswer* SchemaQueryHandler::handleQuery(Query* query) {
     for (size_t i = 0; i < query->tokens.size(); i++) {
         const CmmlToken* tok = query->tokens[i];
         EncodedFormula encTok;
+        // using a HarvestEncoder to be able to fill
+        // the MeaningDictonary on the fly, so we don't require an index for
+        // ids; identifiers are renamed within a formula, as in an index
+        HarvestEncoder encoder(&dict);
         if (encoder.encode(_encodingConfig, tok, &encTok, nullptr) == 0) {
             exprs.push_back(std::move(encTok));
             exprsTokens.push_back(tok);
diff --git a/src/mws/query/SchemaEngine.cpp b/src/mws/query/SchemaEngine.cpp
index f0eda82..39cb688 100644
--- a/src/mws/query/SchemaEngine.cpp
+++ b/src/mws/query/SchemaEngine.cpp
@@ -330,7 +330,8 @@ pair<string, string> SchemaEngine::decodeMeaning(
     const types::Meaning& meaning) const {
     size_t delim_pos = meaning.find('#');
     if (delim_pos == string::npos) {
-        return {meaning, ""};
+        // renamed identifier
+        return {"ci", meaning};
     }
 
     string tag = meaning.substr(0, delim_pos);
-- 
2.43.0


From 08c38dfbd5fd38b9d0db2d3f3d85e3b285980f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:13 +0000
Subject: [PATCH 23/81] fix: formulas were printed without escaping XML
 characters

Schemata with, say, an ampersand were not well-formed.
---
 src/mws/types/CmmlToken.cpp | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/mws/types/CmmlToken.cpp b/src/mws/types/CmmlToken.cpp
index 6bc0823..5e462ce 100644
--- a/src/mws/types/CmmlToken.cpp
+++ b/src/mws/types/CmmlToken.cpp
@@ -142,6 +142,31 @@ string CmmlToken::getXpathRelative() const {
     return xpath_relative;
 }
 
+/// @return str, with the characters special to XML escaped
+static string escapeXmlChars(const string& str) {
+    string result;
+    for (char c : str) {
+        switch (c) {
+        case '&':
+            result += "&amp;";
+            break;
+        case '<':
+            result += "&lt;";
+            break;
+        case '>':
+            result += "&gt;";
+            break;
+        case '"':
+            result += "&quot;";
+            break;
+        default:
+            result += c;
+            break;
+        }
+    }
+    return result;
+}
+
 string CmmlToken::toString(int indent) const {
     stringstream ss;
     string padding;
@@ -153,10 +178,10 @@ string CmmlToken::toString(int indent) const {
     ss << padding << "<" << _tag << " ";
 
     for (mIt = _attributes.begin(); mIt != _attributes.end(); mIt++) {
-        ss << mIt->first << "=\"" << mIt->second << "\" ";
+        ss << mIt->first << "=\"" << escapeXmlChars(mIt->second) << "\" ";
     }
 
-    ss << ">" << _textContent;
+    ss << ">" << escapeXmlChars(_textContent);
 
     if (_childNodes.size()) {
         ss << "\n";
-- 
2.43.0


From 9ef26cddc3bc8f10b768de78f00508020094d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:14 +0000
Subject: [PATCH 24/81] fix: uploads of aborted requests were never freed

---
 src/mws/daemon/Daemon.cpp | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/mws/daemon/Daemon.cpp b/src/mws/daemon/Daemon.cpp
index 623333c..38dce81 100644
--- a/src/mws/daemon/Daemon.cpp
+++ b/src/mws/daemon/Daemon.cpp
@@ -156,6 +156,19 @@ static int acceptPolicyCallback(void* cls, const sockaddr* addr,
 
 
 
+/// Frees the upload of a request which ended before it was processed
+static void requestCompletedCallback(void* cls,
+                                     struct MHD_Connection* connection,
+                                     void** ptr,
+                                     enum MHD_RequestTerminationCode toe) {
+    UNUSED(cls);
+    UNUSED(connection);
+    UNUSED(toe);
+
+    delete (MemStream*)*ptr;
+    *ptr = nullptr;
+}
+
 static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
                                  const char* url, const char* method,
                                  const char* version, const char* upload_data,
@@ -194,7 +207,6 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
             size_t nbytes = fwrite(upload_data, sizeof(char), *upload_data_size,
                                    memstream->getInput());
             if (nbytes <= 0) {
-                delete memstream;
                 return MHD_NO;
             }
 
@@ -213,6 +225,7 @@ static int accessHandlerCallback(void* cls, struct MHD_Connection* connection,
     }
     unique_ptr<Query> mwsQuery(readMwsQuery(memstream->getOutputFile(), qMode));
     delete memstream;
+    *ptr = nullptr;
 
     // Check if query failed or is empty
     if (mwsQuery == nullptr || mwsQuery->tokens.size() == 0) {
@@ -285,7 +298,10 @@ Daemon::Daemon(QueryHandler* queryHandler, const Config& config)
     _mhd = MHD_start_daemon(mhd_flags, config.port, (MHD_AcceptPolicyCallback)acceptPolicyCallback,
                             /* PolicyContext = */ nullptr,
                             (MHD_AccessHandlerCallback)accessHandlerCallback, _queryHandler.get(),
-                            MHD_OPTION_CONNECTION_LIMIT, 20, MHD_OPTION_END);
+                            MHD_OPTION_CONNECTION_LIMIT, 20,
+                            MHD_OPTION_NOTIFY_COMPLETED,
+                            requestCompletedCallback, /* cls = */ nullptr,
+                            MHD_OPTION_END);
     if (_mhd == nullptr) {
         throw runtime_error(
             formattedString("MHD_start_daemon: %s", strerror(errno)));
-- 
2.43.0


From 2d7e1b644a240e332a3f3b28ae08a2dcc8ac07f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:42 +0000
Subject: [PATCH 25/81] fix: ports followed by garbage or out of range were
 accepted

---
 src/mws/mwsd.cpp    | 9 +++++----
 src/mws/schemad.cpp | 9 +++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/mws/mwsd.cpp b/src/mws/mwsd.cpp
index cccd81e..e3ecb64 100644
--- a/src/mws/mwsd.cpp
+++ b/src/mws/mwsd.cpp
@@ -100,12 +100,13 @@ int main(int argc, char* argv[]) {
 
     // port
     if (FlagParser::hasArg('p')) {
-        int mwsPort = atoi(FlagParser::getArg('p').c_str());
-        if (mwsPort > 0 && mwsPort < (1 << 16)) {
+        const string portArg = FlagParser::getArg('p');
+        char* portEnd;
+        const long mwsPort = strtol(portArg.c_str(), &portEnd, 10);
+        if (*portEnd == '\0' && mwsPort > 0 && mwsPort < (1 << 16)) {
             daemonConfig.port = mwsPort;
         } else {
-            fprintf(stderr, "Invalid port \"%s\"\n",
-                    FlagParser::getArg('p').c_str());
+            fprintf(stderr, "Invalid port \"%s\"\n", portArg.c_str());
             return EXIT_FAILURE;
         }
     }
diff --git a/src/mws/schemad.cpp b/src/mws/schemad.cpp
index 8e92e8d..c28b6b9 100644
--- a/src/mws/schemad.cpp
+++ b/src/mws/schemad.cpp
@@ -85,12 +85,13 @@ int main(int argc, char* argv[]) {
     // port
     daemonConfig.port = DEFAULT_SCHEMA_PORT;
     if (FlagParser::hasArg('p')) {
-        int schPort = atoi(FlagParser::getArg('p').c_str());
-        if (schPort > 0 && schPort < (1 << 16)) {
+        const string portArg = FlagParser::getArg('p');
+        char* portEnd;
+        const long schPort = strtol(portArg.c_str(), &portEnd, 10);
+        if (*portEnd == '\0' && schPort > 0 && schPort < (1 << 16)) {
             daemonConfig.port = schPort;
         } else {
-            fprintf(stderr, "Invalid port \"%s\"\n",
-                    FlagParser::getArg('p').c_str());
+            fprintf(stderr, "Invalid port \"%s\"\n", portArg.c_str());
             return EXIT_FAILURE;
         }
     }
-- 
2.43.0


From 9a831921c77955c1fafc186e6af0878fd1533598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:03 +0000
Subject: [PATCH 26/81] fix: a stop signal taken by another thread could be
 lost

---
 src/mws/mwsd.cpp    | 7 +++++++
 src/mws/schemad.cpp | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/src/mws/mwsd.cpp b/src/mws/mwsd.cpp
index e3ecb64..0637a4e 100644
--- a/src/mws/mwsd.cpp
+++ b/src/mws/mwsd.cpp
@@ -29,6 +29,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <stdlib.h>
 #include <unistd.h>
 #include <signal.h>
+#include <pthread.h>
 
 #include <memory>
 using std::unique_ptr;
@@ -61,6 +62,7 @@ using mws::parser::initxmlparser;
 #include "build-gen/config.h"
 
 static volatile sig_atomic_t shouldQuit = 0;
+static pthread_t mainThread;
 unique_ptr<Daemon> mwsDaemon;
 
 static void catch_sig(int sig);
@@ -242,6 +244,10 @@ static void catch_sig(int sig) {
     case SIGINT:
     case SIGTERM:
         shouldQuit = 1;
+        // Any thread may get the signal, but only this one waits for it
+        if (!pthread_equal(pthread_self(), mainThread)) {
+            pthread_kill(mainThread, sig);
+        }
         break;
     case SIGSEGV:
     case SIGABRT:
@@ -266,6 +272,7 @@ static void catch_sig(int sig) {
 static void setup_signals() {
     struct sigaction sa;
     memset(&sa, 0, sizeof(struct sigaction));
+    mainThread = pthread_self();
 
     sa.sa_handler = catch_sig;
     sigaction(SIGINT, &sa, nullptr);
diff --git a/src/mws/schemad.cpp b/src/mws/schemad.cpp
index c28b6b9..03dddaa 100644
--- a/src/mws/schemad.cpp
+++ b/src/mws/schemad.cpp
@@ -29,6 +29,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <stdlib.h>
 #include <unistd.h>
 #include <signal.h>
+#include <pthread.h>
 
 #include <memory>
 using std::unique_ptr;
@@ -53,6 +54,7 @@ using mws::parser::initxmlparser;
 #include "build-gen/config.h"
 
 static volatile sig_atomic_t shouldQuit = 0;
+static pthread_t mainThread;
 unique_ptr<Daemon> mwsDaemon;
 
 static void catch_sig(int sig);
@@ -160,6 +162,10 @@ static void catch_sig(int sig) {
     case SIGINT:
     case SIGTERM:
         shouldQuit = 1;
+        // Any thread may get the signal, but only this one waits for it
+        if (!pthread_equal(pthread_self(), mainThread)) {
+            pthread_kill(mainThread, sig);
+        }
         break;
     case SIGSEGV:
     case SIGABRT:
@@ -181,6 +187,7 @@ static void catch_sig(int sig) {
 static void setup_signals() {
     struct sigaction sa;
     memset(&sa, 0, sizeof(struct sigaction));
+    mainThread = pthread_self();
 
     sa.sa_handler = catch_sig;
     sigaction(SIGINT, &sa, nullptr);
-- 
2.43.0


From 41b777e9a68f408b07146c9d544dab2aefb5981a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:32 +0000
Subject: [PATCH 27/81] fix: relative cutoffs could merge formulas with
 different schemata

---
 src/mws/query/SchemaEngine.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/mws/query/SchemaEngine.cpp b/src/mws/query/SchemaEngine.cpp
index 39cb688..ed857ba 100644
--- a/src/mws/query/SchemaEngine.cpp
+++ b/src/mws/query/SchemaEngine.cpp
@@ -40,6 +40,8 @@ using std::unordered_map;
 #include <utility>
 using std::pair;
 #include <algorithm>
+#include <memory>
+using std::unique_ptr;
 
 #include "mws/index/index.h"
 #include "mws/index/MeaningDictionary.hpp"
@@ -83,7 +85,14 @@ SchemaAnswset* SchemaEngine::getSchemata(const vector<EncodedFormula>& formulae,
             assert(false);
         }
 
-        string hash = hashExpr(reduceFormula(expr, cutoff));
+        const EncodedFormula reducedExpr = reduceFormula(expr, cutoff);
+        string hash = hashExpr(reducedExpr);
+        if (_config.cutoffHeuristic == RELATIVE) {
+            // The same tokens may be left of different formulas which were
+            // cut off at different depths
+            unique_ptr<CmmlToken> schema(decodeFormula(reducedExpr, cutoff));
+            hash += "\n" + schema->toString();
+        }
 
         auto it = schemaGroup.find(hash);
         if (it != schemaGroup.end()) {
-- 
2.43.0


From 13aa1929c01f189b55dbcb22b6596e399cbb10de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:34 +0000
Subject: [PATCH 28/81] fix: schema variables inside operators had no
 substitution

---
 src/mws/daemon/SchemaQueryHandler.cpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/mws/daemon/SchemaQueryHandler.cpp b/src/mws/daemon/SchemaQueryHandler.cpp
index a6d8ba8..a01f7d7 100644
--- a/src/mws/daemon/SchemaQueryHandler.cpp
+++ b/src/mws/daemon/SchemaQueryHandler.cpp
@@ -154,12 +154,6 @@ void SchemaQueryHandler::getSubstitutions(CmmlToken* exprRoot,
         return;
     }
 
-    // disregard the first child of apply
-    if (currExprTag == "apply") {
-        expr_it++;
-        schema_it++;
-    }
-
     /* we know that both exprChildren and schemaChildren have the same length,
      * so it is enough to check for one */
     while (expr_it != exprChildren.end()) {
-- 
2.43.0


From a6fa09fd43ec2ff242f77a5e6408ec5ea4df533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:28 +0000
Subject: [PATCH 29/81] fix: analytics aborted on indexes built with identifier
 renaming

---
 src/mws/analytics/analytics.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/mws/analytics/analytics.cpp b/src/mws/analytics/analytics.cpp
index 1b34b38..1a23970 100644
--- a/src/mws/analytics/analytics.cpp
+++ b/src/mws/analytics/analytics.cpp
@@ -148,11 +148,13 @@ void CmmlTokenBuilder::pushToken(encoded_token_t encodedToken) {
 
     string meaning = _decoder.getMeaning(encodedToken.id);
     std::size_t separator_pos = meaning.find('#');
-    assert(separator_pos != std::string::npos);
-    string tag = meaning.substr(0, separator_pos);
-    string textContent = meaning.substr(separator_pos + 1);
-    token->setTag(tag);
-    token->appendTextContent(textContent);
+    if (separator_pos == std::string::npos) {  // renamed identifier
+        token->setTag("ci");
+        token->appendTextContent(meaning);
+    } else {
+        token->setTag(meaning.substr(0, separator_pos));
+        token->appendTextContent(meaning.substr(separator_pos + 1));
+    }
 
     uint32_t arity = encodedToken.arity;
     while (arity--) {
-- 
2.43.0


From bc4e1edb89c21b2aed98f49b9bb322625f5f0f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 30/81] fix: harvests2json crashed on expressions without a
 data element

---
 src/crawler/harvests2json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index f4d17f7..fad54d9 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -90,6 +90,7 @@ using mws::dbc::FormulaDb;
 using mws::dbc::LevFormulaDb;
 #include "mws/dbc/CrawlDb.hpp"
 using mws::dbc::CrawlId;
+using mws::dbc::CRAWLID_NULL;
 #include "mws/query/SearchContext.hpp"
 using mws::query::SearchContext;
 #include "mws/types/FormulaPath.hpp"
@@ -360,6 +361,9 @@ int HarvestParser::processExpression(const CmmlToken* expression,
     assert(expression != nullptr);
     assert(crawlId <= _idCounter);
 
+    // the expression does not refer to any document
+    if (crawlId == CRAWLID_NULL) return 0;
+
     HarvestEncoder encoder(_meaningDictionary);
     u_int32_t numSubExpressions = 0;
 
-- 
2.43.0


From 4471280790678c4f852b96953a212d2ac5a7c0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 31/81] fix: harvests2json read the id of formulas missing from
 the index

---
 src/crawler/harvests2json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index fad54d9..e3d2352 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -382,6 +382,10 @@ int HarvestParser::processExpression(const CmmlToken* expression,
                                                /* offset = */ 0,
                                                /* size = */ 1,
                                                /* maxTotal = */ 1);
+        if (result->ids.empty()) {  // not part of the index
+            delete result;
+            return;
+        }
         numSubExpressions += result->total;
         auto hit = new Hit();
         FormulaId fmId = *(result->ids.begin());
-- 
2.43.0


From e946e90bb844f3850b1f07a0b6b04171c6b80163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 32/81] fix: harvests2json aborted on math without a local_id

---
 src/crawler/harvests2json.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index e3d2352..388983b 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -148,7 +148,10 @@ static DataItems* getDataItems(const string& content) {
     // get math node mappings
     processXpathResults(doc, MATH_XPATH, [&](xmlNode* mathNode) {
         const xmlChar* xmlId = xmlGetProp(mathNode, BAD_CAST "local_id");
-        assert(xmlId != nullptr);
+        if (xmlId == nullptr) {
+            PRINT_WARN("Discarding math element without local_id\n");
+            return;
+        }
 
         string id((char*)xmlId);
         xmlFree((void*)xmlId);
-- 
2.43.0


From 029c4eaf2a2f34bee2aa734dac3fb012365407e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 33/81] fix: harvests2json changed metadata names by reading
 data as HTML

---
 src/crawler/harvests2json.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index 388983b..9588d9e 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -140,8 +140,10 @@ struct DataItems {
 };
 
 static DataItems* getDataItems(const string& content) {
-    xmlDocPtr doc = parseDocument(content.c_str(), content.size());
     DataItems* dataItems = new DataItems();
+    // the items are siblings: without a common root this is not an XML document
+    const string xml = "<data>" + content + "</data>";
+    xmlDocPtr doc = parseDocument(xml.c_str(), xml.size());
     dataItems->text = getTextByXpath(doc, TEXT_XPATH);
     dataItems->id = getTextByXpath(doc, ID_XPATH);
 
-- 
2.43.0


From d876f5b8414e0d8183988b51240ab518934c3475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:47 +0000
Subject: [PATCH 34/81] fix: one unreadable harvest stopped harvests2json,
 leaving an empty export

---
 src/crawler/harvests2json.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index 9588d9e..aa56c7f 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -259,27 +259,28 @@ int main(int argc, char* argv[]) {
             const std::string& path, const std::string& prefix) {
             UNUSED(prefix);
             if (hasSuffix(path, "." + config.harvester.fileExtension)) {
+                int fd = open(path.c_str(), O_RDONLY);
+                if (fd < 0) {
+                    PRINT_WARN("Open %s: %s\n", path.c_str(), strerror(errno));
+                    return 0;  // the other harvests can still be exported
+                }
+
                 string outputName = path + ".json";
                 FILE* output = fopen(outputName.c_str(), "wx");
                 if (output == nullptr) {
                     if (errno == EEXIST) {
                         PRINT_LOG("Skipping \"%s\": already converted\n",
                                   path.c_str());
+                        close(fd);
                         return 0;
                     } else {
                         PRINT_WARN("Open %s: %s\n", outputName.c_str(),
                                    strerror(errno));
+                        close(fd);
                         return -1;
                     }
                 }
 
-                int fd = open(path.c_str(), O_RDONLY);
-                if (fd < 0) {
-                    PRINT_WARN("Open %s: %s\n", path.c_str(), strerror(errno));
-                    fclose(output);
-                    return -1;
-                }
-
                 vector<ParseResult*> parseResults = parseMwsHarvestFromFd(
                     config.encoding, data.getIndexHandle(),
                     data.getMeaningDictionary(), fd);
-- 
2.43.0


From 509b3784d3c3f22e9a2eebee6361c2a941b4512d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 35/81] fix: harvests2json ignored write errors

---
 src/crawler/harvests2json.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index aa56c7f..0925e63 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -36,6 +36,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <string.h>
 #include <json-c/json.h>
 #include <errno.h>
+#include <unistd.h>
 #include <libxml/parser.h>
 #include <libxml/tree.h>
 
@@ -290,7 +291,12 @@ int main(int argc, char* argv[]) {
                 }
 
                 close(fd);
-                fclose(output);
+                bool written = (ferror(output) == 0);
+                if (fclose(output) != 0 || !written) {
+                    PRINT_WARN("Write %s failed\n", outputName.c_str());
+                    unlink(outputName.c_str());
+                    return -1;
+                }
                 PRINT_LOG("Processed %s\n", path.c_str());
             } else {
                 PRINT_LOG("Skipping \"%s\": bad extension\n", path.c_str());
-- 
2.43.0


From 2d141295929629171e5592d87c831efd90cac797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 36/81] fix: docs2harvest wrote document ids unescaped into
 urls

---
 src/crawler/parser/MathParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 8322189..e688aeb 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -141,7 +141,8 @@ Harvest createHarvestFromDocument(const string& path,
                        << "\"";
             expression << " mws:data_id=\"" << config.data_id << "\"";
         } else {
-            expression << "<mws:expr url=\"" << documentId << "#" << id << "\"";
+            expression << "<mws:expr url=\""
+                       << escapeXml(doc, documentId + "#" + id) << "\"";
         }
         expression << ">" << getXmlFromNode(doc, cmmlNode) << "</mws:expr>\n";
         harvest.contentMathElements.push_back(expression.str());
-- 
2.43.0


From dec1124450b19a4dba150ee25620c2272c639304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:16 +0000
Subject: [PATCH 37/81] fix: docs2harvest gave all math outside the text the
 url 0

---
 src/crawler/parser/MathParser.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index e688aeb..cfe1617 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -130,14 +130,14 @@ Harvest createHarvestFromDocument(const string& path,
         }
 
         if (config.shouldSaveData) {
-            data << "<math local_id=\"" << mathIdDictionary.get(id) << "\">"
+            data << "<math local_id=\"" << mathIdDictionary.put(id) << "\">"
                  << getEscapedXmlFromNode(doc, mathNode) << "</math>\n";
         }
         cleanContentMath(cmmlNode);
 
         stringstream expression;
         if (config.shouldSaveData) {
-            expression << "<mws:expr url=\"" << mathIdDictionary.get(id)
+            expression << "<mws:expr url=\"" << mathIdDictionary.put(id)
                        << "\"";
             expression << " mws:data_id=\"" << config.data_id << "\"";
         } else {
-- 
2.43.0


From b1f067e3940205f999a61b534560183c2c169953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 38/81] fix: docs2harvest copied comments and foreign entities
 into the harvest

---
 src/crawler/parser/MathParser.cpp | 55 +++++++++++++++++++++++++++++--
 1 file changed, 53 insertions(+), 2 deletions(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index cfe1617..5bea44f 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -28,6 +28,9 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <libxml/tree.h>
 #include <string.h>
 #include <assert.h>
+#include <libxml/HTMLparser.h>
+#include <libxml/parserInternals.h>
+#include <libxml/tree.h>
 
 #include <algorithm>
 using std::unique;
@@ -164,6 +167,29 @@ void cleanupMathParser() { xmlCleanupParser(); }
 /* Local implementation                                                     */
 /*--------------------------------------------------------------------------*/
 
+/**
+ * @brief replace an entity reference by the text it stands for, or by the
+ * reference as literal text if it is unknown
+ */
+static void replaceEntityReference(xmlNode* node) {
+    xmlChar* content = xmlNodeGetContent(node);
+    string text = content ? reinterpret_cast<char*>(content) : "";
+    xmlFree(content);
+    if (text.empty()) {
+        const htmlEntityDesc* entity = htmlEntityLookup(node->name);
+        if (entity != nullptr) {
+            xmlChar utf8[8];
+            utf8[xmlCopyCharMultiByte(utf8, entity->value)] = '\0';
+            text = reinterpret_cast<char*>(utf8);
+        } else {
+            text = string("&") + reinterpret_cast<const char*>(node->name) + ";";
+        }
+    }
+    xmlNode* textNode = xmlNewText(BAD_CAST text.c_str());
+    xmlReplaceNode(node, textNode);
+    xmlFreeNode(node);
+}
+
 /**
  * @brief remove redundant attributes from ContentMath
  * @param xmlNode
@@ -174,14 +200,39 @@ static void cleanContentMath(xmlNode* node) {
     xmlUnsetProp(node, BAD_CAST "id");
     xmlUnsetProp(node, BAD_CAST "xref");
 
+    // Entities declared by the document are unknown to the harvest
+    for (xmlAttr* attr = node->properties; attr != nullptr; attr = attr->next) {
+        xmlNode* curr = attr->children;
+        while (curr != nullptr) {
+            xmlNode* next = curr->next;
+            if (curr->type == XML_ENTITY_REF_NODE) replaceEntityReference(curr);
+            curr = next;
+        }
+    }
+
     // Remove namespace from name
     xmlSetNs(node, nullptr);
 
     // Recurse through child nodes
     xmlNodePtr curr = node->children;
     while (curr != nullptr) {
-        cleanContentMath(curr);
-        curr = curr->next;
+        xmlNodePtr next = curr->next;
+        switch (curr->type) {
+        case XML_ELEMENT_NODE:
+            cleanContentMath(curr);
+            break;
+        case XML_ENTITY_REF_NODE:
+            replaceEntityReference(curr);
+            break;
+        case XML_COMMENT_NODE:
+        case XML_PI_NODE:
+            xmlUnlinkNode(curr);
+            xmlFreeNode(curr);
+            break;
+        default:
+            break;
+        }
+        curr = next;
     }
 }
 
-- 
2.43.0


From d206d7ffd6cc542b7d434f6d1a4010d2336bafcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 39/81] fix: docs2harvest kept attribute prefixes without their
 namespaces

---
 src/crawler/parser/MathParser.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 5bea44f..3469eb1 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -201,7 +201,18 @@ static void cleanContentMath(xmlNode* node) {
     xmlUnsetProp(node, BAD_CAST "xref");
 
     // Entities declared by the document are unknown to the harvest
-    for (xmlAttr* attr = node->properties; attr != nullptr; attr = attr->next) {
+    xmlAttr* nextAttr;
+    for (xmlAttr* attr = node->properties; attr != nullptr; attr = nextAttr) {
+        nextAttr = attr->next;
+        // Remove namespace from attribute
+        if (attr->ns != nullptr &&
+            !xmlStrEqual(attr->ns->href, XML_XML_NAMESPACE)) {
+            if (xmlHasNsProp(node, attr->name, nullptr) != nullptr) {
+                xmlRemoveProp(attr);
+                continue;
+            }
+            attr->ns = nullptr;
+        }
         xmlNode* curr = attr->children;
         while (curr != nullptr) {
             xmlNode* next = curr->next;
-- 
2.43.0


From 73e977d8275c973d2e4e21aa3ffa1200d9b607c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:12 +0000
Subject: [PATCH 40/81] fix: docs2harvest read namespace nodes selected by an
 xpath as elements

---
 src/crawler/parser/XmlParser.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/crawler/parser/XmlParser.cpp b/src/crawler/parser/XmlParser.cpp
index a712e89..ac9f259 100644
--- a/src/crawler/parser/XmlParser.cpp
+++ b/src/crawler/parser/XmlParser.cpp
@@ -140,6 +140,7 @@ xmlNode* getNodeByXpath(xmlDocPtr doc, const string& xpath,
         return nullptr;
     }
     xmlNode* node = nodeSet->nodeTab[0];
+    if (node->type == XML_NAMESPACE_DECL) node = nullptr;  // not an xmlNode
 
     xmlXPathFreeObject(result);
 
-- 
2.43.0


From e569280d16197165cdcb711315e725f7d68774bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 41/81] fix: docs2harvest wrote characters that XML does not
 allow

---
 src/crawler/parser/XmlParser.cpp | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/crawler/parser/XmlParser.cpp b/src/crawler/parser/XmlParser.cpp
index ac9f259..0f344cf 100644
--- a/src/crawler/parser/XmlParser.cpp
+++ b/src/crawler/parser/XmlParser.cpp
@@ -27,6 +27,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <assert.h>
 #include <string.h>
 #include <libxml/parser.h>
+#include <libxml/parserInternals.h>
 #include <libxml/HTMLparser.h>
 #include <libxml/tree.h>
 #include <libxml/xpath.h>
@@ -85,8 +86,27 @@ xmlDocPtr parseDocument(const char* content, int size) {
     throw runtime_error("XML/HTML parse error");
 }
 
+// HTML documents and file names can contain what XML does not allow
+static string removeInvalidXmlChars(const string& str) {
+    string result;
+    result.reserve(str.size());
+    for (size_t i = 0; i < str.size();) {
+        int len = str.size() - i < 4 ? str.size() - i : 4;
+        int value = xmlGetUTF8Char(
+            reinterpret_cast<const unsigned char*>(&str[i]), &len);
+        if (value < 0) {
+            i++;
+            continue;
+        }
+        if (IS_CHAR(value)) result.append(str, i, len);
+        i += len;
+    }
+    return result;
+}
+
 string escapeXml(xmlDoc* doc, const string& xml) {
-    xmlChar* escapedXml = xmlEncodeSpecialChars(doc, BAD_CAST xml.c_str());
+    xmlChar* escapedXml =
+        xmlEncodeSpecialChars(doc, BAD_CAST removeInvalidXmlChars(xml).c_str());
     string escapedXmlString(reinterpret_cast<char*>(escapedXml));
     xmlFree(escapedXml);
     return escapedXmlString;
@@ -120,12 +140,7 @@ string getXmlFromNode(xmlDoc* doc, xmlNode* node) {
 }
 
 string getEscapedXmlFromNode(xmlDoc* doc, xmlNode* node) {
-    string xml = getXmlFromNode(doc, node);
-    xmlChar* escapedXml = xmlEncodeSpecialChars(doc, BAD_CAST xml.c_str());
-    string escapedXmlString((char*)escapedXml);
-    xmlFree(escapedXml);
-
-    return escapedXmlString;
+    return escapeXml(doc, getXmlFromNode(doc, node));
 }
 
 xmlNode* getNodeByXpath(xmlDocPtr doc, const string& xpath,
-- 
2.43.0


From 7a711e90941bbd81ede3e14035a51c432102538a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 42/81] fix: one unrepresentable HTML formula made the whole
 harvest malformed

---
 src/crawler/parser/MathParser.cpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 3469eb1..2caa8ab 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -60,6 +60,7 @@ namespace crawler {
 namespace parser {
 
 static void cleanContentMath(xmlNode* node);
+static bool isWellFormed(const string& xml);
 
 const char XPATH_MATHML[] = "//*[local-name()='math']";
 const char XPATH_CONTENT_MATH[] = "descendant::*[@encoding='MathML-Content']/*";
@@ -132,11 +133,18 @@ Harvest createHarvestFromDocument(const string& path,
             return;
         }
 
+        const string escapedMath = getEscapedXmlFromNode(doc, mathNode);
+        cleanContentMath(cmmlNode);
+        const string contentMath = getXmlFromNode(doc, cmmlNode);
+        if (!isWellFormed(contentMath)) {
+            PRINT_WARN("Discarding math element #%s: not valid as XML\n",
+                       id.c_str());
+            return;
+        }
         if (config.shouldSaveData) {
             data << "<math local_id=\"" << mathIdDictionary.put(id) << "\">"
-                 << getEscapedXmlFromNode(doc, mathNode) << "</math>\n";
+                 << escapedMath << "</math>\n";
         }
-        cleanContentMath(cmmlNode);
 
         stringstream expression;
         if (config.shouldSaveData) {
@@ -147,7 +155,7 @@ Harvest createHarvestFromDocument(const string& path,
             expression << "<mws:expr url=\""
                        << escapeXml(doc, documentId + "#" + id) << "\"";
         }
-        expression << ">" << getXmlFromNode(doc, cmmlNode) << "</mws:expr>\n";
+        expression << ">" << contentMath << "</mws:expr>\n";
         harvest.contentMathElements.push_back(expression.str());
     });
 
@@ -190,6 +198,18 @@ static void replaceEntityReference(xmlNode* node) {
     xmlFreeNode(node);
 }
 
+/**
+ * @return whether an XML parser accepts the content extracted from a (maybe
+ * HTML) document
+ */
+static bool isWellFormed(const string& xml) {
+    xmlDoc* doc =
+        xmlReadMemory(xml.c_str(), xml.size(), /* URL = */ "", "UTF-8",
+                      XML_PARSE_NOWARNING | XML_PARSE_NOERROR);
+    xmlFreeDoc(doc);
+    return doc != nullptr;
+}
+
 /**
  * @brief remove redundant attributes from ContentMath
  * @param xmlNode
-- 
2.43.0


From ccf664c5a0cc0d6d5be0f6bc1682bbd2174d393f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 43/81] fix: metadata names that are no XML names made the
 harvest malformed

---
 src/crawler/parser/MathParser.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 2caa8ab..8f50033 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -110,6 +110,11 @@ Harvest createHarvestFromDocument(const string& path,
              << "</text>\n";
         data << "<metadata>\n";
         for (HarvesterConfiguration::MetadataItem item : config.metadataItems) {
+            if (xmlValidateNCName(BAD_CAST item.name.c_str(), 0) != 0) {
+                PRINT_WARN("Ignoring metadata \"%s\": not an XML name\n",
+                           item.name.c_str());
+                continue;
+            }
             data << "<" << item.name << ">"
                  << escapeXml(doc, getTextByXpath(doc, item.xpath))
                  << "</" << item.name << ">\n";
-- 
2.43.0


From ab30cee036956ff9a819e250903177b9e25ee9a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 44/81] fix: docs2harvest crashed if the configured metadata is
 not an object

---
 src/crawler/docs2harvest.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crawler/docs2harvest.cpp b/src/crawler/docs2harvest.cpp
index 3d361b9..cdf3218 100644
--- a/src/crawler/docs2harvest.cpp
+++ b/src/crawler/docs2harvest.cpp
@@ -214,7 +214,10 @@ static HarvesterConfiguration readHarvesterConfigurationFile(string path) {
 #undef readStringConfigProperty
 
     json_object* jsonMetadata = getJsonChild(jsonConfig, "metadata");
-    if (jsonMetadata != nullptr) {
+    if (jsonMetadata != nullptr &&
+        json_object_get_type(jsonMetadata) != json_type_object) {
+        PRINT_WARN("Value of \"metadata\" should be an object\n");
+    } else if (jsonMetadata != nullptr) {
         json_object_object_foreach(jsonMetadata, key, value) {
             HarvesterConfiguration::MetadataItem item;
             UNUSED(value);
-- 
2.43.0


From ac154b6c7b8745aa9eac06937bc67e86d830d6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 45/81] fix: docs2harvest aborted on a bad output directory or
 configuration

---
 src/crawler/docs2harvest.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/crawler/docs2harvest.cpp b/src/crawler/docs2harvest.cpp
index cdf3218..ccfd807 100644
--- a/src/crawler/docs2harvest.cpp
+++ b/src/crawler/docs2harvest.cpp
@@ -76,12 +76,17 @@ int main(int argc, char* argv[]) {
         return EXIT_FAILURE;
     }
 
-    if (FlagParser::hasArg('o')) {
-        outputDirectory = FlagParser::getArg('o');
-        create_directory(outputDirectory);
-    }
-    if (FlagParser::hasArg('c')) {
-        config = readHarvesterConfigurationFile(FlagParser::getArg('c'));
+    try {
+        if (FlagParser::hasArg('o')) {
+            outputDirectory = FlagParser::getArg('o');
+            create_directory(outputDirectory);
+        }
+        if (FlagParser::hasArg('c')) {
+            config = readHarvesterConfigurationFile(FlagParser::getArg('c'));
+        }
+    } catch (exception& e) {
+        fprintf(stderr, "%s\n", e.what());
+        return EXIT_FAILURE;
     }
     if (FlagParser::hasArg('x')) {
         config.documentIdXpath = FlagParser::getArg('x');
-- 
2.43.0


From 58fa2e1ea7628d53da340356fb99dd570cb9a53f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:19 +0000
Subject: [PATCH 46/81] fix: docs2harvest ignored write errors

---
 src/crawler/docs2harvest.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/crawler/docs2harvest.cpp b/src/crawler/docs2harvest.cpp
index ccfd807..6ade60c 100644
--- a/src/crawler/docs2harvest.cpp
+++ b/src/crawler/docs2harvest.cpp
@@ -140,7 +140,15 @@ int main(int argc, char* argv[]) {
         }
     }
     fputs("</mws:harvest>\n", harvestOutStream);
-    fclose(harvestOutStream);
+    if (ferror(harvestOutStream)) {
+        perror(harvestPath);
+        goto failure;
+    }
+    if (fclose(harvestOutStream) != 0) {
+        harvestOutStream = nullptr;
+        perror(harvestPath);
+        goto failure;
+    }
 
     PRINT_LOG("Written harvest %s\n", harvestPath);
 
-- 
2.43.0


From 558541d1909849834fb0c92dbad8205c0a1a39eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:31 +0000
Subject: [PATCH 47/81] fix: reading a file that is being truncated never ended

---
 src/common/utils/util.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/common/utils/util.cpp b/src/common/utils/util.cpp
index 4a44e0f..6b8bb6d 100644
--- a/src/common/utils/util.cpp
+++ b/src/common/utils/util.cpp
@@ -120,6 +120,10 @@ std::string getFileContents(const std::string& path) throw(runtime_error) {
     do {
         ssize_t ret;
         FAIL_ON((ret = read(fd, &contents[curr], size - curr)) < 0);
+        if (ret == 0 && curr < size) {  // truncated while reading
+            errno = EIO;
+            goto fail;
+        }
         curr += ret;
     } while (curr < size);
     FAIL_ON(curr != size);
-- 
2.43.0


From 4a1711284e9390e0358f7fe2502726de5062667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 48/81] fix: documents with broken UTF-8 made the whole harvest
 unreadable

---
 src/crawler/parser/XmlParser.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crawler/parser/XmlParser.cpp b/src/crawler/parser/XmlParser.cpp
index 0f344cf..44b0ccf 100644
--- a/src/crawler/parser/XmlParser.cpp
+++ b/src/crawler/parser/XmlParser.cpp
@@ -94,7 +94,9 @@ static string removeInvalidXmlChars(const string& str) {
         int len = str.size() - i < 4 ? str.size() - i : 4;
         int value = xmlGetUTF8Char(
             reinterpret_cast<const unsigned char*>(&str[i]), &len);
-        if (value < 0) {
+        xmlChar utf8[8];
+        if (value < 0 || xmlCopyCharMultiByte(utf8, value) != len ||
+            memcmp(utf8, &str[i], len) != 0) {
             i++;
             continue;
         }
-- 
2.43.0


From e067f8ab27120bfaeee52657efbd01162413beee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:07 +0000
Subject: [PATCH 49/81] fix: a range in a harvest made the exporter abort

---
 src/crawler/harvests2json.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/crawler/harvests2json.cpp b/src/crawler/harvests2json.cpp
index 0925e63..de258bc 100644
--- a/src/crawler/harvests2json.cpp
+++ b/src/crawler/harvests2json.cpp
@@ -79,6 +79,7 @@ using mws::index::IndexAccessor;
 #include "mws/index/ExpressionEncoder.hpp"
 using mws::index::HarvestEncoder;
 using mws::index::ExpressionEncoder;
+using mws::index::ExpressionInfo;
 #include "mws/types/CmmlToken.hpp"
 using mws::types::CmmlToken;
 using mws::types::TokenCallback;
@@ -381,12 +382,18 @@ int HarvestParser::processExpression(const CmmlToken* expression,
 
     expression->foreachSubexpression([&](const CmmlToken* subexpression) {
         vector<encoded_token_t> encodedFormula;
+        ExpressionInfo info;
         int ret = encoder.encode(_indexingOptions, subexpression,
-                                 &encodedFormula, nullptr);
+                                 &encodedFormula, &info);
         if (ret != 0) {
             PRINT_WARN("Skipping a formula (could not encode)\n");
             return;
         }
+        // would be searched for, and not looked up
+        if (!info.rangeBounds.empty()) {
+            PRINT_WARN("Skipping a formula (contains a range)\n");
+            return;
+        }
         MwsAnswset* result;
         SearchContext ctxt(encodedFormula, _queryOptions);
         result = ctxt.getResult<IndexAccessor>(_index,
-- 
2.43.0


From 666445680298cf2bcde8052dea6afc8626ce550c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:14 +0000
Subject: [PATCH 50/81] fix: metadata names with broken UTF-8 were written to
 the harvest

---
 src/crawler/parser/MathParser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crawler/parser/MathParser.cpp b/src/crawler/parser/MathParser.cpp
index 8f50033..a6524e6 100644
--- a/src/crawler/parser/MathParser.cpp
+++ b/src/crawler/parser/MathParser.cpp
@@ -110,7 +110,8 @@ Harvest createHarvestFromDocument(const string& path,
              << "</text>\n";
         data << "<metadata>\n";
         for (HarvesterConfiguration::MetadataItem item : config.metadataItems) {
-            if (xmlValidateNCName(BAD_CAST item.name.c_str(), 0) != 0) {
+            if (xmlValidateNCName(BAD_CAST item.name.c_str(), 0) != 0 ||
+                escapeXml(doc, item.name) != item.name) {
                 PRINT_WARN("Ignoring metadata \"%s\": not an XML name\n",
                            item.name.c_str());
                 continue;
-- 
2.43.0


From 059a004e3db01eef1ce127bb0f4e286a940b53ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:13 +0000
Subject: [PATCH 51/81] fix: escape all control characters in JSON strings

JSON allows none of them inside a string; only five were escaped.
---
 src/common/utils/util.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/common/utils/util.cpp b/src/common/utils/util.cpp
index 6b8bb6d..ed66ca4 100644
--- a/src/common/utils/util.cpp
+++ b/src/common/utils/util.cpp
@@ -78,7 +78,14 @@ std::string escapeJsonString(const std::string& input) {
             case '\n': ss << "\\n"; break;
             case '\r': ss << "\\r"; break;
             case '\t': ss << "\\t"; break;
-            default: ss << *iter; break;
+            default:
+                if (static_cast<unsigned char>(*iter) < 0x20) {
+                    ss << formattedString(
+                        "\\u%04x", static_cast<unsigned char>(*iter));
+                } else {
+                    ss << *iter;
+                }
+                break;
         }
     }
     return ss.str();
-- 
2.43.0


From 451c22abe1797295bd45fe0a36221ec4945bdb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:13 +0000
Subject: [PATCH 52/81] fix: create_directory accepted sockets and block
 devices as directories

Their file types share the bit of S_IFDIR.
---
 src/common/utils/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/utils/util.cpp b/src/common/utils/util.cpp
index ed66ca4..560ee9d 100644
--- a/src/common/utils/util.cpp
+++ b/src/common/utils/util.cpp
@@ -289,7 +289,7 @@ void create_directory(const string& path, bool error_if_exists) {
         struct stat status;
         stat(path.c_str(), &status);
 
-        if (status.st_mode & S_IFDIR) {
+        if (S_ISDIR(status.st_mode)) {
             // Test read and write access
             if (access(path.c_str(), R_OK | W_OK) != 0) {
                 throw runtime_error(
-- 
2.43.0


From ca5f434623fa64623c5049db4dd1b468432fc566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:13 +0000
Subject: [PATCH 53/81] fix: reading the argument of an absent flag made the
 flag present

FlagParser::getArg and getArgs inserted an entry that hasArg then found.
---
 src/common/utils/FlagParser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/common/utils/FlagParser.cpp b/src/common/utils/FlagParser.cpp
index 90fa3f2..38c6155 100644
--- a/src/common/utils/FlagParser.cpp
+++ b/src/common/utils/FlagParser.cpp
@@ -190,7 +190,8 @@ bool FlagParser::hasArg(char aShortOpt) {
 }
 
 std::string FlagParser::getArg(char aShortOpt) {
-    vector<string>& args = _parsedArgs[aShortOpt];
+    // not operator[], which would make hasArg true from now on
+    const vector<string> args = getArgs(aShortOpt);
 
     if (!args.empty())
         return args[0];
@@ -199,7 +200,11 @@ std::string FlagParser::getArg(char aShortOpt) {
 }
 
 std::vector<std::string> FlagParser::getArgs(char aShortOpt) {
-    return _parsedArgs[aShortOpt];
+    map<char, vector<string> >::const_iterator it = _parsedArgs.find(aShortOpt);
+
+    if (it == _parsedArgs.end()) return vector<string>();
+
+    return it->second;
 }
 
 std::string FlagParser::getUsage() {
-- 
2.43.0


From 2fff87b771240154010d2dc58f3bff81551382a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:13 +0000
Subject: [PATCH 54/81] fix: appending to an empty or full path accessed memory
 outside of it

---
 src/common/utils/Path.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/utils/Path.hpp b/src/common/utils/Path.hpp
index 4c32cd0..622b19d 100644
--- a/src/common/utils/Path.hpp
+++ b/src/common/utils/Path.hpp
@@ -110,7 +110,7 @@ public:
 
     void append(const RelPath& aPath)
     {
-        if (str[len-1] != PATH_SEPARATOR)
+        if (len > 0 && len + 1 < MWS_PATH_MAX && str[len-1] != PATH_SEPARATOR)
         {
             str[len] = PATH_SEPARATOR;
             len++;
@@ -128,7 +128,7 @@ public:
 
     void append(const RelPath& aPath)
     {
-        if (str[len-1] != PATH_SEPARATOR)
+        if (len > 0 && len + 1 < MWS_PATH_MAX && str[len-1] != PATH_SEPARATOR)
         {
             str[len] = PATH_SEPARATOR;
             len++;
-- 
2.43.0


From 280afa0bf0cab159e4cce5e5d1ef4e2db28f05f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:13 +0000
Subject: [PATCH 55/81] fix: ControlSequence::recv gave up after the first read

It tested the sum of the bytes read, which is 0 at first, instead of the
result of the read. So it always returned 0, and kept only the first part of
a sequence that arrived in several.
---
 src/common/types/ControlSequence.cpp | 21 +++++++++++++++++++--
 src/common/types/ControlSequence.hpp |  7 +++++--
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/common/types/ControlSequence.cpp b/src/common/types/ControlSequence.cpp
index c4f8986..8a6fb27 100644
--- a/src/common/types/ControlSequence.cpp
+++ b/src/common/types/ControlSequence.cpp
@@ -85,18 +85,21 @@ ssize_t ControlSequence::send(int fd) {
 }
 
 ssize_t ControlSequence::recv(int fd) {
+    char buffer[sizeof(ControlSequence)];
     char* data;
     ssize_t data_size;
     ssize_t bytes_read;
     ssize_t nbytes;
+    unsigned char parsed;
+    int format;
 
-    data = (char*)this;
+    data = buffer;
     data_size = sizeof(ControlSequence);
     bytes_read = 0;
 
     while (data_size) {
         nbytes = read(fd, data, data_size);
-        if (bytes_read <= 0) {
+        if (nbytes <= 0) {
             if (nbytes == -1) bytes_read = -1;
             break;
         }
@@ -106,5 +109,19 @@ ssize_t ControlSequence::recv(int fd) {
         data_size -= nbytes;
     }
 
+    // Only a complete and valid sequence is taken over
+    if (data_size == 0) {
+        memcpy(&parsed, buffer + ((char*)&_parsed - (char*)this),
+               sizeof(parsed));
+        memcpy(&format, buffer + ((char*)&_format - (char*)this),
+               sizeof(format));
+        if (parsed > 1 || format < DATAFORMAT_DEFAULT ||
+            format > DATAFORMAT_JSON) {
+            return -1;
+        }
+        _parsed = parsed;
+        _format = static_cast<DataFormat>(format);
+    }
+
     return bytes_read;
 }
diff --git a/src/common/types/ControlSequence.hpp b/src/common/types/ControlSequence.hpp
index 3c09f61..d3ad9b7 100644
--- a/src/common/types/ControlSequence.hpp
+++ b/src/common/types/ControlSequence.hpp
@@ -72,14 +72,17 @@ class ControlSequence {
       * @brief Method to send the current ControlSequence via a file
       * descriptor.
       * @param fd is the destination file descriptor.
-      * @return 0 on success, or the number of bytes which were not delivered.
+      * @return the number of bytes sent, which is sizeof(ControlSequence) on
+      * success, or -1 on error.
       */
     ssize_t send(int fd);
 
     /**
       * @brief Method to receive a ControlSequence via a file descriptor.
       * @param fd is the sender file descriptor.
-      * @return 0 on success, or the number of bytes which were not delivered.
+      * @return the number of bytes received, which is sizeof(ControlSequence)
+      * on success and less if the sender closed early, or -1 on error. Unless
+      * successful, the current ControlSequence does not change.
       */
     ssize_t recv(int fd);
 };
-- 
2.43.0


From 3170f0762aaaeaa4cf0a99cc5af97455266158ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 56/81] fix: InSocket never noted that it was open

So it leaked its descriptor, enabling it again failed and lost the listening
socket, and accepting before it was enabled used an arbitrary descriptor.
---
 src/common/socket/InSocket.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/common/socket/InSocket.cpp b/src/common/socket/InSocket.cpp
index 58162d1..e561b63 100644
--- a/src/common/socket/InSocket.cpp
+++ b/src/common/socket/InSocket.cpp
@@ -67,6 +67,8 @@ int InSocket::enable() {
     int ret;
     int optval_true = true;  // integer True Value - see setsockopt (2)
 
+    if (this->_isOpen) return 0;
+
     this->_fd = socket(AF_INET, SOCK_STREAM, 0);
     if (this->_fd == -1) {
         perror("socket");
@@ -98,12 +100,18 @@ int InSocket::enable() {
         goto fail;
     }
 
+    this->_isOpen = true;
+
     return 0;
 
 fail:
     PRINT_WARN("%s failed\n", __func__);
-    if (_fd > 0) close(_fd);
+    if (_fd >= 0) close(_fd);
     return -1;
 }
 
-OutSocket* InSocket::accept() { return buildAcceptedConnection(this->_fd); }
+OutSocket* InSocket::accept() {
+    if (!this->_isOpen) return nullptr;
+
+    return buildAcceptedConnection(this->_fd);
+}
-- 
2.43.0


From bfef9abebbcc3533d33f4b317cafd96f5f224c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 57/81] fix: writing to a closed connection killed the process

The socket and control sequence writers promise to report the error instead
of letting SIGPIPE through.
---
 src/common/socket/OutSocket.cpp      |  7 ++++++-
 src/common/types/ControlSequence.cpp | 11 ++++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/common/socket/OutSocket.cpp b/src/common/socket/OutSocket.cpp
index 73e555d..97e0f54 100644
--- a/src/common/socket/OutSocket.cpp
+++ b/src/common/socket/OutSocket.cpp
@@ -50,6 +50,10 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 #define SOCKET_DEFAULT_HOST "localhost"
 
+#ifndef MSG_NOSIGNAL  // e.g. on Mac OS X
+#define MSG_NOSIGNAL 0
+#endif
+
 #ifdef NI_MAXHOST
 #define MAX_HOSTNAME_LEN NI_MAXHOST
 #else
@@ -139,7 +143,8 @@ int OutSocket::write(const void* pAddr, int nrBytes) {
     ret = 1;  // dummy positive value
     len = 0;
     while (len < nrBytes && ret > 0) {
-        ret = ::write(this->_fd, (const char*)pAddr + len, nrBytes - len);
+        ret = ::send(this->_fd, (const char*)pAddr + len, nrBytes - len,
+                     MSG_NOSIGNAL);
         len += ret;
     }
     if (ret == -1) goto fail;
diff --git a/src/common/types/ControlSequence.cpp b/src/common/types/ControlSequence.cpp
index 8a6fb27..7cb4ec0 100644
--- a/src/common/types/ControlSequence.cpp
+++ b/src/common/types/ControlSequence.cpp
@@ -31,13 +31,19 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 // System includes
 
+#include <errno.h>
 #include <string.h>
+#include <sys/socket.h>
 #include <unistd.h>
 
 // Local includes
 
 #include "common/types/ControlSequence.hpp"
 
+#ifndef MSG_NOSIGNAL  // e.g. on Mac OS X
+#define MSG_NOSIGNAL 0
+#endif
+
 // Namespaces
 
 using namespace std;
@@ -70,7 +76,10 @@ ssize_t ControlSequence::send(int fd) {
     bytes_written = 0;
 
     while (data_size) {
-        nbytes = write(fd, data, data_size);
+        nbytes = ::send(fd, data, data_size, MSG_NOSIGNAL);
+        if (nbytes == -1 && errno == ENOTSOCK) {
+            nbytes = write(fd, data, data_size);
+        }
         if (nbytes <= 0) {
             if (nbytes == -1) bytes_written = -1;
             break;
-- 
2.43.0


From e21457ab5b5eb893fbe478df34ac02c9a6327870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:41 +0000
Subject: [PATCH 58/81] fix: ThreadWrapper::run reported success for threads it
 did not start

Once the wrapper was shut down it started nothing, leaked the instance and
returned 0; a failed start leaked its data.
---
 src/common/thread/ThreadWrapper.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/common/thread/ThreadWrapper.cpp b/src/common/thread/ThreadWrapper.cpp
index 0d45958..57e2421 100644
--- a/src/common/thread/ThreadWrapper.cpp
+++ b/src/common/thread/ThreadWrapper.cpp
@@ -30,6 +30,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 // System includes
 
+#include <errno.h>
+
 #include "ThreadWrapper.hpp"  // ThreadWrapper class definition
 
 // Static definitions
@@ -100,6 +102,7 @@ ThreadWrapper::ThreadWrapper(void* (*start_routine)(void*), void* arg) {
         err = pthread_create(&currentThread, &attr, ThreadWrapper::startWrapper,
                              data);
         if (err) {
+            delete data;
             pthread_attr_destroy(&attr);
             pthread_mutex_unlock(&lock);
             throw err;
@@ -108,6 +111,9 @@ ThreadWrapper::ThreadWrapper(void* (*start_routine)(void*), void* arg) {
         alive++;
 
         pthread_attr_destroy(&attr);
+    } else {
+        pthread_mutex_unlock(&lock);
+        throw ECANCELED;
     }
     pthread_mutex_unlock(&lock);
 }
-- 
2.43.0


From e37dea3de7608e5c429cfbe7766ef1c9a24c2595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:43 +0000
Subject: [PATCH 59/81] fix: records stored after reopening a database replaced
 older ones

The databases number their records from 1, also when opened with records
already in them.
---
 src/mws/dbc/LevCrawlDb.cpp   | 23 ++++++++++++++++++++++-
 src/mws/dbc/LevCrawlDb.hpp   |  7 +++++++
 src/mws/dbc/LevFormulaDb.cpp | 20 +++++++++++++++++++-
 src/mws/dbc/LevFormulaDb.hpp |  7 +++++++
 4 files changed, 55 insertions(+), 2 deletions(-)

diff --git a/src/mws/dbc/LevCrawlDb.cpp b/src/mws/dbc/LevCrawlDb.cpp
index af154e1..de5a96d 100644
--- a/src/mws/dbc/LevCrawlDb.cpp
+++ b/src/mws/dbc/LevCrawlDb.cpp
@@ -29,6 +29,9 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <sys/stat.h>
 #include <sys/types.h>
 
+#include <stdlib.h>
+
+#include <memory>
 #include <stdexcept>
 using std::runtime_error;
 #include <string>
@@ -49,7 +52,9 @@ using common::types::ParcelDecoder;
 namespace mws {
 namespace dbc {
 
-LevCrawlDb::LevCrawlDb() : mDatabase(nullptr), mNextCrawlId(CRAWLID_NULL) {}
+LevCrawlDb::LevCrawlDb()
+    : mDatabase(nullptr), mNextCrawlId(CRAWLID_NULL),
+      mIsNextCrawlIdKnown(true) {}
 
 LevCrawlDb::~LevCrawlDb() { delete mDatabase; }
 
@@ -62,6 +67,7 @@ void LevCrawlDb::open(const char* path) {
     if (!status.ok()) {
         throw std::runtime_error(string(path) + " not found.");
     }
+    mIsNextCrawlIdKnown = false;
 }
 
 /** @throw runtime_error */
@@ -80,8 +86,23 @@ void LevCrawlDb::create_new(const char* path,
     }
 }
 
+void LevCrawlDb::findNextCrawlId() {
+    std::unique_ptr<leveldb::Iterator> it(
+        mDatabase->NewIterator(leveldb::ReadOptions()));
+    for (it->SeekToFirst(); it->Valid(); it->Next()) {
+        CrawlId crawlId = strtoul(it->key().ToString().c_str(), nullptr, 10);
+        if (crawlId > mNextCrawlId) mNextCrawlId = crawlId;
+    }
+    if (!it->status().ok()) {
+        throw std::runtime_error(it->status().ToString());
+    }
+    mIsNextCrawlIdKnown = true;
+}
+
 /** @throw std::exception */
 CrawlId LevCrawlDb::putData(const CrawlData& crawlData) {
+    // Needs a full scan, so only if an opened database is really extended
+    if (!mIsNextCrawlIdKnown) findNextCrawlId();
     CrawlId crawlId = ++mNextCrawlId;
     string crawlId_str = std::to_string(crawlId);
 
diff --git a/src/mws/dbc/LevCrawlDb.hpp b/src/mws/dbc/LevCrawlDb.hpp
index 8ab954e..2cb5df2 100644
--- a/src/mws/dbc/LevCrawlDb.hpp
+++ b/src/mws/dbc/LevCrawlDb.hpp
@@ -69,6 +69,13 @@ class LevCrawlDb : public CrawlDb {
  private:
     leveldb::DB* mDatabase;
     CrawlId mNextCrawlId;
+    bool mIsNextCrawlIdKnown;
+
+    /**
+     * @brief continue with the ids of the data already stored
+     * @throw runtime_error
+     */
+    void findNextCrawlId();
 };
 
 }  // namespace dbc
diff --git a/src/mws/dbc/LevFormulaDb.cpp b/src/mws/dbc/LevFormulaDb.cpp
index cb68a7e..22fd65e 100644
--- a/src/mws/dbc/LevFormulaDb.cpp
+++ b/src/mws/dbc/LevFormulaDb.cpp
@@ -51,7 +51,8 @@ using common::types::ParcelDecoder;
 namespace mws {
 namespace dbc {
 
-LevFormulaDb::LevFormulaDb() : mDatabase(nullptr), mCounter(0) {}
+LevFormulaDb::LevFormulaDb()
+    : mDatabase(nullptr), mCounter(0), mIsCounterKnown(true) {}
 
 LevFormulaDb::~LevFormulaDb() { delete mDatabase; }
 
@@ -64,6 +65,7 @@ void LevFormulaDb::open(const char* path) {
     if (!status.ok()) {
         throw runtime_error(status.ToString());
     }
+    mIsCounterKnown = false;
 }
 
 /** @throw runtime_error */
@@ -81,9 +83,25 @@ void LevFormulaDb::create_new(const char* path, bool deleteIfExists) {
     }
 }
 
+int LevFormulaDb::findCounter() {
+    unique_ptr<Iterator> it(mDatabase->NewIterator(ReadOptions()));
+    for (it->SeekToFirst(); it->Valid(); it->Next()) {
+        string key = it->key().ToString();
+        uint32_t counter = strtoul(key.c_str() + key.find('!') + 1, nullptr,
+                                   10);
+        if (counter > mCounter) mCounter = counter;
+    }
+    if (!it->status().ok()) return -1;
+    mIsCounterKnown = true;
+
+    return 0;
+}
+
 int LevFormulaDb::insertFormula(const types::FormulaId& formulaId,
                                 const CrawlId& crawlId,
                                 const types::FormulaPath& formulaPath) {
+    // Needs a full scan, so only if an opened database is really extended
+    if (!mIsCounterKnown && findCounter() != 0) return -1;
     ++mCounter;
 
     std::string crawlId_str = std::to_string(crawlId);
diff --git a/src/mws/dbc/LevFormulaDb.hpp b/src/mws/dbc/LevFormulaDb.hpp
index 380a10d..583dc74 100644
--- a/src/mws/dbc/LevFormulaDb.hpp
+++ b/src/mws/dbc/LevFormulaDb.hpp
@@ -60,6 +60,13 @@ class LevFormulaDb : public FormulaDb {
  private:
     leveldb::DB* mDatabase;
     uint32_t mCounter;
+    bool mIsCounterKnown;
+
+    /**
+     * @brief continue with the counter of the formulas already stored
+     * @return 0 on success and -1 on failure.
+     */
+    int findCounter();
 };
 
 }  // namespace dbc
-- 
2.43.0


From 964f1d10181333fa56e4320eb7bb8fe7943b8321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 60/81] fix: the list of MathML tags was read as a terminated
 string

---
 src/crawler/utils/MwsGetMath.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 9670d62..1d37504 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -272,7 +272,7 @@ void store_mathml_tags() {
     is.seekg(0, ios::beg);
     is.read(alltags, length);
     is.close();
-    string all_tags(alltags);
+    string all_tags(alltags, is.gcount());
     delete[] alltags;
     int pos = 0;
 
-- 
2.43.0


From 6649d0380a54f7e8622b46790d06be1b0fb00921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 61/81] fix: robots.txt was copied into a buffer that is too
 small

---
 src/crawler/types/Robotstxt.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/crawler/types/Robotstxt.cpp b/src/crawler/types/Robotstxt.cpp
index bb9e54d..93187d9 100644
--- a/src/crawler/types/Robotstxt.cpp
+++ b/src/crawler/types/Robotstxt.cpp
@@ -59,9 +59,11 @@ Robotstxt::Robotstxt(GURL aStartUrl) {
     string disallow = "Disallow: ";
     int isInBrackets = 0;
     FILE* stream;
-    auto robpg = new char[rob.size()];
-    strcpy(robpg, rob.c_str());
-    stream = fmemopen(robpg, rob.size(), "r");
+    stream = fmemopen((void*)rob.data(), rob.size(), "r");
+    if (stream == nullptr) {
+        PRINT_WARN("Error reading the Robots page!\n");
+        return;
+    }
     const int bufmax = 1000;
     char buf[bufmax];
     while (fgets(buf, bufmax, stream) != nullptr) {
@@ -79,6 +81,7 @@ Robotstxt::Robotstxt(GURL aStartUrl) {
             this->dont_allow(dontCrawlLink);
         }
     }
+    fclose(stream);
     // TODO: Crawl-Delay getter for Non-Standard robots.txt extension
 }
 
-- 
2.43.0


From fb369cb14d87165e971f079cbba48f41dd108042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 62/81] fix: pages that failed to download were requested up to
 four times

---
 src/crawler/utils/Page.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/crawler/utils/Page.cpp b/src/crawler/utils/Page.cpp
index e7d03f0..1778ce1 100644
--- a/src/crawler/utils/Page.cpp
+++ b/src/crawler/utils/Page.cpp
@@ -83,7 +83,11 @@ void Page::downloadContent() {
         return;
     }
     string strUrl = getUrl();
-    auto errorstr = new char[CURL_ERROR_SIZE];
+    char errorstr[CURL_ERROR_SIZE] = "";
+
+    // A page that cannot be downloaded is not requested again
+    downloadedContent = 1;
+    downloadedHeader = 1;
 
     curl_easy_setopt(curl, CURLOPT_URL, strUrl.c_str());
     curl_easy_setopt(curl, CURLOPT_WRITEFUNCTION, curlWriter);
@@ -94,10 +98,7 @@ void Page::downloadContent() {
     curl_easy_setopt(curl, CURLOPT_CONNECTTIMEOUT, 100);
     curl_easy_setopt(curl, CURLOPT_ERRORBUFFER, errorstr);
 
-    if (curl_easy_perform(curl) == 0) {
-        downloadedContent = 1;
-        downloadedHeader = 1;
-    } else
+    if (curl_easy_perform(curl) != 0)
         PRINT_WARN("CURL: Cannot Download page because: \n  %s \n", errorstr);
 
     curl_easy_cleanup(curl);
-- 
2.43.0


From 5acba45a145f3a905ab763fbfa64edf8a7bc08b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 63/81] fix: a page linked twice from one page was requested
 twice

---
 src/crawler/crawler/MwsCrawler.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 0f9ad1b..f48df6e 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -159,7 +159,6 @@ void Crawler::start() {
         for (it = page_links.begin(); it != page_links.end(); ++it) {
             GURL url_to_add = (*it);
             url_queue.push(url_to_add);
-            all_urls.insert(getQueryable(url_to_add));
         }
     }
 
@@ -267,7 +266,7 @@ void Crawler::cleanupLinks(vector<GURL>& page_links) {
     for (itpos = it = page_links.begin(); it != page_links.end(); ++i, ++it) {
         current = (*it);
         if (rtxt->is_allowed_by_robots_txt(current))
-            if (all_urls.find(getQueryable(current)) == all_urls.end()) {
+            if (all_urls.insert(getQueryable(current)).second) {
                 page_links[pos++] = (*it);
                 itpos++;
             }
-- 
2.43.0


From 647a94f5ce0100bd5b40e48e2b040a89edaa00e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:42 +0000
Subject: [PATCH 64/81] fix: links with a query were requested though their
 path is disallowed

---
 src/crawler/types/Robotstxt.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/crawler/types/Robotstxt.cpp b/src/crawler/types/Robotstxt.cpp
index 93187d9..40c96a9 100644
--- a/src/crawler/types/Robotstxt.cpp
+++ b/src/crawler/types/Robotstxt.cpp
@@ -108,15 +108,12 @@ int Robotstxt::is_allowed_by_robots_txt(GURL gurl) {
 
     for (it = not_allowed.begin(); it != not_allowed.end(); ++it) {
         c = (*it);
-        if (gurl.host() == c.host() && gurl.query() == c.query()) {
-            cp = c.path();
-            if (cp[cp.size() - 1] == '/') {
-                if (gurl.path().substr(0, cp.length() - 1) ==
-                    cp.substr(0, cp.length() - 1))
-                    return 0;
-            } else {
-                if (gurl.path().substr(0, cp.length()) == cp) return 0;
-            }
+        if (c.is_valid() && gurl.host() == c.host()) {
+            // rules are prefixes of the path and query
+            cp = c.PathForRequest();
+            if (!cp.empty() && cp[cp.size() - 1] == '/')
+                cp.erase(cp.size() - 1);
+            if (gurl.PathForRequest().compare(0, cp.size(), cp) == 0) return 0;
         }
     }
     return 1;
-- 
2.43.0


From 197ac3c7a498694d71f3cb17db2d3437b1d43c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:03 +0000
Subject: [PATCH 65/81] fix: links written in capitals were not followed

---
 src/crawler/utils/Page.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/crawler/utils/Page.cpp b/src/crawler/utils/Page.cpp
index 1778ce1..1381501 100644
--- a/src/crawler/utils/Page.cpp
+++ b/src/crawler/utils/Page.cpp
@@ -26,6 +26,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
  */
 
 #include <string>
+#include <strings.h>
 #include <curl/curl.h>
 #include <curl/easy.h>
 #include <gurl.h>
@@ -194,7 +195,7 @@ vector<GURL> Page::getLinks() {
     tree<HTML::Node>::iterator it = dom.begin();
     tree<HTML::Node>::iterator end = dom.end();
     for (; it != end; ++it) {
-        if (it->tagName() == "a") {
+        if (strcasecmp(it->tagName().c_str(), "a") == 0) {
             it->parseAttributes();
             string relative = it->attribute("href").second;
 
-- 
2.43.0


From 43052ded5428c706789b564989842aa3b49f233b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:39 +0000
Subject: [PATCH 66/81] fix: common forms of robots.txt were not understood

---
 src/crawler/types/Robotstxt.cpp | 63 +++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 27 deletions(-)

diff --git a/src/crawler/types/Robotstxt.cpp b/src/crawler/types/Robotstxt.cpp
index 40c96a9..f2cde71 100644
--- a/src/crawler/types/Robotstxt.cpp
+++ b/src/crawler/types/Robotstxt.cpp
@@ -23,6 +23,8 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
  */
 
 // System includes
+#include <strings.h>
+#include <sstream>
 #include <string>
 #include <vector>
 #include <iostream>
@@ -38,6 +40,16 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 
 using namespace std;
 
+/**
+ * Returns the string without surrounding white space
+ */
+static string trim(const string& str) {
+    const char* space = " \t\r\n\v\f";
+    size_t start = str.find_first_not_of(space);
+    if (start == string::npos) return "";
+    return str.substr(start, str.find_last_not_of(space) - start + 1);
+}
+
 /**
  * Implementation of Robotstxt constructor
  *
@@ -53,35 +65,32 @@ Robotstxt::Robotstxt(GURL aStartUrl) {
         return;
     }
 
-    // If Our Crawler has no name
-    string userAgent = "User-agent: ";
-    string thisCrawler = "*";
-    string disallow = "Disallow: ";
-    int isInBrackets = 0;
-    FILE* stream;
-    stream = fmemopen((void*)rob.data(), rob.size(), "r");
-    if (stream == nullptr) {
-        PRINT_WARN("Error reading the Robots page!\n");
-        return;
-    }
-    const int bufmax = 1000;
-    char buf[bufmax];
-    while (fgets(buf, bufmax, stream) != nullptr) {
-        string line(buf);
-        if (line.compare(0, userAgent.size(), userAgent) == 0) {
-            if (isInBrackets)
-                isInBrackets = 0;
-            else if (line.compare(0, userAgent.size() + thisCrawler.size(),
-                                  userAgent + thisCrawler) == 0)
-                isInBrackets = 1;
-        }
-
-        if (isInBrackets && line.compare(0, disallow.size(), disallow) == 0) {
-            string dontCrawlLink = line.substr(disallow.size());
-            this->dont_allow(dontCrawlLink);
+    // Our Crawler has no name: the groups for any user agent apply to it.
+    // Field names are case-insensitive, and several consecutive user agents
+    // share one group of rules.
+    bool inAgents = false;
+    bool applies = false;
+    istringstream stream(rob);
+    string line;
+    while (getline(stream, line)) {
+        line = line.substr(0, line.find('#'));
+        size_t colon = line.find(':');
+        if (colon == string::npos) continue;
+        string name = trim(line.substr(0, colon));
+        string value = trim(line.substr(colon + 1));
+
+        if (strcasecmp(name.c_str(), "User-agent") == 0) {
+            if (!inAgents) applies = false;
+            inAgents = true;
+            if (value == "*") applies = true;
+        } else if (strcasecmp(name.c_str(), "Disallow") == 0) {
+            inAgents = false;
+            // an empty value disallows nothing
+            if (applies && !value.empty()) this->dont_allow(value);
+        } else if (strcasecmp(name.c_str(), "Allow") == 0) {
+            inAgents = false;
         }
     }
-    fclose(stream);
     // TODO: Crawl-Delay getter for Non-Standard robots.txt extension
 }
 
-- 
2.43.0


From 73c8e027eac62dea7fcedf7d997578271cd24985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:37 +0000
Subject: [PATCH 67/81] fix: entities in links were not decoded

---
 src/crawler/utils/Page.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/crawler/utils/Page.cpp b/src/crawler/utils/Page.cpp
index 1381501..7d9e0fd 100644
--- a/src/crawler/utils/Page.cpp
+++ b/src/crawler/utils/Page.cpp
@@ -32,6 +32,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <gurl.h>
 #include <htmlcxx/html/ParserDom.h>
 #include <htmlcxx/html/tree.h>
+#include <htmlcxx/html/utils.h>
 
 #include "common/utils/compiler_defs.h"
 
@@ -197,7 +198,8 @@ vector<GURL> Page::getLinks() {
     for (; it != end; ++it) {
         if (strcasecmp(it->tagName().c_str(), "a") == 0) {
             it->parseAttributes();
-            string relative = it->attribute("href").second;
+            string relative =
+                HTML::decode_entities(it->attribute("href").second);
 
             GURL resolved = curr.Resolve(relative);
             if (resolved.host() == curr.host()) answer.push_back(resolved);
-- 
2.43.0


From c0c027d3b022d7bf3b5cba67f42cef7a86e6ad10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:44 +0000
Subject: [PATCH 68/81] fix: exclusions of a request with an invalid start URL
 crashed crawlerd

---
 src/crawler/crawler/MwsCrawler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index f48df6e..92bfbf6 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -112,7 +112,10 @@ void Crawler::addCrawlerCount(int cnt) {
 /**
  * Implementation of dontCrawl
  */
-void Crawler::dontCrawl(string link) { rtxt->dont_allow(link); }
+void Crawler::dontCrawl(string link) {
+    // there are no rules if the starting URL was not valid
+    if (rtxt != nullptr) rtxt->dont_allow(link);
+}
 
 /**
  * Implementation of addDataDirectory
-- 
2.43.0


From 16d27d488862976d9baf7711b98c81c29b4fbc03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:44 +0000
Subject: [PATCH 69/81] fix: the queue of crawl requests was read without its
 lock

---
 src/crawler/crawler/MwsCrawler.cpp | 5 +++--
 src/crawler/crawlerd.cpp           | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 92bfbf6..1515292 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -179,13 +179,14 @@ void Crawler::start() {
  */
 void Crawler::run(SharedQueue* sq, const char* dataDir) {
     while (true) {
+        pthread_mutex_lock(&sq->lock);
         while ((*sq).sharedQueue.empty()) {
+            pthread_mutex_unlock(&sq->lock);
             sleep(1);  // TODO
+            pthread_mutex_lock(&sq->lock);
         }
 
         QueueNode qNode = (*sq).sharedQueue.front();
-
-        pthread_mutex_lock(&sq->lock);
         (*sq).sharedQueue.pop();
         pthread_mutex_unlock(&sq->lock);
 
diff --git a/src/crawler/crawlerd.cpp b/src/crawler/crawlerd.cpp
index accd50a..48f35e5 100644
--- a/src/crawler/crawlerd.cpp
+++ b/src/crawler/crawlerd.cpp
@@ -148,9 +148,11 @@ int main(int argc, char* argv[]) {
     crawlerDaemon.stop();
 
     // delete sharedQueue
+    pthread_mutex_lock(&sq->lock);
     while (!(*sq).sharedQueue.empty()) {
         sq->sharedQueue.pop();
     }
+    pthread_mutex_unlock(&sq->lock);
 
     return EXIT_SUCCESS;
 }
-- 
2.43.0


From 240054161e5e3e5336b1ccbd8e62c66a7d0e0c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:44 +0000
Subject: [PATCH 70/81] fix: harvests crawled in the same second replaced each
 other

---
 src/crawler/crawler/MwsCrawler.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/crawler/crawler/MwsCrawler.cpp b/src/crawler/crawler/MwsCrawler.cpp
index 1515292..d2c1065 100644
--- a/src/crawler/crawler/MwsCrawler.cpp
+++ b/src/crawler/crawler/MwsCrawler.cpp
@@ -27,6 +27,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
  */
 
 // System includes
+#include <errno.h>
 #include <string>  // stl
 #include <vector>
 #include <queue>
@@ -207,10 +208,16 @@ void Crawler::run(SharedQueue* sq, const char* dataDir) {
  */
 void Crawler::storeMath(const char* xml) {
     stringstream strs;
-    strs << data_directory << "/harvest" << time(nullptr) << ".xml";
-    string fileName;
-    strs >> fileName;
-    FILE* f = fopen(fileName.c_str(), "w");
+    strs << data_directory << "/harvest" << time(nullptr);
+    string fileName = strs.str() + ".xml";
+    // harvests of the same second must not replace each other
+    FILE* f = fopen(fileName.c_str(), "wx");
+    for (int i = 1; f == nullptr && errno == EEXIST; i++) {
+        stringstream name;
+        name << strs.str() << "-" << i << ".xml";
+        fileName = name.str();
+        f = fopen(fileName.c_str(), "wx");
+    }
     if (f == nullptr) {
         cerr << "Cannot open harvest file: " << fileName << endl;
         return;
-- 
2.43.0


From c3b79dcbfb5263f1603c210551c40daac577cb3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:54 +0000
Subject: [PATCH 71/81] fix: crawl requests with long, many or split values
 were corrupted

Values of 100 bytes and more than 128 exclusions overflowed their buffers,
values that arrived in several parts were replaced by their last part,
exclusions of more than 100 bytes were dropped, aborted requests were queued
and other content types got no answer.
---
 src/crawler/daemon/CrawlerDaemon.cpp | 148 +++++++++++----------------
 src/crawler/daemon/CrawlerDaemon.hpp |  15 ++-
 2 files changed, 67 insertions(+), 96 deletions(-)

diff --git a/src/crawler/daemon/CrawlerDaemon.cpp b/src/crawler/daemon/CrawlerDaemon.cpp
index e5809be..8087b13 100644
--- a/src/crawler/daemon/CrawlerDaemon.cpp
+++ b/src/crawler/daemon/CrawlerDaemon.cpp
@@ -25,11 +25,14 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
  */
 
 // System includes
-#include <vector>  // C++ STL libraries
+#include <algorithm>  // C++ STL libraries
+#include <new>
+#include <vector>
 #include <string>
 #include <cstdio>  // C I/O libraries
 #include <cstring>
 #include <cstdlib>
+#include <climits>
 #include <stdint.h>     // C standard integer types
 #include <netdb.h>      // C internet database headers
 #include <sys/types.h>  // System types
@@ -91,51 +94,37 @@ static int cd_IteratePostRequest(void* coninfo_cls, enum MHD_ValueKind kind,
     UNUSED(filename);
     UNUSED(content_type);
     UNUSED(transfer_encoding);
-    UNUSED(off);
 
     struct connection_info_struct* con_info =
         (connection_info_struct*)coninfo_cls;
+    string* value;
 
+    // A value may arrive in several parts; off is 0 for the first of them
     if (0 == strcmp(key, "urlstart")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
-            char* urlstart;
-            urlstart = (char*)malloc(MAXNAMESIZE);
-            if (!urlstart) return MHD_NO;
-
-            strcpy(urlstart, data);
-            con_info->urlstart = urlstart;
-        } else
-            con_info->urlstart = nullptr;
-
+        value = &con_info->urlstart;
+        if (off == 0) value->clear();
+    } else if (0 == strcmp(key, "count")) {
+        value = &con_info->count;
+        if (off == 0) value->clear();
+    } else if (0 == strcmp(key, "dontcrawl")) {
+        vector<string>& dontcrawl = con_info->dontcrawl;
+        if (dontcrawl.empty() || (off == 0 && !dontcrawl.back().empty())) {
+            if (dontcrawl.size() == MAXDONTCRAWLSIZE) {
+                con_info->toolarge = true;
+                return MHD_YES;
+            }
+            dontcrawl.push_back("");
+        }
+        value = &dontcrawl.back();
+    } else {
         return MHD_YES;
     }
-    if (0 == strcmp(key, "count")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
-            char* count;
-            count = (char*)malloc(MAXNAMESIZE);
-            if (!count) return MHD_NO;
-
-            strcpy(count, data);
-            con_info->count = count;
-        } else
-            con_info->count = nullptr;
 
-        return MHD_YES;
-    }
-    if (0 == strcmp(key, "dontcrawl")) {
-        if ((size > 0) && (size <= MAXNAMESIZE)) {
-            char* dontcrawl;
-            dontcrawl = (char*)malloc(MAXNAMESIZE);
-            if (!dontcrawl) return MHD_NO;
-
-            strcpy(dontcrawl, data);
-            con_info->dontcrawl[con_info->dontcrawlnr] = dontcrawl;
-            con_info->dontcrawlnr++;
-        } else
-            con_info->dontcrawl[con_info->dontcrawlnr] = nullptr;
+    if (value->size() + size > MAXNAMESIZE)
+        con_info->toolarge = true;
+    else if (size > 0)
+        value->append(data, size);
 
-        return MHD_YES;
-    }
     return MHD_YES;
 }
 
@@ -151,45 +140,31 @@ static void cd_RequestCompletedCallback(void* cls,
     UNUSED(toe);
 
     SharedQueue* sharedQueue = (SharedQueue*)cls;
-    QueueNode qNode;
-    qNode.urlstart = "";
-    qNode.count = qNode.dontcrawlnr = 0;
-    int goodRequest = 0;
-
     struct connection_info_struct* con_info = (connection_info_struct*)*con_cls;
 
     if (nullptr == con_info) return;
 
-    if (con_info->connectiontype == POST) {
-        if (con_info->urlstart != nullptr) {
-            qNode.urlstart = con_info->urlstart;
-            goodRequest = 1;
-        }
-        if (con_info->count != nullptr && atoi(con_info->count))
-            qNode.count = atoi(con_info->count);
-        else
-            qNode.count = -1;
-        qNode.dontcrawlnr = con_info->dontcrawlnr;
-        for (int i = 0; i < con_info->dontcrawlnr; ++i)
-            qNode.dontcrawl.push_back((string)con_info->dontcrawl[i]);
+    // put Request in Queue
+    if (con_info->accepted) {
+        QueueNode qNode;
+        qNode.urlstart = con_info->urlstart;
+        qNode.count = -1;
+        long count = strtol(con_info->count.c_str(), nullptr, 10);
+        if (count != 0)
+            qNode.count = max(min(count, (long)INT_MAX), (long)INT_MIN);
+        for (const string& link : con_info->dontcrawl)
+            if (!link.empty()) qNode.dontcrawl.push_back(link);
+        qNode.dontcrawlnr = qNode.dontcrawl.size();
 
-        MHD_destroy_post_processor(con_info->postprocessor);
-        if (con_info->urlstart) free(con_info->urlstart);
-        if (con_info->count) free(con_info->count);
-        for (int i = 0; i < con_info->dontcrawlnr; ++i)
-            free(con_info->dontcrawl[i]);
-        con_info->dontcrawlnr = 0;
-    }
-
-    free(con_info);
-    *con_cls = nullptr;
-
-    if (goodRequest)  // put Request in Queue
-    {
         pthread_mutex_lock(&sharedQueue->lock);
         (*sharedQueue).sharedQueue.push(qNode);
         pthread_mutex_unlock(&sharedQueue->lock);
     }
+
+    if (con_info->postprocessor != nullptr)
+        MHD_destroy_post_processor(con_info->postprocessor);
+    delete con_info;
+    *con_cls = nullptr;
 }
 
 /**
@@ -207,30 +182,18 @@ static int cd_AccessHandlerCallback(void* cls,
     UNUSED(version);
 
     if (nullptr == *con_cls) {
-        struct connection_info_struct* con_info;
-
-        con_info = (connection_info_struct*)malloc(
-            sizeof(struct connection_info_struct));
+        auto con_info = new (nothrow) connection_info_struct;
         if (nullptr == con_info) return MHD_NO;
-        con_info->urlstart = nullptr;
-        con_info->count = nullptr;
-        con_info->dontcrawlnr = 0;
-        con_info->dontcrawl[0] = nullptr;
+        con_info->postprocessor = nullptr;
+        con_info->toolarge = false;
+        con_info->accepted = false;
 
-        if (0 == strcmp(method, "POST")) {
+        // There is no post processor for bodies that are no form data
+        if (0 == strcmp(method, "POST"))
             con_info->postprocessor = MHD_create_post_processor(
                 connection, POSTBUFFERSIZE, (MHD_PostDataIterator)cd_IteratePostRequest,
                 (void*)con_info);
 
-            if (nullptr == con_info->postprocessor) {
-                free(con_info);
-                return MHD_NO;
-            }
-
-            con_info->connectiontype = POST;
-        } else
-            con_info->connectiontype = GET;
-
         *con_cls = (void*)con_info;
 
         return MHD_YES;
@@ -245,12 +208,21 @@ static int cd_AccessHandlerCallback(void* cls,
             (connection_info_struct*)*con_cls;
 
         if (*upload_data_size != 0) {
-            MHD_post_process(con_info->postprocessor, upload_data,
-                             *upload_data_size);
+            if (con_info->postprocessor != nullptr)
+                MHD_post_process(con_info->postprocessor, upload_data,
+                                 *upload_data_size);
             *upload_data_size = 0;
 
             return MHD_YES;
-        } else if (con_info->urlstart != nullptr) {
+        }
+
+        // This completes the last value
+        if (con_info->postprocessor != nullptr) {
+            MHD_destroy_post_processor(con_info->postprocessor);
+            con_info->postprocessor = nullptr;
+        }
+        if (!con_info->urlstart.empty() && !con_info->toolarge) {
+            con_info->accepted = true;
             return cd_SendPageThroughConnection(connection, answerpage);
         }
     }
diff --git a/src/crawler/daemon/CrawlerDaemon.hpp b/src/crawler/daemon/CrawlerDaemon.hpp
index 56e9944..eda445c 100644
--- a/src/crawler/daemon/CrawlerDaemon.hpp
+++ b/src/crawler/daemon/CrawlerDaemon.hpp
@@ -47,19 +47,18 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #define MAXASKPAGESIZE  4096
 #define MAXDONTCRAWLSIZE 128
 
-#define GET             0
-#define POST            1
-
 /*
  * Connection info struct
  */
 struct connection_info_struct
 {
-    int connectiontype;
-    char *urlstart;
-    char *count;
-    int dontcrawlnr;
-    char *dontcrawl[MAXDONTCRAWLSIZE];
+    std::string urlstart;
+    std::string count;
+    std::vector<std::string> dontcrawl;
+    // a value is too long or there are too many of them
+    bool toolarge;
+    // the request was answered with success
+    bool accepted;
     struct MHD_PostProcessor *postprocessor;
 };
 
-- 
2.43.0


From 7295f5814c401076c004c9aa1a56a600a97e4f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:14 +0000
Subject: [PATCH 72/81] fix: stray or self-closing math tags made crawlerd read
 beyond the page

---
 src/crawler/utils/MwsGetMath.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 1d37504..4ed4251 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -73,12 +73,10 @@ vector<pair<string, string> > get_math_blocks(string html) {
         pos = oc + matho.size();
         allpos.push_back(make_pair(oc, 1));
         // check whether the tag closes by itself
-        while (1) {
-            if (pos == sz) break;
-            if (html[pos] == '>') break;
+        while (pos < sz && html[pos] != '>') {
             if (html[pos] == '/' && (pos + 1) < sz && html[pos + 1] == '>') {
                 allpos.push_back(make_pair(pos, -1));
-                pos = pos + 2;
+                break;
             }
             ++pos;
         }
@@ -104,7 +102,11 @@ vector<pair<string, string> > get_math_blocks(string html) {
     int lpos = 0, val = 0;
     for (int i = 0; (unsigned int)i < allpos.size(); ++i) {
         val += allpos[i].second;
-        if (val == 0) {
+        if (val < 0) {
+            // a closing tag without an opening one
+            val = 0;
+            lpos = i + 1;
+        } else if (val == 0) {
             string nstr;
             int start = allpos[lpos].first;
             int stop = allpos[i].first + mathc.size();
-- 
2.43.0


From 6c7b8d80054ae199f5b5875c10b9883711be7b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:14 +0000
Subject: [PATCH 73/81] fix: formula ids not in double quotes made crawlerd
 read beyond the page

---
 src/crawler/utils/MwsGetMath.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index 4ed4251..e96bc15 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -143,9 +143,12 @@ vector<pair<string, string> > get_math_blocks(string html) {
             string id;
             size_t we = nstr.find(">");
             size_t wid = nstr.find(" id=");
-            if (wid != string::npos && wid < we)
-                for (int j = wid + 5; nstr[j] != '"'; ++j)
-                    id.push_back(nstr[j]);
+            if (wid != string::npos && wid < we) {
+                char quote = nstr[wid + 4];
+                size_t end = nstr.find(quote, wid + 5);
+                if ((quote == '"' || quote == '\'') && end != string::npos)
+                    id = nstr.substr(wid + 5, end - (wid + 5));
+            }
 
             ans.push_back(make_pair(nstr, id));
         }
-- 
2.43.0


From 1daca1b751670c01b5cc539b3ff7f253013e21d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:14 +0000
Subject: [PATCH 74/81] fix: crawled urls and formula ids were written
 unescaped to the harvest

---
 src/crawler/utils/MwsGetMath.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index e96bc15..f607f4b 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -157,6 +157,17 @@ vector<pair<string, string> > get_math_blocks(string html) {
     return ans;
 }
 
+/*
+ * Returns str as it is written in an XML attribute
+ */
+static string escape_xml(const string& str) {
+    xmlChar* escaped =
+        xmlEncodeSpecialChars(nullptr, (const xmlChar*)str.c_str());
+    string res((char*)escaped);
+    xmlFree(escaped);
+    return res;
+}
+
 /*
  * Helper function for get_math_xhtml
  *
@@ -237,7 +248,7 @@ int isHTML(Page& page) {
  */
 vector<string> get_math_html(Page& page) {
     string html = page.getContent();
-    string url = page.getUrl();
+    string url = escape_xml(page.getUrl());
 
     vector<pair<string, string> > xml = get_math_blocks(html);
     vector<pair<string, string> >::iterator it;
@@ -247,6 +258,10 @@ vector<string> get_math_html(Page& page) {
     for (it = xml.begin(); it != xml.end(); ++it) {
         string str;
         if (is_good_xml(it->first)) {
+            // the id is escaped already, but for the other kind of quotes
+            size_t quote = 0;
+            while ((quote = it->second.find('"', quote)) != string::npos)
+                it->second.replace(quote, 1, "&quot;");
             if (it->second != "")
                 str = "<mws:expr url=\"" + url + "#" + (it->second) + "\">\n" +
                       (it->first) + "\n</mws:expr>\n";
@@ -344,7 +359,10 @@ std::vector<std::string> get_math_xhtml(const string& xhtml,
             xmlChar* id = xmlGetProp(
                 nodeset->nodeTab[i]->parent->parent->parent, (xmlChar*)"id");
 
-            fprintf(stream, "<mws:expr url=\"%s#%s\">\n", url.c_str(), id);
+            string anchor = url;
+            if (id != nullptr) anchor += "#" + string((char*)id);
+            fprintf(stream, "<mws:expr url=\"%s\">\n",
+                    escape_xml(anchor).c_str());
             xmlElemDump(stream, doc, nodeset->nodeTab[i]);
             fprintf(stream, "</mws:expr>\n");
             fclose(stream);
-- 
2.43.0


From af86a94d3d3aca422b475d60faf0cde0ca0af378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:14 +0000
Subject: [PATCH 75/81] fix: pages were skipped if their Content-Type was not
 written as usual

---
 src/crawler/utils/MwsGetMath.cpp | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/crawler/utils/MwsGetMath.cpp b/src/crawler/utils/MwsGetMath.cpp
index f607f4b..a88686d 100644
--- a/src/crawler/utils/MwsGetMath.cpp
+++ b/src/crawler/utils/MwsGetMath.cpp
@@ -32,6 +32,7 @@ along with MathWebSearch.  If not, see <http://www.gnu.org/licenses/>.
 #include <vector>
 #include <algorithm>
 #include <cstring>
+#include <strings.h>
 #include <iostream>
 #include <fstream>
 #include <libxml/parser.h>  // LIBXML2 library for XHTML parsing
@@ -228,6 +229,27 @@ xmlXPathObjectPtr get_XMLNodeset(xmlDocPtr doc, const xmlChar* xpath) {
 // =============== IMPLEMENTATION ================
 namespace mws {
 
+/*
+ * returns true if the header has a "Content-Type: <type>" line
+ * (field names and types are case-insensitive, spaces are optional)
+ */
+static bool hasContentType(const string& header, const string& type) {
+    const string name = "Content-Type:";
+    size_t pos = 0;
+    while (pos < header.size()) {
+        size_t end = min(header.find('\n', pos), header.size());
+        if (strncasecmp(header.c_str() + pos, name.c_str(), name.size()) == 0) {
+            size_t value = header.find_first_not_of(" \t", pos + name.size());
+            if (value != string::npos &&
+                strncasecmp(header.c_str() + value, type.c_str(),
+                            type.size()) == 0)
+                return true;
+        }
+        pos = end + 1;
+    }
+    return false;
+}
+
 // ============ HTML RELATED ================
 
 /*
@@ -235,11 +257,7 @@ namespace mws {
  * returns 1 if the header says that the page is HTML
  */
 int isHTML(Page& page) {
-    string header = page.getHeader();
-
-    // Search for "Content-Type: text/html" in the header file
-    string ctype = "Content-Type: text/html";
-    return (header.find(ctype) != string::npos);
+    return hasContentType(page.getHeader(), "text/html");
 }
 
 /*
@@ -328,9 +346,7 @@ void store_mathml_tags() {
  */
 int isXHTML(Page& page) {
     // Search for "Content-Type: application/xhtml+xml" in the header file
-    string ctype = "Content-Type: application/xhtml+xml";  // FIXME spaces can
-                                                           // easily break this
-    return (page.getHeader().find(ctype) != string::npos);
+    return hasContentType(page.getHeader(), "application/xhtml+xml");
 }
 
 /**
-- 
2.43.0


From 3c81f005a269cf271c7767c83ac8f9d824948360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:29 +0000
Subject: [PATCH 76/81] fix: elements named like apply were cut as applications

isApply() accepted every tag starting with "apply", so the first child of
any such element was kept below the cut-off.
---
 src/mws/query/SchemaEngine.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/query/SchemaEngine.cpp b/src/mws/query/SchemaEngine.cpp
index ed857ba..60d6c2e 100644
--- a/src/mws/query/SchemaEngine.cpp
+++ b/src/mws/query/SchemaEngine.cpp
@@ -355,7 +355,7 @@ pair<string, string> SchemaEngine::decodeMeaning(
 bool SchemaEngine::isApply(const encoded_token_t& tok) const {
     const types::Meaning meaning = decoder.getMeaning(tok.id);
     const string tag = decodeMeaning(meaning).first;  // .second is the content
-    return (tag.find("apply") == 0);
+    return (tag == "apply");
 }
 
 }  // namespace query
-- 
2.43.0


From 31d00b43510b2bb446321e10011888bb18b94279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:34 +0000
Subject: [PATCH 77/81] fix: indexes beyond 16 GiB were written with truncated
 offsets

memsector_get_current_offset() counts in units of 4 bytes and returned them
as a 32-bit offset, so that past 16 GiB the root and all references across
the limit were wrong and the index was refused.
---
 src/mws/index/memsector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/index/memsector.h b/src/mws/index/memsector.h
index d3f59d8..212ffa1 100644
--- a/src/mws/index/memsector.h
+++ b/src/mws/index/memsector.h
@@ -98,7 +98,7 @@ static inline const char* memsector_relOff2addr(const char* baseAddr,
     return baseAddr - MEMSECTOR_ALLOC_UNIT * off;
 }
 
-static inline memsector_off_t memsector_get_current_offset(
+static inline memsector_long_off_t memsector_get_current_offset(
     const memsector_writer_t* mswr) {
     assert(mswr->offset % MEMSECTOR_ALLOC_UNIT == 0);
     return mswr->offset / MEMSECTOR_ALLOC_UNIT;
-- 
2.43.0


From 739fcec40a8ab2bb88a2354e669063d31d35c387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:13 +0000
Subject: [PATCH 78/81] fix: the experimental engine mistook harvest variables
 for those of the query

Both are numbered from the same range, so that a query variable met itself in
a formula with variables and the formula was not found, or a repeated variable
matched different parts.
---
 src/mws/query/engine.c | 36 ++++++++++++++++++++++++++++++------
 1 file changed, 30 insertions(+), 6 deletions(-)

diff --git a/src/mws/query/engine.c b/src/mws/query/engine.c
index ee4466b..069e38e 100644
--- a/src/mws/query/engine.c
+++ b/src/mws/query/engine.c
@@ -93,6 +93,28 @@ static inline bool token_stack_empty(const token_stack_t* RESTRICT stack) {
     return (stack->size == 0);
 }
 
+/*
+ * Variables of the harvests only stand for themselves. Where they become part
+ * of an instantiation, an arity tells them from variables of the query.
+ */
+#define HARVEST_VAR_MARK 1
+
+static inline encoded_token_t mark_harvest_var(encoded_token_t index_token) {
+    if (encoded_token_is_var(index_token)) {
+        index_token.arity = HARVEST_VAR_MARK;
+    }
+    return index_token;
+}
+
+static inline encoded_token_t unmark_harvest_var(encoded_token_t token) {
+    if (encoded_token_is_var(token)) token.arity = 0;
+    return token;
+}
+
+static inline bool is_query_var(encoded_token_t token) {
+    return encoded_token_is_var(token) && token.arity != HARVEST_VAR_MARK;
+}
+
 typedef struct query_ctxt_s {
     /* query tokens and iterator */
     token_stack_t query_stack;
@@ -209,7 +231,7 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
     // otherwise get next token and find match
     encoded_token_t query_token = token_stack_pop(query);
 
-    if (encoded_token_is_var(query_token)) {  // variable query token
+    if (is_query_var(query_token)) {  // variable query token
         int var_id = encoded_token_get_id(query_token);
         if (query_ctxt->vars[var_id].solved) {  // solved
             var_instantiation_t* var = &query_ctxt->vars[var_id];
@@ -258,11 +280,12 @@ static int process_query_token(query_ctxt_t* RESTRICT query_ctxt) {
             token_stack_push(&query_ctxt->index_stack, index_token);
         } else {  // regular index
             const inode_t* curr = query_ctxt->curr_index_inode;
+            const encoded_token_t child_token = unmark_harvest_var(query_token);
             memsector_long_off_t off;
             if (curr->type == LONG_INTERNAL_NODE) {
-                off = inode_long_get_child((inode_long_t*)curr, query_token);
+                off = inode_long_get_child((inode_long_t*)curr, child_token);
             } else if (curr->type == INTERNAL_NODE) {
-                off = inode_get_child(curr, query_token);
+                off = inode_get_child(curr, child_token);
             } else {
                 assert(false);
             }
@@ -306,7 +329,7 @@ static bool instantiate_token(query_ctxt_t* query_ctxt,
     if (encoded_token_is_anon_var(encoded_token(solving_var_id, 0))) {
         return true;
     }
-    if (!encoded_token_is_var(first_token)) {
+    if (!is_query_var(first_token)) {
         token_stack_push(&var->tokens, first_token);
         return true;
     }
@@ -316,7 +339,7 @@ static bool instantiate_token(query_ctxt_t* query_ctxt,
     token_stack_push(&var_stack, first_token);
     while (!token_stack_empty(&var_stack)) {
         encoded_token_t token = token_stack_pop(&var_stack);
-        if (encoded_token_is_var(token)) {  // var
+        if (is_query_var(token)) {  // var
             uint32_t var_id = encoded_token_get_id(token);
             // check self-referencing variable
             if (var_id == solving_var_id) {
@@ -387,7 +410,8 @@ static int match_var_to_index(query_ctxt_t* RESTRICT query_ctxt,
             }
             const int prev_var_tokens = var->tokens.size;
 
-            if (instantiate_token(query_ctxt, entry_token)) {
+            if (instantiate_token(query_ctxt,
+                                  mark_harvest_var(entry_token))) {
                 // advance in the index
                 query_ctxt->curr_index_inode =
                     (inode_t*)memsector_relOff2addr((char*)curr, entry_off);
-- 
2.43.0


From 6504b486092d1f72999eaa5c45649c0d7527b601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:04 +0000
Subject: [PATCH 79/81] fix: the experimental engine answered pages beyond its
 largest total

---
 src/mws/daemon/IndexQueryHandler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mws/daemon/IndexQueryHandler.cpp b/src/mws/daemon/IndexQueryHandler.cpp
index 4058f53..09acbcb 100644
--- a/src/mws/daemon/IndexQueryHandler.cpp
+++ b/src/mws/daemon/IndexQueryHandler.cpp
@@ -119,7 +119,7 @@ static result_cb_return_t result_callback(void* _ctxt, const leaf_t* leaf) {
     const uint64_t found = result->total;
     const uint64_t hits = mwsQuery->options.includeHits ? leaf->num_hits : 1;
 
-    if (found < end && found + hits > begin) {
+    if (begin < end && found < end && found + hits > begin) {
         if (mwsQuery->options.includeHits) {
             const uint64_t first = std::max(begin, found);
             dbQueryManager->query((FormulaId)leaf->formula_id, first - found,
-- 
2.43.0


From 57dcc381ee93f1bce6befae92f8bb87627892694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:14 +0000
Subject: [PATCH 80/81] fix: documents in other encodings than UTF-8 were
 discarded or garbled

---
 src/crawler/parser/XmlParser.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/crawler/parser/XmlParser.cpp b/src/crawler/parser/XmlParser.cpp
index 44b0ccf..bb7b238 100644
--- a/src/crawler/parser/XmlParser.cpp
+++ b/src/crawler/parser/XmlParser.cpp
@@ -66,17 +66,18 @@ static void dumpNodeToText(const xmlNode* node, stringstream* stream,
 xmlDocPtr parseDocument(const char* content, int size) {
     xmlDocPtr doc;
 
-    // Try as XHTML
-    doc = xmlReadMemory(content, size, /* URL = */ "", "UTF-8",
+    // Try as XHTML, which declares its encoding, if it is not UTF-8
+    doc = xmlReadMemory(content, size, /* URL = */ "", /* encoding = */ nullptr,
                         XML_PARSE_NOWARNING | XML_PARSE_NOERROR);
     if (doc != nullptr) {
         return doc;
     }
 
-    // Try as HTML
+    // Try as HTML, whose declared encoding only counts if it is not UTF-8
     htmlParserCtxtPtr htmlParserCtxt = htmlNewParserCtxt();
     doc = htmlCtxtReadMemory(
-        htmlParserCtxt, content, size, /* URL = */ "", "UTF-8",
+        htmlParserCtxt, content, size, /* URL = */ "",
+        xmlCheckUTF8(BAD_CAST content) ? "UTF-8" : nullptr,
         HTML_PARSE_RECOVER | HTML_PARSE_NOWARNING | HTML_PARSE_NOERROR);
     htmlFreeParserCtxt(htmlParserCtxt);
     if (doc != nullptr) {
-- 
2.43.0


From 7689b6bf3310e2f03a2109432244d87aa5733f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:29 +0000
Subject: [PATCH 81/81] fix: entities declared by a document the parser gave up
 on leaked

In SAX mode libxml2 keeps declared entities in a document of its own, which it
only frees at the end of the document.
---
 src/mws/xmlparser/processMwsHarvest.cpp | 3 ++-
 src/mws/xmlparser/readMwsQuery.cpp      | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/mws/xmlparser/processMwsHarvest.cpp b/src/mws/xmlparser/processMwsHarvest.cpp
index ab76397..46a51b8 100644
--- a/src/mws/xmlparser/processMwsHarvest.cpp
+++ b/src/mws/xmlparser/processMwsHarvest.cpp
@@ -509,8 +509,9 @@ HarvestResult processHarvestFromFd(int fd, HarvestProcessor* harvestProcessor,
         }
     }
 
-    // Freeing the parser context
+    // Freeing the parser context; a stopped parser keeps declared entities
     if (ctxtPtr) {
+        if (ctxtPtr->myDoc != nullptr) xmlFreeDoc(ctxtPtr->myDoc);
         xmlFreeParserCtxt(ctxtPtr);
     }
 
diff --git a/src/mws/xmlparser/readMwsQuery.cpp b/src/mws/xmlparser/readMwsQuery.cpp
index 6756cc0..bde8e5e 100644
--- a/src/mws/xmlparser/readMwsQuery.cpp
+++ b/src/mws/xmlparser/readMwsQuery.cpp
@@ -413,7 +413,8 @@ Query* readMwsQuery(FILE* file, QueryMode mode) {
         user_data.errorDetected = true;
     }
 
-    // Freeing the parser context
+    // Freeing the parser context; a stopped parser keeps declared entities
+    if (ctxtPtr->myDoc != nullptr) xmlFreeDoc(ctxtPtr->myDoc);
     xmlFreeParserCtxt(ctxtPtr);
 
     // Unlocking libXML -- to allow multi-threaded use
-- 
2.43.0

