From 679802a0160b0d05db6fc5589aa3987d7aa7b908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:13 +0000
Subject: [PATCH 01/70] fix: do not release a previous child while the node
 still points to it

Replacing the child of a node that is part of a loop released the previous
child while the node was still reporting it: the loop detection in
ec_node_free() then counted stale references and aborted.
---
 src/ecoli_node_bypass.c |  8 ++++++--
 src/ecoli_node_cmd.c    | 20 +++++++++++++-------
 src/ecoli_node_cond.c   |  7 ++++++-
 src/ecoli_node_many.c   |  8 ++++++--
 src/ecoli_node_once.c   |  8 ++++++--
 src/ecoli_node_option.c |  8 ++++++--
 src/ecoli_node_or.c     | 15 ++++++++++-----
 src/ecoli_node_re_lex.c |  8 ++++++--
 src/ecoli_node_seq.c    | 15 ++++++++++-----
 9 files changed, 69 insertions(+), 28 deletions(-)

diff --git a/src/ecoli_node_bypass.c b/src/ecoli_node_bypass.c
index 483970b..b70e92d 100644
--- a/src/ecoli_node_bypass.c
+++ b/src/ecoli_node_bypass.c
@@ -90,6 +90,7 @@ static int ec_node_bypass_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_bypass *priv = ec_node_priv(node);
+	struct ec_node *prev;
 	const struct ec_config *child;
 
 	child = ec_config_dict_get(config, "child");
@@ -100,10 +101,13 @@ static int ec_node_bypass_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	prev = priv->child;
 	priv->child = ec_node_clone(child->node);
 
+	/* only release the previous child once it is not referenced by this
+	 * node anymore, the child may have a path to this node */
+	ec_node_free(prev);
+
 	return 0;
 
 fail:
diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index c60522f..c3067eb 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -456,10 +456,10 @@ static int ec_node_cmd_set_config(struct ec_node *node,
 {
 	struct ec_node_cmd *priv = ec_node_priv(node);
 	const struct ec_config *expr = NULL;
-	struct ec_node *cmd = NULL;
-	struct ec_node **table = NULL;
+	struct ec_node *cmd = NULL, *prev_cmd;
+	struct ec_node **table = NULL, **prev_table;
 	char *cmd_str = NULL;
-	size_t len = 0, i;
+	size_t len = 0, prev_len, i;
 
 	/* retrieve config locally */
 	expr = ec_config_dict_get(config, "expr");
@@ -483,16 +483,22 @@ static int ec_node_cmd_set_config(struct ec_node *node,
 		goto fail;
 
 	/* ok, store the config */
-	ec_node_free(priv->cmd);
+	prev_cmd = priv->cmd;
+	prev_table = priv->table;
+	prev_len = priv->len;
 	priv->cmd = cmd;
 	ec_free(priv->cmd_str);
 	priv->cmd_str = cmd_str;
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
 	priv->table = table;
 	priv->len = len;
 
+	/* only release the previous children once they are not referenced by
+	 * this node anymore, they may have a path to this node */
+	ec_node_free(prev_cmd);
+	for (i = 0; i < prev_len; i++)
+		ec_node_free(prev_table[i]);
+	ec_free(prev_table);
+
 	return 0;
 
 fail:
diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 9c07d96..cd39154 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -770,6 +770,7 @@ static int ec_node_cond_set_config(struct ec_node *node,
 	const struct ec_config *cond = NULL;
 	struct ec_pnode *parsed_cond = NULL;
 	const struct ec_config *child;
+	struct ec_node *prev;
 	char *cond_str = NULL;
 
 	cond = ec_config_dict_get(config, "expr");
@@ -796,9 +797,13 @@ static int ec_node_cond_set_config(struct ec_node *node,
 	priv->parsed_cond = parsed_cond;
 	ec_free(priv->cond_str);
 	priv->cond_str = cond_str;
-	ec_node_free(priv->child);
+	prev = priv->child;
 	priv->child = ec_node_clone(child->node);
 
+	/* only release the previous child once it is not referenced by this
+	 * node anymore, the child may have a path to this node */
+	ec_node_free(prev);
+
 	return 0;
 
 fail:
diff --git a/src/ecoli_node_many.c b/src/ecoli_node_many.c
index c13b2f1..0a26f81 100644
--- a/src/ecoli_node_many.c
+++ b/src/ecoli_node_many.c
@@ -209,6 +209,7 @@ static int ec_node_many_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_many *priv = ec_node_priv(node);
+	struct ec_node *prev;
 	const struct ec_config *child, *min, *max;
 
 	child = ec_config_dict_get(config, "child");
@@ -231,8 +232,7 @@ static int ec_node_many_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	prev = priv->child;
 	priv->child = ec_node_clone(child->node);
 	if (min == NULL)
 		priv->min = 0;
@@ -243,6 +243,10 @@ static int ec_node_many_set_config(struct ec_node *node,
 	else
 		priv->max = max->u64;
 
+	/* only release the previous child once it is not referenced by this
+	 * node anymore, the child may have a path to this node */
+	ec_node_free(prev);
+
 	return 0;
 
 fail:
diff --git a/src/ecoli_node_once.c b/src/ecoli_node_once.c
index 6a4b045..69d98e1 100644
--- a/src/ecoli_node_once.c
+++ b/src/ecoli_node_once.c
@@ -132,6 +132,7 @@ static int ec_node_once_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_once *priv = ec_node_priv(node);
+	struct ec_node *prev;
 	const struct ec_config *child;
 
 	child = ec_config_dict_get(config, "child");
@@ -142,10 +143,13 @@ static int ec_node_once_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	prev = priv->child;
 	priv->child = ec_node_clone(child->node);
 
+	/* only release the previous child once it is not referenced by this
+	 * node anymore, the child may have a path to this node */
+	ec_node_free(prev);
+
 	return 0;
 
 fail:
diff --git a/src/ecoli_node_option.c b/src/ecoli_node_option.c
index bcb280a..1ec0727 100644
--- a/src/ecoli_node_option.c
+++ b/src/ecoli_node_option.c
@@ -98,6 +98,7 @@ static int ec_node_option_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_option *priv = ec_node_priv(node);
+	struct ec_node *prev;
 	const struct ec_config *child;
 
 	child = ec_config_dict_get(config, "child");
@@ -108,10 +109,13 @@ static int ec_node_option_set_config(struct ec_node *node,
 		goto fail;
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	prev = priv->child;
 	priv->child = ec_node_clone(child->node);
 
+	/* only release the previous child once it is not referenced by this
+	 * node anymore, the child may have a path to this node */
+	ec_node_free(prev);
+
 	return 0;
 
 fail:
diff --git a/src/ecoli_node_or.c b/src/ecoli_node_or.c
index c918160..6fcbaf0 100644
--- a/src/ecoli_node_or.c
+++ b/src/ecoli_node_or.c
@@ -105,20 +105,25 @@ static int ec_node_or_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_or *priv = ec_node_priv(node);
-	struct ec_node **table = NULL;
-	size_t i, len = 0;
+	struct ec_node **table = NULL, **prev_table;
+	size_t i, len = 0, prev_len;
 
 	table = ec_node_config_node_list_to_table(
 		ec_config_dict_get(config, "children"), &len);
 	if (table == NULL)
 		return -1;
 
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
+	prev_table = priv->table;
+	prev_len = priv->len;
 	priv->table = table;
 	priv->len = len;
 
+	/* only release the previous children once they are not referenced by
+	 * this node anymore, they may have a path to this node */
+	for (i = 0; i < prev_len; i++)
+		ec_node_free(prev_table[i]);
+	ec_free(prev_table);
+
 	return 0;
 }
 
diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index e8a9cbd..2567954 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -256,6 +256,7 @@ static int ec_node_re_lex_set_config(struct ec_node *node,
 {
 	struct ec_node_re_lex *priv = ec_node_priv(node);
 	struct regexp_pattern *table = NULL;
+	struct ec_node *prev;
 	const struct ec_config *patterns, *child, *elt, *pattern, *keep, *attr;
 	char *pattern_str = NULL, *attr_name = NULL;
 	ssize_t i, n = 0;
@@ -339,8 +340,7 @@ static int ec_node_re_lex_set_config(struct ec_node *node,
 		}
 	}
 
-	if (priv->child != NULL)
-		ec_node_free(priv->child);
+	prev = priv->child;
 	priv->child = ec_node_clone(child->node);
 	for (i = 0; i < (ssize_t)priv->len; i++) {
 		ec_free(priv->table[i].pattern);
@@ -351,6 +351,10 @@ static int ec_node_re_lex_set_config(struct ec_node *node,
 	priv->table = table;
 	priv->len = n;
 
+	/* only release the previous child once it is not referenced by this
+	 * node anymore, the child may have a path to this node */
+	ec_node_free(prev);
+
 	return 0;
 
 fail:
diff --git a/src/ecoli_node_seq.c b/src/ecoli_node_seq.c
index 4afdc20..4a8d9f2 100644
--- a/src/ecoli_node_seq.c
+++ b/src/ecoli_node_seq.c
@@ -191,20 +191,25 @@ static int ec_node_seq_set_config(struct ec_node *node,
 				const struct ec_config *config)
 {
 	struct ec_node_seq *priv = ec_node_priv(node);
-	struct ec_node **table = NULL;
-	size_t i, len = 0;
+	struct ec_node **table = NULL, **prev_table;
+	size_t i, len = 0, prev_len;
 
 	table = ec_node_config_node_list_to_table(
 		ec_config_dict_get(config, "children"), &len);
 	if (table == NULL)
 		return -1;
 
-	for (i = 0; i < priv->len; i++)
-		ec_node_free(priv->table[i]);
-	ec_free(priv->table);
+	prev_table = priv->table;
+	prev_len = priv->len;
 	priv->table = table;
 	priv->len = len;
 
+	/* only release the previous children once they are not referenced by
+	 * this node anymore, they may have a path to this node */
+	for (i = 0; i < prev_len; i++)
+		ec_node_free(prev_table[i]);
+	ec_free(prev_table);
+
 	return 0;
 }
 
-- 
2.43.0


From e4892fe1faec9ee035d12ee4f1d65b7353d540ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:13 +0000
Subject: [PATCH 02/70] fix: keep a node reachable from an unfreeable node when
 releasing a graph

A node already marked as unfreeable because it is reachable from an
unfreeable one was marked as freeable again when also reached through a
freeable one, and was released while still in use.
---
 src/ecoli_node.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index 5fbeab4..38a8b13 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -187,6 +187,10 @@ static void mark_freeable(struct ec_node *node, enum ec_node_free_state mark)
 	if (mark == node->free.state)
 		return;
 
+	/* already reached from an unfreeable node */
+	if (node->free.state == EC_NODE_FREE_STATE_NOT_FREEABLE)
+		return;
+
 	if (node->refcnt > node->free.refcnt)
 		mark = EC_NODE_FREE_STATE_NOT_FREEABLE;
 	assert(node->refcnt >= node->free.refcnt);
-- 
2.43.0


From 12fe67c24d4af8876760bda36067f4d1a5cd9adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:13 +0000
Subject: [PATCH 03/70] fix: do not release the child twice when
 ec_node_{seq,or}_add() fails

---
 src/ecoli_node_or.c  | 1 +
 src/ecoli_node_seq.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/ecoli_node_or.c b/src/ecoli_node_or.c
index 6fcbaf0..e15f18c 100644
--- a/src/ecoli_node_or.c
+++ b/src/ecoli_node_or.c
@@ -199,6 +199,7 @@ int ec_node_or_add(struct ec_node *node, struct ec_node *child)
 		child = NULL;
 		goto fail;
 	}
+	child = NULL; /* now owned by the config */
 
 	ret = ec_node_set_config(node, config);
 	config = NULL; /* freed */
diff --git a/src/ecoli_node_seq.c b/src/ecoli_node_seq.c
index 4a8d9f2..997daa2 100644
--- a/src/ecoli_node_seq.c
+++ b/src/ecoli_node_seq.c
@@ -285,6 +285,7 @@ int ec_node_seq_add(struct ec_node *node, struct ec_node *child)
 		child = NULL;
 		goto fail;
 	}
+	child = NULL; /* now owned by the config */
 
 	ret = ec_node_set_config(node, config);
 	config = NULL; /* freed */
-- 
2.43.0


From c02df02d67994ff6be0f21085d1e6da81c2009b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:13 +0000
Subject: [PATCH 04/70] fix: report failures to set the child in
 ec_node_{option,once,bypass}()

---
 src/ecoli_node_bypass.c | 6 +++++-
 src/ecoli_node_once.c   | 6 +++++-
 src/ecoli_node_option.c | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_node_bypass.c b/src/ecoli_node_bypass.c
index b70e92d..9a53ccc 100644
--- a/src/ecoli_node_bypass.c
+++ b/src/ecoli_node_bypass.c
@@ -176,12 +176,16 @@ struct ec_node *ec_node_bypass(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_bypass_set_child(node, child);
+	if (ec_node_bypass_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
diff --git a/src/ecoli_node_once.c b/src/ecoli_node_once.c
index 69d98e1..5134caf 100644
--- a/src/ecoli_node_once.c
+++ b/src/ecoli_node_once.c
@@ -218,12 +218,16 @@ struct ec_node *ec_node_once(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_once_set_child(node, child);
+	if (ec_node_once_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
diff --git a/src/ecoli_node_option.c b/src/ecoli_node_option.c
index 1ec0727..f4ad272 100644
--- a/src/ecoli_node_option.c
+++ b/src/ecoli_node_option.c
@@ -184,12 +184,16 @@ struct ec_node *ec_node_option(const char *id, struct ec_node *child)
 	if (node == NULL)
 		goto fail;
 
-	ec_node_option_set_child(node, child);
+	if (ec_node_option_set_child(node, child) < 0) {
+		child = NULL; /* freed */
+		goto fail;
+	}
 	child = NULL;
 
 	return node;
 
 fail:
+	ec_node_free(node);
 	ec_node_free(child);
 	return NULL;
 }
-- 
2.43.0


From c2d5c0c3c91a91c30a1f649edef39c7755be7354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:25 +0000
Subject: [PATCH 05/70] fix: keep only the nodes of the best result when
 parsing a subset

When several combinations of children match, parse nodes of the discarded
tries remained in the parse tree, in the wrong order.
---
 src/ecoli_node_subset.c | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index ce22a64..32f8657 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -33,6 +33,25 @@ struct parse_result {
 	size_t len;                 /* consumed strings */
 };
 
+/* move the children of "from" located after "prev" (all if NULL) to "to" */
+static void
+move_children(struct ec_pnode *to, struct ec_pnode *from,
+	const struct ec_pnode *prev)
+{
+	struct ec_pnode *child;
+
+	while (1) {
+		if (prev == NULL)
+			child = ec_pnode_get_first_child(from);
+		else
+			child = ec_pnode_next(prev);
+		if (child == NULL)
+			break;
+		ec_pnode_unlink_child(child);
+		ec_pnode_link_child(to, child);
+	}
+}
+
 /* recursively find the longest list of nodes that matches: the state is
  * updated accordingly. */
 static int
@@ -45,6 +64,7 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 	size_t i, j, len = 0;
 	struct parse_result best_result, result;
 	struct ec_pnode *best_parse = NULL;
+	struct ec_pnode *prev_last;
 	int ret;
 
 	if (table_len == 0)
@@ -56,6 +76,14 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 	if (child_table == NULL)
 		goto fail;
 
+	/* holds the parse nodes of the best result found so far */
+	best_parse = ec_pnode(NULL);
+	if (best_parse == NULL)
+		goto fail;
+
+	/* the nodes added after this one belong to the current try */
+	prev_last = ec_pnode_get_last_child(pstate);
+
 	for (i = 0; i < table_len; i++) {
 		/* try to parse elt i */
 		ret = ec_parse_child(table[i], pstate, strvec);
@@ -91,14 +119,14 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 		/* if result is not the best, ignore */
 		if (result.parse_len < best_result.parse_len) {
 			memset(&result, 0, sizeof(result));
-			ec_pnode_del_last_child(pstate);
+			while (ec_pnode_get_last_child(pstate) != prev_last)
+				ec_pnode_del_last_child(pstate);
 			continue;
 		}
 
 		/* replace the previous best result */
-		ec_pnode_free(best_parse);
-		best_parse = ec_pnode_get_last_child(pstate);
-		ec_pnode_unlink_child(best_parse);
+		ec_pnode_free_children(best_parse);
+		move_children(best_parse, pstate, prev_last);
 
 		best_result.parse_len = result.parse_len + 1;
 		best_result.len = len + result.len;
@@ -108,8 +136,8 @@ __ec_node_subset_parse(struct parse_result *out, struct ec_node **table,
 
 	*out = best_result;
 	ec_free(child_table);
-	if (best_parse != NULL)
-		ec_pnode_link_child(pstate, best_parse);
+	move_children(pstate, best_parse, NULL);
+	ec_pnode_free(best_parse);
 
 	return 0;
 
-- 
2.43.0


From 1a0075854f4b00f99be61eefcc4fa8c362258a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:25 +0000
Subject: [PATCH 06/70] fix: do not modify the subset node while completing

---
 src/ecoli_node_subset.c | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index 32f8657..454a44c 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -256,9 +256,22 @@ ec_node_subset_complete(const struct ec_node *node,
 			const struct ec_strvec *strvec)
 {
 	struct ec_node_subset *priv = ec_node_priv(node);
+	struct ec_node **table;
+	size_t i;
+	int ret;
+
+	/* work on a copy: the table is modified during completion, and
+	 * the node can be used again by its descendants or callbacks */
+	table = ec_calloc(priv->len, sizeof(*table));
+	if (table == NULL)
+		return -1;
+	for (i = 0; i < priv->len; i++)
+		table[i] = priv->table[i];
 
-	return __ec_node_subset_complete(priv->table, priv->len, comp,
-					strvec);
+	ret = __ec_node_subset_complete(table, priv->len, comp, strvec);
+	ec_free(table);
+
+	return ret;
 }
 
 static void ec_node_subset_free_priv(struct ec_node *node)
-- 
2.43.0


From 9fc3745ae0e0df40b949376c76ad669f49bee6c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:25 +0000
Subject: [PATCH 07/70] fix: do not release the child twice when
 ec_node_subset() fails

---
 src/ecoli_node_subset.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_subset.c b/src/ecoli_node_subset.c
index 454a44c..4844d53 100644
--- a/src/ecoli_node_subset.c
+++ b/src/ecoli_node_subset.c
@@ -367,10 +367,11 @@ struct ec_node *__ec_node_subset(const char *id, ...)
 	     child = va_arg(ap, struct ec_node *)) {
 
 		/* on error, don't quit the loop to avoid leaks */
-		if (fail == 1 || child == NULL ||
-				ec_node_subset_add(node, child) < 0) {
+		if (fail == 1 || child == NULL) {
 			fail = 1;
 			ec_node_free(child);
+		} else if (ec_node_subset_add(node, child) < 0) {
+			fail = 1; /* child is freed on error */
 		}
 	}
 
-- 
2.43.0


From 148e9b0bc4a171ee4305f1de9f0bcb8a0c8a48f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:29 +0000
Subject: [PATCH 08/70] fix: report an error when parsing or completing with an
 unconfigured node

---
 src/ecoli_complete.c | 6 ++++++
 src/ecoli_node_re.c  | 5 +++++
 src/ecoli_parse.c    | 6 ++++++
 3 files changed, 17 insertions(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 40326ef..6637181 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -108,6 +108,12 @@ ec_complete_child(const struct ec_node *node,
 	ec_complete_t complete_cb;
 	int ret;
 
+	/* the child of a node that is not configured */
+	if (node == NULL) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	/* get the complete method, falling back to ec_complete_unknown() */
 	complete_cb = ec_node_type(node)->complete;
 	if (complete_cb == NULL)
diff --git a/src/ecoli_node_re.c b/src/ecoli_node_re.c
index 8633501..fcc2c0e 100644
--- a/src/ecoli_node_re.c
+++ b/src/ecoli_node_re.c
@@ -36,6 +36,11 @@ ec_node_re_parse(const struct ec_node *node,
 
 	(void)pstate;
 
+	if (priv->re_str == NULL) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	if (ec_strvec_len(strvec) == 0)
 		return EC_PARSE_NOMATCH;
 
diff --git a/src/ecoli_parse.c b/src/ecoli_parse.c
index e4153c0..9705507 100644
--- a/src/ecoli_parse.c
+++ b/src/ecoli_parse.c
@@ -43,6 +43,12 @@ static int __ec_parse_child(const struct ec_node *node,
 
 	// XXX limit max number of recursions to avoid segfault
 
+	/* the child of a node that is not configured */
+	if (node == NULL) {
+		errno = EINVAL;
+		return -1;
+	}
+
 	if (ec_node_type(node)->parse == NULL) {
 		errno = ENOTSUP;
 		return -1;
-- 
2.43.0


From b0647fc1d5c97cbd969b98f4b57d35c052303311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:04:35 +0000
Subject: [PATCH 09/70] fix: do not ignore the minimum of an integer node
 without maximum

---
 src/ecoli_node_int.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_int.c b/src/ecoli_node_int.c
index 58c5f5a..3dd8b44 100644
--- a/src/ecoli_node_int.c
+++ b/src/ecoli_node_int.c
@@ -156,7 +156,7 @@ static int ec_node_int_set_config(struct ec_node *node,
 		priv->check_max = true;
 		priv->max = max_value->i64;
 	} else {
-		priv->check_min = false;
+		priv->check_max = false;
 	}
 	if (base_value != NULL)
 		priv->base = base_value->u64;
@@ -268,7 +268,7 @@ static int ec_node_uint_set_config(struct ec_node *node,
 		priv->check_max = true;
 		priv->max = max_value->u64;
 	} else {
-		priv->check_min = false;
+		priv->check_max = false;
 	}
 	if (base_value != NULL)
 		priv->base = base_value->u64;
-- 
2.43.0


From cbae4cc34388007986a1dbe88602d1809cb49cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:07:31 +0000
Subject: [PATCH 10/70] fix: do not recurse infinitely in ec_node_find() if the
 graph has loops

---
 src/ecoli_node.c | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index 38a8b13..de8c39d 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -334,7 +334,7 @@ const struct ec_config *ec_node_get_config(struct ec_node *node)
 	return node->config;
 }
 
-struct ec_node *ec_node_find(struct ec_node *node, const char *id)
+static struct ec_node *__ec_node_find(struct ec_node *node, const char *id)
 {
 	struct ec_node *child, *retnode;
 	const char *node_id = ec_node_id(node);
@@ -342,14 +342,20 @@ struct ec_node *ec_node_find(struct ec_node *node, const char *id)
 	size_t i, n;
 	int ret;
 
+	/* already visited, there can be loops in the node graph */
+	if (node->free.state != EC_NODE_FREE_STATE_NONE)
+		return NULL;
+
 	if (id != NULL && node_id != NULL && !strcmp(node_id, id))
 		return node;
 
+	node->free.state = EC_NODE_FREE_STATE_TRAVERSED;
+
 	n = ec_node_get_children_count(node);
 	for (i = 0; i < n; i++) {
 		ret = ec_node_get_child(node, i, &child, &refs);
 		assert(ret == 0);
-		retnode = ec_node_find(child, id);
+		retnode = __ec_node_find(child, id);
 		if (retnode != NULL)
 			return retnode;
 	}
@@ -357,6 +363,16 @@ struct ec_node *ec_node_find(struct ec_node *node, const char *id)
 	return NULL;
 }
 
+struct ec_node *ec_node_find(struct ec_node *node, const char *id)
+{
+	struct ec_node *retnode;
+
+	retnode = __ec_node_find(node, id);
+	reset_mark(node);
+
+	return retnode;
+}
+
 const struct ec_node_type *ec_node_type(const struct ec_node *node)
 {
 	return node->type;
-- 
2.43.0


From a901f35c4933c637282ed0c8e51086538420f24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:40 +0000
Subject: [PATCH 11/70] fix: do not loop infinitely when iterating on
 completion items

If no item of the next group has the requested type, the iterator never
moved to the following group.
---
 src/ecoli_complete.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 6637181..d9a2bec 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -658,6 +658,7 @@ __ec_comp_iter_next(const struct ec_comp *comp, struct ec_comp_item *item,
 			if (cur_match->type & type)
 				return cur_match;
 		}
+		cur_grp = TAILQ_NEXT(cur_grp, next);
 	}
 
 	return NULL;
-- 
2.43.0


From 369308778371114b72aec97ddbb4bcd0fe009751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:09:30 +0000
Subject: [PATCH 12/70] fix: do not recurse infinitely when the child of many
 matches nothing

---
 src/ecoli_node_many.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_many.c b/src/ecoli_node_many.c
index 0a26f81..a132f5e 100644
--- a/src/ecoli_node_many.c
+++ b/src/ecoli_node_many.c
@@ -100,8 +100,8 @@ __ec_node_many_complete(struct ec_node_many *priv, unsigned int max,
 		max--;
 
 	/* then, if the node matches the beginning of the strvec, try to
-	 * complete the rest */
-	for (i = 0; i < ec_strvec_len(strvec); i++) {
+	 * complete the rest (like in parse, an empty match is not repeated) */
+	for (i = 1; i < ec_strvec_len(strvec); i++) {
 		childvec = ec_strvec_ndup(strvec, 0, i);
 		if (childvec == NULL)
 			goto fail;
-- 
2.43.0


From 09b4e6efa51ca541403b2239681d9c02f72c21fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:05 +0000
Subject: [PATCH 13/70] fix: do not release the node twice when building a node
 list fails

---
 src/ecoli_node_helper.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_helper.c b/src/ecoli_node_helper.c
index 7440565..06e4241 100644
--- a/src/ecoli_node_helper.c
+++ b/src/ecoli_node_helper.c
@@ -80,8 +80,10 @@ ec_node_config_node_list_from_vargs(va_list ap)
 		if (node == NULL)
 			goto fail;
 
-		if (ec_config_list_add(list, ec_config_node(node)) < 0)
+		if (ec_config_list_add(list, ec_config_node(node)) < 0) {
+			node = NULL; /* freed */
 			goto fail;
+		}
 	}
 
 	return list;
-- 
2.43.0


From 0781a1608d0656a75161ffd5ec680da31b538d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:05 +0000
Subject: [PATCH 14/70] fix: do not loop infinitely in a regexp lexer without
 pattern

---
 src/ecoli_node_re_lex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 2567954..a744261 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -61,6 +61,7 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 
 	len = strlen(dup);
 	while (off < len) {
+		ret = -1; /* no match */
 		for (i = 0; i < table_len; i++) {
 			ret = regexec(&table[i].r, &dup[off], 1, &pos, 0);
 			if (ret != 0)
-- 
2.43.0


From dd59b5545676789a959e5445200afe207bd2a330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:05 +0000
Subject: [PATCH 15/70] fix: release the token attributes if the regexp lexer
 fails

---
 src/ecoli_node_re_lex.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index a744261..33fbc90 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -111,6 +111,7 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 
 fail:
 	ec_free(dup);
+	ec_dict_free(attrs);
 	ec_strvec_free(strvec);
 	return NULL;
 }
-- 
2.43.0


From 2eaad6643bd0c61d655ecdf0a909f7e086b28f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:05 +0000
Subject: [PATCH 16/70] fix: do not fail if a lexer node matches an empty
 string vector

---
 src/ecoli_node_re_lex.c | 3 ++-
 src/ecoli_node_sh_lex.c | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index 33fbc90..fef1c95 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -146,7 +146,8 @@ ec_node_re_lex_parse(const struct ec_node *node,
 		goto fail;
 
 	if ((unsigned)ret == ec_strvec_len(new_vec)) {
-		ret = 1;
+		/* the whole string is consumed, if any */
+		ret = ec_strvec_len(strvec) == 0 ? 0 : 1;
 	} else if (ret != EC_PARSE_NOMATCH) {
 		child_parse = ec_pnode_get_last_child(pstate);
 		ec_pnode_unlink_child(child_parse);
diff --git a/src/ecoli_node_sh_lex.c b/src/ecoli_node_sh_lex.c
index 935ae32..c5fdab9 100644
--- a/src/ecoli_node_sh_lex.c
+++ b/src/ecoli_node_sh_lex.c
@@ -54,7 +54,8 @@ ec_node_sh_lex_parse(const struct ec_node *node,
 		goto fail;
 
 	if ((unsigned)ret == ec_strvec_len(new_vec)) {
-		ret = 1;
+		/* the whole string is consumed, if any */
+		ret = ec_strvec_len(strvec) == 0 ? 0 : 1;
 	} else if (ret != EC_PARSE_NOMATCH) {
 		child_parse = ec_pnode_get_last_child(pstate);
 		ec_pnode_unlink_child(child_parse);
-- 
2.43.0


From 4eb5ff2905b12ad8322151128de86104b64c80d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:49 +0000
Subject: [PATCH 17/70] fix: check allocation of the arguments when evaluating
 a condition

---
 src/ecoli_node_cond.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index cd39154..47b6205 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -616,7 +616,7 @@ eval_condition(const struct ec_pnode *cond, const struct ec_pnode *pstate)
 {
 	const struct ec_pnode *iter;
 	struct cond_result *res = NULL;
-	struct cond_result **args = NULL;
+	struct cond_result **args = NULL, **new_args;
 	const struct ec_pnode *func = NULL, *func_name = NULL, *arg_list = NULL;
 	const struct ec_pnode *value = NULL;
 	const char *id;
@@ -635,7 +635,11 @@ eval_condition(const struct ec_pnode *cond, const struct ec_pnode *pstate)
 
 		iter = ec_pnode_find((void *)arg_list, "id_arg");
 		while (iter != NULL) {
-			args = ec_realloc(args, (n_arg + 1) * sizeof(*args));
+			new_args = ec_realloc(args,
+					(n_arg + 1) * sizeof(*args));
+			if (new_args == NULL)
+				goto fail;
+			args = new_args;
 			args[n_arg] = eval_condition(iter, pstate);
 			if (args[n_arg] == NULL)
 				goto fail;
-- 
2.43.0


From 8552cf934711ca5478382fe03f1636ff9e1d61c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:49 +0000
Subject: [PATCH 18/70] fix: evaluate a condition if and only if its child
 matches

When the child did not match, the condition was evaluated anyway, and a
parsing node that does not exist was removed if it was false. When the
child matched an empty string vector, the condition was ignored.
---
 src/ecoli_node_cond.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 47b6205..17dc395 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -710,7 +710,7 @@ ec_node_cond_parse(const struct ec_node *node, struct ec_pnode *pstate,
 	int ret, valid;
 
 	ret = ec_parse_child(priv->child, pstate, strvec);
-	if (ret <= 0)
+	if (ret < 0 || ret == EC_PARSE_NOMATCH)
 		return ret;
 
 	valid = validate_condition(priv->parsed_cond, pstate);
-- 
2.43.0


From d31c0766181018af5dba58aa6f60fb74bfc433e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:49 +0000
Subject: [PATCH 19/70] fix: consider equal two node sets that contain the same
 nodes

The keys of a node set are not associated to a value, so ec_htable_get()
always returns NULL.
---
 src/ecoli_node_cond.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index 17dc395..de26c95 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -522,10 +522,10 @@ eval_cmp(const struct ec_pnode *pstate, struct cond_result **in,
 		eq = true;
 		for (iter = ec_htable_iter(in[1]->htable);
 		     iter != NULL; iter = ec_htable_iter_next(iter)) {
-			if (ec_htable_get(
+			if (!ec_htable_has_key(
 					in[2]->htable,
 					ec_htable_iter_get_key(iter),
-					sizeof(struct ec_pnode *)) == NULL) {
+					sizeof(struct ec_pnode *))) {
 				eq = false;
 				break;
 			}
-- 
2.43.0


From 5aba7470e3ab4710060faff9bef7e5d71c818e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:49 +0000
Subject: [PATCH 20/70] fix: release the child of a condition node

It is referenced twice by the condition node, so a graph with a loop
through a condition node was never released.
---
 src/ecoli_node_cond.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_cond.c b/src/ecoli_node_cond.c
index de26c95..3815042 100644
--- a/src/ecoli_node_cond.c
+++ b/src/ecoli_node_cond.c
@@ -788,8 +788,10 @@ static int ec_node_cond_set_config(struct ec_node *node,
 		goto fail;
 
 	child = ec_config_dict_get(config, "child");
-	if (child == NULL)
+	if (child == NULL) {
+		errno = EINVAL;
 		goto fail;
+	}
 
 	/* parse expression to build the cmd child node */
 	parsed_cond = ec_node_cond_build(cond_str);
@@ -836,7 +838,9 @@ ec_node_cond_get_child(const struct ec_node *node, size_t i,
 		return -1;
 
 	*child = priv->child;
-	*refs = 1;
+	/* The child node is referenced twice: once in the config and once in
+	 * the priv structure. */
+	*refs = 2;
 	return 0;
 }
 
-- 
2.43.0


From 5c29af0b94a685ea90ddcd7bc2496819af6f1b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:13 +0000
Subject: [PATCH 21/70] fix: report failures to build the expression node

The build error was ignored, and the previously built node was lost. If
the second allocation failed when adding parenthesis, the table of
opening nodes was released but still used.
---
 src/ecoli_node_expr.c | 52 ++++++++++++++++++++++++++-----------------
 1 file changed, 32 insertions(+), 20 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 1348a29..162859a 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -98,22 +98,15 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 {
 	struct ec_node *term = NULL, *expr = NULL, *next = NULL,
 		*pre_op = NULL, *post_op = NULL, *ref = NULL,
-		*post = NULL;
+		*post = NULL, *prev;
 	unsigned int i;
 
-	ec_node_free(priv->child);
-	priv->child = NULL;
-
-	if (priv->val_node == NULL) {
-		errno = EINVAL;
-		return -1;
-	}
-
+	/* the configuration is not complete yet */
+	if (priv->val_node == NULL)
+		return 0;
 	if (priv->bin_ops_len == 0 && priv->pre_ops_len == 0 &&
-			priv->post_ops_len == 0) {
-		errno = EINVAL;
-		return -1;
-	}
+			priv->post_ops_len == 0)
+		return 0;
 
 	/*
 	 * Example of created grammar:
@@ -208,7 +201,9 @@ static int ec_node_expr_build(struct ec_node_expr *priv)
 	ec_node_free(ref);
 	ref = NULL;
 
+	prev = priv->child;
 	priv->child = expr;
+	ec_node_free(prev);
 
 	return 0;
 
@@ -262,6 +257,7 @@ EC_NODE_TYPE_REGISTER(ec_node_expr_type);
 int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
+	struct ec_node *prev;
 
 	if (ec_node_check_type(node, &ec_node_expr_type) < 0)
 		goto fail;
@@ -271,9 +267,13 @@ int ec_node_expr_set_val_node(struct ec_node *node, struct ec_node *val_node)
 		goto fail;
 	}
 
-	ec_node_free(priv->val_node);
+	prev = priv->val_node;
 	priv->val_node = val_node;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->val_node = prev;
+		goto fail;
+	}
+	ec_node_free(prev);
 
 	return 0;
 
@@ -304,7 +304,10 @@ int ec_node_expr_add_bin_op(struct ec_node *node, struct ec_node *op)
 	priv->bin_ops = bin_ops;
 	bin_ops[priv->bin_ops_len] = op;
 	priv->bin_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->bin_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -335,7 +338,10 @@ int ec_node_expr_add_pre_op(struct ec_node *node, struct ec_node *op)
 	priv->pre_ops = pre_ops;
 	pre_ops[priv->pre_ops_len] = op;
 	priv->pre_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->pre_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -366,7 +372,10 @@ int ec_node_expr_add_post_op(struct ec_node *node, struct ec_node *op)
 	priv->post_ops = post_ops;
 	post_ops[priv->post_ops_len] = op;
 	priv->post_ops_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->post_ops_len--;
+		goto fail;
+	}
 
 	return 0;
 
@@ -394,17 +403,20 @@ int ec_node_expr_add_parenthesis(struct ec_node *node,
 		(priv->paren_len + 1) * sizeof(*priv->open_ops));
 	if (open_ops == NULL)
 		goto fail;
+	priv->open_ops = open_ops;
 	close_ops = ec_realloc(priv->close_ops,
 		(priv->paren_len + 1) * sizeof(*priv->close_ops));
 	if (close_ops == NULL)
 		goto fail;
 
-	priv->open_ops = open_ops;
 	priv->close_ops = close_ops;
 	open_ops[priv->paren_len] = open;
 	close_ops[priv->paren_len] = close;
 	priv->paren_len++;
-	ec_node_expr_build(priv);
+	if (ec_node_expr_build(priv) < 0) {
+		priv->paren_len--;
+		goto fail;
+	}
 
 	return 0;
 
-- 
2.43.0


From 5a129fad9a8dbc0efd79084e86a0ff5ad36b959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:13 +0000
Subject: [PATCH 22/70] fix: release expression nodes that are part of a loop

The configuration nodes are referenced by the expression node, they have
to be listed in its children: else, a graph with a loop through one of
them is never released.
---
 src/ecoli_node_expr.c | 54 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 47 insertions(+), 7 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 162859a..702daa0 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -223,9 +223,16 @@ ec_node_expr_get_children_count(const struct ec_node *node)
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
 
+	size_t n;
+
+	n = priv->bin_ops_len + priv->pre_ops_len + priv->post_ops_len +
+		2 * priv->paren_len;
 	if (priv->child)
-		return 1;
-	return 0;
+		n++;
+	if (priv->val_node)
+		n++;
+
+	return n;
 }
 
 static int
@@ -234,12 +241,45 @@ ec_node_expr_get_child(const struct ec_node *node, size_t i,
 {
 	struct ec_node_expr *priv = ec_node_priv(node);
 
-	if (i >= 1)
-		return -1;
-
-	*child = priv->child;
 	*refs = 1;
-	return 0;
+
+	/* the built node */
+	if (priv->child != NULL && i-- == 0) {
+		*child = priv->child;
+		return 0;
+	}
+
+	/* the configuration nodes are also referenced by the expr node */
+	if (priv->val_node != NULL && i-- == 0) {
+		*child = priv->val_node;
+		return 0;
+	}
+	if (i < priv->bin_ops_len) {
+		*child = priv->bin_ops[i];
+		return 0;
+	}
+	i -= priv->bin_ops_len;
+	if (i < priv->pre_ops_len) {
+		*child = priv->pre_ops[i];
+		return 0;
+	}
+	i -= priv->pre_ops_len;
+	if (i < priv->post_ops_len) {
+		*child = priv->post_ops[i];
+		return 0;
+	}
+	i -= priv->post_ops_len;
+	if (i < priv->paren_len) {
+		*child = priv->open_ops[i];
+		return 0;
+	}
+	i -= priv->paren_len;
+	if (i < priv->paren_len) {
+		*child = priv->close_ops[i];
+		return 0;
+	}
+
+	return -1;
 }
 
 static struct ec_node_type ec_node_expr_type = {
-- 
2.43.0


From 998c468db843d4fb9aa90358660bdfe423a4828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:13 +0000
Subject: [PATCH 23/70] fix: release the intermediate nodes when building a
 command fails

---
 src/ecoli_node_cmd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index c3067eb..7bbf614 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -260,7 +260,7 @@ static void
 ec_node_cmd_eval_free(void *result, void *userctx)
 {
 	(void)userctx;
-	ec_free(result);
+	ec_node_free(result);
 }
 
 static const struct ec_node_expr_eval_ops expr_ops = {
-- 
2.43.0


From 0c3c6b085620db849172f4efa57a753e13277d67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:13 +0000
Subject: [PATCH 24/70] fix: check that parenthesis are added to the command
 parser

---
 src/ecoli_node_cmd.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 7bbf614..b8f116f 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -305,7 +305,7 @@ ec_node_cmd_build_expr(void)
 		ec_node_str(EC_NO_ID, "]"));
 	if (ret < 0)
 		goto fail;
-	ec_node_expr_add_parenthesis(expr, ec_node_str(EC_NO_ID, "("),
+	ret = ec_node_expr_add_parenthesis(expr, ec_node_str(EC_NO_ID, "("),
 		ec_node_str(EC_NO_ID, ")"));
 	if (ret < 0)
 		goto fail;
-- 
2.43.0


From 06b8f05a2032109b43528eae852db6db9e532cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:13 +0000
Subject: [PATCH 25/70] fix: do not modify the user nodes when building a
 command

If a node referenced in the command was a sequence, an or, or a subset,
the other operand was added to the user node, altering it and possibly
creating a loop.
---
 src/ecoli_node_cmd.c | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index b8f116f..a335d4f 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -7,6 +7,7 @@
 #include <stdlib.h>
 #include <string.h>
 #include <stdarg.h>
+#include <stdbool.h>
 #include <errno.h>
 
 #include <ecoli_init.h>
@@ -137,6 +138,23 @@ ec_node_cmd_eval_post_op(void **result, void *userctx, void *operand,
 	return 0;
 }
 
+/* Return true if the node was created with this type while building the
+ * command, i.e. if it is not a node provided by the user, which must not be
+ * modified. */
+static bool
+ec_node_cmd_is_built(const struct ec_node_cmd_ctx *ctx,
+	const struct ec_node *node, const char *type_name)
+{
+	unsigned int i;
+
+	for (i = 0; i < ctx->len; i++) {
+		if (ctx->table[i] == node)
+			return false;
+	}
+
+	return !strcmp(ec_node_get_type_name(node), type_name);
+}
+
 static int
 ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 	const struct ec_pnode *operator, void *operand2)
@@ -146,8 +164,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 	struct ec_node *out = NULL;
 	struct ec_node *in1 = operand1;
 	struct ec_node *in2 = operand2;
-
-	(void)userctx;
+	struct ec_node_cmd_ctx *ctx = userctx;
 
 	/* get parsed string vector, it should contain only one str */
 	vec = ec_pnode_get_strvec(operator);
@@ -157,7 +174,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 	}
 
 	if (ec_strvec_len(vec) == 0) {
-		if (!strcmp(ec_node_get_type_name(in1), "seq")) {
+		if (ec_node_cmd_is_built(ctx, in1, "seq")) {
 			if (ec_node_seq_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
@@ -172,12 +189,12 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), "|")) {
-		if (!strcmp(ec_node_get_type_name(in2), "or")) {
+		if (ec_node_cmd_is_built(ctx, in2, "or")) {
 			if (ec_node_or_add(in2, ec_node_clone(in1)) < 0)
 				return -1;
 			ec_node_free(in1);
 			*result = in2;
-		} else if (!strcmp(ec_node_get_type_name(in1), "or")) {
+		} else if (ec_node_cmd_is_built(ctx, in1, "or")) {
 			if (ec_node_or_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
@@ -192,12 +209,12 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), ",")) {
-		if (!strcmp(ec_node_get_type_name(in2), "subset")) {
+		if (ec_node_cmd_is_built(ctx, in2, "subset")) {
 			if (ec_node_subset_add(in2, ec_node_clone(in1)) < 0)
 				return -1;
 			ec_node_free(in1);
 			*result = in2;
-		} else if (!strcmp(ec_node_get_type_name(in1), "subset")) {
+		} else if (ec_node_cmd_is_built(ctx, in1, "subset")) {
 			if (ec_node_subset_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
-- 
2.43.0


From 05da3bc8dbef39e65d98c8356c374860b6768a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:13 +0000
Subject: [PATCH 26/70] fix: release command nodes that are part of a loop

The nodes referenced by the command are also referenced by its table and
its configuration, they have to be listed in its children: else, a graph
with a loop through one of them is never released.
---
 src/ecoli_node_cmd.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index a335d4f..7f64ebe 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -536,7 +536,7 @@ ec_node_cmd_get_children_count(const struct ec_node *node)
 
 	if (priv->cmd == NULL)
 		return 0;
-	return 1;
+	return 1 + priv->len;
 }
 
 static int
@@ -545,11 +545,18 @@ ec_node_cmd_get_child(const struct ec_node *node, size_t i,
 {
 	struct ec_node_cmd *priv = ec_node_priv(node);
 
-	if (i > 0)
+	if (i > priv->len)
 		return -1;
 
-	*child = priv->cmd;
-	*refs = 1;
+	if (i == 0) {
+		*child = priv->cmd;
+		*refs = 1;
+	} else {
+		*child = priv->table[i - 1];
+		/* The children are referenced twice: once in the config and
+		 * once in the table. */
+		*refs = 2;
+	}
 	return 0;
 }
 
-- 
2.43.0


From cb4e1cc7430db27ab90be091d17552186f92f119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:13 +0000
Subject: [PATCH 27/70] fix: do not recurse infinitely when dumping a node
 without memory

---
 src/ecoli_node.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node.c b/src/ecoli_node.c
index de8c39d..7f00f1e 100644
--- a/src/ecoli_node.c
+++ b/src/ecoli_node.c
@@ -411,7 +411,12 @@ static void __ec_node_dump(FILE *out,
 		goto end;
 	}
 
-	ec_dict_set(dict, buf, NULL, NULL);
+	if (ec_dict_set(dict, buf, NULL, NULL) < 0) {
+		/* do not browse children: it may be a loop */
+		fprintf(out, "%*s" "failed to dump node\n",
+			(int)indent * 4, "");
+		goto end;
+	}
 	fprintf(out, "%*s" "%s type=%s id=%s %p refs=%u free_state=%d free_refs=%d\n",
 		(int)indent * 4, "", desc, typename, id, node, node->refcnt,
 		node->free.state, node->free.refcnt);
-- 
2.43.0


From b719f8437bb01bafe127b0495b90fe4fcc8acabd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:27 +0000
Subject: [PATCH 28/70] fix: support the documented "+" operator in commands

It is described in the configuration schema and known by the expression
parser, but was rejected by the lexer and by the evaluation.
---
 src/ecoli_node_cmd.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 7f64ebe..9d18189 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -130,6 +130,13 @@ ec_node_cmd_eval_post_op(void **result, void *userctx, void *operand,
 			return -1;
 		ec_node_free(in);
 		*result = out;
+	} else if (!strcmp(ec_strvec_val(vec, 0), "+")) {
+		out = ec_node_many(EC_NO_ID,
+				ec_node_clone(in), 1, 0);
+		if (out == NULL)
+			return -1;
+		ec_node_free(in);
+		*result = out;
 	} else {
 		errno = EINVAL;
 		return -1;
@@ -348,7 +355,7 @@ ec_node_cmd_build_parser(struct ec_node *expr)
 	ret = ec_node_re_lex_add(lex, "[a-zA-Z0-9_-]+", 1, NULL);
 	if (ret < 0)
 		goto fail;
-	ret = ec_node_re_lex_add(lex, "[*|,()]", 1, NULL);
+	ret = ec_node_re_lex_add(lex, "[*+|,()]", 1, NULL);
 	if (ret < 0)
 		goto fail;
 	ret = ec_node_re_lex_add(lex, "\\[", 1, NULL);
-- 
2.43.0


From 189277d5e39a3597e878170a6ffea46bd8e596f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:43 +0000
Subject: [PATCH 29/70] fix: do not abort when evaluating several
 post-operators

Merging the results of two consecutive post-operators was not supported,
and triggered an assertion. For instance, this happened when creating a
command node with "foo**".
---
 src/ecoli_node_expr.c | 54 ++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 48 insertions(+), 6 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 702daa0..70cd2ca 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -555,15 +555,49 @@ static int merge_results(void *userctx,
 		}
 	}
 
-	if (x->has_val && x->op == NULL && y->has_val == 0 && y->op != NULL) {
-		if (ops->eval_post_op(&x->val, userctx, x->val, y->op) < 0)
-			return -1;
+	assert(false); /* we should not get here */
+	return -1;
+}
 
-		return 0;
+/* return the type of the first operator or value in the parse tree */
+static enum expr_node_type get_first_type(const struct ec_node *expr_node,
+	const struct ec_pnode *parse)
+{
+	enum expr_node_type type;
+	struct ec_pnode *child;
+
+	type = get_node_type(expr_node, ec_pnode_get_node(parse));
+	if (type != NONE)
+		return type;
+
+	EC_PNODE_FOREACH_CHILD(child, parse) {
+		type = get_first_type(expr_node, child);
+		if (type != NONE)
+			return type;
 	}
 
-	assert(false); /* we should not get here */
-	return -1;
+	return NONE;
+}
+
+/* apply the list of unary post-operators in order */
+static int eval_post_ops(struct result *result,
+	void *userctx,
+	const struct ec_node_expr_eval_ops *ops,
+	const struct ec_node *expr_node,
+	const struct ec_pnode *parse)
+{
+	struct ec_pnode *child;
+
+	if (get_node_type(expr_node, ec_pnode_get_node(parse)) == POST_OP)
+		return ops->eval_post_op(&result->val, userctx, result->val,
+					parse);
+
+	EC_PNODE_FOREACH_CHILD(child, parse) {
+		if (eval_post_ops(result, userctx, ops, expr_node, child) < 0)
+			return -1;
+	}
+
+	return 0;
 }
 
 static int eval_expression(struct result *result,
@@ -602,6 +636,14 @@ static int eval_expression(struct result *result,
 			continue;
 		}
 
+		if (result->has_val && result->op == NULL &&
+				get_first_type(expr_node, child) == POST_OP) {
+			if (eval_post_ops(result, userctx, ops,
+				expr_node, child) < 0)
+				goto fail;
+			continue;
+		}
+
 		if (eval_expression(&child_result, userctx, ops,
 			expr_node, child) < 0)
 			goto fail;
-- 
2.43.0


From 705f5ed8e1ebcc0ef3b9994150fafc82854476a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:04 +0000
Subject: [PATCH 30/70] fix: report allocation failures when completing a file

A truncated list of files was returned as if it was complete.
---
 src/ecoli_node_file.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_node_file.c b/src/ecoli_node_file.c
index f13aa8f..137ddf1 100644
--- a/src/ecoli_node_file.c
+++ b/src/ecoli_node_file.c
@@ -212,12 +212,12 @@ ec_node_file_complete(const struct ec_node *node,
 		}
 		item = ec_comp_add_item(comp, node, type, input, comp_str);
 		if (item == NULL)
-			goto out;
+			goto fail;
 
 		/* fix the display string: we don't want to display the full
 		 * path. */
 		if (ec_comp_item_set_display(item, disp_str) < 0)
-			goto out;
+			goto fail;
 
 		item = NULL;
 		ec_free(comp_str);
-- 
2.43.0


From c7cfcbacacbe817d3b12279fabb7e81957361118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:04 +0000
Subject: [PATCH 31/70] fix: keep the attributes when merging completion lists

The dynamic nodes are stored in the attributes of the completion list.
They were released while being referenced by the merged groups. The
groups were also still referencing the released list.
---
 src/ecoli_complete.c | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index d9a2bec..f9316d1 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -591,13 +591,34 @@ void ec_comp_dump(FILE *out, const struct ec_comp *comp)
 	}
 }
 
+static void comp_attrs_free(void *attrs)
+{
+	ec_dict_free(attrs);
+}
+
 int ec_comp_merge(struct ec_comp *to,
 		struct ec_comp *from)
 {
 	struct ec_comp_group *grp;
+	char key[64];
+	int ret;
+
+	/* The groups may reference objects owned by the attributes (ex:
+	 * dynamic nodes), keep them as long as the merged list exists. */
+	if (ec_dict_len(from->attrs) > 0) {
+		snprintf(key, sizeof(key), "_merge_%p", from->attrs);
+		ret = ec_dict_set(to->attrs, key, from->attrs,
+				comp_attrs_free);
+		from->attrs = NULL; /* freed on error */
+		if (ret < 0) {
+			ec_comp_free(from);
+			return -1;
+		}
+	}
 
 	while (!TAILQ_EMPTY(&from->groups)) {
 		grp = TAILQ_FIRST(&from->groups);
+		grp->comp = to;
 		TAILQ_REMOVE(&from->groups, grp, next);
 		TAILQ_INSERT_TAIL(&to->groups, grp, next);
 	}
-- 
2.43.0


From c967a9ed30214eb08cdfdbd0411b5832c243ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:58 +0000
Subject: [PATCH 32/70] fix: htable: check the table pointer before using it

ec_htable_lookup() dereferenced the table before checking it is not NULL.
---
 src/ecoli_htable.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index b2ce66f..c05bdd9 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -42,7 +42,7 @@ ec_htable_lookup(const struct ec_htable *htable, const void *key,
 		size_t key_len)
 {
 	struct ec_htable_elt_ref *ref;
-	uint32_t h, mask = htable->table_size - 1;
+	uint32_t h, mask;
 
 	if (htable == NULL || key == NULL) {
 		errno = EINVAL;
@@ -53,6 +53,7 @@ ec_htable_lookup(const struct ec_htable *htable, const void *key,
 		return NULL;
 	}
 
+	mask = htable->table_size - 1;
 	h = ec_murmurhash3(key, key_len, ec_htable_seed);
 	TAILQ_FOREACH(ref, &htable->table[h & mask], hnext) {
 		if (ref->elt->key_len != key_len)
-- 
2.43.0


From fb2718ccc0e4798a05cd67e17d8ef43a3e3cea42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:58 +0000
Subject: [PATCH 33/70] fix: htable: release the value when setting it is
 refused

The documentation says that on error the passed value is freed, which was
not done for invalid arguments.
---
 src/ecoli_htable.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index c05bdd9..5700f57 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -189,7 +189,7 @@ int ec_htable_set(struct ec_htable *htable, const void *key, size_t key_len,
 
 	if (htable == NULL || key == NULL || key_len == 0) {
 		errno = EINVAL;
-		return -1;
+		goto fail;
 	}
 
 	ref = ec_calloc(1, sizeof(*ref));
-- 
2.43.0


From b2a4423918716b8a78e64637bd1268882f814efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:58 +0000
Subject: [PATCH 34/70] fix: htable: clear errno when getting a NULL value

As documented, it allows the caller to distinguish a NULL value from an
error.
---
 src/ecoli_htable.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecoli_htable.c b/src/ecoli_htable.c
index 5700f57..5d4f893 100644
--- a/src/ecoli_htable.c
+++ b/src/ecoli_htable.c
@@ -98,6 +98,9 @@ void *ec_htable_get(const struct ec_htable *htable, const void *key,
 	if (ref == NULL)
 		return NULL;
 
+	if (ref->elt->val == NULL)
+		errno = 0;
+
 	return ref->elt->val;
 }
 
-- 
2.43.0


From a59c28fde31d405c85c3a4567e98bcffc6b544f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:58 +0000
Subject: [PATCH 35/70] fix: strvec: set errno and check overflow in
 ec_strvec_ndup()

The documentation says errno is set on error. Moreover, off + len could
wrap, making the check useless.
---
 src/ecoli_strvec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index ec63335..123e8b1 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -156,8 +156,10 @@ struct ec_strvec *ec_strvec_ndup(const struct ec_strvec *strvec, size_t off,
 	size_t i, veclen;
 
 	veclen = ec_strvec_len(strvec);
-	if (off + len > veclen)
+	if (off > veclen || len > veclen - off) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	copy = ec_strvec();
 	if (copy == NULL)
-- 
2.43.0


From f3fb70150a09213a02a73a48b462b7a12eb5c015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:50:59 +0000
Subject: [PATCH 36/70] fix: vec: set errno and check overflow in ec_vec_ndup()

The check of off + len could wrap and then read out of bounds.
---
 src/ecoli_vec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_vec.c b/src/ecoli_vec.c
index 3fd5805..661f6b6 100644
--- a/src/ecoli_vec.c
+++ b/src/ecoli_vec.c
@@ -122,8 +122,10 @@ struct ec_vec *ec_vec_ndup(const struct ec_vec *vec, size_t off,
 	size_t i, veclen;
 
 	veclen = ec_vec_len(vec);
-	if (off + len > veclen)
+	if (off > veclen || len > veclen - off) {
+		errno = EINVAL;
 		return NULL;
+	}
 
 	copy = ec_vec(vec->elt_size, len, vec->copy, vec->free);
 	if (copy == NULL)
-- 
2.43.0


From 97ad31b368efcfdcf56429f6f18826a3e9d8e39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:24 +0000
Subject: [PATCH 37/70] fix: config: set errno when creating a value from NULL

---
 src/ecoli_config.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_config.c b/src/ecoli_config.c
index 57a7a61..006cc23 100644
--- a/src/ecoli_config.c
+++ b/src/ecoli_config.c
@@ -274,8 +274,10 @@ ec_config_string(const char *string)
 	struct ec_config *value = NULL;
 	char *s = NULL;
 
-	if (string == NULL)
+	if (string == NULL) {
+		errno = EINVAL;
 		goto fail;
+	}
 
 	s = ec_strdup(string);
 	if (s == NULL)
@@ -302,8 +304,10 @@ ec_config_node(struct ec_node *node)
 {
 	struct ec_config *value = NULL;
 
-	if (node == NULL)
+	if (node == NULL) {
+		errno = EINVAL;
 		goto fail;
+	}
 
 	value = ec_calloc(1, sizeof(*value));
 	if (value == NULL)
-- 
2.43.0


From f4961f509cb0b8d0c0c941da05bbfdb58b5ec382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:24 +0000
Subject: [PATCH 38/70] fix: config: count the elements of a dict

ec_config_count() is documented to work on lists and dicts, but failed on
dicts.
---
 src/ecoli_config.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_config.c b/src/ecoli_config.c
index 006cc23..99039af 100644
--- a/src/ecoli_config.c
+++ b/src/ecoli_config.c
@@ -376,7 +376,7 @@ ssize_t ec_config_count(const struct ec_config *config)
 			n++;
 		return n;
 	case EC_CONFIG_TYPE_DICT:
-		// XXX todo
+		return ec_dict_len(config->dict);
 	default:
 		errno = EINVAL;
 		return -1;
-- 
2.43.0


From c3c2a1459d595e18dd5823282b5fa3be2fb8ae19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:24 +0000
Subject: [PATCH 39/70] fix: config: dump signed and unsigned integers properly

The formats were swapped: negative values were dumped as huge numbers.
---
 src/ecoli_config.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_config.c b/src/ecoli_config.c
index 99039af..0f1af43 100644
--- a/src/ecoli_config.c
+++ b/src/ecoli_config.c
@@ -859,10 +859,10 @@ __ec_config_dump(FILE *out, const char *key, const struct ec_config *value,
 			ec_asprintf(&val_str, "false");
 		break;
 	case EC_CONFIG_TYPE_INT64:
-		ec_asprintf(&val_str, "%"PRIu64, value->u64);
+		ec_asprintf(&val_str, "%"PRIi64, value->i64);
 		break;
 	case EC_CONFIG_TYPE_UINT64:
-		ec_asprintf(&val_str, "%"PRIi64, value->i64);
+		ec_asprintf(&val_str, "%"PRIu64, value->u64);
 		break;
 	case EC_CONFIG_TYPE_STRING:
 		ec_asprintf(&val_str, "%s", value->string);
-- 
2.43.0


From 225215065d98b49763a30b29757bcc1ee52f4f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:54 +0000
Subject: [PATCH 40/70] fix: string: release with the allocator used to
 allocate

In case of error, ec_vasprintf() released with free() a buffer allocated
with ec_malloc().
---
 src/ecoli_string.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index 90728b8..17b5dce 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -60,7 +60,7 @@ int ec_vasprintf(char **buf, const char *fmt, va_list ap)
 
 	ec_assert_print(ret < buflen, "invalid return value for vsnprintf");
 	if (ret < 0) {
-		free(*buf);
+		ec_free(*buf);
 		*buf = NULL;
 		return -1;
 	}
-- 
2.43.0


From 3728a9edd33e2f8936e8c865d0d08592ea6ac5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:54 +0000
Subject: [PATCH 41/70] fix: string: set errno when an unsigned integer is
 invalid

As documented, and as done for signed integers.
---
 src/ecoli_string.c | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index 17b5dce..f9c45a9 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -130,8 +130,10 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 
 	/* since a negative input is silently converted to a positive
 	 * one by strtoull(), first check that it is positive */
-	if (strchr(str, '-'))
+	if (strchr(str, '-')) {
+		errno = ERANGE;
 		return -1;
+	}
 
 	errno = 0;
 	*val = strtoull(str, &endptr, base);
@@ -140,14 +142,20 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*val < min)
+	if (*val < min) {
+		errno = ERANGE;
 		return -1;
+	}
 
-	if (*val > max)
+	if (*val > max) {
+		errno = ERANGE;
 		return -1;
+	}
 
-	if (*endptr != 0)
+	if (*endptr != 0) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = save_errno;
 	return 0;
-- 
2.43.0


From 07f83fc53216a0b4c88511caa7d97ecdae5e10c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:54:54 +0000
Subject: [PATCH 42/70] fix: string: an empty string is not an integer

strtoll() and strtoull() may return 0 without error when there is no
digit, so int and uint nodes accepting 0 matched an empty string.
---
 src/ecoli_string.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_string.c b/src/ecoli_string.c
index f9c45a9..dbe9d97 100644
--- a/src/ecoli_string.c
+++ b/src/ecoli_string.c
@@ -113,7 +113,7 @@ int ec_str_parse_llint(const char *str, unsigned int base, int64_t min,
 		return -1;
 	}
 
-	if (*endptr != 0) {
+	if (endptr == str || *endptr != 0) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -152,7 +152,7 @@ int ec_str_parse_ullint(const char *str, unsigned int base, uint64_t min,
 		return -1;
 	}
 
-	if (*endptr != 0) {
+	if (endptr == str || *endptr != 0) {
 		errno = EINVAL;
 		return -1;
 	}
-- 
2.43.0


From 8d34e28ffd17777019ef78232c8e7c845a3d3fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:58:52 +0000
Subject: [PATCH 43/70] fix: parse: an unlinked node has no sibling

After ec_pnode_unlink_child(), ec_pnode_next() returned the former sibling
of the node, which may have been freed since. The documentation says that
the root of a tree has no sibling.
---
 src/ecoli_parse.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoli_parse.c b/src/ecoli_parse.c
index 9705507..3ee85c6 100644
--- a/src/ecoli_parse.c
+++ b/src/ecoli_parse.c
@@ -333,6 +333,10 @@ ec_pnode_get_last_child(const struct ec_pnode *pnode)
 
 struct ec_pnode *ec_pnode_next(const struct ec_pnode *pnode)
 {
+	/* the root has no sibling (it may have had some before being unlinked) */
+	if (pnode->parent == NULL)
+		return NULL;
+
 	return TAILQ_NEXT(pnode, next);
 }
 
-- 
2.43.0


From e7906704e1bbfb3baab36ee6499870ccc1c426d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:01:50 +0000
Subject: [PATCH 44/70] fix: re_lex: set errno when the input cannot be split
 into tokens

---
 src/ecoli_node_re_lex.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_node_re_lex.c b/src/ecoli_node_re_lex.c
index fef1c95..fff8603 100644
--- a/src/ecoli_node_re_lex.c
+++ b/src/ecoli_node_re_lex.c
@@ -100,8 +100,10 @@ tokenize(struct regexp_pattern *table, size_t table_len, const char *str)
 			break;
 		}
 
-		if (ret != 0)
+		if (ret != 0) {
+			errno = EINVAL;
 			goto fail;
+		}
 
 		off += pos.rm_eo;
 	}
-- 
2.43.0


From 763bfef3c59596726290c1eacced0c4b8433d0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:52 +0000
Subject: [PATCH 45/70] fix: yaml: do not delete an uninitialized parser if the
 file cannot be opened

---
 src/ecoli_yaml.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 66f0d11..c45c3d8 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -540,7 +540,7 @@ ec_yaml_import(const char *filename)
 	file = fopen(filename, "rb");
 	if (file == NULL) {
 		fprintf(stderr, "Failed to open file %s\n", filename);
-		goto fail_no_doc;
+		goto fail_no_parser;
 	}
 
 	if (yaml_parser_initialize(&parser) == 0) {
@@ -577,6 +577,7 @@ fail:
 	yaml_document_delete(&document);
 fail_no_doc:
 	yaml_parser_delete(&parser);
+fail_no_parser:
 	if (file != NULL)
 		fclose(file);
 	free_table(&table);
-- 
2.43.0


From d682a1c8c9f9540866576644502b67da7b1f7dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:52 +0000
Subject: [PATCH 46/70] fix: yaml: report an error if the type of a node is
 missing

---
 src/ecoli_yaml.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index c45c3d8..940acd2 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -443,6 +443,12 @@ parse_ec_node(struct enode_table *table,
 		}
 	}
 
+	if (type == NULL) {
+		fprintf(stderr, "Missing type\n");
+		errno = EINVAL;
+		goto fail;
+	}
+
 	/* create the ecoli node */
 	if (id == NULL)
 		id = EC_NO_ID;
-- 
2.43.0


From b6d28827f362212d5832ba4ee6afcca440bf8a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:52 +0000
Subject: [PATCH 47/70] fix: yaml: check that keys and attributes are scalars

---
 src/ecoli_yaml.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 940acd2..2544bbe 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -331,6 +331,11 @@ parse_ec_config_dict(struct enode_table *table,
 	     pair < ynode->data.mapping.pairs.top; pair++) {
 		key = document->nodes.start + pair->key - 1; // XXX -1 ?
 		value = document->nodes.start + pair->value - 1;
+		if (key->type != YAML_SCALAR_NODE) {
+			fprintf(stderr, "Key must be a scalar\n");
+			errno = EINVAL;
+			goto fail;
+		}
 		key_str = (const char *)key->data.scalar.value;
 
 		if (ec_config_key_is_reserved(key_str))
@@ -388,6 +393,11 @@ parse_ec_node(struct enode_table *table,
 	     pair < ynode->data.mapping.pairs.top; pair++) {
 		key = document->nodes.start + pair->key - 1; // XXX -1 ?
 		value = document->nodes.start + pair->value - 1;
+		if (key->type != YAML_SCALAR_NODE) {
+			fprintf(stderr, "Key must be a scalar\n");
+			errno = EINVAL;
+			goto fail;
+		}
 		key_str = (const char *)key->data.scalar.value;
 		value_str = (const char *)value->data.scalar.value;
 
@@ -497,6 +507,12 @@ parse_ec_node(struct enode_table *table,
 		     pair < attrs->data.mapping.pairs.top; pair++) {
 			key = document->nodes.start + pair->key - 1;
 			value = document->nodes.start + pair->value - 1;
+			if (key->type != YAML_SCALAR_NODE ||
+					value->type != YAML_SCALAR_NODE) {
+				fprintf(stderr, "Attribute must be a scalar\n");
+				errno = EINVAL;
+				goto fail;
+			}
 			key_str = (const char *)key->data.scalar.value;
 			value_str = (const char *)value->data.scalar.value;
 			value_dup = ec_strdup(value_str);
-- 
2.43.0


From 5981afd2d4e4d7382b76a9299d99abca0e60e84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:08:52 +0000
Subject: [PATCH 48/70] fix: yaml: an empty string is not an integer

---
 src/ecoli_yaml.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_yaml.c b/src/ecoli_yaml.c
index 2544bbe..8beea36 100644
--- a/src/ecoli_yaml.c
+++ b/src/ecoli_yaml.c
@@ -60,7 +60,7 @@ parse_llint(const char *str, int64_t *val)
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*endptr != 0) {
+	if (endptr == str || *endptr != 0) {
 		errno = EINVAL;
 		return -1;
 	}
@@ -81,8 +81,10 @@ parse_ullint(const char *str, uint64_t *val)
 	}
 	/* since a negative input is silently converted to a positive
 	 * one by strtoull(), first check that it is positive */
-	if (strchr(str, '-'))
+	if (strchr(str, '-')) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = 0;
 	*val = strtoull(str, &endptr, 0);
@@ -91,8 +93,10 @@ parse_ullint(const char *str, uint64_t *val)
 			(errno != 0 && *val == 0))
 		return -1;
 
-	if (*endptr != 0)
+	if (endptr == str || *endptr != 0) {
+		errno = EINVAL;
 		return -1;
+	}
 
 	errno = save_errno;
 	return 0;
-- 
2.43.0


From 2656b4b2f25f36f951e494d822d4ac2e45d33ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:47 +0000
Subject: [PATCH 49/70] fix: editline: release memory with the allocator that
 returned it

---
 src/ecoli_editline.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index d944b12..3a77933 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -182,7 +182,7 @@ ec_editline_set_prompt_esc(struct ec_editline *editline, const char *prompt,
 	return 0;
 
 fail:
-	free(copy);
+	ec_free(copy);
 	return -1;
 }
 
@@ -558,7 +558,7 @@ ec_editline_curline(const struct ec_editline *editline, bool trim_after_cursor)
 	return line;
 
 fail:
-	free(line);
+	ec_free(line);
 	return NULL;
 }
 
@@ -725,7 +725,7 @@ ec_editline_get_suggestions(const struct ec_editline *editline,
 	count = 0;
 
 out:
-	free(line);
+	ec_free(line);
 	ec_pnode_free(p);
 	ec_comp_free(c);
 	return count;
-- 
2.43.0


From e188c012674c6c30cfd975316609eb1079e44716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:47 +0000
Subject: [PATCH 50/70] fix: editline: do not return a NULL prompt to libedit

---
 src/ecoli_editline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 3a77933..876e325 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -155,7 +155,7 @@ prompt_cb(EditLine *el)
 		return "> ";
 	editline = clientdata;
 
-	if (editline == NULL)
+	if (editline == NULL || editline->prompt == NULL)
 		return "> ";
 
 	return editline->prompt;
-- 
2.43.0


From 4266c209dd01eb8b88be6a84212b1cc0b2458e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:47 +0000
Subject: [PATCH 51/70] fix: editline: keep a valid history when it is replaced

The previous history was released while still registered in libedit, and
stayed referenced after a failure or when the history was disabled.
---
 src/ecoli_editline.c | 58 ++++++++++++++++++++++----------------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 876e325..bfbc591 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -299,44 +299,44 @@ int ec_editline_set_history(struct ec_editline *editline,
 	size_t hist_size, const char *hist_file)
 {
 	EditLine *el = editline->el;
+	History *new_history = NULL;
+	char *new_file = NULL;
 
-	if (editline->history != NULL)
-		history_end(editline->history);
-	if (editline->hist_file != NULL) {
-		ec_free(editline->hist_file);
-		editline->hist_file = NULL;
-	}
-
-	if (hist_size == 0)
-		return 0;
-
-	editline->history = history_init();
-	if (editline->history == NULL)
-		goto fail;
-	if (history(editline->history, &editline->histev, H_SETSIZE,
-			hist_size) < 0)
-		goto fail;
-	if (history(editline->history, &editline->histev, H_SETUNIQUE, 1))
-		goto fail;
-	if (hist_file != NULL) {
-		editline->hist_file = ec_strdup(hist_file);
-		if (editline->hist_file == NULL)
+	if (hist_size != 0) {
+		new_history = history_init();
+		if (new_history == NULL)
 			goto fail;
-		// ignore errors
-		history(editline->history, &editline->histev,
-					H_LOAD, editline->hist_file);
+		if (history(new_history, &editline->histev, H_SETSIZE,
+				hist_size) < 0)
+			goto fail;
+		if (history(new_history, &editline->histev, H_SETUNIQUE, 1))
+			goto fail;
+		if (hist_file != NULL) {
+			new_file = ec_strdup(hist_file);
+			if (new_file == NULL)
+				goto fail;
+			// ignore errors
+			history(new_history, &editline->histev,
+				H_LOAD, new_file);
+		}
 	}
-	if (el_set(el, EL_HIST, history, editline->history))
+
+	/* libedit must not reference the previous history once released */
+	if (el_set(el, EL_HIST, history, new_history))
 		goto fail;
+	if (editline->history != NULL)
+		history_end(editline->history);
+	ec_free(editline->hist_file);
+	editline->history = new_history;
+	editline->hist_file = new_file;
 
 	return 0;
 
 fail:
 	//XXX errno
-	if (editline->history != NULL) {
-		history_end(editline->history);
-		editline->history = NULL;
-	}
+	if (new_history != NULL)
+		history_end(new_history);
+	ec_free(new_file);
 	return -1;
 }
 
-- 
2.43.0


From bba0289602825be47884c5427c9f91ed2ae9325a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:47 +0000
Subject: [PATCH 52/70] fix: editline: only strip a trailing newline from the
 line

---
 src/ecoli_editline.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index bfbc591..da43c76 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -737,6 +737,7 @@ ec_editline_gets(struct ec_editline *editline)
 	EditLine *el = editline->el;
 	char *line_copy = NULL;
 	const char *line;
+	size_t len;
 	int count;
 
 	line = el_gets(el, &count);
@@ -747,7 +748,10 @@ ec_editline_gets(struct ec_editline *editline)
 	if (line_copy == NULL)
 		goto fail;
 
-	line_copy[strlen(line_copy) - 1] = '\0'; //XXX needed because of sh_lex bug?
+	//XXX needed because of sh_lex bug?
+	len = strlen(line_copy);
+	if (len > 0 && line_copy[len - 1] == '\n')
+		line_copy[len - 1] = '\0';
 
 	if (editline->history != NULL && !ec_str_is_space(line_copy)) {
 		history(editline->history, &editline->histev,
-- 
2.43.0


From 4fb8f18ead622d69ec8227beba7d54b04987c5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:47 +0000
Subject: [PATCH 53/70] fix: editline: print the sorted list of completions

---
 src/ecoli_editline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index da43c76..1a8ae51 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -85,7 +85,7 @@ ec_editline_print_cols(struct ec_editline *editline,
 			else
 				space = "    ";
 			fprintf(f, "%s%-*s", space,
-				(int)max_strlen, matches[i+j]);
+				(int)max_strlen, matches_copy[i+j]);
 		}
 		fprintf(f, "\n");
 	}
-- 
2.43.0


From c5026fdb7a01380a489471111135c973d0162a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:17:47 +0000
Subject: [PATCH 54/70] fix: editline: do not display helps that could not be
 built

---
 src/ecoli_editline.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 1a8ae51..a7d9227 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -611,6 +611,10 @@ ec_editline_complete(EditLine *el, int c)
 
 		count = ec_editline_get_helps(editline, line, full_line,
 				&helps);
+		if (count < 0) {
+			fprintf(err, "completion failure: cannot get helps\n");
+			goto fail;
+		}
 
 		fprintf(out, "\n");
 		if (ec_editline_print_helps(editline, helps, count) < 0) {
-- 
2.43.0


From abc821380df70dda31aad13b4d2561563010a85f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:13 +0000
Subject: [PATCH 55/70] fix: str: describe a node that has no string yet

---
 src/ecoli_node_str.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ecoli_node_str.c b/src/ecoli_node_str.c
index d568430..29fb564 100644
--- a/src/ecoli_node_str.c
+++ b/src/ecoli_node_str.c
@@ -84,6 +84,9 @@ static char *ec_node_str_desc(const struct ec_node *node)
 {
 	struct ec_node_str *priv = ec_node_priv(node);
 
+	if (priv->string == NULL)
+		return ec_strdup("<str>");
+
 	return ec_strdup(priv->string);
 }
 
-- 
2.43.0


From 51cd5e0d633d8817b715a0b66414016b08559cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:27:49 +0000
Subject: [PATCH 56/70] fix: init: undo the initialization when a module fails

---
 src/ecoli_init.c | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_init.c b/src/ecoli_init.c
index b0a4227..da039aa 100644
--- a/src/ecoli_init.c
+++ b/src/ecoli_init.c
@@ -2,6 +2,7 @@
  * Copyright 2016, Olivier MATZ <zer0@droids-corp.org>
  */
 
+#include <errno.h>
 #include <stdlib.h>
 #include <stdio.h>
 #include <string.h>
@@ -35,13 +36,24 @@ void ec_init_register(struct ec_init *init)
 int ec_init(void)
 {
 	struct ec_init *init;
+	int errno_save;
 
 	TAILQ_FOREACH(init, &init_list, next) {
 		if (init->init != NULL && init->init() < 0)
-			return -1;
+			goto fail;
 	}
 
 	return 0;
+
+fail:
+	errno_save = errno;
+	while ((init = TAILQ_PREV(init, ec_init_list, next)) != NULL) {
+		if (init->exit != NULL)
+			init->exit();
+	}
+	errno = errno_save;
+
+	return -1;
 }
 
 void ec_exit(void)
-- 
2.43.0


From 9e404c3468b5aa1ee75e966b9d76d6b66c30aa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:22 +0000
Subject: [PATCH 57/70] fix: log: do not mix allocators when registering a log
 type

---
 src/ecoli_log.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ecoli_log.c b/src/ecoli_log.c
index c01e65a..d485d97 100644
--- a/src/ecoli_log.c
+++ b/src/ecoli_log.c
@@ -94,13 +94,15 @@ ec_log_type_register(const char *name)
 		return id;
 
 	// XXX not that good to allocate in constructor
-	new_types = ec_realloc(log_types,
+	/* don't use ec_realloc() and ec_strdup() here: the table is allocated
+	 * by constructors, before another allocator can be registered */
+	new_types = realloc(log_types,
 		sizeof(*new_types) * (log_types_len + 1));
 	if (new_types == NULL)
 		return -1; /* errno is set */
 	log_types = new_types;
 
-	copy = ec_strdup(name);
+	copy = strdup(name);
 	if (copy == NULL)
 		return -1; /* errno is set */
 
-- 
2.43.0


From a74cf7565e09ebc31b7933fae96d2787283668f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:33 +0000
Subject: [PATCH 58/70] fix: expr: keep the operands if a callback fails

On error, a callback may leave anything in *result: it must not replace the
value that has to be freed.
---
 src/ecoli_node_expr.c | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 70cd2ca..3054ca2 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -522,6 +522,8 @@ static int merge_results(void *userctx,
 	const struct ec_node_expr_eval_ops *ops,
 	struct result *x, const struct result *y)
 {
+	void *val = NULL;
+
 	if (y->has_val == 0 && y->op == NULL)
 		return 0;
 	if (x->has_val == 0 && x->op == NULL) {
@@ -531,9 +533,10 @@ static int merge_results(void *userctx,
 
 	if (x->has_val && y->has_val && y->op != NULL) {
 		if (y->op_type == BIN_OP) {
-			if (ops->eval_bin_op(&x->val, userctx, x->val,
+			if (ops->eval_bin_op(&val, userctx, x->val,
 					y->op, y->val) < 0)
 				return -1;
+			x->val = val;
 
 			return 0;
 		}
@@ -541,9 +544,10 @@ static int merge_results(void *userctx,
 
 	if (x->has_val == 0 && x->op != NULL && y->has_val && y->op == NULL) {
 		if (x->op_type == PRE_OP) {
-			if (ops->eval_pre_op(&x->val, userctx, y->val,
+			if (ops->eval_pre_op(&val, userctx, y->val,
 						x->op) < 0)
 				return -1;
+			x->val = val;
 			x->has_val = true;
 			x->op_type = NONE;
 			x->op = NULL;
@@ -587,10 +591,14 @@ static int eval_post_ops(struct result *result,
 	const struct ec_pnode *parse)
 {
 	struct ec_pnode *child;
+	void *val = NULL;
 
-	if (get_node_type(expr_node, ec_pnode_get_node(parse)) == POST_OP)
-		return ops->eval_post_op(&result->val, userctx, result->val,
-					parse);
+	if (get_node_type(expr_node, ec_pnode_get_node(parse)) == POST_OP) {
+		if (ops->eval_post_op(&val, userctx, result->val, parse) < 0)
+			return -1;
+		result->val = val;
+		return 0;
+	}
 
 	EC_PNODE_FOREACH_CHILD(child, parse) {
 		if (eval_post_ops(result, userctx, ops, expr_node, child) < 0)
@@ -611,6 +619,7 @@ static int eval_expression(struct result *result,
 	struct result child_result;
 	struct ec_pnode *child;
 	enum expr_node_type type;
+	void *val = NULL;
 
 	memset(result, 0, sizeof(*result));
 	memset(&child_result, 0, sizeof(child_result));
@@ -655,9 +664,10 @@ static int eval_expression(struct result *result,
 	}
 
 	if (open != NULL && close != NULL) {
-		if (ops->eval_parenthesis(&result->val, userctx, open, close,
+		if (ops->eval_parenthesis(&val, userctx, open, close,
 			result->val) < 0)
 			goto fail;
+		result->val = val;
 	}
 
 	return 0;
-- 
2.43.0


From 860f41580a78cb2d729574f0bb4dd2b114b6f67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:33 +0000
Subject: [PATCH 59/70] fix: expr: do not evaluate the inside of values and
 operators

If the value node contains the expression itself, it aborted.
---
 src/ecoli_node_expr.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index 3054ca2..ec06065 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -629,9 +629,11 @@ static int eval_expression(struct result *result,
 		if (ops->eval_var(&result->val, userctx, parse) < 0)
 			goto fail;
 		result->has_val = 1;
+		return 0;
 	} else if (type == PRE_OP || type == POST_OP || type == BIN_OP) {
 		result->op = parse;
 		result->op_type = type;
+		return 0;
 	}
 
 	EC_PNODE_FOREACH_CHILD(child, parse) {
-- 
2.43.0


From 9f29a8b72bee3402443dab886f0dc8fb06f98d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:33 +0000
Subject: [PATCH 60/70] fix: expr: evaluate binary operators from left to right

The operands following the first one were combined together, then with the
first one: "a - b - c" was evaluated as "a - (b - c)".
---
 src/ecoli_node_expr.c | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/ecoli_node_expr.c b/src/ecoli_node_expr.c
index ec06065..b5ca601 100644
--- a/src/ecoli_node_expr.c
+++ b/src/ecoli_node_expr.c
@@ -608,6 +608,37 @@ static int eval_post_ops(struct result *result,
 	return 0;
 }
 
+static int eval_expression(struct result *result,
+	void *userctx,
+	const struct ec_node_expr_eval_ops *ops,
+	const struct ec_node *expr_node,
+	const struct ec_pnode *parse);
+
+/* apply the list of binary operators and their right operand in order */
+static int eval_bin_ops(struct result *result,
+	void *userctx,
+	const struct ec_node_expr_eval_ops *ops,
+	const struct ec_node *expr_node,
+	const struct ec_pnode *parse)
+{
+	struct result child_result;
+	struct ec_pnode *child;
+
+	EC_PNODE_FOREACH_CHILD(child, parse) {
+		if (eval_expression(&child_result, userctx, ops,
+				expr_node, child) < 0)
+			return -1;
+
+		if (merge_results(userctx, ops, result, &child_result) < 0) {
+			if (child_result.has_val)
+				ops->eval_free(child_result.val, userctx);
+			return -1;
+		}
+	}
+
+	return 0;
+}
+
 static int eval_expression(struct result *result,
 	void *userctx,
 	const struct ec_node_expr_eval_ops *ops,
@@ -655,6 +686,14 @@ static int eval_expression(struct result *result,
 			continue;
 		}
 
+		if (result->has_val && result->op == NULL &&
+				get_first_type(expr_node, child) == BIN_OP) {
+			if (eval_bin_ops(result, userctx, ops,
+				expr_node, child) < 0)
+				goto fail;
+			continue;
+		}
+
 		if (eval_expression(&child_result, userctx, ops,
 			expr_node, child) < 0)
 			goto fail;
-- 
2.43.0


From 19e48ab2e17d87b2bccc46775b01dd6c417d22b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:38 +0000
Subject: [PATCH 61/70] fix: complete: a failed item addition must not change
 the item counts

---
 src/ecoli_complete.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index f9316d1..51a649f 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -386,13 +386,8 @@ ec_comp_item_add(struct ec_comp *comp, const struct ec_node *node,
 
 	switch (item->type) {
 	case EC_COMP_UNKNOWN:
-		comp->count_unknown++;
-		break;
 	case EC_COMP_FULL:
-		comp->count_full++;
-		break;
 	case EC_COMP_PARTIAL:
-		comp->count_partial++;
 		break;
 	default:
 		errno = EINVAL;
@@ -409,6 +404,12 @@ ec_comp_item_add(struct ec_comp *comp, const struct ec_node *node,
 		comp->cur_group = grp;
 	}
 
+	if (item->type == EC_COMP_UNKNOWN)
+		comp->count_unknown++;
+	else if (item->type == EC_COMP_FULL)
+		comp->count_full++;
+	else
+		comp->count_partial++;
 	comp->count++;
 	TAILQ_INSERT_TAIL(&comp->cur_group->items, item, next);
 	item->grp = comp->cur_group;
-- 
2.43.0


From 27f4c57468e2374f0e9c4e7d4f78d483ae94f07d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:38 +0000
Subject: [PATCH 62/70] fix: complete: set errno when an item has a start but
 no full string

---
 src/ecoli_complete.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_complete.c b/src/ecoli_complete.c
index 51a649f..8135399 100644
--- a/src/ecoli_complete.c
+++ b/src/ecoli_complete.c
@@ -260,8 +260,10 @@ ec_comp_item(enum ec_comp_type type,
 		if (start_cp == NULL)
 			goto fail;
 
-		if (full == NULL)
+		if (full == NULL) {
+			errno = EINVAL;
 			goto fail;
+		}
 
 		if (ec_str_startswith(full, start)) {
 			comp_cp = ec_strdup(&full[strlen(start)]);
-- 
2.43.0


From a2790a24941c0cf1ba8f9f166bca547fb95d785d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:39 +0000
Subject: [PATCH 63/70] fix: sh_lex: do not append a quote to an item without
 completion

---
 src/ecoli_node_sh_lex.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoli_node_sh_lex.c b/src/ecoli_node_sh_lex.c
index c5fdab9..232ba34 100644
--- a/src/ecoli_node_sh_lex.c
+++ b/src/ecoli_node_sh_lex.c
@@ -128,6 +128,8 @@ ec_node_sh_lex_complete(const struct ec_node *node,
 			new_str = NULL;
 
 			str = ec_comp_item_get_completion(item);
+			if (str == NULL) /* not applicable to this item */
+				continue;
 			if (ec_asprintf(&new_str, "%s%c", str,
 					missing_quote) < 0) {
 				new_str = NULL;
-- 
2.43.0


From f77f5aa3b8f97a837f3089ffcc97abc34e52cc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:39 +0000
Subject: [PATCH 64/70] fix: editline: do not dereference a missing completion

---
 src/ecoli_editline.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index a7d9227..23aee3b 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -391,6 +391,8 @@ ec_editline_append_chars(const struct ec_comp *cmpl)
 
 	EC_COMP_FOREACH(item, cmpl, EC_COMP_FULL | EC_COMP_PARTIAL) {
 		append = ec_comp_item_get_completion(item);
+		if (append == NULL) /* not applicable to this item */
+			append = "";
 		if (ret == NULL) {
 			ret = ec_strdup(append);
 			if (ret == NULL)
-- 
2.43.0


From 2956b309d24b6173acf74c93f5e04b4f015c631d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:39 +0000
Subject: [PATCH 65/70] fix: editline: report completion errors on the error
 stream

---
 src/ecoli_editline.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_editline.c b/src/ecoli_editline.c
index 23aee3b..056b5e1 100644
--- a/src/ecoli_editline.c
+++ b/src/ecoli_editline.c
@@ -577,7 +577,7 @@ ec_editline_complete(EditLine *el, int c)
 
 	if (el_get(el, EL_GETFP, 1, &out))
 		return -1;
-	if (el_get(el, EL_GETFP, 1, &err))
+	if (el_get(el, EL_GETFP, 2, &err))
 		return -1;
 
 	(void)c;
-- 
2.43.0


From 86e1390d0f24dd3e78742a33cc13a611b36c5c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:10 +0000
Subject: [PATCH 66/70] fix: strvec: report the quote that is not closed, not
 the first one of the word

---
 src/ecoli_strvec.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index 123e8b1..c52316f 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -384,7 +384,6 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case SPACE:
 				/* end of token */
-				quote = '\0';
 				token[t] = '\0';
 				if (ec_strvec_add(strvec, token) < 0)
 					goto fail;
@@ -394,9 +393,11 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 				break;
 			case DOUBLE_QUOTE:
 				state = IN_DOUBLE_QUOTES;
+				quote = c;
 				break;
 			case SINGLE_QUOTE:
 				state = IN_SINGLE_QUOTES;
+				quote = c;
 				break;
 			case BACKSLASH:
 				state = ESCAPING;
@@ -418,6 +419,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case DOUBLE_QUOTE:
 				state = IN_WORD;
+				quote = '\0';
 				break;
 			case BACKSLASH:
 				state = ESCAPING_QUOTED;
@@ -431,6 +433,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 			switch (cls) {
 			case SINGLE_QUOTE:
 				state = IN_WORD;
+				quote = '\0';
 				break;
 			default:
 				append(token, t, c);
-- 
2.43.0


From 989f03cc46daae1e78648b737c65d69047244600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:10 +0000
Subject: [PATCH 67/70] fix: strvec: keep a last token made of an empty quoted
 string

---
 src/ecoli_strvec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecoli_strvec.c b/src/ecoli_strvec.c
index c52316f..8665abf 100644
--- a/src/ecoli_strvec.c
+++ b/src/ecoli_strvec.c
@@ -465,7 +465,7 @@ ec_strvec_sh_lex_str(const char *str, ec_strvec_flag_t flags,
 		}
 		state = IN_WORD;
 	}
-	if (state == IN_WORD && t > 0) {
+	if (state == IN_WORD) {
 		token[t] = '\0';
 		if (ec_strvec_add(strvec, token) < 0)
 			goto fail;
-- 
2.43.0


From 6a870afc49c8c64e18d0ad64375453e6adbcee21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:48 +0000
Subject: [PATCH 68/70] fix: cmd: keep the order of the alternatives of a
 nested or

---
 src/ecoli_node_cmd.c | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/ecoli_node_cmd.c b/src/ecoli_node_cmd.c
index 9d18189..99087b0 100644
--- a/src/ecoli_node_cmd.c
+++ b/src/ecoli_node_cmd.c
@@ -196,12 +196,7 @@ ec_node_cmd_eval_bin_op(void **result, void *userctx, void *operand1,
 			*result = out;
 		}
 	} else if (!strcmp(ec_strvec_val(vec, 0), "|")) {
-		if (ec_node_cmd_is_built(ctx, in2, "or")) {
-			if (ec_node_or_add(in2, ec_node_clone(in1)) < 0)
-				return -1;
-			ec_node_free(in1);
-			*result = in2;
-		} else if (ec_node_cmd_is_built(ctx, in1, "or")) {
+		if (ec_node_cmd_is_built(ctx, in1, "or")) {
 			if (ec_node_or_add(in1, ec_node_clone(in2)) < 0)
 				return -1;
 			ec_node_free(in2);
-- 
2.43.0


From 970221cc3d07cca33f9877af2a467f6a8f756810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:20 +0000
Subject: [PATCH 69/70] fix: malloc: return the new address from
 ec_realloc_func()

---
 include/ecoli_malloc.h | 2 +-
 src/ecoli_malloc.c     | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/ecoli_malloc.h b/include/ecoli_malloc.h
index 7b94e5b..f9ae3ea 100644
--- a/include/ecoli_malloc.h
+++ b/include/ecoli_malloc.h
@@ -182,7 +182,7 @@ void ec_free_func(void *ptr);
  * Use this function when the macro ec_realloc() cannot be used,
  * for instance when it is passed as a callback pointer.
  */
-void ec_realloc_func(void *ptr, size_t size);
+void *ec_realloc_func(void *ptr, size_t size);
 
 /**
  * Allocate and initialize an array of elements.
diff --git a/src/ecoli_malloc.c b/src/ecoli_malloc.c
index 8b1c68e..da77e78 100644
--- a/src/ecoli_malloc.c
+++ b/src/ecoli_malloc.c
@@ -83,9 +83,9 @@ void *__ec_realloc(void *ptr, size_t size, const char *file, unsigned int line)
 	return ec_malloc_handler.realloc(ptr, size, file, line);
 }
 
-void ec_realloc_func(void *ptr, size_t size)
+void *ec_realloc_func(void *ptr, size_t size)
 {
-	ec_realloc(ptr, size);
+	return ec_realloc(ptr, size);
 }
 
 char *__ec_strdup(const char *s, const char *file, unsigned int line)
-- 
2.43.0


From 374bc1ede7aa5e2b030b9b78cd624b7f9a49c600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:48 +0000
Subject: [PATCH 70/70] fix: any: accept a NULL attribute as documented

---
 src/ecoli_node_any.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/ecoli_node_any.c b/src/ecoli_node_any.c
index 06e92f4..c325cc7 100644
--- a/src/ecoli_node_any.c
+++ b/src/ecoli_node_any.c
@@ -111,9 +111,12 @@ ec_node_any(const char *id, const char *attr)
 	if (config == NULL)
 		goto fail;
 
-	ret = ec_config_dict_set(config, "attr", ec_config_string(attr));
-	if (ret < 0)
-		goto fail;
+	if (attr != NULL) {
+		ret = ec_config_dict_set(config, "attr",
+					ec_config_string(attr));
+		if (ret < 0)
+			goto fail;
+	}
 
 	ret = ec_node_set_config(node, config);
 	config = NULL;
-- 
2.43.0

