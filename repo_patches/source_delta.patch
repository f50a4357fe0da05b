From caead2202784e8b4f380675cbbb04350aa2e7d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:54:17 +0000
Subject: [PATCH 01/33] fix: drop divs of the current dimension when projecting
 a loop of that depth

When a statement's domain had exactly 'level' dimensions, cloog_loop_project
used its domain as loop domain unchanged, keeping existentially quantified
variables that involve the current dimension.  The inner domains were then
simplified in the context of these constraints although no loop header
enforces them, so that modulo guards were lost as soon as the loop was shared
with another statement.  Always go through cloog_domain_project, which removes
them, as is done for deeper domains.
---
 source/loop.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/source/loop.c b/source/loop.c
index a019ffa..ad6fb27 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -731,10 +731,7 @@ CloogLoop * cloog_loop_project(CloogLoop * loop, int level)
   copy = cloog_loop_alloc(loop->state, loop->domain, loop->otl, loop->stride,
 			  loop->block, loop->inner, NULL);
 
-  if (cloog_domain_dimension(loop->domain) == level)
-  new_domain = cloog_domain_copy(loop->domain) ;  
-  else
-    new_domain = cloog_domain_project(loop->domain, level);
+  new_domain = cloog_domain_project(loop->domain, level);
 
   new_loop = cloog_loop_alloc(loop->state, new_domain, 0, NULL,
 			      NULL, copy, NULL);
-- 
2.43.0


From 3cdc8630344ca83af5562fab5856e2e90d8f45c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:57:46 +0000
Subject: [PATCH 02/33] fix: keep statements needing further loops apart from
 those that do not

In cloog_loop_generate_scalar, a loop without remaining dimensions was grouped
with following loops of the same scalar vector that still have dimensions to
scan; the group was then added as is and the arguments of the deeper statements
were lost.
---
 source/loop.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/loop.c b/source/loop.c
index ad6fb27..70a1b7e 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -2054,6 +2054,7 @@ CloogLoop *cloog_loop_generate_scalar(CloogLoop *loop,
     ref = temp ;
     
     while((end->next != NULL) &&
+	 cloog_loop_more(ref, level, scalar_new, nb_scattdims) &&
 	 cloog_loop_more(end->next, level, scalar_new, nb_scattdims) &&
          cloog_loop_scalar_eq(ref,end->next,level,scaldims,nb_scattdims,scalar))
     end = end->next ;
-- 
2.43.0


From e75fc95e261d9015a65f91243ac06f06b1c8d004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:00:03 +0000
Subject: [PATCH 03/33] fix: print divs over their common denominator

div_expr used the numerators of the separately reduced coefficients of a div,
so that floor((2*i+j)/4) became floor((i+j)/4), and truncated them to a long.
---
 source/isl/constraints.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/isl/constraints.c b/source/isl/constraints.c
index acd6312..400ea3b 100644
--- a/source/isl/constraints.c
+++ b/source/isl/constraints.c
@@ -584,8 +584,11 @@ static struct clast_expr *div_expr(CloogConstraint *constraint, int pos,
 
 		v = cloog_constraint_variable_expr(constraint, 1 + i, names);
 
-		/* We are interested only in the numerator */
-		cloog_int_set_si(cint, isl_val_get_num_si(c));
+		/* We are interested only in the numerator over the
+		 * common denominator of the div.
+		 */
+		c = isl_val_mul(c, isl_aff_get_denominator_val(div));
+		isl_val_to_cloog_int(c, &cint);
 		r->elts[nb_elts++] = &new_clast_term(cint, v)->expr;
 
 		isl_val_free(c);
@@ -593,8 +596,11 @@ static struct clast_expr *div_expr(CloogConstraint *constraint, int pos,
 
 	c = isl_aff_get_constant_val(div);
 	if (!isl_val_is_zero(c)) {
-		/* We are interested only in the numerator */
-		cloog_int_set_si(cint, isl_val_get_num_si(c));
+		/* We are interested only in the numerator over the
+		 * common denominator of the div.
+		 */
+		c = isl_val_mul(c, isl_aff_get_denominator_val(div));
+		isl_val_to_cloog_int(c, &cint);
 		r->elts[nb_elts++] = &new_clast_term(cint, NULL)->expr;
 	}
 	isl_val_free(c);
-- 
2.43.0


From a06ae420595e0bbdc21605c16c3444b585da65a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:09:31 +0000
Subject: [PATCH 04/33] fix: do not give away the caller's domain when
 computing a convex hull

---
 source/isl/domain.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index b928ff9..63e9272 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -135,8 +135,8 @@ CloogDomain * cloog_domain_copy(CloogDomain * domain)
 CloogDomain *cloog_domain_convex(CloogDomain *domain)
 {
 	isl_set *set = isl_set_from_cloog_domain(domain);
-  set = isl_set_coalesce(set);
-	set = isl_set_from_basic_set(isl_set_convex_hull(isl_set_copy(set)));
+	set = isl_set_coalesce(isl_set_copy(set));
+	set = isl_set_from_basic_set(isl_set_convex_hull(set));
 	return cloog_domain_from_isl_set(set);
 }
 
-- 
2.43.0


From 034ca529d6241de4f3edb1752d7e26434c6afeb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:44 +0000
Subject: [PATCH 05/33] fix: only block statements of different dates when no
 loop is left inside

---
 source/loop.c | 36 +++++++++++++++++++++++++++++++++++-
 1 file changed, 35 insertions(+), 1 deletion(-)

diff --git a/source/loop.c b/source/loop.c
index 70a1b7e..3cd61ec 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -2110,6 +2110,33 @@ static int cloog_loop_next_scal_cmp(CloogLoop *loop)
 }
 
 
+/* Check whether each dimension of domain from position "first" on
+ * is fixed by an equality in terms of the dimensions before it.
+ */
+static int cloog_domain_inner_dims_are_fixed(CloogDomain *domain, int first)
+{
+    int dim;
+    int fixed = 1;
+    CloogConstraint *eq;
+    CloogConstraintSet *constraints;
+
+    if (first >= cloog_domain_dimension(domain))
+	return 1;
+    if (!cloog_domain_isconvex(domain) || cloog_domain_isempty(domain))
+	return 0;
+
+    constraints = cloog_domain_constraints(domain);
+    for (dim = first; fixed && dim < cloog_domain_dimension(domain); ++dim) {
+	eq = cloog_constraint_set_defining_equality(constraints, dim + 1);
+	fixed = cloog_constraint_is_valid(eq);
+	cloog_constraint_release(eq);
+    }
+    cloog_constraint_set_free(constraints);
+
+    return fixed;
+}
+
+
 /* Check whether the globally constant dimensions of a and b
  * have the same value for all globally constant dimensions
  * that are situated before any (locally) non-constant dimension.
@@ -2120,6 +2147,7 @@ static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
     int i;
     int cst = 0;
     int dim = 0;
+    int differ;
 
     for (i = 0; i < nb_scattdims; ++i) {
 	if (!scaldims[i]) {
@@ -2130,6 +2158,7 @@ static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
 	    break;
 	cst++;
     }
+    differ = i < nb_scattdims;
     for (i = i + 1; i < nb_scattdims; ++i) {
 	if (scaldims[i])
 	    continue;
@@ -2141,7 +2170,12 @@ static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
 	 */
 	dim++;
     }
-    return 1;
+    if (!differ)
+	return 1;
+    /* The iterators that are not fixed by the previous dimensions would be
+     * scanned inside the block, i.e., before the differing dimension.
+     */
+    return cloog_domain_inner_dims_are_fixed(a->domain, dim);
 }
 
 
-- 
2.43.0


From 591b2dee24ad43311e43c4db1dc77cefc498b121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:16 +0000
Subject: [PATCH 06/33] fix: split loops whose order depends on the outer
 dimensions

---
 include/cloog/domain.h |  2 ++
 source/isl/domain.c    | 27 ++++++++++++++++++++++
 source/loop.c          | 51 ++++++++++++++++++++++++++++++++++++++++++
 3 files changed, 80 insertions(+)

diff --git a/include/cloog/domain.h b/include/cloog/domain.h
index 8a221cf..6d43664 100644
--- a/include/cloog/domain.h
+++ b/include/cloog/domain.h
@@ -89,6 +89,8 @@ CloogDomain * cloog_domain_intersection(CloogDomain *, CloogDomain *) ;
 CloogDomain * cloog_domain_difference(CloogDomain *, CloogDomain *) ;
 void          cloog_domain_sort(CloogDomain**,unsigned,unsigned,int *);
 int cloog_domain_follows(CloogDomain *dom1, CloogDomain *dom2, unsigned level);
+CloogDomain *cloog_domain_following_part(CloogDomain *dom1, CloogDomain *dom2,
+				unsigned level);
 CloogDomain * cloog_domain_empty(CloogDomain *model);
 int cloog_domain_is_bounded(CloogDomain *dim, unsigned level);
 CloogDomain *cloog_domain_bound_splitter(CloogDomain *dom, int level);
diff --git a/source/isl/domain.c b/source/isl/domain.c
index 63e9272..cd036f2 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -330,6 +330,33 @@ int cloog_domain_follows(CloogDomain *dom1, CloogDomain *dom2, unsigned level)
 }
 
 
+/**
+ * Return the part of dom1 with those values of the dimensions before
+ * level for which some element of dom1 has a greater value at level than
+ * some element of dom2.
+ */
+CloogDomain *cloog_domain_following_part(CloogDomain *dom1, CloogDomain *dom2,
+	unsigned level)
+{
+	isl_set *set1 = isl_set_from_cloog_domain(dom1);
+	isl_set *set2 = isl_set_from_cloog_domain(dom2);
+	isl_map *map;
+	isl_set *outer;
+	unsigned i;
+
+	map = isl_map_from_domain_and_range(isl_set_copy(set1),
+					    isl_set_copy(set2));
+	for (i = 0; i < level - 1; ++i)
+		map = isl_map_equate(map, isl_dim_in, i, isl_dim_out, i);
+	map = isl_map_order_gt(map, isl_dim_in, level - 1,
+				isl_dim_out, level - 1);
+	outer = isl_set_eliminate(isl_map_domain(map), isl_dim_set, level - 1,
+			isl_set_dim(set1, isl_dim_set) - (level - 1));
+	set1 = isl_set_intersect(isl_set_copy(set1), outer);
+	return cloog_domain_from_isl_set(isl_set_coalesce(set1));
+}
+
+
 /**
  * cloog_domain_empty function:
  * Returns an empty domain of the same dimensions as template.
diff --git a/source/loop.c b/source/loop.c
index 3cd61ec..c456d4b 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -1029,6 +1029,55 @@ CloogLoop * cloog_loop_separate(CloogLoop * loop)
 }
 
 
+/**
+ * Split the (disjoint) loops in the list such that no two of them follow
+ * each other at the given level, i.e., such that their order does not
+ * depend on the values of the parameters and of the outer dimensions.
+ */
+static CloogLoop *cloog_loop_split_unordered(CloogLoop *loop, int level)
+{
+    CloogLoop *res = NULL, *now = NULL;
+    CloogLoop *l, *after, *parts, *parts_now;
+    CloogDomain *domain, *rest;
+
+    while (loop) {
+	l = loop;
+	loop = loop->next;
+	l->next = NULL;
+
+	for (now = res; now; now = now->next) {
+	    if (cloog_domain_follows(l->domain, now->domain, level) <= 0 ||
+		cloog_domain_follows(now->domain, l->domain, level) <= 0)
+		continue;
+	    domain = cloog_domain_following_part(l->domain, now->domain, level);
+	    rest = cloog_domain_difference(l->domain, domain);
+	    if (!cloog_domain_isempty(domain) && !cloog_domain_isempty(rest))
+		break;
+	    cloog_domain_free(domain);
+	    cloog_domain_free(rest);
+	}
+
+	if (!now) {
+	    res = cloog_loop_concat(res, l);
+	    continue;
+	}
+
+	/* Both parts may need to be split further. */
+	after = cloog_loop_alloc(l->state, domain, 0, NULL,
+				 cloog_block_copy(l->block),
+				 cloog_loop_copy(l->inner), NULL);
+	cloog_domain_free(l->domain);
+	l->domain = rest;
+	parts = NULL;
+	cloog_loop_add_disjoint(&parts, &parts_now, l);
+	cloog_loop_add_disjoint(&parts, &parts_now, after);
+	loop = cloog_loop_concat(parts, loop);
+    }
+
+    return res;
+}
+
+
 static CloogDomain *bounding_domain(CloogDomain *dom, CloogOptions *options)
 {
     if (options->sh)
@@ -1953,6 +2002,8 @@ CloogLoop *cloog_loop_generate_general(CloogLoop *loop,
     res = cloog_loop_merge(loop, level, options);
     }else{
     res = cloog_loop_separate(loop);
+    if (level > 0 && level+scalar <= nb_scattdims)
+      res = cloog_loop_split_unordered(res, level);
     separate = 1;
   }
     
-- 
2.43.0


From a1df7adecf3f1c72d0f57bd5e49c42c62b913419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:08 +0000
Subject: [PATCH 07/33] fix: order loops by their integer points

---
 source/isl/domain.c | 20 ++++++--------------
 1 file changed, 6 insertions(+), 14 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index cd036f2..3a86533 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -238,9 +238,7 @@ void cloog_domain_sort(CloogDomain **doms, unsigned nb_doms, unsigned level,
 	int cmp;
 	struct isl_ctx *ctx;
 	unsigned char **follows;
-	isl_set *set_i, *set_j;
-	isl_basic_set *bset_i, *bset_j;
-	isl_basic_set_list *list_i, *list_j;
+	isl_set *set_i;
 
 	if (!nb_doms)
 		return;
@@ -264,17 +262,11 @@ void cloog_domain_sort(CloogDomain **doms, unsigned nb_doms, unsigned level,
 		for (j = 0; j < i; ++j) {
 			if (follows[i][j] || follows[j][i])
 				continue;
-			set_i = isl_set_from_cloog_domain(doms[i]);
-			set_j = isl_set_from_cloog_domain(doms[j]);
-			list_i = isl_set_get_basic_set_list(set_i);
-			list_j = isl_set_get_basic_set_list(set_j);
-			bset_i = isl_basic_set_list_get_basic_set(list_i, 0);
-			bset_j = isl_basic_set_list_get_basic_set(list_j, 0);
-			isl_basic_set_list_free(list_i);
-			isl_basic_set_list_free(list_j);
-			cmp = isl_basic_set_compare_at(bset_i, bset_j, level-1);
-			isl_basic_set_free(bset_i);
-			isl_basic_set_free(bset_j);
+			if (cloog_domain_follows(doms[i], doms[j], level) > 0)
+				cmp = 1;
+			else
+				cmp = -(cloog_domain_follows(doms[j], doms[i],
+								level) > 0);
 			if (!cmp)
 				continue;
 			if (cmp > 0) {
-- 
2.43.0


From c261f5a95ab72309fbd5a92de456f945f18d8802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:37:09 +0000
Subject: [PATCH 08/33] fix: keep modulo guards of equalities with -otl 0

---
 source/clast.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/clast.c b/source/clast.c
index 7283aa7..89e2caa 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -1579,9 +1579,6 @@ static int insert_equation(CloogDomain *domain, CloogConstraint *upper,
   struct clast_expr *e;
   struct clast_assignment *ass;
 
-  if (!infos->options->otl)
-    return insert_equation_as_loop(domain, upper, lower, level, next, infos);
-
   if (!insert_modulo_guard(upper, lower, level, next, infos)) {
     cloog_constraint_release(lower);
     cloog_constraint_release(upper);
@@ -1589,6 +1586,9 @@ static int insert_equation(CloogDomain *domain, CloogConstraint *upper,
     return 0;
   }
 
+  if (!infos->options->otl)
+    return insert_equation_as_loop(domain, upper, lower, level, next, infos);
+
   if (cloog_constraint_is_valid(lower) ||
       !clast_equal_add(infos->equal, NULL, level, upper, infos))
   { /* Finally, the equality. */
-- 
2.43.0


From 9fc4093ab5a0a597408ff962ecb38e1ff57e9e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:40:12 +0000
Subject: [PATCH 09/33] fix: no loop stride when no factor can be inverted
 modulo the stride

---
 source/isl/domain.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 3a86533..8191b7e 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -1839,7 +1839,8 @@ static CloogStride *construct_stride(isl_constraint *c, int level)
 	gcd = isl_val_copy(gcd_copy);
 	stride = isl_val_div(gcd, v);
 
-	if (isl_val_is_zero(stride) || isl_val_is_one(stride))
+	if (isl_val_is_zero(stride) || isl_val_is_one(stride) ||
+	    !isl_val_is_one(v_copy))
 		s = NULL;
 	else {
 		cloog_int_init(c_m);
-- 
2.43.0


From b805dcd0c74ee9bdd1829f744186f54cc5093615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:44:49 +0000
Subject: [PATCH 10/33] fix: do not merge loops that step differently

---
 source/loop.c | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/source/loop.c b/source/loop.c
index c456d4b..a394030 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -785,6 +785,21 @@ CloogLoop * cloog_loop_concat(CloogLoop * a, CloogLoop * b)
 } 
 
 
+/* Check whether the two loops step through their domains in the same way.
+ */
+static int cloog_loop_equal_stride(CloogLoop *a, CloogLoop *b)
+{
+    if (a->stride == b->stride)
+	return 1;
+    if (!a->stride || !b->stride)
+	return 0;
+    if (a->stride->constraint || b->stride->constraint)
+	return 0;
+    return cloog_int_eq(a->stride->stride, b->stride->stride) &&
+	   cloog_int_eq(a->stride->offset, b->stride->offset);
+}
+
+
 /**
  * cloog_loop_combine:
  * Combine consecutive loops with identical domains into
@@ -799,6 +814,8 @@ CloogLoop *cloog_loop_combine(CloogLoop *loop)
 	while (first->next) {
 	    if (!cloog_domain_lazy_equal(first->domain, first->next->domain))
 		break;
+	    if (!cloog_loop_equal_stride(first, first->next))
+		break;
 	    second = first->next;
 	    first->inner = cloog_loop_concat(first->inner, second->inner);
 	    first->next = second->next;
-- 
2.43.0


From 4f1817938ad85a4b732cdbe3b0a1df108ddcb446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:49 +0000
Subject: [PATCH 11/33] fix: use the convex hull when the simple hull loses the
 bounds of the loop

---
 source/loop.c | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/source/loop.c b/source/loop.c
index a394030..be417b8 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -1095,12 +1095,22 @@ static CloogLoop *cloog_loop_split_unordered(CloogLoop *loop, int level)
 }
 
 
-static CloogDomain *bounding_domain(CloogDomain *dom, CloogOptions *options)
+/* Return a single polyhedron containing dom.
+ * The simple hull may fail to bound the current dimension even if
+ * every part of dom does.  Compute the convex hull in this case.
+ */
+static CloogDomain *bounding_domain(CloogDomain *dom, int level,
+	CloogOptions *options)
 {
-    if (options->sh)
-	return cloog_domain_simple_convex(dom);
-    else
-	return cloog_domain_convex(dom);
+    if (options->sh) {
+	CloogDomain *hull = cloog_domain_simple_convex(dom);
+
+	if (level <= 0 || cloog_domain_is_bounded(hull, level) ||
+	    !cloog_domain_is_bounded(dom, level))
+	    return hull;
+	cloog_domain_free(hull);
+    }
+    return cloog_domain_convex(dom);
 }
 
 
@@ -1135,7 +1145,7 @@ CloogLoop *cloog_loop_merge(CloogLoop *loop, int level, CloogOptions *options)
 	new_inner = cloog_loop_concat(new_inner, loop->inner);
     }
 
-    new_domain = bounding_domain(temp, options);
+    new_domain = bounding_domain(temp, level, options);
 
     if (level > 0 && !cloog_domain_is_bounded(new_domain, level) &&
 	    	     cloog_domain_is_bounded(temp, level)) {
@@ -1152,7 +1162,7 @@ CloogLoop *cloog_loop_merge(CloogLoop *loop, int level, CloogOptions *options)
 	    t2 = cloog_domain_intersection(first, temp);
 	    cloog_domain_free(first);
 
-	    new_domain = bounding_domain(t2, options);
+	    new_domain = bounding_domain(t2, level, options);
 	    cloog_domain_free(t2);
 
 	    if (cloog_domain_isempty(new_domain)) {
@@ -1166,7 +1176,7 @@ CloogLoop *cloog_loop_merge(CloogLoop *loop, int level, CloogOptions *options)
 	t2 = cloog_domain_intersection(splitter, temp);
 	cloog_domain_free(splitter);
 
-	new_domain = bounding_domain(t2, options);
+	new_domain = bounding_domain(t2, level, options);
 	cloog_domain_free(t2);
 
 	if (cloog_domain_isempty(new_domain)) {
-- 
2.43.0


From aeaf2f2e92f620c0c84904321aff62cb6613ad2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:59 +0000
Subject: [PATCH 12/33] fix: leave divisions of the loop iterator to the inner
 loops

---
 source/loop.c | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/loop.c b/source/loop.c
index be417b8..bf25a28 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -2776,9 +2776,18 @@ static CloogLoop *loop_simplify(CloogLoop *loop, CloogDomain *context,
   CloogLoop *simplified, *inner;
   CloogDomain * domain, * simp, * inter, * extended_context ;
 
+  domain_dim = cloog_domain_dimension(loop->domain);
+
+  /* The loop itself cannot check constraints on integer divisions of its
+   * own iterator.  Leave them to the inner loops.
+   */
+  if (level && loop->inner && !loop->stride) {
+    domain = cloog_domain_project(loop->domain, domain_dim);
+    cloog_domain_free(loop->domain);
+    loop->domain = domain;
+  }
+
   domain = loop->domain ;
-  
-  domain_dim = cloog_domain_dimension(domain);
   extended_context = cloog_domain_extend(context, domain_dim);
   inter = cloog_domain_intersection(domain,extended_context) ;
   simp = cloog_domain_simplify(domain, extended_context);
-- 
2.43.0


From 1152e6174dcf2f33b9a3de1c4d46c859daa6fcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:17 +0000
Subject: [PATCH 13/33] fix: do not block statements across a dimension that
 orders other loops

---
 source/loop.c | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/source/loop.c b/source/loop.c
index bf25a28..c386853 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -2188,6 +2188,21 @@ static int cloog_loop_next_scal_cmp(CloogLoop *loop)
 }
 
 
+/* Return the position of the first globally constant dimension
+ * with different values in a and b, or the number of globally constant
+ * dimensions if there is no such dimension.
+ */
+static int cloog_loop_scal_first_diff(CloogLoop *a, CloogLoop *b)
+{
+    int i;
+
+    for (i = 0; i < a->block->nb_scaldims && i < b->block->nb_scaldims; ++i)
+	if (!cloog_int_eq(a->block->scaldims[i], b->block->scaldims[i]))
+	    break;
+    return i;
+}
+
+
 /* Check whether each dimension of domain from position "first" on
  * is fixed by an equality in terms of the dimensions before it.
  */
@@ -2268,6 +2283,10 @@ static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
  * (with globally constant dimensions removed) and the difference
  * (if any) in constant dimensions may only occur after all the
  * (locally) constant dimensions.
+ * The loops before and after the sublist should already be separated
+ * from it no later than the first globally constant dimension that differs
+ * inside the sublist, because this dimension is no longer taken into
+ * account when the sublist is ordered with respect to the other loops.
  * If we find such a sublist, then the blocks of all but the first
  * are merged into the block of the first.
  *
@@ -2277,7 +2296,8 @@ static int cloog_loop_equal_prefix(CloogLoop *a, CloogLoop *b,
  */
 CloogLoop *cloog_loop_block(CloogLoop *loop, int *scaldims, int nb_scattdims)
 {
-    CloogLoop *begin, *end, *l;
+    CloogLoop *begin, *end, *l, *last, *prev;
+    int diff, separate;
     int begin_after_previous;
     int end_after_previous;
 
@@ -2291,21 +2311,28 @@ CloogLoop *cloog_loop_block(CloogLoop *loop, int *scaldims, int nb_scattdims)
     }
 
     begin_after_previous = 1;
-    for (begin = loop; begin; begin = begin->next) {
+    prev = NULL;
+    for (begin = loop; begin; prev = begin, begin = begin->next) {
 	if (!begin_after_previous) {
 	    begin_after_previous = cloog_loop_next_scal_cmp(begin) < 0;
 	    continue;
 	}
 
 	end_after_previous = cloog_loop_next_scal_cmp(begin) < 0;
+	last = begin;
 	for (end = begin->next; end; end = end->next) {
 	    if (!cloog_loop_equal_prefix(begin, end, scaldims, nb_scattdims))
 		break;
 	    if (!cloog_domain_lazy_equal(begin->domain, end->domain))
 		break;
 	    end_after_previous = cloog_loop_next_scal_cmp(end) < 0;
+	    last = end;
 	}
-	if (end != begin->next && end_after_previous) {
+	diff = cloog_loop_scal_first_diff(begin, last);
+	separate = diff == begin->block->nb_scaldims ||
+		((!end || cloog_loop_scal_first_diff(last, end) <= diff) &&
+		 (!prev || cloog_loop_scal_first_diff(prev, begin) <= diff));
+	if (end != begin->next && end_after_previous && separate) {
 	    for (l = begin->next; l != end; l = begin->next) {
 		cloog_block_merge(begin->block, l->block);
 		begin->next = l->next;
-- 
2.43.0


From 41c303e1d5a52edd3d925ee6f57134cd007864ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:16:07 +0000
Subject: [PATCH 14/33] fix: make room for all terms of a modulo guard

---
 source/clast.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/clast.c b/source/clast.c
index 89e2caa..4faa181 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -1392,7 +1392,8 @@ static int insert_modulo_guard_constraint(CloogConstraint *c, void *user)
 	struct clast_reduction *r;
 	const char *name;
 
-	r = new_clast_reduction(clast_red_sum, nb_elts + 1);
+	/* Substituting strided iterators may introduce further terms. */
+	r = new_clast_reduction(clast_red_sum, len - 1);
 	nb_elts = 0;
 
 	/* First, the modulo guard : the iterators... */
-- 
2.43.0


From 0ecda768de1927c4a4e6e24857e0cdbcd5c30978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:13 +0000
Subject: [PATCH 15/33] fix: separate the stride of a FORTRAN loop from its
 bound

---
 source/pprint.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/pprint.c b/source/pprint.c
index 6d85a5d..17ee831 100644
--- a/source/pprint.c
+++ b/source/pprint.c
@@ -615,8 +615,10 @@ void pprint_for(struct cloogoptions *options, FILE *dst, int indent,
 	cloog_die("unbounded loops not allowed in FORTRAN.\n");
 
     if (options->language == CLOOG_LANGUAGE_FORTRAN) {
-	if (cloog_int_gt_si(f->stride, 1))
+	if (cloog_int_gt_si(f->stride, 1)) {
+	    fprintf(dst, ", ");
 	    cloog_int_print(dst, f->stride);
+	}
 	fprintf(dst,"\n");
     }
     else {
-- 
2.43.0


From 3f2f81158c451695e7ff1c69c86b7a40d3a3855f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:24:19 +0000
Subject: [PATCH 16/33] fix: no braces around the blocks of FORTRAN code

---
 source/pprint.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/pprint.c b/source/pprint.c
index 17ee831..ab43527 100644
--- a/source/pprint.c
+++ b/source/pprint.c
@@ -657,6 +657,13 @@ void pprint_stmt_list(struct cloogoptions *options, FILE *dst, int indent,
                 fprintf(dst, "%*sS0\n", indent, "");
 	    continue;
         }
+	if (CLAST_STMT_IS_A(s, stmt_block) &&
+	    options->language == CLOOG_LANGUAGE_FORTRAN) {
+	    /* There is no compound statement in FORTRAN. */
+	    pprint_stmt_list(options, dst, indent,
+				((struct clast_block *)s)->body);
+	    continue;
+	}
 	fprintf(dst, "%*s", indent, "");
 	if (CLAST_STMT_IS_A(s, stmt_ass)) {
 	    pprint_assignment(options, dst, (struct clast_assignment *) s);
-- 
2.43.0


From 03d51f3204c86e5a8369b1b89fe225bf75f6a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:20 +0000
Subject: [PATCH 17/33] fix: an at most once executed loop may start after its
 lower bound

---
 source/isl/domain.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 8191b7e..0f454ca 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -815,6 +815,10 @@ int cloog_domain_never_integral(CloogDomain * domain)
  * and then taken the intersection of the original domain and the transformed
  * domain.  If this intersection is empty, then the corresponding
  * loop is executed at most once.
+ *
+ * Integer divisions of the iterator are not taken into account, since
+ * they do not show up in the lower bound of the loop, meaning that
+ * the single iteration may be different from this lower bound.
  */
 int cloog_domain_is_otl(CloogDomain *domain, int level)
 {
@@ -822,7 +826,9 @@ int cloog_domain_is_otl(CloogDomain *domain, int level)
 	isl_set *set = isl_set_from_cloog_domain(domain);
 	isl_map *map;
 
-	map = isl_map_from_domain(isl_set_copy(set));
+	set = isl_set_remove_divs_involving_dims(isl_set_copy(set),
+						isl_dim_set, level - 1, 1);
+	map = isl_map_from_domain(set);
 	map = isl_map_move_dims(map, isl_dim_out, 0, isl_dim_in, level - 1, 1);
 	otl = isl_map_is_single_valued(map);
 	isl_map_free(map);
-- 
2.43.0


From ce5381d5783dd3189b28450b3ddaf5778918c3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:56 +0000
Subject: [PATCH 18/33] fix: read all columns of a scattering matrix

cloog_scattering_from_cloog_matrix ignored the input dimensions of the map it
builds, so the columns of a scattering matrix ended up on other dimensions.
---
 source/isl/domain.c | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 0f454ca..b80a505 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -550,7 +550,8 @@ static struct isl_constraint *isl_constraint_read_from_matrix(
 {
 	struct isl_constraint *constraint;
 	int j;
-	int nvariables = isl_space_dim(dim, isl_dim_set);
+	int n_in = isl_space_is_map(dim) ? isl_space_dim(dim, isl_dim_in) : 0;
+	int nvariables = n_in + isl_space_dim(dim, isl_dim_out);
 	int nparam = isl_space_dim(dim, isl_dim_param);
 	isl_local_space *ls = isl_local_space_from_space(dim);
 
@@ -561,16 +562,21 @@ static struct isl_constraint *isl_constraint_read_from_matrix(
 
 	for (j = 0; j < nvariables; ++j) {
 		isl_val *val = cloog_int_to_isl_val(isl_constraint_get_ctx(constraint), row[1 + j]);
-		isl_constraint_set_coefficient_val(constraint, isl_dim_out, j, val);
+		if (j < n_in)
+			constraint = isl_constraint_set_coefficient_val(
+				constraint, isl_dim_in, j, val);
+		else
+			constraint = isl_constraint_set_coefficient_val(
+				constraint, isl_dim_out, j - n_in, val);
 	}
 
 	for (j = 0; j < nparam; ++j) {
 		isl_val *val = cloog_int_to_isl_val(isl_constraint_get_ctx(constraint), row[1 + nvariables + j]);
-		isl_constraint_set_coefficient_val(constraint, isl_dim_param, j, val);
+		constraint = isl_constraint_set_coefficient_val(constraint, isl_dim_param, j, val);
 	}
 
 	isl_val *val = cloog_int_to_isl_val(isl_constraint_get_ctx(constraint), row[1 + nvariables + nparam]);
-	isl_constraint_set_constant_val(constraint, val);
+	constraint = isl_constraint_set_constant_val(constraint, val);
 
 	return constraint;
 }
-- 
2.43.0


From c1fa55f87c881963a25598e71ffdff5e5cabd32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:56 +0000
Subject: [PATCH 19/33] fix: clast_filter looks through assignments and blocks

The traversal stopped at the first assignment or block, so that the loops and
statements after (or inside) it were not found.
---
 source/clast.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/source/clast.c b/source/clast.c
index 4faa181..6e87583 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -2105,6 +2105,22 @@ void clast_filter(struct clast_stmt *node,
         free(stmts_next);
     }
 
+    if (CLAST_STMT_IS_A(node, stmt_ass)) {
+        clast_filter(node->next, filter, loops, nloops, stmts, nstmts);
+    }
+
+    if (CLAST_STMT_IS_A(node, stmt_block)) {
+        struct clast_block *block = (struct clast_block *) node;
+        clast_filter(block->body, filter, loops, nloops, stmts, nstmts);
+        clast_filter((block->stmt).next, filter, &loops_next,
+                &num_next_loops, &stmts_next, &num_next_stmts);
+        *nstmts = concat_if_new((void **)stmts, *nstmts, stmts_next, num_next_stmts, sizeof(int));
+        *nloops = concat_if_new((void **)loops, *nloops, loops_next, num_next_loops,
+                sizeof(struct clast_stmt *));
+        free(loops_next);
+        free(stmts_next);
+    }
+
     if (CLAST_STMT_IS_A(node, stmt_user)) {
         struct clast_user_stmt *user_stmt = (struct clast_user_stmt *) node;
         // printf("user stmt: S%d\n", user_stmt->statement->number);
-- 
2.43.0


From 336b003254d8da04d6fb1402c371dcd32dda4e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:38:33 +0000
Subject: [PATCH 20/33] fix: the dump of an empty domain can be read back

A set without basic sets was printed as a union of 0 sets, which is not valid
input.
---
 source/isl/domain.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index b80a505..5078c67 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -81,7 +81,14 @@ void cloog_domain_print_constraints(FILE *foo, CloogDomain *domain,
 	p = isl_printer_to_file(isl_set_get_ctx(set), foo);
 	if (print_number) {
 		p = isl_printer_set_output_format(p, ISL_FORMAT_EXT_POLYLIB);
-		p = isl_printer_print_set(p, set);
+		if (isl_set_n_basic_set(set) == 0) {
+			/* A union of no sets cannot be read back in. */
+			bset = isl_basic_set_empty(isl_set_get_space(set));
+			fprintf(foo, "1\n\n");
+			p = isl_printer_print_basic_set(p, bset);
+			isl_basic_set_free(bset);
+		} else
+			p = isl_printer_print_set(p, set);
 	} else {
 		assert(isl_set_n_basic_set(set) == 1);
 		list = isl_set_get_basic_set_list(set);
-- 
2.43.0


From 13ca64f493320ba29604518085a280b4618b7851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:31 +0000
Subject: [PATCH 21/33] fix: free the trip count when a domain cannot be
 unrolled

---
 source/isl/domain.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 5078c67..da655ad 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -2104,6 +2104,7 @@ int cloog_domain_can_unroll(CloogDomain *domain, int level, cloog_int_t *n,
 		ccu.can_unroll = 0;
 	if (!ccu.can_unroll) {
 		isl_constraint_free(ccu.c);
+		isl_val_free(ccu.n);
 		return 0;
 	}
 
-- 
2.43.0


From 7d276545f354d33b0d9f696b26f3c07eaa1e4f99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:17 +0000
Subject: [PATCH 22/33] fix: stop at the end of the input when reading names

---
 source/loop.c  |  8 ++++----
 source/names.c | 10 +++++-----
 2 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/source/loop.c b/source/loop.c
index c386853..af83dd3 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -368,10 +368,10 @@ CloogLoop *cloog_loop_read(CloogState *state,
   domain = cloog_domain_union_read(state, foo, nb_parameters);
     
   /* To read that stupid "0 0 0" line. */
-  while (fgets(s,MAX_STRING,foo) == 0) ;
-  while ((*s=='#' || *s=='\n') || (sscanf(s," %d %d %d",&op1,&op2,&op3)<3))
-    if (fgets(s, MAX_STRING, foo))
-      continue;
+  do {
+    if (!fgets(s, MAX_STRING, foo))
+      cloog_die("Input error.\n");
+  } while ((*s=='#' || *s=='\n') || (sscanf(s," %d %d %d",&op1,&op2,&op3)<3));
 
   return cloog_loop_from_domain(state, domain, number);
 }
diff --git a/source/names.c b/source/names.c
index 914c736..0c585a0 100644
--- a/source/names.c
+++ b/source/names.c
@@ -269,13 +269,13 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
   char s[MAX_STRING], str[MAX_STRING], * c, **names = NULL;
 
   /* We first read name option. */
-  while (fgets(s,MAX_STRING,file) == 0) ;
-  while ((*s=='#' || *s=='\n') || (sscanf(s," %d",&option)<1))
-    if (fgets(s, MAX_STRING, file))
-      continue;
+  do {
+    if (!fgets(s, MAX_STRING, file))
+      cloog_die("no naming option in input file.\n");
+  } while ((*s=='#' || *s=='\n') || (sscanf(s," %d",&option)<1));
   
   /* If there is no item to read, then return NULL. */
-  if (nb_items == 0)
+  if (nb_items <= 0)
   return NULL ;
   
   /* If option is to read them in the file, then we do it and put them into
-- 
2.43.0


From 2c6d36284b669495d558d7a211ecd440f8583860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:36 +0000
Subject: [PATCH 23/33] fix: accept names of any length

---
 source/names.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/source/names.c b/source/names.c
index 0c585a0..0bc0ba9 100644
--- a/source/names.c
+++ b/source/names.c
@@ -41,6 +41,7 @@
 # include <stdlib.h>
 # include <stdio.h>
 # include <ctype.h>
+# include <string.h>
 # include "../include/cloog/cloog.h"
 
 
@@ -286,11 +287,6 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
     names = (char **)malloc(nb_items*sizeof(char *)) ;
     if (names == NULL) 
       cloog_die("memory overflow.\n");
-    for (i=0;i<nb_items;i++)
-    { names[i] = (char *)malloc(MAX_NAME*sizeof(char)) ;
-      if (names[i] == NULL) 
-	cloog_die("memory overflow.\n");
-    }
     
     do  /* Skip the comments, spaces and empty lines... */
     { c = fgets(s,MAX_STRING,file) ;
@@ -310,7 +306,9 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
       /* n is strlen(str). */
       if (sscanf(c,"%s%n",str,&n) == 0) 
         cloog_die("no names in input file.\n");
-      sscanf(str,"%s",names[i]) ;
+      names[i] = strdup(str);
+      if (names[i] == NULL) 
+	cloog_die("memory overflow.\n");
       c += n ;
     }
   }
-- 
2.43.0


From 71a2519483a4a6739dccca1d37cd1aba88c3fad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:18 +0000
Subject: [PATCH 24/33] fix: refuse input files with invalid sets or relations

---
 source/isl/domain.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index da655ad..2bae163 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -464,6 +464,8 @@ CloogDomain *cloog_domain_read_context(CloogState *state, FILE *input)
 	isl_set *set;
 
 	set = isl_set_read_from_file(ctx, input);
+	if (!set)
+		cloog_die("invalid context in input file.\n");
 	set = isl_set_move_dims(set, isl_dim_param, 0,
 				isl_dim_set, 0, isl_set_dim(set, isl_dim_set));
 
@@ -498,8 +500,12 @@ CloogDomain *cloog_domain_union_read(CloogState *state,
 	struct isl_set *set;
 
 	set = isl_set_read_from_file(ctx, input);
+	if (!set)
+		cloog_die("invalid domain in input file.\n");
 	if (isl_set_dim(set, isl_dim_param) != nb_parameters) {
 		int dim = isl_set_dim(set, isl_dim_set);
+		if (isl_set_dim(set, isl_dim_param) != 0 || dim < nb_parameters)
+			cloog_die("wrong number of parameters in a domain.\n");
 		set = isl_set_move_dims(set, isl_dim_param, 0,
 			    isl_dim_set, dim - nb_parameters, nb_parameters);
 	}
@@ -530,12 +536,19 @@ CloogScattering *cloog_domain_read_scattering(CloogDomain *domain, FILE *input)
 	dim = isl_set_dim(set, isl_dim_set);
 	nparam = isl_set_dim(set, isl_dim_param);
 	scat = isl_map_read_from_file(ctx, input);
+	if (!scat)
+		cloog_die("invalid scattering function in input file.\n");
 	if (isl_map_dim(scat, isl_dim_param) != nparam) {
 		int n_out = isl_map_dim(scat, isl_dim_out);
+		if (isl_map_dim(scat, isl_dim_param) != 0 || n_out < nparam)
+			cloog_die("wrong number of parameters in a scattering function.\n");
 		scat = isl_map_move_dims(scat, isl_dim_param, 0,
 					isl_dim_out, n_out - nparam, nparam);
 	}
 	if (isl_map_dim(scat, isl_dim_in) != dim) {
+		if (isl_map_dim(scat, isl_dim_in) != 0 ||
+		    isl_map_dim(scat, isl_dim_out) < dim)
+			cloog_die("wrong number of dimensions in a scattering function.\n");
 		n_scat = isl_map_dim(scat, isl_dim_out) - dim;
 		scat = isl_map_move_dims(scat, isl_dim_in, 0,
 					isl_dim_out, n_scat, dim);
-- 
2.43.0


From 0961a65bae7ed1f6634aa3928715580de5146a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:49 +0000
Subject: [PATCH 25/33] fix: refuse matrix rows with missing entries

---
 source/matrix.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/matrix.c b/source/matrix.c
index 0823e3c..ad75b11 100644
--- a/source/matrix.c
+++ b/source/matrix.c
@@ -202,7 +202,7 @@ CloogMatrix *cloog_matrix_read_of_size(FILE *input,
 			cloog_die("Input error.\n");
 		for (j = 0; j < n_col; ++j) {
 			n = sscanf(p, "%s%n", val, &offset);
-			if (!n)
+			if (n != 1)
 				cloog_die("Input error.\n");
 			cloog_int_read(M->p[i][j], val);
 			p += offset;
-- 
2.43.0


From ee6cf2fc5db6c81bf1824df67e182bfb08eadd52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:11 +0000
Subject: [PATCH 26/33] fix: refuse option values that are not numbers

---
 source/options.c | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/source/options.c b/source/options.c
index 2dccd2f..da26962 100644
--- a/source/options.c
+++ b/source/options.c
@@ -303,14 +303,13 @@ void cloog_options_version()
  * - June 29th 2003: (debug) lack of argument now detected.
  */
 void cloog_options_set(int * option, int argv, char ** argc, int * number)
-{ char ** endptr ;
+{ char * endptr ;
   
   if (*number+1 >= argv)
     cloog_die("an option lacks of argument.\n");
 
-  endptr = NULL ;
-  *option = strtol(argc[*number+1],endptr,10) ;
-  if (endptr != NULL)
+  *option = strtol(argc[*number+1],&endptr,10) ;
+  if (endptr == argc[*number+1] || *endptr != '\0')
     cloog_die("value '%s' for option '%s' is not valid.\n",
 	      argc[*number+1], argc[*number]);
   *number = *number + 1 ;
-- 
2.43.0


From 9b9bc266721faa6b38fe934eeb7d871c290514eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:20 +0000
Subject: [PATCH 27/33] fix: a union of domains cannot be unrolled

The check for a union only noticed a second basic set when the first
one had a usable lower bound, so that the lower bound of the second one
could be used for the whole union, missing points of the first one.
---
 source/isl/domain.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 2bae163..9c3b7ec 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -2082,7 +2082,7 @@ static int basic_set_can_unroll(__isl_take isl_basic_set *bset, void *user)
 	struct cloog_can_unroll *ccu = (struct cloog_can_unroll *)user;
 	int r = 0;
 
-	if (ccu->c || !ccu->can_unroll)
+	if (isl_set_n_basic_set(ccu->set) > 1)
 		ccu->can_unroll = 0;
 	else {
 		bset = isl_basic_set_remove_redundancies(bset);
-- 
2.43.0


From 40fe76ba6856a2059c797422e4a16c27162eba95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:21 +0000
Subject: [PATCH 28/33] fix: print the divisions left in a modulo guard

A modulo guard may involve further existentially quantified variables
besides the one it is derived from.  They were printed as if they were
iterators, using a name that belongs to an inner loop or no name at all.
Print the expression of the division instead.
---
 source/clast.c | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/clast.c b/source/clast.c
index 6e87583..ed31719 100644
--- a/source/clast.c
+++ b/source/clast.c
@@ -1407,10 +1407,8 @@ static int insert_modulo_guard_constraint(CloogConstraint *c, void *user)
 	  if (i == level || cloog_int_is_zero(line[i]))
 	    continue;
 
-	  name = cloog_names_name_at_level(infos->names, i);
-
 	  r->elts[nb_elts++] = &new_clast_term(line[i],
-				    &new_clast_name(name)->expr)->expr;
+		    cloog_constraint_variable_expr(c, i, infos->names))->expr;
 	}
 
 	/* ...the parameters... */
-- 
2.43.0


From 83ca737c5e55fed33f46e6c217fe09828293ca0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:47 +0000
Subject: [PATCH 29/33] fix: keep the loops of a split hull apart

The parts of a domain that are split to obtain a bounded hull are
disjoint, but the hulls of these parts need not be.  Restrict each hull
to its part.
---
 source/loop.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/source/loop.c b/source/loop.c
index af83dd3..a5c195c 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -1149,7 +1149,7 @@ CloogLoop *cloog_loop_merge(CloogLoop *loop, int level, CloogOptions *options)
 
     if (level > 0 && !cloog_domain_is_bounded(new_domain, level) &&
 	    	     cloog_domain_is_bounded(temp, level)) {
-	CloogDomain *splitter, *t2;
+	CloogDomain *splitter, *t2, *hull;
 
 	cloog_domain_free(new_domain);
 	splitter = cloog_domain_bound_splitter(temp, level);
@@ -1160,10 +1160,11 @@ CloogLoop *cloog_loop_merge(CloogLoop *loop, int level, CloogOptions *options)
 	    first = cloog_domain_cut_first(splitter, &rest);
 	    splitter = rest;
 	    t2 = cloog_domain_intersection(first, temp);
-	    cloog_domain_free(first);
-
-	    new_domain = bounding_domain(t2, level, options);
+	    hull = bounding_domain(t2, level, options);
 	    cloog_domain_free(t2);
+	    new_domain = cloog_domain_intersection(first, hull);
+	    cloog_domain_free(first);
+	    cloog_domain_free(hull);
 
 	    if (cloog_domain_isempty(new_domain)) {
 		cloog_domain_free(new_domain);
@@ -1174,10 +1175,11 @@ CloogLoop *cloog_loop_merge(CloogLoop *loop, int level, CloogOptions *options)
 	}
 
 	t2 = cloog_domain_intersection(splitter, temp);
-	cloog_domain_free(splitter);
-
-	new_domain = bounding_domain(t2, level, options);
+	hull = bounding_domain(t2, level, options);
 	cloog_domain_free(t2);
+	new_domain = cloog_domain_intersection(splitter, hull);
+	cloog_domain_free(splitter);
+	cloog_domain_free(hull);
 
 	if (cloog_domain_isempty(new_domain)) {
 	    cloog_domain_free(new_domain);
-- 
2.43.0


From cf505d1a56012d1c86d1c2663c65b09e5eaa8d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:25:12 +0000
Subject: [PATCH 30/33] fix: split loops that follow each other in a cycle

---
 include/cloog/domain.h |   4 +-
 source/isl/domain.c    |  11 ++--
 source/loop.c          | 113 ++++++++++++++++++++++++++++++++++++-----
 3 files changed, 109 insertions(+), 19 deletions(-)

diff --git a/include/cloog/domain.h b/include/cloog/domain.h
index 6d43664..f7c813b 100644
--- a/include/cloog/domain.h
+++ b/include/cloog/domain.h
@@ -89,8 +89,8 @@ CloogDomain * cloog_domain_intersection(CloogDomain *, CloogDomain *) ;
 CloogDomain * cloog_domain_difference(CloogDomain *, CloogDomain *) ;
 void          cloog_domain_sort(CloogDomain**,unsigned,unsigned,int *);
 int cloog_domain_follows(CloogDomain *dom1, CloogDomain *dom2, unsigned level);
-CloogDomain *cloog_domain_following_part(CloogDomain *dom1, CloogDomain *dom2,
-				unsigned level);
+CloogDomain *cloog_domain_following_part(CloogDomain *dom, CloogDomain *dom1,
+				CloogDomain *dom2, unsigned level);
 CloogDomain * cloog_domain_empty(CloogDomain *model);
 int cloog_domain_is_bounded(CloogDomain *dim, unsigned level);
 CloogDomain *cloog_domain_bound_splitter(CloogDomain *dom, int level);
diff --git a/source/isl/domain.c b/source/isl/domain.c
index 9c3b7ec..06bad0a 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -330,13 +330,14 @@ int cloog_domain_follows(CloogDomain *dom1, CloogDomain *dom2, unsigned level)
 
 
 /**
- * Return the part of dom1 with those values of the dimensions before
+ * Return the part of dom with those values of the dimensions before
  * level for which some element of dom1 has a greater value at level than
  * some element of dom2.
  */
-CloogDomain *cloog_domain_following_part(CloogDomain *dom1, CloogDomain *dom2,
-	unsigned level)
+CloogDomain *cloog_domain_following_part(CloogDomain *dom, CloogDomain *dom1,
+	CloogDomain *dom2, unsigned level)
 {
+	isl_set *set = isl_set_from_cloog_domain(dom);
 	isl_set *set1 = isl_set_from_cloog_domain(dom1);
 	isl_set *set2 = isl_set_from_cloog_domain(dom2);
 	isl_map *map;
@@ -351,8 +352,8 @@ CloogDomain *cloog_domain_following_part(CloogDomain *dom1, CloogDomain *dom2,
 				isl_dim_out, level - 1);
 	outer = isl_set_eliminate(isl_map_domain(map), isl_dim_set, level - 1,
 			isl_set_dim(set1, isl_dim_set) - (level - 1));
-	set1 = isl_set_intersect(isl_set_copy(set1), outer);
-	return cloog_domain_from_isl_set(isl_set_coalesce(set1));
+	set = isl_set_intersect(isl_set_copy(set), outer);
+	return cloog_domain_from_isl_set(isl_set_coalesce(set));
 }
 
 
diff --git a/source/loop.c b/source/loop.c
index a5c195c..904935d 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -1046,6 +1046,27 @@ CloogLoop * cloog_loop_separate(CloogLoop * loop)
 }
 
 
+/**
+ * Replace the loop l, not linked to any other, by two loops covering
+ * "domain" and "rest".
+ */
+static CloogLoop *cloog_loop_split(CloogLoop *l, CloogDomain *domain,
+				   CloogDomain *rest)
+{
+    CloogLoop *after, *parts = NULL, *now = NULL;
+
+    after = cloog_loop_alloc(l->state, domain, 0, NULL,
+			     cloog_block_copy(l->block),
+			     cloog_loop_copy(l->inner), NULL);
+    cloog_domain_free(l->domain);
+    l->domain = rest;
+    cloog_loop_add_disjoint(&parts, &now, l);
+    cloog_loop_add_disjoint(&parts, &now, after);
+
+    return parts;
+}
+
+
 /**
  * Split the (disjoint) loops in the list such that no two of them follow
  * each other at the given level, i.e., such that their order does not
@@ -1054,7 +1075,7 @@ CloogLoop * cloog_loop_separate(CloogLoop * loop)
 static CloogLoop *cloog_loop_split_unordered(CloogLoop *loop, int level)
 {
     CloogLoop *res = NULL, *now = NULL;
-    CloogLoop *l, *after, *parts, *parts_now;
+    CloogLoop *l;
     CloogDomain *domain, *rest;
 
     while (loop) {
@@ -1066,7 +1087,8 @@ static CloogLoop *cloog_loop_split_unordered(CloogLoop *loop, int level)
 	    if (cloog_domain_follows(l->domain, now->domain, level) <= 0 ||
 		cloog_domain_follows(now->domain, l->domain, level) <= 0)
 		continue;
-	    domain = cloog_domain_following_part(l->domain, now->domain, level);
+	    domain = cloog_domain_following_part(l->domain, l->domain,
+						 now->domain, level);
 	    rest = cloog_domain_difference(l->domain, domain);
 	    if (!cloog_domain_isempty(domain) && !cloog_domain_isempty(rest))
 		break;
@@ -1080,21 +1102,86 @@ static CloogLoop *cloog_loop_split_unordered(CloogLoop *loop, int level)
 	}
 
 	/* Both parts may need to be split further. */
-	after = cloog_loop_alloc(l->state, domain, 0, NULL,
-				 cloog_block_copy(l->block),
-				 cloog_loop_copy(l->inner), NULL);
-	cloog_domain_free(l->domain);
-	l->domain = rest;
-	parts = NULL;
-	cloog_loop_add_disjoint(&parts, &parts_now, l);
-	cloog_loop_add_disjoint(&parts, &parts_now, after);
-	loop = cloog_loop_concat(parts, loop);
+	loop = cloog_loop_concat(cloog_loop_split(l, domain, rest), loop);
     }
 
     return res;
 }
 
 
+/**
+ * Split one of the loops in the list if some of them follow each other
+ * in a cycle at the given level, i.e., if the values of the parameters and
+ * of the outer dimensions for which one loop follows another are different
+ * along the cycle.  The loop is split according to those values
+ * for one pair of loops in the cycle.
+ *
+ * Return 1 if some loop has been split.
+ */
+static int cloog_loop_split_cycle(CloogLoop **loop, int level)
+{
+    int i, j, k, n, split = 0;
+    CloogLoop *l, **loops, **prev, *next;
+    CloogDomain *domain, *rest;
+    char *follows, *reach;
+
+    for (n = 0, l = *loop; l; l = l->next)
+	n++;
+    if (n < 3)
+	return 0;
+
+    loops = (CloogLoop **)malloc(n * sizeof(CloogLoop *));
+    follows = (char *)malloc(n * n);
+    reach = (char *)malloc(n * n);
+    if (!loops || !follows || !reach)
+	cloog_die("memory overflow.\n");
+
+    for (i = 0, l = *loop; l; l = l->next, i++)
+	loops[i] = l;
+    for (i = 0; i < n; i++)
+	for (j = 0; j < n; j++)
+	    follows[i * n + j] = reach[i * n + j] = i != j &&
+		cloog_domain_follows(loops[i]->domain, loops[j]->domain,
+				     level) > 0;
+    for (k = 0; k < n; k++)
+	for (i = 0; i < n; i++)
+	    if (reach[i * n + k])
+		for (j = 0; j < n; j++)
+		    reach[i * n + j] |= reach[k * n + j];
+
+    for (i = 0; i < n && !split; i++)
+	for (j = 0; j < n && !split; j++) {
+	    if (!follows[i * n + j] || !reach[j * n + i])
+		continue;
+	    for (k = 0; k < n && !split; k++) {
+		if (!reach[i * n + k] || !reach[k * n + i])
+		    continue;
+		domain = cloog_domain_following_part(loops[k]->domain,
+				loops[i]->domain, loops[j]->domain, level);
+		rest = cloog_domain_difference(loops[k]->domain, domain);
+		if (cloog_domain_isempty(domain) ||
+		    cloog_domain_isempty(rest)) {
+		    cloog_domain_free(domain);
+		    cloog_domain_free(rest);
+		    continue;
+		}
+		prev = k ? &loops[k - 1]->next : loop;
+		next = loops[k]->next;
+		loops[k]->next = NULL;
+		*prev = cloog_loop_concat(
+			    cloog_loop_split(loops[k], domain, rest), next);
+		split = 1;
+	    }
+	}
+
+    free(loops);
+    free(follows);
+    free(reach);
+
+    return split;
+}
+
+
 /* Return a single polyhedron containing dom.
  * The simple hull may fail to bound the current dimension even if
  * every part of dom does.  Compute the convex hull in this case.
@@ -2032,7 +2119,9 @@ CloogLoop *cloog_loop_generate_general(CloogLoop *loop,
     }else{
     res = cloog_loop_separate(loop);
     if (level > 0 && level+scalar <= nb_scattdims)
-      res = cloog_loop_split_unordered(res, level);
+      do
+	res = cloog_loop_split_unordered(res, level);
+      while (cloog_loop_split_cycle(&res, level));
     separate = 1;
   }
     
-- 
2.43.0


From 9c9b2ae13258291ebe0ebb2f0b3fe97d08e3421f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:57 +0000
Subject: [PATCH 31/33] fix: do not take the rest of a long line for the next
 line

---
 include/cloog/input.h |  1 +
 source/input.c        | 22 +++++++++++++++++++++-
 source/loop.c         |  2 +-
 source/matrix.c       |  2 +-
 source/names.c        |  4 ++--
 source/union_domain.c |  4 ++--
 6 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/include/cloog/input.h b/include/cloog/input.h
index b3d3c53..40f1a52 100644
--- a/include/cloog/input.h
+++ b/include/cloog/input.h
@@ -17,6 +17,7 @@ CloogInput *cloog_input_from_osl_scop(CloogState *, struct osl_scop *);
 CloogInput *cloog_input_read(FILE *file, CloogOptions *options);
 CloogInput *cloog_input_alloc(CloogDomain *context, CloogUnionDomain *ud);
 void cloog_input_free(CloogInput *input);
+char *cloog_input_read_line(char *line, int len, FILE *file);
 
 void cloog_input_dump_cloog(FILE *file, CloogInput *input, CloogOptions *opt);
 
diff --git a/source/input.c b/source/input.c
index 49106cc..599c533 100644
--- a/source/input.c
+++ b/source/input.c
@@ -1,6 +1,7 @@
 #include <ctype.h>
 #include <stdio.h>
 #include <stdlib.h>
+#include <string.h>
 #include "../include/cloog/cloog.h"
 
 #ifdef OSL_SUPPORT
@@ -9,12 +10,31 @@
 
 #define ALLOC(type) (type*)malloc(sizeof(type))
 
+/**
+ * Read a line of at most len - 1 characters.  The rest of a longer line,
+ * a long comment for instance, is dropped such that it is not taken for
+ * the next line.
+ */
+char *cloog_input_read_line(char *line, int len, FILE *file)
+{
+	int c;
+
+	if (!fgets(line, len, file))
+		return NULL;
+	if ((int)strlen(line) == len - 1 && line[len - 2] != '\n')
+		do
+			c = fgetc(file);
+		while (c != EOF && c != '\n');
+
+	return line;
+}
+
 static char *next_line(FILE *input, char *line, unsigned len)
 {
 	char *p;
 
 	do {
-		if (!(p = fgets(line, len, input)))
+		if (!(p = cloog_input_read_line(line, len, input)))
 			return NULL;
 		while (isspace(*p) && *p != '\n')
 			++p;
diff --git a/source/loop.c b/source/loop.c
index 904935d..342ef41 100644
--- a/source/loop.c
+++ b/source/loop.c
@@ -369,7 +369,7 @@ CloogLoop *cloog_loop_read(CloogState *state,
     
   /* To read that stupid "0 0 0" line. */
   do {
-    if (!fgets(s, MAX_STRING, foo))
+    if (!cloog_input_read_line(s, MAX_STRING, foo))
       cloog_die("Input error.\n");
   } while ((*s=='#' || *s=='\n') || (sscanf(s," %d %d %d",&op1,&op2,&op3)<3));
 
diff --git a/source/matrix.c b/source/matrix.c
index ad75b11..1fa8703 100644
--- a/source/matrix.c
+++ b/source/matrix.c
@@ -156,7 +156,7 @@ static char *next_line(FILE *input, char *line, unsigned len)
 	char *p;
 
 	do {
-		if (!(p = fgets(line, len, input)))
+		if (!(p = cloog_input_read_line(line, len, input)))
 			return NULL;
 		while (isspace(*p) && *p != '\n')
 			++p;
diff --git a/source/names.c b/source/names.c
index 0bc0ba9..bb27d1d 100644
--- a/source/names.c
+++ b/source/names.c
@@ -271,7 +271,7 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
 
   /* We first read name option. */
   do {
-    if (!fgets(s, MAX_STRING, file))
+    if (!cloog_input_read_line(s, MAX_STRING, file))
       cloog_die("no naming option in input file.\n");
   } while ((*s=='#' || *s=='\n') || (sscanf(s," %d",&option)<1));
   
@@ -289,7 +289,7 @@ char ** cloog_names_read_strings(FILE *file, int nb_items)
       cloog_die("memory overflow.\n");
     
     do  /* Skip the comments, spaces and empty lines... */
-    { c = fgets(s,MAX_STRING,file) ;
+    { c = cloog_input_read_line(s, MAX_STRING, file) ;
       while ((c != NULL) && isspace(*c) && (*c != '\n'))
       c++ ;
     }
diff --git a/source/union_domain.c b/source/union_domain.c
index e36a02a..6472315 100644
--- a/source/union_domain.c
+++ b/source/union_domain.c
@@ -156,7 +156,7 @@ static char *next_line(FILE *input, char *line, unsigned len)
 	char *p;
 
 	do {
-		if (!(p = fgets(line, len, input)))
+		if (!(p = cloog_input_read_line(line, len, input)))
 			return NULL;
 		while (isspace(*p) && *p != '\n')
 			++p;
@@ -180,7 +180,7 @@ static CloogScatteringList *cloog_scattering_list_read(FILE * foo,
 
     /* We read first the number of scattering functions in the list. */
     do {
-	if (!fgets(s, MAX_STRING, foo))
+	if (!cloog_input_read_line(s, MAX_STRING, foo))
 	    break;
     } while ((*s=='#' || *s=='\n') || (sscanf(s, " %d", &nb_scat) < 1));
 
-- 
2.43.0


From f6f91261266f063cc99408c65fbf27337d6691a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:57 +0000
Subject: [PATCH 32/33] fix: allow white space before the language of an input

---
 source/input.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/input.c b/source/input.c
index 599c533..31d298f 100644
--- a/source/input.c
+++ b/source/input.c
@@ -100,7 +100,7 @@ CloogInput *cloog_input_read(FILE *file, CloogOptions *options)
 	/* First of all, we read the language to use. */
 	if (!next_line(file, line, sizeof(line)))
 		cloog_die("Input error.\n");
-	if (sscanf(line, "%c", &language) != 1)
+	if (sscanf(line, " %c", &language) != 1)
 		cloog_die("Input error.\n");
    
 	if (language == 'f')
-- 
2.43.0


From 90627832dc14cf7b9cbf93a952cafdf6ee202f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:15 +0000
Subject: [PATCH 33/33] fix: do not give two iterators the same name

The name made up for a dimension of an isl_set whose name is taken, or
that has none, may be the name of yet another dimension or parameter.
---
 source/isl/domain.c | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/source/isl/domain.c b/source/isl/domain.c
index 06bad0a..fd57c50 100644
--- a/source/isl/domain.c
+++ b/source/isl/domain.c
@@ -1709,6 +1709,23 @@ static int count_same_name(__isl_keep isl_space *dim,
 	return count;
 }
 
+/**
+ * Is "name" already the name of a parameter or of one of the first "pos"
+ * iterators of "ud"?
+ */
+static int is_name_taken(CloogUnionDomain *ud, int pos, const char *name)
+{
+	int i;
+
+	for (i = 0; ud->name[CLOOG_PARAM] && i < ud->n_name[CLOOG_PARAM]; ++i)
+		if (!strcmp(ud->name[CLOOG_PARAM][i], name))
+			return 1;
+	for (i = 0; i < pos; ++i)
+		if (!strcmp(ud->name[CLOOG_ITER][i], name))
+			return 1;
+	return 0;
+}
+
 static CloogUnionDomain *add_domain(__isl_take isl_set *set, CloogUnionDomain *ud)
 {
 	int i, nvar;
@@ -1737,12 +1754,14 @@ static CloogUnionDomain *add_domain(__isl_take isl_set *set, CloogUnionDomain *u
 			name = buffer;
 		}
 		n = count_same_name(dim, isl_dim_set, i, name);
-		if (n) {
-			int size = strlen(name) + 10;
+		if (n || is_name_taken(ud, i, name)) {
+			int size = strlen(name) + 13;
 			long_name = isl_alloc_array(ctx, char, size);
 			if (!long_name)
 				cloog_die("memory overflow.\n");
-			snprintf(long_name, size, "%s_%d", name, n);
+			do
+				snprintf(long_name, size, "%s_%d", name, n++);
+			while (is_name_taken(ud, i, long_name));
 			name = long_name;
 		}
 		ud = cloog_union_domain_set_name(ud, CLOOG_ITER, i, name);
-- 
2.43.0

